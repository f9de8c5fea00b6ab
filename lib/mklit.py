"""rewrites lib/literals.json (the literals of the tree the search dictionary starts from)"""
import json, run, harness
w = run.Work()
try: json.dump(sorted(harness.literals(run.extract(run.extractor(w)))), open(harness.V + '/lib/literals.json', 'w'), indent=0)
finally: w.close()
