"""Runs the check of one property: proof (Verus on the code extracted from /repo) and failing-input search (the real code)."""
import importlib, json, os, re, traceback, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/specs']
import gen, harness, grammar
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PROVERS = {   # property -> (module, class)
    'P12': ('p12', 'P12'), 'P13': ('pgram', 'P13'), 'P16': ('pgram', 'P16'), 'P17': ('pgram', 'P17'),
    'C04': ('plexer', 'C04'), 'C05': ('plexer', 'C05'), 'C06': ('plexer', 'C06'), 'C07': ('plexer', 'C07'), 'C08': ('plexer', 'C08'), 'C02': ('plexer', 'C02'), 'C03': ('plexer', 'C03'), 'C09': ('plexer', 'C09'), 'C10': ('plexer', 'C10'), 'C01': ('plexer', 'C01'),
    'P14': ('p14', 'P14'),
    'P15': ('pflow', 'P15'), 'P18': ('pflow', 'P18'), 'P11': ('pflow', 'P11'),
}
VERIFY_FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'assertion not satisfied', 'assert', 'possible arithmetic', 'decreases not satisfied',
               'could not prove termination', 'possible division', 'unable to prove', 'loop invariant', 'loop ensures', 'possible bit shift', 'cannot show', 'recommendation', 'termination')

def log(*a): print(*a, file=sys.stderr, flush=True)

class Work:
    def __init__(s):
        s.d = tempfile.mkdtemp(prefix='verif-')
    def close(s): shutil.rmtree(s.d, ignore_errors=True)

def extractor(w):
    """the extractor, built from /verif/extract"""
    t = V + '/target'
    b = t + '/release/extract'
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet', '--manifest-path', V + '/extract/Cargo.toml', '--target-dir', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        t = w.d + '/target'; b = t + '/release/extract'
        r = subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet', '--manifest-path', V + '/extract/Cargo.toml', '--target-dir', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise Exception('the extractor does not build: ' + r.stdout[-2000:])
    return b

def extract(b):
    r = subprocess.run([b, REPO], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise Exception('extraction failed: ' + r.stderr[-1000:])
    return json.loads(r.stdout)

# ------------------------------------------------------------------ proof
class Fail:
    def __init__(s, fn, label, msg, line, text): s.fn, s.label, s.msg, s.line, s.text = fn, label, msg, line, text

def verus(w, name, text, rlimit, threads, timeout):
    path = '%s/%s.rs' % (w.d, name)
    open(path, 'w').write(text)
    cmd = ['verus', path, '--multiple-errors', '60', '--num-threads', str(threads), '--error-format=json', '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--no-report-long-running']
    t0 = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=w.d)
    except subprocess.TimeoutExpired: return None, None, time.time() - t0, cmd
    diags = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except Exception: pass
    try: out = json.loads(r.stdout[r.stdout.index('{'):])
    except Exception: out = None
    if out is None and not diags: diags = [{'level': 'error', 'message': 'verus: ' + r.stderr[-1500:], 'spans': [], 'rendered': r.stderr[-3000:]}]
    return out, diags, time.time() - t0, cmd

def fn_at(meta, line):
    for f in meta['fns']:
        if f['from'] <= line <= f['to']: return f['name']
    return None

def classify(text, meta, diags):
    lines = text.split('\n')
    fails, tool, rl = [], [], []
    for d in diags:
        if d.get('level') != 'error': continue
        m = d['message']
        if m.startswith('aborting due to'): continue
        sp = d.get('spans') or []
        if 'rlimit' in m or 'Resource limit' in m or 'resource limit' in m:
            ln = sp[0]['line_start'] if sp else 0
            rl.append((fn_at(meta, ln), m)); continue
        label, fn, line = None, None, 0
        for s in sorted(sp, key=lambda s: not s.get('is_primary')):
            for ln in range(s['line_start'], min(s['line_end'], s['line_start'] + 4) + 1):
                x = lines[ln - 1] if ln - 1 < len(lines) else ''
                if '//@ ' in x and label is None and ln == s['line_start']: label = x.split('//@ ', 1)[1].strip()
        # the function whose obligation it is: the span that is not the callee's clause
        cands = [s for s in sp if 'failed this' not in (s.get('label') or '') and 'failed precondition' not in (s.get('label') or '')] or sp
        if 'postcondition' in m or 'invariant' in m: cands = sp
        for s in cands:
            fn = fn_at(meta, s['line_start'])
            line = s['line_start']
            if fn: break
        if any(m.startswith(p) or p in m for p in VERIFY_FAIL) and not d.get('code'): fails.append(Fail(fn, label, m, line, d.get('rendered', '')))
        else: tool.append((fn, m, d.get('rendered', '')))
    return fails, tool, rl

class ProofResult: pass

def prove(w, ex, pid, threads=8, deadline=None, use_hints=True, hint_fail=None):
    mod, cls = PROVERS[pid]
    P = getattr(importlib.import_module(mod), cls)
    p = P(ex)
    p.id = pid
    hints = V + '/hints/%s.json' % pid
    hint = json.load(open(hints)) if use_hints and os.path.exists(hints) else {}
    p.dropped = set(hint.get('dropped', []))
    p.split = set(hint.get('split', []))
    p.external = {}
    R = ProofResult()
    R.hinted = bool(p.dropped)
    R.iterations = 0
    R.smt_ms = 0
    rlimit = max(getattr(p, 'rlimit', 20), hint.get('rlimit', 0))
    R.tool = []
    R.wall = 0
    raised = False
    while True:
        R.iterations += 1
        text, meta = gen.generate(ex, p)
        left = (deadline - time.time()) if deadline else 600
        if left < 5: R.status = 'timeout'; R.fails = []; R.rl = []; break
        out, diags, wall, cmd = verus(w, pid.lower(), text, rlimit, threads, left)
        R.wall += wall
        if out is None and diags is None: R.status = 'timeout'; R.fails = []; R.rl = []; break
        R.text, R.meta, R.cmd, R.out = text, meta, cmd, out
        fails, tool, rl = classify(text, meta, diags)
        if os.environ.get('VERIF_DEBUG'):
            shutil.copy('%s/%s.rs' % (w.d, pid.lower()), os.environ['VERIF_DEBUG'] + '/%s.rs' % pid.lower())
            log('iter', R.iterations, 'wall %.1f' % wall, 'fails', len(fails), 'tool', len(tool), 'rl', len(rl))
            import collections
            for k, n in collections.Counter((f.fn, f.label, f.msg) for f in fails).items(): log('   ', n, *k, [f.line for f in fails if (f.fn, f.label, f.msg) == k][:4])
            for t in tool: log('   TOOL', t[0], t[2][:600])
            for t in rl: log('   RL', t)
        if tool:
            new = [t for t in tool if t[0] and t[0] not in p.external]
            R.tool += [(t[0], t[1]) for t in tool]
            if not new: R.status = 'tool'; R.fails = []; R.rl = rl; R.toolmsg = tool[0][2]; break
            for t in new: p.external[t[0]] = t[1]
            if R.iterations > 12: R.status = 'tool'; R.fails = []; R.rl = rl; R.toolmsg = tool[0][2]; break
            continue
        canary = [f for f in fails if f.label and f.label.startswith('canary')]
        fails = [f for f in fails if f not in canary]
        cand = [f for f in fails if f.label and f.label.startswith('cand')]
        real = [f for f in fails if f not in cand]
        # where panics are another property's business, runs that panic are left out and what rules them out is no claim
        soft = [] if p.panics() else [f for f in real if 'arithmetic' in f.msg or 'division' in f.msg or (f.label or '').startswith('soft:')]
        real = [f for f in real if f not in soft]
        R.soft = sorted({'%s: %s' % (f.fn, f.label or f.msg) for f in soft})
        new = {f.label for f in cand} - p.dropped
        ns = {a for a, b in rl if a} - p.split
        if ns and not p.termination() and (not deadline or deadline - time.time() > wall + 5):
            p.split |= ns; p.dropped |= new; continue
        if new and R.iterations <= 40:
            p.dropped |= new
            if not deadline or deadline - time.time() > wall + 5: continue
        if rl and not raised and (not deadline or deadline - time.time() > 2 * wall):
            raised = True; rlimit *= 4; continue
        R.fails, R.rl = real, rl
        R.canary = len(canary)
        R.status = 'failed' if real else ('limit' if rl or new or any((f.label or '').startswith('soft:') for f in soft) else 'proved')
        # what the contracts trust of a type (structural clone and equality, no code at scope ends) is its own code here
        own = sorted({'%s for %s' % (f['trait'], f['impl']) for f in ex['fns'] if f.get('trait') in ('Clone', 'PartialEq', 'Drop', 'Deref', 'DerefMut')})
        for x in own: R.tool.append((x, 'an implementation of its own of what the contracts trust'))
        if R.status == 'proved' and (p.external or own): R.status = 'partial'
        if R.status == 'proved' and p.canaries() != len(canary): R.status = 'vacuous'
        break
    R.p = p
    R.dropped = sorted(p.dropped)
    R.rlimit = rlimit
    return R

def stats(R):
    """obligation counts and solver time of the last run"""
    o = R.out or {}
    ver = o.get('verification-results', {})
    fb = []
    for m in o.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): fb.append((f['function'], f.get('mode'), f.get('time-micros', 0) / 1000.0, f.get('rlimit', 0), f.get('success')))
    return ver, fb

# ------------------------------------------------------------------ search
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def one(b, pid, fn, hexs, timeout=10):
    try: r = subprocess.run([b, 'one', pid, fn, hexs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired: return 1, 'does not end within %d s' % timeout, True
    if r.returncode not in (0, 1): return 1, 'the program is ended by signal/exit %d (stack exhausted or memory)' % r.returncode, True
    return r.returncode, r.stdout.strip(), False

class Search:
    def __init__(s, b, pid, seed):
        s.b, s.pid, s.seed = b, pid, seed
        s.stats = [0] * 6
        s.fail = None       # (fn, hex, message)
        s.known = []
        s.notes = []
        s.lock = threading.Lock()
        s.hard = 0
        s.next = 0
        s.chunks = 0
    def chunk(s, a, z):
        if s.fail: return
        while a < z and not s.fail:
            try:
                r = subprocess.run([s.b, s.pid, str(s.seed), str(a), str(z)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=90, preexec_fn=limits)
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired: out, rc = '', -999
            if rc == 0:
                s.take(out); s.chunks += 1
                return
            # crashed or hung: find the input
            with s.lock:
                s.hard += 1
                if s.hard > 4: return
            tr = tempfile.NamedTemporaryFile('w+', delete=False)
            try:
                try: subprocess.run([s.b, s.pid, str(s.seed), str(a), str(z), 'trace'], stdout=subprocess.DEVNULL, stderr=tr, timeout=60, preexec_fn=limits)
                except subprocess.TimeoutExpired: pass
                tr.seek(0); ls = [x for x in tr.read().split('\n') if x.strip().isdigit()]
            finally: tr.close(); os.unlink(tr.name)
            if not ls: s.notes.append('a run over inputs %d..%d was lost' % (a, z)); return
            i = int(ls[-1])
            o = subprocess.run([s.b, 'input', s.pid, str(s.seed), str(i)], stdout=subprocess.PIPE, text=True).stdout.rstrip('\n').split('\t')
            rc, m, hard = one(s.b, s.pid, o[0], o[1])
            if hard and s.pid in ('C01', 'P11'):
                hx = s.shrink_hard(o[0], o[1])
                with s.lock:
                    if not s.fail: s.fail = (o[0], hx, m)
                return
            s.notes.append('input %d (%s on %s) left out: %s' % (i, o[0], o[1][:200], m))
            a = i + 1
    def shrink_hard(s, fn, hx):
        c = list(bytes.fromhex(hx).decode())
        t0 = time.time(); step = max(1, len(c) // 2)
        while step and time.time() - t0 < 60:
            i = 0; any_ = False
            while i < len(c) and time.time() - t0 < 60:
                d = c[:i] + c[i + step:]
                if one(s.b, s.pid, fn, ''.join(d).encode().hex(), 3)[2]: c = d; any_ = True
                else: i += step
            if step == 1 and not any_: break
            step = step // 2 if step > 1 else 1
        return ''.join(c).encode().hex()
    def take(s, out):
        with s.lock:
            for l in out.split('\n'):
                p = l.split('\t')
                if p[0] == 'FAIL' and not s.fail: s.fail = (p[2], p[3], p[4])
                elif p[0] == 'KNOWN': s.known.append((p[1], p[2]))
                elif p[0] == 'STATS':
                    for i in range(6): s.stats[i] += int(p[i + 1])
    def run(s, total, size, workers, deadline):
        """inputs next..next+total, in chunks; stops at a failure or at the deadline"""
        cs = [(a, min(a + size, s.next + total)) for a in range(s.next, s.next + total, size)]
        s.next += total
        def go(c):
            if s.fail or time.time() > deadline: return
            s.chunk(*c)
        with ThreadPoolExecutor(workers) as e: list(e.map(go, cs))

def known_list(pid):
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) fn=(\S+) input=([0-9a-f]*) (.*)', l)
            if m and m.group(1) == pid: r.append((m.group(2).replace('-', ''), m.group(3), m.group(4)))
    return r

def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    w = Work()
    try: return check(w, pid, tier, seed, t0, argv)
    finally: w.close()

def check(w, pid, tier, seed, t0, argv):
    b = extractor(w)
    ex = extract(b)
    budget = 700 if tier == 'quick' else 3000
    deadline = t0 + budget
    box = {}
    def build():
        try: box['bin'], box['buildlog'] = harness.build(ex, REPO, w.d, grammar.rust_table())
        except Exception as e: box['buildlog'] = '%s: %s' % (type(e).__name__, e)
    bt = threading.Thread(target=build); bt.start()
    R = None
    if pid in PROVERS:
        try: R = prove(w, ex, pid, deadline=t0 + budget * 0.55)
        except Exception as e:   # code of a form the generator does not know: no verdict from the proof, the search stands in
            log(traceback.format_exc()); box['noproof'] = '%s: %s' % (type(e).__name__, e)
        if '--write-hints' in argv and R:
            json.dump({'dropped': R.dropped, 'split': sorted(R.p.split), 'rlimit': R.rlimit}, open(V + '/hints/%s.json' % pid, 'w'), indent=1)
    bt.join()
    S = None
    if box.get('bin'):
        S = Search(box['bin'], pid, seed)
        S.run(320000 if tier == 'quick' else 8000000, 10000 if tier == 'quick' else 50000, 8, time.time() + (40 if tier == 'quick' else 1200))
        if not S.fail and R is not None and R.status in ('failed', 'limit') and R.hinted:
            # the hints were found on another tree: once more without them
            try: R2 = prove(w, ex, pid, deadline=t0 + budget * 0.8, use_hints=False)
            except Exception: R2 = R
            if R2.status == 'proved' or (R2.status == 'failed' and R.status == 'failed'): R = R2
        if not S.fail and R is not None and R.status == 'failed':
            S.run(2000000, 20000, 8, min(deadline, time.time() + 120))
    rc, line = verdict(w, pid, tier, seed, t0, R, S, box)
    for x in line: print(x)
    return rc

ASSUME = [
 "the extraction's listed rewrites (DESIGN.md, 'What the extraction drops') keep the meaning of the code",
 'Clone on tokens, trivia and nodes is structural (derived); slice reverse, string equality, starts_with and core::mem::replace behave as the standard library documents',
 'Verus 0.2026.09.13 and Z3 are correct; rustc compiles what Verus read',
 'the call stack is large enough for the nesting depth of the source',
]

def verdict(w, pid, tier, seed, t0, R, S, box):
    lines = []
    cov = {}
    violations = 0
    rc = 0
    notes = []
    if box.get('noproof'): notes.append('the proof gave no verdict on this tree (%s); the bounded search below stands in' % box['noproof'])
    prop = R.p if R else None
    assumptions = list(ASSUME) + (list(prop.assumptions()) if prop else [])
    if R:
        ver, fb = stats(R)
        code = [f for f in fb if '::code::' in f[0] or '::defs::Python' in f[0] or '::defs::SourceBuffer' in f[0]]
        fnsv = [f['name'] for f in getattr(R, 'meta', {'fns': []})['fns'] if f['verified'] and f['name'] not in prop.external]
        contracts = [f for f in getattr(R, 'meta', {'fns': []})['fns'] if f['labels']]
        total = ver.get('verified', 0) + ver.get('errors', 0)
        cov['obligations'] = total - getattr(R, 'canary', 0)
        cov['discharged'] = ver.get('verified', 0)
        cov['named_clauses'] = sum(len(f['labels']) for f in getattr(R, 'meta', {'fns': []})['fns'])
        cov['functions_under_contract'] = sorted(f['name'] for f in contracts if f['name'] in fnsv)
        cov['functions_trusted'] = sorted(f['name'] for f in contracts if f['name'] not in fnsv)
        cov['functions_bounded'] = {k: v[:200] for k, v in prop.external.items()}
        cov['backend'] = 'Verus 0.2026.09.13.671956e with its bundled Z3 (one query per function, loop and lemma)'
        cov['solver_ms'] = round(sum(f[2] for f in fb), 1)
        cov['solver_rlimit'] = sum(f[3] or 0 for f in fb)
        cov['verus_wall_s'] = round(R.wall, 1)
        cov['verus_runs'] = R.iterations
        cov['dropped_candidate_invariants'] = len(R.dropped)
        cov['proof_status'] = R.status
        cov['canaries_rejected'] = getattr(R, 'canary', 0)
        cov['checker_cmd'] = 'verus <generated>.rs --rlimit %d --num-threads 8 (generated on this run from the working tree by extract/ and specs/%s.py)' % (R.rlimit, PROVERS[pid][0])
        cov['trusted_base'] = assumptions
        if R.tool: notes.append('outside of the verifier: ' + '; '.join('%s (%s)' % (a, b[:160]) for a, b in R.tool[:6]))
        if getattr(R, 'soft', None): notes.append('assumed, decided by C01: ' + '; '.join(R.soft[:8]))
        if R.rl: notes.append('solver limit reached in: ' + ', '.join(sorted({str(a) for a, b in R.rl})))
        if R.status in ('tool', 'timeout', 'limit', 'vacuous', 'partial'): notes.append('the proof gave no verdict on this tree (%s); the bounded search below stands in' % R.status)
    if S:
        cov['evaluations'] = S.stats[0]
        cov['distinct_nontrivial'] = S.stats[2]
        cov['rule'] = ('bounded stand-in and counterexample search on the real code: generated programs, mutations, token soups and exhaustive short strings; non-trivial: '
                       + ('every source lexed' if pid[0] == 'C' else 'accepted with more than three tree nodes'))
        try:
            o = subprocess.run([S.b, 'input', pid, str(seed), '3'], stdout=subprocess.PIPE, text=True).stdout.rstrip('\n').split('\t')
            cov['samples'] = [{'entry': o[0], 'source': bytes.fromhex(o[1]).decode()}]
        except Exception: cov['samples'] = []
        cov['search_accepted'] = S.stats[1]; cov['search_tokens'] = S.stats[3]; cov['search_nodes'] = S.stats[4]
        notes += S.notes[:5]
    else:
        notes.append('the search program did not build: ' + (box.get('buildlog') or '')[:400])
    # known findings
    for fn, hx, what in known_list(pid):
        if S:
            c, m, hard = one(S.b, pid, fn, hx)
            if 'listed finding' in m: lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    failed = R is not None and R.status == 'failed'
    if (S and S.fail) or failed:
        violations = 1
        rc = 1
        rd = V + '/replay'
        os.makedirs(rd, exist_ok=True)
        path = rd + '/%s.json' % pid
        rep = {'property': pid}
        if S and S.fail:
            fn, hx, m = S.fail
            rep['input'] = {'function': fn or 'the lexer', 'source': bytes.fromhex(hx).decode(), 'hex': hx, 'what_fails': m}
            rep['replay'] = 'cd /verif && ./check %s --replay %s %s' % (pid, fn or '-', hx)
        if failed:
            rep['failed_obligations'] = [{'function': f.fn, 'obligation': f.label, 'message': f.msg, 'verifier_output': f.text} for f in R.fails]
        json.dump(rep, open(path, 'w'), indent=1, ensure_ascii=False)
        if S and S.fail:
            lines.append('violation: %s on %r: %s' % (S.fail[0] or 'the lexer', bytes.fromhex(S.fail[1]).decode(), S.fail[2]))
        if failed:
            for f in R.fails[:8]: lines.append('failed obligation: %s: %s (%s)' % (f.fn, f.label, f.msg))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if S and S.fail else ' no-failing-input-found'))
    if notes: cov['notes'] = notes
    level = 'proof' if R is not None and R.status in ('proved', 'failed') else 'other'
    if level == 'other': cov.setdefault('explanation', 'the verifier gave no verdict on this tree; decided by the bounded search only')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'violations': violations, 'wall_s': round(time.time() - t0, 1)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1, ensure_ascii=False)
    if rc == 0: lines.append('OK property=%s proof=%s obligations=%s search=%s inputs %.0f s' % (pid, R.status if R else '-', cov.get('obligations'), cov.get('evaluations'), time.time() - t0))
    return rc, lines

def replay(argv):
    w = Work()
    try:
        ex = extract(extractor(w))
        b, o = harness.build(ex, REPO, w.d, grammar.rust_table())
        i = argv.index('--replay')
        rc, m, _ = one(b, argv[1], argv[i + 1].replace('-', ''), argv[i + 2] if len(argv) > i + 2 else '')
        print(m)
        return rc
    finally: w.close()

if __name__ == '__main__':
    sys.exit(replay(sys.argv) if '--replay' in sys.argv else main(sys.argv))
