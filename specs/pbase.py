"""Shared pieces of the parser contracts."""
import re
import grammar
from gen import Prop, key
from ty import T, parse, strip, mangle
from tree import Fold, all_types, relevant, has_node, has_tok

ENTRY = ('parse_blocks_eval_input', 'parse_blocks_file_input', 'parse_blocks_single_input', 'parse_blocks_func_type_input')

class ParserProp(Prop):
    """Verifies the bodies of all parser functions; the lexer is represented by the contract lexer_spec()."""
    def verify(s, f): return f['impl'] == 'PythonCoreParser' or f['impl'] is None
    def mut(s, f): return bool(f['self'] and 'mut' in f['self'])
    def ret(s, f): return parse(f['ret'] or '()')
    def byname(s):
        if not hasattr(s, '_bn'): s._bn = {f['name']: f for f in s.fns if f['impl'] == 'PythonCoreParser'}
        return s._bn
    def local_ty(s, m):
        """type of a local from its annotation or its initialiser"""
        if m['ty']: return parse(m['ty'])
        i = (m['init'] or '').strip()
        q = re.match(r'(?:Box::new\s*\(\s*)?self\s*\.\s*(\w+)\s*\(.*\)\s*\?\s*\)?$', i, re.S)
        if q and q.group(1) in s.byname():
            r = s.ret(s.byname()[q.group(1)])
            if r.k == 'Result': return r.a[0]
        if i in ('true', 'false'): return T('bool')
        q = re.match(r'(\w+)\s*\.\s*(?:v)?clone\s*\(\s*\)$', i)
        return None
    def ctors(s, f):
        """variants constructed in the body, with the argument texts"""
        if '_ct' not in f:
            r = []
            b = f['body']
            for m in re.finditer(r'ASTNode\s*::\s*(\w+)\s*\(', b):
                i = m.end(); d = 1; a = ['']
                while i < len(b) and d:
                    c = b[i]
                    if c in '([{': d += 1
                    elif c in ')]}': d -= 1
                    if d == 1 and c == ',': a.append('')
                    elif d: a[-1] += c
                    i += 1
                r.append((m.group(1), [x.strip() for x in a]))
            f['_ct'] = r
        return f['_ct']

    def called(s, f):
        if '_called' not in f: f['_called'] = any(g is not f and re.search(r'\b%s\s*\(' % f['name'], g['body']) for g in s.fns)
        return f['_called']
    def first(s, f):
        """the kinds of token a function may be entrusted to find in front of it"""
        if not (s.mut(f) and s.called(f)): return []
        r = []
        for v, a in s.ctors(f):
            for x in (grammar.G[v][0][:1] if v in grammar.G else []):
                if x.k == 'T': r += [k for k in x.arg if k in s.toks() and k not in r]
        return [('cand:req:%s:front %s' % (f['name'], k), 'old(self).symbol matches Ok(t) && *t is %s' % k) for k in r]
    def toks(s): return {v['name'] for v in s.enums['Token']['variants']}
    def known(s, f): return f['name'] in grammar.R or f['name'] in ENTRY or f['name'] in ('advance', 'new')
    def claim(s, f, lab):
        """the label of a clause: a claim for the functions of the grammar, a candidate for a helper"""
        return lab if s.known(f) else 'cand:' + lab
    def kinds_in(s, f): return sorted({m for m in re.findall(r'\bToken\s*::\s*(\w+)', f['body'])} & {v['name'] for v in s.enums['Token']['variants']})
    def helper(s, f):
        """candidate contracts of a function the grammar table does not know: what it leaves alone, what its answer says about the token in front"""
        if s.known(f) or f['impl'] != 'PythonCoreParser' or not f['self']: return []
        n = f['name']; r = s.ret(f); o = []
        old, fin = ('old(self)', 'final(self)') if s.mut(f) else ('self', 'self')
        if s.mut(f):
            o += [('cand:h:%s:symbol' % n, 'final(self).symbol == old(self).symbol'), ('cand:h:%s:lexer' % n, 'final(self).lexer == old(self).lexer')]
        ks = s.kinds_in(f)
        if r.k == 'bool':
            if ks:
                c = '(%s.symbol matches Ok(t) && (%s))' % (old, ' || '.join('*t is %s' % k for k in ks))
                o += [('cand:h:%s:yes' % n, 'r__ ==> ' + c), ('cand:h:%s:no' % n, '!r__ ==> !' + c)]
                c = '(%s.symbol matches Ok(t) && (%s))' % (fin, ' || '.join('*t is %s' % k for k in ks))
                if s.mut(f): o += [('cand:h:%s:yes2' % n, 'r__ ==> ' + c), ('cand:h:%s:no2' % n, '!r__ ==> !' + c)]
        t = r.a[0] if r.k in ('Result', 'Option') else r
        hit = {'Result': 'r__ matches Ok(n) ==> ', 'Option': 'r__ matches Some(n) ==> '}.get(r.k, '')
        v = 'n' if hit else 'r__'
        if repr(strip(t)) == 'Token':
            d = '**' if t.k == 'ref' and t.a[0].k == 'Box' else '*' if t.k in ('Box', 'ref') else ''
            o += [('cand:h:%s:tok' % n, hit + '(%s.symbol matches Ok(t) && *t == %s%s)' % (old, d, v))]
            for k in ks: o.append(('cand:h:%s:tok %s' % (n, k), hit + '(%s%s is %s)' % (d, v, k)))
        elif r.k in ('Result', 'Option'):
            for k in ks: o.append(('cand:h:%s:had %s' % (n, k), hit.replace('(n)', '(_)') + '(%s.symbol matches Ok(t) && *t is %s)' % (old, k)))
            if ks and r.k == 'Option': o.append(('cand:h:%s:none' % n, 'r__ is None ==> !(%s.symbol matches Ok(t) && (%s))' % (old, ' || '.join('*t is %s' % k for k in ks))))
        return o
