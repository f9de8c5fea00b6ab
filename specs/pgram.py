"""P13, P16, P17, P18: the tree conforms to the grammar of specs/grammar.py."""
import re
from pbase import *
import grammar
from grammar import G, C, R, TAG, F

PARAMS = {('parse_statements_ann_assign', 'left_node'): 'testlist_star_expr'}

class NodeFold(Fold):
    """conjunction over all nodes owned by a value"""
    def of(s, e, t):
        if not has_node(t): return 'true'
        return super().of(e, t)

class Gram(ParserProp):
    tag = 0
    def __init__(s, ex):
        super().__init__(ex)
        s.fold = NodeFold('and', 'ok', None, 'okv')
        s.preds = {}
        s.used = set()
        s.notes_ = []
        s.variants = {v['name']: v for v in s.enums['ASTNode']['variants']}
        s.tokens = {v['name'] for v in s.enums['Token']['variants']}
        s.local_text = {v: s.local(v) for v in s.variants}
        s.elem = {}      # class -> used as list element
        s.has_status = any(x['name'] == 'except_status' for x in s.structs.get('PythonCoreParser', {'fields': []})['fields']) and 'ET' in s.enums
    wide_ = False
    def want(s, v, f): return grammar.tag_of(v, f) == s.tag or (s.wide_ and f.k == 'N' and s.tag in (13, 16))
    # ---- conditions on fields ----
    def cond(s, v, f, e, t, d=0):
        """the condition that the value e of type t has the form f; 'true' if nothing is asked"""
        if t.k == 'Box': return s.cond(v, f, '(*%s)' % e, t.a[0], d)
        if f.k == 'T':
            if not s.want(v, f) or t.k != 'Token': return 'true'
            ks = [k for k in f.arg if k in s.tokens]
            return '(' + ' || '.join('%s is %s' % (e, k) for k in ks) + ')' if ks else 'false'
        if f.k == 'N':
            if not s.want(v, f) or t.k != 'ASTNode': return 'true'
            return s.cls(f.arg, e)
        if f.k == 'O':
            if t.k != 'Option': return 'true'
            x = 'o%d' % d
            c = s.cond(v, f.arg, x, t.a[0], d + 1)
            return c if c == 'true' else '(match %s { Some(%s) => %s, None => true })' % (e, x, c)
        if f.k == 'L':
            if t.k != 'Vec': return 'true'
            c = s.cond(v, f.arg, 'x', t.a[0], d + 1)
            if c == 'true': return c
            if c == 'false' or 'false' in c.strip('()').split(' && '): return '%s@.len() == 0' % e
            n = 'all_' + re.sub(r'\W+', '_', s.fid(f.arg)) + '_' + mangle(t.a[0])
            s.preds[n] = (repr(t.a[0]), c)
            return '%s(%s@)' % (n, e)
        if f.k == 'P':
            if t.k != 'tuple' or len(t.a) != len(f.arg): return 'true'
            cs = [s.cond(v, x, '%s.%d' % (e, i), y, d) for i, (x, y) in enumerate(zip(f.arg, t.a))]
            cs = [c for c in cs if c != 'true']
            return '(' + ' && '.join(cs) + ')' if cs else 'true'
    def fid(s, f):
        if f.k == 'T': return 'T' + '_'.join(f.arg)
        if f.k == 'N': return f.arg
        if f.k == 'P': return 'P' + '_'.join(s.fid(x) for x in f.arg)
        return f.k + s.fid(f.arg)
    def cls(s, c, e):
        s.used.add(c)
        return 'in_%s(%s)' % (c, e)
    def fields(s, v):
        """[(index, form, type)] of the non-position fields, None if the shape of the variant is not the one of the table"""
        if v not in G: return None
        fs = [(i, parse(t)) for i, t in enumerate(s.variants[v]['fields']) if t != 'u32']
        if len(fs) != len(G[v][0]): return None
        return [(i, g, t) for (i, t), g in zip(fs, G[v][0])]
    def local(s, v):
        fs = s.fields(v)
        if fs is None:
            if v in G: s.notes_.append('the shape of %s is not the one the grammar table knows' % v)
            return 'true'
        cs = [s.cond(v, g, 'a%d' % i, t) for i, g, t in fs]
        cs += s.extra(v, fs)
        return ' && '.join(c for c in cs if c != 'true') or 'true'
    def extra(s, v, fs): return []
    def subst(s, c, m):
        """a condition of the table over the field expressions m: index -> (expr, type)"""
        def n(q):
            e, t = m[int(q.group(1))]
            if strip(t).k == 'Option': return '(match %s { Some(l) => l@.len() as int, None => 0int })' % e
            return '%s@.len() as int' % e
        r = re.sub(r'#(\d)', lambda q: '(' + n(q) + ')', c)
        def kinds(q):
            e, t = m[int(q.group(1))]
            o = strip(t).k == 'Option'
            ks = ' || '.join('*l is %s' % k for k in q.group(2).split('|') if k in s.tokens) or 'false'
            return '(match %s { Some(l) => %s, None => false })' % (e, ks) if o else '({ let l = %s; %s })' % (e, ks)
        r = re.sub(r'@(\d):([\w|]+)', kinds, r)
        r = re.sub(r'\$(\d)', lambda q: '(if %s.is_some() { 1int } else { 0int })' % m[int(q.group(1))][0], r)
        r = re.sub(r'\?(\d)', lambda q: '%s.is_some()' % m[int(q.group(1))][0], r)
        return '(' + r + ')'
    # ---- definitions ----
    def defs(s):
        o = []
        o.append('#[verifier::opaque] pub open spec fn ok(n: ASTNode) -> bool decreases n {\n match n {\n')
        for v in s.enums['ASTNode']['variants']:
            ns = ['a%d' % i for i in range(len(v['fields']))]
            o.append('  ASTNode::%s%s => %s,\n' % (v['name'], '(' + ', '.join(ns) + ')' if ns else '', s.body(v['name'], ns)))
        o.append(' }\n}\n')
        for m, t in s.fold.vecs.items():
            o.append('#[verifier::opaque] pub open spec fn okv_%s(s: Seq<%s>) -> bool decreases s { if s.len() == 0 { true } else { okv_%s(s.drop_last()) && %s } }\n' % (m, repr(t), m, s.fold.of('s.last()', t)))
        s.classes_needed()
        num = s.kinds()
        o.append('#[verifier::opaque] pub open spec fn kind(n: ASTNode) -> int { match n { %s } }\n' % ', '.join('ASTNode::%s%s => %d' % (v, '(..)' if s.variants[v]['fields'] else '', k) for v, k in num.items()))
        for c in sorted(s.used):
            ks = sorted(num[x] for x in C[c] if x in s.variants)
            iv = []
            for k in ks:
                if iv and iv[-1][1] == k - 1: iv[-1][1] = k
                else: iv.append([k, k])
            o.append('pub open spec fn in_%s(n: ASTNode) -> bool { %s }\n' % (c, ' || '.join('kind(n) == %d' % a if a == b else '%d <= kind(n) <= %d' % (a, b) for a, b in iv) or 'false'))
        for n, (t, c) in sorted(s.preds.items()):
            o.append('pub open spec fn %s(s: Seq<%s>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> { let x = s[i]; %s } }\n' % (n, t, c))
        o.append(s.more_defs())
        return ''.join(o)
    def kinds(s):
        """a numbering of the variants in which the classes of the grammar are few intervals"""
        o = [v for v in C['small_stmt'] if v not in C['expr_stmt'] + C['yield_expr']] + C['yield_expr'] + ['TestList'] + [v for c in ('no_cond_test', 'test', 'star_or_test', 'testlist_star_expr', 'expr_stmt', 'stmt', 'suite') for v in C[c]] + list(G) + list(s.variants)
        r = {}
        for v in o:
            if v in s.variants and v not in r: r[v] = len(r) + 1
        return r
    def inspected(s):
        """variants the code itself asks for"""
        r = set()
        for f in s.fns:
            for m in re.finditer(r'ASTNode\s*::\s*(\w+)\s*(?:\([^()]*\))?\s*(?:=>|=[^=]|\||if\b)', f['body']): r.add(m.group(1))
        return sorted(r & set(s.variants))
    def more_defs(s): return ''
    def body(s, v, ns):
        c = s.local_text[v]
        f = s.fold.fields(s.variants[v], ns)
        return ' && '.join('(%s)' % x for x in (c, f) if x != 'true') or 'true'
    def classes_needed(s):
        for f in s.fns:
            c = R.get(f['name'])
            if c and s.result_class(f): s.used.add(c)
        for c in PARAMS.values(): s.used.add(c)
        for f in s.fns:
            if s.verify(f): s.spec(f); [s.loop_inv(f, l) for l in f['loops']]
    def result_class(s, f): return s.tag in (13, 16)
    def lemmas(s):
        o, names = [], []
        rv = ''.join(' reveal_with_fuel(okv_%s, 2);' % m for m in s.fold.vecs)
        for v in s.enums['ASTNode']['variants']:
            if not v['fields']: continue
            ns = ['a%d' % i for i in range(len(v['fields']))]
            n = 'ok_' + v['name']; names.append(n)
            o.append('pub broadcast proof fn %s(%s) ensures #[trigger] ok(ASTNode::%s(%s)) == (%s) { reveal_with_fuel(ok, 2);%s }\n' % (
                n, ', '.join('%s: %s' % x for x in zip(ns, v['fields'])), v['name'], ', '.join(ns), s.body(v['name'], ns), rv))
        num = s.kinds()
        for v in s.enums['ASTNode']['variants']:
            ns = ['a%d' % i for i in range(len(v['fields']))]
            n = 'kind_' + v['name']; names.append(n)
            o.append('pub broadcast proof fn %s(%s) ensures #[trigger] kind(ASTNode::%s%s) == %d { reveal(kind); }\n' % (n, ', '.join('%s: %s' % x for x in zip(ns, v['fields'])), v['name'], '(' + ', '.join(ns) + ')' if ns else '', num[v['name']]))
        for v in s.inspected():
            n = 'is_' + v; names.append(n)
            o.append('pub broadcast proof fn %s(n: ASTNode) ensures (#[trigger] kind(n) == %d) == (n is %s) { reveal(kind); }\n' % (n, num[v], v))
        for m, t in s.fold.vecs.items():
            el = lambda e: s.fold.of(e, t)
            S = 'Seq<%s>' % repr(t)
            o.append('''
pub broadcast proof fn okv_push_{m}(s: {S}, x: {t}) ensures #[trigger] okv_{m}(s.push(x)) == (okv_{m}(s) && {e}) {{ reveal_with_fuel(ok, 2);{rv} assert(s.push(x).drop_last() =~= s); }}
pub broadcast proof fn okv_empty_{m}(s: {S}) requires s.len() == 0 ensures #[trigger] okv_{m}(s) {{ reveal_with_fuel(ok, 2);{rv} }}
pub proof fn okv_cons_{m}(s: {S}) requires s.len() > 0 ensures okv_{m}(s) == ({e0} && okv_{m}(s.drop_first())) decreases s.len() {{
  reveal_with_fuel(ok, 2);{rv}
  if s.len() == 1 {{ assert(s.drop_last().len() == 0); assert(s.drop_first().len() == 0); }}
  else {{ okv_cons_{m}(s.drop_last()); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); assert(s.drop_first().last() == s.last()); assert(s.drop_last()[0] == s[0]); }}
}}
pub broadcast proof fn okv_rev_{m}(s: {S}) ensures #[trigger] okv_{m}(s.reverse()) == okv_{m}(s) decreases s.len() {{
  reveal_with_fuel(ok, 2);{rv}
  if s.len() > 0 {{
    assert(s.reverse().drop_first() =~= s.drop_last().reverse());
    okv_cons_{m}(s.reverse());
    okv_rev_{m}(s.drop_last());
    assert(s.reverse()[0] == s.last());
  }}
}}
pub broadcast proof fn okv_at_{m}(s: {S}, i: int) requires #[trigger] okv_{m}(s), 0 <= i < s.len() ensures ({ei}), #[trigger] s[i] == s[i] decreases s.len() {{
  reveal_with_fuel(ok, 2);{rv}
  if i < s.len() - 1 {{ okv_at_{m}(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }}
}}
'''.format(m=m, S=S, t=repr(t), e=el('x'), e0=el('s[0]'), ei=el('s[i]'), rv=rv))
            names += ['okv_push_' + m, 'okv_empty_' + m, 'okv_rev_' + m, 'okv_at_' + m]
        # the element predicates survive push and reverse
        for n, (t, c) in sorted(s.preds.items()):
            o.append('''
pub broadcast proof fn {n}_push(s: Seq<{t}>, x: {t}) ensures #[trigger] {n}(s.push(x)) == ({n}(s) && {c}) {{
  if {n}(s.push(x)) {{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies {{ let x = s[i]; {c} }} by {{ assert(s.push(x)[i] == s[i]); }} assert(s.push(x)[s.len() as int] == x); }}
}}
pub broadcast proof fn {n}_rev(s: Seq<{t}>) ensures #[trigger] {n}(s.reverse()) == {n}(s) {{
  assert(s.reverse().len() == s.len());
  if {n}(s.reverse()) {{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies {{ let x = s[i]; {c} }} by {{ assert(s.reverse()[s.len() - 1 - i] == s[i]); }} }}
  if {n}(s) {{ assert forall|i: int| #![trigger s.reverse()[i]] 0 <= i < s.len() implies {{ let x = s.reverse()[i]; {c} }} by {{ assert(s.reverse()[i] == s[s.len() - 1 - i]); }} }}
}}
'''.format(n=n, t=t, c=c))
            names += [n + '_push', n + '_rev']
        return ''.join(o), names
    # ---- contracts ----
    def is_entry(s, f): return f['name'] in ENTRY
    def spec(s, f):
        n = f['name']
        if not s.verify(f): return ([], [], None)
        req, ens = s.more_spec(f)
        ens = ens + s.helper(f)
        req = req + s.first(f)
        if n in ('new',): return (req, ens, None)
        cs = None
        for p in f['params']:
            t = parse(p['ty'])
            e = p['name']
            if t.k == 'refmut': e, t = 'old(%s)' % p['name'], t.a[0]
            elif t.k == 'ref': t = t.a[0]
            w = s.fold.of(e, t) if s.plain(t) else 'true'
            if w != 'true': req.append(('%s %s: the %s handed in is well formed' % (s.id, n, p['name']), w))
            if (n, p['name']) in PARAMS and s.result_class(f):
                c = PARAMS[(n, p['name'])]
                req.append(('%s %s: the %s handed in is a %s' % (s.id, n, p['name'], c), s.cls(c, '(*%s)' % p['name'])))
            elif s.plain(t) and relevant(t) and s.called(f): req += s.shapes(f, 'cand:req:%s:%s' % (n, p['name']), e, t, n not in R)
        r = s.ret(f)
        if r.k == 'Result' and s.plain(r.a[0]) and has_node(r.a[0]):
            ens.append(('%s %s: the result is well formed' % (s.id, n), 'r__ matches Ok(n) ==> ' + s.fold.of('n', r.a[0])))
            if n in R and s.result_class(f) and strip(r.a[0]).k == 'ASTNode':
                ens.append(('%s %s: yields a %s' % (s.id, n, R[n]), 'r__ matches Ok(n) ==> ' + s.cls(R[n], '*n')))
        elif s.plain(r) and has_node(r): ens.append(('%s %s: the result is well formed' % (s.id, n), s.fold.of('r__', r)))
        if n not in R:
            if r.k == 'Result' and s.plain(r.a[0]): ens += [(l, 'r__ matches Ok(n) ==> ' + c) for l, c in s.shapes(f, 'cand:ens:%s' % n, 'n', r.a[0], True)]
            elif s.plain(r): ens += s.shapes(f, 'cand:ens:%s' % n, 'r__', r, True)
        for p in f['params']:
            t = parse(p['ty'])
            if t.k == 'refmut' and s.plain(t.a[0]):
                w = s.fold.of('final(%s)' % p['name'], t.a[0])
                ok = 'r__ is Ok ==> ' if r.k == 'Result' else ''
                if w != 'true': ens.append(('%s %s: the %s left behind is well formed' % (s.id, n, p['name']), ok + w))
                ens += [(l, ok + c) for l, c in s.shapes(f, 'cand:ens:%s:%s' % (n, p['name']), 'final(%s)' % p['name'], t.a[0], True)]
        return (req, ens, None)
    def more_spec(s, f): return [], []
    def plain(s, t):
        t = strip(t)
        return t.k in ('ASTNode', 'Token', 'u32', 'bool', 'usize', 'String') and not t.a or (t.k in ('Option', 'Vec', 'tuple') and all(s.plain(x) for x in t.a))
    def forms(s, f, wide=False):
        """(variant, form, type) of the fields of the variants built in f; of all variants for a function the table does not know"""
        vs = [v for v, a in s.ctors(f) if v in s.variants]
        if wide or not vs: vs = list(vs) + [v for v in G if v in s.variants and v not in vs]
        r, seen = [], set()
        for v in vs:
            for x in (s.fields(v) or []):
                k = (s.fid(x[1]), repr(strip(x[2])), grammar.tag_of(v, x[1]))
                if k in seen: continue
                seen.add(k); r.append((v, x[1], x[2]))
        return r
    def shapes(s, f, lab, e, t, wide):
        """candidate facts about the value e of type t"""
        s.wide_ = True
        try: return s.shapes_(f, lab, e, t, wide)
        finally: s.wide_ = False
    def shapes_(s, f, lab, e, t, wide):
        if t.k == 'Box': return s.shapes_(f, lab, '(*%s)' % e, t.a[0], wide)
        o, seen = [], set()
        if t.k == 'tuple':
            for i, x in enumerate(t.a): o += s.shapes_(f, '%s.%d' % (lab, i), '%s.%d' % (e, i), x, wide)
            return o
        if t.k == 'ASTNode':
            cs = set()
            if f['name'] in R: cs.add(R[f['name']])
            for v, g, _ in s.forms(f, wide):
                while g.k in 'OL': g = g.arg
                for h in (g.arg if g.k == 'P' else [g]):
                    if h.k == 'N' and s.want(v, h): cs.add(h.arg)
            if wide: cs |= {R[x] for x in R} if s.result_class(f) else set()
            if not s.result_class(f): cs = set()
            return [('%s:%s' % (lab, c), s.cls(c, e)) for c in sorted(cs)]
        for v, g, gt in s.forms(f, wide):
            if repr(strip(gt)) != repr(strip(t)):
                # the elements of a list, before they are collected
                if g.k in 'OL' and repr(strip(gt).a[0] if strip(gt).a else '') == repr(strip(t)): g = g.arg
                else: continue
            c = s.cond(v, g, e, t)
            if c != 'true' and c not in seen:
                seen.add(c); o.append(('%s:%s' % (lab, s.fid(g)), c))
        return o
    def mods(s, f, l): return [(m['name'], s.local_ty(m)) for m in l['mods']]
    def loop_inv(s, f, l):
        o = []
        n = f['name']
        ms = [(a, t) for a, t in s.mods(f, l) if t is not None and s.plain(t)]
        L = 'cand:i:%s:%d' % (n, l['k'])
        for a, t in ms:
            w = s.fold.of(a, t)
            if w != 'true': o.append(('%s:%s:ok' % (L, a), w))
            o += s.shapes(f, '%s:%s' % (L, a), a, t, False)
        o += s.counts(f, l, L, ms)
        o += s.more_inv(f, l, L)
        return (o, None)
    def more_inv(s, f, l, L): return []
    def counts(s, f, l, L, ms): return []

class GramC(Gram):
    def canary(s):
        return '''
pub fn canary_file(p: &mut PythonCoreParser)
{ let r = p.parse_blocks_file_input(); if r.is_ok() { assert(false); //@ canary file_input
  } }
'''

class P17(GramC):
    id, tag = 'P17', 17
    def extra(s, v, fs):
        m = {k: ('a%d' % i, t) for k, (i, g, t) in enumerate(fs)}
        return [s.subst(c, m) for c in G[v][1]]
    def seps(s, f):
        """kinds of tokens that occur in the lists built in f"""
        r = []
        for v, g, _ in s.forms(f):
            if g.k == 'L':
                for x in (g.arg.arg if g.arg.k == 'P' else [g.arg]):
                    if x.k == 'T': r += [k for k in x.arg if k in s.tokens and k not in r]
        return r
    def counts(s, f, l, L, ms):
        o = []
        vec = [a for a, t in ms if strip(t).k == 'Vec']
        opt = [a for a, t in ms if strip(t).k == 'Option']
        for a in vec:
            o.append(('%s:%s>0' % (L, a), '%s@.len() > 0' % a))
            for k in s.seps(f): o.append(('%s:%s>0|%s' % (L, a, k), '%s@.len() > 0 || (self.symbol matches Ok(t) && *t is %s)' % (a, k)))
            for b in vec:
                if a == b: continue
                o.append(('%s:%s=%s+1' % (L, a, b), '%s@.len() == %s@.len() + 1' % (a, b)))
                for k in s.seps(f):
                    o.append(('%s:%s=%s,no %s' % (L, a, b, k), '%s@.len() == %s@.len() + 1 || (%s@.len() == %s@.len() && (self.symbol matches Ok(t) ==> !(*t is %s)))' % (a, b, a, b, k)))
                o.append(('%s:%s=%s|+1' % (L, a, b), '%s@.len() == %s@.len() + 1 || %s@.len() == %s@.len()' % (a, b, a, b)))
                if a < b: o.append(('%s:%s=%s' % (L, a, b), '%s@.len() == %s@.len()' % (a, b)))
        o += s.sums(f, l, L)
        for a in opt:
            for b in opt:
                if a < b: o.append(('%s:%s?%s' % (L, a, b), '%s.is_some() == %s.is_some()' % (a, b)))
                if a != b: o.append(('%s:%s>%s' % (L, a, b), '%s.is_some() ==> %s.is_some()' % (a, b)))
        return o

    def sums(s, f, l, L):
        """elements that stand outside of the list of elements count as elements too"""
        if f['name'] in R and not any('$' in c for v, a in s.ctors(f) if v in G for c in G[v][1]): return []
        m = [x['name'] for x in l['inscope'] if x['mut'] and (x['ty'] or '').replace(' ', '') == 'Option<Box<Token>>']
        vec = lambda t: [x['name'] for x in l['inscope'] if x['mut'] and (x['ty'] or '').replace(' ', '') == 'Box<Vec<Box<%s>>>' % t]
        if not m or len(m) > 6: return []
        o = [('%s:%s none' % (L, x), '%s.is_none()' % x) for x in m]
        o += [('%s:%s %s' % (L, x['name'], w), w + x['name']) for x in l['inscope'] if x['mut'] and (x['ty'] or (x['init'] in ('true', 'false') and 'bool')) == 'bool' for w in ('', '!')]
        p = ''.join(' + (if %s.is_some() { 1int } else { 0int })' % x for x in m)
        for a in vec('ASTNode'):
            for b in vec('Token'):
                o.append(('%s:%s all=%s+1' % (L, a, b), '%s@.len()%s == %s@.len() + 1' % (a, p, b)))
                o.append(('%s:%s all=%s' % (L, a, b), '%s@.len()%s == %s@.len()' % (a, p, b)))
        return o

class P13(GramC):
    id, tag = 'P13', 13
    def result_class(s, f): return True
    def comp(s, v):
        """indices of the fields of a variant whose parts a comprehension restricts"""
        fs = s.fields(v) if v in s.variants else None
        want = {'Argument': ['Option<ASTNode>', 'Option<Token>', 'Option<ASTNode>'], 'TestListComp': ['Vec<ASTNode>', 'Vec<Token>']}.get(v)
        return [i for i, g, t in fs] if fs and want and [repr(strip(t)) for i, g, t in fs] == want else None
    def extra(s, v, fs):
        """a comprehension stands behind exactly one element"""
        ix = s.comp(v)
        if not ix: return []
        s.used.add('comp_for')
        if v == 'Argument': return ['(match a%d { Some(n) => in_comp_for(*n) == a%d.is_none(), None => true })' % (ix[2], ix[1])]
        s.preds['nocomp'] = ('Box<ASTNode>', '!in_comp_for(*x)')
        l = 'a%d@' % ix[0]
        return ['(if %s.len() == 2 && a%d@.len() == 0 { in_comp_for(*%s[0]) && !in_comp_for(*%s[1]) } else { nocomp(%s) })' % (l, ix[1], l, l, l)]
    def more_inv(s, f, l, L):
        if 'nocomp' not in s.preds or f['name'] in R and not any(v == 'TestListComp' for v, a in s.ctors(f)): return []
        vec = lambda k: [a for a, t in s.mods(f, l) if t is not None and repr(strip(t)) == k]
        return [('%s:%s nocomp' % (L, a), 'nocomp(%s@)' % a) for a in vec('Vec<ASTNode>')] + \
            [('%s:%s=%s+%d' % (L, a, b, k), '%s@.len() == %s@.len() + %d' % (a, b, k)) for a in vec('Vec<ASTNode>') for b in vec('Vec<Token>') for k in (0, 1)]

class P16(GramC):
    id, tag = 'P16', 16
    def result_class(s, f): return True
    def more_defs(s):
        if 'ExceptStmt' not in s.variants: return ''
        return '''
pub open spec fn starred(n: ASTNode) -> bool { match n { ASTNode::ExceptStmt(_, _, c, _, _) => cstar(*c), _ => false } }
pub open spec fn cstar(n: ASTNode) -> bool { match n { ASTNode::ExceptClauseStmt(_, _, _, m, _) => m is Some, _ => false } }
pub open spec fn allstar(s: Seq<Box<ASTNode>>, b: bool) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> starred(*s[i]) == b }
pub open spec fn nomix(s: Seq<Box<ASTNode>>) -> bool { allstar(s, true) || allstar(s, false) }
'''
    def extra(s, v, fs):
        if v == 'TryStmt' and repr(strip(fs[3][2])) == 'Option<Vec<ASTNode>>': return ['(match a%d { Some(l) => nomix(l@), None => true })' % fs[3][0]]
        return []
    def lemmas(s):
        t, n = super().lemmas()
        t += '''
pub broadcast proof fn allstar_push(s: Seq<Box<ASTNode>>, x: Box<ASTNode>, b: bool) ensures #[trigger] allstar(s.push(x), b) == (allstar(s, b) && starred(*x) == b) {
  if allstar(s.push(x), b) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies starred(*s[i]) == b by { assert(s.push(x)[i] == s[i]); } assert(s.push(x)[s.len() as int] == x); }
}
pub broadcast proof fn allstar_rev(s: Seq<Box<ASTNode>>, b: bool) ensures #[trigger] allstar(s.reverse(), b) == allstar(s, b) {
  assert(s.reverse().len() == s.len());
  if allstar(s.reverse(), b) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies starred(*s[i]) == b by { assert(s.reverse()[s.len() - 1 - i] == s[i]); } }
  if allstar(s, b) { assert forall|i: int| #![trigger s.reverse()[i]] 0 <= i < s.len() implies starred(*s.reverse()[i]) == b by { assert(s.reverse()[i] == s[s.len() - 1 - i]); } }
}
'''
        return t, n + ['allstar_push', 'allstar_rev']
    def more_spec(s, f):
        if not s.has_status or not s.mut(f): return [], []
        r = s.ret(f)
        ok = 'r__ is Ok ==> ' if r.k == 'Result' else ''
        n = f['name']
        O, N = 'old(self).except_status', 'final(self).except_status'
        if n in ('parse_statements_except_clause', 'parse_statements_except_stmt'):
            st = 'cstar' if n.endswith('clause') else 'starred'
            return [], [('P16 %s: a handler is starred as the handlers before it' % n, 'r__ matches Ok(n) ==> !(%s is ExceptNone) && %s(*n) == (%s is ExceptMul) && (!(%s is ExceptNone) ==> %s == %s)' % (N, st, N, O, N, O))]
        return [], [('P16 %s: keeps the choice of the enclosing try statement' % n, ok + '%s == %s' % (N, O))]
    def more_inv(s, f, l, L):
        if not s.has_status or not s.mut(f): return []
        o = [(L + ':status', 'self.except_status == was__%d' % l['k']), (L + ':status0', 'self.except_status == old(self).except_status'), (L + ':chosen', '!(self.except_status is ExceptNone)')]
        for a, t in s.mods(f, l):
            if t is not None and repr(strip(t)) == 'Vec<ASTNode>': o.append(('%s:%s:star' % (L, a), 'allstar(%s@, self.except_status is ExceptMul)' % a))
        return o
    def loop_pre(s, f, l): return 'let ghost was__%d = self.except_status;' % l['k'] if s.has_status and s.mut(f) else ''

