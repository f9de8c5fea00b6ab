"""P14: the span of a node, and where its parts lie in it.

Overlap and containment are decided for one arbitrary position q of the source: a piece (node or token) covers q or not, and in every
node the number of parts that cover q is at most one, and none if the node does not cover q.  Order is stated field by field."""
import os
from pbase import *
from ty import T, parse, strip, mangle
from tree import Fold, all_types, relevant, has_node, has_tok
from p12 import P12

# lists whose elements stand on both sides of the optional parts
# the '/' of a parameter list is held last, but stands in front of the starred parameters
ORDER = {'VarArgsList': [2, 3, 8, 4, 5, 6, 7]}
MIXED = ('VarArgsList', 'TypedArgsList', 'TypeList')
# the line end of an interactive compound statement is looked at but not read (so is the end marker, which is empty)
UNREAD = {'SingleInput': 3}

class P14(P12):
    id = 'P14'
    rlimit = 40
    def __init__(s, ex):
        super().__init__(ex)
        s.fold = Fold('sum', 'cn', 'ct', 'cv')
        s.okf = Fold('and', 'okn', None, 'okv')
        s.vecs = {}
        s.F('lo', 'a', '0int')
        for v in s.enums['ASTNode']['variants']: s.local(v)
        for t in s.types: s.fold.of('x', t); s.okf.of('x', t); s.lo('x', t, '0int'); s.hi('x', t, '0int')
        for m, t in list(s.fold.vecs.items()): s.okf.vecs.setdefault(m, t); s.vecs.setdefault(m, t)
    def ghost_fields(s, st): return [('gn', 'Ghost<nat>', 'Ghost(0)'), ('gfirst', 'Ghost<int>', 'Ghost(0)')] if st == 'PythonCoreTokenizer' else []
    def assumptions(s): return ['the contract of get_symbol used here (spans in order, span of a token and position reported) is proved of the lexer by C02',
                                'the ghost fields gn and gfirst of the lexer are, by definition of get_symbol here, the number of its calls and the start of the first token',
                                'the position q whose cover is counted is arbitrary, so the argument is about every position']
    # ---- piecewise relations
    def F(s, n, e, b):
        f = Fold('and', n + 'n', n + 't', n + 'v', '', ', ' + b)
        f.vecs = s.vecs
        return f
    def lo(s, e, t, b): return s.F('lo', e, b).of(e, t)
    def hi(s, e, t, b): return s.F('hi', e, b).of(e, t)
    def var(s): s.nv = getattr(s, 'nv', 0) + 1; return 'y%d' % s.nv
    def both(s, xs):
        xs = [x for x in xs if x != 'true']
        return '(' + ' && '.join(xs) + ')' if xs else 'true'
    def some(s, e, f):
        v = s.var(); c = f(v)
        return 'true' if c == 'true' else '(match %s { Some(%s) => %s, None => true })' % (e, v, c)
    def before(s, a, t, b, u):
        """every piece of a ends before any piece of b starts"""
        while t.k == 'Box': a, t = '(*%s)' % a, t.a[0]
        while u.k == 'Box': b, u = '(*%s)' % b, u.a[0]
        if not relevant(t) or not relevant(u): return 'true'
        if t.k == 'Option': return s.some(a, lambda v: s.before(v, t.a[0], b, u))
        if u.k == 'Option': return s.some(b, lambda v: s.before(a, t, v, u.a[0]))
        if t.k == 'tuple': return s.both([s.before('%s.%d' % (a, i), x, b, u) for i, x in enumerate(t.a)])
        if u.k == 'tuple': return s.both([s.before(a, t, '%s.%d' % (b, i), x) for i, x in enumerate(u.a)])
        if t.k == 'ASTNode': return s.lo(b, u, 'ne(%s)' % a)
        if t.k == 'Token': return '(spanned(%s) ==> %s)' % (a, s.lo(b, u, 'te(%s)' % a))
        if u.k == 'ASTNode': return s.hi(a, t, 'ns(%s)' % b)
        if u.k == 'Token': return '(spanned(%s) ==> %s)' % (b, s.hi(a, t, 'ts(%s)' % b))
        return 'true'
    def adj(s, a, t, b, u):
        """a node ends where the token behind it starts"""
        while t.k == 'Box': a, t = '(*%s)' % a, t.a[0]
        while u.k == 'Box': b, u = '(*%s)' % b, u.a[0]
        if t.k == 'Option': return s.some(a, lambda v: s.adj(v, t.a[0], b, u))
        if u.k == 'Option': return s.some(b, lambda v: s.adj(a, t, v, u.a[0]))
        if t.k == 'tuple' and t.a: return s.adj('%s.%d' % (a, len(t.a) - 1), t.a[-1], b, u)
        if u.k == 'tuple' and u.a: return s.adj(a, t, '%s.0' % b, u.a[0])
        if t.k == 'ASTNode' and u.k == 'Token': return '(spanned(%s) ==> ne(%s) == ts(%s))' % (b, a, b)
        return 'true'
    def within(s, e, t):
        """the inner order of a value that is no node"""
        while t.k == 'Box': e, t = '(*%s)' % e, t.a[0]
        if t.k == 'Option': return s.some(e, lambda v: s.within(v, t.a[0]))
        if t.k == 'tuple': return s.both([s.before('%s.%d' % (e, i), x, '%s.%d' % (e, j), y) for i, x in enumerate(t.a) for j, y in enumerate(t.a) if i < j]
                                         + [s.adj('%s.%d' % (e, i), t.a[i], '%s.%d' % (e, i + 1), t.a[i + 1]) for i in range(len(t.a) - 1)] + [s.within('%s.%d' % (e, i), x) for i, x in enumerate(t.a)])
        if t.k == 'Vec' and relevant(t):
            m = mangle(strip(t.a[0])); s.vecs.setdefault(m, t.a[0])
            return '(asc_%s(%s@) || desc_%s(%s@))' % (m, e, m, e)
        return 'true'
    def starteq(s, fs, a0):
        for k, (e, t) in enumerate(fs):
            while t.k == 'Box': e, t = '(*%s)' % e, t.a[0]
            if t.k == 'Option':
                v = s.var()
                return '(match %s { Some(%s) => %s, None => %s })' % (e, v, s.starteq([(v, t.a[0])], a0), s.starteq(fs[k + 1:], a0))
            if t.k == 'tuple': return s.starteq([('%s.%d' % (e, i), x) for i, x in enumerate(t.a)], a0)
            if t.k == 'ASTNode': return 'ns(%s) == %s' % (e, a0)
            if t.k == 'Token': return '(spanned(%s) ==> ts(%s) == %s)' % (e, e, a0)
            return 'true'
        return 'true'
    def endeq(s, fs, a1):
        for k in range(len(fs) - 1, -1, -1):
            e, t = fs[k]
            while t.k == 'Box': e, t = '(*%s)' % e, t.a[0]
            if t.k == 'Option':
                v = s.var()
                return '(match %s { Some(%s) => %s, None => %s })' % (e, v, s.endeq([(v, t.a[0])], a1), s.endeq(fs[:k], a1))
            if t.k == 'tuple': return s.endeq([('%s.%d' % (e, i), x) for i, x in enumerate(t.a)], a1)
            if t.k == 'ASTNode': return 'ne(%s) == %s' % (e, a1)
            return 'true'
        return 'true'
    def local(s, v, ns=None, conj=False):
        """what holds between a node and its parts"""
        s.nv = 0
        f = [parse(x) for x in v['fields']]
        ns = ns or ['a%d' % i for i in range(len(f))]
        if len(f) < 2 or f[0].k != 'u32' or f[1].k != 'u32': return 'true'
        fs = [(ns[i], f[i]) for i in (ORDER.get(v['name']) if len(ORDER.get(v['name'], ())) == len(f) - 2 else range(2, len(f)))]
        full = fs
        if v['name'] in UNREAD: fs = [x for x in fs if x[0] != ns[UNREAD[v['name']]]]
        a0, a1 = ns[0], ns[1]
        sums = [p for p in (s.fold.of(e, t) for e, t in fs) if p != '0int']
        c = ['%s <= %s' % (a0, a1), '%s <= bi(%s <= q() && q() < %s)' % (' + '.join(sums or ['0int']), a0, a1)]
        for e, t in full: c += [s.lo(e, t, a0 + ' as int'), s.okf.of(e, t), s.within(e, t)]
        for e, t in fs: c.append(s.hi(e, t, a1 + ' as int'))
        isvec = lambda t: strip(t).k == 'Vec' or strip(t).k == 'Option' and strip(t).a[0].k == 'Vec'
        for i in range(len(full)):
            for j in range(i + 1, len(full)):
                if not (v['name'] in MIXED and (isvec(full[i][1]) or isvec(full[j][1]))):
                    c.append(s.before(*full[i], *full[j]))
                    if j == i + 1 and v['name'] not in MIXED: c.append(s.adj(*full[i], *full[j]))
                if full[j][1].k == 'Box' and strip(full[j][1]).k in ('ASTNode', 'Token') and v['name'] not in MIXED: break
        if v['name'] not in MIXED: c += [s.starteq(full, a0), s.endeq(fs, a1)]
        if conj: return c
        return s.both(c)
    # ---- definitions
    def defs(s):
        vs = s.enums['Token']['variants']
        isspan = lambda v: len(v['fields']) >= 2 and v['fields'][0] == 'u32' and v['fields'][1] == 'u32'
        isstart = lambda v: len(v['fields']) >= 1 and v['fields'][0] == 'u32' and not isspan(v)
        pat = lambda v, a='_', b='_': '%s(%s)' % (v['name'], ', '.join(([a, b] + ['_'] * 12)[:len(v['fields'])])) if v['fields'] else v['name']
        nvs = s.enums['ASTNode']['variants']
        o = []
        o.append('// an arbitrary position of the source\npub uninterp spec fn q() -> int;\npub open spec fn bi(x: bool) -> int { if x { 1 } else { 0 } }\n')
        o.append('pub open spec fn spanned(t: Token) -> bool { match t { %s => true, _ => false } }\n' % ' | '.join('Token::' + pat(v) for v in vs if isspan(v)))
        o.append('pub open spec fn ts(t: Token) -> int { match t { %s, _ => 0 } }\n' % ', '.join('Token::%s => a as int' % pat(v, 'a') for v in vs if isspan(v) or isstart(v)))
        o.append('pub open spec fn te(t: Token) -> int { match t { %s, _ => 0 } }\n' % ', '.join(['Token::%s => a as int' % pat(v, '_', 'a') for v in vs if isspan(v)] + ['Token::%s => a as int' % pat(v, 'a') for v in vs if isstart(v)]))
        o.append('pub open spec fn ct(t: Token) -> int { bi(spanned(t) && ts(t) <= q() && q() < te(t)) }\n')
        for n, k in (('ns', 0), ('ne', 1)):
            o.append('#[verifier::opaque] pub open spec fn %s(n: ASTNode) -> int { match n { %s } }\n' % (n, ', '.join('ASTNode::%s => %s' % ((pat(v, *(['a', '_'] if k == 0 else ['_', 'a'])), 'a as int') if isspan(v) else (pat(v), '0')) for v in nvs)))
        o.append('pub open spec fn cn(n: ASTNode) -> int { bi(ns(n) <= q() && q() < ne(n)) }\n')
        o.append('pub open spec fn lon(n: ASTNode, a: int) -> bool { a <= ns(n) }\npub open spec fn hin(n: ASTNode, a: int) -> bool { ne(n) <= a }\n')
        o.append('pub open spec fn lot(t: Token, a: int) -> bool { spanned(t) ==> a <= ts(t) }\npub open spec fn hit(t: Token, a: int) -> bool { spanned(t) ==> te(t) <= a }\n')
        o.append('#[verifier::opaque] pub open spec fn okn(n: ASTNode) -> bool decreases n {\n match n {\n')
        for v in nvs:
            ns = ['a%d' % i for i in range(len(v['fields']))]
            o.append('  ASTNode::%s%s => %s,\n' % (v['name'], '(' + ', '.join(ns) + ')' if ns else '', s.local(v)))
        o.append(' }\n}\n')
        for m, t in s.vecs.items():
            S = 'Seq<%s>' % repr(t)
            s.nv = 0
            o.append('#[verifier::opaque] pub open spec fn cv_%s(s: %s) -> int decreases s { if s.len() == 0 { 0 } else { cv_%s(s.drop_last()) + %s } }\n' % (m, S, m, s.fold.of('s.last()', t)))
            o.append('#[verifier::opaque] pub open spec fn okv_%s(s: %s) -> bool decreases s { s.len() == 0 || (okv_%s(s.drop_last()) && %s && %s) }\n' % (m, S, m, s.okf.of('s.last()', t), s.within('s.last()', t)))
            o.append('#[verifier::opaque] pub open spec fn lov_%s(s: %s, a: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> %s }\n' % (m, S, s.lo('s[i]', t, 'a')))
            o.append('#[verifier::opaque] pub open spec fn hiv_%s(s: %s, a: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> %s }\n' % (m, S, s.hi('s[i]', t, 'a')))
            bf = s.before('s[i]', t, 's[j]', t)
            o.append('#[verifier::opaque] pub open spec fn asc_%s(s: %s) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> %s }\n' % (m, S, bf))
            o.append('#[verifier::opaque] pub open spec fn desc_%s(s: %s) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> %s }\n' % (m, S, s.before('s[j]', t, 's[i]', t)))
        o.append('pub trait CV { spec fn cval(&self) -> int; }\n')
        for t in s.types:
            if repr(t) != '()': o.append('impl CV for %s { open spec fn cval(&self) -> int { %s } }\n' % (repr(t), s.fold.of('(*self)', t)))
        o.append('''pub open spec fn pos(p: &PythonCoreParser) -> int { p.lexer.token_start_position as int }
pub open spec fn idx(l: &PythonCoreTokenizer) -> int { l.source_buffer.index as int }
pub open spec fn tsp(l: &PythonCoreTokenizer) -> int { l.token_start_position as int }
// the token in front stands where the lexer says, and ends before the lexer goes on
pub open spec fn pinv(p: &PythonCoreParser) -> bool { pos(p) <= idx(&*p.lexer) && (p.symbol matches Ok(t) ==> (spanned(*t) ==> ts(*t) == pos(p) && ts(*t) <= te(*t) && te(*t) <= idx(&*p.lexer)) && (*t is EOF ==> ts(*t) == pos(p))) }
// has position q been passed
pub open spec fn csym(r: Result<Box<Token>, String>) -> int { match r { Ok(t) => ct(*t), Err(_) => 0 } }
pub open spec fn seen(p: &PythonCoreParser) -> int { bi(q() < pos(p)) }
''')
        return ''.join(o)
    def lemmas(s):
        o, names = ['pub broadcast proof fn okn_le(n: ASTNode) requires #[trigger] okn(n) ensures ns(n) <= ne(n) { reveal_with_fuel(okn, 2); reveal(ns); reveal(ne); }\n'], ['okn_le']
        rok = 'reveal_with_fuel(okn, 2); ' + ' '.join('reveal_with_fuel(okv_%s, 2);' % m for m, t in s.vecs.items() if has_node(t))
        for v in s.enums['ASTNode']['variants']:
            if not v['fields']: continue
            ns = ['a%d' % i for i in range(len(v['fields']))]
            ps = ', '.join('%s: %s' % x for x in zip(ns, v['fields']))
            e = 'ASTNode::%s(%s)' % (v['name'], ', '.join(ns))
            o.append('pub broadcast proof fn ok_%s(%s) ensures #[trigger] okn(%s) == %s { %s }\n' % (v['name'], ps, e, s.local(v), rok))
            o.append('pub broadcast proof fn ns_%s(%s) ensures #[trigger] ns(%s) == a0 { reveal(ns); }\npub broadcast proof fn ne_%s(%s) ensures #[trigger] ne(%s) == a1 { reveal(ne); }\n' % (v['name'], ps, e, v['name'], ps, e))
            names += [x + v['name'] for x in ('ok_', 'ns_', 'ne_')]
        for m, t in s.vecs.items():
            S = 'Seq<%s>' % repr(t)
            s.nv = 0
            rc, ro = 'reveal_with_fuel(cv_%s, 2);' % m, rok + ' reveal_with_fuel(okv_%s, 2);' % m
            el = lambda e: s.fold.of(e, t)
            okx = lambda e: s.both([s.okf.of(e, t), s.within(e, t)])
            endle = s.hi('s[i]', t, 'a')
            o.append('''
pub broadcast proof fn cv_push_{m}(s: {S}, x: {t}) ensures #[trigger] cv_{m}(s.push(x)) == cv_{m}(s) + {e} {{ {rc} assert(s.push(x).drop_last() =~= s); }}
pub broadcast proof fn cv_empty_{m}(s: {S}) requires s.len() == 0 ensures #[trigger] cv_{m}(s) == 0 {{ {rc} }}
pub proof fn cv_cons_{m}(s: {S}) requires s.len() > 0 ensures cv_{m}(s) == {e0} + cv_{m}(s.drop_first()) decreases s.len() {{
  {rc}
  if s.len() == 1 {{ assert(s.drop_last().len() == 0); assert(s.drop_first().len() == 0); }}
  else {{ cv_cons_{m}(s.drop_last()); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); assert(s.drop_first().last() == s.last()); assert(s.drop_last()[0] == s[0]); }}
}}
pub broadcast proof fn cv_rev_{m}(s: {S}) ensures #[trigger] cv_{m}(s.reverse()) == cv_{m}(s) decreases s.len() {{
  {rc}
  if s.len() > 0 {{ assert(s.reverse().drop_first() =~= s.drop_last().reverse()); cv_cons_{m}(s.reverse()); cv_rev_{m}(s.drop_last()); assert(s.reverse()[0] == s.last()); }}
}}
pub broadcast proof fn okv_push_{m}(s: {S}, x: {t}) ensures #[trigger] okv_{m}(s.push(x)) == (okv_{m}(s) && {o}) {{ {ro} assert(s.push(x).drop_last() =~= s); }}
pub broadcast proof fn okv_empty_{m}(s: {S}) requires s.len() == 0 ensures #[trigger] okv_{m}(s) {{ {ro} }}
pub proof fn okv_cons_{m}(s: {S}) requires s.len() > 0 ensures okv_{m}(s) == ({o0} && okv_{m}(s.drop_first())) decreases s.len() {{
  {ro}
  if s.len() == 1 {{ assert(s.drop_last().len() == 0); assert(s.drop_first().len() == 0); }}
  else {{ okv_cons_{m}(s.drop_last()); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); assert(s.drop_first().last() == s.last()); assert(s.drop_last()[0] == s[0]); }}
}}
pub broadcast proof fn okv_rev_{m}(s: {S}) ensures #[trigger] okv_{m}(s.reverse()) == okv_{m}(s) decreases s.len() {{
  {ro}
  if s.len() > 0 {{ assert(s.reverse().drop_first() =~= s.drop_last().reverse()); okv_cons_{m}(s.reverse()); okv_rev_{m}(s.drop_last()); assert(s.reverse()[0] == s.last()); }}
}}
'''.format(m=m, S=S, t=repr(t), e=el('x'), e0=el('s[0]'), o=okx('x'), o0=okx('s[0]'), rc=rc, ro=ro))
            names += [x + m for x in ('cv_push_', 'cv_empty_', 'cv_rev_', 'okv_push_', 'okv_empty_', 'okv_rev_')]
            for p, le in (('lov', 'b <= a'), ('hiv', 'a <= b')):
                c = lambda e, b: (s.lo if p == 'lov' else s.hi)(e, t, b)
                o.append('''
pub broadcast proof fn {p}_push_{m}(s: {S}, x: {t}, a: int) ensures #[trigger] {p}_{m}(s.push(x), a) == ({p}_{m}(s, a) && {c}) {{ reveal({p}_{m}); let z = s.push(x);
  if {p}_{m}(z, a) {{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies {ci} by {{ assert(z[i] == s[i]); }} assert(z[s.len() as int] == x); }} }}
pub broadcast proof fn {p}_empty_{m}(s: {S}, a: int) requires s.len() == 0 ensures #[trigger] {p}_{m}(s, a) {{ reveal({p}_{m}); }}
pub broadcast proof fn {p}_rev_{m}(s: {S}, a: int) ensures #[trigger] {p}_{m}(s.reverse(), a) == {p}_{m}(s, a) {{ reveal({p}_{m}); let z = s.reverse(); assert(z.len() == s.len());
  if {p}_{m}(z, a) {{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies {ci} by {{ assert(z[s.len() - 1 - i] == s[i]); }} }}
  if {p}_{m}(s, a) {{ assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies {cz} by {{ assert(z[i] == s[s.len() - 1 - i]); }} }} }}
pub broadcast proof fn {p}_mono_{m}(s: {S}, a: int, b: int) requires #[trigger] {p}_{m}(s, a), {le} ensures #[trigger] {p}_{m}(s, b) {{ reveal({p}_{m}); }}
'''.format(p=p, m=m, S=S, t=repr(t), c=c('x', 'a'), ci=c('s[i]', 'a'), cz=c('z[i]', 'a'), le=le))
                names += [p + x + m for x in ('_push_', '_empty_', '_rev_', '_mono_')]
            o.append('''
pub open spec fn vbef_{m}(s: {S}, x: {t}) -> bool {{ {bx} }}
pub broadcast proof fn asc_push_{m}(s: {S}, x: {t}) ensures asc_{m}(s) && vbef_{m}(s, x) ==> #[trigger] asc_{m}(s.push(x)) {{ reveal(asc_{m}); reveal(hiv_{m}); let z = s.push(x);
  if asc_{m}(s) && vbef_{m}(s, x) {{ assert forall|i: int, j: int| #![trigger z[i], z[j]] 0 <= i < j < z.len() implies {bz} by {{ assert(z[i] == s[i]); if j < s.len() {{ assert(z[j] == s[j]); }} }} }} }}
pub broadcast proof fn asc_empty_{m}(s: {S}) requires s.len() == 0 ensures #[trigger] asc_{m}(s) {{ reveal(asc_{m}); }}
pub broadcast proof fn desc_rev_{m}(s: {S}) ensures #[trigger] desc_{m}(s.reverse()) == asc_{m}(s) {{ reveal(asc_{m}); reveal(desc_{m}); let z = s.reverse(); assert(z.len() == s.len());
  if asc_{m}(s) {{ assert forall|i: int, j: int| #![trigger z[i], z[j]] 0 <= i < j < z.len() implies {bzr} by {{ assert(z[i] == s[s.len() - 1 - i]); assert(z[j] == s[s.len() - 1 - j]); }} }}
  if desc_{m}(z) {{ assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies {bs} by {{ assert(z[s.len() - 1 - i] == s[i]); assert(z[s.len() - 1 - j] == s[j]); }} }} }}
'''.format(m=m, S=S, t=repr(t), bx=s.both([s.before('s', T('Vec', [t]), 'x', t)]).replace('(s@,', '(s,'), bz=s.before('z[i]', t, 'z[j]', t), bzr=s.before('z[j]', t, 'z[i]', t), bs=s.before('s[i]', t, 's[j]', t)))
            names += [x + m for x in ('asc_push_', 'asc_empty_', 'desc_rev_')]
        return ''.join(o), names
    def canary(s):
        return '''
pub fn canary_file(p: &mut PythonCoreParser)
  requires old(p).symbol is Err, pinv(old(p)), old(p).lexer.gn@ == 0
{ let r = p.parse_blocks_file_input(); if r.is_ok() { assert(false); //@ canary file_input
  } }
pub fn canary_test(p: &mut PythonCoreParser)
  requires pinv(old(p))
{ let r = p.parse_expressions_test(); if r.is_ok() { assert(false); //@ canary test
  } }
'''
    # ---- contracts
    def verify(s, f): return f['impl'] == 'PythonCoreParser' or (f['impl'] is None)
    def spec(s, f):
        n = f['name']
        if f['impl'] == 'PythonCoreTokenizer' and n == 'get_position': return ([], [('position of the token', 'r__ == self.token_start_position')], None)
        if f['impl'] == 'PythonCoreTokenizer' and n == 'get_symbol':
            return ([], [('C02: the position does not go back', 'idx(final(self)) >= idx(old(self)) && tsp(final(self)) >= idx(old(self)) && tsp(final(self)) <= idx(final(self))'),
                         ('C02: a span begins where the last token ended or later and ends where the lexer goes on', 'r__ matches Ok(t) ==> spanned(*t) ==> ts(*t) == tsp(final(self)) && ts(*t) < te(*t) && te(*t) == idx(final(self))'),
                         ('C02: the end marker stands where the lexer stops', 'r__ matches Ok(t) ==> *t is EOF ==> ts(*t) == tsp(final(self))'),
                         ('definition of the ghost fields', 'final(self).gn@ == old(self).gn@ + 1 && final(self).gfirst@ == (if old(self).gn@ == 0 { tsp(final(self)) } else { old(self).gfirst@ })')], None)
        if not s.verify(f) or not f['self']: return ([], [], None)
        mut = s.mut(f)
        if not mut: return ([], s.helper(f) + ([('cand:%s:never' % n, 'r__ is Err')] if s.ret(f).k == 'Result' else []), None)
        P0, P1 = 'pos(old(self))', 'pos(final(self))'
        frame = [('P14 %s: the first token stays' % n, 'old(self).lexer.gn@ > 0 ==> final(self).lexer.gn@ > 0 && final(self).lexer.gfirst@ == old(self).lexer.gfirst@')]
        base = [('P14 %s: the position does not go back' % n, '%s >= %s' % (P1, P0)), ('P14 %s: the token in front stands at the position' % n, 'pinv(final(self))')]
        req = [('the token in front stands at the position', 'pinv(old(self))')]
        if n == 'advance':
            return (req, base + frame + [('advance: the first token', 'old(self).lexer.gn@ == 0 ==> final(self).lexer.gn@ > 0 && final(self).lexer.gfirst@ == pos(final(self))'),
                    ('advance passes the token in front', 'old(self).symbol matches Ok(t) ==> spanned(*t) ==> te(*t) <= %s' % P1), ('advance covers the token it passes', 'seen(final(self)) >= seen(old(self)) + csym(old(self).symbol)')], None)
        if n in ENTRY:
            return (req + [('a fresh parser', 'old(self).symbol is Err && old(self).lexer.gn@ == 0')],
                    [('P14 %s: starts at the first token' % n, 'r__ matches Ok(n) ==> ns(*n) == final(self).lexer.gfirst@'), ('P14 %s: ends where the next token starts' % n, 'r__ matches Ok(n) ==> ne(*n) == ' + P1),
                     ('P14 %s: every node spans its parts in order' % n, 'r__ matches Ok(n) ==> okn(*n)')], None)
        args, nodes = [], []
        for p in f['params']:
            t = parse(p['ty'])
            if t.k == 'refmut' and relevant(t.a[0]) and s.countable(t.a[0]): args.append((p['name'], 'old(%s)' % p['name'], 'final(%s)' % p['name'], t.a[0]))
            elif t.k in ('ref', 'refmut'): pass
            elif relevant(t) and s.countable(t): args.append((p['name'], p['name'], None, t)); nodes += [p['name']] if strip(t).k == 'ASTNode' else []
        rt = s.ret(f)
        v, vt, ok = None, None, ''
        if rt.k == 'Result':
            ok = 'r__ is Ok ==> '
            if relevant(rt.a[0]) and s.countable(rt.a[0]): v, vt, ok = 'n', rt.a[0], 'r__ matches Ok(n) ==> '
        elif relevant(rt) and s.countable(rt): v, vt = 'r__', rt
        ens = list(base) + frame
        sums = ''.join(' + ' + s.fold.of(a, t) for _, a, b, t in args)
        outs = ''.join(' + ' + s.fold.of(b, t) for _, a, b, t in args if b)
        ens.append((s.claim(f, 'P14 %s: what it reads covers its result' % n), ok + 'seen(final(self)) - seen(old(self))%s >= %s%s' % (sums, s.fold.of(v, vt) if v else '0int', outs)))
        C = (lambda lab: 'P14 %s: %s' % (n, lab)) if s.known(f) else (lambda lab: 'cand:h:%s:%s' % (n, lab))
        for a, e, e1, t in args:
            w = s.both([s.okf.of(e, t), s.within(e, t)])
            if w != 'true': req.append(('P14 %s: the %s handed in spans its parts' % (n, a), w))
            L = 'P14 %s: the %s handed in ' % (n, a) if s.known(f) else 'cand:req:%s:%s ' % (n, a)
            if strip(t).k == 'ASTNode' and not e1:
                req += [(L + 'ends here', 'ne(*%s) == %s' % (a, P0))]
                for p in f['params']:
                    if p['ty'].strip() == 'u32': req.append((L + 'starts at ' + p['name'], 'ns(*%s) == %s' % (a, p['name'])))
            else:
                req.append((L + 'lies behind', s.hi(e, t, P0)))
                for p in f['params']:
                    if p['ty'].strip() == 'u32' and not s.known(f): req.append((L + 'lies beyond ' + p['name'], s.lo(e, t, p['name'] + ' as int')))
                    if p['ty'].strip() == 'u32' and not s.known(f) and strip(t).k == 'Token': req.append((L + 'starts at ' + p['name'], '(spanned(*%s) ==> ts(*%s) == %s)' % (a, a, p['name'])))
                    u = parse(p['ty'])
                    if p['name'] != a and not s.known(f) and s.countable(u) and relevant(u):
                        for k, c in (('before', s.before(e, t, p['name'], u)), ('next to', s.adj(e, t, p['name'], u))):
                            if c != 'true': req.append((L + k + ' ' + p['name'], c))
            if e1:
                w = s.both([s.okf.of(e1, t), s.within(e1, t)])
                if w != 'true': ens.append((C('the %s left behind spans its parts' % a), ok + w))
                ens.append((C('the %s left behind lies behind' % a), ok + s.hi(e1, t, P1)))
                ens.append((C('the %s left behind lies beyond' % a), ok + '(%s ==> %s)' % (s.lo(e, t, P0), s.lo(e1, t, P0))))
                if strip(t).k == 'Vec': ens.append(('cand:h:%s:%s sorted' % (n, a), ok + 'asc_%s(%s@) ==> asc_%s(%s@)' % (mangle(strip(t).a[0]), e, mangle(strip(t).a[0]), e1)))
                if strip(t).k == 'ASTNode': ens += [('cand:h:%s:%s ends' % (n, a), ok + 'ne(**%s) == %s' % (e1, P1)), ('cand:h:%s:%s starts' % (n, a), ok + 'ns(**%s) == ns(**%s)' % (e1, e))]
        for p in f['params']:
            if p['ty'].strip() == 'u32':
                if not s.known(f): req += [('cand:req:%s:%s behind' % (n, p['name']), '%s <= %s' % (p['name'], P0)), ('cand:req:%s:%s here' % (n, p['name']), '%s == %s' % (p['name'], P0))]
        if v:
            w = s.both([s.okf.of(v, vt), s.within(v, vt)])
            if w != 'true': ens.append((C('every node spans its parts in order'), ok + w))
            if os.environ.get('P14_DEBUG') == n:
                for x in s.enums['ASTNode']['variants']:
                    if x['name'] == os.environ['P14_VAR']:
                        ns = ['a%d' % i for i in range(len(x['fields']))]
                        for i, e in enumerate(s.local(x, ns, True)): ens.append(('DBG %d %s' % (i, e), ok + '(*n matches ASTNode::%s(%s) ==> %s)' % (x['name'], ', '.join(ns), e)))
            if strip(vt).k == 'ASTNode':
                e = '**' [: repr(vt).count('Box')] + v
                sts = [p['name'] for p in f['params'] if p['ty'].strip() == 'u32']
                if s.known(f): ens.append((C('starts at its first token'), ok + 'ns(%s) == %s' % (e, sts[0] if sts and nodes else P0)))
                else:
                    for x in [P0] + sts + ['ns(*%s)' % a for a in nodes]: ens.append((C('starts at ' + x), ok + 'ns(%s) == %s' % (e, x)))
                ens.append((C('ends where the next token starts'), ok + 'ne(%s) == %s' % (e, P1)))
            else:
                ens += [(C('lies behind'), ok + s.hi(v, vt, P1)), (C('lies beyond'), ok + s.lo(v, vt, P0))]
                if strip(vt).k == 'Vec': ens.append(('cand:h:%s:sorted' % n, ok + 'asc_%s(%s@)' % (mangle(strip(vt).a[0]), v)))
                if strip(vt).k == 'tuple':
                    for i, x in enumerate(strip(vt).a):
                        b = ('(*%s)' % v if vt.k == 'Box' else v) + '.%d' % i
                        y = (vt.a[0] if vt.k == 'Box' else vt).a[i]
                        if x.k == 'ASTNode': ens += [('cand:h:%s:%d ends' % (n, i), ok + 'ne(*%s) == %s' % (b, P1)), ('cand:h:%s:%d starts' % (n, i), ok + 'ns(*%s) == %s' % (b, P0))]
                        if x.k == 'Vec': ens.append(('cand:h:%s:%d sorted' % (n, i), ok + 'asc_%s(%s@)' % (mangle(x.a[0]), b)))
                        if x.k == 'Token': ens.append(('cand:h:%s:%d starts' % (n, i), ok + '(spanned(*%s) ==> ts(*%s) == %s)' % (b, b, P0)))
        if n == 'parse_expressions_dictorset_maker': ens.append(('%s: a dictionary or a set' % n, 'r__ matches Ok(n) ==> (*n is DictionaryContainer || *n is SetContainer)'))
        if not s.known(f):
            ens += s.helper(f)
            ens += [('cand:h:%s:same' % n, '%s == %s' % (P1, P0)), ('cand:h:%s:one' % n, ok + '(old(self).symbol matches Ok(t) ==> spanned(*t) ==> te(*t) <= %s)' % P1), ('cand:h:%s:one seen' % n, ok + 'seen(final(self)) >= seen(old(self)) + csym(old(self).symbol)')]
            if rt.k == 'bool': ens += [('cand:h:%s:yes one' % n, 'r__ ==> (old(self).symbol matches Ok(t) ==> spanned(*t) ==> te(*t) <= %s)' % P1), ('cand:h:%s:no same' % n, '!r__ ==> %s == %s' % (P1, P0))]
            if rt.k == 'Option': ens += [('cand:h:%s:none same' % n, 'r__ is None ==> %s == %s' % (P1, P0))]
        return (req, ens, None)
    def pl(s, f, l):
        return [(m['name'], s.local_ty(m)) for m in l['mods'] if s.local_ty(m) is not None and s.countable(s.local_ty(m)) and relevant(s.local_ty(m))]
    def bal(s, l): return 'seen(self)' + ''.join(' - %s.cval()' % a for a, t in s.pl(None, l))
    def loop_pre(s, f, l):
        if not s.mut(f): return ''
        return 'let ghost bal__%d: int = %s; let ghost lpos__%d: int = pos(self); let ghost lfirst__%d = self.lexer.gfirst@;' % (l['k'], s.bal(l), l['k'], l['k']) + ''.join(' let ghost was__%d_%s = %s;' % (l['k'], a, a) for a, t in s.pl(f, l) if strip(t).k in ('Option', 'ASTNode')) + ''.join(' let ghost was__%d_%s = %s@;' % (l['k'], a, '(*%s)' % a if t.k == 'Box' else a) for a, t in s.pl(f, l) if strip(t).k == 'Vec')
    def loop_inv(s, f, l):
        if not s.mut(f): return ([], None)
        n, k = f['name'], l['k']
        s.nv = 0
        o = [('P14 %s loop %d: the token in front stands at the position' % (n, k), 'pinv(self)'), ('P14 %s loop %d: the position does not go back' % (n, k), 'pos(self) >= lpos__%d' % k),
             ('P14 %s loop %d: the first token stays' % (n, k), 'old(self).lexer.gn@ > 0 ==> self.lexer.gn@ > 0 && self.lexer.gfirst@ == old(self).lexer.gfirst@'),
             ('P14 %s loop %d: what has been read covers what is held' % (n, k), '%s >= bal__%d' % (s.bal(l), k))]
        if n in ENTRY: o.append(('P14 %s loop %d: the first token' % (n, k), 'self.lexer.gn@ > 0 && self.lexer.gfirst@ == lfirst__%d' % k))
        L = 'cand:i:%s:%d:' % (n, k)
        ms = s.pl(f, l)
        lens = []
        def c(lab, e):
            if e != 'true': o.append((L + lab, e))
        for a, t in ms:
            c(a + ' ok', s.okf.of(a, t))
            c(a + ' behind', s.hi(a, t, 'pos(self)'))
            c(a + ' beyond', s.lo(a, t, 'pos(old(self))')) if n not in ENTRY else None
            c(a + ' beyond the loop', s.lo(a, t, 'lpos__%d' % k))
            st = strip(t)
            if st.k == 'Vec':
                m, d, w = mangle(strip(st.a[0])), ('(*%s)' % a if t.k == 'Box' else a) + '@', 'was__%d_%s' % (k, a)
                c(a + ' sorted', 'asc_%s(%s)' % (m, d))
                c(a + ' grows', '%s.len() <= %s.len()' % (w, d))
                c(a + ' first stays', '%s.len() > 0 ==> %s.len() > 0 && %s[0] == %s[0]' % (w, d, d, w))
                c(a + ' beyond as before', 'forall|z__: int| #![trigger lov_%s(%s, z__)] z__ <= lpos__%d && lov_%s(%s, z__) ==> lov_%s(%s, z__)' % (m, d, k, m, w, m, d))
                lens.append('%s.len() == %s.len()' % (d, w))
            else: c(a + ' inner', s.within(a, t))
            if st.k == 'ASTNode':
                d = '(*%s)' % a if t.k == 'Box' else a
                c(a + ' starts', 'ns(%s) == pos(old(self))' % d); c(a + ' ends', 'ne(%s) == pos(self)' % d); c(a + ' starts with it', 'ns(%s) == lpos__%d' % (d, k))
                c(a + ' starts as before', 'ns(%s) == ns(%swas__%d_%s)' % (d, '*' if t.k == 'Box' else '', k, a))
            if st.k == 'Option':
                c(a + ' as before', '%s == was__%d_%s' % (a, k, a))
            for b, u in ms:
                if a != b:
                    c('%s < %s' % (a, b), s.before(a, t, b, u)); c('%s | %s' % (a, b), s.adj(a, t, b, u))
        if lens: c('unmoved', '(%s) ==> pos(self) == lpos__%d' % (' && '.join(lens), k))
        return (o, None)
