"""P12: every consumed token occurs in the tree exactly once (counting argument)."""
from pbase import *
from ty import T, parse, strip, mangle
from tree import Fold, all_types, relevant, has_node, has_tok

BASIC = ['u32', 'i32', 'usize', 'bool', 'char', 'String', '()']

class P12(ParserProp):
    id = 'P12'
    def __init__(s, ex):
        super().__init__(ex)
        s.fold = Fold('sum', 'cn', 'ct', 'cv')
        ts = all_types(s.enums, ['Result<Box<Token>,String>', 'Result<Box<ASTNode>,String>', 'Option<Box<Token>>', 'Option<Box<ASTNode>>',
                                 'Box<Vec<Box<ASTNode>>>', 'Box<Vec<Box<Token>>>', '(Box<ASTNode>, Box<ASTNode>)', '(Box<Token>, Box<ASTNode>)', '(Box<ASTNode>, Box<Token>)',
                                 'Box<Vec<Box<(Box<Token>, Box<ASTNode>)>>>', '(Box<Token>, Box<Token>)', '(Box<Vec<Box<ASTNode>>>, Box<Vec<Box<Token>>>)'])
        # types of parameters and results of functions we do not know
        for f in s.fns:
            for p in f['params']:
                try: s._add(ts, p['ty'])
                except Exception: pass
            try: s._add(ts, f['ret'] or '()')
            except Exception: pass
        s.types = ts
    def _add(s, ts, t):
        t = parse(t)
        if t.k == 'Result' and t.a[1].k != 'String': return
        def ok(t):
            return t.k in ('Box', 'Option', 'Vec', 'tuple', 'Result') and all(ok(x) for x in t.a) or (t.k in ('ASTNode', 'Token', 'u32', 'String', 'bool', 'char') and not t.a)
        if not ok(t): return
        for x in [t] + list(t.a) + ([] if not t.a else list(t.a[0].a)):
            if all(repr(x) != repr(y) for y in ts) and not (x.k == 'tuple' and not x.a): ts.append(x)
    def ghost_fields(s, st):
        return [('gout', 'Ghost<int>', 'Ghost(0)')] if st == 'PythonCoreTokenizer' else []
    def assumptions(s): return ['the ghost counter gout of the lexer is, by definition of get_symbol here, the number of marked tokens it has delivered (which token is marked is arbitrary, so the counting argument is about every token)']
    def cval(s, e, t): return s.fold.of(e, t)
    def defs(s):
        o = []
        o.append('pub uninterp spec fn marked(t: Token) -> bool;\n')
        o.append('pub closed spec fn ct(t: Token) -> int { if marked(t) { 1 } else { 0 } }\n')
        o.append('#[verifier::opaque] pub open spec fn cn(n: ASTNode) -> int decreases n {\n match n {\n')
        for v in s.enums['ASTNode']['variants']:
            ns = ['a%d' % i for i in range(len(v['fields']))]
            o.append('  ASTNode::%s%s => %s,\n' % (v['name'], '(' + ', '.join(ns) + ')' if ns else '', s.fold.fields(v, ns)))
        o.append(' }\n}\n')
        # make sure every vec type has its function
        impls = []
        basics = set(BASIC)
        for t in s.types:
            if repr(t) in ('()',): continue
            impls.append('impl CV for %s { open spec fn cval(&self) -> int { %s } }\n' % (repr(t), s.fold.of('(*self)', t)))
        for b in ('i32', 'usize', 'bool', 'char', 'u32', 'String'):
            if all(repr(t) != b for t in s.types): impls.append('impl CV for %s { open spec fn cval(&self) -> int { 0 } }\n' % b)
        for m, t in list(s.fold.vecs.items()):
            o.append('#[verifier::opaque] pub open spec fn cv_%s(s: Seq<%s>) -> int decreases s { if s.len() == 0 { 0 } else { cv_%s(s.drop_last()) + %s } }\n' % (m, repr(t), m, s.fold.of('s.last()', t)))
        o.append('pub trait CV { spec fn cval(&self) -> int; }\n')
        o += impls
        o.append('pub open spec fn csym(r: Result<Box<Token>, String>) -> int { match r { Ok(t) => ct(*t), Err(_) => 0 } }\n')
        o.append('// tokens passed: delivered by the lexer and no longer looked at\npub open spec fn seen(p: &PythonCoreParser) -> int { p.lexer.gout@ - csym(p.symbol) }\n')
        return ''.join(o)
    def lemmas(s):
        o, names = [], []
        reveals = ''.join(' reveal_with_fuel(cv_%s, 2);' % m for m in s.fold.vecs)
        for v in s.enums['ASTNode']['variants']:
            if not v['fields']: continue
            ns = ['a%d' % i for i in range(len(v['fields']))]
            n = 'cn_' + v['name']
            names.append(n)
            o.append('pub broadcast proof fn %s(%s) ensures #[trigger] cn(ASTNode::%s(%s)) == %s { reveal_with_fuel(cn, 2);%s }\n' % (
                n, ', '.join('%s: %s' % x for x in zip(ns, v['fields'])), v['name'], ', '.join(ns), s.fold.fields(v, ns), reveals))
        for m, t in s.fold.vecs.items():
            el = lambda e: s.fold.of(e, t)
            S = 'Seq<%s>' % repr(t)
            o.append('''
pub broadcast proof fn cv_push_{m}(s: {S}, x: {t}) ensures #[trigger] cv_{m}(s.push(x)) == cv_{m}(s) + {e} {{ reveal_with_fuel(cn, 2);{reveals} assert(s.push(x).drop_last() =~= s); }}
pub broadcast proof fn cv_empty_{m}(s: {S}) requires s.len() == 0 ensures #[trigger] cv_{m}(s) == 0 {{ reveal_with_fuel(cn, 2);{reveals} }}
pub broadcast proof fn cv_one_{m}(s: {S}) requires s.len() == 1 ensures #[trigger] cv_{m}(s) == {e0} {{ reveal_with_fuel(cn, 3);{reveals3} assert(s.drop_last().len() == 0); }}
pub broadcast proof fn cv_nn_{m}(s: {S}) ensures true || #[trigger] cv_{m}(s) == 0 {{ }}
pub proof fn cv_cons_{m}(s: {S}) requires s.len() > 0 ensures cv_{m}(s) == {e0} + cv_{m}(s.drop_first()) decreases s.len() {{
  reveal_with_fuel(cn, 2);{reveals}
  if s.len() == 1 {{ assert(s.drop_last().len() == 0); assert(s.drop_first().len() == 0); }}
  else {{ cv_cons_{m}(s.drop_last()); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); assert(s.drop_first().last() == s.last()); assert(s.drop_last()[0] == s[0]); }}
}}
pub broadcast proof fn cv_rev_{m}(s: {S}) ensures #[trigger] cv_{m}(s.reverse()) == cv_{m}(s) decreases s.len() {{
  reveal_with_fuel(cn, 2);{reveals}
  if s.len() > 0 {{
    assert(s.reverse().drop_first() =~= s.drop_last().reverse());
    cv_cons_{m}(s.reverse());
    cv_rev_{m}(s.drop_last());
    assert(s.reverse()[0] == s.last());
  }}
}}
'''.format(m=m, S=S, t=repr(t), e=el('x'), e0=el('s[0]'), reveals=reveals, reveals3=reveals.replace(', 2)', ', 3)')))
            names += ['cv_push_' + m, 'cv_empty_' + m, 'cv_one_' + m, 'cv_rev_' + m]
        return ''.join(o), names
    def verify(s, f): return f['impl'] == 'PythonCoreParser' or (f['impl'] is None)
    def countable(s, t):
        return any(repr(t) == repr(x) for x in s.types)
    def spec(s, f):
        n = f['name']
        if n == 'get_symbol' and f['impl'] == 'PythonCoreTokenizer':
            return ([], [('definition of the counter', 'final(self).gout@ == old(self).gout@ + csym(r__)')], None)
        if not s.verify(f): return ([], [], None)
        mut = f['self'] and 'mut' in f['self']
        if n == 'new': return ([], [], None)
        if n == 'advance':
            return ([], [('advance accounts for the token it passes', 'seen(final(self)) == seen(old(self)) + csym(old(self).symbol)')], None)
        args = []
        for p in f['params']:
            t = parse(p['ty'])
            if t.k == 'refmut' and relevant(t.a[0]) and s.countable(t.a[0]): args.append('old(%s).cval() + final(%s).cval()' % (p['name'], p['name']))
            elif t.k == 'ref': pass
            elif relevant(t) and s.countable(t): args.append('%s.cval()' % p['name'])
        rt = parse(f['ret'] or '()')
        asum = ''.join(' - ' + a for a in args)
        if n in ('parse_blocks_eval_input', 'parse_blocks_file_input', 'parse_blocks_func_type_input'):
            return ([('fresh parser', 'old(self).symbol is Err')], [('P12 %s: every token read is in the tree exactly once' % n, 'r__ matches Ok(n) ==> seen(final(self)) + csym(final(self).symbol) == seen(old(self)) + n.cval()')], None)
        if n == 'parse_blocks_single_input':
            return ([('fresh parser', 'old(self).symbol is Err')], [('P12 %s: every token read is in the tree exactly once' % n, 'r__ matches Ok(n) ==> (seen(final(self)) == seen(old(self)) + n.cval() || seen(final(self)) + csym(final(self).symbol) == seen(old(self)) + n.cval())')], None)
        lab = s.claim(f, 'P12 %s: consumed tokens = tokens of the result' % n)
        if not mut and not args and not relevant(rt): return ([], s.helper(f), None)
        v, ok = None, ''
        if rt.k == 'Result':
            ok = 'r__ is Ok ==> '
            if relevant(rt.a[0]) and s.countable(rt.a[0]): v, ok = 'n.cval()', 'r__ matches Ok(n) ==> '
        elif relevant(rt) and s.countable(rt): v = 'r__.cval()'
        d = 'seen(final(self)) - seen(old(self))' if mut else '0int'
        ens = [(lab, ok + d + ' == ' + (v or '0int') + asum)]
        if n == 'parse_expressions_dictorset_maker': ens.append(('%s: a dictionary or a set' % n, 'r__ matches Ok(n) ==> (*n is DictionaryContainer || *n is SetContainer)'))
        if not s.known(f):
            ens += s.helper(f)
            if mut:
                ens += [('cand:h:%s:same' % n, 'seen(final(self)) == seen(old(self))'), ('cand:h:%s:one' % n, ok + 'seen(final(self)) == seen(old(self)) + csym(old(self).symbol)')]
                if rt.k == 'bool': ens += [('cand:h:%s:yes one' % n, 'r__ ==> seen(final(self)) == seen(old(self)) + csym(old(self).symbol)'), ('cand:h:%s:no same' % n, '!r__ ==> seen(final(self)) == seen(old(self))')]
            if v and f['self']: ens.append(('cand:h:%s:front' % n, ok + v + ' == csym(%s.symbol)' % ('old(self)' if mut else 'self')))
        return ([], ens, None)
    def mods(s, l): return [m['name'] for m in l['mods']]
    def bal(s, l): return 'seen(self)' + ''.join(' - %s.cval()' % m for m in s.mods(l))
    def loop_pre(s, f, l):
        if not (f['self'] and 'mut' in f['self']): return ''
        return 'let ghost bal__%d: int = %s;' % (l['k'], s.bal(l)) + ''.join(' let ghost was__%d_%s = %s;' % (l['k'], m['name'], m['name']) for m in s.opts(l))
    def opts(s, l): return [m for m in l['mods'] if (m['ty'] or '').replace(' ', '').startswith('Option<')]
    def loop_inv(s, f, l):
        if not (f['self'] and 'mut' in f['self']): return ([], None)
        return ([('P12 %s loop %d: tokens consumed so far are held' % (f['name'], l['k']), '%s == bal__%d' % (s.bal(l), l['k']))]
                + [('cand:%s:%d:%s' % (f['name'], l['k'], m['name']), '%s == was__%d_%s' % (m['name'], l['k'], m['name'])) for m in s.opts(l)], None)
    def canary(s):
        return '''
pub fn canary_file(p: &mut PythonCoreParser)
  requires old(p).symbol is Err
{ let r = p.parse_blocks_file_input(); if r.is_ok() { assert(false); //@ canary file_input
  } }
pub fn canary_test(p: &mut PythonCoreParser)
{ let r = p.parse_expressions_test(); if r.is_ok() { assert(false); //@ canary test
  } }
'''
