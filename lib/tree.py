"""Type-directed specification functions over the syntax tree, generated from the enum declarations."""
from ty import T, parse, strip, mangle

def all_types(enums, extra=()):
    """every type spelled in a field of ASTNode, with all its component types"""
    seen = {}
    def add(t):
        if repr(t) in seen: return
        seen[repr(t)] = t
        for x in t.a: add(x)
    for v in enums['ASTNode']['variants']:
        for f in v['fields']: add(parse(f))
    for x in extra: add(parse(x))
    return list(seen.values())

def has_node(t): return t.k == 'ASTNode' or any(has_node(x) for x in t.a)
def has_tok(t): return t.k == 'Token' or any(has_tok(x) for x in t.a)
def relevant(t): return has_node(t) or has_tok(t)

class Fold:
    """A recursive int-valued (sum) or bool-valued (and) function over everything owned by a value.

    node / tok: names of the spec functions for ASTNode and Token; suffix: extra arguments."""
    def __init__(s, kind, node, tok, vec, params='', args=''):
        s.kind, s.node, s.tok, s.vec, s.params, s.args = kind, node, tok, vec, params, args
        s.zero = '0int' if kind == 'sum' else 'true'
        s.op = ' + ' if kind == 'sum' else ' && '
        s.ret = 'int' if kind == 'sum' else 'bool'
        s.vecs = {}
    def of(s, e, t):
        if t.k == 'Box': return s.of('(*%s)' % e, t.a[0])
        if not relevant(t): return s.zero
        if t.k == 'ASTNode': return s.node and '%s(%s%s)' % (s.node, e, s.args) or s.zero
        if t.k == 'Token': return s.tok and '%s(%s%s)' % (s.tok, e, s.args) or s.zero
        if t.k == 'Option':
            x = 'x%d' % e.count('x')
            return '(match %s { Some(%s) => %s, None => %s })' % (e, x, s.of(x, t.a[0]), s.zero)
        if t.k == 'tuple':
            parts = [s.of('%s.%d' % (e, i), x) for i, x in enumerate(t.a)]
            parts = [p for p in parts if p != s.zero]
            return '(' + s.op.join(parts or [s.zero]) + ')'
        if t.k == 'Vec':
            st = t.a[0]
            m = mangle(strip(st))
            s.vecs[m] = st
            return '%s_%s(%s@%s)' % (s.vec, m, e, s.args)
        if t.k == 'Result':
            x = 'x%d' % e.count('x')
            return '(match %s { Ok(%s) => %s, Err(_) => %s })' % (e, x, s.of(x, t.a[0]), s.zero)
        raise Exception('type ' + repr(t))
    def fields(s, v, names):
        parts = [s.of(n, parse(f)) for n, f in zip(names, v['fields'])]
        parts = [p for p in parts if p != s.zero]
        return s.op.join(parts or [s.zero])

