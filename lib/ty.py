"""Small parser for the field types that occur in the syntax tree and the token types."""
import re

class T:
    def __init__(s, k, a=()): s.k, s.a = k, tuple(a)
    def __repr__(s):
        if s.k == 'tuple': return '(' + ', '.join(map(repr, s.a)) + (',' if len(s.a) == 1 else '') + ')'
        if s.k == 'ref': return '&' + repr(s.a[0])
        return s.k + ('<' + ', '.join(map(repr, s.a)) + '>' if s.a else '')
    def __eq__(s, o): return repr(s) == repr(o)
    def __hash__(s): return hash(repr(s))

def parse(t):
    toks = re.findall(r"[A-Za-z_][A-Za-z_0-9:]*|'[a-z_]+|[<>(),&\[\];]|\S", t)
    pos = 0
    def p():
        nonlocal pos
        x = toks[pos]; pos += 1
        if x == '&':
            if toks[pos].startswith("'"): pos += 1
            if toks[pos] == 'mut': pos += 1; return T('refmut', [p()])
            return T('ref', [p()])
        if x == '(':
            a = []
            while toks[pos] != ')':
                a.append(p())
                if toks[pos] == ',': pos += 1
            pos += 1
            return T('tuple', a)
        name = x.split('::')[-1]
        a = []
        if pos < len(toks) and toks[pos] == '<':
            pos += 1
            while toks[pos] != '>':
                a.append(p())
                if toks[pos] == ',': pos += 1
            pos += 1
        return T(name, a)
    return p()

def strip(t):
    """Box is transparent for the verifier's values."""
    if t.k == 'Box': return strip(t.a[0])
    return T(t.k, [strip(x) for x in t.a])

def mangle(t):
    if t.k == 'tuple': return 't' + '_'.join(mangle(x) for x in t.a)
    return {'Option': 'o', 'Vec': 'v', 'Token': 'tok', 'ASTNode': 'node', 'Trivia': 'triv'}.get(t.k, t.k) + ''.join('_' + mangle(x) for x in t.a)
