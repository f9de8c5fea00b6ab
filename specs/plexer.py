"""Contracts of the lexer (C01..C10): SourceBuffer and PythonCoreTokenizer."""
import re
from gen import Prop, key
from ty import T, parse, strip, mangle

LEX = ('SourceBuffer', 'PythonCoreTokenizer')
STATE = ['token_start_position', 'parenthesis', 'is_at_beginning_of_line', 'tab_size', 'is_interactive', 'pending', 'indent_stack']
GROUND = ('get_char', 'peek_three_chars', 'advance', 'get_position', 'count', 'new', 'get_symbol', 'handle_string')

OPS = [  # spelling, token; a longer spelling stands in front of its prefixes
 ('**=', 'PyPowerAssign'), ('//=', 'PyFloorDivAssign'), ('<<=', 'PyShiftLeftAssign'), ('>>=', 'PyShiftRightAssign'), ('...', 'PyElipsis'),
 ('**', 'PyPower'), ('*=', 'PyMulAssign'), ('//', 'PyFloorDiv'), ('/=', 'PyDivAssign'), ('<<', 'PyShiftLeft'), ('<=', 'PyLessEqual'), ('<>', 'PyNotEqual'),
 ('>>', 'PyShiftRight'), ('>=', 'PyGreaterEqual'), ('+=', 'PyPlusAssign'), ('-=', 'PyMinusAssign'), ('->', 'PyArrow'), ('%=', 'PyModuloAssign'),
 ('@=', 'PyMatriceAssign'), (':=', 'PyColonAssign'), ('&=', 'PyBitAndAssign'), ('|=', 'PyBitOrAssign'), ('^=', 'PyBitXorAssign'), ('==', 'PyEqual'), ('!=', 'PyNotEqual'),
 ('*', 'PyMul'), ('/', 'PyDiv'), ('<', 'PyLess'), ('>', 'PyGreater'), ('.', 'PyDot'), ('+', 'PyPlus'), ('-', 'PyMinus'), ('%', 'PyModulo'), ('@', 'PyMatrice'),
 (':', 'PyColon'), ('&', 'PyBitAnd'), ('|', 'PyBitOr'), ('^', 'PyBitXor'), ('~', 'PyBitInvert'), (';', 'PySemiColon'), (',', 'PyComa'), ('=', 'PyAssign'),
 ('(', 'PyLeftParen'), ('[', 'PyLeftBracket'), ('{', 'PyLeftCurly'), (')', 'PyRightParen'), (']', 'PyRightBracket'), ('}', 'PyRightCurly')]
KW = [('False', 'PyFalse'), ('None', 'PyNone'), ('True', 'PyTrue'), ('and', 'PyAnd'), ('as', 'PyAs'), ('assert', 'PyAssert'), ('async', 'PyAsync'), ('await', 'PyAwait'),
 ('break', 'PyBreak'), ('class', 'PyClass'), ('continue', 'PyContinue'), ('def', 'PyDef'), ('del', 'PyDel'), ('elif', 'PyElif'), ('else', 'PyElse'), ('except', 'PyExcept'),
 ('finally', 'PyFinally'), ('for', 'PyFor'), ('from', 'PyFrom'), ('global', 'PyGlobal'), ('if', 'PyIf'), ('import', 'PyImport'), ('in', 'PyIn'), ('is', 'PyIs'),
 ('lambda', 'PyLambda'), ('nonlocal', 'PyNonLocal'), ('not', 'PyNot'), ('or', 'PyOr'), ('pass', 'PyPass'), ('raise', 'PyRaise'), ('return', 'PyReturn'), ('try', 'PyTry'),
 ('while', 'PyWhile'), ('with', 'PyWith'), ('yield', 'PyYield')]
PREFIXES = ['r', 'u', 'R', 'U', 'f', 'F', 'fr', 'Fr', 'fR', 'FR', 'rf', 'rF', 'Rf', 'RF']

INTS = ('u32', 'usize', 'i32', 'u8', 'u64', 'i64', 'u16', 'isize')
def ch(c): return "'\\''" if c == "'" else "'\\\\'" if c == '\\' else "'%s'" % c

class LexProp(Prop):
    id = 'CX'
    rlimit = 60
    def verify(s, f): return f['impl'] in LEX or (f['impl'] is None and 'Lexer' not in f['name'])
    def mut(s, f): return bool(f['self'] and 'mut' in f['self'])
    def ret(s, f): return parse(f['ret'] or '()')
    def known(s, f): return f['name'] in GROUND and f['impl'] in LEX
    def extra_trust(s): return ''
    def trust(s): return '''
pub mod ltrust {
use vstd::prelude::*;
verus!{
global size_of usize == 8;
// Trusted: the classes of characters of the standard library; only what is stated here about them is used.
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::external_body] pub broadcast proof fn ax_alnum(c: char)
  ensures #[trigger] alnum(c) == (alpha(c) || alnum(c)), c as u32 <= 127 ==> alnum(c) == (digit(c) || alpha(c)) {}
#[verifier::external_body] pub broadcast proof fn ax_alpha(c: char)
  ensures c as u32 <= 127 ==> #[trigger] alpha(c) == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')), alpha(c) ==> alnum(c) {}
pub broadcast group gl { ax_alnum, ax_alpha }
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == alpha(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == alnum(c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == digit(*c);
}
}
'''
    def assumptions(s): return [
      'char::is_alphabetic and char::is_alphanumeric are arbitrary classes that agree with their documentation on ASCII; is_ascii_digit, String::push, String::as_str, chars().collect(), Vec operations behave as documented',
      'the source has fewer than 2^29 characters (positions are 32 bit numbers); usize has 64 bits']
    def isspan(s, v): return len(v['fields']) >= 2 and v['fields'][0] == 'u32' and v['fields'][1] == 'u32'
    def isstart(s, v): return len(v['fields']) >= 1 and v['fields'][0] == 'u32' and not s.isspan(v)
    def pat(s, v, first='_', second='_'): return '%s(%s)' % (v['name'], ', '.join(([first, second] + ['_'] * 9)[:len(v['fields'])])) if v['fields'] else v['name']
    def defs(s):
        vs = s.enums['Token']['variants']
        o = ['use super::ltrust::*;\n']
        o.append('pub open spec fn at(c: Seq<char>, i: int) -> char { if 0 <= i && i < c.len() { c[i] } else { \'\\0\' } }\n')
        o.append('pub open spec fn src(l: &PythonCoreTokenizer) -> Seq<char> { l.source_buffer.source_buffer@ }\n')
        o.append('pub open spec fn idx(l: &PythonCoreTokenizer) -> int { l.source_buffer.index as int }\n')
        o.append('pub open spec fn tsp(l: &PythonCoreTokenizer) -> int { l.token_start_position as int }\n')
        o.append('pub open spec fn spanned(t: Token) -> bool { match t { %s => true, _ => false } }\n' % ' | '.join('Token::' + s.pat(v) for v in vs if s.isspan(v)))
        o.append('pub open spec fn ts(t: Token) -> int { match t { %s, _ => 0 } }\n' % ', '.join('Token::%s => a as int' % s.pat(v, 'a') for v in vs if s.isspan(v) or s.isstart(v)))
        o.append('pub open spec fn te(t: Token) -> int { match t { %s, %s, _ => 0 } }\n' % (', '.join('Token::%s => a as int' % s.pat(v, '_', 'a') for v in vs if s.isspan(v)), ', '.join('Token::%s => a as int' % s.pat(v, 'a') for v in vs if s.isstart(v))))
        o.append('pub open spec fn blank(c: char) -> bool { c == \' \' || c == \'\\t\' }\n')
        o.append('pub open spec fn nl(c: char) -> bool { c == \'\\r\' || c == \'\\n\' }\n')
        o.append(s.xdefs())
        return ''.join(o)
    def xdefs(s): return ''
    def lemmas(s):
        t, n = s.xlemmas()
        return ('use super::ltrust::*;\n' + t, n)
    def xlemmas(s): return ('pub proof fn nothing() {}\n', [])
    def code_extra(s): return 'use super::ltrust::*;\n'
    def broadcasts(s): return ['super::ltrust::gl']
    # ---- contracts
    def base(s, l): return [('tab size', '%s.tab_size == 4' % l), ('not interactive', '!%s.is_interactive' % l), ('nothing is pending at the start of a line', '%s.is_at_beginning_of_line ==> %s.pending == 0' % (l, l)),
      ('size of the indentation stack', '1 <= %s.indent_stack@.len() <= idx(%s) + 1' % (l, l)), ('pending marks', '-idx(%s) <= %s.pending <= 1' % (l, l))]
    def linv(s, l): return []           # [(label, expr over l)] : what holds between two requests
    def group(s, label): return label if re.match(r'C\d\d', label) else 'base'
    def soft(s): return '' if s.panics() else 'soft: '
    def ens_symbol(s): return []        # [(label, expr)]
    def ens_string(s): return []
    def req_string(s): return []
    def spec(s, f):
        n, im = f['name'], f['impl']
        if not s.verify(f): return ([], [], None)
        if im == 'SourceBuffer' and n in GROUND:
            c, i = 'self.source_buffer@', 'self.index as int'
            if n == 'get_char': return ([], [('get_char: the character at the position', 'r__ == at(%s, %s)' % (c, i))], None)
            if n == 'peek_three_chars': return ([], [('peek: character %d' % k, 'r__.%d == at(%s, %s + %d)' % (k, c, i, k)) for k in range(3)], None)
            if n == 'advance': return ([('position in range', 'old(self).index < 4294967295')] if s.panics() else [], [('advance: one further', 'final(self).index == old(self).index + 1'), ('advance: source untouched', 'final(self).source_buffer == old(self).source_buffer')], None)
            if n == 'get_position': return ([], [('position', 'r__ == self.index')], None)
            if n == 'count': return ([], [], None)
            if n == 'new': return ([], [('new: at the start', 'r__.index == 0'), ('new: the source', 'r__.source_buffer@ == buffer@')], None)
        if im == 'PythonCoreTokenizer':
            if n == 'get_position': return ([], [('position of the token', 'r__ == self.token_start_position')], None)
            if n == 'new': return ([('source length', 'buffer@.len() < 0x2000_0000')], [('new: the source', 'src(&r__) == buffer@'), ('new: at the start', 'r__.source_buffer.index == 0 && r__.token_start_position == 0')] + s.inv('(&r__)', 'new'), None)
            if n == 'get_symbol':
                return (s.inv('old(self)', 'get_symbol, before'), [('the source is not changed', 'src(final(self)) == src(old(self))'), ('the position does not go back', 'idx(final(self)) >= idx(old(self)) && tsp(final(self)) >= idx(old(self)) && tsp(final(self)) <= idx(final(self))')] + s.inv('final(self)', 'get_symbol, after', 'r__ is Ok ==> ') + s.ens_symbol(), s.dec_symbol())
            if n == 'handle_string':
                c, i = 'src(old(self))', 'idx(old(self))'
                fr = ' && '.join('final(self).%s == old(self).%s' % (x, x) for x in STATE)
                q = "(at(%s, %s) == '\\'' || at(%s, %s) == '\"')" % (c, i, c, i)
                return ([('cand:req:handle_string:quote', q), ('cand:req:handle_string:three', 'triple == (at({0}, {1} + 1) == at({0}, {1}) && at({0}, {1} + 2) == at({0}, {1}))'.format(c, i)), ('cand:req:handle_string:len', '%s < 0x4000_0000' % i), ('cand:req:handle_string:source length', '%s.len() < 0x2000_0000' % c), ('cand:req:handle_string:position', '%s <= %s.len()' % (i, c))] + s.req_string(), [('cand:h:handle_string:len', '%s <= %s.len() + 1 ==> idx(final(self)) <= %s.len()' % (i, c, c)), ('handle_string: source', 'src(final(self)) == ' + c), ('handle_string: the rest of the lexer is left alone', fr), ('handle_string: advances', 'idx(final(self)) >= ' + i),
                             ('handle_string: result', 'r__ matches Ok(t) ==> (*t matches Token::AtomString(a, b, _, _, p) && a == start && b as int == idx(final(self)) && p == prefix)')] + s.ens_string(), None)
        return s.helper(f)
    def dec_symbol(s): return None
    def inv(s, l, lab, pre=''):
        return ([(lab + ': source length', 'src(%s).len() < 0x2000_0000' % l), (s.soft() + lab + ': position', pre + 'idx(%s) <= src(%s).len() + 1' % (l, l))]
                + [('%s%s: %s' % (s.soft(), lab, a), pre + '(' + b + ')') for a, b in s.base(l)] + [('%s: %s' % (lab, a), pre + '(' + b + ')') for a, b in s.linv(l)])
    # ---- functions that are not known
    def helper(s, f):
        o, req = [], []
        n = f['name']
        r = s.ret(f)
        ok = 'r__ is Ok ==> ' if r.k == 'Result' else ''
        im = f['impl']
        if im in LEX and s.mut(f):
            if im == 'PythonCoreTokenizer':
                c0, c1, i0, i1 = 'src(old(self))', 'src(final(self))', 'idx(old(self))', 'idx(final(self))'
                for x in STATE: o.append(('cand:h:%s:%s' % (n, x), 'final(self).%s == old(self).%s' % (x, x)))
            else:
                c0, c1, i0, i1 = 'old(self).source_buffer@', 'final(self).source_buffer@', 'old(self).index as int', 'final(self).index as int'
            o.append(('cand:h:%s:source' % n, '%s == %s' % (c1, c0)))
            # where it may be called
            L = 'cand:req:%s:' % n
            req += [(L + 'source length', '%s.len() < 0x2000_0000' % c0), (L + 'position', '%s <= %s.len()' % (i0, c0)), (L + 'position1', '%s <= %s.len() + 1' % (i0, c0))]
            for p in f['params']:
                if p['ty'].strip() in INTS: req += [(L + p['name'] + ' small', '%s <= 16' % p['name']), (L + p['name'] + ' inside', '%s + %s <= %s.len()' % (i0, p['name'], c0)), (L + p['name'] + ' inside1', '%s + %s <= %s.len() + 1' % (i0, p['name'], c0))]
            o.append(('cand:h:%s:len' % n, '%s <= %s.len() ==> %s <= %s.len()' % (i0, c0, i1, c0)))
            o.append(('cand:h:%s:up' % n, '%s >= %s' % (i1, i0)))
            for k in range(4): o.append(('cand:h:%s:by%d' % (n, k), ok + '%s == %s + %d' % (i1, i0, k)))
            for p in f['params']:
                t = parse(p['ty'])
                if t.k in INTS: o.append(('cand:h:%s:by %s' % (n, p['name']), ok + '%s == %s + %s as int' % (i1, i0, p['name'])))
                if repr(t) == 'refmut<String>':
                    for k, g in (('', ''), ('ok', ok)): o.append(('cand:h:%s:text%s' % (n, k), g + 'final(%s)@ == old(%s)@ + %s.subrange(%s, %s)' % (p['name'], p['name'], c0, i0, i1)))
                    req.append(('cand:req:%s:%s' % (n, p['name']), 'old(%s)@ == %s.subrange(tsp(old(self)), %s)' % (p['name'], c0, i0)))
            rt = strip(r.a[0] if r.k in ('Result', 'Option') else r)
            if repr(rt) == 'String' and s.texts():
                v, g = ('r__', '') if r.k in ('String', 'Box') else ('x', 'r__ matches %s(x) ==> ' % ('Ok' if r.k == 'Result' else 'Some'))
                o.append(('cand:h:%s:gives text' % n, g + '%s@ == %s.subrange(%s, %s)' % (v, c0, i0, i1)))
            for x in s.exits(): o.append(('cand:h:%s:exit %s' % (n, x), ok + x.replace('#', 'at(%s, %s)' % (c1, i1))))
            o += s.xhelper(f, c0, i0, i1, ok)
        elif im in LEX and f['self'] and r.k == 'char':
            o.append(('cand:h:%s:char' % n, 'r__ == at(%s, %s)' % (('src(self)', 'idx(self)') if im != 'SourceBuffer' else ('self.source_buffer@', 'self.index as int'))))
        elif r.k == 'bool':
            for p in f['params']:
                if p['ty'].strip() in ('char', '&char'):
                    e = p['name'] if p['ty'].strip() == 'char' else '*' + p['name']
                    for q in ('digit(%s)', 'alpha(%s)', 'alnum(%s)', "(alpha(%s) || %s == '_')", "(alnum(%s) || %s == '_')", 'blank(%s)', 'nl(%s)', 'hexd(%s)', 'octd(%s)', 'bind(%s)', "(%s == '\\'' || %s == '\"')"):
                        o.append(('cand:h:%s:%s:%s' % (n, p['name'], q), 'r__ == ' + q.replace('%s', e)))
        for p in f['params']:
            t = strip(parse(p['ty']))
            rr = strip(r)
            if t.k == 'Vec' and rr.k == 'Option' and rr.a[0] == t:
                o.append(('cand:h:%s:none' % n, '(r__ is None) == (%s@.len() == 0)' % p['name']))
                o.append(('cand:h:%s:reversed' % n, 'r__ matches Some(v) ==> v@ == %s@.reverse()' % p['name']))
                o.append(('cand:h:%s:same' % n, 'r__ matches Some(v) ==> v@ == %s@' % p['name']))
            if t.k == 'Vec' and rr == t:
                o.append(('cand:h:%s:reversed' % n, 'r__@ == %s@.reverse()' % p['name']))
                o.append(('cand:h:%s:same' % n, 'r__@ == %s@' % p['name']))
        return (req, o, None)
    def xhelper(s, f, c0, i0, i1, ok): return []
    # ---- loops
    def loop_pre(s, f, l):
        if not f['self']: return ''
        return 'let ghost was_%d = *self;' % l['k'] + ''.join(' let ghost wl_%d_%s = %s;' % (l['k'], m['name'], m['name']) for m in l['mods'] if s.lty(m) in ('bool', 'u32') or s.isint(m)) + s.xloop_pre(f, l)
    def xloop_pre(s, f, l): return ''
    def lty(s, m):
        t, i = (m['ty'] or '').replace(' ', ''), (m['init'] or '').strip()
        if t in ('String', 'bool', 'u32') or (t and t not in ('Box<String>',)): return t
        if re.match(r'(Box::new\s*\(\s*)?String\s*::', i): return 'Box<String>' if i.startswith('Box') else 'String'
        if i in ('true', 'false'): return 'bool'
        if re.match(r'\d+u32$', i): return 'u32'
        return t or None
    def isint(s, m): return s.lty(m) in INTS or bool(re.match(r'\d[\d_]*(u32|usize|i32|u8|u64)?$', (m['init'] or '').strip())) or m['name'].startswith('k__')
    def counters(s, f, l):
        """candidates about the loops that count how far the position is moved"""
        if not s.mut(f): return []
        w = 'was_%d' % l['k']
        pos, old = ('idx(self)', 'idx(&%s)' % w) if f['impl'] == 'PythonCoreTokenizer' else ('self.index as int', '%s.index as int' % w)
        o = []
        if f['impl'] == 'SourceBuffer':
            o += [(s.lab(f, l, 'source'), 'self.source_buffer == %s.source_buffer' % w), (s.lab(f, l, 'up'), '%s >= %s' % (pos, old)), (s.lab(f, l, 'len'), '%s <= self.source_buffer@.len()' % pos), (s.lab(f, l, 'len1'), '%s <= self.source_buffer@.len() + 1' % pos)]
        lim = [p['name'] for p in f['params'] if p['ty'].strip() in INTS] + ([l['for']['end']] if l.get('for') else [])
        for m in l['mods']:
            if not s.isint(m) or len(lim) + len(l['mods']) > 8: continue
            a, b = m['name'], 'wl_%d_%s' % (l['k'], m['name'])
            o += [(s.lab(f, l, a + ' counts'), '%s - %s == %s - %s' % (pos, old, a, b)), (s.lab(f, l, a + ' counts down'), '%s - %s == %s - %s' % (pos, old, b, a)), (s.lab(f, l, a + ' from'), '%s <= %s' % (b, a)), (s.lab(f, l, a + ' below'), '%s <= %s' % (a, b))]
            for x in lim: o += [(s.lab(f, l, '%s to %s' % (a, x)), '%s <= %s' % (a, x)), (s.lab(f, l, '%s to %s+1' % (a, x)), '%s <= %s + 1' % (a, x)), (s.lab(f, l, '%s to %s or none' % (a, x)), '%s <= %s || (%s == %s && %s == %s)' % (a, x, a, b, pos, old)), (s.lab(f, l, '%s to %s+1 or none' % (a, x)), '%s <= %s + 1 || (%s == %s && %s == %s)' % (a, x, a, b, pos, old))]
        return o
    def lab(s, f, l, x): return 'cand:%s:%d:%s' % (f['name'], l['k'], x)
    def loop_inv(s, f, l):
        if not (f['self'] and f['impl'] in LEX): return ([], None)
        k, w = l['k'], 'was_%d' % l['k']
        mut = s.mut(f)
        o = []
        if mut and f['impl'] == 'PythonCoreTokenizer':
            o.append((s.lab(f, l, 'source'), 'src(self) == src(old(self))'))
            for x in STATE: o.append((s.lab(f, l, x), 'self.%s == %s.%s' % (x, w, x)))
            o.append((s.lab(f, l, 'up'), 'idx(self) >= idx(&%s)' % w))
            o.append((s.lab(f, l, 'len'), 'idx(self) <= src(self).len()'))
            o.append((s.lab(f, l, 'len1'), 'idx(self) <= src(self).len() + 1'))
            o.append((s.lab(f, l, 'tsp'), 'tsp(self) <= idx(self)'))
            o.append((s.lab(f, l, 'tsp0'), 'tsp(self) >= idx(old(self))'))
            for a, b in s.base('self') + s.linv('self'): o.append((s.lab(f, l, a), b))
            o.append((s.lab(f, l, 'pending with stack'), 'self.pending - self.indent_stack@.len() == %s.pending - %s.indent_stack@.len()' % (w, w)))
            o.append((s.lab(f, l, 'source length'), 'src(self).len() < 0x2000_0000'))
            o.append((s.lab(f, l, 'pending zero'), 'self.pending == 0'))
            o.append((s.lab(f, l, 'in line'), '!self.is_at_beginning_of_line'))
            o.append((s.lab(f, l, 'pending low'), 'self.pending - self.indent_stack@.len() >= -idx(self) - 1'))
            for m in l['mods']:
                if s.lty(m) == 'u32': o.append((s.lab(f, l, m['name'] + ' small'), '%s <= 4 * idx(self)' % m['name']))
                if s.lty(m) == 'u32': o.append((s.lab(f, l, m['name'] + ' bounded'), '%s <= wl_%d_%s + 4 * (idx(self) - idx(&%s))' % (m['name'], k, m['name'], w)))
            for m in l['mods']:
                if s.lty(m) in ('bool', 'u32'): o.append((s.lab(f, l, m['name'] + ' kept'), '%s == wl_%d_%s' % (m['name'], k, m['name'])))
            for m in s.strings(f, l):
                if s.texts():
                    o.append((s.lab(f, l, m + ' tsp'), '%s@ =~= src(self).subrange(tsp(self), idx(self))' % m))
                    o.append((s.lab(f, l, m + ' was'), '%s@ =~= src(self).subrange(idx(&%s), idx(self))' % (m, w)))
                    o.append((s.lab(f, l, m + ' old'), '%s@ =~= src(self).subrange(idx(old(self)), idx(self))' % m))
            o += s.xloop(f, l, w)
        return (o + s.counters(f, l), s.loop_dec(f, l))
    def isolate(s, f, l): return len(f['loops']) > 3
    def looptext(s, f, l): return f['body'][f['body'].index('/*@L:%d*/' % l['k']):f['body'].index('/*@E:%d*/' % l['k'])]
    def loop_ens(s, f, l):
        if not (f['self'] and f['impl'] == 'PythonCoreTokenizer'): return []
        a = 'at(src(self), idx(self))'
        o = [(s.lab(f, l, 'exit ' + x), x.replace('#', a)) for x in s.exits()]
        o += [(s.lab(f, l, 'exit pending zero'), 'self.pending == 0'), (s.lab(f, l, 'exit in line'), '!self.is_at_beginning_of_line')] + [(s.lab(f, l, 'exit no marks left'), 'old(self).pending == 0')][:1 if s.marks() else 0]
        for m in l['inscope']:
            if s.lty(m) == 'u32' and m['mut']: o.append((s.lab(f, l, 'exit %s not below' % m['name']), '%s >= self.indent_stack@.last() || self.indent_stack@.len() <= 1' % m['name']))
        return o
    def exits(s): return ['!blank(#)']
    def texts(s): return False
    def marks(s): return False
    def strings(s, f, l): return [m['name'] for m in l['mods'] if s.lty(m) in ('String', 'Box<String>', '&mutString')]
    def xloop(s, f, l, w): return []
    def loop_dec(s, f, l): return None
    def canary(s):
        return '''
pub fn canary_symbol(l: &mut PythonCoreTokenizer) -> (r__: Result<Box<Token>, String>)
  requires %s
{ let r = l.get_symbol(); if r.is_ok() { assert(false); //@ canary symbol
  } r }
''' % ', '.join('(%s)' % e for _, e in s.inv('old(l)', 'x'))

class ErrProp(LexProp):
    """Properties that say where no error is reported: an error about the indentation stands at a blank or a line end."""
    def linv(s, l): return [('the outermost block is at column 0', '%s.indent_stack@.len() >= 1 && %s.indent_stack@[0] == 0' % (l, l))]
    def notat(s): return []        # [(label, expr over #c, #i)]: what cannot be at the place of an error
    def xloop(s, f, l, w):
        o = [(s.lab(f, l, 'blank'), 'idx(self) == idx(&%s) || blank(at(src(self), idx(&%s)))' % (w, w)), (s.lab(f, l, 'line end'), 'tsp(self) == idx(self) || nl(at(src(self), tsp(self)))')]
        return o + [(s.lab(f, l, a), b.replace('#c', 'src(self)').replace('#i', 'tsp(self)')) for a, b in s.notat()]

# ------------------------------------------------------------------ C04
class C04(ErrProp):
    id = 'C04'
    def notat(s): return [('no operator', 'op_at(#c, #i).0 == 0')]
    def xdefs(s):
        o = ['pub open spec fn opid(t: Token) -> int { match t {\n']
        ids = {}
        vs = {v['name']: v for v in s.enums['Token']['variants']}
        for i, (sp, k) in enumerate(OPS): ids.setdefault(k, i + 1)
        for k, i in ids.items(): o.append('  Token::%s => %d,\n' % (s.pat(vs[k]), i))
        o.append('  _ => 0 } }\n')
        # a tree over the first character
        o.append('// number of the operator that starts at p, and its length\npub open spec fn op_at(c: Seq<char>, p: int) -> (int, int) {\n  let x = at(c, p); let y = at(c, p + 1); let z = at(c, p + 2);\n')
        firsts = []
        for sp, k in OPS:
            if sp[0] not in firsts: firsts.append(sp[0])
        for a in firsts:
            o.append('  if x == %s { ' % ch(a))
            done = False
            for sp, k in OPS:
                if sp[0] != a: continue
                cond = ' && '.join('%s == %s' % (v, ch(q)) for v, q in zip('yz', sp[1:]))
                if sp == '.': o.append('if digit(y) { (0, 0) } else { (%d, 1) }' % ids[k]); done = True
                elif cond: o.append('if %s { (%d, %d) } else ' % (cond, ids[k], len(sp)))
                else: o.append('{ (%d, 1) }' % ids[k] if any(q[0][0] == a and len(q[0]) > 1 for q in OPS) else '(%d, 1)' % ids[k]); done = True
            if not done: o.append('{ (0, 0) }')
            o.append(' } else\n')
        o.append('  { (0, 0) }\n}\n')
        o.append("pub open spec fn closer(c: char) -> bool { c == ')' || c == ']' || c == '}' }\n")
        return ''.join(o)
    def ens_symbol(s):
        c = 'src(old(self))'
        return [('C04: the token is the longest operator at its place, or there is no operator', 'r__ matches Ok(t) ==> spanned(*t) ==> opid(*t) == op_at(%s, ts(*t)).0' % c),
                ('C04: the operator token covers the operator', 'r__ matches Ok(t) ==> opid(*t) != 0 ==> te(*t) == ts(*t) + op_at(%s, ts(*t)).1' % c),
                ('C04: an operator is not an error', 'r__ is Err ==> op_at(%s, tsp(final(self))).0 == 0 || closer(at(%s, tsp(final(self))))' % (c, c))]

# ------------------------------------------------------------------ C05
def wdefs(s):
    return """pub open spec fn quote(x: char) -> bool { x == '\\'' || x == '"' }
pub open spec fn wstart(x: char) -> bool { alpha(x) || x == '_' }
pub open spec fn wc(x: char) -> bool { alnum(x) || x == '_' }
// the end of the word that goes on at i
#[verifier::opaque] pub open spec fn wend(c: Seq<char>, i: int) -> int decreases c.len() - i { if 0 <= i && i < c.len() && wc(at(c, i)) { wend(c, i + 1) } else { i } }
pub open spec fn isprefix(w: Seq<char>) -> bool { %s }
// a string with a prefix starts at i
pub open spec fn strpre(c: Seq<char>, i: int) -> bool { wstart(at(c, i)) && isprefix(c.subrange(i, wend(c, i))) && quote(at(c, wend(c, i))) }
""" % ' || '.join('w == "%s"@' % x for x in PREFIXES)
WLEM = """pub broadcast proof fn wend_step(c: Seq<char>, i: int) requires i >= 0 ensures #![trigger wend(c, i), at(c, i)] wend(c, i) == if wc(at(c, i)) { wend(c, i + 1) } else { i } { broadcast use super::ltrust::gl; reveal_with_fuel(wend, 2); }
"""
KWNOPRE = 'pub open spec fn reserved(w: Seq<char>) -> bool { ' + ' || '.join('w == "%s"@' % l for l, k in KW) + ' }\n'
KWLEM = 'pub broadcast proof fn kw_no_prefix(w: Seq<char>) ensures #[trigger] isprefix(w) ==> !reserved(w) {\n' + ''.join('  reveal_strlit("%s"); assert("%s"@.len() == %d);\n' % (x, x, len(x)) for x in PREFIXES + [l for l, k in KW]) + ''.join('  assert(isprefix(w) ==> w != "%s"@) by { if isprefix(w) && w == "%s"@ { %s } }\n' % (l, l, ' '.join('if w == "%s"@ { assert(w[0] == %s && w[0] == %s); assert(w[1] == %s && w[1] == %s); }' % (p, ch(p[0]), ch(l[0]), ch(p[1]), ch(l[1])) for p in PREFIXES if len(p) == len(l))) for l, k in KW) + '}\n'
class C05(ErrProp):
    id = 'C05'
    def texts(s): return True
    def exits(s): return ['!blank(#)', '!wc(#)']
    def notat(s): return [('no word', '!wstart(at(#c, #i))')]
    def xdefs(s):
        vs = {v['name']: v for v in s.enums['Token']['variants']}
        o = [wdefs(s)]
        o.append('pub open spec fn kwtext(t: Token, w: Seq<char>) -> bool { match t {\n' + ''.join('  Token::%s => w == "%s"@,\n' % (s.pat(vs[k]), l) for l, k in KW) + '  _ => true } }\n')
        o.append('pub open spec fn iskw(t: Token) -> bool { match t { ' + ' | '.join('Token::' + s.pat(vs[k]) for l, k in KW) + ' => true, _ => false } }\n')
        o.append('pub open spec fn reserved(w: Seq<char>) -> bool { ' + ' || '.join('w == "%s"@' % l for l, k in KW) + ' }\n')
        return ''.join(o)
    def xlemmas(s): return (WLEM, ['wend_step'])
    def ens_symbol(s):
        c, e = 'src(old(self))', 'tsp(final(self))'
        return [('C05: a word is a keyword or a name', 'r__ matches Ok(t) ==> spanned(*t) ==> wstart(at({c}, ts(*t))) ==> !strpre({c}, ts(*t)) ==> (iskw(*t) || *t is AtomName)'.format(c=c)),
                ('C05: a keyword covers a whole word, which is that keyword', 'r__ matches Ok(t) ==> iskw(*t) ==> wstart(at({c}, ts(*t))) && te(*t) == wend({c}, ts(*t)) && kwtext(*t, {c}.subrange(ts(*t), te(*t)))'.format(c=c)),
                ('C05: a name covers a whole word, carries it, and is no keyword', 'r__ matches Ok(t) ==> (*t matches Token::AtomName(_, _, _, x) ==> wstart(at({c}, ts(*t))) && te(*t) == wend({c}, ts(*t)) && x@ == {c}.subrange(ts(*t), te(*t)) && !reserved(x@))'.format(c=c)),
                ('C05: a word is not an error', 'r__ is Err ==> !wstart(at({c}, {e})) || strpre({c}, {e})'.format(c=c, e=e))]
    def xloop(s, f, l, w): return super().xloop(f, l, w) + [(s.lab(f, l, 'word'), 'wend(src(self), tsp(self)) == wend(src(self), idx(self))'), (s.lab(f, l, 'word start'), 'wstart(at(src(self), tsp(self)))')]
    def xhelper(s, f, c0, i0, i1, ok): return [('cand:h:%s:word' % f['name'], ok + 'wend(%s, %s) == wend(%s, %s)' % (c0, i0, c0, i1))]

# ------------------------------------------------------------------ C06
# states of the scanner that defines which literals are well formed: name -> [(condition on x, next state, characters taken)], the first that applies;
# next 'end' and 'bad' are the verdicts
NUM = [
 ('START', [("x == '0'", 'Z0', 1), ('digit(x)', 'INT', 1), ("x == '.'", 'FDOT', 1), (None, 'bad', 0)]),
 ('Z0', [("x == 'x' || x == 'X'", 'HEX0', 1), ("x == 'o' || x == 'O'", 'OCT0', 1), ("x == 'b' || x == 'B'", 'BIN0', 1), (None, 'ZERO', 0)]),
 ('HEX0', [("x == '_'", 'HEXU', 1), ('hexd(x)', 'HEX', 1), (None, 'bad', 0)]), ('HEXU', [('hexd(x)', 'HEX', 0), (None, 'bad', 0)]), ('HEX', [("x == '_'", 'HEXU', 1), ('hexd(x)', 'HEX', 1), (None, 'end', 0)]),
 ('OCT0', [("x == '_'", 'OCTU', 1), ('octd(x)', 'OCT', 1), (None, 'bad', 0)]), ('OCTU', [('octd(x)', 'OCT', 0), (None, 'bad', 0)]), ('OCT', [("x == '_'", 'OCTU', 1), ('octd(x)', 'OCT', 1), (None, 'end', 0)]),
 ('BIN0', [("x == '_'", 'BINU', 1), ('bind(x)', 'BIN', 1), (None, 'bad', 0)]), ('BINU', [('bind(x)', 'BIN', 0), (None, 'bad', 0)]), ('BIN', [("x == '_'", 'BINU', 1), ('bind(x)', 'BIN', 1), (None, 'end', 0)]),
 ('ZERO', [("x == '_'", 'ZEROU', 1), ("x == '0'", 'ZERO', 1), ('digit(x)', 'NONZ', 1), (None, 'TAIL', 0)]), ('ZEROU', [('digit(x)', 'ZERO', 0), (None, 'bad', 0)]),
 ('NONZ', [("x == '_'", 'NONZU', 1), ('digit(x)', 'NONZ', 1), (None, 'TAILF', 0)]), ('NONZU', [('digit(x)', 'NONZ', 0), (None, 'bad', 0)]),
 ('INT', [("x == '_'", 'INTU', 1), ('digit(x)', 'INT', 1), (None, 'TAIL', 0)]), ('INTU', [('digit(x)', 'INT', 0), (None, 'bad', 0)]),
 ('TAIL', [("x == '.'", 'FDOT', 1), ("x == 'e' || x == 'E'", 'EXP0', 1), ("x == 'j' || x == 'J'", 'end', 1), (None, 'end', 0)]),
 ('TAILF', [("x == '.'", 'FDOT', 1), ("x == 'e' || x == 'E'", 'EXP0', 1), ("x == 'j' || x == 'J'", 'end', 1), (None, 'bad', 0)]),
 ('FDOT', [("x == '_'", 'bad', 0), (None, 'FRAC', 0)]), ('FRAC', [("x == '_'", 'FRACU', 1), ('digit(x)', 'FRAC', 1), (None, 'TAILE', 0)]), ('FRACU', [('digit(x)', 'FRAC', 0), (None, 'bad', 0)]),
 ('TAILE', [("x == 'e' || x == 'E'", 'EXP0', 1), ("x == 'j' || x == 'J'", 'end', 1), (None, 'end', 0)]),
 ('EXP0', [("x == '+' || x == '-'", 'EXPS', 1), (None, 'EXPS', 0)]), ('EXPS', [('digit(x)', 'EXP', 0), (None, 'bad', 0)]),
 ('EXP', [("x == '_'", 'EXPU', 1), ('digit(x)', 'EXP', 1), (None, 'TAILJ', 0)]), ('EXPU', [('digit(x)', 'EXP', 0), (None, 'bad', 0)]),
 ('TAILJ', [("x == 'j' || x == 'J'", 'end', 1), (None, 'end', 0)]),
]
NUMID = {}
def numrank():
    """numbers for the states such that a step that takes no character goes to a smaller number"""
    eps = {n: [t for c, t, k in r if k == 0 and t not in ('end', 'bad')] for n, r in NUM}
    def rank(n): return 1 + max([rank(m) for m in eps[n]] or [0])
    order = sorted([n for n, r in NUM], key=lambda n: (rank(n), [x for x, _ in NUM].index(n)))
    return {n: i for i, n in enumerate(order)}
NUMID = numrank()
class C06(ErrProp):
    id = 'C06'
    def texts(s): return True
    def exits(s): return ['!blank(#)', '!digit(#)', "# != '_'", '!hexd(#)', '!octd(#)', '!bind(#)']
    def notat(s): return [('no number', '!nstart(#c, #i)')]
    def xdefs(s):
        o = ["""pub open spec fn hexd(x: char) -> bool { digit(x) || ('a' <= x && x <= 'f') || ('A' <= x && x <= 'F') }
pub open spec fn octd(x: char) -> bool { '0' <= x && x <= '7' }
pub open spec fn bind(x: char) -> bool { x == '0' || x == '1' }
pub open spec fn nstart(c: Seq<char>, i: int) -> bool { digit(at(c, i)) || (at(c, i) == '.' && digit(at(c, i + 1))) }
// where the literal ends that is in state st at i; -1: malformed
#[verifier::opaque] pub open spec fn num(st: int, c: Seq<char>, i: int) -> int decreases (if i < c.len() { c.len() - i } else { 0 }), st {
  let x = at(c, i);
  if i < 0 { -1 } else
"""]
        for n, r in NUM: o.append('  if st == %d /* %s */ { %s } else\n' % (NUMID[n], n, s.rhs(r)))
        o.append('  { -1 }\n}\n')
        return ''.join(o)
    def rhs(s, r):
        t = ''
        for c, n, k in r:
            v = {'end': 'i + 1' if k else 'i', 'bad': '-1'}.get(n) or 'num(%d, c, %s)' % (NUMID[n], 'i + 1' if k else 'i')
            t += 'if %s { %s } else ' % (c, v) if c else '{ %s }' % v
        return t
    def xlemmas(s):
        o, ns = [], []
        for n, r in NUM:
            ns.append('num_%s' % n)
            o.append('pub broadcast proof fn num_%s(c: Seq<char>, i: int) requires i >= 0 ensures #![trigger num(%d, c, i), at(c, i)] num(%d, c, i) == ({ let x = at(c, i); %s }) { reveal_with_fuel(num, 2); }\n' % (n, NUMID[n], NUMID[n], s.rhs(r)))
        return (''.join(o), ns)
    def ens_symbol(s):
        c, e = 'src(old(self))', 'tsp(final(self))'
        return [('C06: a number is delivered as a number and only when it is well formed, whole', 'r__ matches Ok(t) ==> spanned(*t) ==> nstart({c}, ts(*t)) ==> *t is AtomNumber && te(*t) == num({z}, {c}, ts(*t))'.format(c=c, z=NUMID['START'])),
                ('C06: a number token is a number and carries its text', 'r__ matches Ok(t) ==> (*t matches Token::AtomNumber(_, _, _, x) ==> nstart({c}, ts(*t)) && x@ == {c}.subrange(ts(*t), te(*t)))'.format(c=c)),
                ('C06: only a malformed number is an error', 'r__ is Err ==> nstart({c}, {e}) ==> num({z}, {c}, {e}) == -1'.format(c=c, e=e, z=NUMID['START']))]
    LOOP = ('HEX', 'OCT', 'BIN', 'ZERO', 'NONZ', 'INT', 'FRAC', 'EXP', 'HEX0', 'OCT0', 'BIN0', 'FDOT', 'START')
    def xloop(s, f, l, w):
        o = super().xloop(f, l, w) + [(s.lab(f, l, 'number start'), 'nstart(src(self), tsp(self))')]
        z = 'num(%d, src(self), tsp(self))' % NUMID['START']
        st = lambda n: 'num(%d, src(self), idx(self))' % NUMID[n]
        for n in s.LOOP: o.append((s.lab(f, l, n), '%s == %s' % (z, st(n))))
        bs = [m['name'] for m in l['inscope'] if s.lty(m) == 'bool' and m['mut']]
        for b in bs:
            o.append((s.lab(f, l, b + ' nonzero'), '%s == (if %s { %s } else { %s })' % (z, b, st('NONZ'), st('ZERO'))))
            o.append((s.lab(f, l, b + ' zero'), '%s == (if %s { %s } else { %s })' % (z, b, st('ZERO'), st('NONZ'))))
            o.append((s.lab(f, l, b + ' off'), '!' + b))
            o.append((s.lab(f, l, b + ' on'), b))
        return o
    def xhelper(s, f, c0, i0, i1, ok):
        o = []
        for n in NUMID:
            o.append(('cand:h:%s:%s' % (f['name'], n), ok + 'num({0}, {1}, {2}) == num({0}, {1}, {3})'.format(NUMID[n], c0, i0, i1)))
            if s.ret(f).k == 'Result': o.append(('cand:h:%s:%s bad' % (f['name'], n), 'r__ is Err ==> num(%d, %s, %s) == -1' % (NUMID[n], c0, i0)))
        return o

# ------------------------------------------------------------------ C07
class C07(ErrProp):
    id = 'C07'
    def texts(s): return True
    def exits(s): return ['!blank(#)', '!wc(#)']
    def notat(s): return [('no string', '!strat(#c, #i)')]
    def xdefs(s):
        return wdefs(s) + KWNOPRE + """// where the string ends that goes on at i; -1: it does not end
pub open spec fn esc(c: Seq<char>, i: int) -> int { if at(c, i + 1) == '\\0' { -1 } else if at(c, i + 1) == '\\r' && at(c, i + 2) == '\\n' { i + 3 } else { i + 2 } }
#[verifier::opaque] pub open spec fn tri(c: Seq<char>, i: int, q: char) -> int decreases (if i < c.len() { c.len() - i } else { 0 }) {
  let x = at(c, i);
  if i < 0 || x == '\\0' { -1 }
  else if x == '\\\\' { if esc(c, i) < 0 { -1 } else { tri(c, esc(c, i), q) } }
  else if x == q && at(c, i + 1) == q && at(c, i + 2) == q { i + 3 }
  else { tri(c, i + 1, q) }
}
#[verifier::opaque] pub open spec fn sgl(c: Seq<char>, i: int, q: char) -> int decreases (if i < c.len() { c.len() - i } else { 0 }) {
  let x = at(c, i);
  if i < 0 || x == '\\0' || nl(x) { -1 }
  else if x == '\\\\' { if esc(c, i) < 0 { -1 } else { sgl(c, esc(c, i), q) } }
  else if x == q { i + 1 }
  else { sgl(c, i + 1, q) }
}
pub open spec fn three(c: Seq<char>, p: int) -> bool { at(c, p + 1) == at(c, p) && at(c, p + 2) == at(c, p) }
// the end of the string whose first quote is at p
pub open spec fn strend(c: Seq<char>, p: int) -> int { if three(c, p) { tri(c, p + 3, at(c, p)) } else { sgl(c, p + 1, at(c, p)) } }
pub open spec fn strat(c: Seq<char>, i: int) -> bool { quote(at(c, i)) || strpre(c, i) }
pub open spec fn opening(c: Seq<char>, i: int) -> int { if quote(at(c, i)) { i } else { wend(c, i) } }
"""
    def xlemmas(s):
        return (WLEM + KWLEM + """pub broadcast proof fn tri_step(c: Seq<char>, i: int, q: char) requires i >= 0 ensures #![trigger tri(c, i, q), at(c, i)]
  tri(c, i, q) == ({ let x = at(c, i); if x == '\\0' { -1 } else if x == '\\\\' { if esc(c, i) < 0 { -1 } else { tri(c, esc(c, i), q) } } else if x == q && at(c, i + 1) == q && at(c, i + 2) == q { i + 3 } else { tri(c, i + 1, q) } }) { reveal_with_fuel(tri, 2); }
pub broadcast proof fn sgl_step(c: Seq<char>, i: int, q: char) requires i >= 0 ensures #![trigger sgl(c, i, q), at(c, i)]
  sgl(c, i, q) == ({ let x = at(c, i); if x == '\\0' || nl(x) { -1 } else if x == '\\\\' { if esc(c, i) < 0 { -1 } else { sgl(c, esc(c, i), q) } } else if x == q { i + 1 } else { sgl(c, i + 1, q) } }) { reveal_with_fuel(sgl, 2); }
""", ['wend_step', 'kw_no_prefix', 'tri_step', 'sgl_step'])
    def ens_string(s):
        c, i = 'src(old(self))', 'idx(old(self))'
        return [('C07 handle_string: ends at the closing quotes', 'r__ is Ok ==> idx(final(self)) == strend(%s, %s)' % (c, i)),
                ('C07 handle_string: only an unterminated string is an error', 'r__ is Err ==> strend(%s, %s) == -1' % (c, i)),
                ('C07 handle_string: text', 'r__ matches Ok(t) ==> (*t matches Token::AtomString(_, _, _, x, _) ==> x@ == %s.subrange(%s, idx(final(self))))' % (c, i))]
    def ens_symbol(s):
        c, e = 'src(old(self))', 'tsp(final(self))'
        return [('C07: a string is delivered as a string that ends at its closing quotes', 'r__ matches Ok(t) ==> spanned(*t) ==> strat({c}, ts(*t)) ==> *t is AtomString && te(*t) == strend({c}, opening({c}, ts(*t)))'.format(c=c)),
                ('C07: a string token is a string and carries its prefix and text', 'r__ matches Ok(t) ==> (*t matches Token::AtomString(_, _, _, x, p) ==> strat({c}, ts(*t)) && x@ == {c}.subrange(opening({c}, ts(*t)), te(*t)) && (p is None <==> quote(at({c}, ts(*t)))) && (p matches Some(y) ==> y@ == {c}.subrange(ts(*t), opening({c}, ts(*t)))))'.format(c=c)),
                ('C07: only an unterminated string is an error', 'r__ is Err ==> strat({c}, {e}) ==> strend({c}, opening({c}, {e})) == -1'.format(c=c, e=e))]
    def xloop(s, f, l, w):
        o = super().xloop(f, l, w) + [(s.lab(f, l, 'word'), 'wend(src(self), tsp(self)) == wend(src(self), idx(self))'), (s.lab(f, l, 'word start'), 'wstart(at(src(self), tsp(self)))')]
        for n in ('tri', 'sgl'):
            o.append((s.lab(f, l, n), '{0}(src(self), idx(self), at(src(self), idx(old(self)))) == strend(src(self), idx(old(self)))'.format(n)))
        return o
    def xhelper(s, f, c0, i0, i1, ok):
        o = [('cand:h:%s:word' % f['name'], ok + 'wend(%s, %s) == wend(%s, %s)' % (c0, i0, c0, i1))]
        for p in f['params']:
            if p['ty'].strip() == 'char':
                for n in ('tri', 'sgl'): o.append(('cand:h:%s:%s' % (f['name'], n), ok + '{0}({1}, {2}, {3}) == {0}({1}, {4}, {3})'.format(n, c0, i0, p['name'], i1)))
        return o

# ------------------------------------------------------------------ C08
class C08(ErrProp):
    id = 'C08'
    def notat(s): return [('no closer', '!closer(at(#c, #i))')]
    def xdefs(s): return "pub open spec fn closer(c: char) -> bool { c == ')' || c == ']' || c == '}' }\n"
    def ens_symbol(s):
        o = []
        st, sf = 'old(self).parenthesis@', 'final(self).parenthesis@'
        pairs = [('Paren', ')'), ('Bracket', ']'), ('Curly', '}')]
        for n, q in pairs:
            o.append(('C08: opening %s' % n, "r__ matches Ok(t) ==> *t is PyLeft%s ==> %s == %s.push('%s')" % (n, sf, st, q)))
            o.append(('C08: closing %s closes the innermost bracket' % n, "r__ matches Ok(t) ==> *t is PyRight%s ==> %s.len() > 0 && %s.last() == '%s' && %s == %s.drop_last()" % (n, st, st, q, sf, st)))
            o.append(('C08: no error for a %s that closes the innermost bracket' % n, "r__ is Err ==> at(src(old(self)), tsp(final(self))) == '%s' ==> !(%s.len() > 0 && %s.last() == '%s')" % (q, st, st, q)))
        o.append(('C08: other tokens leave the brackets alone', 'r__ matches Ok(t) ==> !(%s) ==> %s == %s' % (' || '.join('*t is Py%s%s' % (a, n) for n, q in pairs for a in ('Left', 'Right')), sf, st)))
        o.append(('C08: no layout within brackets', 'r__ matches Ok(t) ==> (*t is Newline || *t is Indent || *t is Dedent) ==> %s.len() == 0' % st))
        return o
    def group(s, label): return 'C08' if label.startswith('C08') else 'base'
    def linv(s, l): return super().linv(l) + [('indentation is pending outside of brackets only', '%s.pending != 0 ==> %s.parenthesis@.len() == 0' % (l, l))]

# ------------------------------------------------------------------ C10
class TrvMix:
    def trvdefs(s):
        vs = s.enums['Token']['variants']
        def f(v):
            i = [k for k, t in enumerate(v['fields']) if 'Trivia' in t]
            if not i: return None
            return 'Token::%s(%s)' % (v['name'], ', '.join('x' if k == i[0] else '_' for k in range(len(v['fields']))))
        ps = [f(v) for v in vs if f(v)]
        return ('pub open spec fn trvo(t: Token) -> Option<Box<Vec<Box<Trivia>>>> { match t { %s => x, _ => None } }\n' % ' | '.join(ps)
                + '// the trivia of a token, last first\npub open spec fn trv(t: Token) -> Seq<Box<Trivia>> { match trvo(t) { Some(x) => x@, None => seq![] } }\n')
    def trivs(s, f, l): return [m['name'] for m in l['inscope'] if 'Vec<Box<Trivia>>' in (m['ty'] or '').replace(' ', '') and m['mut']]
    def tparams(s, f): return [p['name'] for p in f['params'] if 'Vec<Box<Trivia>>' in p['ty'].replace(' ', '') and '&mut' in p['ty'].replace('& mut', '&mut')]
    def ens_string(s):
        return [('%s handle_string: the trivia' % s.id, 'r__ matches Ok(t) ==> trv(*t) == trivia@.reverse() && (trvo(*t) is None <==> trivia@.len() == 0)')]
    def ovars(s, f, l): return [m['name'] for m in l['inscope'] if s.lty(m) == 'bool' and m['mut']]

class C10(TrvMix, LexProp):
    id = 'C10'
    def marks(s): return True
    def xdefs(s): return s.trvdefs() + "// no comment, line end, blank or line join\npub open spec fn plain(x: char) -> bool { !blank(x) && !nl(x) && x != '#' && x != '\\\\' }\n"
    def linv(s, l): return [('pending marks stand in front of a token', '%s.pending != 0 ==> %s.parenthesis@.len() == 0 && plain(at(src(%s), idx(%s)))' % (l, l, l, l))]
    LB = '(old(self).is_at_beginning_of_line || old(self).parenthesis@.len() > 0)'
    def ens_symbol(s):
        c = 'src(old(self))'
        return [('C10: a line end token ends a line that has a token', 'r__ matches Ok(t) ==> *t is Newline ==> !old(self).is_at_beginning_of_line && old(self).parenthesis@.len() == 0 && old(self).pending == 0'),
                ('C10: a new line begins after a line end token and no other', 'r__ matches Ok(t) ==> final(self).is_at_beginning_of_line == (*t is Newline)'),
                ('C10: the line end of a line that has a token is no trivia', 'r__ matches Ok(t) ==> (forall|k: int| 0 <= k < trv(*t).len() && *trv(*t)[k] is Newline ==> %s)' % s.LB),
                ('C10: pending marks come first', 'r__ matches Ok(t) ==> old(self).pending != 0 ==> (*t is Indent || *t is Dedent) && idx(final(self)) == idx(old(self))'),
                ('C10: a mark stands directly in front of a token', 'r__ matches Ok(t) ==> (*t is Indent || *t is Dedent) ==> plain(at(%s, idx(final(self))))' % c),
                ('C10: that token is the next one', "r__ matches Ok(t) ==> !old(self).is_at_beginning_of_line && old(self).pending == 0 && plain(at({c}, idx(old(self)))) && at({c}, idx(old(self))) != '\\0' ==> spanned(*t) && ts(*t) == idx(old(self)) && !(*t is Newline)".format(c=c))]
    def xloop(s, f, l, w):
        o = [(s.lab(f, l, 'no marks left'), 'old(self).pending == 0'), (s.lab(f, l, 'brackets'), 'self.parenthesis == old(self).parenthesis'),
             (s.lab(f, l, 'line begins'), 'self.is_at_beginning_of_line ==> ' + s.LB),
             (s.lab(f, l, 'head'), '(self.is_at_beginning_of_line && old(self).pending == 0) || (idx(self) == idx(old(self)) && !old(self).is_at_beginning_of_line && self.pending == old(self).pending)'),
             (s.lab(f, l, 'stuck'), '!old(self).is_at_beginning_of_line && plain(at(src(self), idx(old(self)))) ==> idx(self) == idx(old(self)) && !self.is_at_beginning_of_line')]
        for v in s.trivs(f, l):
            o.append((s.lab(f, l, v + ' line ends'), 'forall|k: int| 0 <= k < %s@.len() && *%s@[k] is Newline ==> %s' % (v, v, s.LB)))
        for b in s.ovars(f, l):
            o.append((s.lab(f, l, b + ' blank line'), 'old(self).is_at_beginning_of_line && self.parenthesis@.len() == 0 ==> %s || plain(at(src(self), idx(self)))' % b))
            o.append((s.lab(f, l, b + ' only at the beginning'), '%s ==> %s' % (b, s.LB)))
        return o
    def xhelper(s, f, c0, i0, i1, ok):
        o = []
        for v in s.tparams(f):
            n = f['name']
            o.append(('cand:h:%s:%s no line ends' % (n, v), '(forall|k: int| 0 <= k < old({0})@.len() ==> !(*old({0})@[k] is Newline)) ==> (forall|k: int| 0 <= k < final({0})@.len() ==> !(*final({0})@[k] is Newline))'.format(v)))
            o.append(('cand:h:%s:%s line ends' % (n, v), '(forall|k: int| 0 <= k < old({0})@.len() && *old({0})@[k] is Newline ==> {1}) ==> (forall|k: int| 0 <= k < final({0})@.len() && *final({0})@[k] is Newline ==> {1})'.format(v, s.LB)))
        return o

# ------------------------------------------------------------------ C02
class C02(LexProp):
    id = 'C02'
    def texts(s): return True
    def xdefs(s):
        vs = {v['name']: v for v in s.enums['Token']['variants']}
        sp = {}
        for x, k in OPS: sp.setdefault(k, []).append(x)
        one = lambda x: '(e == s + %d && %s)' % (len(x), ' && '.join('at(c, s + %d) == %s' % (i, ch(q)) for i, q in enumerate(x)))
        return ('pub open spec fn wc(x: char) -> bool { alnum(x) || x == \'_\' }\n// the spelling of a token that has only one\npub open spec fn spelt(t: Token, c: Seq<char>, s: int, e: int) -> bool { match t {\n'
                + ''.join('  Token::%s => %s,\n' % (s.pat(vs[k]), ' || '.join(one(x) for x in xs)) for k, xs in sp.items())
                + ''.join('  Token::%s => c.subrange(s, e) == "%s"@,\n' % (s.pat(vs[k]), l) for l, k in KW) + '  _ => true } }\n')
    def ens_string(s):
        c, i = 'src(old(self))', 'idx(old(self))'
        return [('C02 handle_string: text', 'r__ matches Ok(t) ==> (*t matches Token::AtomString(_, _, _, x, _) ==> x@ == %s.subrange(%s, idx(final(self))))' % (c, i)),
                ('C02 handle_string: ends within the source', 'r__ is Ok ==> %s < idx(final(self)) <= %s.len()' % (i, c))]
    def ens_symbol(s):
        c = 'src(old(self))'
        return [('C02: a span begins where the last token ended or later, is not empty, and ends where the lexer goes on', 'r__ matches Ok(t) ==> spanned(*t) ==> idx(old(self)) <= ts(*t) && ts(*t) < te(*t) && te(*t) == idx(final(self))'),
                ('C02: the position reported does not go back', 'idx(old(self)) <= idx(final(self)) && idx(old(self)) <= tsp(final(self)) && tsp(final(self)) <= idx(final(self))'),
                ('C02: a token stands at the position reported', 'r__ matches Ok(t) ==> spanned(*t) || *t is EOF ==> ts(*t) == tsp(final(self))'),
                ('C02: the end marker stands where the lexer stops', 'r__ matches Ok(t) ==> *t is EOF ==> ts(*t) == idx(final(self))'),
                ('C02: a span lies within the source', 'r__ matches Ok(t) ==> spanned(*t) ==> te(*t) <= %s.len() || (*t is Newline && te(*t) == ts(*t) + 3)' % c),
                ('C02: fixed spellings', 'r__ matches Ok(t) ==> spanned(*t) ==> spelt(*t, %s, ts(*t), te(*t))' % c),
                ('C02: line ends', "r__ matches Ok(t) ==> (*t matches Token::Newline(s, e, _, a, b) ==> a == at({c}, s as int) && nl(a) && (if a == '\\r' && at({c}, s + 1) == '\\n' {{ b == '\\n' && (e == s + 2 || e == s + 3) }} else {{ e == s + 1 }}))".format(c=c)),
                ('C02: texts', 'r__ matches Ok(t) ==> match *t {{ Token::AtomName(s, e, _, x) | Token::AtomNumber(s, e, _, x) | Token::TypeComment(s, e, _, x) => x@ == {c}.subrange(s as int, e as int), Token::AtomString(s, e, _, x, p) => (p is None ==> x@ == {c}.subrange(s as int, e as int)) && (p matches Some(y) ==> y@ + x@ == {c}.subrange(s as int, e as int)), _ => true }}'.format(c=c))]
    def exits(s): return ['!blank(#)', '!wc(#)', '!digit(#)', "(nl(#) || # == '\\0')"]
    def xloop(s, f, l, w):
        # a start, so that the loop has taken something
        return [(s.lab(f, l, 'taken'), 'idx(self) > tsp(self)'), (s.lab(f, l, 'first'), "idx(self) > tsp(self) || at(src(self), tsp(self)) == '#'"), (s.lab(f, l, 'first word'), "idx(self) > tsp(self) || alpha(at(src(self), tsp(self))) || at(src(self), tsp(self)) == '_'"),
                (s.lab(f, l, 'first digit'), "idx(self) > tsp(self) || digit(at(src(self), tsp(self)))")]
    def lemmas(s): return ('use super::ltrust::*;\npub broadcast proof fn split(c: Seq<char>, a: int, b: int, d: int) requires 0 <= a <= b <= d <= c.len() ensures #[trigger] (c.subrange(a, b) + c.subrange(b, d)) == c.subrange(a, d) { assert(c.subrange(a, b) + c.subrange(b, d) =~= c.subrange(a, d)); }\n', ['split'])

# ------------------------------------------------------------------ C09
COL = """// a line starts at i; the character after a CR LF line end counts as one too (known finding)
pub open spec fn bol(c: Seq<char>, i: int) -> bool { i == 0 || nl(at(c, i - 1)) || (at(c, i - 3) == '\\r' && at(c, i - 2) == '\\n') }
pub open spec fn blanks(c: Seq<char>, a: int, b: int) -> bool { a <= b && forall|k: int| a <= k < b ==> blank(#[trigger] at(c, k)) }
"""
class C09(TrvMix, LexProp):
    id = 'C09'
    def marks(s): return True
    def ens_string(s): return []
    def xdefs(s):
        return COL + """// the column that the blanks from a to b lead to
#[verifier::opaque] pub open spec fn colof(c: Seq<char>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else if at(c, b - 1) == ' ' { colof(c, a, b - 1) + 1 } else { (colof(c, a, b - 1) / 4 + 1) * 4 } }
// nothing but blanks stands in front of p on its line, and they lead to column col
#[verifier::opaque] pub open spec fn atcol(c: Seq<char>, p: int, col: int) -> bool { exists|a: int| #[trigger] bol(c, a) && blanks(c, a, p) && col == colof(c, a, p) }
// nothing but blanks stands in front of p on its line
#[verifier::opaque] pub open spec fn lineblank(c: Seq<char>, p: int) -> bool { exists|a: int| #[trigger] bol(c, a) && blanks(c, a, p) }
// a line join at the beginning of a line stands in front of p
#[verifier::opaque] pub open spec fn joined(c: Seq<char>, p: int) -> bool { exists|q: int| #[trigger] lineblank(c, q) && q < p && at(c, q) == '\\\\' && nl(at(c, q + 1)) }
pub open spec fn plain(x: char) -> bool { !blank(x) && !nl(x) && x != '#' && x != '\\\\' }
pub open spec fn inc(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn depth(l: &PythonCoreTokenizer) -> int { l.indent_stack@.len() - l.pending }
// the column is further out than the current block and matches no open block
pub open spec fn nomatch(s: Seq<u32>, col: int) -> bool { s.len() > 0 && col < s.last() && forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != col }
// the column of the blanks in front of p matches no open block
#[verifier::opaque] pub open spec fn misplaced(c: Seq<char>, p: int, s: Seq<u32>) -> bool { exists|col: int| #[trigger] atcol(c, p, col) && nomatch(s, col) }
"""
    def xlemmas(s):
        return """pub broadcast proof fn col_step(c: Seq<char>, a: int, b: int) requires a <= b ensures #![trigger colof(c, a, b), blank(at(c, b))] #![trigger colof(c, a, b + 1)] colof(c, a, b + 1) == (if at(c, b) == ' ' { colof(c, a, b) + 1 } else { (colof(c, a, b) / 4 + 1) * 4 }) { reveal_with_fuel(colof, 2); }
pub broadcast proof fn col_none(c: Seq<char>, a: int) ensures #[trigger] colof(c, a, a) == 0 { reveal_with_fuel(colof, 2); }
pub broadcast proof fn atcol_intro(c: Seq<char>, a: int, p: int) requires bol(c, a), blanks(c, a, p) ensures #![trigger bol(c, a), colof(c, a, p)] atcol(c, p, colof(c, a, p)) { reveal(atcol); }
pub broadcast proof fn misplaced_intro(c: Seq<char>, a: int, p: int, s: Seq<u32>) requires bol(c, a), blanks(c, a, p), nomatch(s, colof(c, a, p)) ensures #![trigger bol(c, a), colof(c, a, p), misplaced(c, p, s)] misplaced(c, p, s) { reveal(misplaced); atcol_intro(c, a, p); }
pub broadcast proof fn lineblank_intro(c: Seq<char>, a: int, p: int) requires bol(c, a), blanks(c, a, p) ensures #![trigger bol(c, a), blanks(c, a, p)] lineblank(c, p) { reveal(lineblank); }
pub broadcast proof fn joined_intro(c: Seq<char>, q: int, p: int) requires lineblank(c, q), q < p, at(c, q) == '\\\\', nl(at(c, q + 1)) ensures #![trigger lineblank(c, q), joined(c, p)] joined(c, p) { reveal(joined); }
pub broadcast proof fn joined_later(c: Seq<char>, p: int, q: int) requires joined(c, p), p <= q ensures #![trigger joined(c, p), joined(c, q)] joined(c, q) { reveal(joined); }
""", ['col_step', 'col_none', 'atcol_intro', 'misplaced_intro', 'lineblank_intro', 'joined_intro', 'joined_later']
    def linv(s, l):
        return [('the outermost block is at column 0', '%s.indent_stack@.len() >= 1 && %s.indent_stack@[0] == 0' % (l, l)), ('pending marks', '{0}.pending <= 0 && depth({0}) >= 1'.format(l)), ('the open blocks are ever further in', 'inc(%s.indent_stack@)' % l),
                ('a line begins', '{0}.is_at_beginning_of_line ==> bol(src({0}), idx({0}))'.format(l)), ('marks are pending outside of brackets only', '{0}.pending != 0 ==> {0}.parenthesis@.len() == 0 && atcol(src({0}), idx({0}), {0}.indent_stack@.last() as int) && plain(at(src({0}), idx({0})))'.format(l))]
    def ens_symbol(s):
        c = 'src(old(self))'
        so, sf, o, f = 'old(self).indent_stack@', 'final(self).indent_stack@', 'old(self)', 'final(self)'
        fresh = 'old(self).is_at_beginning_of_line && old(self).parenthesis@.len() == 0'
        end = "at({c}, idx(final(self))) == '\\0'".format(c=c)
        return [('C09: one more block is open after an indent, one less after a dedent', 'r__ matches Ok(t) ==> depth({f}) == depth({o}) + (if *t is Indent {{ 1int }} else if *t is Dedent {{ -1int }} else {{ 0int }})'.format(o=o, f=f)),
                ('C09: every indent has its dedent at the end', 'r__ matches Ok(t) ==> *t is EOF && final(self).parenthesis@.len() == 0 ==> depth(final(self)) == 1 && final(self).pending == 0'),
                ('C09: marks that are left follow directly', 'r__ matches Ok(t) ==> old(self).pending < 0 ==> *t is Dedent && idx({f}) == idx({o}) && {sf} == {so}'.format(o=o, f=f, so=so, sf=sf)),
                ('C09: an indent opens a block at the column of the token behind it', 'r__ matches Ok(t) ==> *t is Indent ==> {fresh} && final(self).pending == 0 && {sf}.len() == {so}.len() + 1 && {sf}.drop_last() == {so} && {sf}.last() > {so}.last() && atcol({c}, idx(final(self)), {sf}.last() as int) && plain(at({c}, idx(final(self))))'.format(c=c, fresh=fresh, so=so, sf=sf)),
                ('C09: dedents lead back to the block at the column of the token behind them', 'r__ matches Ok(t) ==> *t is Dedent && old(self).pending == 0 && !({end}) ==> {fresh} && {sf}.len() < {so}.len() && {sf} == {so}.subrange(0, {sf}.len() as int) && atcol({c}, idx(final(self)), {sf}.last() as int) && plain(at({c}, idx(final(self))))'.format(c=c, fresh=fresh, end=end, so=so, sf=sf)),
                ('C09: at the end a dedent closes one block', 'r__ matches Ok(t) ==> *t is Dedent && {end} ==> final(self).parenthesis@.len() == 0'.format(end=end)),
                ('C09: other tokens leave the blocks alone', 'r__ matches Ok(t) ==> !(*t is Indent) && !(*t is Dedent) ==> {sf} == {so} && final(self).pending == 0 && old(self).pending == 0'.format(so=so, sf=sf)),
                ('C09: no mark stands in front of a token that is indented like the block', 'r__ matches Ok(t) ==> {fresh} && spanned(*t) && !(*t is TypeComment) ==> atcol({c}, ts(*t), {so}.last() as int) || joined({c}, ts(*t))'.format(c=c, fresh=fresh, so=so)),
                ('C09: an error about the indentation has a line whose column matches no open block', 'r__ is Err && (blank(at({c}, tsp(final(self)))) || nl(at({c}, tsp(final(self))))) ==> {fresh} && plain(at({c}, idx(final(self)))) && misplaced({c}, idx(final(self)), {so})'.format(c=c, fresh=fresh, so=so)),
                ('C09: the token behind the marks is the next one', "r__ matches Ok(t) ==> !old(self).is_at_beginning_of_line && old(self).pending == 0 && plain(at({c}, idx(old(self)))) && at({c}, idx(old(self))) != '\\0' ==> spanned(*t) && ts(*t) == idx(old(self))".format(c=c))]
    def xloop(s, f, l, w):
        o = [(s.lab(f, l, 'no marks left'), 'old(self).pending == 0'), (s.lab(f, l, 'brackets'), 'self.parenthesis == old(self).parenthesis'), (s.lab(f, l, 'blocks'), 'self.indent_stack@ == old(self).indent_stack@'),
             (s.lab(f, l, 'empty brackets'), 'self.parenthesis@.len() == 0'), (s.lab(f, l, 'depth'), 'depth(self) == depth(old(self))'),
             (s.lab(f, l, 'less'), 'self.indent_stack@.len() <= old(self).indent_stack@.len() && self.indent_stack@ =~= old(self).indent_stack@.subrange(0, self.indent_stack@.len() as int)'),
             (s.lab(f, l, 'increasing'), 'inc(self.indent_stack@)'),
             (s.lab(f, l, 'head'), 'if self.is_at_beginning_of_line {{ bol(src(self), idx(self)) && self.pending == 0 && old(self).pending == 0 && (self.parenthesis@.len() == 0 ==> old(self).is_at_beginning_of_line) }} else {{ {w} && !old(self).is_at_beginning_of_line && self.pending == old(self).pending }}'.format(w='idx(self) == idx(old(self))')),
             (s.lab(f, l, 'stuck'), '!old(self).is_at_beginning_of_line && plain(at(src(self), idx(old(self)))) ==> idx(self) == idx(old(self)) && !self.is_at_beginning_of_line')]
        for m in l['mods']:
            if s.lty(m) == 'u32': o.append((s.lab(f, l, m['name'] + ' column'), 'blanks(src(self), idx(&%s), idx(self)) && %s == colof(src(self), idx(&%s), idx(self))' % (w, m['name'], w)))
        o.append((s.lab(f, l, 'taken'), 'idx(self) > tsp(self)'))
        o.append((s.lab(f, l, 'token'), '!blank(at(src(self), tsp(self))) && !nl(at(src(self), tsp(self)))'))
        o.append((s.lab(f, l, 'closed'), 'forall|j: int| 0 <= j < self.indent_stack@.len() ==> #[trigger] old(self).indent_stack@[j] == self.indent_stack@[j]'))
        for v in [m['name'] for m in l['inscope'] if s.lty(m) == 'u32'] + [p['name'] for p in f['params'] if p['ty'].strip() == 'u32']:
            o.append((s.lab(f, l, v + ' closes'), 'forall|j: int| self.indent_stack@.len() <= j < old(self).indent_stack@.len() ==> %s < #[trigger] old(self).indent_stack@[j]' % v))
        fresh = 'old(self).is_at_beginning_of_line && self.parenthesis@.len() == 0'
        o.append((s.lab(f, l, 'line begins'), 'self.is_at_beginning_of_line ==> ' + C10.LB))
        for b in s.ovars(f, l):
            o.append((s.lab(f, l, b + ' only at the beginning'), '%s ==> %s' % (b, C10.LB)))
            o.append((s.lab(f, l, b + ' column'), "%s ==> if %s { joined(src(self), idx(self)) || nl(at(src(self), idx(self))) || at(src(self), idx(self)) == '#' || at(src(self), idx(self)) == '\\0' || (at(src(self), idx(self)) == '\\\\' && lineblank(src(self), idx(self))) } else { plain(at(src(self), idx(self))) && atcol(src(self), idx(self), self.indent_stack@.last() as int) }" % (fresh, b)))
        return o
    def exits(s): return ['!blank(#)', '!nl(#)', "(nl(#) || # == '\\0')"]
    def loop_ens(s, f, l):
        if not (f['self'] and f['impl'] == 'PythonCoreTokenizer'): return []
        return super().loop_ens(f, l) + [(s.lab(f, l, 'exit column'), 'old(self).is_at_beginning_of_line && self.parenthesis@.len() == 0 ==> joined(src(self), idx(self)) || atcol(src(self), idx(self), self.indent_stack@.last() as int)')]

# ------------------------------------------------------------------ C03
class C03(TrvMix, LexProp):
    id = 'C03'
    def texts(s): return True
    def xdefs(s):
        return s.trvdefs() + COL + """pub open spec fn run(c: Seq<char>, a: int, b: int, x: char) -> bool { a <= b && forall|k: int| a <= k < b ==> #[trigger] at(c, k) == x }
pub open spec fn oneline(c: Seq<char>, a: int, b: int) -> bool { a <= b && forall|k: int| a <= k < b ==> !nl(#[trigger] at(c, k)) }
// what may stand between two recorded pieces: nothing, or the blanks that open a line
pub open spec fn gap(c: Seq<char>, a: int, b: int) -> bool { a == b || (a < b && bol(c, a) && blanks(c, a, b)) }
pub open spec fn tstart(x: Trivia) -> int { match x { Trivia::WhiteSpace(s, e, a) => s as int, Trivia::Newline(s, e, a, b) => s as int, Trivia::LineContinuation(s, e, a, b, d) => s as int, Trivia::Comment(s, e, t) => s as int } }
pub open spec fn tend(x: Trivia) -> int { match x { Trivia::WhiteSpace(s, e, a) => e as int, Trivia::Newline(s, e, a, b) => e as int, Trivia::LineContinuation(s, e, a, b, d) => e as int, Trivia::Comment(s, e, t) => e as int } }
// the recorded piece is what the source has there (a CR LF line end may take in one character more: known finding)
pub open spec fn exact(c: Seq<char>, x: Trivia) -> bool { match x {
  Trivia::WhiteSpace(s, e, a) => s < e && blank(a) && run(c, s as int, e as int, a),
  Trivia::Newline(s, e, a, b) => a == at(c, s as int) && nl(a) && (if a == '\\r' && at(c, s + 1) == '\\n' { b == '\\n' && (e == s + 2 || e == s + 3) } else { e == s + 1 && b == ' ' }),
  Trivia::LineContinuation(s, e, a, b, d) => a == '\\\\' && at(c, s as int) == '\\\\' && b == at(c, s + 1) && nl(b) && (if b == '\\r' && at(c, s + 2) == '\\n' { d == '\\n' && e == s + 3 } else { d == ' ' && e == s + 2 }),
  Trivia::Comment(s, e, t) => s < e && at(c, s as int) == '#' && oneline(c, s as int, e as int) && (nl(at(c, e as int)) || at(c, e as int) == '\\0') && t@ == c.subrange(s as int, e as int),
} }
pub open spec fn endof(v: Seq<Box<Trivia>>, from: int) -> int { if v.len() == 0 { from } else { tend(*v.last()) } }
#[verifier::opaque] pub open spec fn tiled(c: Seq<char>, v: Seq<Box<Trivia>>, from: int) -> bool decreases v.len() {
  v.len() == 0 || (tiled(c, v.drop_last(), from) && exact(c, *v.last()) && gap(c, endof(v.drop_last(), from), tstart(*v.last()))) }
"""
    def xlemmas(s):
        return """pub broadcast proof fn tiled_push(c: Seq<char>, v: Seq<Box<Trivia>>, x: Box<Trivia>, from: int) ensures #[trigger] tiled(c, v.push(x), from) == (tiled(c, v, from) && exact(c, *x) && gap(c, endof(v, from), tstart(*x))) { reveal_with_fuel(tiled, 2); assert(v.push(x).drop_last() =~= v); }
pub broadcast proof fn tiled_empty(c: Seq<char>, v: Seq<Box<Trivia>>, from: int) requires v.len() == 0 ensures #[trigger] tiled(c, v, from) { reveal_with_fuel(tiled, 2); }
pub broadcast proof fn twice(v: Seq<Box<Trivia>>) ensures #[trigger] v.reverse().reverse() == v { assert(v.reverse().reverse() =~= v); }
pub broadcast proof fn none(v: Seq<Box<Trivia>>) requires v.len() == 0 ensures #[trigger] v.reverse() == v { assert(v.reverse() =~= v); }
""", ['tiled_push', 'tiled_empty', 'twice', 'none']
    def linv(s, l): return [('a line begins', '{0}.is_at_beginning_of_line ==> bol(src({0}), idx({0}))'.format(l))]
    def ens_symbol(s):
        c = 'src(old(self))'
        return [('C03: the trivia describe the source in front of the token, in order and without a gap', 'r__ matches Ok(t) ==> tiled({c}, trv(*t).reverse(), idx(old(self))) && gap({c}, endof(trv(*t).reverse(), idx(old(self))), if spanned(*t) || *t is EOF {{ ts(*t) }} else {{ idx(final(self)) }})'.format(c=c)),
                ('C03: the next token is looked for where this one ends', 'r__ matches Ok(t) ==> spanned(*t) || *t is EOF ==> te(*t) == idx(final(self))'),
                ('C03: an empty list of trivia is not recorded', 'r__ matches Ok(t) ==> trvo(*t) matches Some(v) ==> v@.len() > 0'),
                ('C03: the source ends at the end marker', "r__ matches Ok(t) ==> *t is EOF ==> at(%s, ts(*t)) == '\\0'" % c)]
    def exits(s): return ['!blank(#)', "# != ' '", "(nl(#) || # == '\\0')"]
    def xloop(s, f, l, w):
        c, p = 'src(self)', 'idx(self)'
        o = [(s.lab(f, l, 'line begins'), 'self.is_at_beginning_of_line ==> bol(%s, %s)' % (c, p)),
             (s.lab(f, l, 'blanks'), 'blanks(%s, idx(&%s), %s)' % (c, w, p)), (s.lab(f, l, 'spaces'), "run(%s, tsp(self), %s, ' ')" % (c, p)), (s.lab(f, l, 'one line'), 'oneline(%s, tsp(self), %s)' % (c, p)),
             (s.lab(f, l, 'hash'), "at(%s, tsp(self)) == '#'" % c)]
        for v in s.trivs(f, l):
            e = 'endof(%s@, idx(old(self)))' % v
            o.append((s.lab(f, l, v + ' tiled'), 'tiled(%s, %s@, idx(old(self)))' % (c, v)))
            o.append((s.lab(f, l, v + ' up to here'), 'gap(%s, %s, %s)' % (c, e, p)))
            o.append((s.lab(f, l, v + ' up to the token'), 'gap(%s, %s, tsp(self))' % (c, e)))
            o.append((s.lab(f, l, v + ' blank follows'), '%s == %s || !blank(at(%s, %s))' % (e, p, c, p)))
            o.append((s.lab(f, l, 'head ' + v), '%s == %s' % (e, p)))
        return o
    def xhelper(s, f, c0, i0, i1, ok):
        o = []
        for v in s.tparams(f):
            n = f['name']
            for k, (a, b) in {'here': ('gap({c}, endof(old({v})@, from), {i0})', 'gap({c}, endof(final({v})@, from), {i1})'), 'on': ('endof(old({v})@, from) == {i0}', 'endof(final({v})@, from) == {i1}')}.items():
                o.append(('cand:h:%s:%s %s' % (n, v, k), ('forall|from: int| #[trigger] tiled({c}, old({v})@, from) && ' + a + ' ==> tiled({c}, final({v})@, from) && ' + b).format(c=c0, v=v, i0=i0, i1=i1)))
        return o

# ------------------------------------------------------------------ C01
class C01(LexProp):
    id = 'C01'
    def panics(s): return True
    def xdefs(s):
        return """pub open spec fn depth(l: &PythonCoreTokenizer) -> int { l.indent_stack@.len() - l.pending }
// what every request lowers that does not deliver the end marker
pub open spec fn rank(l: &PythonCoreTokenizer) -> int { 2 * (src(l).len() + 8 - idx(l)) + depth(l) }
// nothing is left to deliver but the end marker
pub open spec fn atend(l: &PythonCoreTokenizer) -> bool { at(src(l), idx(l)) == '\\0' && !l.is_at_beginning_of_line && l.pending == 0 && (l.parenthesis@.len() > 0 || l.indent_stack@.len() <= 1) }
pub open spec fn wc(x: char) -> bool { alnum(x) || x == '_' }
"""
    def linv(s, l): return [('pending marks only close blocks', '%s.pending <= 0' % l)]
    def dec_symbol(s): return None
    def ens_string(s): return [('C01 handle_string: takes the string', 'r__ is Ok ==> idx(final(self)) > idx(old(self))')]
    def ens_symbol(s):
        return [('C01: a token ends further on than the one before it', 'r__ matches Ok(t) ==> !(*t is Indent) && !(*t is Dedent) && !(*t is EOF) ==> spanned(*t) && te(*t) == idx(final(self)) && idx(final(self)) > idx(old(self))'),
                ('C01: every request but one for the end marker lowers the rank', 'r__ matches Ok(t) ==> !(*t is EOF) ==> 0 <= rank(final(self)) < rank(old(self))'),
                ('C01: at the end marker nothing else is left', 'r__ matches Ok(t) ==> *t is EOF ==> atend(final(self)) && ts(*t) == idx(final(self))'),
                ('C01: the end marker is delivered again and again', 'atend(old(self)) ==> (r__ matches Ok(t) && *t is EOF && idx(final(self)) == idx(old(self)) && final(self).parenthesis@ == old(self).parenthesis@)')]
    def exits(s): return ['!blank(#)', "# != ' '", "(nl(#) || # == '\\0')", '!wc(#)', '!digit(#)']
    def xloop(s, f, l, w):
        return [(s.lab(f, l, 'stuck'), 'atend(old(self)) ==> idx(self) == idx(old(self)) && atend(self) && self.parenthesis@ == old(self).parenthesis@'), (s.lab(f, l, 'not at the end'), '!atend(old(self))'),
                (s.lab(f, l, 'rank'), '!self.is_at_beginning_of_line ==> rank(self) <= rank(old(self))'), (s.lab(f, l, 'depth'), 'depth(self) == depth(old(self))'),
                (s.lab(f, l, 'pushed'), 'self.pending > 0 ==> idx(self) > idx(old(self))'), (s.lab(f, l, 'no pushes'), 'self.pending <= 0'),
                (s.lab(f, l, 'taken'), 'idx(self) > tsp(self)'),
                (s.lab(f, l, 'head'), 'self.is_at_beginning_of_line || idx(self) == idx(old(self))')] + [
                (s.lab(f, l, m['name'] + ' taken'), '%s > 0 ==> idx(self) > idx(&%s)' % (m['name'], w)) for m in l['mods'] if s.lty(m) == 'u32']
    def loop_ens(s, f, l):
        if not (f['self'] and f['impl'] == 'PythonCoreTokenizer'): return []
        return super().loop_ens(f, l) + [(s.lab(f, l, 'exit not at the end'), '!atend(old(self))')]
    # termination: a ghost number that every round lowers; the first measure that works is kept
    def measures(s, f, l):
        mut = s.mut(f)
        o = []
        if mut and f['impl'] == 'PythonCoreTokenizer': o += ['2 * (src(self).len() + 8 - idx(self)) + self.indent_stack@.len()', 'self.indent_stack@.len() as int', 'self.parenthesis@.len() as int']
        elif mut and f['impl'] == 'SourceBuffer': o += ['self.source_buffer@.len() + 8 - self.index']
        ints = ('u32', 'usize', 'i32', 'u8', 'u64', 'i64')
        lim = [p['name'] + ' as int' for p in f['params'] if p['ty'].strip() in ints] + ([l['for']['end'] + (' + 1' if l['for']['closed'] else '')] if l.get('for') else []) + ['4', '16']
        for m in l['mods']:
            if s.isint(m):
                o.append('%s as int' % m['name'])
                o += ['%s - %s' % (x, m['name']) for x in lim] + (['src(self).len() + 8 - %s' % m['name']] if f['self'] and f['impl'] == 'PythonCoreTokenizer' else [])
        return o or ['0int']
    def live(s, f, l):
        ms = list(enumerate(s.measures(f, l)))
        r = [(j, e) for j, e in ms if s.mlab(f, l, j) not in s.dropped]
        return (r, True) if r else (ms[:1], False)
    def mlab(s, f, l, j): return s.lab(f, l, 'head measure %d' % j)
    def xloop_pre(s, f, l): return ''.join(' let ghost mut meas_%d_%d: int = 1 + (%s);' % (l['k'], j, e) for j, e in s.live(f, l)[0])
    def loop_pre(s, f, l): return super().loop_pre(f, l) or s.xloop_pre(f, l)
    def loop_start(s, f, l): return ' proof { %s }' % ' '.join('meas_%d_%d = %s;' % (l['k'], j, e) for j, e in s.live(f, l)[0])
    def loop_inv(s, f, l):
        inv, d = super().loop_inv(f, l)
        ms, c = s.live(f, l)
        a = l
        while a['parent'] is not None:
            a = [x for x in f['loops'] if x['k'] == a['parent']][0]
            for j, e in s.live(f, a)[0]:
                inv = inv + [(s.lab(f, l, 'round %d has not raised measure %d' % (a['k'], j)), '(%s) <= meas_%d_%d' % (e, a['k'], j)), (s.lab(f, l, 'round %d has lowered measure %d' % (a['k'], j)), '(%s) < meas_%d_%d' % (e, a['k'], j))]
        return (inv + [(s.mlab(f, l, j) if c else '%s:%d:head: every round lowers a measure' % (f['name'], l['k']), '0 <= (%s) && (%s) < meas_%d_%d' % (e, e, l['k'], j)) for j, e in ms], d)
    def assumptions(s): return super().assumptions() + ['a loop ends when every round lowers a number that is never negative (checked by ghost code in place of decreases clauses); functions of the lexer do not call themselves (checked on the text)']
    def recursive(s):
        fs = {f['name']: f for f in s.ex['fns'] if s.verify(f)}
        calls = {n: {m for m in fs if re.search(r'\b%s\s*\(' % re.escape(m), f['body'])} for n, f in fs.items()}
        def reach(n):
            r, todo = set(), [n]
            while todo:
                for m in calls[todo.pop()]:
                    if m not in r: r.add(m); todo.append(m)
            return r
        # new and get_position exist in both impls and only forward
        return [n for n in fs if n in reach(n) and n not in ('new', 'get_position')]
    def spec(s, f):
        r, e, d = super().spec(f)
        if f['name'] in s.recursive(): e = e + [('%s: does not call itself' % f['name'], 'false')]
        return r, e, d
