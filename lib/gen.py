"""Builds one Verus file from the extraction (extract/) and the contracts of one property (specs/)."""
import re, json
from ty import T, parse, strip, mangle

HEADER = '''// GENERATED on every run from /repo's working tree. Do not edit.
#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
verus!{
'''

TRUST = '''
pub mod trust {
use vstd::prelude::*;
// Trusted: Clone on these types is the derived / library structural clone.
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<X: Clone> VClone for X { #[verifier::external_body] fn vclone(&self) -> (r: Self) { self.clone() } }
// Trusted: slice::reverse.
pub trait VRev: Sized { fn vreverse(&mut self); }
impl<X> VRev for Vec<X> { #[verifier::external_body] fn vreverse(&mut self) ensures final(self)@ == old(self)@.reverse() { self.reverse() } }
// Error texts are dropped.
#[verifier::external_body] pub fn vfmt() -> String { String::new() }
// Trusted: equality and prefix test of strings.
#[verifier::external_body] pub fn vstreq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vstarts_with(a: &str, b: &str) -> (r: bool)
  ensures r == (b@.len() <= a@.len() && a@.subrange(0, b@.len() as int) == b@) { a.starts_with(b) }
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
// Trusted: library functions the verifier's own library says nothing about, as documented.
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { b });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && b is None { o } else if o is None && b is Some { b } else { None });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
  requires o matches Some(x) ==> f.requires((x,)) ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
  requires o matches Some(x) ==> f.requires((x,)) ensures match o { Some(x) => f.ensures((x,), r), None => r };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
  requires o matches Some(x) ==> f.requires((x,)) ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
  requires o matches Some(x) ==> f.requires((&x,)) ensures match o { Some(x) => (r is None && f.ensures((&x,), false)) || (r == Some(x) && f.ensures((&x,), true)), None => r is None };
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (o, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
  requires o matches Ok(x) ==> f.requires((x,)) ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
  requires o matches Err(e) ==> f.requires((e,)) ensures match o { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *x;
pub open spec fn v_asc(c: char) -> bool { c as u32 <= 127 }
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == v_asc(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F') || ('0' <= *c && *c <= '9'));
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == (*c == ' ' || *c == '\\t' || *c == '\\n' || *c == '\\r' || *c == '\\x0c');
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || *c as u32 == 127);
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool) ensures r == ('!' <= *c && *c <= '~');
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == (('!' <= *c && *c <= '/') || (':' <= *c && *c <= '@') || ('[' <= *c && *c <= '`') || ('{' <= *c && *c <= '~'));
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool) ensures v_asc(c) ==> r == ('a' <= c && c <= 'z');
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures v_asc(c) ==> r == ('A' <= c && c <= 'Z');
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures v_asc(c) ==> r == ('0' <= c && c <= '9');
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == ((c as u32) < 32 || (127 <= c as u32 && c as u32 <= 159));
pub assume_specification[ char::eq_ignore_ascii_case ](c: &char, d: &char) -> (r: bool) ensures r == (v_lowch(*c) == v_lowch(*d));
pub open spec fn v_lowch(c: char) -> u32 { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as u32 } else { c as u32 } }
pub open spec fn v_upch(c: char) -> u32 { if 'a' <= c && c <= 'z' { (c as u32 - 32) as u32 } else { c as u32 } }
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r as u32 == v_lowch(*c);
pub assume_specification[ char::to_ascii_uppercase ](c: &char) -> (r: char) ensures r as u32 == v_upch(*c);
pub open spec fn v_digval(c: char) -> int { if '0' <= c && c <= '9' { c as u32 - '0' as u32 } else if 'a' <= c && c <= 'z' { c as u32 - 'a' as u32 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 'A' as u32 + 10 } else { 36 } }
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (v_digval(c) < radix);
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures r == (if v_digval(c) < radix { Some(v_digval(c) as u32) } else { None });
pub assume_specification<T: Default>[ core::mem::take::<T> ](dest: &mut T) -> (r: T) ensures r == *old(dest), T::default.ensures((), *final(dest));
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures (r == 0) == (s@.len() == 0), s@.len() <= r;
#[verifier::external_body] pub fn vunreachable<X>() -> (r: X) /*@PANIC*/ { unreachable!() }
}
'''

class Prop:
    """Base class of the contract sets; everything empty."""
    id = 'X'
    files = None              # verify bodies only of functions in these files (None: all)
    def __init__(s, ex):
        s.ex = ex
        s.fns = ex['fns']
        s.external = {}           # functions the verifier refuses to read: contract kept, body not verified
        s.split = set()           # functions whose ensures clauses are discharged one by one, in copies of the body
        s.dropped = set()         # candidate invariants found not to hold (they are hints, never claims)
        s.enums = {e['name']: e for e in ex['enums']}
        s.structs = {x['name']: x for x in ex['structs']}
    def ghost_fields(s, struct): return []          # [(name, type, init-expr)]
    def trust(s): return ''
    def defs(s): return ''
    def lemmas(s): return ('', [])                  # text, names of broadcast lemmas
    def code_extra(s): return ''
    def broadcasts(s): return []
    def verify(s, f): return True                   # False: external_body (contract assumed or empty)
    def attrs(s, f): return []
    def spec(s, f): return ([], [], None)           # requires, ensures (list of (label, expr)), decreases
    def entry(s, f): return ''
    def sym_assign(s, f): return ''
    def loop_pre(s, f, l): return ''
    def loop_inv(s, f, l): return ([], None)        # [(label, expr)], decreases
    def loop_end(s, f, l): return ''
    def loop_start(s, f, l): return ''
    def isolate(s, f, l): return False     # True: the loop is a query of its own and only its invariants are known after it
    def loop_ens(s, f, l): return []
    def decl(s, f, k, name): return ''
    def termination(s): return False
    def panics(s): return False           # True: reaching a panic is an error; False: only runs without one are looked at
    def assumptions(s): return []
    def group(s, label): return label     # clauses of one group are discharged in the same copy of a split function
    def canary(s): return ''              # text of functions with //@ canary clauses that must be refused
    def canaries(s): return s.canary().count('//@ canary')

def find_close(t, i):
    """index after the brace that closes t[i] == '{'"""
    d = 0
    while True:
        c = t[i]
        if c == '{': d += 1
        elif c == '}':
            d -= 1
            if d == 0: return i + 1
        i += 1

def fields_text(en):
    vs = []
    for v in en['variants']:
        vs.append('  ' + v['name'] + ('(' + ', '.join(v['fields']) + ')' if v['fields'] else ''))
    return ',\n'.join(vs)

def verified(prop, f): return prop.verify(f) and key(f) not in prop.external

def key(f): return (f['impl'] + '::' if f['impl'] else '') + f['name']

def generate(ex, prop):
    """returns (text, meta) ; meta maps line ranges to functions and obligation labels"""
    out = [HEADER, TRUST.replace('/*@PANIC*/', 'requires false' if prop.panics() else 'ensures false'), prop.trust()]
    out.append('pub mod defs {\nuse vstd::prelude::*;\nuse super::trust::*;\n')
    for e in ex['enums']:
        if e['name'] == 'ET':
            continue
        out.append('pub enum %s {\n%s\n}\n' % (e['name'], fields_text(e)))
        if any('Clone' in d for d in e['derives']):
            out.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n' % e['name'])
    for e in ex['enums']:
        if e['name'] == 'ET':
            out.append('pub enum ET {\n%s\n}\n' % fields_text(e))
            if any('Clone' in d for d in e['derives']):
                out.append('impl Clone for ET { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n')
            if any('Copy' in d for d in e['derives']): out.append('impl Copy for ET {}\n')
    for sname in ('SourceBuffer', 'PythonCoreTokenizer', 'PythonCoreParser'):
        if sname in prop.structs: out.append(struct_text(prop, prop.structs[sname]))
    for sname, st in prop.structs.items():
        if sname not in ('SourceBuffer', 'PythonCoreTokenizer', 'PythonCoreParser'): out.append(struct_text(prop, st))
    for o in ex['other']: out.append('pub ' + re.sub(r'^pub(\([a-z]+\))?\s+', '', o['text']) + '\n')
    out.append(prop.defs())
    out.append('}\n')
    ltext, lnames = prop.lemmas()
    out.append('pub mod lem {\nuse vstd::prelude::*;\nuse super::trust::*;\nuse super::defs::*;\n')
    out.append(ltext)
    if lnames: out.append('pub broadcast group g {\n  ' + ',\n  '.join(lnames) + '\n}\n')
    out.append('}\n')
    out.append('pub mod code {\nuse vstd::prelude::*;\nuse super::trust::*;\nuse super::defs::*;\nuse super::defs::ET::*;\nuse super::lem::*;\n')
    uses = (['super::lem::g'] if lnames else []) + prop.broadcasts()
    if uses: out.append('broadcast use {%s};\n' % ', '.join(uses))
    out.append(prop.code_extra())
    out.append(prop.canary())
    meta = {'fns': []}
    seen = {}
    for f in ex['fns']:
        line0 = ''.join(out).count('\n') + 1
        t, labels = fn_text(prop, f)
        impl = f['impl']
        if impl: t = 'impl %s {\n%s\n}\n' % (impl, t)
        out.append(t)
        line1 = ''.join(out[-1:]).count('\n') + line0
        meta['fns'].append({'name': key(f), 'from': line0, 'to': line1, 'repo': f['file'], 'line': f['line'], 'verified': verified(prop, f), 'loops': len(f['loops']), 'labels': labels})
    out.append('}\n}\nfn main() {}\n')
    return ''.join(out), meta

def struct_text(prop, s):
    fs = [(x['name'], x['ty']) for x in s['fields']] + [(n, t) for n, t, _ in prop.ghost_fields(s['name'])]
    return 'pub struct %s {\n%s\n}\n' % (s['name'], ',\n'.join('  pub %s: %s' % x for x in fs))

def fn_text(prop, f):
    if key(f) in prop.split and verified(prop, f) and not prop.termination():
        groups = {}
        for x in prop.spec(f)[1]:
            if x[0] not in prop.dropped: groups.setdefault(prop.group(x[0]), []).append(x)
        if len(groups) > 1:
            t, labels = fn_text1(prop, f, contract=True)
            for k, g in enumerate(groups.values()): t += fn_text1(prop, f, only=(k, g))[0]
            return t, labels
    return fn_text1(prop, f)

def fn_text1(prop, f, contract=False, only=None):
    labels = []
    ps = []
    if f['self']: ps.append(f['self'])
    for p in f['params']: ps.append(('mut ' if p['mut'] else '') + p['name'] + ': ' + p['ty'])
    ret = f['ret']
    head = 'pub fn %s%s(%s)' % (f['name'] + ('' if only is None else '__%d' % only[0]), f['generics'], ', '.join(ps))
    if ret: head += ' -> (r__: %s)' % ret
    req, ens, dec = prop.spec(f)
    if only is not None: ens = only[1]
    head += '\n'
    def clause(kw, cs):
        cs = [(lab, e) for lab, e in cs if lab not in prop.dropped]
        if not cs: return ''
        s = '  ' + kw + '\n'
        for lab, e in cs:
            labels.append(lab)
            s += '    (%s), //@ %s\n' % (e, lab)
        return s
    head += clause('requires', req) + clause('ensures', ens)
    if dec: head += '  decreases %s, //@ dec:%s\n' % (dec, f['name'])
    attrs = ['#[verifier::loop_isolation(false)]', '#[verifier::spinoff_prover]'] if verified(prop, f) and not contract else ['#[verifier::external_body]']
    if verified(prop, f) and not prop.termination(): attrs.append('#[verifier::exec_allows_no_decreases_clause]')
    attrs += prop.attrs(f)
    body = f['body']
    if contract or not verified(prop, f):
        return '\n'.join(attrs) + '\n' + head + '{ unimplemented!() }\n', labels
    # loops
    def loop_text(kind, k):
        l = f['loops'][k]
        iso = prop.isolate(f, l)
        if kind == 'L': return prop.loop_pre(f, l) + (' #[verifier::loop_isolation(true)] ' if iso else ' #[verifier::allow_complex_invariants] ' if any(x.startswith('cand:') and x not in prop.dropped for x, _ in prop.loop_inv(f, l)[0]) else '')
        if kind == 'E': return prop.loop_end(f, l)
        inv, d = prop.loop_inv(f, l)
        s = '\n'
        if iso: cs = [('invariant_except_break', lambda x: ':head' in x and x not in prop.dropped), ('invariant', lambda x: ':head' not in x and x not in prop.dropped)]
        else: cs = (('invariant_except_break', lambda x: (x.startswith('cand:') or ':head' in x) and x not in prop.dropped), ('invariant', lambda x: not x.startswith('cand:') and ':head' not in x and x not in prop.dropped))
        for kw, sel in cs:
            cs = [(lab, e) for lab, e in inv if sel(lab)]
            if cs: s += '  %s\n' % kw
            for lab, e in cs:
                labels.append(lab)
                s += '    (%s), //@ %s\n' % (e, lab)
        es = [(a, b) for a, b in (prop.loop_ens(f, l) if iso else []) if a not in prop.dropped]
        if es: s += '  ensures\n'
        for lab, e in es:
            labels.append(lab)
            s += '    (%s), //@ %s\n' % (e, lab)
        if d: s += '  decreases %s, //@ loopdec:%s:%d\n' % (d, f['name'], k)
        return s
    body = re.sub(r'/\*@I:(\d+)\*/ *\{', lambda m: m.group(0) + prop.loop_start(f, f['loops'][int(m.group(1))]), body)
    body = re.sub(r'/\*@([LIE]):(\d+)\*/', lambda m: loop_text(m.group(1), int(m.group(2))), body)
    body = re.sub(r'/\*@A\*/', lambda m: prop.sym_assign(f), body)
    body = re.sub(r'/\*@D:(\d+):(\w+)\*/', lambda m: prop.decl(f, int(m.group(1)), m.group(2)), body)
    def ghostinit(m):
        name = m.group(2)
        if name == 'Self': name = f['impl'] or ''
        g = prop.ghost_fields(name)
        if not g: return ''
        return m.group(1) + ' ' + ', '.join('%s: %s' % (n, i) for n, t, i in g)
    body = re.sub(r'/\*@G(,?):(\w+)\*/', ghostinit, body)
    e = prop.entry(f)
    if e: body = '{ ' + e + body[1:]
    return '\n'.join(attrs) + '\n' + head + body + '\n', labels
