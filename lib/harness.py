"""Builds the failing-input search: the real sources of /repo plus /verif/search, compiled into one program."""
import json, os, re, shutil, subprocess, sys
from ty import parse

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def conv(ex):
    en = {e['name']: e for e in ex['enums']}
    o = ['use crate::base::*;\nuse crate::parser::nodes::ASTNode;\nuse crate::parser::tokens::Token;\nuse crate::parser::trivias::Trivia;\n']
    def names(v): return ['a%d' % i for i in range(len(v['fields']))]
    def pat(e, v): return '%s::%s%s' % (e, v['name'], '(' + ', '.join(names(v)) + ')' if v['fields'] else '')
    o.append('pub fn tv(t: &Trivia) -> Tv {\n let mut r = Tv { k: "", n: vec![], txt: None, ch: vec![] };\n match t {\n')
    for v in en['Trivia']['variants']: o.append('  %s => { r.k = "%s"; %s }\n' % (pat('Trivia', v), v['name'], ' '.join('TvF::put(%s, &mut r);' % n for n in names(v))))
    o.append(' }\n r\n}\npub fn tk(t: &Token) -> Tk {\n let mut r = Tk { k: "", n: vec![], txt: None, pre: None, ch: vec![], tv: None };\n match t {\n')
    for v in en['Token']['variants']: o.append('  %s => { r.k = "%s"; %s }\n' % (pat('Token', v), v['name'], ' '.join('TkF::put(%s, &mut r);' % n for n in names(v))))
    o.append(' }\n r\n}\npub fn node(t: &ASTNode) -> V {\n match t {\n')
    for v in en['ASTNode']['variants']:
        ps = [n for n, f in zip(names(v), v['fields']) if f == 'u32']
        fs = [n for n, f in zip(names(v), v['fields']) if f != 'u32']
        o.append('  %s => V::N("%s", vec![%s], vec![%s]),\n' % (pat('ASTNode', v), v['name'], ', '.join('*' + p for p in ps), ', '.join(n + '.v()' for n in fs)))
    o.append(' }\n}\n')
    fns = []
    traits = set()
    for f in ex['fns']:
        if f['impl'] == 'PythonCoreParser' and f['trait'] and f['self'] and not f['params'] and f['ret'] and f['ret'].replace(' ', '') == 'Result<Box<ASTNode>,String>':
            fns.append(f['name'])
            traits.add((os.path.basename(f['file'])[:-3], f['trait']))
    o.append('#[allow(unused_imports)] use crate::parser::parser::{Parser, PythonCoreParser};\n')
    for m, t in sorted(traits): o.append('#[allow(unused_imports)] use crate::parser::%s::%s;\n' % (m, t))
    o.append('pub const FNS: &[&str] = &[%s];\n' % ', '.join('"%s"' % f for f in fns))
    o.append('pub fn call(p: &mut PythonCoreParser, f: &str) -> Result<Box<ASTNode>, String> {\n match f {\n')
    for f in fns: o.append('  "%s" => p.%s(),\n' % (f, f))
    o.append('  _ => Err(String::from("no such function"))\n }\n}\n')
    o.append('pub const KEYWORD_KINDS: &[&str] = &[%s];\n' % ', '.join('"%s"' % v['name'] for v in en['Token']['variants']))
    return ''.join(o)

LIT = re.compile(r"""b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])'|"(?:\\.|[^"\\])*"|(?<![\w.])\d[\d_]*(?![\w.])""", re.S)
def literals(ex):
    """the character, text and number literals of the code: a dictionary for the search"""
    o = set()
    for f in ex['fns']:
        for x in LIT.findall(re.sub(r'/\*.*?\*/', ' ', f['body'], flags=re.S)):
            if x.startswith("b'"): x = x[1:]
            o.add(x)
    for x in ex['other']: o |= set(LIT.findall(x['text']))
    return o
def dictionary(ex):
    try: base = set(json.load(open(V + '/lib/literals.json')))
    except Exception: base = set()
    new = sorted(literals(ex) - base)
    st, nu = [], []
    for x in new:
        if x[0] == "'": st.append('"%s"' % (x[1:-1] if x[1:-1] != '"' else '\\"'))
        elif x[0] == '"' and len(x) < 40: st.append(x)
        elif x[0].isdigit():
            k = int(x.replace('_', ''))
            if 1 < k < 3000: nu.append(k)
    return 'pub const NOVEL: &[&str] = &[%s];\npub const NOVELN: &[usize] = &[%s];\n' % (', '.join(st), ', '.join(map(str, nu)))

def root(repo):
    """main.rs of the search program: the repository's own main.rs, its main renamed, plus the search modules"""
    s = open(repo + '/src/main.rs').read()
    s = re.sub(r'(?m)^\s*(?:pub(?:\([a-z]+\))?\s+)?fn\s+main\s*\(', '#[allow(dead_code)] fn repo_main__(', s, count=1)
    inner = re.match(r'(?:\s*#!\[[^\]]*\]\s*|\s*//[^\n]*\n|\s*/\*.*?\*/)*', s, re.S).end()
    mods = ''.join('#[path = "%s/search/%s.rs"] mod %s;\n' % (V, m, m) for m in ('base', 'gen', 'lexo', 'parso', 'h'))
    return '#![allow(warnings)]\n' + s[:inner] + s[inner:] + '\nmod conv;\nmod table;\n' + mods + 'fn main() { h::main2() }\n'

def build(ex, repo, work, table=''):
    d = work + '/search'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(repo + '/src', d)
    open(d + '/conv.rs', 'w').write(conv(ex))
    open(d + '/table.rs', 'w').write(table + dictionary(ex))
    open(d + '/main.rs', 'w').write(root(repo))
    r = subprocess.run(['rustc', '--edition', '2021', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'codegen-units=8', '-o', d + '/search.bin', d + '/main.rs'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (d + '/search.bin' if r.returncode == 0 else None), r.stdout
