// Parser oracles (P11..P18): written from the property statements; the grammar comes from specs/grammar.py via table.rs.
use crate::base::*;
use crate::lexo::{lex, It};
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::table::{conds, F, RESULT, TABLE};

pub struct Out { pub tree: Result<V, String>, pub start: u32, pub pos: u32, pub look: Option<Tk>, pub rest: usize, pub rest_capped: bool, pub probed: bool }

pub fn is_entry(f: &str) -> bool { f.starts_with("parse_blocks_") && f.ends_with("_input") }

pub fn parse(f: &str, src: &str) -> Out {
    let n = src.chars().count();
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
    if !is_entry(f) { p.advance() }
    let start = p.lexer.get_position();
    let r = crate::conv::call(&mut p, f);
    let pos = p.lexer.get_position();
    let look = match &p.symbol { Ok(t) => Some(crate::conv::tk(t)), Err(_) => None };
    let mut rest = 0; let mut capped = true; let mut probed = r.is_ok();
    if r.is_ok() {
        for _ in 0..(2 * n + 8) {
            match &p.symbol { Ok(t) => { rest += 1; if crate::conv::tk(t).k == "EOF" { capped = false; break } } Err(_) => { rest += 1; capped = false; break } }
            p.advance();
        }
    }
    let tree = match r { Ok(t) => Ok(crate::conv::node(&t)), Err(m) => Err(m) };
    Out { tree, start, pos, look, rest, rest_capped: capped, probed }
}

fn lab(t: &Tk) -> (i64, i64, String) { (t.s(), t.e(), format!("{}{}", t.k, t.txt.clone().unwrap_or_default())) }

fn grammar(v: &V, tag: u32, path: &str) -> Result<(), String> {
    match v {
        V::N(k, _, fs) => {
            if let Some((_, spec)) = TABLE.iter().find(|x| x.0 == *k) {
                for (i, s) in spec.iter().enumerate() { if i < fs.len() { field(k, i, &fs[i], s, tag)? } }
                if tag == 17 {
                    let n = |i: usize| match fs.get(i) { Some(V::L(x)) => x.len(), Some(V::O(Some(b))) => match &**b { V::L(x) => x.len(), _ => 0 }, _ => 0 };
                    let o = |i: usize| match fs.get(i) { Some(V::O(x)) => x.is_some(), _ => false };
                    let t = |i: usize, ks: &[&str]| match fs.get(i) { Some(V::T(x)) => ks.contains(&x.k), Some(V::O(Some(b))) => match &**b { V::T(x) => ks.contains(&x.k), _ => false }, _ => false };
                    if let Some(m) = conds(k, &n, &o, &t) { return Err(format!("{} violates the condition [{}] (#i: length of field i, ?i: field i present): {}", k, m, v.show())) }
                }
            }
            if tag == 16 && *k == "TryStmt" { star(v)? }
            if tag == 13 { comp(v)? }
            for x in fs { grammar(x, tag, path)? }
            Ok(())
        }
        V::L(fs) | V::P(fs) => { for x in fs { grammar(x, tag, path)? } Ok(()) }
        V::O(Some(x)) => grammar(x, tag, path),
        _ => Ok(())
    }
}
fn star(v: &V) -> Result<(), String> {
    if let V::N(_, _, fs) = v { if let Some(V::O(Some(l))) = fs.get(3) { if let V::L(hs) = &**l {
        let mut kinds: Vec<bool> = vec![];
        for h in hs { if let V::N("ExceptStmt", _, g) = h { if let Some(V::N("ExceptClauseStmt", _, c)) = g.get(0) { if let Some(V::O(m)) = c.get(1) { kinds.push(m.is_some()) } } } }
        if kinds.iter().any(|x| *x) && kinds.iter().any(|x| !*x) { return Err(format!("a try statement mixes except and except*: {}", v.show())) }
    } } }
    Ok(())
}
fn comp(v: &V) -> Result<(), String> {
    let is = |x: &V| matches!(x, V::N(k, _, _) if k.contains("CompForComprehension"));
    match v {
        V::N("Argument", _, fs) => if let (Some(V::O(t)), Some(V::O(Some(x)))) = (fs.get(1), fs.get(2)) { if is(x) != t.is_none() { return Err(format!("a comprehension in an argument stands behind one element, without a token: {}", v.show())) } },
        V::N("TestListComp", _, fs) => if let (Some(V::L(xs)), Some(V::L(ss))) = (fs.get(0), fs.get(1)) {
            let ok = if xs.len() == 2 && ss.is_empty() { is(&xs[0]) && !is(&xs[1]) } else { !xs.iter().any(is) };
            if !ok { return Err(format!("a comprehension stands behind exactly one element: {}", v.show())) }
        },
        _ => {}
    }
    Ok(())
}
fn field(k: &str, i: usize, v: &V, s: &F, tag: u32) -> Result<(), String> {
    match (s, v) {
        (F::T(t, ks), V::T(x)) => if *t == tag && !ks.contains(&x.k) { Err(format!("{} field {} holds the token {} instead of {:?}", k, i, x.k, ks)) } else { Ok(()) },
        (F::N(t, c, ks), V::N(y, _, _)) => if *t == tag && !ks.contains(y) { Err(format!("{} field {} holds {} where the grammar has {}: {}", k, i, y, c, v.show())) } else { Ok(()) },
        (F::O(f), V::O(Some(x))) => field(k, i, x, f, tag),
        (F::O(_), V::O(None)) => Ok(()),
        (F::L(f), V::L(xs)) => { for x in xs { field(k, i, x, f, tag)? } Ok(()) }
        (F::P(fs), V::P(xs)) => { for (f, x) in fs.iter().zip(xs) { field(k, i, x, f, tag)? } Ok(()) }
        _ => Ok(())      // a changed shape of the tree type is the verifier's business
    }
}
fn spans(v: &V, lo: i64, hi: i64) -> Result<(), String> {
    if let V::N(k, p, fs) = v {
        let (s, e) = (p[0] as i64, p[1] as i64);
        if s > e { return Err(format!("{} has the span {}..{}", k, s, e)) }
        if s < lo || e > hi { return Err(format!("{} {}..{} lies outside of its parent {}..{}", k, s, e, lo, hi)) }
        let mut ch: Vec<(i64, i64, String)> = vec![];
        fn flat(v: &V, o: &mut Vec<(i64, i64, String)>, s: i64, e: i64) -> Result<(), String> {
            match v {
                V::T(t) => { if !t.n.is_empty() { o.push((t.s(), t.e(), t.k.to_string())); if t.s() < s || t.e() > e { return Err(format!("token {} {:?} lies outside of its node {}..{}", t.k, t.n, s, e)) } } }
                V::N(k, p, _) => { o.push((p[0] as i64, p[1] as i64, k.to_string())); spans(v, s, e)? }
                V::L(f) | V::P(f) => for x in f { flat(x, o, s, e)? },
                V::O(Some(x)) => flat(x, o, s, e)?,
                V::O(None) => {}
            }
            Ok(())
        }
        for x in fs { flat(x, &mut ch, s, e).map_err(|m| format!("{} in {} {}..{}", m, k, s, e))? }
        ch.sort();
        if let Some(c) = ch.first() { if c.0 != s { return Err(format!("{} starts at {} although its first part {} starts at {}", k, s, c.2, c.0)) } }
        for w in ch.windows(2) { if w[0].1 > w[1].0 { return Err(format!("{} {}..{} and {} {}..{} overlap inside {} {}..{}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1, k, s, e)) } }
    }
    Ok(())
}

fn ends(v: &V, all: &[Tk]) -> Result<(), String> {
    match v {
        V::N(k, p, fs) => {
            let mut ts: Vec<&Tk> = vec![];
            v.toks(&mut ts);
            if *k != "SingleInput" { if let Some(last) = ts.iter().filter(|t| !t.n.is_empty()).map(|t| (t.s(), t.e())).max() {
                if let Some(i) = all.iter().position(|t| !t.n.is_empty() && (t.s(), t.e()) == last) {
                    if let Some(nx) = all.get(i + 1) { if !nx.n.is_empty() && nx.s() != p[1] as i64 && !ts.iter().any(|t| t.n.is_empty()) { return Err(format!("{} {}..{} ends elsewhere than {} {}, the token behind it", k, p[0], p[1], nx.k, nx.s())) } }
                }
            } }
            for x in fs { ends(x, all)? }
            Ok(())
        }
        V::L(f) | V::P(f) => { for x in f { ends(x, all)? } Ok(()) }
        V::O(Some(x)) => ends(x, all),
        _ => Ok(())
    }
}

pub fn check(prop: &str, f: &str, src: &str, stats: &mut crate::h::Stats) -> Result<Option<String>, String> {
    let out = parse(f, src);
    let tree = match &out.tree { Ok(t) => t, Err(_) => return Ok(None) };
    stats.accepted += 1;
    let nn = tree.nodes() as u64;
    stats.nodes += nn;
    if nn > 3 { stats.distinct += 1 }
    if prop == "P11" { return Ok(None) }
    let run = lex(src);
    let mut toks: Vec<&Tk> = vec![];
    tree.toks(&mut toks);
    let first_err = run.items.iter().position(|x| matches!(x, It::E(_)));
    let all: Vec<Tk> = run.items.iter().filter_map(|x| if let It::T(t, _) = x { Some(t.clone()) } else { None }).collect();
    match prop {
        "P12" => {
            let mut a: Vec<_> = toks.iter().map(|t| lab(t)).collect();
            let n = a.len();
            if n > all.len() && first_err.is_none() { return Err(format!("the tree holds {} tokens, the source has only {}", n, all.len())) }
            if n > all.len() { return Ok(None) }
            let mut b: Vec<_> = all[..n].iter().map(lab).collect();
            a.sort(); b.sort();
            if a != b { let x = a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| format!("{:?} instead of {:?}", x, y)).unwrap_or_default(); return Err(format!("the tokens of the tree are not the tokens read: {}", x)) }
            if first_err.is_none() && !run.capped && !out.rest_capped {
                let consumed = all.len() - out.rest;
                let ok = if is_entry(f) { n == consumed || n == consumed + 1 } else { n == consumed };
                if !ok { return Err(format!("{} tokens consumed but {} tokens in the tree", consumed, n)) }
                if is_entry(f) && f != "parse_blocks_single_input" && n != consumed + 1 { return Err(format!("{} tokens up to the end marker but {} tokens in the tree", consumed + 1, n)) }
            }
        }
        "P15" => {
            if let Some(k) = first_err {
                let k = all.len().min(k);
                if toks.len() > k { return Err(format!("a tree with {} tokens although the lexer reports an error after {} tokens", toks.len(), k)) }
                let mut a: Vec<_> = toks.iter().map(|t| lab(t)).collect();
                let mut b: Vec<_> = all[..toks.len()].iter().map(lab).collect();
                a.sort(); b.sort();
                if a != b { return Err("the tree holds a token from beyond a lexical error".to_string()) }
            } else if toks.len() > all.len() { return Err("more tokens in the tree than in the source".to_string()) }
        }
        "P13" | "P16" | "P17" => {
            let tag = match prop { "P13" => 13, "P16" => 16, _ => 17 };
            grammar(tree, tag, "")?;
            if let Some((_, c, ks)) = RESULT.iter().find(|x| x.0 == f) {
                let e = f.starts_with("parse_expressions_");
                if ((prop == "P13" && e) || (prop == "P16" && !e)) && !ks.contains(&tree.kind()) { return Err(format!("{} yields {} where the grammar has {}", f, tree.kind(), c)) }
            }
        }
        "P14" => {
            if let V::N(k, p, _) = tree {
                spans(tree, 0, i64::MAX)?;
                if first_err.is_none() { ends(tree, &all)? }
                if !is_entry(f) && p[0] != out.start && !(toks.is_empty() && p[0] == p[1]) { return Err(format!("{} starts at {} although its first token starts at {}", k, p[0], out.start)) }
                if p[1] != out.pos { return Err(format!("{} ends at {} although the token after it starts at {}", k, p[1], out.pos)) }
            }
        }
        "P18" => if is_entry(f) {
            let want = match f { "parse_blocks_eval_input" => "EvalInput", "parse_blocks_file_input" => "FileInput", "parse_blocks_func_type_input" => "FuncTypeInput", _ => "SingleInput" };
            if tree.kind() != want { return Err(format!("{} yields {}", f, tree.kind())) }
            if want != "SingleInput" {
                if !(toks.iter().any(|t| t.k == "EOF")) { return Err(format!("{} without the end marker", want)) }
                match &out.look { Some(t) if t.k == "EOF" => {} _ => return Err(format!("{} accepts the source but stops in front of {:?}", want, out.look.as_ref().map(|t| (t.k, t.n.clone())))) }
                if first_err.is_none() && toks.len() != all.len() { return Err(format!("{} holds {} of {} tokens", want, toks.len(), all.len())) }
            } else {
                let own = match tree { V::N(_, _, fs) => match (fs.get(0), fs.get(1)) { (_, Some(V::O(Some(t)))) => matches!(&**t, V::T(x) if x.k == "Newline"), (Some(V::O(Some(x))), _) => x.kind() == "SimpleStmtList", _ => !matches!((fs.get(0), fs.get(1)), (Some(V::O(_)), Some(V::O(_)))) }, _ => true };
                if !own { return Err(format!("an interactive statement without its line end: {}", tree.show())) }
            }
        },
        _ => {}
    }
    Ok(None)
}
