// Driver of the failing-input search.  usage: search <prop> <seed> <from> <to>  |  search one <prop> <fn> <hex source>
use crate::gen::*;
#[derive(Default)]
pub struct Stats { pub evals: u64, pub accepted: u64, pub distinct: u64, pub tokens: u64, pub nodes: u64, pub known: u64 }

fn lexer_prop(p: &str) -> bool { p.starts_with('C') }

pub fn input(prop: &str, seed: u64, idx: u64) -> (String, String) {
    let mut r = R::new(seed, idx);
    let al: &str = match prop { "C04" => "*/<>=!.:-+%@&|^~;,()[]{} 1a\u{bd}", "C05" => "inotaf_1'\" I\u{e9}\u{b2}", "C06" => "01279_.eEjJxXoOBb+-af \u{b2}", "C07" => "'\"\\\n\rarf\u{0} ", "C08" => "()[]{}a\n ,", "C09" | "C10" | "C03" => " \t\n\r#\\a(:)", "C01" | "C02" => "a1'\"\\\n #.(\u{0}=\r\t", _ => "" };
    let cat = r.n(100);
    let kind = if lexer_prop(prop) { if idx % 2 == 0 { 100 } else { cat } } else { cat };
    let (f, s) = match kind {
        100 => { let a: Vec<char> = al.chars().collect(); (String::new(), nth(idx / 2, &a)) }
        0..=49 => program(r, if prop == "P18" { "entry" } else { "any" }),
        50..=79 => { let (f, s) = program(R::new(seed ^ 7, idx), if prop == "P18" { "entry" } else { "any" }); (f, mutate(r, &s)) }
        80..=92 => { let f = pick(&mut r, prop); let s = soup(r); (f, s) }
        _ => { let f = pick(&mut r, prop); (f, chars(r)) }
    };
    let mut q = R::new(seed ^ 91, idx);
    let novel = !crate::table::NOVEL.is_empty() || !crate::table::NOVELN.is_empty();
    if kind != 100 && q.p(if novel { 45 } else { 4 }) || kind == 100 && novel && q.p(40) { let t = spice(q, &s); return (f, t) }
    (f, s)
}
fn pick(r: &mut R, prop: &str) -> String {
    if prop == "P18" || r.p(40) { return r.of(&["parse_blocks_file_input", "parse_blocks_eval_input", "parse_blocks_single_input", "parse_blocks_func_type_input"]).to_string() }
    let k = r.n(crate::conv::FNS.len()); crate::conv::FNS[k].to_string()
}
pub fn eval(prop: &str, f: &str, s: &str, st: &mut Stats) -> Result<Option<String>, String> {
    st.evals += 1;
    if lexer_prop(prop) { crate::lexo::check(prop, s, st) } else { crate::parso::check(prop, f, s, st) }
}
pub fn guarded(prop: &str, f: &str, s: &str, st: &mut Stats) -> Result<Option<String>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut st2 = Stats::default(); let r = eval(prop, f, s, &mut st2); (r, st2) }));
    match r {
        Ok((r, s2)) => { st.evals += s2.evals; st.accepted += s2.accepted; st.distinct += s2.distinct; st.tokens += s2.tokens; st.nodes += s2.nodes; r }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            st.evals += 1;
            if prop == "C01" || prop == "P11" { Err(format!("panic: {}", m)) } else { Ok(None) }
        }
    }
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
// drop characters as long as the failure stays
fn shrink(prop: &str, f: &str, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let mut step = (c.len() / 2).max(1);
    let mut tries = 0;
    loop {
        let mut i = 0; let mut any = false;
        while i < c.len() && tries < 4000 {
            let mut d = c.clone(); d.drain(i..(i + step).min(c.len()));
            let t: String = d.iter().collect();
            tries += 1;
            if guarded(prop, f, &t, &mut Stats::default()).is_err() { c = d; any = true } else { i += step }
        }
        if step == 1 { if !any || tries >= 4000 { break } } else { step /= 2 }
    }
    c.into_iter().collect()
}
pub fn main2() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(a)).unwrap();
    match t.join() { Ok(c) => std::process::exit(c), Err(_) => std::process::exit(101) }
}
fn run(a: Vec<String>) -> i32 {
    if a[1] == "fns" { for f in crate::conv::FNS { println!("{}", f) } return 0 }
    if a[1] == "input" { let (f, s) = input(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()); println!("{}\t{}", f, hex(&s)); return 0 }
    if a[1] == "one" {
        let s = unhex(&a[4]);
        return match guarded(&a[2], &a[3], &s, &mut Stats::default()) { Ok(k) => { println!("holds{}", k.map(|x| format!(" (listed finding: {})", x)).unwrap_or_default()); 0 } Err(m) => { println!("FAILS: {}", m); 1 } }
    }
    let (seed, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut st = Stats::default();
    let mut known: Option<(String, String)> = None;
    let trace = a.len() > 5;
    for i in from..to {
        let (f, s) = input(&a[1], seed, i);
        if trace { eprintln!("{}", i) }
        match guarded(&a[1], &f, &s, &mut st) {
            Ok(None) => {}
            Ok(Some(m)) => { st.known += 1; if known.is_none() { known = Some((m, s)) } }
            Err(_) => {
                let t = shrink(&a[1], &f, &s);
                let m = guarded(&a[1], &f, &t, &mut Stats::default()).err().unwrap_or_default();
                println!("FAIL\t{}\t{}\t{}\t{}", i, f, hex(&t), m.replace('\n', "\\n").replace('\t', " "));
                break
            }
        }
    }
    if let Some((m, s)) = known { println!("KNOWN\t{}\t{}", hex(&s), m) }
    println!("STATS\t{}\t{}\t{}\t{}\t{}\t{}", st.evals, st.accepted, st.distinct, st.tokens, st.nodes, st.known);
    0
}
