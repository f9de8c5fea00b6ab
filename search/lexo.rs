// Lexer oracles (C01..C10): written from the property statements, independent of the lexer's code.
use crate::base::*;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};

pub enum It { T(Tk, u32), E(u32) }        // token / error with the lexer's position after the call
pub struct Run { pub items: Vec<It>, pub capped: bool, pub sticky: Option<String> }

pub fn lex(src: &str) -> Run {
    let n = src.chars().count();
    let cap = 2 * n + 8;
    let mut lx = PythonCoreTokenizer::new(src.to_string());
    let mut items = vec![];
    let mut sticky = None;
    let mut capped = true;
    for _ in 0..cap {
        match lx.get_symbol() {
            Ok(t) => {
                let t = crate::conv::tk(&t);
                let p = lx.get_position();
                let eof = t.k == "EOF";
                items.push(It::T(t.clone(), p));
                if eof {
                    capped = false;
                    for _ in 0..3 {
                        match lx.get_symbol() {
                            Ok(t2) => { let t2 = crate::conv::tk(&t2); if t2.k != "EOF" || t2.n != t.n { sticky = Some(format!("after the end marker at {:?} the lexer delivers {} {:?}", t.n, t2.k, t2.n)) } }
                            Err(m) => sticky = Some(format!("after the end marker the lexer reports an error: {}", m))
                        }
                    }
                    break
                }
            }
            Err(_) => { items.push(It::E(lx.get_position())); capped = false; break }
        }
    }
    Run { items, capped, sticky }
}

pub const OPS: &[(&str, &str)] = &[
    ("**=", "PyPowerAssign"), ("//=", "PyFloorDivAssign"), ("<<=", "PyShiftLeftAssign"), (">>=", "PyShiftRightAssign"), ("...", "PyElipsis"),
    ("**", "PyPower"), ("*=", "PyMulAssign"), ("//", "PyFloorDiv"), ("/=", "PyDivAssign"), ("<<", "PyShiftLeft"), ("<=", "PyLessEqual"), ("<>", "PyNotEqual"),
    (">>", "PyShiftRight"), (">=", "PyGreaterEqual"), ("+=", "PyPlusAssign"), ("-=", "PyMinusAssign"), ("->", "PyArrow"), ("%=", "PyModuloAssign"),
    ("@=", "PyMatriceAssign"), (":=", "PyColonAssign"), ("&=", "PyBitAndAssign"), ("|=", "PyBitOrAssign"), ("^=", "PyBitXorAssign"), ("==", "PyEqual"), ("!=", "PyNotEqual"),
    ("*", "PyMul"), ("/", "PyDiv"), ("<", "PyLess"), (">", "PyGreater"), (".", "PyDot"), ("+", "PyPlus"), ("-", "PyMinus"), ("%", "PyModulo"), ("@", "PyMatrice"),
    (":", "PyColon"), ("&", "PyBitAnd"), ("|", "PyBitOr"), ("^", "PyBitXor"), ("~", "PyBitInvert"), (";", "PySemiColon"), (",", "PyComa"), ("=", "PyAssign"),
    ("(", "PyLeftParen"), ("[", "PyLeftBracket"), ("{", "PyLeftCurly"), (")", "PyRightParen"), ("]", "PyRightBracket"), ("}", "PyRightCurly")];
pub const KW: &[(&str, &str)] = &[
    ("False", "PyFalse"), ("None", "PyNone"), ("True", "PyTrue"), ("and", "PyAnd"), ("as", "PyAs"), ("assert", "PyAssert"), ("async", "PyAsync"), ("await", "PyAwait"),
    ("break", "PyBreak"), ("class", "PyClass"), ("continue", "PyContinue"), ("def", "PyDef"), ("del", "PyDel"), ("elif", "PyElif"), ("else", "PyElse"), ("except", "PyExcept"),
    ("finally", "PyFinally"), ("for", "PyFor"), ("from", "PyFrom"), ("global", "PyGlobal"), ("if", "PyIf"), ("import", "PyImport"), ("in", "PyIn"), ("is", "PyIs"),
    ("lambda", "PyLambda"), ("nonlocal", "PyNonLocal"), ("not", "PyNot"), ("or", "PyOr"), ("pass", "PyPass"), ("raise", "PyRaise"), ("return", "PyReturn"), ("try", "PyTry"),
    ("while", "PyWhile"), ("with", "PyWith"), ("yield", "PyYield")];
pub const PREFIXES: &[&str] = &["r", "u", "R", "U", "f", "F", "fr", "Fr", "fR", "FR", "rf", "rF", "Rf", "RF"];

pub fn at(c: &[char], i: usize) -> char { if i < c.len() { c[i] } else { '\0' } }
pub fn sl(c: &[char], a: usize, b: usize) -> String { if a <= b && b <= c.len() { c[a..b].iter().collect() } else { String::from("<out of range>") } }
pub fn op_at(c: &[char], p: usize) -> Option<(&'static str, &'static str)> {
    if at(c, p) == '.' && at(c, p + 1).is_ascii_digit() { return None }
    OPS.iter().find(|(o, _)| o.chars().enumerate().all(|(i, x)| at(c, p + i) == x)).cloned()
}
fn digs(c: &[char], mut p: usize, ok: &dyn Fn(char) -> bool) -> Result<usize, ()> {
    loop {
        if at(c, p) == '_' { p += 1; if !ok(at(c, p)) { return Err(()) } }
        else if ok(at(c, p)) { p += 1 }
        else { return Ok(p) }
    }
}
// end of the number that starts at p, or Err
pub fn number(c: &[char], p: usize) -> Result<usize, ()> {
    let dec = |x: char| x.is_ascii_digit();
    if at(c, p) == '0' {
        let ok: Option<Box<dyn Fn(char) -> bool>> = match at(c, p + 1) {
            'x' | 'X' => Some(Box::new(|x: char| x.is_ascii_hexdigit())),
            'o' | 'O' => Some(Box::new(|x: char| ('0'..='7').contains(&x))),
            'b' | 'B' => Some(Box::new(|x: char| x == '0' || x == '1')),
            _ => None };
        if let Some(ok) = ok { let e = digs(c, p + 2, &*ok)?; return if e > p + 2 { Ok(e) } else { Err(()) } }
    }
    let mut float = false;
    let mut q = p;
    if at(c, p) != '.' { q = digs(c, p, &dec)?; }
    let int_end = q;
    if at(c, q) == '.' { float = true; q += 1; if at(c, q) == '_' { return Err(()) } q = digs(c, q, &dec)?; }
    if at(c, q) == 'e' || at(c, q) == 'E' {
        float = true; q += 1;
        if at(c, q) == '+' || at(c, q) == '-' { q += 1 }
        if !dec(at(c, q)) { return Err(()) }
        q = digs(c, q, &dec)?;
    }
    if at(c, q) == 'j' || at(c, q) == 'J' { float = true; q += 1 }
    if !float && at(c, p) == '0' && c[p..int_end].iter().any(|x| ('1'..='9').contains(x)) { return Err(()) }
    Ok(q)
}
// end of the string whose opening quote is at p, or Err
pub fn string(c: &[char], p: usize) -> Result<usize, ()> {
    let q = at(c, p);
    let esc = |i: usize| -> Result<usize, ()> { if at(c, i + 1) == '\0' { Err(()) } else if at(c, i + 1) == '\r' && at(c, i + 2) == '\n' { Ok(i + 3) } else { Ok(i + 2) } };
    if at(c, p + 1) == q && at(c, p + 2) == q {
        let mut i = p + 3;
        loop {
            let x = at(c, i);
            if x == '\0' { return Err(()) }
            else if x == '\\' { i = esc(i)? }
            else if x == q && at(c, i + 1) == q && at(c, i + 2) == q { return Ok(i + 3) }
            else { i += 1 }
        }
    }
    let mut i = p + 1;
    loop {
        let x = at(c, i);
        if x == '\0' || x == '\r' || x == '\n' { return Err(()) }
        else if x == '\\' { i = esc(i)? }
        else if x == q { return Ok(i + 1) }
        else { i += 1 }
    }
}
pub fn word_end(c: &[char], mut p: usize) -> usize { while at(c, p).is_alphanumeric() || at(c, p) == '_' { p += 1 } p }
pub fn is_word(x: char) -> bool { x.is_alphabetic() || x == '_' }

pub fn lexeme(k: &str) -> Vec<&'static str> { OPS.iter().chain(KW.iter()).filter(|(_, n)| *n == k).map(|(l, _)| *l).collect() }

fn layout(k: &str) -> bool { k == "Newline" || k == "Indent" || k == "Dedent" }

/// Returns Err(description) on a violation; Ok(Some(..)) for the listed finding.
pub fn check(prop: &str, src: &str, stats: &mut crate::h::Stats) -> Result<Option<String>, String> {
    let c: Vec<char> = src.chars().collect();
    let run = lex(src);
    stats.tokens += run.items.len() as u64;
    stats.distinct += 1;
    let mut known = None;
    match prop {
        "C01" => {
            if run.capped { return Err(format!("no end marker and no error within {} tokens for {} characters", 2 * c.len() + 8, c.len())) }
            if let Some(m) = run.sticky { return Err(m) }
            let mut pos: i64 = 0;
            for it in &run.items { if let It::T(t, p) = it {
                if (*p as usize) > c.len() && !src.contains("\r\n") { return Err(format!("position {} beyond the {} characters of the source", p, c.len())) }
                if t.k != "EOF" && t.k != "Indent" && t.k != "Dedent" { if t.e() <= pos && !(pos == 0 && t.e() > 0) { return Err(format!("{} {:?} does not advance beyond {}", t.k, t.n, pos)) } pos = t.e() }
            } }
        }
        "C02" => {
            let mut prev: i64 = 0;
            for it in &run.items { if let It::T(t, _) = it {
                if t.n.is_empty() { continue }
                let (s, e) = (t.s(), t.e());
                if s < prev { return Err(format!("{} {:?} starts before the end {} of the token before it", t.k, t.n, prev)) }
                if e < s || (t.k != "EOF" && e == s) { return Err(format!("{} {:?} has an empty or inverted span", t.k, t.n)) }
                prev = e;
                if t.k == "EOF" { if s as usize > c.len() + 1 || (s as usize > c.len() && !src.contains("\r\n")) { return Err(format!("EOF at {} beyond the source length {}", s, c.len())) } continue }
                if t.k == "Newline" {
                    let (a, b) = (at(&c, s as usize), at(&c, s as usize + 1));
                    let want = if a == '\r' && b == '\n' { 2 } else { 1 };
                    if want == 2 { if e - s == 3 { known = Some("the newline token of a CR LF line end spans three characters".to_string()); } else if e - s != 2 { return Err(format!("Newline {:?} of CR LF spans {} characters", t.n, e - s)) } }
                    else if (a != '\r' && a != '\n') || e - s != 1 { return Err(format!("Newline {:?} but the source has {:?} there", t.n, sl(&c, s as usize, (e as usize).min(c.len())))) }
                    if t.ch.get(0) != Some(&a) { return Err(format!("Newline {:?} records the character {:?} instead of {:?}", t.n, t.ch, a)) }
                    continue
                }
                if e as usize > c.len() { return Err(format!("{} {:?} ends beyond the source length {}", t.k, t.n, c.len())) }
                let text = sl(&c, s as usize, e as usize);
                match &t.txt {
                    Some(x) => { let full = format!("{}{}", t.pre.clone().unwrap_or_default(), x); if full != text { return Err(format!("{} {:?} carries the text {:?} but the source has {:?}", t.k, t.n, full, text)) } }
                    None => { let l = lexeme(t.k); if !l.contains(&text.as_str()) { return Err(format!("{} {:?} covers {:?}", t.k, t.n, text)) } }
                }
            } }
        }
        "C03" => {
            let mut p: usize = 0;      // everything before p is accounted for
            let mut after = usize::MAX;   // end of a CR LF line end that swallowed a character
            let skip_bol = |p: &mut usize, to: usize, after: usize| -> bool {
                while *p < to {
                    let x = at(&c, *p);
                    let mut q = *p; while q > 0 && (at(&c, q - 1) == ' ' || at(&c, q - 1) == '\t') { q -= 1 }
                    let bol = q == 0 || (q <= after && after <= *p) || at(&c, q - 1) == '\n' || at(&c, q - 1) == '\r';
                    if (x == ' ' || x == '\t') && bol { *p += 1 } else { return false }
                }
                true
            };
            let mut seen_crlf = false;
            for it in &run.items { if let It::T(t, _) = it {
                if let Some(tv) = &t.tv {
                    if tv.is_empty() { return Err(format!("{} {:?} has an empty trivia list", t.k, t.n)) }
                    for x in tv.iter().rev() {
                        let (s, e) = (x.n[0] as usize, x.n[1] as usize);
                        if s > p && !skip_bol(&mut p, s, after) { return Err(format!("characters {:?} in front of trivia {:?} are neither in a token nor in trivia", sl(&c, p, s.min(c.len())), x)) }
                        if s != p || e <= s { return Err(format!("trivia {:?} of {} {:?} does not start at {}", x, t.k, t.n, p)) }
                        let text = sl(&c, s, e.min(c.len()));
                        let crlf = text.starts_with("\r\n");
                        let ok = match x.k {
                            "WhiteSpace" => !text.is_empty() && text.chars().all(|y| Some(&y) == x.ch.get(0)) && (x.ch[0] == ' ' || x.ch[0] == '\t'),
                            "Newline" => if crlf { x.ch == vec!['\r', '\n'] && (e - s == 2 || e - s == 3) } else { e - s == 1 && (text == "\n" || text == "\r") && x.ch == vec![text.chars().next().unwrap(), ' '] },
                            "LineContinuation" => (text == "\\\n" || text == "\\\r" || text == "\\\r\n") && x.ch == text.chars().chain(" ".chars()).take(3).collect::<Vec<char>>(),
                            "Comment" => Some(&text) == x.txt.as_ref() && text.starts_with('#') && !text.contains('\n') && !text.contains('\r'),
                            _ => false };
                        if !ok { return Err(format!("trivia {:?} of {} {:?} does not describe the source text {:?}", x, t.k, t.n, text)) }
                        if crlf && x.k == "Newline" && e - s == 3 { seen_crlf = true; after = e }
                        p = e;
                    }
                }
                if t.n.is_empty() { continue }
                let s = t.s() as usize;
                if s > p && !skip_bol(&mut p, s, after) { return Err(format!("characters {:?} in front of {} {:?} are neither in a token nor in trivia", sl(&c, p, s.min(c.len())), t.k, t.n)) }
                if s != p { return Err(format!("{} {:?} overlaps what ends at {}", t.k, t.n, p)) }
                p = t.e() as usize;
                if t.k == "Newline" && t.e() - t.s() == 3 { seen_crlf = true; after = p }
                if t.k == "EOF" && !(p >= c.len() || at(&c, p) == '\0') { return Err(format!("end marker at {} although the source goes on", p)) }
            } }
            if seen_crlf { known = Some("the character after a CR LF line end is swallowed: it is in no token and not the trivia's own text".to_string()) }
        }
        "C04" | "C05" | "C06" | "C07" => {
            for it in &run.items {
                let (tok, s) = match it { It::T(t, _) => { if t.n.is_empty() || t.k == "Newline" || t.k == "EOF" || t.k == "TypeComment" { continue } (Some(t), t.s() as usize) }, It::E(p) => (None, *p as usize) };
                let x = at(&c, s);
                let show = || match tok { Some(t) => format!("the lexer delivers {} {:?} {:?}", t.k, t.n, t.txt), None => "the lexer reports an error".to_string() };
                let is = |k: &str, e: usize| match tok { Some(t) => t.k == k && t.e() as usize == e, None => false };
                let opx = op_at(&c, s);
                if prop == "C04" {
                    match opx {
                        Some((l, k)) => {
                            let closer = l == ")" || l == "]" || l == "}";
                            if !(is(k, s + l.chars().count()) || (closer && tok.is_none())) { return Err(format!("operator {:?} at {} but {}", l, s, show())) }
                        }
                        None => if let Some(t) = tok { if OPS.iter().any(|o| o.1 == t.k) { return Err(format!("no operator at {} ({:?}) but {}", s, x, show())) } }
                    }
                } else if is_word(x) {
                    let e = word_end(&c, s);
                    let w = sl(&c, s, e);
                    let q = at(&c, e);
                    if (q == '\'' || q == '"') && PREFIXES.contains(&w.as_str()) {
                        if prop == "C07" { match string(&c, e) { Ok(z) => if !(is("AtomString", z) && tok.unwrap().pre.as_ref() == Some(&w)) { return Err(format!("string {:?} at {} but {}", sl(&c, s, z), s, show())) }, Err(_) => if tok.is_some() { return Err(format!("unterminated string at {} but {}", s, show())) } } }
                    } else if prop == "C05" {
                        let k = KW.iter().find(|y| y.0 == w).map(|y| y.1).unwrap_or("AtomName");
                        if !is(k, e) || (k == "AtomName" && tok.unwrap().txt.as_ref() != Some(&w)) { return Err(format!("word {:?} at {} but {}", w, s, show())) }
                    }
                } else if x.is_ascii_digit() || (x == '.' && at(&c, s + 1).is_ascii_digit()) {
                    if prop == "C06" { match number(&c, s) {
                        Ok(e) => if !(is("AtomNumber", e) && tok.unwrap().txt.as_ref() == Some(&sl(&c, s, e))) { return Err(format!("number {:?} at {} but {}", sl(&c, s, e), s, show())) },
                        Err(_) => if tok.is_some() { return Err(format!("malformed number at {} but {}", s, show())) } } }
                } else if x == '\'' || x == '"' {
                    if prop == "C07" { match string(&c, s) {
                        Ok(e) => if !(is("AtomString", e) && tok.unwrap().pre.is_none()) { return Err(format!("string {:?} at {} but {}", sl(&c, s, e), s, show())) },
                        Err(_) => if tok.is_some() { return Err(format!("unterminated string at {} but {}", s, show())) } } }
                } else if let Some(t) = tok {
                    let bad = match prop { "C05" => t.k == "AtomName" || KW.iter().any(|k| k.1 == t.k), "C06" => t.k == "AtomNumber", "C07" => t.k == "AtomString", _ => false };
                    if bad { return Err(format!("the source has {:?} at {} but {}", x, s, show())) }
                }
            }
        }
        "C08" => {
            let mut st: Vec<char> = vec![];
            for it in &run.items { match it {
                It::T(t, _) => {
                    if layout(t.k) && !st.is_empty() { return Err(format!("{} {:?} although {} bracket(s) are open", t.k, t.n, st.len())) }
                    match t.k {
                        "PyLeftParen" => st.push(')'), "PyLeftBracket" => st.push(']'), "PyLeftCurly" => st.push('}'),
                        "PyRightParen" | "PyRightBracket" | "PyRightCurly" => { let x = match t.k { "PyRightParen" => ')', "PyRightBracket" => ']', _ => '}' }; if st.pop() != Some(x) { return Err(format!("{} {:?} closes a bracket that is not open", t.k, t.n)) } }
                        _ => {} }
                }
                It::E(p) => { let x = at(&c, *p as usize); if ")]}".contains(x) && x != '\0' && st.last() == Some(&x) { return Err(format!("error at {} although {:?} closes the innermost open bracket", p, x)) } }
            } }
        }
        "C09" => {
            let mut stack: Vec<u32> = vec![0];
            let mut depth = 0i64; let mut par = 0i64;
            let mut fresh = true; let mut ind = 0i64; let mut ded = 0i64; let mut crlf3: usize = 0;
            for it in &run.items { match it {
                It::T(t, _) => { if let Some(tv) = &t.tv { for x in tv.iter() { if x.k == "Newline" && x.n[1] == x.n[0] + 3 { crlf3 = crlf3.max(x.n[1] as usize) } } }
                  if t.k == "Newline" && t.e() - t.s() == 3 { crlf3 = crlf3.max(t.e() as usize) }
                  match t.k {
                    "Indent" => { ind += 1; depth += 1; if !fresh { return Err("Indent inside a line".to_string()) } }
                    "Dedent" => { ded += 1; depth -= 1; if depth < 0 { return Err("more Dedent than Indent tokens".to_string()) } }
                    _ => {
                        if !fresh && t.k != "EOF" && (ind > 0 || ded > 0) { return Err(format!("Indent/Dedent in front of {} {:?}, which does not start a line", t.k, t.n)) }
                        if t.k == "EOF" { if par == 0 && depth != 0 { return Err(format!("{} block(s) still open at the end marker", depth)) } break }
                        if fresh {
                            let s = t.s() as usize;
                            if let Some(col) = column(&c, s, t, crlf3) {
                                if crlf3 > 0 && { let mut q = s; while q > crlf3 && " \t".contains(at(&c, q - 1)) { q -= 1 } q == crlf3 } { known = Some("the column of a line that follows a CR LF line end is measured one character late".to_string()) }
                                let top = *stack.last().unwrap();
                                let (wi, wd) = if col > top { stack.push(col); (1, 0) } else { let mut n = 0; while col < *stack.last().unwrap() { stack.pop(); n += 1 } if col != *stack.last().unwrap() { return Err(format!("column {} of {} {:?} matches no enclosing block {:?} but no error is reported", col, t.k, t.n, stack)) } (0, n) };
                                if (ind, ded) != (wi, wd) { return Err(format!("line at {} has column {} with open blocks {:?}: expected {} Indent and {} Dedent, got {} and {}", s, col, stack, wi, wd, ind, ded)) }
                            } else if (ind, ded) != (0, 0) { return Err(format!("Indent/Dedent in front of {} {:?}", t.k, t.n)) }
                        }
                        ind = 0; ded = 0; fresh = false;
                        match t.k { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => par += 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => par -= 1, "Newline" => fresh = true, _ => {} }
                    }
                } },
                It::E(p) => {
                    // an error that is reported at a blank or a line end is about the indentation of the line that begins there
                    let p = *p as usize; let x = at(&c, p);
                    if !src.contains("\r\n") && " \t\r\n".contains(x) {
                        if !fresh || par > 0 { return Err(format!("error about the indentation at {} where no line outside brackets begins", p)) }
                        let b = if x == '\n' || x == '\r' { p + 1 } else { p };
                        let (mut q, mut col) = (b, 0);
                        while " \t".contains(at(&c, q)) { if at(&c, q) == ' ' { col += 1 } else { col = (col / 4 + 1) * 4 } q += 1 }
                        if (b == 0 || "\r\n".contains(at(&c, b - 1))) && !"\r\n#\\".contains(at(&c, q)) && ind == 0 && ded == 0 && (stack.contains(&col) || col > *stack.last().unwrap()) { return Err(format!("error about the indentation at {} although column {} fits the open blocks {:?}", p, col, stack)) }
                    }
                }
            } }
        }
        "C10" => {
            let mut par = 0i64; let mut started = false;    // a token was delivered on the current logical line
            for it in &run.items { if let It::T(t, _) = it {
                if let Some(tv) = &t.tv { for x in tv { if x.k == "Newline" && par == 0 && started { return Err(format!("the line end at {:?} ends a line with tokens but is delivered as trivia of {} {:?}", x.n, t.k, t.n)) } } }
                match t.k {
                    "Newline" => { if !started { return Err(format!("Newline {:?} for a line without tokens", t.n)) } started = false }
                    "Indent" | "Dedent" | "EOF" => {}
                    _ => { started = true; match t.k { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => par += 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => par -= 1, _ => {} } }
                }
            } }
        }
        _ => {}
    }
    Ok(known)
}
// Column of the token at s if nothing but blanks stands in front of it on its physical line; None when it follows a continuation, or is a comment token.
fn column(c: &[char], s: usize, t: &Tk, start: usize) -> Option<u32> {
    let mut q = s;
    while q > 0 && q != start && (at(c, q - 1) == ' ' || at(c, q - 1) == '\t') { q -= 1 }
    let fresh = start > 0 && q == start;
    if !fresh && q > 0 && at(c, q - 1) != '\n' && at(c, q - 1) != '\r' { return None }
    if !fresh && q > 0 && (at(c, q - 1) == '\n' || at(c, q - 1) == '\r') {
        let mut b = q - 1; if at(c, b) == '\n' && b > 0 && at(c, b - 1) == '\r' { b -= 1 }
        let mut l = b; while l > 0 && at(c, l - 1) != '\n' && at(c, l - 1) != '\r' { l -= 1 }
        if b > start && at(c, b - 1) == '\\' && !c[l..b].contains(&'#') { return None }
    }
    if t.k == "TypeComment" { return None }
    let mut col = 0;
    for i in q..s { if c[i] == ' ' { col += 1 } else { col = (col / 4 + 1) * 4 } }
    Some(col)
}
