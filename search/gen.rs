// Deterministic input generation: every input is a function of (seed, index).
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64, idx: u64) -> R { let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { (self.u() % (n as u64)) as usize }
    pub fn p(&mut self, pc: usize) -> bool { self.n(100) < pc }
    pub fn of<'a>(&mut self, x: &[&'a str]) -> &'a str { let k = self.n(x.len()); x[k] }
}
pub struct G { pub r: R, pub o: String, pub depth: usize, pub ind: Vec<String>, pub crlf: bool, pub par: usize, pub ws: usize }
const NAMES: &[&str] = &["a", "b", "x", "y", "foo", "_z", "Test", "iff", "No", "in_", "or1", "f", "r", "u", "é", "名", "match", "print"];
const NUMS: &[&str] = &["0", "1", "12", "1_000", "0x1F", "0o17", "0b1_0", "1.5", "1.", ".5", "1e5", "1.5E-3", "0.0", "00", "0j", "3J", "0_0", "1_0.0_1e+1_0j"];
const STRS: &[&str] = &["'a'", "\"b\"", "''", "\"\"", "'''x'''", "\"\"\"y\"\"\"", "r'c'", "f\"d\"", "u''", "rf'e'", "'a\\'b'", "'\"'", "\"'\"", "'''a'b''c'''", "'''\n'''", "R\"\"\"\n#\"\"\"", "'\\\\'", "\"#\"", "'('"];
impl G {
    pub fn new(r: R) -> G { let mut g = G { r, o: String::new(), depth: 0, ind: vec![String::new()], crlf: false, par: 0, ws: 20 }; g.ws = [0, 10, 40][g.r.n(3)]; g }
    pub fn t(&mut self, s: &str) {
        // separate from the previous token
        let last = self.o.chars().last().unwrap_or('\n');
        let first = s.chars().next().unwrap_or(' ');
        let wordy = |c: char| c.is_alphanumeric() || c == '_' || c == '.' || c == '"' || c == '\'';
        let opy = |c: char| "*/<>=!-+.:%@&|^".contains(c);
        let need = (wordy(last) && wordy(first)) || (opy(last) && opy(first));
        if need || self.r.p(self.ws) { self.space(need) }
        self.o.push_str(s);
    }
    fn space(&mut self, need: bool) {
        let at_start = self.o.is_empty() || self.o.ends_with('\n') || self.o.ends_with('\r');
        if at_start { return }
        match self.r.n(20) {
            0 => self.o.push('\t'),
            1 => self.o.push_str("  "),
            2 => self.o.push_str(" \t "),
            3 if self.ws > 10 => self.o.push_str(" \\\n "),
            4 if self.par > 0 => self.o.push_str("\n   "),
            5 if self.par > 0 => self.o.push_str(" # c (\n"),
            _ => { let _ = need; self.o.push(' ') }
        }
        if need && !self.o.ends_with(|c| c == ' ' || c == '\t' || c == '\n') { self.o.push(' ') }
    }
    fn deep(&self) -> bool { self.depth > 7 }
    pub fn name(&mut self) { let s = self.r.of(NAMES); self.t(s) }
    fn open(&mut self, s: &str) { self.t(s); self.par += 1 }
    fn close(&mut self, s: &str) { self.t(s); self.par -= 1 }
    pub fn atom(&mut self) {
        self.depth += 1;
        let k = if self.deep() { self.r.n(6) } else { self.r.n(14) };
        match k {
            0 | 1 | 2 => self.name(),
            3 => { let s = self.r.of(NUMS); self.t(s) }
            4 => { for _ in 0..1 + self.r.n(2) { let s = self.r.of(STRS); self.t(s) } }
            5 => { let s = self.r.of(&["None", "True", "False", "..."]); self.t(s) }
            6 => { self.open("("); match self.r.n(4) { 0 => {}, 1 => self.yield_expr(), _ => self.testlist_comp() } self.close(")") }
            7 => { self.open("["); if self.r.p(80) { self.testlist_comp() } self.close("]") }
            8 | 9 => { self.open("{"); self.dictset(); self.close("}") }
            10 => { self.open("("); self.test(); self.close(")") }
            _ => { if self.r.p(10) { self.t("await") } self.name(); for _ in 0..1 + self.r.n(2) { self.trailer() } }
        }
        self.depth -= 1;
    }
    pub fn trailer(&mut self) {
        match self.r.n(4) {
            0 => { self.t("."); self.name() }
            1 => { self.open("("); if self.r.p(70) { if self.r.p(6) { self.subscripts() } else { self.args() } } self.close(")") }
            2 => { self.open("["); self.subscripts(); self.close("]") }
            _ => { self.open("("); self.close(")") }
        }
    }
    pub fn subscripts(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } self.subscript() } }
    pub fn subscript(&mut self) {
        match self.r.n(7) {
            0 => { self.test(); self.t(":"); self.test() }
            1 => { self.t(":"); self.test(); self.t(":"); self.test() }
            2 => { self.test(); self.t(":"); self.test(); self.t(":"); self.test() }
            3 => { self.test(); self.t(":"); self.t(":"); self.test() }
            _ => self.test()
        }
    }
    pub fn yield_expr(&mut self) { self.t("yield"); if self.r.p(30) { self.t("from"); self.test() } else { self.testlist_star() } }
    pub fn testlist_comp(&mut self) {
        if self.r.p(30) { self.named(); self.comp_for(); return }
        for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } if self.r.p(15) { self.star() } else { self.named() } }
    }
    pub fn star(&mut self) { self.t("*"); self.expr() }
    pub fn comp_for(&mut self) {
        if self.r.p(20) { self.t("async") }
        self.t("for"); self.exprlist(); self.t("in"); self.or_test();
        if !self.deep() && self.r.p(30) { self.depth += 1; if self.r.p(50) { self.comp_for() } else { self.t("if"); self.or_test(); if self.r.p(30) { self.comp_for() } } self.depth -= 1 }
    }
    pub fn exprlist(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } if self.r.p(10) { self.star() } else { self.xpr(6) } } }
    pub fn dictset(&mut self) {
        let n = self.r.n(4);
        if self.r.p(50) { for i in 0..n { if i > 0 { self.t(",") } if self.r.p(15) { self.t("**"); self.expr() } else { self.test(); self.t(":"); self.test() } } }
        else { for i in 0..n.max(1) { if i > 0 { self.t(",") } if self.r.p(15) { self.t("*"); self.expr() } else { self.test() } } }
    }
    pub fn expr(&mut self) { self.xpr(0) }
    // precedence of | ^ & shift arith term factor power
    pub fn xpr(&mut self, l: usize) {
        self.depth += 1;
        if self.deep() || l > 7 { self.atom(); self.depth -= 1; return }
        let go = self.r.p(25);
        match l {
            0 | 1 | 2 | 3 | 4 | 5 => {
                let ops: &[&str] = match l { 0 => &["|"], 1 => &["^"], 2 => &["&"], 3 => &["<<", ">>"], 4 => &["+", "-"], _ => &["*", "/", "//", "%", "@"] };
                self.xpr(l + 1);
                if go { for _ in 0..1 + self.r.n(2) { let o = self.r.of(ops); self.t(o); self.xpr(l + 1) } }
            }
            6 => { if go { let o = self.r.of(&["+", "-", "~"]); self.t(o); self.xpr(6) } else { self.xpr(7) } }
            _ => { self.atom(); if go { self.t("**"); self.xpr(6) } }
        }
        self.depth -= 1;
    }
    pub fn comparison(&mut self) {
        self.expr();
        if self.r.p(25) { for _ in 0..1 + self.r.n(2) {
            match self.r.n(10) { 0 => self.t("<"), 1 => self.t("<="), 2 => self.t("=="), 3 => self.t(">"), 4 => self.t(">="), 5 => self.t("!="), 6 => self.t("in"), 7 => self.t("is"), 8 => { self.t("not"); self.t("in") }, _ => { self.t("is"); self.t("not") } }
            self.expr() } }
    }
    pub fn not_test(&mut self) { if self.r.p(10) { self.t("not"); self.not_test() } else { self.comparison() } }
    pub fn and_test(&mut self) { self.not_test(); while self.r.p(12) { self.t("and"); self.not_test() } }
    pub fn or_test(&mut self) { self.depth += 1; if self.deep() { self.atom() } else { self.and_test(); while self.r.p(12) { self.t("or"); self.and_test() } } self.depth -= 1 }
    pub fn test(&mut self) {
        self.depth += 1;
        if self.deep() { self.atom() }
        else if self.r.p(6) { self.t("lambda"); if self.r.p(70) { self.varargs() } self.t(":"); self.test() }
        else { self.or_test(); if self.r.p(8) { self.t("if"); self.or_test(); self.t("else"); self.test() } }
        self.depth -= 1;
    }
    pub fn named(&mut self) { if self.r.p(10) { self.name(); self.t(":=") } self.test() }
    fn vassign(&mut self) { self.name(); if self.r.p(25) { self.t("="); self.test() } }
    pub fn varargs(&mut self) {
        let n = self.r.n(3);
        let mut first = true;
        for _ in 0..n { if !first { self.t(",") } first = false; self.vassign() }
        if n > 0 && self.r.p(20) { self.t(","); self.t("/"); if self.r.p(50) { self.t(","); self.vassign() } }
        if self.r.p(25) { if !first { self.t(",") } first = false; self.t("*"); if self.r.p(80) { self.name(); if self.r.p(5) { self.t("="); self.test() } } if self.r.p(40) { self.t(","); self.vassign() } }
        if self.r.p(25) || first { if !first { self.t(",") } self.t("**"); self.name() }
        if self.r.p(5) { self.t(",") }
    }
    pub fn testlist_star(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } if self.r.p(10) { self.star() } else { self.test() } } if self.r.p(8) { self.t(",") } }
    pub fn testlist(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } self.test() } if self.r.p(5) { self.t(",") } }
    pub fn dotted(&mut self) { self.name(); while self.r.p(30) { self.t("."); self.name() } }
    pub fn small(&mut self) {
        match self.r.n(22) {
            0 => self.t("pass"), 1 => self.t("break"), 2 => self.t("continue"),
            3 => { self.t("return"); if self.r.p(70) { self.testlist_star() } }
            4 => { self.t("raise"); if self.r.p(80) { self.test(); if self.r.p(40) { self.t("from"); self.test() } } }
            5 => { self.t("global"); self.name(); while self.r.p(40) { self.t(","); self.name() } }
            6 => { self.t("nonlocal"); self.name(); while self.r.p(40) { self.t(","); self.name() } }
            7 => { self.t("assert"); self.test(); if self.r.p(40) { self.t(","); self.test() } }
            8 => { self.t("del"); self.exprlist() }
            9 => { self.t("import"); self.dotted(); if self.r.p(30) { self.t("as"); self.name() } while self.r.p(30) { self.t(","); self.dotted() } }
            10 | 11 => {
                self.t("from");
                let dots = self.r.n(5); for _ in 0..dots.saturating_sub(1) { if self.r.p(10) { self.t("...") } else { self.t(".") } }
                if dots < 2 || self.r.p(60) { self.dotted() }
                self.t("import");
                match self.r.n(3) { 0 => self.t("*"), 1 => { self.open("("); self.names_as(); self.close(")") }, _ => self.names_as() }
            }
            12 => self.yield_expr(),
            13 => { self.testlist_star(); let o = self.r.of(&["+=", "-=", "*=", "/=", "//=", "%=", "@=", "&=", "|=", "^=", "<<=", ">>=", "**="]); self.t(o); if self.r.p(20) { self.yield_expr() } else { self.testlist() } }
            14 => { self.name(); self.t(":"); self.test(); if self.r.p(50) { self.t("="); if self.r.p(20) { self.yield_expr() } else { self.testlist_star() } } }
            15 | 16 | 17 => { self.testlist_star(); for _ in 0..1 + self.r.n(2) { self.t("="); if self.r.p(10) { self.yield_expr() } else { self.testlist_star() } } if self.r.p(5) { self.o.push_str(" # type: int") } }
            _ => self.testlist_star()
        }
    }
    fn names_as(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } self.name(); if self.r.p(30) { self.t("as"); self.name() } } }
    pub fn nl(&mut self) {
        if self.r.p(6) { self.o.push_str("  # note") }
        let k = self.r.n(60);
        self.o.push_str(if self.crlf && k < 20 { "\r\n" } else if k == 59 { "\r" } else { "\n" });
        while self.r.p(8) { let s = self.r.of(&["\n", "   \n", "# c\n", "\t# c\n", "      # d\n", "\n\n"]); self.o.push_str(s) }
    }
    fn line_start(&mut self) { let i = self.ind.last().unwrap().clone(); self.o.push_str(&i) }
    pub fn simple(&mut self) { self.small(); while self.r.p(12) { self.t(";"); self.small() } if self.r.p(4) { self.t(";") } self.nl() }
    pub fn suite(&mut self) {
        self.t(":");
        if self.depth > 4 || self.r.p(30) { self.simple(); return }
        self.nl();
        let mut i = self.ind.last().unwrap().clone();
        let s = self.r.of(&["  ", "    ", "\t", " "]); i.push_str(s);
        self.ind.push(i);
        for _ in 0..1 + self.r.n(3) { self.line_start(); self.stmt() }
        self.ind.pop();
    }
    pub fn func_suite(&mut self) { self.suite() }
    pub fn stmt(&mut self) {
        self.depth += 1;
        if self.depth > 4 || self.r.p(60) { self.simple() } else { self.compound() }
        self.depth -= 1;
    }
    pub fn funcdef(&mut self) { self.t("def"); self.name(); if self.r.p(96) { self.open("("); self.close(")") } if self.r.p(30) { self.t("->"); self.test() } self.suite() }
    pub fn classdef(&mut self) { self.t("class"); self.name(); if self.r.p(60) { self.open("("); if self.r.p(70) { if self.r.p(10) { self.varargs() } else { self.args() } } self.close(")") } self.suite() }
    pub fn with_(&mut self) {
        self.t("with"); let p = self.r.p(20); if p { self.open("(") }
        for i in 0..1 + self.r.n(2) { if i > 0 { self.t(",") } self.test(); if self.r.p(60) { self.t("as"); self.xpr(2) } }
        if p { self.close(")") }
        self.suite()
    }
    pub fn for_(&mut self) { self.t("for"); self.exprlist(); self.t("in"); self.testlist(); self.suite(); if self.r.p(30) { self.line_start(); self.t("else"); self.suite() } }
    pub fn compound(&mut self) {
        match self.r.n(11) {
            0 | 1 => { self.t("if"); self.named(); self.suite(); while self.r.p(30) { self.line_start(); self.t("elif"); self.named(); self.suite() } if self.r.p(40) { self.line_start(); self.t("else"); self.suite() } }
            2 => { self.t("while"); self.named(); self.suite(); if self.r.p(30) { self.line_start(); self.t("else"); self.suite() } }
            3 => self.for_(),
            4 | 5 => {
                self.t("try"); self.suite();
                let star = self.r.p(30);
                let n = self.r.n(3);
                for _ in 0..n { self.line_start(); self.t("except"); if star { self.t("*") } if self.r.p(if star { 94 } else { 80 }) { self.test(); if self.r.p(50) { self.t("as"); self.name() } } self.suite() }
                if n > 0 && self.r.p(30) { self.line_start(); self.t("else"); self.suite() }
                if n == 0 || self.r.p(30) { self.line_start(); self.t("finally"); self.suite() }
            }
            6 => self.with_(),
            7 => self.funcdef(),
            8 => self.classdef(),
            9 => { self.t("async"); if self.r.p(6) { self.compound() } else { match self.r.n(3) { 0 => self.funcdef(), 1 => self.with_(), _ => self.for_() } } }
            _ => {
                for _ in 0..1 + self.r.n(2) { self.t("@"); self.dotted(); if self.r.p(50) { self.open("("); if self.r.p(60) { self.args() } self.close(")") } self.nl(); self.line_start() }
                match self.r.n(3) { 0 => self.classdef(), 1 => { self.t("async"); self.funcdef() }, _ => self.funcdef() }
            }
        }
    }
    pub fn args(&mut self) { for i in 0..1 + self.r.n(3) { if i > 0 { self.t(",") } self.arg() } }
    pub fn arg(&mut self) { match self.r.n(6) { 0 => { self.t("*"); self.test() }, 1 => { self.t("**"); self.test() }, 2 => { self.name(); self.t("="); self.test() }, 3 => { self.test(); self.comp_for() }, 4 => { self.name(); self.t(":="); self.test() }, _ => self.test() } }
    pub fn functype(&mut self) {
        self.open("(");
        if self.r.p(70) {
            let n = 1 + self.r.n(3);
            for i in 0..n { if i > 0 { self.t(",") } self.test() }
            if self.r.p(20) { self.t(","); self.t("*"); if self.r.p(70) { self.test() } }
            if self.r.p(20) { self.t(","); self.t("**"); self.test() }
        }
        self.close(")"); self.t("->"); self.test()
    }
    pub fn file(&mut self) { let n = self.r.n(5); for _ in 0..n { self.line_start(); self.stmt() } if self.r.p(10) { self.o.push_str("# end") } }
}
// A source together with the parser function it is meant for.
pub fn program(r: R, wants: &str) -> (String, String) {
    let mut g = G::new(r);
    let choice = if wants == "entry" { g.r.n(6) } else { g.r.n(14) };
    let f = match choice {
        0 | 1 | 2 => { g.file(); "parse_blocks_file_input" }
        3 => { g.testlist(); if g.r.p(50) { g.o.push('\n') } "parse_blocks_eval_input" }
        4 => { match g.r.n(3) { 0 => g.o.push('\n'), 1 => g.compound(), _ => g.simple() } if g.r.p(60) { g.o.push('\n') } "parse_blocks_single_input" }
        5 => { g.functype(); if g.r.p(50) { g.o.push('\n') } "parse_blocks_func_type_input" }
        6 => { g.test(); "parse_expressions_test" }
        7 => { g.named(); "parse_expressions_named_expression" }
        8 => { g.args(); "parse_expressions_arglist" }
        9 => { g.varargs(); "parse_expressions_var_args_list" }
        10 => { g.stmt(); "parse_statements_stmt" }
        11 => { g.testlist_star(); "parse_expressions_testlist_star_expr" }
        12 => { g.compound(); "parse_statements_compound_stmt" }
        _ => { g.test(); "*" }
    };
    if choice > 5 && g.r.p(50) { let s = g.r.of(&["\n", " ", ")", ":", "\r", "  # type: x", "\n\n"]); g.o.push_str(s) }
    let f = if f == "*" || (choice > 5 && g.r.p(5)) { let k = g.r.n(crate::conv::FNS.len()); crate::conv::FNS[k] } else { f };
    (f.to_string(), g.o)
}
const SOUP: &[&str] = &["a", "b", "1", "'s'", "(", ")", "[", "]", "{", "}", ",", ":", ";", "=", "==", "+", "-", "*", "**", "/", "//", "@", "%", "&", "|", "^", "~", "<", ">", "<=", ">=", "!=", "<<", ">>", "->", ":=", "+=", "...", ".", "\n", "\n ", "\n  ", "\n\t", "if", "else", "elif", "for", "in", "is", "not", "and", "or", "lambda", "while", "try", "except", "finally", "with", "as", "def", "class", "import", "from", "return", "raise", "yield", "async", "await", "del", "global", "nonlocal", "assert", "pass", "break", "continue", "None", "True", "False", " ", "\\\n", "# c\n", "# type: t", "\"\"\"x\"\"\"", "?", "$", "!", "\r", "0x", "1e", "0_", "'u", "match"];
const CHARS: &str = "ab_e0179xXoOjJ.'\"\\#()[]{}:;,=+-*/%@&|^~<>!$? \t\n\r\u{e9}\u{0}\u{bd}\u{b2}\u{663}\u{aa}\u{391}\u{a0}\u{2028}\u{301}\u{c}\u{7f}";
pub fn soup(mut r: R) -> String { let n = 1 + r.n(14); let mut s = String::new(); for _ in 0..n { s.push_str(r.of(SOUP)); if r.p(50) { s.push(' ') } } s }
pub fn chars(mut r: R) -> String { let cs: Vec<char> = CHARS.chars().collect(); let n = r.n(16); (0..n).map(|_| cs[r.n(cs.len())]).collect() }
pub fn mutate(mut r: R, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let cs: Vec<char> = CHARS.chars().collect();
    for _ in 0..1 + r.n(3) {
        let n = c.len();
        match r.n(6) {
            0 if n > 0 => { let i = r.n(n); c.remove(i); }
            1 => { let i = r.n(n + 1); c.insert(i, cs[r.n(cs.len())]); }
            2 if n > 0 => { let i = r.n(n); c[i] = cs[r.n(cs.len())]; }
            3 if n > 1 => { let i = r.n(n); let j = (i + 1 + r.n(8)).min(n); c.drain(i..j); }
            4 if n > 1 => { let i = r.n(n); let j = (i + 1 + r.n(8)).min(n); let k = r.n(n); let x: Vec<char> = c[i..j].to_vec(); for (q, y) in x.into_iter().enumerate() { c.insert((k + q).min(c.len()), y) } }
            _ => { let i = r.n(n + 1); let w: Vec<char> = { let k = r.n(SOUP.len()); SOUP[k].chars().collect() }; for (q, y) in w.into_iter().enumerate() { c.insert((i + q).min(c.len()), y) } }
        }
    }
    c.into_iter().collect()
}
// put words of the code under test, or runs of some length, into a source
pub fn spice(mut r: R, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let nov = crate::table::NOVEL; let non = crate::table::NOVELN;
    for _ in 0..1 + r.n(3) {
        let word = if !nov.is_empty() && r.p(70) { let k = r.n(nov.len()); nov[k].to_string() } else { r.of(SOUP).to_string() };
        let times = if !non.is_empty() && r.p(40) { let k = r.n(non.len()); (non[k] + r.n(3)).saturating_sub(1).min(400) } else if r.p(15) { 2 + r.n(40) } else { 1 };
        let sep = if r.p(20) { " " } else { "" };
        let w: Vec<char> = vec![word; times].join(sep).chars().collect();
        let n = c.len();
        let i = r.n(n + 1);
        let j = if r.p(30) && i < n { i + 1 } else { i };
        c.splice(i..j, w);
    }
    c.into_iter().collect()
}
// all strings over an alphabet, shortest first
pub fn nth(mut i: u64, al: &[char]) -> String {
    let n = al.len() as u64;
    let mut len = 0u32; let mut cnt = 1u64;
    while i >= cnt { i -= cnt; cnt *= n; len += 1 }
    let mut s = String::new();
    for _ in 0..len { s.push(al[(i % n) as usize]); i /= n }
    s
}
