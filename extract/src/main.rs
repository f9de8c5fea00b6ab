// Mechanical extraction of the code under verification.
//
// Reads the .rs files of the repository, and prints (as JSON) every struct, enum, function and other
// non-test item, with the function bodies as *source text* in which only the edits listed here are made:
//
//   E1  `while C B`                -> `{ PRE loop INV { if !(C) { break; } B } }`   (while-let likewise)
//   E2  `for _ in a ..= b { B }`   -> B repeated, for literal bounds only (no break/continue in B)
//   E3  `match s { "lit" => .. }`  -> if / else-if chain over vstreq(s, "lit")
//   E4  `x.clone()`                -> `x.vclone()`      (trusted: clone of these types is structural)
//       `x.reverse()`              -> `x.vreverse()`    (trusted contract of slice::reverse)
//       `x.starts_with("lit")`     -> `vstarts_with(x, "lit")`
//   E5  format!(..), "lit".to_string() and the like -> `vfmt()`  (text of error messages dropped; arguments that compute are still evaluated)
//       println!/print!/eprintln!/eprint!/dbg!-free printing      -> `()`
//       panic!, unreachable!, todo!, unimplemented! -> `vunreachable()`  (an obligation in P11 and C01)
//   E6  `self.symbol = e`          -> `{ let n__ = e; /*@A*/ self.symbol = n__ }`
//   E7  struct literals of structs that get ghost fields receive `/*@G:Name*/` before the closing brace
//   E9  match with guards on a borrowed scrutinee (`match &E`, `match E.as_ref()`, `match self.f`): the guard is decided first,
//       `let g = match &E { P if.. => G, _ => false }; if g { match &E { P => A, .. } } else { match &E { other arms } }`
//   E10 `for P in a .. b B` (bounds not literal, or jumps in B) -> `{ let mut k = a; let e = b; loop { if !(k < e) { break; } let P = k; k += 1; B } }`
//   E8  `return` in front of every expression in tail position of a function with a result
//
// Placeholders (/*@..*/ comments) mark the places where the generator puts contracts and ghost code.
// Dropped: #[cfg(test)] items, `use` lines, trait declarations (their impls become inherent impls).

use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn rng(s: Span) -> Range<usize> { s.byte_range() }

#[derive(Clone)]
enum Ed {
    Rep(Range<usize>, String),
    Unroll { range: Range<usize>, body: Range<usize>, var: Option<String>, from: i64, to: i64 },
    StrMatch { range: Range<usize>, scrut: Range<usize>, arms: Vec<Arm> },
    GuardMatch { range: Range<usize>, scrut: Range<usize>, arms: Vec<(Range<usize>, Option<Range<usize>>, Range<usize>)> },
    /// `self.symbol = e`
    SymAssign { range: Range<usize>, lhs: Range<usize>, rhs: Range<usize> },
}
#[derive(Clone)]
struct Arm { lits: Vec<String>, bind: Option<String>, guard: Option<Range<usize>>, body: Range<usize> }

impl Ed {
    fn range(&self) -> Range<usize> {
        match self {
            Ed::Rep(r, _) => r.clone(),
            Ed::Unroll { range, .. } | Ed::StrMatch { range, .. } | Ed::GuardMatch { range, .. } | Ed::SymAssign { range, .. } => range.clone(),
        }
    }
}

struct Ctx<'a> {
    src: &'a str,
    eds: Vec<Ed>,
    loops: Vec<Value>,
    decls: Vec<Decl>,
    scope: Vec<usize>,
    calls: BTreeSet<String>,
    notes: Vec<String>,
    macros: BTreeSet<String>,
    ghost_structs: Vec<String>,
    ndecl: usize,
    fnname: String,
    loop_stack: Vec<usize>,
}
#[derive(Clone)]
struct Decl { name: String, mutable: bool, ty: Option<String>, init: Option<String>, pos: usize }

fn is_self_symbol(e: &syn::Expr) -> bool {
    if let syn::Expr::Field(f) = e {
        if let syn::Member::Named(n) = &f.member {
            if n == "symbol" {
                if let syn::Expr::Path(p) = &*f.base { return p.path.is_ident("self"); }
            }
        }
    }
    false
}
fn borrowing(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Reference(r) => place(&r.expr),
        syn::Expr::MethodCall(m) => m.method == "as_ref" && m.args.is_empty() && place(&m.receiver),
        syn::Expr::Field(_) => place(e),
        _ => false,
    }
}
fn place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => place(&f.base),
        syn::Expr::Paren(p) => place(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && place(&u.expr),
        _ => false,
    }
}
/// names a value, or asks for one without effect
fn pure(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Reference(r) => pure(&r.expr),
        syn::Expr::MethodCall(m) => m.args.is_empty() && ["get_position", "get_char", "len", "to_string", "as_str", "clone"].contains(&m.method.to_string().as_str()) && pure(&m.receiver),
        _ => place(e),
    }
}
fn lit_str(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        syn::Expr::Reference(r) => lit_str(&r.expr),
        syn::Expr::Paren(r) => lit_str(&r.expr),
        _ => false,
    }
}
fn fmt_like(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Macro(m) => m.mac.path.is_ident("format") || m.mac.path.is_ident("concat") || m.mac.path.is_ident("stringify"),
        _ => lit_str(e),
    }
}

struct Mods { names: BTreeSet<String>, declared: BTreeSet<String> }
fn base_ident(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Paren(p) => base_ident(&p.expr),
        syn::Expr::Unary(u) => base_ident(&u.expr),
        syn::Expr::Index(i) => base_ident(&i.expr),
        syn::Expr::Field(f) => base_ident(&f.base),
        _ => None,
    }
}
impl<'ast> Visit<'ast> for Mods {
    fn visit_expr_assign(&mut self, n: &'ast syn::ExprAssign) {
        if let Some(i) = base_ident(&n.left) { self.names.insert(i); }
        if let syn::Expr::Tuple(t) = &*n.left { for x in &t.elems { if let Some(i) = base_ident(x) { self.names.insert(i); } } }
        visit::visit_expr_assign(self, n)
    }
    fn visit_expr_binary(&mut self, n: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(n.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            if let Some(i) = base_ident(&n.left) { self.names.insert(i); }
        }
        visit::visit_expr_binary(self, n)
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        if let Some(i) = base_ident(&n.receiver) {
            let m = n.method.to_string();
            if !["clone", "len", "is_empty", "as_str", "last", "iter", "get", "contains", "is_some", "is_none", "is_ok", "is_err", "as_ref", "starts_with", "ends_with", "is_alphabetic", "is_alphanumeric", "is_ascii_digit", "first"].contains(&m.as_str()) {
                self.names.insert(i);
            }
        }
        visit::visit_expr_method_call(self, n)
    }
    fn visit_expr_reference(&mut self, n: &'ast syn::ExprReference) {
        if n.mutability.is_some() { if let Some(i) = base_ident(&n.expr) { self.names.insert(i); } }
        visit::visit_expr_reference(self, n)
    }
    fn visit_local(&mut self, n: &'ast syn::Local) {
        let mut p = &n.pat;
        if let syn::Pat::Type(t) = p { p = &t.pat; }
        if let syn::Pat::Ident(i) = p { self.declared.insert(i.ident.to_string()); }
        visit::visit_local(self, n)
    }
    fn visit_expr_closure(&mut self, _n: &'ast syn::ExprClosure) {}
}

struct HasJump(bool);
impl<'ast> Visit<'ast> for HasJump {
    fn visit_expr_break(&mut self, _n: &'ast syn::ExprBreak) { self.0 = true }
    fn visit_expr_continue(&mut self, _n: &'ast syn::ExprContinue) { self.0 = true }
    fn visit_expr_loop(&mut self, _n: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _n: &'ast syn::ExprWhile) {}
}
struct Calls<'b>(&'b mut BTreeSet<String>);
impl<'ast, 'b> Visit<'ast> for Calls<'b> {
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        self.0.insert(n.method.to_string());
        visit::visit_expr_method_call(self, n)
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func { if let Some(s) = p.path.segments.last() { self.0.insert(s.ident.to_string()); } }
        visit::visit_expr_call(self, n)
    }
}

impl<'a> Ctx<'a> {
    /// a formatting macro: the text is dropped, arguments that do more than name a value are evaluated
    fn format(&mut self, n: &syn::Macro, with: &str) {
        let r = rng(n.span());
        let args: Vec<syn::Expr> = match n.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) { Ok(a) => a.into_iter().skip(1).collect(), Err(_) => vec![] };
        let args: Vec<syn::Expr> = args.into_iter().map(|a| match a { syn::Expr::Assign(x) => *x.right, a => a }).filter(|a| !pure(a)).collect();
        if args.is_empty() { self.eds.push(Ed::Rep(r, with.to_string())); return }
        let mut at = r.start; let mut open = "{ ";
        for a in &args {
            let s = rng(a.span());
            self.eds.push(Ed::Rep(at..s.start, format!("{}let _ = &(", open)));
            at = s.end; open = "); ";
            Visit::visit_expr(self, a);
        }
        self.eds.push(Ed::Rep(at..r.end, format!("); {} }}", with)));
    }
    fn text(&self, r: Range<usize>) -> &'a str { &self.src[r] }

    fn mods_of(&self, f: impl Fn(&mut Mods), pos: usize) -> Vec<Value> {
        let mut m = Mods { names: BTreeSet::new(), declared: BTreeSet::new() };
        f(&mut m);
        let mut out = vec![];
        for n in &m.names {
            // innermost declaration of that name in scope before the loop
            if let Some(d) = self.decls.iter().rev().find(|d| &d.name == n && d.pos < pos) {
                if d.mutable && d.init.is_some() {
                    out.push(json!({"name": n, "ty": d.ty, "init": d.init}));
                }
            }
        }
        out
    }

    fn new_loop(&mut self, kind: &str, label: Option<String>, mods: Vec<Value>, line: usize) -> usize {
        let k = self.loops.len();
        let parent = self.loop_stack.last().cloned();
        let inscope: Vec<Value> = self.decls.iter().filter(|d| d.init.is_some()).map(|d| json!({"name": d.name, "ty": d.ty, "init": d.init, "mut": d.mutable})).collect();
        self.loops.push(json!({"k": k, "kind": kind, "label": label, "mods": mods, "line": line, "parent": parent, "inscope": inscope}));
        k
    }
}

fn label_start(l: &Option<syn::Label>, kw: Span) -> usize {
    match l { Some(l) => rng(l.span()).start, None => rng(kw).start }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_block(&mut self, n: &'ast syn::Block) {
        let d = self.decls.len();
        visit::visit_block(self, n);
        self.decls.truncate(d);
    }
    fn visit_arm(&mut self, n: &'ast syn::Arm) {
        let d = self.decls.len();
        visit::visit_arm(self, n);
        self.decls.truncate(d);
    }
    fn visit_local(&mut self, n: &'ast syn::Local) {
        visit::visit_local(self, n);
        let mut p = &n.pat;
        let mut ty = None;
        if let syn::Pat::Type(t) = p { ty = Some(self.text(rng(t.ty.span())).to_string()); p = &t.pat; }
        if let syn::Pat::Ident(i) = p {
            let init = n.init.as_ref().map(|i| self.text(rng(i.expr.span())).to_string());
            let name = i.ident.to_string();
            self.decls.push(Decl { name: name.clone(), mutable: i.mutability.is_some(), ty: ty.clone(), init: init.clone(), pos: rng(n.span()).start });
            if init.as_deref().map(|s| s.split_whitespace().collect::<String>()) == Some("String::new()".to_string()) {
                let k = self.ndecl; self.ndecl += 1;
                let e = rng(n.span()).end;
                self.eds.push(Ed::Rep(e..e, format!(" /*@D:{}:{}*/", k, name)));
            }
        }
    }
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        let start = label_start(&n.label, n.while_token.span());
        let mods = self.mods_of(|m| { m.visit_expr(&n.cond); m.visit_block(&n.body); }, start);
        let line = n.while_token.span().start().line;
        let k = self.new_loop("while", n.label.as_ref().map(|l| l.name.ident.to_string()), mods, line);
        self.loop_stack.push(k);
        self.eds.push(Ed::Rep(start..start, format!("{{ /*@L:{}*/ ", k)));
        let w = rng(n.while_token.span());
        let b = rng(n.body.span());
        if let syn::Expr::Let(l) = &*n.cond {
            let pat = self.text(rng(l.pat.span()));
            // while let P = E B
            let e = rng(l.expr.span());
            self.eds.push(Ed::Rep(w.start..e.start, format!("loop /*@I:{}*/ {{ match ", k)));
            self.eds.push(Ed::Rep(e.end..b.start, format!(" {{ {} => ", pat)));
            self.eds.push(Ed::Rep(b.end..b.end, ", _ => { break; } } } }".to_string()));
            self.visit_expr(&l.expr);
            self.visit_block(&n.body);
        } else {
            let c = rng(n.cond.span());
            self.eds.push(Ed::Rep(w.start..c.start, format!("loop /*@I:{}*/ {{ if !(", k)));
            self.eds.push(Ed::Rep(c.end..b.start, ") { break; } ".to_string()));
            self.eds.push(Ed::Rep(b.end..b.end, format!(" /*@E:{}*/ }} }}", k)));
            self.visit_expr(&n.cond);
            self.visit_block(&n.body);
        }
        self.loop_stack.pop();
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        let start = label_start(&n.label, n.loop_token.span());
        let mods = self.mods_of(|m| m.visit_block(&n.body), start);
        let line = n.loop_token.span().start().line;
        let k = self.new_loop("loop", n.label.as_ref().map(|l| l.name.ident.to_string()), mods, line);
        self.loop_stack.push(k);
        self.eds.push(Ed::Rep(start..start, format!("{{ /*@L:{}*/ ", k)));
        let w = rng(n.loop_token.span());
        let b = rng(n.body.span());
        self.eds.push(Ed::Rep(w.end..b.start, format!(" /*@I:{}*/ ", k)));
        self.eds.push(Ed::Rep(b.end..b.end, " }".to_string()));
        self.visit_block(&n.body);
        self.loop_stack.pop();
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        let mut done = false;
        if let syn::Expr::Range(r) = &*n.expr {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let lit = |e: &syn::Expr| -> Option<i64> { if let syn::Expr::Lit(l) = e { if let syn::Lit::Int(i) = &l.lit { return i.base10_parse().ok(); } } None };
                let mut j = HasJump(false);
                j.visit_block(&n.body);
                if let (Some(a), Some(b)) = (lit(a), lit(b)) {
                    let to = if matches!(r.limits, syn::RangeLimits::Closed(_)) { b } else { b - 1 };
                    if !j.0 && to - a <= 16 {
                        let var = match &*n.pat { syn::Pat::Ident(i) => Some(i.ident.to_string()), _ => None };
                        self.eds.push(Ed::Unroll { range: rng(n.span()), body: rng(n.body.span()), var, from: a, to });
                        self.visit_block(&n.body);
                        done = true;
                    }
                }
            }
        }
        if !done {
            let mut x = &*n.expr;
            while let syn::Expr::Paren(p) = x { x = &p.expr }
            if let syn::Expr::Range(r) = x {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                    let start = label_start(&n.label, n.for_token.span());
                    let mut mods = self.mods_of(|m| m.visit_block(&n.body), start);
                    let k = self.loops.len();
                    let (i, e) = (format!("k__{}", k), format!("e__{}", k));
                    mods.push(json!({"name": i, "ty": null, "init": self.text(rng(a.span()))}));
                    let k = self.new_loop("for", n.label.as_ref().map(|l| l.name.ident.to_string()), mods, n.for_token.span().start().line);
                    self.loops[k]["for"] = json!({"var": i, "end": e, "from": self.text(rng(a.span())), "closed": closed});
                    self.loop_stack.push(k);
                    let (ra, rb, body) = (rng(a.span()), rng(b.span()), rng(n.body.span()));
                    self.eds.push(Ed::Rep(start..start, format!("{{ let mut {} = {}; let {} = {}; /*@L:{}*/ ", i, self.text(ra.clone()), e, self.text(rb.clone()), k)));
                    self.eds.push(Ed::Rep(rng(n.for_token.span()).start..body.start + 1, format!("loop /*@I:{}*/ {{ if !({} {} {}) {{ break; }} let {} = {}; {} += 1; {{ ", k, i, if closed { "<=" } else { "<" }, e, self.text(rng(n.pat.span())), i, i)));
                    self.eds.push(Ed::Rep(body.end..body.end, format!(" /*@E:{}*/ }} }}", k)));
                    self.visit_block(&n.body);
                    self.loop_stack.pop();
                    done = true;
                }
            }
        }
        if !done {
            let start = label_start(&n.label, n.for_token.span());
            let mods = self.mods_of(|m| m.visit_block(&n.body), start);
            let k = self.new_loop("for", n.label.as_ref().map(|l| l.name.ident.to_string()), mods, n.for_token.span().start().line);
            self.notes.push(format!("{}: general for loop", self.fnname));
            self.loop_stack.push(k);
            self.eds.push(Ed::Rep(start..start, format!("{{ /*@L:{}*/ ", k)));
            let b = rng(n.body.span());
            let e = rng(n.expr.span());
            self.eds.push(Ed::Rep(e.end..b.start, format!(" /*@I:{}*/ ", k)));
            self.eds.push(Ed::Rep(b.end..b.end, " }".to_string()));
            self.visit_expr(&n.expr);
            self.visit_block(&n.body);
            self.loop_stack.pop();
        }
    }
    fn visit_expr_match(&mut self, n: &'ast syn::ExprMatch) {
        fn lits(p: &syn::Pat, out: &mut Vec<String>, src: &str) -> bool {
            match p {
                syn::Pat::Lit(l) => if let syn::Lit::Str(_) = &l.lit { out.push(src[l.span().byte_range()].to_string()); true } else { false },
                syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out, src)),
                syn::Pat::Paren(p) => lits(&p.pat, out, src),
                _ => false,
            }
        }
        let mut any = false;
        let mut ok = true;
        let mut arms = vec![];
        for a in &n.arms {
            let mut l = vec![];
            let mut bind = None;
            if lits(&a.pat, &mut l, self.src) { any = true }
            else {
                l.clear();
                match &a.pat {
                    syn::Pat::Wild(_) => {}
                    syn::Pat::Ident(i) if i.subpat.is_none() => bind = Some(i.ident.to_string()),
                    _ => ok = false,
                }
            }
            arms.push(Arm { lits: l, bind, guard: a.guard.as_ref().map(|g| rng(g.1.span())), body: rng(a.body.span()) });
        }
        if any {
            if ok {
                let mut inner = Calls(&mut self.calls);
                inner.visit_expr(&n.expr);
                self.eds.push(Ed::StrMatch { range: rng(n.span()), scrut: rng(n.expr.span()), arms });
            } else { self.notes.push(format!("{}: string match with unsupported arms", self.fnname)); }
        }
        else if n.arms.iter().any(|a| a.guard.is_some()) && borrowing(&n.expr) {
            let arms = n.arms.iter().map(|a| (rng(a.pat.span()), a.guard.as_ref().map(|g| rng(g.1.span())), rng(a.body.span()))).collect();
            self.eds.push(Ed::GuardMatch { range: rng(n.span()), scrut: rng(n.expr.span()), arms });
        }
        visit::visit_expr_match(self, n);
    }
    fn visit_expr_assign(&mut self, n: &'ast syn::ExprAssign) {
        if is_self_symbol(&n.left) {
            self.eds.push(Ed::SymAssign { range: rng(n.span()), lhs: rng(n.left.span()), rhs: rng(n.right.span()) });
            self.visit_expr(&n.right);
        } else { visit::visit_expr_assign(self, n) }
    }
    fn visit_expr_struct(&mut self, n: &'ast syn::ExprStruct) {
        if let Some(i) = n.path.segments.last() {
            let name = i.ident.to_string();
            let name = if name == "Self" { "Self".to_string() } else { name };
            if self.ghost_structs.contains(&name) || name == "Self" {
                let e = rng(n.brace_token.span.close()).start;
                let comma = if n.fields.trailing_punct() || n.fields.is_empty() { "" } else { "," };
                self.eds.push(Ed::Rep(e..e, format!("/*@G{}:{}*/", comma, name)));
            }
        }
        visit::visit_expr_struct(self, n)
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        let m = n.method.to_string();
        let mr = rng(n.method.span());
        self.calls.insert(m.clone());
        if m == "to_string" || m == "to_owned" || m == "into" {
            if let (syn::Expr::Macro(mm), true) = (&*n.receiver, fmt_like(&n.receiver)) {
                if mm.mac.path.is_ident("format") {
                    let r = rng(n.receiver.span());
                    self.eds.push(Ed::Rep(r.end..rng(n.span()).end, String::new()));
                    self.visit_macro(&mm.mac);
                    return;
                }
            }
            if fmt_like(&n.receiver) {
                self.eds.push(Ed::Rep(rng(n.span()), "vfmt()".to_string()));
                return;
            }
        }
        if m == "clone" && n.args.is_empty() { self.eds.push(Ed::Rep(mr, "vclone".to_string())) }
        else if m == "reverse" && n.args.is_empty() { self.eds.push(Ed::Rep(mr, "vreverse".to_string())) }
        else if m == "starts_with" && n.args.len() == 1 && lit_str(&n.args[0]) {
            let r = rng(n.receiver.span());
            self.eds.push(Ed::Rep(r.start..r.start, "vstarts_with(&*".to_string()));
            let a = rng(n.args[0].span());
            self.eds.push(Ed::Rep(r.end..a.start, ", ".to_string()));
        }
        visit::visit_expr_method_call(self, n)
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func {
            if let Some(s) = p.path.segments.last() { self.calls.insert(s.ident.to_string()); }
            let t: String = self.text(rng(p.span())).split_whitespace().collect();
            if t == "String::from" && n.args.len() == 1 && fmt_like(&n.args[0]) {
                self.eds.push(Ed::Rep(rng(n.span()), "vfmt()".to_string()));
                return;
            }
        }
        visit::visit_expr_call(self, n)
    }
    fn visit_macro(&mut self, n: &'ast syn::Macro) {
        let name = n.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        self.macros.insert(name.clone());
        match name.as_str() {
            "format" => self.format(n, "vfmt()"),
            "println" | "print" | "eprintln" | "eprint" => self.format(n, "()"),
            "panic" | "unreachable" | "todo" | "unimplemented" => self.eds.push(Ed::Rep(rng(n.span()), "vunreachable()".to_string())),
            _ => {}
        }
    }
    fn visit_item(&mut self, _n: &'ast syn::Item) { self.notes.push(format!("{}: nested item", self.fnname)); }
}

fn render(src: &str, eds: &[Ed], r: Range<usize>) -> String {
    // eds: those inside r, sorted by (start, larger first)
    let mut inside: Vec<&Ed> = eds.iter().filter(|e| { let x = e.range(); x.start >= r.start && x.end <= r.end }).collect();
    inside.sort_by(|a, b| {
        let (x, y) = (a.range(), b.range());
        x.start.cmp(&y.start)
            .then_with(|| { let (ex, ey) = (x.is_empty(), y.is_empty()); if ex && !ey { std::cmp::Ordering::Less } else if !ex && ey { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } })
            .then(y.end.cmp(&x.end))
    });
    let mut out = String::new();
    let mut pos = r.start;
    let mut skip_until = r.start;
    for e in inside {
        let x = e.range();
        // inside an already rendered composite edit
        if x.start < skip_until || (x.is_empty() && x.start < skip_until) { continue; }
        if x == r && !matches!(e, Ed::Rep(..)) && pos > r.start { continue; }
        out.push_str(&src[pos..x.start]);
        match e {
            Ed::Rep(_, t) => out.push_str(t),
            Ed::Unroll { body, var, from, to, .. } => {
                let b = render_sub(src, eds, body.clone(), e);
                for k in *from..=*to {
                    match var {
                        Some(v) if v != "_" => out.push_str(&format!("{{ #[allow(unused_variables)] let {} = {}; {} }} ", v, k, b)),
                        _ => out.push_str(&format!("{} ", b)),
                    }
                }
            }
            Ed::StrMatch { scrut, arms, .. } => {
                out.push_str(&format!("{{ let m__ = {}; ", render_sub(src, eds, scrut.clone(), e)));
                let mut first = true;
                let mut closed = false;
                for a in arms {
                    if closed { break; }
                    let body = render_sub(src, eds, a.body.clone(), e);
                    let mut cond = a.lits.iter().map(|l| format!("vstreq(m__, {})", l)).collect::<Vec<_>>().join(" || ");
                    if let Some(g) = &a.guard {
                        let g = render_sub(src, eds, g.clone(), e);
                        cond = if cond.is_empty() { format!("({})", g) } else { format!("({}) && ({})", cond, g) };
                    }
                    let pre = match &a.bind { Some(b) => format!("let {} = m__; ", b), None => String::new() };
                    if cond.is_empty() {
                        out.push_str(&format!("{}{{ {}{} }}", if first { "" } else { " else " }, pre, body));
                        closed = true;
                    } else {
                        out.push_str(&format!("{}if {} {{ {}{} }}", if first { "" } else { " else " }, cond, pre, body));
                    }
                    first = false;
                }
                if !closed { out.push_str(" else { vunreachable() }"); }
                out.push_str(" }");
            }
            Ed::GuardMatch { scrut, arms, .. } => {
                let sc = render_sub(src, eds, scrut.clone(), e);
                let mut left: Vec<_> = arms.iter().collect();
                let mut closing = 0;
                while let Some(i) = left.iter().position(|a| a.1.is_some()) {
                    let a = left[i];
                    let before: String = left[..i].iter().map(|b| format!("{} => false, ", &src[b.0.clone()])).collect();
                    let p = &src[a.0.clone()];
                    out.push_str(&format!("{{ let g__ = match {} {{ {}{} => {{ {} }}, _ => false }}; if g__ {{ match {} {{ {} => {{ {} }}, _ => vunreachable() }} }} else {{ ",
                        sc, before, p, render_sub(src, eds, a.1.clone().unwrap(), e), sc, p, render_sub(src, eds, a.2.clone(), e)));
                    closing += 1;
                    left.remove(i);
                }
                out.push_str(&format!("match {} {{ ", sc));
                for a in left { out.push_str(&format!("{} => {{ {} }}, ", &src[a.0.clone()], render_sub(src, eds, a.2.clone(), e))) }
                out.push_str("}");
                for _ in 0..closing { out.push_str(" } }") }
            }
            Ed::SymAssign { lhs, rhs, .. } => {
                out.push_str(&format!("{{ let n__ = {}; /*@A*/ {} = n__; }}", render_sub(src, eds, rhs.clone(), e), &src[lhs.clone()]));
            }
        }
        pos = x.end;
        skip_until = x.end;
    }
    out.push_str(&src[pos..r.end]);
    out
}
fn render_sub(src: &str, eds: &[Ed], r: Range<usize>, me: &Ed) -> String {
    let mr = me.range();
    let sub: Vec<Ed> = eds.iter().filter(|e| { let x = e.range(); x != mr && x.start >= r.start && x.end <= r.end }).cloned().collect();
    render(src, &sub, r)
}

/// E8: `return` in front of every expression in tail position
fn tail_block(b: &syn::Block, eds: &mut Vec<Ed>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { tail(e, eds) }
}
fn tail(e: &syn::Expr, eds: &mut Vec<Ed>) {
    match e {
        syn::Expr::Match(m) => for a in &m.arms { tail(&a.body, eds) },
        syn::Expr::If(i) if i.else_branch.is_some() => {
            tail_block(&i.then_branch, eds);
            tail(&i.else_branch.as_ref().unwrap().1, eds);
        }
        syn::Expr::Block(b) if b.label.is_none() => tail_block(&b.block, eds),
        syn::Expr::Return(_) | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) => {}
        syn::Expr::Macro(m) if !m.mac.path.is_ident("format") => {}
        _ => { let s = rng(e.span()).start; eds.push(Ed::Rep(s..s, "return ".to_string())); }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") { return true; }
        if a.path().is_ident("cfg") {
            let t = quote::ToTokens::to_token_stream(&a.meta).to_string();
            return t.contains("test") && !t.contains("not");
        }
        false
    })
}

struct Out { fns: Vec<Value>, structs: Vec<Value>, enums: Vec<Value>, other: Vec<Value>, notes: Vec<String>, traits: Vec<Value> }

fn do_fn(out: &mut Out, src: &str, file: &str, impl_ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block, tr: Option<String>, ghost: &[String]) {
    if is_test(attrs) { return; }
    let name = sig.ident.to_string();
    let mut cx = Ctx { src, eds: vec![], loops: vec![], decls: vec![], scope: vec![], calls: BTreeSet::new(), notes: vec![], macros: BTreeSet::new(), ghost_structs: ghost.to_vec(), ndecl: 0, fnname: name.clone(), loop_stack: vec![] };
    let _ = &cx.scope;
    let mut params = vec![];
    let mut self_kind: Option<String> = None;
    for p in &sig.inputs {
        match p {
            syn::FnArg::Receiver(r) => self_kind = Some(src[rng(r.span())].to_string()),
            syn::FnArg::Typed(t) => {
                let (pn, mutable) = match &*t.pat { syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), _ => ("_".to_string(), false) };
                if mutable { cx.decls.push(Decl { name: pn.clone(), mutable: true, ty: Some(src[rng(t.ty.span())].to_string()), init: Some("param".into()), pos: 0 }); }
                params.push(json!({"name": pn, "mut": mutable, "ty": src[rng(t.ty.span())].to_string()}));
            }
        }
    }
    if !matches!(sig.output, syn::ReturnType::Default) { tail_block(block, &mut cx.eds); }
    cx.visit_block(block);
    let ret = match &sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => src[rng(t.span())].to_string() };
    let body = render(src, &cx.eds, rng(block.span()));
    let generics = { let g = &sig.generics; if g.params.is_empty() { String::new() } else { src[rng(g.span())].to_string() } };
    out.notes.extend(cx.notes.clone());
    // token text of the source body (comments and white space dropped)
    let norm = quote::ToTokens::to_token_stream(block).to_string();
    out.fns.push(json!({
        "name": name, "file": file, "impl": impl_ty, "trait": tr, "line": sig.fn_token.span().start().line,
        "end_line": block.span().end().line,
        "self": self_kind, "params": params, "ret": ret, "generics": generics, "body": body, "loops": cx.loops,
        "ndecl": cx.ndecl, "calls": cx.calls.iter().collect::<Vec<_>>(), "macros": cx.macros.iter().collect::<Vec<_>>(), "notes": cx.notes, "norm": norm,
    }));
}

fn items(out: &mut Out, src: &str, file: &str, its: &[syn::Item], ghost: &[String]) {
    for it in its {
        match it {
            syn::Item::Use(_) | syn::Item::ExternCrate(_) => {}
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) { continue; }
                if let Some((_, its)) = &m.content { items(out, src, file, its, ghost); }
            }
            syn::Item::Fn(f) => do_fn(out, src, file, None, &f.attrs, &f.sig, &f.block, None, ghost),
            syn::Item::Impl(i) => {
                if is_test(&i.attrs) { continue; }
                let ty = src[rng(i.self_ty.span())].to_string();
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                for x in &i.items {
                    match x {
                        syn::ImplItem::Fn(f) => do_fn(out, src, file, Some(ty.clone()), &f.attrs, &f.sig, &f.block, tr.clone(), ghost),
                        o => out.notes.push(format!("{}: impl item skipped: {}", file, &src[rng(o.span())].chars().take(60).collect::<String>())),
                    }
                }
            }
            syn::Item::Trait(t) => {
                if is_test(&t.attrs) { continue; }
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            out.notes.push(format!("{}: trait default method {}", file, f.sig.ident));
                            let _ = b;
                        }
                    }
                }
                out.traits.push(json!(t.ident.to_string()));
            }
            syn::Item::Struct(s) => {
                if is_test(&s.attrs) { continue; }
                let fields: Vec<Value> = s.fields.iter().map(|f| json!({"name": f.ident.as_ref().map(|i| i.to_string()), "ty": src[rng(f.ty.span())].to_string()})).collect();
                out.structs.push(json!({"name": s.ident.to_string(), "fields": fields, "named": matches!(s.fields, syn::Fields::Named(_)), "file": file}));
            }
            syn::Item::Enum(e) => {
                if is_test(&e.attrs) { continue; }
                let vs: Vec<Value> = e.variants.iter().map(|v| json!({"name": v.ident.to_string(), "fields": v.fields.iter().map(|f| src[rng(f.ty.span())].to_string()).collect::<Vec<_>>()})).collect();
                let derives: Vec<String> = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| quote::ToTokens::to_token_stream(&a.meta).to_string()).collect();
                out.enums.push(json!({"name": e.ident.to_string(), "variants": vs, "file": file, "derives": derives}));
            }
            syn::Item::Const(c) => out.other.push(json!({"text": src[rng(c.span())].to_string(), "file": file})),
            syn::Item::Type(c) => out.other.push(json!({"text": src[rng(c.span())].to_string(), "file": file})),
            o => out.notes.push(format!("{}: item skipped: {}", file, src[rng(o.span())].chars().take(60).collect::<String>())),
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = &args[1];
    let ghost: Vec<String> = vec!["PythonCoreParser".into(), "PythonCoreTokenizer".into(), "SourceBuffer".into()];
    let mut out = Out { fns: vec![], structs: vec![], enums: vec![], other: vec![], notes: vec![], traits: vec![] };
    let mut files = vec![];
    fn walk(d: &std::path::Path, files: &mut Vec<std::path::PathBuf>) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es { if p.is_dir() { walk(&p, files) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { files.push(p) } }
    }
    walk(&std::path::Path::new(repo).join("src"), &mut files);
    let mut errs = vec![];
    for f in &files {
        let rel = f.strip_prefix(repo).unwrap().to_string_lossy().to_string();
        if rel == "src/main.rs" { continue; }
        let src = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&src) {
            Ok(ast) => items(&mut out, &src, &rel, &ast.items, &ghost),
            Err(e) => errs.push(format!("{}: {}", rel, e)),
        }
    }
    println!("{}", serde_json::to_string_pretty(&json!({"fns": out.fns, "structs": out.structs, "enums": out.enums, "other": out.other, "notes": out.notes, "traits": out.traits, "errors": errs,
        "files": files.iter().map(|f| f.to_string_lossy().to_string()).collect::<Vec<_>>() })).unwrap());
}
