// Generic view of tokens and trees; the conversions of the concrete enums are generated (conv.rs).
#[derive(Clone, Debug, PartialEq)]
pub struct Tv { pub k: &'static str, pub n: Vec<u32>, pub txt: Option<String>, pub ch: Vec<char> }
#[derive(Clone, Debug, PartialEq)]
pub struct Tk { pub k: &'static str, pub n: Vec<u32>, pub txt: Option<String>, pub pre: Option<String>, pub ch: Vec<char>, pub tv: Option<Vec<Tv>> }
impl Tk {
    pub fn s(&self) -> i64 { if self.n.is_empty() { -1 } else { self.n[0] as i64 } }
    pub fn e(&self) -> i64 { if self.n.is_empty() { -1 } else { self.n[self.n.len() - 1] as i64 } }
}
#[derive(Clone, Debug)]
pub enum V { N(&'static str, Vec<u32>, Vec<V>), T(Tk), L(Vec<V>), O(Option<Box<V>>), P(Vec<V>) }
impl V {
    pub fn toks<'a>(&'a self, out: &mut Vec<&'a Tk>) {
        match self {
            V::T(t) => out.push(t),
            V::N(_, _, f) | V::L(f) | V::P(f) => for x in f { x.toks(out) },
            V::O(Some(x)) => x.toks(out),
            V::O(None) => {}
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            V::T(_) => 0,
            V::N(_, _, f) => 1 + f.iter().map(|x| x.nodes()).sum::<usize>(),
            V::L(f) | V::P(f) => f.iter().map(|x| x.nodes()).sum(),
            V::O(Some(x)) => x.nodes(),
            V::O(None) => 0,
        }
    }
    pub fn kind(&self) -> &'static str { match self { V::N(k, _, _) => k, V::T(t) => t.k, V::L(_) => "<list>", V::O(_) => "<opt>", V::P(_) => "<pair>" } }
    pub fn show(&self) -> String {
        match self {
            V::T(t) => format!("{}{}", t.k, t.txt.as_ref().map(|x| format!(":{:?}", x)).unwrap_or_default()),
            V::N(k, p, f) => format!("{}[{}..{}]({})", k, p.get(0).unwrap_or(&0), p.get(1).unwrap_or(&0), f.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            V::L(f) => format!("[{}]", f.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            V::P(f) => format!("({})", f.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            V::O(Some(x)) => format!("?{}", x.show()),
            V::O(None) => "-".to_string(),
        }
    }
}
pub trait TvF { fn put(&self, t: &mut Tv); }
impl TvF for u32 { fn put(&self, t: &mut Tv) { t.n.push(*self) } }
impl TvF for char { fn put(&self, t: &mut Tv) { t.ch.push(*self) } }
impl TvF for String { fn put(&self, t: &mut Tv) { t.txt = Some(self.clone()) } }
impl<X: TvF> TvF for Box<X> { fn put(&self, t: &mut Tv) { (**self).put(t) } }
pub trait TkF { fn put(&self, t: &mut Tk); }
impl TkF for u32 { fn put(&self, t: &mut Tk) { t.n.push(*self) } }
impl TkF for char { fn put(&self, t: &mut Tk) { t.ch.push(*self) } }
impl TkF for Box<String> { fn put(&self, t: &mut Tk) { t.txt = Some((**self).clone()) } }
impl TkF for Option<String> { fn put(&self, t: &mut Tk) { t.pre = self.clone() } }
impl TkF for Option<Box<Vec<Box<crate::parser::trivias::Trivia>>>> {
    fn put(&self, t: &mut Tk) { t.tv = self.as_ref().map(|v| v.iter().map(|x| crate::conv::tv(&**x)).collect()) }
}
pub trait ToV { fn v(&self) -> V; }
impl<X: ToV> ToV for Box<X> { fn v(&self) -> V { (**self).v() } }
impl<X: ToV> ToV for Vec<X> { fn v(&self) -> V { V::L(self.iter().map(|x| x.v()).collect()) } }
impl<X: ToV> ToV for Option<X> { fn v(&self) -> V { V::O(self.as_ref().map(|x| Box::new(x.v()))) } }
impl<X: ToV, Y: ToV> ToV for (X, Y) { fn v(&self) -> V { V::P(vec![self.0.v(), self.1.v()]) } }
impl ToV for crate::parser::tokens::Token { fn v(&self) -> V { V::T(crate::conv::tk(self)) } }
impl ToV for crate::parser::nodes::ASTNode { fn v(&self) -> V { crate::conv::node(self) } }
pub trait NF { fn put(&self, p: &mut Vec<u32>, f: &mut Vec<V>); }
pub struct Pos<'a>(pub &'a u32);
