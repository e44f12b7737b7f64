//! A plain tree which both the expected model and the actual parse result are turned into.
use beancount_parser_lima::Span;

#[derive(Clone, Debug, PartialEq)]
pub enum Sp {
    /// don't care
    Any,
    /// exactly these bytes of the source
    At(usize, usize, usize),
    /// source, start; and the end is between the two given
    Upto(usize, usize, usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub label: String,
    pub span: Sp,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn leaf(label: impl Into<String>, span: Sp) -> Node {
        Node { label: label.into(), span, kids: vec![] }
    }
    pub fn node(label: impl Into<String>, span: Sp, kids: Vec<Node>) -> Node {
        Node { label: label.into(), span, kids }
    }
    pub fn sorted(mut self) -> Node {
        self.kids.sort_by(|a, b| a.label.cmp(&b.label));
        self
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn strip_spans(&mut self) {
        self.span = Sp::Any;
        for k in &mut self.kids {
            k.strip_spans();
        }
    }
}

pub fn at(s: &Span) -> Sp {
    Sp::At(s.source, s.start, s.end)
}

fn span_ok(e: &Sp, a: &Sp) -> bool {
    match (e, a) {
        (Sp::Any, _) => true,
        (_, Sp::Any) => true,
        (Sp::At(..), _) => e == a,
        (Sp::Upto(s, st, lo, hi), Sp::At(s2, st2, en)) => s == s2 && st == st2 && lo <= en && en <= hi,
        _ => false,
    }
}

fn label_ok(e: &str, a: &str) -> bool {
    e == a || (e == "value=unknown" && a.starts_with("value=")) || e.strip_suffix("=*").is_some_and(|p| a.starts_with(p) && a[p.len()..].starts_with('='))
}

/// first difference between expected and actual, if any
pub fn diff(e: &Node, a: &Node, spans: bool) -> Result<(), String> {
    diff_(e, a, spans, &mut String::new())
}

fn diff_(e: &Node, a: &Node, spans: bool, path: &mut String) -> Result<(), String> {
    let len = path.len();
    path.push('/');
    path.push_str(&e.label);
    if !label_ok(&e.label, &a.label) {
        return Err(format!("at {path}: expected `{}`, got `{}`", e.label, a.label));
    }
    if spans && !span_ok(&e.span, &a.span) {
        return Err(format!("at {path}: expected span {:?}, got {:?}", e.span, a.span));
    }
    if e.kids.len() != a.kids.len() {
        return Err(format!(
            "at {path}: expected {} children {:?}, got {} {:?}",
            e.kids.len(),
            e.kids.iter().map(|k| &k.label).collect::<Vec<_>>(),
            a.kids.len(),
            a.kids.iter().map(|k| &k.label).collect::<Vec<_>>()
        ));
    }
    for (x, y) in e.kids.iter().zip(&a.kids) {
        diff_(x, y, spans, path)?;
    }
    path.truncate(len);
    Ok(())
}

pub fn diff_all(e: &[Node], a: &[Node], spans: bool) -> Result<(), String> {
    let e = Node::node("directives", Sp::Any, e.to_vec());
    let a = Node::node("directives", Sp::Any, a.to_vec());
    diff(&e, &a, spans)
}
