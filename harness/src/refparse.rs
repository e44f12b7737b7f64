//! A second, independent parser: recursive descent over a line of known tokens, giving the
//! declarations which the real parser must find, or nothing if the ledger is malformed.
use crate::ledger::Rd;
use crate::model::*;
use crate::tree::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Date(D),
    Word(String), // keyword or key
    Flag(String), // ! & ? % and letters
    P(&'static str),
    Str(String),
    Acc(Acc),
    Cur(String),
    Num(String),
    Tag(String),
    Link(String),
    Bool(bool),
    Null,
    /// never part of a ledger
    Junk(&'static str),
}

impl T {
    pub fn text(&self) -> String {
        match self {
            T::Date(d) => d.iso(),
            T::Word(w) => w.clone(),
            T::Flag(f) => f.clone(),
            T::P(p) => p.to_string(),
            T::Str(v) => format!("\"{v}\""),
            T::Acc(a) => format!("{}:{}", TYPES[a.ty], a.sub),
            T::Cur(c) => c.clone(),
            T::Num(n) => n.clone(),
            T::Tag(t) => format!("#{t}"),
            T::Link(t) => format!("^{t}"),
            T::Bool(b) => if *b { "TRUE" } else { "FALSE" }.to_string(),
            T::Null => "NULL".into(),
            T::Junk(j) => j.to_string(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub indent: bool,
    pub toks: Vec<(T, usize, usize)>,
    /// start of the next line
    pub next: usize,
}

pub struct Ref<'a> {
    lines: &'a [Line],
    toks: &'a [(T, usize, usize)],
    i: usize,
}

type P<X> = Option<X>;

/// what is malformed, and what can't be told
pub enum Verdict {
    Decls(Vec<Rd>),
    Malformed,
    Unknown,
}

struct Unknown;

impl<'a> Ref<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.toks.get(self.i).map(|t| &t.0)
    }
    fn next(&mut self) -> Option<&'a (T, usize, usize)> {
        let t = self.toks.get(self.i);
        self.i += 1;
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let y = self.is(p);
        if y {
            self.i += 1;
        }
        y
    }
    fn start(&self) -> usize {
        self.toks.get(self.i).map_or(0, |t| t.1)
    }
    fn end(&self) -> usize {
        self.toks[self.i - 1].2
    }
    fn span(&self, start: usize) -> Sp {
        Sp::At(0, start, self.end())
    }
    fn done(&self) -> bool {
        self.i >= self.toks.len()
    }

    fn factor(&mut self) -> P<E> {
        let neg = if self.eat("-") {
            Some(true)
        } else if self.eat("+") {
            Some(false)
        } else {
            None
        };
        let e = if self.eat("(") {
            let e = self.expr()?;
            if !self.eat(")") {
                return None;
            }
            E::Paren(Box::new(e))
        } else if let Some(T::Num(n)) = self.peek() {
            self.i += 1;
            E::Num(n.clone())
        } else {
            return None;
        };
        Some(match neg {
            Some(n) => E::Sign(n, Box::new(e)),
            None => e,
        })
    }
    fn product(&mut self) -> P<E> {
        let mut e = self.factor()?;
        loop {
            let op = if self.is("*") {
                '*'
            } else if self.is("/") {
                '/'
            } else {
                return Some(e);
            };
            let save = self.i;
            self.i += 1;
            match self.factor() {
                Some(f) => e = E::Bin(op, Box::new(e), Box::new(f)),
                None => {
                    self.i = save;
                    return Some(e);
                }
            }
        }
    }
    fn expr(&mut self) -> P<E> {
        let mut e = self.product()?;
        loop {
            let op = if self.is("+") {
                '+'
            } else if self.is("-") {
                '-'
            } else {
                return Some(e);
            };
            let save = self.i;
            self.i += 1;
            match self.product() {
                Some(f) => e = E::Bin(op, Box::new(e), Box::new(f)),
                None => {
                    self.i = save;
                    return Some(e);
                }
            }
        }
    }
    fn expr_opt(&mut self) -> Option<(E, usize)> {
        let (save, st) = (self.i, self.start());
        match self.expr() {
            Some(e) => Some((e, st)),
            None => {
                self.i = save;
                None
            }
        }
    }
    fn number(&mut self, name: &str) -> Option<Node> {
        let (e, st) = self.expr_opt()?;
        Some(e.node(name, self.span(st)))
    }
    fn cur(&mut self) -> Option<Node> {
        let st = self.start();
        match self.peek() {
            Some(T::Cur(c)) => {
                self.i += 1;
                Some(Node::leaf(format!("currency={c}"), self.span(st)))
            }
            _ => None,
        }
    }
    fn acc(&mut self, name: &str) -> Option<Node> {
        let st = self.start();
        match self.peek() {
            Some(T::Acc(a)) => {
                self.i += 1;
                Some(Node::leaf(format!("{name}={}:{}/{}", TYPES[a.ty], a.sub, TYPES[a.ty]), self.span(st)))
            }
            _ => None,
        }
    }
    fn string(&mut self) -> Option<(&'a str, Sp)> {
        let st = self.start();
        match self.peek() {
            Some(T::Str(v)) => {
                self.i += 1;
                Some((v, self.span(st)))
            }
            _ => None,
        }
    }
    fn named_string(&mut self, name: &str) -> Option<Node> {
        let (v, sp) = self.string()?;
        Some(Node::leaf(format!("{name}={v:?}"), sp))
    }
    fn item(&mut self) -> Option<Node> {
        let st = self.start();
        let l = match self.peek()? {
            T::Tag(t) => format!("tag={t}"),
            T::Link(t) => format!("link={t}"),
            _ => return None,
        };
        self.i += 1;
        Some(Node::leaf(l, self.span(st)))
    }
    fn value(&mut self) -> Option<Node> {
        let st = self.start();
        if let Some((e, st)) = self.expr_opt() {
            let sp = self.span(st);
            return Some(match self.cur() {
                Some(c) => Node::node("value:amount", self.span(st), vec![e.node("number", sp), c]),
                None => e.node("value:expr", sp),
            });
        }
        let l = match self.peek()? {
            T::Str(x) => format!("value:string={x:?}"),
            T::Cur(x) => format!("value:currency={x}"),
            T::Acc(_) => return self.acc("value:account"),
            T::Tag(x) => format!("value:tag={x}"),
            T::Link(x) => format!("value:link={x}"),
            T::Date(x) => format!("value:date={}", x.iso()),
            T::Bool(x) => format!("value:bool={x}"),
            T::Null => "value:null".into(),
            _ => return None,
        };
        self.i += 1;
        Some(Node::leaf(l, self.span(st)))
    }
    fn key_value(&mut self) -> Option<Node> {
        let st = self.start();
        let Some(T::Word(k)) = self.peek() else { return None };
        self.i += 1;
        let sp = self.span(st);
        if !self.eat(":") {
            return None;
        }
        let end = self.end();
        let v = self.value().unwrap_or(Node::leaf("value:null", Sp::At(0, end, end)));
        Some(Node::node(format!("key={k}"), sp, vec![v]))
    }
    fn flag(&mut self) -> Option<Node> {
        let st = self.start();
        let f = match self.peek()? {
            T::Flag(f) => f.as_str(),
            T::P("*") => "*",
            T::P("#") => "#",
            _ => return None,
        };
        self.i += 1;
        Some(Node::leaf(format!("flag={}", flag_debug(f)), self.span(st)))
    }

    fn cost(&mut self) -> P<Node> {
        let st = self.start();
        if !self.eat("{") {
            return None;
        }
        let mut kids: [Option<Node>; 6] = Default::default();
        let put = |kids: &mut [Option<Node>; 6], i: usize, n: Node| -> P<()> {
            if kids[i].is_some() {
                return None;
            }
            kids[i] = Some(n);
            Some(())
        };
        if !self.is("}") {
            loop {
                let cs = self.start();
                match self.peek()? {
                    T::Date(d) => {
                        self.i += 1;
                        put(&mut kids, 3, Node::leaf(format!("date={}", d.iso()), self.span(cs)))?;
                    }
                    T::Str(l) => {
                        self.i += 1;
                        put(&mut kids, 4, Node::leaf(format!("label={l:?}"), self.span(cs)))?;
                    }
                    T::P("*") => {
                        self.i += 1;
                        put(&mut kids, 5, Node::leaf("merge", Sp::Any))?;
                    }
                    _ => {
                        let per = self.expr_opt().map(|x| x.0);
                        let hash = self.eat("#");
                        let total = if hash { self.expr_opt().map(|x| x.0) } else { None };
                        let cur = self.cur();
                        if per.is_none() && total.is_none() && cur.is_none() {
                            return None;
                        }
                        let sp = self.span(cs);
                        if let Some(e) = per {
                            put(&mut kids, 0, e.node("per-unit", sp.clone()))?;
                        }
                        if let Some(e) = total {
                            put(&mut kids, 1, e.node("total", sp.clone()))?;
                        }
                        if let Some(mut c) = cur {
                            c.span = sp;
                            put(&mut kids, 2, c)?;
                        }
                    }
                }
                if !self.eat(",") {
                    break;
                }
            }
        }
        if !self.eat("}") {
            return None;
        }
        Some(Node::node("cost", self.span(st), kids.into_iter().flatten().collect()))
    }

    fn posting(&mut self) -> P<Node> {
        let st = self.start();
        let mut kids = Vec::new();
        kids.extend(self.flag());
        kids.push(self.acc("account")?);
        kids.extend(self.number("number"));
        kids.extend(self.cur());
        if self.is("{") {
            kids.push(self.cost()?);
        }
        let ps = self.start();
        if self.is("@") || self.is("@@") {
            let total = self.is("@@");
            self.i += 1;
            let mut k = Vec::new();
            if let Some((e, _)) = self.expr_opt() {
                k.push(e.node(if total { "total" } else { "per-unit" }, Sp::Any));
            }
            k.extend(self.cur().map(|mut c| {
                c.span = Sp::Any;
                c
            }));
            kids.push(Node::node("price", self.span(ps), k));
        }
        self.done().then(|| Node::node("posting", self.span(st), kids))
    }

    /// metadata lines from line l; the nodes and the line after
    fn metadata(&mut self, mut l: usize) -> (Vec<Node>, usize) {
        let mut out = Vec::new();
        while let Some(line) = self.lines.get(l) {
            if !line.indent {
                break;
            }
            self.toks = &line.toks;
            self.i = 0;
            let n = self.item().or_else(|| self.key_value());
            match n {
                Some(n) if self.done() => out.push(n),
                _ => break,
            }
            l += 1;
        }
        (out, l)
    }

    fn header(&mut self) -> P<(Node, bool, Vec<Node>)> {
        let Some((T::Date(d), st, _)) = self.next() else { return None };
        let mut kids = vec![Node::leaf(format!("date={}", d.iso()), self.span(*st))];
        let w = match self.peek()? {
            T::Word(w) => w.clone(),
            _ => "*".to_string(),
        };
        let mut txn = false;
        let name = match w.as_str() {
            "*" | "txn" => {
                txn = true;
                if w == "txn" {
                    let st = self.start();
                    self.i += 1;
                    kids.push(Node::leaf("flag=Asterisk", self.span(st)));
                } else {
                    kids.push(self.flag()?);
                }
                let (a, b) = (self.string(), self.string());
                let (p, n) = if b.is_some() { (a, b) } else { (None, a) };
                for (name, v) in [("payee", p), ("narration", n)] {
                    if let Some((v, sp)) = v {
                        if !v.is_empty() {
                            kids.push(Node::leaf(format!("{name}={v:?}"), sp));
                        }
                    }
                }
                "transaction"
            }
            _ => {
                self.i += 1;
                match w.as_str() {
                    "price" => {
                        kids.push(self.cur()?);
                        let st = self.start();
                        let n = self.number("number")?;
                        let c = self.cur()?;
                        kids.push(Node::node("amount", self.span(st), vec![n, c]));
                    }
                    "balance" => {
                        kids.push(self.acc("account")?);
                        let st = self.start();
                        let n = self.number("number")?;
                        let mut tol = None;
                        if self.eat("~") {
                            let s2 = self.start();
                            let Some(T::Num(t)) = self.peek() else { return None };
                            self.i += 1;
                            let (m, sc) = lit_parts(t);
                            tol = Some(Node::leaf(format!("tolerance={m}e-{sc}"), self.span(s2)));
                        }
                        let c = self.cur()?;
                        let mut k = vec![Node::node("amount", self.span(st), vec![n, c])];
                        k.extend(tol);
                        kids.push(Node::node("atol", self.span(st), k));
                    }
                    "open" => {
                        kids.push(self.acc("account")?);
                        let mut k = Vec::new();
                        if let Some(c) = self.cur() {
                            k.push(c);
                            while self.eat(",") {
                                k.push(self.cur()?);
                            }
                        }
                        kids.push(Node::node("currencies", Sp::Any, k).sorted());
                        if let Some((b, sp)) = self.string() {
                            let v = BOOKINGS.iter().find(|x| x.0 == b)?.1;
                            kids.push(Node::leaf(format!("booking={v}"), sp));
                        }
                    }
                    "close" => kids.push(self.acc("account")?),
                    "commodity" => kids.push(self.cur()?),
                    "pad" => {
                        kids.push(self.acc("account")?);
                        kids.push(self.acc("source")?);
                    }
                    "document" => {
                        kids.push(self.acc("account")?);
                        kids.push(self.named_string("path")?);
                    }
                    "note" => {
                        kids.push(self.acc("account")?);
                        kids.push(self.named_string("comment")?);
                    }
                    "event" => {
                        kids.push(self.named_string("type")?);
                        kids.push(self.named_string("description")?);
                    }
                    "query" => {
                        kids.push(self.named_string("name")?);
                        kids.push(self.named_string("content")?);
                    }
                    "custom" => {
                        kids.push(self.named_string("type")?);
                        let mut k = Vec::new();
                        while let Some(v) = self.value() {
                            k.push(v);
                        }
                        kids.push(Node::node("values", Sp::Any, k));
                    }
                    _ => return None,
                }
                match w.as_str() {
                    "price" => "price",
                    "balance" => "balance",
                    "open" => "open",
                    "close" => "close",
                    "commodity" => "commodity",
                    "pad" => "pad",
                    "document" => "document",
                    "note" => "note",
                    "event" => "event",
                    "query" => "query",
                    _ => "custom",
                }
            }
        };
        let mut items = Vec::new();
        if name != "custom" {
            while let Some(i) = self.item() {
                items.push(i);
            }
        }
        self.done().then(|| (Node::node(name, Sp::Any, kids), txn, items))
    }

    fn pragma(&mut self) -> P<Rd> {
        let st = self.start();
        let Some(T::Word(w)) = self.peek() else { return None };
        self.i += 1;
        let rd = match w.as_str() {
            "pushtag" | "poptag" => {
                let Some(T::Tag(t)) = self.peek() else { return None };
                self.i += 1;
                if w == "pushtag" {
                    Rd::PushTag(t.clone(), self.span(st))
                } else {
                    Rd::PopTag(t.clone(), self.span(st))
                }
            }
            "pushmeta" => {
                let mut n = self.key_value()?;
                let k = n.label.strip_prefix("key=")?.to_string();
                Rd::PushMeta(k, n.span.clone(), n.kids.pop()?)
            }
            "popmeta" => {
                let Some(T::Word(k)) = self.peek() else { return None };
                self.i += 1;
                if !self.eat(":") {
                    return None;
                }
                Rd::PopMeta(k.clone(), self.span(st))
            }
            "include" => {
                let (v, sp) = self.string()?;
                Rd::Include(v.to_string(), sp)
            }
            "option" => {
                let (n, a) = self.string()?;
                let (v, b) = self.string()?;
                Rd::Option(n.to_string(), a, v.to_string(), b)
            }
            "plugin" => {
                let m = self.named_string("module")?;
                let c = self.named_string("config");
                Rd::Plugin(m, c)
            }
            _ => return None,
        };
        self.done().then_some(rd)
    }

    fn file(&mut self) -> Result<Option<Vec<Rd>>, Unknown> {
        let mut out = Vec::new();
        let mut l = 0;
        while let Some(line) = self.lines.get(l) {
            if line.indent {
                return Ok(None);
            }
            self.toks = &line.toks;
            self.i = 0;
            if matches!(self.peek(), Some(T::Date(_))) {
                let st = self.start();
                let Some((mut node, txn, items)) = self.header() else { return Ok(None) };
                let mut end = self.toks.last().unwrap().2;
                let (m, next) = self.metadata(l + 1);
                if next > l + 1 {
                    end = self.lines[next - 1].toks.last().unwrap().2;
                }
                l = next;
                let meta: Vec<Node> = items.into_iter().chain(m).collect();
                while txn {
                    let Some(line) = self.lines.get(l) else { break };
                    if !line.indent {
                        break;
                    }
                    self.toks = &line.toks;
                    self.i = 0;
                    let Some(mut p) = self.posting() else { break };
                    end = line.toks.last().unwrap().2;
                    let (m, next) = self.metadata(l + 1);
                    if next > l + 1 {
                        end = self.lines[next - 1].toks.last().unwrap().2;
                    }
                    l = next;
                    p.kids.push(Node::node("metadata", Sp::Any, m).sorted());
                    node.kids.push(p);
                }
                node.kids.push(Node::node("metadata", Sp::Any, meta).sorted());
                node.span = Sp::Upto(0, st, end, self.lines[l - 1].next);
                out.push(Rd::Dir(node));
            } else {
                match self.pragma() {
                    Some(r) => out.push(r),
                    None => return Ok(None),
                }
                l += 1;
            }
        }
        Ok(Some(out))
    }
}

/// lines which begin like a heading mean nothing, nor do indented lines which begin with a colon
pub fn parse(lines: &[Line]) -> Verdict {
    parse_lines(lines, true)
}
/// with headings, or without, if those have been left out already
pub fn parse_lines(lines: &[Line], headings: bool) -> Verdict {
    let mut kept: Vec<Line> = Vec::new();
    for l in lines {
        let first = l.toks.first().map(|t| t.0.text());
        let ignored = match (&first, l.indent) {
            (None, _) => true,
            (Some(t), false) => headings && t.starts_with(['*', '!', '&', '#', '?', '%', ':']),
            (Some(t), true) => t == ":",
        };
        if !ignored {
            let mut l = l.clone();
            for t in &mut l.toks {
                // a date which does not exist
                if matches!(&t.0, T::Date(d) if d.1 < 1 || d.1 > 12 || d.2 < 1 || d.2 > days_in(d.0, d.1)) {
                    t.0 = T::Junk("0000-00-00");
                }
            }
            kept.push(l);
        } else if let Some(k) = kept.last_mut() {
            k.next = l.next;
        }
    }
    let mut r = Ref { lines: &kept, toks: &[], i: 0 };
    match r.file() {
        Ok(Some(d)) => Verdict::Decls(d),
        Ok(None) => Verdict::Malformed,
        Err(Unknown) => Verdict::Unknown,
    }
}
