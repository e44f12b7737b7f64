//! The tree of what the parser returned, by its public accessors only.
use crate::tree::*;
use beancount_parser_lima::*;
use rust_decimal::Decimal;

pub fn dec(d: &Decimal) -> String {
    format!("{}e-{}", d.mantissa(), d.scale())
}

pub fn expr_shape(e: &Expr) -> String {
    match e {
        Expr::Value(d) => format!("[{}]", dec(d)),
        Expr::Add(a, b) => format!("({}+{})", expr_shape(a), expr_shape(b)),
        Expr::Sub(a, b) => format!("({}-{})", expr_shape(a), expr_shape(b)),
        Expr::Mul(a, b) => format!("({}*{})", expr_shape(a), expr_shape(b)),
        Expr::Div(a, b) => format!("({}/{})", expr_shape(a), expr_shape(b)),
        Expr::Neg(a) => format!("-{}", expr_shape(a)),
        Expr::Paren(a) => format!("<{}>", expr_shape(a)),
    }
}

pub fn number(name: &str, e: &ExprValue, sp: Sp) -> Node {
    let mut kids = vec![
        Node::leaf(format!("expr={}", expr_shape(e.expr())), Sp::Any),
        Node::leaf(format!("value={}", dec(&e.value())), Sp::Any),
    ];
    // it compares as its value
    if *e != e.value() || *e == if e.value().is_zero() { Decimal::ONE } else { -e.value() } {
        kids.push(Node::leaf("compares otherwise", Sp::Any));
    }
    Node::node(name, sp, kids)
}

fn snumber(name: &str, e: &Spanned<ExprValue>) -> Node {
    number(name, e.item(), at(e.span()))
}

fn acc(name: &str, a: &Spanned<Account>) -> Node {
    if <&str>::from(a.item()) != a.item().as_ref() || a.to_string() != a.item().as_ref() {
        return Node::leaf(format!("{name}: {:?}, {:?}, {}", <&str>::from(a.item()), a.item().as_ref(), a.item()), Sp::Any);
    }
    Node::leaf(format!("{name}={}/{:?}", a.item().as_ref(), a.account_type()), at(a.span()))
}

fn cur(a: &Spanned<Currency>) -> Node {
    Node::leaf(format!("currency={}", a.item().as_ref()), at(a.span()))
}

pub fn s(name: &str, v: &Spanned<&str>) -> Node {
    Node::leaf(format!("{name}={:?}", v.item()), at(v.span()))
}

fn amount(a: &Amount, sp: Sp) -> Node {
    Node::node("amount", sp, vec![snumber("number", a.number()), cur(a.currency())])
}

pub fn meta_value(v: &Spanned<MetaValue>) -> Node {
    let sp = at(v.span());
    match v.item() {
        MetaValue::Amount(a) => Node::node("value:amount", sp, vec![snumber("number", a.number()), cur(a.currency())]),
        MetaValue::Simple(x) => match x {
            SimpleValue::String(x) => Node::leaf(format!("value:string={x:?}"), sp),
            SimpleValue::Currency(x) => Node::leaf(format!("value:currency={}", x.as_ref()), sp),
            SimpleValue::Account(x) => Node::leaf(format!("value:account={}/{:?}", x.as_ref(), x.account_type()), sp),
            SimpleValue::Tag(x) => Node::leaf(format!("value:tag={}", x.as_ref()), sp),
            SimpleValue::Link(x) => Node::leaf(format!("value:link={}", x.as_ref()), sp),
            SimpleValue::Date(x) => Node::leaf(format!("value:date={x}"), sp),
            SimpleValue::Bool(x) => Node::leaf(format!("value:bool={x}"), sp),
            SimpleValue::Null => Node::leaf("value:null", sp),
            SimpleValue::Expr(x) => number("value:expr", x, sp),
        },
    }
}

pub fn metadata(m: &Metadata) -> Node {
    let mut kids = Vec::new();
    for (k, v) in m.key_values() {
        kids.push(Node::node(format!("key={}", k.item().as_ref()), at(k.span()), vec![meta_value(v)]));
    }
    for t in m.tags() {
        kids.push(Node::leaf(format!("tag={}", t.item().as_ref()), at(t.span())));
    }
    for t in m.links() {
        kids.push(Node::leaf(format!("link={}", t.item().as_ref()), at(t.span())));
    }
    // the other ways to look at it
    if m.is_empty() != kids.is_empty() {
        kids.push(Node::leaf(format!("is_empty={}", m.is_empty()), Sp::Any));
    }
    for (k, v) in m.key_values() {
        if !m.key_value(*k.item()).is_some_and(|x| std::ptr::eq(x, v) || (x.span() == v.span() && meta_value(x) == meta_value(v))) {
            kids.push(Node::leaf(format!("key_value of {}", k.item().as_ref()), Sp::Any));
        }
    }
    for absent in ["zz-absent", "foo", "fo", "balance"] {
        let there = m.key_values().any(|(k, _)| k.item().as_ref() == absent);
        if m.key_value(Key::try_from(absent).unwrap()).is_some() != there {
            kids.push(Node::leaf(format!("key_value of {absent}"), Sp::Any));
        }
    }
    Node::node("metadata", Sp::Any, kids).sorted()
}

fn price_spec(p: &Spanned<PriceSpec>) -> Node {
    let sp = at(p.span());
    let scoped = |x: &ScopedExprValue| match x {
        ScopedExprValue::PerUnit(e) => number("per-unit", e, Sp::Any),
        ScopedExprValue::Total(e) => number("total", e, Sp::Any),
    };
    let kids = match p.item() {
        PriceSpec::Unspecified => vec![],
        PriceSpec::BareCurrency(c) => vec![Node::leaf(format!("currency={}", c.as_ref()), Sp::Any)],
        PriceSpec::BareAmount(x) => vec![scoped(x)],
        PriceSpec::CurrencyAmount(x, c) => vec![scoped(x), Node::leaf(format!("currency={}", c.as_ref()), Sp::Any)],
    };
    Node::node("price", sp, kids)
}

fn cost_spec(c: &Spanned<CostSpec>) -> Node {
    let mut kids = Vec::new();
    if let Some(x) = c.per_unit() {
        kids.push(snumber("per-unit", x));
    }
    if let Some(x) = c.total() {
        kids.push(snumber("total", x));
    }
    if let Some(x) = c.currency() {
        kids.push(cur(x));
    }
    if let Some(x) = c.date() {
        kids.push(Node::leaf(format!("date={}", x.item()), at(x.span())));
    }
    if let Some(x) = c.label() {
        kids.push(s("label", x));
    }
    if c.merge() {
        kids.push(Node::leaf("merge", Sp::Any));
    }
    Node::node("cost", at(c.span()), kids)
}

pub fn posting(p: &Spanned<Posting>) -> Node {
    let mut kids = Vec::new();
    if let Some(f) = p.flag() {
        kids.push(Node::leaf(format!("flag={:?}", f.item()), at(f.span())));
    }
    kids.push(acc("account", p.account()));
    if let Some(x) = p.amount() {
        kids.push(snumber("number", x));
    }
    if let Some(x) = p.currency() {
        kids.push(cur(x));
    }
    if let Some(x) = p.cost_spec() {
        kids.push(cost_spec(x));
    }
    if let Some(x) = p.price_annotation() {
        kids.push(price_spec(x));
    }
    kids.push(metadata(p.metadata()));
    Node::node("posting", at(p.span()), kids)
}

pub fn directive(d: &Spanned<Directive>) -> Node {
    use DirectiveVariant::*;
    let mut kids = vec![Node::leaf(format!("date={}", d.date().item()), at(d.date().span()))];
    let name = match d.variant() {
        Transaction(x) => {
            kids.push(Node::leaf(format!("flag={:?}", x.flag().item()), at(x.flag().span())));
            if let Some(v) = x.payee() {
                kids.push(s("payee", v));
            }
            if let Some(v) = x.narration() {
                kids.push(s("narration", v));
            }
            for p in x.postings() {
                kids.push(posting(p));
            }
            "transaction"
        }
        Price(x) => {
            kids.push(cur(x.currency()));
            kids.push(amount(x.amount().item(), at(x.amount().span())));
            "price"
        }
        Balance(x) => {
            kids.push(acc("account", x.account()));
            let a = x.atol();
            let mut k = vec![amount(a.amount().item(), at(a.amount().span()))];
            if let Some(t) = a.tolerance() {
                k.push(Node::leaf(format!("tolerance={}", dec(t.item())), at(t.span())));
            }
            kids.push(Node::node("atol", at(a.span()), k));
            "balance"
        }
        Open(x) => {
            kids.push(acc("account", x.account()));
            kids.push(Node::node("currencies", Sp::Any, x.currencies().map(cur).collect()).sorted());
            if let Some(b) = x.booking() {
                kids.push(Node::leaf(format!("booking={:?}", b.item()), at(b.span())));
            }
            "open"
        }
        Close(x) => {
            kids.push(acc("account", x.account()));
            "close"
        }
        Commodity(x) => {
            kids.push(cur(x.currency()));
            "commodity"
        }
        Pad(x) => {
            kids.push(acc("account", x.account()));
            kids.push(acc("source", x.source()));
            "pad"
        }
        Document(x) => {
            kids.push(acc("account", x.account()));
            kids.push(s("path", x.path()));
            "document"
        }
        Note(x) => {
            kids.push(acc("account", x.account()));
            kids.push(s("comment", x.comment()));
            "note"
        }
        Event(x) => {
            kids.push(s("type", x.event_type()));
            kids.push(s("description", x.description()));
            "event"
        }
        Query(x) => {
            kids.push(s("name", x.name()));
            kids.push(s("content", x.content()));
            "query"
        }
        Custom(x) => {
            kids.push(s("type", x.type_()));
            kids.push(Node::node("values", Sp::Any, x.values().map(meta_value).collect()));
            "custom"
        }
    };
    kids.push(metadata(d.metadata()));
    Node::node(name, at(d.span()), kids)
}

pub fn directives(ds: &[Spanned<Directive>]) -> Vec<Node> {
    ds.iter().map(directive).collect()
}
