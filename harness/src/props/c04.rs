//! Arithmetic of expressions.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "a case counts as non-trivial when the expression has at least two operators, or one operator and a value to be rejected; distinct by the text",
    quick: 2_000_000,
    thorough: 30_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn wide_number(s: &mut Src) -> String {
    match s.weighted(&[10, 1, 1]) {
        0 => gen_number(s),
        // up to 27 significant digits
        1 => gen_long_number(s),
        _ => s.pick(&["0", "0.00", "1", "5", "0.5", "0.05", "0.005", "2.5", "100", "8", "3", "0.000001", "000", "007.0"]).to_string(),
    }
}

fn factor(s: &mut Src, depth: usize) -> E {
    let e = if depth > 0 && s.chance(1, 2) { E::Paren(Box::new(expr(s, depth - 1))) } else { E::Num(wide_number(s)) };
    match s.weighted(&[6, 2, 1]) {
        0 => e,
        n => E::Sign(n == 1, Box::new(e)),
    }
}

fn product(s: &mut Src, depth: usize) -> E {
    let mut e = factor(s, depth);
    let mut n = 0;
    while depth > 0 && n < 3 && s.chance(2, 5) {
        n += 1;
        let op = if s.chance(1, 2) { '/' } else { '*' };
        e = E::Bin(op, Box::new(e), Box::new(factor(s, depth - 1)));
    }
    e
}

fn expr(s: &mut Src, depth: usize) -> E {
    let mut e = product(s, depth);
    let mut n = 0;
    while depth > 0 && n < 3 && s.chance(2, 5) {
        n += 1;
        let op = if s.chance(1, 2) { '-' } else { '+' };
        e = E::Bin(op, Box::new(e), Box::new(product(s, depth - 1)));
    }
    e
}

fn num(s: &str) -> E {
    E::Num(s.into())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let depth = s.range(1, 4);
    let mut e = expr(s, depth);
    if s.chance(1, 12) {
        // something that can't be evaluated, somewhere inside
        let zero = match s.weighted(&[2, 1, 1, 1]) {
            0 => num("0"),
            1 => num("0.000"),
            2 => E::Paren(Box::new(E::Bin('-', Box::new(num("1.0")), Box::new(num("1"))))),
            _ => E::Sign(true, Box::new(num("0"))),
        };
        let huge = || Box::new(num("70000000000000000000000000000"));
        let bad = match s.weighted(&[3, 1, 1, 1]) {
            0 => E::Bin('/', Box::new(factor(s, 1)), Box::new(zero)),
            1 => E::Bin('*', huge(), Box::new(num("12"))),
            2 => E::Bin('/', huge(), Box::new(num("0.001"))),
            _ => E::Paren(Box::new(E::Bin('+', huge(), huge()))),
        };
        e = match s.weighted(&[2, 1, 1, 1]) {
            0 => bad,
            1 => E::Bin('+', Box::new(product(s, 1)), Box::new(E::Paren(Box::new(bad)))),
            2 => E::Sign(true, Box::new(E::Paren(Box::new(bad)))),
            _ => E::Bin('*', Box::new(E::Paren(Box::new(bad))), Box::new(num("0"))),
        };
    }
    let verdict = e.eval().map(|_| ());
    // where in the ledger it occurs
    let acc = || Acc { ty: 0, sub: "A".into() };
    let d = D(2020, 1, 1);
    let usd = || "USD".to_string();
    let plain = |kind| Decl0::Dir(Dir { date: d, kind, hdr: vec![], meta: vec![] });
    let post = |num, cost, price| {
        Decl0::Dir(Dir {
            date: d,
            kind: Kind::Txn { flag: "*".into(), strs: vec![], postings: vec![Posting { flag: None, acc: acc(), num, cur: Some(usd()), cost, price, meta: vec![] }] },
            hdr: vec![],
            meta: vec![],
        })
    };
    let place = s.below(13);
    let one = || Some(num("1"));
    let decl = match place {
        0 => plain(Kind::Price("X".into(), e.clone(), usd())),
        1 => post(Some(e.clone()), None, None),
        2 => post(one(), Some(vec![Comp::Amount(Some(e.clone()), false, None, Some(usd()))]), None),
        3 => post(one(), Some(vec![Comp::Amount(one(), true, Some(e.clone()), None)]), None),
        4 => post(one(), Some(vec![Comp::Amount(None, true, Some(e.clone()), Some(usd())), Comp::Date(d)]), None),
        5 => post(one(), None, Some((false, Some(e.clone()), Some(usd())))),
        6 => post(one(), None, Some((true, Some(e.clone()), None))),
        7 => plain(Kind::Balance(acc(), e.clone(), None, usd())),
        8 => plain(Kind::Balance(acc(), e.clone(), Some("0.01".into()), usd())),
        9 => plain(Kind::Custom("x".into(), vec![Val::Expr(e.clone()), Val::Null])),
        10 => plain(Kind::Custom("x".into(), vec![Val::Bool(true), Val::Amount(e.clone(), usd())])),
        n => {
            let v = if n == 11 { Val::Expr(e.clone()) } else { Val::Amount(e.clone(), usd()) };
            Decl0::Dir(Dir { date: d, kind: Kind::Close(acc()), hdr: vec![], meta: vec![Item::Kv("foo".into(), v)] })
        }
    };
    let style = Style { messy: s.chance(1, 2), ignored: false, escapes: false, rich: false, far: 0 };
    let (text, rds) = render_file(s, &[decl], 0, style, &Names::default());
    ctx.input(text.clone());
    let Rd::Dir(node) = &rds[0] else { unreachable!() };
    let ops = e.ops();
    ctx.nontrivial = ops >= 2 || (ops == 1 && verdict == Err(Bad::Fails));
    parse_text(&text, |_, r| match verdict {
        Ok(()) => {
            ctx.class(if e.value().is_some() { "value checked" } else { "too close to call: only the shape checked" });
            let r = accepted(r)?;
            tree::diff_all(std::slice::from_ref(node), &actual::directives(&r.directives), true)
        }
        Err(Bad::TooBig) => {
            ctx.class("too big to tell");
            Ok(())
        }
        Err(Bad::Fails) => {
            ctx.class("no value: rejected");
            // the span of the expression as rendered
            let mut at = None;
            node.walk(&mut |n| {
                if n.kids.iter().any(|k| k.label == format!("expr={}", e.shape())) {
                    at = Some(n.span.clone());
                }
            });
            let at = at.ok_or("the expression is not in the model")?;
            match r {
                Ok(_) => Err("an expression without a value was accepted".into()),
                Err(err) => {
                    let got = error_spans(&err.errors);
                    let ok = match (&at, &got[..]) {
                        // the expression is inside a component of a cost or price
                        (Sp::Any, [_]) => true,
                        (Sp::At(_, a, b), [(_, c, d)]) if (2..=4).contains(&place) => a <= c && d <= b,
                        (Sp::At(_, a, b), [(_, c, d)]) => (a, b) == (c, d),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("expected one error at {at:?}, got {}", show_errors(&err.errors)));
                    }
                    Ok(())
                }
            }
        }
    })
}
