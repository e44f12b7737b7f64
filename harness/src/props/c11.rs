//! Nothing is silently overwritten: duplicates within a directive are reported.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};
use beancount_parser_lima::Report;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "a ledger counts as non-trivial when at least one tag, link, metadata key, currency of an account or component of a cost is given twice in one directive or posting; distinct by its text",
    quick: 1_200_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn key(s: &mut Src) -> String {
    s.pick(&["foo", "bar", "note", "fooo"]).to_string()
}

fn ident(s: &mut Src) -> String {
    s.pick(&["x", "y", "foo", "X"]).to_string()
}

fn wide_key(s: &mut Src) -> String {
    format!("k{}", s.below(30))
}

fn wide_ident(s: &mut Src) -> String {
    format!("t{}", s.below(30))
}

/// a cost with something given twice
fn dup_cost(s: &mut Src, g: &Gen) -> Vec<Comp> {
    let mut c = g.cost(s);
    let n = || Some(E::Num("7".into()));
    let has = |f: fn(&Comp) -> bool, c: &[Comp]| c.iter().any(f);
    let (mk, here): (Comp, bool) = match s.below(6) {
        0 => (Comp::Date(D(2021, 1, 1)), has(|x| matches!(x, Comp::Date(_)), &c)),
        1 => (Comp::Label("l".into()), has(|x| matches!(x, Comp::Label(_)), &c)),
        2 => (Comp::Merge, has(|x| matches!(x, Comp::Merge), &c)),
        3 => (Comp::Amount(n(), false, None, None), has(|x| matches!(x, Comp::Amount(Some(_), ..)), &c)),
        4 => (Comp::Amount(None, true, n(), None), has(|x| matches!(x, Comp::Amount(_, _, Some(_), _)), &c)),
        _ => (Comp::Amount(None, false, None, Some("USD".into())), has(|x| matches!(x, Comp::Amount(.., Some(_))), &c)),
    };
    for _ in 0..if here { 1 } else { 2 } {
        let at = s.below(c.len() + 1);
        c.insert(at, mk.clone());
    }
    c
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = Gen { expr_depth: 0, meta: 6, key, ident, dups: s.draw(8), ..Gen::default() };
    if s.chance(1, 8) {
        ctx.class("wide");
        g = Gen { key: wide_key, ident: wide_ident, wide: true, dups: 1 + s.draw(2), ..g };
    }
    let mut decls = Vec::new();
    let mut bad_cost = Vec::new();
    let n = s.range(1, 4);
    for _ in 0..n {
        let mut d = g.dir(s);
        let mut bad = false;
        if let Kind::Open(_, curs, _) = &mut d.kind {
            while !curs.is_empty() && s.chance(1, 4) {
                let (a, b) = (s.below(curs.len()), s.below(curs.len() + 1));
                curs.insert(b, curs[a].clone());
            }
        }
        if let Kind::Txn { postings, .. } = &mut d.kind {
            if s.chance(1, 5) && !postings.is_empty() {
                let i = s.below(postings.len());
                postings[i].cost = Some(dup_cost(s, &g));
                bad = true;
            }
        }
        bad_cost.push(bad);
        decls.push(Decl0::Dir(d));
    }
    let style = gen_style(s);
    let (text, rds) = render_file(s, &decls, 0, style, &Names::default());
    ctx.input(text.clone());
    let nodes: Vec<Node> = rds.into_iter().map(|r| if let Rd::Dir(n) = r { n } else { unreachable!() }).collect();
    // groups of spans, of which all but one are to be reported
    // (any but one of currencies, all but the first of others)
    let mut groups: Vec<(bool, Vec<Sp>)> = Vec::new();
    let mut ranges = Vec::new();
    // after a directive that can't be parsed, directives with further errors are passed over
    let mut skipping = false;
    for (n, bad) in nodes.iter().zip(&bad_cost) {
        let Sp::Upto(_, a, _, b) = n.span else { unreachable!() };
        if *bad {
            match ranges.last_mut() {
                Some((_, e)) if skipping => *e = b,
                _ => ranges.push((a, b)),
            }
            skipping = true;
            continue;
        }
        let before = groups.len();
        n.walk(&mut |m| {
            if m.label == "metadata" || m.label == "currencies" {
                let mut by: BTreeMap<&str, Vec<Sp>> = BTreeMap::new();
                for k in &m.kids {
                    by.entry(&k.label).or_default().push(k.span.clone());
                }
                for mut v in by.into_values().filter(|v| v.len() > 1) {
                    v.sort_by_key(|sp| if let Sp::At(_, a, _) = sp { *a } else { 0 });
                    groups.push((m.label == "currencies", v));
                }
            }
        });
        if skipping && groups.len() > before {
            groups.truncate(before);
            ranges.last_mut().unwrap().1 = b;
        } else {
            skipping = false;
        }
    }
    ctx.nontrivial = !groups.is_empty() || !ranges.is_empty();
    parse_text(&text, |_, r| {
        if groups.is_empty() && ranges.is_empty() {
            ctx.class("no duplicate");
            return tree::diff_all(&in_order(nodes), &actual::directives(&accepted(r)?.directives), true);
        }
        if !ranges.is_empty() {
            ctx.class("cost");
        }
        if !groups.is_empty() {
            ctx.class("tags, links, keys, currencies");
        }
        let Err(e) = r else { return Err("a duplicate was not reported".into()) };
        let mut left: Vec<_> = e.errors.iter().map(|e| at(&e.span())).collect();
        for (any, g) in &groups {
            for want in &g[1..] {
                match left.iter().position(|x| if *any { g.contains(x) } else { x == want }) {
                    Some(p) => {
                        left.remove(p);
                    }
                    None => return Err(format!("expected errors at all of {g:?} but the first: {}", show_errors(&e.errors))),
                }
            }
        }
        for (a, b) in &ranges {
            let before = left.len();
            left.retain(|x| !matches!(x, Sp::At(_, c, d) if a <= c && d <= b));
            if left.len() == before {
                return Err(format!("a duplicate in the cost within {a}..{b} was not reported: {}", show_errors(&e.errors)));
            }
        }
        if !left.is_empty() {
            return Err(format!("unexpected errors at {left:?}: {}", show_errors(&e.errors)));
        }
        Ok(())
    })
}
