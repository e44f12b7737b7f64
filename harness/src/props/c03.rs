//! Order of directives.
use super::common::*;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::{actual, tree};

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "a ledger counts as non-trivial when at least two directives share a date and the order written is not the order expected; distinct by its text",
    quick: 350_000,
    thorough: 2_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn few_dates(s: &mut Src) -> D {
    match s.weighted(&[4, 2, 1]) {
        0 => D(2020, 1, 1 + s.draw(3) as u8),
        1 => D(2019 + s.draw(3) as i32, 1 + s.draw(2) as u8, 1 + s.draw(2) as u8),
        _ => *s.pick(&[D(0, 1, 1), D(1, 12, 31), D(999, 9, 30), D(1000, 1, 1), D(9999, 12, 31), D(2020, 2, 29), D(2019, 12, 31)]),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: 0, date: few_dates, kinds: [1; 12], meta: 1, ..Gen::default() };
    let crowd = s.chance(1, 1500);
    let max = if crowd {
        *s.pick(&[400, 1200])
    } else if s.chance(1, 100) {
        250
    } else {
        *s.pick(&[6, 12, 40])
    };
    let more = match max {
        251.. => 4000,
        101.. => 255,
        _ => 15,
    };
    // nearly all of them on one date, and of few kinds
    let g = if crowd { Gen { date: |s| if s.chance(1, 30) { few_dates(s) } else { D(2020, 1, 2) }, kinds: [0, 0, 1, 0, 0, 0, 0, 0, 9, 0, 0, 0], ..g } } else { g };
    let mut dirs = Vec::new();
    let mut dates = Vec::new();
    while dirs.len() < max && s.chance(more, more + 1) {
        let mut d = g.dir(s);
        // every directive is recognisable
        d.meta.retain(|i| !matches!(i, Item::Kv(k, _) if k == "serial"));
        d.meta.push(Item::Kv("serial".into(), Val::Expr(E::Num(dirs.len().to_string()))));
        dates.push(d.date);
        dirs.push(Decl0::Dir(d));
    }
    let n = dirs.len();
    let files = Files::new(s, ctx, dirs, |_| PLAIN, (1, 12));
    let nodes = files.meaning().dirs;
    let labels = |v: &[tree::Node]| v.iter().map(serial).collect::<Vec<_>>();
    let before = labels(&nodes);
    let expected = in_order(nodes);
    dates.sort();
    dates.dedup();
    ctx.nontrivial = dates.len() < n && before != labels(&expected);
    if ctx.nontrivial {
        ctx.class("several on one date, out of order");
    }
    files.parse(|_, r| {
        let r = accepted(r)?;
        let got = actual::directives(&r.directives);
        let (e, a) = (labels(&expected), labels(&got));
        if e != a {
            return Err(format!("directives are in the wrong order, or lost or duplicated: expected {e:?}, got {a:?}"));
        }
        for (e, a) in expected.iter().zip(&got) {
            if e.label != a.label || e.kids[0].label != a.kids[0].label {
                return Err(format!("expected {} {}, got {} {}", e.kids[0].label, e.label, a.kids[0].label, a.label));
            }
        }
        Ok(())
    })
}

fn serial(n: &tree::Node) -> String {
    let m = n.kids.last().unwrap();
    m.kids
        .iter()
        .find(|k| k.label == "key=serial")
        .map(|k| k.kids[0].kids.iter().map(|x| x.label.as_str()).find(|l| l.starts_with("value=")).unwrap_or("?").to_string())
        .unwrap_or_else(|| "none".into())
}
