//! Directive fidelity: every well-formed directive comes back as it was written.
use super::common::*;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::{actual, tree};

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "a generated ledger counts as non-trivial when it has at least two directives or one with at least one optional part (payee, posting, metadata, tag, link, cost, price, tolerance, booking, custom value); distinct by its text",
    quick: 1_500_000,
    thorough: 3_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: s.range(0, 2), meta: 2 + s.draw(4), wide: s.chance(1, 40), ..Gen::default() };
    let max = s.upto(8, 60);
    let dirs = s.list(1, max, max as u64, max as u64 + 4, |s| Decl0::Dir(g.dir(s)));
    let n = dirs.len();
    let files = Files::new(s, ctx, dirs, |_| PLAIN, (1, 40));
    let nodes = files.meaning().dirs;
    ctx.nontrivial = n > 1 || {
        let mut n = 0;
        nodes[0].walk(&mut |_| n += 1);
        n > 5
    };
    for d in &nodes {
        ctx.class(d.label.clone());
    }
    let expected = in_order(nodes);
    files.parse(|_, r| {
        let r = accepted(r)?;
        tree::diff_all(&expected, &actual::directives(&r.directives), false)
    })
}
