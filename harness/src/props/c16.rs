//! Displayed directives parse back to themselves.
use super::common::*;
use crate::actual;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "a ledger counts as non-trivial when some directive has metadata, a posting, a cost, a price, a tolerance, a custom value or a string with a quote, backslash or line break in it; distinct by its text",
    quick: 1_000_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

/// without spans, and numbers by their value
fn bare(mut ns: Vec<Node>) -> Vec<Node> {
    fn go(n: &mut Node) {
        n.span = Sp::Any;
        n.kids.retain(|k| !k.label.starts_with("expr="));
        for k in &mut n.kids {
            go(k);
        }
    }
    for n in &mut ns {
        go(n);
    }
    ns
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: s.range(0, 2), meta: 2 + s.draw(4), wide: s.chance(1, 40), ..Gen::default() };
    let max = s.upto(6, 40);
    let decls = s.list(1, max, max as u64, max as u64 + 3, |s| {
        if s.chance(1, 12) {
            Decl0::Prag(Prag::Plugin(gen_str(s), s.chance(1, 2).then(|| gen_str(s))))
        } else {
            Decl0::Dir(g.dir(s))
        }
    });
    let style = gen_style(s);
    let (text, rds) = render_file(s, &decls, 0, style, &Names::default());
    ctx.input(text.clone());
    let nodes: Vec<Node> = rds.into_iter().filter_map(|r| if let Rd::Dir(n) = r { Some(n) } else { None }).collect();
    ctx.nontrivial = nodes.iter().any(|n| {
        let mut y = false;
        n.walk(&mut |k| y |= k.label == "posting" || k.label.starts_with("tolerance") || k.label.starts_with("value:") || k.label.contains('\\'));
        y
    });
    parse_text(&text, |_, r| {
        let r = accepted(r)?;
        let mut shown = String::new();
        for p in &r.plugins {
            shown.push_str(&format!("{p}\n"));
        }
        for d in &r.directives {
            shown.push_str(&format!("{d}\n"));
            if s.chance(1, 4) {
                shown.push('\n');
            }
        }
        let want = bare(actual::directives(&r.directives));
        let plugs = plugins(&r.plugins);
        parse_text(&shown, |_, r2| {
            let r2 = r2.map_err(|e| format!("what was displayed is not accepted: {}\n{shown}", show_errors(&e.errors)))?;
            diff_all(&plugs, &plugins(&r2.plugins), false).map_err(|e| format!("{e}\ndisplayed as:\n{shown}"))?;
            diff_all(&want, &bare(actual::directives(&r2.directives)), false).map_err(|e| format!("{e}\ndisplayed as:\n{shown}"))
        })
    })
}
