//! Layout: whitespace, comments, blank and ignored lines, line endings do not matter.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::actual;

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "a pair of layouts counts as non-trivial when the two texts differ; distinct by both texts",
    quick: 1_200_000,
    thorough: 2_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

/// a ledger which is accepted
fn decls(s: &mut Src) -> Vec<Decl0> {
    let g = Gen { expr_depth: 1, meta: 2 + s.draw(4), wide: s.chance(1, 40), ..Gen::default() };
    let max = s.upto(6, 40);
    let mut pops: Vec<Prag> = Vec::new();
    let mut titled = false;
    let mut out = s.list(1, max, max as u64, max as u64 + 3, |s| match s.weighted(&[24, 2, 2, 2, 1, 1]) {
        0 => Decl0::Dir(g.dir(s)),
        1 => {
            let t = gen_ident(s);
            pops.push(Prag::PopTag(t.clone()));
            Decl0::Prag(Prag::PushTag(t))
        }
        2 => {
            let k = gen_key(s);
            pops.push(Prag::PopMeta(k.clone()));
            Decl0::Prag(Prag::PushMeta(k, g.val(s)))
        }
        3 => Decl0::Prag(Prag::Plugin(gen_str(s), s.chance(1, 2).then(|| gen_str(s)))),
        4 if !titled => {
            titled = true;
            Decl0::Prag(Prag::Option("title".into(), gen_str(s)))
        }
        _ => match pops.pop() {
            Some(p) => Decl0::Prag(p),
            None => Decl0::Dir(g.dir(s)),
        },
    });
    out.extend(pops.into_iter().rev().map(Decl0::Prag));
    out
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let decls = decls(s);
    let names = Names::default();
    let (plain, _) = render_file(s, &decls, 0, PLAIN, &names);
    let (messy, _) = render_file(s, &decls, 0, MESSY, &names);
    ctx.input(format!("{plain}\n--- and with another layout ---\n{messy}"));
    ctx.nontrivial = plain != messy;
    ctx.class(if decls.iter().all(|d| matches!(d, Decl0::Dir(_))) { "directives" } else { "directives and pragmas" });
    let tree_of = |text: &str, what: &str| -> Result<Vec<Node>, String> {
        parse_text(text, |_, r| {
            let r = accepted(r).map_err(|e| format!("{what}: {e}"))?;
            if !r.warnings.is_empty() {
                return Err(format!("{what}: unexpected warnings {}", show_errors(&r.warnings)));
            }
            let mut v = actual::directives(&r.directives);
            v.extend(plugins(&r.plugins));
            v.push(Node::leaf(format!("title={:?}", r.options.title().map(|t| *t.item())), Sp::Any));
            Ok(v)
        })
    };
    let a = tree_of(&plain, "plain layout")?;
    let b = tree_of(&messy, "messy layout")?;
    diff_all(&a, &b, false)
}
