//! Pushed and popped tags and metadata.
use super::common::*;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::{actual, tree};

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "a history counts as non-trivial when a pushed tag or key reaches at least one directive, or an unmatched push or pop is to be reported; distinct by its text",
    quick: 350_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn key(s: &mut Src) -> String {
    if s.chance(1, 12) {
        return gen_key(s);
    }
    s.pick(&["foo", "bar", "note", "event"]).to_string()
}

fn ident(s: &mut Src) -> String {
    if s.chance(1, 12) {
        return gen_ident(s);
    }
    s.pick(&["x", "y", "trip-1"]).to_string()
}

fn wide_key(s: &mut Src) -> String {
    format!("k{}", s.below(40))
}

fn wide_ident(s: &mut Src) -> String {
    format!("t{}", s.below(40))
}

fn one_key(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return key(s);
    }
    "foo".into()
}

fn one_ident(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return ident(s);
    }
    "x".into()
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    // many different ones at the same time
    let wide = s.chance(1, 40);
    // the same one many times over
    let deep = !wide && s.chance(1, 100);
    let (key, ident): (fn(&mut Src) -> String, fn(&mut Src) -> String) = if wide {
        (wide_key, wide_ident)
    } else if deep {
        (one_key, one_ident)
    } else {
        (key, ident)
    };
    let pushes = if deep { 9 } else { 3 };
    let g = Gen { expr_depth: 0, meta: 4, key, ident, kinds: [3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], ..Gen::default() };
    let mut decls = Vec::new();
    // what is open, to close most of it again
    let (mut tags, mut keys): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let (max, more) = if deep && s.chance(1, 10) {
        (800, 1000)
    } else if wide || deep || s.chance(1, 100) { 
        (150, 127)
    } else {
        (*s.pick(&[8, 16, 30]), 15)
    };
    while decls.len() < max && s.chance(more, more + 1) {
        let stray = s.chance(1, 40);
        let d = match s.weighted(&[8, pushes, 2, pushes, 2]) {
            0 => Decl0::Dir(g.dir(s)),
            1 => {
                let t = ident(s);
                tags.push(t.clone());
                Decl0::Prag(Prag::PushTag(t))
            }
            2 => {
                let t = if stray || tags.is_empty() { ident(s) } else { s.pick(&tags).clone() };
                match tags.iter().rposition(|x| *x == t) {
                    Some(i) => {
                        tags.remove(i);
                    }
                    None if !stray => continue,
                    None => {}
                }
                Decl0::Prag(Prag::PopTag(t))
            }
            3 => {
                let k = key(s);
                keys.push(k.clone());
                let v = if s.chance(1, 10) { Val::Missing } else { g.val(s) };
                Decl0::Prag(Prag::PushMeta(k, v))
            }
            _ => {
                let k = if stray || keys.is_empty() { key(s) } else { s.pick(&keys).clone() };
                match keys.iter().rposition(|x| *x == k) {
                    Some(i) => {
                        keys.remove(i);
                    }
                    None if !stray => continue,
                    None => {}
                }
                Decl0::Prag(Prag::PopMeta(k))
            }
        };
        decls.push(d);
    }
    if !s.chance(1, 8) {
        for t in tags.into_iter().rev() {
            decls.push(Decl0::Prag(Prag::PopTag(t)));
        }
        for k in keys.into_iter().rev() {
            decls.push(Decl0::Prag(Prag::PopMeta(k)));
        }
    }
    if wide {
        ctx.class("many names");
    }
    if deep {
        ctx.class("one name many times");
    }
    let files = Files::new(s, ctx, decls, gen_style, (1, 12));
    let m = files.meaning();
    ctx.nontrivial = m.augmented > 0 || !m.errors.is_empty();
    ctx.class(if m.errors.is_empty() { "balanced" } else { "unmatched push or pop" });
    files.parse(|sources, r| {
        if m.errors.is_empty() {
            let r = accepted(r)?;
            tree::diff_all(&in_order(m.dirs), &files.renumber(sources, actual::directives(&r.directives)), true)
        } else {
            match r {
                Ok(_) => Err("an unmatched push or pop was not reported".into()),
                Err(e) => {
                    let (want, got) = (spans_of(&m.errors), files.error_spans(sources, &e.errors));
                    if want != got {
                        return Err(format!("expected errors at {want:?}, got {got:?}: {}", show_errors(&e.errors)));
                    }
                    Ok(())
                }
            }
        }
    })
}
