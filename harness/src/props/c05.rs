//! Spans: every element is located where it was written.
use super::common::*;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::actual;
use beancount_parser_lima::*;
use std::collections::HashSet;
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "a ledger counts as non-trivial when at least ten spans are checked and some span starts beyond the first line; distinct by its text",
    quick: 350_000,
    thorough: 2_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

/// where a span of the text must resolve to
pub fn check_resolved(text: &str, start: usize, end: usize, file: Option<&str>, r: &SpannedSource) -> R {
    let content = text[start..end].trim_end();
    let content = if content.is_empty() { &text[start..end] } else { content };
    let line = 1 + text[..start].bytes().filter(|b| *b == b'\n').count();
    let end_line = line + content.bytes().filter(|b| *b == b'\n').count();
    if r.content != content {
        return Err(format!("span {start}..{end} resolved to {:?}, expected {content:?}", r.content));
    }
    if (r.start_line, r.end_line) != (line, end_line) {
        return Err(format!("{content:?} resolved to lines {}-{}, expected {line}-{end_line}", r.start_line, r.end_line));
    }
    if r.file_name != file {
        return Err(format!("{content:?} resolved to file {:?}, expected {file:?}", r.file_name));
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: s.range(0, 2), meta: 2 + s.draw(4), wide: s.chance(1, 40), ..Gen::default() };
    let max = s.upto(6, 60);
    let dirs = s.list(1, max, max as u64, max as u64 + 3, |s| Decl0::Dir(g.dir(s)));
    // line numbers may be large
    let far = if s.chance(1, 4000) { *s.pick(&[254, 10_000, 65_534, 65_600, 100_000]) } else { 0 };
    if far > 0 {
        ctx.class("far from the start");
    }
    let nth = std::cell::Cell::new(0);
    let style = |s: &mut Src| {
        nth.set(nth.get() + 1);
        Style { far: if nth.get() <= 10 { far } else { 0 }, ..gen_style(s) }
    };
    let files = Files::new(s, ctx, dirs, style, (1, 12));
    let expected = in_order(files.meaning().dirs);
    let mut n = 0;
    files.parse(|sources, r| {
        let r = accepted(r)?;
        let raw = actual::directives(&r.directives);
        let got = files.renumber(sources, raw.clone());
        diff_all(&expected, &got, true)?;
        let mut id = files.ids(sources);
        let mut seen: HashSet<(usize, String)> = HashSet::new();
        for d in &raw {
            let mut res = Ok(());
            d.walk(&mut |x| {
                if let (Sp::At(src, a, b), true) = (&x.span, res.is_ok()) {
                    n += 1;
                    let i = id(*src);
                    let Some(text) = files.texts.get(i) else {
                        res = Err(format!("{} has span {:?} in no source", x.label, x.span));
                        return;
                    };
                    if a > b || *b > text.len() {
                        res = Err(format!("{} has span {:?} outside the source", x.label, x.span));
                        return;
                    }
                    let sp = Span { source: *src, start: *a, end: *b };
                    let r = sources.resolve_span(&sp);
                    // the path may be spelled as included
                    let file = match (files.paths.get(i), r.file_name) {
                        (Some(p), Some(f)) if seen.contains(&(i, f.to_string())) || Path::new(f).canonicalize().is_ok_and(|f| f == *p) => {
                            seen.insert((i, f.to_string()));
                            Some(f)
                        }
                        (p, _) => p.map(|p| p.to_str().unwrap()),
                    };
                    res = check_resolved(text, *a, *b, file, &r).map_err(|e| format!("{}: {e}", x.label));
                }
            });
            res?;
        }
        Ok::<(), String>(())
    })?;
    ctx.nontrivial = n >= 10 && files.texts[0].contains('\n');
    Ok(())
}
