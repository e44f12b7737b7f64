//! Histories of synthetic sources.
use super::c05::check_resolved;
use super::c13::gen_sources;
use crate::driver::*;
use crate::reporting::*;
use crate::src::Src;
use beancount_parser_lima::*;

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "a history counts as non-trivial when at least two fragments are added and at least one place in a fragment is resolved or reported on after a later addition; distinct by the history",
    quick: 400_000,
    thorough: 8_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn fragment(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 1, 1]) {
        0 => s.pick(&["2020-01-01 open Assets:A\n", "x", "abc\ndef\n", "é中😱", "  indented \n\n"]).to_string(),
        1 => text(s),
        2 => String::new(),
        _ => s.pick(&[" ", "\n", "\t\n ", "\u{3000}"]).to_string(),
    }
}

fn name(s: &mut Src, model: &[Source], names: usize) -> String {
    if s.chance(1, 12) {
        // the name of a real source
        let i = s.below(model.len());
        return model[i].name.clone();
    }
    if s.chance(if names > 40 { 7 } else { 1 }, 8) {
        return format!("n{}", s.below(names));
    }
    s.pick(&["pad", "synthetic", "plugin é", "", "a/b.bean", "Pad"]).to_string()
}

fn report(s: &mut Src, syn: &SyntheticSources, all: &[Source], span: Span, other: Span) -> R {
    let mut e = spanned(Currency::try_from("USD").unwrap(), span).error("no good");
    let x = spanned(Currency::try_from("EUR").unwrap(), other);
    match s.below(3) {
        0 => e = e.related_to(&x),
        1 => e = e.in_context(&x),
        _ => {}
    }
    let t = &find(all, &span).text;
    let (a, b) = trimmed(t, &span);
    let got = syn.error_source_text(&e);
    if got != &t[a..b] {
        return Err(format!("the source text of an error is {got:?}, expected {:?}", &t[a..b]));
    }
    let mut r = rep_of(&e, true);
    let mut w = Vec::new();
    match s.below(3) {
        0 => syn.write_report::<_, ErrorKind, _>(&mut w, &r),
        1 => syn.write_errors_or_warnings(&mut w, vec![e]),
        _ => {
            r.annotation = Some("noted".into());
            syn.write_errors_or_warnings(&mut w, vec![e.with_annotation("noted")])
        }
    }
    .map_err(|e| format!("writing failed: {e}"))?;
    check(all, &[r], &w)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let (sources, mut all) = gen_sources(s, ctx, &text);
    let real = all.len();
    let mut syn = SyntheticSources::new(&sources);
    let mut spans: Vec<(Span, String, usize)> = Vec::new(); // with the fragment, and how many there were before
    let mut log = String::new();
    for m in &all {
        log.push_str(&format!("--- source {} {}\n{}\n", m.id, m.name, m.text));
    }
    let n = s.upto(14, 80);
    let (n, names) = match s.weighted(&[1998, 1, 1]) {
        0 => (s.range(1, n), 40),
        1 => (400, 40),
        // very many of them
        _ => (500, 600),
    };
    for _ in 0..n {
        match s.weighted(if names > 40 { &[40, 3, 2, 1] } else { &[4, 3, 2, 1] }) {
            0 => {
                let (name, frag) = (name(s, &all[..real], names), fragment(s));
                log.push_str(&format!("add {name:?} {frag:?}\n"));
                ctx.input(log.clone());
                let span = syn.create_synthetic_span(&name, &frag);
                // fragments of the same name are collected
                let i = match all[real..].iter().position(|m| m.name == name) {
                    Some(i) => real + i,
                    None => {
                        if all.iter().any(|m| m.id == span.source) {
                            return Err(format!("the new source {name:?} has the number {} of another", span.source));
                        }
                        all.push(Source { id: span.source, name: name.clone(), file: Some(name.clone()), text: String::new() });
                        all.len() - 1
                    }
                };
                let start = all[i].text.len();
                all[i].text.push_str(&frag);
                if (span.source, span.start, span.end) != (all[i].id, start, all[i].text.len()) {
                    return Err(format!("fragment {frag:?} of {name:?} has span {span:?}"));
                }
                spans.push((span, frag, spans.len()));
            }
            1 => {
                if spans.is_empty() {
                    continue;
                }
                let (span, frag, k) = s.pick(&spans).clone();
                ctx.nontrivial |= k + 1 < spans.len();
                log.push_str(&format!("look at {span:?}\n"));
                ctx.input(log.clone());
                let m = find(&all, &span);
                let r = syn.resolve_span(&span);
                let want = if frag.trim_end().is_empty() { &frag } else { frag.trim_end() };
                if r.content != want {
                    return Err(format!("fragment {frag:?} resolved to {:?}", r.content));
                }
                check_resolved(&m.text, span.start, span.end, m.file.as_deref(), &r)?;
                let i = s.below(all.len());
                let other = span_in(s, &all[i]);
                report(s, &syn, &all, span, other)?;
            }
            2 => {
                let i = s.below(all.len());
                let span = span_in(s, &all[i]);
                log.push_str(&format!("look at {span:?}\n"));
                ctx.input(log.clone());
                let m = find(&all, &span);
                check_resolved(&m.text, span.start, span.end, m.file.as_deref(), &syn.resolve_span(&span))?;
                if i < real {
                    // and as without
                    check_resolved(&m.text, span.start, span.end, m.file.as_deref(), &sources.resolve_span(&span))?;
                }
                let i = s.below(all.len());
                let other = span_in(s, &all[i]);
                report(s, &syn, &all, span, other)?;
            }
            _ => {
                // a copy has a life of its own
                log.push_str("add to a copy\n");
                let mut copy = syn.clone();
                let (name, frag) = (name(s, &all[..real], names), fragment(s));
                copy.create_synthetic_span(&name, &frag);
                if s.chance(1, 2) {
                    if let Some((span, frag, _)) = spans.last() {
                        let r = copy.resolve_span(span);
                        let want = if frag.trim_end().is_empty() { frag } else { frag.trim_end() };
                        if r.content != want {
                            return Err(format!("fragment {frag:?} resolved to {:?} in a copy", r.content));
                        }
                    }
                }
            }
        }
    }
    ctx.input(log);
    ctx.nontrivial &= spans.len() >= 2;
    Ok(())
}
