//! Rendered reports.
use super::soup;
use crate::driver::*;
use crate::reporting::*;
use crate::src::Src;
use beancount_parser_lima::*;
use std::fs;

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "a case counts as non-trivial when at least one report has its place beyond the first line or after a multi-byte character, or has a context or related element; distinct by the sources and reports",
    quick: 600_000,
    thorough: 8_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

pub fn words(s: &mut Src) -> String {
    if s.chance(1, 8) {
        let n = s.upto(20, 300);
        return (0..1 + s.below(n)).map(|_| *s.pick(&['a', 'Z', ' ', '-', 'é', '中', '😱', '"', '\'', '{', '}', '%', '\\', ':', '0'])).collect();
    }
    s.pick(&["account not open", "é 中 reason", "duplicate", "see `here`", "x"]).to_string()
}

fn label(s: &mut Src) -> String {
    s.pick(&["transaction", "posting", "currency", "context foo: [1]", "ключ"]).to_string()
}

pub fn rep(s: &mut Src, sources: &[Source]) -> Rep {
    let at = |s: &mut Src| {
        let i = s.below(sources.len());
        span_in(s, &sources[i])
    };
    let (max, more) = if s.chance(1, 50) { (16, 9) } else { (3, 1) };
    Rep {
        error: s.chance(1, 2),
        message: words(s),
        reason: words(s),
        span: at(s),
        contexts: s.list(0, max, more, more + 3, |s| (label(s), at(s))),
        related: s.list(0, max, more, more + 3, |s| (label(s), at(s))),
        annotation: None,
    }
}

pub fn element<'a>(s: &mut Src, sources: &[Source]) -> Spanned<Currency<'a>> {
    let i = s.below(sources.len());
    spanned(Currency::try_from("USD").unwrap(), span_in(s, &sources[i]))
}

pub fn build<K: ErrorOrWarningKind>(s: &mut Src, sources: &[Source], mut e: ErrorOrWarning<K>, error: bool) -> (AnnotatedErrorOrWarning<K>, Rep) {
    let n = s.upto(3, 20);
    for _ in 0..s.below(n) {
        let x = element(s, sources);
        e = if s.chance(1, 2) { e.in_context(&x) } else { e.related_to(&x) };
    }
    let mut r = rep_of(&e, error);
    if s.chance(1, 3) {
        let a = if s.chance(1, 4) { words(s) } else { s.pick(&["note this", "", "two\nlines", "é", "\n", "trailing\n", " indented\n\n  more"]).to_string() };
        r.annotation = Some(a.clone());
        (e.with_annotation(a), r)
    } else {
        (e.into(), r)
    }
}

/// any span at all
fn wild(s: &mut Src, sources: &[Source]) -> Span {
    let source = match s.weighted(&[6, 2, 1]) {
        0 => s.below(sources.len()),
        1 => sources.len() + s.below(3),
        _ => *s.pick(&[usize::MAX, 1 << 32, u32::MAX as usize]),
    };
    let n = sources.iter().find(|m| m.id == source).map_or(5, |m| m.text.len());
    let at = |s: &mut Src| match s.weighted(&[6, 2, 1]) {
        0 => s.below(n + 1),
        1 => n + s.below(3),
        _ => usize::MAX - s.below(2),
    };
    Span { source, start: at(s), end: at(s) }
}

/// one or several files, or inline; the sources as the model knows them
pub fn gen_sources(s: &mut Src, ctx: &mut Ctx, text: &dyn Fn(&mut Src) -> String) -> (BeancountSources, Vec<Source>) {
    if s.chance(1, 4) {
        let d = ctx.scratch();
        let mut names: Vec<String> = ["main.bean", "a b.bean", "ç中.bean"].map(String::from).to_vec();
        let n = if s.chance(1, 2000) {
            // more than fit in a byte
            names.extend((3..300).map(|i| format!("f{i}.bean")));
            s.range(250, 300)
        } else {
            s.range(1, 3)
        };
        let bad = s.chance(1, 3);
        let mut model = Vec::new();
        for (i, name) in names.iter().enumerate().take(n) {
            let mut t = text(s);
            if i == 0 {
                let mut inc: Vec<String> = names[1..n].to_vec();
                if bad {
                    // some which can't be read, or not again
                    fs::write(d.join("bad.bean"), [0xff, 0xfe]).unwrap();
                    fs::create_dir(d.join("dir.bean")).unwrap();
                    for _ in 0..s.range(1, 3) {
                        let x = s.pick(&["bad.bean", "dir.bean", "none.bean", "main.bean", "a b.bean", "./bad.bean"]).to_string();
                        inc.insert(s.below(inc.len() + 1), x);
                    }
                }
                t = inc.iter().map(|x| format!("include \"{x}\"\n")).collect::<String>() + &t;
            }
            let p = d.join(name);
            fs::write(&p, &t).unwrap();
            let p = p.to_str().unwrap().to_string();
            model.push(Source { id: i, name: p.clone(), file: Some(p), text: t });
        }
        if bad {
            // which numbers they have is for the sources to say
            let sources = BeancountSources::try_from(d.join(&names[0])).unwrap();
            let number = |m: &Source| {
                (0..n + 8).find(|i| {
                    let r = sources.resolve_span(&Span { source: *i, start: 0, end: m.text.len() });
                    r.file_name.as_deref() == Some(m.name.as_str()) || r.file_name.as_deref().and_then(|p| fs::canonicalize(p).ok()) == fs::canonicalize(&m.name).ok()
                })
            };
            let found: Vec<_> = model.iter().map(number).collect();
            if found.iter().all(|x| x.is_some()) {
                for (m, id) in model.iter_mut().zip(found) {
                    m.id = id.unwrap();
                }
                return (sources, model);
            }
            model.truncate(1);
            return (sources, model);
        }
        (BeancountSources::try_from(d.join(&names[0])).unwrap(), model)
    } else {
        let t = text(s);
        (BeancountSources::from(t.as_str()), vec![Source { id: 0, name: "inline".into(), file: None, text: t }])
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[6, 6, 4, 1]) {
        3 => {
            ctx.class("places which do not exist");
            let (sources, model) = gen_sources(s, ctx, &text);
            let mut syn = SyntheticSources::new(&sources);
            let mut all = model.clone();
            for name in ["a", "b"] {
                if s.chance(1, 2) {
                    let t = text(s);
                    let span = syn.create_synthetic_span(name, &t);
                    all.push(Source { id: span.source, name: name.into(), file: Some(name.into()), text: t });
                }
            }
            let spans = [wild(s, &all), wild(s, &all), wild(s, &all)];
            ctx.nontrivial = true;
            ctx.input(format!("{all:?}\n{spans:?}"));
            for sp in &spans {
                let known = |m: &[Source]| m.iter().find(|m| m.id == sp.source).and_then(|m| m.text.get(sp.start..sp.end).map(|_| m.clone()));
                for (r, m) in [(sources.resolve_span(sp), known(&model)), (syn.resolve_span(sp), known(&all))] {
                    match m {
                        Some(m) => super::c05::check_resolved(&m.text, sp.start, sp.end, m.file.as_deref(), &r)?,
                        None if r.content.is_empty() => {}
                        None => return Err(format!("{sp:?} is nowhere, but is resolved to {:?}", r.content)),
                    }
                }
            }
            let e = spanned(Currency::try_from("USD").unwrap(), spans[0]).error("nowhere");
            let e = e.related_to(&spanned(Currency::try_from("USD").unwrap(), spans[1])).in_context(&spanned(Currency::try_from("USD").unwrap(), spans[2]));
            sources.error_source_text(&e);
            syn.error_source_text(&e);
            for out in [
                {
                    let mut w = Vec::new();
                    sources.write_errors_or_warnings(&mut w, vec![e.clone()]).map(|_| w)
                },
                {
                    let mut w = Vec::new();
                    syn.write_report::<_, ErrorKind, _>(&mut w, &e).map(|_| w)
                },
            ] {
                let out = strip_ansi(&String::from_utf8(out.map_err(|e| format!("writing failed: {e}"))?).map_err(|e| format!("not in UTF-8: {e}"))?);
                if !out.starts_with("Error: invalid currency") {
                    return Err(format!("the report is {out}"));
                }
            }
            Ok(())
        }
        0 => {
            ctx.class("any report");
            let (sources, model) = gen_sources(s, ctx, &text);
            let r = rep(s, &model);
            note(ctx, &model, std::slice::from_ref(&r));
            let mut w = Vec::new();
            let res = if r.error {
                sources.write_report::<_, ErrorKind, _>(&mut w, &r)
            } else {
                sources.write_report::<_, WarningKind, _>(&mut w, &r)
            };
            res.map_err(|e| format!("writing failed: {e}"))?;
            check(&model, &[r], &w)
        }
        1 => {
            ctx.class("application errors and warnings");
            let (sources, model) = gen_sources(s, ctx, &text);
            let n = s.upto(4, 20);
            let n = s.range(1, n);
            let mut w = Vec::new();
            let reps: Vec<Rep> = if s.chance(1, 2) {
                let (es, reps): (Vec<_>, Vec<_>) = (0..n)
                    .map(|_| {
                        let e = element(s, &model).error(words(s));
                        build(s, &model, e, true)
                    })
                    .unzip();
                note(ctx, &model, &reps);
                if s.chance(1, 8) {
                    #[allow(deprecated)]
                    sources.write(&mut w, es)
                } else {
                    sources.write_errors_or_warnings(&mut w, es)
                }
                .map_err(|e| format!("writing failed: {e}"))?;
                reps
            } else {
                let (es, reps): (Vec<_>, Vec<_>) = (0..n)
                    .map(|_| {
                        let e = element(s, &model).warning(words(s));
                        build(s, &model, e, false)
                    })
                    .unzip();
                note(ctx, &model, &reps);
                sources.write_errors_or_warnings(&mut w, es).map_err(|e| format!("writing failed: {e}"))?;
                reps
            };
            check(&model, &reps, &w)
        }
        _ => {
            ctx.class("errors of the parser");
            let (sources, model) = gen_sources(s, ctx, &|s| soup::any_text(s).0);
            // what is included by the text itself is not in the model
            if model.iter().any(|m| m.text.matches("include").count() != if m.id == 0 { model.len() - 1 } else { 0 }) {
                return Ok(());
            }
            let parser = BeancountParser::new(&sources);
            let (errors, warnings) = match parser.parse() {
                Ok(r) => (vec![], r.warnings),
                Err(e) => (e.errors, e.warnings),
            };
            let er: Vec<Rep> = errors.iter().map(|e| rep_of(e, true)).collect();
            let wr: Vec<Rep> = warnings.iter().map(|e| rep_of(e, false)).collect();
            note(ctx, &model, &er);
            for e in &errors {
                let got = sources.error_source_text(e);
                let t = &find(&model, &e.span()).text;
                let (a, b) = trimmed(t, &e.span());
                if got != &t[a..b] {
                    return Err(format!("the source text of an error is {got:?}, expected {:?}", &t[a..b]));
                }
            }
            let mut w = Vec::new();
            sources.write_errors_or_warnings(&mut w, errors).map_err(|e| format!("writing failed: {e}"))?;
            check(&model, &er, &w)?;
            let mut w = Vec::new();
            sources.write_errors_or_warnings(&mut w, warnings).map_err(|e| format!("writing failed: {e}"))?;
            check(&model, &wr, &w)
        }
    }
}

pub fn note(ctx: &mut Ctx, model: &[Source], reps: &[Rep]) {
    ctx.nontrivial = reps.iter().any(|r| {
        let t = &find(model, &r.span).text[..r.span.start];
        t.contains('\n') || !t.is_ascii() || !r.contexts.is_empty() || !r.related.is_empty()
    });
    let mut d = String::new();
    for m in model {
        d.push_str(&format!("--- source {} {}\n{}\n", m.id, m.name, m.text));
    }
    for r in reps {
        d.push_str(&format!("--- {r:?}\n"));
    }
    ctx.input(d);
}
