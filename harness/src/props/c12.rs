//! Errors stay with the malformed declarations.
use super::c20;
use super::common::*;
use crate::driver::*;
use crate::refparse::*;
use crate::src::Src;
use beancount_parser_lima::*;

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "a ledger counts as non-trivial when it has at least one malformed and at least one well-formed declaration; distinct by its text",
    quick: 500_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

type Lines = Vec<(bool, Vec<T>)>;

fn one(s: &mut Src) -> Lines {
    loop {
        let mut l = Vec::new();
        c20::decl(s, &mut l);
        // what has effects elsewhere is left out
        let far = |t: &T| matches!(t, T::Word(w) if w.starts_with("push") || w.starts_with("pop") || w == "option");
        if !l.iter().any(|l| far(&l.1[0])) {
            return l;
        }
    }
}

/// well-formed, to be rejected, or unclear
fn verdict(lines: &Lines) -> Option<bool> {
    let mut text = String::new();
    let rds = match parse(&c20::write(lines, &mut text)) {
        Verdict::Unknown => return None,
        Verdict::Malformed => None,
        Verdict::Decls(d) => Some(d),
    };
    Some(c20::meaning(rds)?.0.is_some())
}

/// start, end, is it well-formed?
type Place = (usize, usize, bool);

fn file(s: &mut Src, text: &mut String, decls: &mut Vec<Place>) {
    let most = s.upto(9, 90);
    let n = s.range(2, most);
    let bad = s.range(1, 3) as u64;
    // the same over and over again
    let mut last: Option<(Lines, bool)> = None;
    let repeat = s.chance(1, 10);
    for _ in 0..n {
        let (lines, good) = match &last {
            Some(l) if repeat && s.chance(1, 2) => l.clone(),
            _ => {
                let mut lines = one(s);
                if s.chance(bad, 4) {
                    for _ in 0..s.range(1, 3) {
                        c20::edit(s, &mut lines);
                    }
                    lines.retain(|l| !l.1.is_empty());
                    if lines.is_empty() {
                        continue;
                    }
                    // stays a declaration of its own
                    lines[0].0 = false;
                    let far = |t: &T| matches!(t, T::Word(w) if w.starts_with("push") || w.starts_with("pop") || w.starts_with("option") || w == "include");
                    if c20::ignored(&lines[0]) || lines.iter().any(|l| l.1.iter().any(far)) {
                        continue;
                    }
                }
                let Some(good) = verdict(&lines) else { continue };
                (lines, good)
            }
        };
        let start = text.len();
        c20::write(&lines, text);
        decls.push((start, text.len(), good));
        if !good {
            last = Some((lines, good));
        }
        for _ in 0..s.below(3) {
            text.push_str(s.pick(&["\n", "; comment\n", "* heading\n", "  \n", "   ; indented comment\n", "\t \t     \n", "\r\n", ": ignored\n", "  : too\n", "#tag 2020-01-01\n"]));
        }
    }
    // how it ends
    match s.weighted(&[6, 1, 1]) {
        0 => {}
        1 => {
            if text.ends_with('\n') {
                text.pop();
                if text.ends_with('\r') {
                    text.pop();
                }
                if let Some(d) = decls.last_mut() {
                    d.1 = d.1.min(text.len());
                }
            }
        }
        _ => text.push_str(s.pick(&[" ", "    ", "\t", "          ", "; no end", "   ; no end", "\n\n     "])),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let several = s.chance(1, 25);
    let count = if several { s.range(2, 4) } else { 1 };
    let mut files: Vec<(String, Vec<Place>)> = Vec::new();
    for i in 0..count {
        let (mut text, mut decls) = (String::new(), Vec::new());
        if i == 0 {
            for j in 1..count {
                let start = text.len();
                text.push_str(&format!("include \"f{j}.bean\"\n"));
                decls.push((start, text.len(), true));
            }
        }
        file(s, &mut text, &mut decls);
        files.push((text, decls));
    }
    let mut shown = files[0].0.clone();
    for (i, f) in files.iter().enumerate().skip(1) {
        shown.push_str(&format!("=== f{i}.bean\n{}", f.0));
    }
    ctx.input(shown);
    let bad: usize = files.iter().map(|f| f.1.iter().filter(|d| !d.2).count()).sum();
    let all: usize = files.iter().map(|f| f.1.len()).sum();
    ctx.nontrivial = bad > 0 && bad < all;
    ctx.class(if bad == 0 {
        "none malformed"
    } else if bad == all {
        "all malformed"
    } else if files.iter().any(|f| f.1.windows(2).any(|w| !w[0].2 && !w[1].2)) {
        "neighbours malformed"
    } else {
        "malformed ones apart"
    });
    if bad > 16 {
        ctx.class("many malformed");
    }
    if several {
        ctx.class("several files");
        let d = ctx.scratch();
        for (i, f) in files.iter().enumerate() {
            std::fs::write(d.join(format!("f{i}.bean")), &f.0).unwrap();
        }
        let sources = BeancountSources::try_from(d.join("f0.bean")).map_err(|e| format!("root can't be read: {e}"))?;
        let parser = BeancountParser::new(&sources);
        return judge(&files, bad, parser.parse(), |source| {
            let name = sources.resolve_span(&Span { source, start: 0, end: 0 }).file_name.unwrap_or("");
            (0..count).find(|i| name.ends_with(&format!("f{i}.bean"))).unwrap_or(usize::MAX)
        });
    }
    parse_text(&files[0].0, |_, r| judge(&files, bad, r, |s| s))
}

fn judge(files: &[(String, Vec<Place>)], bad: usize, r: Result<ParseSuccess, ParseError>, id: impl Fn(usize) -> usize) -> R {
    let errors = match r {
        Ok(_) if bad == 0 => return Ok(()),
        Ok(_) => return Err("a ledger with a malformed declaration was accepted".to_string()),
        Err(e) => e.errors,
    };
    let spans: Vec<(usize, usize, usize)> = errors.iter().map(|e| (id(e.span().source), e.span().start, e.span().end)).collect();
    for (f, start, end) in &spans {
        let Some((text, decls)) = files.get(*f) else {
            return Err(format!("an error in no file: {}", show_errors(&errors)));
        };
        // the declaration it lies in: the last one to start before it
        let Some(i) = decls.iter().rposition(|d| d.0 <= *start) else {
            return Err(format!("an error before the first declaration: {}", show_errors(&errors)));
        };
        if decls[i].2 {
            return Err(format!("an error at a well-formed declaration: {}", show_errors(&errors)));
        }
        let next = decls.get(i + 1).map_or(text.len(), |d| d.0);
        if *end > next {
            return Err(format!("an error reaches into the next declaration: {}", show_errors(&errors)));
        }
    }
    // each run of malformed ones has an error, and that in its first
    for (f, (text, decls)) in files.iter().enumerate() {
        for (i, d) in decls.iter().enumerate() {
            if !d.2 && (i == 0 || decls[i - 1].2) {
                let next = decls.get(i + 1).map_or(text.len() + 1, |d| d.0);
                if !spans.iter().any(|e| e.0 == f && e.1 >= d.0 && e.1 < next) {
                    return Err(format!("no error at the malformed declaration at {}: {}", d.0, show_errors(&errors)));
                }
            }
        }
    }
    Ok(())
}
