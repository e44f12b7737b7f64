//! Totality: whatever the input, there is an answer and no panic.
use super::soup::*;
use crate::actual;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use beancount_parser_lima::*;
use std::fmt::Write as _;

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "an input counts as non-trivial when it has at least two lines or ten characters and is not accepted as empty; distinct by its text",
    quick: 400_000,
    thorough: 20_000_000,
    run,
    bounds_memory: true,
    known,
};

/// use everything that a parse gives
pub fn consume(sources: &BeancountSources, len: usize, r: Result<ParseSuccess, ParseError>) -> Result<bool, String> {
    let mut sink = Vec::new();
    let mut text = String::new();
    let spans_ok = |what: &str, sp: Span| {
        let r = sources.resolve_span(&sp);
        if sp.start > sp.end || (sp.source == 0 && sp.end > len) {
            return Err(format!("{what} has span {sp:?} outside of its source"));
        }
        if r.start_line > r.end_line {
            return Err(format!("{what} {sp:?} resolves to lines {}-{}", r.start_line, r.end_line));
        }
        Ok(())
    };
    match r {
        Ok(ok) => {
            for d in &ok.directives {
                let n = actual::directive(d);
                let mut res = Ok(());
                n.walk(&mut |x| {
                    if let (crate::tree::Sp::At(source, start, end), true) = (&x.span, res.is_ok()) {
                        res = spans_ok(&x.label, Span { source: *source, start: *start, end: *end });
                    }
                });
                res?;
                write!(text, "{d} {d:?}").map_err(|_| "a directive can't be displayed")?;
            }
            for p in &ok.plugins {
                write!(text, "{p} {p:?}").map_err(|_| "a plugin can't be displayed")?;
            }
            let o = &ok.options;
            write!(text, "{o:?}").map_err(|_| "options can't be displayed")?;
            let _ = (o.title(), o.booking_method(), o.long_string_maxlines(), o.documents().count(), o.operating_currency().count());
            for w in &ok.warnings {
                spans_ok("a warning", w.span())?;
                write!(text, "{w}").map_err(|_| "a warning can't be displayed")?;
            }
            sources.write_errors_or_warnings(&mut sink, ok.warnings).map_err(|e| e.to_string())?;
            Ok(true)
        }
        Err(ParseError { errors, warnings }) => {
            if errors.is_empty() {
                return Err("rejected without any error".into());
            }
            for e in &errors {
                spans_ok("an error", e.span())?;
                for (_, sp) in e.contexts().chain(e.related()) {
                    spans_ok("an error's context", sp)?;
                }
                write!(text, "{e} {e:?}").map_err(|_| "an error can't be displayed")?;
                text.push_str(sources.error_source_text(e));
            }
            sources.write_errors_or_warnings(&mut sink, errors).map_err(|e| e.to_string())?;
            sources.write_errors_or_warnings(&mut sink, warnings).map_err(|e| e.to_string())?;
            Ok(false)
        }
    }
}

fn stretch(s: &mut Src) -> String {
    let n = *s.pick(&[50, 500, 3000]);
    let k = 1 + s.below(n);
    match s.below(12) {
        0 => "pushtag #a\n".repeat(k),
        1 => "pushmeta a1: 1\n".repeat(k) + &"popmeta a1:\n".repeat(k),
        2 => format!("2020-01-01 price X {} USD\n", vec!["1"; k].join(*s.pick(&["+", " - ", "*", "/"]))),
        3 => {
            let k = k.min(800);
            format!("2020-01-01 price X {}1{} USD\n", "(".repeat(k), ")".repeat(k))
        }
        4 => format!("2020-01-01 price X {} USD\n", "(".repeat(k.min(800))),
        5 => format!("2020-01-01 * \"x\"\n{}", "  Assets:A 1 USD\n".repeat(k)),
        6 => format!("2020-01-01 note Assets:A \"{}\"\n", "é\n".repeat(k)),
        7 => "plugin \"x\"\n".repeat(k),
        8 => format!("2020-01-01 open Assets:A {}\n", vec!["USD"; k.min(300)].join(",")),
        9 => format!("2020-01-01 close Assets:A{}\n", ":A".repeat(k)),
        10 => format!("2020-01-01 custom \"x\" {}\n", "TRUE ".repeat(k)),
        _ => format!("2020-01-01 price X {}1 USD\n", "-(".repeat(k.min(500)) + &"- ".repeat(k.min(50))),
    }
}

fn thread_ms() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 * 1e3 + ts.tv_nsec as f64 / 1e6
}

/// a text of about the size given, of one kind of thing over and over
fn lengthy(kind: usize, unit: &str, size: usize) -> String {
    let many = |per: usize, f: &dyn Fn(usize) -> String| (0..size / per).map(f).collect::<String>();
    match kind {
        0 => unit.repeat(size / unit.len().max(1)),
        1 => format!("2020-01-01 * \"x\"\n{}", many(20, &|_| "  Assets:A  1.00 USD\n".into())),
        2 => format!("2020-01-01 close Assets:A\n{}", many(15, &|i| format!("  k{i}: \"x\"\n"))),
        3 => format!("2020-01-01 close Assets:A{}\n", many(8, &|i| format!(" #t{i}"))),
        4 => format!("2020-01-01 note Assets:A \"{}\"\n", many(2, &|_| "x\n".into())),
        5 => format!("2020-01-01 custom \"x\"{}\n", many(5, &|_| " TRUE".into())),
        6 => many(12, &|i| format!("pushtag #t{i}\n")) ,
        7 => "; comment\n\n* heading\n".repeat(size / 22),
        8 => format!(";{}\n", "x".repeat(size)),
        9 => many(25, &|_| "2020-01-01 junk \"\" 1 1 1\n".into()),
        10 => many(25, &|_| "2020-01-01 pad Assets:A 1\n".into()),
        11 => many(30, &|_| "plugin \"some.module\" \"config\"\n".into()),
        12 => format!("2020-01-01 open Assets:A {}\n", (0..size / 8).map(|i| format!("C{i}")).collect::<Vec<_>>().join(", ")),
        13 => many(60, &|i| format!("2020-01-01 note Assets:A{i} \"\\\"\\n\"\n  foo: 1\n  #tag ^link\n")),
        14 => "\"".repeat(size),
        15 => many(3, &|_| "éé\n".into()),
        16 => format!("option \"long_string_maxlines\" \"0\"\n{}", many(30, &|_| "2020-01-01 note Assets:A \"x\"\n".into())),
        17 => format!("2020-01-01 close Assets:A\n{}", many(10, &|i| format!("  #t{i}\n"))),
        18 => format!("2020-01-01 close Assets:A\n{}", many(10, &|i| format!("  ^t{i}\n"))),
        19 => format!("2020-01-01 close Assets:A{}\n", many(8, &|i| format!(" ^t{i}"))),
        20 => format!("2020-01-01 *\n  Assets:A\n{}", many(15, &|i| format!("    k{i}: {i}\n"))),
        21 => many(28, &|i| format!("option \"documents\" \"d{i}\"\n")),
        22 => many(36, &|i| format!("option \"operating_currency\" \"C{i}\"\n")),
        23 => many(45, &|i| format!("option \"inferred_tolerance_default\" \"C{i}:0.1\"\n")),
        24 => many(30, &|i| format!("pushtag #t{i}\n")) + &many(30, &|i| format!("poptag #t{i}\n")),
        25 => many(36, &|i| format!("pushmeta k{i}: {i}\n")) + &many(36, &|i| format!("popmeta k{i}:\n")),
        26 => many(32, &|i| format!("pushmeta foo: {i}\n")) + &many(32, &|_| "popmeta foo:\n".into()),
        27 => many(30, &|i| format!("{:04}-{:02}-{:02} close Assets:A\n", 9999 - i / 300 % 9000, 12 - i / 25 % 12, 28 - i % 25)),
        28 => format!("2020-01-01 close Assets:A{}\n", many(8, &|i| format!(" #t{}", i % 2))),
        29 => format!("2020-01-01 close Assets:A\n{}", many(10, &|_| "  foo: 1\n".into())),
        30 => many(12, &|i| format!("poptag #t{i}\n")),
        31 => many(12, &|i| format!("popmeta k{i}:\n")),
        32 => many(36, &|i| format!("option \"name_assets\" \"A{i}\"\n")),
        33 => format!("2020-01-01 price X {} USD\n", "1".repeat(size)),
        34 => format!("2020-01-01 commodity {}\n", "X".repeat(size)),
        35 => format!("2020-01-01 close Assets:{}\n", "A".repeat(size)),
        36 => format!("2020-01-01 *\n  Assets:A 1 USD {{{}}}\n", vec!["2020-01-01"; size / 11].join(",")),
        37 => format!("2020-01-01 note Assets:A \"{}\"\n", "\\n\\\"".repeat(size / 4)),
        38 => many(30, &|i| format!("option \"unknown{i}\" \"x\"\n")),
        39 => many(60, &|i| format!("2020-01-01 * \"a\"\n  Assets:A  {i}.00 USD\n  Assets:B\n    foo: 1\n\n")),
        40 => format!("2020-01-01 custom \"x\"{}\n", many(12, &|i| format!(" {i} + 1 USD"))),
        41 => format!("2020-01-01 * \"{}\" \"x\"\n", "a".repeat(size)),
        42 => many(20, &|_| "2020-01-01 close\n".into()),
        43 => format!("2020-01-01 open Assets:A {}\n", vec!["USD"; size / 5].join(", ")),
        44 => many(25, &|i| format!("include \"missing{i}\"\n")),
        45 => "2020-01-01 * \"\"\n\n\n\n".repeat(size / 19),
        _ => "\n".repeat(size),
    }
}
const KINDS: usize = 47;

/// CPU time and bytes allocated to parse it
fn cost(text: &str) -> (f64, u64) {
    let (t, a) = (thread_ms(), crate::alloc::so_far());
    {
        let sources = BeancountSources::from(text);
        let parser = BeancountParser::new(&sources);
        let _ = parser.parse();
    }
    (thread_ms() - t, crate::alloc::so_far() - a)
}

/// sixteen times as much text takes about sixteen times as long and as much memory, not 256 times
fn scaled(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = if s.chance(1, 4) { 0 } else { s.range(1, KINDS - 1) };
    let mut unit = String::new();
    if kind == 0 {
        let decls = gen_decls(s, 4);
        unit = if s.chance(1, 4) { any_text(s).0 } else { render_file(s, &decls, 0, PLAIN, &Names::default()).0 };
        // strings of many lines of multi-byte text take the lexer to the bottom of the stack unless optimised
        unit.retain(|c| c.is_ascii());
        if !unit.ends_with('\n') {
            unit.push('\n');
        }
        if risky(&unit) || unit.contains("include") || unit.matches('"').count() % 2 == 1 || unit.len() > 4000 {
            return Ok(());
        }
    }
    ctx.nontrivial = true;
    ctx.class("scaled up");
    ctx.input(format!("scaled up: {}", if kind == 0 { unit.clone() } else { lengthy(kind, &unit, 300) }));
    let (small, large) = (lengthy(kind, &unit, 1 << 16), lengthy(kind, &unit, 1 << 20));
    let factor = large.len() as f64 / small.len().max(1) as f64;
    let (mut t1, a1) = cost(&small);
    let (mut t2, a2) = cost(&large);
    if a2 as f64 > 2.0 * factor * a1 as f64 + 4e6 {
        return Err(format!("{} bytes of text take {a1} bytes of memory, {} take {a2}", small.len(), large.len()));
    }
    for _ in 0..4 {
        if t2 < 300.0 || t2 < 3.0 * factor * t1 {
            return Ok(());
        }
        t1 = t1.max(cost(&small).0);
        t2 = t2.min(cost(&large).0);
    }
    Err(format!("{} bytes of text take {t1} ms, {} take {t2} ms", small.len(), large.len()))
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let (text, class) = match s.weighted(&[2000, 5, 1]) {
        2 => return scaled(s, ctx),
        0 => any_text(s),
        _ => (stretch(s), "stretched"),
    };
    if risky(&text) {
        ctx.class("skipped: an include out of bounds");
        return Ok(());
    }
    ctx.class(class);
    ctx.input(text.clone());
    // from a file once in a while; includes are relative to it, and otherwise to an empty directory
    let from_file = s.chance(1, 100);
    let (sources, len) = if from_file {
        let p = ctx.scratch().join("main.bean");
        let mut bytes = text.clone().into_bytes();
        if s.chance(1, 4) && !bytes.is_empty() {
            let i = s.below(bytes.len());
            bytes[i] ^= 0x80 | s.draw(128) as u8;
        }
        std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
        match BeancountSources::try_from(p) {
            Ok(x) if std::str::from_utf8(&bytes).is_ok() => (x, bytes.len()),
            Ok(_) => return Err("a file which is not UTF-8 was read".into()),
            Err(_) if std::str::from_utf8(&bytes).is_err() => return Ok(()),
            Err(e) => return Err(format!("a file could not be read: {e}")),
        }
    } else {
        (BeancountSources::from(text.as_str()), text.len())
    };
    let parser = BeancountParser::new(&sources);
    let ok = consume(&sources, len, parser.parse())?;
    ctx.class(if ok { "accepted" } else { "rejected" });
    ctx.nontrivial = text.len() >= 10 || text.contains('\n');
    Ok(())
}

/// inputs which break it, but are out of the bounds of the statement
fn known(key: &str) -> Option<R> {
    let text = match key {
        "deep-nesting" => format!("2020-01-01 price X {}1{} USD\n", "(".repeat(200_000), ")".repeat(200_000)),
        "long-sum" => format!("2020-01-01 price X 1{} USD\n", "+1".repeat(1_000_000)),
        _ => return None,
    };
    let sources = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&sources);
    Some(consume(&sources, text.len(), parser.parse()).map(|_| ()))
}
