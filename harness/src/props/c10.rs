//! String literals: escapes, and warnings on long ones.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};
use beancount_parser_lima::*;

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "a ledger counts as non-trivial when a literal has an escape, a line break or a quote in it, or a warning or rejection is expected; distinct by its text",
    quick: 1_500_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn string(s: &mut Src) -> String {
    if s.chance(1, 4000) {
        // a very long one
        let c = *s.pick(&["x", "y ", "é", "\\", "a\"b"]);
        let n = *s.pick(&[300usize, 5000, 70_000]);
        return format!("{}end", c.repeat(n / c.len()));
    }
    match s.weighted(&[6, 3, 1]) {
        0 => {
            let n = s.range(0, 12);
            (0..n)
                .map(|_| match s.weighted(&[8, 2, 2, 2, 2, 2, 1]) {
                    0 => (b'a' + s.draw(26) as u8) as char,
                    1 => '"',
                    2 => '\\',
                    3 => '\n',
                    4 => *s.pick(&['\t', '\r', '\'', ' ', ';', '#', 'n', 'x', 'u', '{', '0']),
                    5 => *s.pick(&['é', '中', '😱', '\u{a0}', '\u{2028}', '\u{feff}', '\u{301}']),
                    _ => *s.pick(&['\u{0}', '\u{1b}', '\u{7f}', '\u{8}']),
                })
                .collect()
        }
        1 => {
            // around the limits in use
            let n = s.range(0, 5);
            "x\n".repeat(n)
        }
        _ => {
            let n = *s.pick(&[62usize, 63, 64, 65]);
            let sep = *s.pick(&["\n", "é\n", "\r\n"]);
            format!("{}end", sep.repeat(n))
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: 0, meta: 3, string, kinds: [3, 0, 0, 1, 0, 0, 0, 1, 2, 2, 2, 2], ..Gen::default() };
    let style = Style { messy: s.chance(1, 2), ignored: false, escapes: s.chance(2, 3), rich: s.chance(1, 2), far: 0 };
    let mut out = Out::new(0, style);
    out.prologue(s);
    let mut nodes = Vec::new();
    let mut plugins = Vec::new();
    // spans of the warnings, with the option responsible
    let mut want: Vec<(Sp, Option<Sp>)> = Vec::new();
    let (mut limit, mut by): (usize, Option<Sp>) = (64, None);
    let mut n = 0;
    let mut bad = None;
    while n < 6 && (n == 0 || s.chance(2, 3)) {
        n += 1;
        let first = out.strings.len();
        let mut new_limit = None;
        match s.weighted(&[6, 2, 2]) {
            0 => {
                let d = g.dir(s);
                nodes.push(out.dir(s, &d).item);
            }
            1 => {
                let l = *s.pick(&[0usize, 1, 2, 3, 4, 63, 64, 65, 100]);
                let rd = out.pragma(s, &Prag::Option("long_string_maxlines".into(), l.to_string()));
                let Rd::Option(_, _, _, sp) = rd else { unreachable!() };
                new_limit = Some((l, sp));
            }
            _ => {
                let (m, c) = (string(s), s.chance(1, 2).then(|| string(s)));
                let Rd::Plugin(m, c) = out.pragma(s, &Prag::Plugin(m, c)) else { unreachable!() };
                plugins.push(Node::node("plugin", Sp::Any, std::iter::once(m).chain(c).collect()));
            }
        }
        for (sp, v) in &out.strings[first..] {
            if v.matches('\n').count() + 1 > limit {
                want.push((sp.clone(), by.clone()));
            }
        }
        if let Some((l, sp)) = new_limit {
            limit = l;
            by = Some(sp);
        }
    }
    if s.chance(1, 10) {
        // a literal that means nothing
        let p = out.pos();
        out.tok(s.pick(&[
            "2020-01-01 note Assets:A ",
            "2020-01-01 * ",
            "2020-01-01 * \"payee\" ",
            "2020-01-01 event \"x\" ",
            "2020-01-01 query ",
            "2020-01-01 custom \"x\" ",
            "2020-01-01 document Assets:A ",
            "2020-01-01 open Assets:A USD ",
            "2020-01-01 close Assets:A\n  foo: ",
            "2020-01-01 *\n  Assets:A 1 USD {",
            "plugin ",
            "plugin \"p\" ",
            "option \"title\" ",
            "pushmeta foo: ",
        ]));
        let at = out.pos();
        let lit = s.pick(&["\"\\q\"", "\"a\\x\"", "\"\\xg0\"", "\"\\u{110000}\"", "\"\\u{d800}\"", "\"\\u\"", "\"\\ \"", "\"é\\8\"", "\"ok\\\\\\z\""]);
        out.tok(lit);
        bad = Some((p, at, out.pos()));
        out.eol(s);
    }
    let text = std::mem::take(&mut out.text);
    ctx.input(text.clone());
    ctx.nontrivial = out.strings.iter().any(|(sp, v)| matches!(sp, Sp::At(_, a, b) if b - a != v.len() + 2) || v.contains('\n')) || bad.is_some();
    let check_warnings = |ws: &[Warning]| -> R {
        // what is said about the other literals of a declaration with a meaningless one doesn't matter
        let mut got: Vec<_> = ws.iter().filter(|w| !bad.is_some_and(|(a, ..)| w.span().start >= a)).map(|w| (at(&w.span()), w.related().map(|(_, s)| at(&s)).next())).collect();
        let key = |x: &(Sp, Option<Sp>)| format!("{:?}", x);
        got.sort_by_key(key);
        let mut want = want.clone();
        want.sort_by_key(key);
        if got != want {
            return Err(format!("expected warnings at {want:?}, got {}", show_errors(ws)));
        }
        Ok(())
    };
    parse_text(&text, |_, r| match (bad, r) {
        (None, r) => {
            let r = accepted(r)?;
            ctx.class(if want.is_empty() { "no warning" } else { "long strings" });
            tree::diff_all(&in_order(nodes), &actual::directives(&r.directives), true)?;
            tree::diff_all(&plugins, &super::common::plugins(&r.plugins), true)?;
            check_warnings(&r.warnings)
        }
        (Some(_), Ok(_)) => Err("a string literal with a meaningless escape was accepted".into()),
        (Some((a, at, b)), Err(e)) => {
            ctx.class("meaningless escape");
            if e.errors.iter().any(|e| e.span().start < a || e.span().end > b) {
                return Err(format!("expected errors only within {a}..{b}, got {}", show_errors(&e.errors)));
            }
            if !e.errors.iter().any(|e| e.span().start >= at) {
                return Err(format!("expected an error at the literal {at}..{b}, got {}", show_errors(&e.errors)));
            }
            check_warnings(&e.warnings)
        }
    })
}
