//! Exactly the ledgers of the grammar are accepted: checked against a second parser.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::refparse::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "a sequence of tokens counts as non-trivial when it was edited, so that it may or may not be a ledger, or is judged character by character; distinct by its text",
    quick: 1_500_000,
    thorough: 30_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

fn key(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return gen_key(s);
    }
    s.pick(&["foo", "bar", "note", "open", "a1"]).to_string()
}
fn ident(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return gen_ident(s);
    }
    s.pick(&["x", "y", "z-1"]).to_string()
}
fn cur(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return gen_cur(s);
    }
    s.pick(&["USD", "EUR", "X"]).to_string()
}
fn number(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return gen_number(s);
    }
    s.pick(&["1", "2", "0", "10.5", "3.25", "1,000"]).to_string()
}
fn string(s: &mut Src) -> String {
    s.pick(&["a", "b c", "", "FIFO", "title", "STRICT", "a", "b c", "é ; # *", "\u{b}\t"]).to_string()
}
fn acc(s: &mut Src) -> Acc {
    if s.chance(1, 30) {
        return gen_acc(s);
    }
    Acc { ty: s.below(5), sub: s.pick(&["A", "B:C"]).to_string() }
}
fn date(s: &mut Src) -> D {
    if s.chance(1, 40) {
        // any, or one which does not exist
        let D(y, m, d) = gen_date(s);
        return match s.weighted(&[3, 1, 1, 1, 1]) {
            0 => D(y, m, d),
            1 => D(y, 2, 28 + s.draw(3) as u8),
            2 => D(y, m, 29 + s.draw(4) as u8),
            3 => D(y, *s.pick(&[0, 13, 99]), d),
            _ => D(y, m, *s.pick(&[0, 32, 99])),
        };
    }
    D(2020, 1 + s.draw(2) as u8, 1 + s.draw(3) as u8)
}

const PUNCT: [&str; 15] = ["*", "#", ":", ",", "~", "+", "-", "/", "(", ")", "{", "}", "@", "@@", "*"];

fn any_token(s: &mut Src) -> T {
    match s.weighted(&[2, 5, 3, 2, 6, 2, 2, 2, 3, 2, 1, 1, 1, 3]) {
        0 => T::Date(date(s)),
        1 => T::Word(s.pick(&KEYWORDS).to_string()),
        2 => T::Word(if s.chance(1, 3) { s.pick(&WORDS).to_string() } else { key(s) }),
        3 => T::Flag(s.pick(&["!", "&", "?", "%", "'A"]).to_string()),
        4 => T::P(s.pick(&PUNCT)),
        5 => T::Str(string(s)),
        6 => T::Acc(acc(s)),
        7 => T::Cur(cur(s)),
        8 => T::Num(number(s)),
        9 => T::Tag(ident(s)),
        10 => T::Link(ident(s)),
        11 => T::Bool(s.chance(1, 2)),
        12 => T::Null,
        _ => T::Junk(s.pick(&JUNK)),
    }
}

/// what looks much like something, but is nothing
const JUNK: [&str; 58] = [
    "|", "12:30", "2020-13-01", "2021-02-29", "Foo:Bar", "assets:a", "^", "é", "\u{7f}", "A:", "$",
    "2020-00-10", "2020-01-00", "2020-01-32", "2021-04-31", "1900-02-29", "2020/02/30", "23:59:59",
    "Assets", "Assets:", "Assets:a", "Assets::A", "Assets:A:", "Assets:-A", "Assets:A::B", "Assets:A:b", "ASSETS:A", "Asset:A", "Assetss:A", "Einkommen:A", "Assets.A",
    "USD-", "USD.", "USD_", "USD'", "X-", "USD/", "Usd", "U$D",
    "1.", ".5", "1_000", "1e5", "0x1F", "1.5.5", "1'000", "5%",
    "True", "False", "Null", "Open", "Txn",
    "{{", "}}", "\"a\\q\"", "'a", "'1", "a",
];

const WORDS: [&str; 14] = ["opens", "opened", "op", "tx", "txns", "transaction", "balances", "pushtags", "pop", "notes", "options", "plugins", "includes", "true"];

/// a string much like the name of a booking method
fn booking(s: &mut Src) -> String {
    let b = s.pick(&BOOKINGS).0.to_string();
    match s.weighted(&[12, 1, 1, 1, 1, 1, 1]) {
        0 => b,
        1 => b.to_lowercase(),
        2 => format!("{}{}", &b[..1], b[1..].to_lowercase()),
        3 => format!("{b} "),
        4 => format!(" {b}"),
        5 => b.replace('_', "-") + if b.contains('_') { "" } else { "S" },
        _ => b[..b.len() - 1].to_string(),
    }
}

/// number expressions as tokens
fn expr(s: &mut Src, depth: usize, out: &mut Vec<T>) {
    let mut n = 0;
    loop {
        if s.chance(1, 5) {
            out.push(T::P(s.pick(&["-", "+"])));
        }
        if depth > 0 && s.chance(1, 4) {
            out.push(T::P("("));
            expr(s, depth - 1, out);
            out.push(T::P(")"));
        } else {
            out.push(T::Num(number(s)));
        }
        n += 1;
        if n > 3 || !s.chance(1, 4) {
            return;
        }
        out.push(T::P(s.pick(&["+", "-", "*", "/"])));
    }
}

fn value(s: &mut Src, out: &mut Vec<T>) {
    match s.below(9) {
        0 => out.push(T::Str(string(s))),
        1 => out.push(T::Cur(cur(s))),
        2 => out.push(T::Acc(acc(s))),
        3 => out.push(T::Tag(ident(s))),
        4 => out.push(T::Link(ident(s))),
        5 => out.push(T::Date(date(s))),
        6 => out.push(T::Bool(true)),
        7 => out.push(T::Null),
        _ => {
            expr(s, 1, out);
            if s.chance(1, 2) {
                out.push(T::Cur(cur(s)));
            }
        }
    }
}

fn cost(s: &mut Src, out: &mut Vec<T>) {
    out.push(T::P("{"));
    let mut n = 0;
    while n < 4 && s.chance(2, 3) {
        if n > 0 {
            out.push(T::P(","));
        }
        n += 1;
        match s.weighted(&[4, 1, 1, 1]) {
            0 => {
                if s.chance(2, 3) {
                    expr(s, 1, out);
                }
                if s.chance(1, 3) {
                    out.push(T::P("#"));
                    if s.chance(2, 3) {
                        expr(s, 1, out);
                    }
                }
                if s.chance(2, 3) {
                    out.push(T::Cur(cur(s)));
                }
            }
            1 => out.push(T::Date(date(s))),
            2 => out.push(T::Str(string(s))),
            _ => out.push(T::P("*")),
        }
    }
    out.push(T::P("}"));
}

fn word(w: &str) -> T {
    T::Word(w.to_string())
}

pub fn decl(s: &mut Src, lines: &mut Vec<(bool, Vec<T>)>) {
    let mut t = Vec::new();
    let pragma = s.chance(1, 4);
    if pragma {
        match s.below(6) {
            0 => t.extend([word("pushtag"), T::Tag(ident(s))]),
            1 => t.extend([word("poptag"), T::Tag(ident(s))]),
            2 => {
                t.extend([word("pushmeta"), T::Word(key(s)), T::P(":")]);
                value(s, &mut t);
            }
            3 => t.extend([word("popmeta"), T::Word(key(s)), T::P(":")]),
            4 => t.extend([word("option"), T::Str("title".into()), T::Str(string(s))]),
            _ => {
                t.extend([word("plugin"), T::Str(string(s))]);
                if s.chance(1, 2) {
                    t.push(T::Str(string(s)));
                }
            }
        }
        lines.push((false, t));
        // mostly balanced
        let (_, t) = lines.last().unwrap();
        let closing = match &t[..] {
            [T::Word(w), x @ T::Tag(_)] if w == "pushtag" => Some(vec![word("poptag"), x.clone()]),
            [T::Word(w), k, c, ..] if w == "pushmeta" => Some(vec![word("popmeta"), k.clone(), c.clone()]),
            _ => None,
        };
        if let Some(c) = closing {
            if s.chance(1, 2) {
                decl(s, lines);
            }
            lines.push((false, c));
        }
        return;
    }
    t.push(T::Date(date(s)));
    let k = s.weighted(&[8, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2]);
    let hdr = k != 11;
    match k {
        0 => {
            t.push(match s.weighted(&[3, 1, 1, 1]) {
                0 => T::P("*"),
                1 => word("txn"),
                2 => T::P("#"),
                _ => T::Flag(s.pick(&["!", "&", "?", "%", "'B"]).to_string()),
            });
            for _ in 0..s.below(3) {
                t.push(T::Str(string(s)));
            }
        }
        1 => {
            t.extend([word("price"), T::Cur(cur(s))]);
            expr(s, 1, &mut t);
            t.push(T::Cur(cur(s)));
        }
        2 => {
            t.extend([word("balance"), T::Acc(acc(s))]);
            expr(s, 1, &mut t);
            if s.chance(1, 3) {
                t.extend([T::P("~"), T::Num(number(s))]);
            }
            t.push(T::Cur(cur(s)));
        }
        3 => {
            t.extend([word("open"), T::Acc(acc(s))]);
            let n = s.below(3);
            for i in 0..n {
                if i > 0 {
                    t.push(T::P(","));
                }
                t.push(T::Cur(cur(s)));
            }
            if s.chance(1, 3) {
                t.push(T::Str(if s.chance(1, 12) { "a".into() } else { booking(s) }));
            }
        }
        4 => t.extend([word("close"), T::Acc(acc(s))]),
        5 => t.extend([word("commodity"), T::Cur(cur(s))]),
        6 => t.extend([word("pad"), T::Acc(acc(s)), T::Acc(acc(s))]),
        7 => t.extend([word("document"), T::Acc(acc(s)), T::Str(string(s))]),
        8 => t.extend([word("note"), T::Acc(acc(s)), T::Str(string(s))]),
        9 => t.extend([word("event"), T::Str(string(s)), T::Str(string(s))]),
        10 => t.extend([word("query"), T::Str(string(s)), T::Str(string(s))]),
        _ => {
            t.extend([word("custom"), T::Str(string(s))]);
            for _ in 0..s.below(4) {
                value(s, &mut t);
            }
        }
    }
    while hdr && s.chance(1, 5) {
        t.push(if s.chance(1, 2) { T::Tag(ident(s)) } else { T::Link(ident(s)) });
    }
    lines.push((false, t));
    let meta = |s: &mut Src, lines: &mut Vec<(bool, Vec<T>)>| {
        while s.chance(1, 4) {
            let mut t = Vec::new();
            match s.weighted(&[3, 1, 1]) {
                0 => {
                    t.extend([T::Word(key(s)), T::P(":")]);
                    if s.chance(5, 6) {
                        value(s, &mut t);
                    }
                }
                1 => t.push(T::Tag(ident(s))),
                _ => t.push(T::Link(ident(s))),
            }
            lines.push((true, t));
        }
    };
    meta(s, lines);
    if k == 0 {
        for _ in 0..s.below(4) {
            let mut t = Vec::new();
            if s.chance(1, 6) {
                t.push(match s.below(3) {
                    0 => T::P("*"),
                    1 => T::P("#"),
                    _ => T::Flag("!".into()),
                });
            }
            t.push(T::Acc(acc(s)));
            if s.chance(3, 4) {
                expr(s, 1, &mut t);
            }
            if s.chance(3, 4) {
                t.push(T::Cur(cur(s)));
            }
            if s.chance(1, 3) {
                cost(s, &mut t);
            }
            if s.chance(1, 3) {
                t.push(T::P(s.pick(&["@", "@@"])));
                if s.chance(3, 4) {
                    expr(s, 1, &mut t);
                }
                if s.chance(3, 4) {
                    t.push(T::Cur(cur(s)));
                }
            }
            lines.push((true, t));
            meta(s, lines);
        }
    }
}

pub fn edit(s: &mut Src, lines: &mut Vec<(bool, Vec<T>)>) {
    if lines.is_empty() {
        return;
    }
    let l = s.below(lines.len());
    let n = lines[l].1.len();
    match s.weighted(&[4, 4, 4, 2, 1, 1, 1, 1, 1]) {
        0 if n > 0 => {
            let i = s.below(n);
            lines[l].1.remove(i);
        }
        1 => {
            let i = s.below(n + 1);
            let t = any_token(s);
            lines[l].1.insert(i, t);
        }
        2 if n > 0 => {
            let i = s.below(n);
            lines[l].1[i] = any_token(s);
        }
        3 if n > 1 => {
            let i = s.below(n - 1);
            lines[l].1.swap(i, i + 1);
        }
        4 => lines[l].0 = !lines[l].0,
        5 => {
            let i = s.below(n + 1);
            let rest = lines[l].1.split_off(i);
            let ind = s.chance(1, 2);
            lines.insert(l + 1, (ind, rest));
        }
        // braces of a cost doubled
        8 if lines[l].1.contains(&T::P("{")) => {
            for t in &mut lines[l].1 {
                match t {
                    T::P("{") => *t = T::Junk("{{"),
                    T::P("}") => *t = T::Junk("}}"),
                    _ => {}
                }
            }
        }
        6 if l + 1 < lines.len() => {
            let (_, mut t) = lines.remove(l + 1);
            lines[l].1.append(&mut t);
        }
        _ => {
            let x = lines[l].clone();
            lines.insert(l, x);
        }
    }
}

/// what the declarations mean, or why they are to be rejected; nothing if it can't be told
pub fn meaning(rds: Option<Vec<Rd>>) -> Option<(Option<Meaning>, &'static str)> {
    let mut why = "malformed";
    let meaning = match rds {
        None => None,
        Some(rds) => {
            let mut ok = true;
            let mut unsure = false;
            let check = |n: &Node, ok: &mut bool, unsure: &mut bool| {
                n.walk(&mut |m| {
                    if m.label == "metadata" || m.label == "currencies" {
                        let mut by: BTreeMap<&str, u32> = BTreeMap::new();
                        for k in &m.kids {
                            *by.entry(&k.label).or_default() += 1;
                        }
                        if by.values().any(|n| *n > 1) {
                            *ok = false;
                        }
                    }
                    if m.label == "value=fails" {
                        *ok = false;
                    }
                    if m.label == "value=unknown" {
                        *unsure = true;
                    }
                })
            };
            let mut titles = 0;
            for r in &rds {
                match r {
                    Rd::Dir(n) | Rd::PushMeta(_, _, n) => check(n, &mut ok, &mut unsure),
                    Rd::Option(n, ..) => {
                        titles += 1;
                        if n != "title" || titles > 1 {
                            ok = false;
                        }
                    }
                    Rd::Include(..) => ok = false,
                    _ => {}
                }
            }
            if unsure {
                return None;
            }
            let mut includes = Includes::new();
            for r in &rds {
                if let Rd::Include(p, _) = r {
                    includes.insert((0, p.clone()), None);
                }
            }
            let m = interpret(&[rds], &includes);
            if !m.errors.is_empty() {
                ok = false;
            }
            if !ok {
                why = "well-formed but to be rejected";
            }
            ok.then_some(m)
        }
    };
    Some((meaning, why))
}

/// the text of lines of tokens
pub fn write(lines: &[(bool, Vec<T>)], text: &mut String) -> Vec<Line> {
    let mut out: Vec<Line> = Vec::new();
    for (indent, toks) in lines {
        if *indent {
            text.push_str("  ");
        }
        let mut line = Line { indent: *indent, toks: Vec::new(), next: 0 };
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                text.push(' ');
            }
            let st = text.len();
            text.push_str(&t.text());
            line.toks.push((t.clone(), st, text.len()));
        }
        text.push('\n');
        line.next = text.len();
        out.push(line);
    }
    out
}

/// is the line one to be ignored?
pub fn ignored(l: &(bool, Vec<T>)) -> bool {
    !l.0 && l.1[0].text().starts_with(['*', '!', '&', '#', '?', '%', ':'])
}

const CHARS: &str = "  \t\n\n;\"\\:::,,..--++//**##@@{}()~|^'!&?%_012359ATFZUSDNLaeoptx=$";

/// a text of the same tokens, more or less
fn squeeze(s: &mut Src, lines: &[(bool, Vec<T>)]) -> String {
    let mut text = String::new();
    let tight = *s.pick(&[0, 0, 1, 2, 4]);
    let blank = |s: &mut Src| if s.chance(tight, 8) { "" } else { *s.pick(&[" ", " ", "\t", "  "]) };
    for (indent, toks) in lines {
        if *indent {
            text.push_str(s.pick(&["  ", "\t", " ", "    "]));
        }
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let b = blank(s);
                text.push_str(b);
            }
            text.push_str(&t.text());
        }
        let b = blank(s);
        text.push_str(b);
        if s.chance(1, 10) {
            text.push_str(s.pick(&[";", "; x", ";\"", "\n;y", "\n ;", "\n:z", "\n * z", "\n  : \"a\""]));
        }
        text.push_str(if s.chance(1, 12) { "\r\n" } else { "\n" });
    }
    text
}

fn typo(s: &mut Src, text: &mut String) {
    let chars: Vec<char> = CHARS.chars().collect();
    let places: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    let at = *s.pick(&places);
    let c = text[at..].chars().next();
    match (s.weighted(&[3, 3, 3, 1, 1]), c) {
        (0, Some(c)) => text.replace_range(at..at + c.len_utf8(), ""),
        (1, Some(c)) => text.replace_range(at..at + c.len_utf8(), &s.pick(&chars).to_string()),
        (3, Some(c)) => text.insert(at, c),
        (4, Some(c)) => {
            text.remove(at);
            let before = text[..at].char_indices().last().map_or(0, |x| x.0);
            text.insert(before, c);
        }
        _ => text.insert(at, *s.pick(&chars)),
    }
}

/// texts read character by character
fn characters(s: &mut Src, ctx: &mut Ctx, lines: &[(bool, Vec<T>)]) -> R {
    let mut text = if s.chance(1, 5) { super::soup::any_text(s).0 } else { squeeze(s, lines) };
    let mut n = 0;
    while n < 4 && s.chance(2, 5) {
        typo(s, &mut text);
        n += 1;
    }
    ctx.input(text.clone());
    let Some(out) = crate::reftok::tokens(&text) else {
        ctx.class("characters: can't tell");
        return Ok(());
    };
    let rds = match parse_lines(&out, false) {
        Verdict::Unknown => return Ok(()),
        Verdict::Malformed => None,
        Verdict::Decls(d) => Some(d),
    };
    // what other options and included files make of it is not judged here
    if text.contains("include") || rds.iter().flatten().any(|r| matches!(r, Rd::Option(n, ..) if n != "title")) {
        ctx.class("characters: can't tell");
        return Ok(());
    }
    let Some((meaning, why)) = meaning(rds) else {
        ctx.class("characters: can't tell");
        return Ok(());
    };
    ctx.nontrivial = true;
    judge(ctx, &text, meaning, why, "characters: accepted", &format!("characters: {why}"))
}

fn judge(ctx: &mut Ctx, text: &str, meaning: Option<Meaning>, why: &str, yes: &str, no: &str) -> R {
    parse_text(text, |_, r| match (meaning, r) {
        (Some(m), Ok(r)) => {
            ctx.class(yes);
            tree::diff_all(&in_order(m.dirs), &actual::directives(&r.directives), true)?;
            tree::diff_all(&m.plugins, &plugins(&r.plugins), true)
        }
        (None, Err(_)) => {
            ctx.class(no);
            Ok(())
        }
        (Some(_), Err(e)) => Err(format!("a well-formed ledger was rejected: {}", show_errors(&e.errors))),
        (None, Ok(_)) => Err(format!("a ledger was accepted which is {why}")),
    })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let characters_too = s.chance(2, 5);
    let mut lines: Vec<(bool, Vec<T>)> = Vec::new();
    for _ in 0..s.range(1, 3) {
        decl(s, &mut lines);
    }
    let mut edits = 0;
    while edits < 4 && s.chance(1, 2) {
        edit(s, &mut lines);
        edits += 1;
    }
    lines.retain(|l| !l.1.is_empty());
    // an indented first line is not recognised as such, also where only ignored lines precede it
    for l in lines.iter_mut() {
        l.0 = false;
        if !ignored(l) {
            break;
        }
    }
    if characters_too {
        return characters(s, ctx, &lines);
    }
    let mut text = String::new();
    let out = write(&lines, &mut text);
    ctx.input(text.clone());
    ctx.nontrivial = edits > 0;
    let rds = match parse(&out) {
        Verdict::Unknown => return Ok(()),
        Verdict::Malformed => None,
        Verdict::Decls(d) => Some(d),
    };
    let Some((meaning, why)) = meaning(rds) else {
        ctx.class("can't tell");
        return Ok(());
    };
    judge(ctx, &text, meaning, why, if edits > 0 { "edited and accepted" } else { "accepted" }, why)
}
