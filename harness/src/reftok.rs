//! A second, independent tokeniser for ASCII ledgers: the longest token at each place.
use crate::model::*;
use crate::refparse::*;

pub const NOTHING: T = T::Junk("\u{7f}");

fn run_of(b: &[u8], mut i: usize, f: impl Fn(u8) -> bool) -> usize {
    while i < b.len() && f(b[i]) {
        i += 1;
    }
    i
}
fn digits(b: &[u8], i: usize, n: usize) -> bool {
    i + n <= b.len() && b[i..i + n].iter().all(u8::is_ascii_digit)
}
fn cur_char(c: u8) -> bool {
    c.is_ascii_uppercase() || c.is_ascii_digit() || b"'._-".contains(&c)
}
fn currency(b: &[u8], i: usize) -> Option<usize> {
    if b[i].is_ascii_uppercase() {
        return Some(run_of(b, i, cur_char));
    }
    if b[i] == b'/' {
        let j = run_of(b, i + 1, |c| c.is_ascii_digit() || b"'._-".contains(&c));
        if j < b.len() && b[j].is_ascii_uppercase() {
            return Some(run_of(b, j, cur_char));
        }
    }
    None
}
fn number(b: &[u8], i: usize) -> Option<usize> {
    let mut j = run_of(b, i, |c| c.is_ascii_digit());
    if j == i {
        return None;
    }
    while j < b.len() && b[j] == b',' && digits(b, j + 1, 3) {
        j += 4;
    }
    if j < b.len() && b[j] == b'.' && digits(b, j + 1, 1) {
        j = run_of(b, j + 1, |c| c.is_ascii_digit());
    }
    Some(j)
}
fn date(b: &[u8], i: usize) -> Option<usize> {
    let sep = |k: usize| k < b.len() && (b[k] == b'-' || b[k] == b'/');
    (digits(b, i, 4) && sep(i + 4) && digits(b, i + 5, 2) && sep(i + 7) && digits(b, i + 8, 2)).then_some(i + 10)
}
fn time(b: &[u8], i: usize) -> Option<usize> {
    let colon = |k: usize| k < b.len() && b[k] == b':';
    for n in [2, 1] {
        if digits(b, i, n) && colon(i + n) && digits(b, i + n + 1, 2) {
            let j = i + n + 3;
            return Some(if colon(j) && digits(b, j + 1, 2) { j + 3 } else { j });
        }
    }
    None
}
fn account(b: &[u8], i: usize) -> Option<usize> {
    let name = |c: u8| c.is_ascii_alphanumeric() || c == b'-';
    if !b[i].is_ascii_uppercase() {
        return None;
    }
    let mut j = run_of(b, i, name);
    let mut any = None;
    while j + 1 < b.len() && b[j] == b':' && (b[j + 1].is_ascii_uppercase() || b[j + 1].is_ascii_digit()) {
        j = run_of(b, j + 1, name);
        any = Some(j);
    }
    any
}
fn string(b: &[u8], i: usize) -> Option<usize> {
    let mut j = i + 1;
    while j < b.len() {
        match b[j] {
            b'"' => return Some(j + 1),
            b'\\' if j + 1 < b.len() && b[j + 1] != b'\n' => j += 2,
            b'\\' => return None,
            _ => j += 1,
        }
    }
    None
}
fn ident(b: &[u8], i: usize) -> Option<usize> {
    let j = run_of(b, i, |c| c.is_ascii_alphanumeric() || b"-_/.".contains(&c));
    (j > i).then_some(j)
}
fn valid_date(t: &str) -> Option<D> {
    let n = |r: std::ops::Range<usize>| t[r].parse::<i32>().unwrap();
    let (y, m, d) = (n(0..4), n(5..7), n(8..10));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = match m {
        2 => 28 + leap as i32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    ((1..=12).contains(&m) && (1..=last).contains(&d)).then_some(D(y, m as u8, d as u8))
}

/// the longest token which starts here; nothing if it can't be told
fn token(text: &str, i: usize) -> Option<(T, usize)> {
    let b = text.as_bytes();
    let mut best: (T, usize) = (NOTHING, i);
    let mut add = |t: T, j: usize| {
        if j > best.1 {
            best = (t, j)
        }
    };
    let c = b[i];
    if c == b'"' {
        return match string(b, i) {
            Some(j) if text[i..j].contains('\\') => None,
            Some(j) => Some((T::Str(text[i + 1..j - 1].to_string()), j)),
            None => Some((NOTHING, i + 1)),
        };
    }
    for p in ["|", "{{", "}}"] {
        if text[i..].starts_with(p) {
            add(NOTHING, i + p.len());
        }
    }
    for p in ["@@", "@", "{", "}", ",", "~", "+", "-", "/", "(", ")", "#", "*", ":"] {
        if text[i..].starts_with(p) {
            add(T::P(p), i + p.len());
        }
    }
    if b"!&?%".contains(&c) {
        add(T::Flag((c as char).to_string()), i + 1);
    }
    if c == b'\'' && i + 1 < b.len() && b[i + 1].is_ascii_uppercase() {
        add(T::Flag(text[i..i + 2].to_string()), i + 2);
    }
    if c.is_ascii_lowercase() {
        let j = run_of(b, i, |c| c.is_ascii_alphanumeric() || b"-_".contains(&c));
        if j > i + 1 {
            add(T::Word(text[i..j].to_string()), j);
        }
    }
    if let Some(j) = currency(b, i) {
        let w = &text[i..j];
        let last = b[j - 1];
        add(
            match w {
                "TRUE" => T::Bool(true),
                "FALSE" => T::Bool(false),
                "NULL" => T::Null,
                _ if last.is_ascii_uppercase() || last.is_ascii_digit() => T::Cur(w.to_string()),
                _ => NOTHING,
            },
            j,
        );
    }
    if let Some(j) = account(b, i) {
        let (ty, sub) = text[i..j].split_once(':').unwrap();
        add(TYPES.iter().position(|t| *t == ty).map_or(NOTHING, |ty| T::Acc(Acc { ty, sub: sub.to_string() })), j);
    }
    if let Some(j) = number(b, i) {
        if j - i > 22 {
            return None;
        }
        add(T::Num(text[i..j].to_string()), j);
    }
    if let Some(j) = date(b, i) {
        add(valid_date(&text[i..j]).map_or(NOTHING, T::Date), j);
    }
    if let Some(j) = time(b, i) {
        add(NOTHING, j);
    }
    if c == b'#' || c == b'^' {
        if let Some(j) = ident(b, i + 1) {
            let n = text[i + 1..j].to_string();
            add(if c == b'#' { T::Tag(n) } else { T::Link(n) }, j);
        }
    }
    if best.1 == i {
        best.1 += 1;
    }
    Some(best)
}

/// nothing if it can't be told what the tokens are
pub fn tokens(text: &str) -> Option<Vec<Line>> {
    let b = text.as_bytes();
    let mut out: Vec<Line> = Vec::new();
    let mut i = 0;
    let mut any = false;
    while i < b.len() {
        if b"*!&#?%:".contains(&b[i]) {
            i = text[i..].find('\n').map_or(b.len(), |n| i + n + 1);
            out.push(Line { indent: false, toks: vec![], next: i });
            continue;
        }
        let st = i;
        i = run_of(b, i, |c| c == b' ' || c == b'\t');
        let mut l = Line { indent: i > st && any, toks: vec![], next: 0 };
        while i < b.len() {
            match b[i] {
                b'\n' => {
                    i += 1;
                    break;
                }
                b'\r' if b.get(i + 1) == Some(&b'\n') => i += 1,
                b'\r' => return None,
                b' ' | b'\t' => i += 1,
                b';' => {
                    let j = text[i..].find('\n').map_or(b.len(), |n| i + n);
                    if j == b.len() && text[i..].contains('\r') {
                        return None;
                    }
                    i = j;
                }
                c if !c.is_ascii() => return None,
                _ => {
                    let (t, j) = token(text, i)?;
                    l.toks.push((t, i, j));
                    i = j;
                }
            }
        }
        let colon = matches!(l.toks.first(), Some((T::P(":"), ..)));
        // how far what is nothing reaches would matter
        if colon && l.toks.iter().any(|t| t.0 == NOTHING) {
            return None;
        }
        if colon {
            l.toks.clear();
        }
        any |= !l.toks.is_empty();
        l.next = i;
        out.push(l);
    }
    Some(out)
}
