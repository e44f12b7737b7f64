//! What a rendered report must look like: rendered by the same library from the model's own places.
use crate::src::Src;
use beancount_parser_lima::*;
use std::fmt;

/// a source as the model knows it
#[derive(Clone, Debug)]
pub struct Source {
    pub id: usize,
    pub name: String,
    pub file: Option<String>,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub error: bool,
    pub message: String,
    pub reason: String,
    pub span: Span,
    pub contexts: Vec<(String, Span)>,
    pub related: Vec<(String, Span)>,
    pub annotation: Option<String>,
}

impl Report for Rep {
    fn message(&self) -> &str {
        &self.message
    }
    fn reason(&self) -> &str {
        &self.reason
    }
    fn span(&self) -> Span {
        self.span
    }
    fn contexts(&self) -> impl Iterator<Item = (&str, Span)> {
        self.contexts.iter().map(|(l, s)| (l.as_str(), *s))
    }
    fn related(&self) -> impl Iterator<Item = (&str, Span)> {
        self.related.iter().map(|(l, s)| (l.as_str(), *s))
    }
}

pub fn rep_of<K: ErrorOrWarningKind>(e: &ErrorOrWarning<K>, error: bool) -> Rep {
    Rep {
        error,
        message: e.message().to_string(),
        reason: e.reason().to_string(),
        span: e.span(),
        contexts: e.contexts().map(|(l, s)| (l.to_string(), s)).collect(),
        related: e.related().map(|(l, s)| (l.to_string(), s)).collect(),
        annotation: None,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Id(usize, String);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.1)
    }
}

pub fn find<'a>(sources: &'a [Source], span: &Span) -> &'a Source {
    sources.iter().find(|s| s.id == span.source).expect("a source of the model")
}

/// the span without trailing whitespace, unless it is nothing else
pub fn trimmed(text: &str, span: &Span) -> (usize, usize) {
    let t = text[span.start..span.end].trim_end();
    (span.start, if t.is_empty() { span.end } else { span.start + t.len() })
}

fn chars(sources: &[Source], span: &Span) -> (Id, std::ops::Range<usize>) {
    let src = find(sources, span);
    let (a, b) = trimmed(&src.text, span);
    let at = |i: usize| src.text[..i].chars().count();
    (Id(src.id, src.name.clone()), at(a)..at(b))
}

pub fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn expected(sources: &[Source], rep: &Rep) -> String {
    use ariadne::{Label, ReportKind};
    let kind = if rep.error { ReportKind::Error } else { ReportKind::Warning };
    let mut b = ariadne::Report::build(kind, chars(sources, &rep.span)).with_message(&rep.message);
    b.add_label(Label::new(chars(sources, &rep.span)).with_message(&rep.reason));
    for (l, s) in &rep.contexts {
        b.add_label(Label::new(chars(sources, s)).with_message(format!("in this {l}")));
    }
    for (l, s) in &rep.related {
        b.add_label(Label::new(chars(sources, s)).with_message(l));
    }
    let mut out = Vec::new();
    let cache: Vec<(Id, String)> = sources.iter().map(|s| (Id(s.id, s.name.clone()), s.text.clone())).collect();
    b.finish().write(ariadne::sources(cache), &mut out).expect("writing to memory");
    let mut out = strip_ansi(&String::from_utf8(out).expect("a report in UTF-8"));
    if let Some(a) = &rep.annotation {
        out.push_str(&strip_ansi(a));
        out.push('\n');
    }
    out
}

/// whitespace is shown in its own way
fn solid(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// independent of the rendering library: first line, place, and text of the line
pub fn check_head(sources: &[Source], rep: &Rep, got: &str) -> Result<(), String> {
    let src = find(sources, &rep.span);
    let t = &src.text;
    if t.is_empty() || t.contains(|c: char| c != '\n' && (c.is_control() || matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}'))) {
        return Ok(());
    }
    let (a, _) = trimmed(t, &rep.span);
    let head = format!("{}: {}", if rep.error { "Error" } else { "Warning" }, rep.message);
    if !got.starts_with(&head) {
        return Err(format!("a report does not start with {head:?}:\n{got}"));
    }
    if !got.contains(&rep.reason) {
        return Err(format!("a report lacks its reason {:?}:\n{got}", rep.reason));
    }
    for l in rep.contexts.iter().chain(&rep.related) {
        if !got.contains(&l.0) {
            return Err(format!("a report lacks the label {:?}:\n{got}", l.0));
        }
    }
    if a == t.len() {
        return Ok(()); // nothing there to show
    }
    let bol = t[..a].rfind('\n').map_or(0, |i| i + 1);
    let line = 1 + t[..a].matches('\n').count();
    let col = 1 + t[bol..a].chars().count();
    let place = format!("[ {}:{line}:{col} ]", src.name);
    if !got.contains(&place) {
        return Err(format!("a report lacks the place {place:?}:\n{got}"));
    }
    let content = t[bol..].split('\n').next().unwrap();
    if !got.lines().any(|l| l.trim_start().strip_prefix(&format!("{line} │ ")).is_some_and(|l| solid(l).ends_with(&solid(content)))) {
        return Err(format!("a report lacks line {line} {content:?}:\n{got}"));
    }
    Ok(())
}

pub fn check(sources: &[Source], reps: &[Rep], got: &[u8]) -> Result<(), String> {
    let got = strip_ansi(std::str::from_utf8(got).map_err(|e| format!("a report not in UTF-8: {e}"))?);
    let want: String = reps.iter().map(|r| expected(sources, r)).collect();
    if let [rep] = reps {
        check_head(sources, rep, &got)?;
    }
    if got != want {
        return Err(format!("reports differ from what is expected\n--- got\n{got}\n--- expected\n{want}"));
    }
    Ok(())
}

pub fn text(s: &mut Src) -> String {
    let mut t = String::new();
    // far from the start, or far to the right
    if s.chance(1, 3000) {
        let n = *s.pick(&[300, 5000, 65_530, 70_000]);
        t.push_str(&s.pick(&["\n", "x", "é"]).repeat(n));
    }
    for _ in 0..s.range(0, 30) {
        match s.weighted(&[6, 4, 3, 3, 2, 1]) {
            0 => t.push_str(s.pick(&["abc", "2020-01-01 open Assets:A", "x", "Lunch", "1.00 USD"])),
            1 => t.push(' '),
            2 => t.push('\n'),
            3 => t.push(*s.pick(&['é', '中', '😱', 'ß', '\u{a0}', '\u{3000}'])),
            4 => t.push((b'a' + s.draw(26) as u8) as char),
            _ => t.push_str(s.pick(&["\t", "\r\n", "\u{85}", "\u{2028}", "\u{c}", "\u{301}", "\u{b}", "\r", "\0", "\u{7f}", "\u{2029}", "\u{feff}", "\u{200b}", "\u{10ffff}"])),
        }
    }
    t
}

/// some span at character boundaries
pub fn span_in(s: &mut Src, src: &Source) -> Span {
    let bounds: Vec<usize> = src.text.char_indices().map(|(i, _)| i).chain([src.text.len()]).collect();
    let a = s.below(bounds.len());
    let left = bounds.len() - a;
    let b = a + if s.chance(1, 2) { s.below(left.min(8)) } else { s.below(left) };
    Span { source: src.id, start: bounds[a], end: bounds[b] }
}
