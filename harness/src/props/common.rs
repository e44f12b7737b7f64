//! What several properties share.
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use beancount_parser_lima::*;

/// parse inline text
pub fn parse_text<T>(text: &str, f: impl FnOnce(&BeancountSources, Result<ParseSuccess, ParseError>) -> T) -> T {
    let sources = BeancountSources::from(text.to_string());
    let parser = BeancountParser::new(&sources);
    f(&sources, parser.parse())
}

pub fn show_errors<K: ErrorOrWarningKind>(es: &[ErrorOrWarning<K>]) -> String {
    es.iter()
        .map(|e| {
            let mut s = format!("{} ({}) at {:?}", e.message(), e.reason(), e.span());
            for (l, sp) in e.contexts() {
                s.push_str(&format!(" in {l} {sp:?}"));
            }
            for (l, sp) in e.related() {
                s.push_str(&format!(" related {l} {sp:?}"));
            }
            s
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// a valid ledger must be accepted
pub fn accepted<'a>(r: Result<ParseSuccess<'a>, ParseError>) -> Result<ParseSuccess<'a>, String> {
    r.map_err(|e| format!("a valid ledger was rejected: {}", show_errors(&e.errors)))
}

/// render directives into one text; what is expected comes back in textual order
pub fn render(s: &mut Src, dirs: &[Dir], source: usize, style: Style) -> (String, Vec<Node>) {
    let mut o = Out::new(source, style);
    o.prologue(s);
    let mut nodes = Vec::new();
    for d in dirs {
        nodes.push(o.dir(s, d).item);
    }
    finish(s, o, nodes)
}

/// end of the file
pub fn finish(s: &mut Src, mut o: Out, mut nodes: Vec<Node>) -> (String, Vec<Node>) {
    o.epilogue(s);
    let n = o.text.len();
    if let Some(last) = nodes.last_mut() {
        if let Sp::Upto(_, _, _, hi) = &mut last.span {
            *hi = n;
        }
    }
    (o.text, nodes)
}

pub fn gen_style(s: &mut Src) -> Style {
    if s.chance(2, 3) {
        MESSY
    } else {
        PLAIN
    }
}

/// the spans of errors as a sorted list
pub fn error_spans<K: ErrorOrWarningKind>(es: &[ErrorOrWarning<K>]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<_> = es.iter().map(|e| (e.span().source, e.span().start, e.span().end)).collect();
    v.sort();
    v
}

pub fn spans_of(v: &[Sp]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<_> = v
        .iter()
        .map(|s| match s {
            Sp::At(a, b, c) => (*a, *b, *c),
            _ => unreachable!(),
        })
        .collect();
    v.sort();
    v
}

pub fn plugins(ps: &[Plugin]) -> Vec<Node> {
    ps.iter()
        .map(|p| {
            let mut kids = vec![crate::actual::s("module", p.module_name())];
            kids.extend(p.config().map(|c| crate::actual::s("config", c)));
            Node::node("plugin", Sp::Any, kids)
        })
        .collect()
}
