//! Errors and warnings which an application makes on elements of a parse result.
use super::common::*;
use crate::driver::*;
use crate::model::*;
use crate::reporting::*;
use crate::src::Src;
use crate::tree::*;
use crate::actual;
use beancount_parser_lima::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "a history counts as non-trivial when at least two related or context elements are added to one error or warning, or located elements are compared; distinct by ledger and history",
    quick: 400_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

/// elements of one type, with what they are called
struct Group<'r> {
    kind: &'static str,
    spans: Vec<Span>,
    error: Box<dyn Fn(usize, &str) -> Error + 'r>,
    warning: Box<dyn Fn(usize, &str) -> Warning + 'r>,
    related: Box<dyn Fn(Error, &[usize], bool) -> Error + 'r>,
    context: Box<dyn Fn(Error, &[usize], bool) -> Error + 'r>,
    wrelated: Box<dyn Fn(Warning, &[usize], bool) -> Warning + 'r>,
    wcontext: Box<dyn Fn(Warning, &[usize], bool) -> Warning + 'r>,
}

fn add<'x, K: ErrorOrWarningKind, T: ElementType<'static> + 'x>(mut e: ErrorOrWarning<K>, xs: &[&'x Spanned<T>], at: &[usize], all: bool, related: bool) -> ErrorOrWarning<K> {
    if all {
        let it = at.iter().map(|i| xs[*i]);
        if related {
            e.related_to_all(it)
        } else {
            e.in_contexts(it)
        }
    } else {
        for i in at {
            e = if related { e.related_to(xs[*i]) } else { e.in_context(xs[*i]) };
        }
        e
    }
}

fn group<'r, T: ElementType<'static>>(kind: &'static str, xs: Vec<&'r Spanned<T>>) -> Option<Group<'r>> {
    if xs.is_empty() {
        return None;
    }
    let xs = std::rc::Rc::new(xs);
    let (a, b, c, d, e, f) = (xs.clone(), xs.clone(), xs.clone(), xs.clone(), xs.clone(), xs.clone());
    Some(Group {
        kind,
        spans: xs.iter().map(|x| *x.span()).collect(),
        error: Box::new(move |i, r| a[i].error(r)),
        warning: Box::new(move |i, r| b[i].warning(r.to_string())),
        related: Box::new(move |x, at, all| add(x, &c, at, all, true)),
        context: Box::new(move |x, at, all| add(x, &d, at, all, false)),
        wrelated: Box::new(move |x, at, all| add(x, &e, at, all, true)),
        wcontext: Box::new(move |x, at, all| add(x, &f, at, all, false)),
    })
}

fn groups<'r>(ds: &'r [Spanned<Directive<'r>>]) -> Vec<Group<'r>> {
    let mut out = Vec::new();
    for kind in ["transaction", "price", "balance", "open", "close", "commodity", "pad", "document", "note", "event", "query", "custom"] {
        out.extend(group(
            kind,
            ds.iter()
                .filter(|d| {
                    use DirectiveVariant::*;
                    kind == match d.variant() {
                        Transaction(_) => "transaction",
                        Price(_) => "price",
                        Balance(_) => "balance",
                        Open(_) => "open",
                        Close(_) => "close",
                        Commodity(_) => "commodity",
                        Pad(_) => "pad",
                        Document(_) => "document",
                        Note(_) => "note",
                        Event(_) => "event",
                        Query(_) => "query",
                        Custom(_) => "custom",
                    }
                })
                .collect(),
        ));
    }
    let (mut flags, mut accounts, mut postings, mut currencies, mut amounts, mut costs, mut bookings) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    let (mut tags, mut links, mut keys) = (vec![], vec![], vec![]);
    for d in ds {
        tags.extend(d.metadata().tags());
        links.extend(d.metadata().links());
        keys.extend(d.metadata().key_values().map(|(k, _)| k));
        match d.variant() {
            DirectiveVariant::Transaction(t) => {
                flags.push(t.flag());
                for p in t.postings() {
                    postings.push(p);
                    flags.extend(p.flag());
                    accounts.push(p.account());
                    currencies.extend(p.currency());
                    amounts.extend(p.amount());
                    costs.extend(p.cost_spec());
                    tags.extend(p.metadata().tags());
                    links.extend(p.metadata().links());
                    keys.extend(p.metadata().key_values().map(|(k, _)| k));
                }
            }
            DirectiveVariant::Open(o) => {
                accounts.push(o.account());
                currencies.extend(o.currencies());
                bookings.extend(o.booking());
            }
            DirectiveVariant::Price(p) => {
                currencies.push(p.currency());
                currencies.push(p.amount().currency());
                amounts.push(p.amount().number());
            }
            DirectiveVariant::Pad(p) => {
                accounts.push(p.account());
                accounts.push(p.source());
            }
            _ => {}
        }
    }
    out.extend(group("flag", flags));
    out.extend(group("account", accounts));
    out.extend(group("posting", postings));
    out.extend(group("currency", currencies));
    out.extend(group("amount", amounts));
    out.extend(group("cost specification", costs));
    out.extend(group("booking", bookings));
    out.extend(group("tag", tags));
    out.extend(group("link", links));
    out.extend(group("key", keys));
    out
}

fn same<K: ErrorOrWarningKind>(e: &ErrorOrWarning<K>, want: &Rep) -> R {
    let got = rep_of(e, want.error);
    if format!("{got:?}") != format!("{:?}", Rep { annotation: None, ..want.clone() }) {
        return Err(format!("got      {got:?}\nexpected {want:?}"));
    }
    Ok(())
}

fn shown(e: &str, want: &Rep) -> R {
    let at = format!("{} ({}) at {}..{} of source {}", want.message, want.reason, want.span.start, want.span.end, want.span.source);
    if !e.starts_with(&at) {
        return Err(format!("displayed as {e:?} rather than {at:?}"));
    }
    let mut rest = &e[at.len()..];
    for (l, _) in &want.contexts {
        match rest.find(l.as_str()) {
            Some(i) => rest = &rest[i + l.len()..],
            None => return Err(format!("displayed as {e:?} without context {l}")),
        }
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// an element of the application's own
struct Own(String);

impl<'a> ElementType<'a> for &'a Own {
    fn element_type(&self) -> &'a str {
        &self.0
    }
}

/// located elements are their content
fn located(s: &mut Src, len: usize) -> R {
    let span = |s: &mut Src| {
        let start = s.below(len + 1);
        Span { source: s.below(3), start, end: s.range(start, len) }
    };
    let words = ["USD", "EUR", "GBP"];
    let (i, j) = (s.below(3), s.below(3));
    let (x, y) = (Currency::try_from(words[i]).unwrap(), Currency::try_from(words[j]).unwrap());
    let (p, q) = (span(s), span(s));
    let (a, b) = (spanned(x, p), spanned(y, q));
    if (a == b) != (i == j) {
        return Err(format!("{a:?} and {b:?} are{} equal", if a == b { "" } else { " not" }));
    }
    if i == j && hash(&a) != hash(&b) {
        return Err(format!("{a:?} and {b:?} hash differently"));
    }
    if hash(&a) != hash(&x) {
        return Err(format!("{a:?} hashes differently from its content"));
    }
    let m = a.map(|c| c.to_string() + "!");
    let n = b.map_into(|c| c.to_string() + "?");
    let r = a.as_ref();
    if *m.span() != p || m.item() != &format!("{}!", words[i]) || *n.span() != q || n.item() != &format!("{}?", words[j]) {
        return Err(format!("{a:?} and {b:?} are mapped to {m:?} and {n:?}"));
    }
    if *r.span() != p || **r.item() != x || *a.span() != p || *a.item() != x || *a != x {
        return Err(format!("{a:?} gives {r:?}"));
    }
    if a.to_string() != words[i] {
        return Err(format!("{a:?} is displayed as {a}"));
    }
    let t = s.pick(&["", " ", "x ", " x", "two\nlines\n", "é\t", "a\"b"]).to_string();
    if spanned(t.as_str(), p).to_string() != t || spanned(spanned(t.clone(), q), p).to_string() != t {
        return Err(format!("{t:?} is displayed as {:?} when located", spanned(t.as_str(), p).to_string()));
    }
    let own = Own(s.pick(&["thing", "things", "", "Ding é", " x ", "{}"]).to_string());
    let (e, w) = (spanned(&own, p).error(t.as_str()), spanned(&own, q).warning(t.as_str()));
    if e.message() != format!("invalid {}", own.0) || w.message() != format!("questionable {}", own.0) || (e.span(), w.span()) != (p, q) || (e.reason(), w.reason()) != (t.as_str(), t.as_str()) {
        return Err(format!("an error and a warning on {:?} with reason {t:?} are {e} and {w}", own.0));
    }
    let e = e.in_context(&spanned(&own, q)).related_to(&spanned(&own, p));
    if e.contexts().collect::<Vec<_>>() != [(own.0.as_str(), q)] || e.related().collect::<Vec<_>>() != [(own.0.as_str(), p)] {
        return Err(format!("{e} is not in the context of {:?} at {q:?} and related to it at {p:?}", own.0));
    }
    if Some(&a).item() != Some(&x) || (None::<&Spanned<Currency>>).item().is_some() {
        return Err(format!("the optional item of {a:?} is {:?}", Some(&a).item()));
    }
    let mut c = a;
    *c = y;
    if c != b || *c.span() != p {
        return Err(format!("{a:?} assigned {y} gives {c:?}"));
    }
    // also by reference and boxed
    for (e, k) in [(a.as_ref().error("r"), "by reference"), (a.map(|c| Box::new(*c)).error("r"), "boxed")] {
        if e.message() != "invalid currency" || e.span() != p || e.reason() != "r" {
            return Err(format!("an error on {a:?} {k} is {e}"));
        }
    }
    let mut z = x;
    let e = spanned(&mut z, p).error("r");
    if e.message() != "invalid currency" || e.span() != p || e.reason() != "r" {
        return Err(format!("an error on {a:?} by mutable reference is {e}"));
    }
    for (m, t) in [
        (spanned(AccountTypeName::try_from("Assets").unwrap(), p).warning("w"), "account type name"),
        (spanned(AccountName::try_from("Cash").unwrap(), p).warning("w"), "account name"),
        (spanned(SimpleValue::Null, p).warning("w"), "simple value"),
    ] {
        if m.message() != format!("questionable {t}") || m.span() != p {
            return Err(format!("a warning on {t} at {p:?} is {m}"));
        }
    }
    Ok(())
}

/// without the scale of numbers, which doesn't count when they are compared
fn unscaled(label: &str) -> String {
    let mut out = String::new();
    let mut rest = label;
    while let Some(i) = rest.find("e-") {
        let scale: String = rest[i + 2..].chars().take_while(char::is_ascii_digit).collect();
        let digits = rest[..i].chars().rev().take_while(char::is_ascii_digit).count();
        let mut mantissa = &rest[i - digits..i];
        let Ok(mut n) = scale.parse::<u32>() else {
            out.push_str(&rest[..i + 2]);
            rest = &rest[i + 2..];
            continue;
        };
        while n > 0 && (mantissa.ends_with('0')) {
            mantissa = &mantissa[..mantissa.len() - 1];
            n -= 1;
        }
        out.push_str(&rest[..i - digits]);
        out.push_str(if mantissa.is_empty() { "0" } else { mantissa });
        if mantissa.is_empty() {
            n = 0;
        }
        out.push_str(&format!("e-{n}"));
        rest = &rest[i + 2 + scale.len()..];
    }
    out.push_str(rest);
    out
}

fn unscale(n: &mut Node) {
    n.label = unscaled(&n.label);
    n.kids.iter_mut().for_each(unscale);
}

/// directives compare as what was written, wherever that was
fn compared(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: 1, meta: s.draw(6), ..Gen::default() };
    let d = g.dir(s);
    let mut dirs = vec![d.clone(), d.clone()];
    for _ in 0..s.range(1, 3) {
        dirs.push(g.tweak(s, &d));
    }
    let (text, _) = render(s, &dirs, 0, MESSY);
    ctx.input(text.clone());
    parse_text(&text, |_, r| {
        let r = accepted(r)?;
        let mut trees = actual::directives(&r.directives);
        trees.iter_mut().for_each(Node::strip_spans);
        let mut loose = trees.clone();
        loose.iter_mut().for_each(unscale);
        for (i, a) in r.directives.iter().enumerate() {
            for (j, b) in r.directives.iter().enumerate() {
                let equal = a == b && a.item() == b.item() && a.variant() == b.variant() && a.metadata() == b.metadata() && a.date() == b.date();
                if trees[i] == trees[j] && !(equal && !(a != b)) {
                    return Err(format!("{a}\nis not equal to\n{b}"));
                }
                if loose[i] != loose[j] && (equal || a == b || a.item() == b.item()) {
                    return Err(format!("{a}\nis equal to\n{b}"));
                }
            }
        }
        Ok(())
    })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 5) {
        ctx.nontrivial = true;
        ctx.class("directives compared");
        return compared(s, ctx);
    }
    let g = Gen { expr_depth: 0, meta: 2 + s.draw(4), ..Gen::default() };
    let dirs = s.list(1, 5, 2, 3, |s| g.dir(s));
    let (text, _) = render(s, &dirs, 0, PLAIN);
    let model = [Source { id: 0, name: "inline".into(), file: None, text: text.clone() }];
    let mut log = text.clone();
    ctx.input(log.clone());
    if s.chance(1, 3) {
        ctx.nontrivial = true;
        ctx.class("located elements");
        located(s, text.len())?;
    }
    parse_text(&text, |sources, r| {
        let r = accepted(r)?;
        for d in &r.directives {
            let e = match d.variant() {
                DirectiveVariant::Price(p) => spanned(p, *d.span()).error("r"),
                DirectiveVariant::Balance(p) => spanned(p, *d.span()).error("r"),
                _ => continue,
            };
            let kind = if matches!(d.variant(), DirectiveVariant::Price(_)) { "price" } else { "balance" };
            if e.message() != format!("invalid {kind}") || e.span() != *d.span() {
                return Err(format!("an error on the {kind} of {d} is {e}"));
            }
        }
        let gs = groups(&r.directives);
        let n = s.range(1, 3);
        let mut errors = Vec::new();
        let mut reps = Vec::new();
        let is_error = s.chance(1, 2);
        let mut warnings = Vec::new();
        for _ in 0..n {
            let g = s.pick(&gs);
            let i = s.below(g.spans.len());
            let reason = s.pick(&["not good", "é: 中", "", "two\nlines", "{}"]).to_string();
            let mut want = Rep {
                error: is_error,
                message: format!("{} {}", if is_error { "invalid" } else { "questionable" }, g.kind),
                reason: reason.clone(),
                span: g.spans[i],
                contexts: vec![],
                related: vec![],
                annotation: None,
            };
            log.push_str(&format!("\n--- {want:?}\n"));
            let mut e = (g.error)(i, &reason);
            let mut w = (g.warning)(i, &reason);
            let k = s.upto(5, 40);
            for _ in 0..s.below(k) {
                let g = s.pick(&gs);
                let all = s.chance(1, 2);
                let at = s.list(if all { 0 } else { 1 }, if all { 4 * if k > 5 { 5 } else { 1 } } else { 1 }, if k > 5 { 8 } else { 2 }, if k > 5 { 9 } else { 3 }, |s| s.below(g.spans.len()));
                let related = s.chance(1, 2);
                log.push_str(&format!("{} {} {at:?}{}\n", if related { "related to" } else { "in" }, g.kind, if all { " at once" } else { "" }));
                ctx.input(log.clone());
                (e, w) = if related {
                    ((g.related)(e, &at, all), (g.wrelated)(w, &at, all))
                } else {
                    ((g.context)(e, &at, all), (g.wcontext)(w, &at, all))
                };
                let to = if related { &mut want.related } else { &mut want.contexts };
                to.extend(at.iter().map(|i| (g.kind.to_string(), g.spans[*i])));
            }
            ctx.nontrivial |= want.related.len() + want.contexts.len() >= 2;
            if is_error {
                same(&e, &want)?;
                shown(&e.to_string(), &want)?;
                same(&e.clone(), &want)?;
            } else {
                same(&w, &want)?;
                shown(&w.to_string(), &want)?;
            }
            let note = if s.chance(1, 3) { Some(s.pick(&["see this", "", "a\nb"]).to_string()) } else { None };
            want.annotation = note.clone();
            let (ae, aw) = match &note {
                Some(n) => (e.with_annotation(n.as_str()), w.with_annotation(n.clone())),
                None => (e.into(), w.into()),
            };
            if ae.annotation() != note.as_deref() || aw.annotation() != note.as_deref() {
                return Err(format!("annotation {note:?} gives {:?} and {:?}", ae.annotation(), aw.annotation()));
            }
            if is_error {
                same(&ae, &want)?;
            } else {
                same(&aw, &want)?;
            }
            errors.push(ae);
            warnings.push(aw);
            reps.push(want);
        }
        if s.chance(1, 4) {
            ctx.class("written");
            let mut out = Vec::new();
            if is_error {
                sources.write_errors_or_warnings(&mut out, errors)
            } else {
                sources.write_errors_or_warnings(&mut out, warnings)
            }
            .map_err(|e| format!("writing failed: {e}"))?;
            check(&model, &reps, &out)?;
        }
        Ok(())
    })
}
