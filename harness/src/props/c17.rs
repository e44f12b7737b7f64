//! Names and strings are the text of the sources, not copies of it.
use super::common::*;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use beancount_parser_lima::*;

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "a ledger counts as non-trivial when its parse returned at least five names or strings, each of which has been found in the text; distinct by its text",
    quick: 600_000,
    thorough: 10_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

struct Look<'a> {
    sources: &'a BeancountSources,
    whole: Vec<(usize, usize)>,
    n: usize,
    escaped: usize,
    problem: Option<String>,
}

fn range(t: &str) -> (usize, usize) {
    (t.as_ptr() as usize, t.as_ptr() as usize + t.len())
}

impl Look<'_> {
    fn at(&mut self, what: &str, t: &str, span: &Span) {
        let src = self.sources.resolve_span(span).content;
        if src.contains('\\') {
            self.escaped += 1;
            return;
        }
        // an empty text may be anywhere, and a key which is also a keyword need not be taken from the text
        if t.is_empty() || (what == "key" && KEYWORDS.contains(&t)) {
            return;
        }
        self.n += 1;
        let (a, b) = range(src);
        let (x, y) = range(t);
        if (x < a || y > b) && self.problem.is_none() {
            self.problem = Some(format!("the {what} {t:?} is a copy, not the text at {span:?}"));
        }
    }
    fn anywhere(&mut self, what: &str, t: &str) {
        self.n += 1;
        let (x, y) = range(t);
        if !self.whole.iter().any(|(a, b)| *a <= x && y <= *b) && self.problem.is_none() {
            self.problem = Some(format!("the {what} {t:?} is a copy, not the text of a source"));
        }
    }
    fn s(&mut self, what: &str, t: &Spanned<&str>) {
        self.at(what, t.item(), t.span())
    }
    fn acc(&mut self, t: &Spanned<Account>) {
        self.at("account", t.item().as_ref(), t.span())
    }
    fn cur(&mut self, t: &Spanned<Currency>) {
        self.at("currency", t.item().as_ref(), t.span())
    }
    fn value(&mut self, v: &Spanned<MetaValue>) {
        match v.item() {
            MetaValue::Amount(a) => self.cur(a.currency()),
            MetaValue::Simple(x) => match x {
                SimpleValue::String(x) => self.at("string", x, v.span()),
                SimpleValue::Currency(x) => self.at("currency", x.as_ref(), v.span()),
                SimpleValue::Account(x) => self.at("account", x.as_ref(), v.span()),
                SimpleValue::Tag(x) => self.at("tag", x.as_ref(), v.span()),
                SimpleValue::Link(x) => self.at("link", x.as_ref(), v.span()),
                _ => {}
            },
        }
    }
    fn metadata(&mut self, m: &Metadata) {
        for (k, v) in m.key_values() {
            self.at("key", k.item().as_ref(), k.span());
            self.value(v);
        }
        for t in m.tags() {
            self.at("tag", t.item().as_ref(), t.span());
        }
        for t in m.links() {
            self.at("link", t.item().as_ref(), t.span());
        }
    }
    fn directive(&mut self, d: &Spanned<Directive>) {
        use DirectiveVariant::*;
        match d.variant() {
            Transaction(x) => {
                for t in [x.payee(), x.narration()].into_iter().flatten() {
                    self.s("string", t);
                }
                for p in x.postings() {
                    self.acc(p.account());
                    p.currency().into_iter().for_each(|c| self.cur(c));
                    if let Some(c) = p.cost_spec() {
                        c.currency().into_iter().for_each(|c| self.cur(c));
                        c.label().into_iter().for_each(|c| self.s("label", c));
                    }
                    if let Some(c) = p.price_annotation() {
                        match c.item() {
                            PriceSpec::BareCurrency(x) | PriceSpec::CurrencyAmount(_, x) => self.at("currency", x.as_ref(), c.span()),
                            _ => {}
                        }
                    }
                    self.metadata(p.metadata());
                }
            }
            Price(x) => {
                self.cur(x.currency());
                self.cur(x.amount().currency());
            }
            Balance(x) => {
                self.acc(x.account());
                self.cur(x.atol().amount().currency());
            }
            Open(x) => {
                self.acc(x.account());
                x.currencies().for_each(|c| self.cur(c));
            }
            Close(x) => self.acc(x.account()),
            Commodity(x) => self.cur(x.currency()),
            Pad(x) => {
                self.acc(x.account());
                self.acc(x.source());
            }
            Document(x) => {
                self.acc(x.account());
                self.s("path", x.path());
            }
            Note(x) => {
                self.acc(x.account());
                self.s("comment", x.comment());
            }
            Event(x) => {
                self.s("type", x.event_type());
                self.s("description", x.description());
            }
            Query(x) => {
                self.s("name", x.name());
                self.s("content", x.content());
            }
            Custom(x) => {
                self.s("type", x.type_());
                x.values().for_each(|v| self.value(v));
            }
        }
        self.metadata(d.metadata());
    }
    fn options(&mut self, o: &Options, escapes: bool) {
        o.title().into_iter().for_each(|t| self.s("title", t));
        for t in [
            o.account_previous_balances(),
            o.account_previous_earnings(),
            o.account_previous_conversions(),
            o.account_current_earnings(),
            o.account_current_conversions(),
            o.account_unrealized_gains(),
            o.account_rounding(),
        ]
        .into_iter()
        .flatten()
        {
            self.at("subaccount", t.item().as_ref(), t.span());
        }
        o.conversion_currency().into_iter().for_each(|t| self.cur(t));
        // it may have been written with escapes, for all that is known
        if escapes {
            return;
        }
        o.operating_currency().for_each(|c| self.anywhere("operating currency", c.as_ref()));
    }
}

const SUBS: [&str; 7] = [
    "account_previous_balances",
    "account_previous_earnings",
    "account_previous_conversions",
    "account_current_earnings",
    "account_current_conversions",
    "account_unrealized_gains",
    "account_rounding",
];

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { expr_depth: s.range(0, 1), meta: 2 + s.draw(4), wide: s.chance(1, 60), ..Gen::default() };
    let max = s.upto(6, 40);
    let mut decls = s.list(1, max, max as u64, max as u64 + 3, |s| match s.weighted(&[12, 1]) {
        0 => Decl0::Dir(g.dir(s)),
        _ => Decl0::Prag(Prag::Plugin(gen_str(s), s.chance(1, 2).then(|| gen_str(s)))),
    });
    let at = |s: &mut Src, decls: &mut Vec<Decl0>, p: Prag| {
        let i = s.below(decls.len() + 1);
        decls.insert(i, Decl0::Prag(p));
    };
    if s.chance(1, 4) {
        let v = gen_str(s);
        at(s, &mut decls, Prag::Option("title".into(), v));
    }
    for n in SUBS {
        if s.chance(1, 12) {
            let v = s.pick(&["Equity-1", "A:B", "Opening-Balances", "É:9"]).to_string();
            at(s, &mut decls, Prag::Option(n.into(), v));
        }
    }
    if s.chance(1, 8) {
        let c = gen_cur(s);
        at(s, &mut decls, Prag::Option("conversion_currency".into(), c));
    }
    if s.chance(1, 8) {
        let c = gen_cur(s);
        at(s, &mut decls, Prag::Option("operating_currency".into(), c));
    }
    if s.chance(1, 4) {
        let t = gen_ident(s);
        decls.insert(0, Decl0::Prag(Prag::PushTag(t.clone())));
        decls.push(Decl0::Prag(Prag::PopTag(t)));
    }
    if s.chance(1, 4) {
        let k = gen_key(s);
        decls.insert(0, Decl0::Prag(Prag::PushMeta(k.clone(), g.val(s))));
        decls.push(Decl0::Prag(Prag::PopMeta(k)));
    }
    let files = Files::new(s, ctx, decls, gen_style, (1, 40));
    let sources = files.sources()?;
    let parser = BeancountParser::new(&sources);
    let r = accepted(parser.parse())?;
    let mut l = Look { sources: &sources, whole: Vec::new(), n: 0, escaped: 0, problem: None };
    for t in &files.texts {
        // the numbers of the sources are not known here, but there are as many as files
        let c = (0..files.texts.len())
            .map(|source| sources.resolve_span(&Span { source, start: 0, end: t.len() }).content)
            .filter(|c| !c.is_empty() && *c == t.trim_end());
        l.whole.extend(c.map(range));
    }
    r.directives.iter().for_each(|d| l.directive(d));
    l.options(&r.options, files.texts.iter().any(|t| t.contains('\\')));
    for p in &r.plugins {
        l.s("plugin", p.module_name());
        p.config().into_iter().for_each(|c| l.s("plugin configuration", c));
    }
    ctx.nontrivial = l.n >= 5;
    if l.escaped > 0 {
        ctx.class("with escapes");
    }
    l.problem.map_or(Ok(()), Err)
}
