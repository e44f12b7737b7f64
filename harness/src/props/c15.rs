//! The same sources give the same result, whenever and wherever they are parsed.
use super::common::*;
use super::soup;
use crate::actual;
use crate::driver::*;
use crate::files::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use beancount_parser_lima::*;
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "a set of sources counts as non-trivial when it has at least two files or gives at least two errors or two directives; distinct by the text of all files",
    quick: 120_000,
    thorough: 5_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

const TYPES: [AccountType; 5] = [AccountType::Assets, AccountType::Liabilities, AccountType::Equity, AccountType::Income, AccountType::Expenses];

pub fn options(o: &Options) -> Vec<String> {
    let mut v: Vec<String> = TYPES.iter().map(|t| format!("{t:?} {}", o.account_type_name(*t).as_ref())).collect();
    v.push(format!("{:?}", o.title()));
    v.push(format!("{:?}", o.account_previous_balances()));
    v.push(format!("{:?}", o.account_previous_earnings()));
    v.push(format!("{:?}", o.account_previous_conversions()));
    v.push(format!("{:?}", o.account_current_earnings()));
    v.push(format!("{:?}", o.account_current_conversions()));
    v.push(format!("{:?}", o.account_unrealized_gains()));
    v.push(format!("{:?}", o.account_rounding()));
    v.push(format!("{:?}", o.conversion_currency()));
    v.push(format!("{:?}", o.inferred_tolerance_default_fallback()));
    v.push(format!("{:?}", o.inferred_tolerance_multiplier()));
    v.push(format!("{:?}", o.infer_tolerance_from_cost()));
    v.push(format!("{:?}", o.render_commas()));
    v.push(format!("{:?}", o.booking_method()));
    v.push(format!("{:?}", o.plugin_processing_mode()));
    v.push(format!("{:?}", o.long_string_maxlines()));
    let mut set: Vec<String> = o.inferred_tolerance_defaults().map(|x| format!("tolerance {x:?}")).collect();
    set.extend(o.documents().map(|x| format!("documents {x:?}")));
    set.extend(o.operating_currency().map(|x| format!("operating {x:?}")));
    set.sort();
    v.extend(set);
    v
}

fn errors<K: ErrorOrWarningKind>(es: &[ErrorOrWarning<K>]) -> Vec<String> {
    let mut v: Vec<String> = es.iter().map(|e| show_errors(std::slice::from_ref(e))).collect();
    v.sort();
    v
}

fn outcome(r: &Result<ParseSuccess, ParseError>) -> Vec<String> {
    match r {
        Ok(r) => {
            let mut v = vec!["accepted".to_string()];
            v.extend(actual::directives(&r.directives).iter().map(|d| format!("{d:?}")));
            v.extend(options(&r.options));
            v.extend(plugins(&r.plugins).iter().map(|p| format!("{p:?}")));
            v.extend(errors(&r.warnings));
            v
        }
        Err(e) => {
            let mut v = vec!["rejected".to_string()];
            v.extend(errors(&e.errors));
            v.push("warnings".into());
            v.extend(errors(&e.warnings));
            v
        }
    }
}

fn read(root: Option<&Path>, text: &str) -> BeancountSources {
    match root {
        Some(p) => BeancountSources::try_from(p).unwrap(),
        None => BeancountSources::from(text),
    }
}

fn once(root: Option<&Path>, text: &str) -> Vec<String> {
    let sources = read(root, text);
    let parser = BeancountParser::new(&sources);
    outcome(&parser.parse())
}

/// for another process: what parsing the file, or the text read from standard input, gives
pub fn print_outcome(root: &str) {
    let mut text = String::new();
    if root.is_empty() {
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    }
    let root = (!root.is_empty()).then(|| Path::new(root));
    println!("{}", serde_json::to_string(&once(root, &text)).unwrap());
}

fn elsewhere(root: Option<&Path>, text: &str) -> Option<Vec<String>> {
    use std::io::Write as _;
    let mut c = Command::new(std::env::current_exe().ok()?)
        .args(["outcome", root.map_or("", |p| p.to_str().unwrap())])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(text.as_bytes()).ok()?;
    let out = c.wait_with_output().ok()?;
    out.status.success().then(|| serde_json::from_slice(&out.stdout).ok()).flatten()
}

fn same(a: &[String], b: &[String], what: &str) -> R {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Err(format!("{what} gave {:?} instead of {:?}", b.get(i), a.get(i)))
}

/// declarations whose effect depends on order
fn decls(s: &mut Src, names: &[&str]) -> Vec<Decl0> {
    let g = Gen { expr_depth: 0, meta: 3, ..Gen::default() };
    s.list(0, 10, 5, 6, |s| match s.weighted(&[6, 3, 1, 1, 1, 1, 3, 1]) {
        0 => Decl0::Dir(g.dir(s)),
        1 => Decl0::Prag(Prag::Include(if s.chance(1, 4) { s.pick(&["*.bean", "[ab]*", "c*", "nothing"]).to_string() } else { s.pick(names).to_string() })),
        2 => Decl0::Prag(Prag::PushTag(s.pick(&["x", "y", "z", "w"]).to_string())),
        3 => Decl0::Prag(Prag::PopTag(s.pick(&["x", "y"]).to_string())),
        4 => Decl0::Prag(Prag::PushMeta(s.pick(&["foo", "bar", "baz"]).to_string(), g.val(s))),
        5 => Decl0::Prag(Prag::PopMeta(s.pick(&["foo", "bar"]).to_string())),
        6 => {
            let (n, v) = *s.pick(&[
                ("name_assets", "Aktiva"),
                ("name_assets", "Assets"),
                ("name_income", "Einkommen"),
                ("name_expenses", "Income"),
                ("long_string_maxlines", "1"),
                ("long_string_maxlines", "3"),
                ("operating_currency", "USD"),
                ("operating_currency", "EUR"),
                ("documents", "d"),
                ("inferred_tolerance_default", "USD:0.5"),
                ("inferred_tolerance_default", "*:0.1"),
                ("title", "T"),
            ]);
            Decl0::Prag(Prag::Option(n.into(), v.into()))
        }
        _ => Decl0::Prag(Prag::Plugin(gen_ident(s), None)),
    })
}

/// a ledger without errors, for the most part, in which much is collected: pushed, listed, accumulated
fn rich(s: &mut Src, ctx: &mut Ctx) -> Files {
    fn key(s: &mut Src) -> String {
        format!("{}{}", s.pick(&["foo", "bar", "note"]), s.below(4))
    }
    fn ident(s: &mut Src) -> String {
        format!("t{}", s.below(10))
    }
    let g = Gen { expr_depth: 0, meta: 4, key, ident, ..Gen::default() };
    let mut ds = Vec::new();
    let mut end = Vec::new();
    let mut options: Vec<(&str, &str)> = vec![
        ("title", "T"),
        ("account_previous_balances", "Opening"),
        ("account_rounding", "Rounding"),
        ("conversion_currency", "NOTHING"),
        ("inferred_tolerance_multiplier", "1.2"),
        ("render_commas", "TRUE"),
        ("booking_method", "FIFO"),
        ("long_string_maxlines", "2"),
    ];
    for c in ["USD", "EUR", "CHF", "GBP", "NZD", "AUD"] {
        options.push(("operating_currency", c));
    }
    for c in ["a", "b", "c", "d/e"] {
        options.push(("documents", c));
    }
    for c in ["USD:0.1", "EUR:0.2", "CHF:0.3", "*:0.4", "GBP:0.05"] {
        options.push(("inferred_tolerance_default", c));
    }
    for _ in 0..s.range(1, 24) {
        match s.weighted(&[8, 4, 3, 4, 1]) {
            0 => ds.push(Decl0::Dir(g.dir(s))),
            1 => {
                let t = ident(s);
                ds.push(Decl0::Prag(Prag::PushTag(t.clone())));
                end.push(Decl0::Prag(Prag::PopTag(t)));
            }
            2 => {
                let k = key(s);
                ds.push(Decl0::Prag(Prag::PushMeta(k.clone(), g.val(s))));
                end.push(Decl0::Prag(Prag::PopMeta(k)));
            }
            3 => {
                let (n, v) = options.remove(s.below(options.len()));
                ds.push(Decl0::Prag(Prag::Option(n.into(), v.into())));
                if options.is_empty() {
                    break;
                }
            }
            _ => ds.push(Decl0::Prag(Prag::Plugin(gen_ident(s), None))),
        }
    }
    if s.chance(1, 10) {
        end.truncate(end.len() / 2);
    }
    ds.extend(end);
    Files::new(s, ctx, ds, gen_style, (1, 3))
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut shown = String::new();
    let mut files = 1;
    let (root, text) = if s.chance(1, 3) {
        ctx.class("rich");
        let f = rich(s, ctx);
        files = f.texts.len();
        shown = f.texts.join("\n=== \n");
        (f.paths.first().cloned(), f.texts[0].clone())
    } else if s.chance(1, 2) {
        let d = ctx.scratch();
        let names = ["main.bean", "a.bean", "b.bean", "c.bean", "cc.bean"];
        files = s.range(2, names.len());
        for name in &names[..files] {
            let t = if s.chance(1, 8) {
                soup::any_text(s).0
            } else {
                let ds = decls(s, &names[1..files]);
                let style = gen_style(s);
                render_file(s, &ds, 0, style, &Names::default()).0
            };
            if soup::risky(&t) {
                return Ok(());
            }
            shown.push_str(&format!("=== {name}\n{t}"));
            fs::write(d.join(name), t).unwrap();
        }
        (Some(d.join("main.bean")), String::new())
    } else {
        let t = if s.chance(1, 2) {
            soup::any_text(s).0
        } else {
            let ds = decls(s, &["nothing"]);
            let style = gen_style(s);
            render_file(s, &ds, 0, style, &Names::default()).0
        };
        if soup::risky(&t) {
            return Ok(());
        }
        shown.push_str(&t);
        (None, t)
    };
    ctx.input(shown);
    let root = root.as_deref();
    let sources = read(root, &text);
    let parser = BeancountParser::new(&sources);
    let first = outcome(&parser.parse());
    ctx.nontrivial = files > 1 || first.len() > 4;
    ctx.class(first[0].clone());
    if first.iter().any(|e| e.contains("duplicate include")) {
        ctx.class("duplicate include");
    }
    same(&first, &outcome(&parser.parse()), "parsing again with the same parser")?;
    same(&first, &outcome(&BeancountParser::new(&sources).parse()), "parsing with a new parser")?;
    let copy = sources.clone();
    same(&first, &outcome(&BeancountParser::new(&copy).parse()), "parsing a copy of the sources")?;
    // something else in between
    once(None, "option \"name_assets\" \"X\"\npushtag #x\n2020-01-01 open X:A\n2020-01-01 junk\n");
    for _ in 0..3 {
        same(&first, &once(root, &text), "reading and parsing again")?;
    }
    if s.chance(1, 1000) {
        ctx.class("in another process");
        match elsewhere(root, &text) {
            Some(x) => same(&first, &x, "another process")?,
            None => ctx.class("another process gave no answer"),
        }
    }
    if s.chance(1, 8) {
        ctx.class("in threads");
        let (a, b, c) = std::thread::scope(|sc| {
            let a = sc.spawn(|| once(root, &text));
            let b = sc.spawn(|| outcome(&parser.parse()));
            let c = once(root, &text);
            (a.join(), b.join(), c)
        });
        let (Ok(a), Ok(b)) = (a, b) else { return Err("a thread panicked".into()) };
        same(&first, &a, "reading and parsing in another thread")?;
        same(&first, &b, "parsing with the same parser in another thread")?;
        same(&first, &c, "parsing while another thread does")?;
    }
    Ok(())
}
