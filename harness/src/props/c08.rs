//! Options and plugins.
use super::common::*;
use crate::driver::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};
use beancount_parser_lima::*;
use rust_decimal::Decimal;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "a ledger counts as non-trivial when it has at least two options or plugins, or one option that must be rejected; distinct by its text",
    quick: 1_500_000,
    thorough: 20_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

const SUBACCOUNTS: [&str; 7] = [
    "account_previous_balances",
    "account_previous_earnings",
    "account_previous_conversions",
    "account_current_earnings",
    "account_current_conversions",
    "account_unrealized_gains",
    "account_rounding",
];
const NAME_OPTIONS: [&str; 5] = ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"];

/// name, value, and whether the value is good
fn gen_option(s: &mut Src) -> (String, String, bool) {
    let bad = s.chance(1, 25);
    let pick = |s: &mut Src, xs: &[&str]| s.pick(xs).to_string();
    let (n, v): (&str, String) = match s.weighted(&[3, 4, 2, 3, 2, 2, 4, 4, 2, 2, 2, 1, 5, 2]) {
        0 => return ("title".into(), gen_str(s), true),
        1 => (*s.pick(&SUBACCOUNTS), if bad { pick(s, &["", "a", "A:", ":A", "A::B", "A:b", "A B", "A_B", "A:B:", " A", "A "]) } else { gen_acc(s).sub }),
        2 => ("conversion_currency", if bad { bad_currency(s) } else { gen_cur(s) }),
        3 => (
            "inferred_tolerance_default",
            if bad {
                pick(s, &["", "USD", "USD:", ":1", "USD:x", "USD:1:2", "USD:1:", "USD::1", ":USD:1", "USD: 1", "USD:1 ", "usd:1", "*", "**:1", "USD:1.2.3", "USD 0.5"])
            } else {
                let c = match s.weighted(&[2, 2, 1]) {
                    0 => "*".to_string(),
                    1 => pick(s, &["USD", "EUR"]),
                    _ => gen_cur(s),
                };
                format!("{c}:{}", decimal(s))
            },
        ),
        4 => ("inferred_tolerance_multiplier", if bad { pick(s, &["", "x", "1.2.3", "1 2", "one"]) } else { decimal(s) }),
        5 => ("infer_tolerance_from_cost", if bad { pick(s, &["", "yes", "1", "0", "truee", " true", "T"]) } else { boolean(s) }),
        6 => return ("documents".into(), pick(s, &["docs", "/abs/docs", "a/b", "../up", "é", "docs/../docs"]), true),
        7 => ("operating_currency", if bad { bad_currency(s) } else if s.chance(1, 2) { pick(s, &["USD", "EUR"]) } else { gen_cur(s) }),
        8 => (
            "render_commas",
            if bad {
                pick(s, &["", "yes", "2", "-1", "01", "on"])
            } else if s.chance(1, 3) {
                pick(s, &["0", "1"])
            } else {
                boolean(s)
            },
        ),
        9 => ("booking_method", if bad { pick(s, &["", "strict", "FI", "Fifo", "STRICT ", "STRICTWITHSIZE"]) } else { s.pick(&BOOKINGS).0.to_string() }),
        10 => ("plugin_processing_mode", if bad { pick(s, &["", "raw", "Default", "RAWW"]) } else { pick(s, &["DEFAULT", "RAW"]) }),
        11 => {
            let n = pick(s, &["titl", "", "Title", "name_asset", "account_foo", "plugin", "documents ", "operating_currencies", "filename"]);
            return (n, pick(s, &["x", "", "1"]), false);
        }
        12 => (
            *s.pick(&NAME_OPTIONS),
            if bad {
                pick(s, &["", "assets", "A B", "A:B", "1A", "-A", "A_"])
            } else if s.chance(1, 3) {
                pick(s, &TYPES)
            } else {
                pick(s, &["Vermoegen", "Aktiva", "A", "X-1", "Fé"])
            },
        ),
        _ => ("long_string_maxlines", if bad { pick(s, &["", "-1", "x", "1.5", "1 "]) } else { pick(s, &["64", "100", "99999", "070", "0", "1", "2", "3", "18446744073709551615"]) }),
    };
    (n.to_string(), v, !bad)
}

fn bad_currency(s: &mut Src) -> String {
    s.pick(&["", "usd", "USD-", "/", "/1", "U$D", "UsD", "1USD", "USD EUR", "É"]).to_string()
}

fn decimal(s: &mut Src) -> String {
    let n: String = if s.chance(1, 12) { gen_long_number(s) } else { gen_number(s) }.chars().filter(|c| *c != ',').collect();
    if s.chance(1, 10) {
        format!("-{n}")
    } else {
        n
    }
}

fn boolean(s: &mut Src) -> String {
    s.pick(&["TRUE", "FALSE", "true", "false", "True", "fALSE"]).to_string()
}

fn dec_text(v: &str) -> (i128, u32) {
    match v.strip_prefix('-') {
        Some(v) => {
            let (m, s) = lit_parts(v);
            (-m, s)
        }
        None => lit_parts(v),
    }
}

fn same_dec(want: (i128, u32), got: Decimal) -> bool {
    (got.mantissa(), got.scale()) == want
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let on_disk = s.chance(1, 50);
    // as many files as the first one includes
    let most_included = if !on_disk { 0 } else { *s.pick(&[0, 1, 1, 2, 6]) };
    let mut included = 0;
    let g = Gen { expr_depth: 0, meta: 0, string: |_| String::new(), ..Gen::default() };
    // names as changed by the options of the first file
    let mut names = Names::default();
    // validity of each option, in the order written
    let mut good: Vec<Vec<bool>> = vec![Vec::new()];
    let mut style = gen_style(s);
    style.ignored = false;
    let mut out = Out::new(0, style);
    let mut rds: Vec<Vec<Rd>> = vec![Vec::new()];
    let mut errors: Vec<Sp> = Vec::new();
    let mut n_options = 0;
    // strings beyond the limit in force
    let mut limit = 64usize;
    let mut long: Vec<Sp> = Vec::new();
    // the one which counts in the end
    let mut maxlines: Option<(usize, Sp)> = None;
    let mut texts = Vec::new();
    let mut f = 0;
    while f <= included {
        if f > 0 {
            rds.push(Vec::new());
            good.push(Vec::new());
            out = Out::new(f, style);
            out.names = names.clone();
        }
        let mut seen_strings = 0;
        let max = if f == 0 { 12 } else { 5 };
        let mut n = 0;
        while n < max && s.chance(5, 6) {
            n += 1;
            let limit_was = limit;
            match s.weighted(&[16, 4, 4, if f == 0 && included < most_included { 6 } else { 0 }, 3]) {
                0 => {
                    let (name, value, ok) = gen_option(s);
                    n_options += 1;
                    let rd = out.pragma(s, &Prag::Option(name.clone(), value.clone()));
                    let Rd::Option(_, _, _, vsp) = &rd else { unreachable!() };
                    // these take effect at once
                    if let (Some(i), true) = (NAME_OPTIONS.iter().position(|x| *x == name), ok) {
                        match names.0.iter().position(|x| *x == value) {
                            Some(j) if j != i => errors.push(vsp.clone()),
                            _ => names.0[i] = value.clone(),
                        }
                        out.names = names.clone();
                    }
                    if name == "long_string_maxlines" && ok {
                        limit = value.parse().unwrap();
                        maxlines = Some((limit, vsp.clone()));
                    }
                    good[f].push(ok);
                    rds[f].push(rd);
                }
                1 => {
                    n_options += 1;
                    let c = s.chance(1, 2).then(|| gen_str(s));
                    let m = gen_str(s);
                    let rd = out.pragma(s, &Prag::Plugin(m, c));
                    rds[f].push(rd);
                }
                2 => {
                    let d = Dir { date: gen_date(s), kind: Kind::Open(gen_acc(s), vec![], None), hdr: g.hdr(s), meta: vec![] };
                    let n = out.dir(s, &d).item;
                    rds[f].push(Rd::Dir(n));
                }
                4 => {
                    // a string of several lines, to see what limit is in force
                    let k = *s.pick(&[0, 1, 2, 3, 63, 64, 65, 99, 100]);
                    let d = Dir { date: gen_date(s), kind: Kind::Note(gen_acc(s), "\n".repeat(k)), hdr: vec![], meta: vec![] };
                    let n = out.dir(s, &d).item;
                    rds[f].push(Rd::Dir(n));
                }
                _ => {
                    included += 1;
                    let rd = out.pragma(s, &Prag::Include(format!("inc/more{included}.bean")));
                    rds[f].push(rd);
                }
            }
            for (sp, v) in &out.strings[seen_strings..] {
                if v.matches('\n').count() + 1 > limit_was {
                    long.push(sp.clone());
                }
            }
            seen_strings = out.strings.len();
        }
        texts.push(std::mem::take(&mut out.text));
        f += 1;
    }
    ctx.input(texts.join("\n=== inc/more.bean\n"));
    let mut includes = Includes::new();
    for f in 1..=included {
        includes.insert((0, format!("inc/more{f}.bean")), Some(vec![Target::File(f)]));
    }
    // validity by span
    let mut bad: Vec<Sp> = Vec::new();
    let mut bad_spans: BTreeSet<String> = BTreeSet::new();
    for (f, rds) in rds.iter().enumerate() {
        let opts = rds.iter().filter_map(|r| match r {
            Rd::Option(n, a, _, b) => Some((n, a, b)),
            _ => None,
        });
        for ((name, nsp, vsp), ok) in opts.zip(&good[f]) {
            if !ok {
                bad_spans.insert(format!("{nsp:?}"));
                let unknown = !KNOWN.contains(&name.as_str());
                bad.push(if unknown { nsp.clone() } else { vsp.clone() });
            }
        }
    }
    let m = interpret(&rds, &includes);
    let dir = on_disk.then(|| ctx.scratch().canonicalize().unwrap());
    // the meaning of the options
    let mut single: BTreeMap<String, (String, Sp)> = BTreeMap::new();
    let mut currencies: BTreeSet<String> = BTreeSet::new();
    let mut documents: BTreeSet<PathBuf> = BTreeSet::new();
    let mut tolerances: BTreeMap<String, (i128, u32)> = BTreeMap::new();
    for (name, nsp, value, vsp, f) in &m.options {
        if bad_spans.contains(&format!("{nsp:?}")) {
            continue;
        }
        match name.as_str() {
            n if NAME_OPTIONS.contains(&n) => {}
            "long_string_maxlines" => {}
            "operating_currency" => {
                if !currencies.insert(value.clone()) {
                    errors.push(vsp.clone());
                }
            }
            "documents" => {
                let p = match &dir {
                    None => PathBuf::from(value),
                    Some(d) => d.join(if *f == 0 { "" } else { "inc" }).join(value),
                };
                // spelled by its components
                if !documents.insert(p) {
                    errors.push(vsp.clone());
                }
            }
            "inferred_tolerance_default" => {
                let (c, t) = value.split_once(':').unwrap();
                if tolerances.contains_key(c) {
                    errors.push(vsp.clone());
                } else {
                    tolerances.insert(c.to_string(), dec_text(t));
                }
            }
            n => {
                if single.contains_key(n) {
                    errors.push(nsp.clone());
                } else {
                    single.insert(n.to_string(), (value.clone(), vsp.clone()));
                }
            }
        }
    }
    errors.extend(bad);
    ctx.nontrivial = n_options >= 2 || !errors.is_empty();
    ctx.class(if errors.is_empty() { "accepted" } else { "rejected" });

    let sources = match &dir {
        None => BeancountSources::from(texts[0].as_str()),
        Some(d) => {
            fs::create_dir_all(d.join("inc")).unwrap();
            fs::write(d.join("main.bean"), &texts[0]).unwrap();
            for f in 1..=included {
                fs::write(d.join(format!("inc/more{f}.bean")), &texts[f]).unwrap();
            }
            BeancountSources::try_from(d.join("main.bean")).map_err(|e| e.to_string())?
        }
    };
    let parser = BeancountParser::new(&sources);
    let warned = |ws: &[Warning]| -> R {
        let (want, got) = (spans_of(&long), error_spans(ws));
        if want != got {
            return Err(format!("expected warnings at {want:?}, got {got:?}: {}", show_errors(ws)));
        }
        Ok(())
    };
    let r = match parser.parse() {
        Err(e) => {
            warned(&e.warnings)?;
            let (want, got) = (spans_of(&errors), error_spans(&e.errors));
            if want != got {
                return Err(format!("expected errors at {want:?}, got {got:?}: {}", show_errors(&e.errors)));
            }
            return Ok(());
        }
        Ok(_) if !errors.is_empty() => return Err(format!("accepted, but errors were expected at {errors:?}")),
        Ok(r) => r,
    };
    warned(&r.warnings)?;
    tree::diff_all(&in_order(m.dirs), &actual::directives(&r.directives), true)?;
    tree::diff_all(&m.plugins, &plugins(&r.plugins), true)?;
    let o = &r.options;

    // single valued
    let check = |name: &str, got: Option<(String, Sp)>| -> R {
        let want = single.get(name).cloned();
        if want != got {
            return Err(format!("option {name}: expected {want:?}, got {got:?}"));
        }
        Ok(())
    };
    let lower = |name: &str, got: Option<(bool, Sp)>| -> R {
        let want = single.get(name).map(|(v, sp)| (v.eq_ignore_ascii_case("true") || v == "1", sp.clone()));
        if want != got {
            return Err(format!("option {name}: expected {want:?}, got {got:?}"));
        }
        Ok(())
    };
    fn text<T: AsRef<str>>(x: Option<&Spanned<T>>) -> Option<(String, Sp)> {
        x.map(|x| (x.item().as_ref().to_string(), at(x.span())))
    }
    check("title", o.title().map(|x| (x.item().to_string(), at(x.span()))))?;
    check("account_previous_balances", text(o.account_previous_balances()))?;
    check("account_previous_earnings", text(o.account_previous_earnings()))?;
    check("account_previous_conversions", text(o.account_previous_conversions()))?;
    check("account_current_earnings", text(o.account_current_earnings()))?;
    check("account_current_conversions", text(o.account_current_conversions()))?;
    check("account_unrealized_gains", text(o.account_unrealized_gains()))?;
    check("account_rounding", text(o.account_rounding()))?;
    check("conversion_currency", text(o.conversion_currency()))?;
    check("booking_method", text(o.booking_method()))?;
    check(
        "plugin_processing_mode",
        o.plugin_processing_mode().map(|x| {
            let v = match x.item() {
                PluginProcessingMode::Default => "DEFAULT",
                PluginProcessingMode::Raw => "RAW",
            };
            (v.to_string(), at(x.span()))
        }),
    )?;
    lower("infer_tolerance_from_cost", o.infer_tolerance_from_cost().map(|x| (*x.item(), at(x.span()))))?;
    lower("render_commas", o.render_commas().map(|x| (*x.item(), at(x.span()))))?;
    let want = single.get("inferred_tolerance_multiplier").map(|(v, sp)| (dec_text(v), sp.clone()));
    let got = o.inferred_tolerance_multiplier().map(|x| ((x.item().mantissa(), x.item().scale()), at(x.span())));
    if want != got {
        return Err(format!("inferred_tolerance_multiplier: expected {want:?}, got {got:?}"));
    }
    let got = o.long_string_maxlines().map(|x| (*x.item(), at(x.span())));
    if maxlines != got {
        return Err(format!("long_string_maxlines: expected {maxlines:?}, got {got:?}"));
    }
    // many valued
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    let got = sorted(o.operating_currency().map(|c| c.as_ref().to_string()).collect());
    if got != currencies.iter().cloned().collect::<Vec<_>>() {
        return Err(format!("operating_currency: expected {currencies:?}, got {got:?}"));
    }
    let mut got: Vec<_> = o.documents().cloned().collect();
    got.sort();
    if got != documents.iter().cloned().collect::<Vec<_>>() {
        return Err(format!("documents: expected {documents:?}, got {got:?}"));
    }
    let mut got: Vec<(String, Decimal)> =
        o.inferred_tolerance_defaults().map(|(c, d)| (c.map_or("*".to_string(), |c| c.as_ref().to_string()), d)).collect();
    got.sort();
    if got.len() != tolerances.len() || !got.iter().zip(&tolerances).all(|(g, w)| g.0 == *w.0 && same_dec(*w.1, g.1)) {
        return Err(format!("inferred_tolerance_defaults: expected {tolerances:?}, got {got:?}"));
    }
    let any = tolerances.get("*");
    for c in ["USD", "EUR", "ZZZ"].into_iter().chain(tolerances.keys().filter(|k| *k != "*").map(|k| k.as_str())) {
        let want = tolerances.get(c).or(any);
        let got = o.inferred_tolerance_default(&Currency::try_from(c).unwrap());
        if got.is_some() != want.is_some() || got.is_some_and(|g| !same_dec(*want.unwrap(), g)) {
            return Err(format!("inferred_tolerance_default of {c}: expected {want:?}, got {got:?}"));
        }
    }
    let got = o.inferred_tolerance_default_fallback();
    if got.is_some() != any.is_some() || got.is_some_and(|g| !same_dec(*any.unwrap(), g)) {
        return Err(format!("inferred_tolerance_default_fallback: expected {any:?}, got {got:?}"));
    }
    use AccountType::*;
    for (i, t) in [Assets, Liabilities, Equity, Income, Expenses].into_iter().enumerate() {
        let got = o.account_type_name(t).as_ref();
        if got != names.0[i] {
            return Err(format!("account_type_name({t:?}): expected {}, got {got}", names.0[i]));
        }
    }
    Ok(())
}

const KNOWN: [&str; 23] = [
    "title",
    "name_assets",
    "name_liabilities",
    "name_equity",
    "name_income",
    "name_expenses",
    "account_previous_balances",
    "account_previous_earnings",
    "account_previous_conversions",
    "account_current_earnings",
    "account_current_conversions",
    "account_unrealized_gains",
    "account_rounding",
    "conversion_currency",
    "inferred_tolerance_default",
    "inferred_tolerance_multiplier",
    "infer_tolerance_from_cost",
    "documents",
    "operating_currency",
    "render_commas",
    "long_string_maxlines",
    "booking_method",
    "plugin_processing_mode",
];
