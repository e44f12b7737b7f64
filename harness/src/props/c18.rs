//! Validated names.
use super::common::*;
use crate::driver::*;
use crate::model::*;
use crate::src::{hash_bytes, Src};
use beancount_parser_lima::*;
use std::fmt::{Debug, Display};

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "a name counts as non-trivial when it has at least two characters and is either valid, or invalid by at most two characters; distinct by kind and name",
    quick: 5_000_000,
    thorough: 100_000_000,
    run,
    bounds_memory: false,
    known: no_known,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Currency,
    Key,
    Tag,
    Link,
    Account,
    Type,
    Sub,
    Flag,
}

const KINDS: [K; 8] = [K::Currency, K::Key, K::Tag, K::Link, K::Account, K::Type, K::Sub, K::Flag];

fn word(c: char) -> bool {
    c.is_alphabetic() || c.is_numeric()
}

/// characters at which the rule is broken, or why else it is; nothing for a valid name
fn faults(k: K, name: &str) -> Vec<Option<char>> {
    let cs: Vec<char> = name.chars().collect();
    let n = cs.len();
    if n == 0 {
        return vec![None];
    }
    let upper = |c: char| ('A'..='Z').contains(&c);
    let digit = |c: char| ('0'..='9').contains(&c);
    let bad = |f: &dyn Fn(usize, char) -> bool| cs.iter().enumerate().filter(|(i, c)| !f(*i, **c)).map(|(_, c)| Some(*c)).collect::<Vec<_>>();
    match k {
        K::Currency => {
            let mut b = bad(&|i, c| {
                let inner = upper(c) || digit(c) || "'._-".contains(c);
                (i != 0 || upper(c) || c == '/') && (i + 1 != n || upper(c) || digit(c)) && (i == 0 || inner)
            });
            if b.is_empty() && !cs.iter().any(|c| upper(*c)) {
                b.push(None);
            }
            b
        }
        K::Key => bad(&|i, c| if i == 0 { c.is_ascii_lowercase() } else { word(c) || c == '-' || c == '_' }),
        K::Tag | K::Link => bad(&|_, c| word(c) || "-_/.".contains(c)),
        K::Account => account(name),
        K::Sub => name.split(':').flat_map(account).collect(),
        K::Type => bad(&|i, c| if i == 0 { upper(c) } else { word(c) || c == '-' }),
        K::Flag => {
            if n == 1 {
                bad(&|_, c| upper(c))
            } else {
                vec![None]
            }
        }
    }
}

fn account(name: &str) -> Vec<Option<char>> {
    if name.is_empty() {
        return vec![None];
    }
    name.chars()
        .enumerate()
        .filter(|&(i, c)| {
            !if i == 0 {
                c.is_ascii_uppercase() || c.is_ascii_digit() || (c as u32 > 127 && c.is_alphabetic())
            } else {
                word(c) || c == '-'
            }
        })
        .map(|(_, c)| Some(c))
        .collect()
}

fn any_char(s: &mut Src) -> char {
    match s.weighted(&[6, 4, 4, 6, 6, 2]) {
        0 => (b'A' + s.draw(26) as u8) as char,
        1 => (b'a' + s.draw(26) as u8) as char,
        2 => (b'0' + s.draw(10) as u8) as char,
        3 => *s.pick(&['\'', '.', '_', '-', '/', ':', '#', '^', ' ', '\n', '\t', '"', ';', '*', '@', '[', '`', '{', '+', ',', '\0', '~']),
        4 => *s.pick(&[
            'é', 'É', '中', 'ß', 'ǅ', 'ª', '½', '²', '٣', 'Ⅷ', '①', '\u{301}', '\u{345}', '😱', '\u{a0}', 'ж', 'Ж', 'Ａ', 'ａ', '１', 'ʰ', '\u{85}', '\u{200d}',
            '\u{ffff}', '\u{10ffff}', 'ı', 'İ', 'K',
        ]),
        _ => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('x'),
    }
}

fn good(s: &mut Src, k: K) -> String {
    match k {
        K::Currency => gen_cur(s),
        K::Key => gen_key(s),
        K::Tag | K::Link => gen_ident(s),
        K::Account => gen_component(s),
        K::Type => s.pick(&["Assets", "A", "Ausgaben", "Zürich-1", "X9", "Å", "Income-x"]).to_string(),
        K::Sub => {
            let n = if s.chance(1, 30) { s.range(5, 24) } else { s.range(1, 4) };
            (0..n).map(|_| gen_component(s)).collect::<Vec<_>>().join(":")
        }
        K::Flag => ((b'A' + s.draw(26) as u8) as char).to_string(),
    }
}

fn name(s: &mut Src, k: K) -> String {
    if s.chance(1, 4) {
        let n = s.range(0, if k == K::Flag { 1 } else { 6 });
        return (0..n).map(|_| any_char(s)).collect();
    }
    let mut cs: Vec<char> = good(s, k).chars().collect();
    for _ in 0..s.below(3) {
        let i = match s.below(4) {
            0 => 0,
            1 => cs.len(),
            _ => s.below(cs.len() + 1),
        };
        match s.below(3) {
            0 => cs.insert(i, any_char(s)),
            1 if i < cs.len() => cs[i] = any_char(s),
            _ if i < cs.len() => {
                cs.remove(i);
            }
            _ => {}
        }
    }
    if k == K::Flag {
        cs.truncate(1);
    }
    cs.into_iter().collect()
}

fn judge<'a, T>(k: K, name: &'a str, shown: String, as_str: impl Fn(&T) -> &'a str) -> R
where
    T: TryFrom<&'a str> + AsRef<str> + Display + PartialEq + Clone + Debug + Into<&'a str>,
    <T as TryFrom<&'a str>>::Error: Display + Debug,
{
    let faults = faults(k, name);
    match T::try_from(name) {
        Ok(t) => {
            if !faults.is_empty() && !(name.is_empty() && matches!(k, K::Tag | K::Link)) {
                return Err(format!("{k:?} {name:?} is accepted, in spite of {faults:?}"));
            }
            if t.as_ref() != name || as_str(&t) != name || Into::<&str>::into(t.clone()) != name {
                return Err(format!("{k:?} {name:?} gives {:?}", t.as_ref()));
            }
            if t.to_string() != shown {
                return Err(format!("{k:?} {name:?} is displayed as {t}"));
            }
            if t != t.clone() {
                return Err(format!("{k:?} {name:?} is not equal to itself"));
            }
            Ok(())
        }
        Err(e) => {
            if faults.is_empty() {
                return Err(format!("{k:?} {name:?} is rejected: {e}"));
            }
            let e = e.to_string();
            let named: Vec<char> = faults.iter().flatten().copied().collect();
            if named.len() == faults.len() && !named.iter().any(|c| e.contains(*c)) {
                return Err(format!("{k:?} {name:?} is rejected because of {named:?}, but the reason given is {e}"));
            }
            Ok(())
        }
    }
}

/// how a name compares with a text
fn against<'a, T: TryFrom<&'a str> + PartialEq<&'a str>>(name: &'a str, text: &'a str) -> R {
    match T::try_from(name) {
        Ok(t) if (t == text) != (name == text) => Err(format!("{name:?} compared with {text:?} gives {}", t == text)),
        _ => Ok(()),
    }
}

fn same_hash<'a, T: TryFrom<&'a str> + Eq + std::hash::Hash>(a: &'a str, b: &'a str) -> R {
    use std::hash::{BuildHasher, RandomState};
    if let (Ok(x), Ok(y)) = (T::try_from(a), T::try_from(b)) {
        let h = RandomState::new();
        if (x == y) != (a == b) || (a == b && h.hash_one(&x) != h.hash_one(&y)) {
            return Err(format!("{a:?} and {b:?} are{} equal, and hash{} the same", if x == y { "" } else { " not" }, if h.hash_one(&x) == h.hash_one(&y) { "" } else { " not" }));
        }
    }
    Ok(())
}

/// how two names compare
fn compare<'a, T: TryFrom<&'a str> + Ord + std::hash::Hash>(a: &'a str, b: &'a str) -> R {
    if let (Ok(x), Ok(y)) = (T::try_from(a), T::try_from(b)) {
        if x.cmp(&y) != a.cmp(b) || (x == y) != (a == b) {
            return Err(format!("{a:?} and {b:?} compare as {:?}", x.cmp(&y)));
        }
    }
    Ok(())
}

/// the name as read from a ledger with nothing else in it, if it is accepted there
fn read(k: K, name: &str) -> Option<Vec<String>> {
    let text = match k {
        K::Currency => format!("2020-01-01 commodity {name}\n2020-01-01 open Assets:A {name}\n2020-01-02 price {name} 1 {name}\n"),
        K::Key => format!("2020-01-01 close Assets:A\n  {name}: 1\n"),
        K::Tag => format!("2020-01-01 close Assets:A #{name}\n"),
        K::Link => format!("2020-01-01 close Assets:A ^{name}\n"),
        K::Account | K::Sub => format!("2020-01-01 close Assets:{name}\n"),
        K::Type => format!("option \"name_assets\" \"{name}\"\n2020-01-01 close {name}:A\n"),
        K::Flag => format!("2020-01-01 '{name} \"x\"\n"),
    };
    parse_text(&text, |_, r| {
        let r = r.ok()?;
        let mut v = Vec::new();
        for d in &r.directives {
            match d.variant() {
                DirectiveVariant::Commodity(c) => v.push(c.currency().item().as_ref().to_string()),
                DirectiveVariant::Open(o) => v.extend(o.currencies().map(|c| c.item().as_ref().to_string())),
                DirectiveVariant::Price(p) => {
                    v.push(p.currency().item().as_ref().to_string());
                    v.push(p.amount().currency().item().as_ref().to_string())
                }
                DirectiveVariant::Close(c) => {
                    let a: String = c.account().item().as_ref().into();
                    match k {
                        K::Account | K::Sub => v.push(a.split_once(':')?.1.into()),
                        K::Type => v.push(a.split_once(':')?.0.into()),
                        K::Key => v.extend(d.metadata().key_values().map(|(k, _)| k.item().as_ref().to_string())),
                        K::Tag => v.extend(d.metadata().tags().map(|t| t.item().as_ref().to_string())),
                        _ => v.extend(d.metadata().links().map(|t| t.item().as_ref().to_string())),
                    }
                }
                DirectiveVariant::Transaction(t) => match t.flag().item() {
                    Flag::Letter(l) => v.push(l.char().to_string()),
                    x => v.push(format!("{x}")),
                },
                _ => {}
            }
        }
        Some(v)
    })
}

/// valid names which the syntax of ledgers has no room for
fn unwritable(k: K, name: &str) -> bool {
    match k {
        K::Currency => matches!(name, "TRUE" | "FALSE" | "NULL"),
        K::Key => name.len() < 2 || !name.is_ascii(),
        K::Tag | K::Link => name.is_empty() || !name.is_ascii(),
        // these are told by the classes of letters
        K::Account | K::Sub | K::Type => !name.is_ascii(),
        K::Flag => false,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = *s.pick(&KINDS);
    ctx.class(format!("{k:?}"));
    let n = name(s, k);
    ctx.input(format!("{k:?} {n:?}"));
    let faults = faults(k, &n);
    ctx.class(if faults.is_empty() { "valid" } else { "invalid" });
    ctx.nontrivial = (n.chars().count() >= 2 || k == K::Flag) && faults.len() <= 2;
    match k {
        K::Currency => judge::<Currency>(k, &n, n.clone(), |c| c.into())?,
        K::Key => judge::<Key>(k, &n, n.clone(), |c| c.into())?,
        K::Tag => judge::<Tag>(k, &n, format!("#{n}"), |c| c.into())?,
        K::Link => judge::<Link>(k, &n, format!("^{n}"), |c| c.into())?,
        K::Account => judge::<AccountName>(k, &n, n.clone(), |c| c.into())?,
        K::Type => judge::<AccountTypeName>(k, &n, n.clone(), |c| c.into())?,
        K::Sub => judge::<Subaccount>(k, &n, n.clone(), |c| c.into())?,
        K::Flag => {
            if let Some(c) = n.chars().next() {
                match FlagLetter::try_from(c) {
                    Ok(l) if l.char() != c || !faults.is_empty() => return Err(format!("flag letter {c:?} is accepted as {l:?}")),
                    Err(e) if faults.is_empty() => return Err(format!("flag letter {c:?} is rejected: {e}")),
                    Err(e) if !e.to_string().contains(c) => return Err(format!("flag letter {c:?} is rejected because {e}")),
                    _ => {}
                }
            }
        }
    }
    if s.chance(1, 4) {
        let m = match s.below(9) {
            8 => {
                let x = *s.pick(&["#", "^", "'", " ", ":", "Assets:", "\0"]);
                if s.chance(1, 2) {
                    format!("{x}{n}")
                } else {
                    format!("{n}{x}")
                }
            }
            0 => n.clone(),
            1 => n.to_lowercase(),
            2 => format!("{n}X"),
            _ => name(s, k),
        };
        match k {
            K::Currency => against::<Currency>(&n, &m)?,
            K::Key => against::<Key>(&n, &m)?,
            K::Tag => against::<Tag>(&n, &m)?,
            K::Link => against::<Link>(&n, &m)?,
            K::Account => against::<AccountName>(&n, &m)?,
            K::Type => against::<AccountTypeName>(&n, &m)?,
            _ => {}
        }
        match k {
            K::Currency => same_hash::<Currency>(&n, &m)?,
            K::Key => same_hash::<Key>(&n, &m)?,
            K::Tag => same_hash::<Tag>(&n, &m)?,
            K::Link => same_hash::<Link>(&n, &m)?,
            K::Sub => same_hash::<Subaccount>(&n, &m)?,
            K::Type => same_hash::<AccountTypeName>(&n, &m)?,
            K::Account => {
                if let (Ok(x), Ok(y)) = (AccountName::try_from(n.as_str()), AccountName::try_from(m.as_str())) {
                    if x.cmp(&y) != n.cmp(&m) || (x == y) != (n == m) {
                        return Err(format!("{n:?} and {m:?} compare as {:?}", x.cmp(&y)));
                    }
                }
            }
            K::Flag => {}
        }
        match k {
            K::Currency => compare::<Currency>(&n, &m)?,
            K::Key => compare::<Key>(&n, &m)?,
            K::Sub => compare::<Subaccount>(&n, &m)?,
            K::Type => compare::<AccountTypeName>(&n, &m)?,
            _ => {}
        }
    }
    // in these the context would be read otherwise
    if (n.contains(['"', '\\', '\n']) && k == K::Type) || (n.contains(':') && k == K::Account) {
        return Ok(());
    }
    // as written in a ledger
    let h = hash_bytes(n.as_bytes());
    if h % 4 != 0 {
        return Ok(());
    }
    ctx.class("written in a ledger");
    let r = read(k, &n);
    let whole = if k == K::Currency { 4 } else { 1 };
    match (&r, faults.is_empty()) {
        (Some(v), true) if v.len() != whole || v.iter().any(|x| *x != n) => Err(format!("{k:?} {n:?} is read as {v:?}")),
        (None, true) if !unwritable(k, &n) && !(k == K::Type && ["Liabilities", "Equity", "Income", "Expenses"].contains(&n.as_str())) => {
            Err(format!("a ledger with {k:?} {n:?} is rejected"))
        }
        (Some(v), false) if v.len() == whole && v.iter().all(|x| *x == n) => {
            Err(format!("{k:?} {n:?} is accepted in a ledger, in spite of {faults:?}"))
        }
        _ => Ok(()),
    }
}
