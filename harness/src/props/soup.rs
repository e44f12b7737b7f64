//! Arbitrary text: token soup, mutated ledgers, random characters.
use super::common::*;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;

pub const TOKENS: &[&str] = &[
    "2020-01-01", "2020/02/29", "2021-13-01", "2020-02-30", "0000-00-00", "12:30", "99:99:99", "1:2", " ", "  ", "\t", "\n", "\n", "\n  ", "\n\t", "\r\n", "\r",
    "*", "!", "&", "#", "?", "%", "'A", "'", "|", "@", "@@", "{", "}", "{{", "}}", ",", "~", "+", "-", "/", "(", ")", ":", ";", "^", "\\", "\"",
    "txn", "balance", "open", "close", "commodity", "pad", "event", "query", "custom", "price", "note", "document", "pushtag", "poptag", "pushmeta", "popmeta",
    "option", "options", "plugin", "Assets:A", "Assets:A:B", "Liabilities:É中", "Foo:Bar", "assets:a", "Assets", "Assets:", "USD", "EUR", "/X", "U", "TRUE", "FALSE", "NULL",
    "\"\"", "\"a\"", "\"é😱\"", "\"a\\nb\"", "\"\\q\"", "\"\\u{110000}\"", "\"\\x4\"", "\"a\nb\"", "\"FIFO\"", "\"fifo\"",
    "\"long_string_maxlines\" \"0\"", "\"name_assets\" \"X\"", "\"title\" \"t\"", "\"operating_currency\" \"USD\"", "\"documents\" \"d\"", "\"inferred_tolerance_default\" \"*:1\"",
    "1", "0", "1.5", "1,000", "1,00", ".5", "5.", "00", "123456789012345678901234567890", "0.0000000000000000000000000000001", "79228162514264337593543950335", "٣", "½",
    "#tag", "#", "#é", "^link", "^", "foo:", "foo: ", "open:", "foo", "f", "a1-_", "F", "é", "😱", "\u{a0}", "\u{feff}", "\u{2028}", "\u{0}", "\u{7f}", "中", "/1.5", "/-A", "1-A", "-1", "+-1",
    "2020-01-01 open Assets:A\n", "2020-01-01 * \"x\"\n  Assets:A 1 USD\n", "  foo: 1\n", "  Assets:B 1 USD {1 # 2 USD, 2020-01-01, \"l\", *} @@ 3 EUR\n", "pushtag #t\n", "poptag #t\n", "pushmeta k: 1\n", "popmeta k:\n",
    "include \"nothing.bean\"\n", "include \"*.bean\"\n", "include \"a**b\"\n", "include \"[\"\n", "include \"\"\n", "include \"\u{0}\"\n",
];

pub fn token_soup(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    let mut n = 0;
    while n < max && s.chance(24, 25) {
        n += 1;
        let k = s.below(TOKENS.len());
        t.push_str(TOKENS[k]);
        if s.chance(1, 2) {
            t.push(' ');
        }
    }
    t
}

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => (32 + s.draw(95)) as u8 as char,
        1 => *s.pick(&['\n', ' ', '\t', '"', ':', ';', '-', '0', '\\', '\r']),
        2 => *s.pick(&['é', '中', '😱', '\u{301}', '\u{a0}', '\u{2003}', '٣', 'Ω', 'ǅ', '\u{feff}', '\u{200b}', '\u{85}', '\u{0}', '\u{ffff}', '\u{10ffff}']),
        _ => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('x'),
    }
}

pub fn random_text(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    let mut n = 0;
    while n < max && s.chance(39, 40) {
        n += 1;
        t.push(gen_char(s));
    }
    t
}

/// declarations of all kinds, balanced or not
pub fn gen_decls(s: &mut Src, max: usize) -> Vec<Decl0> {
    let g = Gen { expr_depth: 2, meta: 3, ..Gen::default() };
    s.list(0, max, 4, 5, |s| match s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1]) {
        0 => Decl0::Dir(g.dir(s)),
        1 => Decl0::Prag(Prag::PushTag(gen_ident(s))),
        2 => Decl0::Prag(Prag::PopTag(gen_ident(s))),
        3 => Decl0::Prag(Prag::PushMeta(gen_key(s), g.val(s))),
        4 => Decl0::Prag(Prag::PopMeta(gen_key(s))),
        5 => Decl0::Prag(Prag::Include(s.pick(&["x.bean", "*.x", "a**b", "[", ""]).to_string())),
        6 => {
            let (n, v) = *s.pick(&[
                ("title", "T"),
                ("name_assets", "X"),
                ("name_income", "Assets"),
                ("long_string_maxlines", "1"),
                ("booking_method", "FIFO"),
                ("operating_currency", "USD"),
                ("inferred_tolerance_default", "USD:0.5"),
                ("nonsense", "1"),
                ("booking_method", "x"),
            ]);
            Decl0::Prag(Prag::Option(n.into(), v.into()))
        }
        _ => {
            let m = gen_str(s);
            let c = s.chance(1, 2).then(|| gen_str(s));
            Decl0::Prag(Prag::Plugin(m, c))
        }
    })
}

pub fn ledger_text(s: &mut Src, max: usize) -> String {
    let decls = gen_decls(s, max);
    let style = gen_style(s);
    render_file(s, &decls, 0, style, &Names::default()).0
}

fn boundary(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// edits at random places
pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut t = text.to_string();
    let mut n = 0;
    while n < 8 && (n == 0 || s.chance(2, 3)) {
        n += 1;
        let i = s.below(t.len() + 1);
        let i = boundary(&t, i);
        let j = s.below(12);
        let j = boundary(&t, (i + j).min(t.len()));
        match s.weighted(&[4, 3, 3, 2, 1, 1]) {
            0 => t.replace_range(i..j.max(i), ""),
            1 => {
                let k = s.below(TOKENS.len());
                t.insert_str(i, TOKENS[k])
            }
            2 => t.insert(i, gen_char(s)),
            3 => {
                let k = s.below(TOKENS.len());
                t.replace_range(i..j.max(i), TOKENS[k])
            }
            4 => t.truncate(i),
            _ => {
                // move a line elsewhere
                let lines: Vec<String> = t.split_inclusive('\n').map(|x| x.to_string()).collect();
                if lines.len() > 1 {
                    let (a, b) = (s.below(lines.len()), s.below(lines.len()));
                    let mut lines = lines;
                    let l = lines.remove(a);
                    lines.insert(b.min(lines.len()), l);
                    t = lines.concat();
                }
            }
        }
    }
    t
}

/// an include which could reach beyond the scratch directory or take long
pub fn risky(t: &str) -> bool {
    let mut rest = t;
    while let Some(i) = rest.find("include") {
        rest = &rest[i + 7..];
        let Some(q) = rest.find('"') else { return false };
        let after = &rest[q + 1..];
        let path = &after[..after.find('"').unwrap_or(after.len())];
        if path.contains('/') || path.contains("..") || path.contains('\\') {
            return true;
        }
    }
    false
}

pub fn any_text(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[3, 3, 5, 1]) {
        0 => (token_soup(s, 60), "tokens in any order"),
        1 => (random_text(s, 120), "characters in any order"),
        2 => {
            let t = ledger_text(s, 8);
            (mutate(s, &t), "edited ledger")
        }
        _ => (ledger_text(s, 8), "ledger"),
    }
}
