//! The reference model of a ledger: what was written, how it is rendered as text in many layouts,
//! and which tree (with spans) is expected of the parser.
use crate::src::Src;
use crate::tree::*;

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug)]
pub enum E {
    Num(String),
    Sign(bool, Box<E>),
    Paren(Box<E>),
    Bin(char, Box<E>, Box<E>),
}

pub fn lit_parts(s: &str) -> (i128, u32) {
    let t: String = s.chars().filter(|c| *c != ',').collect();
    let (i, f) = t.split_once('.').unwrap_or((&t, ""));
    (format!("{i}{f}").parse().unwrap(), f.len() as u32)
}

/// no value for certain, or none that can be told here
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// division by zero or overflow
    Fails,
    TooBig,
}

/// a fraction in lowest terms, the decimal it is exactly if any, and how far off the real thing may be
#[derive(Clone, Debug)]
pub struct Val1 {
    pub n: i128,
    pub d: i128,
    pub dec: Option<(i128, u32)>,
    pub err: f64,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    (a as i128).max(1)
}

impl Val1 {
    fn new(n: i128, d: i128, err: f64) -> Result<Self, Bad> {
        let g = gcd(n, d);
        let (n, d) = (n / g, d / g);
        let mut v = Val1 { n, d, dec: None, err };
        // a terminating decimal which fits?
        let mut rest = d;
        let (mut twos, mut fives) = (0u32, 0u32);
        while rest % 2 == 0 {
            rest /= 2;
            twos += 1;
        }
        while rest % 5 == 0 {
            rest /= 5;
            fives += 1;
        }
        let sc = twos.max(fives);
        if rest == 1 && sc <= 24 && err == 0.0 {
            if let Some(m) = n.checked_mul(10i128.pow(sc) / d) {
                if m.abs() < 10i128.pow(27) {
                    v.dec = Some((m, sc));
                }
            }
        }
        if v.dec.is_none() {
            v.err += v.f().abs() * 1e-26 + 1e-26;
        }
        Ok(v)
    }

    pub fn f(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
}

impl E {
    pub fn shape(&self) -> String {
        match self {
            E::Num(s) => {
                let (m, sc) = lit_parts(s);
                format!("[{m}e-{sc}]")
            }
            E::Sign(true, e) => format!("-{}", e.shape()),
            E::Sign(false, e) => e.shape(),
            E::Paren(e) => format!("<{}>", e.shape()),
            E::Bin(op, a, b) => format!("({}{op}{})", a.shape(), b.shape()),
        }
    }

    pub fn scale(&self) -> u32 {
        match self {
            E::Num(s) => lit_parts(s).1,
            E::Sign(_, e) | E::Paren(e) => e.scale(),
            E::Bin(_, a, b) => a.scale().max(b.scale()),
        }
    }

    /// exact value, as long as it is small and free of division
    fn exact(&self) -> Option<(i128, u32)> {
        self.eval().ok()?.dec
    }

    /// evaluate in exact rational arithmetic, along with a bound on the error which a decimal
    /// of 28 significant digits may have made
    pub fn eval(&self) -> Result<Val1, Bad> {
        let v = match self {
            E::Num(s) => {
                let (m, sc) = lit_parts(s);
                Val1::new(m, 10i128.checked_pow(sc).ok_or(Bad::TooBig)?, 0.0)?
            }
            E::Sign(n, e) => {
                let mut v = e.eval()?;
                if *n {
                    v.n = -v.n;
                    v.dec = v.dec.map(|(m, s)| (-m, s));
                }
                v
            }
            E::Paren(e) => e.eval()?,
            E::Bin(op, a, b) => {
                // what fails for certain takes precedence over what can't be told
                let (a, b) = match (a.eval(), b.eval()) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(Bad::Fails), _) | (_, Err(Bad::Fails)) => return Err(Bad::Fails),
                    _ => return Err(Bad::TooBig),
                };
                let big = match op {
                    '*' => a.f() * b.f(),
                    '+' => a.f() + b.f(),
                    '-' => a.f() - b.f(),
                    _ if b.dec == Some((0, 0)) => return Err(Bad::Fails),
                    _ if b.n == 0 || b.err * 2.0 >= b.f().abs() => return Err(Bad::TooBig),
                    _ => a.f() / b.f(),
                };
                if big.abs() > 8.0e28 && a.err < 1.0 && b.err == 0.0 {
                    return Err(Bad::Fails);
                }
                if big.abs() > 1e26 {
                    return Err(Bad::TooBig);
                }
                let m = |x: i128, y: i128| x.checked_mul(y).ok_or(Bad::TooBig);
                let (n, d, e) = match op {
                    '*' => {
                        // cancel first
                        let (g, h) = (gcd(a.n, b.d), gcd(b.n, a.d));
                        (m(a.n / g, b.n / h)?, m(a.d / h, b.d / g)?, a.err * b.f().abs() + b.err * a.f().abs() + a.err * b.err)
                    }
                    '/' => {
                        let (g, h) = (gcd(a.n, b.n), gcd(a.d, b.d));
                        let s = b.n.signum();
                        let e = (a.err + big.abs() * b.err) / (b.f().abs() - b.err);
                        (m(a.n / g * s, b.d / h)?, m(a.d / h, (b.n / g).abs())?, e)
                    }
                    _ => {
                        let g = gcd(a.d, b.d);
                        let (x, y) = (m(a.n, b.d / g)?, m(b.n, a.d / g)?);
                        let n = if *op == '+' { x.checked_add(y) } else { x.checked_sub(y) };
                        (n.ok_or(Bad::TooBig)?, m(a.d, b.d / g)?, a.err + b.err)
                    }
                };
                Val1::new(n, d, e)?
            }
        };
        Ok(v)
    }

    /// the value to be expected, unless it is too close to call
    pub fn value(&self) -> Option<(i128, u32)> {
        let v = self.eval().ok()?;
        let sc = self.scale();
        let p = 10i128.pow(sc);
        let num = v.n.checked_mul(p)?;
        let (q, r) = (num / v.d, (num % v.d).abs());
        if q.abs() >= 10i128.pow(27) {
            return None;
        }
        if v.err > 0.0 {
            let gap = (2.0 * r as f64 - v.d as f64).abs() / (2.0 * v.d as f64) - 1e-9;
            if gap <= v.err * p as f64 * 4.0 {
                return None;
            }
        }
        let up = r >= v.d - r;
        Some((if up { q + v.n.signum() } else { q }, sc))
    }

    pub fn node(&self, name: &str, sp: Sp) -> Node {
        let v = match self.value() {
            Some((m, s)) => format!("value={m}e-{s}"),
            None => match self.eval() {
                Err(Bad::Fails) => "value=fails".to_string(),
                Err(Bad::TooBig) => "value=unknown".to_string(),
                Ok(_) => "value=*".to_string(),
            },
        };
        Node::node(name, sp, vec![Node::leaf(format!("expr={}", self.shape()), Sp::Any), Node::leaf(v, Sp::Any)])
    }

    /// a bound of the magnitude of this and every intermediate value
    pub fn bound(&self) -> (f64, f64) {
        match self {
            E::Num(s) => {
                let (m, sc) = lit_parts(s);
                let v = m as f64 / 10f64.powi(sc as i32);
                (v, v)
            }
            E::Sign(_, e) | E::Paren(e) => e.bound(),
            E::Bin(op, a, b) => {
                let ((x, mx), (y, my)) = (a.bound(), b.bound());
                let v = match op {
                    '*' => x * y,
                    '/' => match b.exact() {
                        Some((m, sc)) if m != 0 => x / (m.abs() as f64 / 10f64.powi(sc as i32)),
                        _ => f64::INFINITY,
                    },
                    _ => x + y,
                };
                (v, v.max(mx).max(my))
            }
        }
    }

    pub fn ops(&self) -> usize {
        match self {
            E::Num(_) => 0,
            E::Sign(_, e) | E::Paren(e) => e.ops(),
            E::Bin(_, a, b) => 1 + a.ops() + b.ops(),
        }
    }
}

pub fn gen_number(s: &mut Src) -> String {
    let n = s.weighted(&[6, 4, 2, 1]);
    let digits = |s: &mut Src, k: usize| -> String { (0..k).map(|_| (b'0' + s.draw(10) as u8) as char).collect() };
    let int = match n {
        0 => digits(s, 1),
        1 => {
            let k = s.range(2, 4);
            digits(s, k)
        }
        2 => {
            // thousands separators
            let k = s.range(1, 3);
            let mut t = digits(s, k);
            for _ in 0..s.range(1, 2) {
                t.push(',');
                t.push_str(&digits(s, 3));
            }
            t
        }
        _ => {
            let k = s.range(5, 9);
            digits(s, k)
        }
    };
    if s.chance(1, 2) {
        let k = s.range(1, 4);
        let k = if s.chance(1, 10) { k + 4 } else { k };
        format!("{int}.{}", digits(s, k))
    } else {
        int
    }
}

/// of many digits, at most 27
pub fn gen_long_number(s: &mut Src) -> String {
    if s.chance(1, 5) {
        // very small
        let z = "0".repeat(s.range(5, 20));
        return format!("0.{z}{}", s.range(1, 99999));
    }
    let k = s.range(8, 27);
    let f = if s.chance(1, 2) { s.below(k.min(20)) } else { 0 };
    let t: String = (0..k).map(|i| (b'0' + if i == 0 { 1 + s.draw(9) } else { s.draw(10) } as u8) as char).collect();
    let (int, frac) = t.split_at(k - f);
    let mut out = String::new();
    let commas = s.chance(1, 2);
    for (i, c) in int.chars().enumerate() {
        if commas && i > 0 && (int.len() - i) % 3 == 0 {
            out.push(',');
        }
        out.push(c);
    }
    if f > 0 {
        out.push('.');
        out.push_str(frac);
    }
    out
}

pub fn gen_factor(s: &mut Src, depth: usize, div: bool) -> E {
    let e = if depth > 0 && s.chance(1, 3) {
        E::Paren(Box::new(gen_expr(s, depth - 1, div)))
    } else {
        E::Num(gen_number(s))
    };
    match s.weighted(&[6, 2, 1]) {
        0 => e,
        1 => E::Sign(true, Box::new(e)),
        _ => E::Sign(false, Box::new(e)),
    }
}

pub fn gen_product(s: &mut Src, depth: usize, div: bool) -> E {
    let mut e = gen_factor(s, depth, div);
    let mut n = 0;
    while depth > 0 && n < 3 && s.chance(1, 4) {
        let op = if div && s.chance(1, 3) { '/' } else { '*' };
        let mut f = gen_factor(s, depth - 1, div);
        if op == '/' && matches!(f.exact(), None | Some((0, _))) {
            f = E::Num("7".into());
        }
        e = E::Bin(op, Box::new(e), Box::new(f));
        n += 1;
    }
    e
}

/// an expression of the grammar; depth zero is a single, possibly signed, number
pub fn gen_expr(s: &mut Src, depth: usize, div: bool) -> E {
    let mut e = gen_product(s, depth, div);
    let mut n = 0;
    while depth > 0 && n < 3 && s.chance(1, 4) {
        let op = if s.chance(1, 2) { '-' } else { '+' };
        let f = gen_product(s, depth - 1, div);
        e = E::Bin(op, Box::new(e), Box::new(f));
        n += 1;
    }
    e
}

// ---------------------------------------------------------------- names

pub const TYPES: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];
pub const KEYWORDS: [&str; 20] = [
    "txn", "balance", "open", "close", "commodity", "pad", "event", "query", "custom", "price", "note", "document",
    "pushtag", "poptag", "pushmeta", "popmeta", "option", "options", "plugin", "include",
];

/// names of the account types in force, in the order of TYPES
#[derive(Clone, Debug)]
pub struct Names(pub [String; 5]);

impl Default for Names {
    fn default() -> Self {
        Names(TYPES.map(|s| s.to_string()))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub ty: usize,
    pub sub: String,
}

pub fn gen_component(s: &mut Src) -> String {
    let mut t = String::new();
    match s.weighted(&[10, 3, 2]) {
        0 => t.push((b'A' + s.draw(26) as u8) as char),
        1 => t.push((b'0' + s.draw(10) as u8) as char),
        _ => t.push(*s.pick(&['É', '中', 'Ж', 'א', 'Ω', 'あ', '한', 'Ǆ', '𝐀'])),
    }
    let n = s.upto(6, 60);
    let n = s.range(0, n);
    for _ in 0..n {
        match s.weighted(&[12, 3, 2, 2, 2]) {
            0 => t.push((b'a' + s.draw(26) as u8) as char),
            1 => t.push((b'A' + s.draw(26) as u8) as char),
            2 => t.push((b'0' + s.draw(10) as u8) as char),
            3 => t.push('-'),
            _ => t.push(*s.pick(&['é', '国', 'ж', 'ß', '𝒳', '½', '٣', 'ñ'])),
        }
    }
    t
}

pub fn gen_acc(s: &mut Src) -> Acc {
    let ty = s.below(5);
    let sub = if s.chance(1, 2) {
        let n = s.upto(3, 20);
        let n = s.range(1, n);
        let mut t = Vec::new();
        for _ in 0..n {
            t.push(gen_component(s));
        }
        t.join(":")
    } else {
        s.pick(&["Cash", "Bank:Checking", "Food", "A", "Opening-Balances"]).to_string()
    };
    Acc { ty, sub }
}

pub fn gen_cur(s: &mut Src) -> String {
    if s.chance(1, 2) {
        return s.pick(&["USD", "EUR", "GBP", "HOOL", "V"]).to_string();
    }
    loop {
        let slash = s.chance(1, 5);
        let mut t = String::new();
        if slash {
            t.push('/');
            for _ in 0..s.range(0, 2) {
                t.push(*s.pick(&['1', '0', '\'', '.', '_', '-', '7']));
            }
        }
        t.push((b'A' + s.draw(26) as u8) as char);
        let n = s.upto(8, 40);
        let n = s.range(0, n);
        for _ in 0..n {
            match s.weighted(&[8, 3, 2]) {
                0 => t.push((b'A' + s.draw(26) as u8) as char),
                1 => t.push((b'0' + s.draw(10) as u8) as char),
                _ => t.push(*s.pick(&['\'', '.', '_', '-'])),
            }
        }
        while !t.ends_with(|c: char| c.is_ascii_alphanumeric()) {
            t.pop();
        }
        if !["TRUE", "FALSE", "NULL"].contains(&t.as_str()) {
            return t;
        }
    }
}

pub fn gen_key(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 2]) {
        0 => s.pick(&["foo", "bar", "memo", "id"]).to_string(),
        1 => {
            let mut t = String::new();
            t.push((b'a' + s.draw(26) as u8) as char);
            let n = s.upto(7, 60);
            for _ in 0..s.range(1, n) {
                match s.weighted(&[8, 2, 2, 2]) {
                    0 => t.push((b'a' + s.draw(26) as u8) as char),
                    1 => t.push((b'A' + s.draw(26) as u8) as char),
                    2 => t.push((b'0' + s.draw(10) as u8) as char),
                    _ => t.push(*s.pick(&['-', '_'])),
                }
            }
            t
        }
        _ => s.pick(&KEYWORDS).to_string(),
    }
}

pub fn gen_ident(s: &mut Src) -> String {
    if s.chance(1, 2) {
        return s.pick(&["trip", "x", "a-b", "2020"]).to_string();
    }
    let n = s.upto(8, 60);
    let n = s.range(1, n);
    (0..n)
        .map(|_| match s.weighted(&[8, 3, 3, 3]) {
            0 => (b'a' + s.draw(26) as u8) as char,
            1 => (b'A' + s.draw(26) as u8) as char,
            2 => (b'0' + s.draw(10) as u8) as char,
            _ => *s.pick(&['-', '_', '/', '.']),
        })
        .collect()
}

pub fn gen_str(s: &mut Src) -> String {
    if s.chance(1, 3) {
        return s.pick(&["Lunch", "", "Big Shop"]).to_string();
    }
    if s.chance(1, 300) {
        let n = s.range(100, 6000);
        let part = s.pick(&["ab c", "x", "Lorem, ipsum; "]);
        return part.chars().cycle().take(n).collect();
    }
    let n = s.upto(12, 300);
    let n = s.range(0, n);
    (0..n)
        .map(|_| match s.weighted(&[20, 6, 8, 4, 2, 2, 2, 1]) {
            0 => (b'a' + s.draw(26) as u8) as char,
            1 => ' ',
            2 => *s.pick(&[';', '#', '*', '^', '|', ':', '{', '}', '@', ',', '\'', '1', 'X', '(', '~', '%']),
            3 => *s.pick(&['é', '中', '😱', 'ß', '\u{a0}']),
            4 => '"',
            5 => '\\',
            6 => *s.pick(&['\n', '\t']),
            _ => *s.pick(&[
                '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\0', '\u{7f}', '\u{feff}', '\u{301}', '\u{fffd}', '\u{200b}', '\u{10ffff}', '\u{3000}',
            ]),
        })
        .collect()
}

pub fn gen_path_str(s: &mut Src) -> String {
    s.pick(&["/tmp/a.pdf", "doc.pdf", "a b/ç.txt"]).to_string()
}

// ---------------------------------------------------------------- dates

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct D(pub i32, pub u8, pub u8);

pub fn days_in(y: i32, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
    }
}

pub fn gen_date(s: &mut Src) -> D {
    let y = match s.weighted(&[6, 3, 1]) {
        0 => 2020 + s.draw(5) as i32,
        1 => 1900 + s.draw(200) as i32,
        _ => s.draw(10000) as i32,
    };
    let m = 1 + s.draw(12) as u8;
    let d = 1 + s.draw(days_in(y, m) as u64) as u8;
    D(y, m, d)
}

impl D {
    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.0, self.1, self.2)
    }
}

// ---------------------------------------------------------------- directives

#[derive(Clone, Debug)]
pub enum Val {
    Str(String),
    Cur(String),
    Acc(Acc),
    Tag(String),
    Link(String),
    Date(D),
    Bool(bool),
    Null,
    Expr(E),
    Amount(E, String),
    Missing,
}

#[derive(Clone, Debug)]
pub enum Item {
    Kv(String, Val),
    Tag(String),
    Link(String),
}

#[derive(Clone, Debug)]
pub enum Comp {
    /// per-unit, hash, total, currency
    Amount(Option<E>, bool, Option<E>, Option<String>),
    Date(D),
    Label(String),
    Merge,
}

#[derive(Clone, Debug)]
pub struct Posting {
    pub flag: Option<String>,
    pub acc: Acc,
    pub num: Option<E>,
    pub cur: Option<String>,
    pub cost: Option<Vec<Comp>>,
    pub price: Option<(bool, Option<E>, Option<String>)>,
    pub meta: Vec<Item>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Txn { flag: String, strs: Vec<String>, postings: Vec<Posting> },
    Price(String, E, String),
    Balance(Acc, E, Option<String>, String),
    Open(Acc, Vec<String>, Option<String>),
    Close(Acc),
    Commodity(String),
    Pad(Acc, Acc),
    Document(Acc, String),
    Note(Acc, String),
    Event(String, String),
    Query(String, String),
    Custom(String, Vec<Val>),
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub date: D,
    pub kind: Kind,
    /// tags and links on the header line
    pub hdr: Vec<Item>,
    pub meta: Vec<Item>,
}

pub const BOOKINGS: [(&str, &str); 7] = [
    ("STRICT", "Strict"),
    ("STRICT_WITH_SIZE", "StrictWithSize"),
    ("NONE", "None"),
    ("AVERAGE", "Average"),
    ("FIFO", "Fifo"),
    ("LIFO", "Lifo"),
    ("HIFO", "Hifo"),
];

pub const FLAGS: [&str; 6] = ["*", "!", "&", "#", "?", "%"];

pub fn flag_debug(f: &str) -> String {
    match f {
        "*" | "txn" => "Asterisk".into(),
        "!" => "Exclamation".into(),
        "&" => "Ampersand".into(),
        "#" => "Hash".into(),
        "?" => "Question".into(),
        "%" => "Percent".into(),
        _ => format!("Letter(FlagLetter({:?}))", f.chars().nth(1).unwrap()),
    }
}

pub fn gen_flag(s: &mut Src) -> String {
    if s.chance(1, 6) {
        format!("'{}", (b'A' + s.draw(26) as u8) as char)
    } else {
        s.pick(&FLAGS).to_string()
    }
}

/// knobs of the generator
#[derive(Clone)]
pub struct Gen {
    pub expr_depth: usize,
    pub div: bool,
    pub date: fn(&mut Src) -> D,
    /// weights of the kinds of directive, in the order of Kind
    pub kinds: [u64; 12],
    pub string: fn(&mut Src) -> String,
    /// how likely metadata, tags and links are, out of ten
    pub meta: u64,
    pub key: fn(&mut Src) -> String,
    pub ident: fn(&mut Src) -> String,
    /// how likely something repeated is left in, out of ten
    pub dups: u64,
    /// more of metadata
    pub wide: bool,
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            expr_depth: 2,
            div: true,
            date: gen_date,
            kinds: [6, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2],
            string: gen_str,
            meta: 3,
            key: gen_key,
            ident: gen_ident,
            dups: 0,
            wide: false,
        }
    }
}

/// a size around which things may change
fn big(s: &mut Src) -> usize {
    *s.pick(&[16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
}

impl Gen {
    pub fn expr(&self, s: &mut Src) -> E {
        let d = if s.chance(1, 3) { self.expr_depth } else { 0 };
        let e = if s.chance(1, 60) { E::Num(gen_long_number(s)) } else { gen_expr(s, d, self.div) };
        if e.bound().1 < 1e26 {
            e
        } else {
            E::Num("1".into())
        }
    }

    pub fn val(&self, s: &mut Src) -> Val {
        match s.weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 2, 2]) {
            0 => Val::Str((self.string)(s)),
            1 => Val::Cur(gen_cur(s)),
            2 => Val::Acc(gen_acc(s)),
            3 => Val::Tag(gen_ident(s)),
            4 => Val::Link(gen_ident(s)),
            5 => Val::Date((self.date)(s)),
            6 => Val::Bool(s.chance(1, 2)),
            7 => Val::Null,
            8 => Val::Expr(self.expr(s)),
            _ => Val::Amount(self.expr(s), gen_cur(s)),
        }
    }

    /// metadata without duplicates, given what is on the header line
    pub fn items(&self, s: &mut Src, hdr: &[Item]) -> Vec<Item> {
        let mut out: Vec<Item> = Vec::new();
        let (max, more, den) = if self.wide && s.chance(1, 60) {
            (big(s), 9999, 10_000)
        } else if self.wide || s.chance(1, 100) {
            (30, 9, 10)
        } else {
            (6, self.meta, 10)
        };
        while out.len() < max && s.chance(if self.meta == 0 { 0 } else { more }, den) {
            let it = match s.weighted(&[4, 1, 1]) {
                0 => {
                    let k = (self.key)(s);
                    let v = if s.chance(1, 10) { Val::Missing } else { self.val(s) };
                    Item::Kv(k, v)
                }
                1 => Item::Tag((self.ident)(s)),
                _ => Item::Link((self.ident)(s)),
            };
            if !hdr.iter().chain(out.iter()).any(|o| clash(o, &it)) || (self.dups > 0 && s.chance(self.dups, 10)) {
                out.push(it);
            }
        }
        out
    }

    pub fn hdr(&self, s: &mut Src) -> Vec<Item> {
        let mut out: Vec<Item> = Vec::new();
        let (max, more, den) = if self.wide && s.chance(1, 60) {
            (big(s), 9999, 10_000)
        } else if self.wide {
            (12, 9, 10)
        } else {
            (4, self.meta, 10)
        };
        while out.len() < max && s.chance(more, den) {
            let it = if s.chance(1, 2) { Item::Link((self.ident)(s)) } else { Item::Tag((self.ident)(s)) };
            if !out.iter().any(|o| clash(o, &it)) || (self.dups > 0 && s.chance(self.dups, 10)) {
                out.push(it);
            }
        }
        out
    }

    pub fn cost(&self, s: &mut Src) -> Vec<Comp> {
        let mut out = Vec::new();
        // which fields are used at all
        let per = s.chance(1, 2).then(|| self.expr(s));
        let total = s.chance(1, 4).then(|| self.expr(s));
        let cur = s.chance(1, 2).then(|| gen_cur(s));
        match (per, total, cur) {
            (None, None, None) => {}
            (per, None, cur) => {
                let hash = s.chance(1, 5);
                if per.is_some() && cur.is_some() && s.chance(1, 5) {
                    out.push(Comp::Amount(per, hash, None, None));
                    out.push(Comp::Amount(None, false, None, cur));
                } else {
                    out.push(Comp::Amount(per, hash, None, cur));
                }
            }
            (per, total, cur) => {
                if per.is_some() && s.chance(1, 4) {
                    out.push(Comp::Amount(per, false, None, None));
                    out.push(Comp::Amount(None, true, total, cur));
                } else {
                    out.push(Comp::Amount(per, true, total, cur));
                }
            }
        }
        if s.chance(1, 3) {
            let at = s.below(out.len() + 1);
            out.insert(at, Comp::Date((self.date)(s)));
        }
        if s.chance(1, 3) {
            let at = s.below(out.len() + 1);
            out.insert(at, Comp::Label((self.string)(s)));
        }
        if s.chance(1, 5) {
            let at = s.below(out.len() + 1);
            out.insert(at, Comp::Merge);
        }
        out
    }

    pub fn posting(&self, s: &mut Src) -> Posting {
        let flag = s.chance(1, 5).then(|| gen_flag(s));
        let acc = gen_acc(s);
        let num = s.chance(4, 5).then(|| self.expr(s));
        let cur = s.chance(4, 5).then(|| gen_cur(s));
        let cost = s.chance(1, 4).then(|| self.cost(s));
        let price = s.chance(1, 4).then(|| {
            (s.chance(1, 3), s.chance(4, 5).then(|| self.expr(s)), s.chance(4, 5).then(|| gen_cur(s)))
        });
        let meta = if s.chance(1, 3) { self.items(s, &[]) } else { vec![] };
        Posting { flag, acc, num, cur, cost, price, meta }
    }

    pub fn kind(&self, s: &mut Src) -> Kind {
        match s.weighted(&self.kinds) {
            0 => {
                let flag = match s.weighted(&[4, 2, 1]) {
                    0 => "*".to_string(),
                    1 => gen_flag(s),
                    _ => "txn".to_string(),
                };
                let n = s.weighted(&[1, 4, 4]);
                let strs = (0..n).map(|_| (self.string)(s)).collect();
                let (max, more) = if self.wide && s.chance(1, 60) {
                    (big(s), 9999)
                } else if s.chance(1, 100) {
                    (40, 19)
                } else {
                    (6, 2)
                };
                let postings = s.list(0, max, more, more + 1, |s| self.posting(s));
                Kind::Txn { flag, strs, postings }
            }
            1 => Kind::Price(gen_cur(s), self.expr(s), gen_cur(s)),
            2 => {
                let tol = s.chance(1, 3).then(|| if s.chance(1, 12) { gen_long_number(s) } else { gen_number(s) });
                Kind::Balance(gen_acc(s), self.expr(s), tol, gen_cur(s))
            }
            3 => {
                let mut curs: Vec<String> = Vec::new();
                let (max, more) = if self.wide && s.chance(1, 40) {
                    (big(s), 9999)
                } else if s.chance(1, 50) {
                    (20, 9)
                } else {
                    (4, 1)
                };
                for c in s.list(0, max, more, more + 1, gen_cur) {
                    if !curs.contains(&c) || (self.dups > 0 && s.chance(self.dups, 10)) {
                        curs.push(c);
                    }
                }
                let booking = s.chance(1, 3).then(|| s.pick(&BOOKINGS).0.to_string());
                Kind::Open(gen_acc(s), curs, booking)
            }
            4 => Kind::Close(gen_acc(s)),
            5 => Kind::Commodity(gen_cur(s)),
            6 => Kind::Pad(gen_acc(s), gen_acc(s)),
            7 => Kind::Document(gen_acc(s), gen_path_str(s)),
            8 => Kind::Note(gen_acc(s), (self.string)(s)),
            9 => Kind::Event((self.string)(s), (self.string)(s)),
            10 => Kind::Query((self.string)(s), (self.string)(s)),
            _ => {
                let mut vals: Vec<Val> = Vec::new();
                let (max, more) = if self.wide && s.chance(1, 40) {
                    (big(s), 9999)
                } else if s.chance(1, 50) {
                    (30, 9)
                } else {
                    (5, 2)
                };
                for v in s.list(0, max, more, more + 1, |s| self.val(s)) {
                    // a number followed by a currency is an amount, and one followed by a sign is continued
                    let after_expr = matches!(vals.last(), Some(Val::Expr(_)));
                    let v = match v {
                        Val::Cur(_) if after_expr => Val::Null,
                        Val::Expr(_) | Val::Amount(..) if after_expr => Val::Bool(true),
                        v => v,
                    };
                    vals.push(v);
                }
                Kind::Custom((self.string)(s), vals)
            }
        }
    }

    pub fn dir(&self, s: &mut Src) -> Dir {
        let date = (self.date)(s);
        let kind = self.kind(s);
        let hdr = if matches!(kind, Kind::Custom(..)) { vec![] } else { self.hdr(s) };
        let meta = self.items(s, &hdr);
        Dir { date, kind, hdr, meta }
    }
}

impl Gen {
    /// the same but for a detail, which may come out the same after all
    pub fn tweak(&self, s: &mut Src, d: &Dir) -> Dir {
        let mut d = d.clone();
        match s.weighted(&[1, 1, 2, 8]) {
            0 => d.date = (self.date)(s),
            1 => {
                if !matches!(d.kind, Kind::Custom(..)) {
                    d.hdr = self.hdr(s);
                }
                d.meta = self.items(s, &d.hdr);
            }
            2 => tweak_items(s, &mut d.meta),
            _ => match &mut d.kind {
                Kind::Txn { flag, strs, postings } => match s.weighted(&[1, 2, 1, 6]) {
                    0 => *flag = gen_flag(s),
                    1 if !strs.is_empty() => {
                        let i = s.below(strs.len());
                        strs[i] = (self.string)(s);
                    }
                    2 if postings.len() > 1 => {
                        let i = s.below(postings.len());
                        let p = postings.remove(i);
                        if s.chance(1, 2) {
                            postings.insert(s.below(postings.len() + 1), p);
                        }
                    }
                    _ if !postings.is_empty() => {
                        let i = s.below(postings.len());
                        let q = self.posting(s);
                        let p = &mut postings[i];
                        match s.below(7) {
                            0 => p.flag = q.flag,
                            1 => p.acc = q.acc,
                            2 => p.num = q.num,
                            3 => p.cur = q.cur,
                            4 => {
                                p.cost = match (p.cost.take(), q.cost) {
                                    (Some(mut c), Some(_)) if !c.is_empty() => {
                                        let i = s.below(c.len());
                                        match &mut c[i] {
                                            Comp::Date(x) => *x = (self.date)(s),
                                            Comp::Label(x) => *x = (self.string)(s),
                                            Comp::Amount(_, _, _, Some(x)) => *x = gen_cur(s),
                                            _ => {
                                                c.remove(i);
                                            }
                                        }
                                        Some(c)
                                    }
                                    (_, c) => c,
                                }
                            }
                            5 => {
                                p.price = match (p.price.take(), q.price) {
                                    (Some((t, e, c)), Some(_)) => Some((!t, e, c)),
                                    (_, x) => x,
                                }
                            }
                            _ if p.meta.is_empty() => p.meta = q.meta,
                            _ => tweak_items(s, &mut p.meta),
                        }
                    }
                    _ => strs.clear(),
                },
                Kind::Price(a, e, b) => match s.below(3) {
                    0 => *a = gen_cur(s),
                    1 => *e = self.expr(s),
                    _ => *b = gen_cur(s),
                },
                Kind::Balance(a, e, t, c) => match s.below(4) {
                    0 => *a = gen_acc(s),
                    1 => *e = self.expr(s),
                    2 => *t = if t.is_some() && s.chance(1, 2) { None } else { Some(gen_number(s)) },
                    _ => *c = gen_cur(s),
                },
                Kind::Open(a, cs, b) => match s.below(3) {
                    0 => *a = gen_acc(s),
                    1 if !cs.is_empty() => {
                        let i = s.below(cs.len());
                        cs.remove(i);
                    }
                    1 => cs.push(gen_cur(s)),
                    _ => *b = if b.is_some() { None } else { Some(s.pick(&BOOKINGS).0.to_string()) },
                },
                Kind::Close(a) => *a = gen_acc(s),
                Kind::Commodity(c) => *c = gen_cur(s),
                Kind::Pad(a, b) => match s.below(3) {
                    0 => *a = gen_acc(s),
                    1 => *b = gen_acc(s),
                    _ => std::mem::swap(a, b),
                },
                Kind::Document(a, x) | Kind::Note(a, x) => match s.below(2) {
                    0 => *a = gen_acc(s),
                    _ => *x = gen_path_str(s),
                },
                Kind::Event(a, b) | Kind::Query(a, b) => match s.below(3) {
                    0 => *a = (self.string)(s),
                    1 => *b = (self.string)(s),
                    _ => std::mem::swap(a, b),
                },
                Kind::Custom(a, vs) => match s.below(2) {
                    1 if !vs.is_empty() => {
                        vs.pop();
                    }
                    _ => *a = (self.string)(s),
                },
            },
        }
        d
    }
}

/// one item less, or another value
fn tweak_items(s: &mut Src, items: &mut Vec<Item>) {
    if items.is_empty() {
        return;
    }
    let i = s.below(items.len());
    match &mut items[i] {
        Item::Kv(_, v) if s.chance(2, 3) => *v = if matches!(v, Val::Null) { Val::Bool(true) } else { Val::Null },
        _ => {
            items.remove(i);
        }
    }
}

pub fn clash(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Item::Kv(x, _), Item::Kv(y, _)) => x == y,
        (Item::Tag(x), Item::Tag(y)) => x == y,
        (Item::Link(x), Item::Link(y)) => x == y,
        _ => false,
    }
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Copy, PartialEq)]
pub struct Style {
    /// whitespace, comments, blank lines and line endings vary
    pub messy: bool,
    /// lines which the lexer ignores altogether
    pub ignored: bool,
    /// string escapes vary
    pub escapes: bool,
    /// and any character may be escaped
    pub rich: bool,
    /// blank lines at the start
    pub far: usize,
}

pub const PLAIN: Style = Style { messy: false, ignored: false, escapes: false, rich: false, far: 0 };
pub const MESSY: Style = Style { messy: true, ignored: true, escapes: true, rich: false, far: 0 };

pub struct Out {
    pub text: String,
    pub source: usize,
    pub style: Style,
    pub names: Names,
    /// all the string literals so far, with their values
    pub strings: Vec<(Sp, String)>,
}

/// a rendered top-level declaration
#[derive(Clone, Debug)]
pub struct Decl<T> {
    pub item: T,
    /// start and the end of the last token; the trivia after that up to `limit` may be in its span
    pub start: usize,
    pub end: usize,
}

impl Out {
    pub fn new(source: usize, style: Style) -> Self {
        Out { text: String::new(), source, style, names: Names::default(), strings: Vec::new() }
    }

    pub fn pos(&self) -> usize {
        self.text.len()
    }

    pub fn span(&self, start: usize) -> Sp {
        Sp::At(self.source, start, self.text.len())
    }

    pub fn tok(&mut self, t: &str) -> Sp {
        let p = self.pos();
        self.text.push_str(t);
        self.span(p)
    }

    /// mandatory separation
    pub fn sep(&mut self, s: &mut Src) {
        if self.style.messy {
            let t = *s.pick(&[" ", " ", "  ", "\t", " \t ", "     "]);
            self.text.push_str(t);
        } else {
            self.text.push(' ');
        }
    }

    /// optional separation
    pub fn osep(&mut self, s: &mut Src) {
        if self.style.messy && s.chance(1, 3) {
            self.sep(s);
        }
    }

    fn newline(&mut self, s: &mut Src) {
        if self.style.messy && s.chance(1, 8) {
            self.text.push_str("\r\n");
        } else {
            self.text.push('\n');
        }
    }

    fn comment(&mut self, s: &mut Src) {
        self.text.push(';');
        let t = *s.pick(&["", " c", " \"quoted", ";; 2020-01-01 open Assets:A", " é😱 中", " key: 1 }{", "\tx \\ '"]);
        self.text.push_str(t);
    }

    /// lines which mean nothing
    pub fn trivia(&mut self, s: &mut Src) {
        if !self.style.messy {
            return;
        }
        let mut n = 0;
        while n < 3 && s.chance(1, 6) {
            n += 1;
            match s.weighted(&[3, 2, 2, 2, if self.style.ignored { 4 } else { 0 }, if self.style.ignored { 2 } else { 0 }]) {
                0 => {}
                1 => self.text.push_str("   \t"),
                2 => self.comment(s),
                3 => {
                    self.text.push_str("  ");
                    self.comment(s);
                }
                4 => {
                    let t = *s.pick(&["* heading", "#+begin_src \"x", ":drawer:", "! é 😱", "& 2020-01-01 close Assets:A", "? ; c", "%", "** two \\"]);
                    self.text.push_str(t);
                }
                _ => {
                    let t = *s.pick(&["  : word", " : 2020-01-01 \"x\" foo", "\t:"]);
                    self.text.push_str(t);
                }
            }
            self.newline(s);
        }
    }

    /// end of a line
    pub fn eol(&mut self, s: &mut Src) {
        if self.style.messy {
            if s.chance(1, 6) {
                self.sep(s);
            }
            if s.chance(1, 6) {
                self.comment(s);
            }
        }
        self.newline(s);
        self.trivia(s);
    }

    pub fn indent(&mut self, s: &mut Src) {
        if self.style.messy {
            let t = *s.pick(&["  ", "    ", "\t", " ", " \t"]);
            self.text.push_str(t);
        } else {
            self.text.push_str("  ");
        }
    }

    // tokens

    pub fn date(&mut self, s: &mut Src, d: &D) -> Sp {
        let iso = d.iso();
        let t = if self.style.messy && s.chance(1, 4) { iso.replace('-', "/") } else { iso };
        self.tok(&t)
    }

    pub fn string(&mut self, s: &mut Src, v: &str) -> Sp {
        let mut t = String::from("\"");
        for c in v.chars() {
            if self.style.rich && s.chance(1, 6) {
                let u = c as u32;
                match s.weighted(&[2, 1, 1]) {
                    0 if u < 0x80 => t.push_str(&format!("\\x{u:02x}")),
                    1 => t.push_str(&format!("\\u{{{u:x}}}")),
                    _ => t.push_str(&format!("\\u{{{u:06X}}}")),
                }
                continue;
            }
            match c {
                '\r' if self.style.escapes && s.chance(1, 2) => t.push_str("\\r"),
                '"' => t.push_str("\\\""),
                '\\' => t.push_str("\\\\"),
                '\n' if self.style.escapes && s.chance(1, 2) => t.push_str("\\n"),
                '\t' if self.style.escapes && s.chance(1, 2) => t.push_str("\\t"),
                '\'' if self.style.escapes && s.chance(1, 2) => t.push_str("\\'"),
                c => t.push(c),
            }
        }
        t.push('"');
        let sp = self.tok(&t);
        self.strings.push((sp.clone(), v.to_string()));
        sp
    }

    pub fn acc_text(&self, a: &Acc) -> String {
        format!("{}:{}", self.names.0[a.ty], a.sub)
    }

    pub fn acc(&mut self, name: &str, a: &Acc) -> Node {
        let t = self.acc_text(a);
        let sp = self.tok(&t);
        Node::leaf(format!("{name}={t}/{}", TYPES[a.ty]), sp)
    }

    pub fn cur(&mut self, c: &str) -> Node {
        let sp = self.tok(c);
        Node::leaf(format!("currency={c}"), sp)
    }

    fn expr_text(&mut self, s: &mut Src, e: &E) {
        match e {
            E::Num(n) => {
                self.text.push_str(n);
            }
            E::Sign(neg, e) => {
                self.text.push(if *neg { '-' } else { '+' });
                self.osep(s);
                self.expr_text(s, e);
            }
            E::Paren(e) => {
                self.text.push('(');
                self.osep(s);
                self.expr_text(s, e);
                self.osep(s);
                self.text.push(')');
            }
            E::Bin(op, a, b) => {
                self.expr_text(s, a);
                // without spaces `1000-10-10` would be a date
                let tight = self.style.messy && s.chance(1, 4) && !(matches!(op, '-' | '/') && almost_date(&self.text));
                if !tight {
                    self.sep(s);
                }
                self.text.push(*op);
                if !tight {
                    self.sep(s);
                }
                self.expr_text(s, b);
            }
        }
    }

    pub fn expr(&mut self, s: &mut Src, name: &str, e: &E) -> Node {
        let p = self.pos();
        self.expr_text(s, e);
        e.node(name, self.span(p))
    }

    pub fn val(&mut self, s: &mut Src, v: &Val) -> Node {
        let p = self.pos();
        match v {
            Val::Str(x) => {
                let sp = self.string(s, x);
                Node::leaf(format!("value:string={x:?}"), sp)
            }
            Val::Cur(x) => {
                let sp = self.tok(x);
                Node::leaf(format!("value:currency={x}"), sp)
            }
            Val::Acc(a) => self.acc("value:account", a),
            Val::Tag(x) => {
                let sp = self.tok(&format!("#{x}"));
                Node::leaf(format!("value:tag={x}"), sp)
            }
            Val::Link(x) => {
                let sp = self.tok(&format!("^{x}"));
                Node::leaf(format!("value:link={x}"), sp)
            }
            Val::Date(d) => {
                let sp = self.date(s, d);
                Node::leaf(format!("value:date={}", d.iso()), sp)
            }
            Val::Bool(b) => {
                let sp = self.tok(if *b { "TRUE" } else { "FALSE" });
                Node::leaf(format!("value:bool={b}"), sp)
            }
            Val::Null => {
                let sp = self.tok("NULL");
                Node::leaf("value:null", sp)
            }
            Val::Expr(e) => self.expr(s, "value:expr", e),
            Val::Amount(e, c) => {
                let n = self.expr(s, "number", e);
                self.sep(s);
                let c = self.cur(c);
                Node::node("value:amount", self.span(p), vec![n, c])
            }
            Val::Missing => Node::leaf("value:null", self.span(p)),
        }
    }

    /// the tag or link, or key and value
    pub fn item(&mut self, s: &mut Src, it: &Item) -> Node {
        match it {
            Item::Tag(t) => {
                let sp = self.tok(&format!("#{t}"));
                Node::leaf(format!("tag={t}"), sp)
            }
            Item::Link(t) => {
                let sp = self.tok(&format!("^{t}"));
                Node::leaf(format!("link={t}"), sp)
            }
            Item::Kv(k, v) => {
                let sp = self.tok(k);
                self.osep(s);
                self.tok(":");
                if !matches!(v, Val::Missing) {
                    self.sep(s);
                }
                let v = self.val(s, v);
                Node::node(format!("key={k}"), sp, vec![v])
            }
        }
    }

    fn comp(&mut self, s: &mut Src, c: &Comp, kids: &mut [Option<Node>; 6]) {
        let p = self.pos();
        match c {
            Comp::Amount(per, hash, total, cur) => {
                let mut any = false;
                let mut pn = None;
                let mut tn = None;
                if let Some(e) = per {
                    pn = Some(self.expr(s, "per-unit", e));
                    any = true;
                }
                if *hash || total.is_some() {
                    if any {
                        self.sep(s);
                    }
                    self.tok("#");
                    if total.is_some() || cur.is_some() {
                        self.sep(s);
                    }
                    if let Some(e) = total {
                        tn = Some(self.expr(s, "total", e));
                    }
                    any = total.is_some();
                }
                let mut cn = None;
                if let Some(c) = cur {
                    if any {
                        self.sep(s);
                    }
                    cn = Some(self.cur(c));
                }
                let sp = self.span(p);
                for (i, n) in [(0, pn), (1, tn), (2, cn)] {
                    if let Some(mut n) = n {
                        n.span = sp.clone();
                        kids[i] = Some(n);
                    }
                }
            }
            Comp::Date(d) => {
                let sp = self.date(s, d);
                kids[3] = Some(Node::leaf(format!("date={}", d.iso()), sp));
            }
            Comp::Label(l) => {
                let sp = self.string(s, l);
                kids[4] = Some(Node::leaf(format!("label={l:?}"), sp));
            }
            Comp::Merge => {
                self.tok("*");
                kids[5] = Some(Node::leaf("merge", Sp::Any));
            }
        }
    }

    pub fn cost(&mut self, s: &mut Src, cost: &[Comp]) -> Node {
        let p = self.pos();
        self.tok("{");
        self.osep(s);
        let mut kids = [None, None, None, None, None, None];
        for (i, c) in cost.iter().enumerate() {
            if i > 0 {
                // a comma directly between digits would be taken for a thousands separator
                if self.text.ends_with(|c: char| c.is_ascii_digit()) {
                    self.sep(s);
                } else {
                    self.osep(s);
                }
                self.tok(",");
                self.sep(s);
            }
            self.comp(s, c, &mut kids);
        }
        self.osep(s);
        self.tok("}");
        let sp = self.span(p);
        Node::node("cost", sp, kids.into_iter().flatten().collect())
    }

    pub fn posting(&mut self, s: &mut Src, p: &Posting) -> (Node, usize) {
        self.indent(s);
        let start = self.pos();
        let mut kids = Vec::new();
        if let Some(f) = &p.flag {
            let sp = self.tok(f);
            kids.push(Node::leaf(format!("flag={}", flag_debug(f)), sp));
            self.sep(s);
        }
        kids.push(self.acc("account", &p.acc));
        if let Some(e) = &p.num {
            self.sep(s);
            kids.push(self.expr(s, "number", e));
        }
        if let Some(c) = &p.cur {
            self.sep(s);
            kids.push(self.cur(c));
        }
        if let Some(c) = &p.cost {
            self.sep(s);
            kids.push(self.cost(s, c));
        }
        if let Some((total, e, c)) = &p.price {
            self.sep(s);
            let st = self.pos();
            self.tok(if *total { "@@" } else { "@" });
            let mut k = Vec::new();
            if let Some(e) = e {
                self.sep(s);
                let mut n = self.expr(s, if *total { "total" } else { "per-unit" }, e);
                n.span = Sp::Any;
                k.push(n);
            }
            if let Some(c) = c {
                self.sep(s);
                k.push(Node::leaf(format!("currency={c}"), Sp::Any));
                self.tok(c);
            }
            kids.push(Node::node("price", self.span(st), k));
        }
        let mut end = self.pos();
        let sp = self.span(start);
        self.eol(s);
        let (m, e) = self.meta_lines(s, vec![], &p.meta);
        end = e.unwrap_or(end);
        kids.push(m);
        (Node::node("posting", sp, kids), end)
    }

    /// the metadata node, and the end of the last token if any
    pub fn meta_lines(&mut self, s: &mut Src, mut kids: Vec<Node>, items: &[Item]) -> (Node, Option<usize>) {
        let mut end = None;
        for it in items {
            self.indent(s);
            kids.push(self.item(s, it));
            end = Some(self.pos());
            self.eol(s);
        }
        (Node::node("metadata", Sp::Any, kids).sorted(), end)
    }

    /// renders the directive including the newline of its last line and trivia after that
    pub fn dir(&mut self, s: &mut Src, d: &Dir) -> Decl<Node> {
        let start = self.pos();
        let sp = self.date(s, &d.date);
        let mut kids = vec![Node::leaf(format!("date={}", d.date.iso()), sp)];
        self.sep(s);
        let mut postings: &[Posting] = &[];
        let name = match &d.kind {
            Kind::Txn { flag, strs, postings: ps } => {
                let sp = self.tok(flag);
                kids.push(Node::leaf(format!("flag={}", flag_debug(flag)), sp));
                let names: &[&str] = if strs.len() == 1 { &["narration"] } else { &["payee", "narration"] };
                for (v, n) in strs.iter().zip(names) {
                    self.sep(s);
                    let sp = self.string(s, v);
                    if !v.is_empty() {
                        kids.push(Node::leaf(format!("{n}={v:?}"), sp));
                    }
                }
                postings = ps;
                "transaction"
            }
            Kind::Price(c, e, c2) => {
                self.tok("price");
                self.sep(s);
                kids.push(self.cur(c));
                self.sep(s);
                let p = self.pos();
                let n = self.expr(s, "number", e);
                self.sep(s);
                let c2 = self.cur(c2);
                kids.push(Node::node("amount", self.span(p), vec![n, c2]));
                "price"
            }
            Kind::Balance(a, e, tol, c) => {
                self.tok("balance");
                self.sep(s);
                kids.push(self.acc("account", a));
                self.sep(s);
                let p = self.pos();
                let n = self.expr(s, "number", e);
                let mut tn = None;
                if let Some(t) = tol {
                    self.sep(s);
                    self.tok("~");
                    self.osep(s);
                    let sp = self.tok(t);
                    let (m, sc) = lit_parts(t);
                    tn = Some(Node::leaf(format!("tolerance={m}e-{sc}"), sp));
                }
                self.sep(s);
                let c = self.cur(c);
                let mut k = vec![Node::node("amount", self.span(p), vec![n, c])];
                k.extend(tn);
                kids.push(Node::node("atol", self.span(p), k));
                "balance"
            }
            Kind::Open(a, curs, booking) => {
                self.tok("open");
                self.sep(s);
                kids.push(self.acc("account", a));
                let mut k = Vec::new();
                for (i, c) in curs.iter().enumerate() {
                    if i == 0 {
                        self.sep(s);
                    } else {
                        self.osep(s);
                        self.tok(",");
                        self.osep(s);
                    }
                    k.push(self.cur(c));
                }
                kids.push(Node::node("currencies", Sp::Any, k).sorted());
                if let Some(b) = booking {
                    self.sep(s);
                    let sp = self.string(s, b);
                    let v = BOOKINGS.iter().find(|x| x.0 == b).unwrap().1;
                    kids.push(Node::leaf(format!("booking={v}"), sp));
                }
                "open"
            }
            Kind::Close(a) => {
                self.tok("close");
                self.sep(s);
                kids.push(self.acc("account", a));
                "close"
            }
            Kind::Commodity(c) => {
                self.tok("commodity");
                self.sep(s);
                kids.push(self.cur(c));
                "commodity"
            }
            Kind::Pad(a, b) => {
                self.tok("pad");
                self.sep(s);
                kids.push(self.acc("account", a));
                self.sep(s);
                kids.push(self.acc("source", b));
                "pad"
            }
            Kind::Document(a, x) => {
                self.acc_str(s, &mut kids, "document", a, "path", x);
                "document"
            }
            Kind::Note(a, x) => {
                self.acc_str(s, &mut kids, "note", a, "comment", x);
                "note"
            }
            Kind::Event(x, y) => {
                self.two_strs(s, &mut kids, "event", ("type", x), ("description", y));
                "event"
            }
            Kind::Query(x, y) => {
                self.two_strs(s, &mut kids, "query", ("name", x), ("content", y));
                "query"
            }
            Kind::Custom(x, vals) => {
                self.tok("custom");
                self.sep(s);
                let sp = self.string(s, x);
                kids.push(Node::leaf(format!("type={x:?}"), sp));
                let mut k = Vec::new();
                for v in vals {
                    self.sep(s);
                    k.push(self.val(s, v));
                }
                kids.push(Node::node("values", Sp::Any, k));
                "custom"
            }
        };
        let mut mkids = Vec::new();
        for it in &d.hdr {
            self.sep(s);
            mkids.push(self.item(s, it));
        }
        let mut end = self.pos();
        self.eol(s);
        let (m, e) = self.meta_lines(s, mkids, &d.meta);
        end = e.unwrap_or(end);
        for p in postings {
            let (n, e) = self.posting(s, p);
            kids.push(n);
            end = e;
        }
        kids.push(m);
        let limit = self.pos();
        Decl { item: Node::node(name, Sp::Upto(self.source, start, end, limit), kids), start, end }
    }

    fn acc_str(&mut self, s: &mut Src, kids: &mut Vec<Node>, kw: &str, a: &Acc, name: &str, x: &str) {
        self.tok(kw);
        self.sep(s);
        kids.push(self.acc("account", a));
        self.sep(s);
        let sp = self.string(s, x);
        kids.push(Node::leaf(format!("{name}={x:?}"), sp));
    }

    fn two_strs(&mut self, s: &mut Src, kids: &mut Vec<Node>, kw: &str, x: (&str, &str), y: (&str, &str)) {
        self.tok(kw);
        for (n, v) in [x, y] {
            self.sep(s);
            let sp = self.string(s, v);
            kids.push(Node::leaf(format!("{n}={v:?}"), sp));
        }
    }

    /// leading lines of a file
    pub fn prologue(&mut self, s: &mut Src) {
        self.text.push_str(&"\n".repeat(self.style.far));
        self.trivia(s);
    }

    /// possibly drop the final newline, leaving only trailing whitespace or a comment
    pub fn epilogue(&mut self, s: &mut Src) {
        if self.style.messy && s.chance(1, 6) {
            match s.weighted(&[3, 1, 1, 1]) {
                0 => {
                    while self.text.ends_with(['\n', '\r']) {
                        self.text.pop();
                    }
                }
                1 => self.text.push_str("   "),
                2 => self.comment(s),
                _ => {
                    self.text.push_str("  ");
                    self.comment(s);
                }
            }
        }
    }
}

/// ends with four digits, a dash or slash, and two digits
fn almost_date(text: &str) -> bool {
    let b = text.as_bytes();
    b.len() >= 7 && {
        let b = &b[b.len() - 7..];
        b.iter().enumerate().all(|(i, c)| if i == 4 { matches!(c, b'-' | b'/') } else { c.is_ascii_digit() })
    }
}

/// order of directives: date, then opens, then balances, then the rest
pub fn sort_rank(n: &Node) -> (String, u8) {
    let date = n.kids[0].label.clone();
    (date, match n.label.as_str() {
        "open" => 0,
        "balance" => 1,
        _ => 2,
    })
}

pub fn in_order(nodes: Vec<Node>) -> Vec<Node> {
    let mut v = nodes;
    v.sort_by_key(sort_rank); // stable
    v
}
