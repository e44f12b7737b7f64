//! Includes: the transitive closure of all files, each once, in place.
use super::common::*;
use crate::driver::*;
use crate::files::renumber;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use crate::{actual, tree};
use beancount_parser_lima::*;
use std::collections::HashMap;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "a tree of files counts as non-trivial when at least two files take part and the expected meaning has directives from an included file, or an error at an include; distinct by the text of all files",
    quick: 60_000,
    thorough: 3_000_000,
    run,
    bounds_memory: true,
    known,
};

const DIRS: [&str; 5] = ["", "sub", "sub/deep", "other", "w[1]"];
const NAMES: [&str; 12] = ["B.bean", "a.Bean", "X1.bean", "a.bean", "b.bean", "x1.bean", "x2.bean", "c.beancount", ".dot.bean", "é.bean", "sp ace.bean", "q[1].bean"];

fn key(s: &mut Src) -> String {
    s.pick(&["foo", "bar"]).to_string()
}

fn ident(s: &mut Src) -> String {
    s.pick(&["x", "y"]).to_string()
}

fn date(s: &mut Src) -> D {
    D(2020, 1, 1 + s.draw(3) as u8)
}

fn string(s: &mut Src) -> String {
    s.pick(&["", "a", "é\"x"]).to_string()
}

/// reference implementation of a path with wildcards, matched case-sensitively component by component
pub fn expand(base: &Path, pattern: &str) -> Vec<PathBuf> {
    fn class(p: &[char], c: char) -> Option<(bool, usize)> {
        // p starts after the bracket
        let (neg, mut i) = if p.first() == Some(&'!') { (true, 1) } else { (false, 0) };
        let first = i;
        let mut hit = false;
        loop {
            let x = *p.get(i)?;
            if x == ']' && i > first {
                return Some((hit != neg, i + 1));
            }
            if p.get(i + 1) == Some(&'-') && p.get(i + 2).is_some_and(|e| *e != ']') {
                hit |= x <= c && c <= p[i + 2];
                i += 3;
            } else {
                hit |= x == c;
                i += 1;
            }
        }
    }
    fn matches(p: &[char], n: &[char], start: bool) -> bool {
        match p.first() {
            None => n.is_empty(),
            Some('*') => {
                if start && n.first() == Some(&'.') {
                    return false;
                }
                (0..=n.len()).any(|k| matches(&p[1..], &n[k..], false))
            }
            Some('?') => n.first().is_some_and(|c| !(start && *c == '.')) && matches(&p[1..], &n[1..], false),
            Some('[') => {
                let Some(c) = n.first() else { return false };
                if start && *c == '.' {
                    return false;
                }
                match class(&p[1..], *c) {
                    Some((true, used)) => matches(&p[1 + used..], &n[1..], false),
                    _ => false,
                }
            }
            Some(c) => n.first() == Some(c) && matches(&p[1..], &n[1..], false),
        }
    }
    let mut at = if pattern.starts_with('/') { vec![PathBuf::from("/")] } else { vec![base.to_path_buf()] };
    // directories in which we can't look
    let mut closed = Vec::new();
    let comps: Vec<&str> = pattern.split('/').filter(|c| !c.is_empty()).collect();
    for (i, comp) in comps.iter().enumerate() {
        let last = i + 1 == comps.len();
        let mut next = Vec::new();
        for dir in at {
            if !comp.contains(['*', '?', '[']) {
                let p = dir.join(comp);
                if if last { fs::symlink_metadata(&p).is_ok() } else { p.is_dir() } {
                    next.push(p);
                }
            } else {
                let pat: Vec<char> = comp.chars().collect();
                let mut names: Vec<_> = match fs::read_dir(&dir) {
                    Ok(d) => d.flatten().map(|e| e.file_name()).collect(),
                    Err(e) => {
                        if e.kind() == std::io::ErrorKind::PermissionDenied && dir.is_dir() {
                            closed.push(dir);
                        }
                        continue;
                    }
                };
                names.sort();
                for n in names {
                    let chars: Vec<char> = n.to_str().map(|n| n.chars().collect()).unwrap_or_default();
                    if matches(&pat, &chars, true) && (last || dir.join(&n).is_dir()) {
                        next.push(dir.join(&n));
                    }
                }
            }
        }
        at = next;
    }
    at.extend(closed);
    at
}

fn escape(p: &str) -> String {
    p.replace('[', "[[]")
}

/// path of `to` from the directory `from`, both relative to the scratch directory
fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut v = vec![".."; f.len() - n];
    v.extend(&t[n..]);
    v.join("/")
}

fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else {
        format!("{dir}/{name}")
    }
}

struct File {
    dir: &'static str,
    rel: String,
    decls: Vec<Decl0>,
}

fn gen_include(s: &mut Src, dir: &str, files: &[(&'static str, String)], inline: bool, bare: bool, root: &Path, extras: &[String]) -> String {
    let target = |s: &mut Src| files[s.below(files.len())].1.clone();
    let prefix = |rel: String| {
        if inline && !bare {
            root.join(&rel).to_str().unwrap().to_string()
        } else {
            rel
        }
    };
    match s.weighted(&[10, 2, 2, 6, 2, 1, 1]) {
        0 => {
            let t = target(s);
            prefix(escape(&if inline { t } else { relative(dir, &t) }))
        }
        // absolute
        1 => {
            let t = target(s);
            root.join(escape(&t)).to_str().unwrap().to_string()
        }
        // roundabout
        2 => {
            let t = target(s);
            if inline {
                prefix(escape(&format!("sub/../{t}")))
            } else if s.chance(1, 2) {
                escape(&format!("./{}", relative(dir, &t)))
            } else {
                // up to the top and down again
                let ups = dir.split('/').filter(|c| !c.is_empty()).count();
                escape(&format!("{}sub/../{t}", "../".repeat(ups)))
            }
        }
        3 => {
            let d = *s.pick(&DIRS);
            let d = escape(&if inline { d.to_string() } else { relative(dir, d) });
            let g = *s.pick(&["*.bean", "x?.bean", "[ab].bean", "x[0-9].bean", "*.beancount", "[!a].bean", "?.bean", "*1*.bean", "*[[]*"]);
            prefix(join(&d, g))
        }
        4 => {
            let g = *s.pick(&["*/a.bean", "s*/*.bean", "[so]*/x?.bean", "sub/*/*.bean", "*/deep/b.bean"]);
            if inline {
                prefix(g.to_string())
            } else {
                let ups = dir.split('/').filter(|c| !c.is_empty()).count();
                format!("{}{g}", "../".repeat(ups))
            }
        }
        5 => prefix(s.pick(&["missing.bean", "nodir/a.bean", "z*.bean", "A.BEAN", "a**b", "x***.bean"]).to_string()),
        _ => {
            let e = if extras.is_empty() { "missing.bean".to_string() } else { s.pick(extras).clone() };
            prefix(escape(&if inline { e } else { relative(dir, &e) }))
        }
    }
}

fn known(k: &str) -> Option<R> {
    if k != "non-utf8-sibling" {
        return None;
    }
    // a wildcard include in a directory in which some other file has a name which is not UTF-8
    let dir = std::env::temp_dir().join(format!("vh-known-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("a.bean"), "2020-01-01 open Assets:A\n").unwrap();
    fs::write(dir.join(OsStr::from_bytes(b"n\xff.txt")), b"").unwrap();
    let text = format!("include \"{}/*.bean\"\n", dir.display());
    let r = std::panic::catch_unwind(|| parse_text(&text, |_, r| r.is_ok()));
    let _ = fs::remove_dir_all(&dir);
    Some(match r {
        Ok(true) => Ok(()),
        Ok(false) => Err("rejected".into()),
        Err(_) => Err("panic".into()),
    })
}

fn bad_root(s: &mut Src, ctx: &mut Ctx) -> R {
    let scratch = ctx.scratch();
    let p = scratch.join("root.bean");
    let what = s.below(4);
    match what {
        0 => {}
        1 => fs::create_dir(&p).unwrap(),
        2 => fs::write(&p, b"2020-01-01 open Assets:\xff\n").unwrap(),
        _ => std::os::unix::fs::symlink(scratch.join("nowhere"), &p).unwrap(),
    }
    ctx.input(format!("unreadable root {what}"));
    let bad = BeancountSources::try_from(p.clone()).is_ok() || BeancountSources::try_from(p.as_path()).is_ok();
    if bad {
        return Err("an unreadable root file was accepted".into());
    }
    Ok(())
}

extern "C" {
    fn setfsuid(uid: u32) -> i32;
    fn setfsgid(gid: u32) -> i32;
}

/// files are accessed as nobody for a while (by this thread)
struct Nobody(u32, u32);

impl Nobody {
    fn new() -> Nobody {
        unsafe { Nobody(setfsuid(65534) as u32, setfsgid(65534) as u32) }
    }
}

impl Drop for Nobody {
    fn drop(&mut self) {
        unsafe {
            setfsuid(self.0);
            setfsgid(self.1);
        }
    }
}

fn mode(p: &Path, m: u32) {
    fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(m)).unwrap();
}

/// the current directory for a while
struct In(PathBuf);

impl In {
    fn new(d: &Path) -> In {
        let was = std::env::current_dir().unwrap();
        std::env::set_current_dir(d).unwrap();
        In(was)
    }
}

impl Drop for In {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 100) {
        return bad_root(s, ctx);
    }
    let scratch = ctx.scratch().canonicalize().unwrap();
    let inline = s.chance(1, 6);
    // whether the root is given by a path relative to the current directory, or if inline, its includes are
    let bare = s.chance(1, 3);
    let many = s.chance(1, 150);
    // whether access to some of it is denied
    let closed = !bare && s.chance(1, 8);
    // the files, of which the first is the root
    let mut names: Vec<(&'static str, String)> = Vec::new();
    let root_dir = *s.pick(&DIRS);
    let root_name = if s.chance(1, 5) { "a.bean" } else { "main.ledger" };
    names.push((root_dir, join(root_dir, root_name)));
    if many {
        ctx.class("many files");
    }
    for i in 0..if many && s.chance(1, 30) { s.range(260, 400) } else if many { s.range(20, 150) } else { s.range(1, 6) } {
        let d = *s.pick(&DIRS);
        let n = if many { join(d, &format!("f{i}.bean")) } else { join(d, s.pick(&NAMES)) };
        if !names.iter().any(|x| x.1 == n) {
            names.push((d, n));
        }
    }
    for d in DIRS {
        fs::create_dir_all(scratch.join(d)).unwrap();
    }
    // other things which a path may lead to
    let mut extras = Vec::new();
    while extras.len() < 3 && s.chance(1, 3) {
        // a link is in the directory of what it leads to, as what that includes is relative to the link
        let to = s.below(names.len());
        let d = names[to].0;
        let rel = join(d, *s.pick(&["y1.bean", "y2.bean", "x3.bean"]));
        if extras.contains(&rel) {
            continue;
        }
        let p = scratch.join(&rel);
        match s.weighted(&[3, 1, 1, 1]) {
            0 => {
                let t = &names[to].1;
                std::os::unix::fs::symlink(scratch.join(t), &p).unwrap()
            }
            1 => std::os::unix::fs::symlink(scratch.join("nowhere"), &p).unwrap(),
            2 => fs::create_dir(&p).unwrap(),
            _ => fs::write(&p, b"\xff\xfe2020-01-01 open Assets:A\n").unwrap(),
        }
        extras.push(rel);
    }
    let g = Gen { expr_depth: 0, meta: 2, key, ident, date, string, kinds: [2, 0, 1, 1, 1, 1, 0, 0, 1, 0, 0, 0], ..Gen::default() };
    let pushes = s.chance(1, 2);
    let mut files: Vec<File> = Vec::new();
    for (i, (dir, rel)) in names.iter().enumerate() {
        let mut decls = Vec::new();
        let mut open: Vec<Prag> = Vec::new();
        let max = if i == 0 { 10 } else { 6 };
        while decls.len() < max && s.chance(4, 5) {
            let d = match s.weighted(&[6, if i == 0 { 6 } else { 3 }, 1, if pushes { 3 } else { 0 }]) {
                0 => Decl0::Dir(g.dir(s)),
                1 => {
                    let rootless = inline && i == 0;
                    let pool: &[(&'static str, String)] = if rootless || s.chance(9, 10) { &names[1..] } else { &names };
                    let pool = if pool.is_empty() { &names[..] } else { pool };
                    // mostly a long chain
                    let pool = if many && i + 1 < names.len() && s.chance(3, 4) { &names[i + 1..i + 2] } else { pool };
                    Decl0::Prag(Prag::Include(gen_include(s, dir, pool, rootless, bare, &scratch, &extras)))
                }
                2 => Decl0::Prag(Prag::Plugin(format!("p{}", s.draw(3)), s.chance(1, 2).then(|| string(s)))),
                _ => {
                    if !open.is_empty() && s.chance(1, 2) {
                        Decl0::Prag(open.pop().unwrap())
                    } else if s.chance(1, 2) {
                        let t = ident(s);
                        open.push(Prag::PopTag(t.clone()));
                        Decl0::Prag(Prag::PushTag(t))
                    } else {
                        let k = key(s);
                        open.push(Prag::PopMeta(k.clone()));
                        Decl0::Prag(Prag::PushMeta(k, Val::Str(string(s))))
                    }
                }
            };
            decls.push(d);
        }
        if !s.chance(1, 20) {
            decls.extend(open.into_iter().rev().map(Decl0::Prag));
        }
        if many && i + 1 < names.len() && s.chance(14, 15) {
            let rootless = inline && i == 0;
            let inc = Prag::Include(gen_include(s, dir, &names[i + 1..i + 2], rootless, bare, &scratch, &extras));
            let at = s.below(decls.len() + 1);
            decls.insert(at, Decl0::Prag(inc));
        }
        files.push(File { dir, rel: rel.clone(), decls });
    }
    // write the files
    let mut rendered = Vec::new();
    let mut texts = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let style = if s.chance(1, 4) { MESSY } else { PLAIN };
        let (text, rds) = render_file(s, &f.decls, i, style, &Names::default());
        if !(inline && i == 0) {
            let p = scratch.join(&f.rel);
            let _ = fs::remove_file(&p);
            fs::write(&p, &text).unwrap();
        }
        rendered.push(rds);
        texts.push(text);
    }
    let mut modes = Vec::new();
    if closed {
        let root = scratch.join(&files[0].rel);
        for f in &files[1..] {
            if s.chance(1, 4) {
                let p = scratch.join(&f.rel);
                mode(&p, *s.pick(&[0, 0o111, 0o222]));
                modes.push(p);
            }
        }
        // the innermost first
        for d in DIRS.iter().rev() {
            let p = scratch.join(d);
            if s.chance(1, 4) && !root.starts_with(&p) {
                mode(&p, *s.pick(&[0, 0o111, 0o444]));
                modes.push(p);
            }
        }
    }
    let denied = modes.iter().rev().cloned().collect::<Vec<PathBuf>>();
    let modes: String = modes.iter().map(|p| format!("\n=== {:o} {}", fs::metadata(p).map_or(0, |m| std::os::unix::fs::PermissionsExt::mode(&m.permissions())), p.display())).collect();
    let mut nobody = None;
    if closed {
        nobody = Some(Nobody::new());
        let there = |p: &Path| inline || fs::read(p).is_ok();
        // whether denied access is what is seen here
        let probe = scratch.join("probe");
        drop(nobody.take());
        fs::write(&probe, "").unwrap();
        mode(&probe, 0);
        nobody = Some(Nobody::new());
        if !there(&scratch.join(&files[0].rel)) || fs::read_dir(&scratch).is_err() || fs::read(&probe).is_ok() {
            drop(nobody);
            ctx.class("access can't be denied here");
            return Ok(());
        }
        ctx.class("access to some denied");
    }
    let shown = files
        .iter()
        .zip(&texts)
        .enumerate()
        .map(|(i, (f, t))| format!("=== {}{}\n{t}", if inline && i == 0 { "inline root, not " } else { "" }, f.rel))
        .collect::<String>()
        .replace(scratch.to_str().unwrap(), "/SCRATCH")
        + &modes.replace(scratch.to_str().unwrap(), "/SCRATCH");
    ctx.input(format!("{shown}=== others: {extras:?}"));
    // what the includes mean
    let index: HashMap<PathBuf, usize> = files
        .iter()
        .enumerate()
        .filter(|(i, _)| !(inline && *i == 0))
        .map(|(i, f)| (scratch.join(&f.rel), i))
        .collect();
    let mut includes = Includes::new();
    for (i, f) in files.iter().enumerate() {
        for d in &f.decls {
            if let Decl0::Prag(Prag::Include(p)) = d {
                let v = if p.contains("**") {
                    None
                } else {
                    Some(
                        expand(&scratch.join(if inline && i == 0 { "" } else { f.dir }), p)
                            .into_iter()
                            .map(|p| match p.canonicalize().ok().and_then(|p| index.get(&p)) {
                                Some(i) if fs::File::open(&p).is_ok() => Target::File(*i),
                                _ => Target::Unreadable,
                            })
                            .collect(),
                    )
                };
                includes.insert((i, p.clone()), v);
            }
        }
    }
    let m = interpret(&rendered, &includes);
    ctx.nontrivial = files.len() > 1 && (m.dirs.iter().any(|d| !matches!(d.span, Sp::Upto(0, ..))) || !m.errors.is_empty());
    ctx.class(if m.errors.is_empty() { "accepted" } else { "rejected" });
    if m.repeats > 0 {
        ctx.class("harmless repeated include");
    }
    let _in;
    let sources = if inline {
        if bare {
            ctx.class("inline, relative to the current directory");
            _in = In::new(&scratch);
        }
        BeancountSources::from(texts[0].as_str())
    } else {
        let root = if bare {
            ctx.class("root relative to the current directory");
            let d = s.pick(&DIRS);
            let d = if s.chance(1, 2) { root_dir } else { d };
            _in = In::new(&scratch.join(d));
            let r = relative(d, &files[0].rel);
            PathBuf::from(if s.chance(1, 4) { format!("./{r}") } else { r })
        } else {
            scratch.join(&files[0].rel)
        };
        ctx.input(format!("{shown}=== others: {extras:?}\n=== root: {}", root.display().to_string().replace(scratch.to_str().unwrap(), "/SCRATCH")));
        if s.chance(1, 2) {
            BeancountSources::try_from(root.as_path())
        } else {
            BeancountSources::try_from(root)
        }
        .map_err(|e| format!("root can't be read: {e}"))?
    };
    drop(nobody);
    for p in denied {
        mode(&p, 0o755);
    }
    let _ = format!("{sources:?}");
    let parser = BeancountParser::new(&sources);
    // number of the source, to index of the file
    let mut ids: HashMap<usize, usize> = HashMap::new();
    let mut id = |source: usize| -> usize {
        *ids.entry(source).or_insert_with(|| {
            let r = sources.resolve_span(&Span { source, start: 0, end: 0 });
            match r.file_name {
                None => 0,
                Some(f) => Path::new(f).canonicalize().ok().and_then(|f| index.get(&f).copied()).unwrap_or(usize::MAX),
            }
        })
    };
    match parser.parse() {
        Ok(r) => {
            if !m.errors.is_empty() {
                return Err(format!("expected errors at {:?}, but the ledger was accepted", show_spans(&m.errors, &files)));
            }
            let mut got = actual::directives(&r.directives);
            for d in &mut got {
                renumber(d, &mut id);
            }
            tree::diff_all(&in_order(m.dirs), &got, true)?;
            let mut got = plugins(&r.plugins);
            for d in &mut got {
                renumber(d, &mut id);
            }
            tree::diff_all(&m.plugins, &got, true)
        }
        Err(e) => {
            let mut got = error_spans(&e.errors);
            for g in &mut got {
                g.0 = id(g.0);
            }
            got.sort();
            let want = spans_of(&m.errors);
            if got != want {
                return Err(format!("expected errors at {want:?}, got {got:?}: {}", show_errors(&e.errors)));
            }
            Ok(())
        }
    }
}

fn show_spans(v: &[Sp], files: &[File]) -> Vec<String> {
    v.iter()
        .map(|s| match s {
            Sp::At(f, a, b) => format!("{} {a}..{b}", files[*f].rel),
            s => format!("{s:?}"),
        })
        .collect()
}
