//! A sequence of declarations spread over files: any part of it may be moved to a file of its own and
//! be included in its place, which makes no difference to what it means.
use crate::driver::Ctx;
use crate::ledger::*;
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use beancount_parser_lima::*;
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};

pub struct Files {
    pub texts: Vec<String>,
    pub rds: Vec<Vec<Rd>>,
    pub includes: Includes,
    /// None: inline
    pub paths: Vec<PathBuf>,
}

const NAMES: [&str; 10] = ["a.bean", "b.bean", "sub/c.bean", "é.bean", "sub/d e.bean", "z.beancount", "sub/deep/f.bean", "g", "a.b.c", "sub/0"];

fn up(dir: &str, to: &str) -> String {
    let n = dir.split('/').filter(|c| !c.is_empty()).count();
    format!("{}{to}", "../".repeat(n))
}

impl Files {
    /// one file in most cases: inline
    pub fn new(s: &mut Src, ctx: &mut Ctx, decls: Vec<Decl0>, style: impl Fn(&mut Src) -> Style, several: (u64, u64)) -> Files {
        let mut parts: Vec<Vec<Decl0>> = vec![decls];
        let mut paths = Vec::new();
        let mut includes = Includes::new();
        let mut links: Vec<(usize, usize, String)> = Vec::new();
        if s.chance(several.0, several.1) {
            let d = ctx.scratch().canonicalize().unwrap();
            fs::create_dir_all(d.join("sub/deep")).unwrap();
            paths.push(d.join("main.bean"));
            let first = s.below(NAMES.len());
            let many = s.chance(1, 300);
            let n = if many { s.range(30, 300) } else { s.below(NAMES.len()) };
            for k in 0..n {
                let name = if k < NAMES.len() { NAMES[(first + 3 * k) % NAMES.len()].to_string() } else { format!("sub/f{k}.bean") };
                let name = name.as_str();
                let from = s.below(parts.len());
                let len = parts[from].len();
                let a = s.below(len + 1);
                let b = s.range(a, len.min(a + 6));
                let cut: Vec<Decl0> = parts[from].drain(a..b).collect();
                // a part moved may have includes of its own, which move along
                let dir = if from == 0 { "" } else { paths[from].strip_prefix(&d).unwrap().parent().unwrap().to_str().unwrap() };
                let p = if s.chance(1, 6) { d.join(name).to_str().unwrap().to_string() } else { up(dir, name) };
                let to = parts.len();
                for l in links.iter_mut().filter(|l| l.0 == from) {
                    let here = cut.iter().any(|c| matches!(c, Decl0::Prag(Prag::Include(x)) if *x == l.2));
                    if here {
                        l.0 = to;
                    }
                }
                parts[from].insert(a, Decl0::Prag(Prag::Include(p.clone())));
                links.push((from, to, p));
                parts.push(cut);
                paths.push(d.join(name));
            }
            // paths as seen from where they ended up
            let dirs: Vec<String> = paths.iter().map(|p| p.strip_prefix(&d).unwrap().parent().unwrap().to_str().unwrap().to_string()).collect();
            for (from, to, p) in &mut links {
                if !p.starts_with('/') {
                    let q = up(&dirs[*from], paths[*to].strip_prefix(&d).unwrap().to_str().unwrap());
                    for x in &mut parts[*from] {
                        match x {
                            Decl0::Prag(Prag::Include(x)) if *x == *p => *x = q.clone(),
                            _ => {}
                        }
                    }
                    *p = q;
                }
                includes.insert((*from, p.clone()), Some(vec![Target::File(*to)]));
            }
        }
        let (mut texts, mut rds) = (vec![], vec![]);
        for (i, ds) in parts.iter().enumerate() {
            let st = style(s);
            let (t, r) = render_file(s, ds, i, st, &Names::default());
            if let Some(p) = paths.get(i) {
                fs::write(p, &t).unwrap();
            }
            texts.push(t);
            rds.push(r);
        }
        let mut shown = texts[0].clone();
        for (p, t) in paths.iter().zip(&texts).skip(1) {
            shown.push_str(&format!("\n=== {}\n{t}", p.display()));
        }
        if let Some(p) = paths.first() {
            shown = shown.replace(p.parent().unwrap().to_str().unwrap(), "/SCRATCH");
            ctx.class(format!("{} files", paths.len()));
        } else {
            ctx.class("inline");
        }
        ctx.input(shown);
        Files { texts, rds, includes, paths }
    }

    pub fn meaning(&self) -> Meaning {
        interpret(&self.rds, &self.includes)
    }

    pub fn sources(&self) -> Result<BeancountSources, String> {
        match self.paths.first() {
            None => Ok(BeancountSources::from(self.texts[0].as_str())),
            Some(p) => BeancountSources::try_from(p.as_path()).map_err(|e| format!("can't be read: {e}")),
        }
    }

    pub fn parse<T>(&self, f: impl FnOnce(&BeancountSources, Result<ParseSuccess, ParseError>) -> Result<T, String>) -> Result<T, String> {
        let sources = self.sources()?;
        let parser = BeancountParser::new(&sources);
        f(&sources, parser.parse())
    }

    /// number of a source as the library has it, to index of the file
    pub fn ids<'a>(&'a self, sources: &'a BeancountSources) -> impl FnMut(usize) -> usize + 'a {
        let mut ids: HashMap<usize, usize> = HashMap::new();
        move |source| {
            if self.paths.is_empty() {
                return source;
            }
            *ids.entry(source).or_insert_with(|| {
                let r = sources.resolve_span(&Span { source, start: 0, end: 0 });
                r.file_name.and_then(|f| Path::new(f).canonicalize().ok()).and_then(|f| self.paths.iter().position(|p| *p == f)).unwrap_or(usize::MAX)
            })
        }
    }

    /// spans with the index of the file
    pub fn renumber(&self, sources: &BeancountSources, mut nodes: Vec<Node>) -> Vec<Node> {
        let mut id = self.ids(sources);
        for n in &mut nodes {
            renumber(n, &mut id);
        }
        nodes
    }

    pub fn error_spans<K: ErrorOrWarningKind>(&self, sources: &BeancountSources, es: &[ErrorOrWarning<K>]) -> Vec<(usize, usize, usize)> {
        let mut id = self.ids(sources);
        let mut v: Vec<_> = es.iter().map(|e| (id(e.span().source), e.span().start, e.span().end)).collect();
        v.sort();
        v
    }
}

pub fn renumber(n: &mut Node, id: &mut impl FnMut(usize) -> usize) {
    if let Sp::At(f, ..) = &mut n.span {
        *f = id(*f);
    }
    for k in &mut n.kids {
        renumber(k, id);
    }
}
