//! Pragmas and ledgers of several files: rendering, and the reference interpreter which says what
//! the directives, plugins, options and errors of a whole ledger must be.
use crate::model::*;
use crate::src::Src;
use crate::tree::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Prag {
    PushTag(String),
    PopTag(String),
    PushMeta(String, Val),
    PopMeta(String),
    Include(String),
    Option(String, String),
    Plugin(String, Option<String>),
}

#[derive(Clone, Debug)]
pub enum Decl0 {
    Dir(Dir),
    Prag(Prag),
}

/// a rendered declaration with the spans which matter
#[derive(Clone, Debug)]
pub enum Rd {
    Dir(Node),
    PushTag(String, Sp),
    PopTag(String, Sp),
    PushMeta(String, Sp, Node),
    PopMeta(String, Sp),
    Include(String, Sp),
    Option(String, Sp, String, Sp),
    Plugin(Node, Option<Node>),
}

impl Out {
    pub fn pragma(&mut self, s: &mut Src, p: &Prag) -> Rd {
        let start = self.pos();
        let rd = match p {
            Prag::PushTag(t) | Prag::PopTag(t) => {
                let push = matches!(p, Prag::PushTag(_));
                self.tok(if push { "pushtag" } else { "poptag" });
                self.sep(s);
                self.tok(&format!("#{t}"));
                let sp = self.span(start);
                if push {
                    Rd::PushTag(t.clone(), sp)
                } else {
                    Rd::PopTag(t.clone(), sp)
                }
            }
            Prag::PushMeta(k, v) => {
                self.tok("pushmeta");
                self.sep(s);
                let mut n = self.item(s, &Item::Kv(k.clone(), v.clone()));
                Rd::PushMeta(k.clone(), n.span.clone(), n.kids.pop().unwrap())
            }
            Prag::PopMeta(k) => {
                self.tok("popmeta");
                self.sep(s);
                self.tok(k);
                self.osep(s);
                self.tok(":");
                Rd::PopMeta(k.clone(), self.span(start))
            }
            Prag::Include(x) => {
                self.tok("include");
                self.sep(s);
                let sp = self.string(s, x);
                Rd::Include(x.clone(), sp)
            }
            Prag::Option(n, v) => {
                self.tok("option");
                self.sep(s);
                let a = self.string(s, n);
                self.sep(s);
                let b = self.string(s, v);
                Rd::Option(n.clone(), a, v.clone(), b)
            }
            Prag::Plugin(n, c) => {
                self.tok("plugin");
                self.sep(s);
                let sp = self.string(s, n);
                let n = Node::leaf(format!("module={n:?}"), sp);
                let c = c.as_ref().map(|c| {
                    self.sep(s);
                    let sp = self.string(s, c);
                    Node::leaf(format!("config={c:?}"), sp)
                });
                Rd::Plugin(n, c)
            }
        };
        self.eol(s);
        rd
    }
}

/// render the declarations of one file
pub fn render_file(s: &mut Src, decls: &[Decl0], source: usize, style: Style, names: &Names) -> (String, Vec<Rd>) {
    let mut o = Out::new(source, style);
    o.names = names.clone();
    o.prologue(s);
    let mut rds = Vec::new();
    for d in decls {
        rds.push(match d {
            Decl0::Dir(d) => Rd::Dir(o.dir(s, d).item),
            Decl0::Prag(p) => o.pragma(s, p),
        });
    }
    o.epilogue(s);
    let n = o.text.len();
    if let Some(Rd::Dir(last)) = rds.last_mut() {
        if let Sp::Upto(_, _, _, hi) = &mut last.span {
            *hi = n;
        }
    }
    (o.text, rds)
}

/// what an include pragma leads to
#[derive(Clone, Debug)]
pub enum Target {
    File(usize),
    /// exists but can't be read
    Unreadable,
}

pub type Includes = HashMap<(usize, String), Option<Vec<Target>>>;

#[derive(Default, Debug)]
pub struct Meaning {
    pub dirs: Vec<Node>,
    pub errors: Vec<Sp>,
    pub options: Vec<(String, Sp, String, Sp, usize)>,
    pub plugins: Vec<Node>,
    /// how often an included file was passed over as harmless
    pub repeats: usize,
    pub augmented: usize,
}

/// tags by the count of pushes; keys by the stack of pushes
#[derive(Clone, Debug, PartialEq, Default)]
struct State {
    tags: BTreeMap<String, Vec<Sp>>,
    meta: BTreeMap<String, Vec<(Sp, Node)>>,
}

impl State {
    fn same_context(&self, o: &State) -> bool {
        self.meta == o.meta
            && self.tags.len() == o.tags.len()
            && self.tags.iter().zip(&o.tags).all(|(a, b)| a.0 == b.0 && a.1.len() == b.1.len())
    }
}

pub struct Interp<'a> {
    pub files: &'a [Vec<Rd>],
    /// by the including file and the path as written: None is a path which can't be expanded
    pub includes: &'a Includes,
    state: State,
    seen: HashMap<usize, State>,
    out: Meaning,
}

/// The reference interpreter: files are taken in the order of inclusion, in place.
pub fn interpret(files: &[Vec<Rd>], includes: &Includes) -> Meaning {
    let mut i = Interp { files, includes, state: State::default(), seen: HashMap::new(), out: Meaning::default() };
    i.file(0);
    let Interp { state, mut out, .. } = i;
    for spans in state.tags.values() {
        out.errors.extend(spans.iter().cloned());
    }
    for pushes in state.meta.values() {
        out.errors.push(pushes[0].0.clone());
    }
    out
}

impl Interp<'_> {
    fn file(&mut self, f: usize) {
        for rd in &self.files[f] {
            match rd {
                Rd::Dir(n) => {
                    let mut n = n.clone();
                    let m = n.kids.last_mut().unwrap();
                    let mut extra = Vec::new();
                    for (t, spans) in &self.state.tags {
                        if !m.kids.iter().any(|k| k.label == format!("tag={t}")) {
                            extra.push(Node::leaf(format!("tag={t}"), spans.last().unwrap().clone()));
                        }
                    }
                    for (k, pushes) in &self.state.meta {
                        if !m.kids.iter().any(|x| x.label == format!("key={k}")) {
                            let (sp, v) = pushes.last().unwrap();
                            extra.push(Node::node(format!("key={k}"), sp.clone(), vec![v.clone()]));
                        }
                    }
                    self.out.augmented += extra.len();
                    m.kids.extend(extra);
                    m.kids.sort_by(|a, b| a.label.cmp(&b.label));
                    self.out.dirs.push(n);
                }
                Rd::PushTag(t, sp) => self.state.tags.entry(t.clone()).or_default().push(sp.clone()),
                Rd::PopTag(t, sp) => match self.state.tags.get_mut(t) {
                    Some(v) => {
                        v.pop();
                        if v.is_empty() {
                            self.state.tags.remove(t);
                        }
                    }
                    None => self.out.errors.push(sp.clone()),
                },
                Rd::PushMeta(k, sp, v) => self.state.meta.entry(k.clone()).or_default().push((sp.clone(), v.clone())),
                Rd::PopMeta(k, sp) => match self.state.meta.get_mut(k) {
                    Some(v) => {
                        v.pop();
                        if v.is_empty() {
                            self.state.meta.remove(k);
                        }
                    }
                    None => self.out.errors.push(sp.clone()),
                },
                Rd::Include(p, sp) => match &self.includes[&(f, p.clone())] {
                    None => self.out.errors.push(sp.clone()),
                    Some(v) if v.is_empty() => self.out.errors.push(sp.clone()),
                    Some(v) => {
                        // all the files matched are considered before any is processed
                        let mut todo = Vec::new();
                        for t in v {
                            match t {
                                Target::Unreadable => self.out.errors.push(sp.clone()),
                                Target::File(t) => match self.seen.get(t) {
                                    _ if *t == 0 => self.out.errors.push(sp.clone()),
                                    None => {
                                        self.seen.insert(*t, self.state.clone());
                                        todo.push(*t);
                                    }
                                    Some(c) if c.same_context(&self.state) => self.out.repeats += 1,
                                    Some(_) => self.out.errors.push(sp.clone()),
                                },
                            }
                        }
                        for t in todo {
                            self.file(t);
                        }
                    }
                },
                Rd::Option(n, a, v, b) => self.out.options.push((n.clone(), a.clone(), v.clone(), b.clone(), f)),
                Rd::Plugin(n, c) => {
                    let kids = std::iter::once(n.clone()).chain(c.clone()).collect();
                    self.out.plugins.push(Node::node("plugin", Sp::Any, kids));
                }
            }
        }
    }
}
