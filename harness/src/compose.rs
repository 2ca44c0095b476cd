//! Taking a flat grammar apart into files, includes with overrides, external patterns, nested grammars and combined
//! definitions, without changing its meaning
use crate::ast::*;
use crate::print_rnc;
use crate::print_rng;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub top: Top,
    pub inherited: String,
    /// included by some file (as opposed to: an external pattern, or the root)
    pub included: bool,
    /// href -> file
    pub refs: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default)]
pub struct Composed {
    pub root: String,
    pub specs: BTreeMap<String, FileSpec>,
    pub used: BTreeMap<&'static str, u64>,
}

pub struct Cfg {
    /// how often (out of 100) to split, wrap, move, ...
    pub split: usize,
    pub div: usize,
    pub include: usize,
    pub over: usize,
    pub external: usize,
    pub nested: usize,
    pub max_files: usize,
    /// where all the files are
    pub base: &'static str,
}

struct C<'a> {
    r: &'a mut Rng,
    cfg: &'a Cfg,
    ext: &'static str,
    /// where all the files are
    base: &'static str,
    out: Composed,
    nss: Vec<String>,
    next: usize,
    budget: isize,
}

const DIRS: &[&str] = &["", "", "d/", "d/e/", "x/", "a.b/c/", "é/", "with space/"];
pub const BASES: &[&str] = &["", "", "", "", "../", "../../o/", "/r/", "/"];
const NAMES: &[&str] = &["a", "b", "start", "foo", "d0", "d1", "d2", "inner", "x.y-z", "element", "common"];

pub fn compose(flat: &Flat, xml: bool, cfg: &Cfg, r: &mut Rng) -> Composed {
    let mut nss: Vec<String> = vec![];
    let mut collect = |p: &Pat| {
        p.visit(&mut |q| {
            if let Pat::Elem(nc, _) | Pat::Attr(nc, _) = q {
                let mut v = vec![];
                nc.namespaces(&mut v);
                nss.extend(v.into_iter().map(String::from))
            }
        })
    };
    collect(&flat.start);
    flat.defs.values().for_each(&mut collect);
    nss.push(String::new());
    nss.sort();
    nss.dedup();
    nss.retain(|n| n != crate::xml::XML_NS);
    let mut c = C { r, cfg, base: cfg.base, ext: if xml { "rng" } else { "rnc" }, out: Composed::default(), nss, next: 0, budget: 400 };
    let root = c.file_name();
    c.reserve(&root, String::new(), false);
    let mut items = vec![Item::Start(Assign::Eq, flat.start.clone())];
    for (n, p) in &flat.defs {
        items.push(Item::Def(n.clone(), Assign::Eq, p.clone()));
    }
    let top = if c.r.chance(1, 8) && cfg.external > 0 {
        let inner = c.file_name();
        let ns = c.some_ns();
        c.reserve(&inner, ns, false);
        let items = c.grammar(items, &inner, &flat.defs, 3);
        c.finish(&inner, Top::Gram(Gram { items }));
        let h = c.href(&root, &inner);
        c.used("root is an external pattern");
        Top::Pat(Pat::External(h))
    } else {
        let items = c.grammar(items, &root, &flat.defs, 3);
        Top::Gram(Gram { items })
    };
    c.finish(&root, top);
    c.out.root = root;
    c.out
}

impl Composed {
    pub fn print(&self, xml: bool, fancy: usize, r: &mut Rng) -> BTreeMap<String, String> {
        let mut files = BTreeMap::new();
        for (n, s) in &self.specs {
            let t = if xml {
                print_rng::print(&s.top, *n != self.root, fancy, r)
            } else {
                let pass = s.refs.iter().map(|(h, f)| (h.clone(), self.specs[f].inherited.clone())).collect();
                let env = print_rnc::Env { inherited: s.inherited.clone(), pass, bare: false };
                print_rnc::print(&s.top, &env, fancy, r)
            };
            files.insert(n.clone(), t);
        }
        files
    }
}

pub fn relative(from: &str, to: &str, r: &mut Rng) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let (fd, td) = (&f[..f.len() - 1], &t[..t.len() - 1]);
    let mut common = fd.iter().zip(td).take_while(|(a, b)| a == b).count();
    // (there's no way back from a directory whose name isn't known)
    let floor = fd.iter().take_while(|s| matches!(**s, "" | "..")).count();
    if fd.first() == Some(&"") && r.chance(1, 4) {
        return to.to_string();
    }
    // sometimes the long way round
    while common > floor && r.chance(1, 6) {
        common -= 1
    }
    let mut segs: Vec<String> = vec![];
    for _ in common..fd.len() {
        segs.push("..".into())
    }
    for s in &td[common..] {
        segs.push(s.to_string())
    }
    segs.push(t[t.len() - 1].to_string());
    if r.chance(1, 5) {
        // (only at the start: what comes later may not be there, in a real file system)
        segs.insert(0, ".".into());
    }
    if r.chance(1, 10) {
        let n = r.below(segs.len());
        segs.insert(n, ".".into());
    }
    segs.join("/")
}

impl C<'_> {
    fn p(&mut self, n: usize) -> bool {
        self.r.chance(n, 100)
    }
    fn used(&mut self, k: &'static str) {
        *self.out.used.entry(k).or_insert(0) += 1
    }
    fn some_ns(&mut self) -> String {
        self.r.pick(&self.nss).clone()
    }
    fn file_name(&mut self) -> String {
        self.next += 1;
        // equal names in different directories
        loop {
            let n = if self.r.chance(1, 3) { "s".to_string() } else { format!("f{}", self.next) };
            let n = format!("{}{}{n}.{}", self.base, *self.r.pick(DIRS), self.ext);
            if !self.out.specs.contains_key(&n) {
                return n;
            }
        }
    }
    fn reserve(&mut self, n: &str, inherited: String, included: bool) {
        let prev = self.out.specs.insert(n.to_string(), FileSpec { top: Top::Pat(Pat::Empty), inherited, included, refs: BTreeMap::new() });
        assert!(prev.is_none());
    }
    fn finish(&mut self, n: &str, top: Top) {
        self.out.specs.get_mut(n).unwrap().top = top;
    }
    fn href(&mut self, from: &str, to: &str) -> String {
        let h = relative(from, to, self.r);
        self.out.specs.get_mut(from).unwrap().refs.insert(h.clone(), to.to_string());
        h
    }
    fn more_files(&self) -> bool {
        self.out.specs.len() < self.cfg.max_files && self.budget > 0
    }

    /// The items of one grammar, as they will be in a file: `defs` are the definitions of the whole grammar
    fn grammar(&mut self, items: Vec<Item>, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Vec<Item> {
        // combined definitions
        let mut parts: Vec<Item> = vec![];
        for i in items {
            self.split(i, &mut parts)
        }
        self.distribute(parts, file, defs, depth)
    }

    fn distribute(&mut self, mut parts: Vec<Item>, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Vec<Item> {
        let mut here = vec![];
        let mut includes = vec![];
        while depth > 0 && self.more_files() && self.p(self.cfg.include) && !parts.is_empty() {
            let keep = *self.r.pick(&[0, 30, 70]);
            let (mut moved, mut rest) = (vec![], vec![]);
            for i in std::mem::take(&mut parts) {
                if self.r.chance(keep, 100) {
                    rest.push(i)
                } else {
                    moved.push(i)
                }
            }
            parts = rest;
            let mut body = vec![];
            let mut names: Vec<Option<String>> = moved.iter().map(name_of).collect();
            names.sort();
            names.dedup();
            for n in names {
                if !self.p(self.cfg.over) {
                    continue;
                }
                let (b, m): (Vec<Item>, Vec<Item>) = moved.into_iter().partition(|i| name_of(i) == n);
                body.extend(b);
                moved = m;
                self.decoys(n, defs, &mut moved);
                self.used("definitions overridden");
            }
            if !body.is_empty() {
                self.used("includes with overrides");
            }
            let f = self.file_name();
            let ns = self.some_ns();
            self.reserve(&f, ns, true);
            self.used("includes");
            let items = self.distribute(moved, &f, defs, depth - 1);
            self.finish(&f, Top::Gram(Gram { items }));
            let h = self.href(file, &f);
            let body = self.here(body, file, defs, depth);
            includes.push(Item::Include(h, body));
        }
        here.extend(self.here(parts, file, defs, depth));
        for i in includes {
            let n = self.r.below(here.len() + 1);
            here.insert(n, i);
        }
        self.div(&mut here);
        here
    }

    /// Items that stay in this file
    fn here(&mut self, items: Vec<Item>, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Vec<Item> {
        let mut out: Vec<Item> = items
            .into_iter()
            .map(|i| match i {
                Item::Start(a, p) => Item::Start(a, self.pat(p, file, defs, depth)),
                Item::Def(n, a, p) => Item::Def(n, a, self.pat(p, file, defs, depth)),
                i => i,
            })
            .collect();
        if self.r.bool() {
            self.r.shuffle(&mut out);
        }
        self.div(&mut out);
        out
    }

    fn div(&mut self, items: &mut Vec<Item>) {
        if self.p(self.cfg.div) {
            let a = self.r.below(items.len() + 1);
            let b = self.r.range(a, items.len());
            let v: Vec<Item> = items.drain(a..b).collect();
            items.insert(a, Item::Div(v));
            self.used("div");
        }
    }

    fn split(&mut self, i: Item, out: &mut Vec<Item>) {
        if !self.p(self.cfg.split) {
            out.push(i);
            return;
        }
        let name = name_of(&i);
        let p = match i {
            Item::Start(_, p) | Item::Def(_, _, p) => p,
            _ => unreachable!(),
        };
        // (now and then with the other operator, so that what is combined is itself a choice or an interleave)
        let whole = self.r.chance(1, 4);
        let (op, mut v) = match p {
            p if whole => {
                let choice = match &p {
                    Pat::Choice(_) => self.r.chance(1, 4),
                    Pat::Inter(_) => self.r.chance(3, 4),
                    _ => self.r.bool(),
                };
                if choice {
                    (Assign::Choice, vec![Pat::NotAllowed, p])
                } else {
                    (Assign::Inter, vec![Pat::Empty, p])
                }
            }
            Pat::Choice(v) if v.len() > 1 => (Assign::Choice, v),
            Pat::Inter(v) if v.len() > 1 => (Assign::Inter, v),
            p if self.r.bool() => (Assign::Choice, if self.r.bool() { vec![p, Pat::NotAllowed] } else { vec![p] }),
            p => (Assign::Inter, if self.r.bool() { vec![p, Pat::Empty] } else { vec![p] }),
        };
        self.used(if op == Assign::Choice { "combined by choice" } else { "combined by interleave" });
        if self.r.bool() {
            self.r.shuffle(&mut v);
        }
        let n = self.r.range(1, v.len());
        let mut groups: Vec<Vec<Pat>> = vec![vec![]; n];
        for (k, p) in v.into_iter().enumerate() {
            let g = if k < n { k } else { self.r.below(n) };
            groups[g].push(p)
        }
        let plain = self.r.below(n + n.min(2));
        for (k, mut g) in groups.into_iter().enumerate() {
            let p = if g.len() == 1 {
                g.pop().unwrap()
            } else if op == Assign::Choice {
                Pat::Choice(g)
            } else {
                Pat::Inter(g)
            };
            // at most one need not say how to combine
            let a = if k == plain { Assign::Eq } else { op };
            out.push(match &name {
                None => Item::Start(a, p),
                Some(n) => Item::Def(n.clone(), a, p),
            });
        }
    }

    /// Definitions that will be overridden
    fn decoys(&mut self, name: Option<String>, defs: &BTreeMap<String, Pat>, out: &mut Vec<Item>) {
        let op = if self.r.bool() { Assign::Choice } else { Assign::Inter };
        let n = self.r.range(1, 2);
        let plain = self.r.below(n + 1);
        for k in 0..n {
            let p = match self.r.below(5) {
                0 => Pat::NotAllowed,
                1 => Pat::Text,
                2 => Pat::Empty,
                3 if !defs.is_empty() => {
                    let v: Vec<&String> = defs.keys().collect();
                    Pat::Elem(NC::Name("".into(), "decoy".into()), Box::new(Pat::Ref(self.r.pick(&v).to_string())))
                }
                _ => Pat::Elem(NC::AnyName(None), Box::new(Pat::Star(Box::new(Pat::Attr(NC::Name("".into(), "decoy".into()), Box::new(Pat::Text)))))),
            };
            let a = if k == plain || n == 1 && self.r.chance(2, 3) { Assign::Eq } else { op };
            out.push(match &name {
                None => Item::Start(a, p),
                Some(n) => Item::Def(n.clone(), a, p),
            });
        }
    }

    fn pat(&mut self, mut p: Pat, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Pat {
        if depth > 0 {
            if self.more_files() && self.p(self.cfg.external) {
                if let Some(q) = self.external(&p, file, defs, depth) {
                    return q;
                }
            }
            if self.budget > 0 && self.p(self.cfg.nested) {
                if let Some(q) = self.nested(&p, file, defs, depth) {
                    return q;
                }
            }
        }
        for c in p.children_mut() {
            let q = std::mem::replace(c, Pat::Empty);
            *c = self.pat(q, file, defs, depth);
        }
        p
    }

    /// The definitions a pattern depends on, unless there are too many, or some depend on another grammar
    fn closure(&self, p: &Pat, defs: &BTreeMap<String, Pat>) -> Option<BTreeSet<String>> {
        let mut names = BTreeSet::new();
        let mut todo = vec![p];
        let mut size = 0;
        while let Some(p) = todo.pop() {
            size += p.size();
            let mut parent = false;
            let mut refs = vec![];
            p.visit(&mut |q| match q {
                Pat::Parent(_) => parent = true,
                Pat::Ref(n) => refs.push(n.clone()),
                _ => {}
            });
            if parent || size > 150 {
                return None;
            }
            for n in refs {
                let d = defs.get(&n)?;
                if names.insert(n) {
                    todo.push(d)
                }
            }
        }
        Some(names)
    }

    fn renaming(&mut self, local: &BTreeSet<String>, outer: &BTreeMap<String, Pat>) -> BTreeMap<String, String> {
        let mut pool: Vec<String> = NAMES.iter().map(|s| s.to_string()).chain(outer.keys().cloned()).collect();
        pool.sort();
        pool.dedup();
        // "start" is a name like any other, if quoted
        pool.retain(|n| n != "start" || self.ext == "rnc");
        pool.retain(|n| n != "start");
        self.r.shuffle(&mut pool);
        let same = self.r.bool();
        local.iter().map(|n| (n.clone(), if same { n.clone() } else { pool.pop().unwrap_or_else(|| format!("{n}.r")) })).collect()
    }

    fn external(&mut self, p: &Pat, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Option<Pat> {
        let names = self.closure(p, defs)?;
        let f = self.file_name();
        let ns = self.some_ns();
        self.reserve(&f, ns, false);
        self.used("external patterns");
        self.budget -= p.size() as isize;
        let top = if names.is_empty() && self.r.chance(2, 3) {
            Top::Pat(self.pat(p.clone(), &f, &BTreeMap::new(), depth - 1))
        } else {
            let ren = self.renaming(&names, defs);
            let local: BTreeMap<String, Pat> = names.iter().map(|n| (ren[n].clone(), rename(&defs[n], &ren))).collect();
            self.budget -= local.values().map(|p| p.size() as isize).sum::<isize>();
            let mut items = vec![Item::Start(Assign::Eq, rename(p, &ren))];
            items.extend(local.iter().map(|(n, p)| Item::Def(n.clone(), Assign::Eq, p.clone())));
            let items = self.grammar(items, &f, &local, depth - 1);
            Top::Gram(Gram { items })
        };
        self.finish(&f, top);
        let h = self.href(file, &f);
        Some(if self.r.chance(1, 5) {
            // referred to twice
            self.used("file referred to twice");
            let h2 = self.href(file, &f);
            Pat::Choice(vec![Pat::External(h), Pat::External(h2)])
        } else {
            Pat::External(h)
        })
    }

    fn nested(&mut self, p: &Pat, file: &str, defs: &BTreeMap<String, Pat>, depth: usize) -> Option<Pat> {
        let names = self.closure(p, defs)?;
        let keep = *self.r.pick(&[0, 50, 100]);
        let local: BTreeSet<String> = names.iter().filter(|_| self.r.chance(keep, 100)).cloned().collect();
        self.used("nested grammars");
        self.budget -= p.size() as isize;
        let ren = self.renaming(&local, defs);
        let mut parents = 0;
        let mut conv = |p: &Pat| {
            let mut q = p.clone();
            q.visit_mut(&mut |x| {
                if let Pat::Ref(n) = x {
                    *x = match ren.get(n) {
                        Some(m) => Pat::Ref(m.clone()),
                        None => {
                            parents += 1;
                            Pat::Parent(n.clone())
                        }
                    }
                }
            });
            q
        };
        let inner: BTreeMap<String, Pat> = local.iter().map(|n| (ren[n].clone(), conv(&defs[n]))).collect();
        let start = conv(p);
        self.budget -= inner.values().map(|p| p.size() as isize).sum::<isize>();
        if parents > 0 {
            self.used("grammars with parent references");
        }
        if inner.keys().any(|n| defs.contains_key(n)) {
            self.used("equal names in different grammars");
        }
        let mut items = vec![Item::Start(Assign::Eq, start)];
        items.extend(inner.iter().map(|(n, p)| Item::Def(n.clone(), Assign::Eq, p.clone())));
        Some(Pat::Grammar(Gram { items: self.grammar(items, file, &inner, depth - 1) }))
    }
}

fn rename(p: &Pat, ren: &BTreeMap<String, String>) -> Pat {
    let mut q = p.clone();
    q.visit_mut(&mut |x| {
        if let Pat::Ref(n) = x {
            *n = ren[n].clone()
        }
    });
    q
}

pub fn name_of(i: &Item) -> Option<String> {
    match i {
        Item::Start(..) => None,
        Item::Def(n, ..) => Some(n.clone()),
        _ => unreachable!(),
    }
}

/// A flat grammar, and the same by way of many files, levels or parts
pub fn long(xml: bool, base: &'static str, r: &mut Rng) -> (Flat, Composed) {
    let cfg = Cfg { split: 0, div: 0, include: 0, over: 0, external: 0, nested: 0, max_files: 0, base };
    let n = crate::scale::size(r, 60);
    let kind = r.below(7);
    let mut c = C { r, cfg: &cfg, base, ext: if xml { "rng" } else { "rnc" }, out: Composed::default(), nss: vec![String::new()], next: 0, budget: 0 };
    let nested = c.r.bool();
    let file = |c: &mut C, i: usize, included: bool| {
        let f = if nested {
            format!("{base}{}s.{}", "d/".repeat(i), c.ext)
        } else {
            c.file_name()
        };
        c.reserve(&f, String::new(), included);
        f
    };
    let el = |n: String, p: Pat| Pat::Elem(NC::Name("".into(), n), Box::new(p));
    let choice = |mut v: Vec<Pat>| if v.len() == 1 { v.pop().unwrap() } else { Pat::Choice(v) };
    let mut defs: BTreeMap<String, Pat> = BTreeMap::new();
    let root;
    let start;
    match kind {
        0 => {
            // each file includes the next and overrides some of its definitions
            c.used("chains of includes");
            let m = c.r.range(1, 6);
            let files: Vec<String> = (0..n).map(|i| file(&mut c, i, i > 0)).collect();
            let often = *c.r.pick(&[3, 30, 70]);
            let mut seen: BTreeMap<Option<String>, Pat> = BTreeMap::new();
            for i in 0..n {
                let mut items = vec![];
                for k in 0..=m {
                    if i + 1 < n && !c.r.chance(often, 100) {
                        continue;
                    }
                    let name = (k < m).then(|| format!("x{k}"));
                    let to = Pat::Ref(format!("x{}", c.r.below(m)));
                    let p = el(format!("e{i}-{k}"), if c.r.bool() { Pat::Star(Box::new(to)) } else { Pat::Opt(Box::new(to)) });
                    seen.entry(name.clone()).or_insert(p.clone());
                    items.push(match name {
                        Some(name) => Item::Def(name, Assign::Eq, p),
                        None => Item::Start(Assign::Eq, p),
                    });
                }
                c.r.shuffle(&mut items);
                if i + 1 < n {
                    let h = c.href(&files[i], &files[i + 1]);
                    items = vec![Item::Include(h, items)];
                }
                c.finish(&files[i], Top::Gram(Gram { items }));
            }
            start = seen.remove(&None).unwrap();
            defs = seen.into_iter().map(|(n, p)| (n.unwrap(), p)).collect();
            root = files[0].clone();
        }
        1 => {
            // grammars in grammars, that refer to definitions of the surrounding one
            c.used("chains of nested grammars");
            let mut inner: Option<Pat> = None;
            for i in (0..n).rev() {
                let mut v = vec![];
                for _ in 0..c.r.below(3) {
                    let k = c.r.below(2);
                    v.push(if i > 0 && c.r.bool() { (Pat::Parent(format!("x{k}")), format!("x{k}-{}", i - 1)) } else { (Pat::Ref(format!("x{k}")), format!("x{k}-{i}")) });
                }
                let mut composed: Vec<Pat> = v.iter().map(|x| x.0.clone()).collect();
                let mut flat: Vec<Pat> = v.into_iter().map(|x| Pat::Ref(x.1)).collect();
                composed.push(Pat::Empty);
                flat.push(Pat::Empty);
                if let Some(p) = inner {
                    composed.push(p);
                    flat.push(Pat::Ref(format!("g{}", i + 1)));
                }
                defs.insert(format!("g{i}"), el(format!("g{i}"), choice(flat)));
                let mut items = vec![Item::Start(Assign::Eq, el(format!("g{i}"), choice(composed)))];
                for k in 0..2 {
                    let to = if i > 0 && c.r.bool() { (Pat::Parent(format!("x{k}")), format!("x{k}-{}", i - 1)) } else { (Pat::Ref(format!("x{k}")), format!("x{k}-{i}")) };
                    let name = format!("e{k}-{}", i % 3);
                    items.push(Item::Def(format!("x{k}"), Assign::Eq, el(name.clone(), Pat::Opt(Box::new(to.0)))));
                    defs.insert(format!("x{k}-{i}"), el(name, Pat::Opt(Box::new(Pat::Ref(to.1)))));
                }
                c.r.shuffle(&mut items);
                inner = Some(Pat::Grammar(Gram { items }));
            }
            root = file(&mut c, 0, false);
            c.finish(&root, Top::Pat(inner.unwrap()));
            start = Pat::Ref("g0".into());
        }
        2 => {
            // a definition in many parts, here and there
            c.used("definitions of many parts");
            let inter = c.r.chance(1, 3);
            let n = if inter { n.min(20) } else { n };
            let parts: Vec<Pat> = (0..n).map(|i| el(format!("e{i}"), Pat::Empty)).map(|p| if c.r.bool() { Pat::Opt(Box::new(p)) } else { p }).collect();
            let whole = if parts.len() == 1 {
                parts[0].clone()
            } else if inter {
                Pat::Inter(parts.clone())
            } else {
                Pat::Choice(parts.clone())
            };
            defs.insert("x".into(), whole);
            start = el("r".into(), Pat::Ref("x".into()));
            let plain = c.r.below(2 * n);
            let op = if inter { Assign::Inter } else { Assign::Choice };
            root = file(&mut c, 0, false);
            let mut items = vec![Item::Start(Assign::Eq, start.clone())];
            let how = c.r.below(3);
            let mut moved: Vec<Vec<Item>> = vec![];
            for (i, p) in parts.into_iter().enumerate() {
                let item = Item::Def("x".into(), if i == plain { Assign::Eq } else { op }, p);
                match how {
                    0 => items.push(item),
                    1 => {
                        if moved.is_empty() || c.r.bool() {
                            moved.push(vec![])
                        }
                        moved.last_mut().unwrap().push(item);
                    }
                    _ => {
                        // within all the previous
                        let all = std::mem::take(&mut items);
                        items.push(Item::Div(all));
                        items.push(item);
                    }
                }
            }
            for (i, v) in moved.into_iter().enumerate() {
                let f = file(&mut c, i + 1, true);
                c.finish(&f, Top::Gram(Gram { items: v }));
                let h = c.href(&root, &f);
                items.push(Item::Include(h, vec![]));
            }
            c.r.shuffle(&mut items);
            c.finish(&root, Top::Gram(Gram { items }));
        }
        3 | 4 => {
            // each file refers to the next, which uses the same names for other things
            c.used("chains of external patterns");
            let files: Vec<String> = (0..n).map(|i| file(&mut c, i, false)).collect();
            for i in 0..n {
                let next = if i + 1 < n {
                    let h = c.href(&files[i], &files[i + 1]);
                    (Pat::External(h), Pat::Ref(format!("f{}", i + 1)))
                } else {
                    (Pat::Text, Pat::Text)
                };
                let around = *c.r.pick(&[0, 1, 2]);
                let body = |p: Pat, x: Pat| match around {
                    0 => Pat::Choice(vec![Pat::Empty, p, x]),
                    1 => Pat::Group(vec![Pat::Opt(Box::new(x)), Pat::Opt(Box::new(p))]),
                    _ => Pat::Choice(vec![Pat::Opt(Box::new(p)), Pat::Plus(Box::new(x))]),
                };
                let e = format!("e{}", i % 3);
                let (top, flat) = if c.r.bool() {
                    let x = el("x".into(), Pat::Empty);
                    (Top::Pat(el(e.clone(), body(next.0, x.clone()))), el(e, body(next.1, x)))
                } else {
                    let x = el(format!("x{i}"), Pat::Empty);
                    let p = el(e.clone(), body(next.0, Pat::Ref("x".into())));
                    let items = vec![Item::Start(Assign::Eq, p), Item::Def("x".into(), Assign::Eq, x.clone())];
                    (Top::Gram(Gram { items }), el(e, body(next.1, x)))
                };
                c.finish(&files[i], top);
                defs.insert(format!("f{i}"), flat);
            }
            start = Pat::Ref("f0".into());
            root = files[0].clone();
        }
        _ => {
            // files whose texts are the same, but which mean something else
            c.used("chains of files with equal content");
            let files: Vec<String> = (0..=n).map(|i| format!("{base}{}s.{}", "d/".repeat(i), c.ext)).collect();
            let include = c.r.bool();
            for i in 0..=n {
                c.reserve(&files[i], String::new(), include && i > 0);
                let h = format!("d/s.{}", c.ext);
                if i < n {
                    c.out.specs.get_mut(&files[i]).unwrap().refs.insert(h.clone(), files[i + 1].clone());
                }
                let top = match (include, i < n) {
                    // (what's included has a part of the definitions)
                    (true, true) => Top::Gram(Gram { items: vec![Item::Include(h, vec![]), Item::Def("x".into(), Assign::Choice, el("e".into(), Pat::Opt(Box::new(Pat::Ref("x".into())))))] }),
                    (true, false) => Top::Gram(Gram { items: vec![Item::Start(Assign::Eq, el("r".into(), Pat::Ref("x".into()))), Item::Def("x".into(), Assign::Eq, el("last".into(), Pat::Empty))] }),
                    (false, true) => Top::Pat(el("e".into(), Pat::Group(vec![Pat::Opt(Box::new(Pat::External(h))), el("after".into(), Pat::Empty)]))),
                    (false, false) => Top::Pat(el("last".into(), Pat::Empty)),
                };
                c.finish(&files[i], top);
                if !include {
                    let p = if i < n { el("e".into(), Pat::Group(vec![Pat::Opt(Box::new(Pat::Ref(format!("f{}", i + 1)))), el("after".into(), Pat::Empty)])) } else { el("last".into(), Pat::Empty) };
                    defs.insert(format!("f{i}"), p);
                }
            }
            if include {
                let mut v: Vec<Pat> = (0..n).map(|_| el("e".into(), Pat::Opt(Box::new(Pat::Ref("x".into()))))).collect();
                v.push(el("last".into(), Pat::Empty));
                defs.insert("x".into(), choice(v));
                start = el("r".into(), Pat::Ref("x".into()));
            } else {
                start = Pat::Ref("f0".into());
            }
            root = files[0].clone();
        }
    }
    c.out.root = root;
    (Flat { start, defs }, c.out)
}
