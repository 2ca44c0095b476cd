//! Putting a single fault into a correct (composed) schema
use crate::ast::*;
use crate::common::*;
use crate::compose::{self, Composed, FileSpec};
use crate::dt;
use crate::gen;
use crate::print_rng;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Where the fault is, by means of texts that do not occur elsewhere
#[derive(Clone, Debug)]
pub enum Spot {
    /// nothing is known
    Anywhere,
    /// some location in this file
    File(String),
    /// the construct of the given kind that has the text; any of them
    Mark { file: Vec<String>, marks: Vec<String>, role: Role },
    /// at or before the first occurrence of the text (or the end of the file), in that file
    NotAfter(String, Option<String>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    /// a name, or a literal
    Word,
    /// a reference, rather than a definition
    Ref,
    Def,
    /// an element or attribute pattern
    Elem,
    /// a parameter: its value or name, with the other name or value following or preceding
    Param,
    Value,
}

#[derive(Clone, Debug)]
pub struct Faulty {
    pub what: &'static str,
    pub files: BTreeMap<String, String>,
    pub root: String,
    pub xml: bool,
    /// any of these
    pub kinds: Vec<&'static str>,
    pub spot: Spot,
    /// the references to files by which the faulty file is reached, outermost first
    pub chain: Vec<(String, String)>,
    /// whether the error is about the grammar as a whole, which is only known once all of it is read
    pub late: bool,
    /// whether there's much of something
    pub large: bool,
}

/// Where in a composed schema something is
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub file: String,
    pub live: bool,
    /// innermost grammar
    pub gram: Option<usize>,
    /// how many grammars there are around it
    pub depth: usize,
    /// the definition it's part of (None: of start), if any
    pub def: Option<Option<String>>,
    pub attr: bool,
    /// within the same grammar
    pub attr_here: bool,
    /// within the same grammar
    pub list: bool,
    pub except: bool,
    /// within the body of an include
    pub over: bool,
    pub chain: Vec<(String, String)>,
    overridden: BTreeSet<Option<String>>,
}

pub enum Site<'a> {
    Pat(&'a mut Pat),
    /// the content of a grammar, div, or include
    Items(&'a mut Vec<Item>),
    File,
}

type Visit<'a> = &'a mut dyn FnMut(Site, &Info);

struct Walk<'a> {
    specs: &'a mut BTreeMap<String, FileSpec>,
    seen: BTreeSet<String>,
    /// the parent of each grammar, and what each definition refers to
    parents: Vec<Option<usize>>,
    edges: BTreeMap<(Option<usize>, Option<String>), BTreeSet<(Option<usize>, Option<String>)>>,
}

/// Calls the function for everything there is; in the same order each time, as long as nothing is changed
pub fn walk(c: &mut Composed, f: Visit) -> BTreeSet<(Option<usize>, Option<String>)> {
    let root = c.root.clone();
    let mut w = Walk { specs: &mut c.specs, seen: BTreeSet::new(), parents: vec![], edges: BTreeMap::new() };
    let info = Info { live: true, ..Info::default() };
    let from = (None, None);
    w.file(&root, &info, &from, false, f);
    // what's reachable
    let mut out = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if out.insert(n.clone()) {
            todo.extend(w.edges.get(&n).into_iter().flatten().cloned());
        }
    }
    out
}

type Node = (Option<usize>, Option<String>);

impl Walk<'_> {
    fn new_gram(&mut self, i: &Info, from: &Node) -> Info {
        self.parents.push(i.gram);
        let g = Some(self.parents.len() - 1);
        self.edges.entry(from.clone()).or_default().insert((g, None));
        Info { gram: g, depth: i.depth + 1, overridden: BTreeSet::new(), attr_here: false, list: false, except: false, over: false, ..i.clone() }
    }
    fn file(&mut self, name: &str, i: &Info, from: &Node, included: bool, f: Visit) {
        if !self.seen.insert(name.to_string()) {
            return;
        }
        let mut spec = self.specs.remove(name).unwrap();
        let i = Info { file: name.to_string(), ..i.clone() };
        f(Site::File, &i);
        let refs = spec.refs.clone();
        match &mut spec.top {
            Top::Pat(p) => self.pat(p, &i, from, &refs, f),
            Top::Gram(g) => {
                let i = if included { i.clone() } else { self.new_gram(&i, from) };
                self.items(&mut g.items, &i, &refs, f)
            }
        }
        self.specs.insert(name.to_string(), spec);
    }
    fn items(&mut self, items: &mut Vec<Item>, i: &Info, refs: &BTreeMap<String, String>, f: Visit) {
        f(Site::Items(items), i);
        for it in items.iter_mut() {
            match it {
                Item::Start(..) | Item::Def(..) => {
                    let n = compose::name_of(it);
                    let (Item::Start(_, p) | Item::Def(_, _, p)) = it else { unreachable!() };
                    let live = i.live && !i.overridden.contains(&n);
                    let i = Info { live, def: Some(n.clone()), ..i.clone() };
                    let from = if live { (i.gram, n) } else { (None, Some("nothing".into())) };
                    self.pat(p, &i, &from, refs, f);
                }
                Item::Div(v) => self.items(v, i, refs, f),
                Item::Include(h, v) => {
                    let mut names = i.overridden.clone();
                    names_of(v, &mut names);
                    self.items(v, &Info { over: true, ..i.clone() }, refs, f);
                    if let Some(to) = refs.get(h) {
                        let mut i = Info { overridden: names, ..i.clone() };
                        i.chain.push((i.file.clone(), h.clone()));
                        self.file(to, &i, &(None, Some("nothing".into())), true, f);
                    }
                }
            }
        }
    }
    fn pat(&mut self, p: &mut Pat, i: &Info, from: &Node, refs: &BTreeMap<String, String>, f: Visit) {
        f(Site::Pat(p), i);
        match p {
            Pat::Ref(n) => {
                self.edges.entry(from.clone()).or_default().insert((i.gram, Some(n.clone())));
            }
            Pat::Parent(n) => {
                let g = i.gram.and_then(|g| self.parents[g]);
                self.edges.entry(from.clone()).or_default().insert((g, Some(n.clone())));
            }
            Pat::External(h) => {
                if let Some(to) = refs.get(h) {
                    let mut i = i.clone();
                    i.chain.push((i.file.clone(), h.clone()));
                    self.file(to, &i, from, false, f);
                }
            }
            Pat::Grammar(g) => {
                let i = self.new_gram(i, from);
                self.items(&mut g.items, &i, refs, f)
            }
            _ => {
                let mut i = i.clone();
                match p {
                    Pat::Attr(..) => (i.attr, i.attr_here) = (true, true),
                    Pat::List(_) => i.list = true,
                    Pat::Data(..) => i.except = true,
                    _ => {}
                }
                for q in p.children_mut() {
                    self.pat(q, &i, from, refs, f)
                }
            }
        }
    }
}

fn names_of(items: &[Item], out: &mut BTreeSet<Option<String>>) {
    for i in items {
        match i {
            Item::Start(..) => {
                out.insert(None);
            }
            Item::Def(n, ..) => {
                out.insert(Some(n.clone()));
            }
            Item::Div(v) => names_of(v, out),
            Item::Include(..) => {}
        }
    }
}

struct Inj<'a> {
    c: Composed,
    base: &'static str,
    xml: bool,
    fancy: usize,
    r: &'a mut Rng,
    /// done to the text once it's printed
    edits: Vec<(String, Edit)>,
}
#[derive(Clone, Debug)]
enum Edit {
    /// compact: put this at the start
    Prepend(String),
    /// compact: replace the mark, with the prefix or backslash it has
    Name(String, String),
    /// replace the text (that occurs once)
    Text(String, String),
    /// XML: the library of the element with the mark as type
    Library(String, String),
    /// append
    Append(String),
    /// XML: replace the n-th end-tag, or tag, by something else
    Tag(usize, TagEdit),
}
#[derive(Clone, Copy, Debug)]
enum TagEdit {
    DropEnd,
    RenameEnd,
    Insert(&'static str),
    DropAttribute,
    /// an attribute that isn't allowed
    Attribute(usize),
    /// an element that isn't allowed
    Child(usize),
    /// without content
    Hollow,
    /// a name that isn't one
    BadName(usize),
    BadCombine,
    BadLibrary(usize),
}

type Made = Option<(&'static str, Vec<&'static str>, Spot, Vec<(String, String)>, bool)>;

const M: &str = "zQm";

impl Inj<'_> {
    /// All sites that satisfy the condition
    fn sites(&mut self, ok: &mut dyn FnMut(&Site, &Info) -> bool) -> Vec<(usize, Info)> {
        let mut n = 0;
        let mut v = vec![];
        walk(&mut self.c, &mut |s, i| {
            if ok(&s, i) {
                v.push((n, i.clone()))
            }
            n += 1;
        });
        v
    }
    fn pats(&mut self, ok: &mut dyn FnMut(&Pat, &Info) -> bool) -> Vec<(usize, Info)> {
        self.sites(&mut |s, i| if let Site::Pat(p) = s { i.live && ok(p, i) } else { false })
    }
    fn at(&mut self, n: usize, f: &mut dyn FnMut(Site)) {
        let mut k = 0;
        let mut done = false;
        walk(&mut self.c, &mut |s, _| {
            // (nothing that's visited before the change is affected by it)
            if k == n && !done {
                f(s);
                done = true;
            }
            k += 1;
        });
        assert!(done);
    }
    fn pick(&mut self, v: &[(usize, Info)]) -> Option<(usize, Info)> {
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(v).clone())
        }
    }
    /// Combines a pattern with the one that's there
    fn plant(&mut self, n: usize, i: &Info, q: Pat) {
        let mut r = self.r.fork();
        self.at(n, &mut |s| {
            let Site::Pat(p) = s else { unreachable!() };
            let old = std::mem::replace(p, Pat::Empty);
            let mut v = vec![old, q.clone()];
            if r.bool() {
                v.swap(0, 1)
            }
            *p = match r.below(6) {
                _ if i.except => Pat::Choice(v),
                0 => q.clone(),
                1 | 2 => Pat::Choice(v),
                3 if !i.list => Pat::Inter(v),
                4 => Pat::Opt(Box::new(Pat::Group(v))),
                _ => Pat::Group(v),
            }
        })
    }
    fn add_items(&mut self, n: usize, new: Vec<Item>) {
        let mut r = self.r.fork();
        self.at(n, &mut |s| {
            let Site::Items(v) = s else { unreachable!() };
            for i in new.clone() {
                let k = r.range(0, v.len());
                v.insert(k, i)
            }
        })
    }
    fn simple(&mut self) -> Pat {
        let r = &mut self.r;
        match r.below(6) {
            0 => Pat::Text,
            1 => Pat::Empty,
            2 => Pat::NotAllowed,
            3 => Pat::Elem(NC::Name("".into(), "q".into()), Box::new(Pat::Text)),
            4 => Pat::Value(DT::builtin("token"), "q".into()),
            _ => Pat::Elem(NC::AnyName(None), Box::new(Pat::Empty)),
        }
    }
    /// the place where the content of grammar g goes
    fn lists(&mut self, over: bool) -> Vec<(usize, Info)> {
        // (what's in the body of an include has to be in the included file)
        self.sites(&mut |s, i| matches!(s, Site::Items(_)) && i.live && (over || !i.over) && i.gram.is_some())
    }
    fn word(file: &str, m: &str) -> Spot {
        Self::role(file, m, Role::Word)
    }
    fn role(file: &str, m: &str, role: Role) -> Spot {
        Spot::Mark { file: vec![file.to_string()], marks: vec![m.to_string()], role }
    }
    /// a pattern that is in a grammar, or is to be so
    fn some_pat(&mut self) -> Option<(usize, Info)> {
        let v = self.pats(&mut |_, i| i.gram.is_some());
        // those deep within are few otherwise
        let w: Vec<_> = v.iter().filter(|x| x.1.depth > 1 || !x.1.chain.is_empty()).cloned().collect();
        if !w.is_empty() && self.r.bool() {
            return self.pick(&w);
        }
        self.pick(&v)
    }

    fn undefined(&mut self) -> Made {
        let (n, i) = self.some_pat()?;
        self.plant(n, &i, Pat::Ref(M.into()));
        // a definition of that name elsewhere doesn't count
        let mut others = self.sites(&mut |s, j| matches!(s, Site::Items(_)) && j.gram != i.gram && j.gram.is_some() && j.live && !j.over);
        // (walking has another result now)
        others.retain(|_| true);
        let mut what = "undefined reference";
        if !others.is_empty() && self.r.chance(1, 2) {
            let (k, _) = self.r.pick(&others).clone();
            let p = self.simple();
            self.add_items(k, vec![Item::Def(M.into(), Assign::Eq, p)]);
            what = "undefined reference (defined in another grammar)";
        }
        Some((what, vec!["UndefinedReference"], Self::role(&i.file, M, Role::Ref), i.chain, true))
    }
    fn undefined_parent(&mut self) -> Made {
        let v = self.pats(&mut |_, i| i.depth > 1);
        let (n, i) = self.pick(&v)?;
        self.plant(n, &i, Pat::Parent(M.into()));
        let others = self.sites(&mut |s, j| matches!(s, Site::Items(_)) && j.gram == i.gram && j.live && !j.over);
        let mut what = "undefined parent reference";
        if !others.is_empty() && self.r.chance(1, 2) {
            let (k, _) = self.r.pick(&others).clone();
            let p = self.simple();
            self.add_items(k, vec![Item::Def(M.into(), Assign::Eq, p)]);
            what = "undefined parent reference (defined in the grammar itself)";
        }
        Some((what, vec!["UndefinedReference"], Self::role(&i.file, M, Role::Ref), i.chain, true))
    }
    fn no_parent(&mut self) -> Made {
        let v = self.pats(&mut |_, i| i.depth == 1);
        let (n, i) = self.pick(&v)?;
        self.plant(n, &i, Pat::Parent(M.into()));
        // (the root may be printed with an explicit grammar)
        Some(("no parent", vec!["NoParentAvailable", "UndefinedReference"], Self::role(&i.file, M, Role::Ref), i.chain, true))
    }

    /// definitions put into the same grammar, wherever
    fn spread(&mut self, items: Vec<Item>) -> Option<Vec<Info>> {
        let v = self.lists(false);
        let (_, first) = self.pick(&v)?;
        let v: Vec<_> = v.into_iter().filter(|x| x.1.gram == first.gram).collect();
        let mut out = vec![];
        let mut at: Vec<(usize, Info, Item)> = vec![];
        for it in items {
            let (n, i) = self.r.pick(&v).clone();
            out.push(i.clone());
            at.push((n, i, it));
        }
        // later ones first, so that their numbers are still right
        at.sort_by_key(|x| std::cmp::Reverse(x.0));
        for (n, _, it) in at {
            self.add_items(n, vec![it])
        }
        Some(out)
    }
    fn marks(infos: &[Info], marks: Vec<String>, role: Role) -> Spot {
        Spot::Mark { file: infos.iter().map(|i| i.file.clone()).collect(), marks, role }
    }
    fn common_chain(infos: &[Info]) -> Vec<(String, String)> {
        let mut c = infos[0].chain.clone();
        for i in infos {
            let n = c.iter().zip(&i.chain).take_while(|(a, b)| a == b).count();
            c.truncate(n);
        }
        c
    }
    fn duplicate(&mut self) -> Made {
        let mut items: Vec<Item> = vec![];
        for _ in 0..2 {
            items.push(Item::Def(M.into(), Assign::Eq, self.simple()))
        }
        for _ in 0..self.r.below(3) {
            let a = Assign::Choice;
            items.push(Item::Def(M.into(), a, self.simple()))
        }
        self.r.shuffle(&mut items);
        let infos = self.spread(items)?;
        Some(("duplicate definition", vec!["DuplicateDefinition"], Self::marks(&infos, vec![M.into()], Role::Def), Self::common_chain(&infos), false))
    }
    fn duplicate_existing(&mut self) -> Made {
        // a definition that's there once more
        let mut found: Vec<(Option<usize>, Option<String>, bool)> = vec![];
        walk(&mut self.c, &mut |s, i| {
            if let Site::Items(v) = s {
                for it in v.iter() {
                    if let Item::Start(a, _) | Item::Def(_, a, _) = it {
                        let n = compose::name_of(it);
                        if i.live && !i.overridden.contains(&n) {
                            found.push((i.gram, n, *a == Assign::Eq))
                        }
                    }
                }
            }
        });
        if found.is_empty() {
            return None;
        }
        let (g, name, _) = self.r.pick(&found).clone();
        let has = found.iter().filter(|f| f.0 == g && f.1 == name && f.2).count();
        for _ in has..2 {
            let lists: Vec<_> = self.lists(false).into_iter().filter(|x| x.1.gram == g && !x.1.overridden.contains(&name)).collect();
            let p = self.simple();
            let it = match &name {
                None => Item::Start(Assign::Eq, p),
                Some(n) => Item::Def(n.clone(), Assign::Eq, p),
            };
            let (n, _) = self.pick(&lists)?;
            self.add_items(n, vec![it]);
        }
        Some((if name.is_none() { "duplicate start" } else { "duplicate definition (of one in use)" }, vec!["DuplicateDefinition"], Spot::Anywhere, vec![], false))
    }
    fn mixes(&mut self) -> Made {
        let mut items = vec![Item::Def(M.into(), Assign::Choice, self.simple()), Item::Def(M.into(), Assign::Inter, self.simple())];
        for _ in 0..self.r.below(3) {
            let a = if self.r.bool() { Assign::Choice } else { Assign::Inter };
            items.push(Item::Def(M.into(), a, self.simple()))
        }
        if self.r.bool() {
            items.push(Item::Def(M.into(), Assign::Eq, self.simple()))
        }
        self.r.shuffle(&mut items);
        let infos = self.spread(items)?;
        Some(("combined differently", vec!["DefineRulesMixesChoiceAndInterleave"], Self::marks(&infos, vec![M.into()], Role::Def), Self::common_chain(&infos), false))
    }
    fn no_start(&mut self) -> Made {
        let v = self.lists(false);
        let (_, i) = self.pick(&v)?;
        let g = i.gram;
        // where the grammar itself is
        let top = v.iter().find(|x| x.1.gram == g).unwrap().1.clone();
        fn strip(v: &mut Vec<Item>) {
            v.retain(|i| !matches!(i, Item::Start(..)));
            for i in v {
                if let Item::Div(w) = i {
                    strip(w)
                }
            }
        }
        walk(&mut self.c, &mut |s, i| {
            if i.gram == g {
                if let Site::Items(v) = s {
                    strip(v)
                }
            }
        });
        let root = top.file == self.c.root && top.depth == 1;
        Some(("missing start", vec!["StartRuleNotDefined"], Spot::File(top.file.clone()), if root { vec![] } else { top.chain }, false))
    }
    fn wrap(&mut self, p: Pat) -> Pat {
        let b = Box::new(p);
        let r = &mut self.r;
        match r.below(14) {
            0 | 1 => *b,
            2 => Pat::Choice(vec![Pat::Text, *b]),
            3 => Pat::Group(vec![*b, Pat::Empty]),
            4 => Pat::Inter(vec![Pat::Text, *b]),
            5 => Pat::Opt(b),
            6 => Pat::Star(b),
            7 => Pat::Plus(b),
            8 => Pat::Mixed(b),
            9 => Pat::List(b),
            10 => Pat::Attr(NC::Name("".into(), "q".into()), b),
            11 => Pat::Data(DT::xsd("string"), vec![], Some(b)),
            _ => {
                let mut q = *b;
                let mut deep = false;
                q.visit_mut(&mut |x| match x {
                    Pat::Ref(n) => *x = Pat::Parent(n.clone()),
                    Pat::Parent(_) | Pat::Grammar(_) => deep = true,
                    _ => {}
                });
                if deep {
                    // (parent references would have to be those of the grammar within)
                    return Pat::Opt(Box::new(unparent(q)));
                }
                let g = if r.bool() {
                    vec![Item::Start(Assign::Eq, q)]
                } else {
                    vec![Item::Def("zqi".into(), Assign::Eq, q), Item::Start(Assign::Eq, Pat::Ref("zqi".into()))]
                };
                Pat::Grammar(Gram { items: g })
            }
        }
    }
    fn recursion(&mut self) -> Made {
        // reachable definitions
        let reach = walk(&mut self.c, &mut |_, _| {});
        let v = self.pats(&mut |_, i| i.gram.is_some() && i.def.as_ref().is_some_and(|d| reach.contains(&(i.gram, d.clone()))));
        let (n, i) = self.pick(&v)?;
        let lists: Vec<_> = self.lists(false).into_iter().filter(|x| x.1.gram == i.gram).collect();
        let k = if self.r.chance(1, 15) { crate::scale::size(self.r, 100) } else { *self.r.pick(&[1, 1, 2, 3, 4]) };
        // (none is a part of another)
        let names: Vec<String> = (0..k).map(|j| format!("zQr{}{}", (b'a' + (j / 26) as u8) as char, (b'a' + (j % 26) as u8) as char)).collect();
        let mut files = vec![i.file.clone()];
        let mut at: Vec<(usize, Vec<Item>)> = vec![];
        for j in 0..k {
            let mut p = Pat::Ref(names[(j + 1) % k].clone());
            for _ in 0..self.r.below(3) {
                p = self.wrap(p);
            }
            let (l, li) = self.pick(&lists)?;
            files.push(li.file.clone());
            let a = *self.r.pick(&[Assign::Eq, Assign::Choice, Assign::Inter]);
            let mut items = vec![Item::Def(names[j].clone(), a, p)];
            if self.r.chance(1, 3) {
                let a = if a == Assign::Eq { *self.r.pick(&[Assign::Choice, Assign::Inter]) } else { a };
                items.push(Item::Def(names[j].clone(), a, self.simple()));
            }
            at.push((l, items));
        }
        // the sites are numbered as they are, so the last comes first
        let mut todo: Vec<(usize, Option<Vec<Item>>)> = at.into_iter().map(|(n, v)| (n, Some(v))).collect();
        todo.push((n, None));
        todo.sort_by_key(|x| std::cmp::Reverse(x.0));
        let first = names[0].clone();
        for (m, v) in todo {
            match v {
                Some(v) => self.add_items(m, v),
                None => self.plant(n, &i, Pat::Ref(first.clone())),
            }
        }
        files.sort();
        files.dedup();
        let what = if k == 1 { "definition that refers to itself" } else { "definitions that refer to each other" };
        Some((what, vec!["RecursiveReference"], Spot::Mark { file: files, marks: names, role: Role::Ref }, vec![], true))
    }

    fn recursive_include(&mut self) -> Made {
        let grams: BTreeSet<String> = self.c.specs.iter().filter(|(_, s)| matches!(s.top, Top::Gram(_))).map(|x| x.0.clone()).collect();
        let v = self.lists(false);
        let (n, i) = self.pick(&v)?;
        let mut to: Vec<String> = i.chain.iter().map(|c| c.0.clone()).collect();
        to.push(i.file.clone());
        to.retain(|t| grams.contains(t));
        if to.is_empty() {
            return None;
        }
        let to = self.r.pick(&to).clone();
        let h = compose::relative(&i.file, &to, self.r);
        self.add_items(n, vec![Item::Include(h.clone(), vec![])]);
        Some(("recursive include", vec!["RecursiveInclude"], self.href_spot(&i.file, &h), i.chain, false))
    }
    fn href_spot(&self, file: &str, h: &str) -> Spot {
        if self.fancy > 0 {
            Spot::File(file.to_string())
        } else {
            Spot::Mark { file: vec![file.to_string()], marks: vec![format!("\"{h}\"")], role: Role::Word }
        }
    }
    fn recursive_external(&mut self) -> Made {
        let (n, i) = self.some_pat()?;
        let mut to: Vec<String> = i.chain.iter().map(|c| c.0.clone()).collect();
        to.push(i.file.clone());
        let to = self.r.pick(&to).clone();
        let h = compose::relative(&i.file, &to, self.r);
        self.plant(n, &i, Pat::External(h.clone()));
        Some(("recursive external reference", vec!["RecursiveInclude"], self.href_spot(&i.file, &h), i.chain, false))
    }
    fn missing_file(&mut self) -> Made {
        let h = format!("{M}.x");
        if self.r.bool() {
            let (n, i) = self.some_pat()?;
            self.plant(n, &i, Pat::External(h.clone()));
            Some(("missing external file", vec!["Io"], Self::word(&i.file, &h), i.chain, false))
        } else {
            let v = self.lists(false);
            let (n, i) = self.pick(&v)?;
            self.add_items(n, vec![Item::Include(h.clone(), vec![])]);
            Some(("missing included file", vec!["Io"], Self::word(&i.file, &h), i.chain, false))
        }
    }
    fn new_file(&mut self, top: Top) -> String {
        let n = format!("{}{M}.{}", self.base, if self.xml { "rng" } else { "rnc" });
        self.c.specs.insert(n.clone(), FileSpec { top, inherited: String::new(), included: true, refs: BTreeMap::new() });
        n
    }
    fn href(&mut self, from: &str, to: &str) -> String {
        let up = from[self.base.len()..].matches('/').count();
        let h = format!("{}{}", "../".repeat(up), &to[self.base.len()..]);
        self.c.specs.get_mut(from).unwrap().refs.insert(h.clone(), to.to_string());
        h
    }
    fn not_a_grammar(&mut self) -> Made {
        let p = match self.r.below(3) {
            0 => Pat::Elem(NC::Name("".into(), "q".into()), Box::new(Pat::Empty)),
            1 => Pat::Choice(vec![Pat::Text, Pat::Elem(NC::AnyName(None), Box::new(Pat::Text))]),
            _ => Pat::Elem(NC::Name("".into(), "q".into()), Box::new(Pat::Grammar(Gram { items: vec![Item::Start(Assign::Eq, Pat::Text)] }))),
        };
        let v = self.lists(false);
        let (n, mut i) = self.pick(&v)?;
        let f = self.new_file(Top::Pat(p));
        let h = self.href(&i.file, &f);
        self.add_items(n, vec![Item::Include(h.clone(), vec![])]);
        i.chain.push((i.file.clone(), h));
        Some(("included file is not a grammar", vec!["IncludedFileMustBeGrammar"], Spot::File(f), i.chain, false))
    }
    fn override_missing(&mut self) -> Made {
        let v = self.sites(&mut |s, i| matches!(s, Site::Items(_)) && i.live && i.over);
        let (n, i) = self.pick(&v)?;
        let a = *self.r.pick(&[Assign::Eq, Assign::Choice, Assign::Inter]);
        let p = self.simple();
        // what the including grammar has itself doesn't count
        let lists: Vec<_> = self.lists(false).into_iter().filter(|x| x.1.gram == i.gram && x.1.file == i.file).collect();
        let mut what = "override of nothing";
        let mut todo = vec![(n, Item::Def(M.into(), a, p))];
        if a != Assign::Eq && self.r.bool() {
            if let Some((k, _)) = self.pick(&lists) {
                let q = self.simple();
                todo.push((k, Item::Def(M.into(), a, q)));
                what = "override of what is only in the including file";
            }
        }
        todo.sort_by_key(|x| std::cmp::Reverse(x.0));
        for (k, it) in todo {
            self.add_items(k, vec![it])
        }
        Some((what, vec!["OverrideMissingFromInclude"], Self::role(&i.file, M, Role::Def), i.chain, false))
    }
    fn override_missing_start(&mut self) -> Made {
        // an included file without any start; another one is added
        let v = self.lists(false);
        let (n, i) = self.pick(&v)?;
        let p = self.simple();
        let f = self.new_file(Top::Gram(Gram { items: vec![Item::Def("zqd".into(), Assign::Eq, p)] }));
        let h = self.href(&i.file, &f);
        // combined with whatever there is
        let mut op = None;
        walk(&mut self.c, &mut |s, j| {
            if let Site::Items(v) = s {
                for it in v.iter() {
                    if let Item::Start(a, _) = it {
                        if j.live && j.gram == i.gram && !j.overridden.contains(&None) && *a != Assign::Eq {
                            op = Some(*a)
                        }
                    }
                }
            }
        });
        let op = op.unwrap_or(Assign::Choice);
        if i.overridden.contains(&None) {
            return None;
        }
        self.add_items(n, vec![Item::Include(h, vec![Item::Start(op, Pat::NotAllowed)])]);
        Some(("override of a start that is not there", vec!["OverrideMissingFromInclude"], Spot::File(i.file.clone()), i.chain, false))
    }

    fn namespace_prefix(&mut self) -> Made {
        let (n, i) = self.some_pat_but_attr()?;
        let attr = self.r.bool();
        let nc = NC::Name("".into(), M.into());
        let nc = match self.r.below(4) {
            0 => NC::Choice(vec![NC::Name("".into(), "q".into()), nc]),
            1 => NC::AnyName(Some(Box::new(nc))),
            _ => nc,
        };
        let p = if attr {
            let p = Pat::Attr(nc.clone(), Box::new(Pat::Text));
            if nc.is_infinite() {
                Pat::Star(Box::new(p))
            } else {
                p
            }
        } else {
            Pat::Elem(nc, Box::new(Pat::Empty))
        };
        self.plant(n, &i, p);
        if self.xml {
            self.edits.push((i.file.clone(), Edit::Text(M.into(), format!("zQp:{M}"))));
            Some(("undeclared namespace prefix", vec!["UndefinedNamespacePrefix", "XmlParse"], Self::role(&i.file, M, Role::Elem), i.chain, false))
        } else {
            let to = if self.r.chance(1, 4) { "zQp:*".to_string() } else { format!("zQp:{M}") };
            self.edits.push((i.file.clone(), Edit::Name(M.into(), to)));
            Some(("undeclared namespace prefix", vec!["UndefinedNamespacePrefix"], Self::word(&i.file, "zQp:"), i.chain, false))
        }
    }
    fn some_pat_but_attr(&mut self) -> Option<(usize, Info)> {
        let v = self.pats(&mut |_, i| !i.attr && !i.list && !i.except);
        self.pick(&v)
    }
    fn inherit_prefix(&mut self) -> Made {
        if self.xml {
            return None;
        }
        let v = self.lists(false);
        let (n, i) = self.pick(&v)?;
        let f = self.new_file(Top::Gram(Gram { items: vec![] }));
        let up = i.file[self.base.len()..].matches('/').count();
        let h = format!("{}{}", "../".repeat(up), &f[self.base.len()..]);
        self.add_items(n, vec![Item::Include(h.clone(), vec![])]);
        // (so that the text is there as it is)
        self.fancy = 0;
        self.edits.push((i.file.clone(), Edit::Text(format!("\"{h}\""), format!("\"{h}\" inherit = zQp"))));
        Some(("undeclared prefix to inherit", vec!["UndefinedNamespacePrefix"], Self::word(&i.file, "zQp"), i.chain, false))
    }
    fn datatype_prefix(&mut self) -> Made {
        if self.xml {
            return None;
        }
        let (n, i) = self.some_pat_any()?;
        let p = self.data_or_value("zQt");
        self.plant(n, &i, p);
        self.edits.push((i.file.clone(), Edit::Name("zQt".into(), "zQp:string".into())));
        Some(("undeclared datatype prefix", vec!["UndefinedDatatypePrefix"], Self::word(&i.file, "zQp"), i.chain, false))
    }
    fn some_pat_any(&mut self) -> Option<(usize, Info)> {
        let v = self.pats(&mut |_, _| true);
        self.pick(&v)
    }
    fn data_or_value(&mut self, t: &str) -> Pat {
        if self.r.bool() {
            Pat::Data(DT::xsd(t), vec![], None)
        } else {
            Pat::Value(DT::xsd(t), "q".into())
        }
    }
    fn redeclared(&mut self) -> Made {
        if self.xml {
            return None;
        }
        let v = self.sites(&mut |s, _| matches!(s, Site::File));
        let (_, i) = self.pick(&v)?;
        let (text, what, kinds) = match self.r.below(5) {
            0 => ("namespace zQp = \"urn:1\"\nnamespace zQp = \"urn:2\"\n", "namespace prefix declared twice", vec!["NamespacePrefixAlreadyDefined"]),
            1 => ("namespace zQp = \"urn:1\"\nnamespace zQq = \"urn:2\"\nnamespace zQp = \"urn:1\"\n", "namespace prefix declared twice", vec!["NamespacePrefixAlreadyDefined"]),
            2 => ("namespace xml = \"urn:zQp\"\n", "xml prefix declared as another namespace", vec!["NamespacePrefixAlreadyDefined"]),
            3 => ("datatypes zQp = \"http://www.w3.org/2001/XMLSchema-datatypes\"\nnamespace zQp = \"urn:q\"\ndatatypes zQp = \"http://www.w3.org/2001/XMLSchema-datatypes\"\n", "datatype prefix declared twice", vec!["DatatypePrefixAlreadyDefined"]),
            _ => ("datatypes zQp = \"urn:1\"\ndatatypes zQq = \"\"\ndatatypes zQp = \"urn:2\"\n", "datatype prefix declared twice", vec!["DatatypePrefixAlreadyDefined"]),
        };
        self.edits.push((i.file.clone(), Edit::Prepend(text.to_string())));
        Some((what, kinds, Spot::File(i.file.clone()), i.chain, false))
    }

    fn element_in_attribute(&mut self) -> Made {
        let v = self.pats(&mut |_, i| !i.list && !i.except);
        let (n, i) = self.pick(&v)?;
        let el = Pat::Elem(NC::Name("".into(), M.into()), Box::new(Pat::Empty));
        let mut q = el;
        for _ in 0..self.r.below(3) {
            let b = Box::new(q);
            q = match self.r.below(9) {
                0 => Pat::Choice(vec![Pat::Text, *b]),
                1 => Pat::Group(vec![*b, Pat::Text]),
                2 => Pat::Inter(vec![*b, Pat::Text]),
                3 => Pat::Opt(b),
                4 => Pat::Star(b),
                5 => Pat::Plus(b),
                6 => Pat::Mixed(b),
                7 => Pat::Attr(NC::Name("".into(), "r".into()), b),
                _ => Pat::List(b),
            }
        }
        let mut file = i.file.clone();
        let mut chain = i.chain.clone();
        if self.r.chance(1, 4) {
            // (the site numbers aren't affected by a file nothing refers to yet)
            let f = self.new_file(Top::Pat(q));
            let h = self.href(&i.file, &f);
            chain.push((i.file.clone(), h.clone()));
            file = f;
            q = Pat::External(h);
        }
        if !i.attr_here || self.r.bool() {
            q = Pat::Attr(NC::Name("".into(), "q".into()), Box::new(q));
        }
        self.plant(n, &i, q);
        Some(("element in attribute", vec!["ElementAsChildOfAttribute"], Self::role(&file, M, Role::Elem), chain, false))
    }

    fn library(&mut self) -> Made {
        let (n, i) = self.some_pat_any()?;
        let p = self.data_or_value("zQt");
        self.plant(n, &i, p);
        let lib = *self.r.pick(&["urn:zQl", "http://www.w3.org/2001/XMLSchema", "http://relaxng.org/ns/structure/1.0"]);
        if self.xml {
            self.edits.push((i.file.clone(), Edit::Library("zQt".into(), lib.into())));
        } else {
            self.edits.push((i.file.clone(), Edit::Name("zQt".into(), "zQp:zQt".into())));
            self.edits.push((i.file.clone(), Edit::Prepend(format!("datatypes zQp = \"{lib}\"\n"))));
        }
        Some(("unknown datatype library", vec!["DatatypeError/UnsupportedDatatypeLibrary"], if self.xml { Self::role(&i.file, "zQt", Role::Value) } else { Self::word(&i.file, "zQt") }, i.chain, false))
    }
    fn unknown_type(&mut self) -> Made {
        let (n, i) = self.some_pat_any()?;
        let p = self.data_or_value("zQt");
        let builtin = self.r.bool();
        if builtin && self.xml {
            let p = match p {
                Pat::Data(..) => Pat::Data(DT::builtin("zQt"), vec![], None),
                _ => Pat::Value(DT::builtin("zQt"), "q".into()),
            };
            self.plant(n, &i, p);
        } else {
            self.plant(n, &i, p);
        }
        if builtin && !self.xml {
            self.edits.push((i.file.clone(), Edit::Name("zQt".into(), "zQp:zQt".into())));
            self.edits.push((i.file.clone(), Edit::Prepend("datatypes zQp = \"\"\n".into())));
        }
        let kind = if builtin { "DatatypeError/Relax/DatataypeNameUnknown" } else { "DatatypeError/Xsd/UnsupportedDatatype" };
        Some((if builtin { "unknown built-in datatype" } else { "unknown datatype" }, vec![kind], if self.xml { Self::role(&i.file, "zQt", Role::Value) } else { Self::word(&i.file, "zQt") }, i.chain, false))
    }
    fn builtin_param(&mut self) -> Made {
        let (n, i) = self.some_pat_any()?;
        let t = *self.r.pick(&["string", "token"]);
        let k = *self.r.pick(&["length", "maxLength", "zqk", "pattern"]);
        self.plant(n, &i, Pat::Data(DT::builtin(t), vec![(k.into(), M.into())], None));
        Some(("parameter of a built-in datatype", vec!["DatatypeError/Relax/ParamNotAllowed"], Self::role(&i.file, M, Role::Param), i.chain, false))
    }
    fn invalid_value(&mut self) -> Made {
        let (n, i) = self.some_pat_any()?;
        // (other types are not supported for values)
        let t = "QName";
        let v = match self.r.below(4) {
            0 => format!("1{M}"),
            1 => format!("{M}/a"),
            2 => format!("-{M}"),
            _ => format!("{M}+"),
        };
        self.plant(n, &i, Pat::Value(DT::xsd(t), v));
        Some(("invalid value of a datatype", vec!["DatatypeError/Xsd/InvalidValueOfType"], Self::role(&i.file, M, Role::Value), i.chain, false))
    }
    fn facet(&mut self) -> Made {
        let (n, i) = self.some_pat_any()?;
        let all: Vec<&str> = dt::NUMERIC.iter().chain(dt::LENGTHY).chain(dt::OTHERS).copied().collect();
        let bounded: Vec<&str> = dt::NUMERIC.iter().copied().chain(["decimal", "double"]).collect();
        const BOUNDS: [&str; 4] = ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"];
        const LENGTHS: [&str; 3] = ["length", "minLength", "maxLength"];
        let inv = vec!["DatatypeError/Xsd/Facet/InvalidInt", "DatatypeError/Xsd/Facet/InvalidFloat"];
        let confl = vec!["DatatypeError/Xsd/Facet/ConflictingFacet"];
        let na = vec!["DatatypeError/Xsd/Facet/InvalidFacet"];
        let p = |k: &str, v: &str| (k.to_string(), v.to_string());
        let r = &mut self.r;
        let (what, kinds, t, ps, spot) = match r.below(13) {
            12 => {
                // (not of the type)
                let (t, v) = *r.pick(&[
                    ("short", "32768"), ("short", "-32769"), ("unsignedShort", "-1"), ("unsignedShort", "65536"), ("int", "2147483648"), ("int", "-2147483649"),
                    ("unsignedInt", "4294967296"), ("unsignedInt", "-1"), ("long", "9223372036854775808"), ("long", "-9223372036854775809"),
                    ("unsignedLong", "18446744073709551616"), ("unsignedLong", "-1"), ("positiveInteger", "-1"), ("integer", "1.0"), ("int", "1e3"),
                    ("integer", "0x10"), ("short", ""), ("integer", ""), ("decimal", ""), ("double", ""), ("decimal", "1,5"), ("decimal", "1e3"), ("double", "1e"),
                    ("integer", "1_000"), ("decimal", "1_0"), ("integer", "--1"), ("positiveInteger", "+-1"), ("decimal", "."), ("integer", "1 2"),
                ]);
                ("invalid bound", inv, t, vec![p(*r.pick(&BOUNDS), v)], false)
            }
            0 => ("invalid bound", inv, *r.pick(&bounded), vec![p(*r.pick(&BOUNDS), M)], true),
            1 => ("invalid length", inv, *r.pick(dt::LENGTHY), vec![p(*r.pick(&LENGTHS), M)], true),
            2 => {
                let v = *r.pick(&["-1", "1.5", ""]);
                ("invalid length", inv, *r.pick(dt::LENGTHY), vec![p(*r.pick(&LENGTHS), v)], false)
            }
            3 => ("invalid digits", inv, "decimal", vec![p(*r.pick(&["totalDigits", "fractionDigits"]), M)], true),
            4 => {
                let ts: Vec<&str> = all.iter().copied().filter(|t| dt::has_pattern_facet(t)).collect();
                let v = *r.pick(&["(zQm", "[zQm", "*zQm", "zQm)"]);
                ("invalid pattern", vec!["DatatypeError/Xsd/Facet/InvalidPattern"], *r.pick(&ts), vec![p("pattern", v)], true)
            }
            5 => ("bound of a type that has none", na, *r.pick(dt::LENGTHY), vec![p(*r.pick(&BOUNDS), "1")], false),
            6 => ("length of a type that has none", na, *r.pick(&bounded), vec![p(*r.pick(&LENGTHS), "1")], false),
            7 => ("unknown facet", na, *r.pick(&all), vec![p("zQm", "1")], true),
            8 => {
                let (lo, hi) = (*r.pick(&BOUNDS[..2]), *r.pick(&BOUNDS[2..]));
                let same = lo.ends_with("Inclusive") != hi.ends_with("Inclusive") && r.bool();
                let mut v = vec![p(lo, if same { "10" } else { *r.pick(&["11", "20"]) }), p(hi, "10")];
                r.shuffle(&mut v);
                ("bounds the wrong way round", confl, *r.pick(&bounded), v, false)
            }
            9 => {
                let k = r.below(2) * 2;
                let mut v = vec![p(BOUNDS[k + r.below(2)], "20"), p(BOUNDS[k + r.below(2)], *r.pick(&["20", "20", "21"]))];
                if r.bool() {
                    v.push(if k == 0 { p("maxInclusive", "50") } else { p("minExclusive", "5") });
                }
                r.shuffle(&mut v);
                ("bound given twice", confl, *r.pick(&bounded), v, false)
            }
            10 => {
                let mut v = match r.below(4) {
                    0 => vec![p("minLength", "4"), p("maxLength", "3")],
                    1 => vec![p("length", "4"), p(*r.pick(&LENGTHS[1..]), "4")],
                    2 => vec![p("minLength", "1"), p("maxLength", "3"), p(*r.pick(&LENGTHS), "2")],
                    _ => {
                        let k = *r.pick(&LENGTHS);
                        vec![p(k, "3"), p(k, "3")]
                    }
                };
                r.shuffle(&mut v);
                ("lengths that conflict", confl, *r.pick(dt::LENGTHY), v, false)
            }
            _ => {
                let k = *r.pick(&["totalDigits", "fractionDigits"]);
                let v = if r.bool() { vec![p(k, "3"), p(k, "4")] } else { vec![p("fractionDigits", "5"), p("totalDigits", "4")] };
                ("digits that conflict", confl, "decimal", v, false)
            }
        };
        let mut ps = ps;
        if dt::has_pattern_facet(t) && r.chance(1, 4) {
            ps.insert(0, p("pattern", "[a-z]*"));
        }
        self.plant(n, &i, Pat::Data(DT::xsd(t), ps, None));
        let spot = if spot { Self::role(&i.file, M, Role::Param) } else { Spot::File(i.file.clone()) };
        Some((what, kinds, spot, i.chain, false))
    }

    fn syntax(&mut self) -> Made {
        let v = self.sites(&mut |s, _| matches!(s, Site::File));
        let (_, i) = self.pick(&v)?;
        let f = i.file.clone();
        if self.xml {
            let k = self.r.below(1000);
            let e = match self.r.below(14) {
                6 | 7 => TagEdit::Attribute(self.r.below(1000)),
                8 | 9 => TagEdit::Child(self.r.below(1000)),
                10 | 11 => TagEdit::Hollow,
                12 => TagEdit::BadName(self.r.below(1000)),
                13 => {
                    if self.r.bool() {
                        TagEdit::BadCombine
                    } else {
                        TagEdit::BadLibrary(self.r.below(1000))
                    }
                }
                0 => TagEdit::DropEnd,
                1 => TagEdit::RenameEnd,
                2 => TagEdit::Insert("<zQm xmlns=\"http://relaxng.org/ns/structure/1.0\"/>"),
                3 => TagEdit::Insert("zQm"),
                4 => TagEdit::Insert("<x:zQm/>"),
                _ => TagEdit::DropAttribute,
            };
            self.edits.push((f.clone(), Edit::Tag(k, e)));
            let spot = match e {
                TagEdit::Insert("zQm") => Spot::File(f.clone()),
                TagEdit::Insert(_) => Spot::NotAfter(f.clone(), Some("zQm".into())),
                TagEdit::Attribute(_) | TagEdit::Child(_) | TagEdit::Hollow | TagEdit::BadName(_) | TagEdit::BadCombine | TagEdit::BadLibrary(_) => {
                    Spot::Mark { file: vec![f.clone()], marks: vec!["zQmark".into()], role: Role::Word }
                }
                _ => Spot::File(f.clone()),
            };
            let kinds = vec!["XmlParse"];
            return Some(("incorrect XML syntax", kinds, spot, i.chain, false));
        }
        let e = *self.r.pick(&["}", ")", "zQm = = text", "zQm zQm", "zQm | | text", "element zQm", "zQm = element a { text", "include zQm", "zQm = list { }", "zQm = text text", "zQm = a, b | c", "zQm = \"a", "div { zQm = text", "zQm = element { text }", "zQm = xsd:", "zQm += text", "zQm = attribute a", "= zQm", "zQm = text - text", "zQm = a & b, c", "\\"]);
        self.edits.push((f.clone(), Edit::Append(format!("{e}\n"))));
        Some(("incorrect compact syntax", vec!["Parse"], Spot::NotAfter(f.clone(), None), i.chain, false))
    }
}

fn unparent(p: Pat) -> Pat {
    let mut p = p;
    p.visit_mut(&mut |x| {
        if let Pat::Parent(n) = x {
            if n.starts_with("zQ") {
                *x = Pat::Ref(n.clone())
            }
        }
    });
    p
}

pub const FAULTS: usize = 26;

/// A schema with one fault; None if there's no place for it
pub fn faulty(n: usize, r: &mut Rng) -> Option<Faulty> {
    let cfg = gen::Cfg {
        attrs: *r.pick(&[20, 40]),
        elem_defs: *r.pick(&[(1, 2), (2, 4)]),
        other_defs: *r.pick(&[(0, 2), (1, 4)]),
        depth: *r.pick(&[1, 2, 3]),
        namespaces: r.range(0, 2),
        odd_names: *r.pick(&[5, 40]),
        max_size: *r.pick(&[20, 60]),
        ..gen::Cfg::default()
    };
    let large = r.chance(1, 30);
    let flat = if large && r.bool() {
        crate::scale::schema(r, crate::scale::Kind::Any, &crate::scale::Limits { items: 150, levels: 60 }).flat
    } else {
        gen::schema(r, &cfg)
    };
    let mut cc = if r.chance(1, 3) {
        compose::Cfg { split: 0, div: 0, include: 0, over: 0, external: 0, nested: 0, max_files: 1, base: "" }
    } else {
        compose::Cfg { include: *r.pick(&[0, 60]), over: *r.pick(&[20, 60]), nested: *r.pick(&[3, 15]), external: *r.pick(&[3, 15]), ..crate::checks::c08_cfg(r) }
    };
    let xml = r.bool();
    let c = if large && r.bool() {
        cc.base = *r.pick(compose::BASES);
        compose::long(xml, cc.base, r).1
    } else {
        compose::compose(&flat, xml, &cc, r)
    };
    let fancy = *r.pick(&[0, 0, 10]);
    let mut j = Inj { c, base: cc.base, xml, fancy, r, edits: vec![] };
    let (what, kinds, spot, chain, late) = match n % FAULTS {
        0 => j.undefined(),
        1 => j.undefined_parent(),
        2 => j.no_parent(),
        3 => j.duplicate(),
        4 => j.duplicate_existing(),
        5 => j.mixes(),
        6 => j.no_start(),
        7 | 8 => j.recursion(),
        9 => j.recursive_include(),
        10 => j.recursive_external(),
        11 => j.missing_file(),
        12 => j.not_a_grammar(),
        13 => j.override_missing(),
        14 => j.override_missing_start(),
        15 => j.namespace_prefix(),
        16 => j.inherit_prefix(),
        17 => j.datatype_prefix(),
        18 => j.redeclared(),
        19 => j.element_in_attribute(),
        20 => j.library(),
        21 => j.unknown_type(),
        22 => j.builtin_param(),
        23 => j.invalid_value(),
        24 => j.facet(),
        _ => j.syntax(),
    }?;
    let mut files = j.c.print(xml, j.fancy, j.r);
    for (f, e) in &j.edits {
        let t = files.get_mut(f).unwrap();
        *t = edit(t, e, xml)?;
    }
    let root = j.c.root.clone();
    let mut padded = false;
    if r.chance(1, 15) {
        for t in files.values_mut() {
            if r.bool() && !t.starts_with("<?xml") && !t.starts_with('\u{feff}') {
                *t = format!("{}{t}", padding(xml, r));
                padded = true;
            }
        }
    }
    Some(Faulty { what, files, root, xml, kinds, spot, chain, late, large: large || padded })
}

/// What may come before everything else, at length
fn padding(xml: bool, r: &mut Rng) -> String {
    let n = crate::scale::size(r, 3000);
    match r.below(4) {
        0 => "\n".repeat(n),
        1 => " ".repeat(n),
        2 => {
            let c = *r.pick(&["a", "é", "日", "😀", "\t"]);
            let c = c.repeat(n);
            if xml {
                format!("<!-- {c} -->{}", if r.bool() { "\n" } else { "" })
            } else {
                format!("# {c}\n")
            }
        }
        _ => (0..n / 4 + 1).map(|i| if xml { format!("<!-- {i} -->\n") } else { format!("# {i}\n") }).collect(),
    }
}

fn edit(t: &str, e: &Edit, xml: bool) -> Option<String> {
    Some(match e {
        Edit::Prepend(s) => format!("{s}{t}"),
        Edit::Append(s) => format!("{t}{s}"),
        Edit::Text(a, b) => {
            if t.matches(&a[..]).count() != 1 {
                return None;
            }
            t.replacen(&a[..], b, 1)
        }
        Edit::Name(a, b) => {
            if t.matches(&a[..]).count() != 1 {
                return None;
            }
            let at = t.find(&a[..]).unwrap();
            let mut s = at;
            for (k, c) in t[..at].char_indices().rev() {
                if c.is_whitespace() || "(){}|&,=-[]?*+~\"'".contains(c) && c != '-' {
                    break;
                }
                s = k;
                if c == '\\' {
                    break;
                }
            }
            // (a hyphen that's an operator)
            let w = &t[s..at];
            if let Some(k) = w.rfind('-') {
                if !w[k..].contains(':') {
                    s += k + 1
                }
            }
            format!("{} {b}{}", &t[..s], &t[at + a.len()..])
        }
        Edit::Library(m, lib) => {
            let doc = roxmltree::Document::parse(t).ok()?;
            let n = doc.descendants().find(|n| n.attribute("type").is_some_and(|v| v.contains(&m[..])))?;
            match n.attributes().find(|a| a.name() == "datatypeLibrary" && a.namespace().is_none()) {
                Some(a) => {
                    let r = a.range_value();
                    format!("{}{lib}{}", &t[..r.start], &t[r.end..])
                }
                None => {
                    let k = n.attributes().find(|a| a.name() == "type" && a.namespace().is_none())?.range().start;
                    format!("{}datatypeLibrary=\"{lib}\" {}", &t[..k], &t[k..])
                }
            }
        }
        Edit::Tag(k, how) => {
            assert!(xml);
            let doc = roxmltree::Document::parse(t).ok()?;
            let els: Vec<_> = doc.descendants().filter(|n| n.is_element() && n.tag_name().namespace() == Some(print_rng::RNG)).collect();
            // not what's within foreign elements
            let els: Vec<_> = els.into_iter().filter(|n| n.ancestors().all(|a| !a.is_element() || a.tag_name().namespace() == Some(print_rng::RNG))).collect();
            match how {
                TagEdit::DropEnd | TagEdit::RenameEnd => {
                    let els: Vec<_> = els.into_iter().filter(|n| !t[n.range()].ends_with("/>")).collect();
                    let n = els.get(k % els.len().max(1))?;
                    let r = n.range();
                    let s = r.start + t[r.clone()].rfind("</")?;
                    let new = if matches!(how, TagEdit::DropEnd) { String::new() } else { "</zQm>".into() };
                    format!("{}{new}{}", &t[..s], &t[r.end..])
                }
                TagEdit::Insert(x) => {
                    // where there's no text
                    let els: Vec<_> = els
                        .into_iter()
                        .filter(|n| !t[n.range()].ends_with("/>") && !matches!(n.tag_name().name(), "name" | "value" | "param"))
                        .collect();
                    let n = els.get(k % els.len().max(1))?;
                    let r = n.range();
                    let s = r.start + t[r.clone()].rfind("</")?;
                    format!("{}{x}{}", &t[..s], &t[s..])
                }
                TagEdit::Attribute(_) | TagEdit::Child(_) | TagEdit::Hollow | TagEdit::BadName(_) | TagEdit::BadCombine | TagEdit::BadLibrary(_) => {
                    break_element(t, els, *k, how)?
                }
                TagEdit::DropAttribute => {
                    let need = |n: &roxmltree::Node, a: &str| {
                        matches!(
                            (n.tag_name().name(), a),
                            ("ref" | "parentRef" | "define" | "param", "name") | ("externalRef" | "include", "href") | ("data", "type")
                        )
                    };
                    let v: Vec<_> = els.iter().flat_map(|n| n.attributes().filter(|a| a.namespace().is_none() && need(n, a.name())).map(|a| a.range())).collect();
                    let r = v.get(k % v.len().max(1))?.clone();
                    format!("{}{}", &t[..r.start], &t[r.end..])
                }
            }
        }
    })
}

/// The k-th of the elements, made incorrect, and marked
fn break_element(t: &str, els: Vec<roxmltree::Node>, k: usize, how: &TagEdit) -> Option<String> {
    let attr = |n: &roxmltree::Node, a: &str| n.attributes().find(|x| x.namespace().is_none() && x.name() == a).map(|a| a.range());
    let in_names = |n: &roxmltree::Node| {
        matches!(n.tag_name().name(), "anyName" | "nsName" | "name")
            || n.ancestors().any(|a| a.is_element() && matches!(a.tag_name().name(), "anyName" | "nsName"))
            || n.descendants().any(|a| a != *n && matches!(a.tag_name().name(), "anyName" | "nsName" | "name") && n.tag_name().name() == "choice" && {
                let mut p = a;
                while p != *n && p.parent_element() != Some(*n) {
                    p = p.parent_element().unwrap()
                }
                matches!(p.tag_name().name(), "anyName" | "nsName" | "name" | "choice") && a.ancestors().take_while(|x| x != n).all(|x| matches!(x.tag_name().name(), "anyName" | "nsName" | "name" | "choice" | "except"))
            })
    };
    let fit: Vec<_> = els
        .into_iter()
        .filter(|n| {
            let name = n.tag_name().name();
            match how {
                TagEdit::Attribute(_) => true,
                TagEdit::Child(_) => {
                    matches!(
                        name,
                        "start" | "grammar" | "include" | "div" | "ref" | "parentRef" | "externalRef" | "empty" | "text" | "notAllowed" | "anyName" | "nsName" | "data" | "value" | "param" | "name"
                    )
                }
                TagEdit::Hollow => {
                    n.children().any(|c| c.is_element() && c.tag_name().namespace() == Some(print_rng::RNG))
                        && matches!(
                            name,
                            "group" | "interleave" | "choice" | "optional" | "zeroOrMore" | "oneOrMore" | "list" | "mixed" | "except" | "define" | "start" | "element"
                        )
                }
                TagEdit::BadName(_) => {
                    matches!(name, "ref" | "parentRef" | "define" | "param" | "data") || matches!(name, "element" | "attribute") && attr(n, "name").is_some() || name == "value" && attr(n, "type").is_some()
                }
                TagEdit::BadCombine => matches!(name, "define" | "start"),
                TagEdit::BadLibrary(_) => {
                    !in_names(n) && !matches!(name, "grammar" | "define" | "start" | "div" | "include" | "param" | "except")
                }
                _ => false,
            }
        })
        .collect();
    let n = fit.get(k % fit.len().max(1))?;
    let tag = n.tag_name().name();
    let r = n.range();
    // the end of the start-tag
    let mut quote = None;
    let end = r.start
        + t[r.clone()].find(|c: char| match quote {
            Some(q) => {
                if c == q {
                    quote = None
                }
                false
            }
            None => {
                if c == '"' || c == '\'' {
                    quote = Some(c)
                }
                c == '>'
            }
        })?;
    let empty = t[..end].ends_with('/');
    let end = if empty { end - 1 } else { end };
    let raw = &t[r.start + 1..][..t[r.start + 1..].find(|c: char| c.is_whitespace() || c == '/' || c == '>')?];
    let (head, tail) = (&t[..end], &t[end..]);
    let mark = " xmlns:zQ='urn:zQ' zQ:zQ='zQmark'";
    let replace = |a: std::ops::Range<usize>, v: &str| format!("{}{v}{}{mark}{tail}", &t[..a.start], &head[a.end..]);
    Some(match how {
        TagEdit::Attribute(j) => {
            let allowed: &[&str] = match tag {
                "element" | "attribute" | "ref" | "parentRef" | "param" => &["name"],
                "define" => &["name", "combine"],
                "start" => &["combine"],
                "data" | "value" => &["type"],
                "include" | "externalRef" => &["href"],
                _ => &[],
            };
            let all = ["zQm='x'", "name='a'", "type='string'", "combine='choice'", "href='a'", "xmlns:zR='http://relaxng.org/ns/structure/1.0' zR:name='a'", "Name='a'", "datatypelibrary=''"];
            let v: Vec<_> = all.iter().filter(|a| !allowed.iter().any(|b| a.starts_with(&format!("{b}=")))).collect();
            format!("{head}{mark} {}{tail}", v[j % v.len()])
        }
        TagEdit::Child(j) => {
            let x = ["<text xmlns='http://relaxng.org/ns/structure/1.0'/>", "<element name='a' xmlns='http://relaxng.org/ns/structure/1.0'><empty/></element>", "<ref name='a' xmlns='http://relaxng.org/ns/structure/1.0'/>"][j % 3];
            let x = if matches!(tag, "anyName" | "nsName") { ["<name xmlns='http://relaxng.org/ns/structure/1.0'>a</name>", x][j / 3 % 2] } else { x };
            if empty {
                format!("{head}{mark}>{x}</{raw}>{}", &t[r.end..])
            } else {
                let s = r.start + t[r.clone()].rfind("</")?;
                format!("{head}{mark}{}{x}{}", &t[end..s], &t[s..])
            }
        }
        TagEdit::Hollow => {
            let s = r.start + t[r.clone()].rfind("</")?;
            format!("{head}{mark}>{}", &t[s..])
        }
        TagEdit::BadName(j) => {
            let v = ["1a", "a b", "", "zQm:", ":a", "a:b:c", "-a", ".", "a/b", "\u{b7}a", "a\u{d7}", " "][j % 12];
            replace(attr(n, if matches!(tag, "data" | "value") { "type" } else { "name" })?, &format!("{}='{v}'", if matches!(tag, "data" | "value") { "type" } else { "name" }))
        }
        TagEdit::BadCombine => match attr(n, "combine") {
            Some(a) => replace(a, "combine='group'"),
            None => format!("{head}{mark} combine='zQm'{tail}"),
        },
        TagEdit::BadLibrary(j) => {
            let v = ["http://www.w3.org/2001/XMLSchema-datatypes#a", "http://example.org/a b", "relative", "http://[", "%zz:a"][j % 5];
            match attr(n, "datatypeLibrary") {
                Some(a) => replace(a, &format!("datatypeLibrary='{v}'")),
                None => format!("{head}{mark} datatypeLibrary='{v}'{tail}"),
            }
        }
        _ => unreachable!(),
    })
}

/// Where in the text the construct with the mark is
pub fn ranges(t: &str, mark: &str, role: Role, xml: bool) -> Vec<std::ops::Range<usize>> {
    if xml {
        let Ok(doc) = roxmltree::Document::parse(t) else { return vec![] };
        let m = mark.trim_matches('"');
        let exact = m.len() != mark.len();
        let hit = |v: &str| if exact { v == m } else { v.contains(m) };
        let mut out = vec![];
        for n in doc.descendants().filter(|n| n.is_element()) {
            let own = n.attributes().any(|a| hit(a.value())) || n.children().any(|c| c.text().is_some_and(|t| c.is_text() && hit(t)));
            if !own {
                continue;
            }
            let tag = n.tag_name().name();
            let ok = match role {
                Role::Ref => matches!(tag, "ref" | "parentRef"),
                Role::Def => matches!(tag, "define" | "start"),
                _ => true,
            };
            if !ok {
                continue;
            }
            let mut n = n;
            if role == Role::Elem {
                while !matches!(n.tag_name().name(), "element" | "attribute") {
                    n = n.parent_element().unwrap()
                }
            }
            out.push(n.range());
        }
        return out;
    }
    let mut out = vec![];
    // without strings
    let b = &blank(t, true)[..];
    let t = &blank(t, false)[..];
    let end = |c: char| c.is_whitespace() || "(){}[]>\\|&,=?*+~".contains(c);
    for (at, _) in t.match_indices(mark) {
        // the whole word, or literal
        let s0 = b[..at].char_indices().rev().find(|x| end(x.1)).map_or(0, |x| x.0 + x.1.len_utf8());
        let e0 = at + mark.len();
        let mut e = b[e0..].find(end).map_or(b.len(), |k| e0 + k);
        let mut s = s0;
        if b[..s].ends_with('\\') {
            s -= 1
        }
        let rest = b[e..].trim_start();
        let def = rest.starts_with('=') || rest.starts_with("|=") || rest.starts_with("&=");
        let before = b[..s].trim_end();
        match role {
            Role::Ref if def => continue,
            Role::Ref => {
                // parent
                if before.ends_with("parent") {
                    s = before.len() - 6
                }
            }
            Role::Def if !def => continue,
            Role::Elem => {
                let mut v: Vec<usize> = ["element", "attribute"].iter().flat_map(|w| b[..at].match_indices(w).map(|x| (x.0, w.len()))).filter(|(k, n)| !b[k + n..].starts_with(':')).map(|x| x.0).collect();
                v.sort();
                // (one of them may be part of the name)
                s = v.iter().rev().take(2).min().copied().unwrap_or(s);
            }
            Role::Param => {
                // name = "value"
                if let Some(o) = first_literal(before).strip_suffix('=') {
                    let o = o.trim_end();
                    s = o.rfind(|c: char| c.is_whitespace() || "{}]".contains(c)).map_or(0, |k| k + 1);
                }
                if def {
                    e += b[e..].find('=').unwrap() + 1;
                    e = b[e..].find('"').map_or(b.len(), |k| e + k);
                    e = b[e..].find(|c| c != '"').map_or(b.len(), |k| e + k);
                }
                // annotations
                s = b[..s].trim_end().len();
            }
            Role::Value => {
                // the type
                s = first_literal(before).rfind(|c: char| c.is_whitespace() || "(){}|&,".contains(c)).map_or(0, |k| k + 1);
            }
            _ => {}
        }
        out.push(s..e);
    }
    out
}

/// What's before the literals that the literal that follows is concatenated with
fn first_literal(mut before: &str) -> &str {
    while let Some(o) = before.strip_suffix('~') {
        before = o.trim_end().trim_end_matches('"').trim_end();
    }
    before
}

/// Compact syntax, with spaces rather than comments, and quotes rather than the characters of literals, and spaces rather than
/// annotations
fn blank(t: &str, literals: bool) -> String {
    let mut out = String::new();
    let mut rest = t;
    let mut depth = 0;
    while let Some(c) = rest.chars().next() {
        let n = match c {
            '#' => {
                let n = rest.find('\n').unwrap_or(rest.len());
                out.push_str(&" ".repeat(n));
                rest = &rest[n..];
                continue;
            }
            '"' | '\'' => {
                let q = if rest.starts_with("\"\"\"") || rest.starts_with("\'\'\'") { &rest[..3] } else { &rest[..1] };
                let n = rest[q.len()..].find(q).map_or(rest.len(), |k| k + 2 * q.len());
                if literals {
                    out.push_str(&if depth > 0 { " " } else { "\"" }.repeat(n));
                    rest = &rest[n..];
                    continue;
                }
                n
            }
            c => c.len_utf8(),
        };
        match c {
            '[' if literals => depth += 1,
            ']' if literals => depth -= 1,
            _ => {
                out.push_str(if depth > 0 { &"          "[..n] } else { &rest[..n] });
                rest = &rest[n..];
                continue;
            }
        }
        out.push(' ');
        rest = &rest[n..];
    }
    out
}

pub fn show(f: &Faulty) -> String {
    format!("fault: {}; root: {}\n{}", f.what, f.root, show_files(&f.files))
}
