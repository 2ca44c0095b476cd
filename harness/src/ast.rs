//! The harness's own representation of schemas.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum NC {
    Name(String, String),
    NsName(String, Option<Box<NC>>),
    AnyName(Option<Box<NC>>),
    Choice(Vec<NC>),
}

impl NC {
    pub fn contains(&self, ns: &str, local: &str) -> bool {
        match self {
            NC::Name(n, l) => n == ns && l == local,
            NC::NsName(n, ex) => n == ns && !ex.as_ref().is_some_and(|e| e.contains(ns, local)),
            NC::AnyName(ex) => !ex.as_ref().is_some_and(|e| e.contains(ns, local)),
            NC::Choice(v) => v.iter().any(|c| c.contains(ns, local)),
        }
    }
    pub fn is_infinite(&self) -> bool {
        match self {
            NC::Name(..) => false,
            NC::NsName(..) | NC::AnyName(..) => true,
            NC::Choice(v) => v.iter().any(|c| c.is_infinite()),
        }
    }
    /// Representative names, per section 7.4/jclark's overlap algorithm
    pub fn names(&self, out: &mut Vec<(String, String)>) {
        const IMPOSSIBLE: &str = "\u{1}";
        match self {
            NC::Name(n, l) => out.push((n.clone(), l.clone())),
            NC::NsName(n, ex) => {
                out.push((n.clone(), IMPOSSIBLE.into()));
                if let Some(e) = ex {
                    e.names(out)
                }
            }
            NC::AnyName(ex) => {
                out.push((IMPOSSIBLE.into(), IMPOSSIBLE.into()));
                if let Some(e) = ex {
                    e.names(out)
                }
            }
            NC::Choice(v) => v.iter().for_each(|c| c.names(out)),
        }
    }
    pub fn overlaps(&self, other: &NC) -> bool {
        let mut names = vec![];
        self.names(&mut names);
        other.names(&mut names);
        names
            .iter()
            .any(|(n, l)| self.contains(n, l) && other.contains(n, l))
    }
    pub fn namespaces<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            NC::Name(n, _) => out.push(n),
            NC::NsName(n, ex) => {
                out.push(n);
                if let Some(e) = ex {
                    e.namespaces(out)
                }
            }
            NC::AnyName(ex) => {
                if let Some(e) = ex {
                    e.namespaces(out)
                }
            }
            NC::Choice(v) => v.iter().for_each(|c| c.namespaces(out)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DT {
    pub xsd: bool,
    pub name: String,
}
impl DT {
    pub fn xsd(n: &str) -> DT {
        DT { xsd: true, name: n.into() }
    }
    pub fn builtin(n: &str) -> DT {
        DT { xsd: false, name: n.into() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Empty,
    NotAllowed,
    Text,
    Choice(Vec<Pat>),
    Group(Vec<Pat>),
    Inter(Vec<Pat>),
    Mixed(Box<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Elem(NC, Box<Pat>),
    Attr(NC, Box<Pat>),
    List(Box<Pat>),
    Data(DT, Vec<(String, String)>, Option<Box<Pat>>),
    Value(DT, String),
    Ref(String),
    // the following only occur in composed grammars
    Parent(String),
    External(String),
    Grammar(Gram),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assign {
    Eq,
    Choice,
    Inter,
}

/// The content of a grammar, including composition constructs
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Start(Assign, Pat),
    Def(String, Assign, Pat),
    Div(Vec<Item>),
    /// href, overrides
    Include(String, Vec<Item>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gram {
    pub items: Vec<Item>,
}

/// What a schema file consists of
#[derive(Clone, Debug, PartialEq)]
pub enum Top {
    Pat(Pat),
    Gram(Gram),
}

/// A flat grammar: every definition has exactly one body
#[derive(Clone, Debug, PartialEq)]
pub struct Flat {
    pub start: Pat,
    pub defs: BTreeMap<String, Pat>,
}

impl Flat {
    pub fn to_top(&self) -> Top {
        let mut items = vec![Item::Start(Assign::Eq, self.start.clone())];
        for (n, p) in &self.defs {
            items.push(Item::Def(n.clone(), Assign::Eq, p.clone()));
        }
        Top::Gram(Gram { items })
    }
}

impl Pat {
    pub fn children(&self) -> Vec<&Pat> {
        match self {
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) => v.iter().collect(),
            Pat::Mixed(p)
            | Pat::Opt(p)
            | Pat::Star(p)
            | Pat::Plus(p)
            | Pat::Elem(_, p)
            | Pat::Attr(_, p)
            | Pat::List(p) => vec![p],
            Pat::Data(_, _, Some(p)) => vec![p],
            _ => vec![],
        }
    }
    pub fn children_mut(&mut self) -> Vec<&mut Pat> {
        match self {
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) => v.iter_mut().collect(),
            Pat::Mixed(p)
            | Pat::Opt(p)
            | Pat::Star(p)
            | Pat::Plus(p)
            | Pat::Elem(_, p)
            | Pat::Attr(_, p)
            | Pat::List(p) => vec![p],
            Pat::Data(_, _, Some(p)) => vec![p],
            _ => vec![],
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Pat)) {
        f(self);
        for c in self.children() {
            c.visit(f)
        }
    }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut Pat)) {
        f(self);
        for c in self.children_mut() {
            c.visit_mut(f)
        }
    }
    pub fn refs(&self, out: &mut Vec<String>) {
        self.visit(&mut |p| {
            if let Pat::Ref(n) = p {
                out.push(n.clone())
            }
        })
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
}
