//! Schemas reduced to the core patterns, as a graph
use crate::ast::*;
use crate::dt;
use relaxng_model::datatype::Datatype;
use relaxng_model::{datatype, model};
use std::collections::HashMap;

pub type Id = usize;

#[derive(Clone, Debug)]
pub enum N {
    Empty,
    NotAllowed,
    Text,
    Choice(Vec<Id>),
    Group(Vec<Id>),
    Inter(Vec<Id>),
    Plus(Id),
    Elem(NC, Id),
    Attr(NC, Id),
    List(Id),
    Data(Lex, Option<Id>),
    Value(Val),
    /// stands for another node (a definition)
    Alias(Id),
}

#[derive(Clone, Debug)]
pub enum Lex {
    Ref(DT, Vec<(String, String)>),
    Model(datatype::Datatypes),
}
#[derive(Clone, Debug)]
pub enum Val {
    Ref(DT, String),
    Model(datatype::DatatypeValues),
}
impl Lex {
    pub fn allows(&self, s: &str) -> Option<bool> {
        match self {
            Lex::Ref(t, p) => dt::allows(t, p, s),
            Lex::Model(d) => Some(d.is_valid(s)),
        }
    }
}
impl Val {
    pub fn equals(&self, s: &str) -> Option<bool> {
        match self {
            Val::Ref(t, v) => dt::equals(t, v, s),
            Val::Model(d) => Some(d.is_valid(s)),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ir {
    pub nodes: Vec<N>,
    pub start: Id,
}

impl Ir {
    pub fn get(&self, mut id: Id) -> (Id, &N) {
        while let N::Alias(t) = &self.nodes[id] {
            id = *t;
        }
        (id, &self.nodes[id])
    }
    pub fn add(&mut self, n: N) -> Id {
        self.nodes.push(n);
        self.nodes.len() - 1
    }

    pub fn from_flat(f: &Flat) -> Ir {
        let mut ir = Ir::default();
        let mut names = HashMap::new();
        for n in f.defs.keys() {
            let id = ir.add(N::NotAllowed);
            names.insert(n.clone(), id);
        }
        for (n, p) in &f.defs {
            let body = ir.lower(p, &names);
            ir.nodes[names[n]] = N::Alias(body);
        }
        ir.start = ir.lower(&f.start, &names);
        ir
    }

    fn lower(&mut self, p: &Pat, names: &HashMap<String, Id>) -> Id {
        let n = match p {
            Pat::Empty => N::Empty,
            Pat::NotAllowed => N::NotAllowed,
            Pat::Text => N::Text,
            Pat::Choice(v) => N::Choice(v.iter().map(|q| self.lower(q, names)).collect()),
            Pat::Group(v) => N::Group(v.iter().map(|q| self.lower(q, names)).collect()),
            Pat::Inter(v) => N::Inter(v.iter().map(|q| self.lower(q, names)).collect()),
            Pat::Mixed(q) => {
                let t = self.add(N::Text);
                let q = self.lower(q, names);
                N::Inter(vec![q, t])
            }
            Pat::Opt(q) => {
                let e = self.add(N::Empty);
                let q = self.lower(q, names);
                N::Choice(vec![q, e])
            }
            Pat::Star(q) => {
                let e = self.add(N::Empty);
                let q = self.lower(q, names);
                let q = self.add(N::Plus(q));
                N::Choice(vec![q, e])
            }
            Pat::Plus(q) => N::Plus(self.lower(q, names)),
            Pat::Elem(nc, q) => N::Elem(nc.clone(), self.lower(q, names)),
            Pat::Attr(nc, q) => N::Attr(nc.clone(), self.lower(q, names)),
            Pat::List(q) => N::List(self.lower(q, names)),
            Pat::Data(d, ps, ex) => {
                let ex = ex.as_ref().map(|e| self.lower(e, names));
                N::Data(Lex::Ref(d.clone(), ps.clone()), ex)
            }
            Pat::Value(d, v) => N::Value(Val::Ref(d.clone(), v.clone())),
            Pat::Ref(n) => N::Alias(names[n]),
            _ => unreachable!("not flat"),
        };
        self.add(n)
    }

    /// The compiled model, as it's exposed to users of the library
    pub fn from_model(rule: &model::DefineRule) -> Ir {
        let mut ir = Ir::default();
        let mut defs = HashMap::new();
        ir.start = ir.lower_model(rule.pattern(), &mut defs);
        ir
    }

    fn lower_nc(nc: &model::NameClass) -> NC {
        match nc {
            model::NameClass::Named { namespace_uri, name } => NC::Name(namespace_uri.clone(), name.clone()),
            model::NameClass::NsName { namespace_uri, except } => {
                NC::NsName(namespace_uri.clone(), except.as_ref().map(|e| Box::new(Self::lower_nc(e))))
            }
            model::NameClass::AnyName { except } => NC::AnyName(except.as_ref().map(|e| Box::new(Self::lower_nc(e)))),
            model::NameClass::Alt { a, b } => NC::Choice(vec![Self::lower_nc(a), Self::lower_nc(b)]),
        }
    }

    fn lower_model(&mut self, p: &model::Pattern, defs: &mut HashMap<*const Option<model::DefineRule>, Id>) -> Id {
        use model::Pattern as P;
        let n = match p {
            P::Empty => N::Empty,
            P::NotAllowed => N::NotAllowed,
            P::Text => N::Text,
            P::Choice(v) => N::Choice(v.iter().map(|q| self.lower_model(q, defs)).collect()),
            P::Group(v) => N::Group(v.iter().map(|q| self.lower_model(q, defs)).collect()),
            P::Interleave(v) => N::Inter(v.iter().map(|q| self.lower_model(q, defs)).collect()),
            P::Mixed(q) => {
                let t = self.add(N::Text);
                let q = self.lower_model(q, defs);
                N::Inter(vec![q, t])
            }
            P::Optional(q) => {
                let e = self.add(N::Empty);
                let q = self.lower_model(q, defs);
                N::Choice(vec![q, e])
            }
            P::ZeroOrMore(q) => {
                let e = self.add(N::Empty);
                let q = self.lower_model(q, defs);
                let q = self.add(N::Plus(q));
                N::Choice(vec![q, e])
            }
            P::OneOrMore(q) => N::Plus(self.lower_model(q, defs)),
            P::Attribute(nc, q) => N::Attr(Self::lower_nc(nc), self.lower_model(q, defs)),
            P::Element(nc, q) => N::Elem(Self::lower_nc(nc), self.lower_model(q, defs)),
            P::Ref(_, _, r) => {
                let ptr = r.0.as_ptr() as *const Option<model::DefineRule>;
                if let Some(id) = defs.get(&ptr) {
                    return *id;
                }
                let id = self.add(N::NotAllowed);
                defs.insert(ptr, id);
                let b = r.0.borrow();
                let body = self.lower_model(b.as_ref().expect("definition of a reference").pattern(), defs);
                self.nodes[id] = N::Alias(body);
                return id;
            }
            P::DatatypeValue { datatype } => N::Value(Val::Model(datatype.clone())),
            P::DatatypeName { datatype, except } => {
                let ex = except.as_ref().map(|e| self.lower_model(e, defs));
                N::Data(Lex::Model(datatype.clone()), ex)
            }
            P::List(q) => N::List(self.lower_model(q, defs)),
        };
        self.add(n)
    }

    fn nc_canon(nc: &NC, s: &mut String) {
        match nc {
            NC::Name(n, l) => s.push_str(&format!("{n:?}:{l:?}")),
            NC::NsName(n, e) => {
                s.push_str(&format!("{n:?}:*"));
                if let Some(e) = e {
                    s.push_str("-(");
                    Self::nc_canon(e, s);
                    s.push(')');
                }
            }
            NC::AnyName(e) => {
                s.push('*');
                if let Some(e) = e {
                    s.push_str("-(");
                    Self::nc_canon(e, s);
                    s.push(')');
                }
            }
            NC::Choice(_) => {
                fn flat<'a>(nc: &'a NC, out: &mut Vec<&'a NC>) {
                    match nc {
                        NC::Choice(v) => v.iter().for_each(|c| flat(c, out)),
                        _ => out.push(nc),
                    }
                }
                let mut v = vec![];
                flat(nc, &mut v);
                let mut strs: Vec<String> = v
                    .iter()
                    .map(|c| {
                        let mut s = String::new();
                        Self::nc_canon(c, &mut s);
                        s
                    })
                    .collect();
                strs.sort();
                strs.dedup();
                s.push('(');
                s.push_str(&strs.join("|"));
                s.push(')');
            }
        }
    }

    /// A canonical text for the structure: references are inlined up to elements, elements are numbered in the order
    /// in which they're reached, and nested operators of the same kind are flattened.
    pub fn canon(&self) -> String {
        let mut nums: HashMap<Id, usize> = HashMap::new();
        let mut queue = vec![];
        let mut out = String::from("start = ");
        self.canon_pat(self.start, &mut nums, &mut queue, &mut out);
        let mut i = 0;
        while i < queue.len() {
            let id: Id = queue[i];
            if let (_, N::Elem(nc, b)) = self.get(id) {
                out.push_str(&format!("\ne{i} = element "));
                Self::nc_canon(nc, &mut out);
                out.push_str(" { ");
                self.canon_pat(*b, &mut nums, &mut queue, &mut out);
                out.push_str(" }");
            }
            i += 1;
            if out.len() > 400_000 {
                break;
            }
        }
        out
    }

    fn canon_pat(&self, id: Id, nums: &mut HashMap<Id, usize>, queue: &mut Vec<Id>, out: &mut String) {
        if out.len() > 400_000 {
            return;
        }
        let (id, n) = self.get(id);
        let op = |c: char| move |n: &N| matches!((c, n), ('|', N::Choice(_)) | (',', N::Group(_)) | ('&', N::Inter(_)));
        match n {
            N::Empty => out.push_str("empty"),
            N::NotAllowed => out.push_str("notAllowed"),
            N::Text => out.push_str("text"),
            N::Choice(v) | N::Group(v) | N::Inter(v) => {
                let c = match n {
                    N::Choice(_) => '|',
                    N::Group(_) => ',',
                    _ => '&',
                };
                if v.len() == 1 {
                    return self.canon_pat(v[0], nums, queue, out);
                }
                let same = op(c);
                let mut flat: Vec<Id> = vec![];
                fn go(ir: &Ir, v: &[Id], same: &dyn Fn(&N) -> bool, flat: &mut Vec<Id>) {
                    for i in v {
                        let (i, n) = ir.get(*i);
                        if same(n) {
                            if let N::Choice(w) | N::Group(w) | N::Inter(w) = n {
                                go(ir, w, same, flat)
                            }
                        } else {
                            flat.push(i)
                        }
                    }
                }
                go(self, v, &same, &mut flat);
                out.push('(');
                for (i, x) in flat.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                        out.push(c);
                        out.push(' ');
                    }
                    self.canon_pat(*x, nums, queue, out);
                }
                out.push(')');
            }
            N::Plus(p) => {
                self.canon_pat(*p, nums, queue, out);
                out.push('+');
            }
            N::Elem(..) => {
                let next = nums.len();
                let k = *nums.entry(id).or_insert_with(|| {
                    queue.push(id);
                    next
                });
                out.push_str(&format!("e{k}"));
            }
            N::Attr(nc, p) => {
                out.push_str("attribute ");
                Self::nc_canon(nc, out);
                out.push_str(" { ");
                self.canon_pat(*p, nums, queue, out);
                out.push_str(" }");
            }
            N::List(p) => {
                out.push_str("list { ");
                self.canon_pat(*p, nums, queue, out);
                out.push_str(" }");
            }
            N::Data(l, ex) => {
                match l {
                    Lex::Ref(d, p) => out.push_str(&format!("{d:?}{p:?}")),
                    Lex::Model(d) => out.push_str(&format!("{d:?}")),
                }
                if let Some(e) = ex {
                    out.push_str(" - (");
                    self.canon_pat(*e, nums, queue, out);
                    out.push(')');
                }
            }
            N::Value(v) => match v {
                Val::Ref(d, p) => out.push_str(&format!("{d:?}{p:?}")),
                Val::Model(d) => out.push_str(&format!("{d:?}")),
            },
            N::Alias(_) => unreachable!(),
        }
    }

    /// A signature of the structure that identifies bisimilar schemas (up to the order and repetition of choices, and
    /// the order of interleaved patterns)
    pub fn sig(&self) -> u64 {
        let mut elems: HashMap<Id, u64> = HashMap::new();
        for i in 0..self.nodes.len() {
            if let N::Elem(..) = self.nodes[i] {
                elems.insert(i, 1);
            }
        }
        for _ in 0..24 {
            let mut next = HashMap::with_capacity(elems.len());
            for id in elems.keys() {
                if let N::Elem(nc, b) = &self.nodes[*id] {
                    let mut s = String::new();
                    Self::nc_canon(nc, &mut s);
                    let h = crate::rng::mix(crate::rng::fnv(s.as_bytes()) ^ self.sig_pat(*b, &elems).rotate_left(17));
                    next.insert(*id, h);
                }
            }
            elems = next;
        }
        self.sig_pat(self.start, &elems)
    }

    fn sig_pat(&self, id: Id, elems: &HashMap<Id, u64>) -> u64 {
        use crate::rng::{fnv, mix};
        let (id, n) = self.get(id);
        let comb = |tag: u64, v: &[u64]| v.iter().fold(mix(tag), |a, b| mix(a.rotate_left(9) ^ *b));
        match n {
            N::Empty => 11,
            N::NotAllowed => 12,
            N::Text => 13,
            N::Choice(v) | N::Group(v) | N::Inter(v) => {
                let kind = std::mem::discriminant(n);
                let mut flat: Vec<Id> = vec![];
                let mut todo: Vec<Id> = v.iter().rev().copied().collect();
                while let Some(i) = todo.pop() {
                    let (i, m) = self.get(i);
                    match m {
                        N::Choice(w) | N::Group(w) | N::Inter(w) if std::mem::discriminant(m) == kind || w.len() == 1 => {
                            todo.extend(w.iter().rev())
                        }
                        _ => flat.push(i),
                    }
                }
                let mut h: Vec<u64> = flat.iter().map(|i| self.sig_pat(*i, elems)).collect();
                let tag = match n {
                    N::Choice(_) => {
                        h.sort();
                        h.dedup();
                        21
                    }
                    N::Group(_) => 22,
                    _ => {
                        h.sort();
                        23
                    }
                };
                if h.len() == 1 {
                    h[0]
                } else {
                    comb(tag, &h)
                }
            }
            N::Plus(p) => comb(24, &[self.sig_pat(*p, elems)]),
            N::Elem(..) => elems[&id],
            N::Attr(nc, p) => {
                let mut s = String::new();
                Self::nc_canon(nc, &mut s);
                comb(25, &[fnv(s.as_bytes()), self.sig_pat(*p, elems)])
            }
            N::List(p) => comb(26, &[self.sig_pat(*p, elems)]),
            N::Data(l, ex) => {
                let s = match l {
                    Lex::Ref(d, p) => format!("{d:?}{p:?}"),
                    Lex::Model(d) => format!("{d:?}"),
                };
                comb(27, &[fnv(s.as_bytes()), ex.map_or(0, |e| self.sig_pat(e, elems))])
            }
            N::Value(v) => {
                let s = match v {
                    Val::Ref(d, p) => format!("{d:?}{p:?}"),
                    Val::Model(d) => format!("{d:?}"),
                };
                comb(28, &[fnv(s.as_bytes())])
            }
            N::Alias(_) => unreachable!(),
        }
    }
}
