//! A derivative based matcher (on sets of alternatives), which also tells where a document goes wrong.
use crate::ast::NC;
use crate::doc::*;
use crate::dt;
use crate::ir::*;
use std::collections::HashMap;

type P = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum K {
    Empty,
    NotAllowed,
    Text,
    /// sorted, distinct, at least two, none of which are Choice or NotAllowed
    Choice(Vec<P>),
    Group(P, P),
    Inter(P, P),
    Plus(P),
    /// an element, attribute, list, data or value of the schema
    Leaf(Id),
    After(P, P),
}

pub struct Deriv<'a> {
    ir: &'a Ir,
    ks: Vec<K>,
    ids: HashMap<K, P>,
    nullable: Vec<bool>,
    interned: HashMap<Id, P>,
    /// set when the reference could not decide about a string
    pub unknown: bool,
    pub limit: usize,
}

const EMPTY: P = 0;
const NOT: P = 1;
const TEXT: P = 2;

/// A place in a document where the reference finds the first error
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Place {
    /// the start tag of the element at this path is not allowed
    Start(Vec<usize>),
    /// the attribute with this index (in the order of the document) is not allowed
    Attr(Vec<usize>, usize),
    /// attributes are missing
    StartEnd(Vec<usize>),
    /// the text node at this path
    Text(Vec<usize>),
    /// the end tag comes too soon
    End(Vec<usize>),
}

pub struct Verdict {
    pub error: Option<Place>,
    /// name classes that would have been allowed instead (for Start, Text and End)
    pub expected: Vec<NC>,
}

impl<'a> Deriv<'a> {
    pub fn new(ir: &'a Ir) -> Deriv<'a> {
        let mut d = Deriv {
            ir,
            ks: vec![],
            ids: HashMap::new(),
            nullable: vec![],
            interned: HashMap::new(),
            unknown: false,
            limit: 20_000,
        };
        d.mk(K::Empty);
        d.mk(K::NotAllowed);
        d.mk(K::Text);
        d
    }
    fn mk(&mut self, k: K) -> P {
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let n = match &k {
            K::Empty | K::Text => true,
            K::NotAllowed | K::After(..) | K::Leaf(_) => false,
            K::Choice(v) => v.iter().any(|p| self.nullable[*p as usize]),
            K::Group(a, b) | K::Inter(a, b) => self.nullable[*a as usize] && self.nullable[*b as usize],
            K::Plus(p) => self.nullable[*p as usize],
        };
        let i = self.ks.len() as P;
        if self.ks.len() > self.limit {
            self.unknown = true;
            return NOT;
        }
        self.ks.push(k.clone());
        self.nullable.push(n);
        self.ids.insert(k, i);
        i
    }
    fn null(&self, p: P) -> bool {
        self.nullable[p as usize]
    }
    fn choice(&mut self, v: Vec<P>) -> P {
        let mut out = vec![];
        for p in v {
            match &self.ks[p as usize] {
                K::NotAllowed => {}
                K::Choice(w) => out.extend(w.iter().copied()),
                _ => out.push(p),
            }
        }
        out.sort();
        out.dedup();
        match out.len() {
            0 => NOT,
            1 => out[0],
            _ => self.mk(K::Choice(out)),
        }
    }
    fn group(&mut self, a: P, b: P) -> P {
        match (a, b) {
            (NOT, _) | (_, NOT) => NOT,
            (EMPTY, b) => b,
            (a, EMPTY) => a,
            _ => self.mk(K::Group(a, b)),
        }
    }
    fn inter(&mut self, a: P, b: P) -> P {
        match (a, b) {
            (NOT, _) | (_, NOT) => NOT,
            (EMPTY, b) => b,
            (a, EMPTY) => a,
            _ => {
                let (a, b) = (a.min(b), a.max(b));
                self.mk(K::Inter(a, b))
            }
        }
    }
    fn plus(&mut self, a: P) -> P {
        match a {
            NOT | EMPTY => a,
            _ => self.mk(K::Plus(a)),
        }
    }
    fn after(&mut self, a: P, b: P) -> P {
        if a == NOT || b == NOT {
            return NOT;
        }
        self.mk(K::After(a, b))
    }
    fn intern(&mut self, id: Id) -> P {
        let ir = self.ir;
        let (id, n) = ir.get(id);
        if let Some(p) = self.interned.get(&id) {
            return *p;
        }
        let p = match n {
            N::Empty => EMPTY,
            N::NotAllowed => NOT,
            N::Text => TEXT,
            N::Choice(v) => {
                let w = v.iter().map(|x| self.intern(*x)).collect();
                self.choice(w)
            }
            N::Group(v) => {
                let mut acc = EMPTY;
                for x in v.iter().rev() {
                    let x = self.intern(*x);
                    acc = self.group(x, acc);
                }
                acc
            }
            N::Inter(v) => {
                let mut acc = EMPTY;
                for x in v.iter().rev() {
                    let x = self.intern(*x);
                    acc = self.inter(x, acc);
                }
                acc
            }
            N::Plus(q) => {
                let q = self.intern(*q);
                self.plus(q)
            }
            _ => self.mk(K::Leaf(id)),
        };
        self.interned.insert(id, p);
        p
    }

    fn text_d(&mut self, p: P, s: &str, memo: &mut HashMap<P, P>) -> P {
        if let Some(r) = memo.get(&p) {
            return *r;
        }
        let r = match self.ks[p as usize].clone() {
            K::Empty | K::NotAllowed => NOT,
            K::Text => TEXT,
            K::Choice(v) => {
                let w = v.iter().map(|q| self.text_d(*q, s, memo)).collect();
                self.choice(w)
            }
            K::Group(a, b) => {
                let da = self.text_d(a, s, memo);
                let x = self.group(da, b);
                if self.null(a) {
                    let db = self.text_d(b, s, memo);
                    self.choice(vec![x, db])
                } else {
                    x
                }
            }
            K::Inter(a, b) => {
                let da = self.text_d(a, s, memo);
                let db = self.text_d(b, s, memo);
                let x = self.inter(da, b);
                let y = self.inter(a, db);
                self.choice(vec![x, y])
            }
            K::Plus(a) => {
                let d = self.text_d(a, s, memo);
                let more = self.choice(vec![p, EMPTY]);
                self.group(d, more)
            }
            K::After(a, b) => {
                let d = self.text_d(a, s, memo);
                self.after(d, b)
            }
            K::Leaf(id) => {
                let ir = self.ir;
                let ok = match &ir.nodes[id] {
                    N::Data(l, ex) => {
                        let l = l.allows(s);
                        if l.is_none() {
                            self.unknown = true;
                        }
                        l == Some(true)
                            && match ex {
                                None => true,
                                Some(e) => {
                                    let e = self.intern(*e);
                                    let d = self.text_d(e, s, &mut HashMap::new());
                                    !self.null(d)
                                }
                            }
                    }
                    N::Value(v) => {
                        let v = v.equals(s);
                        if v.is_none() {
                            self.unknown = true;
                        }
                        v == Some(true)
                    }
                    N::List(q) => {
                        let mut q = self.intern(*q);
                        for t in s.split(dt::is_ws).filter(|t| !t.is_empty()) {
                            q = self.text_d(q, t, &mut HashMap::new());
                        }
                        self.null(q)
                    }
                    _ => false,
                };
                if ok {
                    EMPTY
                } else {
                    NOT
                }
            }
        };
        memo.insert(p, r);
        r
    }

    fn value_ok(&mut self, p: P, s: &str) -> bool {
        if self.null(p) && dt::all_ws(s) {
            return true;
        }
        let d = self.text_d(p, s, &mut HashMap::new());
        self.null(d)
    }

    fn att_d(&mut self, p: P, a: &Att, memo: &mut HashMap<P, P>) -> P {
        if let Some(r) = memo.get(&p) {
            return *r;
        }
        let r = match self.ks[p as usize].clone() {
            K::Choice(v) => {
                let w = v.iter().map(|q| self.att_d(*q, a, memo)).collect();
                self.choice(w)
            }
            K::Group(x, y) => {
                let dx = self.att_d(x, a, memo);
                let dy = self.att_d(y, a, memo);
                let l = self.group(dx, y);
                let r = self.group(x, dy);
                self.choice(vec![l, r])
            }
            K::Inter(x, y) => {
                let dx = self.att_d(x, a, memo);
                let dy = self.att_d(y, a, memo);
                let l = self.inter(dx, y);
                let r = self.inter(x, dy);
                self.choice(vec![l, r])
            }
            K::Plus(x) => {
                let d = self.att_d(x, a, memo);
                let more = self.choice(vec![p, EMPTY]);
                self.group(d, more)
            }
            K::After(x, y) => {
                let d = self.att_d(x, a, memo);
                self.after(d, y)
            }
            K::Leaf(id) => {
                let ir = self.ir;
                match &ir.nodes[id] {
                    N::Attr(nc, b) if nc.contains(&a.ns, &a.local) => {
                        let b = self.intern(*b);
                        if self.value_ok(b, &a.value) {
                            EMPTY
                        } else {
                            NOT
                        }
                    }
                    _ => NOT,
                }
            }
            _ => NOT,
        };
        memo.insert(p, r);
        r
    }

    fn close_d(&mut self, p: P, memo: &mut HashMap<P, P>) -> P {
        if let Some(r) = memo.get(&p) {
            return *r;
        }
        let r = match self.ks[p as usize].clone() {
            K::Choice(v) => {
                let w = v.iter().map(|q| self.close_d(*q, memo)).collect();
                self.choice(w)
            }
            K::Group(x, y) => {
                let x = self.close_d(x, memo);
                let y = self.close_d(y, memo);
                self.group(x, y)
            }
            K::Inter(x, y) => {
                let x = self.close_d(x, memo);
                let y = self.close_d(y, memo);
                self.inter(x, y)
            }
            K::Plus(x) => {
                let x = self.close_d(x, memo);
                self.plus(x)
            }
            K::After(x, y) => {
                let x = self.close_d(x, memo);
                self.after(x, y)
            }
            K::Leaf(id) if matches!(self.ir.nodes[id], N::Attr(..)) => NOT,
            _ => p,
        };
        memo.insert(p, r);
        r
    }

    /// The derivative by a start tag, as pairs of (content, what follows the element)
    fn open_d(&mut self, p: P, ns: &str, local: &str, memo: &mut HashMap<P, Vec<(P, P)>>) -> Vec<(P, P)> {
        if let Some(r) = memo.get(&p) {
            return r.clone();
        }
        let mut out: Vec<(P, P)> = vec![];
        match self.ks[p as usize].clone() {
            K::Choice(v) => {
                for q in v {
                    out.extend(self.open_d(q, ns, local, memo));
                }
            }
            K::Group(a, b) => {
                for (c, r) in self.open_d(a, ns, local, memo) {
                    let r = self.group(r, b);
                    out.push((c, r));
                }
                if self.null(a) {
                    out.extend(self.open_d(b, ns, local, memo));
                }
            }
            K::Inter(a, b) => {
                for (c, r) in self.open_d(a, ns, local, memo) {
                    let r = self.inter(r, b);
                    out.push((c, r));
                }
                for (c, r) in self.open_d(b, ns, local, memo) {
                    let r = self.inter(a, r);
                    out.push((c, r));
                }
            }
            K::Plus(a) => {
                let more = self.choice(vec![p, EMPTY]);
                for (c, r) in self.open_d(a, ns, local, memo) {
                    let r = self.group(r, more);
                    out.push((c, r));
                }
            }
            K::After(a, b) => {
                for (c, r) in self.open_d(a, ns, local, memo) {
                    let r = self.after(r, b);
                    out.push((c, r));
                }
            }
            K::Leaf(id) => {
                let ir = self.ir;
                if let N::Elem(nc, b) = &ir.nodes[id] {
                    if nc.contains(ns, local) {
                        let b = self.intern(*b);
                        out.push((b, EMPTY));
                    }
                }
            }
            _ => {}
        }
        out.retain(|(c, r)| *c != NOT && *r != NOT);
        out.sort();
        out.dedup();
        memo.insert(p, out.clone());
        out
    }

    fn end_d(&mut self, p: P) -> P {
        match self.ks[p as usize].clone() {
            K::Choice(v) => {
                let w = v.iter().map(|q| self.end_d(*q)).collect();
                self.choice(w)
            }
            K::After(a, b) if self.null(a) => b,
            _ => NOT,
        }
    }

    fn heads(&self, p: P, out: &mut Vec<NC>) {
        match &self.ks[p as usize] {
            K::Choice(v) => v.iter().for_each(|q| self.heads(*q, out)),
            K::Group(a, b) => {
                self.heads(*a, out);
                if self.null(*a) {
                    self.heads(*b, out);
                }
            }
            K::Inter(a, b) => {
                self.heads(*a, out);
                self.heads(*b, out);
            }
            K::Plus(a) | K::After(a, _) => self.heads(*a, out),
            K::Leaf(id) => {
                if let N::Elem(nc, _) = &self.ir.nodes[*id] {
                    if !out.contains(nc) {
                        out.push(nc.clone());
                    }
                }
            }
            _ => {}
        }
    }

    fn fail(&self, place: Place, p: P) -> Verdict {
        let mut expected = vec![];
        self.heads(p, &mut expected);
        Verdict { error: Some(place), expected }
    }

    /// `doc` has its attributes in the order in which they are written
    pub fn run(&mut self, doc: &Elem) -> Verdict {
        let start = self.intern(self.ir.start);
        let mut path = vec![];
        match self.elem(start, doc, &mut path) {
            Err(v) => v,
            // since the start pattern is one element, what remains is Empty
            Ok(p) => {
                debug_assert!(self.null(p) || self.unknown);
                Verdict { error: None, expected: vec![] }
            }
        }
    }

    fn elem(&mut self, p: P, e: &Elem, path: &mut Vec<usize>) -> Result<P, Verdict> {
        let opened = self.open_d(p, &e.ns, &e.local, &mut HashMap::new());
        let v: Vec<P> = opened.into_iter().map(|(c, r)| self.after(c, r)).collect();
        let mut cur = self.choice(v);
        if cur == NOT {
            return Err(self.fail(Place::Start(path.clone()), p));
        }
        for (i, a) in e.atts.iter().enumerate() {
            let next = self.att_d(cur, a, &mut HashMap::new());
            if next == NOT {
                return Err(self.fail(Place::Attr(path.clone(), i), p));
            }
            cur = next;
        }
        let next = self.close_d(cur, &mut HashMap::new());
        if next == NOT {
            return Err(self.fail(Place::StartEnd(path.clone()), p));
        }
        cur = next;
        let has_elems = e.children.iter().any(|c| matches!(c, Node::Elem(_)));
        if !has_elems {
            let (s, i) = match e.children.first() {
                Some(Node::Text(t)) => (&t[..], Some(0)),
                _ => ("", None),
            };
            let d = self.text_d(cur, s, &mut HashMap::new());
            let next = if dt::all_ws(s) { self.choice(vec![cur, d]) } else { d };
            if next == NOT {
                let place = match i {
                    Some(i) => {
                        path.push(i);
                        let pl = Place::Text(path.clone());
                        path.pop();
                        pl
                    }
                    None => Place::End(path.clone()),
                };
                return Err(self.fail(place, cur));
            }
            cur = next;
        } else {
            for (i, c) in e.children.iter().enumerate() {
                path.push(i);
                match c {
                    Node::Text(t) => {
                        if !dt::all_ws(t) {
                            let next = self.text_d(cur, t, &mut HashMap::new());
                            if next == NOT {
                                return Err(self.fail(Place::Text(path.clone()), cur));
                            }
                            cur = next;
                        }
                    }
                    Node::Elem(c) => cur = self.elem(cur, c, path)?,
                }
                path.pop();
            }
        }
        let next = self.end_d(cur);
        if next == NOT {
            return Err(self.fail(Place::End(path.clone()), cur));
        }
        Ok(next)
    }

    pub fn patterns(&self) -> usize {
        self.ks.len()
    }
}
