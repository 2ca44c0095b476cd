//! The restrictions of section 7 of the RELAX NG specification (plus section 4.16 and 4.19), so that only
//! correct schemas are generated.
use crate::ast::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Default)]
struct Ctx {
    start: bool,
    attr: bool,
    list: bool,
    except: bool,
    plus: bool,
    plus_group: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum CT {
    Empty,
    Complex,
    Simple,
}

pub struct Checker<'a> {
    defs: &'a BTreeMap<String, Pat>,
    // element patterns checked already
    seen: HashSet<*const Pat>,
    fuel: usize,
    loose: bool,
}

type R<T> = Result<T, &'static str>;

pub fn check(flat: &Flat, loose: bool) -> R<()> {
    for (n, p) in &flat.defs {
        let _ = n;
        recursion(flat, p, &mut vec![n.clone()])?;
    }
    recursion(flat, &flat.start, &mut vec![])?;
    let mut c = Checker {
        defs: &flat.defs,
        seen: HashSet::new(),
        fuel: 20_000,
        loose,
    };
    c.paths(&flat.start, Ctx { start: true, ..Ctx::default() })?;
    // definitions that are not reachable get checked as if used by an element
    for p in flat.defs.values() {
        c.elements(p)?;
    }
    Ok(())
}

fn recursion(flat: &Flat, p: &Pat, stack: &mut Vec<String>) -> R<()> {
    match p {
        Pat::Elem(..) => Ok(()),
        Pat::Ref(n) => {
            let d = flat.defs.get(n).ok_or("undefined")?;
            if stack.contains(n) {
                return Err("recursion");
            }
            stack.push(n.clone());
            let r = recursion(flat, d, stack);
            stack.pop();
            r
        }
        _ => {
            for c in p.children() {
                recursion(flat, c, stack)?
            }
            Ok(())
        }
    }
}

fn nc_ok(nc: &NC, attr: bool, in_any: bool, in_ns: bool) -> bool {
    match nc {
        NC::Name(ns, l) => {
            !(attr && ((ns.is_empty() && l == "xmlns") || ns == "http://www.w3.org/2000/xmlns"))
        }
        NC::NsName(ns, ex) => {
            !in_ns
                && !(attr && ns == "http://www.w3.org/2000/xmlns")
                && ex.as_ref().is_none_or(|e| nc_ok(e, attr, in_any, true))
        }
        NC::AnyName(ex) => {
            !in_ns && !in_any && ex.as_ref().is_none_or(|e| nc_ok(e, attr, true, in_ns))
        }
        NC::Choice(v) => !v.is_empty() && v.iter().all(|c| nc_ok(c, attr, in_any, in_ns)),
    }
}

impl<'a> Checker<'a> {
    fn burn(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err("fuel");
        }
        self.fuel -= 1;
        Ok(())
    }

    fn elements(&mut self, p: &'a Pat) -> R<()> {
        if let Pat::Elem(..) = p {
            return self.paths(p, Ctx::default());
        }
        for c in p.children() {
            self.elements(c)?
        }
        Ok(())
    }

    fn paths(&mut self, p: &'a Pat, c: Ctx) -> R<()> {
        self.burn()?;
        match p {
            Pat::Empty => {
                if c.start || c.except {
                    return Err("empty");
                }
            }
            Pat::NotAllowed => {}
            Pat::Text => {
                if c.start || c.except || c.list {
                    return Err("text");
                }
            }
            Pat::Choice(v) => {
                for q in v {
                    self.paths(q, c)?
                }
            }
            Pat::Opt(q) => {
                if c.start || c.except {
                    return Err("optional");
                }
                self.paths(q, c)?
            }
            Pat::Star(q) | Pat::Plus(q) => {
                if c.start || c.except {
                    return Err("plus");
                }
                self.paths(q, Ctx { plus: true, ..c })?
            }
            Pat::Group(v) => {
                if c.start || c.except {
                    return Err("group");
                }
                let d = Ctx { plus_group: c.plus || c.plus_group, ..c };
                for q in v {
                    self.paths(q, d)?
                }
            }
            Pat::Inter(v) => {
                if c.start || c.except || c.list {
                    return Err("interleave");
                }
                let d = Ctx { plus_group: c.plus || c.plus_group, ..c };
                for q in v {
                    self.paths(q, d)?
                }
            }
            Pat::Mixed(q) => {
                if c.start || c.except || c.list {
                    return Err("mixed");
                }
                let d = Ctx { plus_group: c.plus || c.plus_group, ..c };
                self.paths(q, d)?
            }
            Pat::Elem(nc, body) => {
                if c.attr || c.list || c.except {
                    return Err("element");
                }
                if !nc_ok(nc, false, false, false) {
                    return Err("nameclass");
                }
                if self.seen.insert(p as *const Pat) {
                    self.paths(body, Ctx::default())?;
                    self.ct(body)?;
                    self.attrs_ok(body, false)?;
                    if !self.loose {
                        self.inter_ok(body)?;
                    }
                }
            }
            Pat::Attr(nc, body) => {
                if c.start || c.attr || c.list || c.except || c.plus_group {
                    return Err("attribute");
                }
                if !nc_ok(nc, true, false, false) {
                    return Err("nameclass");
                }
                self.paths(body, Ctx { attr: true, plus: false, plus_group: false, ..c })?;
            }
            Pat::List(q) => {
                if c.start || c.list || c.except {
                    return Err("list");
                }
                self.paths(q, Ctx { list: true, plus: false, plus_group: false, ..c })?;
            }
            Pat::Data(_, _, ex) => {
                if c.start {
                    return Err("data");
                }
                if let Some(q) = ex {
                    self.paths(q, Ctx { except: true, ..c })?;
                }
            }
            Pat::Value(..) => {
                if c.start {
                    return Err("value");
                }
            }
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?;
                self.paths(d, c)?
            }
            _ => return Err("composition"),
        }
        Ok(())
    }

    fn groupable(a: CT, b: CT) -> bool {
        a == CT::Empty || b == CT::Empty || (a == CT::Complex && b == CT::Complex)
    }

    pub fn ct(&mut self, p: &Pat) -> R<CT> {
        self.burn()?;
        Ok(match p {
            Pat::Empty | Pat::NotAllowed => CT::Empty,
            Pat::Text => CT::Complex,
            Pat::Elem(..) => CT::Complex,
            Pat::Attr(_, b) => {
                self.ct(b)?;
                CT::Empty
            }
            Pat::Value(..) => CT::Simple,
            Pat::Data(_, _, ex) => {
                if let Some(e) = ex {
                    self.ct(e)?;
                }
                CT::Simple
            }
            // "The content type of a list pattern is simple"; what it contains isn't checked
            Pat::List(_) => CT::Simple,
            Pat::Choice(v) => {
                let mut m = CT::Empty;
                for q in v {
                    m = m.max(self.ct(q)?)
                }
                m
            }
            Pat::Opt(q) => self.ct(q)?,
            Pat::Star(q) | Pat::Plus(q) => {
                let t = self.ct(q)?;
                if !Self::groupable(t, t) {
                    return Err("string sequence");
                }
                t
            }
            Pat::Group(v) | Pat::Inter(v) => {
                let mut m = CT::Empty;
                for q in v {
                    let t = self.ct(q)?;
                    if !Self::groupable(m, t) {
                        return Err("string sequence");
                    }
                    m = m.max(t)
                }
                m
            }
            Pat::Mixed(q) => {
                let t = self.ct(q)?;
                if !Self::groupable(CT::Complex, t) {
                    return Err("string sequence");
                }
                CT::Complex
            }
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?.clone();
                self.ct(&d)?
            }
            _ => return Err("composition"),
        })
    }

    fn attrs<'p>(&mut self, p: &'p Pat, out: &mut Vec<NC>) -> R<()> {
        self.burn()?;
        match p {
            Pat::Elem(..) => {}
            Pat::Attr(nc, _) => out.push(nc.clone()),
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?.clone();
                self.attrs(&d, out)?;
            }
            _ => {
                for c in p.children() {
                    self.attrs(c, out)?
                }
            }
        }
        Ok(())
    }

    fn attrs_ok(&mut self, p: &Pat, in_plus: bool) -> R<()> {
        self.burn()?;
        match p {
            Pat::Elem(..) => {}
            Pat::Attr(nc, b) => {
                if nc.is_infinite() && (!in_plus || **b != Pat::Text) {
                    return Err("infinite attribute");
                }
            }
            Pat::Star(q) | Pat::Plus(q) => self.attrs_ok(q, true)?,
            Pat::Group(v) | Pat::Inter(v) => {
                let mut all: Vec<NC> = vec![];
                for q in v {
                    let mut these = vec![];
                    self.attrs(q, &mut these)?;
                    for a in &these {
                        if all.iter().any(|b| a.overlaps(b)) {
                            return Err("duplicate attribute");
                        }
                    }
                    all.extend(these);
                    self.attrs_ok(q, in_plus)?;
                }
            }
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?.clone();
                self.attrs_ok(&d, in_plus)?;
            }
            _ => {
                for c in p.children() {
                    self.attrs_ok(c, in_plus)?
                }
            }
        }
        Ok(())
    }

    fn elems(&mut self, p: &Pat, out: &mut Vec<NC>, text: &mut bool) -> R<()> {
        self.burn()?;
        match p {
            Pat::Elem(nc, _) => out.push(nc.clone()),
            Pat::Attr(..) | Pat::List(..) => {}
            Pat::Text => *text = true,
            Pat::Mixed(q) => {
                *text = true;
                self.elems(q, out, text)?;
            }
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?.clone();
                self.elems(&d, out, text)?;
            }
            _ => {
                for c in p.children() {
                    self.elems(c, out, text)?
                }
            }
        }
        Ok(())
    }

    fn inter_ok(&mut self, p: &Pat) -> R<()> {
        self.burn()?;
        match p {
            Pat::Elem(..) => {}
            Pat::Inter(v) => {
                let mut all: Vec<NC> = vec![];
                let mut any_text = false;
                for q in v {
                    let mut these = vec![];
                    let mut text = false;
                    self.elems(q, &mut these, &mut text)?;
                    if text && any_text {
                        return Err("interleaved text");
                    }
                    any_text |= text;
                    for a in &these {
                        if all.iter().any(|b| a.overlaps(b)) {
                            return Err("interleaved elements");
                        }
                    }
                    all.extend(these);
                    self.inter_ok(q)?;
                }
            }
            Pat::Mixed(q) => {
                let mut these = vec![];
                let mut text = false;
                self.elems(q, &mut these, &mut text)?;
                if text {
                    return Err("interleaved text");
                }
                self.inter_ok(q)?;
            }
            Pat::Ref(n) => {
                let d = self.defs.get(n).ok_or("undefined")?.clone();
                self.inter_ok(&d)?;
            }
            _ => {
                for c in p.children() {
                    self.inter_ok(c)?
                }
            }
        }
        Ok(())
    }
}
