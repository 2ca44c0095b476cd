//! Random schemas and documents
use crate::ast::*;
use crate::doc::*;
use crate::dt;
use crate::ir::*;
use crate::restrict;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub elem_defs: (usize, usize),
    pub other_defs: (usize, usize),
    pub depth: usize,
    /// weights out of 100
    pub data: usize,
    pub wild: usize,
    pub attrs: usize,
    pub inter: usize,
    pub not_allowed: usize,
    /// names that are long, keywords, not ASCII, ...
    pub odd_names: usize,
    pub namespaces: usize,
    /// any datatype, with facets; otherwise a few
    pub all_types: bool,
    /// may refer to datatypes whose reference is undecided at times
    pub max_size: usize,
    pub list: usize,
    /// allow interleaves that section 7.4 doesn't (which this implementation doesn't check)
    pub loose: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            elem_defs: (1, 4),
            other_defs: (0, 4),
            depth: 3,
            data: 18,
            wild: 6,
            attrs: 30,
            inter: 15,
            not_allowed: 0,
            odd_names: 25,
            namespaces: 2,
            all_types: false,
            max_size: 120,
            list: 15,
            loose: false,
        }
    }
}

const PLAIN: &[&str] = &["a", "b", "c", "d", "e", "foo", "bar"];
const ODD: &[&str] = &[
    "element", "attribute", "text", "empty", "start", "div", "list", "mixed", "string", "token", "grammar", "include",
    "inherit", "notAllowed", "parent", "external", "default", "namespace", "datatypes", "elements", "text2",
    "element.x", "start-", "é", "日本", "_", "a-b", "a.b.c", "A", "x1", "Ünï", "a\u{301}", "a\u{b7}", "x\u{203f}y", "xmlns", "xml-lang",
    "averyveryveryverylongnamethatgoesonandonandonandonandonandonandonandonandonandon", "string-x", "divx", "lists",
];
const NSS: &[&str] = &["urn:a", "http://example.org/b", "urn:a:b", "http://example.org/é?x=1&y='2'", "u", "urn:A", "urn:a ", "urn:a", "urn:a/", " "];
const DEFNAMES: &[&str] = &[
    "a", "b", "c", "foo", "bar", "element", "text", "list-x", "start.x", "grammar", "é", "e\u{301}x", "string", "div", "inherit",
    "_x", "A", "x1", "elem", "content", "atts", "empty", "token", "mixedx", "default", "d.e-f",
    "namespaces", "datatypesx", "default-x", "starts", "div1", "includes", "elements", "attributes", "parents", "textual",
    "empty.x", "notAllowed2", "listed", "strings", "tokens", "grammars", "externals", "inherits",
];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: Cfg,
    pub locals: Vec<String>,
    pub nss: Vec<String>,
    pub defs: BTreeMap<String, Pat>,
    elem_defs: Vec<(String, NC)>,
    content_defs: Vec<String>,
    attr_defs: Vec<String>,
    string_defs: Vec<String>,
    used: Vec<String>,
}

/// A correct schema, whose start pattern can be matched by a finite document
pub fn schema(r: &mut Rng, cfg: &Cfg) -> Flat {
    for _ in 0..200 {
        let mut rr = r.fork();
        if let Some(f) = attempt(&mut rr, cfg) {
            return f;
        }
    }
    Flat { start: Pat::Elem(NC::Name("".into(), "a".into()), Box::new(Pat::Text)), defs: BTreeMap::new() }
}

fn attempt(r: &mut Rng, cfg: &Cfg) -> Option<Flat> {
    let mut g = Gen::new(r, cfg.clone());
    let f = g.flat()?;
    let ir = Ir::from_flat(&f);
    let h = heights(&ir);
    if h[ir.start] == usize::MAX {
        return None;
    }
    let mut size = f.start.size();
    f.defs.values().for_each(|d| size += d.size());
    if size > cfg.max_size {
        return None;
    }
    if cfg.not_allowed == 0 {
        // nothing in the schema can't be satisfied
        if h.iter().any(|x| *x == usize::MAX) {
            return None;
        }
    }
    Some(f)
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> Gen<'a> {
        let n = r.range(3, 6);
        let mut locals: Vec<String> = vec![];
        while locals.len() < n {
            let l = if r.chance(cfg.odd_names, 100) { r.pick(ODD) } else { r.pick(PLAIN) };
            if !locals.iter().any(|x| x == l) {
                locals.push(l.to_string());
            }
        }
        if cfg.odd_names > 0 && r.chance(1, 30) {
            // long names
            for l in &mut locals {
                let c = *r.pick(&["é", "x", "日", "\u{10348}", "aé"]);
                l.push_str(&c.repeat(r.range(10, 150)));
            }
        }
        let mut nss = vec![String::new()];
        for _ in 0..cfg.namespaces {
            let n = r.pick(NSS).to_string();
            if !nss.contains(&n) {
                nss.push(n);
            }
        }
        Gen {
            r,
            cfg,
            locals,
            nss,
            defs: BTreeMap::new(),
            elem_defs: vec![],
            content_defs: vec![],
            attr_defs: vec![],
            string_defs: vec![],
            used: vec![],
        }
    }

    fn def_name(&mut self) -> String {
        loop {
            let odd = self.cfg.odd_names;
            let mut n = if self.r.chance(odd, 100) {
                self.r.pick(DEFNAMES).to_string()
            } else {
                format!("d{}", self.used.len())
            };
            if odd > 0 && self.r.chance(1, 40) {
                n = "start".into();
            }
            if !self.used.contains(&n) {
                self.used.push(n.clone());
                return n;
            }
        }
    }

    fn local(&mut self) -> String {
        self.r.pick(&self.locals).clone()
    }
    fn ns(&mut self) -> String {
        if self.r.chance(1, 2) {
            String::new()
        } else {
            self.r.pick(&self.nss).clone()
        }
    }

    pub fn simple_nc(&mut self, attr: bool) -> NC {
        if attr && self.r.chance(1, 12) {
            return NC::Name(crate::xml::XML_NS.into(), self.r.pick(&["lang", "space", "id"]).to_string());
        }
        let ns = if attr && self.r.chance(3, 4) { String::new() } else { self.ns() };
        let mut l = self.local();
        if attr && l == "xmlns" && ns.is_empty() {
            l = "xmlnsx".into();
        }
        NC::Name(ns, l)
    }

    pub fn nc(&mut self, attr: bool, d: usize, in_ns: bool, in_any: bool) -> NC {
        let wild = self.cfg.wild;
        if d == 0 || !self.r.chance(wild * 3, 100) {
            return self.simple_nc(attr);
        }
        match self.r.below(6) {
            0 | 1 if !in_ns => {
                let ns = self.ns();
                let ex = if self.r.bool() { Some(Box::new(self.nc_more(attr, d - 1, true, in_any))) } else { None };
                NC::NsName(ns, ex)
            }
            2 | 3 if !in_any && !in_ns => {
                let ex = if self.r.bool() { Some(Box::new(self.nc_more(attr, d - 1, in_ns, true))) } else { None };
                NC::AnyName(ex)
            }
            _ => {
                let n = self.r.range(2, 3);
                NC::Choice((0..n).map(|_| self.nc(attr, d - 1, in_ns, in_any)).collect())
            }
        }
    }
    fn nc_more(&mut self, attr: bool, d: usize, in_ns: bool, in_any: bool) -> NC {
        let mut w = self.cfg.wild.max(10);
        std::mem::swap(&mut w, &mut self.cfg.wild);
        let r = match self.r.below(3) {
            0 => NC::Choice((0..2).map(|_| self.nc(attr, d, in_ns, in_any)).collect()),
            _ => self.nc(attr, d, in_ns, in_any),
        };
        std::mem::swap(&mut w, &mut self.cfg.wild);
        r
    }

    /// Whether the pattern would be correct as the definition of something used within an element
    fn ok(&self, p: &Pat, as_string: bool) -> bool {
        let mut defs = self.defs.clone();
        for (n, nc) in &self.elem_defs {
            defs.entry(n.clone()).or_insert_with(|| Pat::Elem(nc.clone(), Box::new(Pat::Empty)));
        }
        let body = if as_string {
            Pat::Attr(NC::Name("".into(), "zzz".into()), Box::new(p.clone()))
        } else {
            p.clone()
        };
        let f = Flat { start: Pat::Elem(NC::Name("".into(), "zzz".into()), Box::new(body)), defs };
        restrict::check(&f, self.cfg.loose).is_ok()
    }

    fn retry(&mut self, as_string: bool, f: &mut dyn FnMut(&mut Self) -> Pat, fallback: Pat) -> Pat {
        for _ in 0..25 {
            let p = f(self);
            if self.ok(&p, as_string) {
                return p;
            }
        }
        fallback
    }

    fn flat(&mut self) -> Option<Flat> {
        let ne = self.r.range(self.cfg.elem_defs.0, self.cfg.elem_defs.1);
        for _ in 0..ne {
            let n = self.def_name();
            let nc = self.nc(false, 2, false, false);
            self.elem_defs.push((n, nc));
        }
        let no = self.r.range(self.cfg.other_defs.0, self.cfg.other_defs.1);
        let data = self.cfg.data;
        for _ in 0..no {
            let n = self.def_name();
            let k = self.r.weighted(&[40, data.max(1), 25]);
            let p = match k {
                0 => self.retry(false, &mut |g| { let d = g.cfg.depth; g.content(d) }, Pat::Text),
                1 => self.retry(true, &mut |g| g.string(2), Pat::Text),
                _ => self.retry(false, &mut |g| g.attr(), Pat::Empty),
            };
            self.defs.insert(n.clone(), p);
            match k {
                0 => self.content_defs.push(n),
                1 => self.string_defs.push(n),
                _ => self.attr_defs.push(n),
            }
        }
        for (n, nc) in self.elem_defs.clone() {
            let b = self.retry(false, &mut |g| g.body(), Pat::Empty);
            // some elements are a choice of several
            let p = Pat::Elem(nc, Box::new(b));
            self.defs.insert(n, p);
        }
        // without inlined elements, documents would often be trivial
        let mut start = match self.r.below(4) {
            0 => {
                let nc = self.nc(false, 2, false, false);
                let b = self.retry(false, &mut |g| g.body(), Pat::Text);
                Pat::Elem(nc, Box::new(b))
            }
            1 if ne > 1 => {
                let mut v: Vec<Pat> = self.elem_defs.iter().map(|e| Pat::Ref(e.0.clone())).collect();
                self.r.shuffle(&mut v);
                let k = self.r.range(1, v.len());
                v.truncate(k);
                Pat::Choice(v)
            }
            _ if ne > 0 => {
                let e = self.r.pick(&self.elem_defs).0.clone();
                Pat::Ref(e)
            }
            _ => Pat::Elem(self.simple_nc(false), Box::new(Pat::Text)),
        };
        if let Pat::Choice(v) = &start {
            if v.len() == 1 {
                start = v[0].clone();
            }
        }
        let f = Flat { start, defs: self.defs.clone() };
        restrict::check(&f, self.cfg.loose).ok()?;
        Some(f)
    }

    /// What an element contains
    pub fn body(&mut self) -> Pat {
        let mut parts = vec![];
        let attrs = self.cfg.attrs;
        let mut names: Vec<NC> = vec![];
        while self.r.chance(attrs, 100) && parts.len() < 4 {
            let a = self.attr();
            let mut these = vec![];
            a.visit(&mut |p| {
                if let Pat::Attr(nc, _) = p {
                    these.push(nc.clone())
                }
            });
            if these.iter().any(|nc| names.iter().any(|n| n.overlaps(nc))) {
                if self.r.chance(1, 6) {
                    break;
                }
                continue;
            }
            names.extend(these);
            parts.push(a);
        }
        let data = self.cfg.data;
        let d = self.cfg.depth;
        match self.r.below(100) {
            x if x < data => parts.push(self.string(2)),
            x if x < data + 8 => parts.push(Pat::Text),
            x if x < data + 14 => {}
            _ => parts.push(self.content(d)),
        }
        match parts.len() {
            0 => Pat::Empty,
            1 => parts.pop().unwrap(),
            _ => {
                if self.r.chance(1, 4) {
                    self.r.shuffle(&mut parts);
                }
                if self.r.chance(1, 6) {
                    Pat::Inter(parts)
                } else {
                    Pat::Group(parts)
                }
            }
        }
    }

    pub fn attr(&mut self) -> Pat {
        if !self.attr_defs.is_empty() && self.r.chance(1, 4) {
            return Pat::Ref(self.r.pick(&self.attr_defs).clone());
        }
        let wild = self.cfg.wild;
        if self.r.chance(wild, 100) {
            // wildcards must be repeated, and contain text
            let nc = self.nc_more(true, 1, false, false);
            if nc.is_infinite() {
                let a = Pat::Attr(nc, Box::new(Pat::Text));
                return if self.r.bool() { Pat::Star(Box::new(a)) } else { Pat::Plus(Box::new(a)) };
            }
            return Pat::Attr(nc, Box::new(Pat::Text));
        }
        let nc = self.nc(true, 1, false, false);
        let body = match self.r.below(100) {
            x if x < 40 || nc.is_infinite() => Pat::Text,
            x if x < 45 => Pat::Empty,
            x if x < 49 => Pat::Mixed(Box::new(Pat::Empty)),
            _ => self.string(2),
        };
        let a = Pat::Attr(nc.clone(), Box::new(body));
        if nc.is_infinite() {
            return Pat::Plus(Box::new(a));
        }
        match self.r.below(10) {
            0..=3 => Pat::Opt(Box::new(a)),
            4 => {
                let b = Pat::Attr(self.simple_nc(true), Box::new(Pat::Text));
                Pat::Choice(vec![a, b])
            }
            5 => {
                let b = self.simple_nc(true);
                Pat::Opt(Box::new(Pat::Group(vec![a, Pat::Attr(b, Box::new(Pat::Text))])))
            }
            6 if self.r.bool() => Pat::Plus(Box::new(a)),
            _ => a,
        }
    }

    pub fn content(&mut self, d: usize) -> Pat {
        let na = self.cfg.not_allowed;
        if na > 0 && self.r.chance(na, 100) {
            return Pat::NotAllowed;
        }
        let inter = self.cfg.inter;
        let leaf = d == 0;
        let w = [
            22,                                             // 0 ref to element
            if leaf { 8 } else { 16 },                      // 1 inline element
            if self.content_defs.is_empty() { 0 } else { 10 }, // 2
            3,                                              // 3 text
            2,                                              // 4 empty
            4,                                              // 5 attribute
            if leaf { 0 } else { 18 },                      // 6 group
            if leaf { 0 } else { 18 },                      // 7 choice
            if leaf { 0 } else { inter },                   // 8 interleave
            if leaf { 0 } else { inter / 3 + 1 },           // 9 mixed
            if leaf { 0 } else { 8 },                       // 10 opt
            if leaf { 0 } else { 10 },                      // 11 star
            if leaf { 0 } else { 8 },                       // 12 plus
            if leaf { 1 } else { 3 },                       // 13 string alternative
        ];
        match self.r.weighted(&w) {
            0 if !self.elem_defs.is_empty() => Pat::Ref(self.r.pick(&self.elem_defs).0.clone()),
            0 | 1 => {
                let nc = self.nc(false, 2, false, false);
                let b = match self.r.below(5) {
                    0 => Pat::Empty,
                    1 => Pat::Text,
                    2 => self.attr(),
                    _ if d > 0 => {
                        let p = self.content(d - 1);
                        if self.r.chance(1, 3) {
                            Pat::Group(vec![self.attr(), p])
                        } else {
                            p
                        }
                    }
                    _ => self.string(1),
                };
                Pat::Elem(nc, Box::new(b))
            }
            2 => Pat::Ref(self.r.pick(&self.content_defs).clone()),
            3 => Pat::Text,
            4 => Pat::Empty,
            5 => self.attr(),
            k @ (6..=8) => {
                let n = *self.r.pick(&[2, 2, 2, 3, 3, 4]);
                let mut v: Vec<Pat> = (0..n).map(|_| self.content(d - 1)).collect();
                if self.r.chance(1, 12) {
                    // the very same twice
                    let i = self.r.below(n);
                    v[i] = v[(i + 1) % n].clone();
                }
                match k {
                    6 => Pat::Group(v),
                    7 => Pat::Choice(v),
                    _ => Pat::Inter(v),
                }
            }
            9 => Pat::Mixed(Box::new(self.content(d - 1))),
            10 => Pat::Opt(Box::new(self.content(d - 1))),
            11 => Pat::Star(Box::new(self.content(d - 1))),
            12 => Pat::Plus(Box::new(self.content(d - 1))),
            _ => self.string(1),
        }
    }

    pub fn literal(&mut self) -> String {
        match self.r.below(8) {
            0 => String::new(),
            1 => " ".into(),
            2 => {
                let (a, b) = (dt::word(self.r), dt::word(self.r));
                format!("{a} {b}")
            }
            3 => {
                let a = dt::word(self.r);
                format!(" {a}  ")
            }
            4 => self.r.pick(&["a\nb", "it's", "say \"x\"", "'\"", "\t", "a\\b", "\\", "{", "#", "'''", "\"\"\""]).to_string(),
            _ => dt::word(self.r),
        }
    }

    pub fn value(&mut self) -> Pat {
        let d = match self.r.below(10) {
            0..=4 => DT::builtin("token"),
            5..=6 => DT::builtin("string"),
            7 => DT::xsd("string"),
            8 => DT::xsd("token"),
            _ => return Pat::Value(DT::builtin("token"), dt::word(self.r)),
        };
        Pat::Value(d, self.literal())
    }

    pub fn data(&mut self, in_list: bool) -> Pat {
        let d = if self.cfg.all_types {
            dt::gen_type(self.r)
        } else {
            match self.r.below(8) {
                0 => DT::builtin("string"),
                1 => DT::builtin("token"),
                2 => DT::xsd("integer"),
                3 => DT::xsd("boolean"),
                4 => DT::xsd("NCName"),
                5 => DT::xsd("int"),
                6 => DT::xsd("decimal"),
                _ => DT::xsd("string"),
            }
        };
        for _ in 0..10 {
            let ps = if self.r.bool() || self.cfg.all_types { dt::gen_params(&d, self.r) } else { vec![] };
            if dt::valid_value(&d, &ps, self.r).is_none() {
                continue;
            }
            let ex = if self.r.chance(1, if in_list { 8 } else { 5 }) {
                Some(Box::new(self.except(&d, &ps)))
            } else {
                None
            };
            return Pat::Data(d, ps, ex);
        }
        Pat::Data(DT::xsd("integer"), vec![], None)
    }

    fn except(&mut self, d: &DT, ps: &[(String, String)]) -> Pat {
        let n = self.r.range(1, 3);
        let mut v: Vec<Pat> = (0..n)
            .map(|_| {
                if self.r.chance(1, 4) {
                    let k = self.r.pick(&["integer", "boolean", "NCName"]).to_string();
                    let inner = if self.r.chance(1, 3) {
                        let l = dt::valid_value(&DT::xsd(&k), &[], self.r).unwrap_or("1".into());
                        Some(Box::new(Pat::Value(DT::builtin("token"), clean(&l))))
                    } else {
                        None
                    };
                    Pat::Data(DT::xsd(&k), vec![], inner)
                } else {
                    let s = dt::valid_value(d, ps, self.r).unwrap_or("x".into());
                    let t = self.r.pick(&[DT::builtin("token"), DT::builtin("string"), DT::xsd("string"), DT::xsd("token")]).clone();
                    Pat::Value(t, clean(&s))
                }
            })
            .collect();
        if !self.string_defs.is_empty() && self.r.chance(1, 12) {
            v.push(Pat::Ref(self.r.pick(&self.string_defs).clone()));
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Pat::Choice(v)
        }
    }

    /// data, value, list, and choices of those
    pub fn string(&mut self, d: usize) -> Pat {
        let list = self.cfg.list;
        let w = [
            30,
            30,
            if self.string_defs.is_empty() { 0 } else { 8 },
            if d == 0 { 0 } else { list },
            if d == 0 { 0 } else { 20 },
            if d == 0 { 0 } else { 3 },
        ];
        match self.r.weighted(&w) {
            0 => self.data(false),
            1 => self.value(),
            2 => Pat::Ref(self.r.pick(&self.string_defs).clone()),
            3 => {
                let k = self.r.range(1, 2);
                Pat::List(Box::new(self.items(k)))
            }
            4 => {
                let n = self.r.range(2, 3);
                Pat::Choice((0..n).map(|_| self.string(d - 1)).collect())
            }
            _ => Pat::Opt(Box::new(self.string(d - 1))),
        }
    }

    /// the content of a list
    pub fn items(&mut self, d: usize) -> Pat {
        let w = if d == 0 { [10, 10, 0, 0, 0, 0, 0, 0] } else { [8, 8, 16, 10, 6, 10, 10, 2] };
        match self.r.weighted(&w) {
            0 => self.data(true),
            1 => {
                let t = self.r.pick(&[DT::builtin("token"), DT::builtin("string"), DT::xsd("string"), DT::xsd("token")]).clone();
                let mut s = dt::word(self.r);
                if self.r.chance(1, 8) {
                    s = self.literal();
                }
                Pat::Value(t, s)
            }
            k @ (2 | 3) => {
                let n = self.r.range(2, 3);
                let v = (0..n).map(|_| self.items(d - 1)).collect();
                if k == 2 {
                    Pat::Group(v)
                } else {
                    Pat::Choice(v)
                }
            }
            4 => Pat::Opt(Box::new(self.items(d - 1))),
            5 => Pat::Star(Box::new(self.items(d - 1))),
            6 => Pat::Plus(Box::new(self.items(d - 1))),
            _ => Pat::Empty,
        }
    }
}

/// A literal that can be written in either syntax
pub fn clean(s: &str) -> String {
    s.chars().filter(|c| *c != '\r' && *c != '\u{85}' && *c != '\u{2028}').collect()
}

/// The height of the smallest tree that matches each node
pub fn heights(ir: &Ir) -> Vec<usize> {
    const INF: usize = usize::MAX;
    let mut h = vec![INF; ir.nodes.len()];
    loop {
        let mut changed = false;
        for i in 0..ir.nodes.len() {
            let n = match &ir.nodes[i] {
                N::Empty | N::Text | N::Data(..) | N::Value(_) => 0,
                N::NotAllowed => INF,
                N::Choice(v) => v.iter().map(|x| h[*x]).min().unwrap_or(INF),
                N::Group(v) | N::Inter(v) => v.iter().map(|x| h[*x]).max().unwrap_or(0),
                N::Plus(p) | N::List(p) | N::Alias(p) | N::Attr(_, p) => h[*p],
                N::Elem(_, p) => h[*p].saturating_add(1),
            };
            if n < h[i] {
                h[i] = n;
                changed = true;
            }
        }
        if !changed {
            return h;
        }
    }
}

pub struct DocGen<'a> {
    ir: &'a Ir,
    h: Vec<usize>,
    pub r: &'a mut Rng,
    budget: usize,
    pub locals: Vec<String>,
    pub nss: Vec<String>,
    large: Option<Much>,
}

/// For documents that have much of something
struct Much {
    reps: usize,
    levels: usize,
    /// which nodes have many levels below
    tall: Vec<bool>,
    /// prefer to have optional things, and to go deeper
    dense: bool,
}

#[derive(Default)]
struct Out {
    atts: Vec<Att>,
    kids: Vec<Node>,
}

fn names_in(ir: &Ir) -> (Vec<String>, Vec<String>) {
    let mut l = vec![];
    let mut n = vec![];
    fn go(nc: &NC, l: &mut Vec<String>, n: &mut Vec<String>) {
        match nc {
            NC::Name(ns, x) => {
                n.push(ns.clone());
                l.push(x.clone());
            }
            NC::NsName(ns, e) => {
                n.push(ns.clone());
                if let Some(e) = e {
                    go(e, l, n)
                }
            }
            NC::AnyName(Some(e)) => go(e, l, n),
            NC::AnyName(None) => {}
            NC::Choice(v) => v.iter().for_each(|c| go(c, l, n)),
        }
    }
    for x in &ir.nodes {
        if let N::Elem(nc, _) | N::Attr(nc, _) = x {
            go(nc, &mut l, &mut n)
        }
    }
    l.push("zz".into());
    n.push(String::new());
    n.push("urn:other".into());
    l.sort();
    l.dedup();
    n.sort();
    n.dedup();
    n.retain(|x| x != crate::xml::XML_NS && x != "http://www.w3.org/2000/xmlns/");
    (l, n)
}

impl<'a> DocGen<'a> {
    pub fn new(ir: &'a Ir, r: &'a mut Rng, budget: usize) -> DocGen<'a> {
        let (locals, nss) = names_in(ir);
        DocGen { ir, h: heights(ir), r, budget, locals, nss, large: None }
    }

    /// With up to so many repetitions, and so many levels
    pub fn large(ir: &'a Ir, r: &'a mut Rng, reps: usize, levels: usize) -> DocGen<'a> {
        let mut m = vec![0; ir.nodes.len()];
        for _ in 0..200 {
            for i in 0..ir.nodes.len() {
                m[i] = match &ir.nodes[i] {
                    N::Choice(v) | N::Group(v) | N::Inter(v) => v.iter().map(|x| m[*x]).max().unwrap_or(0),
                    N::Plus(p) | N::List(p) | N::Alias(p) | N::Attr(_, p) => m[*p],
                    N::Elem(_, p) => (m[*p] + 1).min(8),
                    _ => 0,
                };
            }
        }
        let dense = r.bool();
        let tall = m.iter().map(|x| *x == 8).collect();
        let mut g = DocGen::new(ir, r, 2 * reps + levels);
        g.large = Some(Much { reps, levels, tall, dense });
        g
    }

    /// A document that should match (unless values are hard to find, or wildcards collide)
    pub fn doc(&mut self) -> Elem {
        let mut out = Out::default();
        let start = self.ir.start;
        let more = match &self.large {
            Some(l) => l.levels,
            None => self.r.below(4),
        };
        let depth = self.h[start].saturating_add(more);
        self.emit(start, depth, &mut out);
        let mut e = match out.kids.into_iter().find_map(|k| if let Node::Elem(e) = k { Some(e) } else { None }) {
            Some(e) => e,
            None => Elem { ns: "".into(), local: "a".into(), atts: vec![], children: vec![] },
        };
        e.normalize();
        e
    }

    pub fn name(&mut self, nc: &NC) -> (String, String) {
        for _ in 0..60 {
            let (n, l) = match nc {
                NC::Name(n, l) => (n.clone(), l.clone()),
                NC::NsName(n, _) => (n.clone(), self.r.pick(&self.locals).clone()),
                NC::AnyName(_) => (self.r.pick(&self.nss).clone(), self.r.pick(&self.locals).clone()),
                NC::Choice(v) => {
                    let c = self.r.pick(v).clone();
                    self.name(&c)
                }
            };
            if nc.contains(&n, &l) {
                return (n, l);
            }
        }
        ("".into(), "zz".into())
    }

    fn emit(&mut self, id: Id, depth: usize, out: &mut Out) {
        let ir = self.ir;
        let (id, n) = ir.get(id);
        match n {
            N::Empty | N::NotAllowed => {}
            N::Text => {
                if self.r.chance(2, 3) {
                    let t = dt::text(self.r);
                    out.kids.push(Node::Text(t));
                }
            }
            N::Choice(v) => {
                let fit: Vec<Id> = v.iter().copied().filter(|x| self.h[*x] <= depth).collect();
                let v = if fit.is_empty() { v.clone() } else { fit };
                let dense = match &self.large {
                    Some(l) if l.dense && self.r.chance(31, 32) => {
                        let tall: Vec<Id> = v.iter().copied().filter(|x| l.tall[*x]).collect();
                        if tall.is_empty() {
                            v.iter().copied().filter(|x| !matches!(ir.get(*x).1, N::Empty)).collect()
                        } else {
                            tall
                        }
                    }
                    _ => vec![],
                };
                let c = if self.budget == 0 {
                    *v.iter().min_by_key(|x| self.h[**x]).unwrap()
                } else if !dense.is_empty() {
                    *self.r.pick(&dense)
                } else {
                    *self.r.pick(&v)
                };
                self.emit(c, depth, out);
            }
            N::Group(v) => {
                for x in v {
                    self.emit(*x, depth, out);
                }
            }
            N::Inter(v) => {
                let mut parts: Vec<std::collections::VecDeque<Node>> = vec![];
                for x in v {
                    let mut o = Out::default();
                    self.emit(*x, depth, &mut o);
                    out.atts.extend(o.atts);
                    parts.push(o.kids.into());
                }
                // text can be split
                while parts.iter().any(|p| !p.is_empty()) {
                    let k = self.r.below(parts.len());
                    if let Some(Node::Text(t)) = parts[k].front_mut() {
                        if self.r.bool() && t.chars().count() > 1 {
                            let at = t.char_indices().nth(1).unwrap().0;
                            let rest = t.split_off(at);
                            out.kids.push(Node::Text(std::mem::replace(t, rest)));
                            continue;
                        }
                    }
                    if let Some(n) = parts[k].pop_front() {
                        out.kids.push(n);
                    }
                }
            }
            N::Plus(p) => {
                let mut n = 1;
                match &self.large {
                    Some(l) => n = l.reps,
                    None => {
                        while n < 6 && self.r.bool() {
                            n += 1;
                        }
                    }
                }
                for k in 0..n {
                    if k > 0 && self.budget == 0 {
                        break;
                    }
                    self.emit(*p, depth, out);
                }
            }
            N::Elem(nc, b) => {
                self.budget = self.budget.saturating_sub(1);
                let (ns, local) = self.name(nc);
                let mut o = Out::default();
                self.emit(*b, depth.saturating_sub(1), &mut o);
                let mut atts: Vec<Att> = vec![];
                for a in o.atts {
                    if !atts.iter().any(|b| b.ns == a.ns && b.local == a.local) {
                        atts.push(a);
                    }
                }
                self.r.shuffle(&mut atts);
                out.kids.push(Node::Elem(Elem { ns, local, atts, children: o.kids }));
            }
            N::Attr(nc, b) => {
                let (ns, local) = self.name(nc);
                let value = self.string(*b, 6);
                if !(local == "xmlns" && ns.is_empty()) {
                    out.atts.push(Att { ns, local, value });
                }
            }
            N::List(_) | N::Data(..) | N::Value(_) => {
                let s = self.string(id, 6);
                out.kids.push(Node::Text(s));
            }
            N::Alias(_) => unreachable!(),
        }
    }

    fn tokens(&mut self, id: Id, out: &mut Vec<String>) {
        let ir = self.ir;
        if self.large.as_ref().is_some_and(|l| out.len() > 2 * l.reps + 50) {
            return;
        }
        match ir.get(id).1 {
            N::Choice(v) => {
                let c = *self.r.pick(v);
                self.tokens(c, out)
            }
            N::Group(v) | N::Inter(v) => v.iter().for_each(|c| self.tokens(*c, out)),
            N::Plus(p) => {
                let n = match &self.large {
                    Some(l) => l.reps,
                    None => self.r.range(1, 3),
                };
                for _ in 0..n {
                    self.tokens(*p, out)
                }
            }
            N::Data(..) | N::Value(_) => out.push(self.string(id, 12)),
            _ => {}
        }
    }

    fn ex_ok(&self, e: Id, s: &str) -> bool {
        // whether the exception applies
        match self.ir.get(e).1 {
            N::Choice(v) => v.iter().any(|x| self.ex_ok(*x, s)),
            N::Value(v) => v.equals(s).unwrap_or(true),
            N::Data(l, x) => l.allows(s).unwrap_or(true) && !x.is_some_and(|x| self.ex_ok(x, s)),
            _ => false,
        }
    }

    /// Some string that matches
    pub fn string(&mut self, id: Id, tries: usize) -> String {
        let ir = self.ir;
        match ir.get(id).1 {
            N::Text => dt::text(self.r),
            N::Choice(v) => {
                let c = *self.r.pick(v);
                self.string(c, tries)
            }
            N::Data(l, ex) => {
                let mut s = String::new();
                for _ in 0..tries {
                    s = match l {
                        Lex::Ref(t, p) => dt::valid_value(t, p, self.r).unwrap_or_default(),
                        Lex::Model(_) => dt::text(self.r),
                    };
                    if ex.is_none_or(|e| !self.ex_ok(e, &s)) {
                        break;
                    }
                }
                s
            }
            N::Value(Val::Ref(t, v)) => {
                if t.name != "string" && self.r.chance(1, 4) {
                    let w: Vec<&str> = v.split(dt::is_ws).filter(|x| !x.is_empty()).collect();
                    let mut s = String::new();
                    if self.r.bool() {
                        s.push_str(dt::ws(self.r));
                    }
                    for (i, x) in w.iter().enumerate() {
                        if i > 0 {
                            s.push_str(dt::ws(self.r));
                        }
                        s.push_str(x);
                    }
                    if self.r.bool() {
                        s.push_str(dt::ws(self.r));
                    }
                    s
                } else {
                    v.clone()
                }
            }
            N::List(p) => {
                let mut t = vec![];
                self.tokens(*p, &mut t);
                let mut s = String::new();
                if self.r.chance(1, 5) {
                    s.push_str(dt::ws(self.r));
                }
                for (i, x) in t.iter().enumerate() {
                    if i > 0 {
                        if self.r.chance(1, 4) {
                            s.push_str(dt::ws(self.r))
                        } else {
                            s.push(' ')
                        }
                    }
                    s.push_str(x);
                }
                if self.r.chance(1, 5) {
                    s.push_str(dt::ws(self.r));
                }
                s
            }
            N::Group(v) | N::Inter(v) => {
                let c = *self.r.pick(v);
                self.string(c, tries)
            }
            N::Plus(p) => self.string(*p, tries),
            _ => String::new(),
        }
    }

    /// A subtree for some element of the schema
    fn subtree(&mut self) -> Elem {
        let elems: Vec<Id> = (0..self.ir.nodes.len())
            .filter(|i| matches!(self.ir.nodes[*i], N::Elem(..)) && self.h[*i] != usize::MAX)
            .collect();
        if elems.is_empty() {
            return Elem { ns: "".into(), local: "zz".into(), atts: vec![], children: vec![] };
        }
        let id = *self.r.pick(&elems);
        let mut o = Out::default();
        self.budget = 4;
        let d = self.h[id] + self.r.below(2);
        self.emit(id, d, &mut o);
        match o.kids.pop() {
            Some(Node::Elem(e)) => e,
            _ => unreachable!(),
        }
    }

    /// Some value that's of interest to the schema
    pub fn any_value(&mut self) -> String {
        let v: Vec<Id> = (0..self.ir.nodes.len())
            .filter(|i| matches!(self.ir.nodes[*i], N::Data(..) | N::Value(_) | N::List(_)))
            .collect();
        if v.is_empty() || self.r.chance(1, 4) {
            return dt::text(self.r);
        }
        let id = *self.r.pick(&v);
        match self.ir.get(id).1 {
            N::Data(Lex::Ref(t, p), _) if self.r.bool() => dt::candidate(t, p, self.r),
            _ => {
                let mut s = self.string(id, 3);
                match self.r.below(8) {
                    0 => s.push(' '),
                    1 => s.push('x'),
                    2 => {
                        s.pop();
                    }
                    3 => s.insert(0, ' '),
                    4 => {
                        let t = self.string(id, 3);
                        s = format!("{s} {t}");
                    }
                    _ => {}
                }
                s
            }
        }
    }

    fn attr_name(&mut self) -> (String, String) {
        let v: Vec<NC> = self
            .ir
            .nodes
            .iter()
            .filter_map(|n| if let N::Attr(nc, _) = n { Some(nc.clone()) } else { None })
            .collect();
        if !v.is_empty() && self.r.chance(3, 4) {
            let nc = self.r.pick(&v).clone();
            return self.name(&nc);
        }
        (if self.r.bool() { String::new() } else { self.r.pick(&self.nss).clone() }, self.r.pick(&self.locals).clone())
    }

    /// One small change
    pub fn mutate(&mut self, doc: &mut Elem) {
        let paths = doc.paths();
        let path = self.r.pick(&paths).clone();
        let root = path.is_empty();
        let k = self.r.below(22);
        let (nss, locals) = (self.nss.clone(), self.locals.clone());
        let e = doc.at_mut(&path);
        match k {
            0 | 1 if !e.children.is_empty() => {
                let i = self.r.below(e.children.len());
                e.children.remove(i);
            }
            2 if !e.children.is_empty() => {
                let i = self.r.below(e.children.len());
                let c = e.children[i].clone();
                let j = self.r.below(e.children.len() + 1);
                e.children.insert(j, c);
            }
            3 | 4 if e.children.len() > 1 => {
                let i = self.r.below(e.children.len());
                let j = self.r.below(e.children.len());
                e.children.swap(i, j);
            }
            5 => {
                e.local = self.r.pick(&locals).clone();
            }
            6 => {
                e.ns = self.r.pick(&nss).clone();
            }
            7 | 8 if !e.atts.is_empty() => {
                let i = self.r.below(e.atts.len());
                e.atts.remove(i);
            }
            9 | 10 => {
                let (ns, local) = self.attr_name();
                let value = self.any_value();
                if !(ns.is_empty() && local == "xmlns") && !e.atts.iter().any(|a| a.ns == ns && a.local == local) {
                    let i = self.r.below(e.atts.len() + 1);
                    e.atts.insert(i, Att { ns, local, value });
                }
            }
            11 if !e.atts.is_empty() => {
                let i = self.r.below(e.atts.len());
                let (ns, local) = self.attr_name();
                if !(ns.is_empty() && local == "xmlns") && !e.atts.iter().any(|a| a.ns == ns && a.local == local) {
                    e.atts[i].ns = ns;
                    e.atts[i].local = local;
                }
            }
            12 | 13 if !e.atts.is_empty() => {
                let i = self.r.below(e.atts.len());
                e.atts[i].value = self.any_value();
            }
            14 => {
                let t = if self.r.chance(1, 3) { dt::ws(self.r).to_string() } else { dt::text(self.r) };
                let i = self.r.below(e.children.len() + 1);
                e.children.insert(i, Node::Text(t));
            }
            15 | 16 => {
                let v = self.any_value();
                if let Some(i) = e.children.iter().position(|c| matches!(c, Node::Text(_))) {
                    e.children[i] = Node::Text(v);
                } else if !e.children.iter().any(|c| matches!(c, Node::Elem(_))) || self.r.chance(1, 3) {
                    e.children.push(Node::Text(v));
                }
            }
            17 => {
                let s = self.subtree();
                let i = self.r.below(e.children.len() + 1);
                e.children.insert(i, Node::Elem(s));
            }
            18 if !e.children.is_empty() => {
                let s = self.subtree();
                let i = self.r.below(e.children.len());
                e.children[i] = Node::Elem(s);
            }
            19 if !e.children.is_empty() => {
                let n = self.r.below(e.children.len());
                e.children.truncate(n);
            }
            20 if !root => {
                // unwrap
                let (last, par) = path.split_last().unwrap();
                let p = doc.at_mut(par);
                if let Node::Elem(c) = p.children.remove(*last) {
                    for (i, k) in c.children.into_iter().enumerate() {
                        p.children.insert(last + i, k);
                    }
                }
            }
            _ => {
                let n = e.children.len();
                if n > 0 {
                    let i = self.r.below(n);
                    let name = self.r.pick(&locals).clone();
                    let c = e.children.remove(i);
                    let ns = e.ns.clone();
                    e.children.insert(i, Node::Elem(Elem { ns, local: name, atts: vec![], children: vec![c] }));
                }
            }
        }
        doc.normalize();
    }

    /// Add white space between elements, where it's insignificant or nearly so
    pub fn indent(&mut self, e: &mut Elem) {
        let any = e.children.iter().any(|c| matches!(c, Node::Elem(_)));
        if any {
            let kids = std::mem::take(&mut e.children);
            for c in kids {
                if self.r.chance(1, 3) {
                    e.children.push(Node::Text(dt::ws(self.r).to_string()));
                }
                e.children.push(c);
            }
            if self.r.chance(1, 3) {
                e.children.push(Node::Text(dt::ws(self.r).to_string()));
            }
        } else if e.children.is_empty() && self.r.chance(1, 10) {
            e.children.push(Node::Text(dt::ws(self.r).to_string()));
        }
        for c in &mut e.children {
            if let Node::Elem(e) = c {
                self.indent(e)
            }
        }
        e.normalize();
    }
}
