//! Printing schemas in the XML syntax, in many ways
use crate::ast::*;
use crate::doc;
use crate::doc::Att;
use crate::rng::Rng;
use crate::xml;

pub const RNG: &str = "http://relaxng.org/ns/structure/1.0";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema-datatypes";

struct P<'a> {
    r: &'a mut Rng,
    fancy: usize,
    annot: usize,
    /// prefixes declared on the root, to be used in names
    prefixes: Vec<(String, String)>,
}

#[derive(Clone)]
struct Scope {
    ns: String,
    lib: String,
}

/// `explicit`: whether the namespace has to be given, as the file might inherit another one
pub fn print(top: &Top, explicit: bool, fancy: usize, r: &mut Rng) -> String {
    let annot = fancy / 2;
    print_annot(top, explicit, fancy, annot, r)
}
pub fn print_annot(top: &Top, explicit: bool, fancy: usize, annot: usize, r: &mut Rng) -> String {
    let mut p = P { r, fancy, annot, prefixes: vec![] };
    if fancy > 0 {
        for (i, u) in ["urn:a", "http://example.org/b", "urn:a:b", "u"].iter().enumerate() {
            if p.f() {
                p.prefixes.push((format!("q{i}x"), u.to_string()));
            }
        }
    }
    let scope = Scope { ns: if explicit { "\u{0}".into() } else { String::new() }, lib: String::new() };
    let mut root = match top {
        Top::Pat(q) => p.pat(q, &scope),
        Top::Gram(g) => p.grammar(g, &scope),
    };
    let of_name = root.local == "attribute" && root.atts.iter().any(|a| a.local == "name" && a.ns.is_empty());
    if explicit && !of_name && !root.atts.iter().any(|a| a.local == "ns" && a.ns.is_empty()) {
        // nothing within relies on the namespace, as nothing knew it
        root.atts.push(Att { ns: "".into(), local: "ns".into(), value: "urn:unused".into() });
    }
    root.normalize();
    let style = if fancy == 0 {
        xml::Style::plain()
    } else {
        // (a carriage return before a reference: see known-findings.txt)
        xml::Style { dtd: false, fancy: *p.r.pick(&[0, 3, fancy]), eol: *p.r.pick(&["\n", "\r\n"]), ..xml::Style::random(p.r) }
    };
    let pre = p.prefixes.clone();
    xml::print_with(&root, &style, &pre, p.r).text
}

fn att(k: &str, v: &str) -> Att {
    Att { ns: "".into(), local: k.into(), value: v.into() }
}
fn is_ws_free(s: &str) -> bool {
    !s.is_empty() && !s.contains([' ', '\t', '\n', '\r'])
}

impl P<'_> {
    fn f(&mut self) -> bool {
        let f = self.fancy;
        f > 0 && self.r.chance(f, 100)
    }
    fn a(&mut self) -> bool {
        let f = self.annot;
        f > 0 && self.r.chance(f, 100)
    }

    fn el(&mut self, name: &str, mut atts: Vec<Att>, kids: Vec<doc::Elem>) -> doc::Elem {
        let mut children: Vec<doc::Node> = vec![];
        for k in kids {
            if self.fancy == 0 || self.r.chance(1, 2) {
                children.push(doc::Node::Text("\n".into()));
            }
            if self.a() {
                let f = self.foreign(2);
                children.push(doc::Node::Elem(f));
            }
            children.push(doc::Node::Elem(k));
        }
        if self.a() {
            let f = self.foreign(2);
            children.push(doc::Node::Elem(f));
        }
        if self.f() {
            children.push(doc::Node::Text(" \n".into()));
        }
        self.foreign_att(&mut atts);
        doc::Elem { ns: RNG.into(), local: name.into(), atts, children }
    }
    fn foreign_att(&mut self, atts: &mut Vec<Att>) {
        if self.a() {
            let k = self.r.pick(&["name", "ns", "x", "datatypeLibrary", "type", "combine", "href"]).to_string();
            atts.push(Att { ns: "urn:foreign".into(), local: k, value: "zzz".into() });
        }
        if self.fancy > 0 {
            self.r.shuffle(atts);
        }
    }
    fn foreign(&mut self, d: usize) -> doc::Elem {
        let ns = self.r.pick(&["urn:foreign", "", "http://relaxng.org/ns/compatibility/annotations/1.0"]).to_string();
        let local = self.r.pick(&["documentation", "element", "x", "define", "a"]).to_string();
        let mut children = vec![doc::Node::Text(" some text ".into())];
        if d > 0 && self.r.bool() {
            children.push(doc::Node::Elem(self.foreign(d - 1)));
        }
        if self.r.chance(1, 4) {
            // RELAX NG elements within foreign ones mean nothing
            children.push(doc::Node::Elem(doc::Elem {
                ns: RNG.into(),
                local: "element".into(),
                atts: vec![att("name", "ignored")],
                children: if self.r.bool() { vec![] } else { vec![doc::Node::Text("t".into())] },
            }));
        }
        doc::Elem { ns, local, atts: vec![att("name", "y"), att("ns", "z")], children }
    }
    fn text_el(&mut self, name: &str, mut atts: Vec<Att>, text: String) -> doc::Elem {
        self.foreign_att(&mut atts);
        let children = if text.is_empty() { vec![] } else { vec![doc::Node::Text(text)] };
        doc::Elem { ns: RNG.into(), local: name.into(), atts, children }
    }
    fn trimmed(&mut self, s: &str) -> String {
        if self.f() {
            // (the characters that can only be written as references, too)
            let a = *self.r.pick(&[" ", "\n", "  ", "\t", "\r", ""]);
            let b = *self.r.pick(&["", " ", "\n", "\r\n", "\t"]);
            format!("{a}{s}{b}")
        } else {
            s.to_string()
        }
    }

    /// attributes that may be put on any element, and what's in scope of it then
    fn common(&mut self, s: &Scope, used_ns: Option<&str>, used_lib: Option<&str>) -> (Vec<Att>, Scope) {
        let mut s = s.clone();
        let mut atts = vec![];
        if self.f() {
            let n = used_ns.map(String::from).unwrap_or_else(|| self.r.pick(&["", "urn:a", "http://example.org/b", "urn:zz"]).to_string());
            atts.push(att("ns", &n));
            s.ns = n;
        }
        if self.f() {
            let l = used_lib.map(String::from).unwrap_or_else(|| self.r.pick(&["", XSD]).to_string());
            atts.push(att("datatypeLibrary", &l));
            s.lib = l;
        }
        (atts, s)
    }

    fn grammar(&mut self, g: &Gram, s: &Scope) -> doc::Elem {
        let (mut atts, mut s) = self.common(s, None, None);
        if self.fancy == 0 && s.lib.is_empty() {
            atts.push(att("datatypeLibrary", XSD));
            s.lib = XSD.into();
        }
        let kids = self.items(&g.items, &s);
        self.el("grammar", atts, kids)
    }

    fn items(&mut self, items: &[Item], s: &Scope) -> Vec<doc::Elem> {
        items
            .iter()
            .map(|i| {
                let (mut atts, s) = self.common(s, None, None);
                match i {
                    Item::Start(a, p) => {
                        self.combine(*a, &mut atts);
                        let k = self.pat(p, &s);
                        self.el("start", atts, vec![k])
                    }
                    Item::Def(n, a, p) => {
                        self.combine(*a, &mut atts);
                        let n = self.trimmed(n);
                        atts.push(att("name", &n));
                        let k = self.seq(p, &s);
                        self.el("define", atts, k)
                    }
                    Item::Div(v) => {
                        let k = self.items(v, &s);
                        self.el("div", atts, k)
                    }
                    Item::Include(h, v) => {
                        atts.push(att("href", h));
                        let k = self.items(v, &s);
                        self.el("include", atts, k)
                    }
                }
            })
            .collect()
    }
    fn combine(&mut self, a: Assign, atts: &mut Vec<Att>) {
        match a {
            Assign::Eq => {}
            Assign::Choice => {
                let v = self.trimmed("choice");
                atts.push(att("combine", &v))
            }
            Assign::Inter => {
                let v = self.trimmed("interleave");
                atts.push(att("combine", &v))
            }
        }
    }

    /// where several patterns are an implicit group
    fn seq(&mut self, p: &Pat, s: &Scope) -> Vec<doc::Elem> {
        match p {
            Pat::Group(v) if v.len() > 1 && (self.fancy == 0 || self.r.bool()) => v.iter().map(|q| self.pat(q, s)).collect(),
            _ => vec![self.pat(p, s)],
        }
    }

    fn nc(&mut self, nc: &NC, s: &Scope) -> doc::Elem {
        match nc {
            NC::Name(ns, l) => {
                let (mut atts, s2) = self.common(s, Some(ns), None);
                let mut t = l.clone();
                let cand: Vec<String> = self.prefixes.iter().filter(|p| p.1 == *ns).map(|p| p.0.clone()).collect();
                if ns == xml::XML_NS && self.r.bool() {
                    t = format!("xml:{l}");
                } else if !cand.is_empty() && self.r.bool() {
                    t = format!("{}:{l}", self.r.pick(&cand));
                } else if s2.ns != *ns {
                    atts.push(att("ns", ns));
                }
                let t = self.trimmed(&t);
                self.text_el("name", atts, t)
            }
            NC::NsName(ns, ex) => {
                let (mut atts, mut s2) = self.common(s, Some(ns), None);
                if s2.ns != *ns {
                    atts.push(att("ns", ns));
                    s2.ns = ns.clone();
                }
                let k = self.except_nc(ex, &s2);
                self.el("nsName", atts, k)
            }
            NC::AnyName(ex) => {
                let (atts, s2) = self.common(s, None, None);
                let k = self.except_nc(ex, &s2);
                self.el("anyName", atts, k)
            }
            NC::Choice(v) => {
                let (atts, s2) = self.common(s, None, None);
                let k = v.iter().map(|c| self.nc(c, &s2)).collect();
                self.el("choice", atts, k)
            }
        }
    }
    fn except_nc(&mut self, ex: &Option<Box<NC>>, s: &Scope) -> Vec<doc::Elem> {
        match ex {
            None => vec![],
            Some(e) => {
                let (atts, s) = self.common(s, None, None);
                let k = match &**e {
                    NC::Choice(v) if self.r.bool() => v.iter().map(|c| self.nc(c, &s)).collect(),
                    e => vec![self.nc(e, &s)],
                };
                vec![self.el("except", atts, k)]
            }
        }
    }

    fn pat(&mut self, p: &Pat, s: &Scope) -> doc::Elem {
        match p {
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) if v.len() == 1 && !(self.f() && self.r.bool()) => return self.pat(&v[0], s),
            _ => {}
        }
        match p {
            Pat::Empty | Pat::NotAllowed | Pat::Text => {
                let (atts, _) = self.common(s, None, None);
                let n = match p {
                    Pat::Empty => "empty",
                    Pat::NotAllowed => "notAllowed",
                    _ => "text",
                };
                self.el(n, atts, vec![])
            }
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) => {
                let (atts, s) = self.common(s, None, None);
                let n = match p {
                    Pat::Choice(_) => "choice",
                    Pat::Group(_) => "group",
                    _ => "interleave",
                };
                let k = v.iter().map(|q| self.pat(q, &s)).collect();
                self.el(n, atts, k)
            }
            Pat::Mixed(q) | Pat::Opt(q) | Pat::Star(q) | Pat::Plus(q) | Pat::List(q) => {
                let (atts, s) = self.common(s, None, None);
                let n = match p {
                    Pat::Mixed(_) => "mixed",
                    Pat::Opt(_) => "optional",
                    Pat::Star(_) => "zeroOrMore",
                    Pat::Plus(_) => "oneOrMore",
                    _ => "list",
                };
                let k = self.seq(q, &s);
                self.el(n, atts, k)
            }
            Pat::Elem(nc, q) => {
                let ns = if let NC::Name(n, _) = nc { Some(n.as_str()) } else { None };
                let (mut atts, mut s) = self.common(s, ns, None);
                let mut kids = vec![];
                match nc {
                    NC::Name(ns, l) if !self.f() => {
                        let mut t = l.clone();
                        let cand: Vec<String> = self.prefixes.iter().filter(|p| p.1 == *ns).map(|p| p.0.clone()).collect();
                        if *ns == xml::XML_NS {
                            t = format!("xml:{l}");
                        } else if !cand.is_empty() && self.r.bool() {
                            t = format!("{}:{l}", self.r.pick(&cand));
                        } else if s.ns != *ns {
                            atts.push(att("ns", ns));
                            s.ns = ns.clone();
                        }
                        let t = self.trimmed(&t);
                        atts.push(att("name", &t));
                    }
                    _ => kids.push(self.nc(nc, &s)),
                }
                kids.extend(self.seq(q, &s));
                self.el("element", atts, kids)
            }
            Pat::Attr(nc, q) => {
                let mut atts = vec![];
                let mut s = s.clone();
                let mut kids = vec![];
                match nc {
                    NC::Name(ns, l) if !self.f() => {
                        // the namespace isn't inherited in this case
                        let mut t = l.clone();
                        let cand: Vec<String> = self.prefixes.iter().filter(|p| p.1 == *ns).map(|p| p.0.clone()).collect();
                        if *ns == xml::XML_NS {
                            t = format!("xml:{l}");
                        } else if !cand.is_empty() && self.r.bool() {
                            t = format!("{}:{l}", self.r.pick(&cand));
                            if self.f() {
                                atts.push(att("ns", "urn:zz"));
                                s.ns = "urn:zz".into();
                            }
                        } else if !ns.is_empty() || self.f() {
                            atts.push(att("ns", ns));
                            s.ns = ns.clone();
                        }
                        let t = self.trimmed(&t);
                        atts.push(att("name", &t));
                    }
                    _ => {
                        let (a, s2) = self.common(&s, None, None);
                        atts = a;
                        s = s2;
                        kids.push(self.nc(nc, &s));
                    }
                }
                if **q != Pat::Text || self.f() {
                    kids.push(self.pat(q, &s));
                }
                self.el("attribute", atts, kids)
            }
            Pat::Data(d, ps, ex) => {
                let lib = if d.xsd { XSD } else { "" };
                let (mut atts, mut s) = self.common(s, None, Some(lib));
                if s.lib != lib {
                    atts.push(att("datatypeLibrary", lib));
                    s.lib = lib.into();
                }
                let t = self.trimmed(&d.name);
                atts.push(att("type", &t));
                let mut kids = vec![];
                for (k, v) in ps {
                    let k = self.trimmed(k);
                    let e = self.text_el("param", vec![att("name", &k)], v.clone());
                    kids.push(e);
                }
                if let Some(e) = ex {
                    let (atts, s) = self.common(&s, None, None);
                    let k = match &**e {
                        Pat::Choice(v) if self.r.bool() => v.iter().map(|q| self.pat(q, &s)).collect(),
                        e => vec![self.pat(e, &s)],
                    };
                    kids.push(self.el("except", atts, k));
                }
                self.el("data", atts, kids)
            }
            Pat::Value(d, v) => {
                let lib = if d.xsd { XSD } else { "" };
                let mut atts = vec![];
                if d.xsd || d.name != "token" || self.f() {
                    let (a, s2) = self.common(s, None, Some(lib));
                    atts = a;
                    if s2.lib != lib {
                        atts.push(att("datatypeLibrary", lib));
                    }
                    let t = self.trimmed(&d.name);
                    atts.push(att("type", &t));
                }
                self.text_el("value", atts, v.clone())
            }
            Pat::Ref(n) | Pat::Parent(n) => {
                let (mut atts, _) = self.common(s, None, None);
                let n = self.trimmed(n);
                atts.push(att("name", &n));
                self.el(if matches!(p, Pat::Ref(_)) { "ref" } else { "parentRef" }, atts, vec![])
            }
            Pat::External(h) => {
                let (mut atts, _) = self.common(s, None, None);
                atts.push(att("href", h));
                self.el("externalRef", atts, vec![])
            }
            Pat::Grammar(g) => self.grammar(g, s),
        }
    }
}
