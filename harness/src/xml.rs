//! Serialising infosets in many ways, remembering where each item ended up
use crate::doc::*;
use crate::dt::all_ws;
use crate::rng::Rng;
use crate::sem_deriv::Place;
use std::collections::HashMap;
use std::ops::Range;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug)]
pub struct Style {
    /// 0: plain; otherwise how often to do something special (out of 100)
    pub fancy: usize,
    pub dtd: bool,
    pub decl: bool,
    pub eol: &'static str,
    pub prolog: bool,
}
impl Style {
    pub fn plain() -> Style {
        Style { fancy: 0, dtd: false, decl: false, eol: "\n", prolog: false }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            fancy: *r.pick(&[0, 5, 20, 50]),
            dtd: r.chance(1, 3),
            decl: r.chance(1, 3),
            eol: r.pick(&["\n", "\n", "\r\n", "\r"]),
            prolog: r.chance(1, 3),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Printed {
    pub text: String,
    pub spans: HashMap<Place2, Range<usize>>,
    /// whether each element was written as an empty-element tag
    pub empty: HashMap<Vec<usize>, bool>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Place2 {
    Start(Vec<usize>),
    Attr(Vec<usize>, usize),
    StartEnd(Vec<usize>),
    Text(Vec<usize>),
    End(Vec<usize>),
}
impl Printed {
    pub fn span(&self, p: &Place) -> Option<Range<usize>> {
        self.spans
            .get(&match p.clone() {
                Place::Start(p) => Place2::Start(p),
                Place::Attr(p, i) => Place2::Attr(p, i),
                Place::StartEnd(p) => Place2::StartEnd(p),
                Place::Text(p) => Place2::Text(p),
                Place::End(p) => Place2::End(p),
            })
            .cloned()
    }
}

#[derive(Default)]
struct Entity {
    name: String,
    literal: String,
    /// what a reference in content, or in an attribute, stands for
    content: Vec<char>,
    attr: Vec<char>,
    /// all the references that this takes, and how deep they go
    refs: usize,
    depth: usize,
}
impl Entity {
    fn is(&self, v: &[char], attr: bool) -> bool {
        let own = if attr { &self.attr } else { &self.content };
        !own.is_empty() && self.depth < 50 && v.starts_with(own)
    }
}

struct Printer<'a> {
    s: Style,
    r: &'a mut Rng,
    out: Printed,
    scopes: Vec<(String, String)>,
    entities: Vec<Entity>,
    extra: Vec<(String, String)>,
}

const PREFIXES: &[&str] = &["a", "b", "p", "ns0", "q", "é", "x.y-z", "_1", "longprefixlongprefixlongprefix", "A"];

pub fn print(doc: &Elem, s: &Style, r: &mut Rng) -> Printed {
    print_with(doc, s, &[], r)
}

/// With some namespace declarations on the root element, whose prefixes aren't used otherwise
pub fn print_with(doc: &Elem, s: &Style, extra: &[(String, String)], r: &mut Rng) -> Printed {
    let mut p = Printer { s: s.clone(), r, out: Printed::default(), scopes: vec![], entities: vec![], extra: extra.to_vec() };
    p.document(doc);
    p.out
}

impl Printer<'_> {
    fn fancy(&mut self) -> bool {
        let f = self.s.fancy;
        f > 0 && self.r.chance(f, 100)
    }
    fn raw(&mut self, t: &str) {
        self.out.text.push_str(t)
    }
    fn eol(&mut self) {
        let e = self.s.eol;
        self.raw(e)
    }
    fn space(&mut self) {
        if self.fancy() {
            let w = *self.r.pick(&[" ", "  ", "\t", "\n", " \n "]);
            let w = w.replace('\n', self.s.eol);
            self.raw(&w);
        }
    }
    fn space1(&mut self) {
        self.raw(" ");
        self.space()
    }
    fn comment_or_pi(&mut self) {
        let c = *self.r.pick(&[
            "<!-- c -->",
            "<!---->",
            "<!-- <a> & ]]> é - -->",
            "<?pi?>",
            "<?pi data <x> ?>",
            "<?p.i-2 a=\"b\"?>",
            "<!--\n-->",
        ]);
        self.raw(c)
    }
    fn misc(&mut self) {
        while self.fancy() {
            match self.r.below(2) {
                0 => self.comment_or_pi(),
                _ => self.eol(),
            }
        }
    }

    fn document(&mut self, doc: &Elem) {
        if self.s.decl {
            let d = *self.r.pick(&[
                "<?xml version=\"1.0\"?>",
                "<?xml version='1.0' encoding='UTF-8'?>",
                "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>",
            ]);
            self.raw(d);
            self.eol();
        }
        if self.s.prolog {
            self.misc();
        }
        if self.s.dtd {
            // entities whose values occur in the document
            let mut texts = vec![];
            fn collect(e: &Elem, out: &mut Vec<(String, bool)>) {
                for a in &e.atts {
                    out.push((a.value.clone(), true));
                }
                for c in &e.children {
                    match c {
                        Node::Text(t) => out.push((t.clone(), false)),
                        Node::Elem(e) => collect(e, out),
                    }
                }
            }
            collect(doc, &mut texts);
            self.raw("<!DOCTYPE ");
            let n = doc.local.clone();
            self.raw(&n);
            match self.r.below(5) {
                0 => {
                    self.raw(" SYSTEM \"x.dtd\"");
                }
                1 => {
                    self.raw(" PUBLIC \"-//X//Y\" \"x.dtd\"");
                }
                2 => {}
                _ => {}
            }
            let with_subset = self.r.chance(3, 4);
            if with_subset {
                self.raw(" [");
                self.eol();
                for _ in 0..self.r.range(0, 3) {
                    if texts.is_empty() {
                        break;
                    }
                    let (val, attr) = self.r.pick(&texts).clone();
                    let v: Vec<char> = val.chars().collect();
                    if v.is_empty() {
                        continue;
                    }
                    let (a, b) = if self.r.bool() {
                        (0, v.len())
                    } else {
                        let a = self.r.below(v.len());
                        (a, self.r.range(a + 1, v.len()))
                    };
                    self.entity(&v[a..b], attr, 3);
                }
                if self.r.chance(1, 4) {
                    self.entity(&[], false, 0);
                }
                // (an entity may refer to others that are declared later)
                let mut order: Vec<usize> = (0..self.entities.len()).collect();
                if self.r.bool() {
                    self.r.shuffle(&mut order);
                }
                for i in order {
                    let (name, lit) = (self.entities[i].name.clone(), self.entities[i].literal.clone());
                    if self.r.chance(1, 15) {
                        // in a name space of their own
                        let t = *self.r.pick(&["<!ENTITY % NAME 'ignored'>", "<!ENTITY\t%\nNAME  \"ignored\" >", "<!ENTITY  % NAME '<ignored>'>"]);
                        self.raw(&t.replace("NAME", &name));
                    }
                    let (w1, w2, w3) = (self.entity_space(), self.entity_space(), if self.r.chance(1, 8) { " " } else { "" });
                    let t = format!("<!ENTITY{w1}{name}{w2}{lit}{w3}>");
                    self.raw(&t);
                    self.eol();
                    // the first declaration is the binding one
                    if self.r.chance(1, 10) {
                        let t = format!("<!ENTITY {name} \"ignored\">");
                        self.raw(&t);
                    }
                    if self.fancy() {
                        self.comment_or_pi();
                    }
                }
                self.raw("]");
            }
            self.raw(">");
            self.eol();
        }
        if self.s.prolog {
            self.misc();
        }
        let mut path = vec![];
        self.element(doc, &mut path);
        if self.s.prolog {
            self.misc();
            if self.r.bool() {
                self.eol();
            }
        }
    }

    fn entity_space(&mut self) -> &'static str {
        if self.r.chance(1, 10) {
            *self.r.pick(&["  ", "\t", "\n", " \t "])
        } else {
            " "
        }
    }

    /// Makes an entity that has the given value in content, or in attributes; perhaps by way of others
    fn entity(&mut self, v: &[char], attr: bool, levels: usize) -> usize {
        let q = *self.r.pick(&['"', '\'']);
        let mut e = Entity::default();
        let known = self.entities.len();
        let mut i = 0;
        while i < v.len() {
            if self.r.chance(1, 4) && self.entities.len() < 80 {
                let k = self.entities.len();
                let found = (0..k).filter(|j| self.entities[*j].is(&v[i..], attr)).collect::<Vec<_>>();
                let j = if !found.is_empty() && self.r.chance(3, 4) {
                    Some(*self.r.pick(&found))
                } else if levels > 0 && self.r.chance(1, 3) && self.entities.len() < known + 10 {
                    let n = self.r.range(1, (v.len() - i).min(8));
                    Some(self.entity(&v[i..i + n], attr, levels - 1))
                } else {
                    None
                };
                if let Some(j) = j {
                    let other = &self.entities[j];
                    e.literal.push_str(&format!("&{};", other.name));
                    e.content.extend(&other.content);
                    e.attr.extend(&other.attr);
                    e.refs += other.refs + 1;
                    e.depth = e.depth.max(other.depth + 1);
                    i += if attr { other.attr.len() } else { other.content.len() };
                    continue;
                }
            }
            let c = v[i];
            i += 1;
            // what's a reference once the entity is used is always itself
            let twice = |c: char| format!("&#38;#{};", c as u32);
            let ws = matches!(c, '\t' | '\n' | '\r');
            if attr && ws {
                e.literal.push_str(&twice(c));
                e.content.push(c);
                e.attr.push(c);
                continue;
            }
            if attr && c == ' ' && self.r.chance(1, 3) {
                // any whitespace will do
                let w = *self.r.pick(&['\t', '\n', '\r']);
                let l = match (w, self.r.bool()) {
                    ('\t', true) => "\t".to_string(),
                    ('\n', true) => self.s.eol.to_string(),
                    _ => format!("&#{};", w as u32),
                };
                e.literal.push_str(&l);
                e.content.push(w);
                e.attr.push(' ');
                continue;
            }
            e.content.push(c);
            e.attr.push(if ws { ' ' } else { c });
            match c {
                '&' => e.literal.push_str(if self.r.bool() { "&amp;" } else { "&#38;#38;" }),
                '<' => e.literal.push_str(if self.r.bool() { "&lt;" } else { "&#38;#60;" }),
                '>' => e.literal.push_str("&gt;"),
                '%' => e.literal.push_str("&#37;"),
                '\r' => e.literal.push_str("&#13;"),
                '\n' if self.r.bool() => e.literal.push_str(self.s.eol),
                '\n' => e.literal.push_str("&#xA;"),
                c if c == q && self.r.bool() => e.literal.push_str(&format!("&#{};", c as u32)),
                c if c == q => e.literal.push_str(if q == '"' { "&quot;" } else { "&apos;" }),
                c if self.r.chance(1, 8) => {
                    if self.r.bool() {
                        e.literal.push_str(&format!("&#x{:x};", c as u32))
                    } else {
                        e.attr.pop();
                        e.attr.push(c);
                        e.literal.push_str(&twice(c))
                    }
                }
                c => e.literal.push(c),
            }
        }
        e.literal = format!("{q}{}{q}", e.literal);
        let n = if self.r.chance(1, 30) { crate::scale::size(self.r, 40) } else { 0 };
        let mut at = self.declare(e);
        for _ in 0..n {
            let other = &self.entities[at];
            if other.depth > 50 {
                break;
            }
            let e = Entity { literal: format!("'&{};'", other.name), content: other.content.clone(), attr: other.attr.clone(), refs: other.refs + 1, depth: other.depth + 1, ..Entity::default() };
            at = self.declare(e);
        }
        at
    }
    fn declare(&mut self, mut e: Entity) -> usize {
        let k = self.entities.len();
        e.name = format!("{}{k}", *self.r.pick(&["e", "e", "ent.", "é", "E_", "e.", "lt", "x-"]));
        self.entities.push(e);
        k
    }
    /// An entity whose value comes next
    fn some_entity(&mut self, rest: &str, attr: bool) -> Option<usize> {
        if self.entities.is_empty() || !self.r.chance(1, 3) {
            return None;
        }
        let found: Vec<usize> = (0..self.entities.len())
            .filter(|j| {
                let e = &self.entities[*j];
                let v = if attr { &e.attr } else { &e.content };
                e.refs < 10_000 && rest.chars().take(v.len()).eq(v.iter().copied())
            })
            .collect();
        if found.is_empty() {
            return None;
        }
        let j = *self.r.pick(&found);
        // (those without content are seldom used)
        (!self.entities[j].content.is_empty() || self.r.chance(1, 20)).then_some(j)
    }

    fn lookup(&self, prefix: &str) -> &str {
        self.scopes.iter().rev().find(|s| s.0 == prefix).map_or("", |s| &s.1[..])
    }

    fn attr_value(&mut self, v: &str) {
        let q = if self.fancy() { '\'' } else { '"' };
        let mut o = String::new();
        o.push(q);
        let mut rest = v;
        'o: while !rest.is_empty() {
            if let Some(j) = self.some_entity(rest, true) {
                let e = &self.entities[j];
                o.push_str(&format!("&{};", e.name));
                rest = &rest[e.attr.iter().map(|c| c.len_utf8()).sum::<usize>()..];
                continue 'o;
            }
            let c = rest.chars().next().unwrap();
            rest = &rest[c.len_utf8()..];
            self.chr(c, q, true, &mut o);
        }
        o.push(q);
        self.raw(&o);
    }

    fn chr(&mut self, c: char, q: char, attr: bool, o: &mut String) {
        let must = c == '&' || c == '<' || c == '\r' || (attr && (c == q || c == '\t' || c == '\n'));
        if must || self.fancy() {
            match c {
                '&' if self.r.bool() => o.push_str("&amp;"),
                '<' if self.r.bool() => o.push_str("&lt;"),
                '>' if self.r.bool() => o.push_str("&gt;"),
                '"' if self.r.bool() => o.push_str("&quot;"),
                '\'' if self.r.bool() => o.push_str("&apos;"),
                _ => match self.r.below(4) {
                    0 => o.push_str(&format!("&#{};", c as u32)),
                    1 => o.push_str(&format!("&#x{:x};", c as u32)),
                    2 => o.push_str(&format!("&#x{:X};", c as u32)),
                    _ => o.push_str(&format!("&#00{};", c as u32)),
                },
            }
        } else if c == '\n' {
            let e = self.s.eol;
            o.push_str(e)
        } else {
            o.push(c)
        }
    }

    fn text(&mut self, t: &str) {
        let mut rest = t;
        'o: while !rest.is_empty() {
            if let Some(j) = self.some_entity(rest, false) {
                let e = &self.entities[j];
                let s = format!("&{};", e.name);
                rest = &rest[e.content.iter().map(|c| c.len_utf8()).sum::<usize>()..];
                self.raw(&s);
                continue 'o;
            }
            if self.fancy() {
                match self.r.below(3) {
                    0 => self.comment_or_pi(),
                    1 => {
                        // a CDATA section
                        let n = self.r.below(5);
                        let mut chunk = String::new();
                        for c in rest.chars().take(n) {
                            if c == '\r' {
                                break;
                            }
                            chunk.push(c);
                            if chunk.ends_with("]]>") {
                                chunk.pop();
                                break;
                            }
                        }
                        let s = format!("<![CDATA[{}]]>", chunk.replace('\n', self.s.eol));
                        self.raw(&s);
                        rest = &rest[chunk.len()..];
                        continue 'o;
                    }
                    _ => {}
                }
            }
            let c = rest.chars().next().unwrap();
            rest = &rest[c.len_utf8()..];
            let mut o = String::new();
            if c == '>' {
                o.push_str("&gt;")
            } else if c == '\n' && self.s.eol == "\r" && (rest.starts_with('\n') || self.out.text.ends_with('\r')) {
                o.push_str("&#10;")
            } else {
                self.chr(c, '\0', false, &mut o);
            }
            self.raw(&o);
        }
    }

    fn element(&mut self, e: &Elem, path: &mut Vec<usize>) {
        let depth = self.scopes.len();
        // (prefix, uri) to be declared here
        let mut decls: Vec<(String, String)> = vec![];
        let declared = |d: &[(String, String)], p: &str| d.iter().any(|x| x.0 == p);
        for (p, u) in std::mem::take(&mut self.extra) {
            decls.push((p.clone(), u.clone()));
            self.scopes.push((p, u));
        }
        // spurious declarations
        if self.fancy() {
            let p = self.r.pick(PREFIXES).to_string();
            let u = self.r.pick(&["urn:unused", "urn:a", "http://example.org/b", "x"]).to_string();
            decls.push((p.clone(), u.clone()));
            self.scopes.push((p, u));
        }
        let mut q = |me: &mut Self, ns: &str, attr: bool| -> String {
            if ns == XML_NS {
                return "xml".into();
            }
            if ns.is_empty() {
                if !attr && !me.lookup("").is_empty() {
                    decls.push(("".into(), "".into()));
                    me.scopes.push(("".into(), "".into()));
                }
                return "".into();
            }
            // prefixes that are bound to it already
            let mut cand: Vec<String> = vec![];
            for (p, u) in &me.scopes {
                if u == ns && me.lookup(p) == ns && !cand.contains(p) && !(attr && p.is_empty()) {
                    cand.push(p.clone());
                }
            }
            if !cand.is_empty() && !(me.fancy() && me.s.fancy > 10) {
                return me.r.pick(&cand).clone();
            }
            // declare one; the default namespace can only be declared here if nothing has used it so far
            if !attr && !declared(&decls, "") && (me.s.fancy == 0 || me.r.bool()) {
                decls.push(("".into(), ns.into()));
                me.scopes.push(("".into(), ns.into()));
                return "".into();
            }
            let mut k = 0;
            loop {
                let p = if me.s.fancy == 0 || k > 20 { format!("n{k}") } else { me.r.pick(PREFIXES).to_string() };
                k += 1;
                // (re)declaring it must not change what has been decided for this tag
                if !declared(&decls, &p) && !me.scopes[depth..].iter().any(|s| s.0 == p) {
                    decls.push((p.clone(), ns.into()));
                    me.scopes.push((p.clone(), ns.into()));
                    return p;
                }
            }
        };
        // names of this tag that are resolved by outer declarations must not be redeclared afterwards: reserve those
        let mut used: Vec<String> = vec![];
        let ep = q(self, &e.ns, false);
        used.push(ep.clone());
        let mut aps = vec![];
        for a in &e.atts {
            // make sure that a prefix used already keeps its meaning
            let mut tries = 0;
            let p = loop {
                let before = self.scopes.len();
                let p = q(self, &a.ns, true);
                if self.scopes.len() > before && used.contains(&p) {
                    // undo: that prefix is used with its outer meaning
                    self.scopes.truncate(before);
                    tries += 1;
                    if tries > 200 {
                        panic!("no prefix")
                    }
                    // (the declaration was appended too)
                    continue;
                }
                break p;
            };
            used.push(p.clone());
            aps.push(p);
        }
        let _ = q;
        // declarations that were undone are not in scope
        let in_scope: Vec<(String, String)> = self.scopes[depth..].to_vec();
        decls.retain(|d| in_scope.contains(d));
        decls.sort();
        decls.dedup();
        // write the tag
        let a = self.out.text.len();
        let tag = if ep.is_empty() { e.local.clone() } else { format!("{ep}:{}", e.local) };
        self.raw("<");
        self.raw(&tag);
        let b = self.out.text.len();
        self.out.spans.insert(Place2::Start(path.clone()), a..b);
        enum I {
            D(usize),
            A(usize),
        }
        let mut items: Vec<I> = (0..e.atts.len()).map(I::A).collect();
        for i in 0..decls.len() {
            let at = if self.s.fancy == 0 { i.min(items.len()) } else { self.r.range(0, items.len()) };
            items.insert(at, I::D(i));
        }
        for it in items {
            self.space1();
            let a = self.out.text.len();
            match it {
                I::D(i) => {
                    let (p, u) = decls[i].clone();
                    if p.is_empty() {
                        self.raw("xmlns");
                    } else {
                        self.raw("xmlns:");
                        self.raw(&p);
                    }
                    self.raw("=");
                    self.attr_value(&u);
                }
                I::A(i) => {
                    if !aps[i].is_empty() {
                        let t = format!("{}:", aps[i]);
                        self.raw(&t);
                    }
                    self.raw(&e.atts[i].local);
                    if self.fancy() {
                        self.raw(" ");
                    }
                    self.raw("=");
                    if self.fancy() {
                        self.raw(" ");
                    }
                    self.attr_value(&e.atts[i].value);
                    let b = self.out.text.len();
                    self.out.spans.insert(Place2::Attr(path.clone(), i), a..b);
                }
            }
        }
        self.space();
        let a = self.out.text.len();
        if e.children.is_empty() && !self.fancy() {
            self.raw("/>");
            let b = self.out.text.len();
            self.out.spans.insert(Place2::StartEnd(path.clone()), a..b);
            self.out.spans.insert(Place2::End(path.clone()), a..b);
            self.out.empty.insert(path.clone(), true);
        } else {
            self.raw(">");
            let b = self.out.text.len();
            self.out.spans.insert(Place2::StartEnd(path.clone()), a..b);
            let mut prev_text = false;
            for (i, c) in e.children.iter().enumerate() {
                path.push(i);
                match c {
                    Node::Text(t) => {
                        let a = self.out.text.len();
                        self.text(t);
                        let b = self.out.text.len();
                        self.out.spans.insert(Place2::Text(path.clone()), a..b);
                        prev_text = true;
                    }
                    Node::Elem(c) => {
                        if !prev_text && self.fancy() {
                            self.comment_or_pi();
                        }
                        self.element(c, path);
                        prev_text = false;
                    }
                }
                path.pop();
            }
            if !prev_text && self.fancy() {
                if self.r.bool() {
                    self.comment_or_pi();
                } else {
                    self.raw("<![CDATA[]]>");
                }
            }
            let a = self.out.text.len();
            self.raw("</");
            self.raw(&tag);
            if self.fancy() {
                self.raw(" ");
            }
            self.raw(">");
            let b = self.out.text.len();
            self.out.spans.insert(Place2::End(path.clone()), a..b);
            self.out.empty.insert(path.clone(), false);
        }
        self.scopes.truncate(depth);
    }
}

/// Pure whitespace between elements may be added or removed without changing what matches, except next to other text
pub fn can_indent(e: &Elem) -> bool {
    e.children.iter().any(|c| matches!(c, Node::Elem(_))) && e.children.iter().all(|c| !matches!(c, Node::Text(t) if !all_ws(t)))
}
