//! Printing schemas in the compact syntax, in many ways
use crate::ast::*;
use crate::rng::Rng;
use crate::xml::XML_NS;
use std::collections::BTreeMap;

pub const KEYWORDS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list",
    "mixed", "namespace", "notAllowed", "parent", "start", "string", "text", "token",
];

#[derive(Clone, Debug, Default)]
pub struct Env {
    /// the namespace that unprefixed names of elements have, unless declared otherwise
    pub inherited: String,
    /// the namespace to be passed on to referenced files
    pub pass: BTreeMap<String, String>,
    /// whether the file has to be a grammar without `grammar { }` around it
    pub bare: bool,
}

struct P<'a> {
    r: &'a mut Rng,
    fancy: usize,
    annot: usize,
    toks: Vec<String>,
    dflt: String,
    prefixes: Vec<(String, String)>,
    xsd: Vec<String>,
    pass: BTreeMap<String, String>,
}

pub fn print(top: &Top, env: &Env, fancy: usize, r: &mut Rng) -> String {
    print_annot(top, env, fancy, fancy / 2, r)
}

pub fn print_annot(top: &Top, env: &Env, fancy: usize, annot: usize, r: &mut Rng) -> String {
    let mut p = P {
        r,
        fancy,
        annot,
        toks: vec![],
        dflt: env.inherited.clone(),
        prefixes: vec![],
        xsd: vec!["xsd".into()],
        pass: env.pass.clone(),
    };
    p.file(top, env);
    let toks = std::mem::take(&mut p.toks);
    p.join(&toks)
}

fn collect_ns(p: &Pat, out: &mut Vec<String>) {
    p.visit(&mut |q| match q {
        Pat::Elem(nc, _) | Pat::Attr(nc, _) => {
            let mut v = vec![];
            nc.namespaces(&mut v);
            out.extend(v.into_iter().map(String::from));
        }
        Pat::Grammar(g) => collect_ns_items(&g.items, out),
        _ => {}
    })
}
fn collect_ns_items(items: &[Item], out: &mut Vec<String>) {
    for i in items {
        match i {
            Item::Start(_, p) | Item::Def(_, _, p) => collect_ns(p, out),
            Item::Div(v) | Item::Include(_, v) => collect_ns_items(v, out),
        }
    }
}

const PREFIX_POOL: &[&str] = &["a", "b", "p", "element", "list", "ns1", "é", "x.y", "start", "string", "inherit", "default", "_", "text-x", "datatypes"];

impl P<'_> {
    fn f(&mut self) -> bool {
        let f = self.fancy;
        f > 0 && self.r.chance(f, 100)
    }
    fn t(&mut self, s: &str) {
        self.toks.push(s.to_string())
    }

    fn join(&mut self, toks: &[String]) -> String {
        let mut out = String::new();
        let word = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | ':' | '\u{B7}') || c as u32 >= 0x300;
        if self.f() {
            self.gap(&mut out, false);
        }
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let prev = toks[i - 1].chars().last().unwrap_or(' ');
                let next = t.chars().next().unwrap_or(' ');
                let need = (word(prev) && word(next))
                    || (prev == '\n')
                    // operators that could be taken to be another one
                    || (prev == '|' && next == '=')
                    || (prev == '&' && next == '=')
                    || (matches!(prev, '"' | '\'') && prev == next)
                    || (prev == ':' || next == ':' && prev != ' ')
                    || prev == '>' || next == '>';
                if self.fancy == 0 {
                    out.push(' ');
                } else if self.f() || need {
                    self.gap(&mut out, need);
                } else if self.r.bool() {
                    out.push(' ');
                }
            }
            if t.starts_with("##") && !out.is_empty() && !out.ends_with('\n') {
                out.push('\n');
            }
            out.push_str(t);
        }
        if self.f() {
            self.gap(&mut out, false);
        }
        out.push('\n');
        out
    }

    fn gap(&mut self, out: &mut String, need: bool) {
        let n = self.r.range(need as usize, 2);
        for _ in 0..n {
            let g = match self.r.below(8) {
                0 => "\n",
                1 => "\t",
                2 => "  ",
                3 => "\n\n",
                4 => " # comment { } \" ' = é\n",
                5 => "#\n",
                6 => "\r\n",
                _ => " ",
            };
            out.push_str(g);
        }
        if need && n == 0 {
            out.push(' ')
        }
    }

    fn file(&mut self, top: &Top, env: &Env) {
        let mut nss = vec![];
        match top {
            Top::Pat(p) => collect_ns(p, &mut nss),
            Top::Gram(g) => collect_ns_items(&g.items, &mut nss),
        }
        nss.extend(env.pass.values().cloned());
        nss.sort();
        nss.dedup();
        nss.retain(|n| n != XML_NS);
        let mut decls: Vec<Vec<String>> = vec![];
        let mut used: Vec<String> = vec!["xml".into(), "xmlns".into()];
        // the default namespace
        let cand: Vec<String> = nss.clone();
        let declare_default = !cand.is_empty() && (self.r.chance(1, 2) || (self.fancy == 0 && cand.iter().any(|n| !n.is_empty())));
        if declare_default {
            let u = self.r.pick(&cand).clone();
            self.dflt = u.clone();
            let mut d: Vec<String> = vec!["default".into(), "namespace".into()];
            if self.f() || self.r.chance(1, 4) {
                let p = self.prefix(&mut used);
                d.push(p.clone());
                self.prefixes.push((p, u.clone()));
            }
            d.push("=".into());
            if u == env.inherited && self.f() {
                d.push("inherit".into());
            } else {
                d.extend(self.literal(&u));
            }
            decls.push(d);
        }
        for n in &nss {
            if *n == XML_NS {
                continue;
            }
            // (whether it's needed isn't known yet, so all are declared, some twice)
            let times = if self.f() { 2 } else { 1 };
            for _ in 0..times {
                let p = self.prefix(&mut used);
                self.prefixes.push((p.clone(), n.clone()));
                let mut d: Vec<String> = vec!["namespace".into(), p, "=".into()];
                if *n == env.inherited && self.f() {
                    d.push("inherit".into());
                } else {
                    d.extend(self.literal(n));
                }
                decls.push(d);
            }
        }
        if self.annot > 0 {
            decls.push(vec!["namespace".into(), "ann".into(), "=".into(), "\"urn:annotations\"".into()]);
        }
        if self.f() {
            let p = if self.r.bool() { "xs".to_string() } else { "element".to_string() };
            self.xsd.push(p.clone());
            let mut d: Vec<String> = vec!["datatypes".into(), p, "=".into()];
            d.extend(self.literal("http://www.w3.org/2001/XMLSchema-datatypes"));
            decls.push(d);
        }
        if self.f() {
            decls.push(vec!["datatypes".into(), "xsd".into(), "=".into(), "\"http://www.w3.org/2001/XMLSchema-datatypes\"".into()]);
        }
        if self.f() {
            decls.push(vec!["namespace".into(), "xml".into(), "=".into(), format!("\"{XML_NS}\"")]);
        }
        if self.fancy > 0 {
            self.r.shuffle(&mut decls);
        }
        for d in decls {
            self.toks.extend(d);
            self.t("\n");
        }
        match top {
            Top::Pat(p) => self.pat(p, true),
            Top::Gram(g) => {
                if env.bare || !self.f() {
                    self.items(&g.items);
                } else {
                    self.ann();
                    self.t("grammar");
                    self.t("{");
                    self.items(&g.items);
                    self.t("}");
                }
            }
        }
        self.toks.retain(|t| !(self.fancy > 0 && t == "\n"));
    }

    fn prefix(&mut self, used: &mut Vec<String>) -> String {
        let mut k = 0;
        loop {
            let p = if self.f() { self.r.pick(PREFIX_POOL).to_string() } else { format!("n{k}") };
            k += 1;
            if !used.contains(&p) {
                used.push(p.clone());
                return p;
            }
        }
    }

    fn seg(&mut self, s: &str) -> Option<String> {
        let mut v: Vec<String> = vec![];
        if !s.contains(['\n', '\r']) {
            if !s.contains('"') {
                v.push(format!("\"{s}\""));
            }
            if !s.contains('\'') && (self.fancy > 0 || v.is_empty()) {
                v.push(format!("'{s}'"));
            }
        }
        if self.fancy > 0 || v.is_empty() {
            if !s.contains("\"\"\"") && !s.ends_with('"') {
                v.push(format!("\"\"\"{s}\"\"\""));
            }
            if !s.contains("'''") && !s.ends_with('\'') {
                v.push(format!("'''{s}'''"));
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }

    fn literal(&mut self, s: &str) -> Vec<String> {
        let n = s.chars().count();
        let whole = self.seg(s);
        let split = n > 1 && self.f() && self.r.bool();
        match whole {
            Some(w) if !split => {
                if n == 0 && self.f() && self.r.bool() {
                    return vec![w, "~".into(), "''".into()];
                }
                vec![w]
            }
            _ => {
                let at = self.r.range(1, n - 1);
                let i = s.char_indices().nth(at).unwrap().0;
                let mut v = self.literal(&s[..i]);
                v.push("~".into());
                v.extend(self.literal(&s[i..]));
                v
            }
        }
    }
    fn lit(&mut self, s: &str) {
        let l = self.literal(s);
        self.toks.extend(l);
    }

    fn ident(&mut self, n: &str) -> String {
        if KEYWORDS.contains(&n) || (self.f() && self.r.bool()) {
            format!("\\{n}")
        } else {
            n.to_string()
        }
    }
    /// identifierOrKeyword
    fn ident_kw(&mut self, n: &str) -> String {
        if self.f() && self.r.bool() {
            format!("\\{n}")
        } else {
            n.to_string()
        }
    }

    fn a(&mut self) -> bool {
        let a = self.annot;
        a > 0 && self.r.chance(a, 100)
    }
    fn ann_elem(&mut self, d: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![self.r.pick(&["ann:x", "ann:element", "ann:doc"]).to_string(), "[".into()];
        for _ in 0..self.r.below(3) {
            v.push(self.r.pick(&["ann:k", "k", "element"]).to_string());
            v.push("=".into());
            v.push("\"v\"".into());
        }
        for _ in 0..self.r.below(3) {
            if d > 0 && self.r.bool() {
                v.extend(self.ann_elem(d - 1));
            } else {
                v.push(self.r.pick(&["\"text\"", "'it'", "\"\"\"a\nb\"\"\""]).to_string());
                break;
            }
        }
        v.push("]".into());
        v
    }
    /// documentation and initial annotations
    fn ann(&mut self) {
        if !self.a() {
            return;
        }
        if self.r.chance(1, 3) {
            self.t("## some documentation { } [ \"\n");
            if self.r.bool() {
                self.t("## more\n");
            }
        }
        if self.r.chance(2, 3) {
            self.t("[");
            if self.r.bool() {
                self.t("ann:k");
                self.t("=");
                self.t("\"v ] { }\"");
            }
            if self.r.bool() {
                let v = self.ann_elem(1);
                self.toks.extend(v);
            }
            self.t("]");
        }
    }
    fn follow(&mut self) {
        if self.a() && self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 2) {
                self.t(">>");
                let v = self.ann_elem(1);
                self.toks.extend(v);
            }
        }
    }

    fn items(&mut self, items: &[Item]) {
        for i in items {
            if self.a() && self.r.chance(1, 3) {
                let v = self.ann_elem(1);
                self.toks.extend(v);
            }
            self.ann();
            match i {
                Item::Start(a, p) => {
                    self.t("start");
                    self.assign(*a);
                    self.pat(p, true);
                }
                Item::Def(n, a, p) => {
                    let n = self.ident(n);
                    self.t(&n);
                    self.assign(*a);
                    self.pat(p, true);
                }
                Item::Div(v) => {
                    self.t("div");
                    self.t("{");
                    self.items(v);
                    self.t("}");
                }
                Item::Include(h, v) => {
                    self.t("include");
                    self.lit(h);
                    self.inherit(h);
                    if !v.is_empty() || self.f() {
                        self.t("{");
                        self.items(v);
                        self.t("}");
                    }
                }
            }
            self.t("\n");
        }
    }

    fn inherit(&mut self, h: &str) {
        let Some(want) = self.pass.get(h).cloned() else { return };
        if want != self.dflt || self.f() {
            let v: Vec<String> = self.prefixes.iter().filter(|p| p.1 == want).map(|p| p.0.clone()).collect();
            if v.is_empty() {
                assert!(want == self.dflt, "no prefix to inherit {want:?}");
                return;
            }
            let p = self.r.pick(&v).clone();
            self.t("inherit");
            self.t("=");
            self.t(&p);
        }
    }

    fn assign(&mut self, a: Assign) {
        self.t(match a {
            Assign::Eq => "=",
            Assign::Choice => "|=",
            Assign::Inter => "&=",
        })
    }

    fn prefix_of(&mut self, ns: &str) -> String {
        let mut v: Vec<String> = self.prefixes.iter().filter(|p| p.1 == ns).map(|p| p.0.clone()).collect();
        if ns == XML_NS {
            v.push("xml".into());
        }
        assert!(!v.is_empty(), "no prefix for {ns:?}");
        self.r.pick(&v).clone()
    }

    fn nc(&mut self, nc: &NC, attr: bool, nested: bool) {
        let paren = self.f() && self.r.bool();
        if paren {
            self.t("(");
        }
        // without parentheses, they would be those of the first operand
        if !matches!(nc, NC::Choice(_)) || (nested && !paren) {
            self.ann();
        }
        match nc {
            NC::Name(ns, l) => {
                let plain = if attr { ns.is_empty() } else { *ns == self.dflt };
                let has_prefix = ns == XML_NS || self.prefixes.iter().any(|p| p.1 == *ns);
                if plain && (!has_prefix || !self.f()) {
                    let l = self.ident_kw(l);
                    self.t(&l);
                } else {
                    let p = self.prefix_of(ns);
                    self.t(&format!("{p}:{l}"));
                }
                self.follow();
            }
            NC::NsName(ns, ex) => {
                let p = self.prefix_of(ns);
                let ex_paren = ex.is_some() && nested && !paren;
                if ex_paren {
                    self.t("(");
                }
                self.t(&format!("{p}:*"));
                self.except_nc(ex, attr);
                if ex_paren {
                    self.t(")");
                }
            }
            NC::AnyName(ex) => {
                let ex_paren = ex.is_some() && nested && !paren;
                if ex_paren {
                    self.t("(");
                }
                self.t("*");
                self.except_nc(ex, attr);
                if ex_paren {
                    self.t(")");
                }
            }
            NC::Choice(v) => {
                let p = nested && !paren;
                if p {
                    self.t("(");
                }
                for (i, c) in v.iter().enumerate() {
                    if i > 0 {
                        self.t("|");
                    }
                    self.nc(c, attr, true);
                }
                if p {
                    self.t(")");
                }
            }
        }
        if paren {
            self.t(")");
        }
    }
    fn except_nc(&mut self, ex: &Option<Box<NC>>, attr: bool) {
        if let Some(e) = ex {
            self.t("-");
            self.nc(e, attr, true);
        }
    }

    fn dt(&mut self, d: &DT) {
        if d.xsd {
            let p = self.r.pick(&self.xsd).clone();
            self.t(&format!("{p}:{}", d.name));
        } else {
            self.t(&d.name.clone());
        }
    }

    /// `top`: no parentheses needed around operators
    fn pat(&mut self, p: &Pat, top: bool) {
        match p {
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) if v.len() == 1 => return self.pat(&v[0], top),
            _ => {}
        }
        let extra = self.f() && self.r.bool();
        if extra {
            self.ann();
            self.t("(");
        }
        let top = top || extra;
        match p {
            Pat::Choice(v) | Pat::Group(v) | Pat::Inter(v) => {
                let op = match p {
                    Pat::Choice(_) => "|",
                    Pat::Group(_) => ",",
                    _ => "&",
                };
                if !top {
                    self.ann();
                    self.t("(");
                }
                for (i, q) in v.iter().enumerate() {
                    if i > 0 {
                        self.t(op);
                    }
                    self.pat(q, false);
                }
                if !top {
                    self.t(")");
                }
            }
            Pat::Opt(q) | Pat::Star(q) | Pat::Plus(q) => {
                let op = match p {
                    Pat::Opt(_) => "?",
                    Pat::Star(_) => "*",
                    _ => "+",
                };
                let paren = matches!(**q, Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_) | Pat::Data(_, _, Some(_)));
                if paren {
                    self.t("(");
                }
                self.pat(q, paren);
                if paren {
                    self.t(")");
                }
                self.t(op);
                self.follow();
            }
            _ => {
                self.ann();
                self.primary(p);
                if !matches!(p, Pat::Data(_, _, Some(_))) {
                    self.follow();
                }
            }
        }
        if extra {
            self.t(")");
        }
    }

    fn primary(&mut self, p: &Pat) {
        match p {
            Pat::Empty => self.t("empty"),
            Pat::NotAllowed => self.t("notAllowed"),
            Pat::Text => self.t("text"),
            Pat::Mixed(q) | Pat::List(q) => {
                self.t(if matches!(p, Pat::Mixed(_)) { "mixed" } else { "list" });
                self.t("{");
                self.pat(q, true);
                self.t("}");
            }
            Pat::Elem(nc, q) | Pat::Attr(nc, q) => {
                let attr = matches!(p, Pat::Attr(..));
                self.t(if attr { "attribute" } else { "element" });
                self.nc(nc, attr, false);
                self.t("{");
                self.pat(q, true);
                self.t("}");
            }
            Pat::Data(d, ps, ex) => {
                self.dt(d);
                if !ps.is_empty() || (d.xsd && self.f() && self.r.bool()) {
                    self.t("{");
                    for (k, v) in ps {
                        self.ann();
                        let k = self.ident_kw(k);
                        self.t(&k);
                        self.t("=");
                        self.lit(v);
                    }
                    self.t("}");
                }
                if let Some(e) = ex {
                    self.t("-");
                    let plain = matches!(**e, Pat::Value(..) | Pat::Data(_, _, None)) && self.r.bool();
                    if !plain {
                        self.t("(");
                    }
                    self.pat(e, !plain);
                    if !plain {
                        self.t(")");
                    }
                }
            }
            Pat::Value(d, v) => {
                if d.xsd || d.name != "token" || self.f() {
                    self.dt(d);
                }
                self.lit(v);
            }
            Pat::Ref(n) => {
                let n = self.ident(n);
                self.t(&n);
            }
            Pat::Parent(n) => {
                self.t("parent");
                let n = self.ident(n);
                self.t(&n);
            }
            Pat::External(h) => {
                self.t("external");
                self.lit(h);
                self.inherit(h);
            }
            Pat::Grammar(g) => {
                self.t("grammar");
                self.t("{");
                self.items(&g.items);
                self.t("}");
            }
            _ => unreachable!(),
        }
    }
}
