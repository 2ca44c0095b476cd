//! Is a text a document, and which one? An independent reader of XML 1.0 (5th edition) with namespaces, without
//! external entities. It tells where the text stops being well-formed, and abstains on the rarer parts of the DTD.
use crate::doc::*;
use crate::rncgram::{name_char, name_start};
use crate::xml::XML_NS;
use std::collections::HashMap;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    pub at: Range<usize>,
    pub what: &'static str,
}
#[derive(Clone, Debug)]
pub enum Scan {
    Ok(Elem),
    /// What's wrong in the first construct in which something is
    Bad(Vec<Bad>),
    Undecided(&'static str),
}

enum Stop {
    Bad(Vec<Bad>),
    Undecided(&'static str),
}
type R<T> = Result<T, Stop>;

fn bad<T>(at: Range<usize>, what: &'static str) -> R<T> {
    Err(Stop::Bad(vec![Bad { at, what }]))
}
fn undecided<T>(why: &'static str) -> R<T> {
    Err(Stop::Undecided(why))
}

pub fn is_char(c: char) -> bool {
    matches!(c as u32, 9 | 10 | 13 | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// Why something isn't a reference that can be resolved
enum RefErr {
    Malformed,
    Undefined,
    Recursive,
    LessThan,
    Undecided(&'static str),
}

pub const XMLNS: &str = "http://www.w3.org/2000/xmlns/";

struct S<'a> {
    t: &'a str,
    i: usize,
    entities: HashMap<&'a str, &'a str>,
    /// there may be entities that aren't declared here
    foreign_entities: bool,
}

/// Line ends
fn eol(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

impl<'a> S<'a> {
    fn rest(&self) -> &'a str {
        &self.t[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn at(&self, s: &str) -> bool {
        self.rest().starts_with(s)
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().find(|c| !is_ws(c)).unwrap_or(self.rest().len());
        self.i += n;
        n > 0
    }
    /// up to and including the character at which we are
    fn here(&self) -> usize {
        self.i + self.peek().map_or(0, |c| c.len_utf8())
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.at(s);
        if r {
            self.i += s.len()
        }
        r
    }
    /// Name (with colons)
    fn name(&mut self) -> Option<&'a str> {
        let r = self.rest();
        if !r.starts_with(|c| name_start(c) || c == ':') {
            return None;
        }
        let n = r.find(|c| !(name_char(c) || c == ':')).unwrap_or(r.len());
        self.i += n;
        Some(&r[..n])
    }
    /// What goes from here to a terminator, consisting of characters that are allowed
    fn upto(&mut self, from: usize, end: &str) -> R<&'a str> {
        let r = self.rest();
        match r.find(end) {
            None => bad(from..self.t.len(), "not terminated"),
            Some(n) => {
                if r[..n].chars().any(|c| !is_char(c)) {
                    return bad(from..self.i + n, "a character that's not allowed");
                }
                self.i += n + end.len();
                Ok(&r[..n])
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        let from = self.i;
        self.i += 4;
        let r = self.rest();
        if let Some(n) = r.find("--") {
            if !r[n..].starts_with("-->") {
                // (it's noticed when the comment ends)
                let end = r[n..].find("-->").map_or(self.t.len(), |k| self.i + n + k + 3);
                return bad(from..end, "-- in a comment");
            }
        }
        self.upto(from, "-->")?;
        Ok(())
    }
    fn pi(&mut self) -> R<()> {
        let from = self.i;
        self.i += 2;
        let Some(target) = self.name() else { return bad(from..self.here(), "target of a PI") };
        if target.eq_ignore_ascii_case("xml") {
            return bad(from..self.here(), "reserved target");
        }
        if target.contains(':') {
            return bad(from..self.here(), "target with a colon");
        }
        if !self.at("?>") && self.peek().is_some_and(|c| !is_ws(c)) {
            // (or an error further on)
            let end = self.rest().find("?>").map_or(self.t.len(), |n| self.i + n + 2);
            return bad(from..end, "no space after a target");
        }
        self.upto(from, "?>")?;
        Ok(())
    }
    fn literal(&mut self, from: usize) -> R<&'a str> {
        match self.peek() {
            Some(q @ ('"' | '\'')) => {
                self.i += 1;
                let r = self.rest();
                match r.find(q) {
                    None => bad(from..self.t.len(), "not terminated"),
                    Some(n) => {
                        self.i += n + 1;
                        Ok(&r[..n])
                    }
                }
            }
            _ => bad(from..self.here(), "no literal"),
        }
    }
    fn eq(&mut self, from: usize) -> R<()> {
        self.ws();
        if !self.eat("=") {
            return bad(from..self.here(), "no =");
        }
        self.ws();
        Ok(())
    }
    fn decl(&mut self) -> R<()> {
        let r = self.decl2();
        if self.t.starts_with("<?xml ") || self.t.starts_with("\u{FEFF}<?xml ") {
            return r;
        }
        // taken for a processing instruction
        match r {
            Ok(()) => Ok(()),
            _ => undecided("declaration with other whitespace"),
        }
    }
    fn decl2(&mut self) -> R<()> {
        let from = self.i;
        self.i += 5;
        let far = |s: &S| from..s.t[s.i..].find('>').map_or(s.t.len(), |n| s.i + n + 1);
        self.ws();
        if !self.eat("version") {
            return bad(far(self), "no version");
        }
        let all = far(self);
        self.eq(from).map_err(|_| Stop::Bad(vec![Bad { at: all.clone(), what: "no =" }]))?;
        let v = self.literal(from)?;
        if !v.starts_with("1.") || !v[2..].bytes().all(|b| b.is_ascii_digit()) {
            return bad(from..self.i.max(all.end), "version");
        }
        if v == "1." {
            return bad(from..self.i.max(all.end), "version");
        }
        let mut sp = self.ws();
        if self.at("encoding") {
            if !sp {
                return bad(all, "no space");
            }
            self.i += 8;
            self.eq(from).map_err(|_| Stop::Bad(vec![Bad { at: all.clone(), what: "no =" }]))?;
            let e = self.literal(from)?;
            if !e.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'_' | b'-')) {
                return bad(from..self.i.max(all.end), "encoding");
            }
            if !e.starts_with(|c: char| c.is_ascii_alphabetic()) {
                return bad(from..self.i.max(far(self).end), "encoding");
            }
            sp = self.ws();
        }
        if self.at("standalone") {
            if !sp {
                return bad(all, "no space");
            }
            self.i += 10;
            self.eq(from).map_err(|_| Stop::Bad(vec![Bad { at: all.clone(), what: "no =" }]))?;
            let e = self.literal(from)?;
            if e != "yes" && e != "no" {
                return bad(from..self.i.max(all.end), "standalone");
            }
            self.ws();
        }
        if !self.eat("?>") {
            return bad(from..self.i.max(far(self).end), "declaration");
        }
        Ok(())
    }
    fn doctype(&mut self) -> R<()> {
        let from = self.i;
        self.i += "<!DOCTYPE".len();
        if !self.ws() {
            return bad(from..self.here(), "no space");
        }
        let Some(name) = self.name() else { return bad(from..self.here(), "no name of the document type") };
        if name.starts_with(':') || name.ends_with(':') || name.matches(':').count() > 1 {
            return undecided("colons in the name of the document type");
        }
        let sp = self.ws();
        if self.at("SYSTEM") || self.at("PUBLIC") {
            if !sp {
                return undecided("no space before SYSTEM");
            }
            let public = self.at("PUBLIC");
            self.i += 6;
            for k in 0..1 + public as usize {
                if !self.ws() {
                    return bad(from..self.here(), "no space");
                }
                let l = self.literal(from)?;
                if l.chars().any(|c| !is_char(c)) || (public && k == 0 && l.contains(|c: char| !(c.is_ascii_alphanumeric() || " -()+,./:=?;!*#@$_%'\n\r".contains(c)))) {
                    return undecided("external identifier");
                }
            }
            self.foreign_entities = true;
            self.ws();
        }
        if self.eat(">") {
            return Ok(());
        }
        if !self.eat("[") {
            return bad(from..self.here(), "doctype");
        }
        loop {
            self.ws();
            let from = self.i;
            if self.at("<!--") {
                self.comment()?
            } else if self.at("<?") {
                self.pi()?
            } else if self.at("<!ENTITY") {
                self.entity()?
            } else if self.at("<!ELEMENT") || self.at("<!ATTLIST") || self.at("<!NOTATION") || self.at("%") {
                return undecided("other declarations");
            } else if self.eat("]") {
                self.ws();
                if self.eat(">") {
                    return Ok(());
                }
                return bad(from..self.here(), "end of the doctype");
            } else {
                return bad(from..self.here(), "something else in the doctype");
            }
        }
    }
    fn entity(&mut self) -> R<()> {
        let from = self.i;
        self.i += "<!ENTITY".len();
        if !self.ws() {
            return bad(from..self.here(), "no space");
        }
        let parameter = self.eat("%");
        if parameter && !self.ws() {
            return bad(from..self.here(), "no space");
        }
        let Some(name) = self.name() else { return bad(from..self.here(), "no name of an entity") };
        if name.contains(':') {
            let end = self.rest().find('>').map_or(self.t.len(), |n| self.i + n + 1);
            return bad(from..end, "colon in the name of an entity");
        }
        if !self.ws() {
            return bad(from..self.here(), "no space");
        }
        if self.at("S") || self.at("P") {
            return undecided("external entity");
        }
        let value = self.literal(from)?;
        if value.contains('%') || value.chars().any(|c| !is_char(c)) {
            self.ws();
            return bad(from..self.here(), "value of an entity");
        }
        self.ws();
        if !self.eat(">") {
            return bad(from..self.here(), "end of an entity declaration");
        }
        if parameter {
            // of no use to this document: there are no references to them here
            if literal_text(value).is_err() {
                return undecided("malformed reference in a parameter entity");
            }
            return Ok(());
        }
        if matches!(name, "lt" | "gt" | "amp" | "quot" | "apos") {
            return undecided("predefined entity declared");
        }
        if literal_text(value).is_err() {
            return bad(from..self.i, "malformed reference in the value of an entity");
        }
        self.entities.entry(name).or_insert(value);
        Ok(())
    }
    /// The value of some text with references
    fn expand(&self, text: &str, attr: bool, depth: &mut Vec<String>, out: &mut String) -> Result<(), (Range<usize>, RefErr)> {
        let mut i = 0;
        while i < text.len() {
            let c = text[i..].chars().next().unwrap();
            if c != '&' {
                if c == '<' && !depth.is_empty() {
                    return Err((i..i + 1, if attr { RefErr::LessThan } else { RefErr::Undecided("markup in an entity") }));
                }
                // line ends are those of the text itself, but not of references
                if c == '\r' && depth.is_empty() {
                    if !text[i + 1..].starts_with('\n') {
                        out.push(if attr { ' ' } else { '\n' });
                    }
                } else {
                    out.push(if attr && is_ws(c) { ' ' } else { c });
                }
                i += c.len_utf8();
                continue;
            }
            let end = text[i..].find(';').map_or(text.len(), |n| i + n + 1);
            let r = &text[i..end];
            match reference(r) {
                None => return Err((i..end, RefErr::Malformed)),
                Some(Ref::Char(c)) => out.push(c),
                Some(Ref::Entity(n)) => match n {
                    "lt" => out.push('<'),
                    "gt" => out.push('>'),
                    "amp" => out.push('&'),
                    "quot" => out.push('"'),
                    "apos" => out.push('\''),
                    n => {
                        let Some(v) = self.entities.get(n) else {
                            return Err((i..end, if n.contains(':') { RefErr::Undecided("colon in a reference") } else { RefErr::Undefined }));
                        };
                        if depth.iter().any(|d| d == n) {
                            return Err((i..end, RefErr::Recursive));
                        }
                        depth.push(n.to_string());
                        let Ok(v) = literal_text(&eol(v)) else { return Err((i..end, RefErr::Malformed)) };
                        if v.contains("]]>") {
                            return Err((i..end, RefErr::Undecided("]]> in an entity")));
                        }
                        self.expand(&v, attr, depth, out).map_err(|(_, e)| (i..end, e))?;
                        depth.pop();
                    }
                },
            }
            i = end;
        }
        Ok(())
    }
    /// Text or a value of an attribute, at some place
    fn value(&self, at: usize, text: &str, attr: bool) -> Result<String, Stop> {
        let mut out = String::new();
        match self.expand(text, attr, &mut vec![], &mut out) {
            Ok(()) => Ok(out),
            Err((r, e)) => {
                let at = at + r.start..at + r.end;
                let what = match e {
                    RefErr::Malformed => "malformed reference",
                    RefErr::Undefined if self.foreign_entities => return Err(Stop::Undecided("entities of the external subset")),
                    RefErr::Undefined => "undefined entity",
                    RefErr::Recursive => "recursive entity",
                    RefErr::LessThan => "< in an attribute by an entity",
                    RefErr::Undecided(u) => return Err(Stop::Undecided(u)),
                };
                Err(Stop::Bad(vec![Bad { at, what }]))
            }
        }
    }
    fn misc(&mut self) -> R<bool> {
        if self.at("<!--") {
            self.comment()?;
            Ok(true)
        } else if self.at("<?") {
            self.pi()?;
            Ok(true)
        } else {
            Ok(self.ws())
        }
    }
    fn document(&mut self) -> R<Elem> {
        self.eat("\u{FEFF}");
        if self.at("<?xml") && self.rest()[5..].starts_with(is_ws) {
            self.decl()?;
        }
        while self.misc()? {}
        if self.at("<!DOCTYPE") {
            self.doctype()?;
            while self.misc()? {}
        }
        let n = self.t.len();
        if self.i == n {
            return bad(n..n, "no root element");
        }
        if self.at("</") {
            return bad(self.i..self.i + 2, "end-tag before the root element");
        }
        if !self.at("<") || self.at("<!") {
            return bad(self.i..self.here(), "something else before the root element");
        }
        let e = self.elements()?;
        while self.misc()? {}
        if self.i < n {
            // all of a tag would do
            let end = if self.at("<") { self.rest().find('>').map_or(n, |k| self.i + k + 1) } else { self.here() };
            return bad(self.i..end, "something after the root element");
        }
        Ok(e)
    }
    fn elements(&mut self) -> R<Elem> {
        let mut scopes: Vec<HashMap<String, String>> = vec![[("xml".to_string(), XML_NS.to_string())].into()];
        let mut open: Vec<(Elem, &str)> = vec![];
        loop {
            let n = self.t.len();
            let mut done = None;
            if self.i == n {
                return bad(n..n, "end of the text");
            } else if self.at("<!--") {
                self.comment()?
            } else if self.at("<?") {
                self.pi()?
            } else if self.at("<![CDATA[") {
                let from = self.i;
                self.i += 9;
                let s = self.upto(from, "]]>")?;
                open.last_mut().unwrap().0.children.push(Node::Text(eol(s)));
            } else if self.at("<!") {
                return bad(self.i..self.here(), "other markup");
            } else if self.at("</") {
                let from = self.i;
                self.i += 2;
                let Some(name) = self.name() else { return bad(from..self.here(), "no name of an end-tag") };
                let end = self.i;
                self.ws();
                if !self.eat(">") {
                    return bad(from..self.here().max(end), "end-tag");
                }
                let (e, q) = open.pop().unwrap();
                if q != name {
                    return bad(from..self.i, "other end-tag");
                }
                scopes.pop();
                done = Some(e);
            } else if self.at("<") {
                let (e, q, empty, scope) = self.start(&scopes)?;
                if empty {
                    done = Some(e)
                } else {
                    open.push((e, q));
                    scopes.push(scope);
                }
            } else {
                let from = self.i;
                let r = self.rest();
                let k = r.find('<').unwrap_or(r.len());
                let s = &r[..k];
                self.i += k;
                let mut all = vec![];
                if s.contains("]]>") || s.chars().any(|c| !is_char(c)) {
                    all.push(Bad { at: from..self.i, what: "]]>, or a character that's not allowed" });
                }
                match self.value(from, s, false) {
                    Ok(v) => open.last_mut().unwrap().0.children.push(Node::Text(v)),
                    Err(Stop::Bad(b)) => all.extend(b),
                    Err(u) => return Err(u),
                }
                if !all.is_empty() {
                    return Err(Stop::Bad(all));
                }
            }
            if let Some(e) = done {
                match open.last_mut() {
                    None => {
                        let mut e = e;
                        e.normalize();
                        return Ok(e);
                    }
                    Some((p, _)) => p.children.push(Node::Elem(e)),
                }
            }
        }
    }
    #[allow(clippy::type_complexity)]
    fn start(&mut self, scopes: &[HashMap<String, String>]) -> R<(Elem, &'a str, bool, HashMap<String, String>)> {
        let from = self.i;
        self.i += 1;
        let Some(q) = self.name() else { return bad(from..self.here(), "no name of a start-tag") };
        let name_at = from..self.i;
        let mut all: Vec<Bad> = vec![];
        let mut fail = |at: Range<usize>, what| all.push(Bad { at, what });
        if q.starts_with(':') {
            return bad(from..self.i, "leading colon");
        }
        if q.ends_with(':') || q.matches(':').count() > 1 || q.split(':').any(|n| !n.starts_with(name_start)) {
            return bad(from..self.i, "colons");
        }
        let mut atts: Vec<(&str, String, Range<usize>)> = vec![];
        let mut syntax = None;
        let mut stop = None;
        let empty = loop {
            let from = self.i;
            let sp = self.ws();
            if self.eat(">") {
                break false;
            }
            if self.eat("/>") {
                break true;
            }
            if self.at("/") || self.i == self.t.len() {
                self.i = (self.i + 1).min(self.t.len());
                syntax = Some((from..self.here(), "end of a start-tag"));
                break true;
            }
            let at = self.i;
            let Some(n) = self.name() else {
                syntax = Some((from..self.here(), "no name of an attribute"));
                break true;
            };
            if !sp {
                syntax = Some((from..self.here(), "no space before an attribute"));
                break true;
            }
            if n.starts_with(':') {
                syntax = Some((from..self.t.len(), "leading colon"));
                break true;
            }
            if n.ends_with(':') || n.matches(':').count() > 1 || n.split(':').any(|n| !n.starts_with(name_start)) {
                syntax = Some((from..self.here(), "colons"));
                break true;
            }
            self.ws();
            if !self.eat("=") {
                syntax = Some((from..self.here(), "no ="));
                break true;
            }
            self.ws();
            let start = self.i + 1;
            let v = match self.peek() {
                Some(q @ ('"' | '\'')) => {
                    self.i += 1;
                    let r = self.rest();
                    match r.find(|c| c == q || c == '<' || !is_char(c)) {
                        Some(n) if r[n..].starts_with(q) => {
                            self.i += n + 1;
                            &r[..n]
                        }
                        n => {
                            self.i = n.map_or(self.t.len(), |n| self.i + n);
                            syntax = Some((from..self.here(), "value of an attribute"));
                            break true;
                        }
                    }
                }
                _ => {
                    syntax = Some((from..self.here(), "no value"));
                    break true;
                }
            };
            let end = self.i;
            let v = match self.value(start, v, true) {
                Ok(v) => v,
                Err(Stop::Bad(b)) => {
                    b.into_iter().for_each(|b| fail(b.at, b.what));
                    // (so that the text of it doesn't matter)
                    "?".to_string()
                }
                Err(u) => {
                    stop = Some(u);
                    break true;
                }
            };
            if atts.iter().any(|(m, ..)| *m == n) {
                fail(at..end, "attribute repeated");
            }
            atts.push((n, v, at..end));
        };
        if let Some(u) = stop {
            return Err(u);
        }
        let mut scope = scopes.last().unwrap().clone();
        for (n, v, at) in &atts {
            if *n == "xmlns" {
                if v == XML_NS || v == XMLNS {
                    fail(at.clone(), "reserved namespace");
                }
                scope.insert("".into(), v.clone());
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                let ok = match p {
                    "xml" => v == XML_NS,
                    "xmlns" => false,
                    _ => v != XML_NS && v != XMLNS && !v.is_empty(),
                };
                if !ok {
                    fail(at.clone(), "declaration that isn't allowed");
                }
                scope.insert(p.into(), v.clone());
            }
        }
        let split = |n: &str| -> (Option<String>, String) {
            match n.split_once(':') {
                Some((p, l)) => (Some(p.to_string()), l.to_string()),
                None => (None, n.to_string()),
            }
        };
        let (p, local) = split(q);
        let ns = match &p {
            None => scope.get("").cloned().unwrap_or_default(),
            Some(p) => scope.get(p).cloned().unwrap_or_else(|| {
                fail(name_at.clone(), "prefix not declared");
                String::new()
            }),
        };
        let mut e = Elem { ns, local, atts: vec![], children: vec![] };
        for (n, v, at) in &atts {
            if *n == "xmlns" || n.starts_with("xmlns:") {
                continue;
            }
            let (p, local) = split(n);
            let ns = match &p {
                None => String::new(),
                Some(p) => match scope.get(p) {
                    Some(u) => u.clone(),
                    None => {
                        fail(at.clone(), "prefix not declared");
                        continue;
                    }
                },
            };
            if e.atts.iter().any(|a| a.ns == ns && a.local == local) {
                fail(at.clone(), "attribute repeated");
            }
            e.atts.push(Att { ns, local, value: v.clone() });
        }
        if let Some((at, what)) = syntax {
            fail(at, what);
        }
        if !all.is_empty() {
            return Err(Stop::Bad(all));
        }
        Ok((e, q, empty, scope))
    }
}

enum Ref<'a> {
    Char(char),
    Entity(&'a str),
}
/// `&...;`
fn reference(r: &str) -> Option<Ref<'_>> {
    let s = r.strip_prefix('&')?.strip_suffix(';')?;
    if let Some(d) = s.strip_prefix('#') {
        let (d, radix) = match d.strip_prefix('x') {
            Some(h) => (h, 16),
            None => (d, 10),
        };
        if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) {
            return None;
        }
        let mut n: u32 = 0;
        for c in d.chars() {
            n = n.checked_mul(radix)?.checked_add(c.to_digit(radix).unwrap())?;
        }
        return char::from_u32(n).filter(|c| is_char(*c)).map(Ref::Char);
    }
    if !s.starts_with(|c| name_start(c) || c == ':') || s.contains(|c| !(name_char(c) || c == ':')) {
        return None;
    }
    Some(Ref::Entity(s))
}
/// The replacement text of an entity: character references are expanded, others have to be well-formed
fn literal_text(v: &str) -> Result<String, ()> {
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        let c = v[i..].chars().next().unwrap();
        if c != '&' {
            out.push(c);
            i += c.len_utf8();
            continue;
        }
        let end = v[i..].find(';').map_or(v.len(), |n| i + n + 1);
        match reference(&v[i..end]) {
            None => return Err(()),
            Some(Ref::Char(c)) => out.push(c),
            Some(Ref::Entity(_)) => out.push_str(&v[i..end]),
        }
        i = end;
    }
    Ok(out)
}
pub fn scan(t: &str) -> Scan {
    let mut s = S { t, i: 0, entities: HashMap::new(), foreign_entities: false };
    match s.document() {
        Ok(e) => Scan::Ok(e),
        Err(Stop::Bad(b)) => Scan::Bad(b),
        Err(Stop::Undecided(u)) => Scan::Undecided(u),
    }
}
