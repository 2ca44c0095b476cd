//! A recogniser of the XML syntax, written from the schema for it (RELAX NG, appendix A) and section 4.16
use crate::dt;
use crate::print_rng::RNG;
use crate::rncgram::Verdict;
use roxmltree::{Document, Node};

const PATTERNS: &[&str] = &[
    "element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef", "empty", "text", "value", "data",
    "notAllowed", "externalRef", "grammar",
];
const NAMES: &[&str] = &["name", "anyName", "nsName", "choice"];

pub fn recognise(text: &str) -> Verdict {
    let Ok(doc) = Document::parse(text) else { return Verdict::No };
    let mut c = C { undecided: false };
    let root = doc.root_element();
    let ok = is_rng(root) && PATTERNS.contains(&root.tag_name().name()) && c.pattern(root);
    match (ok, c.undecided) {
        (true, false) => Verdict::Yes,
        (_, true) => Verdict::Undecided,
        (false, false) => Verdict::No,
    }
}

struct C {
    undecided: bool,
}

fn is_rng(n: Node) -> bool {
    n.is_element() && n.tag_name().namespace() == Some(RNG)
}

fn att<'a>(n: &Node<'a, '_>, name: &str) -> Option<&'a str> {
    n.attributes().find(|x| x.namespace().is_none() && x.name() == name).map(|x| x.value())
}

#[derive(Clone, Copy, PartialEq)]
enum In {
    Nothing,
    AnyName,
    NsName,
}

impl C {
    /// Attributes, and that there's no text (but in elements for text); the children
    fn common<'a, 'i>(&mut self, n: Node<'a, 'i>, own: &[&str]) -> Option<Vec<Node<'a, 'i>>> {
        for a in n.attributes() {
            match a.namespace() {
                Some(RNG) => return None,
                Some(_) => continue,
                None => {}
            }
            let v = a.value();
            match a.name() {
                "ns" => {}
                "datatypeLibrary" => match v {
                    "" | "http://www.w3.org/2001/XMLSchema-datatypes" => {}
                    _ if v.contains('#') || !v.contains(':') && !v.contains(|c: char| c.is_whitespace()) => return None,
                    _ if v.starts_with("http://") && v.len() > 7 && !v[7..].contains([':', '/']) && v.chars().all(|c| c.is_ascii_alphanumeric() || "/.-:".contains(c)) => {}
                    _ => self.undecided = true,
                },
                x if !own.contains(&x) => return None,
                "combine" => {
                    if !matches!(dt::collapse(v).as_str(), "choice" | "interleave") {
                        return None;
                    }
                }
                "type" => self.ncname(v)?,
                "name" if matches!(n.tag_name().name(), "element" | "attribute") => self.qname(n, v)?,
                "name" => self.ncname(v)?,
                _ => {}
            }
        }
        let textual = matches!(n.tag_name().name(), "name" | "value" | "param");
        let mut v = vec![];
        for c in n.children() {
            if c.is_text() && !textual && !dt::all_ws(c.text().unwrap()) {
                return None;
            }
            if c.is_element() && textual {
                return None;
            }
            if is_rng(c) {
                v.push(c)
            }
        }
        Some(v)
    }
    fn ncname(&mut self, v: &str) -> Option<()> {
        // (of the fifth edition of XML 1.0, as for the compact syntax)
        let v = dt::collapse(v);
        let mut c = v.chars();
        (c.next().is_some_and(crate::rncgram::name_start) && c.all(crate::rncgram::name_char)).then_some(())
    }
    fn qname(&mut self, n: Node, v: &str) -> Option<()> {
        match dt::collapse(v).split_once(':') {
            Some((p, l)) => {
                self.ncname(p)?;
                self.ncname(l)?;
                // ("ncname" collapses)
                if p.contains(' ') || l.contains(' ') || p.is_empty() || l.is_empty() {
                    return None;
                }
                (p == "xml" || n.namespaces().any(|x| x.name() == Some(p))).then_some(())
            }
            None => self.ncname(v),
        }
    }
    fn patterns(&mut self, v: &[Node]) -> Option<()> {
        if v.is_empty() {
            return None;
        }
        v.iter().all(|p| self.pattern(*p)).then_some(())
    }
    fn pattern(&mut self, n: Node) -> bool {
        self.pattern_(n).is_some()
    }
    fn pattern_(&mut self, n: Node) -> Option<()> {
        let name = n.tag_name().name();
        if !PATTERNS.contains(&name) {
            return None;
        }
        let has = |a: &str| att(&n, a).is_some();
        match name {
            "element" | "attribute" => {
                let v = self.common(n, &["name"])?;
                let rest = if has("name") {
                    if name == "attribute" && att(&n, "name").is_some_and(|v| v.contains("xmlns")) {
                        self.undecided = true;
                    }
                    &v[..]
                } else {
                    self.name_class(*v.first()?, In::Nothing)?;
                    &v[1..]
                };
                if name == "element" {
                    return self.patterns(rest);
                }
                if n.ancestors().any(|a| a.is_element() && att(&a, "ns") == Some("http://www.w3.org/2000/xmlns")) {
                    self.undecided = true;
                }
                (rest.len() <= 1 && rest.iter().all(|p| self.pattern(*p))).then_some(())
            }
            "ref" | "parentRef" => (self.common(n, &["name"])?.is_empty() && has("name")).then_some(()),
            "empty" | "text" | "notAllowed" => self.common(n, &[])?.is_empty().then_some(()),
            "externalRef" => (self.common(n, &["href"])?.is_empty() && has("href")).then_some(()),
            "value" => self.common(n, &["type"]).map(|_| ()),
            "data" => {
                let v = self.common(n, &["type"])?;
                if !has("type") {
                    return None;
                }
                let k = v.iter().take_while(|c| c.tag_name().name() == "param").count();
                for p in &v[..k] {
                    self.common(*p, &["name"])?;
                    if att(p, "name").is_none() {
                        return None;
                    }
                }
                match &v[k..] {
                    [] => Some(()),
                    [e] if e.tag_name().name() == "except" => {
                        let v = self.common(*e, &[])?;
                        self.patterns(&v)
                    }
                    _ => None,
                }
            }
            "grammar" => {
                let v = self.common(n, &[])?;
                self.content(&v, false)
            }
            _ => {
                let v = self.common(n, &[])?;
                self.patterns(&v)
            }
        }
    }
    fn content(&mut self, v: &[Node], included: bool) -> Option<()> {
        for n in v {
            match n.tag_name().name() {
                "start" => {
                    let v = self.common(*n, &["combine"])?;
                    if v.len() != 1 {
                        return None;
                    }
                    self.patterns(&v)?
                }
                "define" => {
                    let v = self.common(*n, &["combine", "name"])?;
                    att(n, "name")?;
                    self.patterns(&v)?
                }
                "div" => {
                    let v = self.common(*n, &[])?;
                    self.content(&v, included)?
                }
                "include" if !included => {
                    let v = self.common(*n, &["href"])?;
                    att(n, "href")?;
                    self.content(&v, true)?
                }
                _ => return None,
            }
        }
        Some(())
    }
    fn name_class(&mut self, n: Node, within: In) -> Option<()> {
        match n.tag_name().name() {
            "name" => {
                self.common(n, &[])?;
                let t: String = n.children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
                self.qname(n, &t)
            }
            x @ ("anyName" | "nsName") => {
                if x == "anyName" && within != In::Nothing || within == In::NsName {
                    return None;
                }
                let v = self.common(n, &[])?;
                match &v[..] {
                    [] => Some(()),
                    [e] if e.tag_name().name() == "except" => {
                        let v = self.common(*e, &[])?;
                        self.name_classes(&v, if x == "anyName" && within == In::Nothing { In::AnyName } else { In::NsName })
                    }
                    _ => None,
                }
            }
            "choice" => {
                let v = self.common(n, &[])?;
                self.name_classes(&v, within)
            }
            _ => None,
        }
    }
    fn name_classes(&mut self, v: &[Node], within: In) -> Option<()> {
        if v.is_empty() {
            return None;
        }
        v.iter().all(|n| NAMES.contains(&n.tag_name().name()) && self.name_class(*n, within).is_some()).then_some(())
    }
}
