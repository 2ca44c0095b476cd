//! A recogniser of the compact syntax, written from its grammar (RELAX NG Compact Syntax, section 2)

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Ident(String),
    /// with a backslash
    Quoted,
    Keyword(&'static str),
    CName,
    NsName,
    Literal,
    Sym(&'static str),
    Doc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Yes,
    No,
    Undecided,
}

pub const KEYWORDS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent",
    "start", "string", "text", "token",
];
const SYMS: &[&str] = &["|=", "&=", ">>", "=", "{", "}", "(", ")", "[", "]", "+", "*", "?", "|", "&", ",", "-", "~"];

/// As in XML 1.0, fifth edition, without the colon
pub fn name_start(c: char) -> bool {
    matches!(c as u32,
        0x41..=0x5A | 0x5F | 0x61..=0x7A
        | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D | 0x37F..=0x1FFF | 0x200C..=0x200D
        | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
pub fn name_char(c: char) -> bool {
    name_start(c) || matches!(c as u32, 0x2D | 0x2E | 0x30..=0x39 | 0xB7 | 0x300..=0x36F | 0x203F..=0x2040)
}
/// The characters at either side of every bound between these
pub fn odd_chars() -> Vec<char> {
    let class = |k: u32| char::from_u32(k).map(|c| (name_start(c), name_char(c)));
    let mut v = vec![];
    for k in 0x7F..0x110000u32 {
        if class(k) != class(k - 1) {
            v.extend(char::from_u32(k - 1));
            v.extend(char::from_u32(k));
        }
    }
    v
}

/// The tokens with their text; Err(true): it's not known what to make of it, Err(false): there's something that's no token
pub fn tokens(t: &str) -> Result<Vec<(T, &str)>, bool> {
    let mut out = vec![];
    let mut rest = t;
    let name = |s: &str| -> Option<usize> {
        if !s.starts_with(name_start) {
            return None;
        }
        Some(s.find(|c| !name_char(c)).unwrap_or(s.len()))
    };
    while let Some(c) = rest.chars().next() {
        if matches!(c, ' ' | '\t' | '\n' | '\r') {
            rest = &rest[1..];
            continue;
        }
        let (tok, n) = if c == '#' {
            let n = rest.find(['\n', '\r']).unwrap_or(rest.len());
            if rest.starts_with("##") {
                (T::Doc, n)
            } else {
                rest = &rest[n..];
                continue;
            }
        } else if c == '"' || c == '\'' {
            let triple = if c == '"' { "\"\"\"" } else { "'''" };
            if rest.starts_with(triple) {
                match rest[3..].find(triple) {
                    Some(k) => (T::Literal, k + 6),
                    // (the longest token then is an empty literal)
                    None => (T::Literal, 2),
                }
            } else {
                match rest[1..].find([c, '\n', '\r']) {
                    Some(k) if rest[1 + k..].starts_with(c) => (T::Literal, k + 2),
                    _ => return Err(false),
                }
            }
        } else if c == '\\' {
            if rest[1..].starts_with("x{") {
                return Err(true);
            }
            match name(&rest[1..]) {
                Some(n) => (T::Quoted, n + 1),
                None => return Err(false),
            }
        } else if let Some(n) = name(rest) {
            if rest[n..].starts_with(":*") {
                (T::NsName, n + 2)
            } else if let Some(m) = rest[n..].strip_prefix(':').and_then(name) {
                (T::CName, n + 1 + m)
            } else {
                match KEYWORDS.iter().find(|k| **k == &rest[..n]) {
                    Some(k) => (T::Keyword(k), n),
                    None => (T::Ident(rest[..n].to_string()), n),
                }
            }
        } else {
            match SYMS.iter().find(|s| rest.starts_with(**s)) {
                Some(s) => (T::Sym(s), s.len()),
                None => return Err(c.is_control()),
            }
        };
        if rest[n..].starts_with(|c: char| !c.is_ascii() && !c.is_alphabetic()) {
            return Err(true);
        }
        // escapes
        if rest[..n].contains("\\x") {
            return Err(true);
        }
        if tok == T::Doc && matches!(out.last(), Some((T::Doc, _))) {
        } else {
            out.push((tok, &rest[..n]));
        }
        rest = &rest[n..];
    }
    Ok(out)
}

/// the exception of
#[derive(Clone, Copy, PartialEq)]
enum Within {
    Nothing,
    AnyName,
    NsName,
}

struct P<'a> {
    t: &'a [(T, &'a str)],
    i: usize,
    undecided: bool,
}

type R = Option<()>;

pub fn recognise(text: &str) -> Verdict {
    if text.starts_with('\u{FEFF}') {
        return Verdict::Undecided;
    }
    let t = match tokens(text) {
        Ok(t) => t,
        Err(true) => return Verdict::Undecided,
        Err(false) => return Verdict::No,
    };
    let mut p = P { t: &t, i: 0, undecided: false };
    let r = p.top();
    let all = p.i == t.len();
    match (r, p.undecided) {
        (_, true) => Verdict::Undecided,
        (Some(()), _) if all => Verdict::Yes,
        _ => {
            // documentation may be where it isn't allowed
            if t.iter().any(|x| x.0 == T::Doc) {
                let t: Vec<_> = t.iter().filter(|x| x.0 != T::Doc).cloned().collect();
                let mut p = P { t: &t, i: 0, undecided: false };
                let r = p.top();
                if p.undecided || r.is_some() && p.i == t.len() {
                    return Verdict::Undecided;
                }
            }
            Verdict::No
        }
    }
}

impl P<'_> {
    fn peek(&self) -> Option<&T> {
        self.at(0)
    }
    fn at(&self, k: usize) -> Option<&T> {
        self.t.get(self.i + k).map(|x| &x.0)
    }
    fn is(&self, s: &'static str) -> bool {
        self.peek() == Some(&T::Sym(s))
    }
    fn kw(&self, s: &'static str) -> bool {
        self.peek() == Some(&T::Keyword(s))
    }
    fn next(&mut self) {
        self.i += 1
    }
    fn sym(&mut self, s: &'static str) -> R {
        self.is(s).then(|| self.next())
    }
    fn ident_or_keyword(&mut self) -> R {
        matches!(self.peek()?, T::Ident(_) | T::Quoted | T::Keyword(_)).then(|| self.next())
    }
    fn ident(&mut self) -> R {
        matches!(self.peek()?, T::Ident(_) | T::Quoted).then(|| self.next())
    }
    fn literal(&mut self) -> R {
        loop {
            if self.peek()? != &T::Literal {
                return None;
            }
            self.next();
            if !self.is("~") {
                return Some(());
            }
            self.next();
        }
    }
    fn assign(&mut self) -> R {
        (self.is("=") || self.is("|=") || self.is("&=")).then(|| self.next())
    }
    fn top(&mut self) -> R {
        loop {
            if self.kw("namespace") {
                self.next();
                self.ident_or_keyword()?;
                self.sym("=")?;
                self.uri_or_inherit()?;
            } else if self.kw("default") {
                self.next();
                if !self.kw("namespace") {
                    return None;
                }
                self.next();
                if !self.is("=") {
                    self.ident_or_keyword()?;
                }
                self.sym("=")?;
                self.uri_or_inherit()?;
            } else if self.kw("datatypes") {
                self.next();
                self.ident_or_keyword()?;
                self.sym("=")?;
                self.literal()?;
            } else {
                break;
            }
        }
        let from = self.i;
        let und = self.undecided;
        // after any annotations
        let grammar = match self.annotations() {
            None => true,
            Some(()) => match self.peek() {
                None => true,
                Some(T::Keyword("start" | "div" | "include")) => true,
                Some(T::Ident(_) | T::Quoted) => matches!(self.at(1), Some(T::Sym("=" | "|=" | "&=" | "["))),
                Some(T::CName) => self.at(1) == Some(&T::Sym("[")),
                _ => false,
            },
        };
        self.i = from;
        self.undecided = und;
        if grammar {
            self.grammar_content(false)
        } else {
            self.pattern()
        }
    }
    fn uri_or_inherit(&mut self) -> R {
        if self.kw("inherit") {
            self.next();
            return Some(());
        }
        self.literal()
    }
    /// until something that's no component
    fn grammar_content(&mut self, in_include: bool) -> R {
        loop {
            let from = self.i;
            // an element of annotation
            if matches!(self.peek(), Some(T::Ident(_) | T::Quoted | T::CName)) && self.at(1) == Some(&T::Sym("[")) {
                if self.peek() == Some(&T::Quoted) {
                    self.undecided = true
                }
                self.annotation_element()?;
                continue;
            }
            self.annotations()?;
            let annotated = self.i > from;
            match self.peek() {
                Some(T::Keyword("start")) => {
                    self.next();
                    self.assign()?;
                    self.pattern()?;
                }
                Some(T::Ident(_) | T::Quoted | T::CName) if annotated && self.at(1) == Some(&T::Sym("[")) => {
                    self.undecided = true;
                    self.annotation_element()?;
                }
                Some(T::Ident(_) | T::Quoted) => {
                    self.next();
                    self.assign()?;
                    self.pattern()?;
                }
                Some(T::Keyword("div")) => {
                    self.next();
                    self.sym("{")?;
                    self.grammar_content(in_include)?;
                    self.sym("}")?;
                }
                Some(T::Keyword("include")) if !in_include => {
                    self.next();
                    self.literal()?;
                    self.inherit()?;
                    if self.is("{") {
                        self.next();
                        self.grammar_content(true)?;
                        self.sym("}")?;
                    }
                }
                _ if annotated => {
                    // (it's ignored at the end)
                    if self.t[from..self.i].iter().all(|x| x.0 == T::Doc) {
                        self.undecided = true;
                        return Some(());
                    }
                    return None;
                }
                _ => return Some(()),
            }
        }
    }
    fn inherit(&mut self) -> R {
        if self.kw("inherit") {
            self.next();
            self.sym("=")?;
            self.ident_or_keyword()?;
        }
        Some(())
    }
    fn pattern(&mut self) -> R {
        let mut op: Option<T> = None;
        let mut excepts = false;
        loop {
            excepts |= self.particle()?;
            match self.peek() {
                Some(o @ T::Sym("|" | "," | "&")) => {
                    if op.as_ref().is_some_and(|x| x != o) {
                        return None;
                    }
                    op = Some(o.clone());
                    self.next();
                }
                _ => break,
            }
        }
        if excepts && op.is_some() {
            self.undecided = true;
        }
        Some(())
    }
    /// whether it's data with an exception
    fn particle(&mut self) -> Option<bool> {
        self.annotations()?;
        let data = if self.is("(") {
            self.next();
            self.pattern()?;
            self.sym(")")?;
            false
        } else {
            self.primary()?
        };
        let mut except = false;
        if data && self.is("-") {
            except = true;
            self.next();
            self.annotations()?;
            if self.is("(") {
                self.next();
                self.pattern()?;
                self.sym(")")?;
            } else if self.primary()? && self.is("-") {
                self.undecided = true;
            }
        }
        self.follow()?;
        let mut ops = 0;
        while self.is("*") || self.is("+") || self.is("?") {
            ops += 1;
            self.next();
            self.follow()?;
        }
        if ops > 1 || except && ops > 0 {
            self.undecided = true;
        }
        Some(except)
    }
    /// whether it may have an exception
    fn primary(&mut self) -> Option<bool> {
        let t = self.peek()?.clone();
        match t {
            T::Keyword("element" | "attribute") => {
                self.next();
                self.name_class(Within::Nothing)?;
                self.braced()?;
            }
            T::Keyword("mixed" | "list") => {
                self.next();
                self.braced()?;
            }
            T::Keyword("empty" | "text" | "notAllowed") => self.next(),
            T::Keyword("parent") => {
                self.next();
                self.ident()?;
            }
            T::Keyword("grammar") => {
                self.next();
                self.sym("{")?;
                self.grammar_content(false)?;
                self.sym("}")?;
            }
            T::Keyword("external") => {
                self.next();
                self.literal()?;
                self.inherit()?;
            }
            T::Keyword("string" | "token") | T::CName => {
                self.next();
                if self.peek() == Some(&T::Literal) {
                    self.literal()?;
                    return Some(false);
                }
                if self.is("{") {
                    self.next();
                    loop {
                        let from = self.i;
                        self.annotations()?;
                        if self.is("}") {
                            if self.i > from {
                                self.undecided = true;
                            }
                            break;
                        }
                        self.ident_or_keyword()?;
                        self.sym("=")?;
                        self.literal()?;
                    }
                    self.sym("}")?;
                }
                return Some(true);
            }
            T::Literal => self.literal()?,
            T::Ident(_) | T::Quoted => self.next(),
            _ => return None,
        }
        Some(false)
    }
    fn braced(&mut self) -> R {
        self.sym("{")?;
        self.pattern()?;
        self.sym("}")
    }
    fn name_class(&mut self, within: Within) -> R {
        let mut excepts = false;
        let mut n = 0;
        loop {
            n += 1;
            self.annotations()?;
            let any = self.is("*");
            let wild = self.simple_name_class(within)?;
            if wild && self.is("-") {
                excepts = true;
                self.next();
                self.annotations()?;
                let inner = if any && within == Within::Nothing { Within::AnyName } else { Within::NsName };
                if self.simple_name_class(inner)? && self.is("-") {
                    self.undecided = true;
                }
            }
            self.follow()?;
            if !self.is("|") {
                break;
            }
            self.next();
        }
        if excepts && n > 1 {
            self.undecided = true;
        }
        Some(())
    }
    /// whether it's a wildcard
    fn simple_name_class(&mut self, within: Within) -> Option<bool> {
        match self.peek()? {
            T::Ident(_) | T::Quoted | T::Keyword(_) | T::CName => {
                self.next();
                Some(false)
            }
            x @ (T::NsName | T::Sym("*")) => {
                // section 4.16
                if within == Within::NsName || within == Within::AnyName && *x == T::Sym("*") {
                    return None;
                }
                self.next();
                Some(true)
            }
            T::Sym("(") => {
                self.next();
                self.name_class(within)?;
                self.sym(")")?;
                Some(false)
            }
            _ => None,
        }
    }
    fn annotations(&mut self) -> R {
        if self.peek() == Some(&T::Doc) {
            self.next();
        }
        if self.is("[") {
            self.next();
            while matches!(self.peek(), Some(T::Ident(_) | T::Quoted | T::Keyword(_) | T::CName)) && self.at(1) == Some(&T::Sym("=")) {
                if self.peek() != Some(&T::CName) {
                    self.undecided = true;
                }
                self.next();
                self.next();
                self.literal()?;
            }
            while !self.is("]") {
                self.annotation_element()?;
            }
            self.next();
            if self.peek() == Some(&T::Doc) {
                self.undecided = true;
                self.next();
            }
        }
        Some(())
    }
    fn annotation_element(&mut self) -> R {
        if !matches!(self.peek()?, T::Ident(_) | T::Quoted | T::Keyword(_) | T::CName) {
            return None;
        }
        self.next();
        self.sym("[")?;
        while matches!(self.peek(), Some(T::Ident(_) | T::Quoted | T::Keyword(_) | T::CName)) && self.at(1) == Some(&T::Sym("=")) {
            self.next();
            self.next();
            self.literal()?;
        }
        loop {
            match self.peek()? {
                T::Sym("]") => {
                    self.next();
                    return Some(());
                }
                T::Literal => self.literal()?,
                _ => self.annotation_element()?,
            }
        }
    }
    fn follow(&mut self) -> R {
        while self.is(">>") {
            self.next();
            self.annotation_element()?;
        }
        Some(())
    }
}
