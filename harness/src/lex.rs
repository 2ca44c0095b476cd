//! Splitting the text of a well-formed document (as printed by xml.rs) into its pieces
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Decl,
    Doctype,
    Comment,
    Pi,
    Cdata,
    Start,
    Empty,
    End,
    Text,
}
#[derive(Clone, Debug)]
pub struct Attr {
    pub name: Range<usize>,
    /// without quotes
    pub value: Range<usize>,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub at: Range<usize>,
    /// of tags
    pub name: Range<usize>,
    pub attrs: Vec<Attr>,
    /// of the tag that belongs to this one
    pub mate: usize,
    /// how many elements are open around this
    pub depth: usize,
}

pub fn lex(t: &str) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    let mut open: Vec<usize> = vec![];
    let mut i = 0;
    let find = |from: usize, what: &str| from + t[from..].find(what).expect("well-formed") + what.len();
    while i < t.len() {
        let rest = &t[i..];
        let mut name = i..i;
        let mut attrs = vec![];
        let (k, end) = if rest.starts_with("<!--") {
            (K::Comment, find(i + 4, "-->"))
        } else if rest.starts_with("<![CDATA[") {
            (K::Cdata, find(i + 9, "]]>"))
        } else if rest.starts_with("<?") {
            let e = find(i, "?>");
            (if i == 0 && rest.starts_with("<?xml") && !rest[5..].starts_with(|c: char| c.is_alphanumeric() || c == '-') { K::Decl } else { K::Pi }, e)
        } else if rest.starts_with("<!DOCTYPE") {
            (K::Doctype, doctype(t, i))
        } else if rest.starts_with("</") {
            let e = find(i, ">");
            let n = t[i + 2..e - 1].trim_end().len();
            name = i + 2..i + 2 + n;
            (K::End, e)
        } else if rest.starts_with('<') {
            let b = t.as_bytes();
            let mut j = i + 1;
            while !matches!(b[j], b' ' | b'\t' | b'\n' | b'\r' | b'/' | b'>') {
                j += 1;
            }
            name = i + 1..j;
            loop {
                while matches!(b[j], b' ' | b'\t' | b'\n' | b'\r') {
                    j += 1;
                }
                if b[j] == b'>' {
                    break;
                }
                if b[j] == b'/' {
                    j += 1;
                    break;
                }
                let s = j;
                while !matches!(b[j], b' ' | b'\t' | b'\n' | b'\r' | b'=') {
                    j += 1;
                }
                let n = s..j;
                while b[j] != b'"' && b[j] != b'\'' {
                    j += 1;
                }
                let q = b[j];
                let v = j + 1;
                j += 1;
                while b[j] != q {
                    j += 1;
                }
                attrs.push(Attr { name: n, value: v..j });
                j += 1;
            }
            (if b[j - 1] == b'/' { K::Empty } else { K::Start }, j + 1)
        } else {
            (K::Text, i + rest.find('<').unwrap_or(rest.len()))
        };
        let n = out.len();
        let mut mate = n;
        if k == K::End {
            mate = open.pop().expect("well-formed");
            out[mate].mate = n;
        }
        out.push(Tok { k, at: i..end, name, attrs, mate, depth: open.len() });
        if k == K::Start {
            open.push(n);
        }
        i = end;
    }
    assert!(open.is_empty());
    out
}

/// The end of a document type declaration
fn doctype(t: &str, i: usize) -> usize {
    let b = t.as_bytes();
    let mut j = i + 2;
    let mut inside = false;
    loop {
        match b[j] {
            b'"' | b'\'' => {
                let q = b[j];
                j += 1;
                while b[j] != q {
                    j += 1
                }
            }
            b'<' if t[j..].starts_with("<!--") => j = j + 4 + t[j + 4..].find("-->").unwrap() + 2,
            b'<' if t[j..].starts_with("<?") => j = j + t[j..].find("?>").unwrap() + 1,
            b'[' => inside = true,
            b']' => inside = false,
            b'>' if !inside => return j + 1,
            _ => {}
        }
        j += 1;
    }
}
