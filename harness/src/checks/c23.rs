//! C23: documents are told from other texts, and a defect is located
use super::c06::{any_schema, inject};
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use crate::rncgram;
use crate::run;
use crate::scale;
use crate::wf::{scan, Scan};
use crate::xml;

pub static CHECK: Check = Check {
    id: "C23",
    case,
    quick: 160_000,
    thorough: 2_000_000,
    resources: false,
    rule: "Texts: documents serialised at random, with up to three random edits of characters, markup, references and tags, or the faults of C06. An independent reader of XML decides whether the text is a namespace-well-formed document, which one, and in which construct it stops being one. With a schema that allows everything, the validator has to accept exactly the well-formed ones, and to locate its first error in that construct; with a random schema, it has to judge the document that was read as the reference matcher does. Distinct (schema, text) pairs that were judged.",
    assumptions: &["the reader of XML (wf.rs) follows XML 1.0 5th edition and Namespaces 1.0; it abstains on most declarations of the DTD"],
    min: &[("large schemas or documents", 200), ("well-formed", 10_000), ("not well-formed", 20_000), ("well-formed, matches", 2000), ("well-formed, doesn't match", 2000)],
    once: None,
};

const BITS: &[&str] = &[
    "<", ">", "/>", "</", "&", ";", "&#", "&#x", "\"", "'", "=", " ", "\n", "\t", "\r", "\r\n", "<!--", "-->", "--", "-", "]]>", "<![CDATA[", "]]", "]", "[", "<?", "?>", "?", "!", "<!", "/", ":", "a", "b", "xmlns", "xmlns:", "xmlns=\"\"",
    " xmlns=\"u\"", " xmlns:p=\"u\"", " xmlns:a='u'", " a=\"\"", " a=''", " p:a=\"1\"", " xml:a='x'", "<a/>", "<a>", "</a>", "<b/>", "<p:b/>", "<b></b>", "&lt;", "&amp;", "&gt;", "&#65;", "&#x41;", "&#10;", "&#13;", "&e0;", "&e1;", "&a;", "<!DOCTYPE a>", "<!DOCTYPE a []>", "<?xml version=\"1.0\"?>",
    "<?a?>", "<?a b?>", "<!-- x -->", "<!---->", "<![CDATA[]]>", "<![CDATA[x]]>", "\u{FEFF}", "é", "𝒳", "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{fffe}", "\u{a0}", "\u{2028}", "1", ".", "·", "xml", "xml:", "&#0;", "&#xD800;", "&#x1F;", "&quot;", "&apos;", "<!ENTITY e0 'x'>", "<!ENTITY e1 \"&#38;e0;\">", "%", "encoding='a'", " standalone='yes'",
];

/// Random edits; more of them where something is going on
fn edit(t: &str, r: &mut Rng) -> String {
    if r.chance(1, 60) {
        return super::c06::late_declaration(t, r);
    }
    let mut c: Vec<char> = t.chars().collect();
    static ODD: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    let odd = ODD.get_or_init(rncgram::odd_chars);
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = c.len();
        // somewhere, rather near markup
        let mut at = r.below(n + 1);
        if r.bool() {
            for _ in 0..20 {
                if at < n && matches!(c[at], '<' | '>' | '&' | ';' | '"' | '\'' | '=' | '/' | '!' | '?' | ':' | ']' | '[') {
                    break;
                }
                at = (at + 1) % (n + 1);
            }
            if at < n && r.bool() {
                at += 1
            }
        }
        match r.below(9) {
            0 if at < n => {
                c.remove(at);
            }
            1 => {
                let k = 1 + r.below(6);
                let to = (at + k).min(n);
                c.drain(at..to);
            }
            2 | 3 | 4 => {
                let s = if r.chance(1, 12) { r.pick(odd).to_string() } else { r.pick(BITS).to_string() };
                let s = if r.chance(1, 40) { s.repeat(scale::size(r, 400)) } else { s };
                let mut tail = c.split_off(at);
                c.extend(s.chars());
                if r.chance(1, 4) && !tail.is_empty() {
                    tail.remove(0);
                }
                c.extend(tail);
            }
            5 if n > 2 => {
                // a piece, once more somewhere else
                let from = r.below(n);
                let to = (from + 1 + r.below(12)).min(n);
                let s: Vec<char> = c[from..to].to_vec();
                let tail = c.split_off(at);
                c.extend(s);
                c.extend(tail);
            }
            6 if n > 2 => {
                let b = r.below(n);
                let a = at.min(n - 1);
                c.swap(a, b);
            }
            7 if n > 2 => {
                // what's between two like characters goes, or is doubled
                let a = at.min(n - 1);
                if let Some(k) = c[a + 1..].iter().position(|x| *x == c[a]) {
                    let s: Vec<char> = c[a..a + 1 + k].to_vec();
                    if r.bool() {
                        c.drain(a..a + 1 + k);
                    } else {
                        let tail = c.split_off(a);
                        c.extend(s);
                        c.extend(tail);
                    }
                }
            }
            _ if r.chance(1, 3) => c.truncate(at),
            _ => {}
        }
    }
    c.into_iter().collect()
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let any = load_flat(any_schema(), false, 0, &mut r)?;
    let (s, docs, size) = match large(ctx, &mut r, 60, scale::Kind::Any, 0)? {
        Some((s, docs)) => (s, docs, 2000),
        None => {
            let cfg = broad(&mut r);
            let flat = gen::schema(&mut r, &cfg);
            let s = load_flat(flat, r.bool(), 0, &mut r)?;
            let budget = *r.pick(&[2, 6, 15]);
            let docs = documents(&s.ir, &mut r, 2, 1, budget);
            (s, docs, 200)
        }
    };
    let mut o = Oracle::new(&s.ir);
    for d in &docs {
        let p = xml::print(d, &xml::Style::random(&mut r), &mut r);
        for k in 0..8 {
            let t = if k == 0 {
                p.text.clone()
            } else if r.chance(1, 4) {
                let Some((_, t)) = inject(&p.text, &mut r) else { continue };
                t
            } else {
                edit(&p.text, &mut r)
            };
            let what = scan(&t);
            let fail = |what: String| Err(Fail(format!("{what}\n{}--- document\n{t}\n", s.text())));
            match what {
                Scan::Undecided(u) => {
                    ctx.count("undecided");
                    ctx.count(&format!("undecided: {u}"));
                    if k == 0 && u != "other declarations" {
                        panic!("undecided ({u}) about a document of our own: {t}");
                    }
                }
                Scan::Ok(e) => {
                    if k == 0 {
                        let mut d = d.clone();
                        d.normalize();
                        if !same(&d, &e) {
                            panic!("the document was read as\n{e:?} rather than\n{d:?}\n{t}");
                        }
                    }
                    ctx.eval();
                    ctx.distinct(&["any", &t]);
                    ctx.count("well-formed");
                    let got = validate(&any, &t)?;
                    if !got.valid() {
                        return fail(format!("a well-formed document is rejected, although the schema (of everything) allows it: {:?}", got.error));
                    }
                    if e.count() < size {
                        let v = match o.judge(ctx, &e) {
                            Judged::Known(v) => v,
                            Judged::Unknown => continue,
                            Judged::Disagree(m) => panic!("{m}\n{}\n{d:?}", s.text()),
                        };
                        ctx.eval();
                        ctx.distinct(&[&s.text(), &t]);
                        ctx.count(if v.error.is_none() { "well-formed, matches" } else { "well-formed, doesn't match" });
                        let got = validate(&s, &t)?;
                        if got.valid() != v.error.is_none() {
                            return fail(format!("the document is {} but should be {}", word(got.valid()), word(v.error.is_none())));
                        }
                    }
                }
                Scan::Bad(b) => {
                    ctx.eval();
                    ctx.distinct(&["any", &t]);
                    ctx.count("not well-formed");
                    for b in &b {
                        ctx.count(&format!("defect: {}", b.what));
                    }
                    let got = guarded(|| run::first_diagnostic(&any.model, &t)).or_else(|p| fail(format!("validating: {p}")).map(|()| None))?;
                    let Some((kind, diag)) = got else { return fail(format!("a text that's not well-formed is accepted: {b:?}")) };
                    let places: Vec<(usize, usize)> = diag.iter().flat_map(|d| d.spans.iter().map(|s| (s.0, s.1))).collect();
                    if places.is_empty() || places.iter().any(|(x, y)| !b.iter().any(|b| *x >= b.at.start && *y <= b.at.end)) {
                        return fail(format!("the defect is {b:?}, but the error ({kind:?}, {:?}) is located at {places:?}", diag.first().map(|d| &d.message)));
                    }
                    if validate(&s, &t)?.valid() {
                        return fail(format!("a text that's not well-formed is accepted by the other schema: {b:?}"));
                    }
                    ctx.sample(|| format!("--- text (defect: {b:?}, error at {places:?})\n{t}"));
                }
            }
        }
    }
    Ok(())
}

/// (but for the order of attributes)
fn same(a: &crate::doc::Elem, b: &crate::doc::Elem) -> bool {
    use crate::doc::*;
    let atts = |e: &Elem| {
        let mut v: Vec<_> = e.atts.iter().map(|a| (a.ns.clone(), a.local.clone(), a.value.clone())).collect();
        v.sort();
        v
    };
    a.ns == b.ns
        && a.local == b.local
        && atts(a) == atts(b)
        && a.children.len() == b.children.len()
        && a.children.iter().zip(&b.children).all(|(x, y)| match (x, y) {
            (Node::Text(x), Node::Text(y)) => x == y,
            (Node::Elem(x), Node::Elem(y)) => same(x, y),
            _ => false,
        })
}
