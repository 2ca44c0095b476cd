//! C22: exactly the texts of the two notations are taken for schemas
use crate::compose;
use crate::gen;
use crate::mon::*;
use crate::print_rng;
use crate::print_rnc;
use crate::rncgram::{self, Verdict};
use crate::rnggram;
use crate::rng::Rng;
use crate::run;
use std::ops::Range;

pub static CHECK: Check = Check {
    id: "C22",
    case,
    quick: 200_000,
    thorough: 1_800_000,
    resources: false,
    rule: "Schema files of random composed schemas, in either syntax, with up to four random edits: of tokens, of balanced parts and of characters of the compact syntax; of elements, tags, attributes and texts of the XML syntax. An independent recogniser of the notation tells whether the result is a text of that notation; the compiler has to report a syntax error if, and only if, it isn't. Distinct texts that were judged.",
    assumptions: &[
        "the recognisers implement the grammars of the two notations; where implementations commonly differ (repeated operators, exceptions that aren't in parentheses, documentation at odd places, escapes) nothing is judged",
    ],
    min: &[
        ("large schemas or documents", 200),
        ("compact: grammatical", 10_000),
        ("compact: not grammatical", 10_000),
        ("XML: grammatical", 10_000),
        ("XML: not grammatical", 10_000),
    ],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = gen::Cfg {
        attrs: *r.pick(&[20, 40]),
        elem_defs: *r.pick(&[(1, 1), (1, 3)]),
        other_defs: *r.pick(&[(0, 1), (0, 3)]),
        depth: *r.pick(&[1, 2, 3]),
        namespaces: r.range(0, 2),
        data: *r.pick(&[10, 50]),
        wild: *r.pick(&[3, 25]),
        max_size: *r.pick(&[6, 15, 40]),
        ..gen::Cfg::default()
    };
    let flat = match crate::common::large_flat(ctx, &mut r, 60) {
        Some(f) => f,
        None => gen::schema(&mut r, &cfg),
    };
    let xml = r.bool();
    let c = compose::compose(&flat, xml, &crate::checks::c08_cfg(&mut r), &mut r);
    let fancy = *r.pick(&[0, 0, 10, 40]);
    let annot = *r.pick(&[0, 0, 5, 30]);
    let specs: Vec<_> = c.specs.iter().collect();
    for _ in 0..3 {
        let (name, s) = *r.pick(&specs);
        let text = if xml {
            print_rng::print_annot(&s.top, *name != c.root, fancy, annot, &mut r)
        } else {
            let pass = s.refs.iter().map(|(h, f)| (h.clone(), c.specs[f].inherited.clone())).collect();
            print_rnc::print_annot(&s.top, &print_rnc::Env { inherited: s.inherited.clone(), pass, bare: false }, fancy, annot, &mut r)
        };
        judge(ctx, &text, xml, None)?;
        for _ in 0..6 {
            let mut t = text.clone();
            let n = r.range(1, 4);
            for _ in 0..n {
                t = if xml { edit_xml(&t, &mut r) } else { edit_compact(&t, &mut r) };
            }
            if t.len() < 60_000 {
                judge(ctx, &t, xml, Some(&text))?;
            }
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, text: &str, xml: bool, from: Option<&str>) -> CaseResult {
    let v = if xml { rnggram::recognise(text) } else { rncgram::recognise(text) };
    let what = if xml { "XML" } else { "compact" };
    let root = if xml { "s.rng" } else { "s.rnc" };
    let want = match v {
        Verdict::Undecided => {
            ctx.count(&format!("{what}: undecided"));
            return Ok(());
        }
        Verdict::Yes => true,
        Verdict::No => {
            assert!(from.is_some(), "the reference doesn't recognise a correct schema\n{text}");
            false
        }
    };
    let files = run::one(root, text);
    let show = || format!("--- {root}\n{text}\n");
    let got = match guarded(|| run::compile(&files, root, xml).result.err().map(|e| (run::kind_of(&e), format!("{e:?}")))) {
        Ok(x) => x,
        Err(p) => return Err(Fail(format!("compiling: {p}\n{}", show()))),
    };
    ctx.eval();
    ctx.distinct(&[text]);
    ctx.count(&format!("{what}: {}", if want { "grammatical" } else { "not grammatical" }));
    let syntax = matches!(&got, Some((k, _)) if k == "Parse" || k == "XmlParse");
    if want && syntax {
        return Err(Fail(format!("a text of the {what} syntax is rejected: {}\n{}", got.unwrap().1, show())));
    }
    if !want && !syntax {
        return Err(Fail(format!(
            "a text that isn't of the {what} syntax is not rejected as such ({})\n{}",
            got.map_or("accepted".into(), |g| g.1),
            show()
        )));
    }
    if let (Some((k, _)), true) = (&got, want) {
        ctx.count(&format!("grammatical, but: {k}"));
    }
    ctx.sample(|| format!("{want}: {}", show()));
    Ok(())
}

const WORDS: &[&str] = &[
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent",
    "start", "string", "text", "token", "=", "|=", "&=", "{", "}", "(", ")", "[", "]", "+", "*", "?", "|", "&", ",", "-", "~", ">>", "a", "\\a", "\\start", "xsd:string", "p:q", "p:*", "\"a\"",
    "''", "\"\"\"x\"\"\"", "a.b-c", "_", "# c\n", "{}", "()", "[]", "a = b", "a:b [ ]", "( a )", "{ a }", "start = a", "- a", "| a", ", a", "& a", "[ a:b = \"\" ]", ">> a:b []", "inherit = a",
];

fn edit_compact(t: &str, r: &mut Rng) -> String {
    if r.chance(1, 5) {
        return edit_chars(t, r);
    }
    let Ok(toks) = rncgram::tokens(t) else { return edit_chars(t, r) };
    if toks.is_empty() {
        return r.pick(WORDS).to_string();
    }
    if r.chance(1, 40) {
        return repeat_compact(t, &toks, r);
    }
    let pos = |s: &str| s.as_ptr() as usize - t.as_ptr() as usize;
    let range = |k: usize| pos(toks[k].1)..pos(toks[k].1) + toks[k].1.len();
    let k = r.below(toks.len());
    let at = range(k);
    match r.below(9) {
        0 => replace(t, at, ""),
        1 => {
            let w = toks[r.below(toks.len())].1;
            replace(t, at, &format!(" {w} "))
        }
        2 => replace(t, at, &format!(" {} ", r.pick(WORDS))),
        3 => replace(t, at.end..at.end, &format!(" {} ", r.pick(WORDS))),
        4 => {
            let w = toks[r.below(toks.len())].1;
            replace(t, at.start..at.start, &format!(" {w} "))
        }
        5 => {
            // exchange two
            let l = if r.bool() { (k + 1) % toks.len() } else { r.below(toks.len()) };
            let (a, b) = (range(k.min(l)), range(k.max(l)));
            if k == l {
                return t.to_string();
            }
            format!("{}{}{}{}{}", &t[..a.start], &t[b.clone()], &t[a.end..b.start], &t[a], &t[b.end..])
        }
        6 | 7 => {
            // balanced parts
            let parts = balanced(&toks);
            let Some(p) = pick(&parts, r) else { return edit_chars(t, r) };
            let p = range(p.0).start..range(p.1).end;
            let q = pick(&parts, r).map(|q| range(q.0).start..range(q.1).end).unwrap();
            match r.below(5) {
                0 => replace(t, p, " "),
                1 => replace(t, p, &format!(" {} ", &t[q])),
                2 => replace(t, p.start + 1..p.end - 1, " "),
                // without the brackets
                3 => replace(t, p.clone(), &format!(" {} ", &t[p.start + 1..p.end - 1])),
                _ => replace(t, at.end..at.end, &format!(" {} ", &t[q])),
            }
        }
        _ => {
            // a run of tokens
            let l = r.below(toks.len());
            let (a, b) = (range(k.min(l)), range(k.max(l)));
            let run = if r.bool() { a.start..b.end } else { a.start..range((k.min(l) + r.range(1, 4)).min(toks.len() - 1)).end };
            if r.bool() {
                replace(t, run, " ")
            } else {
                let part = t[run].to_string();
                let j = range(r.below(toks.len())).end;
                replace(t, j..j, &format!(" {part} "))
            }
        }
    }
}

/// Much of something
fn repeat_compact(t: &str, toks: &[(rncgram::T, &str)], r: &mut Rng) -> String {
    let pos = |s: &str| s.as_ptr() as usize - t.as_ptr() as usize;
    let range = |k: usize| pos(toks[k].1)..pos(toks[k].1) + toks[k].1.len();
    let n = crate::scale::size(r, 60);
    let parts: Vec<_> = balanced(toks).into_iter().filter(|p| toks[p.0].1 == "{").collect();
    match (r.below(6), pick(&parts, r)) {
        (0, Some(p)) => {
            let (a, b) = (range(p.0).end, range(p.1).start);
            format!("{}{}{}{}{}", &t[..a], "(".repeat(n), &t[a..b], ")".repeat(if r.chance(1, 4) { n + 1 } else { n }), &t[b..])
        }
        (1, Some(p)) => {
            // again and again
            let (a, b) = (range(p.0).end, range(p.1).start);
            let op = *r.pick(&[" | ", ", ", " & ", " "]);
            format!("{}({}){}", &t[..a], vec![&t[a..b]; n.min(20)].join(op), &t[b..])
        }
        (2, Some(p)) => {
            let (a, b) = (range(p.0).end, range(p.1).start);
            let open = *r.pick(&["list { ", "mixed { ", "element a { ", "( "]);
            let close = if open == "( " { " )" } else { " }" };
            format!("{}{}{}{}{}", &t[..a], open.repeat(n), &t[a..b], close.repeat(n), &t[b..])
        }
        (3, _) => {
            let k = range(r.below(toks.len())).start;
            replace(t, k..k, &r.pick(&["\n", " ", "# c\n", "a", "\t", "[ a:b = \"\" ]"]).repeat(n * 10))
        }
        (4, _) => {
            // a long name or literal
            let k = range(r.below(toks.len()));
            let x = r.pick(&["a", "é", "1", "-", ".a", "\\"]).repeat(n * 10);
            if r.bool() {
                replace(t, k.end..k.end, &x)
            } else {
                let at = k.start + t[k].chars().next().map_or(0, |c| c.len_utf8());
                replace(t, at..at, &x)
            }
        }
        _ => {
            let k = range(r.below(toks.len())).end;
            replace(t, k..k, &r.pick(&["*", "?", " | a", ", a", " ~ \"\"", " >> a:b []"]).repeat(n))
        }
    }
}

fn balanced(toks: &[(rncgram::T, &str)]) -> Vec<(usize, usize)> {
    let mut open = vec![];
    let mut out = vec![];
    for (k, t) in toks.iter().enumerate() {
        match t.1 {
            "{" | "(" | "[" => open.push(k),
            "}" | ")" | "]" => {
                if let Some(o) = open.pop() {
                    out.push((o, k))
                }
            }
            _ => {}
        }
    }
    out
}

fn pick<T: Clone>(v: &[T], r: &mut Rng) -> Option<T> {
    (!v.is_empty()).then(|| r.pick(v).clone())
}

fn replace(t: &str, at: Range<usize>, what: &str) -> String {
    format!("{}{what}{}", &t[..at.start], &t[at.end..])
}

fn edit_chars(t: &str, r: &mut Rng) -> String {
    let bounds: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let k = r.below(bounds.len());
    let a = bounds[k];
    let b = bounds[(k + 1).min(bounds.len() - 1)];
    if r.chance(1, 4) {
        // names with characters that may just, or just not, be part of them
        static ODD: std::sync::LazyLock<Vec<char>> = std::sync::LazyLock::new(rncgram::odd_chars);
        let at: Vec<usize> = t.char_indices().filter(|x| x.1.is_ascii_alphabetic()).map(|x| x.0).collect();
        if let Some(k) = pick(&at, r) {
            let k = k + r.below(2);
            return replace(t, k..k, &r.pick(&ODD).to_string());
        }
    }
    let c = *r.pick(&["\"", "'", "#", "\\", "~", "|", "&", ",", "-", "=", "(", ")", "{", "}", "[", "]", "*", "+", "?", ":", ".", "a", "x", "1", " ", "\n", ">", ">>", "\t", ";", "/", "@", "$", "é", ":*"]);
    match r.below(4) {
        0 => replace(t, a..b, ""),
        1 => replace(t, a..b, c),
        _ => replace(t, a..a, c),
    }
}

const TAGS: &[&str] = &[
    "element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef", "empty", "text", "value", "data", "notAllowed",
    "externalRef", "grammar", "param", "except", "name", "anyName", "nsName", "start", "define", "div", "include", "foo", "Element", "ZeroOrMore",
];
const ATTRS: &[(&str, &[&str])] = &[
    ("name", &["a", "a b", "", " a ", "a:b", "xml:a", ":a", "a:", "1", "-", "a.b-c", "b c d", "a: b"]),
    ("type", &["string", "token", "", "a b", "a:b", " string "]),
    ("combine", &["choice", "interleave", "", " choice ", "group", "choice interleave"]),
    ("href", &["a", "b.rng", "../c"]),
    ("ns", &["", "urn:x", " "]),
    ("datatypeLibrary", &["", "http://www.w3.org/2001/XMLSchema-datatypes", "a", "http://x.org/a", "http://x.org/a#b"]),
    ("foo", &["", "a"]),
    ("Name", &["a"]),
    ("xml:lang", &["en"]),
    ("xml:base", &["d/"]),
];

fn edit_xml(t: &str, r: &mut Rng) -> String {
    let Ok(doc) = roxmltree::Document::parse(t) else { return edit_chars(t, r) };
    if r.chance(1, 25) {
        return edit_chars(t, r);
    }
    let els: Vec<roxmltree::Node> = doc.descendants().filter(|n| n.is_element() && (n.tag_name().namespace() == Some(print_rng::RNG) || r.chance(1, 5))).collect();
    if els.is_empty() {
        return edit_chars(t, r);
    }
    let n = *r.pick(&els);
    let at = n.range();
    if r.chance(1, 40) {
        let k = crate::scale::size(r, 60);
        let what = &t[at.clone()];
        return match r.below(3) {
            0 => replace(t, at.clone(), &what.repeat(k.min(1 + 4000 / what.len()))),
            1 => {
                let p = t[at.start + 1..at.end].split(|c: char| c.is_whitespace() || c == '/' || c == '>').next().and_then(|x| x.split_once(':')).map(|x| format!("{}:", x.0)).unwrap_or_default();
                let g = *r.pick(&["group", "choice", "div", "optional", "list"]);
                format!("{}{}{what}{}{}", &t[..at.start], format!("<{p}{g}>").repeat(k), format!("</{p}{g}>").repeat(k), &t[at.end..])
            }
            _ => replace(t, at.start..at.start, &r.pick(&["<!-- x -->", " ", "\n", "<?x y?>", "<x xmlns='y'/>"]).repeat(k * 5)),
        };
    }
    let (open, close) = tags(t, at.clone());
    let raw = t[open.start + 1..].split(|c: char| c.is_whitespace() || c == '/' || c == '>').next().unwrap().to_string();
    let prefix = raw.split_once(':').map(|x| format!("{}:", x.0)).unwrap_or_default();
    match r.below(15) {
        14 => {
            // names with characters that may just, or just not, be part of them
            static ODD: std::sync::LazyLock<Vec<char>> = std::sync::LazyLock::new(rncgram::odd_chars);
            let mut v: Vec<Range<usize>> = n.attributes().filter(|a| matches!(a.name(), "name" | "type")).map(|a| a.range_value()).collect();
            if n.tag_name().name() == "name" {
                v.extend(n.children().filter(|c| c.is_text()).map(|c| c.range()));
            }
            let Some(v) = pick(&v, r) else { return t.to_string() };
            let at: Vec<usize> = t[v.clone()].char_indices().filter(|x| x.1.is_ascii_alphabetic()).map(|x| v.start + x.0).collect();
            let Some(k) = pick(&at, r) else { return t.to_string() };
            let k = k + r.below(2);
            replace(t, k..k, &r.pick(&ODD).to_string())
        }
        0 => replace(t, at, ""),
        1 => replace(t, at.end..at.end, &t[at.clone()]),
        2 | 3 => {
            // to another place
            let m = r.pick(&els).range();
            if m.start >= at.start && m.start <= at.end {
                return t.to_string();
            }
            let what = &t[at.clone()];
            let (a, b) = if r.bool() {
                (m.start, "")
            } else {
                match tags(t, m).1 {
                    Some(c) => (c.start, " "),
                    None => return t.to_string(),
                }
            };
            let without = r.bool();
            if !without {
                return replace(t, a..a, &format!("{what}{b}"));
            }
            if a <= at.start {
                format!("{}{what}{b}{}{}", &t[..a], &t[a..at.start], &t[at.end..])
            } else {
                format!("{}{}{what}{b}{}", &t[..at.start], &t[at.end..a], &t[a..])
            }
        }
        4 | 5 => {
            // another one in place of it
            let m = r.pick(&els).range();
            replace(t, at, &t[m])
        }
        6 | 7 => {
            let new = r.pick(TAGS);
            let k = open.start + 1;
            match close {
                Some(c) => {
                    let e = c.start + 2;
                    format!("{}{prefix}{new}{}{prefix}{new}{}", &t[..k], &t[k + raw.len()..e], &t[e + raw.len()..])
                }
                None => replace(t, k..k + raw.len(), &format!("{prefix}{new}")),
            }
        }
        8 => {
            // without its tags
            match close {
                Some(c) => format!("{}{}{}", &t[..open.start], &t[open.end..c.start], &t[c.end..]),
                None => replace(t, at, ""),
            }
        }
        9 => {
            let new = r.pick(TAGS);
            format!("{}<{prefix}{new}>{}</{prefix}{new}>{}", &t[..at.start], &t[at.clone()], &t[at.end..])
        }
        10 => {
            let (name, values) = r.pick(ATTRS);
            let v = r.pick(values);
            let k = open.start + 1 + raw.len();
            match n.attributes().find(|a| a.namespace().is_none() && a.name() == *name) {
                Some(a) => replace(t, a.range(), &format!("{name}='{v}'")),
                None => replace(t, k..k, &format!(" {name}='{v}'")),
            }
        }
        11 => {
            let v: Vec<_> = n.attributes().map(|a| a.range()).collect();
            match pick(&v, r) {
                Some(a) => replace(t, a, ""),
                None => t.to_string(),
            }
        }
        12 => {
            let x = *r.pick(&["x", " ", "<!-- x -->", "<![CDATA[ ]]>", "<![CDATA[x]]>", "<?x y?>", "<x/>", "<x xmlns=''><y/>z</x>", "&#32;", "&#160;"]);
            match &close {
                Some(c) => {
                    let k = if r.bool() { open.end } else { c.start };
                    replace(t, k..k, x)
                }
                None => replace(t, at.end..at.end, x),
            }
        }
        _ => {
            let new = r.pick(TAGS);
            let attr = match *new {
                "element" | "attribute" if r.bool() => "",
                "element" | "attribute" | "define" | "ref" | "parentRef" | "param" => " name='a'",
                "data" => " type='string'",
                "include" | "externalRef" => " href='x.rng'",
                _ => "",
            };
            let content = match *new {
                "name" => "a",
                "except" | "element" | "group" | "choice" | "optional" | "define" | "start" if r.bool() => &format!("<{prefix}empty/>"),
                _ => "",
            };
            let k = match &close {
                Some(c) if r.bool() => *r.pick(&[open.end, c.start]),
                _ => *r.pick(&[at.start, at.end]),
            };
            replace(t, k..k, &format!("<{prefix}{new}{attr}>{content}</{prefix}{new}>"))
        }
    }
}

/// The start-tag (or the tag), and the end-tag of an element
fn tags(t: &str, at: Range<usize>) -> (Range<usize>, Option<Range<usize>>) {
    let mut quote = None;
    let mut end = at.end;
    for (k, c) in t[at.clone()].char_indices() {
        match quote {
            Some(q) => {
                if c == q {
                    quote = None
                }
            }
            None if c == '"' || c == '\'' => quote = Some(c),
            None if c == '>' => {
                end = at.start + k + 1;
                break;
            }
            None => {}
        }
    }
    if end == at.end {
        return (at, None);
    }
    let c = at.start + t[at.clone()].rfind("</").unwrap();
    (at.start..end, Some(c..at.end))
}
