//! C06: documents that are not well-formed are never accepted
use crate::ast::*;
use crate::common::*;
use crate::gen;
use crate::lex::*;
use crate::mon::*;
use crate::scale;
use crate::rng::Rng;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C06",
    case,
    quick: 160_000,
    thorough: 1_500_000,
    resources: false,
    rule: "Documents that match their schema (random schemas, half of them a schema that allows every document), serialised at random, with one fault injected that makes them not well-formed, or not namespace-well-formed; the validator has to report an error by the end of the text. Before, the document without the fault has to be accepted. Distinct (schema, faulty document) texts.",
    assumptions: &["each fault injector yields a text that is not well-formed (they are listed in DESIGN.md)"],
    min: &[
        ("truncated", 1000),
        ("end-tag renamed", 500),
        ("tag removed", 500),
        ("end-tag inserted", 500),
        ("attribute repeated", 200),
        ("undeclared prefix", 500),
        ("broken reference", 1000),
        ("content outside of the root", 500),
        ("no root element", 100),
        ("broken start-tag", 500),
        ("broken text or comment", 500),
        ("character not allowed", 500),
        ("namespace constraint", 200),
        ("entities", 200),
        ("large schemas or documents", 200),
    ],
    once: None,
};

pub fn any_schema() -> Flat {
    let any = Pat::Elem(
        NC::AnyName(None),
        Box::new(Pat::Inter(vec![
            Pat::Star(Box::new(Pat::Attr(NC::AnyName(None), Box::new(Pat::Text)))),
            Pat::Text,
            Pat::Star(Box::new(Pat::Ref("any".into()))),
        ])),
    );
    Flat { start: Pat::Ref("any".into()), defs: [("any".to_string(), any)].into() }
}

const BAD_REFS: &[&str] = &[
    "&nope;", "&;", "&", "& ", "&amp", "&amp ", "&#;", "&#x;", "&#xG;", "&#0;", "&#x0;", "&#xFFFE;", "&#xFFFF;", "&#x110000;", "&#xD800;", "&#xDFFF;",
    "&#-1;", "&#+1;", "&1;", "&#X41;", "&#x41", "&#65", "&# 65;", "&#65 ;", "&LT;", "&Amp;", "&amp amp;", "&#1;", "&#x1F;", "&#8;", "&#99999999999999999999;",
    "&#x100000041;", "&#4294967361;", "&lt&gt;", "&quot", "&nbsp;", "&a&b;", "&&amp;", "&#x 41;", "&#0x41;", "&#65536x;", "&#xFFFFFFFFFFFFFFFFF;", "&-a;", "&a b;",
];

/// Places in text (of the root element or below) or in attribute values
fn spots(t: &str, toks: &[Tok], r: &mut Rng) -> Option<(usize, bool)> {
    let mut v = vec![];
    for k in toks {
        match k.k {
            K::Text if k.depth > 0 => v.push((k.at.clone(), false)),
            K::Start | K::Empty => {
                for a in &k.attrs {
                    v.push((a.value.clone(), true))
                }
                if k.k == K::Start {
                    v.push((k.at.end..k.at.end, false))
                }
            }
            _ => {}
        }
    }
    if v.is_empty() {
        return None;
    }
    let (range, attr) = r.pick(&v).clone();
    Some((spot_in(t, range, r), attr))
}

/// Some character boundary in a range of text, but not within a reference
fn spot_in(t: &str, range: std::ops::Range<usize>, r: &mut Rng) -> usize {
    let mut v = vec![];
    let mut in_ref = false;
    for (i, c) in t[range.clone()].char_indices() {
        if !in_ref {
            v.push(range.start + i);
        }
        match c {
            '&' => in_ref = true,
            ';' => in_ref = false,
            _ => {}
        }
    }
    v.push(range.end);
    *r.pick(&v)
}

fn put(t: &str, at: usize, what: &str) -> String {
    format!("{}{what}{}", &t[..at], &t[at..])
}
fn replace(t: &str, at: std::ops::Range<usize>, what: &str) -> String {
    format!("{}{what}{}", &t[..at.start], &t[at.end..])
}

/// An XML declaration (or something much like it), put after something short
pub fn late_declaration(t: &str, r: &mut Rng) -> String {
    let before = *r.pick(&["\n", " ", "\t", "\r\n", "<!---->", "<!-- -->", "<?a?>", "<?pi x?>\n", "<!--\n-->\n", "\u{feff}\n", "\u{feff}<?a?>", "<?xml version='1.0'?>", "<?xml-x?>", "   ", "\u{feff} "]);
    if t.starts_with("<?xml") && r.bool() {
        return format!("{before}{t}");
    }
    let ws = *r.pick(&[" ", "\t", "\n", "\r\n", "  ", " \n"]);
    let version = *r.pick(&["version='1.0'", "version=\"1.0\" encoding='utf-8'", "version = '1.0' ", "version='1.0'\nstandalone='yes'", ""]);
    let name = *r.pick(&["xml", "xml", "xml", "XML", "Xml", "xMl"]);
    let decl = format!("<?{name}{ws}{version}?>");
    match t.find("?>").filter(|_| t.starts_with("<?xml")) {
        Some(n) => format!("{}{}{decl}{}", &t[..n + 2], if r.bool() { *r.pick(&["\n", " ", "<!---->", "<?a?>"]) } else { "" }, &t[n + 2..]),
        None => format!("{before}{decl}{t}"),
    }
}

/// A fault, with its kind
pub fn inject(t: &str, r: &mut Rng) -> Option<(&'static str, String)> {
    let toks = lex(t);
    let tags: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i].k, K::Start | K::Empty)).collect();
    let ends: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == K::End).collect();
    let root = tags[0];
    let root_end = toks[root].mate;
    let some_tag = |r: &mut Rng| &toks[*r.pick(&tags)];
    let attrs: Vec<(usize, usize)> = tags.iter().flat_map(|i| (0..toks[*i].attrs.len()).map(|j| (*i, j))).collect();
    // between tokens, from the root element's start-tag on
    let inside = |r: &mut Rng| -> Option<usize> {
        let v: Vec<usize> = (root + 1..=root_end).filter(|_| root != root_end).collect();
        if v.is_empty() {
            None
        } else {
            Some(toks[*r.pick(&v)].at.start)
        }
    };
    Some(match r.below(15) {
        13 => ("misplaced declaration", late_declaration(t, r)),
        0 => {
            let mut n = r.below(toks[root_end].at.end);
            if r.chance(1, 3) {
                // just before something ends
                let k = r.pick(&toks[..=root_end]);
                n = k.at.end - 1;
            }
            while !t.is_char_boundary(n) {
                n -= 1
            }
            ("truncated", t[..n].to_string())
        }
        1 => {
            if ends.is_empty() {
                return None;
            }
            let e = &toks[*r.pick(&ends)];
            let name = &t[e.name.clone()];
            let new = match r.below(8) {
                0 => format!("{name}x"),
                1 => format!("x{name}"),
                2 => {
                    let mut c: Vec<char> = name.chars().collect();
                    c.pop();
                    if c.is_empty() || c.last() == Some(&':') {
                        c.push('Z');
                    }
                    c.into_iter().collect()
                }
                3 => match name.split_once(':') {
                    Some((_, l)) => l.to_string(),
                    None => format!("xml:{name}"),
                },
                4 => {
                    // the name of some other element
                    let o = some_tag(r);
                    t[o.name.clone()].to_string()
                }
                5 => {
                    let o = some_tag(r);
                    match (name.split_once(':'), t[o.name.clone()].split_once(':')) {
                        (Some((_, l)), Some((p, _))) => format!("{p}:{l}"),
                        (None, Some((p, _))) => format!("{p}:{name}"),
                        (Some((_, l)), None) => l.to_string(),
                        _ => name.to_uppercase(),
                    }
                }
                6 => name.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                _ => format!("{name} x"),
            };
            if new == name {
                return None;
            }
            ("end-tag renamed", replace(t, e.name.clone(), &new))
        }
        2 => {
            let v: Vec<&Tok> = toks.iter().filter(|k| matches!(k.k, K::Start | K::End)).collect();
            if v.is_empty() {
                return None;
            }
            let k = *r.pick(&v);
            let what = match r.below(4) {
                0 => replace(t, k.at.clone(), ""),
                1 if k.k == K::Start => replace(t, k.at.end - 1..k.at.end, "/>"),
                1 => replace(t, k.at.start..k.at.start + 2, "<"),
                2 => {
                    // an empty-element tag that isn't one
                    let v: Vec<&Tok> = toks.iter().filter(|k| k.k == K::Empty).collect();
                    if v.is_empty() {
                        return None;
                    }
                    let k = *r.pick(&v);
                    replace(t, k.at.end - 2..k.at.end, ">")
                }
                _ => {
                    // end-tags in the wrong order
                    if ends.len() < 2 {
                        return None;
                    }
                    let a = r.below(ends.len() - 1);
                    let (x, y) = (&toks[ends[a]], &toks[ends[a + 1]]);
                    if t[x.name.clone()] == t[y.name.clone()] {
                        return None;
                    }
                    let first = replace(t, y.at.clone(), &t[x.at.clone()]);
                    replace(&first, x.at.clone(), &t[y.at.clone()])
                }
            };
            ("tag removed", what)
        }
        3 => {
            let at = if r.chance(1, 3) {
                toks[root_end].at.end
            } else {
                match inside(r) {
                    Some(x) => x,
                    None => toks[root_end].at.end,
                }
            };
            let name = if r.bool() { t[some_tag(r).name.clone()].to_string() } else { "zz".to_string() };
            // (an end-tag before that of the root element is one too many for the whole)
            ("end-tag inserted", put(t, at, &format!("</{name}>")))
        }
        4 => {
            if !attrs.is_empty() && r.chance(2, 3) {
                let (i, j) = *r.pick(&attrs);
                let a = &toks[i].attrs[j];
                let name = &t[a.name.clone()];
                let value = if r.bool() { t[a.value.clone()].to_string() } else { "v".into() };
                let q = if value.contains('"') { '\'' } else { '"' };
                if value.contains(q) {
                    return None;
                }
                // where another attribute may start
                let k = r.below(toks[i].attrs.len() + 1);
                let at = toks[i].attrs.get(k).map_or_else(|| toks[i].attrs.last().unwrap().value.end + 1, |a| a.name.start);
                ("attribute repeated", put(t, at, &format!(" {name}={q}{value}{q} ")))
            } else {
                // via two prefixes
                let k = some_tag(r);
                let u = *r.pick(&["urn:dup", "urn:a", "http://www.w3.org/XML/1998/namespac"]);
                let mut v = vec![
                    format!("xmlns:zza=\"{u}\""),
                    format!("xmlns:zzb='{}'", if r.bool() { u.to_string() } else { u.replace('n', "&#110;") }),
                    "zza:at=\"1\"".to_string(),
                    format!("zzb:at=\"{}\"", r.below(3)),
                ];
                r.shuffle(&mut v);
                ("attribute repeated", put(t, k.name.end, &format!(" {}", v.join(" "))))
            }
        }
        5 => {
            let i = *r.pick(&tags);
            let k = &toks[i];
            match r.below(3) {
                0 => {
                    let l = t[k.name.clone()].rsplit(':').next().unwrap().to_string();
                    let new = format!("zzundeclared:{l}");
                    let s = if k.k == K::Start { replace(t, toks[k.mate].name.clone(), &new) } else { t.to_string() };
                    ("undeclared prefix", replace(&s, k.name.clone(), &new))
                }
                1 => ("undeclared prefix", put(t, k.name.end, " zzundeclared:at=''")),
                _ => {
                    // declared, but only elsewhere
                    let what = match r.below(3) {
                        0 => put(&put(t, toks[root_end].at.start, ""), k.name.end, " zzu:at=''"),
                        1 => {
                            if root == root_end {
                                return None;
                            }
                            let last = toks[root_end].at.start;
                            put(t, last, "<zz xmlns:zzu='urn:u'/><zzu:b/>")
                        }
                        _ => {
                            if root == root_end {
                                return None;
                            }
                            let last = toks[root_end].at.start;
                            put(t, last, "<zz xmlns:zzu='urn:u'><zzu:c/></zz><c zzu:d=''/>")
                        }
                    };
                    ("undeclared prefix", what)
                }
            }
        }
        6 => {
            let (at, _) = spots(t, &toks, r)?;
            let mut bad = r.pick(BAD_REFS).to_string();
            if t[at..].starts_with(|c: char| c != '<' && c != '&' && c != '"' && c != '\'') && !bad.ends_with(';') {
                bad.push(' ');
            }
            ("broken reference", put(t, at, &bad))
        }
        7 => {
            let outside: Vec<usize> = (0..=toks.len())
                .filter(|i| *i <= root || *i > root_end)
                .map(|i| toks.get(i).map_or(t.len(), |k| k.at.start))
                .filter(|a| *a > 0 || !t.starts_with("<?xml"))
                .collect();
            let mut at = *r.pick(&outside);
            if r.chance(1, 3) {
                at = t.len();
            }
            let what = *r.pick(&[
                "x", "&#32;", "&amp;", "&lt;", "<![CDATA[]]>", "<![CDATA[ ]]>", "<![CDATA[x]]>", "<b/>", "<b></b>", "<b>", "</b>", "]]>", "\u{a0}", ">", "&#10;", "\u{FEFF}",
                "<!DOCTYPE x>x",
            ]);
            if what == "\u{FEFF}" && at == 0 {
                return None;
            }
            ("content outside of the root", put(t, at, what))
        }
        8 => (
            "no root element",
            match r.below(6) {
                0 => "".to_string(),
                1 => " \n".to_string(),
                2 => t[..toks[root].at.start].to_string(),
                3 => "<!-- x -->".to_string(),
                4 => "<?xml version=\"1.0\"?>\n<!-- <a/> -->".to_string(),
                _ => "<!DOCTYPE a []>\n<?a?>".to_string(),
            },
        ),
        9 => {
            let k = some_tag(r);
            let s = match r.below(16) {
                0 => put(t, k.name.start, " "),
                1 => put(t, k.name.start, *r.pick(&["1", "-", ".", "\u{b7}", "$", "=", "\"", "/", "!", "<"])),
                2 => put(t, k.name.end, " at"),
                3 => put(t, k.name.end, " at="),
                4 => put(t, k.name.end, " at=v"),
                5 => put(t, k.name.end, " at=\"a<b\""),
                6 => put(t, k.name.end, " zza=\"1\"zzb=\"2\""),
                7 => put(t, k.name.end, " =\"v\""),
                8 => put(t, k.name.end, " 1a=\"v\""),
                9 if !t[k.name.end..].contains('\'') => put(t, k.name.end, " at='v\""),
                10 if k.k == K::Empty => put(t, k.at.end - 1, " "),
                11 => put(t, k.name.end, " 'v'"),
                12 => put(t, k.name.end, " /"),
                13 => put(t, k.at.end - 1, " <!-- --> "),
                14 => put(t, k.name.end, " <"),
                _ => {
                    if ends.is_empty() {
                        return None;
                    }
                    let e = &toks[*r.pick(&ends)];
                    match r.below(4) {
                        0 => put(t, e.name.end, " at=\"v\""),
                        1 => put(t, e.name.start, " "),
                        2 => put(t, e.name.end, "/"),
                        _ => put(t, e.at.start + 1, " "),
                    }
                }
            };
            ("broken start-tag", s)
        }
        10 => {
            let what = *r.pick(&[
                "]]>", "<!-- -- -->", "<!-- --->", "<!-->", "<!--->", "<!- x -->", "<! x>", "<", "< ", "<!", "<?", "<!--", "<![CDATA[", "<![cdata[x]]>", "<![CDATA [x]]>", "<!ELEMENT a ANY>",
                "<?>", "<? x?>", "<?pi", "<?pi x>", "<!>", "<>", "</>", "<!-- x ->", "<![CDATA[ x ]>", "a<1", "<!DOCTYPE x>", "<?1?>", "<?xml?>", "<?XML x?>", "<?xml version='1.0'?>", "<?a:b?>", "<?a+b?>", "<?:a?>", "<:a/>", "<!ENTITY a 'b'>", "<-a/>", "<!---- -->",
            ]);
            let depth_ok = |k: &Tok| (k.k == K::Text && k.depth > 0) || k.k == K::Start;
            let v: Vec<&Tok> = toks.iter().filter(|k| depth_ok(k)).collect();
            if v.is_empty() {
                return None;
            }
            let k = *r.pick(&v);
            let at = if k.k == K::Start { k.at.end } else { spot_in(t, k.at.clone(), r) };
            if what == "<!--" && t[at..].contains("-->") || what == "<![CDATA[" && t[at..].contains("]]>") || (what == "<?" || what == "<?pi" || what == "<?pi x>") && t[at..].contains("?>") || what == "<!-- x ->" && t[at..].contains("-->") || what == "<![CDATA[ x ]>" && t[at..].contains("]]>") {
                return None;
            }
            if t[at..].starts_with(|c: char| !c.is_whitespace() && c != '<') && (what == "<" || what == "<!" || what == "<? " ) {
                return None;
            }
            ("broken text or comment", put(t, at, what))
        }
        11 => {
            let c = *r.pick(&['\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{fffe}', '\u{ffff}', '\u{10}']);
            let at = match r.below(4) {
                0 | 1 => spots(t, &toks, r)?.0,
                _ => {
                    let v: Vec<&Tok> = toks.iter().filter(|k| matches!(k.k, K::Comment | K::Cdata)).collect();
                    if v.is_empty() {
                        return None;
                    }
                    let k = *r.pick(&v);
                    k.at.start + if k.k == K::Comment { 4 } else { 9 }
                }
            };
            ("character not allowed", put(t, at, &c.to_string()))
        }
        12 => {
            let k = some_tag(r);
            let what = *r.pick(&[
                "xmlns:zz=\"\"",
                "xmlns:xml=\"urn:x\"",
                "xmlns:zz=\"http://www.w3.org/XML/1998/namespace\"",
                "xmlns:zz=\"http://www.w3.org/2000/xmlns/\"",
                "xmlns:xmlns=\"urn:x\"",
                "xmlns:xmlns=\"http://www.w3.org/2000/xmlns/\"",
                "xmlns:zz=\"urn:1\" xmlns:zz=\"urn:1\"",
                "xmlns:zz=\"urn:1\" xmlns:zz=\"urn:2\"",
                "xmlns:zz=\"&#104;ttp://www.w3.org/XML/1998/namespace\"",
                "xmlns:=\"urn:x\"",
                "xmlns:zz:y=\"urn:x\"",
                "zz:y:x=\"urn:x\"",
                "zz:=\"x\"",
                ":zz=\"x\"",
                ":=\"x\"",
                "xmlns:1=\"urn:x\"",
            ]);
            ("namespace constraint", put(t, k.name.end, &format!(" {what}")))
        }
        _ => {
            // declarations of our own
            if toks.iter().any(|k| k.k == K::Doctype) {
                return None;
            }
            let (decl, use_) = *r.pick(&[
                ("<!ENTITY zz '&zz;'>", "&zz;"),
                ("<!ENTITY zz '&zy;'><!ENTITY zy 'a&zz;'>", "&zz;"),
                ("<!ENTITY zz 'a&zy;'><!ENTITY zy 'b&zx;'><!ENTITY zx '&#38;zz;'>", "&zz;"),
                ("<!ENTITY zz '&nope;'>", "&zz;"),
                ("<!ENTITY zz '&#38;nope;'>", "&zz;"),
                ("<!ENTITY zz '&#38;'>", "&zz;"),
                ("<!ENTITY zz '&#38;amp'>", "&zz;"),
                ("<!ENTITY zz 'x'>", "&zy;"),
                ("<!ENTITY zz '%'>", "&zz;"),
                ("<!ENTITY zz '%'>", ""),
                ("<!ENTITY zz '&;'>", ""),
                ("<!ENTITY zz '&1;'>", ""),
                ("<!ENTITY zz '&#0;'>", ""),
                ("<!ENTITY zz 'a\u{1}'>", ""),
                ("<!ENTITY z:z 'x'>", ""),
                ("<!ENTITY zz 'x'>", "&ZZ;"),
                ("<!ENTITY zz 'x'>", "&zz"),
                ("<!ENTITY zz '&#60;'>", "&zz;"),
                ("<!ENTITY zz 'a&#60;b'>", "&zz;"),
                ("<!ENTITY zz '<b>'>", "&zz;"),
                ("<!ENTITY zz '</b>'>", "&zz;"),
            ]);
            let (at, _) = spots(t, &toks, r)?;
            let mut use_ = use_.to_string();
            if use_ == "&zz" {
                use_.push(' ')
            }
            let s = put(t, at, &use_);
            let n = &t[toks[root].name.clone()];
            ("entities", put(&s, toks[root].at.start, &format!("<!DOCTYPE {n} [{decl}]>")))
        }
    })
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = broad(&mut r);
    let (s, docs) = match large(ctx, &mut r, 40, scale::Kind::Any, 0)? {
        Some(x) => x,
        None => {
            let flat = gen::schema(&mut r, &cfg);
            let xml = r.bool();
            let s = load_flat(flat, xml, 0, &mut r)?;
            let budget = *r.pick(&[6, 15, 30]);
            let docs = documents(&s.ir, &mut r, 2, 1, budget);
            (s, docs)
        }
    };
    let any = load_flat(any_schema(), false, 0, &mut r)?;
    let mut o = Oracle::new(&s.ir);
    for d in &docs {
        let matching = matches!(o.judge(ctx, d), Judged::Known(v) if v.error.is_none());
        let p = xml::print(d, &xml::Style::random(&mut r), &mut r);
        for _ in 0..6 {
            let s = if matching && r.bool() { &s } else { &any };
            if !validate(s, &p.text)?.valid() {
                return Err(Fail(format!("a document that matches is rejected\n{}--- document\n{}\n", s.text(), p.text)));
            }
            let Some((kind, t)) = inject(&p.text, &mut r) else { continue };
            let got = validate(s, &t)?;
            ctx.eval();
            ctx.distinct(&[&s.text(), &t]);
            ctx.count(kind);
            if got.valid() {
                return Err(Fail(format!("a document that is not well-formed is accepted ({kind})\n{}--- document\n{t}\n--- without the fault\n{}\n", s.text(), p.text)));
            }
            ctx.sample(|| format!("{}--- document ({kind})\n{t}", s.text()));
        }
    }
    Ok(())
}
