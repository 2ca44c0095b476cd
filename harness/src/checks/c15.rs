//! C15: resource use grows moderately
use crate::alloc::{measure, Cost};
use crate::ast::*;
use crate::common::show_files;
use crate::gen;
use crate::ir::Ir;
use crate::mon::*;
use crate::print_rnc;
use crate::print_rng;
use crate::rng::Rng;
use crate::run;
use crate::xml;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::Path;

pub static CHECK: Check = Check {
    id: "C15",
    case,
    quick: 3_000,
    thorough: 30_000,
    resources: true,
    rule: "Families of schemas and documents that grow with a size n (records, siblings, nesting, attributes, alternatives, interleaves, optional and repeated groups, ambiguous content, lists, text in one or many pieces, entities, namespaces, definitions; also random schemas whose content is repeated or nested): n is doubled, and the allocations, allocated bytes, peak of memory and CPU time of loading and of validating are measured each time. Of each, the last two doublings must not show a higher degree of growth than that of the family, and no doubling may show a leap. The verdict has to be the known one at every size. Distinct families with their parameters.",
    assumptions: &["allocations follow work closely (CPU time is also observed, with more tolerance)"],
    min: &[("doublings measured", 1_000), ("families that are linear in the document", 200), ("families of other degrees", 200)],
    once: None,
};

/// One member of a family
struct Inst {
    flat: Flat,
    /// instead of that: whether it's in XML syntax, and the text
    raw: Option<(bool, String)>,
    doc: String,
    valid: bool,
}
struct Fam {
    name: &'static str,
    /// degrees of growth of loading and of validating
    load: f64,
    val: f64,
    /// first and last size
    from: usize,
    to: usize,
    make: Box<dyn Fn(usize) -> Inst>,
}

fn nm(s: &str) -> NC {
    NC::Name("".into(), s.into())
}
fn el(n: &str, p: Pat) -> Pat {
    Pat::Elem(nm(n), Box::new(p))
}
fn at(n: &str, p: Pat) -> Pat {
    Pat::Attr(nm(n), Box::new(p))
}
fn opt(p: Pat) -> Pat {
    Pat::Opt(Box::new(p))
}
fn star(p: Pat) -> Pat {
    Pat::Star(Box::new(p))
}
fn plus(p: Pat) -> Pat {
    Pat::Plus(Box::new(p))
}
fn rf(n: impl ToString) -> Pat {
    Pat::Ref(n.to_string())
}
fn int() -> Pat {
    Pat::Data(DT::xsd("int"), vec![], None)
}
fn flat(start: Pat, defs: Vec<(String, Pat)>) -> Flat {
    Flat { start, defs: defs.into_iter().collect() }
}
fn only(start: Pat) -> Flat {
    flat(start, vec![])
}
fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&f(i))
    }
    s
}
fn wrap(n: &str, content: &str) -> String {
    format!("<{n}>{content}</{n}>")
}
fn order(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    Rng::new(seed, 77, n as u64).shuffle(&mut v);
    v
}

const FAMILIES: usize = 92;

fn family(k: usize, r: &mut Rng) -> Option<Fam> {
    let seed = r.below(1 << 30) as u64;
    let linear = |name, from, to, make: Box<dyn Fn(usize) -> Inst>| Some(Fam { name, load: 1.0, val: 1.0, from, to, make });
    let degrees = |name, load, val, from, to, make: Box<dyn Fn(usize) -> Inst>| Some(Fam { name, load, val, from, to, make });
    match k {
        // random schemas, with their content repeated, or nested
        0..=9 => {
            let cfg = gen::Cfg {
                namespaces: r.below(3),
                attrs: *r.pick(&[10, 40]),
                inter: *r.pick(&[5, 30]),
                odd_names: 5,
                max_size: 60,
                ..gen::Cfg::default()
            };
            let f = gen::schema(r, &cfg);
            let ir = Ir::from_flat(&f);
            let mut records = vec![];
            for _ in 0..r.range(1, 4) {
                let d = gen::DocGen::new(&ir, r, 12).doc();
                let mut m = crate::sem_deriv::Deriv::new(&ir);
                if m.run(&d).error.is_some() || m.unknown {
                    return None;
                }
                records.push(xml::print(&d, &xml::Style::plain(), r).text);
            }
            if records.iter().map(|x| x.len()).sum::<usize>() > 3000 || records.iter().any(|x| x.contains("<!") || x.contains("<?")) {
                return None;
            }
            if k < 6 {
                linear(
                    "random schema, repeated",
                    16,
                    4096,
                    Box::new(move |n| Inst {
                        flat: Flat { start: el("root-of-it-all", star(f.start.clone())), defs: f.defs.clone() },
                        doc: wrap("root-of-it-all", &rep(n, |i| records[i % records.len()].clone())),
                        valid: true,
                raw: None,
                    }),
                )
            } else {
                degrees(
                    "random schema, nested",
                    1.0,
                    1.0,
                    16,
                    2048,
                    Box::new(move |n| {
                        let mut defs = f.defs.clone();
                        defs.insert(
                            "nest-of-it-all".into(),
                            el("nest", Pat::Group(vec![star(f.start.clone()), opt(rf("nest-of-it-all")), opt(f.start.clone())])),
                        );
                        let mut doc = String::new();
                        for i in 0..n {
                            let _ = write!(doc, "<nest>{}", records[i % records.len()]);
                        }
                        for i in 0..n {
                            let _ = write!(doc, "{}</nest>", if i % 3 == 0 { &records[i % records.len()] } else { "" });
                        }
                        Inst { flat: Flat { start: rf("nest-of-it-all"), defs }, doc, valid: true, raw: None }
                    }),
                )
            }
        }
        10 => linear(
            "records",
            64,
            8192,
            Box::new(move |n| Inst {
                flat: only(el(
                    "log",
                    star(el("r", Pat::Group(vec![at("id", Pat::Text), opt(at("x", int())), el("a", Pat::Text), opt(el("b", int())), star(el("c", Pat::Empty))]))),
                )),
                doc: wrap("log", &rep(n, |i| format!("<r id='r{i}'><a>text {i}</a>{}<c/></r>\n", if i % 2 == 0 { format!("<b>{i}</b>") } else { "".into() }))),
                valid: true,
                raw: None,
            }),
        ),
        11 => linear(
            "siblings of a few kinds",
            64,
            16384,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Choice("abcdefgh".chars().map(|c| el(&c.to_string(), Pat::Empty)).collect())))),
                doc: wrap("r", &rep(n, |i| format!("<{}/>", b"abcdefgh"[(i * 7 + seed as usize + i / 5) % 8] as char))),
                valid: true,
                raw: None,
            }),
        ),
        12 => {
            let dt = match r.below(5) {
                0 => Pat::Text,
                1 => Pat::Data(DT::xsd("string"), vec![], None),
                2 => Pat::Data(DT::xsd("token"), vec![("minLength".into(), "3".into())], None),
                3 => Pat::Data(DT::xsd("string"), vec![("pattern".into(), "[a-z 0-9.]*".into())], None),
                _ => Pat::Data(DT::builtin("token"), vec![], Some(Box::new(Pat::Value(DT::builtin("token"), "no".into())))),
            };
            linear(
                "one long text",
                4096,
                1 << 20,
                Box::new(move |n| Inst { flat: only(el("r", dt.clone())), doc: wrap("r", &"some text 7. ".repeat(n / 13)), valid: true, raw: None }),
            )
        }
        13 => {
            let piece = ["<!-- c -->", "<?p i?>", "<![CDATA[<]]>", "&#65;", "&amp;", "&e;", "\r\n", " ", "é"];
            let ps: Vec<&'static str> = (0..r.range(1, 4)).map(|_| *r.pick(&piece)).collect();
            let any = r.bool();
            linear(
                "text in many pieces",
                256,
                32768,
                Box::new(move |n| Inst {
                    flat: only(el("r", if any { Pat::Text } else { Pat::Data(DT::xsd("string"), vec![], None) })),
                    doc: format!("<!DOCTYPE r [<!ENTITY e 'ent'>]>{}", wrap("r", &rep(n, |i| format!("x{}", ps[i % ps.len()])))),
                    valid: true,
                raw: None,
                }),
            )
        }
        14 => linear(
            "whitespace and comments in many pieces",
            256,
            32768,
            Box::new(move |n| Inst {
                flat: only(el("r", plus(el("a", Pat::Empty)))),
                doc: wrap("r", &format!("{}<a/>", rep(n, |i| format!(" {}", ["<!-- c -->", "<?p i?>", "\n", "<![CDATA[ ]]>"][i % 4])))),
                valid: true,
                raw: None,
            }),
        ),
        15 => {
            let item = match r.below(3) {
                0 => int(),
                1 => Pat::Choice(vec![Pat::Value(DT::builtin("token"), "a".into()), int()]),
                _ => Pat::Group(vec![int(), Pat::Value(DT::builtin("token"), "a".into())]),
            };
            let two = matches!(item, Pat::Group(_));
            linear(
                "list",
                256,
                16384,
                Box::new(move |n| Inst {
                    flat: only(el("r", Pat::List(Box::new(plus(item.clone()))))),
                    doc: wrap("r", &rep(n, |i| if two { format!("{i} a\n") } else { format!("{i}  ") })),
                    valid: true,
                raw: None,
                }),
            )
        }
        16 => linear(
            "mixed content",
            64,
            8192,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Mixed(Box::new(star(Pat::Choice(vec![el("a", Pat::Text), el("b", Pat::Mixed(Box::new(opt(el("c", Pat::Empty)))))])))))),
                doc: wrap("r", &rep(n, |i| format!("text {i} <a>x</a> more <b>y<c/>z</b>"))),
                valid: true,
                raw: None,
            }),
        ),
        17 => {
            let depth_ns = r.bool();
            linear(
                "nested",
                64,
                4096,
                Box::new(move |n| Inst {
                    flat: flat(rf("e"), vec![("e".into(), el("e", Pat::Group(vec![opt(at("k", Pat::Text)), star(rf("e"))])))]),
                    doc: format!("{}{}", rep(n, |i| format!("<e{}{}>", if i % 2 == 0 { " k='v'" } else { "" }, if depth_ns { format!(" xmlns:p{}='u'", i % 9) } else { "".into() })), "</e>".repeat(n)),
                    valid: true,
                raw: None,
                }),
            )
        }
        18 => {
            let opts = r.below(3);
            degrees(
                "many attributes",
                2.0,
                2.0,
                8,
                512,
                Box::new(move |n| Inst {
                    flat: only(el(
                        "r",
                        Pat::Group(
                            (0..n)
                                .map(|i| {
                                    let a = at(&format!("a{i}"), Pat::Text);
                                    match (opts, i % 2) {
                                        (0, _) | (2, 0) => a,
                                        _ => opt(a),
                                    }
                                })
                                .collect(),
                        ),
                    )),
                    doc: {
                        let o = order(n, seed);
                        format!("<r {}/>", rep(n, |i| format!("a{}='{i}' ", o[i])))
                    },
                    valid: true,
                raw: None,
                }),
            )
        }
        19 => linear(
            "many attributes by wildcard",
            64,
            4096,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Attr(NC::AnyName(None), Box::new(Pat::Text))))),
                doc: format!("<r {}/>", rep(n, |i| format!("a{}='{i}' ", i))),
                valid: true,
                raw: None,
            }),
        ),
        20 => degrees(
            "many alternatives",
            2.0,
            2.0,
            8,
            512,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Choice((0..n).map(|i| el(&format!("a{i}"), Pat::Empty)).collect())))),
                doc: {
                    let o = order(n, seed);
                    wrap("r", &rep(n, |i| format!("<a{}/>", o[i])))
                },
                valid: true,
                raw: None,
            }),
        ),
        21 => {
            let kind = r.below(3);
            degrees(
                "wide interleave",
                2.0,
                2.0,
                8,
                256,
                Box::new(move |n| Inst {
                    flat: only(el(
                        "r",
                        Pat::Inter(
                            (0..n)
                                .map(|i| {
                                    let a = el(&format!("a{i}"), Pat::Empty);
                                    match (kind, i % 3) {
                                        (0, _) | (2, 0) => a,
                                        (1, _) | (2, 1) => opt(a),
                                        _ => star(a),
                                    }
                                })
                                .collect(),
                        ),
                    )),
                    doc: {
                        let o = order(n, seed);
                        wrap("r", &rep(n, |i| format!("<a{}/>", o[i])))
                    },
                    valid: true,
                raw: None,
                }),
            )
        }
        22 => degrees(
            "optional elements of the same name",
            2.0,
            4.0,
            4,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Group((0..n).map(|_| opt(el("a", Pat::Empty))).collect()))),
                doc: wrap("r", &"<a/>".repeat(n)),
                valid: true,
                raw: None,
            }),
        ),
        23 => degrees(
            "repeated elements of the same name",
            2.0,
            4.0,
            4,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Group((0..n).map(|_| star(el("a", Pat::Empty))).collect()))),
                doc: wrap("r", &"<a/>".repeat(n)),
                valid: true,
                raw: None,
            }),
        ),
        24 => degrees(
            "repeated choices of the same names",
            2.0,
            4.0,
            4,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Group((0..n).map(|i| star(Pat::Choice(vec![el("a", Pat::Empty), el(if i % 2 == 0 { "b" } else { "c" }, Pat::Empty)]))).collect()))),
                doc: wrap("r", &"<a/><a/><b/>".repeat(n / 2)),
                valid: true,
                raw: None,
            }),
        ),
        25 => {
            // what content there is doesn't tell which of the definitions it is
            let m = r.range(2, 4);
            let inner = r.below(3);
            degrees(
                "ambiguous, nested",
                1.0,
                2.0,
                4,
                256,
                Box::new(move |n| {
                    let all = Pat::Choice((0..m).map(|i| rf(format!("d{i}"))).collect());
                    let body = match inner {
                        0 => star(all.clone()),
                        1 => opt(all.clone()),
                        _ => Pat::Group(vec![opt(all.clone()), opt(el("x", Pat::Empty))]),
                    };
                    // (they differ in something that doesn't occur)
                    let defs = (0..m).map(|i| (format!("d{i}"), el("a", Pat::Choice(vec![body.clone(), el(&format!("only{i}"), Pat::Empty)])))).collect();
                    Inst { flat: flat(all, defs), doc: format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)), valid: true, raw: None }
                }),
            )
        }
        26 => {
            let m = r.range(2, 4);
            linear(
                "ambiguous records",
                16,
                2048,
                Box::new(move |n| {
                    let alts = (0..m).map(|i| el("a", Pat::Group(vec![opt(el("x", Pat::Empty)), opt(el(&format!("only{i}"), Pat::Empty))]))).collect();
                    Inst { flat: only(el("r", star(Pat::Choice(alts)))), doc: wrap("r", &"<a><x/></a><a/>".repeat(n)), valid: true, raw: None }
                }),
            )
        }
        27 => linear(
            "ambiguous sequences",
            16,
            2048,
            Box::new(move |n| {
                let ab = || star(Pat::Choice(vec![el("a", Pat::Empty), el("b", Pat::Empty)]));
                let p = match seed % 4 {
                    0 => star(ab()),
                    1 => Pat::Group(vec![ab(), ab()]),
                    2 => star(Pat::Group(vec![opt(el("a", Pat::Empty)), ab(), opt(el("b", Pat::Empty))])),
                    _ => plus(Pat::Choice(vec![ab(), plus(el("a", Pat::Empty)), Pat::Group(vec![el("a", Pat::Empty), opt(el("b", Pat::Empty))])])),
                };
                Inst { flat: only(el("r", p)), doc: wrap("r", &"<a/><b/><a/>".repeat(n)), valid: true, raw: None }
            }),
        ),
        28 => degrees(
            "chain of definitions",
            1.0,
            1.0,
            16,
            1024,
            Box::new(move |n| {
                let defs = (0..n).map(|i| (format!("d{i}"), el(&format!("e{i}"), if i + 1 < n { Pat::Group(vec![opt(at("k", Pat::Text)), rf(format!("d{}", i + 1))]) } else { Pat::Text }))).collect();
                Inst { flat: flat(rf("d0"), defs), doc: format!("{}{}", rep(n, |i| format!("<e{i}>")), rep(n, |i| format!("</e{}>", n - 1 - i))), valid: true, raw: None }
            }),
        ),
        29 => {
            // every definition is referred to twice by the one before it
            let kind = r.below(3);
            degrees(
                "definitions referred to twice",
                1.0,
                1.0,
                8,
                512,
                Box::new(move |n| {
                    let defs = (0..n)
                        .map(|i| {
                            let next = rf(format!("d{}", i + 1));
                            let p = if i + 1 == n {
                                el("leaf", Pat::Empty)
                            } else {
                                match kind {
                                    0 => Pat::Choice(vec![el("a", next.clone()), el("b", next)]),
                                    1 => el("a", Pat::Group(vec![next.clone(), opt(next)])),
                                    _ => Pat::Choice(vec![el("a", next.clone()), el("b", Pat::Group(vec![at("k", Pat::Text), next]))]),
                                }
                            };
                            (format!("d{i}"), p)
                        })
                        .collect();
                    Inst { flat: flat(rf("d0"), defs), doc: format!("{}<leaf/>{}", "<a>".repeat(n - 1), "</a>".repeat(n - 1)), valid: true, raw: None }
                }),
            )
        }
        30 => degrees(
            "chain of definitions of alternatives",
            2.0,
            2.0,
            8,
            256,
            Box::new(move |n| {
                let defs = (0..n).map(|i| (format!("d{i}"), if i + 1 < n { Pat::Choice(vec![el(&format!("e{i}"), Pat::Empty), rf(format!("d{}", i + 1))]) } else { el("last", Pat::Empty) })).collect();
                Inst { flat: flat(el("r", star(rf("d0"))), defs), doc: wrap("r", &rep(n, |i| if i + 1 < n { format!("<e{i}/>") } else { "<last/>".into() })), valid: true, raw: None }
            }),
        ),
        31 => linear(
            "many namespaces",
            64,
            4096,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Elem(NC::NsName("urn:a".into(), None), Box::new(star(Pat::Attr(NC::AnyName(None), Box::new(Pat::Text)))))))),
                doc: wrap("r", &rep(n, |i| format!("<p{i}:x xmlns:p{i}='urn:a' p{i}:k='v'/><y xmlns='urn:a'/>"))),
                valid: true,
                raw: None,
            }),
        ),
        32 => degrees(
            "entities",
            1.0,
            1.0,
            64,
            4096,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Group(vec![at("k", Pat::Text), Pat::Text]))),
                doc: format!(
                    "<!DOCTYPE r [{}]><r k='{}'>{}</r>",
                    rep(n, |i| format!("<!ENTITY e{i} 'v{i}{}'>", if i % 5 == 1 { format!("&e{};", i - 1) } else { "".into() })),
                    rep(n, |i| format!("&e{i}; ")),
                    rep(n, |i| format!("&e{};", n - 1 - i))
                ),
                valid: true,
                raw: None,
            }),
        ),
        33 => {
            let m = r.range(14, 18);
            linear(
                "records of all orders",
                64,
                8192,
                Box::new(move |n| {
                    let p = Pat::Inter((0..m).map(|i| opt(el(&format!("a{i}"), Pat::Empty))).collect());
                    let mut rr = Rng::new(seed, 5, 5);
                    let mut doc = String::from("<r>");
                    for _ in 0..n {
                        let mut o: Vec<usize> = (0..m).collect();
                        rr.shuffle(&mut o);
                        o.truncate(rr.range(3, m));
                        doc.push_str("<rec>");
                        for i in o {
                            let _ = write!(doc, "<a{i}/>");
                        }
                        doc.push_str("</rec>");
                    }
                    doc.push_str("</r>");
                    Inst { flat: only(el("r", star(el("rec", p)))), doc, valid: true, raw: None }
                }),
            )
        }
        34 => degrees(
            "enumeration",
            2.0,
            3.0,
            8,
            512,
            Box::new(move |n| Inst {
                flat: only(el("r", star(el("a", Pat::Choice((0..n).map(|i| Pat::Value(DT::xsd("token"), format!("v{i}"))).collect()))))),
                doc: {
                    let o = order(n, seed);
                    wrap("r", &rep(n, |i| format!("<a>v{}</a>", o[i])))
                },
                valid: true,
                raw: None,
            }),
        ),
        35 => degrees(
            "alternatives that begin alike",
            2.0,
            3.0,
            8,
            256,
            Box::new(move |n| Inst {
                flat: flat(
                    el("r", star(Pat::Choice((0..n).map(|i| Pat::Group(vec![rf("x"), el(&format!("a{i}"), Pat::Empty)])).collect()))),
                    vec![("x".into(), el("x", Pat::Text))],
                ),
                doc: {
                    let o = order(n, seed);
                    wrap("r", &rep(n.min(40), |i| format!("<x>t</x><a{}/>", o[i])))
                },
                valid: true,
                raw: None,
            }),
        ),
        36 => degrees(
            "alternatives whose first elements differ within",
            2.0,
            2.0,
            8,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Choice((0..n).map(|i| Pat::Group(vec![el("x", el(&format!("b{i}"), Pat::Empty)), el(&format!("a{i}"), Pat::Empty)])).collect())))),
                doc: {
                    let o = order(n, seed);
                    wrap("r", &rep(n.min(20), |i| format!("<x><b{}/></x><a{}/>", o[i], o[i])))
                },
                valid: true,
                raw: None,
            }),
        ),
        37 => degrees(
            "wide name classes",
            1.0,
            2.0,
            8,
            512,
            Box::new(move |n| Inst {
                flat: only(el("r", star(Pat::Elem(NC::AnyName(Some(Box::new(NC::Choice((0..n).map(|i| nm(&format!("a{i}"))).collect())))), Box::new(Pat::Empty))))),
                doc: wrap("r", &rep(n, |i| format!("<b{i}/>"))),
                valid: true,
                raw: None,
            }),
        ),
        38 => degrees(
            "parts that nest",
            2.0,
            2.0,
            4,
            64,
            Box::new(move |n| {
                let mut p = el("z", Pat::Empty);
                let mut q = el("z", Pat::Empty);
                for i in 0..n {
                    let e = el(&format!("e{i}"), Pat::Empty);
                    p = match (i + seed as usize) % 4 {
                        0 => Pat::Group(vec![opt(e), p]),
                        1 => Pat::Choice(vec![e, p]),
                        2 => star(p),
                        _ => Pat::Group(vec![p, opt(e)]),
                    };
                    q = Pat::Elem(nm("n"), Box::new(q));
                }
                Inst { flat: only(el("r", Pat::Group(vec![p, q]))), doc: format!("<r><z/>{}<z/>{}</r>", "<n>".repeat(n), "</n>".repeat(n)), valid: true, raw: None }
            }),
        ),
        39 => linear(
            "records, the last of them wrong",
            64,
            4096,
            Box::new(move |n| Inst {
                flat: only(el("log", star(el("r", Pat::Group(vec![at("id", Pat::Text), el("a", int())]))))),
                doc: wrap("log", &format!("{}<r id='x'><a>no</a></r>", rep(n, |i| format!("<r id='r{i}'><a>{i}</a></r>\n")))),
                valid: false,
                raw: None,
            }),
        ),
        40 => degrees(
            "attributes, each a choice",
            2.0,
            2.0,
            4,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Group((0..n).map(|i| Pat::Choice(vec![at(&format!("a{i}"), int()), at(&format!("b{i}"), Pat::Text), el(&format!("c{i}"), Pat::Text)])).collect()))),
                doc: format!("<r {}>{}</r>", rep(n, |i| match i % 3 { 0 => format!("a{i}='1' "), 1 => format!("b{i}='x' "), _ => "".into() }), rep(n, |i| if i % 3 == 2 { format!("<c{i}/>") } else { "".into() })),
                valid: true,
                raw: None,
            }),
        ),
        41 => degrees(
            "interleaved groups",
            2.0,
            2.0,
            4,
            128,
            Box::new(move |n| Inst {
                flat: only(el("r", Pat::Inter((0..n).map(|i| Pat::Group(vec![el(&format!("a{i}"), Pat::Empty), opt(el(&format!("b{i}"), Pat::Empty)), el(&format!("c{i}"), Pat::Empty)])).collect()))),
                doc: {
                    let o = order(n, seed);
                    wrap("r", &format!("{}{}", rep(n, |i| format!("<a{}/>", o[i])), rep(n, |i| format!("{}<c{i}/>", if i % 2 == 0 { format!("<b{i}/>") } else { "".into() }))))
                },
                valid: true,
                raw: None,
            }),
        ),
        42 => degrees(
            "attributes of wildcards besides names",
            2.0,
            2.0,
            4,
            256,
            Box::new(move |n| Inst {
                flat: only(el(
                    "r",
                    Pat::Group(vec![
                        Pat::Group((0..n / 2).map(|i| opt(at(&format!("a{i}"), int()))).collect()),
                        star(Pat::Attr(NC::NsName("urn:x".into(), None), Box::new(Pat::Text))),
                    ]),
                )),
                doc: format!("<r xmlns:x='urn:x' {}/>", rep(n / 2, |i| format!("a{i}='1' x:b{i}='2' "))),
                valid: true,
                raw: None,
            }),
        ),
        43 => degrees(
            "shared beginnings",
            1.0,
            3.0,
            2,
            64,
            Box::new(move |n| {
                let defs = (0..n)
                    .map(|i| {
                        let next = || rf(format!("d{}", i + 1));
                        let p = if i + 1 == n {
                            el("x", Pat::Empty)
                        } else {
                            Pat::Choice(vec![Pat::Group(vec![next(), el(&format!("e{i}"), Pat::Empty)]), Pat::Group(vec![next(), el(&format!("f{i}"), Pat::Empty)])])
                        };
                        (format!("d{i}"), p)
                    })
                    .collect();
                let doc = format!("<r><x/>{}</r>", rep(n - 1, |i| format!("<{}{}/>", if i % 2 == 0 { "e" } else { "f" }, n - 2 - i)));
                Inst { flat: flat(el("r", rf("d0")), defs), doc, valid: true, raw: None }
            }),
        ),
        44 => degrees(
            "optional sequences referred to twice",
            1.0,
            3.0,
            2,
            64,
            Box::new(move |n| {
                let defs = (0..n)
                    .map(|i| {
                        let next = || rf(format!("d{}", i + 1));
                        (format!("d{i}"), if i + 1 == n { opt(el("x", Pat::Empty)) } else { Pat::Group(vec![next(), next()]) })
                    })
                    .collect();
                Inst { flat: flat(el("r", rf("d0")), defs), doc: "<r><x/><x/></r>".into(), valid: true, raw: None }
            }),
        ),
        45 => degrees(
            "attributes in definitions referred to twice",
            1.0,
            3.0,
            2,
            64,
            Box::new(move |n| {
                let defs = (0..n)
                    .map(|i| {
                        let next = || rf(format!("d{}", i + 1));
                        let p = if i + 1 == n {
                            at("x", Pat::Text)
                        } else {
                            Pat::Choice(vec![Pat::Group(vec![next(), at(&format!("e{i}"), Pat::Text)]), Pat::Group(vec![next(), at(&format!("f{i}"), Pat::Text)])])
                        };
                        (format!("d{i}"), p)
                    })
                    .collect();
                let doc = format!("<r x=''{}/>", rep(n - 1, |i| format!(" {}{}=''", if i % 2 == 0 { "e" } else { "f" }, n - 2 - i)));
                Inst { flat: flat(el("r", rf("d0")), defs), doc, valid: true, raw: None }
            }),
        ),
        46 => degrees(
            "text in definitions referred to twice",
            1.0,
            3.0,
            2,
            64,
            Box::new(move |n| {
                let defs = (0..n)
                    .map(|i| {
                        let next = || rf(format!("d{}", i + 1));
                        let p = if i + 1 == n {
                            Pat::Text
                        } else {
                            Pat::Choice(vec![Pat::Group(vec![next(), el(&format!("e{i}"), Pat::Empty)]), Pat::Group(vec![next(), el(&format!("f{i}"), Pat::Empty)])])
                        };
                        (format!("d{i}"), p)
                    })
                    .collect();
                let doc = format!("<r>text {}</r>", rep(n - 1, |i| format!("<{}{}/>", if i % 2 == 0 { "e" } else { "f" }, n - 2 - i)));
                Inst { flat: flat(el("r", rf("d0")), defs), doc, valid: true, raw: None }
            }),
        ),
        47 => {
            let kind = r.below(3);
            degrees(
                "overlapping classes of elements",
                1.0,
                3.0,
                4,
                128,
                Box::new(move |n| {
                    let defs = (0..n)
                        .map(|i| {
                            let mut v: Vec<Pat> = (i + 1..(i + 3).min(n)).map(|k| rf(format!("d{k}"))).collect();
                            match kind {
                                0 => {}
                                1 => v.push(el(&format!("e{i}"), Pat::Empty)),
                                _ => v.insert(0, el(&format!("e{i}"), Pat::Text)),
                            }
                            (format!("d{i}"), if v.is_empty() || i + 1 == n { el("x", Pat::Empty) } else { Pat::Choice(v) })
                        })
                        .collect();
                    Inst { flat: flat(el("r", star(rf("d0"))), defs), doc: wrap("r", &"<x/>".repeat(n)), valid: true, raw: None }
                }),
            )
        }
        48 => {
            let kind = r.below(2);
            degrees(
                "overlapping classes of values or attributes",
                1.0,
                3.0,
                4,
                128,
                Box::new(move |n| {
                    let defs = (0..n)
                        .map(|i| {
                            let v: Vec<Pat> = (i + 1..(i + 3).min(n)).map(|k| rf(format!("d{k}"))).collect();
                            let last = if kind == 0 { at("x", Pat::Text) } else { Pat::Value(DT::builtin("token"), "x".into()) };
                            (format!("d{i}"), if v.is_empty() || i + 1 == n { last } else { Pat::Choice(v) })
                        })
                        .collect();
                    Inst { flat: flat(el("r", rf("d0")), defs), doc: if kind == 0 { "<r x=''/>".into() } else { "<r>x</r>".into() }, valid: true, raw: None }
                }),
            )
        }
        // schemas as text
        49..=60 => {
            let (name, deg, to, make): (&'static str, f64, usize, fn(usize) -> (bool, String, String)) = match k {
                49 => ("compact: parentheses", 1.0, 64, |n| (false, format!("element r {{ {}element a {{ empty }}{} }}", "(".repeat(n), ")".repeat(n)), "<r><a/></r>".into())),
                50 => ("compact: nested groups and choices", 1.0, 64, |n| {
                    (false, format!("element r {{ {}element a {{ empty }}{} }}", "(empty | ((".repeat(n), "), empty))?".repeat(n)), "<r><a/></r>".into())
                }),
                51 => ("compact: nested annotations", 1.0, 64, |n| {
                    (false, format!("namespace x = \"urn:x\"\n[ {} \"t\" {} ] element r {{ empty }}", "x:e [ x:a = \"v\" ".repeat(n), "]".repeat(n)), "<r/>".into())
                }),
                52 => ("compact: divs", 1.0, 64, |n| (false, format!("{} start = element r {{ empty }} {}", "div { ".repeat(n), "}".repeat(n)), "<r/>".into())),
                53 => ("compact: combined definitions", 2.0, 256, |n| {
                    (false, format!("start = element r {{ d* }}\n{}", rep(n, |i| format!("d |= element e{i} {{ empty }}\n"))), wrap("r", &rep(n, |i| format!("<e{i}/>"))))
                }),
                54 => ("compact: concatenated literals", 1.0, 1024, |n| {
                    (false, format!("element r {{ {}\"x\" }}", "\"ab\" ~ ".repeat(n)), format!("<r>{}x</r>", "ab".repeat(n)))
                }),
                55 => ("compact: name classes in parentheses", 1.0, 64, |n| (false, format!("element {}r{} {{ empty }}", "(".repeat(n), ")".repeat(n)), "<r/>".into())),
                56 => ("compact: nested grammars", 2.0, 32, |n| {
                    (false, format!("{}start = element r {{ empty }} {}", "start = d d = grammar { ".repeat(n), "}".repeat(n)), "<r/>".into())
                }),
                57 => ("compact: comments and documentation", 1.0, 2048, |n| {
                    (false, format!("{}start = element r {{ empty }} {}", "# comment\n## documentation\n".repeat(n), "# more\n".repeat(n)), "<r/>".into())
                }),
                58 => ("XML: nested patterns", 1.0, 64, |n| {
                    (true, format!("<element name='r' xmlns='http://relaxng.org/ns/structure/1.0'>{}<element name='a'><empty/></element>{}</element>", "<group><optional>".repeat(n), "</optional></group>".repeat(n)), "<r><a/></r>".into())
                }),
                59 => ("XML: annotations", 1.0, 256, |n| {
                    (true, format!("<grammar xmlns='http://relaxng.org/ns/structure/1.0' xmlns:x='urn:x'>{}{}<start><element name='r'><empty/></element></start>{}</grammar>", "<x:a x:b='c'>".repeat(n), "</x:a>".repeat(n), "<x:d>text</x:d>".repeat(n)), "<r/>".into())
                }),
                _ => ("compact: facets and values", 1.0, 256, |n| {
                    (false, format!("element r {{ xsd:string {{ {} }} }}", rep(n, |_| "pattern = \"[a-z]*\"\n".into())), "<r>abc</r>".into())
                }),
            };
            Some(Fam {
                name,
                load: deg,
                val: deg,
                from: 4,
                to,
                make: Box::new(move |n| {
                    let (xml, schema, doc) = make(n);
                    Inst { flat: only(Pat::Empty), raw: Some((xml, schema)), doc, valid: true }
                }),
            })
        }
        62..=91 => {
            let names: Vec<&str> = "a b c d".split(' ').take(r.range(2, 4)).collect();
            let list = r.chance(1, 4);
            let e = star(content(r, &names, 3, !list));
            if list || r.bool() {
                let (mut words, mut len) = (vec![], 0);
                while len < 60 {
                    let mut w = vec![];
                    word_of(r, &e, &mut w);
                    len += w.len() + 1;
                    words.push(rep(w.len(), |i| if list { format!("{} ", w[i]) } else { format!("<{}/>", w[i]) }));
                }
                let e = if list { Pat::List(Box::new(map_names(&e, &|n| Pat::Value(DT::builtin("token"), n.into())))) } else { e };
                linear(
                    if list { "random list, repeated" } else { "random content, repeated" },
                    4,
                    1024,
                    Box::new(move |n| Inst { flat: only(el("r", e.clone())), doc: wrap("r", &rep(n, |i| words[i % words.len()].clone())), valid: true, raw: None }),
                )
            } else {
                // the same, but for the content being nested
                let e = content(r, &names, 2, true);
                let mut paths = vec![];
                for _ in 0..8 {
                    let mut w = vec![];
                    word_of(r, &e, &mut w);
                    if !w.is_empty() {
                        let k = r.below(w.len());
                        paths.push((w[..k].iter().map(|x| format!("<{x}/>")).collect::<String>(), w[k].clone(), w[k + 1..].iter().map(|x| format!("<{x}/>")).collect::<String>()));
                    }
                }
                if paths.is_empty() {
                    return None;
                }
                let recursive = map_names(&e, &|n| rf(format!("{n}-def")));
                let defs: Vec<(String, Pat)> = names.iter().map(|n| (format!("{n}-def"), el(n, opt(recursive.clone())))).collect();
                linear(
                    "random content, nested",
                    8,
                    1024,
                    Box::new(move |n| {
                        let mut doc = String::new();
                        for i in 0..n {
                            let (before, open, _) = &paths[i % paths.len()];
                            let _ = write!(doc, "{before}<{open}>");
                        }
                        for i in (0..n).rev() {
                            let (_, open, after) = &paths[i % paths.len()];
                            let _ = write!(doc, "</{open}>{after}");
                        }
                        Inst { flat: flat(el("r", recursive.clone()), defs.clone()), doc: wrap("r", &doc), valid: true, raw: None }
                    }),
                )
            }
        }
        _ => linear(
            "a long document of everything",
            16,
            1024,
            Box::new(move |n| {
                let para = || star(Pat::Choice(vec![rf("b"), rf("i"), rf("list")]));
                let defs = vec![
                    ("b".to_string(), el("b", Pat::Mixed(Box::new(para())))),
                    ("i".to_string(), el("i", Pat::Mixed(Box::new(para())))),
                    ("list".to_string(), el("list", Pat::Group(vec![opt(at("type", Pat::Text)), plus(el("item", Pat::Mixed(Box::new(para()))))]))),
                    ("p".to_string(), el("p", Pat::Mixed(Box::new(para())))),
                    ("sec".to_string(), el("sec", Pat::Group(vec![Pat::Inter(vec![el("title", Pat::Text), opt(el("id", Pat::Text))]), star(Pat::Choice(vec![rf("p"), rf("list"), rf("sec")]))]))),
                ];
                let sec = "<sec><id>x</id><title>t</title><p>a<b>b<i>c</i></b></p><list><item>1<list type='x'><item/></list></item><item>2</item></list><sec><title/></sec></sec>\n";
                Inst { flat: flat(el("doc", star(rf("sec"))), defs), doc: wrap("doc", &sec.repeat(n)), valid: true, raw: None }
            }),
        ),
    }
}

/// A random content model; operands of interleaves have no names in common
fn content(r: &mut Rng, names: &[&str], depth: usize, inter: bool) -> Pat {
    if depth == 0 || r.chance(1, 6) {
        return el(*r.pick(names), Pat::Empty);
    }
    match r.below(if inter && names.len() > 1 { 8 } else { 6 }) {
        0 => star(content(r, names, depth - 1, inter)),
        1 => plus(content(r, names, depth - 1, inter)),
        2 => opt(content(r, names, depth - 1, inter)),
        3 => Pat::Choice(vec![content(r, names, depth - 1, inter), content(r, names, depth - 1, inter)]),
        4 | 5 => Pat::Group(vec![content(r, names, depth - 1, inter), content(r, names, depth - 1, inter)]),
        _ => {
            let k = r.range(1, names.len() - 1);
            Pat::Inter(vec![content(r, &names[..k], depth - 1, inter), content(r, &names[k..], depth - 1, inter)])
        }
    }
}

fn map_names(p: &Pat, f: &impl Fn(&str) -> Pat) -> Pat {
    let all = |v: &[Pat]| v.iter().map(|p| map_names(p, f)).collect();
    match p {
        Pat::Elem(NC::Name(_, n), _) => f(n),
        Pat::Star(p) => star(map_names(p, f)),
        Pat::Plus(p) => plus(map_names(p, f)),
        Pat::Opt(p) => opt(map_names(p, f)),
        Pat::Choice(v) => Pat::Choice(all(v)),
        Pat::Group(v) => Pat::Group(all(v)),
        Pat::Inter(v) => Pat::Inter(all(v)),
        _ => unreachable!(),
    }
}

/// A random sequence of elements that matches
fn word_of(r: &mut Rng, p: &Pat, w: &mut Vec<String>) {
    match p {
        Pat::Elem(NC::Name(_, n), _) => w.push(n.clone()),
        Pat::Star(p) => {
            for _ in 0..r.below(4) {
                word_of(r, p, w)
            }
        }
        Pat::Plus(p) => {
            for _ in 0..r.range(1, 3) {
                word_of(r, p, w)
            }
        }
        Pat::Opt(p) => {
            if r.bool() {
                word_of(r, p, w)
            }
        }
        Pat::Choice(v) => {
            let k = r.below(v.len());
            word_of(r, &v[k], w)
        }
        Pat::Group(v) => v.iter().for_each(|p| word_of(r, p, w)),
        Pat::Inter(v) => {
            let mut parts = v
                .iter()
                .map(|p| {
                    let mut w = vec![];
                    word_of(r, p, &mut w);
                    w.reverse();
                    w
                })
                .collect::<Vec<_>>();
            loop {
                parts.retain(|p| !p.is_empty());
                if parts.is_empty() {
                    return;
                }
                let k = r.below(parts.len());
                w.push(parts[k].pop().unwrap());
            }
        }
        _ => unreachable!(),
    }
}

fn drain(v: &mut relaxng_validator::Validator, limit: usize) -> Result<bool, String> {
    let mut steps = 0;
    loop {
        steps += 1;
        match v.validate_next() {
            None => return Ok(true),
            Some(Ok(())) => {}
            Some(Err(_)) => return Ok(false),
        }
        if steps > limit {
            return Err("validate_next makes no progress".into());
        }
    }
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let k = match std::env::var("C15_FAMILY") {
        Ok(k) => k.parse().unwrap(),
        Err(_) => (ctx.index as usize) % FAMILIES,
    };
    let Some(f) = family(k, &mut r) else { return Ok(()) };
    let xml = r.bool();
    let from = f.from * r.range(4, 7) / 4;
    // thorough runs go further
    let most = if ctx.tier == Tier::Quick { 100_000_000 } else { 600_000_000 };
    let to = if ctx.tier == Tier::Quick { f.to } else { f.to * 4 };
    let mut series: Vec<(usize, Cost, Cost)> = vec![];
    let mut n = from;
    let mut text = String::new();
    while n <= to {
        let i = (f.make)(n);
        let top = i.flat.to_top();
        let mut pr = Rng::new(1, 2, 3);
        let xml = i.raw.as_ref().map_or(xml, |r| r.0);
        let (root, schema) = if let Some((xml, text)) = i.raw {
            (if xml { "s.rng" } else { "s.rnc" }, text)
        } else if xml { ("s.rng", print_rng::print(&top, false, 0, &mut pr)) } else { ("s.rnc", print_rnc::print(&top, &print_rnc::Env::default(), 0, &mut pr)) };
        let files: BTreeMap<String, String> = run::one(root, &schema);
        if n == from {
            text = format!("{}--- document (n = {n})\n{}\n", show_files(&files), i.doc.chars().take(3000).collect::<String>());
        }
        let fail = |m: String| Fail(format!("family {:?}, n = {n}: {m}\n{}", f.name, text));
        let fs = run::MemFiles::new(files.clone());
        let (got, load) = measure(|| {
            guarded(|| {
                let mut c = relaxng_model::Compiler::new(fs, if xml { relaxng_model::Syntax::Xml } else { relaxng_model::Syntax::Compact });
                c.compile(Path::new(root))
            })
        });
        let model = match got {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(fail(format!("a correct schema is rejected: {}", format!("{e:?}").chars().take(500).collect::<String>()))),
            Err(p) => return Err(fail(p)),
        };
        let doc = &i.doc;
        let (verdict, val) = measure(|| {
            guarded(|| {
                let mut v = relaxng_validator::Validator::new(model.clone(), xmlparser::Tokenizer::from(&doc[..]));
                drain(&mut v, 4 * doc.len() + 1000)
            })
        });
        match verdict {
            Ok(Ok(v)) if v == i.valid => {}
            Ok(Ok(v)) => return Err(fail(format!("the document is {}, but reported as {}", word(i.valid), word(v)))),
            Ok(Err(m)) | Err(m) => return Err(fail(m)),
        }
        ctx.eval();
        if ctx.verbose {
            println!("{} n {n} schema {} doc {} load {load:?} val {val:?}", f.name, schema.len(), doc.len());
        }
        ctx.max("document length", doc.len() as u64);
        ctx.max("schema length", schema.len() as u64);
        ctx.add("doublings measured", !series.is_empty() as u64);
        series.push((n, load, val));
        judge(&f, &series).map_err(|m| Fail(format!("family {:?}: {m}\n{}\n{}", f.name, table(&series), text)))?;
        if load.bytes + val.bytes > most || load.nanos + val.nanos > if ctx.tier == Tier::Quick { 600_000_000 } else { 5_000_000_000 } {
            break;
        }
        n *= 2;
    }
    ctx.distinct(&[f.name, &text]);
    ctx.count(if f.val == 1.0 { "families that are linear in the document" } else { "families of other degrees" });
    ctx.sample(|| format!("family {:?}\n{}\n{}", f.name, table(&series), text));
    Ok(())
}

fn word(v: bool) -> &'static str {
    if v {
        "valid"
    } else {
        "not valid"
    }
}

fn table(s: &[(usize, Cost, Cost)]) -> String {
    let mut t = String::new();
    for (n, l, v) in s {
        let _ = writeln!(
            t,
            "n {n}: loading {} allocations, {} bytes, {} at most, {} ms; validating {} allocations, {} bytes, {} at most, {} ms",
            l.allocations,
            l.bytes,
            l.peak,
            l.nanos / 1_000_000,
            v.allocations,
            v.bytes,
            v.peak,
            v.nanos / 1_000_000
        );
    }
    t
}

/// Judges the growth up to the last entry
fn judge(f: &Fam, s: &[(usize, Cost, Cost)]) -> Result<(), String> {
    let m = s.len();
    for (what, deg, pick) in [("loading", f.load, 1), ("validating", f.val, 2)] {
        let get = |i: usize| if pick == 1 { s[i].1 } else { s[i].2 };
        let series = |g: &dyn Fn(&Cost) -> u64| (0..m).map(|i| g(&get(i)) as f64).collect::<Vec<_>>();
        for (unit, small, slack, v) in [
            ("allocations", 2_000.0, 0.35, series(&|c| c.allocations)),
            ("bytes allocated", 400_000.0, 0.5, series(&|c| c.bytes)),
            ("memory in use", 400_000.0, 0.75, series(&|c| c.peak)),
            ("CPU time", 50_000_000.0, 1.2, series(&|c| c.nanos)),
        ] {
            // one doubling: no leap
            if m >= 2 {
                let d = (v[m - 1] / v[m - 2].max(1.0)).log2();
                let small = if unit == "CPU time" { small } else { small / 4.0 };
                if v[m - 2] > small && d > deg + 2.0 {
                    return Err(format!("{what}: {unit} grow by a factor of {:.1} as the size doubles", d.exp2()));
                }
            }
            if m >= 3 {
                let d = (v[m - 1] / v[m - 3].max(1.0)).log2() / 2.0;
                if v[m - 3] > small && d > deg + slack {
                    return Err(format!("{what}: {unit} grow with degree {d:.2}, rather than {deg}, in the size"));
                }
            }
        }
    }
    Ok(())
}
