//! Schemas and documents that have much of one thing: children, alternatives, attributes, levels, items, names, text, ..
use crate::ast::*;
use crate::doc::*;
use crate::gen::DocGen;
use crate::ir::Ir;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Structure,
    Names,
    Values,
    Any,
}

/// Between 2 and about `max`; each order of magnitude is as likely as the others
pub fn size(r: &mut Rng, max: usize) -> usize {
    let bits = (usize::BITS - max.leading_zeros()) as usize - 1;
    let b = r.range(1, bits);
    r.range(1 << b, (2 << b) - 1).min(max)
}

fn name(l: String) -> NC {
    NC::Name("".into(), l)
}
fn elem(l: String, p: Pat) -> Pat {
    Pat::Elem(name(l), Box::new(p))
}
fn bx(p: Pat) -> Box<Pat> {
    Box::new(p)
}
fn many(r: &mut Rng, p: Pat) -> Pat {
    match r.below(8) {
        0..=2 => Pat::Opt(bx(p)),
        3 => Pat::Star(bx(p)),
        4 => Pat::Plus(bx(p)),
        _ => p,
    }
}
fn leaf(r: &mut Rng) -> Pat {
    match r.below(5) {
        0 => Pat::Text,
        1 => Pat::Value(DT::builtin("token"), "v".into()),
        2 => Pat::Data(DT::xsd("integer"), vec![], None),
        _ => Pat::Empty,
    }
}
/// A choice of (at least two) things, or just the one
fn choice(mut v: Vec<Pat>) -> Pat {
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        Pat::Choice(v)
    }
}
/// Definition names whose alphabetical order has nothing to do with the given one
fn def_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|i| format!("d{i}")).collect();
    r.shuffle(&mut v);
    v
}

/// How many there may be
pub struct Limits {
    pub items: usize,
    pub levels: usize,
}
pub const USUAL: Limits = Limits { items: 400, levels: 150 };

pub struct Large {
    pub what: &'static str,
    pub flat: Flat,
}

pub fn schema(r: &mut Rng, kind: Kind, lim: &Limits) -> Large {
    let kind = match kind {
        Kind::Any => *r.pick(&[Kind::Structure, Kind::Structure, Kind::Names, Kind::Values]),
        k => k,
    };
    let mut defs = BTreeMap::new();
    let n = size(r, lim.items);
    let (what, body) = match kind {
        Kind::Structure | Kind::Any => match r.below(10) {
            0 => {
                // a sequence
                let k = *r.pick(&[2, 5, n]);
                let v = (0..n)
                    .map(|i| {
                        let p = elem(format!("e{}", i % k), leaf(r));
                        many(r, p)
                    })
                    .collect();
                ("sequence", Pat::Group(v))
            }
            1 => {
                let v = (0..n).map(|i| elem(format!("e{i}"), leaf(r))).collect();
                let c = choice(v);
                ("alternatives", if r.bool() { Pat::Star(bx(c)) } else { Pat::Plus(bx(c)) })
            }
            2 => {
                let n = n.min(25);
                let v = (0..n)
                    .map(|i| {
                        let p = elem(format!("e{i}"), leaf(r));
                        many(r, p)
                    })
                    .collect();
                ("interleave", Pat::Inter(v))
            }
            3 => {
                let n = n.min(60);
                let v: Vec<Pat> = (0..n)
                    .map(|i| {
                        let b = if r.bool() { Pat::Text } else { leaf(r) };
                        let p = Pat::Attr(name(format!("a{i}")), bx(b));
                        if r.bool() {
                            Pat::Opt(bx(p))
                        } else {
                            p
                        }
                    })
                    .collect();
                ("attributes", if r.chance(1, 3) { Pat::Inter(v) } else { Pat::Group(v) })
            }
            4 => {
                // definitions that just refer to one another, up to one that refers to some of them
                let n = size(r, lim.levels);
                let names = def_names(r, n);
                for i in 0..n {
                    let p = if i + 1 < n {
                        Pat::Ref(names[i + 1].clone())
                    } else {
                        let back = Pat::Ref(names[r.below(n)].clone());
                        let back = if r.bool() { Pat::Opt(bx(back)) } else { Pat::Star(bx(back)) };
                        elem("e".into(), if r.bool() { back } else { Pat::Group(vec![back, elem("x".into(), Pat::Empty)]) })
                    };
                    defs.insert(names[i].clone(), p);
                }
                let k = if r.bool() { 0 } else { r.below(n) };
                ("aliases", Pat::Star(bx(Pat::Ref(names[k].clone()))))
            }
            5 => {
                // recursion
                let p = match r.below(3) {
                    0 => elem("e".into(), Pat::Opt(bx(Pat::Choice(vec![Pat::Ref("d".into()), elem("x".into(), leaf(r))])))),
                    1 => Pat::Elem(NC::Name("urn:a".into(), "e".into()), bx(Pat::Opt(bx(Pat::Choice(vec![Pat::Ref("d".into()), Pat::Ref("f".into())]))))),
                    _ => elem(
                        "e".into(),
                        Pat::Group(vec![
                            Pat::Opt(bx(elem("x".into(), leaf(r)))),
                            Pat::Opt(bx(Pat::Ref("d".into()))),
                            Pat::Opt(bx(Pat::Ref("f".into()))),
                        ]),
                    ),
                };
                defs.insert("d".into(), p);
                defs.insert("f".into(), elem("f".into(), Pat::Opt(bx(Pat::Choice(vec![Pat::Ref("f".into()), Pat::Ref("d".into())])))));
                ("levels", Pat::Ref("d".into()))
            }
            6 => {
                // operators around operators
                let n = size(r, lim.levels.min(60));
                let mut p = elem("e".into(), leaf(r));
                for i in 0..n {
                    p = match r.below(7) {
                        0 => Pat::Opt(bx(p)),
                        1 => Pat::Star(bx(p)),
                        2 => Pat::Plus(bx(p)),
                        3 => Pat::Choice(vec![p, elem(format!("c{i}"), Pat::Empty)]),
                        4 => Pat::Group(vec![p, Pat::Opt(bx(elem(format!("g{i}"), Pat::Empty)))]),
                        5 => Pat::Group(vec![Pat::Opt(bx(elem(format!("h{i}"), Pat::Empty))), p]),
                        _ => Pat::Choice(vec![p, Pat::Empty]),
                    };
                }
                ("operators", p)
            }
            7 => {
                // many definitions of elements
                let names = def_names(r, n);
                for i in 0..n {
                    let mut v = vec![];
                    for _ in 0..r.below(3) {
                        v.push(Pat::Opt(bx(Pat::Ref(names[r.below(n)].clone()))));
                    }
                    if i + 1 < n && r.chance(2, 3) {
                        v.push(Pat::Ref(names[i + 1].clone()));
                    }
                    let p = match v.len() {
                        0 => leaf(r),
                        1 => v.pop().unwrap(),
                        _ => Pat::Group(v),
                    };
                    defs.insert(names[i].clone(), elem(format!("e{}", i % 40), p));
                }
                let refs = (0..r.range(1, 4)).map(|_| Pat::Ref(names[n - 1 - r.below(n.min(30))].clone())).collect();
                ("definitions", Pat::Star(bx(choice(refs))))
            }
            8 => {
                let mut v: Vec<Pat> = (0..r.range(1, 4))
                    .map(|i| {
                        let p = elem(format!("e{}", i % 3), leaf(r));
                        many(r, p)
                    })
                    .collect();
                let p = if v.len() == 1 { v.pop().unwrap() } else { Pat::Group(v) };
                ("repetition", Pat::Star(bx(p)))
            }
            _ => {
                // text of any length around some elements
                ("mixed", Pat::Mixed(bx(Pat::Star(bx(choice(vec![elem("e".into(), Pat::Text), elem("f".into(), Pat::Empty)]))))))
            }
        },
        Kind::Names => match r.below(5) {
            0 | 1 => {
                let nss = ["", "urn:a", "urn:b"];
                let v: Vec<NC> = (0..n).map(|i| NC::Name(nss[i % r.range(1, 3)].into(), format!("n{i}"))).collect();
                let nc = NC::Choice(v);
                let nc = match r.below(4) {
                    0 => NC::AnyName(Some(Box::new(nc))),
                    1 => NC::NsName("urn:a".into(), Some(Box::new(nc))),
                    _ => nc,
                };
                if r.chance(1, 3) {
                    let a = Pat::Attr(nc, bx(Pat::Text));
                    ("name classes", Pat::Star(bx(elem("x".into(), Pat::Plus(bx(a))))))
                } else {
                    ("name classes", Pat::Star(bx(Pat::Elem(nc, bx(Pat::Empty)))))
                }
            }
            2 => {
                // names that differ late
                let stem = r.pick(&["n", "é", "日", "ab-"]).repeat(n);
                let v = (0..r.range(1, 3)).map(|i| elem(format!("{stem}{i}"), Pat::Empty)).collect();
                ("long names", Pat::Star(bx(choice(v))))
            }
            3 => {
                let stem = r.pick(&["urn:x", "http://example.org/", "é"]).repeat(n);
                let v: Vec<Pat> = (0..r.range(1, 3))
                    .map(|i| {
                        let nc = NC::Name(format!("{stem}{i}"), "e".into());
                        let a = Pat::Attr(NC::Name(format!("{stem}{}", i % 2), "a".into()), bx(Pat::Text));
                        Pat::Elem(nc, bx(Pat::Opt(bx(a))))
                    })
                    .collect();
                ("long namespaces", Pat::Star(bx(choice(v))))
            }
            _ => {
                // levels, in several namespaces
                let nss = ["urn:a", "urn:b", ""];
                let v: Vec<Pat> = (0..3)
                    .map(|i| {
                        let a = Pat::Opt(bx(Pat::Attr(NC::Name(nss[(i + 1) % 3].into(), "a".into()), bx(Pat::Text))));
                        Pat::Elem(NC::Name(nss[i].into(), "e".into()), bx(Pat::Group(vec![a, Pat::Opt(bx(Pat::Ref("d".into())))])))
                    })
                    .collect();
                defs.insert("d".into(), choice(v));
                ("levels of namespaces", Pat::Ref("d".into()))
            }
        },
        Kind::Values => {
            let string = match r.below(7) {
                0 | 1 => {
                    let mut v: Vec<Pat> = vec![];
                    for i in 0..r.range(1, 4) {
                        v.push(match r.below(3) {
                            0 => Pat::Data(DT::xsd("integer"), vec![], None),
                            1 => Pat::Value(DT::builtin("token"), format!("v{i}")),
                            _ => Pat::Choice(vec![Pat::Value(DT::builtin("token"), "x".into()), Pat::Value(DT::builtin("token"), format!("y{i}"))]),
                        });
                    }
                    let g = if v.len() == 1 {
                        v.pop().unwrap()
                    } else if r.bool() {
                        Pat::Group(v)
                    } else {
                        Pat::Choice(v)
                    };
                    ("list", Pat::List(bx(if r.bool() { Pat::Star(bx(g)) } else { Pat::Plus(bx(g)) })))
                }
                2 => {
                    let k = *r.pick(&[3, n]);
                    let v = (0..n)
                        .map(|i| {
                            let p = Pat::Value(DT::builtin("token"), format!("v{}", i % k));
                            if r.chance(1, 3) {
                                Pat::Opt(bx(p))
                            } else {
                                p
                            }
                        })
                        .collect();
                    ("items", Pat::List(bx(Pat::Group(v))))
                }
                3 => ("values", choice((0..n).map(|i| Pat::Value(DT::builtin("token"), format!("v{i}"))).collect())),
                4 => {
                    let v = choice((0..n).map(|i| Pat::Value(DT::builtin("token"), format!("{i}"))).collect());
                    ("exceptions", Pat::Data(DT::builtin("token"), vec![], Some(bx(v))))
                }
                5 => {
                    let stem: String = (0..n).map(|_| *r.pick(&['a', 'b', ' ', 'é', '日', '0'])).collect();
                    let stem = format!("x{stem}x");
                    let t = r.pick(&[DT::builtin("token"), DT::builtin("string"), DT::xsd("string"), DT::xsd("token")]).clone();
                    ("long value", Pat::Value(t, stem))
                }
                _ => {
                    let ex = Pat::Value(r.pick(&[DT::builtin("token"), DT::xsd("string")]).clone(), "1".repeat(n));
                    ("long exception", Pat::Data(DT::xsd("integer"), vec![], Some(bx(ex))))
                }
            };
            if r.bool() {
                (string.0, string.1)
            } else {
                (string.0, Pat::Attr(name("a".into()), bx(string.1)))
            }
        }
    };
    let root = if r.chance(1, 4) { NC::Name("urn:r".into(), "r".into()) } else { name("r".into()) };
    Large { what, flat: Flat { start: Pat::Elem(root, bx(body)), defs } }
}

/// A character or word more, less or other
fn vary(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if s.contains(' ') && r.bool() {
        let mut w: Vec<&str> = s.split(' ').collect();
        let i = if r.chance(1, 4) { w.len() - 1 } else { r.below(w.len()) };
        match r.below(4) {
            0 => {
                w.remove(i);
            }
            1 => w.insert(i, w[r.below(w.len())]),
            2 => w[i] = w[r.below(w.len())],
            _ => w[i] = "other",
        }
        return w.join(" ");
    }
    let i = if r.chance(1, 4) { c.len().saturating_sub(1) } else { r.below(c.len()) };
    let x = *r.pick(&['a', '1', ' ', '\n', 'x', 'é']);
    match r.below(3) {
        0 if !c.is_empty() => {
            c.remove(i);
        }
        1 if !c.is_empty() => c[i] = x,
        _ => c.insert(i, x),
    }
    c.into_iter().collect()
}

fn mutate(doc: &mut Elem, ir: &Ir, r: &mut Rng) {
    let paths = doc.paths();
    let path = if r.chance(1, 4) { paths.last().unwrap().clone() } else { r.pick(&paths).clone() };
    let e = doc.at_mut(&path);
    let texts: Vec<usize> = (0..e.children.len()).filter(|i| matches!(e.children[*i], Node::Text(_))).collect();
    match r.below(8) {
        0 | 1 if !texts.is_empty() => {
            if let Node::Text(t) = &mut e.children[*r.pick(&texts)] {
                *t = vary(t, r)
            }
        }
        2 | 3 if !e.atts.is_empty() => {
            let i = r.below(e.atts.len());
            e.atts[i].value = vary(&e.atts[i].value, r);
        }
        4 => {
            let l = vary(&e.local, r);
            if l.starts_with(char::is_alphabetic) && !l.contains(char::is_whitespace) {
                e.local = l
            }
        }
        5 if !e.ns.is_empty() => {
            let n = vary(&e.ns, r);
            if !n.is_empty() && !n.contains(char::is_whitespace) {
                e.ns = n
            }
        }
        _ => DocGen::new(ir, r, 4).mutate(doc),
    }
    doc.normalize();
}

/// Documents that match, and some that differ from these a bit
pub fn documents(ir: &Ir, r: &mut Rng, valid: usize, mutants: usize, lim: &Limits) -> Vec<Elem> {
    let mut out = vec![];
    for _ in 0..valid {
        let mut n = size(r, lim.items);
        let mut levels = size(r, lim.levels);
        let mut d = DocGen::large(ir, r, n, levels).doc();
        while d.count() >= 4 * lim.items && n > 0 {
            n /= 2;
            levels /= 2;
            d = DocGen::large(ir, r, n, levels).doc();
        }
        if r.chance(1, 6) {
            DocGen::new(ir, r, 4).indent(&mut d);
        }
        for _ in 0..mutants {
            let mut m = d.clone();
            for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                mutate(&mut m, ir, r);
            }
            out.push(m);
        }
        out.push(d);
    }
    out
}
