//! C02: name classes and namespaces
use crate::common::*;
use crate::doc::*;
use crate::gen;
use crate::ir::*;
use crate::mon::*;
use crate::scale;
use crate::rng::Rng;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C02",
    case,
    quick: 240_000,
    thorough: 1_500_000,
    resources: false,
    rule: "Random correct schemas rich in name classes (nsName, anyName, choices, nested exceptions) and namespaces, written with random prefixes, default namespaces and scoping in either syntax; documents with names from, next to and outside of those name classes, written with random (also shadowing) namespace declarations; verdicts are compared with two reference matchers. Distinct (schema, document) texts that were judged.",
    assumptions: &["the reference matchers implement the specification of name classes"],
    min: &[
        ("documents that match", 1000),
        ("documents that do not match", 1000),
        ("documents with a changed name", 1000),
        ("name classes with exceptions", 500),
        ("large schemas or documents", 200),
    ],
    once: None,
};

/// Change the name of an element or attribute to one close to those in the schema
pub fn rename(doc: &mut Elem, ir: &Ir, r: &mut Rng) {
    let mut nss = vec![String::new(), "urn:other".to_string(), xml::XML_NS.to_string()];
    let mut locals = vec!["other".to_string()];
    for n in &ir.nodes {
        if let N::Elem(nc, _) | N::Attr(nc, _) = n {
            let mut v = vec![];
            nc.names(&mut v);
            for (ns, l) in v {
                if !ns.starts_with('\u{1}') && !nss.contains(&ns) {
                    nss.push(ns)
                }
                if !l.starts_with('\u{1}') && !locals.contains(&l) {
                    locals.push(l)
                }
            }
        }
    }
    let ns = r.pick(&nss).clone();
    let local = r.pick(&locals).clone();
    let paths = doc.paths();
    let path = r.pick(&paths).clone();
    let e = doc.at_mut(&path);
    let keep_ns = r.bool();
    if !e.atts.is_empty() && r.bool() {
        let i = r.below(e.atts.len());
        let (ns, local) = if keep_ns { (e.atts[i].ns.clone(), local) } else { (ns, e.atts[i].local.clone()) };
        if !(ns.is_empty() && local == "xmlns") && !e.atts.iter().any(|a| a.ns == ns && a.local == local) {
            e.atts[i].ns = ns;
            e.atts[i].local = local;
        }
    } else if keep_ns {
        e.local = local;
    } else {
        e.ns = ns;
    }
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    if r.chance(1, 40) {
        let kind = if r.chance(3, 4) { scale::Kind::Names } else { scale::Kind::Structure };
        let fancy = *r.pick(&[0, 0, 10]);
        if let Some((s, mut docs)) = large(ctx, &mut r, 1, kind, fancy)? {
            let mut m = docs[0].clone();
            rename(&mut m, &s.ir, &mut r);
            docs.push(m);
            let mut style = xml::Style::plain();
            style.fancy = *r.pick(&[0, 0, 15]);
            return verdicts(ctx, &s, &docs, &style, &mut r);
        }
    }
    let mut cfg = gen::Cfg {
        wild: *r.pick(&[15, 30, 60]),
        namespaces: 3,
        data: 4,
        depth: 2,
        elem_defs: (1, 3),
        other_defs: (0, 2),
        odd_names: 15,
        ..gen::Cfg::default()
    };
    if r.chance(1, 3) {
        cfg.attrs = 70;
    }
    let flat = gen::schema(&mut r, &cfg);
    let xml = r.bool();
    let fancy = *r.pick(&[0, 10, 40]);
    let s = load_flat(flat, xml, fancy, &mut r)?;
    for n in &s.ir.nodes {
        if let N::Elem(nc, _) | N::Attr(nc, _) = n {
            if format!("{nc:?}").contains("Some(") {
                ctx.count("name classes with exceptions");
            }
        }
    }
    let mut docs = documents(&s.ir, &mut r, 2, 1, 12);
    for d in docs.clone() {
        for _ in 0..2 {
            let mut m = d.clone();
            for _ in 0..*r.pick(&[1, 1, 2]) {
                rename(&mut m, &s.ir, &mut r);
            }
            ctx.count("documents with a changed name");
            docs.push(m);
        }
    }
    let mut style = xml::Style::plain();
    style.fancy = *r.pick(&[0, 15, 40]);
    verdicts(ctx, &s, &docs, &style, &mut r)
}
