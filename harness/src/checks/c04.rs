//! C04: XSD datatypes and their facets
use crate::ast::*;
use crate::common::*;
use crate::doc::*;
use crate::dt;
use crate::mon::*;
use crate::rng::Rng;
use crate::xml;
use std::collections::BTreeMap;

pub static CHECK: Check = Check {
    id: "C04",
    case,
    quick: 320_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Every supported XSD datatype with random consistent facets, as content or attribute of an element, in either syntax; values around the limits of lexical space, range and facets, with surrounding white space; the verdict is compared with an independent implementation of the datatypes (decimal arithmetic on digit strings, own matcher for patterns). Distinct (type, facets, value) triples that were judged.",
    assumptions: &["values on which editions of XSD differ or that the reference does not decide (such as year 0000, +INF, signs of unsigned types, some URIs) are skipped; patterns are from the dialect common to XSD and the regex crate"],
    min: &[("judged with large values or parameters", 5000), ("values that are allowed", 5000), ("values that are not allowed", 5000), ("judged with facets", 5000), ("datatypes", 24)],
    once: Some(once),
};

pub fn types() -> Vec<DT> {
    dt::NUMERIC.iter().chain(dt::LENGTHY).chain(dt::OTHERS).map(|n| DT::xsd(n)).collect()
}

/// every datatype is there, and has both values that are allowed and values that are not
fn once(ctx: &mut Ctx) -> CaseResult {
    for (i, t) in types().into_iter().enumerate() {
        ctx.count("datatypes");
        let mut r = Rng::new(ctx.seed, 0xC04, i as u64);
        judge(ctx, &t, vec![], i % 2 == 0, 200, false, &mut r)?;
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let t = r.pick(&types()).clone();
    let large = r.chance(1, 25);
    let params = if large {
        dt::large_params(&t, &mut r)
    } else if r.chance(1, 8) { vec![] } else { dt::gen_params(&t, &mut r) };
    let xml = r.bool();
    judge(ctx, &t, params, xml, 25, large, &mut r)
}

fn judge(ctx: &mut Ctx, t: &DT, params: Vec<(String, String)>, xml: bool, n: usize, large: bool, r: &mut Rng) -> CaseResult {
    let attr = r.bool();
    let data = Pat::Data(t.clone(), params.clone(), None);
    let name = |s: &str| NC::Name("".into(), s.into());
    let body = if attr { Pat::Attr(name("x"), Box::new(data)) } else { data };
    let flat = Flat { start: Pat::Elem(name("a"), Box::new(body)), defs: BTreeMap::new() };
    let s = load_flat(flat, xml, *r.clone().pick(&[0, 20]), r)?;
    let facets: String = params.iter().map(|p| &p.0[..]).collect::<Vec<_>>().join(" ");
    let key = format!("{}{params:?}", t.name);
    for _ in 0..n {
        let v = if large { dt::large_candidate(t, &params, r) } else { dt::candidate(t, &params, r) };
        if v.chars().any(|c| !is_xml_char(c)) {
            continue;
        }
        let want = match dt::allows(t, &params, &v) {
            Some(w) => w,
            None => {
                ctx.count("values not decided by the reference");
                continue;
            }
        };
        let mut d = Elem { ns: "".into(), local: "a".into(), atts: vec![], children: vec![] };
        if attr {
            d.atts.push(Att { ns: "".into(), local: "x".into(), value: v.clone() })
        } else {
            d.children.push(Node::Text(v.clone()));
            d.normalize();
        }
        let style = if r.chance(1, 4) { xml::Style::random(r) } else { xml::Style::plain() };
        let p = xml::print(&d, &style, r);
        let got = validate(&s, &p.text)?;
        ctx.eval();
        ctx.distinct(&[&key, &v]);
        if large {
            ctx.count("judged with large values or parameters");
        }
        ctx.count(if want { "values that are allowed" } else { "values that are not allowed" });
        ctx.count(&format!("values of {}", t.name));
        if !facets.is_empty() {
            ctx.count("judged with facets");
        }
        if got.valid() != want {
            return Err(Fail(format!(
                "the value {v:?} should be {} for {} {params:?}, but is {}\n{}--- document\n{}\n",
                word(want),
                t.name,
                word(got.valid()),
                s.text(),
                p.text
            )));
        }
        ctx.sample(|| format!("{}--- document ({})\n{}", s.text(), word(want), p.text));
    }
    Ok(())
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
