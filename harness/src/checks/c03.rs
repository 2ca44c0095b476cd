//! C03: data, value, list and except
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use crate::run;
use crate::scale;
use crate::xml;
use std::collections::BTreeMap;

pub static CHECK: Check = Check {
    id: "C03",
    case,
    quick: 240_000,
    thorough: 1_500_000,
    resources: false,
    rule: "Random correct schemas rich in data, value, list and except patterns, whose literals are written in many ways in either syntax; documents with values that match or nearly match, written with references, CDATA sections and comments within values; verdicts are compared with two reference matchers. Distinct (schema, document) texts that were judged.",
    assumptions: &["strings about which the reference is undecided (editions of XSD or XML differ) are skipped"],
    min: &[("documents that match", 1000), ("documents that do not match", 1000), ("large schemas or documents", 200), ("values of type QName", 5000)],
    once: None,
};

/// Values of type QName without prefix, where there are no default namespaces
fn qnames(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    const NAMES: &[&str] = &["a", "b", "A", "a.b-c", "é", "_", "x1", "element", "ab"];
    const PADDED: &[(&str, &str)] = &[("", ""), (" ", ""), ("", " "), ("  ", "\n"), ("\t", " ")];
    let lits: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(NAMES)).collect();
    let kind = r.below(4);
    let padded = |n: &str, r: &mut Rng| {
        let (a, b) = r.pick(PADDED);
        format!("{a}{n}{b}")
    };
    let xml = r.bool();
    let values: Vec<String> = lits
        .iter()
        .map(|l| {
            let l = padded(l, r).replace('\n', " ");
            if xml { format!("<value type='QName'>{l}</value>") } else { format!("xsd:QName '{l}'") }
        })
        .collect();
    let content = match (kind, xml) {
        (0, true) => format!("<choice>{}</choice>", values.concat()),
        (0, false) => values.join(" | "),
        (1, true) => format!("<list>{}</list>", values.concat()),
        (1, false) => format!("list {{ {} }}", values.join(", ")),
        (2, true) => format!("<data type='NCName'><except>{}</except></data>", values.concat()),
        (2, false) => format!("xsd:NCName - ({})", values.join(" | ")),
        (_, true) => format!("<list><oneOrMore><choice>{}</choice></oneOrMore></list>", values.concat()),
        (_, false) => format!("list {{ ({})+ }}", values.join(" | ")),
    };
    let att = r.bool();
    let what = if att { "attribute" } else { "element" };
    let schema = if xml {
        format!("<element name='r' xmlns='http://relaxng.org/ns/structure/1.0' datatypeLibrary='http://www.w3.org/2001/XMLSchema-datatypes'><{what} name='x'>{content}</{what}></element>")
    } else {
        format!("element r {{ {what} x {{ {content} }} }}")
    };
    let files = BTreeMap::from([("s".to_string(), schema.clone())]);
    let model = run::compile(&files, "s", xml).result.map_err(|e| Fail(format!("not compiled: {e:?}\n{schema}")))?;
    for _ in 0..8 {
        let n = if kind == 1 || kind == 3 { r.range(0, 4) } else { 1 };
        let mut words: Vec<String> = (0..n)
            .map(|_| match r.below(8) {
                0 => format!("p:{}", r.pick(&lits)),
                1 => format!("{}x", r.pick(&lits)),
                2 | 3 => r.pick(NAMES).to_string(),
                4 => r.pick(&["", ":a", "a:", "1", "-", "a b"]).to_string(),
                _ => r.pick(&lits).to_string(),
            })
            .collect();
        if kind == 1 && r.bool() {
            words = lits.iter().map(|l| l.to_string()).collect();
        }
        let v = words.iter().map(|w| padded(w, r)).collect::<Vec<_>>().join(" ");
        let tokens: Vec<&str> = v.split([' ', '\n', '\t']).filter(|t| !t.is_empty()).collect();
        let one = if tokens.len() == 1 { Some(tokens[0]) } else { None };
        let valid = match kind {
            0 => one.is_some_and(|t| lits.contains(&t)),
            1 => tokens == lits,
            2 => match one {
                Some(t) => !t.contains(':') && t != "1" && t != "-" && !lits.contains(&t),
                None => false,
            },
            _ => !tokens.is_empty() && tokens.iter().all(|t| lits.contains(t)),
        };
        let text = if att { format!("<r x='{v}' xmlns:p='urn:p'/>") } else { format!("<r xmlns:p='urn:p'><x>{v}</x></r>") };
        let got = run::validate(&model, &text);
        ctx.eval();
        ctx.distinct(&[&schema, &text]);
        ctx.count("values of type QName");
        if got.valid() != valid {
            return Err(Fail(format!("verdict is {} but should be {}\n{schema}\n--- document\n{text}\n", word(got.valid()), word(valid))));
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    if r.chance(1, 60) {
        return qnames(ctx, &mut r);
    }
    let fancy = *r.pick(&[0, 0, 10]);
    if let Some((s, docs)) = large(ctx, &mut r, 40, scale::Kind::Values, fancy)? {
        let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(&mut r) };
        return verdicts(ctx, &s, &docs, &style, &mut r);
    }
    let cfg = gen::Cfg {
        data: 75,
        list: *r.pick(&[10, 40]),
        attrs: *r.pick(&[10, 60]),
        wild: 0,
        namespaces: 1,
        depth: 2,
        elem_defs: (1, 2),
        other_defs: (0, 4),
        odd_names: 5,
        all_types: r.chance(1, 4),
        ..gen::Cfg::default()
    };
    let flat = gen::schema(&mut r, &cfg);
    let xml = r.bool();
    let fancy = *r.pick(&[0, 10, 40]);
    let s = load_flat(flat, xml, fancy, &mut r)?;
    let docs = documents(&s.ir, &mut r, 3, 6, 12);
    let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(&mut r) };
    verdicts(ctx, &s, &docs, &style, &mut r)
}
