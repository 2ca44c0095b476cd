//! C21: the compiled model describes the schema
use crate::ast::*;
use crate::common::*;
use crate::dt;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use relaxng_model::datatype::xsd::{LengthFacet, XsdDatatypes};
use relaxng_model::datatype::Datatypes;
use relaxng_model::model::Pattern;
use std::collections::BTreeMap;

pub static CHECK: Check = Check {
    id: "C21",
    case,
    quick: 160_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct schemas in either syntax: the compiled model, read through its public types and interpreted by a reference matcher (with the model's own datatypes), has to give the same verdicts as the schema itself; and for random datatypes with facets, the bounds, lengths and regular expressions that the model exposes have to be those of the schema. Distinct schemas and documents.",
    assumptions: &["inclusive bounds are exposed for integer types only; exclusive bounds at the very end of a type's range are left out, since they have no inclusive equivalent"],
    min: &[
        ("verdicts of models", 5000),
        ("documents that match", 1000),
        ("documents that do not match", 1000),
        ("bounds compared", 500),
        ("lengths compared", 500),
        ("regular expressions compared", 200),
    ],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    if r.chance(1, 3) {
        return facets(ctx, &mut r);
    }
    let cfg = broad(&mut r);
    let flat = match large_flat(ctx, &mut r, 60) {
        Some(f) => f,
        None => gen::schema(&mut r, &cfg),
    };
    let xml = r.bool();
    let s = load_flat(flat, xml, 0, &mut r)?;
    let m = super::c07::model_ir(&s);
    let mut want = Oracle::new(&s.ir);
    let mut got = Oracle::new(&m);
    for d in documents(&s.ir, &mut r, 2, 3, 15) {
        let w = match want.judge(ctx, &d) {
            Judged::Known(v) => v.error.is_none(),
            Judged::Unknown => continue,
            Judged::Disagree(e) => panic!("{e}\n{}\n{d:?}", s.text()),
        };
        let g = match got.judge(ctx, &d) {
            Judged::Known(v) => v.error.is_none(),
            Judged::Unknown => continue,
            Judged::Disagree(e) => panic!("{e}\n{}\n{d:?}", s.text()),
        };
        ctx.eval();
        ctx.count("verdicts of models");
        ctx.count(if w { "documents that match" } else { "documents that do not match" });
        let text = plain(&d, &mut r).text;
        ctx.distinct(&[&s.text(), &text]);
        if w != g {
            return Err(Fail(format!(
                "by the model a document is {}, but by the schema it is {}\n{}--- model\n{}\n--- document\n{text}\n",
                word(g),
                word(w),
                s.text(),
                m.canon()
            )));
        }
    }
    ctx.sample(|| s.text());
    Ok(())
}

struct Seen {
    bounded: Option<bool>,
    min: Option<Option<String>>,
    max: Option<Option<String>>,
    len: Option<(Option<usize>, Option<usize>)>,
    /// whether the regular expression matches some strings
    regex: Option<Option<Vec<bool>>>,
}

fn look(t: &XsdDatatypes, edge: (bool, bool), probes: &[String]) -> Seen {
    let mut s = Seen { bounded: None, min: None, max: None, len: None, regex: None };
    macro_rules! int {
        ($f:expr, $min:ident, $max:ident) => {{
            s.bounded = Some($f.bounded());
            s.min = Some(if edge.0 { None } else { $f.$min().map(|x| x.to_string()) });
            s.max = Some(if edge.1 { None } else { $f.$max().map(|x| x.to_string()) });
        }};
    }
    match t {
        XsdDatatypes::NormalizedString(f) | XsdDatatypes::String(f) => {
            s.bounded = Some(f.bounded());
            s.len = Some((f.min_len(), f.max_len()));
            s.regex = Some(f.regex().map(|re| probes.iter().map(|p| re.is_match(p)).collect()));
        }
        XsdDatatypes::Short(f, _) => int!(f, min_cloned, max),
        XsdDatatypes::UnsignedShort(f, _) => int!(f, min, max),
        XsdDatatypes::Long(f, _) => int!(f, min, max_cloned),
        XsdDatatypes::Int(f, _) => int!(f, min, max),
        XsdDatatypes::UnsignedInt(f, _) => int!(f, min_cloned, max_cloned),
        XsdDatatypes::UnsignedLong(f, _) => int!(f, min, max),
        XsdDatatypes::Integer(f, _) => int!(f, min_cloned, max_cloned),
        XsdDatatypes::PositiveInteger(f, _) => int!(f, min_cloned, max_cloned),
        XsdDatatypes::Decimal { min_max, .. } => s.bounded = Some(min_max.bounded()),
        XsdDatatypes::Double(f, _) => s.bounded = Some(f.bounded()),
        XsdDatatypes::NmTokens(l) | XsdDatatypes::NmToken(l) | XsdDatatypes::NcName(l) | XsdDatatypes::Token(l) => {
            s.len = Some(match l {
                LengthFacet::Unbounded => (None, None),
                LengthFacet::MinLength(a) => (Some(*a), None),
                LengthFacet::MaxLength(b) => (None, Some(*b)),
                LengthFacet::MinMaxLength(a, b) => (Some(*a), Some(*b)),
                LengthFacet::Length(a) => (Some(*a), Some(*a)),
            });
        }
        _ => {}
    }
    s
}

fn facets(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let t = DT::xsd(if r.bool() { r.pick(dt::NUMERIC) } else { r.pick(dt::LENGTHY) });
    let mut params = dt::gen_params(&t, r);
    r.shuffle(&mut params);
    let one_pattern = params.iter().filter(|p| p.0 == "pattern").count() < 2;
    let (lo, hi) = dt::range(&t.name).unwrap_or((None, None));
    let has = |k: &str| params.iter().find(|p| p.0 == k).map(|p| p.1.clone());
    let edge = (
        has("minExclusive").is_some_and(|v| Some(&v[..]) == hi),
        has("maxExclusive").is_some_and(|v| Some(&v[..]) == lo),
    );
    let flat = Flat {
        start: Pat::Elem(NC::Name("".into(), "a".into()), Box::new(Pat::Data(t.clone(), params.clone(), None))),
        defs: BTreeMap::new(),
    };
    let xml = r.bool();
    let s = load_flat(flat, xml, 0, r)?;
    let probes: Vec<String> = (0..12)
        .map(|_| dt::candidate(&t, &params, r))
        .collect();
    let m = s.model.borrow();
    let p = m.as_ref().expect("a start rule").pattern();
    let body = match p {
        Pattern::Element(_, b) => &**b,
        p => return Err(Fail(format!("the start pattern is not an element but {p:?}\n{}", s.text()))),
    };
    let x = match body {
        Pattern::DatatypeName { datatype: Datatypes::Xsd(x), except: None } => x,
        p => return Err(Fail(format!("the content is not a datatype but {p:?}\n{}", s.text()))),
    };
    let seen = look(x, edge, &probes);
    ctx.eval();
    ctx.distinct(&[&s.text()]);
    let bad = |what: String| Err(Fail(format!("{what}\n{}", s.text())));
    let num = |s: &str| s.parse::<i128>().unwrap();
    if dt::NUMERIC.contains(&&t.name[..]) {
        ctx.count("bounds compared");
        let min = has("minInclusive").or(has("minExclusive").map(|v| (num(&v) + 1).to_string()));
        let max = has("maxInclusive").or(has("maxExclusive").map(|v| (num(&v) - 1).to_string()));
        if seen.bounded != Some(min.is_some() || max.is_some()) {
            return bad(format!("bounded() is {:?}", seen.bounded));
        }
        if !edge.0 && seen.min != Some(min.clone()) {
            return bad(format!("the minimum is {min:?}, but the model has {:?}", seen.min));
        }
        if !edge.1 && seen.max != Some(max.clone()) {
            return bad(format!("the maximum is {max:?}, but the model has {:?}", seen.max));
        }
    } else {
        ctx.count("lengths compared");
        let n = |k: &str| has(k).map(|v| v.parse::<usize>().unwrap());
        let want = (n("length").or(n("minLength")), n("length").or(n("maxLength")));
        if seen.len != Some(want) {
            return bad(format!("the lengths are {want:?}, but the model has {:?}", seen.len));
        }
        if let Some(b) = seen.bounded {
            if b != (want.0.is_some() || want.1.is_some()) {
                return bad(format!("bounded() is {b}"));
            }
        }
        if let (Some(re), true) = (&seen.regex, one_pattern) {
            let pat = params.iter().find(|p| p.0 == "pattern").map(|p| &p.1);
            if re.is_some() != pat.is_some() {
                return bad(format!("regex() is {}", if re.is_some() { "there" } else { "missing" }));
            }
            if let (Some(v), Some(pat)) = (re, pat) {
                ctx.count("regular expressions compared");
                for (p, m) in probes.iter().zip(v) {
                    let only = vec![("pattern".to_string(), pat.clone())];
                    if p.contains(['\t', '\n', '\r']) {
                        continue;
                    }
                    if let Some(w) = dt::allows(&t, &only, p) {
                        if w != *m {
                            return bad(format!("regex() matches {p:?}: {m}, but it should be {w}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
