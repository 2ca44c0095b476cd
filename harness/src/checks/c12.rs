//! C12: the first error is located at the first offending item
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::scale;
use crate::run::Kind;
use crate::sem_deriv::Place;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C12",
    case,
    quick: 160_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct schemas every pattern of which can be matched by something, and documents that do not match; the token of the first error that Validator reports has to be (or be part of) the first item at which the reference matcher runs out of alternatives. Distinct (schema, document) texts whose location was judged.",
    assumptions: &["with every pattern satisfiable and no data below, alternatives that are left can be completed"],
    min: &[
        ("located at a start-tag", 500),
        ("located at an attribute", 500),
        ("located at the end of a start-tag", 500),
        ("located at text", 500),
        ("located at an end-tag", 500),
        ("large schemas or documents", 200),
    ],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = gen::Cfg {
        data: *r.pick(&[5, 20, 40]),
        wild: *r.pick(&[3, 15]),
        attrs: *r.pick(&[20, 50]),
        inter: *r.pick(&[10, 40]),
        namespaces: 1,
        odd_names: 10,
        ..gen::Cfg::default()
    };
    let (s, docs) = match large(ctx, &mut r, 60, scale::Kind::Any, 0)? {
        Some(x) => x,
        None => {
            let flat = gen::schema(&mut r, &cfg);
            let xml = r.bool();
            let s = load_flat(flat, xml, 0, &mut r)?;
            let budget = *r.pick(&[6, 15, 30]);
            let docs = documents(&s.ir, &mut r, 2, 5, budget);
            (s, docs)
        }
    };
    let mut o = Oracle::new(&s.ir);
    for d in &docs {
        let v = match o.judge(ctx, d) {
            Judged::Known(v) => v,
            Judged::Unknown => continue,
            Judged::Disagree(m) => panic!("{m}\n{}\n{d:?}", s.text()),
        };
        let Some(place) = v.error else { continue };
        let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(&mut r) };
        let p = xml::print(d, &style, &mut r);
        let got = validate(&s, &p.text)?;
        ctx.eval();
        ctx.distinct(&[&s.text(), &p.text]);
        let span = p.span(&place).expect("place of the printed document");
        let (ok, at) = match &got.error {
            None => (false, "nowhere".to_string()),
            Some((kind, at)) => {
                let within = at.start >= span.start && at.end <= span.end && at.start < at.end;
                let exact = match place {
                    // (of a start-tag, just its name will do)
                    Place::Text(_) | Place::Start(_) => within,
                    _ => within && at.start == span.start && at.end == span.end,
                };
                (exact && *kind == Kind::NotAllowed, format!("{kind:?} at {at:?} ({:?})", p.text.get(at.clone())))
            }
        };
        ctx.count(match place {
            Place::Start(_) => "located at a start-tag",
            Place::Attr(..) => "located at an attribute",
            Place::StartEnd(_) => "located at the end of a start-tag",
            Place::Text(_) => "located at text",
            Place::End(_) => "located at an end-tag",
        });
        if !ok {
            return Err(Fail(format!(
                "the first error is reported {at}, but should be at {span:?} ({:?}, {place:?})\n{}--- document\n{}\n",
                &p.text[span.clone()],
                s.text(),
                p.text
            )));
        }
        ctx.sample(|| format!("{}--- document (error at {:?})\n{}", s.text(), &p.text[span.clone()], p.text));
    }
    Ok(())
}
