//! C05: the verdict depends on the infoset only
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::scale;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C05",
    case,
    quick: 80_000,
    thorough: 600_000,
    resources: false,
    rule: "Random correct schemas and documents (matching ones and mutations); each document is serialised plainly and in several random ways (attribute order, prefixes, declarations, quotes, references, internal entities, CDATA, comments, PIs, empty-element notation, line ends, prolog, doctype), all of which have to get the same verdict, which is that of the reference matchers too. Distinct serialisations that differ from the plain one.",
    assumptions: &["the serialiser writes documents that have the infoset which it's given (which is validated by the agreement on documents that match)"],
    min: &[("serialisations of documents that match", 1000), ("serialisations of documents that do not match", 1000), ("large schemas or documents", 200)],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = gen::Cfg {
        data: *r.pick(&[10, 40]),
        wild: *r.pick(&[5, 25]),
        attrs: 45,
        elem_defs: (1, 3),
        ..gen::Cfg::default()
    };
    let (s, docs) = match large(ctx, &mut r, 40, scale::Kind::Any, 0)? {
        Some(x) => x,
        None => {
            let flat = gen::schema(&mut r, &cfg);
            let xml = r.bool();
            let s = load_flat(flat, xml, 0, &mut r)?;
            let budget = *r.pick(&[6, 15, 30]);
            let docs = documents(&s.ir, &mut r, 2, 2, budget);
            (s, docs)
        }
    };
    let mut o = Oracle::new(&s.ir);
    for d in &docs {
        let plain = xml::print(d, &xml::Style::plain(), &mut r);
        let first = validate(&s, &plain.text)?;
        match o.judge(ctx, d) {
            Judged::Disagree(m) => panic!("{m}\n{}\n{d:?}", s.text()),
            Judged::Known(v) if v.error.is_none() != first.valid() => {
                return Err(Fail(format!(
                    "verdict is {} but should be {}\n{}--- document\n{}\n",
                    word(first.valid()),
                    word(!first.valid()),
                    s.text(),
                    plain.text
                )))
            }
            _ => {}
        }
        for _ in 0..5 {
            let mut v = d.clone();
            if r.chance(2, 3) {
                shuffle_atts(&mut v, &mut r);
            }
            let style = xml::Style::random(&mut r);
            let p = xml::print(&v, &style, &mut r);
            let got = validate(&s, &p.text)?;
            ctx.eval();
            if p.text != plain.text {
                ctx.distinct(&[&s.text(), &p.text]);
            }
            ctx.count(if first.valid() {
                "serialisations of documents that match"
            } else {
                "serialisations of documents that do not match"
            });
            if style.dtd {
                ctx.count("serialisations with a doctype");
            }
            if got.valid() != first.valid() {
                return Err(Fail(format!(
                    "two serialisations of a document are {} and {}\n{}--- document ({})\n{}\n--- document ({}, {:?})\n{}\n",
                    word(first.valid()),
                    word(got.valid()),
                    s.text(),
                    word(first.valid()),
                    plain.text,
                    word(got.valid()),
                    got.error,
                    p.text
                )));
            }
            ctx.sample(|| format!("{}--- document ({})\n{}", s.text(), word(got.valid()), p.text));
        }
    }
    Ok(())
}

pub fn shuffle_atts(e: &mut crate::doc::Elem, r: &mut crate::rng::Rng) {
    r.shuffle(&mut e.atts);
    for c in &mut e.children {
        if let crate::doc::Node::Elem(e) = c {
            shuffle_atts(e, r)
        }
    }
}
