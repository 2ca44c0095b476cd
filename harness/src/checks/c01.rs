//! C01: the verdict for core patterns
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::scale;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C01",
    case,
    quick: 240_000,
    thorough: 1_500_000,
    resources: false,
    rule: "Random correct schemas (all core patterns, recursion through definitions) in either syntax; for each, documents generated from its patterns and mutations of those; the verdict of Validator is compared with those of two independent reference matchers. A (schema, document) pair counts as non-trivial if it was judged; distinct by text.",
    assumptions: &["the reference matchers (derivative-based and declarative, which are compared with each other) implement section 6 of the specification"],
    min: &[("documents that match", 1000), ("documents that do not match", 1000), ("verdicts of both reference matchers", 500), ("large schemas or documents", 200)],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    if let Some((s, docs)) = large(ctx, &mut r, 40, scale::Kind::Structure, 0)? {
        return verdicts(ctx, &s, &docs, &xml::Style::plain(), &mut r);
    }
    let mut cfg = gen::Cfg { wild: 2, odd_names: 3, namespaces: 1, ..gen::Cfg::default() };
    match r.below(8) {
        0 => {
            cfg.inter = 40;
            cfg.elem_defs = (2, 5);
        }
        1 => {
            cfg.attrs = 60;
            cfg.data = 5;
        }
        2 => {
            cfg.depth = 5;
            cfg.max_size = 250;
        }
        3 => cfg.not_allowed = 5,
        4 => {
            cfg.elem_defs = (3, 7);
            cfg.other_defs = (2, 8);
            cfg.max_size = 250;
        }
        5 => {
            cfg.loose = true;
            cfg.inter = *r.pick(&[15, 30]);
            cfg.max_size = 40;
            cfg.depth = 2;
        }
        _ => {}
    }
    let s_loose = cfg.loose;
    let flat = gen::schema(&mut r, &cfg);
    let xml = r.bool();
    let s = load_flat(flat, xml, 0, &mut r)?;
    ctx.count(if xml { "schemas in the XML syntax" } else { "schemas in the compact syntax" });
    let budget = if s_loose { 8 } else { *r.pick(&[5, 15, 30]) };
    let docs = documents(&s.ir, &mut r, 3, 4, budget);
    verdicts(ctx, &s, &docs, &xml::Style::plain(), &mut r)
}
