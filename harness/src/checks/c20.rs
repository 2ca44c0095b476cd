//! C20: insignificant variation of the XML notation
use crate::mon::*;

pub static CHECK: Check = Check {
    id: "C20",
    case,
    quick: 120_000,
    thorough: 800_000,
    resources: false,
    rule: "Random correct schemas of all kinds, each written plainly and in several random ways in the XML syntax (prefixes, ns and datatypeLibrary inherited or explicit, name attribute or element, foreign markup, comments, PIs, CDATA, references, white space, attribute order, div, implicit groups, order of definitions); the structures of the compiled models have to be the same, and so have the verdicts of documents. Distinct variants.",
    assumptions: &["the printer writes the same schema in each variant"],
    min: &[("variants compared", 5000), ("documents compared", 1000), ("large schemas or documents", 200)],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    super::c19::notation(ctx, true)
}
