//! C07: both syntaxes are equivalent
use crate::common::*;
use crate::gen;
use crate::ir::*;
use crate::mon::*;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C07",
    case,
    quick: 160_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct schemas of all kinds, each written in both syntaxes with random notation; the structures of the two compiled models have to be the same (up to associativity and the order of choice and interleave), and so have the verdicts of documents. Distinct pairs of schema texts.",
    assumptions: &["the two printers write the same schema (they share nothing but the abstract syntax)"],
    min: &[("models compared", 1000), ("documents that match", 1000), ("documents that do not match", 1000), ("large schemas or documents", 200)],
    once: None,
};

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = broad(&mut r);
    let flat = match large_flat(ctx, &mut r, 60) {
        Some(f) => f,
        None => gen::schema(&mut r, &cfg),
    };
    let f1 = *r.pick(&[0, 5, 25]);
    let f2 = *r.pick(&[0, 5, 25]);
    let a = load_flat(flat.clone(), false, f1, &mut r)?;
    let b = load_flat(flat, true, f2, &mut r)?;
    let (ia, ib) = (model_ir(&a), model_ir(&b));
    ctx.count("models compared");
    ctx.eval();
    ctx.distinct(&[&a.text(), &b.text()]);
    if ia.sig() != ib.sig() {
        return Err(Fail(format!(
            "the models of the two syntaxes differ\n{}{}--- compact:\n{}\n--- XML:\n{}\n",
            a.text(),
            b.text(),
            ia.canon(),
            ib.canon()
        )));
    }
    for d in documents(&a.ir, &mut r, 1, 2, 12) {
        let p = xml::print(&d, &xml::Style::plain(), &mut r);
        let (x, y) = (validate(&a, &p.text)?, validate(&b, &p.text)?);
        ctx.eval();
        ctx.count(if x.valid() { "documents that match" } else { "documents that do not match" });
        if x.valid() != y.valid() {
            return Err(Fail(format!(
                "verdict is {} with the compact syntax and {} with the XML syntax\n{}{}--- document\n{}\n",
                word(x.valid()),
                word(y.valid()),
                a.text(),
                b.text(),
                p.text
            )));
        }
    }
    ctx.sample(|| format!("{}{}", a.text(), b.text()));
    Ok(())
}

pub fn model_ir(s: &Schema) -> Ir {
    Ir::from_model(s.model.borrow().as_ref().expect("a start rule"))
}
