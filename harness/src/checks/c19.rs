//! C19: insignificant variation of the compact notation
use crate::ast::*;
use crate::common::*;
use crate::gen;
use crate::ir::*;
use crate::mon::*;
use crate::print_rnc;
use crate::print_rng;
use crate::rng::Rng;
use crate::run;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C19",
    case: case_rnc,
    quick: 120_000,
    thorough: 800_000,
    resources: false,
    rule: "Random correct schemas of all kinds, each written plainly and in several random ways (white space, comments, annotations, parentheses, div, literal delimiters and concatenation, quoted identifiers, prefixes and namespace declarations, order of definitions); the structures of the compiled models have to be the same, and so have the verdicts of documents. Distinct variants.",
    assumptions: &["the printer writes the same schema in each variant"],
    min: &[("variants compared", 5000), ("documents compared", 1000), ("large schemas or documents", 200)],
    once: None,
};

pub fn case_rnc(ctx: &mut Ctx) -> CaseResult {
    notation(ctx, false)
}

/// Reorder the definitions and put them into divs
pub fn vary(items: Vec<Item>, r: &mut Rng) -> Vec<Item> {
    let mut items = items;
    r.shuffle(&mut items);
    let mut out = vec![];
    let mut div: Option<Vec<Item>> = None;
    for i in items {
        match &mut div {
            Some(d) => d.push(i),
            None if r.chance(1, 4) => div = Some(vec![i]),
            None => out.push(i),
        }
        if r.chance(1, 3) {
            if let Some(d) = div.take() {
                let d = if r.chance(1, 4) { vary(d, r) } else { d };
                out.push(Item::Div(d));
            }
        }
    }
    if let Some(d) = div {
        out.push(Item::Div(d));
    }
    if r.chance(1, 10) {
        out.push(Item::Div(vec![]));
    }
    out
}

pub fn notation(ctx: &mut Ctx, xml: bool) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = broad(&mut r);
    let flat = match large_flat(ctx, &mut r, 60) {
        Some(f) => f,
        None => gen::schema(&mut r, &cfg),
    };
    let base = load_flat(flat.clone(), xml, 0, &mut r)?;
    let bi = Ir::from_model(base.model.borrow().as_ref().expect("a start rule"));
    let sig = bi.sig();
    let docs: Vec<String> = documents(&base.ir, &mut r, 1, 1, 10)
        .iter()
        .map(|d| xml::print(d, &xml::Style::plain(), &mut r).text)
        .collect();
    for k in 0..4 {
        let mut top = flat.to_top();
        if let (Top::Gram(g), true) = (&mut top, k > 0) {
            g.items = vary(std::mem::take(&mut g.items), &mut r);
        }
        let fancy = *r.pick(&[3, 10, 30, 60]);
        let annot = *r.pick(&[0, 5, 25]);
        let (root, text) = if xml {
            let explicit = r.bool();
            ("s.rng", print_rng::print_annot(&top, explicit, fancy, annot, &mut r))
        } else {
            ("s.rnc", print_rnc::print_annot(&top, &print_rnc::Env::default(), fancy, annot, &mut r))
        };
        let files = run::one(root, &text);
        let model = match guarded(|| run::compile(&files, root, xml).result) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(Fail(format!("a variant is rejected: {e:?}\n{}--- variant\n{text}\n", base.text()))),
            Err(p) => return Err(Fail(format!("compiling a variant: {p}\n{}--- variant\n{text}\n", base.text()))),
        };
        ctx.eval();
        ctx.count("variants compared");
        ctx.distinct(&[&text]);
        let ir = Ir::from_model(model.borrow().as_ref().expect("a start rule"));
        if ir.sig() != sig {
            return Err(Fail(format!(
                "a variant compiles to something else\n{}--- variant\n{text}\n--- is\n{}\n--- should be\n{}\n",
                base.text(),
                ir.canon(),
                bi.canon()
            )));
        }
        for d in &docs {
            let a = validate(&base, d)?;
            let b = guarded(|| run::validate(&model, d)).map_err(|p| Fail(format!("validating: {p}\n{text}\n--- document\n{d}\n")))?;
            ctx.count("documents compared");
            if a != b {
                return Err(Fail(format!(
                    "the outcome with a variant is {b:?}, but {a:?} otherwise\n{}--- variant\n{text}\n--- document\n{d}\n",
                    base.text()
                )));
            }
        }
        ctx.sample(|| format!("{}--- variant\n{text}", base.text()));
    }
    Ok(())
}
