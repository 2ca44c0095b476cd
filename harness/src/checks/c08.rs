//! C08: composed grammars mean the same as their flattened form
use crate::common::*;
use crate::compose;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use crate::run;
use crate::scale;
use crate::xml;

pub static CHECK: Check = Check {
    id: "C08",
    case,
    quick: 270_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random flat grammars, taken apart at random: definitions split into several that are combined, wrapped in div, moved into included files in various directories, overridden in the include (with decoys in the included file, or in a file that it includes), patterns moved into external files or nested grammars (with some of their definitions copied and renamed, others referred to by parent). The composed schema has to compile, and its verdicts have to be those which the reference matchers give for the flat grammar. Distinct (files, document) texts.",
    assumptions: &["the decomposition preserves the meaning of the grammar"],
    min: &[
        ("composed: includes", 1000),
        ("composed: includes with overrides", 300),
        ("composed: external patterns", 1000),
        ("composed: nested grammars", 1000),
        ("composed: grammars with parent references", 300),
        ("composed: combined by choice", 500),
        ("composed: combined by interleave", 500),
        ("composed: equal names in different grammars", 300),
        ("composed: chains of includes", 200),
        ("composed: chains of nested grammars", 200),
        ("composed: definitions of many parts", 200),
        ("composed: chains of external patterns", 200),
        ("composed: chains of files with equal content", 200),
        ("large schemas or documents", 200),
        ("documents that match", 1000),
        ("documents that do not match", 1000),
    ],
    once: None,
};

pub fn cfg(r: &mut Rng) -> compose::Cfg {
    compose::Cfg {
        split: *r.pick(&[0, 20, 60]),
        div: *r.pick(&[0, 30]),
        include: *r.pick(&[0, 30, 60]),
        over: *r.pick(&[0, 20, 60]),
        external: *r.pick(&[0, 3, 10]),
        nested: *r.pick(&[0, 3, 10]),
        max_files: *r.pick(&[2, 4, 8, 8, 30]),
        base: *r.pick(compose::BASES),
    }
}

/// A composed schema, with the flat grammar it was made from
pub fn load_composed(ctx: &mut Ctx, flat: crate::ast::Flat, xml: bool, fancy: usize, anywhere: bool, r: &mut Rng) -> Result<(compose::Composed, Schema, run::Compiled), Fail> {
    let ir = crate::ir::Ir::from_flat(&flat);
    let mut c = cfg(r);
    if !anywhere {
        c.base = ""
    }
    let comp = compose::compose(&flat, xml, &c, r);
    load_from(ctx, flat, ir, comp, xml, fancy, r)
}

fn load_from(ctx: &mut Ctx, flat: crate::ast::Flat, ir: crate::ir::Ir, comp: compose::Composed, xml: bool, fancy: usize, r: &mut Rng) -> Result<(compose::Composed, Schema, run::Compiled), Fail> {
    let files = comp.print(xml, fancy, r);
    for (k, n) in &comp.used {
        ctx.add(&format!("composed: {k}"), *n);
    }
    let root = comp.root.clone();
    let shown = format!("root: {root}\n{}", show_files(&files));
    let compiled = guarded(|| run::compile(&files, &root, xml)).map_err(|p| Fail(format!("compiling a correct schema: {p}\n{shown}")))?;
    let model = match &compiled.result {
        Ok(m) => m.clone(),
        Err(e) => return Err(Fail(format!("a correct schema is rejected: {e:?}\n{shown}"))),
    };
    Ok((comp, Schema { flat, ir, files, root, xml, model }, compiled))
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = gen::Cfg {
        data: *r.pick(&[5, 30]),
        wild: *r.pick(&[5, 20]),
        attrs: *r.pick(&[20, 40]),
        inter: *r.pick(&[10, 40]),
        not_allowed: *r.pick(&[0, 0, 4]),
        elem_defs: *r.pick(&[(1, 3), (3, 6)]),
        other_defs: *r.pick(&[(0, 2), (2, 6)]),
        depth: *r.pick(&[2, 3]),
        namespaces: r.range(0, 3),
        odd_names: *r.pick(&[5, 40]),
        max_size: 120,
        ..gen::Cfg::default()
    };
    if r.chance(1, 40) {
        let xml = r.bool();
        let base = *r.pick(compose::BASES);
        let (flat, comp) = compose::long(xml, base, &mut r);
        let ir = crate::ir::Ir::from_flat(&flat);
        let fancy = *r.pick(&[0, 0, 10]);
        ctx.count("large schemas or documents");
        ctx.max("files", comp.specs.len() as u64);
        let (_, s, _) = load_from(ctx, flat, ir, comp, xml, fancy, &mut r)?;
        let docs = scale::documents(&s.ir, &mut r, 2, 4, &scale::Limits { items: 60, levels: 80 });
        return verdicts(ctx, &s, &docs, &xml::Style::plain(), &mut r);
    }
    let flat = match large_flat(ctx, &mut r, 60) {
        Some(f) => f,
        None => gen::schema(&mut r, &cfg),
    };
    let fancy = *r.pick(&[0, 0, 10]);
    let xml = r.bool();
    let (comp, s, _) = load_composed(ctx, flat, xml, fancy, true, &mut r)?;
    ctx.max("files", comp.specs.len() as u64);
    let budget = *r.pick(&[6, 15, 30]);
    let docs = documents(&s.ir, &mut r, 2, 4, budget);
    verdicts(ctx, &s, &docs, &xml::Style::plain(), &mut r)
}
