//! What several checks share
use crate::ast::*;
use crate::doc::*;
use crate::gen;
use crate::ir::*;
use crate::mon::*;
use crate::print_rnc;
use crate::print_rng;
use crate::rng::Rng;
use crate::run;
use crate::scale;
use crate::sem_decl;
use crate::sem_deriv::*;
use crate::xml;
use std::collections::BTreeMap;

pub struct Schema {
    pub flat: Flat,
    pub ir: Ir,
    pub files: BTreeMap<String, String>,
    pub root: String,
    pub xml: bool,
    pub model: run::Model,
}

impl Schema {
    pub fn text(&self) -> String {
        show_files(&self.files)
    }
}

pub fn show_files(f: &BTreeMap<String, String>) -> String {
    let mut s = String::new();
    for (n, t) in f {
        s.push_str(&format!("--- {n}\n{t}\n"));
    }
    s
}

/// Print and compile a correct schema; that it's rejected is a violation
pub fn load_flat(flat: Flat, xml: bool, fancy: usize, r: &mut Rng) -> Result<Schema, Fail> {
    let ir = Ir::from_flat(&flat);
    let top = flat.to_top();
    let (root, text) = if xml {
        ("s.rng".to_string(), print_rng::print(&top, false, fancy, r))
    } else {
        ("s.rnc".to_string(), print_rnc::print(&top, &print_rnc::Env::default(), fancy, r))
    };
    let files = run::one(&root, &text);
    match guarded(|| run::compile(&files, &root, xml).result) {
        Ok(Ok(model)) => Ok(Schema { flat, ir, files, root, xml, model }),
        Ok(Err(e)) => Err(Fail(format!("a correct schema is rejected: {e:?}\n{}", show_files(&files)))),
        Err(p) => Err(Fail(format!("compiling a correct schema: {p}\n{}", show_files(&files)))),
    }
}

pub fn validate(s: &Schema, doc: &str) -> Result<run::Outcome, Fail> {
    guarded(|| run::validate(&s.model, doc)).map_err(|p| Fail(format!("validating: {p}\n{}--- document\n{doc}\n", s.text())))
}

pub struct Oracle<'a> {
    pub deriv: Deriv<'a>,
    ir: &'a Ir,
}
pub enum Judged {
    Known(Verdict),
    Unknown,
    /// the two reference matchers differ: the harness is wrong
    Disagree(String),
}
impl<'a> Oracle<'a> {
    pub fn new(ir: &'a Ir) -> Oracle<'a> {
        let mut deriv = Deriv::new(ir);
        if ir.nodes.len() > 150 {
            deriv.limit = 200_000;
        }
        Oracle { deriv, ir }
    }
    pub fn judge(&mut self, ctx: &mut Ctx, doc: &Elem) -> Judged {
        self.deriv.unknown = false;
        let v = self.deriv.run(doc);
        if self.deriv.unknown {
            ctx.count("documents not decided by the reference");
            return Judged::Unknown;
        }
        match sem_decl::matches(self.ir, doc, 6000) {
            Ok(d) => {
                ctx.count("verdicts of both reference matchers");
                if d != v.error.is_none() {
                    return Judged::Disagree(format!("reference matchers disagree: declarative {d}, derivatives {:?}", v.error));
                }
            }
            Err(_) => ctx.count("verdicts of one reference matcher only"),
        }
        Judged::Known(v)
    }
}

/// Documents for a schema: matching ones, and mutations
pub fn documents(ir: &Ir, r: &mut Rng, valid: usize, mutants: usize, budget: usize) -> Vec<Elem> {
    let mut out = vec![];
    for _ in 0..valid {
        let mut g = gen::DocGen::new(ir, r, budget);
        let mut d = g.doc();
        if g.r.chance(1, 3) {
            g.indent(&mut d);
        }
        out.push(d.clone());
        for _ in 0..mutants {
            let mut m = d.clone();
            let mut g = gen::DocGen::new(ir, r, budget);
            for _ in 0..*g.r.pick(&[1, 1, 1, 2, 3]) {
                g.mutate(&mut m);
            }
            if m.count() < 200 {
                out.push(m);
            }
        }
    }
    out
}

/// Now and then (once in `every` cases), a schema and documents that have much of something
pub fn large(ctx: &mut Ctx, r: &mut Rng, every: usize, kind: scale::Kind, fancy: usize) -> Result<Option<(Schema, Vec<Elem>)>, Fail> {
    if !r.chance(1, every) {
        return Ok(None);
    }
    let l = scale::schema(r, kind, &scale::USUAL);
    ctx.count("large schemas or documents");
    let xml = r.bool();
    let s = load_flat(l.flat, xml, fancy, r)?;
    let docs = scale::documents(&s.ir, r, 1, 3, &scale::USUAL);
    ctx.max("children, attributes and text nodes of a document", docs.iter().map(|d| d.count()).max().unwrap_or(0) as u64);
    ctx.max("levels of a document", docs.iter().map(|d| d.depth()).max().unwrap_or(0) as u64);
    Ok(Some((s, docs)))
}

/// Now and then, a schema that has much of something
pub fn large_flat(ctx: &mut Ctx, r: &mut Rng, every: usize) -> Option<Flat> {
    r.chance(1, every).then(|| {
        ctx.count("large schemas or documents");
        scale::schema(r, scale::Kind::Any, &scale::USUAL).flat
    })
}

pub fn plain(doc: &Elem, r: &mut Rng) -> xml::Printed {
    xml::print(doc, &xml::Style::plain(), r)
}

/// Compare the verdicts for some documents with the reference; for checks about what schemas mean
pub fn verdicts(ctx: &mut Ctx, s: &Schema, docs: &[Elem], style: &xml::Style, r: &mut Rng) -> CaseResult {
    let mut o = Oracle::new(&s.ir);
    let schema = s.text();
    for d in docs {
        let v = match o.judge(ctx, d) {
            Judged::Known(v) => v,
            Judged::Unknown => continue,
            Judged::Disagree(m) => panic!("{m}\n{schema}\n{d:?}"),
        };
        let p = xml::print(d, style, r);
        let got = validate(s, &p.text)?;
        ctx.eval();
        ctx.distinct(&[&schema, &p.text]);
        ctx.count(if v.error.is_none() { "documents that match" } else { "documents that do not match" });
        if got.valid() != v.error.is_none() {
            return Err(Fail(format!(
                "verdict is {} but should be {} (reference: {:?})\n{schema}--- document\n{}\n",
                word(got.valid()),
                word(v.error.is_none()),
                v.error,
                p.text
            )));
        }
        ctx.sample(|| format!("{schema}--- document ({})\n{}", word(got.valid()), p.text));
    }
    Ok(())
}

pub fn word(valid: bool) -> &'static str {
    if valid {
        "valid"
    } else {
        "invalid"
    }
}

/// A configuration that has a bit of everything
pub fn broad(r: &mut Rng) -> gen::Cfg {
    gen::Cfg {
        data: *r.pick(&[10, 30, 60]),
        wild: *r.pick(&[5, 20, 40]),
        attrs: *r.pick(&[20, 50]),
        list: *r.pick(&[10, 30]),
        inter: *r.pick(&[10, 30]),
        not_allowed: *r.pick(&[0, 0, 4]),
        elem_defs: (1, 4),
        other_defs: (0, 5),
        depth: r.range(2, 4),
        namespaces: r.range(0, 3),
        all_types: r.chance(1, 3),
        odd_names: *r.pick(&[5, 40]),
        max_size: 150,
        loose: false,
    }
}
