//! C09: incorrect schemas are rejected, with the error of the fault
use crate::fault;
use crate::mon::*;
use crate::run;

pub static CHECK: Check = Check {
    id: "C09",
    case,
    quick: 240_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct composed schemas (several files, nested grammars, overrides), with a single fault of a known kind put at a random place, in either syntax. The compiler has to reject the schema, with the error of that kind. Distinct schemas.",
    assumptions: &["the schema has no other fault; kinds of error are compared by the variant of RelaxError (within IncludeError)"],
    min: &[("large schemas or files", 2000), ("faults in other files", 10_000)],
    once: None,
};

/// The variants of an error, outermost first
pub fn path_of(e: &relaxng_model::RelaxError) -> String {
    use relaxng_model::RelaxError;
    let mut e = e;
    while let RelaxError::IncludeError(_, inner) = e {
        e = inner;
    }
    let mut out = run::kind_of(e);
    if let RelaxError::DatatypeError(d) = e {
        let text = format!("{d:?}");
        for w in text.split(|c: char| !c.is_alphanumeric()) {
            if ["UnsupportedDatatypeLibrary", "Relax", "Xsd", "ParamNotAllowed", "DatataypeNameUnknown", "Facet", "ConflictingFacet", "InvalidInt", "InvalidFloat", "InvalidPattern", "InvalidFacet", "UnsupportedDatatype", "InvalidValueOfType"]
                .contains(&w)
            {
                out.push('/');
                out.push_str(w);
                if !matches!(w, "Relax" | "Xsd" | "Facet") {
                    break;
                }
            }
        }
    }
    out
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let n = r.below(fault::FAULTS);
    let Some(f) = fault::faulty(n, &mut r) else {
        ctx.count("no place for the fault");
        return Ok(());
    };
    let c = guarded(|| run::compile(&f.files, &f.root, f.xml)).map_err(|p| Fail(format!("compiling: {p}\n{}", fault::show(&f))))?;
    ctx.eval();
    ctx.distinct(&[&fault::show(&f)]);
    if f.large {
        ctx.count("large schemas or files");
    }
    ctx.count(&format!("fault: {}", f.what));
    if !f.chain.is_empty() {
        ctx.count("faults in other files")
    }
    match c.result {
        Ok(_) => return Err(Fail(format!("a schema with a fault is accepted, rather than: {:?}\n{}", f.kinds, fault::show(&f)))),
        Err(e) => {
            let k = path_of(&e);
            if !f.kinds.contains(&&k[..]) {
                return Err(Fail(format!("the error is {k}, rather than {:?}: {e:?}\n{}", f.kinds, fault::show(&f))));
            }
            ctx.count(&format!("error: {k}"));
        }
    }
    ctx.sample(|| fault::show(&f));
    Ok(())
}
