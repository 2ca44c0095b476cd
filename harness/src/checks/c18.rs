//! C18: schema errors are located at the faulty construct
use crate::checks::c09;
use crate::fault::{self, Spot};
use crate::mon::*;
use crate::run;
use relaxng_model::RelaxError;

pub static CHECK: Check = Check {
    id: "C18",
    case,
    quick: 240_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct composed schemas with a single marked fault at a random place, in either syntax. The diagnostic that the compiler writes has to point into the file with the fault, at the construct that has the mark, and show the references to files by which that file was reached. Distinct schemas with diagnostics that were judged.",
    assumptions: &["the schema has no other fault (schemas that are accepted, or rejected with another error, are left to C09)"],
    min: &[("large schemas or files", 2000), ("located at the construct", 10_000), ("located in other files", 5000), ("include shown", 5000)],
    once: None,
};

/// The sections of a diagnostic: file, line and column of the primary location if it's there, line numbers, text
fn sections(t: &str) -> Vec<(String, Option<(usize, usize)>, Vec<(usize, bool)>)> {
    let mut out: Vec<(String, Option<(usize, usize)>, Vec<(usize, bool)>)> = vec![];
    // (tabs of the source come up in other lines)
    for l in t.replace('\t', " ").lines() {
        let s = l.trim_start();
        if let Some(f) = s.strip_prefix(":::") {
            out.push((f.trim().to_string(), None, vec![]));
        } else if let Some(rest) = s.strip_prefix("-->") {
            let mut p = rest.rsplitn(3, ':');
            if let (Some(c), Some(n), Some(f)) = (p.next(), p.next(), p.next()) {
                if let (Ok(c), Ok(n)) = (c.trim().parse(), n.parse()) {
                    out.push((f.trim().to_string(), Some((n, c)), vec![]));
                }
            }
        } else if let Some(cur) = out.last_mut() {
            let digits = s.split(' ').next().unwrap_or("");
            if let Ok(n) = digits.parse::<usize>() {
                cur.2.push((n, false))
            } else if s.contains("as included here") {
                if let Some(x) = cur.2.last_mut() {
                    x.1 = true
                }
            }
        }
    }
    out
}

/// Byte offset of a line and column (in characters), both counted from 1
fn offset(t: &str, line: usize, col: usize) -> Option<usize> {
    let mut start = 0;
    for (n, l) in t.split_inclusive('\n').chain([""]).enumerate() {
        if n + 1 == line {
            return Some(start + l.char_indices().nth(col - 1).map_or(l.len(), |x| x.0));
        }
        start += l.len();
    }
    None
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let n = r.below(fault::FAULTS);
    let Some(f) = fault::faulty(n, &mut r) else {
        ctx.count("no place for the fault");
        return Ok(());
    };
    let c = guarded(|| run::compile(&f.files, &f.root, f.xml)).map_err(|p| Fail(format!("compiling: {p}\n{}", fault::show(&f))))?;
    let e = match c.result {
        Ok(_) => {
            ctx.count("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    let kind = c09::path_of(&e);
    if !f.kinds.contains(&&kind[..]) {
        ctx.count("another error");
        return Ok(());
    }
    let text = run::dump(&c.compiler, &e).map_err(|p| Fail(format!("rendering {e:?}: {p}\n{}", fault::show(&f))))?;
    ctx.eval();
    ctx.distinct(&[&fault::show(&f)]);
    if f.large {
        ctx.count("large schemas or files");
    }
    let fail = |m: String| Err(Fail(format!("{m}\n--- diagnostic ({kind})\n{text}{}", fault::show(&f))));
    let secs = sections(&text);
    // these are without a location of their own: see DESIGN.md
    let unlocated = matches!(&kind[..], "DatatypePrefixAlreadyDefined") || kind.ends_with("ConflictingFacet");
    let primary = secs.iter().find_map(|s| s.1.map(|p| (run::norm(&s.0), p)));
    if !unlocated {
        let Some((file, (line, col))) = primary else { return fail("the diagnostic has no location".into()) };
        let t = f.files.get(&file).map_or("", |s| s);
        let Some(at) = offset(t, line, col) else { return fail(format!("the location {line}:{col} is not in {file}")) };
        match &f.spot {
            Spot::Anywhere => ctx.count("location not judged"),
            Spot::File(want) => {
                if file != *want {
                    return fail(format!("the location is in {file}, but the fault is in {want}"));
                }
                ctx.count("located in the file");
            }
            Spot::NotAfter(want, mark) => {
                let end = mark.as_ref().map_or(t.len(), |m| t.find(&m[..]).map_or(t.len(), |k| k + m.len()));
                if file != *want || at > end {
                    return fail(format!("the location is {file}:{line}:{col}, but the fault is in {want} before {end}"));
                }
                ctx.count("located in the file");
            }
            Spot::Mark { file: want, marks, role } => {
                let ok: Vec<_> = marks.iter().flat_map(|m| fault::ranges(t, m, *role, f.xml)).collect();
                if want.iter().all(|w| fault_ranges(&f, w, marks, *role).is_empty()) {
                    ctx.count("location not judged");
                } else {
                    if !want.contains(&file) {
                        return fail(format!("the location is in {file}, but the fault is in {want:?}"));
                    }
                    if !ok.iter().any(|x| x.contains(&at)) {
                        return fail(format!("the location is {file}:{line}:{col} ({at}), but should be in any of {ok:?}"));
                    }
                    let (len, name) = parts(&e);
                    // (of other constructs in compact syntax, the ranges end early)
                    if let Some(len) = len.filter(|_| f.xml || matches!(role, fault::Role::Ref | fault::Role::Word)) {
                        if !ok.iter().any(|x| x.contains(&at) && at + len as usize <= x.end) {
                            return fail(format!("the location is {at}..{}, but should be within any of {ok:?}", at + len as usize));
                        }
                        ctx.count("ends within the construct");
                    }
                    if let Some(name) = name {
                        if !marks.iter().any(|m| name.contains(m.trim_matches(|c| c == '"' || c == ':'))) {
                            return fail(format!("the error is about {name:?}, rather than {marks:?}"));
                        }
                        ctx.count("names compared");
                    }
                    ctx.count("located at the construct");
                    if matches!(&kind[..], "DuplicateDefinition" | "DefineRulesMixesChoiceAndInterleave") {
                        // both definitions are shown
                        let shown: usize = want
                            .iter()
                            .map(|w| {
                                let lines: Vec<usize> = secs.iter().filter(|s| run::norm(&s.0) == *w).flat_map(|s| s.2.iter().map(|x| x.0)).collect();
                                let t = &f.files[w];
                                fault_ranges(&f, w, marks, *role).iter().filter(|x| {
                                    let line = |k: usize| t[..k].matches('\n').count() + 1;
                                    (line(x.start)..=line(x.end)).any(|n| lines.contains(&n))
                                }).count()
                            })
                            .sum();
                        if shown < 2 {
                            return fail(format!("{shown} of the definitions are shown"));
                        }
                        ctx.count("both definitions shown");
                    }
                }
            }
        }
        ctx.count(&format!("located: {}", f.what));
        if file != f.root {
            ctx.count("located in other files");
        }
    }
    if !f.late {
        for (file, href) in &f.chain {
            let t = &f.files[file];
            // (literals may be concatenated)
            let at: Vec<usize> = if f.xml {
                let Ok(doc) = roxmltree::Document::parse(t) else { continue };
                doc.descendants().flat_map(|n| n.attributes()).filter(|a| a.value() == href).map(|a| a.range_value().start).collect()
            } else if t.contains('~') {
                vec![]
            } else {
                t.match_indices(&href[..]).map(|x| x.0).collect()
            };
            let lines: Vec<usize> = at.into_iter().map(|k| t[..k].matches('\n').count() + 1).collect();
            let shown = secs.iter().filter(|s| run::norm(&s.0) == *file).flat_map(|s| &s.2).any(|(n, inc)| *inc && (lines.is_empty() || lines.contains(n)));
            if !shown {
                return fail(format!("the diagnostic does not show that {file} refers to {href:?}"));
            }
            ctx.count("include shown");
        }
    }
    ctx.sample(|| format!("{text}{}", fault::show(&f)));
    Ok(())
}

/// The main location of an error, and the name it gives, as far as it has these
fn parts(e: &RelaxError) -> (Option<u64>, Option<&str>) {
    let len = |s: &codemap::Span| Some(s.high() - s.low());
    match e {
        RelaxError::IncludeError(_, e) => parts(e),
        RelaxError::UndefinedReference { span, identifier: n }
        | RelaxError::UndefinedNamespacePrefix { span, prefix: n }
        | RelaxError::UndefinedDatatypePrefix { span, prefix: n }
        | RelaxError::NamespacePrefixAlreadyDefined { span, prefix: n }
        | RelaxError::RecursiveReference { ref_span: span, ref_id: n, .. }
        | RelaxError::OverrideMissingFromInclude { override_span: span, name: n, .. }
        | RelaxError::DuplicateDefinition { duplicate: span, name: n, .. } => (len(span), Some(n)),
        RelaxError::DefineRulesMixesChoiceAndInterleave { this_span: span, .. } | RelaxError::ElementAsChildOfAttribute { element_span: span, .. } => (len(span), None),
        RelaxError::NoParentAvailable(span) => (len(span), None),
        _ => (None, None),
    }
}

fn fault_ranges(f: &fault::Faulty, file: &str, marks: &[String], role: fault::Role) -> Vec<std::ops::Range<usize>> {
    let t = &f.files[file];
    marks.iter().flat_map(|m| fault::ranges(t, m, role, f.xml)).collect()
}
