//! C16: hints name the elements that could have come next
use crate::ast::NC;
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::scale;
use crate::run;
use crate::sem_deriv::Place;
use crate::xml;
use std::collections::BTreeSet;

pub static CHECK: Check = Check {
    id: "C16",
    case,
    quick: 160_000,
    thorough: 1_000_000,
    resources: false,
    rule: "Random correct schemas every pattern of which can be matched by something, and documents that do not match at a start-tag, text or end-tag; the hint of the rendered diagnostic is compared with the set of name classes of elements that the reference matcher would accept at that place (all of them, or four of them and the number of the others; 'Remove this' if there are none). Distinct (schema, document) texts whose hint was judged.",
    assumptions: &["name classes are described by local name, or namespace:* and *, each with exceptions, as they always have been"],
    min: &[
        ("hints with no element", 200),
        ("hints with up to four elements", 500),
        ("hints with more than four elements", 50),
        ("at a start-tag", 500),
        ("at text", 100),
        ("at an end-tag", 100),
        ("large schemas or documents", 200),
    ],
    once: None,
};

fn describe(nc: &NC, out: &mut String) {
    match nc {
        NC::Name(_, l) => out.push_str(l),
        NC::NsName(ns, ex) => {
            out.push_str(ns);
            out.push_str(":*");
            if let Some(e) = ex {
                out.push('-');
                describe(e, out)
            }
        }
        NC::AnyName(ex) => {
            out.push('*');
            if let Some(e) = ex {
                out.push('-');
                describe(e, out)
            }
        }
        NC::Choice(v) => {
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    out.push('|')
                }
                describe(n, out)
            }
        }
    }
}

/// Whether a text consists of that many of the given words, each at most once (which may have spaces, within namespaces)
fn consists_of(t: &str, words: &[&str], n: usize) -> bool {
    words.iter().enumerate().any(|(i, w)| {
        t.strip_prefix(w).is_some_and(|rest| {
            if n == 1 {
                return rest.is_empty();
            }
            let mut others = words.to_vec();
            others.swap_remove(i);
            rest.strip_prefix(' ').is_some_and(|rest| consists_of(rest, &others, n - 1))
        })
    })
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = gen::Cfg {
        data: *r.pick(&[5, 25]),
        wild: *r.pick(&[3, 20]),
        attrs: 15,
        inter: *r.pick(&[10, 40]),
        elem_defs: *r.pick(&[(1, 4), (4, 8)]),
        depth: *r.pick(&[2, 3, 4]),
        max_size: 200,
        odd_names: *r.pick(&[10, 50]),
        ..gen::Cfg::default()
    };
    let (s, docs) = match large(ctx, &mut r, 60, scale::Kind::Structure, 0)? {
        Some(x) => x,
        None => {
            let flat = gen::schema(&mut r, &cfg);
            let xml = r.bool();
            let s = load_flat(flat, xml, 0, &mut r)?;
            let budget = *r.pick(&[6, 15, 30]);
            let docs = documents(&s.ir, &mut r, 2, 5, budget);
            (s, docs)
        }
    };
    let mut o = Oracle::new(&s.ir);
    for d in &docs {
        let v = match o.judge(ctx, d) {
            Judged::Known(v) => v,
            Judged::Unknown => continue,
            Judged::Disagree(m) => panic!("{m}\n{}\n{d:?}", s.text()),
        };
        let Some(place) = v.error else { continue };
        let at = match place {
            Place::Start(_) => "at a start-tag",
            Place::Text(_) => "at text",
            Place::End(_) => "at an end-tag",
            _ => continue,
        };
        let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(&mut r) };
        let p = xml::print(d, &style, &mut r);
        let bad = |what: String| Err(Fail(format!("{what}\n{}--- document\n{}\n", s.text(), p.text)));
        let got = match guarded(|| run::first_diagnostic(&s.model, &p.text)) {
            Err(e) => return bad(e),
            Ok(None) => return bad("no error is reported".into()),
            Ok(Some((_, d))) => d,
        };
        let mut expected = BTreeSet::new();
        for nc in &v.expected {
            let mut t = String::new();
            describe(nc, &mut t);
            expected.insert(t);
        }
        ctx.eval();
        ctx.distinct(&[&s.text(), &p.text]);
        ctx.count(at);
        ctx.count(match expected.len() {
            0 => "hints with no element",
            1..=4 => "hints with up to four elements",
            _ => "hints with more than four elements",
        });
        let hints: Vec<&run::Diag> = got.iter().filter(|d| d.level == "Help").collect();
        let hint = hints.iter().map(|h| &h.message[..]).collect::<Vec<_>>().join("\n");
        let ok = match hint.strip_prefix("Expected Element ") {
            None => hint == "Remove this" && expected.is_empty(),
            Some(h) => {
                let (h, more) = match h.split_once(" .. or one of ") {
                    Some((h, m)) => (h, m.strip_suffix(" more").and_then(|m| m.parse::<usize>().ok()).unwrap_or(usize::MAX)),
                    None => (h, 0),
                };
                let shown = expected.len().min(4);
                more == expected.len() - shown && consists_of(h, &expected.iter().map(|e| &e[..]).collect::<Vec<_>>(), shown)
            }
        };
        let rendered = got.first().map_or("", |d| &d.rendered[..]);
        if !ok || !rendered.contains(&hint) {
            return bad(format!("the hint is {hint:?}, but what could come next is {expected:?}"));
        }
        ctx.sample(|| format!("{}--- document\n{}\n--- hint\n{hint}", s.text(), p.text));
    }
    Ok(())
}
