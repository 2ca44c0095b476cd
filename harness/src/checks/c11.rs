//! C11: validating always ends with a verdict that can be reported
use super::c06;
use crate::common::*;
use crate::garble;
use crate::gen;
use crate::print_rnc;
use crate::print_rng;
use crate::mon::*;
use crate::rng::Rng;
use crate::run;
use crate::xml;
use relaxng_validator::{Validator, ValidatorError};

pub static CHECK: Check = Check {
    id: "C11",
    case,
    quick: 90_000,
    thorough: 1_000_000,
    resources: true,
    rule: "Random correct schemas (and patterns exchanged at random, where the result compiles), and texts of every degree of brokenness: documents (matching or not), with up to five faults of well-formedness, with random edits at any character, spliced and repeated, soups of XML tokens, and random characters. The validator is driven until the end of the text, going on after errors; every step is guarded against panics, the number of steps is bounded by the length of the text, every error is rendered (sometimes later, or twice), its locations have to be within the text, on character boundaries, and after the end there is nothing more. Distinct (schema, text) pairs.",
    assumptions: &["resources: at most 20 s and 1.5 GB for one case"],
    min: &[
        ("errors rendered", 10_000),
        ("errors: xml", 1000),
        ("errors: not allowed", 1000),
        ("errors: prefix", 100),
        ("errors: entity", 500),
        ("went on after an error", 5000),
        ("texts with more than one error", 2000),
        ("texts that are valid", 500),
        ("large texts", 50),
        ("garbled schemas that compile", 1000),
    ],
    once: None,
};

const SOUP: &[&str] = &[
    "<", ">", "/>", "</", "<a", "<a>", "</a>", "<b/>", " x='y'", " x=\"", "'", "\"", "=", "&", "&amp;", "&#x", "&#65;", ";", "&e;", "<!--", "-->", "--", "<![CDATA[", "]]>", "]", "<?", "?>", "<?pi x?>",
    "<?xml version='1.0'?>", "<!DOCTYPE a [", "]>", "<!ENTITY e 'x'>", "<!ENTITY e '&e;'>", "<!ENTITY e '&f;&f;'>", "<!ENTITY f '&g;&g;'>", "<!ENTITY", "<!ELEMENT a ANY>", "xmlns='u'", " xmlns:p='u'", "p:", "<p:a>", " p:x=''", " ", "\n", "\r", "\t", "é", "日本", "\u{10348}", "\u{feff}", "\u{0}", "\u{1}",
    "a", "1", "text", "<a><b><c>", "</c></b></a>", "]]", "!", "%", "%pe;", "\u{2028}", "x\u{301}", " xmlns:xml='q'", "<!DOCTYPE a SYSTEM 'x'>", "standalone", "<a\u{a0}b>",
];

/// Edits of a text, at the level of characters
pub fn edit(t: &str, r: &mut Rng, soup: &[&str]) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 2, 4, 10]) {
        let n = c.len();
        let i = r.below(n + 1);
        match r.below(8) {
            0 => {
                let j = (i + r.range(1, 5)).min(n);
                c.drain(i.min(j)..j);
            }
            1 | 2 => {
                let s: Vec<char> = r.pick(soup).chars().collect();
                c.splice(i..i, s);
            }
            3 => {
                if i < n {
                    c[i] = *r.pick(&['<', '>', '&', ';', '"', '\'', '/', ' ', 'x', '\u{0}', 'é', ']', '-', '!', '?', ':', '=', '日', '\n', '#', '{', '}', '(', ')', '|', '~', '\\', '*'])
                }
            }
            4 => {
                // repeat a part
                let j = (i + r.range(1, 40)).min(n);
                if i < j {
                    let s: Vec<char> = c[i..j].to_vec();
                    let k = r.below(n + 1);
                    c.splice(k..k, s);
                }
            }
            5 => {
                let j = (i + r.range(1, 40)).min(n);
                if i < j {
                    c.drain(i..j);
                }
            }
            6 => c.truncate(i),
            _ => {
                if i + 1 < n {
                    c.swap(i, i + 1)
                }
            }
        }
        if c.len() > 20_000 {
            c.truncate(20_000)
        }
    }
    c.into_iter().collect()
}

pub fn drive(ctx: &mut Ctx, s: &Schema, doc: &str, r: &mut Rng) -> CaseResult {
    if std::env::var("RNGMON_TRACE").is_ok() { eprintln!("{}--- document\n{doc}", s.text()) }
    let limit = 4 * doc.len() + 1000;
    let mut steps = 0;
    let mut errors = 0;
    let fail = |what: String| Err(Fail(format!("{what}\n{}--- document\n{doc}\n", s.text())));
    let mut v = match guarded(|| Validator::new(s.model.clone(), xmlparser::Tokenizer::from(doc))) {
        Ok(v) => v,
        Err(p) => return fail(format!("creating the validator: {p}")),
    };
    let stop_at = if r.chance(1, 8) { r.range(1, 20) } else { usize::MAX };
    let mut kept: Option<ValidatorError> = None;
    loop {
        steps += 1;
        if steps > limit {
            return fail(format!("no end after {steps} steps"));
        }
        let e = match guarded(|| v.validate_next()) {
            Err(p) => return fail(format!("step {steps}, after {errors} errors: {p}")),
            Ok(None) => break,
            Ok(Some(Ok(()))) => continue,
            Ok(Some(Err(e))) => e,
        };
        if errors > 0 {
            ctx.count("went on after an error");
        }
        errors += 1;
        ctx.count(match e {
            ValidatorError::Xml(_) => "errors: xml",
            ValidatorError::NotAllowed(_) => "errors: not allowed",
            ValidatorError::UndefinedNamespacePrefix { .. } => "errors: prefix",
            _ => "errors: entity",
        });
        // (rendering takes time in proportion to the length of the text)
        if errors > 50 && !r.chance(1, 50) {
            continue;
        }
        let late = kept.take();
        for e in [Some(&e), late.as_ref()].into_iter().flatten() {
            let d = match guarded(|| {
                let (map, d) = v.diagnostic("doc.xml".into(), doc.into(), e);
                run::convert(&map, &d)
            }) {
                Ok(d) => d,
                Err(p) => return fail(format!("rendering {e:?}: {p}")),
            };
            ctx.count("errors rendered");
            if d.is_empty() || d[0].level != "Error" || d[0].message.is_empty() || d[0].spans.is_empty() {
                return fail(format!("the diagnostic of {e:?} has no error, or no location: {d:?}"));
            }
            for x in &d {
                for (a, b, _) in &x.spans {
                    if a > b || *b > doc.len() || !doc.is_char_boundary(*a) || !doc.is_char_boundary(*b) {
                        return fail(format!("the diagnostic of {e:?} is located at {a}..{b}, in a text of {} bytes", doc.len()));
                    }
                }
            }
        }
        if r.chance(1, 4) {
            kept = Some(e)
        }
        if errors >= stop_at {
            return Ok(());
        }
    }
    for _ in 0..3 {
        match guarded(|| v.validate_next().is_some()) {
            Err(p) => return fail(format!("after the end: {p}")),
            Ok(true) => return fail("there is something after the end".into()),
            Ok(false) => {}
        }
    }
    match errors {
        0 => ctx.count("texts that are valid"),
        1 => {}
        _ => ctx.count("texts with more than one error"),
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let cfg = broad(&mut r);
    let flat = gen::schema(&mut r, &cfg);
    let s = load_flat(flat, r.bool(), 0, &mut r)?;
    let budget = *r.pick(&[6, 15, 30]);
    let docs = documents(&s.ir, &mut r, 2, 2, budget);
    let mut texts = vec![];
    for d in &docs {
        let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(&mut r) };
        texts.push(xml::print(d, &style, &mut r).text);
    }
    for _ in 0..14 {
        let base = r.pick(&texts).clone();
        let t = match r.below(8) {
            0 => base,
            1 | 2 => {
                let mut t = base;
                // (later faults only if the text is still one that can be taken apart)
                for _ in 0..r.range(1, 2) {
                    match guarded(|| c06::inject(&t, &mut r)) {
                        Ok(Some((_, x))) => t = x,
                        _ => break,
                    }
                }
                t
            }
            3 | 4 => edit(&base, &mut r, SOUP),
            5 => {
                let other = r.pick(&texts).clone();
                let cut = |t: &str, r: &mut Rng| t.char_indices().nth(r.below(t.chars().count() + 1)).map_or(t.len(), |x| x.0);
                let (a, b) = (cut(&base, &mut r), cut(&other, &mut r));
                format!("{}{}", &base[..a], &other[b..])
            }
            6 => (0..r.range(0, 40)).map(|_| *r.pick(SOUP)).collect(),
            _ => {
                let max = if r.bool() { 0x7f } else { 0x11_0000 };
                (0..r.range(0, 60)).map(|_| char::from_u32(r.below(max) as u32).unwrap_or('<')).collect()
            }
        };
        ctx.eval();
        ctx.distinct(&[&s.text(), &t]);
        drive(ctx, &s, &t, &mut r)?;
        ctx.sample(|| format!("{}--- document\n{t}", s.text()));
    }
    // schemas that nobody would write, as long as they compile
    for _ in 0..2 {
        let xml = r.bool();
        let mut top = s.flat.to_top();
        garble::garble(&mut top, &mut r);
        let n = if xml { "s.rng" } else { "s.rnc" };
        let t = if xml { print_rng::print(&top, false, 0, &mut r) } else { print_rnc::print(&top, &print_rnc::Env::default(), 0, &mut r) };
        let files = run::one(n, &t);
        let Ok(Ok(model)) = guarded(|| run::compile(&files, n, xml).result) else { continue };
        ctx.count("garbled schemas that compile");
        let g = Schema { flat: s.flat.clone(), ir: crate::ir::Ir::from_flat(&s.flat), files, root: n.into(), xml, model };
        for t in texts.iter().take(6) {
            ctx.eval();
            ctx.distinct(&[&g.text(), t]);
            drive(ctx, &g, t, &mut r)?;
        }
    }
    if r.chance(1, 40) {
        let any = load_flat(c06::any_schema(), r.bool(), 0, &mut r)?;
        let n = *r.pick(&[100, 1000, 5000]);
        let t = match r.below(6) {
            0 => format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)),
            1 => "<a x='1'>".repeat(n),
            2 => format!("<a {}/>", (0..n / 10).map(|i| format!("a{i}='{i}' ")).collect::<String>()),
            3 => {
                let mut d = String::from("<!DOCTYPE a [<!ENTITY e0 'xxxxxxxxxx'>");
                let k = r.range(5, 80);
                for i in 1..k {
                    d.push_str(&format!("<!ENTITY e{i} '{}'>", format!("&e{};", i - 1).repeat(*r.pick(&[1, 2, 10]))));
                }
                format!("{d}]><a>&e{};</a>", k - 1)
            }
            4 => format!("<a>{}</a>", "x<!---->&lt;<![CDATA[y]]>".repeat(n)),
            _ => format!("<a>{}</b>", "</c>".repeat(n)),
        };
        ctx.count("large texts");
        ctx.eval();
        ctx.distinct(&[&t]);
        drive(ctx, &any, &t, &mut r)?;
        // and against a schema that has something to say about it
        drive(ctx, &s, &t, &mut r)?;
    }
    Ok(())
}
