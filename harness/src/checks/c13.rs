//! C13: validations are independent of each other, and repeatable
use super::{c06, c08, c11};
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use crate::run::{self, MemFiles, Model};
use crate::scale;
use crate::xml;
use relaxng_model::{Compiler, Syntax};
use relaxng_validator::Validator;
use std::collections::BTreeMap;
use std::path::Path;

pub static CHECK: Check = Check {
    id: "C13",
    case,
    quick: 24_000,
    thorough: 300_000,
    resources: false,
    rule: "For several schemas (of one or more files, correct or edited at random) and texts (documents that match or not, ill-formed ones), the transcript of each compilation (error with rendered diagnostic) and validation (result of each step, rendered diagnostics) is recorded with everything new, and has to recur step for step in every history: with the model shared by all validations, up to six of which are open at a time and advanced in random order, some abandoned midway or gone on with after an error; with models from a compiler that compiled other roots before, some of them faulty, or the same one; in other threads at the same time; and in other processes (with other hash seeds). Distinct (schema, text) pairs.",
    assumptions: &["the model is not Send, so that one model is only ever used by one thread", "file names in diagnostics may be spelled with other '.' segments, and come in another order"],
    min: &[
        ("validations with a shared model", 20_000),
        ("of these, interleaved with others", 10_000),
        ("of these, abandoned", 1000),
        ("steps compared", 300_000),
        ("diagnostics compared", 10_000),
        ("compilations with a used compiler", 5000),
        ("of these, faulty schemas", 1000),
        ("validations in concurrent threads", 500),
        ("digests compared across processes", 3),
        ("with a large schema or document", 50),
    ],
    once: Some(processes),
};

#[derive(Clone)]
struct Input {
    files: BTreeMap<String, String>,
    root: String,
    xml: bool,
}
impl Input {
    fn show(&self) -> String {
        format!("root: {}\n{}", self.root, show_files(&self.files))
    }
}

/// Result of each step, and the diagnostics
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Transcript(Vec<String>);

struct Running<'a> {
    v: Validator<'a>,
    doc: &'a str,
    done: Transcript,
    errors: usize,
}
impl<'a> Running<'a> {
    fn new(model: &Model, doc: &'a str) -> Running<'a> {
        Running { v: Validator::new(model.clone(), xmlparser::Tokenizer::from(doc)), doc, done: Transcript::default(), errors: 0 }
    }
    /// Whether there is more to come
    fn step(&mut self) -> bool {
        if self.errors > 12 || self.done.0.len() > 4 * self.doc.len() + 1000 {
            return false;
        }
        match self.v.validate_next() {
            None => {
                self.done.0.push("end".into());
                return false;
            }
            Some(Ok(())) => self.done.0.push("ok".into()),
            Some(Err(e)) => {
                self.errors += 1;
                let (map, d) = self.v.diagnostic("doc.xml".into(), self.doc.into(), &e);
                self.done.0.push(format!("{e:?} {:?}", run::convert(&map, &d)));
            }
        }
        true
    }
}

fn transcript(model: &Model, doc: &str) -> Transcript {
    let mut r = Running::new(model, doc);
    while r.step() {}
    r.done
}

/// What comes of compiling: the error as rendered, if any
fn compiled(c: &mut Compiler<MemFiles>, root: &str) -> Result<Model, String> {
    match c.compile(Path::new(root)) {
        Ok(m) => Ok(m),
        // (which of several spellings of a path is shown depends on which one was seen first)
        Err(e) => {
            let t = run::dump(c, &e).unwrap_or_else(|p| p).replace("./", "");
            // the order in which codemap-diagnostic shows several files depends on their order in the code map
            let mut l: Vec<&str> = t.lines().collect();
            l.sort();
            Err(format!("{} {}", run::kind_of(&e), l.join("\n")))
        }
    }
}
fn compiler(i: &Input) -> Compiler<MemFiles> {
    Compiler::new(MemFiles::new(i.files.clone()), if i.xml { Syntax::Xml } else { Syntax::Compact })
}

/// Several faults of the same kind, of which one is reported: always the same one
fn many_faults(r: &mut Rng) -> Input {
    let xml = r.bool();
    let n = r.range(2, 9);
    let mut names: Vec<String> = (0..n).map(|i| if r.chance(1, 8) { format!("much-longer-{i}") } else { format!("u{i}") }).collect();
    r.shuffle(&mut names);
    let join = |f: &dyn Fn(&String) -> String| names.iter().map(f).collect::<String>();
    const RNG: &str = "xmlns='http://relaxng.org/ns/structure/1.0'";
    let mut files = BTreeMap::new();
    let other = if xml { format!("<grammar {RNG}><define name='x'><empty/></define></grammar>") } else { "x = empty".to_string() };
    let text = match (r.below(5), xml) {
        // overrides of nothing
        (0, false) => format!("include \"other\" {{ {} }} start = element a {{ x }}", join(&|n| format!("{n} = empty\n"))),
        (0, true) => format!("<grammar {RNG}><include href='other'>{}</include><start><element name='a'><ref name='x'/></element></start></grammar>", join(&|n| format!("<define name='{n}'><empty/></define>"))),
        // references to nothing
        (1, false) => format!("start = element a {{ x {} }} x = empty", join(&|n| format!(", {n}"))),
        (1, true) => format!("<grammar {RNG}><start><element name='a'>{}</element></start></grammar>", join(&|n| format!("<ref name='{n}'/>"))),
        // recursion
        (2, false) => format!("start = element a {{ x {} }} x = empty\n{}", join(&|n| format!("| {n}")), join(&|n| format!("{n} = x | {n}?\n"))),
        (2, true) => format!("<grammar {RNG}><start><element name='a'><choice><empty/>{}</choice></element></start>{}</grammar>", join(&|n| format!("<ref name='{n}'/>")), join(&|n| format!("<define name='{n}'><optional><ref name='{n}'/></optional></define>"))),
        // recursion by way of one another
        (3, false) => {
            let k = |i: usize| names[i % n].clone();
            format!("start = element a {{ {} }}\n{}", names.join(" | "), (0..n).map(|i| format!("{} = text | ({} & {})\n", k(i), k(i + 1), k(i + 2))).collect::<String>())
        }
        (3, true) => {
            let k = |i: usize| names[i % n].clone();
            format!(
                "<grammar {RNG}><start><element name='a'><choice><empty/>{}</choice></element></start>{}</grammar>",
                join(&|n| format!("<ref name='{n}'/>")),
                (0..n).map(|i| format!("<define name='{}'><choice><text/><ref name='{}'/><ref name='{}'/></choice></define>", k(i), k(i + 1), k(i + 2))).collect::<String>()
            )
        }
        // defined twice
        (_, false) => format!("start = element a {{ empty }}\n{}{}", join(&|n| format!("{n} = empty\n")), join(&|n| format!("{n} = text\n"))),
        (_, true) => format!("<grammar {RNG}><start><element name='a'><empty/></element></start>{}{}</grammar>", join(&|n| format!("<define name='{n}'><empty/></define>")), join(&|n| format!("<define name='{n}'><text/></define>"))),
    };
    files.insert("root".to_string(), text);
    files.insert("other".to_string(), other);
    Input { files, root: "root".into(), xml }
}

fn inputs(r: &mut Rng) -> Result<(Vec<Input>, Vec<String>), Fail> {
    let mut ctx = Ctx { prop: "C13", seed: 0, index: 0, tier: Tier::Quick, st: Stats::default(), scratch: Default::default(), verbose: false };
    let mut ins: Vec<Input> = vec![];
    let mut texts: Vec<String> = vec![];
    for _ in 0..r.range(1, 2) {
        let cfg = gen::Cfg { max_size: 80, ..broad(r) };
        let flat = gen::schema(r, &cfg);
        let xml = r.bool();
        let s = if r.bool() { load_flat(flat, xml, 0, r)? } else { c08::load_composed(&mut ctx, flat, xml, 0, false, r)?.1 };
        let budget = *r.pick(&[6, 15, 30]);
        for d in documents(&s.ir, r, 1, 3, budget) {
            let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(r) };
            texts.push(xml::print(&d, &style, r).text);
        }
        ins.push(Input { files: s.files, root: s.root, xml });
    }
    for _ in 0..r.below(3) {
        let t = r.pick(&texts).clone();
        if let Ok(Some((_, x))) = guarded(|| c06::inject(&t, r)) {
            texts.push(x)
        }
        texts.push(c11::edit(&t, r, &["<", ">", "&", "<a>", "</a>", "é", "<b/>", " x='y'"]));
    }
    // (what depends on how much there was before)
    if let Some((s, docs)) = large(&mut ctx, r, 40, scale::Kind::Any, 0)? {
        for d in docs.iter().take(2) {
            texts.push(xml::print(d, &xml::Style::plain(), r).text);
        }
        ins.push(Input { files: s.files, root: s.root, xml: s.xml });
    }
    if r.chance(1, 6) {
        ins.push(many_faults(r));
    }
    for _ in 0..r.below(3) {
        let mut i = r.pick(&ins).clone();
        let names: Vec<String> = i.files.keys().cloned().collect();
        let n = r.pick(&names).clone();
        let t = i.files[&n].clone();
        // (a whole definition that's gone is more interesting than a syntax error)
        let t2 = if r.bool() {
            c11::edit(&t, r, &["d0", "start", "=", "|=", "<ref name='x'/>", "element", "'", "grammar {", "<grammar>", "xsd:foo", "|", "external 'x'", "p:q", "é"])
        } else {
            let l: Vec<&str> = t.lines().collect();
            let k = r.below(l.len().max(1));
            l.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, l)| format!("{l}\n")).collect()
        };
        i.files.insert(n, t2);
        ins.push(i);
    }
    Ok((ins, texts))
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let r = &mut r;
    let (ins, texts) = inputs(r)?;
    if texts.iter().any(|t| t.len() > 5000) || ins.iter().any(|i| i.files.values().any(|t| t.len() > 5000)) {
        ctx.count("with a large schema or document");
    }
    // with everything new
    struct Base {
        error: Option<String>,
        runs: Vec<Transcript>,
    }
    let mut base: Vec<Base> = vec![];
    for i in &ins {
        // (that texts edited at random may be compiled is another property)
        let Ok(first) = guarded(|| compiled(&mut compiler(i), &i.root)) else {
            ctx.count("schemas which the compiler panics for (see C10)");
            return Ok(());
        };
        let mut b = Base { error: first.as_ref().err().cloned(), runs: vec![] };
        if first.is_ok() {
            for t in &texts {
                ctx.distinct(&[&i.show(), t]);
                match guarded(|| transcript(&compiled(&mut compiler(i), &i.root).unwrap(), t)) {
                    Ok(t) => b.runs.push(t),
                    Err(p) => return Err(Fail(format!("validating: {p}\n{}--- document\n{t}\n", i.show()))),
                }
            }
        }
        base.push(b);
    }
    let differ = |what: &str, i: &Input, doc: &str, want: &str, got: &str| {
        Err(Fail(format!("{what}\nfirst: {want}\nthen:  {got}\n{}--- document\n{doc}\n", i.show())))
    };
    let steps = |ctx: &mut Ctx, what: &str, i: &Input, doc: &str, want: &Transcript, got: &Transcript, whole: bool| -> CaseResult {
        ctx.eval();
        ctx.add("steps compared", got.0.len() as u64);
        for (k, g) in got.0.iter().enumerate() {
            let w = want.0.get(k).map_or("(nothing)", |s| s);
            if w.len() > 5 {
                ctx.count("diagnostics compared");
            }
            if w != g {
                return differ(&format!("{what}, step {k} has another result"), i, doc, w, g);
            }
        }
        if whole && want.0.len() != got.0.len() {
            return differ(&format!("{what}, there are more or fewer steps"), i, doc, &want.0.len().to_string(), &got.0.len().to_string());
        }
        Ok(())
    };

    // the same compiler for everything: several roots in one file system, twice or more
    let mut all = BTreeMap::new();
    let mut dirs = vec![];
    for (k, i) in ins.iter().enumerate() {
        let d = format!("used-{k}-\u{2021}/");
        for (n, t) in &i.files {
            all.insert(format!("{d}{n}"), t.clone());
        }
        dirs.push(d);
    }
    let mut models: Vec<(usize, Model)> = vec![];
    for xml in [false, true] {
        let mut order: Vec<usize> = (0..ins.len()).filter(|k| ins[*k].xml == xml).collect();
        order.extend(order.clone());
        r.shuffle(&mut order);
        let mut c = Compiler::new(MemFiles::new(all.clone()), if xml { Syntax::Xml } else { Syntax::Compact });
        let mut first: BTreeMap<usize, Result<(), String>> = BTreeMap::new();
        for k in order {
            let i = &ins[k];
            let got = guarded(|| compiled(&mut c, &format!("{}{}", dirs[k], i.root))).map_err(|p| Fail(format!("compiling with a used compiler: {p}\n{}", i.show())))?;
            ctx.eval();
            ctx.count("compilations with a used compiler");
            // the names of the files have been changed
            let e = got.as_ref().map(|_| ()).map_err(|e| e.replace(&dirs[k], ""));
            match (&base[k].error, &e) {
                (None, Ok(())) => {}
                (Some(w), Err(g)) if w == g => ctx.count("of these, faulty schemas"),
                (w, g) => return differ("compiling with a used compiler", i, "", &format!("{w:?}"), &format!("{g:?}")),
            }
            if let Some(f) = first.get(&k) {
                if *f != e {
                    return differ("compiling once more", i, "", &format!("{f:?}"), &format!("{e:?}"));
                }
            }
            first.insert(k, e);
            if let Ok(m) = got {
                models.push((k, m));
            }
        }
    }
    // a model shared by validations, at the same time
    for (k, m) in &models {
        let (i, b) = (&ins[*k], &base[*k]);
        let mut todo: Vec<usize> = (0..texts.len()).collect();
        todo.extend(todo.clone());
        r.shuffle(&mut todo);
        let at_once = *r.pick(&[1, 2, 6]);
        let mut open: Vec<(usize, Running)> = vec![];
        while !open.is_empty() || !todo.is_empty() {
            if open.len() < at_once && (open.is_empty() || r.chance(1, 3)) {
                if let Some(t) = todo.pop() {
                    open.push((t, Running::new(m, &texts[t])));
                    ctx.count("validations with a shared model");
                    if open.len() > 1 {
                        ctx.count("of these, interleaved with others");
                    }
                }
            }
            let n = r.below(open.len());
            let mut more = true;
            for _ in 0..r.range(1, 4) {
                let o = &mut open[n].1;
                more = guarded(|| o.step()).map_err(|p| Fail(format!("validating: {p}\n{}--- document\n{}\n", i.show(), o.doc)))?;
                if !more {
                    break;
                }
            }
            let abandon = more && r.chance(1, 60);
            if !more || abandon {
                let (t, o) = open.swap_remove(n);
                if abandon {
                    ctx.count("of these, abandoned");
                }
                steps(ctx, "with a shared model", i, o.doc, &b.runs[t], &o.done, !abandon)?;
            }
        }
    }
    ctx.sample(|| format!("{}--- document\n{}\n{:?}", ins[0].show(), texts[0], base[0].runs.first()));
    // in several threads
    if r.chance(1, 20) {
        let work: Vec<(Input, Vec<String>)> = ins.iter().enumerate().filter(|(k, _)| base[*k].error.is_none()).map(|(_, i)| (i.clone(), texts.clone())).collect();
        let want: Vec<&Base> = base.iter().filter(|b| b.error.is_none()).collect();
        let handles: Vec<_> = (0..3)
            .map(|_| {
                let work = work.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        guarded(|| {
                            work.iter().map(|(i, ts)| { let m = compiled(&mut compiler(i), &i.root).unwrap(); ts.iter().map(|t| transcript(&m, t)).collect::<Vec<_>>() }).collect::<Vec<_>>()
                        })
                    })
                    .unwrap()
            })
            .collect();
        for h in handles {
            let got = h.join().unwrap().map_err(|p| Fail(format!("validating in a thread: {p}\n{}", ins[0].show())))?;
            for (n, ((i, ts), g)) in work.iter().zip(&got).enumerate() {
                for (t, g) in g.iter().enumerate() {
                    ctx.count("validations in concurrent threads");
                    steps(ctx, "in a thread of its own", i, &ts[t], &want[n].runs[t], g, true)?;
                }
            }
        }
    }
    Ok(())
}

/// A digest of what a number of cases lead to
pub fn digest(seed: u64, n: u64) -> u64 {
    let mut h = 0u64;
    for k in 0..n {
        let mut r = Rng::new(seed, 0xd16e57, k);
        let Ok((ins, texts)) = inputs(&mut r) else { continue };
        for i in &ins {
            let got = guarded(|| compiled(&mut compiler(i), &i.root));
            let t = match &got {
                Ok(Ok(m)) => texts.iter().map(|t| format!("{:?}", guarded(|| transcript(m, t)))).collect::<String>(),
                Ok(Err(e)) => e.clone(),
                Err(p) => p.clone(),
            };
            h = crate::rng::mix(h ^ crate::rng::fnv(t.as_bytes()));
            if std::env::var("RNGMON_TRACE").is_ok() {
                println!("{k} {h:x} {}\n{t}", i.show());
            }
        }
    }
    h
}

fn processes(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.tier == Tier::Quick { 300 } else { 5000 };
    let exe = std::env::current_exe().unwrap();
    let mut got: Vec<String> = vec![];
    for k in 0..4 {
        let out = std::process::Command::new(&exe)
            .args(["digest", &ctx.seed.to_string(), &n.to_string()])
            // another environment
            .env("RNGMON_FILLER", "x".repeat(k * 1000))
            .current_dir(if k % 2 == 0 { "/" } else { "/tmp" })
            .output()
            .unwrap();
        if !out.status.success() {
            panic!("digest: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
        }
        got.push(String::from_utf8_lossy(&out.stdout).trim().to_string());
        ctx.eval();
        ctx.count("digests compared across processes");
    }
    if got.iter().any(|g| *g != got[0]) {
        return Err(Fail(format!("outcomes differ from process to process: digests {got:?} of {n} cases (RNGMON_TRACE=1 rngmon digest {} {n} shows them)", ctx.seed)));
    }
    Ok(())
}
