//! C17: a schema loads exactly the files that it refers to
use crate::compose::{relative, BASES};
use crate::mon::*;
use crate::rng::Rng;
use crate::run;
use relaxng_model::{Compiler, FsFiles, RelaxError, Syntax};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub static CHECK: Check = Check {
    id: "C17",
    case,
    quick: 180_000,
    thorough: 2_000_000,
    resources: false,
    rule: "Random reference graphs of up to 9 files in several directories: includes (with overrides that refer to further files), external patterns, includes within nested grammars, diamonds, several spellings of the same path, xml:base attributes, cycles, missing files; with decoys at the paths that result from resolving references relative to other directories, and unreferenced files. Monitors: every access to the files (an instrumented loader, or real files), the compiler's list of loaded files, and the verdicts for documents that name the files whose content must, or must not, be part of the schema. Distinct graphs (as texts).",
    assumptions: &["paths that only differ by '.' and '..' segments after a name may be considered different"],
    min: &[
        ("graphs loaded completely", 5000),
        ("large graphs", 500),
        ("graphs of files with equal content", 200),
        ("graphs with diamonds", 2000),
        ("graphs with a missing file", 500),
        ("graphs with a cycle", 500),
        ("file accesses observed", 50_000),
        ("loaded from a real file system", 200),
        ("links in a real file system", 200),
        ("graphs with xml:base", 5000),
        ("documents accepted", 20_000),
        ("documents rejected", 20_000),
        ("decoys in place", 5_000),
        ("graphs outside the current directory", 5_000),
    ],
    once: None,
};

#[derive(Clone, Debug)]
enum Kind {
    External,
    /// an include in a nested grammar
    Nested(Option<Marker>),
}
/// An element that tells where it comes from, and may contain what some references refer to
#[derive(Clone, Debug)]
struct Marker {
    name: String,
    refs: Vec<(Kind, String, usize)>,
}
#[derive(Clone, Debug)]
struct FileOf {
    name: String,
    grammar: bool,
    marker: Marker,
    includes: Vec<(String, usize, Option<Marker>)>,
}

const DIRS: &[&str] = &["", "", "d/", "d/e/", "x/", "a.b/c/", "é/", "with space/", "d/d/"];

struct G<'a> {
    r: &'a mut Rng,
    files: Vec<FileOf>,
    /// where all the files are
    base: &'static str,
    next: usize,
    missing: usize,
    cycles: usize,
    /// file names that don't exist
    absent: Vec<String>,
}

const MISSING: usize = usize::MAX;

impl G<'_> {
    /// The target of a reference in file i
    fn target(&mut self, i: usize, grammar: bool) -> Option<(String, usize)> {
        let from = self.files[i].name.clone();
        if self.missing > 0 && self.r.chance(1, 3) {
            self.missing -= 1;
            let n = format!("{}{}absent{}", self.base, *self.r.pick(DIRS), self.r.below(3));
            self.absent.push(n.clone());
            return Some((relative(&from, &n, self.r), MISSING));
        }
        let back = self.cycles > 0 && self.r.chance(1, 3);
        if back {
            self.cycles -= 1;
        }
        let cand: Vec<usize> = (0..self.files.len()).filter(|j| (if back { *j <= i } else { *j > i }) && (!grammar || self.files[*j].grammar)).collect();
        if cand.is_empty() {
            return None;
        }
        // nearby ones are more likely, so that there are chains
        let j = cand[if self.r.bool() { 0 } else { self.r.below(cand.len()) }];
        let to = self.files[j].name.clone();
        Some((relative(&from, &to, self.r), j))
    }
    fn marker(&mut self, i: usize, name: String, most: usize) -> Marker {
        let n = self.r.below(most + 1);
        let mut refs = vec![];
        for _ in 0..n {
            if self.r.chance(2, 3) {
                if let Some((h, j)) = self.target(i, false) {
                    refs.push((Kind::External, h, j))
                }
            } else if let Some((h, j)) = self.target(i, true) {
                let o = self.over(i, j);
                refs.push((Kind::Nested(o), h, j))
            }
        }
        Marker { name, refs }
    }
    fn over(&mut self, i: usize, j: usize) -> Option<Marker> {
        if j == MISSING || !self.r.chance(1, 3) {
            return None;
        }
        self.next += 1;
        let name = format!("o{}", self.next);
        Some(self.marker(i, name, 1))
    }
}

fn fill(r: &mut Rng, base: &'static str, ext: &str, cycles: usize, missing: usize) -> (Vec<FileOf>, Vec<String>) {
    let n = r.range(1, 9);
    let mut files: Vec<FileOf> = vec![];
    while files.len() < n {
        let file = *r.pick(&["s", "m", "t", "f", "a.b", "é"]);
        let name = format!("{base}{}{file}.{ext}", *r.pick(DIRS));
        if files.iter().any(|f| f.name == name) {
            continue;
        }
        let k = files.len();
        files.push(FileOf { name, grammar: r.chance(2, 3), marker: Marker { name: format!("m{k}"), refs: vec![] }, includes: vec![] });
    }
    let mut g = G { r, files, base, next: 0, missing, cycles, absent: vec![] };
    for i in 0..n {
        let name = format!("m{i}");
        g.files[i].marker = g.marker(i, name, 3);
        if g.files[i].grammar {
            for _ in 0..g.r.below(4) {
                if let Some((h, j)) = g.target(i, true) {
                    let o = g.over(i, j);
                    g.files[i].includes.push((h, j, o));
                }
            }
        }
    }
    (g.files, g.absent)
}

/// Graphs with many files: long chains, or many references from one file
fn fill_large(r: &mut Rng, base: &'static str, ext: &str, cycles: usize, missing: usize) -> (Vec<FileOf>, bool) {
    let n = crate::scale::size(r, 60) + 1;
    let how = r.below(4);
    let nested = r.bool();
    let same = how == 3;
    let mut files: Vec<FileOf> = vec![];
    for i in 0..n {
        let name = if same || nested && how > 0 { format!("{base}{}s.{ext}", "d/".repeat(i)) } else { format!("{base}{}f{i}.{ext}", *r.pick(DIRS)) };
        let marker = if same { if i + 1 < n { "m0".into() } else { "m1".into() } } else { format!("m{i}") };
        files.push(FileOf { name, grammar: same || r.bool(), marker: Marker { name: marker, refs: vec![] }, includes: vec![] });
    }
    let kinds = r.below(4);
    let mut next = 0;
    let one = r.below(2);
    let mut refer = |files: &mut Vec<FileOf>, r: &mut Rng, i: usize, j: usize| {
        let h = if same {
            format!("d/s.{ext}")
        } else if j == MISSING {
            relative(&files[i].name, &format!("{base}d/absent.{ext}"), r)
        } else {
            let to = files[j].name.clone();
            relative(&files[i].name, &to, r)
        };
        let grammar = j == MISSING || files[j].grammar;
        let k = if same { one } else if kinds < 3 { kinds } else { r.below(3) };
        let over = |r: &mut Rng, next: &mut usize| {
            (j != MISSING && !same && r.chance(1, 30)).then(|| {
                *next += 1;
                Marker { name: format!("o{next}"), refs: vec![] }
            })
        };
        match k {
            0 if grammar && files[i].grammar => {
                let o = over(r, &mut next);
                files[i].includes.push((h, j, o))
            }
            1 if grammar && !same => {
                let o = over(r, &mut next);
                files[i].marker.refs.push((Kind::Nested(o), h, j))
            }
            _ => files[i].marker.refs.push((Kind::External, h, j)),
        }
    };
    if how == 0 {
        for j in 1..n {
            // (what is referred to most need not be the first)
            for _ in 0..*r.pick(&[1, 1, 2]) {
                refer(&mut files, r, 0, j);
            }
            if r.chance(1, 10) && j + 1 < n {
                refer(&mut files, r, j, j + 1);
            }
        }
    } else {
        for i in 0..n - 1 {
            refer(&mut files, r, i, i + 1);
        }
    }
    if !same {
        for _ in 0..cycles {
            let i = r.below(n);
            refer(&mut files, r, n - 1, i);
        }
        for _ in 0..missing {
            let i = if r.bool() { n - 1 } else { r.below(n) };
            refer(&mut files, r, i, MISSING);
        }
    }
    (files, same)
}

// --- printing

/// The same reference, by way of up to two `xml:base` attributes: of something around it, and of its
/// own
fn based(h: &str, r: &mut Rng) -> (Option<String>, Option<String>, String) {
    if !r.chance(1, 6) || h.contains("//") || h.starts_with('/') {
        return (None, None, h.to_string());
    }
    let ends: Vec<usize> = std::iter::once(0).chain(h.match_indices('/').map(|(i, _)| i + 1)).collect();
    let mut at = [*r.pick(&ends), *r.pick(&ends)];
    at.sort();
    // (what follows the last slash doesn't count)
    let mut base = |d: &str, r: &mut Rng| format!("{d}{}", r.pick(&["", "", "base.rng", "x"]));
    match r.below(3) {
        0 => (Some(base(&h[..at[0]], r)), None, h[at[0]..].to_string()),
        1 => (None, Some(base(&h[..at[0]], r)), h[at[0]..].to_string()),
        _ => (Some(base(&h[..at[0]], r)), Some(base(&h[at[0]..at[1]], r)), h[at[1]..].to_string()),
    }
}
fn base_att(b: &Option<String>) -> String {
    b.as_ref().map_or(String::new(), |b| format!(" xml:base=\"{b}\""))
}

fn marker_text(m: &Marker, xml: bool, r: &mut Rng, out: &mut String) {
    if xml {
        out.push_str(&format!("<element name=\"{}\">", m.name));
        if !m.refs.is_empty() {
            out.push_str("<choice><empty/>");
        } else {
            out.push_str("<empty/>");
        }
        for (k, h, _) in &m.refs {
            match k {
                Kind::External => {
                    let (o, i, h) = based(h, r);
                    let e = format!("<externalRef href=\"{h}\"{}/>", base_att(&i));
                    out.push_str(&if o.is_some() { format!("<group{}>{e}</group>", base_att(&o)) } else { e });
                }
                Kind::Nested(o) => {
                    out.push_str("<grammar>");
                    include_text(h, o, true, r, out);
                    out.push_str("</grammar>");
                }
            }
        }
        if !m.refs.is_empty() {
            out.push_str("</choice>");
        }
        out.push_str("</element>");
    } else {
        out.push_str(&format!("element {} {{ empty", m.name));
        for (k, h, _) in &m.refs {
            match k {
                Kind::External => out.push_str(&format!(" | external '{h}'")),
                Kind::Nested(o) => {
                    out.push_str(" | grammar {");
                    include_text(h, o, false, r, out);
                    out.push('}');
                }
            }
        }
        out.push_str(" }");
    }
}
fn start_text(m: &Marker, xml: bool, r: &mut Rng, out: &mut String) {
    if xml {
        out.push_str("<start combine=\"choice\">");
        marker_text(m, xml, r, out);
        out.push_str("</start>\n");
    } else {
        out.push_str("start |= ");
        marker_text(m, xml, r, out);
        out.push('\n');
    }
}
fn include_text(h: &str, o: &Option<Marker>, xml: bool, r: &mut Rng, out: &mut String) {
    let div = r.chance(1, 4);
    if div {
        out.push_str(if xml { "<div>" } else { "div {" });
    }
    if xml {
        // (it would count for what's in the override, too)
        let (outer, inner, h) = if o.as_ref().is_some_and(|m| !m.refs.is_empty()) { (None, None, h.to_string()) } else { based(h, r) };
        if outer.is_some() {
            out.push_str(&format!("<div{}>", base_att(&outer)));
        }
        out.push_str(&format!("<include href=\"{h}\"{}>", base_att(&inner)));
        if let Some(m) = o {
            start_text(m, xml, r, out);
        }
        out.push_str("</include>\n");
        if outer.is_some() {
            out.push_str("</div>");
        }
    } else {
        out.push_str(&format!("include '{h}'"));
        if let Some(m) = o {
            out.push_str(" { ");
            start_text(m, xml, r, out);
            out.push_str(" }");
        }
        out.push('\n');
    }
    if div {
        out.push_str(if xml { "</div>" } else { "}" });
    }
}
const NS: &str = " xmlns=\"http://relaxng.org/ns/structure/1.0\"";

fn file_text(f: &FileOf, xml: bool, r: &mut Rng) -> String {
    let mut s = String::new();
    if f.grammar {
        let braces = xml || r.chance(1, 3);
        if xml {
            s.push_str(&format!("<grammar{NS}>\n"));
        } else if braces {
            s.push_str("grammar {\n");
        }
        let at = r.below(f.includes.len() + 1);
        for (k, (h, _, o)) in f.includes.iter().enumerate() {
            if k == at {
                start_text(&f.marker, xml, r, &mut s);
            }
            include_text(h, o, xml, r, &mut s);
        }
        if at == f.includes.len() {
            start_text(&f.marker, xml, r, &mut s);
        }
        s.push_str(if xml {
            "</grammar>"
        } else if braces {
            "}"
        } else {
            ""
        });
    } else {
        marker_text(&f.marker, xml, r, &mut s);
        if xml {
            s = s.replacen("<element", &format!("<element{NS}"), 1);
        }
    }
    s
}

fn decoy_text(name: &str, xml: bool) -> String {
    if xml {
        format!("<grammar{NS}><start combine=\"choice\"><element name=\"{name}\"><zeroOrMore><element><anyName/><empty/></element></zeroOrMore></element></start></grammar>")
    } else {
        format!("start |= element {name} {{ element * {{ empty }}* }}")
    }
}

// --- what it means

struct World<'a> {
    files: &'a [FileOf],
}
impl World<'_> {
    /// The elements that may come at the start of a file
    fn starts<'b>(&'b self, i: usize, out: &mut Vec<&'b Marker>) {
        let f = &self.files[i];
        out.push(&f.marker);
        for (_, j, o) in &f.includes {
            self.included(*j, o, out);
        }
    }
    fn included<'b>(&'b self, j: usize, o: &'b Option<Marker>, out: &mut Vec<&'b Marker>) {
        match o {
            Some(m) => out.push(m),
            None => self.starts(j, out),
        }
    }
    fn content<'b>(&'b self, m: &'b Marker) -> Vec<&'b Marker> {
        let mut out = vec![];
        for (k, _, j) in &m.refs {
            match k {
                Kind::External => self.starts(*j, &mut out),
                Kind::Nested(o) => self.included(*j, o, &mut out),
            }
        }
        out
    }
    fn accepts(&self, path: &[String]) -> bool {
        let mut now = vec![];
        self.starts(0, &mut now);
        for (k, n) in path.iter().enumerate() {
            // (with equal content there may be several)
            now.retain(|m| m.name == *n);
            if now.is_empty() {
                return false;
            }
            if k + 1 < path.len() {
                now = now.iter().flat_map(|m| self.content(m)).collect();
                let mut seen = BTreeSet::new();
                now.retain(|m| seen.insert(*m as *const Marker));
            }
        }
        true
    }
}

fn refs_of(f: &FileOf) -> Vec<(&str, usize)> {
    fn m<'a>(x: &'a Marker, out: &mut Vec<(&'a str, usize)>) {
        for (k, h, j) in &x.refs {
            out.push((h, *j));
            if let Kind::Nested(Some(o)) = k {
                m(o, out)
            }
        }
    }
    let mut out = vec![];
    m(&f.marker, &mut out);
    for (h, j, o) in &f.includes {
        out.push((h, *j));
        if let Some(o) = o {
            m(o, &mut out)
        }
    }
    out
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let r = &mut r;
    let xml = r.bool();
    let ext = if xml { "rng" } else { "rnc" };
    let cycles = if r.chance(1, 8) { r.range(1, 2) } else { 0 };
    let missing = if r.chance(1, 8) { r.range(1, 2) } else { 0 };
    let base = *r.pick(BASES);
    let large = r.chance(1, 40);
    let (files, same) = if large {
        ctx.count("large graphs");
        fill_large(r, base, ext, cycles, missing)
    } else {
        (fill(r, base, ext, cycles, missing).0, false)
    };
    // the paths that are referred to, as spelled, by way of all references (as far as they differ)
    let mut reach: BTreeSet<PathBuf> = BTreeSet::new();
    let mut todo: Vec<(PathBuf, usize)> = vec![(PathBuf::from(&files[0].name), 0)];
    let mut reached_files: BTreeSet<usize> = BTreeSet::new();
    let mut indegree: BTreeMap<usize, usize> = BTreeMap::new();
    let mut lost = false;
    while let Some((p, i)) = todo.pop() {
        if reach.len() > if large { 400 } else { 150 } {
            ctx.count("graphs that are too large");
            return Ok(());
        }
        if !reach.insert(p.clone()) || i == MISSING {
            lost |= i == MISSING;
            continue;
        }
        reached_files.insert(i);
        for (h, j) in refs_of(&files[i]) {
            *indegree.entry(j).or_insert(0) += 1;
            todo.push((p.parent().unwrap_or(Path::new("")).join(h), j));
        }
    }
    let cyclic = {
        fn go(f: &[FileOf], i: usize, path: &mut Vec<usize>, done: &mut BTreeSet<usize>) -> bool {
            if path.contains(&i) {
                return true;
            }
            if !done.insert(i) {
                return false;
            }
            path.push(i);
            let c = refs_of(&f[i]).into_iter().any(|(_, j)| j != MISSING && go(f, j, path, done));
            path.pop();
            c
        }
        go(&files, 0, &mut vec![], &mut BTreeSet::new())
    };
    let world = World { files: &files };
    let mut texts: BTreeMap<String, String> = files.iter().map(|f| (f.name.clone(), file_text(f, xml, r))).collect();
    if same {
        ctx.count("graphs of files with equal content");
        let t = texts[&files[0].name].clone();
        for f in &files[..files.len() - 1] {
            texts.insert(f.name.clone(), t.clone());
        }
    }
    if texts.values().any(|t| t.contains("xml:base")) {
        ctx.count("graphs with xml:base");
    }
    // decoys: what one gets by resolving references relative to something else
    let mut decoys = 0;
    let mut absent: BTreeSet<String> = BTreeSet::new();
    for p in &reach {
        let n = run::norm(&p.to_string_lossy());
        if !texts.contains_key(&n) {
            absent.insert(n);
        }
    }
    for f in &files {
        for (h, _) in refs_of(f) {
            for d in DIRS.iter().chain([&"decoys/"]) {
                let n = run::norm(&format!("{base}{d}{h}"));
                if (base != "" || !n.starts_with("..")) && !texts.contains_key(&n) && !absent.contains(&n) {
                    texts.insert(n, decoy_text(&format!("decoy{decoys}"), xml));
                    decoys += 1;
                }
            }
        }
    }
    if !base.is_empty() {
        ctx.count("graphs outside the current directory")
    }
    ctx.add("decoys in place", decoys as u64);
    let mut shown = format!("root: {}\n", files[0].name);
    for f in &files {
        shown.push_str(&format!("--- {}\n{}\n", f.name, texts[&f.name]));
    }
    let text_of_graph = shown.clone();
    if indegree.values().any(|n| *n > 1) {
        ctx.count("graphs with diamonds");
    }
    if lost {
        ctx.count("graphs with a missing file");
    }
    if cyclic {
        ctx.count("graphs with a cycle");
    }
    ctx.max("files in a graph", reached_files.len() as u64);
    let fail = |m: String| Err(Fail(format!("{m}\n{shown}")));

    // with the instrumented loader
    let c = guarded(|| run::compile(&texts, &files[0].name, xml)).map_err(|p| Fail(format!("compiling: {p}\n{shown}")))?;
    ctx.eval();
    ctx.distinct(&[&text_of_graph]);
    let log = c.log.borrow().clone();
    ctx.add("file accesses observed", log.len() as u64);
    let mut seen: BTreeSet<PathBuf> = BTreeSet::new();
    for p in &log {
        if !reach.contains(p) {
            return fail(format!("{} is read, but nothing refers to it", p.display()));
        }
        if !seen.insert(p.clone()) {
            return fail(format!("{} is read more than once", p.display()));
        }
    }
    let loaded: BTreeSet<PathBuf> = c.compiler.loaded().cloned().collect();
    let present: BTreeSet<PathBuf> = seen.iter().filter(|p| texts.contains_key(&run::norm(&p.to_string_lossy()))).cloned().collect();
    if loaded != present {
        return fail(format!("the compiler lists {loaded:?} as loaded, but read {present:?}"));
    }
    if c.compiler.loaded().count() != loaded.len() {
        return fail("the compiler lists a file more than once".into());
    }
    match (&c.result, lost || cyclic) {
        (Err(e), false) => return fail(format!("a correct schema is rejected: {e:?}")),
        (Err(e), true) => {
            let k = run::kind_of(e);
            if !(k == "Io" && lost || k == "RecursiveInclude" && cyclic) {
                return fail(format!("the schema is rejected for another reason: {e:?}"));
            }
            ctx.count("rejected for a missing file or a cycle");
            return Ok(());
        }
        (Ok(_), true) => return fail(format!("the schema refers to {}, but is accepted", if lost { "a file that is missing" } else { "itself" })),
        (Ok(_), false) => {}
    }
    if seen != reach {
        let left: Vec<_> = reach.difference(&seen).collect();
        return fail(format!("{left:?} not read"));
    }
    ctx.count("graphs loaded completely");
    let model = c.result.as_ref().unwrap();

    // which content there is
    let mut docs: Vec<Vec<String>> = vec![];
    for _ in 0..6 {
        let mut path: Vec<String> = vec![];
        let mut now = vec![];
        world.starts(0, &mut now);
        while !now.is_empty() {
            let m: &Marker = *r.pick(&now);
            path.push(m.name.clone());
            now = world.content(m);
            if r.chance(1, if large { 60 } else { 8 }) {
                break;
            }
        }
        let mut other = path.clone();
        let k = r.below(other.len());
        other.truncate(k);
        other.push(match r.below(3) {
            0 if decoys > 0 => format!("decoy{}", r.below(decoys)),
            1 => format!("o{}", r.range(1, 6)),
            _ => format!("m{}", r.below(files.len())),
        });
        docs.push(path);
        docs.push(other);
    }
    let check = |ctx: &mut Ctx, model: &run::Model, docs: &[Vec<String>], how: &str| -> CaseResult {
        for d in docs {
            let mut t = String::new();
            d.iter().for_each(|n| t.push_str(&format!("<{n}>")));
            d.iter().rev().for_each(|n| t.push_str(&format!("</{n}>")));
            let got = guarded(|| run::validate(model, &t)).map_err(|p| Fail(format!("validating: {p}\n{shown}--- document\n{t}")))?.valid();
            let want = world.accepts(d);
            ctx.count(if want { "documents accepted" } else { "documents rejected" });
            if got != want {
                return Err(Fail(format!("{how}the document {t} is {} but should be {}\n{shown}", crate::common::word(got), crate::common::word(want))));
            }
        }
        Ok(())
    };
    check(ctx, model, &docs, "")?;
    ctx.sample(|| text_of_graph.clone());

    // real files
    if base.is_empty() && r.chance(1, 20) {
        let base = ctx.scratch.join("c17");
        let _ = std::fs::remove_dir_all(&base);
        for d in DIRS {
            std::fs::create_dir_all(base.join(d)).unwrap();
        }
        // as they are, or kept elsewhere under other names (a single one per content, or one each), with links to them
        let links = r.below(4);
        let mut stored: BTreeMap<String, PathBuf> = BTreeMap::new();
        for (k, (n, t)) in texts.iter().enumerate() {
            let p = base.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            if links < 2 {
                std::fs::write(p, t).unwrap();
                continue;
            }
            let key = if links == 2 { t.to_string() } else { k.to_string() };
            let to = stored.entry(key).or_insert_with(|| {
                let f = base.join(format!("store/x/{k}/y"));
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(&f, t).unwrap();
                f
            });
            std::os::unix::fs::symlink(to, p).unwrap();
            ctx.count("links in a real file system");
        }
        let root = base.join(&files[0].name);
        let got = guarded(|| {
            let mut c = Compiler::new(FsFiles, if xml { Syntax::Xml } else { Syntax::Compact });
            let r: Result<run::Model, RelaxError> = c.compile(&root);
            let l: BTreeSet<PathBuf> = c.loaded().cloned().collect();
            (r, l)
        });
        let _ = std::fs::remove_dir_all(&base);
        let (result, l) = got.map_err(|p| Fail(format!("compiling real files: {p}\n{shown}")))?;
        ctx.count("loaded from a real file system");
        let want: BTreeSet<PathBuf> = reach.iter().map(|p| base.join(p)).collect();
        match result {
            Err(e) => return fail(format!("a correct schema is rejected, when loaded from a file system: {e:?}")),
            Ok(m) => check(ctx, &m, &docs, "when loaded from a file system, ")?,
        }
        if l != want {
            return fail(format!("the compiler lists {l:?} as loaded, from a file system"));
        }
    }
    Ok(())
}
