//! C10: loading a schema always ends with a result that can be reported
use super::{c08, c11};
use crate::common::*;
use crate::garble;
use crate::gen;
use crate::mon::*;
use crate::print_rnc;
use crate::print_rng;
use crate::run::{self, MemFiles};
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;

pub static CHECK: Check = Check {
    id: "C10",
    case,
    quick: 180_000,
    thorough: 2_000_000,
    resources: true,
    rule: "Texts of every degree of brokenness as schemas, in both syntaxes: correct schemas (of several files) with random edits at any character, with references redirected to missing files, to themselves, to each other, to texts in the other syntax and to files that can't be loaded, token soups, patterns exchanged at random, truncations, random characters, and large or deeply nested texts. Every compilation has to end with a model or an error, is guarded against panics, aborts and excessive time; every error is rendered by the compiler, and the locations in the rendering have to exist in the loaded files. Distinct texts.",
    assumptions: &["resources: at most 60 s and 6 GB for one case; nesting up to a depth of 200"],
    min: &[
        ("errors rendered", 20_000),
        ("locations checked", 20_000),
        ("schemas accepted", 2000),
        ("kind: Parse", 2000),
        ("kind: XmlParse", 2000),
        ("kind: Io", 500),
        ("kind: RecursiveInclude", 100),
        ("kind: UndefinedReference", 300),
        ("errors within included files", 1000),
        ("large texts", 100),
    ],
    once: None,
};

const RNC: &[&str] = &[
    "element", "attribute", "list", "mixed", "grammar", "parent", "external", "include", "start", "div", "default", "namespace", "datatypes", "inherit", "string", "token", "text", "empty", "notAllowed", "{", "}", "(", ")", "[", "]", "=", "|=", "&=", ",", "|", "&", "?", "*", "+", "-", "~", ">>", ":", "\\", "'", "\"", "'''", "\"\"\"", "#", "##", "\n", " ", "a", "d0", "x:y", "x:*", "*", "xsd:", "xsd:integer", "xsd:string", "xsd:foo", "foo:bar", "{ pattern = '[' }", "{ pattern = \"a{1,2}\" }", "{ minInclusive = '5' }", "{ maxLength = '-1' }", "{ length = 'x' }", "'5'", "'s.rnc'", "'missing.rnc'", "start = d0", "d0 = d0", "d0 |= text", "d0 &= empty", "default namespace = 'u'", "namespace x = 'u'", "datatypes d = 'u'", "element a { text }", "attribute a { element b { empty } }", "xsd:integer '5'", "xsd:byte { minInclusive = '1' minInclusive = '2' }", "\u{feff}", "\u{0}", "é", "日本", "\u{10348}", "\\x{41}", "\\x{110000}", "\\x{", ">>a[]", "[a:b='c']", "a [ b = 'c' 'd' ]", "include 's.rnc' { d0 = text }", "external 's.rnc'", "parent d0", "grammar { start = parent d0 }", "list { element a { text } }", "- (x)", "* - a", "x:* - x:a", "string 'a'", "token ''", "\r\n", "\r", "\t", "1", "-1", "start", "xsd:decimal { totalDigits = '0' }", "xsd:string { pattern = '(' }", "xsd:string { pattern = '\\p{IsGreek}' }", "xsd:string { pattern = '[a-z-[aeiou]]' }",
];
const RNG: &[&str] = &[
    "<", ">", "/>", "</", "<grammar>", "</grammar>", "<start>", "</start>", "<define name='d0'>", "</define>", "<element name='a'>", "</element>", "<attribute name='a'/>", "<attribute>", "<ref name='d0'/>", "<ref/>", "<ref name=''/>", "<ref name='a b'/>", "<parentRef name='d0'/>", "<externalRef href='s.rng'/>", "<externalRef href='missing.rng'/>", "<externalRef/>", "<include href='s.rng'/>", "<include href='s.rng'><start><empty/></start></include>", "<include/>", "<text/>", "<empty/>", "<notAllowed/>", "<choice>", "</choice>", "<choice/>", "<group/>", "<interleave/>", "<list/>", "<mixed/>", "<optional/>", "<zeroOrMore/>", "<oneOrMore/>", "<data/>", "<data type='integer'/>", "<data type='string'><param name='pattern'>(</param></data>", "<param name='minInclusive'>x</param>", "<param/>", "<except/>", "<except><text/></except>", "<value/>", "<value type='foo'>x</value>", "<value type='integer'>x</value>", "<name/>", "<name>a</name>", "<name>p:a</name>", "<name>a b</name>", "<anyName/>", "<anyName><except><anyName/></except></anyName>", "<nsName/>", "<nsName ns='u'/>", "<div/>", "<div><foo/></div>", " name='a'", " name='p:a'", " name=''", " ns='u'", " type='integer'", " combine='choice'", " combine='x'", " datatypeLibrary='u'", " datatypeLibrary='http://www.w3.org/2001/XMLSchema-datatypes'", " xmlns='http://relaxng.org/ns/structure/1.0'", " xmlns:p='u'", " xmlns='u'", "<p:a/>", "<!-- x -->", "<?x y?>", "<![CDATA[x]]>", "&amp;", "&#65;", "&foo;", "&", "<!DOCTYPE a [<!ENTITY e 'x'>]>", "é", "日本", "\u{10348}", "\u{0}", "\u{feff}", "text", " ", "\n", "'", "\"", "=", "<start combine='choice'><text/></start>", "<grammar xmlns='http://relaxng.org/ns/structure/1.0'>", "xml:lang='x'", "<element name='a'/>", "<element/>",
];

/// Files, some of which can't be loaded
struct Hostile {
    inner: MemFiles,
    bad: Rc<Cell<u64>>,
    every: u64,
}
impl Files for Hostile {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        self.bad.set(self.bad.get() + 1);
        if self.every > 0 && self.bad.get() % self.every == 0 {
            use std::io::ErrorKind::*;
            let k = [PermissionDenied, InvalidData, UnexpectedEof, Other][(self.bad.get() / self.every % 4) as usize];
            return Err(RelaxError::Io(name.to_path_buf(), std::io::Error::new(k, "é \u{1} failure")));
        }
        self.inner.load(name)
    }
}

/// file:line:column of each location in a rendered diagnostic
pub fn locations(dump: &str) -> Vec<(String, usize, usize)> {
    let mut out = vec![];
    for l in dump.lines() {
        let t = l.trim_start();
        if let Some(rest) = t.strip_prefix("--> ") {
            let mut p = rest.rsplitn(3, ':');
            if let (Some(c), Some(n), Some(f)) = (p.next(), p.next(), p.next()) {
                if let (Ok(c), Ok(n)) = (c.trim().parse(), n.parse()) {
                    out.push((f.to_string(), n, c));
                }
            }
        }
    }
    out
}

/// Compile, and report
fn attempt(ctx: &mut Ctx, files: &BTreeMap<String, String>, root: &str, xml: bool, every: u64) -> CaseResult {
    let shown = || format!("root: {root} ({} syntax){}\n{}", if xml { "XML" } else { "compact" }, if every > 0 { format!(", each {every}. load fails") } else { String::new() }, show_files(files));
    let fs = Hostile { inner: MemFiles::new(files.clone()), bad: Rc::new(Cell::new(0)), every };
    let mut c = Compiler::new(fs, if xml { Syntax::Xml } else { Syntax::Compact });
    ctx.eval();
    ctx.distinct(&[&shown()]);
    let e = match guarded(|| c.compile(Path::new(root))) {
        Err(p) => return Err(Fail(format!("compiling: {p}\n{}", shown()))),
        Ok(Ok(_)) => {
            ctx.count("schemas accepted");
            return Ok(());
        }
        Ok(Err(e)) => e,
    };
    ctx.count(&format!("kind: {}", run::kind_of(&e)));
    if matches!(e, RelaxError::IncludeError(..)) {
        ctx.count("errors within included files");
    }
    let (r, text) = run::capture_stderr(|| guarded(|| c.dump_diagnostic(&e)));
    if let Err(p) = r {
        return Err(Fail(format!("rendering {e:?}: {p}\n{}", shown())));
    }
    let text = run::strip_ansi(&text);
    ctx.count("errors rendered");
    if !text.starts_with("error: ") || text.lines().next().unwrap_or("").len() < 9 {
        return Err(Fail(format!("rendering {e:?}: there is no message: {text}\n{}", shown())));
    }
    for (f, line, _) in locations(&text) {
        ctx.count("locations checked");
        match files.get(&run::norm(&f)) {
            None => return Err(Fail(format!("the error {e:?} is located in {f}, which there isn't\n{text}\n{}", shown()))),
            Some(t) => {
                let n = t.split('\n').count();
                if line < 1 || line > n {
                    return Err(Fail(format!("the error {e:?} is located in line {line} of {f}, which has {n} lines\n{text}\n{}", shown())));
                }
            }
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let r = &mut r;
    let xml = r.bool();
    let soup = if xml { RNG } else { RNC };
    let cfg = gen::Cfg { max_size: 80, ..broad(r) };
    let flat = gen::schema(r, &cfg);
    let fancy = *r.pick(&[0, 0, 10]);
    let s = if r.bool() {
        load_flat(flat, xml, fancy, r)?
    } else {
        let mut quiet = Ctx { prop: "C10", seed: 0, index: 0, tier: Tier::Quick, st: Stats::default(), scratch: Default::default(), verbose: false };
        c08::load_composed(&mut quiet, flat, xml, fancy, true, r)?.1
    };
    let names: Vec<String> = s.files.keys().cloned().collect();
    for _ in 0..8 {
        let mut files = s.files.clone();
        let mut every = 0;
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            let n = r.pick(&names).clone();
            let t = files[&n].clone();
            match r.below(12) {
                0..=4 => {
                    files.insert(n, c11::edit(&t, r, soup));
                }
                5 => {
                    let t: String = (0..r.range(0, 30)).map(|_| if r.chance(1, 8) { " ".into() } else { format!("{} ", r.pick(soup)) }).collect();
                    files.insert(n, t);
                }
                6 => {
                    let cut = t.char_indices().nth(r.below(t.chars().count() + 1)).map_or(t.len(), |x| x.0);
                    files.insert(n, t[..cut].to_string());
                }
                7 => {
                    let max = if r.bool() { 0x7f } else { 0x11_0000 };
                    files.insert(n, (0..r.range(0, 60)).map(|_| char::from_u32(r.below(max) as u32).unwrap_or('<')).collect());
                }
                8 => {
                    // a reference leads elsewhere
                    let to = crate::compose::relative(&n, r.pick(&names), r);
                    let to = match r.below(5) {
                        0 => "missing".to_string(),
                        1 => "".to_string(),
                        2 => "../../../../x/\u{301}é".to_string(),
                        _ => to,
                    };
                    let q = |m: &str, t: &str| match t.find(m) {
                        Some(i) => match t[i + m.len()..].find(['\'', '"']) {
                            Some(j) => Some((i + m.len(), i + m.len() + j)),
                            None => None,
                        },
                        None => None,
                    };
                    let mut u = t.clone();
                    for m in ["href=\"", "external \"", "include \"", "external '", "include '"] {
                        if let Some((a, b)) = q(m, &u) {
                            u.replace_range(a..b, &to);
                        }
                    }
                    if u == t {
                        u = if xml { t.replacen("<empty/>", &format!("<externalRef href=\"{to}\"/>"), 1) } else { t.replacen("empty", &format!("external '{to}'"), 1) };
                    }
                    files.insert(n, u);
                }
                9 => {
                    files.remove(&n);
                    files.entry(n).or_insert_with(|| if !xml { "<element xmlns='http://relaxng.org/ns/structure/1.0' name='a'><text/></element>".into() } else { "element a { text }".into() });
                }
                10 => {
                    every = r.range(1, 3) as u64;
                }
                _ => {
                    // lines repeated or left out
                    let mut l: Vec<&str> = t.lines().collect();
                    if !l.is_empty() {
                        let k = r.below(l.len());
                        if r.bool() {
                            l.remove(k);
                        } else {
                            let m = r.below(l.len());
                            l.insert(m, l[k]);
                        }
                    }
                    files.insert(n, l.join("\n"));
                }
            }
        }
        if r.chance(1, 20) {
            let n = r.pick(&names).clone();
            files.remove(&n);
        }
        attempt(ctx, &files, &s.root, xml, every)?;
        ctx.sample(|| show_files(&files));
    }
    // patterns exchanged, so that the syntax is correct
    for _ in 0..6 {
        let mut top = s.flat.to_top();
        garble::garble(&mut top, r);
        let t = if xml { print_rng::print(&top, false, 0, r) } else { print_rnc::print(&top, &print_rnc::Env::default(), 0, r) };
        let n = if xml { "s.rng" } else { "s.rnc" };
        ctx.count("garbled schemas of correct syntax");
        attempt(ctx, &run::one(n, &t), n, xml, 0)?;
    }
    if r.chance(1, 60) {
        let d = *r.pick(&[3, 10, 30, 100, 200]);
        let w = *r.pick(&[10, 100, 1000, 3000]);
        let rep = |s: &str, n: usize| s.repeat(n);
        let t = if xml {
            let ns = "xmlns='http://relaxng.org/ns/structure/1.0'";
            let e = *r.pick(&["choice", "group", "interleave", "optional", "zeroOrMore", "oneOrMore", "list", "mixed"]);
            match r.below(6) {
                0 => format!("<grammar {ns}><start>{}<text/>{}</start></grammar>", rep(&format!("<{e}>"), d), rep(&format!("</{e}>"), d)),
                1 => format!("<grammar {ns}><start>{}<text/>{}</start></grammar>", rep("<element name='a'>", d), rep("</element>", d)),
                2 => format!("<grammar {ns}>{}<start/></grammar>", rep("<div>", d)),
                3 => format!("<grammar {ns}><start>{}</start></grammar>", rep("<ref name='a'/>", w)),
                4 => format!("<grammar {ns}>{}<start><text/></start></grammar>", (0..w).map(|i| format!("<define name='d{i}'><ref name='d{}'/></define>", i + 1)).collect::<String>()),
                _ => format!("<element {ns} name='a'><choice>{}</choice></element>", (0..w).map(|i| format!("<value>{i}</value>")).collect::<String>()),
            }
        } else {
            let op = *r.pick(&[" | ", " , ", " & "]);
            match r.below(9) {
                0 => format!("start = {}text{}", rep("(", d), rep(")", d)),
                1 => format!("start = {}text{}", rep("element a { ", d), rep(" }", d)),
                2 => format!("start = {}text{}", rep("list { ", d), rep(" }", d)),
                3 => format!("{}start = text{}", rep("div { ", d), rep(" }", d)),
                4 => format!("start = {}", vec!["text"; w].join(op)),
                5 => format!("{}start = text", (0..w).map(|i| format!("d{i} = d{}\n", i + 1)).collect::<String>()),
                6 => format!("start = element {} {{ text }}", rep("(", d)),
                7 => format!("start = {}grammar {{ start = text }}{}", rep("grammar { start = ", d), rep(" }", d)),
                _ => format!("start = text {}", rep(*r.pick(&["?", "*", "+", "(", "[", "[a [", "'", "-", "~", "{", "element a {", "element * - (", "list {", "xsd:a {"]), d)),
            }
        };
        ctx.count("large texts");
        attempt(ctx, &run::one("s", &t), "s", xml, 0)?;
    }
    Ok(())
}
