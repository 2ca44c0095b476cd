//! C14: the command line tool reports the verdict by its exit status
use super::{c06, c08, c10};
use crate::common::*;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use crate::run;
use crate::xml;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant, SystemTime};

pub static CHECK: Check = Check {
    id: "C14",
    case,
    quick: 27_000,
    thorough: 250_000,
    resources: false,
    rule: "The real executable, run in a scratch directory with random (composed) compact schemas, correct and faulty ones, and lists of up to 30 (now and then, 600) documents that match, don't match, are not well-formed, don't exist, are directories or not UTF-8, at any position of the list, by relative or absolute paths. Monitors: the exit status (by a signal, or that of a panic, is never right), whether standard output is empty, which file and line is named by standard error, and the state (content, times, directory) of all files before and after. Distinct command lines with contents.",
    assumptions: &["the reference matchers tell which documents match, and where they go wrong"],
    min: &[
        ("success", 500),
        ("schema errors", 300),
        ("first failure: not matching", 300),
        ("first failure: not well-formed", 100),
        ("first failure: not readable", 100),
        ("failures after valid documents", 300),
        ("lines of faults compared", 300),
        ("long lists of documents", 50),
    ],
    once: None,
};

fn tool() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().join("tool/debug/rng")
}

struct Ran {
    status: std::process::ExitStatus,
    out: Vec<u8>,
    err: String,
}

fn run_tool(dir: &Path, cwd: &Path, args: &[String]) -> Result<Ran, String> {
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let mut c = Command::new(tool())
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .env_remove("RUST_BACKTRACE")
        .spawn()
        .unwrap_or_else(|e| panic!("the tool {:?} can't be run: {e}", tool()));
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(50) {
            let _ = c.kill();
            let _ = c.wait();
            return Err("it doesn't end".into());
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    Ok(Ran { status, out: std::fs::read(&o).unwrap(), err: String::from_utf8_lossy(&std::fs::read(&e).unwrap()).into_owned() })
}

#[derive(Clone)]
enum Expect {
    Valid,
    /// what's the fault, and the lines where it may be located, if that is known
    Bad(&'static str, Option<(usize, usize)>),
}

fn line_of(t: &[u8], at: usize) -> usize {
    1 + t[..at].iter().filter(|b| **b == b'\n').count()
}

type Snapshot = BTreeMap<PathBuf, (Vec<u8>, SystemTime, u32)>;
fn snapshot(dir: &Path, out: &mut Snapshot) {
    use std::os::unix::fs::MetadataExt;
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            out.insert(p.clone(), (vec![], m.modified().unwrap(), m.mode()));
            snapshot(&p, out);
        } else {
            out.insert(p.clone(), (std::fs::read(&p).unwrap_or_default(), m.modified().unwrap(), m.mode()));
        }
    }
}

fn write(p: &Path, t: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, t).unwrap();
}

fn case(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng();
    let dir = ctx.scratch.join("c14");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let res = one(ctx, &dir, &mut r);
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn one(ctx: &mut Ctx, dir: &Path, r: &mut Rng) -> CaseResult {
    let mut docs: Vec<(Vec<u8>, Expect)> = vec![];
    let files: BTreeMap<String, String>;
    let root: String;
    let mut quiet = Ctx { prop: "C14", seed: 0, index: 0, tier: Tier::Quick, st: Stats::default(), scratch: Default::default(), verbose: false };
    if r.chance(1, 30) {
        // large documents
        let n = *r.pick(&[300, 5_000, 70_000]);
        root = "big.rnc".into();
        files = run::one(&root, "start = element a { element b { xsd:integer }* }");
        for _ in 0..r.range(1, 2) {
            let bad = r.bool();
            let k = r.below(n);
            let mut t = String::from("<a>\n");
            for i in 0..n {
                t.push_str(if bad && i == k { "<b>x</b>\n" } else { "<b>7</b>\n" });
            }
            t.push_str("</a>\n");
            docs.push((t.into_bytes(), if bad { Expect::Bad("not matching", Some((k + 2, k + 2))) } else { Expect::Valid }));
        }
    } else {
        let cfg = gen::Cfg { max_size: 60, namespaces: 1, odd_names: 10, data: 20, all_types: false, ..gen::Cfg::default() };
        let flat = gen::schema(r, &cfg);
        let fancy = *r.pick(&[0, 0, 10]);
        let s = c08::load_composed(&mut quiet, flat, false, fancy, false, r)?.1;
        let valid = *r.pick(&[0, 1, 1, 2, 4, 15]);
        let budget = *r.pick(&[6, 15]);
        let mut elems = documents(&s.ir, r, valid, 1, budget);
        if r.chance(1, 3) {
            elems.retain(|_| r.bool());
        }
        let mut o = Oracle::new(&s.ir);
        let only_valid = r.chance(1, 3);
        for d in &elems {
            let v = match o.judge(ctx, d) {
                Judged::Known(v) => v,
                Judged::Unknown => continue,
                Judged::Disagree(m) => panic!("{m}\n{}\n{d:?}", s.text()),
            };
            let style = if r.bool() { xml::Style::plain() } else { xml::Style::random(r) };
            let mut p = xml::print(d, &style, r);
            match v.error {
                None if !only_valid && r.chance(1, 6) => {
                    if let Some((_, t)) = c06::inject(&p.text, r) {
                        docs.push((t.into_bytes(), Expect::Bad("not well-formed", None)));
                    }
                }
                None => docs.push((std::mem::take(&mut p.text).into_bytes(), Expect::Valid)),
                Some(place) if !only_valid => {
                    let span = p.span(&place).expect("place of the printed document");
                    let t = p.text.into_bytes();
                    let lines = (line_of(&t, span.start), line_of(&t, span.end));
                    docs.push((t, Expect::Bad("not matching", Some(lines))));
                }
                Some(_) => {}
            }
        }
        files = s.files.clone();
        root = s.root.clone();
    }
    // the files, named
    let top = dir.join("t");
    std::fs::create_dir_all(&top).unwrap();
    for (n, t) in &files {
        assert!(!n.starts_with('/') && !n.starts_with(".."), "{n}");
        write(&top.join("schema").join(n), t.as_bytes());
    }
    let names = ["d", "doc é", "sub/d", "with space", "a.b", "日本", "x'y", "sub/sub/e"];
    let mut list: Vec<(PathBuf, Expect)> = vec![];
    for (i, (t, e)) in docs.into_iter().enumerate() {
        let p = PathBuf::from(format!("docs/{}{i}.xml", r.pick(&names)));
        if r.chance(1, 12) && t.len() < 10_000 {
            let mut u = t.clone();
            let at = r.below(u.len() + 1);
            let bad = *r.pick::<&[u8]>(&[b"\xff", b"\xc3\x28", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82"]);
            for (k, b) in bad.iter().enumerate() {
                u.insert(at + k, *b);
            }
            if std::str::from_utf8(&u).is_err() {
                write(&top.join(&p), &u);
                list.push((p, Expect::Bad("not readable", None)));
                continue;
            }
        }
        write(&top.join(&p), &t);
        if r.chance(1, 12) {
            let link = PathBuf::from(format!("docs/link{i}"));
            std::fs::create_dir_all(top.join("docs")).unwrap();
            std::os::unix::fs::symlink(top.join(&p), top.join(&link)).unwrap();
            list.push((link, e));
        } else {
            list.push((p, e));
        }
    }
    r.shuffle(&mut list);
    if !list.is_empty() && r.chance(1, 8) {
        // once more
        let again = r.pick(&list).clone();
        list.push(again);
    }
    if r.chance(1, 60) {
        // a long list
        let small = |p: &PathBuf| std::fs::metadata(top.join(p)).is_ok_and(|m| m.len() < 20_000);
        let fine: Vec<_> = list.iter().filter(|x| matches!(x.1, Expect::Valid) && small(&x.0)).cloned().collect();
        if !fine.is_empty() {
            let n = match r.below(3) {
                0 => r.range(250, 260),
                1 => r.range(510, 514),
                _ => crate::scale::size(r, 600),
            };
            let before = r.below(list.len() + 1);
            let many: Vec<_> = (0..n).map(|i| fine[i % fine.len()].clone()).collect();
            list.splice(before..before, many);
            ctx.count("long lists of documents");
        }
    }
    if r.chance(1, 6) {
        std::fs::create_dir_all(top.join("docs/dir.xml")).unwrap();
        std::fs::write(top.join("docs/file"), "").unwrap();
        std::os::unix::fs::symlink(top.join("nowhere"), top.join("docs/dangling.xml")).unwrap();
        let p = *r.pick(&["docs/none.xml", "docs/dir.xml", "nodir/none.xml", "docs/dangling.xml", "docs/file/none.xml"]);
        let at = r.below(list.len() + 1);
        list.insert(at, (p.into(), Expect::Bad("not readable", None)));
    }
    // the schema, possibly faulty
    let mut schema = PathBuf::from("schema").join(&root);
    let mut schema_fault: Option<(String, Option<usize>)> = None;
    if r.chance(1, 4) {
        let keys: Vec<&String> = files.keys().collect();
        let n = *r.pick(&keys);
        let p = top.join("schema").join(n);
        let base = n.rsplit('/').next().unwrap().to_string();
        match r.below(6) {
            0 => {
                schema = PathBuf::from("schema/none.rnc");
                schema_fault = Some(("none.rnc".into(), None));
            }
            1 => {
                std::fs::remove_file(&p).unwrap();
                schema_fault = Some((base, None));
            }
            2 => {
                std::fs::remove_file(&p).unwrap();
                std::fs::create_dir(&p).unwrap();
                schema_fault = Some((base, None));
            }
            3 => {
                let mut t = files[n].clone().into_bytes();
                t.extend(b"\n# \xff\n");
                std::fs::write(&p, t).unwrap();
                schema_fault = Some((base, None));
            }
            4 => {
                let t = format!("{}\n}}\n", files[n]);
                std::fs::write(&p, t).unwrap();
                schema_fault = Some((base, None));
            }
            _ => {
                let t = format!("{}\n zzz9 = zzz8\n", files[n]);
                std::fs::write(&p, &t).unwrap();
                let line = t.split('\n').count() - 1;
                schema_fault = Some((base, Some(line)));
            }
        }
    }
    let cwd = match r.below(3) {
        0 => top.join("schema"),
        1 => dir.to_path_buf(),
        _ => top.clone(),
    };
    let spell = |p: &Path, r: &mut Rng| -> String {
        let rel = if cwd == top {
            p.to_path_buf()
        } else if cwd == *dir {
            Path::new("t").join(p)
        } else {
            Path::new("..").join(p)
        };
        match r.below(4) {
            0 => top.join(p).to_string_lossy().into_owned(),
            1 => format!("./{}", rel.display()),
            _ => rel.to_string_lossy().into_owned(),
        }
    };
    let mut args = vec!["validate".to_string(), spell(&schema, r)];
    for (p, _) in &list {
        args.push(spell(p, r));
    }
    let mut before = Snapshot::new();
    snapshot(&top, &mut before);
    let shown = || {
        let mut s = format!("command: rng {}\n", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
        for (p, (t, ..)) in &before {
            let t = String::from_utf8_lossy(t);
            s.push_str(&format!("--- {}\n{}\n", p.strip_prefix(&top).unwrap().display(), if t.len() > 5000 { "(long)" } else { &t }));
        }
        s
    };
    let ran = match run_tool(dir, &cwd, &args) {
        Ok(x) => x,
        Err(e) => return Err(Fail(format!("{e}\n{}", shown()))),
    };
    ctx.eval();
    ctx.distinct(&[&shown()]);
    let fail = |what: String| Err(Fail(format!("{what}\nstatus: {:?}\nstandard error:\n{}\n{}", ran.status, ran.err, shown())));
    let mut after = Snapshot::new();
    snapshot(&top, &mut after);
    if before != after {
        return fail("input files were modified".into());
    }
    if !ran.out.is_empty() {
        return fail(format!("standard output is not empty: {:?}", String::from_utf8_lossy(&ran.out)));
    }
    let Some(code) = ran.status.code() else {
        return fail(format!("ended by signal {:?}", ran.status.signal()));
    };
    let err = run::strip_ansi(&ran.err);
    if err.contains("panicked at") || code == 101 {
        return fail("a panic instead of a diagnostic".into());
    }
    let places = c10::locations(&err);
    let fault = match &schema_fault {
        Some(f) => Some((f.0.clone(), "schema", f.1.map(|l| (l, l)), 0)),
        None => {
            list.iter().zip(&args[2..]).enumerate().find_map(|(i, ((_, e), a))| match e {
                Expect::Valid => None,
                Expect::Bad(what, lines) => Some((a.clone(), *what, *lines, i)),
            })
        }
    };
    match fault {
        None => {
            if code != 0 {
                return fail("schema and documents are fine, but the status tells otherwise".into());
            }
            if !places.is_empty() || err.contains("error") {
                return fail("schema and documents are fine, but there's a diagnostic".into());
            }
            ctx.count("success");
            ctx.add("documents validated", list.len() as u64);
        }
        Some((name, what, lines, i)) => {
            if code == 0 {
                return fail(format!("{name} is {what}, but the status is that of success"));
            }
            let named = |f: &str| if what == "schema" { f.rsplit('/').next() == Some(&name) } else { f == name };
            match what {
                "schema" => {
                    ctx.count("schema errors");
                    if !err.contains(&name) {
                        return fail(format!("the diagnostic doesn't name {name}"));
                    }
                    if args[2..].iter().any(|d| places.iter().any(|p| p.0 == *d)) {
                        return fail("the schema is wrong, but a document is complained about".into());
                    }
                    if let Some((a, b)) = lines {
                        ctx.count("lines of faults compared");
                        if !places.iter().any(|(f, l, _)| named(f) && *l >= a && *l <= b) {
                            return fail(format!("the fault is in line {a} of {name}, but that isn't mentioned"));
                        }
                    }
                }
                _ => {
                    ctx.count(&format!("first failure: {what}"));
                    if i > 0 {
                        ctx.count("failures after valid documents");
                    }
                    // (of what can't be read, there's no line)
                    let readable = what != "not readable";
                    if readable && !places.iter().any(|p| named(&p.0)) || !readable && !err.contains(&name) {
                        return fail(format!("the diagnostic doesn't name {name}"));
                    }
                    if let Some(p) = places.iter().find(|p| !named(&p.0)) {
                        return fail(format!("there's a diagnostic for {}, but the first document that's wrong is {name}", p.0));
                    }
                    if let Some((a, b)) = lines {
                        ctx.count("lines of faults compared");
                        if !places.iter().any(|(_, l, _)| *l >= a && *l <= b) {
                            return fail(format!("the fault is in line {a} to {b} of {name}, but that isn't mentioned"));
                        }
                    }
                    // documents after the first failure aren't checked
                    for a in args[2 + i + 1..].iter().filter(|a| !args[2..=2 + i].contains(a)) {
                        if err.contains(&format!("{a:?}")) {
                            return fail(format!("{a} is checked, even though {name} has failed before"));
                        }
                    }
                }
            }
        }
    }
    ctx.sample(|| format!("{}status {code}, standard error:\n{err}", shown()));
    Ok(())
}
