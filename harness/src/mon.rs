//! Running many cases in worker processes, and reporting what was observed
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violated property, with what's needed to understand it
#[derive(Debug)]
pub struct Fail(pub String);
pub type CaseResult = Result<(), Fail>;

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub index: u64,
    pub tier: Tier,
    pub st: Stats,
    /// a directory which the case may use
    pub scratch: PathBuf,
    pub verbose: bool,
}

impl Ctx {
    pub fn rng(&self) -> crate::rng::Rng {
        crate::rng::Rng::new(self.seed, crate::rng::fnv(self.prop.as_bytes()), self.index)
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.st.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.st.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max {k}");
        let c = self.st.counters.entry(k).or_insert(0);
        *c = (*c).max(n);
    }
    /// One execution that was judged
    pub fn eval(&mut self) {
        self.st.evaluations += 1
    }
    /// Something judged that counts as non-trivial, identified by its content
    pub fn distinct(&mut self, parts: &[&str]) {
        let mut h = 0u64;
        for p in parts {
            h = crate::rng::mix(h ^ crate::rng::fnv(p.as_bytes()));
        }
        if self.st.distinct.len() < 3_000_000 {
            self.st.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let mut s = s();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
            }
            self.st.samples.push(s);
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> CaseResult,
    pub quick: u64,
    pub thorough: u64,
    /// whether exhausting time or memory violates the property; otherwise such a case is inconclusive
    pub resources: bool,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that have to reach some value, or else nothing was observed
    pub min: &'static [(&'static str, u64)],
    /// what is to be done once, before anything else
    pub once: Option<fn(&mut Ctx) -> CaseResult>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg))
            }
        });
    }));
}

/// Run something of the code under test, turning a panic into an error (location and message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (l, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic at {l}: {m}"))
        }
    }
}

enum Ran {
    Ok,
    Fail(String),
    Harness(String),
}

fn run_case(case: fn(&mut Ctx) -> CaseResult, ctx: &mut Ctx) -> Ran {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(ctx))) {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(Fail(d))) => Ran::Fail(d),
        Err(_) => {
            let (l, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if l.starts_with("src/") || l.contains("/verif/harness/") {
                Ran::Harness(format!("panic in the harness at {l}: {m}"))
            } else {
                Ran::Fail(format!("panic at {l}: {m}"))
            }
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' {
            match i.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
fn limit_memory(bytes: u64) {
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    unsafe {
        setrlimit(RLIMIT_AS, &Rlimit { cur: bytes, max: bytes });
        setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
    }
}

pub const STACK: usize = 256 << 20;

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// worker <id> <seed> <tier> <from> <to> <step> <dir> <seconds>
pub fn worker(check: &'static Check, args: &[String]) {
    limit_memory(6 << 30);
    install_hook();
    let seed: u64 = args[0].parse().unwrap();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let from: u64 = args[2].parse().unwrap();
    let to: u64 = args[3].parse().unwrap();
    let step: u64 = args[4].parse().unwrap();
    let dir = PathBuf::from(&args[5]);
    let secs: u64 = args[6].parse().unwrap();
    big_stack(move || {
        let t0 = Instant::now();
        let progress = std::fs::File::create(dir.join("progress")).unwrap();
        let mut ctx = Ctx { prop: check.id, seed, index: 0, tier, st: Stats::default(), scratch: dir.clone(), verbose: false };
        let mut out = String::new();
        let mut i = from;
        while i < to {
            progress.write_all_at(format!("{i:020}").as_bytes(), 0).unwrap();
            ctx.index = i;
            match run_case(check.case, &mut ctx) {
                Ran::Ok => {}
                Ran::Fail(d) => {
                    let _ = writeln!(out, "V {i} {}", esc(&d));
                    break;
                }
                Ran::Harness(d) => {
                    let _ = writeln!(out, "H {i} {}", esc(&d));
                    break;
                }
            }
            i += step;
            if t0.elapsed().as_secs() > secs {
                let _ = writeln!(out, "C cases not reached within the time limit\t{}", (to - i.min(to)) / step);
                break;
            }
        }
        dump_stats(&ctx.st, &mut out);
        std::fs::write(dir.join("result.tmp"), out).unwrap();
        std::fs::rename(dir.join("result.tmp"), dir.join("result")).unwrap();
    });
}

fn dump_stats(st: &Stats, out: &mut String) {
    let _ = writeln!(out, "E {}", st.evaluations);
    for (k, v) in &st.counters {
        let _ = writeln!(out, "C {k}\t{v}");
    }
    for d in &st.distinct {
        let _ = writeln!(out, "D {d:x}");
    }
    for s in &st.samples {
        let _ = writeln!(out, "S {}", esc(s));
    }
}

/// case <id> <seed> <tier> <index>: one case on its own
pub fn single(check: &'static Check, args: &[String]) -> i32 {
    install_hook();
    limit_memory(6 << 30);
    let seed: u64 = args[0].parse().unwrap();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let index: u64 = args[2].parse().unwrap();
    let scratch = std::env::temp_dir().join(format!("rngmon-case-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let s2 = scratch.clone();
    let r = big_stack(move || {
        let mut ctx = Ctx { prop: check.id, seed, index, tier, st: Stats::default(), scratch: s2, verbose: true };
        let r = run_case(check.case, &mut ctx);
        match r {
            Ran::Ok => {
                println!("ok");
                0
            }
            Ran::Fail(d) => {
                println!("violated: {d}");
                1
            }
            Ran::Harness(d) => {
                println!("{d}");
                3
            }
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

struct W {
    child: Child,
    dir: PathBuf,
    lane: u64,
    last: String,
    last_change: Instant,
}

struct Violation {
    what: String,
    index: Option<u64>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub root: PathBuf,
    pub cases: Option<u64>,
    pub seconds: Option<u64>,
}

pub fn check(check: &'static Check, o: &Opts) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let (seed, tier, root) = (o.seed, o.tier, &o.root);
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let n = o.cases.unwrap_or(if tier == Tier::Quick { check.quick } else { check.thorough });
    let secs = o.seconds.unwrap_or(if tier == Tier::Quick { 300 } else { 3600 });
    // in all, with what's to be confirmed
    let cap = Duration::from_secs(secs + if tier == Tier::Quick { 300 } else { 1800 });
    let stall = Duration::from_secs(if tier == Tier::Quick { 60 } else { 180 });
    let work = std::env::temp_dir().join(format!("rngmon-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();
    let lanes = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8) as u64;
    let mut all = Stats::default();
    let mut violations: Vec<Violation> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut serial = 0;
    let spawn = |lane: u64, from: u64, serial: &mut u64| -> W {
        *serial += 1;
        let dir = work.join(format!("w{serial}"));
        std::fs::create_dir_all(&dir).unwrap();
        let err = std::fs::File::create(dir.join("stderr")).unwrap();
        let mut c = Command::new(&exe);
        c.arg("worker")
            .arg(check.id)
            .args([seed.to_string(), tier_s.to_string(), from.to_string(), n.to_string(), lanes.to_string()])
            .arg(&dir)
            .arg(secs.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .process_group(0);
        W { child: c.spawn().unwrap(), dir, lane, last: String::new(), last_change: Instant::now() }
    };

    // known findings, and whatever is to be done once
    {
        let mut ctx = Ctx { prop: check.id, seed, index: 0, tier, st: Stats::default(), scratch: work.clone(), verbose: false };
        let root2 = root.clone();
        let (lines, ctx, r) = big_stack(move || {
            let lines = crate::known::probe(check.id, &root2);
            let r = match check.once {
                Some(f) => run_case(f, &mut ctx),
                None => Ran::Ok,
            };
            (lines, ctx, r)
        });
        match lines {
            Ok(l) => l.iter().for_each(|l| println!("{l}")),
            Err(e) => harness.push(e),
        }
        match r {
            Ran::Ok => {}
            Ran::Fail(what) => violations.push(Violation { what, index: None }),
            Ran::Harness(h) => harness.push(h),
        }
        let mut s = String::new();
        dump_stats(&ctx.st, &mut s);
        merge(&s, &mut all, &mut violations, &mut harness);
    }

    let mut ws: Vec<W> = vec![];
    if violations.is_empty() {
        for l in 0..lanes {
            ws.push(spawn(l, l, &mut serial));
        }
    }
    let mut restarts = 0;
    let mut inconclusive: Vec<String> = vec![];
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            let status = w.child.try_wait().unwrap();
            if status.is_none() {
                if let Ok(p) = std::fs::read_to_string(w.dir.join("progress")) {
                    if p != w.last {
                        w.last = p;
                        w.last_change = Instant::now();
                    }
                }
                if w.last_change.elapsed() < stall {
                    i += 1;
                    continue;
                }
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            let w = ws.swap_remove(i);
            if let Ok(res) = std::fs::read_to_string(w.dir.join("result")) {
                merge(&res, &mut all, &mut violations, &mut harness);
                let _ = std::fs::remove_dir_all(&w.dir);
                continue;
            }
            // it did not get to an end
            let index: Option<u64> = std::fs::read_to_string(w.dir.join("progress")).ok().and_then(|p| p.trim().parse().ok());
            let Some(index) = index else {
                harness.push(format!("worker did not start: {status:?}"));
                continue;
            };
            // cases done by that worker are lost for the statistics
            let left = cap.saturating_sub(t0.elapsed());
            let (what, resource) = if left.is_zero() {
                (Some("did not end in time".to_string()), true)
            } else {
                confirm(&exe, check, seed, tier_s, index, left.min(stall * 2))
            };
            match what {
                None => inconclusive.push(format!("case {index}: {status:?}, not reproduced")),
                Some(what) if resource && !check.resources => inconclusive.push(format!("case {index}: {what}")),
                Some(what) => violations.push(Violation { what, index: Some(index) }),
            }
            let _ = std::fs::remove_dir_all(&w.dir);
            restarts += 1;
            if violations.is_empty() && restarts < 24 && inconclusive.len() < 4 && t0.elapsed().as_secs() < secs && index + lanes < n {
                ws.push(spawn(w.lane, index + lanes, &mut serial));
            }
        }
        if !violations.is_empty() && t0.elapsed().as_secs() > 1 {
            // one is enough, but let the others finish if they're about to
            let dl = Instant::now() + Duration::from_secs(1);
            while Instant::now() < dl && !ws.is_empty() {
                ws.retain_mut(|w| w.child.try_wait().unwrap().is_none());
                std::thread::sleep(Duration::from_millis(20));
            }
            for w in &mut ws {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            ws.clear();
        }
    }
    let _ = std::fs::remove_dir_all(&work);

    // report
    let wall = t0.elapsed().as_secs_f64();
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replay"));
    for f in std::fs::read_dir(ev.join("replay")).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with(&format!("{}-", check.id)) {
            let _ = std::fs::remove_file(f.path());
        }
    }
    let mut short = vec![];
    for (k, m) in check.min {
        if all.counters.get(*k).copied().unwrap_or(0) < *m {
            short.push(format!("{k}: {} (of at least {m})", all.counters.get(*k).copied().unwrap_or(0)));
        }
    }
    let mut j = String::from("{\n");
    let _ = writeln!(j, "  \"property\": {},", json_str(check.id));
    let _ = writeln!(j, "  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",", json_str(tier_s), seed);
    let _ = writeln!(j, "  \"coverage\": {{");
    let _ = writeln!(j, "    \"evaluations\": {},\n    \"distinct_nontrivial\": {},", all.evaluations, all.distinct.len());
    let _ = writeln!(j, "    \"rule\": {},", json_str(check.rule));
    let obs: Vec<String> = all.counters.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let _ = writeln!(j, "    \"observed\": {{{}}},", obs.join(", "));
    let inc: Vec<String> = inconclusive.iter().map(|s| json_str(s)).collect();
    let _ = writeln!(j, "    \"inconclusive\": [{}],", inc.join(", "));
    let samples: Vec<String> = all.samples.iter().take(6).map(|s| json_str(s)).collect();
    let _ = writeln!(j, "    \"samples\": [{}]", samples.join(",\n      "));
    let _ = writeln!(j, "  }},");
    let a: Vec<String> = check.assumptions.iter().map(|s| json_str(s)).collect();
    let _ = writeln!(j, "  \"assumptions\": [{}],", a.join(", "));
    let _ = writeln!(j, "  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}", violations.len());
    std::fs::write(ev.join(format!("{}.json", check.id)), j).unwrap();

    println!(
        "{}: {} executions judged, {} distinct non-trivial, {} violations, {:.1} s",
        check.id,
        all.evaluations,
        all.distinct.len(),
        violations.len(),
        wall
    );
    for i in &inconclusive {
        println!("inconclusive: {}", i.chars().take(300).collect::<String>());
    }
    if !violations.is_empty() {
        for (k, v) in violations.iter().take(3).enumerate() {
            let path = ev.join("replay").join(format!("{}-{}.txt", check.id, k));
            let how = match v.index {
                Some(i) => format!("harness/target/debug/rngmon case {} {} {} {}", check.id, seed, tier_s, i),
                None => "(a fixed case)".to_string(),
            };
            let mut f = std::fs::File::create(&path).unwrap();
            let _ = writeln!(f, "property {}\nreplay: {}\n\n{}", check.id, how, v.what);
            println!("{}", v.what.lines().take(12).collect::<Vec<_>>().join("\n"));
            println!("VIOLATION property={} replay={}", check.id, path.display());
        }
        return 1;
    }
    if !harness.is_empty() {
        for h in harness.iter().take(3) {
            println!("error of the check: {h}");
        }
        return 3;
    }
    if !short.is_empty() {
        println!("error of the check: too little was observed: {}", short.join(", "));
        return 4;
    }
    0
}

fn confirm(exe: &Path, check: &Check, seed: u64, tier: &str, index: u64, limit: Duration) -> (Option<String>, bool) {
    let t0 = Instant::now();
    let errpath = std::env::temp_dir().join(format!("rngmon-err-{}", std::process::id()));
    let err = std::fs::File::create(&errpath).unwrap();
    let mut c = Command::new(exe)
        .arg("case")
        .args([check.id, &seed.to_string(), tier, &index.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap();
    let r = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let msg = String::from_utf8_lossy(&std::fs::read(&errpath).unwrap_or_default()).to_string();
    let _ = std::fs::remove_file(&errpath);
    match r {
        None => (Some(format!("does not end within {} s", limit.as_secs())), true),
        Some(s) if s.code() == Some(0) => (None, false),
        Some(s) if s.code() == Some(1) => (Some("violated when run on its own".into()), false),
        Some(s) if s.signal().is_some() => {
            let tail: String = msg.lines().filter(|l| !l.is_empty()).last().unwrap_or("").chars().take(300).collect();
            (Some(format!("process ended by signal {}: {tail}", s.signal().unwrap())), msg.contains("memory allocation of") || s.signal() == Some(9))
        }
        Some(s) => (Some(format!("process ended: {s:?}")), true),
    }
}

fn merge(res: &str, all: &mut Stats, v: &mut Vec<Violation>, h: &mut Vec<String>) {
    for l in res.lines() {
        let Some((k, rest)) = l.split_once(' ') else { continue };
        match k {
            "E" => all.evaluations += rest.parse::<u64>().unwrap_or(0),
            "C" => {
                if let Some((k, n)) = rest.rsplit_once('\t') {
                    let n: u64 = n.parse().unwrap_or(0);
                    let c = all.counters.entry(k.to_string()).or_insert(0);
                    if k.starts_with("max ") {
                        *c = (*c).max(n)
                    } else {
                        *c += n
                    }
                }
            }
            "D" => {
                if let Ok(d) = u64::from_str_radix(rest, 16) {
                    all.distinct.insert(d);
                }
            }
            "S" => all.samples.push(unesc(rest)),
            "V" => {
                let (i, d) = rest.split_once(' ').unwrap_or(("", rest));
                v.push(Violation { what: unesc(d), index: i.parse().ok() })
            }
            "H" => h.push(unesc(rest)),
            _ => {}
        }
    }
}
