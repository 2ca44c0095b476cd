//! Probing the findings that are known and not repaired
use crate::mon::guarded;
use crate::run;
use std::path::Path;

pub struct Finding {
    pub property: String,
    pub what: String,
    pub fields: Vec<(String, String)>,
}

/// The file consists of blocks separated by blank lines, each with "key: value" lines; values may use \n, \t, \\ and
/// \u{..}
pub fn load(root: &Path) -> Result<Vec<Finding>, String> {
    let p = root.join("known-findings.txt");
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
    let mut out = vec![];
    for block in t.split("\n\n") {
        let mut f: Vec<(String, String)> = vec![];
        for l in block.lines() {
            if l.starts_with('#') || l.starts_with("fixed:") || l.trim().is_empty() {
                continue;
            }
            let (k, v) = l.split_once(": ").ok_or_else(|| format!("known-findings.txt: {l}"))?;
            f.push((k.to_string(), unescape(v)));
        }
        if f.is_empty() {
            continue;
        }
        let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| x.1.clone()).ok_or_else(|| format!("known-findings.txt: no {k}: {block}"));
        out.push(Finding { property: get("known")?, what: get("what")?, fields: f.clone() });
    }
    Ok(out)
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars().peekable();
    while let Some(c) = i.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match i.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('u') => {
                let h: String = i.by_ref().skip(1).take_while(|c| *c != '}').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c)
                }
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

/// Lines to print: those findings that (still) are to be found
pub fn probe(id: &str, root: &Path) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for f in load(root)?.iter().filter(|f| f.property == id) {
        let get = |k: &str| f.fields.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let mut files = std::collections::BTreeMap::new();
        for (k, v) in &f.fields {
            if let Some(n) = k.strip_prefix("file ") {
                files.insert(n.to_string(), v.clone());
            }
        }
        let main = get("schema").ok_or("no schema")?;
        let xml = main.ends_with(".rng");
        let expect = get("expect").ok_or("no expect")?;
        let doc = get("doc");
        let got = guarded(|| {
            let c = run::compile(&files, &main, xml);
            match (&c.result, &doc) {
                (Err(e), _) => format!("rejected {}", run::kind_of(e)),
                (Ok(_), None) => "accepted".to_string(),
                (Ok(m), Some(d)) => if run::validate(m, d).valid() { "valid" } else { "invalid" }.to_string(),
            }
        })
        .unwrap_or_else(|p| p);
        let matches = got == expect || got.split(' ').next() == Some(&expect);
        if !matches {
            out.push(format!("KNOWN-FINDING: property={id} {} (got: {got}, should be: {expect})", f.what));
        }
    }
    Ok(out)
}
