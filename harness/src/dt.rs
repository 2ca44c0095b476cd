//! Reference semantics of datatypes, written from XML Schema Part 2; independent of the code under test.
use crate::ast::DT;
use crate::re;
use crate::rng::Rng;
use std::cmp::Ordering;

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
pub fn all_ws(s: &str) -> bool {
    s.chars().all(is_ws)
}
pub fn collapse(s: &str) -> String {
    s.split(is_ws).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}
fn replace(s: &str) -> String {
    s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect()
}

#[derive(Clone, Debug)]
pub struct Dec {
    neg: bool,
    int: Vec<u8>,
    frac: Vec<u8>,
}
impl Dec {
    /// [+-]? digits [. digits*] | [+-]? . digits
    pub fn parse(s: &str) -> Option<Dec> {
        let b = s.as_bytes();
        let (neg, b) = match b.first()? {
            b'-' => (true, &b[1..]),
            b'+' => (false, &b[1..]),
            _ => (false, b),
        };
        let dot = b.iter().position(|c| *c == b'.');
        let (i, f) = match dot {
            Some(k) => (&b[..k], &b[k + 1..]),
            None => (b, &b[b.len()..]),
        };
        if (i.is_empty() && f.is_empty()) || !i.iter().chain(f).all(|c| c.is_ascii_digit()) {
            return None;
        }
        let int: Vec<u8> = i.iter().copied().skip_while(|c| *c == b'0').collect();
        let mut frac = f.to_vec();
        while frac.last() == Some(&b'0') {
            frac.pop();
        }
        let zero = int.is_empty() && frac.is_empty();
        Some(Dec { neg: neg && !zero, int, frac })
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => return Ordering::Less,
            (false, true) => return Ordering::Greater,
            _ => {}
        }
        let m = self.int.len().cmp(&o.int.len()).then_with(|| self.int.cmp(&o.int)).then_with(|| self.frac.cmp(&o.frac));
        if self.neg {
            m.reverse()
        } else {
            m
        }
    }
}

fn int_lexical(s: &str) -> bool {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}

/// The built-in range of the integer types, if any
pub fn range(name: &str) -> Option<(Option<&'static str>, Option<&'static str>)> {
    Some(match name {
        "integer" => (None, None),
        "positiveInteger" => (Some("1"), None),
        "short" => (Some("-32768"), Some("32767")),
        "unsignedShort" => (Some("0"), Some("65535")),
        "int" => (Some("-2147483648"), Some("2147483647")),
        "unsignedInt" => (Some("0"), Some("4294967295")),
        "long" => (Some("-9223372036854775808"), Some("9223372036854775807")),
        "unsignedLong" => (Some("0"), Some("18446744073709551615")),
        _ => return None,
    })
}

fn double(s: &str) -> Option<f64> {
    match s {
        "INF" => return Some(f64::INFINITY),
        "-INF" => return Some(f64::NEG_INFINITY),
        "NaN" => return Some(f64::NAN),
        _ => {}
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    Dec::parse(m)?;
    if let Some(e) = e {
        if !int_lexical(e) {
            return None;
        }
    }
    s.parse().ok()
}

/// XML 1.0 name characters; None where editions of XML (or of Unicode) differ
fn name_start(c: char) -> Option<bool> {
    match c as u32 {
        0..=0x7f => Some(c == '_' || c.is_ascii_alphabetic()),
        0x80..=0xbf | 0xd7 | 0xf7 => Some(false),
        0xc0..=0xff | 0x391..=0x3a1 | 0x3b1..=0x3c9 | 0x410..=0x44f | 0x4e00..=0x9fa5 => Some(true),
        0x300..=0x36f | 0x2010..=0x2027 => Some(false),
        _ => None,
    }
}
fn name_char(c: char) -> Option<bool> {
    match c {
        '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{345}' => Some(true),
        '\u{346}'..='\u{36F}' => None,
        _ => name_start(c),
    }
}
fn all_known(i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut r = Some(true);
    for x in i {
        match x {
            Some(false) => return Some(false),
            None => r = None,
            _ => {}
        }
    }
    r
}
pub fn ncname(s: &str) -> Option<bool> {
    if s.is_empty() {
        return Some(false);
    }
    all_known(s.chars().enumerate().map(|(i, c)| if i == 0 { name_start(c) } else { name_char(c) }))
}
fn nmtoken(s: &str) -> Option<bool> {
    if s.is_empty() {
        return Some(false);
    }
    all_known(s.chars().map(|c| if c == ':' { Some(true) } else { name_char(c) }))
}

/// None: not decided by the reference
fn date_part(s: &str) -> Option<(bool, &str)> {
    // returns (well formed so far, rest)
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let ylen = t.bytes().take_while(|b| b.is_ascii_digit()).count();
    let bad = Some((false, ""));
    if ylen < 4 {
        return bad;
    }
    let y = &t[..ylen];
    if ylen > 4 && y.starts_with('0') {
        return bad;
    }
    if y == "0000" {
        return None;
    }
    let r = t[ylen..].as_bytes();
    if r.len() < 6 || r[0] != b'-' || r[3] != b'-' || ![1, 2, 4, 5].iter().all(|i| r[*i].is_ascii_digit()) {
        return bad;
    }
    let month = (r[1] - b'0') * 10 + r[2] - b'0';
    let day = (r[4] - b'0') * 10 + r[5] - b'0';
    let tail: u64 = y[ylen.saturating_sub(9)..].parse::<u64>().unwrap() % 400;
    if neg && month == 2 && day == 29 {
        return None;
    }
    let leap = tail % 4 == 0 && (tail % 100 != 0 || tail == 0);
    let max = match month {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap {
                29
            } else {
                28
            }
        }
        _ => return bad,
    };
    if day == 0 || day > max {
        return bad;
    }
    Some((true, &t[ylen + 6..]))
}
fn tz(s: &str) -> bool {
    if s.is_empty() || s == "Z" {
        return true;
    }
    let b = s.as_bytes();
    if b.len() != 6 || !(b[0] == b'+' || b[0] == b'-') || b[3] != b':' || ![1, 2, 4, 5].iter().all(|i| b[*i].is_ascii_digit()) {
        return false;
    }
    let h = (b[1] - b'0') * 10 + b[2] - b'0';
    let m = (b[4] - b'0') * 10 + b[5] - b'0';
    m < 60 && (h < 14 || (h == 14 && m == 0))
}
fn time(s: &str) -> bool {
    let b = s.as_bytes();
    if b.len() < 8 || b[2] != b':' || b[5] != b':' || ![0, 1, 3, 4, 6, 7].iter().all(|i| b[*i].is_ascii_digit()) {
        return false;
    }
    let n = |i: usize| (b[i] - b'0') * 10 + b[i + 1] - b'0';
    let mut rest = &s[8..];
    let mut frac_zero = true;
    if let Some(f) = rest.strip_prefix('.') {
        let k = f.bytes().take_while(|c| c.is_ascii_digit()).count();
        if k == 0 {
            return false;
        }
        frac_zero = f[..k].bytes().all(|c| c == b'0');
        rest = &f[k..];
    }
    tz(rest) && n(3) < 60 && n(6) < 60 && (n(0) < 24 || (n(0) == 24 && n(3) == 0 && n(6) == 0 && frac_zero))
}
fn duration(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let Some(s) = s.strip_prefix('P') else { return false };
    let (d, t) = match s.find('T') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    fn fields(mut s: &str, units: &str, frac: bool) -> Option<usize> {
        let mut n = 0;
        let mut units = units.chars().peekable();
        while !s.is_empty() {
            let k = s.bytes().take_while(|b| b.is_ascii_digit()).count();
            if k == 0 {
                return None;
            }
            let mut rest = &s[k..];
            let mut fraction = false;
            if let Some(f) = rest.strip_prefix('.') {
                let k = f.bytes().take_while(|b| b.is_ascii_digit()).count();
                if !frac || k == 0 {
                    return None;
                }
                fraction = true;
                rest = &f[k..];
            }
            let u = rest.chars().next()?;
            loop {
                match units.next() {
                    None => return None,
                    Some(x) if x == u => break,
                    _ => {}
                }
            }
            if fraction && u != 'S' {
                return None;
            }
            rest = &rest[u.len_utf8()..];
            s = rest;
            n += 1;
        }
        Some(n)
    }
    let Some(a) = fields(d, "YMD", false) else { return false };
    match t {
        None => a > 0,
        Some(t) => fields(t, "HMS", true).is_some_and(|b| b > 0),
    }
}
fn language(s: &str) -> bool {
    s.split('-').enumerate().all(|(i, p)| {
        (1..=8).contains(&p.len())
            && p.bytes().all(|b| if i == 0 { b.is_ascii_alphabetic() } else { b.is_ascii_alphanumeric() })
    })
}
/// Only decided for what every reading of the specifications agrees on
fn any_uri(s: &str) -> Option<bool> {
    if s.contains("%G") || s.ends_with('%') || s == "http://[::1" {
        return Some(false);
    }
    let plain = |c: char| c.is_ascii_alphanumeric() || "-._~/?#:@".contains(c);
    if s.chars().all(plain) && s.matches('#').count() <= 1 {
        // a scheme, or a relative reference without any colon
        if s.starts_with("http://") || s.starts_with("urn:") || !s.contains(':') {
            let rest = s.strip_prefix("http://").unwrap_or(s);
            let host = rest.split(['/', '?', '#']).next().unwrap();
            if s.starts_with("http://") && (host.is_empty() || !host.chars().all(|c| c.is_ascii_alphanumeric() || c == '.')) {
                return None;
            }
            if s.starts_with("//") || s == "urn:" || s.contains("//") && !s.starts_with("http://") {
                return None;
            }
            return Some(true);
        }
    }
    None
}

pub const NUMERIC: &[&str] =
    &["short", "unsignedShort", "long", "int", "integer", "positiveInteger", "unsignedInt", "unsignedLong"];
pub const LENGTHY: &[&str] = &["string", "normalizedString", "token", "NMTOKEN", "NMTOKENS", "NCName"];
pub const OTHERS: &[&str] = &["decimal", "double", "duration", "date", "dateTime", "anyURI", "language", "boolean", "ID", "IDREF"];

pub fn has_pattern_facet(name: &str) -> bool {
    !matches!(name, "token" | "NMTOKEN" | "NMTOKENS" | "NCName")
}

/// Whether the datatype (with parameters) allows the string; None if the reference does not decide
pub fn allows(dt: &DT, params: &[(String, String)], s: &str) -> Option<bool> {
    if !dt.xsd {
        return Some(true);
    }
    let v = match &dt.name[..] {
        "string" => s.to_string(),
        "normalizedString" => replace(s),
        _ => collapse(s),
    };
    let n = &dt.name[..];
    let mut ok = match n {
        "string" | "normalizedString" | "token" => true,
        "NMTOKEN" => nmtoken(&v)?,
        "NMTOKENS" => !v.is_empty() && all_known(v.split(' ').map(nmtoken))?,
        "NCName" | "ID" | "IDREF" => ncname(&v)?,
        "decimal" => Dec::parse(&v).is_some(),
        "double" => {
            if v == "+INF" {
                return None;
            }
            double(&v).is_some()
        }
        "duration" => duration(&v),
        "date" => match date_part(&v)? {
            (false, _) => false,
            (true, rest) => tz(rest),
        },
        "dateTime" => match date_part(&v)? {
            (false, _) => false,
            (true, rest) => rest.strip_prefix('T').is_some_and(time),
        },
        "anyURI" => any_uri(&v)?,
        "language" => language(&v),
        "boolean" => matches!(&v[..], "true" | "false" | "1" | "0"),
        _ => {
            let (lo, hi) = range(n)?;
            if n.starts_with("unsigned") && (v.starts_with('+') || v.starts_with('-')) && int_lexical(&v) {
                // editions disagree on signs of unsigned types, but not about negative numbers
                let d = Dec::parse(&v)?;
                if !d.neg {
                    return None;
                }
            }
            int_lexical(&v) && {
                let d = Dec::parse(&v)?;
                lo.is_none_or(|l| d.cmp(&Dec::parse(l).unwrap()).is_ge())
                    && hi.is_none_or(|h| d.cmp(&Dec::parse(h).unwrap()).is_le())
            }
        }
    };
    if !ok {
        return Some(false);
    }
    let len = || match n {
        "NMTOKENS" => v.split(' ').count(),
        _ => v.chars().count(),
    };
    for (p, val) in params {
        let cmp = || -> Option<Option<Ordering>> {
            if n == "double" {
                let (a, b) = (double(&v)?, double(val)?);
                if a.is_nan() {
                    return None;
                }
                return Some(a.partial_cmp(&b));
            }
            Some(Some(Dec::parse(&v)?.cmp(&Dec::parse(val)?)))
        };
        ok &= match &p[..] {
            "length" => len() == val.parse::<usize>().ok()?,
            "minLength" => len() >= val.parse::<usize>().ok()?,
            "maxLength" => len() <= val.parse::<usize>().ok()?,
            "minInclusive" => cmp()?.is_some_and(|o| o.is_ge()),
            "minExclusive" => cmp()?.is_some_and(|o| o.is_gt()),
            "maxInclusive" => cmp()?.is_some_and(|o| o.is_le()),
            "maxExclusive" => cmp()?.is_some_and(|o| o.is_lt()),
            "totalDigits" => {
                let d = Dec::parse(&v)?;
                d.int.len() + d.frac.len() <= val.parse::<usize>().ok()?
            }
            "fractionDigits" => Dec::parse(&v)?.frac.len() <= val.parse::<usize>().ok()?,
            "pattern" => re::parse(val)?.matches(&v),
            _ => return None,
        };
    }
    Some(ok)
}

/// Whether the value `s` of a document equals the literal of the schema; None if not decided
pub fn equals(dt: &DT, lit: &str, s: &str) -> Option<bool> {
    Some(match (dt.xsd, &dt.name[..]) {
        (_, "string") => lit == s,
        (_, "token") => collapse(lit) == collapse(s),
        (true, "QName") => {
            let (l, v) = (collapse(lit), collapse(s));
            if v.contains(':') {
                // the prefix would have to be resolved, and that can't be to no namespace
                return Some(false);
            }
            l == v
        }
        _ => return None,
    })
}

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

fn inc(s: &str, by: i32) -> String {
    match s.parse::<i128>() {
        Ok(v) => (v + by as i128).to_string(),
        Err(_) => {
            // without carry
            let mut t = s.to_string();
            if let Some(d) = t.pop() {
                t.push(match (d, by) {
                    ('0'..='8', 1) | ('1'..='9', -1) => (d as u8 as i32 + by) as u8 as char,
                    _ => d,
                });
            }
            t
        }
    }
}

/// Consistent parameters that are large, or make for large values
pub fn large_params(dt: &DT, r: &mut Rng) -> Vec<(String, String)> {
    use crate::scale::size;
    let n = &dt.name[..];
    let mut v: Vec<(String, String)> = vec![];
    if LENGTHY.contains(&n) {
        let a = size(r, 500);
        let b = a + *r.pick(&[0, 1, 5, 100]);
        match r.below(5) {
            0 => v.push(("length".into(), a.to_string())),
            1 => v.push(("minLength".into(), a.to_string())),
            2 => v.push(("maxLength".into(), a.to_string())),
            3 => v.extend([("minLength".into(), a.to_string()), ("maxLength".into(), b.to_string())]),
            _ => {}
        }
    }
    let (lo, hi) = range(n).unwrap_or((None, None));
    if (NUMERIC.contains(&n) || n == "decimal") && (lo.is_none() || hi.is_none()) && r.chance(2, 3) {
        let k = size(r, 120);
        let mut big = digits(r, k);
        big.insert(0, (b'1' + r.below(9) as u8) as char);
        let neg = match (lo, hi) {
            (None, None) => r.bool(),
            (None, _) => true,
            _ => false,
        };
        let frac = if n == "decimal" && r.bool() {
            let k = size(r, 60);
            format!(".{}5", digits(r, k))
        } else {
            String::new()
        };
        let b = format!("{}{big}{frac}", if neg { "-" } else { "" });
        match r.below(4) {
            0 => v.push((r.pick(&["minInclusive", "minExclusive"]).to_string(), b)),
            1 => v.push((r.pick(&["maxInclusive", "maxExclusive"]).to_string(), b)),
            _ => {
                let (x, y) = if neg { (b, "-1".to_string()) } else { ("1".to_string(), b) };
                v.push((r.pick(&["minInclusive", "minExclusive"]).to_string(), x));
                v.push((r.pick(&["maxInclusive", "maxExclusive"]).to_string(), y));
            }
        }
    }
    if n == "decimal" && r.chance(1, 3) {
        let t = size(r, 200);
        if r.bool() {
            v.push(("totalDigits".into(), t.to_string()));
        }
        if r.bool() {
            v.push(("fractionDigits".into(), r.range(0, t).to_string()));
        }
    }
    if has_pattern_facet(n) && r.chance(1, 4) {
        let mut s = String::new();
        re::Re::large(r).print(&mut s);
        v.push(("pattern".into(), s));
    }
    v
}

/// A value that has much of something
pub fn large_candidate(dt: &DT, params: &[(String, String)], r: &mut Rng) -> String {
    use crate::scale::size;
    if !params.is_empty() && r.chance(1, 2) {
        return candidate(dt, params, r);
    }
    let k = size(r, 400);
    let d = |r: &mut Rng, k: usize| digits(r, k);
    let mut s = match &dt.name[..] {
        "string" | "normalizedString" | "token" => {
            let c = r.pick(&["a", "ab ", "é", "𝒳", "a  ", "x\n", "1"]);
            c.repeat(k)
        }
        "NMTOKENS" => {
            let mut s = String::new();
            for i in 0..k {
                if i > 0 {
                    s.push_str(ws(r));
                }
                s.push_str(*r.pick(&["a", "1", "b.c", "é"]));
            }
            s
        }
        "NMTOKEN" | "NCName" | "ID" | "IDREF" => format!("{}{}", r.pick(&["a", "_", "1", "-"]), r.pick(&["a", "é", "x1", "-.", "日"]).repeat(k)),
        "decimal" => match r.below(4) {
            0 => d(r, k),
            1 => format!("{}.{}", d(r, k), { let k = size(r, 400); d(r, k) }),
            2 => format!("0.{}1", "0".repeat(k)),
            _ => format!("{}1.5{}", "0".repeat(k), "0".repeat(k / 2)),
        },
        "double" => match r.below(3) {
            0 => format!("{}.{}", d(r, k), d(r, 3)),
            1 => format!("0.{}1e{}", "0".repeat(k), k),
            _ => format!("1e{}{}", "0".repeat(k), d(r, 2)),
        },
        "duration" => match r.below(3) {
            0 => format!("P{}Y", d(r, k)),
            1 => format!("PT1.{}S", d(r, k)),
            _ => format!("P{0}Y{0}M{0}DT{0}H{0}M{0}.{0}S", d(r, k / 6 + 1)),
        },
        "date" => format!("{}-02-{}", { let k = size(r, 30); format!("1{}", d(r, k)) }, r.pick(&["01", "28", "30"])),
        "dateTime" => format!("2000-01-01T{}.{}{}", r.pick(&["12:00:00", "23:59:59"]), d(r, k), r.pick(&["", "Z", "+01:00"])),
        "anyURI" => format!("http://example.org/{}", r.pick(&["a/", "ab", "%20", "a?", "x-"]).repeat(k)),
        "language" => format!("en{}", r.pick(&["-a", "-abcdefgh", "-12"]).repeat(k)),
        "boolean" => format!("{}{}", "0".repeat(k), r.pick(&["", "1", "true"])),
        _ => match r.below(3) {
            0 => format!("{}{}", "0".repeat(k), r.below(200)),
            1 => format!("{}{}", if r.bool() { "-" } else { "" }, d(r, k)),
            _ => format!("-{}{}", "0".repeat(k), r.below(200)),
        },
    };
    if r.chance(1, 3) {
        // a single character more, less or other
        let mut c: Vec<char> = s.chars().collect();
        let i = if r.chance(1, 3) { c.len().saturating_sub(1) } else { r.below(c.len().max(1)) };
        let x = *r.pick(&['a', '1', ' ', ':', '-', 'x', '.', '\n']);
        match r.below(3) {
            0 if !c.is_empty() => {
                c.remove(i);
            }
            1 if !c.is_empty() => c[i] = x,
            _ => c.insert(i.min(c.len()), x),
        }
        s = c.into_iter().collect();
    }
    if r.chance(1, 5) {
        let k = size(r, 300);
        let w = ws(r).repeat(k);
        s = if r.bool() { format!("{w}{s}") } else { format!("{s}{w}") };
    }
    s
}

pub fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["a", "b", "ab", "abc", "x1", "foo", "bar-baz", "é", "日本", "𝒳y", "_", "A.b", "true", "12", "0", "-1", "1.5", "x:y", "&", "<", "\"", "'", "]]>", "--", "hello"];
    r.pick(W).to_string()
}

pub fn ws(r: &mut Rng) -> &'static str {
    const W: &[&str] = &[" ", "  ", "\t", "\n", " \n ", "\r", "\t\t", "\n\n"];
    r.pick(W)
}

/// Some arbitrary text
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(10) {
        0 => {}
        1 => s.push_str(ws(r)),
        2..=5 => s.push_str(&word(r)),
        6 | 7 => {
            for i in 0..r.range(2, 4) {
                if i > 0 {
                    s.push_str(ws(r));
                }
                s.push_str(&word(r));
            }
        }
        8 => {
            s.push_str(ws(r));
            s.push_str(&word(r));
            s.push_str(ws(r));
        }
        _ => {
            for _ in 0..r.range(1, 12) {
                const C: &[char] = &['a', 'z', '0', ' ', '\n', '\t', '.', '-', '&', '<', '>', '"', '\'', 'é', '\u{2028}', '\u{10000}', '\u{10FFFD}', '\u{A0}', ']', '\u{85}', '\u{FFFD}', '#', ';', '\r', '\u{301}', '{', '%'];
                s.push(*r.pick(C));
            }
        }
    }
    s
}

/// A candidate value, biased to be near the boundaries of what the type allows
pub fn candidate(dt: &DT, params: &[(String, String)], r: &mut Rng) -> String {
    if !dt.xsd || r.chance(1, 12) {
        return text(r);
    }
    let n = &dt.name[..];
    let mut s = if !params.is_empty() && r.chance(2, 3) {
        let (p, v) = r.pick(params);
        match &p[..] {
            "pattern" => {
                let mut s = String::new();
                if let Some(re) = re::parse(v) {
                    re.sample(r, &mut s);
                }
                match r.below(6) {
                    0 => s.push('a'),
                    1 => s.insert(0, 'x'),
                    2 => {
                        s.pop();
                    }
                    _ => {}
                }
                s
            }
            "length" | "minLength" | "maxLength" => {
                let k = (v.parse::<usize>().unwrap_or(0) + r.below(3)).saturating_sub(1);
                let c = ["a", "b1", "é", "𝒳"];
                let mut s = String::new();
                if n == "NMTOKENS" {
                    for i in 0..k {
                        if i > 0 {
                            s.push_str(ws(r));
                        }
                        s.push_str(r.pick(&c));
                    }
                } else {
                    let c = ["a", "b", "é", "𝒳", "c"];
                    while s.chars().count() < k {
                        s.push_str(r.pick(&c));
                    }
                    if matches!(n, "string" | "normalizedString" | "token") && r.chance(1, 4) && k > 2 {
                        s = s.chars().enumerate().map(|(i, c)| if i == 1 { ' ' } else { c }).collect();
                    }
                }
                s
            }
            "totalDigits" | "fractionDigits" => {
                let k = v.parse::<usize>().unwrap_or(1);
                let i = (k + 1).saturating_sub(r.below(3));
                let f = (k + 1).saturating_sub(r.below(3));
                match r.below(4) {
                    0 => digits(r, i.max(1)),
                    1 => format!("{}.{}", r.below(10), digits(r, f)),
                    2 => format!("00{}.{}0", r.below(100), digits(r, f)),
                    _ => format!("{}.{}", digits(r, i / 2 + 1), digits(r, f / 2)),
                }
            }
            _ => {
                // a bound
                let by = r.below(3) as i32 - 1;
                let v = if v.contains(['.', 'e', 'E']) {
                    match r.below(4) {
                        0 => v.clone(),
                        1 => format!("{v}0"),
                        2 if !v.contains(['e', 'E']) => format!("{v}1"),
                        _ => format!("-{}", v.trim_start_matches('-')),
                    }
                } else {
                    inc(v, by)
                };
                match r.below(8) {
                    0 if !v.starts_with('-') => format!("+{v}"),
                    1 if !v.starts_with('-') => format!("00{v}"),
                    2 if n == "decimal" || n == "double" => format!("{v}.0"),
                    3 if n == "decimal" || n == "double" => format!("{v}.000001"),
                    _ => v,
                }
            }
        }
    } else {
        match n {
            "string" | "normalizedString" | "token" => text(r),
            "NMTOKEN" | "NCName" | "ID" | "IDREF" | "NMTOKENS" => {
                const V: &[&str] = &["a", "_", "-a", "1a", "a1", "a.b-c_d", "a:b", ":", "é", "日本語", "", "a b", ".", "·a", "a·", "a/b", "a,b", "𝒳", "1", "a  b\tc", "A#"];
                r.pick(V).to_string()
            }
            "decimal" => {
                const V: &[&str] = &["0", "1", "-1", "+1", "1.5", "-0.5", ".5", "5.", ".", "+", "", "1e5", "1,5", "00012.500", "-0", "123456789012345678901234567890.5", "0.000000000000000000001", "1.2.3", "--1", "INF", "0x1", "١", "1 2"];
                r.pick(V).to_string()
            }
            "double" => {
                const V: &[&str] = &["0", "1.5", "-1.5E10", "1e-5", "1E+5", "INF", "-INF", "NaN", "inf", "nan", "infinity", "Infinity", "1e", "e5", "", ".", ".5e1", "5.", "1e5.5", "1e400", "1e-400", "-0", "0x1p3", "1_0", "1 e5", "+1.0"];
                r.pick(V).to_string()
            }
            "duration" => {
                const V: &[&str] = &["P1Y", "P1Y2M3DT4H5M6S", "P1Y2M3DT4H5M6.789S", "-P1D", "PT1S", "P", "PT", "P1YT", "1Y", "P1S", "PT1Y", "P1M", "PT1M", "P1.5Y", "PT1.5S", "PT1.S", "PT.5S", "P1D2M", "+P1D", "P-1D", "P0Y", "P1Y2", "p1y", "PT1H30M", "P1W", "P 1Y", "PT1.5H", "P1Y1Y", ""];
                r.pick(V).to_string()
            }
            "date" | "dateTime" => {
                let y = *r.pick(&["2000", "1999", "2024", "1900", "2100", "2400", "0001", "9999", "12345", "012345", "-0001", "-2000", "0000", "999", "20000", "100000000000", "1000000000004", "+2000", "2023"]);
                let m = *r.pick(&["01", "02", "03", "04", "06", "11", "12", "00", "13", "1", "2"]);
                let d = *r.pick(&["01", "28", "29", "30", "31", "32", "00", "1", "15", "10"]);
                let z = *r.pick(&["", "", "", "Z", "+00:00", "-05:30", "+14:00", "+14:01", "-13:59", "+15:00", "z", "+1:00", "+0100", "-14:00", "+05:60", " Z"]);
                let mut s = format!("{y}-{m}-{d}");
                if n == "dateTime" || r.chance(1, 12) {
                    let t = *r.pick(&["T00:00:00", "T23:59:59", "T12:30:15.123", "T24:00:00", "T24:00:01", "T24:00:00.0", "T25:00:00", "T12:60:00", "T12:00:60", "T12:00", "T1:00:00", " 12:00:00", "t12:00:00", "T12:00:00.", "T24:01:00", "T23:59:59.999999999999", "T09:05:07", "T19:10:20", "", "T24:00:00.1"]);
                    s.push_str(t);
                }
                s.push_str(z);
                s
            }
            "anyURI" => {
                const V: &[&str] = &["http://example.org/", "http://example.org/a?b#c", "urn:a:b", "a/b/c", "#frag", "../x", "", "%G1", "a%", "http://[::1", "http://a.b/c-d_e~f", "?q", "a.rnc"];
                r.pick(V).to_string()
            }
            "language" => {
                const V: &[&str] = &["en", "en-US", "x-klingon", "abcdefgh", "abcdefghi", "en-", "-en", "e1", "en-1", "en_US", "", "en--US", "en-abcdefgh", "en-abcdefghi", "é", "a-b-c-d-1", "123"];
                r.pick(V).to_string()
            }
            "boolean" => {
                const V: &[&str] = &["true", "false", "1", "0", "TRUE", "yes", "", "2", "00", "True", "tru", "truefalse", "01"];
                r.pick(V).to_string()
            }
            _ => {
                let (lo, hi) = range(n).unwrap_or((None, None));
                match r.below(9) {
                    0 | 1 => inc(lo.unwrap_or("0"), r.below(3) as i32 - 1),
                    2 | 3 => inc(hi.unwrap_or("123456789012345678901234567890"), r.below(3) as i32 - 1),
                    4 => format!("{}{}", if r.bool() { "-" } else { "" }, { let k = r.range(1, 25); digits(r, k) }),
                    5 => r.pick(&["", "+", "-", "1.0", "1e3", "0x10", "--1", "+-1", "1 2", "a", "+0", "-0", "00", "+1", "1_0", "٣", "1,000", "- 1"]).to_string(),
                    6 => format!("0000000000000000000000000{}", r.below(1000)),
                    7 => hi.unwrap_or("0").chars().chain(Some('0')).collect(),
                    _ => r.below(100).to_string(),
                }
            }
        }
    };
    if r.chance(1, 6) {
        s = format!("{}{}", ws(r), s);
    }
    if r.chance(1, 6) {
        s.push_str(ws(r));
    }
    s
}

/// A value that is allowed, if one is found soon
pub fn valid_value(dt: &DT, params: &[(String, String)], r: &mut Rng) -> Option<String> {
    for _ in 0..40 {
        let s = candidate(dt, params, r);
        if allows(dt, params, &s) == Some(true) {
            return Some(s);
        }
    }
    None
}

pub fn gen_type(r: &mut Rng) -> DT {
    match r.below(10) {
        0 => DT::builtin("string"),
        1 => DT::builtin("token"),
        2..=4 => DT::xsd(r.pick(NUMERIC)),
        5 | 6 => DT::xsd(r.pick(LENGTHY)),
        _ => DT::xsd(r.pick(OTHERS)),
    }
}

fn gen_regex(r: &mut Rng) -> String {
    let mut s = String::new();
    let d = r.range(1, 3);
    re::Re::gen(r, d).print(&mut s);
    s
}

fn cmp_value(n: &str, a: &str, b: &str) -> Option<Ordering> {
    if n == "double" {
        return a.parse::<f64>().ok()?.partial_cmp(&b.parse::<f64>().ok()?);
    }
    Some(Dec::parse(a)?.cmp(&Dec::parse(b)?))
}

/// Consistent parameters for the type
pub fn gen_params(dt: &DT, r: &mut Rng) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    if !dt.xsd {
        return v;
    }
    let n = &dt.name[..];
    let mut add = |k: &str, s: String| v.push((k.to_string(), s));
    if LENGTHY.contains(&n) {
        match r.below(6) {
            0 => add("length", r.below(5).to_string()),
            1 => add("minLength", r.below(5).to_string()),
            2 => add("maxLength", r.below(6).to_string()),
            3 => {
                let a = r.below(4);
                add("minLength", a.to_string());
                add("maxLength", (a + r.below(3)).to_string());
            }
            4 => {
                let a = r.below(4);
                add("maxLength", (a + r.below(3)).to_string());
                add("minLength", a.to_string());
            }
            _ => {}
        }
    }
    if NUMERIC.contains(&n) || n == "decimal" || n == "double" {
        let (lo, hi) = range(n).unwrap_or((None, None));
        let lo: i128 = lo.map_or(-1_000_000, |l| l.parse().unwrap());
        let hi: i128 = hi.map_or(1_000_000_000_000_000_000_000, |l| l.parse().unwrap());
        let bound = |r: &mut Rng| -> i128 {
            match r.below(6) {
                0 => lo + r.below(3) as i128,
                1 => hi - r.below(3) as i128,
                2 => r.below(300) as i128,
                3 => -(r.below(300) as i128),
                4 => r.below(5) as i128,
                _ => (r.next() as i64 as i128) % 100_000,
            }
            .clamp(lo, hi)
        };
        let mut a = bound(r);
        let mut b = bound(r);
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        match r.below(6) {
            0 => b = a,
            1 if a < hi => b = a + 1,
            _ => {}
        }
        let frac = n == "decimal" || n == "double";
        let f = |r: &mut Rng, x: i128| {
            if frac && r.bool() {
                if n == "double" && r.chance(1, 3) && x.abs() < 100_000 {
                    format!("{x}e{}", r.below(3))
                } else {
                    format!("{x}.{}", r.below(100))
                }
            } else {
                x.to_string()
            }
        };
        let mut tmp: Vec<(String, String)> = vec![];
        if r.chance(1, 2) {
            tmp.push((r.pick(&["minInclusive", "minExclusive"]).to_string(), f(r, a)));
        }
        if r.chance(1, 2) {
            tmp.push((r.pick(&["maxInclusive", "maxExclusive"]).to_string(), f(r, b)));
        }
        // the two bounds might be equal, or have come to be in the wrong order with fractions
        if tmp.len() == 2 {
            let wrong = match cmp_value(n, &tmp[0].1, &tmp[1].1) {
                Some(Ordering::Less) => false,
                Some(Ordering::Equal) => tmp[0].0.ends_with("Inclusive") != tmp[1].0.ends_with("Inclusive"),
                _ => true,
            };
            if wrong {
                tmp.pop();
            }
        }
        if r.bool() {
            tmp.reverse();
        }
        v.extend(tmp);
    }
    if n == "decimal" {
        if r.chance(1, 3) {
            v.push(("totalDigits".into(), r.range(1, 8).to_string()));
        }
        if r.chance(1, 3) {
            v.push(("fractionDigits".into(), r.below(5).to_string()));
        }
        // fractionDigits must not exceed totalDigits
        let get = |v: &[(String, String)], k: &str| v.iter().find(|p| p.0 == k).map(|p| p.1.parse::<usize>().unwrap());
        if let (Some(t), Some(f)) = (get(&v, "totalDigits"), get(&v, "fractionDigits")) {
            if f > t {
                v.retain(|p| p.0 != "fractionDigits");
            }
        }
    }
    if has_pattern_facet(n) {
        let k = match r.below(8) {
            0 | 1 => 1,
            2 => 2,
            _ => 0,
        };
        for _ in 0..k {
            v.push(("pattern".into(), gen_regex(r)));
        }
    }
    v
}
