//! A small regular expression AST with its own (backtracking-free, set based) matcher; the printed form means the
//! same in the XML Schema and the Rust dialects.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Re {
    Lit(char),
    /// ranges, negated
    Class(Vec<(char, char)>, bool),
    Digit,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// min, max
    Rep(Box<Re>, usize, Option<usize>),
}

fn esc(c: char, s: &mut String) {
    if "\\|.?*+(){}[]-^$".contains(c) {
        s.push('\\');
    }
    s.push(c);
}

impl Re {
    pub fn print(&self, s: &mut String) {
        match self {
            Re::Lit(c) => {
                if *c == '^' || *c == '$' {
                    panic!("not portable")
                }
                esc(*c, s)
            }
            Re::Class(v, neg) => {
                s.push('[');
                if *neg {
                    s.push('^');
                }
                for (a, b) in v {
                    esc(*a, s);
                    if a != b {
                        s.push('-');
                        esc(*b, s);
                    }
                }
                s.push(']');
            }
            Re::Digit => s.push_str("[0-9]"),
            Re::Cat(v) => v.iter().for_each(|r| {
                if let Re::Alt(_) = r {
                    s.push('(');
                    r.print(s);
                    s.push(')');
                } else {
                    r.print(s)
                }
            }),
            Re::Alt(v) => {
                for (i, r) in v.iter().enumerate() {
                    if i > 0 {
                        s.push('|');
                    }
                    r.print(s)
                }
            }
            Re::Rep(r, min, max) => {
                let atom = matches!(**r, Re::Lit(_) | Re::Class(..) | Re::Digit);
                if !atom {
                    s.push('(');
                }
                r.print(s);
                if !atom {
                    s.push(')');
                }
                match (min, max) {
                    (0, None) => s.push('*'),
                    (1, None) => s.push('+'),
                    (0, Some(1)) => s.push('?'),
                    (a, None) => s.push_str(&format!("{{{a},}}")),
                    (a, Some(b)) if a == b => s.push_str(&format!("{{{a}}}")),
                    (a, Some(b)) => s.push_str(&format!("{{{a},{b}}}")),
                }
            }
        }
    }

    /// All the positions that a match starting at one of `from` may end at
    fn ends(&self, text: &[char], from: &[bool]) -> Vec<bool> {
        let n = text.len() + 1;
        let single = |f: &dyn Fn(char) -> bool| {
            let mut out = vec![false; n];
            for i in 0..text.len() {
                if from[i] && f(text[i]) {
                    out[i + 1] = true;
                }
            }
            out
        };
        match self {
            Re::Lit(c) => single(&|x| x == *c),
            Re::Class(v, neg) => single(&|x| v.iter().any(|(a, b)| *a <= x && x <= *b) != *neg),
            Re::Digit => single(&|x| x.is_ascii_digit()),
            Re::Cat(v) => {
                let mut cur = from.to_vec();
                for r in v {
                    cur = r.ends(text, &cur);
                }
                cur
            }
            Re::Alt(v) => {
                let mut out = vec![false; n];
                for r in v {
                    for (o, e) in out.iter_mut().zip(r.ends(text, from)) {
                        *o |= e;
                    }
                }
                out
            }
            Re::Rep(r, min, max) => {
                let mut cur = from.to_vec();
                for _ in 0..*min {
                    cur = r.ends(text, &cur);
                }
                let mut out = cur.clone();
                let mut left = max.map(|m| m - min);
                loop {
                    if left == Some(0) {
                        break;
                    }
                    left = left.map(|l| l - 1);
                    cur = r.ends(text, &cur);
                    let mut grew = false;
                    for (o, e) in out.iter_mut().zip(&cur) {
                        if *e && !*o {
                            *o = true;
                            grew = true;
                        }
                    }
                    if !grew {
                        break;
                    }
                }
                out
            }
        }
    }

    pub fn matches(&self, s: &str) -> bool {
        let text: Vec<char> = s.chars().collect();
        let mut from = vec![false; text.len() + 1];
        from[0] = true;
        self.ends(&text, &from)[text.len()]
    }

    /// A string that matches
    pub fn sample(&self, r: &mut Rng, out: &mut String) {
        match self {
            Re::Lit(c) => out.push(*c),
            Re::Class(v, false) => {
                let (a, b) = *r.pick(v);
                let n = b as usize - a as usize;
                out.push(char::from_u32(a as u32 + r.below(n + 1) as u32).unwrap_or(a))
            }
            Re::Class(v, true) => {
                for c in "xyzXYZ789_é".chars() {
                    if !v.iter().any(|(a, b)| *a <= c && c <= *b) && r.chance(1, 3) {
                        out.push(c);
                        return;
                    }
                }
                out.push('~')
            }
            Re::Digit => out.push((b'0' + r.below(10) as u8) as char),
            Re::Cat(v) => v.iter().for_each(|x| x.sample(r, out)),
            Re::Alt(v) => r.pick(v).sample(r, out),
            Re::Rep(x, min, max) => {
                let hi = max.unwrap_or(min + 3).min(min + 3);
                for _ in 0..r.range(*min, hi) {
                    x.sample(r, out)
                }
            }
        }
    }

    /// Many repetitions or alternatives
    pub fn large(r: &mut Rng) -> Re {
        let n = crate::scale::size(r, 200);
        let k = n + *r.pick(&[0, 0, 1, 7]);
        let unit = match r.below(4) {
            0 => Re::Digit,
            1 => Re::Lit(*r.pick(&['a', 'b', '1', 'é'])),
            2 => Re::Class(vec![('a', 'c'), ('0', '4')], false),
            _ => Re::Cat(vec![Re::Lit('a'), Re::Digit]),
        };
        match r.below(4) {
            0 => Re::Rep(Box::new(unit), n, Some(k)),
            1 => Re::Cat(vec![Re::Rep(Box::new(unit), n, None), Re::Lit('z')]),
            2 => Re::Alt((0..n).map(|i| Re::Cat(format!("a{i}").chars().map(Re::Lit).collect())).collect()),
            _ => Re::Cat((0..n).map(|i| Re::Lit((b'a' + (i % 26) as u8) as char)).collect()),
        }
    }

    pub fn gen(r: &mut Rng, depth: usize) -> Re {
        const CH: &[char] = &['a', 'b', 'c', 'x', '0', '1', '9', '-', '.', '_', ' ', 'é', '+', ':', '?'];
        match if depth == 0 { r.below(3) } else { r.below(7) } {
            0 => Re::Lit(*r.pick(CH)),
            1 => {
                let v = [('a', 'c'), ('0', '4'), ('A', 'Z'), ('x', 'x'), ('.', '.'), ('-', '-')];
                let n = r.range(1, 2);
                Re::Class((0..n).map(|_| *r.pick(&v)).collect(), r.chance(1, 4))
            }
            2 => Re::Digit,
            3 | 4 => {
                let n = r.range(2, 3);
                Re::Cat((0..n).map(|_| Re::gen(r, depth - 1)).collect())
            }
            5 => {
                let n = r.range(2, 3);
                Re::Alt((0..n).map(|_| Re::gen(r, depth - 1)).collect())
            }
            _ => {
                let (a, b) = *r.pick(&[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(3)), (2, None)]);
                Re::Rep(Box::new(Re::gen(r, depth - 1)), a, b)
            }
        }
    }
}

/// Parse what print() produces (so that a schema's textual parameters suffice as the reference's input)
pub fn parse(s: &str) -> Option<Re> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let r = alt(&c, &mut i)?;
    (i == c.len()).then_some(r)
}
fn alt(c: &[char], i: &mut usize) -> Option<Re> {
    let mut v = vec![cat(c, i)?];
    while c.get(*i) == Some(&'|') {
        *i += 1;
        v.push(cat(c, i)?);
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
}
fn cat(c: &[char], i: &mut usize) -> Option<Re> {
    let mut v = vec![];
    while *i < c.len() && c[*i] != '|' && c[*i] != ')' {
        let mut a = atom(c, i)?;
        loop {
            let (min, max) = match c.get(*i) {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    let close = (*i..c.len()).find(|k| c[*k] == '}')?;
                    let s: String = c[*i + 1..close].iter().collect();
                    *i = close;
                    match s.split_once(',') {
                        None => (s.parse().ok()?, Some(s.parse().ok()?)),
                        Some((a, "")) => (a.parse().ok()?, None),
                        Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
                    }
                }
                _ => break,
            };
            *i += 1;
            a = Re::Rep(Box::new(a), min, max);
        }
        v.push(a);
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Cat(v) })
}
fn chr(c: &[char], i: &mut usize) -> Option<char> {
    let mut x = *c.get(*i)?;
    *i += 1;
    if x == '\\' {
        x = *c.get(*i)?;
        *i += 1;
    }
    Some(x)
}
fn atom(c: &[char], i: &mut usize) -> Option<Re> {
    match c[*i] {
        '(' => {
            *i += 1;
            let r = alt(c, i)?;
            if c.get(*i) != Some(&')') {
                return None;
            }
            *i += 1;
            Some(r)
        }
        '[' => {
            *i += 1;
            let neg = c.get(*i) == Some(&'^');
            if neg {
                *i += 1;
            }
            let mut v = vec![];
            while *c.get(*i)? != ']' {
                let a = chr(c, i)?;
                if c.get(*i) == Some(&'-') && c.get(*i + 1) != Some(&']') {
                    *i += 1;
                    v.push((a, chr(c, i)?));
                } else {
                    v.push((a, a));
                }
            }
            *i += 1;
            Some(Re::Class(v, neg))
        }
        _ => Some(Re::Lit(chr(c, i)?)),
    }
}
