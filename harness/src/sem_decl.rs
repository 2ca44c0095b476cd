//! The declarative semantics of section 6 of the RELAX NG specification, by exhaustive splitting of attribute sets and
//! child sequences (represented as bit masks).  Only for small elements, and with a limit on the effort.
use crate::doc::*;
use crate::dt;
use crate::ir::*;
use std::collections::HashMap;

pub struct Decl<'a> {
    ir: &'a Ir,
    fuel: usize,
    elem_memo: HashMap<(*const Elem, Id), bool>,
}

/// Out of fuel, too big, or depends on something that the reference does not decide
pub struct Unknown;
type R = Result<bool, Unknown>;

struct Kids<'d> {
    atts: &'d [Att],
    nodes: Vec<Kid<'d>>,
    /// the items of a list, where no item at all is not the same as an empty string
    list: bool,
}
enum Kid<'d> {
    E(&'d Elem),
    T(&'d str),
}
type Memo = HashMap<(Id, u32, u32), bool>;

pub fn matches(ir: &Ir, doc: &Elem, fuel: usize) -> Result<bool, Unknown> {
    let mut d = Decl { ir, fuel, elem_memo: HashMap::new() };
    let kids = Kids { atts: &[], nodes: vec![Kid::E(doc)], list: false };
    d.m(ir.start, &kids, 0, 1, &mut Memo::new())
}

impl<'a> Decl<'a> {
    fn m(&mut self, id: Id, k: &Kids, am: u32, cm: u32, memo: &mut Memo) -> R {
        let (id, n) = self.ir.get(id);
        if let Some(r) = memo.get(&(id, am, cm)) {
            return Ok(*r);
        }
        if self.fuel == 0 {
            return Err(Unknown);
        }
        self.fuel -= 1;
        let r = match n {
            N::Empty => am == 0 && cm == 0,
            N::NotAllowed => false,
            N::Text => am == 0 && bits(cm).all(|i| matches!(k.nodes[i], Kid::T(_))),
            N::Choice(v) => {
                let mut any = false;
                for p in v {
                    if self.m(*p, k, am, cm, memo)? {
                        any = true;
                        break;
                    }
                }
                any
            }
            N::Group(v) => self.seq(id, v, 0, k, am, cm, memo, false)?,
            N::Inter(v) => self.seq(id, v, 0, k, am, cm, memo, true)?,
            N::Plus(p) => {
                let p = *p;
                if self.m(p, k, am, cm, memo)? {
                    true
                } else {
                    // a first match of something (not everything), and then more
                    let mut found = false;
                    let total = cm.count_ones();
                    'o: for cut in 0..=total {
                        let first = low_bits(cm, cut);
                        for a in submasks(am) {
                            if (first == 0 && a == 0) || (first == cm && a == am) {
                                continue;
                            }
                            if self.fuel == 0 {
                                return Err(Unknown);
                            }
                            self.fuel -= 1;
                            if self.m(p, k, a, first, memo)? && self.m(id, k, am & !a, cm & !first, memo)? {
                                found = true;
                                break 'o;
                            }
                        }
                    }
                    found
                }
            }
            N::Elem(nc, b) => {
                let mut r = false;
                if am == 0 && cm.count_ones() == 1 {
                    if let Kid::E(e) = k.nodes[cm.trailing_zeros() as usize] {
                        r = nc.contains(&e.ns, &e.local) && self.element(e, *b)?;
                    }
                }
                r
            }
            N::Attr(nc, b) => {
                let mut r = false;
                if cm == 0 && am.count_ones() == 1 {
                    let a = &k.atts[am.trailing_zeros() as usize];
                    r = nc.contains(&a.ns, &a.local) && self.value(&a.value, *b)?;
                }
                r
            }
            N::List(_) | N::Data(..) | N::Value(_) => {
                if am != 0 || cm.count_ones() > 1 || (k.list && cm == 0) {
                    false
                } else {
                    let s = if cm == 0 {
                        Some("")
                    } else {
                        match k.nodes[cm.trailing_zeros() as usize] {
                            Kid::T(s) => Some(s),
                            _ => None,
                        }
                    };
                    match s {
                        None => false,
                        Some(s) => self.string(id, s)?,
                    }
                }
            }
            N::Alias(_) => unreachable!(),
        };
        memo.insert((id, am, cm), r);
        Ok(r)
    }

    #[allow(clippy::too_many_arguments)]
    fn seq(&mut self, id: Id, v: &[Id], from: usize, k: &Kids, am: u32, cm: u32, memo: &mut Memo, inter: bool) -> R {
        if from + 1 == v.len() {
            return self.m(v[from], k, am, cm, memo);
        }
        // (node ids of suffixes do not exist, so those are remembered under made-up ones)
        let key = (usize::MAX - (id * 64 + from), am, cm);
        if let Some(r) = memo.get(&key) {
            return Ok(*r);
        }
        let mut found = false;
        let mut cuts: Vec<u32> = vec![];
        if inter {
            cuts.extend(submasks(cm));
        } else {
            for cut in 0..=cm.count_ones() {
                cuts.push(low_bits(cm, cut));
            }
        }
        'o: for first in cuts {
            for a in submasks(am) {
                if self.fuel == 0 {
                    return Err(Unknown);
                }
                self.fuel -= 1;
                if self.m(v[from], k, a, first, memo)?
                    && self.seq(id, v, from + 1, k, am & !a, cm & !first, memo, inter)?
                {
                    found = true;
                    break 'o;
                }
            }
        }
        memo.insert(key, found);
        Ok(found)
    }

    fn element(&mut self, e: &Elem, body: Id) -> R {
        let key = (e as *const Elem, self.ir.get(body).0);
        if let Some(r) = self.elem_memo.get(&key) {
            return Ok(*r);
        }
        if e.atts.len() > 8 || e.children.len() > 14 {
            return Err(Unknown);
        }
        let am = (1u32 << e.atts.len()) - 1;
        let has_elems = e.children.iter().any(|c| matches!(c, Node::Elem(_)));
        let kids = |strip: bool| Kids {
            atts: &e.atts,
            list: false,
            nodes: e
                .children
                .iter()
                .filter_map(|c| match c {
                    Node::Elem(e) => Some(Kid::E(e)),
                    Node::Text(t) if strip && dt::all_ws(t) => None,
                    Node::Text(t) => Some(Kid::T(t)),
                })
                .collect(),
        };
        let k = kids(has_elems);
        let cm = (1u32 << k.nodes.len()) - 1;
        let mut r = self.m(body, &k, am, cm, &mut Memo::new())?;
        if !r && !has_elems {
            // what has no content at all, not even an empty string
            let k2 = Kids { list: true, ..kids(true) };
            if k2.nodes.len() != k.nodes.len() {
                r = self.m(body, &k2, am, 0, &mut Memo::new())?;
            }
        }
        self.elem_memo.insert(key, r);
        Ok(r)
    }

    /// An attribute's value
    fn value(&mut self, s: &str, body: Id) -> R {
        let k = Kids { list: false, atts: &[], nodes: if s.is_empty() { vec![] } else { vec![Kid::T(s)] } };
        let cm = (1u32 << k.nodes.len()) - 1;
        if self.m(body, &k, 0, cm, &mut Memo::new())? {
            return Ok(true);
        }
        let k = Kids { list: true, ..k };
        Ok(dt::all_ws(s) && cm != 0 && self.m(body, &k, 0, 0, &mut Memo::new())?)
    }

    fn string(&mut self, id: Id, s: &str) -> R {
        match self.ir.get(id).1 {
            N::List(p) => {
                let toks: Vec<&str> = s.split(dt::is_ws).filter(|t| !t.is_empty()).collect();
                if toks.len() > 14 {
                    return Err(Unknown);
                }
                let k = Kids { list: true, atts: &[], nodes: toks.into_iter().map(Kid::T).collect() };
                let cm = (1u32 << k.nodes.len()) - 1;
                self.m(*p, &k, 0, cm, &mut Memo::new())
            }
            N::Data(l, ex) => {
                if !l.allows(s).ok_or(Unknown)? {
                    return Ok(false);
                }
                match ex {
                    None => Ok(true),
                    Some(e) => {
                        let k = Kids { list: false, atts: &[], nodes: if s.is_empty() { vec![] } else { vec![Kid::T(s)] } };
                        let cm = (1u32 << k.nodes.len()) - 1;
                        Ok(!self.m(*e, &k, 0, cm, &mut Memo::new())?)
                    }
                }
            }
            N::Value(v) => v.equals(s).ok_or(Unknown),
            _ => unreachable!(),
        }
    }
}

fn bits(m: u32) -> impl Iterator<Item = usize> {
    (0..32).filter(move |i| m >> i & 1 == 1)
}
/// The n lowest set bits
fn low_bits(m: u32, n: u32) -> u32 {
    let mut out = 0;
    let mut rest = m;
    for _ in 0..n {
        let b = rest & rest.wrapping_neg();
        out |= b;
        rest &= !b;
    }
    out
}
fn submasks(m: u32) -> impl Iterator<Item = u32> {
    let mut next = Some(0u32);
    std::iter::from_fn(move || {
        let cur = next?;
        next = if cur == m { None } else { Some(cur.wrapping_sub(m) & m) };
        Some(cur)
    })
}
