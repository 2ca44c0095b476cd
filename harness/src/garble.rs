//! Schemas that can be parsed, but are wrong in some other way (most of the time)
use crate::ast::*;
use crate::dt;
use crate::rng::Rng;

fn each(items: &mut [Item], f: &mut dyn FnMut(&mut Pat)) {
    for i in items {
        match i {
            Item::Start(_, p) | Item::Def(_, _, p) => p.visit_mut(&mut |q| {
                f(q);
                if let Pat::Grammar(g) = q {
                    each(&mut g.items, f)
                }
            }),
            Item::Div(v) | Item::Include(_, v) => each(v, f),
        }
    }
}

fn collect(top: &mut Top) -> Vec<Pat> {
    let mut out = vec![];
    walk(top, &mut |p| {
        if p.size() < 40 {
            out.push(p.clone())
        }
    });
    out
}

pub fn walk(top: &mut Top, f: &mut dyn FnMut(&mut Pat)) {
    match top {
        Top::Pat(p) => p.visit_mut(&mut |q| {
            f(q);
            if let Pat::Grammar(g) = q {
                each(&mut g.items, f)
            }
        }),
        Top::Gram(g) => each(&mut g.items, f),
    }
}

fn random(r: &mut Rng, all: &[Pat]) -> Pat {
    let sub = |r: &mut Rng| Box::new(r.pick(all).clone());
    let name = |r: &mut Rng| match r.below(5) {
        0 => NC::AnyName(Some(Box::new(NC::AnyName(None)))),
        1 => NC::NsName("u".into(), Some(Box::new(NC::Choice(vec![NC::Name("u".into(), "a".into()), NC::AnyName(None)])))),
        2 => NC::AnyName(None),
        3 => NC::NsName("http://www.w3.org/2000/xmlns".into(), None),
        _ => NC::Name("".into(), "xmlns".into()),
    };
    let ty = |r: &mut Rng| match r.below(4) {
        0 => DT::builtin(*r.pick(&["string", "token", "nothing"])),
        1 => DT::xsd(*r.pick(&["ENTITY", "IDREFS", "duration", "float", "nothing", "anySimpleType", "Integer"])),
        _ => dt::gen_type(r),
    };
    match r.below(22) {
        0 => Pat::Ref(r.pick(&["d0", "d1", "missing", "start", "element"]).to_string()),
        1 => Pat::Parent(r.pick(&["d0", "d1", "missing"]).to_string()),
        2 => Pat::External(r.pick(&["missing.rnc", "s.rnc", "s.rng", "", "é"]).to_string()),
        3 => Pat::Grammar(Gram { items: vec![] }),
        4 => Pat::Grammar(Gram { items: vec![Item::Start(Assign::Choice, *sub(r)), Item::Start(*r.pick(&[Assign::Choice, Assign::Inter, Assign::Eq]), *sub(r))] }),
        5 => {
            let t = ty(r);
            let ps = (0..r.below(4)).map(|_| (r.pick(&["pattern", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "length", "minLength", "maxLength", "totalDigits", "fractionDigits", "whiteSpace", "enumeration", "foo"]).to_string(), r.pick(&["0", "1", "-1", "5", "x", "", "1.5", "99999999999999999999999999", "4294967296", "[", "a*", "NaN", "INF", "2020-01-01", " 3 ", "+7", "\\i\\c*", "collapse", "é"]).to_string())).collect();
            let e = if r.chance(1, 4) { Some(sub(r)) } else { None };
            Pat::Data(t, ps, e)
        }
        6 => Pat::Value(ty(r), r.pick(&["", "1", "x", "true", " 5", "NaN", "2020-02-30", "é", "\t"]).to_string()),
        7 => Pat::Attr(name(r), sub(r)),
        8 => Pat::Elem(name(r), sub(r)),
        9 => Pat::List(sub(r)),
        10 => Pat::Choice(vec![*sub(r), *sub(r)]),
        11 => Pat::Group(vec![*sub(r), *sub(r), *sub(r)]),
        12 => Pat::Inter(vec![*sub(r), *sub(r)]),
        13 => Pat::Mixed(sub(r)),
        14 => Pat::Star(sub(r)),
        15 => Pat::Plus(sub(r)),
        16 => Pat::Opt(sub(r)),
        17 => Pat::Empty,
        18 => Pat::NotAllowed,
        19 => Pat::Text,
        _ => *sub(r),
    }
}

/// Replace some of the patterns
pub fn garble(top: &mut Top, r: &mut Rng) {
    for _ in 0..*r.pick(&[1, 1, 2, 4]) {
        let all = collect(top);
        if all.is_empty() {
            return;
        }
        let mut n = 0;
        walk(top, &mut |_| n += 1);
        let k = r.below(n);
        let new = random(r, &all);
        let mut i = 0;
        let mut new = Some(new);
        walk(top, &mut |p| {
            if i == k {
                if let Some(q) = new.take() {
                    *p = q
                }
            }
            i += 1;
        });
    }
    if let Top::Gram(g) = top {
        if r.chance(1, 4) {
            garble_items(&mut g.items, r)
        }
    }
}

fn garble_items(items: &mut Vec<Item>, r: &mut Rng) {
    if items.is_empty() {
        return;
    }
    let k = r.below(items.len());
    match r.below(6) {
        0 => {
            items.remove(k);
        }
        1 => {
            let i = items[k].clone();
            items.push(i);
        }
        2 => {
            if let Item::Start(a, _) | Item::Def(_, a, _) = &mut items[k] {
                *a = *r.pick(&[Assign::Eq, Assign::Choice, Assign::Inter])
            }
        }
        3 => {
            let v = items.drain(k..).collect();
            items.push(Item::Div(v));
        }
        4 => {
            if let Item::Include(_, v) = &mut items[k] {
                v.push(Item::Def("nothing".into(), Assign::Eq, Pat::Text))
            }
        }
        _ => {
            if let Item::Def(n, ..) = &mut items[k] {
                *n = r.pick(&["start", "d0", "d1", "other"]).to_string()
            }
        }
    }
}
