//! Every place a schema can stand at, and every way it can be nested in another.
#![allow(dead_code)]
use crate::{ast::*, sym::pick};

pub fn good() -> Sch {
    sch(Kind::Int { lo: Some((false, 1)), hi: Some((false, 1)), mult: None })
}
pub const NESTS: usize = 14;
/// Those of two levels and more: first and last of two of each kind.
pub fn nest_of_two() -> usize {
    [1, 3, 5, 7, 8, 9, 10][pick(7)]
}
/// A schema that holds the given one; `None`: the schema itself.
pub fn nest(k: usize, s: Sch) -> Sch {
    let kind = match k {
        0 => return s,
        1 => Kind::List { item: Some(Box::new(s)), lo: None, hi: None },
        2 => Kind::Tuple(vec![s]),
        3 => Kind::Tuple(vec![good(), s]),
        4 => Kind::Obj(vec![("a".into(), true, s)]),
        5 => Kind::Obj(vec![("a".into(), false, good()), ("b".into(), false, s)]),
        6 => Kind::OneOf(vec![s]),
        7 => Kind::OneOf(vec![good(), s]),
        8 => Kind::Tuple(vec![s, good()]),
        9 => Kind::Obj(vec![("a".into(), true, s), ("b".into(), true, good())]),
        10 => Kind::OneOf(vec![s, good()]),
        11 => Kind::Tuple(vec![good(), s, good()]),
        12 => Kind::OneOf(vec![good(), s, good()]),
        _ => Kind::Obj(vec![("b".into(), true, good()), ("a".into(), false, s), ("c".into(), false, good())]),
    };
    sch(kind)
}
pub const PLACES: usize = 12;
fn uri(p: usize, s: Sch) -> Vec<(String, Sch)> {
    match p {
        0 => vec![("u".into(), s)],
        1 => vec![("t".into(), good()), ("u".into(), s)],
        _ => vec![("u".into(), s), ("v".into(), good())],
    }
}
/// A Thing with the schema at the chosen place, and schemas without fault at others; `n`: the
/// place is in the only affordance of its kind, variable or definition, after another, or before
/// another.
pub fn place(p: usize, n: usize, s: Sch) -> Th {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let second = n != 0;
    if n == 1 {
        others(&mut t);
    }
    let aff = |s| Aff { uri: uri(n, s), ..Default::default() };
    match p {
        0 => t.properties.push(("p".into(), prop(s))),
        1 => t.actions.push(("p".into(), Act { input: Some(s), output: some_if(second, good), ..Default::default() })),
        2 => t.actions.push(("p".into(), Act { output: Some(s), input: some_if(second, good), ..Default::default() })),
        3 => t.events.push(("p".into(), Ev { subscription: Some(s), data: some_if(second, good), ..Default::default() })),
        4 => t.events.push(("p".into(), Ev { data: Some(s), subscription: some_if(second, good), ..Default::default() })),
        5 => t.events.push(("p".into(), Ev { data_response: Some(s), data: some_if(second, good), ..Default::default() })),
        6 => t.events.push(("p".into(), Ev { cancellation: Some(s), data_response: some_if(second, good), ..Default::default() })),
        7 => t.uri = uri(n, s),
        8 => t.properties.push(("p".into(), Prop { uri: uri(n, s), ..prop(good()) })),
        9 => t.actions.push(("p".into(), Act { aff: aff(s), ..Default::default() })),
        10 => t.events.push(("p".into(), Ev { aff: aff(s), ..Default::default() })),
        _ => t.defs.push(("d".into(), s)),
    }
    if n == 2 {
        others(&mut t);
    }
    t
}
fn others(t: &mut Th) {
    t.properties.push(("p0".into(), prop(good())));
    t.actions.push(("a0".into(), Act { input: Some(good()), ..Default::default() }));
    t.events.push(("e0".into(), Ev { data: Some(good()), ..Default::default() }));
    t.defs.push(("d0".into(), good()));
}
fn some_if<T>(c: bool, f: impl FnOnce() -> T) -> Option<T> {
    if c {
        Some(f())
    } else {
        None
    }
}
/// Whether a schema can stand at a place: URI variables are not arrays or objects.
/// The builder of a property takes no limits for texts.
pub fn fits(p: usize, s: &Sch) -> bool {
    if p == 0 && matches!(s.kind, Kind::Str { .. }) {
        return false;
    }
    !(7..=10).contains(&p) || !matches!(s.kind, Kind::List { .. } | Kind::Tuple(_) | Kind::Obj(_))
}
