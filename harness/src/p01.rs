//! Unsatisfiable limits are refused wherever they stand; satisfiable ones are not.
use crate::{ast::*, dress::*, gen::*, place::*, sym::*};

fn lim<T>(k: usize, v: impl FnOnce() -> T) -> Lim<T> {
    match k {
        0 => None,
        1 => Some((false, v())),
        _ => Some((true, v())),
    }
}
/// Leaves with symbolic limits.
pub const LEAVES: usize = 8;
fn leaf(k: usize) -> Sch {
    sch(match k {
        0 => Kind::Num { lo: lim(pick(3), any_f64), hi: lim(pick(3), any_f64), mult: None },
        1 => Kind::Num { lo: None, hi: lim(pick(3), any_f64), mult: Some(any_f64()) },
        2 => Kind::Int { lo: lim(pick(3), any_i64), hi: lim(pick(3), any_i64), mult: if flag() { Some(7) } else { None } },
        3 => Kind::Str { lo: some(any_u32), hi: some(any_u32), pattern: None, encoding: None, media: None },
        4 => Kind::List { item: None, lo: some(any_u32), hi: some(any_u32) },
        5 => Kind::List { item: Some(Box::new(sch(Kind::Bool))), lo: Some(any_u32()), hi: Some(any_u32()) },
        // one of each kind that cannot fail
        6 => Kind::Num { lo: Some((false, any_f64())), hi: Some((true, any_f64())), mult: Some(any_f64()) },
        _ => return sch([Kind::Bool, Kind::Null, Kind::Const(serde_json::Value::Null), Kind::Enum(vec![serde_json::Value::Null])][pick(4)].clone()),
    })
}
fn some<T>(f: impl FnOnce() -> T) -> Option<T> {
    if flag() {
        Some(f())
    } else {
        None
    }
}
fn verdict(t: &Th) {
    let faults = all_limit_faults(t);
    judge(
        build(t),
        &faults,
        "a Thing whose limits are all satisfiable is not refused",
        "a Thing with limits no value can satisfy is refused",
        "the error says which limits are at fault",
    );
}
/// Every kind of leaf at every place, nested once.
#[no_mangle]
pub extern "C" fn p01_limits() {
    let p = param(0);
    let mut l = leaf(param(1));
    l.mode = pick(3) as u8;
    let s = nest(pick(NESTS), l);
    assume(fits(p, &s));
    verdict(&place(p, pick(3), s));
}
/// Nested twice and three times, with one leaf of each type.
#[no_mangle]
pub extern "C" fn p01_deep() {
    let p = param(0);
    let k = [Kind::Int { lo: Some((false, any_i64())), hi: Some((flag(), any_i64())), mult: None }, Kind::Num { lo: Some((flag(), any_f64())), hi: Some((false, any_f64())), mult: None }];
    let l = sch(k[pick(2)].clone());
    let mut s = nest(nest_of_two(), nest(nest_of_two(), l));
    if param(1) == 1 {
        s = nest(nest_of_two(), s);
    }
    assume(fits(p, &s));
    verdict(&place(p, 0, s));
}
/// Two leaves at two places at once.
#[no_mangle]
pub extern "C" fn p01_pairs() {
    let a = sch(Kind::Int { lo: Some((false, any_i64())), hi: Some((true, any_i64())), mult: None });
    let b = sch(Kind::Num { lo: Some((false, any_f64())), hi: None, mult: Some(any_f64()) });
    let (p, q) = (param(0), pick(PLACES));
    let mut t = place(p, 0, a);
    let u = place(q, 0, b);
    let rename = |n: String| n + "2";
    t.properties.extend(u.properties.into_iter().map(|(n, x)| (rename(n), x)));
    t.actions.extend(u.actions.into_iter().map(|(n, x)| (rename(n), x)));
    t.events.extend(u.events.into_iter().map(|(n, x)| (rename(n), x)));
    t.uri.extend(u.uri.into_iter().map(|(n, x)| (rename(n), x)));
    t.defs.extend(u.defs.into_iter().map(|(n, x)| (rename(n), x)));
    verdict(&t);
}
/// Nested as deep as asked, two ways of nesting in turn.
#[no_mangle]
pub extern "C" fn p01_chain() {
    let (p, n) = (param(0), param(1));
    let mut s = sch(if flag() {
        Kind::Int { lo: Some((false, any_i64())), hi: Some((true, any_i64())), mult: None }
    } else {
        Kind::Str { lo: Some(any_u32()), hi: Some(any_u32()), pattern: None, encoding: None, media: None }
    });
    let (a, b) = (nest_of_two(), nest_of_two());
    for i in 0..n {
        s = nest(if i % 2 == 0 { a } else { b }, s);
    }
    assume(fits(p, &s));
    verdict(&place(p, 0, s));
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p01_dressed() {
    let p = param(0);
    let l = sch(match pick(5) {
        0 => Kind::Int { lo: Some((false, any_i64())), hi: Some((true, any_i64())), mult: Some(3) },
        1 => Kind::Num { lo: Some((true, any_f64())), hi: Some((false, any_f64())), mult: None },
        2 => Kind::Num { lo: None, hi: None, mult: Some(any_f64()) },
        3 => Kind::Str { lo: Some(any_u32()), hi: Some(any_u32()), pattern: Some("p".into()), encoding: None, media: Some("m".into()) },
        _ => Kind::List { item: None, lo: Some(any_u32()), hi: Some(any_u32()) },
    });
    let s = if param(5) == 0 { nest([0, 9][pick(2)], l) } else { nest([8, 9, 10][pick(3)], l) };
    assume(fits(p, &s));
    let mut t = place(p, 0, s);
    surround(&mut t);
    verdict(&t);
}
