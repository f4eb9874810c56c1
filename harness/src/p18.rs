//! A schema is read-only or write-only as asked, never both.
use crate::{ast::*, dress, gen::*, place::*, sym::{any_bool, any_i64, text, assume, check, cover, flag, param, pick}};

fn kind(k: usize) -> Kind {
    match k {
        0 => Kind::Bool,
        1 => Kind::Null,
        2 => Kind::Num { lo: None, hi: None, mult: Some(2.0) },
        3 => Kind::Int { lo: Some((true, any_i64())), hi: None, mult: None },
        4 => Kind::Str { lo: None, hi: Some(3), pattern: None, encoding: None, media: None },
        5 => Kind::List { item: Some(Box::new(sch(Kind::Bool))), lo: Some(1), hi: None },
        6 => Kind::Tuple(vec![sch(Kind::Null), sch(Kind::Bool)]),
        7 => Kind::Obj(vec![("a".into(), true, sch(Kind::Bool))]),
        8 => Kind::Enum(vec![any_value(1), any_value(2), any_value(0)]),
        9 => Kind::Const(any_value(pick(8))),
        _ => Kind::OneOf(vec![sch(Kind::Bool), sch(Kind::Null)]),
    }
}
/// The modes of a schema and of everything in it are as asked.
fn modes(got: &DS, want: &Sch) {
    let constant = matches!(want.kind, Kind::Const(_));
    check(got.read_only == (want.mode == 1 || constant), "a schema is read-only exactly if asked to be or a constant");
    check(got.write_only == (want.mode == 2), "a schema is write-only exactly if asked to be");
    check(!(got.read_only & got.write_only), "a schema is never both");
    match (&want.kind, &got.subtype) {
        (Kind::List { item: Some(i), .. }, Some(Sub::Array(a))) => match &a.items {
            Some(wot_td::thing::BoxedElemOrVec::Elem(x)) => modes(x, i),
            _ => check(false, "the item is there"),
        },
        (Kind::Tuple(v), Some(Sub::Array(a))) => match &a.items {
            Some(wot_td::thing::BoxedElemOrVec::Vec(x)) => v.iter().zip(x).for_each(|(w, g)| modes(g, w)),
            _ => check(false, "the items are there"),
        },
        (Kind::Obj(v), Some(Sub::Object(o))) => v.iter().for_each(|(n, _, w)| match o.properties.as_ref().and_then(|p| p.get(n)) {
            Some(g) => modes(g, w),
            None => check(false, "the property is there"),
        }),
        (Kind::OneOf(v), _) => match &got.one_of {
            Some(x) => v.iter().zip(x).for_each(|(w, g)| modes(g, w)),
            None => check(false, "the alternatives are there"),
        },
        _ => (),
    }
}
fn mode(s: &mut Sch) {
    if !matches!(s.kind, Kind::Const(_) | Kind::OneOf(_)) {
        s.mode = pick(3) as u8;
    }
}
fn verdict(p: usize, second: usize, s: Sch) {
    assume(fits(p, &s) || p == 0);
    let t = place(p, second, s.clone());
    let r = match build(&t) {
        Ok(r) => r,
        Err(_) => return check(false, "the Thing is built"),
    };
    let aff = |u: &Option<std::collections::HashMap<String, DS>>| u.as_ref().unwrap()["u"].clone();
    let d = match p {
        0 => r.properties.as_ref().unwrap()["p"].data_schema.clone(),
        1 => r.actions.as_ref().unwrap()["p"].input.clone().unwrap(),
        2 => r.actions.as_ref().unwrap()["p"].output.clone().unwrap(),
        3 => r.events.as_ref().unwrap()["p"].subscription.clone().unwrap(),
        4 => r.events.as_ref().unwrap()["p"].data.clone().unwrap(),
        5 => r.events.as_ref().unwrap()["p"].data_response.clone().unwrap(),
        6 => r.events.as_ref().unwrap()["p"].cancellation.clone().unwrap(),
        7 => aff(&r.uri_variables),
        8 => aff(&r.properties.as_ref().unwrap()["p"].interaction.uri_variables),
        9 => aff(&r.actions.as_ref().unwrap()["p"].interaction.uri_variables),
        10 => aff(&r.events.as_ref().unwrap()["p"].interaction.uri_variables),
        _ => r.schema_definitions.as_ref().unwrap()["d"].clone(),
    };
    modes(&d, &s);
    cover("built");
}
/// Every kind at every place, the other calls before and after.
#[no_mangle]
pub extern "C" fn p18_modes() {
    let mut s = sch(kind(pick(11)));
    mode(&mut s);
    s.order = pick(3) as u8;
    if flag() {
        s.default = Some(any_value(3));
        s.unit = Some(text());
        s.info.title = Some(text());
        s.info.attype = vec![text()];
    }
    verdict(param(0), pick(3), s);
}
/// Nested: the outer and the inner schema have modes of their own.
#[no_mangle]
pub extern "C" fn p18_nested() {
    let mut s = sch(kind(pick(11)));
    mode(&mut s);
    s.order = if flag() { 2 } else { 0 };
    let mut o = nest(if param(1) == 1 { nest_of_two() } else { 1 + pick(NESTS - 1) }, s);
    mode(&mut o);
    o.order = if flag() { 2 } else { 0 };
    if param(1) == 1 {
        o = nest(nest_of_two(), o);
        mode(&mut o);
    }
    verdict(param(0), 0, o);
}
/// Built on its own.
#[no_mangle]
pub extern "C" fn p18_alone() {
    let mut s = sch(kind(pick(11)));
    mode(&mut s);
    s.order = pick(3) as u8;
    let mut o = nest(pick(NESTS), s);
    mode(&mut o);
    match standalone(&o) {
        Some(d) => modes(&d, &o),
        None => check(false, "the schema is built"),
    }
    cover("built");
}
/// In Things that have other parts and members (what dressing does to modes included).
#[no_mangle]
pub extern "C" fn p18_dressed() {
    let mut s = sch(kind(pick(11)));
    mode(&mut s);
    let p = param(0);
    assume(fits(p, &s) || p == 0);
    let mut t = place(p, 0, s);
    dress::surround(&mut t);
    let r = match build(&t) {
        Ok(r) => r,
        Err(_) => return check(false, "the Thing is built"),
    };
    modes(at(&r, p), wanted(&t, p));
    cover("built");
}
fn at(r: &wot_td::thing::Thing<wot_td::hlist::Nil>, p: usize) -> &DS {
    let aff = |u: &'_ Option<std::collections::HashMap<String, DS>>| -> *const DS { &u.as_ref().unwrap()["u"] };
    match p {
        0 => &r.properties.as_ref().unwrap()["p"].data_schema,
        1 => r.actions.as_ref().unwrap()["p"].input.as_ref().unwrap(),
        2 => r.actions.as_ref().unwrap()["p"].output.as_ref().unwrap(),
        3 => r.events.as_ref().unwrap()["p"].subscription.as_ref().unwrap(),
        4 => r.events.as_ref().unwrap()["p"].data.as_ref().unwrap(),
        5 => r.events.as_ref().unwrap()["p"].data_response.as_ref().unwrap(),
        6 => r.events.as_ref().unwrap()["p"].cancellation.as_ref().unwrap(),
        7 => unsafe { &*aff(&r.uri_variables) },
        8 => unsafe { &*aff(&r.properties.as_ref().unwrap()["p"].interaction.uri_variables) },
        9 => unsafe { &*aff(&r.actions.as_ref().unwrap()["p"].interaction.uri_variables) },
        10 => unsafe { &*aff(&r.events.as_ref().unwrap()["p"].interaction.uri_variables) },
        _ => &r.schema_definitions.as_ref().unwrap()["d"],
    }
}
fn wanted(t: &Th, p: usize) -> &Sch {
    fn named<'a, T>(v: &'a [(String, T)], n: &str) -> &'a T {
        &v.iter().find(|x| x.0 == n).unwrap().1
    }
    match p {
        0 => &named(&t.properties, "p").sch,
        1 => named(&t.actions, "p").input.as_ref().unwrap(),
        2 => named(&t.actions, "p").output.as_ref().unwrap(),
        3 => named(&t.events, "p").subscription.as_ref().unwrap(),
        4 => named(&t.events, "p").data.as_ref().unwrap(),
        5 => named(&t.events, "p").data_response.as_ref().unwrap(),
        6 => named(&t.events, "p").cancellation.as_ref().unwrap(),
        7 => named(&t.uri, "u"),
        8 => named(&named(&t.properties, "p").uri, "u"),
        9 => named(&named(&t.actions, "p").aff.uri, "u"),
        10 => named(&named(&t.events, "p").aff.uri, "u"),
        _ => named(&t.defs, "d"),
    }
}
