//! URI variables are never arrays or objects.
use crate::{ast::*, dress, gen::*, sym::{any_i64, text, any_u32, check, flag, param, pick}};
use wot_td::builder::Error;

fn kind(k: usize) -> Kind {
    let inner = || sch(Kind::Bool);
    match k {
        0 => Kind::List { item: None, lo: None, hi: None },
        1 => Kind::List { item: Some(Box::new(inner())), lo: Some(0), hi: Some(any_u32()) },
        2 => Kind::Tuple(vec![]),
        3 => Kind::Tuple(vec![inner(), inner()]),
        4 => Kind::Obj(vec![]),
        5 => Kind::Obj(vec![("a".into(), flag(), inner())]),
        6 => Kind::Bool,
        7 => Kind::Null,
        8 => Kind::Num { lo: None, hi: None, mult: None },
        9 => Kind::Int { lo: Some((false, any_i64())), hi: None, mult: None },
        10 => Kind::Str { lo: None, hi: Some(any_u32()), pattern: None, encoding: None, media: None },
        11 => Kind::Const(any_value(pick(6))),
        12 => Kind::Enum(vec![any_value(4), any_value(5)]),
        _ => Kind::OneOf(vec![inner(), sch(Kind::Null)]),
    }
}
fn whole(s: &Sch) -> bool {
    matches!(s.kind, Kind::List { .. } | Kind::Tuple(_) | Kind::Obj(_))
}
fn var(k: usize) -> Sch {
    let mut s = sch(kind(k));
    if k != 11 && k != 13 {
        s.mode = pick(3) as u8;
    }
    s.order = pick(3) as u8;
    s.info.title = if flag() { Some(text()) } else { None };
    s
}
fn put(t: &mut Th, p: usize, v: Vec<(String, Sch)>) {
    let aff = |v| Aff { uri: v, ..Default::default() };
    match p {
        0 => t.uri = v,
        1 => t.properties.push(("p".into(), Prop { uri: v, ..prop(sch(Kind::Bool)) })),
        2 => t.actions.push(("p".into(), Act { aff: aff(v), ..Default::default() })),
        3 => t.events.push(("p".into(), Ev { aff: aff(v), ..Default::default() })),
        4 => {
            t.properties.push(("o".into(), prop(sch(Kind::Tuple(vec![])))));
            put(t, 1, v)
        }
        5 => {
            t.actions.push(("o".into(), Act { input: Some(sch(Kind::Obj(vec![]))), ..Default::default() }));
            put(t, 2, v)
        }
        _ => {
            t.events.push(("o".into(), Ev { data: Some(sch(Kind::Obj(vec![]))), ..Default::default() }));
            put(t, 3, v)
        }
    }
}
fn verdict(t: &Th) {
    let mut f = vec![];
    all_schemas(t, &mut |s, uri| {
        if uri && whole(s) {
            f.push(Error::InvalidUriVariables)
        }
    });
    if let Some(r) = judge(build(t), &f, "a URI variable of another type is not refused", "a URI variable that is an array or object is refused", "the error says so") {
        let w = value(t);
        check(r.uri_variables.same(&w.uri_variables), "URI variables are kept under their names");
        for (n, _) in &t.properties {
            check(r.properties.as_ref().unwrap()[n].interaction.uri_variables.same(&w.properties.as_ref().unwrap()[n].interaction.uri_variables), "URI variables are kept under their names");
        }
        for (n, _) in &t.actions {
            check(r.actions.as_ref().unwrap()[n].interaction.uri_variables.same(&w.actions.as_ref().unwrap()[n].interaction.uri_variables), "URI variables are kept under their names");
        }
        for (n, _) in &t.events {
            check(r.events.as_ref().unwrap()[n].interaction.uri_variables.same(&w.events.as_ref().unwrap()[n].interaction.uri_variables), "URI variables are kept under their names");
        }
    }
}
/// One variable of every kind, made in every way, at every place.
#[no_mangle]
pub extern "C" fn p08_one() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    put(&mut t, param(0), vec![("u".into(), var(pick(14)))]);
    verdict(&t);
}
/// Two variables, and another at another place.
#[no_mangle]
pub extern "C" fn p08_two() {
    let p = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    let k = |i: usize| sch(kind([0, 3, 5, 6, 12, 13][i]));
    put(&mut t, p, vec![("u".into(), k(pick(6))), ("v".into(), k(pick(6)))]);
    let q = [1, 2, 3, 0, 3, 1, 2][p];
    let c = pick(3);
    put(&mut t, q, if c == 2 { vec![] } else { vec![("u".into(), k([2, 3][c]))] });
    verdict(&t);
}
/// A schema that is a whole anywhere but as a URI variable is fine.
#[no_mangle]
pub extern "C" fn p08_elsewhere() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let w = || Some(sch([Kind::Tuple(vec![]), Kind::Obj(vec![])][pick(2)].clone()));
    t.properties.push(("p".into(), Prop { uri: vec![("u".into(), sch(Kind::Bool))], ..prop(w().unwrap()) }));
    t.actions.push(("p".into(), Act { aff: Aff { uri: vec![("u".into(), sch(Kind::Null))], ..Default::default() }, input: w(), output: w(), ..Default::default() }));
    t.events.push(("p".into(), Ev { aff: Aff::default(), data: w(), subscription: w(), cancellation: w(), data_response: w() }));
    t.defs.push(("u".into(), w().unwrap()));
    t.uri.push(("w".into(), sch(Kind::Bool)));
    verdict(&t);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p08_dressed() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    put(&mut t, param(0), vec![("u".into(), sch(kind([0, 3, 4, 5, 9, 13][pick(6)])))]);
    dress::surround(&mut t);
    verdict(&t);
}
