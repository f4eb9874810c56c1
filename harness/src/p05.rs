//! Affordance names are unique within their kind; nothing is lost.
use crate::{ast::*, dress, gen::{any_bool, any_value, Same}, sym::{any_i64, any_name, name, text, check, param, pick}};
use wot_td::builder::{AffordanceType, Error};
use wot_td::thing::*;

fn dup<'a, T: 'a>(v: &'a [(String, T)], ty: AffordanceType, out: &mut Vec<Error>) {
    for i in 0..v.len() {
        for j in 0..i {
            if v[i].0 == v[j].0 {
                out.push(Error::DuplicatedAffordance { ty: ty, name: v[i].0.clone() });
            }
        }
    }
}
fn p_(i: usize) -> Prop {
    let mut s = sch([Kind::Bool, Kind::Null, Kind::Int { lo: Some((false, any_i64())), hi: None, mult: None }, Kind::Enum(vec![any_value(3)])][i % 4].clone());
    s.info.title = Some(text());
    s.mode = (i % 3) as u8;
    s.format = if i == 1 { Some(text()) } else { None };
    Prop { observable: if i == 2 { Some(any_bool()) } else { None }, forms: if i == 0 { vec![Fm { href: text(), ..Default::default() }] } else { vec![] }, ..prop(s) }
}
fn a_(i: usize) -> Act {
    Act {
        aff: Aff { info: Info { description: Some(text()), ..Default::default() }, ..Default::default() },
        input: if i == 1 { Some(p_(1).sch) } else { None },
        output: if i == 0 { Some(p_(2).sch) } else { None },
        safe: i == 0,
        idempotent: i == 1,
        synchronous: if i == 2 { Some(any_bool()) } else { None },
    }
}
fn e_(i: usize) -> Ev {
    Ev {
        aff: Aff { info: Info { attype: vec![text()], ..Default::default() }, ..Default::default() },
        subscription: if i == 0 { Some(p_(1).sch) } else { None },
        data: if i == 1 { Some(p_(2).sch) } else { None },
        data_response: if i == 2 { Some(p_(0).sch) } else { None },
        cancellation: if i == 0 { Some(p_(3).sch) } else { None },
    }
}
fn verdict(t: &Th) {
    let mut f = vec![];
    dup(&t.properties, AffordanceType::Property, &mut f);
    dup(&t.actions, AffordanceType::Action, &mut f);
    dup(&t.events, AffordanceType::Event, &mut f);
    if let Some(r) = judge(build(t), &f, "different names are not refused", "a name used twice in a kind is refused", "the error tells the kind and the name") {
        held(&r.properties, &t.properties, v_prop);
        held(&r.actions, &t.actions, v_act);
        held(&r.events, &t.events, v_ev);
    }
}
fn held<S, T: Same>(got: &Option<std::collections::HashMap<String, T>>, want: &[(String, S)], f: impl Fn(&S) -> T) {
    let n = got.as_ref().map_or(0, |m| m.len());
    check(n == want.len(), "the Thing has exactly the affordances declared");
    for (k, s) in want {
        match got.as_ref().and_then(|m| m.get(k)) {
            None => check(false, "an affordance is found under its name"),
            Some(x) => check(x.same(&f(s)), "an affordance has its own contents"),
        }
    }
}
/// Up to `n` affordances of a kind, and one of each other kind.
#[no_mangle]
pub extern "C" fn p05_names() {
    let (k, n) = (param(0), param(1));
    let mut t = Th { title: "t".into(), ..Default::default() };
    let c = if n <= 3 { pick(n + 1) } else { n };
    for i in 0..c {
        // four names: of one letter each, to keep the number of comparisons down
        let s = if n <= 3 { name() } else { any_name(1) };
        match k {
            0 => t.properties.push((s, p_(i))),
            1 => t.actions.push((s, a_(i))),
            _ => t.events.push((s, e_(i))),
        }
    }
    if n <= 2 {
        if k != 0 {
            t.properties.push((name(), p_(3)));
        }
        if k != 1 {
            t.actions.push((name(), a_(3)));
        }
        if k != 2 {
            t.events.push((name(), e_(3)));
        }
    }
    verdict(&t);
}
/// Two of each kind.
#[no_mangle]
pub extern "C" fn p05_kinds() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let n: Vec<String> = (0..2).map(|_| any_name(1)).collect();
    let m = any_name(1);
    t.properties = vec![(n[0].clone(), p_(0)), (n[1].clone(), p_(1))];
    t.actions = vec![(n[0].clone(), a_(0)), (m.clone(), a_(1))];
    t.events = vec![(n[1].clone(), e_(0)), (m, e_(1))];
    verdict(&t);
}
/// Names that are long, empty, differ only in case or in white space.
#[no_mangle]
pub extern "C" fn p05_odd() {
    const ODD: [&str; 7] = ["", " ", "a", "A", "a ", "\u{e0}", "a-name-that-is-longer-than-most-others-in-here"];
    let (a, b) = (ODD[pick(7)].to_string(), ODD[pick(7)].to_string());
    let mut t = Th { title: "t".into(), ..Default::default() };
    match param(0) {
        0 => t.properties = vec![(a, p_(0)), (b, p_(1))],
        1 => t.actions = vec![(a, a_(0)), (b, a_(1))],
        _ => t.events = vec![(a, e_(0)), (b, e_(1))],
    }
    verdict(&t);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p05_dressed() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let (a, b) = (any_name(2), any_name(2));
    match param(0) {
        0 => t.properties = vec![(a, p_(0)), (b, p_(1))],
        1 => t.actions = vec![(a, a_(0)), (b, a_(1))],
        _ => t.events = vec![(a, e_(0)), (b, e_(1))],
    }
    dress::surround(&mut t);
    verdict(&t);
}
