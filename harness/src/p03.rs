//! Every schema that an additional response names is declared.
use crate::{ast::*, dress, p02::*, sym::*};
use wot_td::builder::Error;

fn resp(s: Option<String>) -> (bool, Option<String>, Option<String>) {
    (s.is_some(), if s.is_none() { Some("c".into()) } else { None }, s)
}
fn faults(t: &Th, used: &[String]) -> Vec<Error> {
    used.iter().filter(|u| !t.defs.iter().any(|d| d.0 == **u)).map(|u| Error::MissingSchemaDefinition(u.clone())).collect()
}
fn verdict(t: &Th, used: &[String]) -> Option<wot_td::thing::Thing<wot_td::hlist::Nil>> {
    let f = faults(t, used);
    judge(build(t), &f, "declared schemas are not refused", "a schema that is not declared is refused", "the error carries the missing name")
}
/// One form with up to three additional responses.
#[no_mangle]
pub extern "C" fn p03_responses() {
    let p = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    for _ in 0..pick(3) {
        t.defs.push((name(), sch(Kind::Bool)));
    }
    let mut f = form_at(p);
    let mut used = vec![];
    for _ in 0..1 + pick(3) {
        let s = if flag() { Some(name()) } else { None };
        used.extend(s.clone());
        f.addl.push((s.is_some(), if s.is_none() { Some("c".into()) } else { None }, s));
    }
    put_forms(&mut t, p, vec![f]);
    if let Some(r) = verdict(&t, &used) {
        let got: Vec<String> = forms_of(&r, p)[0].additional_responses.iter().flatten().filter_map(|a| a.schema.clone()).collect();
        check(got == used, "the names of the schemas are kept");
    }
}
/// Two forms, at the same or at different places.
#[no_mangle]
pub extern "C" fn p03_two() {
    let p = param(0);
    let q = pick(4);
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.defs.push((name(), sch(Kind::Null)));
    let (x, y) = (name(), name());
    let f = |p, n: &String| Fm { addl: vec![resp(None), resp(Some(n.clone()))], ..form_at(p) };
    if q == p {
        put_forms(&mut t, p, vec![f(p, &x), f(p, &y)]);
    } else {
        put_forms(&mut t, p, vec![f(p, &x)]);
        if p >= 4 && q == p - 3 {
            let g = vec![f(q, &y)];
            match q {
                1 => t.properties[0].1.forms = g,
                2 => t.actions[0].1.aff.forms = g,
                _ => t.events[0].1.aff.forms = g,
            }
        } else {
            put_forms(&mut t, q, vec![f(q, &y)]);
        }
    }
    verdict(&t, &[x, y]);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p03_dressed() {
    let p = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.defs.push((any_name(2), sch(Kind::Null)));
    let r = (flag(), if flag() { Some("c".into()) } else { None }, Some(any_name(2)));
    put_forms(&mut t, p, vec![Fm { addl: if flag() { vec![r, resp(None)] } else { vec![resp(None), r] }, ..form_at(p) }]);
    dress::surround(&mut t);
    verdict(&t, &dress::used(&t).1);
}
