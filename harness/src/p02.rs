//! Every security name that is used is defined, once.
use crate::{ast::*, dress, sym::*};
use wot_td::builder::Error;
use wot_td::thing::*;

pub const FORM_PLACES: usize = 7;
/// Puts a form at a place: of the Thing, of the first or second property, action or event.
pub fn put_forms(t: &mut Th, p: usize, f: Vec<Fm>) {
    let s = || sch(Kind::Bool);
    let aff = |f| Aff { forms: f, ..Default::default() };
    match p {
        0 => t.forms = f,
        1 => t.properties.push(("p".into(), Prop { forms: f, ..prop(s()) })),
        2 => t.actions.push(("p".into(), Act { aff: aff(f), ..Default::default() })),
        3 => t.events.push(("p".into(), Ev { aff: aff(f), ..Default::default() })),
        4 => {
            t.properties.push(("o".into(), prop(s())));
            put_forms(t, 1, f)
        }
        5 => {
            t.actions.push(("o".into(), Act::default()));
            put_forms(t, 2, f)
        }
        _ => {
            t.events.push(("o".into(), Ev::default()));
            put_forms(t, 3, f)
        }
    }
}
pub fn form_at(p: usize) -> Fm {
    Fm { href: "h".into(), op: if p == 0 { vec![FormOperation::ReadAllProperties] } else { vec![] }, ..Default::default() }
}
pub fn forms_of(t: &Thing<wot_td::hlist::Nil>, p: usize) -> &[Form<wot_td::hlist::Nil>] {
    match p {
        0 => t.forms.as_deref().unwrap_or(&[]),
        1 | 4 => &t.properties.as_ref().unwrap()["p"].interaction.forms,
        2 | 5 => &t.actions.as_ref().unwrap()["p"].interaction.forms,
        _ => &t.events.as_ref().unwrap()["p"].interaction.forms,
    }
}
fn faults(t: &Th, used: &[String]) -> Vec<Error> {
    let mut v = vec![];
    let names: Vec<String> = t.security.iter().map(sec_name).collect();
    for i in 0..names.len() {
        for j in 0..i {
            if names[i] == names[j] {
                v.push(Error::DuplicatedSecurityDefinition(names[i].clone()));
            }
        }
    }
    for u in used {
        if !names.iter().any(|n| n == u) {
            v.push(Error::UndefinedSecurity(u.clone()));
        }
    }
    for s in &t.security {
        if let SecK::Combo(_, c, ..) = &s.kind {
            for u in c {
                if !names.iter().any(|n| n == u) {
                    v.push(Error::MissingSchemaDefinition(u.clone()));
                    v.push(Error::UndefinedSecurity(u.clone()));
                }
            }
        }
    }
    v
}
fn verdict(t: &Th, used: &[String], p: usize) {
    let f = faults(t, used);
    if let Some(r) = judge(
        build(t),
        &f,
        "names that are all defined, once, are not refused",
        "a name that is not defined, or defined twice, is refused",
        "the error names an offending name",
    ) {
        let want: Vec<String> = t.security.iter().filter(|s| s.required).map(sec_name).collect();
        check(r.security == want, "the names the Thing requires are those marked so, in order");
        check(r.security_definitions.len() == t.security.len(), "every definition is there");
        for s in &t.security {
            check(r.security_definitions.contains_key(&sec_name(s)), "a definition is found under its name");
        }
        if !used.is_empty() {
            let got: Vec<String> = forms_of(&r, p).iter().filter_map(|f| f.security.clone()).flatten().collect();
            check(got == used, "the names a form uses are kept");
        }
    }
}
fn named(k: SecK, n: String, required: bool) -> Sec {
    Sec { key: Some(n), required, ..sec(k) }
}
/// Forms at every place, names symbolic.
#[no_mangle]
pub extern "C" fn p02_forms() {
    let p = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    let n = pick(3);
    for i in 0..n {
        t.security.push(named(if i == 0 { SecK::Basic(None, None) } else { SecK::NoSec }, name(), i == 1));
    }
    let mut a = form_at(p);
    let mut b = form_at(p);
    let mut used = vec![name()];
    match pick(4) {
        0 => a.security = used.clone(),
        1 => b.security = used.clone(),
        2 => {
            used.push(name());
            a.security = used.clone();
        }
        _ => {
            used.push(name());
            a.security = used[..1].to_vec();
            b.security = used[1..].to_vec();
        }
    }
    put_forms(&mut t, p, vec![a, b]);
    verdict(&t, &used, p);
}
/// Forms of two affordances of the same kind, or of the Thing and of an affordance.
#[no_mangle]
pub extern "C" fn p02_two() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.security.push(named(SecK::Psk, name(), false));
    let (p, q) = (pick(4), 4 + pick(3));
    let (x, y) = (name(), name());
    put_forms(&mut t, q, vec![Fm { security: vec![y.clone()], ..form_at(q) }]);
    if p == q - 3 {
        // the affordance before the one of interest
        let f = vec![Fm { security: vec![x.clone()], ..form_at(p) }];
        match p {
            1 => t.properties[0].1.forms = f,
            2 => t.actions[0].1.aff.forms = f,
            _ => t.events[0].1.aff.forms = f,
        }
    } else {
        put_forms(&mut t, p, vec![Fm { security: vec![x.clone()], ..form_at(p) }]);
    }
    let f = faults(&t, &[x, y]);
    judge(build(&t), &f, "names that are all defined, once, are not refused", "a name that is not defined, or defined twice, is refused", "the error names an offending name");
}
/// Combined schemes.
#[no_mangle]
pub extern "C" fn p02_combos() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let n = pick(4);
    let one = param(0) == 1;
    let name = || if one { any_name(1) } else { name() };
    let names: Vec<String> = (0..n).map(|_| name()).collect();
    let i = pick(n + 1);
    let j = pick(n - i + 1);
    t.security.push(named(SecK::Auto, name(), flag()));
    if one {
        t.security.insert(0, named(SecK::Combo(flag(), vec!["z".into()], 1, 0), "z".into(), true));
    }
    t.security.push(named(SecK::Combo(flag(), names, i, j), name(), false));
    verdict(&t, &[], 0);
}
/// Three definitions, each required or not.
#[no_mangle]
pub extern "C" fn p02_required() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    for i in 0..3 {
        let k = [SecK::NoSec, SecK::Psk, SecK::Custom("x".into(), None)][i].clone();
        t.security.push(named(k, name(), flag()));
    }
    verdict(&t, &[], 0);
}
fn kind(k: usize) -> SecK {
    match k {
        0 => SecK::NoSec,
        1 => SecK::Auto,
        2 => SecK::Basic(None, None),
        3 => SecK::Digest(None, None, None),
        4 => SecK::ApiKey(None, None),
        5 => SecK::Bearer { auth: None, alg: None, format: None, loc: None, name: None },
        6 => SecK::Psk,
        7 => SecK::OAuth2 { flow: "code".into(), auth: None, token: None, refresh: None, scopes: vec![] },
        8 => SecK::Custom("custom".into(), None),
        _ => SecK::Combo(true, vec![], 0, 0),
    }
}
/// Definitions under the names of their kinds.
#[no_mangle]
pub extern "C" fn p02_kinds() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.security.push(Sec { required: flag(), ..sec(kind(pick(10))) });
    t.security.push(Sec { required: flag(), ..sec(kind(pick(10))) });
    let used = vec![sec_kind(&kind(pick(10)))];
    let p = param(0);
    put_forms(&mut t, p, vec![Fm { security: used.clone(), ..form_at(p) }]);
    verdict(&t, &used, p);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p02_dressed() {
    let p = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    let x = any_name(2);
    match pick(3) {
        0 => put_forms(&mut t, p, vec![Fm { security: vec![x], ..form_at(p) }]),
        1 => t.security.push(named(SecK::Combo(true, vec![x], 1, 0), "zz".into(), false)),
        _ => t.security.push(named(SecK::Psk, x, true)),
    }
    t.security.push(named(SecK::NoSec, any_name(2), flag()));
    dress::surround(&mut t);
    let f = faults(&t, &dress::used(&t).0);
    if let Some(r) = judge(build(&t), &f, "names that are all defined, once, are not refused", "a name that is not defined, or defined twice, is refused", "the error names an offending name") {
        let want: Vec<String> = t.security.iter().filter(|s| s.required).map(sec_name).collect();
        check(r.security == want, "the names the Thing requires are those marked so, in order");
        check(r.security_definitions.len() == t.security.len(), "every definition is there");
    }
}
