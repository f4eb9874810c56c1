//! Security schemes are defined as configured and under the right name.
use crate::{ast::*, gen::*, sym::{any_name, any_str, text, check, cover, flag, has, param, pick, subset}};
use wot_td::thing::*;

fn o(c: bool) -> Option<String> {
    if c {
        Some(text())
    } else {
        None
    }
}
fn loc() -> Option<usize> {
    [None, Some(0), Some(1), Some(2), Some(3), Some(4)][pick(6)]
}
fn kind(k: usize) -> SecK {
    match k {
        0 => SecK::NoSec,
        1 => SecK::Auto,
        2 => {
            // names of definitions that exist
            let n = pick(4);
            let i = pick(n + 1);
            let j = pick(n - i + 1);
            SecK::Combo(flag(), ["x", "y", "x"][..n].iter().map(|s| s.to_string()).collect(), i, j)
        }
        3 => SecK::Basic(loc(), o(flag())),
        4 => SecK::Digest([None, Some(QualityOfProtection::Auth), Some(QualityOfProtection::AuthInt)][pick(3)].clone(), loc(), o(flag())),
        5 => {
            let m = pick(16) as u64;
            SecK::Bearer { auth: o(has(m, 0)), alg: o(has(m, 1)), format: o(has(m, 2)), loc: loc(), name: o(has(m, 3)) }
        }
        6 => SecK::Psk,
        7 => {
            let m = pick(8) as u64;
            SecK::OAuth2 { flow: any_str(2), auth: o(has(m, 0)), token: o(has(m, 1)), refresh: o(has(m, 2)), scopes: (0..pick(3)).map(|_| text()).collect() }
        }
        8 => SecK::ApiKey(loc(), o(flag())),
        _ => SecK::Custom(
            any_name(2),
            if flag() {
                Some(any_value(5))
            } else {
                None
            },
        ),
    }
}
fn verdict(t: &Th) {
    let r = match build(t) {
        Ok(r) => r,
        Err(_) => return check(false, "the Thing is built"),
    };
    #[cfg(feature = "p21")]
    return crate::p21::verdict(&r);
    check(r.security_definitions.len() == t.security.len(), "there are exactly the definitions given");
    for s in &t.security {
        match r.security_definitions.get(&sec_name(s)) {
            None => check(false, "a scheme is found under the name given, or else that of its kind"),
            Some(d) => {
                let w = v_sec(s);
                check(d.subtype.same(&w.subtype), "a scheme has the kind and parameters it was given, and defaults for the rest");
                check(d.attype.same(&w.attype) & d.description.same(&w.description) & d.descriptions.same(&w.descriptions) & d.proxy.same(&w.proxy), "a scheme has the descriptions, types and proxy it was given");
            }
        }
    }
    let want: Vec<String> = t.security.iter().filter(|s| s.required).map(sec_name).collect();
    check(r.security.same(&want), "a scheme is required exactly if marked so");
    cover("built");
}
fn common(s: &mut Sec, m: u64) {
    s.required = has(m, 0);
    s.early = has(m, 1);
    s.key = if has(m, 2) { Some("key".into()) } else { None };
    s.description = o(has(m, 3));
    s.proxy = o(has(m, 4));
    s.attype = (0..if has(m, 5) { 1 + has(m, 3) as usize } else { 0 }).map(|_| text()).collect();
    s.descriptions = if has(m, 6) { Some(vec![("en".into(), text()), ("de".into(), text())]) } else { None };
}
fn others(t: &mut Th) {
    t.security.push(Sec { key: Some("x".into()), ..sec(SecK::NoSec) });
    t.security.push(Sec { key: Some("y".into()), required: true, ..sec(SecK::Basic(Some(2), None)) });
}
/// Every kind with every combination of its parameters.
#[no_mangle]
pub extern "C" fn p20_kinds() {
    let k = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    others(&mut t);
    let mut s = sec(kind(k));
    common(&mut s, [0, 0b1111101, 0b0000010, 0b1111111][pick(4)]);
    t.security.insert(pick(3), s);
    verdict(&t);
}
/// Every combination of what the kinds have in common.
#[no_mangle]
pub extern "C" fn p20_common() {
    let k = param(0);
    let mut t = Th { title: "t".into(), ..Default::default() };
    let mut s = sec(match k {
        2 => SecK::Combo(true, vec![], 0, 0),
        3 => SecK::Basic(None, None),
        4 => SecK::Digest(None, Some(4), None),
        5 => SecK::Bearer { auth: None, alg: None, format: None, loc: None, name: None },
        7 => SecK::OAuth2 { flow: text(), auth: None, token: None, refresh: None, scopes: vec![] },
        8 => SecK::ApiKey(None, None),
        9 => SecK::Custom(any_name(1), None),
        _ => kind(k),
    });
    common(&mut s, pick(128) as u64);
    t.security.push(s);
    verdict(&t);
}
/// Two and three schemes of different kinds.
#[no_mangle]
pub extern "C" fn p20_several() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let (a, b, c) = (param(0), (param(0) + 1 + pick(9)) % 10, pick(10));
    for (i, k) in [a, b, c].into_iter().enumerate() {
        let kd = match k {
            0 => SecK::NoSec,
            1 => SecK::Auto,
            2 => SecK::Combo(flag(), vec![], 0, 0),
            3 => SecK::Basic(Some(4), o(true)),
            4 => SecK::Digest(Some(QualityOfProtection::AuthInt), None, o(true)),
            5 => SecK::Bearer { auth: o(true), alg: o(true), format: None, loc: None, name: o(true) },
            6 => SecK::Psk,
            7 => SecK::OAuth2 { flow: text(), auth: None, token: o(true), refresh: None, scopes: vec![text()] },
            8 => SecK::ApiKey(Some(3), o(true)),
            _ => SecK::Custom("zz".into(), None),
        };
        let key = if c == a || c == b || flag() { Some(["k", "l", "m"][i].to_string()) } else { None };
        t.security.push(Sec { key, required: flag(), proxy: o(i == 1), ..sec(kd) });
    }
    verdict(&t);
}
