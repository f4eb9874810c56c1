//! The context starts with that of Thing Description 1.1 and has it once.
use crate::{ast::*, dress, gen::Same, sym::*};
use serde_json::Value;
use wot_td::thing::TD_CONTEXT_11;

fn ctx(k: usize) -> Ctx {
    match k {
        0 => Ctx::Text(TD_CONTEXT_11.to_string()),
        1 => Ctx::Text(any_str(2)),
        2 => Ctx::Map(vec![]),
        3 => Ctx::Map(vec![(any_name(1), text())]),
        4 => Ctx::Map(vec![(any_name(1), TD_CONTEXT_11.to_string()), ("ab".into(), text())]),
        5 => Ctx::Text(["https://www.w3.org/2019/wot/td/v1", "http://www.w3.org/ns/td", "HTTPS://WWW.W3.ORG/2022/WOT/TD/V1.1", ""][pick(4)].to_string()),
        // longer and shorter than the context by up to two symbols, at the end or at the start
        7 => Ctx::Text(TD_CONTEXT_11.to_string() + &any_str(1 + pick(2))),
        8 => Ctx::Text(any_str(1) + TD_CONTEXT_11),
        9 => {
            let i = pick(TD_CONTEXT_11.len());
            Ctx::Text(if flag() { TD_CONTEXT_11[..i].to_string() } else { TD_CONTEXT_11[i + 1..].to_string() })
        }
        _ => {
            // as long as the context itself, any one symbol different
            let mut v = TD_CONTEXT_11.as_bytes().to_vec();
            let i = pick(v.len());
            let b = any_u8();
            assume(b < 0x80);
            v[i] = b;
            Ctx::Text(String::from_utf8(v).unwrap())
        }
    }
}
fn verdict(t: &Th) {
    let r = match build(t) {
        Ok(r) => r,
        Err(_) => return check(false, "the Thing is built"),
    };
    check(r.context.same(&v_context(&t.context)), "the context is what was added, in order, after that of Thing Description 1.1");
    let n = match &r.context {
        Value::String(s) => {
            check(s == TD_CONTEXT_11, "a single context is that of Thing Description 1.1");
            1
        }
        Value::Array(v) => {
            check(v.len() > 1, "a list has something added");
            check(v[0].as_str() == Some(TD_CONTEXT_11), "the list starts with the context of Thing Description 1.1");
            v.iter().filter(|x| x.as_str() == Some(TD_CONTEXT_11)).count()
        }
        _ => 0,
    };
    check(n == 1, "the context of Thing Description 1.1 is there once");
    cover("built");
}
/// Up to three additions.
#[no_mangle]
pub extern "C" fn p22_contexts() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    for _ in 0..param(0) {
        t.context.push(ctx(pick(6)));
    }
    verdict(&t);
}
/// Any text that is as long as the context and differs from it in at most one symbol.
#[no_mangle]
pub extern "C" fn p22_close() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.context.push(ctx([6, 7, 8, 9][param(0)]));
    if flag() {
        t.context.insert(pick(2), ctx(3));
    }
    verdict(&t);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p22_dressed() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    for _ in 0..pick(3) {
        t.context.push(ctx([0, 1, 3][pick(3)]));
    }
    dress::surround(&mut t);
    verdict(&t);
}
