//! Nothing depends on chance: the same calls give the same Thing, whatever order hash maps have.
//! (Run with the compiled hasher; `shuffle` moves the seeds of the maps made after it, on which
//! their order depends.)
use crate::{ast::*, dress, gen::Same, place::*, sym::*, util::*};
use serde_json::Value;
use std::collections::HashMap;
use wot_td::hlist::Nil;
use wot_td::thing::*;

const SEEDS: usize = 6;
fn shuffle(n: usize) {
    for _ in 0..n {
        std::mem::forget(std::hint::black_box(HashMap::<u8, u8>::new()));
    }
}
/// Runs again and again when replayed natively: there the seeds are random.
fn times() -> usize {
    if replaying() {
        48
    } else {
        1
    }
}
/// The order that a map made now has.
fn order() -> u64 {
    let m: HashMap<&str, u8> = [("en", 1), ("it", 2), ("de", 3)].into_iter().collect();
    m.values().fold(0, |a, b| a * 4 + *b as u64)
}
fn twice(t: &Th) -> Option<Thing<Nil>> {
    let mut out = None;
    let n = 1 + pick(SEEDS);
    for _ in 0..times() {
        let a = build(t);
        let before = order();
        shuffle(n);
        if !replaying() && before != order() {
            cover("another order");
        }
        let b = build(t);
        check(a.is_ok() == b.is_ok(), "the same calls are always accepted or always refused");
        if let (Ok(a), Ok(b)) = (a, b) {
            check(a.same(&b), "the same calls give the same Thing");
            let (v, w) = (to_v(&a), to_v(&b));
            check(v.is_some() & (v == w), "the same Thing is written as the same document");
            out = Some(a);
        }
    }
    cover("built twice");
    out
}
const TAGS: [&str; 8] = ["en", "EN", "it", "en-GB", "EN-gb", "En-Gb", "it-IT", "eN"];
/// Translations under tags that may be the same but for their case: the last one given counts.
#[no_mangle]
pub extern "C" fn p23_tags() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let n = 2 + pick(2);
    let v: Vec<(String, String)> = (0..n).map(|i| (TAGS[pick(8)].to_string(), any_str(1 + i % 2))).collect();
    let tags = Some(v.clone());
    let place = param(0);
    let mut s = good();
    let mut i = Info::default();
    if place % 2 == 0 {
        i.titles = tags.clone();
    } else {
        i.descriptions = tags.clone();
    }
    s.info = i.clone();
    match place / 2 {
        0 => t.info = i,
        1 => t.properties.push(("p".into(), prop(s))),
        2 => t.actions.push(("p".into(), Act { aff: Aff { info: i, ..Default::default() }, ..Default::default() })),
        3 => t.events.push(("p".into(), Ev { aff: Aff { info: i, ..Default::default() }, ..Default::default() })),
        4 => t.defs.push(("d".into(), s)),
        _ => t.security.push(Sec { key: Some("k".into()), descriptions: tags, ..sec(SecK::NoSec) }),
    }
    let r = match twice(&t) {
        Some(r) => r,
        None => return check(false, "the Thing is built"),
    };
    let got = match (place / 2, place % 2) {
        (0, 0) => r.titles,
        (0, _) => r.descriptions,
        (1, 0) => r.properties.unwrap().remove("p").unwrap().interaction.titles,
        (1, _) => r.properties.unwrap().remove("p").unwrap().interaction.descriptions,
        (2, 0) => r.actions.unwrap().remove("p").unwrap().interaction.titles,
        (2, _) => r.actions.unwrap().remove("p").unwrap().interaction.descriptions,
        (3, 0) => r.events.unwrap().remove("p").unwrap().interaction.titles,
        (3, _) => r.events.unwrap().remove("p").unwrap().interaction.descriptions,
        (4, 0) => r.schema_definitions.unwrap().remove("d").unwrap().titles,
        (4, _) => r.schema_definitions.unwrap().remove("d").unwrap().descriptions,
        _ => r.security_definitions.remove_descriptions(),
    };
    let got = got.unwrap_or_default();
    for (k, _) in &v {
        let last = &v.iter().rev().find(|x| x.0.eq_ignore_ascii_case(k)).unwrap().1;
        let found = got.iter().find(|x| x.0.as_str().eq_ignore_ascii_case(k));
        check(found.map_or(false, |f| f.1 == last), "of texts for the same language, the last given counts");
    }
}
trait Rd {
    fn remove_descriptions(self) -> Option<crate::gen::Ml>;
}
impl Rd for HashMap<String, SecurityScheme> {
    fn remove_descriptions(mut self) -> Option<crate::gen::Ml> {
        self.remove("k").unwrap().descriptions
    }
}
/// Things with everything around them.
#[no_mangle]
pub extern "C" fn p23_dressed() {
    let s = sch(Kind::Obj(vec![("a".into(), true, good()), ("b".into(), false, good()), ("c".into(), true, good())]));
    let p = param(0);
    let s = if fits(p, &s) { s } else { good() };
    let mut t = place(p, 1 + pick(2), s);
    dress::surround(&mut t);
    check(twice(&t).is_some(), "the Thing is built");
}
/// Things with two or three faults: refused every time.
#[no_mangle]
pub extern "C" fn p23_faults() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let bad = || sch(Kind::Int { lo: Some((false, 2)), hi: Some((false, 1)), mult: None });
    let m = 1 + pick(31) as u64;
    for (i, n) in ["a", "b", "c"].iter().enumerate() {
        let s = || if i == param(0) % 3 { bad() } else { good() };
        if has(m, 0) {
            t.defs.push((n.to_string(), s()));
        }
        if has(m, 1) {
            t.uri.push((n.to_string(), s()));
        }
        if has(m, 2) {
            t.info.titles.get_or_insert_with(Vec::new).push((if i == param(0) % 3 { "e!" } else { ["en", "it", "de"][i] }.to_string(), text()));
        }
        if has(m, 3) {
            t.events.push((n.to_string(), Ev { data: Some(sch(Kind::Obj(vec![("x".into(), true, s()), ("y".into(), true, good()), ("z".into(), false, s())]))), ..Default::default() }));
        }
        if has(m, 4) {
            t.actions.push((n.to_string(), Act { aff: Aff { uri: vec![("v".into(), sch(Kind::Bool)), ("w".into(), if i == param(0) % 3 { sch(Kind::Tuple(vec![])) } else { good() })], ..Default::default() }, ..Default::default() }));
        }
    }
    check(twice(&t).is_none(), "a faulty Thing is refused every time");
}
/// Reading: the same document gives the same Thing.
#[no_mangle]
pub extern "C" fn p23_read() {
    let mut t = place(param(0), 1, good());
    dress::surround(&mut t);
    let v = match build(&t).ok().and_then(|r| to_v(&r)) {
        Some(v) => v,
        None => return check(false, "the Thing is built and written"),
    };
    let n = 1 + pick(SEEDS);
    for _ in 0..times() {
        let a = of_v::<Thing<Nil>>(v.clone());
        shuffle(n);
        let b = of_v::<Thing<Nil>>(v.clone());
        match (a, b) {
            (Some(a), Some(b)) => {
                check(a.same(&b), "the same document is read as the same Thing");
                check((a == b) & (b == a), "equality does not depend on the order of maps");
            }
            _ => check(false, "the document of a built Thing is read every time"),
        }
    }
    cover("read twice");
}
