//! The documents that the properties about reading and writing range over.
use crate::{gen::*, sym::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use wot_td::thing::*;

pub trait Visit {
    fn visit<T: Serialize + DeserializeOwned + Same + Wire + PartialEq>(&self, t: T);
}
pub const SCHEMA_CASES: usize = 10;
/// Data schemas.
pub fn schemas(k: usize, v: &impl Visit) {
    match k {
        0..=7 => v.visit(schema(0, subtype(k))),
        8 => {
            let m = subset(SCHEMA_FIELDS);
            let k = [0, 2, 7][pick(3)];
            v.visit(schema(m, subtype(k)))
        }
        _ => {
            let mut s = small(0);
            let k = pick(8);
            s.constant = Some(any_value(k));
            s.default = Some(any_value((k + 1) % 8));
            s.enumeration = match pick(3) {
                0 => Some(vec![]),
                1 => Some(vec![any_value((k + 3) % 8)]),
                _ => Some(vec![any_value((k + 4) % 8), any_value((k + 5) % 8)]),
            };
            s.one_of = match pick(3) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(vec![small(5)]),
            };
            v.visit(s)
        }
    }
}
pub fn securities(k: usize, v: &impl Visit) {
    let m = subset(4);
    v.visit(security(k, m));
}
pub const PART_CASES: usize = 12;
/// Links, forms, affordances and what they are made of.
pub fn parts(k: usize, v: &impl Visit) {
    match k {
        0 => v.visit(link(subset(5))),
        1 => v.visit(form(subset(FORM_FIELDS))),
        2 => {
            // every operation, alone and in pairs
            let (a, b) = (pick(18), pick(19));
            let mut f = form(0);
            f.op = DefaultedFormOperations::Custom(if b < 18 { vec![OPS[a].0, OPS[b].0] } else { vec![OPS[a].0] });
            v.visit(f)
        }
        3 => v.visit(property(subset(8), Some(Sub::Boolean))),
        4 => v.visit(property(subset(SCHEMA_FIELDS) << 16, None)),
        5 => v.visit(property(0xa0, subtype(pick(8)))),
        6 => v.visit(action(subset(12))),
        7 => v.visit(event(subset(11))),
        8 => v.visit(version(flag())),
        9 => v.visit(addresp(subset(2))),
        10 => {
            let mut f = form(0);
            f.op = DefaultedFormOperations::Custom(vec![]);
            v.visit(f)
        }
        _ => {
            // lists that are there but empty, or longer than two
            let n = pick(3);
            let n = if n == 1 { 3 } else { n };
            let mut f = form(0);
            f.security = Some(strs(n));
            f.scopes = Some(strs(n));
            f.additional_responses = Some((0..n).map(|i| addresp(i as u64)).collect());
            let mut i = inter(0);
            i.attype = Some(strs(n));
            i.forms = vec![f];
            i.titles = Some(ml(n));
            i.uri_variables = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), small(1))).collect());
            v.visit(i)
        }
    }
}
pub const THING_CASES: usize = 2;
pub fn things(k: usize, v: &impl Visit) {
    match k {
        0 => v.visit(thing(subset(THING_FIELDS))),
        _ => {
            let n = pick(3);
            let n = if n == 1 { 3 } else { n };
            let mut t = thing(0);
            t.attype = Some(strs(n));
            t.titles = Some(ml(n));
            t.properties = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), property(0x20, None))).collect());
            t.actions = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), action(0))).collect());
            t.events = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), event(0))).collect());
            t.links = Some((0..n).map(|_| link(0)).collect());
            t.forms = Some((0..n).map(|_| form(1)).collect());
            t.security = strs(n);
            t.security_definitions = ["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), security(3, 0))).collect();
            t.uri_variables = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), small(1))).collect());
            t.schema_definitions = Some(["a", "b", "c"].iter().take(n).map(|k| (k.to_string(), small(5))).collect());
            t.profile = Some(strs(n));
            v.visit(t)
        }
    }
}
pub const LARGE_CASES: usize = 7;
/// A schema within another.
fn within(k: usize, s: DS) -> DS {
    let mut o = DS { title: Some(st()), ..Default::default() };
    match k {
        0 => o.subtype = Some(Sub::Array(Arr { items: Some(BoxedElemOrVec::Elem(Box::new(s))), ..Default::default() })),
        1 => o.subtype = Some(Sub::Array(Arr { items: Some(BoxedElemOrVec::Vec(vec![small(1), s])), ..Default::default() })),
        2 => o.subtype = Some(Sub::Object(ObjS { properties: Some(named(vec![("a", s), ("b", small(0))])), ..Default::default() })),
        3 => o.one_of = Some(vec![s, small(7)]),
        _ => {
            o.one_of = Some(vec![small(1), s]);
            o.subtype = Some(Sub::Null);
        }
    }
    o
}
/// Names that mean something elsewhere, or are unusual.
pub const ODD: [&str; 12] = ["", " ", "type", "title", "@type", "forms", "scheme", "href", "a b", "\u{e9}\u{1f980}", "\"\\\n", "a-name-that-is-longer-than-most-others-in-here"];
/// Documents that are large, deep or have odd names.
pub fn large(k: usize, v: &impl Visit) {
    coins();
    match k {
        0 => {
            let (a, b) = (pick(5), pick(5));
            let mut s = small(2);
            for i in 0..7 {
                s = within(if i % 2 == 0 { a } else { b }, s);
            }
            v.visit(s)
        }
        1 => {
            let mut s = schema(0b0000_0000_0001_1111, None);
            match pick(4) {
                0 => s.subtype = Some(Sub::Object(ObjS { properties: Some(named((0..8).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h"][i], small(i))).collect())), required: Some(strs(6)), ..Default::default() })),
                1 => s.subtype = Some(Sub::Array(Arr { items: Some(BoxedElemOrVec::Vec((0..8).map(small).collect())), min_items: Some(8), max_items: Some(8), ..Default::default() })),
                2 => s.one_of = Some((0..8).map(small).collect()),
                _ => s.enumeration = Some((0..8).map(any_value).collect()),
            }
            v.visit(s)
        }
        2 => {
            let mut t = thing(0x3ffff);
            t.properties = Some(named((0..8).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h"][i], property([0, 0xff, 0x1fff_0000][i % 3], small(i).subtype))).collect()));
            t.actions = Some(named((0..4).map(|i| (["a", "b", "c", "d"][i], action([0, 0xfff, 0x555, 0xaaa][i]))).collect()));
            t.events = Some(named((0..4).map(|i| (["a", "b", "c", "d"][i], event([0, 0x7ff, 0x555, 0x2aa][i]))).collect()));
            t.links = Some((0..6).map(|i| link([0, 31, 0b10101, 0b01010, 0b10000, 0b1111][i])).collect());
            t.forms = Some((0..6).map(|i| form([1, 255, 0b1010101, 0b10101011, 0b10001, 3][i])).collect());
            t.security = strs(5);
            t.profile = Some(strs(4));
            t.uri_variables = Some(named((0..5).map(|i| (["a", "b", "c", "d", "e"][i], small(i))).collect()));
            t.schema_definitions = Some(named((0..8).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h"][i], small(7 - i))).collect()));
            v.visit(t)
        }
        3 => {
            let mut t = thing(0);
            t.security_definitions = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"].iter().enumerate().map(|(i, n)| (n.to_string(), one_security(i))).collect();
            t.security = strs(11);
            v.visit(t)
        }
        4 => {
            let mut f = form(0b1111_1110);
            let mut ops: Vec<FormOperation> = OPS.iter().map(|o| o.0).collect();
            match pick(3) {
                0 => (),
                1 => ops.reverse(),
                _ => ops.extend([OPS[3].0, OPS[3].0]),
            }
            f.op = DefaultedFormOperations::Custom(ops);
            f.security = Some(strs(5));
            f.scopes = Some(strs(6));
            f.additional_responses = Some((0..6).map(|i| addresp(i as u64 % 4)).collect());
            v.visit(f)
        }
        5 => {
            let n = ODD[pick(ODD.len())];
            let mut t = thing(0);
            t.properties = Some(named(vec![(n, property(0x20, small(5).subtype)), ("z", property(0, None))]));
            t.actions = Some(named(vec![(n, action(0x180)), ("z", action(0))]));
            t.events = Some(named(vec![(n, event(0x100)), ("z", event(0))]));
            t.uri_variables = Some(named(vec![(n, small(3)), ("z", small(1))]));
            t.schema_definitions = Some(named(vec![("z", small(3)), (n, small(1))]));
            t.security_definitions = named(vec![(n, security(0, 0)), ("z", security(1, 0))]);
            t.security = vec![n.to_string()];
            v.visit(t)
        }
        _ => {
            let n = ODD[pick(ODD.len())];
            let mut s = small(0);
            s.subtype = Some(Sub::Object(ObjS { properties: Some(named(vec![(n, small(5)), ("z", small(2))])), required: Some(vec![n.to_string(), "z".to_string()]), ..Default::default() }));
            let mut i = inter(0);
            i.uri_variables = Some(named(vec![(n, small(3)), ("z", s.clone())]));
            v.visit(ActionAffordance { interaction: i, input: Some(s.clone()), output: Some(s), safe: true, idempotent: false, synchronous: None, other: wot_td::hlist::Nil })
        }
    }
}
/// Every case: first parameter the group, second the case.
pub fn cases(v: &impl Visit) {
    let k = param(1);
    match param(0) {
        0 => schemas(k, v),
        1 => securities(k, v),
        2 => parts(k, v),
        3 => things(k, v),
        _ => large(k, v),
    }
}
