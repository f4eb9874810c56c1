//! A Thing with everything else it could have: what is asked of a Thing must hold whatever else it
//! has, so every fault is also put into Things that have other, faultless, parts and members.
#![allow(dead_code)]
use crate::{ast::*, place::good, sym::*};
use wot_td::thing::FormOperation;

pub const DRESS: usize = 32;
/// The names that dressing uses; none can be made of one or two letters.
pub const KEYS: [&str; 2] = ["key-a", "key-b"];
pub const DEF: &str = "def-a";

fn tags() -> Tags {
    Some(vec![("it".into(), text()), ("en-GB".into(), text())])
}
fn info(i: &mut Info, m: u64, b: usize) {
    if has(m, b) {
        i.attype.push(text());
        i.title = i.title.take().or_else(|| Some(text()));
        i.description = i.description.take().or_else(|| Some(text()));
    }
    if has(m, b + 1) {
        i.titles = i.titles.take().or_else(tags);
        i.descriptions = i.descriptions.take().or_else(tags);
    }
}
fn in_schema(s: &mut Sch, f: &mut dyn FnMut(&mut Sch)) {
    f(s);
    match &mut s.kind {
        Kind::List { item: Some(i), .. } => in_schema(i, f),
        Kind::Tuple(v) | Kind::OneOf(v) => v.iter_mut().for_each(|x| in_schema(x, f)),
        Kind::Obj(v) => v.iter_mut().for_each(|x| in_schema(&mut x.2, f)),
        _ => (),
    }
}
/// Every schema of a Thing, nested ones included.
pub fn each_schema(t: &mut Th, f: &mut dyn FnMut(&mut Sch)) {
    for (_, p) in &mut t.properties {
        in_schema(&mut p.sch, f);
        p.uri.iter_mut().for_each(|x| in_schema(&mut x.1, f));
    }
    for (_, a) in &mut t.actions {
        for s in [&mut a.input, &mut a.output].into_iter().flatten() {
            in_schema(s, f);
        }
        a.aff.uri.iter_mut().for_each(|x| in_schema(&mut x.1, f));
    }
    for (_, a) in &mut t.events {
        for s in [&mut a.subscription, &mut a.data, &mut a.data_response, &mut a.cancellation].into_iter().flatten() {
            in_schema(s, f);
        }
        a.aff.uri.iter_mut().for_each(|x| in_schema(&mut x.1, f));
    }
    t.uri.iter_mut().for_each(|x| in_schema(&mut x.1, f));
    t.defs.iter_mut().for_each(|x| in_schema(&mut x.1, f));
}
/// Every form, with the number of the kind of its place (Thing, property, action, event).
pub fn each_form(t: &mut Th, f: &mut dyn FnMut(&mut Fm, usize)) {
    t.forms.iter_mut().for_each(|x| f(x, 0));
    t.properties.iter_mut().for_each(|p| p.1.forms.iter_mut().for_each(|x| f(x, 1)));
    t.actions.iter_mut().for_each(|p| p.1.aff.forms.iter_mut().for_each(|x| f(x, 2)));
    t.events.iter_mut().for_each(|p| p.1.aff.forms.iter_mut().for_each(|x| f(x, 3)));
}
fn full_form(p: usize) -> Fm {
    use FormOperation::*;
    Fm {
        href: text(),
        op: vec![[ReadMultipleProperties, WriteProperty, QueryAction, SubscribeEvent][p], [QueryAllActions, ObserveProperty, InvokeAction, UnsubscribeEvent][p]],
        content_type: Some(text()),
        content_coding: Some(text()),
        subprotocol: Some(text()),
        security: vec![KEYS[0].into(), KEYS[1].into()],
        scopes: vec![text()],
        response: Some(text()),
        addl: vec![(true, Some(text()), Some(DEF.into())), (false, None, None)],
        late: false,
    }
}
fn plain_form(p: usize) -> Fm {
    Fm { href: text(), op: if p == 0 { vec![FormOperation::WriteAllProperties] } else { vec![] }, ..Default::default() }
}
fn wrap(v: &mut Vec<Fm>, m: u64, b: usize, p: usize) {
    if has(m, b) {
        v.insert(0, full_form(p));
    }
    if has(m, b + 1) {
        v.push(plain_form(p));
    }
}
fn var() -> (String, Sch) {
    ("var-a".into(), good())
}
fn other_prop() -> Prop {
    let mut s = sch(Kind::Obj(vec![("a".into(), true, good()), ("b".into(), false, sch(Kind::Tuple(vec![good(), sch(Kind::Bool)])))]));
    s.info.title = Some(text());
    Prop { forms: vec![full_form(1)], uri: vec![var()], observable: Some(true), ..prop(s) }
}
fn other_act() -> Act {
    Act { aff: Aff { forms: vec![full_form(2)], uri: vec![var()], ..Default::default() }, input: Some(good()), output: Some(sch(Kind::Null)), safe: true, idempotent: true, synchronous: Some(false) }
}
fn other_ev() -> Ev {
    Ev { aff: Aff { forms: vec![full_form(3)], uri: vec![var()], ..Default::default() }, subscription: Some(good()), data: Some(sch(Kind::Bool)), data_response: Some(good()), cancellation: Some(sch(Kind::Null)) }
}
/// Adds to the Thing what the mask says; adds no fault.
pub fn dress(t: &mut Th, m: u64) {
    // what its schemas have
    each_schema(t, &mut |s| {
        info(&mut s.info, m, 0);
        if has(m, 2) {
            s.unit = Some(text());
        }
        if has(m, 3) {
            s.format = Some(text());
        }
        if has(m, 4) {
            s.default = Some(crate::util::vu(3));
        }
        if !matches!(s.kind, Kind::Const(_) | Kind::OneOf(_)) {
            if has(m, 5) {
                s.mode = 1;
            } else if has(m, 6) {
                s.mode = 2;
            }
        }
        if has(m, 7) {
            s.order = 2 - s.order.min(2);
        }
    });
    // what its forms have
    each_form(t, &mut |f, p| {
        let g = full_form(p);
        if has(m, 8) {
            f.content_type = g.content_type;
            f.content_coding = g.content_coding;
        }
        if has(m, 9) {
            f.subprotocol = g.subprotocol;
            f.scopes = g.scopes;
        }
        if has(m, 10) {
            f.security.insert(0, KEYS[1].into());
        }
        if has(m, 11) {
            f.response = g.response;
            f.addl.insert(0, g.addl[0].clone());
        }
        if has(m, 12) {
            f.op.insert(0, g.op[0]);
        }
        f.late ^= has(m, 13);
    });
    // what its affordances have
    for (_, p) in &mut t.properties {
        wrap(&mut p.forms, m, 14, 1);
        if has(m, 16) {
            p.uri.push(var());
            p.observable = Some(true);
        }
    }
    for (_, a) in &mut t.actions {
        info(&mut a.aff.info, m, 0);
        wrap(&mut a.aff.forms, m, 14, 2);
        if has(m, 16) {
            a.aff.uri.push(var());
            a.safe = true;
        }
        if has(m, 17) {
            a.idempotent = true;
            a.synchronous = Some(true);
        }
        if has(m, 18) {
            a.input = a.input.take().or_else(|| Some(good()));
            a.output = a.output.take().or_else(|| Some(good()));
        }
    }
    for (_, a) in &mut t.events {
        info(&mut a.aff.info, m, 0);
        wrap(&mut a.aff.forms, m, 14, 3);
        if has(m, 16) {
            a.aff.uri.push(var());
        }
        if has(m, 17) {
            a.subscription = a.subscription.take().or_else(|| Some(good()));
            a.data_response = a.data_response.take().or_else(|| Some(good()));
        }
        if has(m, 18) {
            a.data = a.data.take().or_else(|| Some(good()));
            a.cancellation = a.cancellation.take().or_else(|| Some(good()));
        }
    }
    // other affordances
    if has(m, 19) {
        t.properties.insert(0, ("prop-a".into(), other_prop()));
    }
    if has(m, 20) {
        t.properties.push(("prop-b".into(), other_prop()));
    }
    if has(m, 21) {
        t.actions.insert(0, ("act-a".into(), other_act()));
        t.actions.push(("act-b".into(), Act::default()));
    }
    if has(m, 22) {
        t.events.insert(0, ("ev-a".into(), other_ev()));
        t.events.push(("ev-b".into(), Ev::default()));
    }
    // the Thing
    wrap(&mut t.forms, m, 23, 0);
    if has(m, 25) {
        t.links.insert(0, Lk { href: text(), ty: Some(text()), rel: Some("icon".into()), anchor: Some(text()), sizes: Some(text()), hreflang: vec!["en".into()], late: true, plain: false });
        t.links.push(Lk { href: text(), plain: true, ..Default::default() });
    }
    if has(m, 26) {
        t.uri.insert(0, ("var-b".into(), sch(Kind::Bool)));
        t.uri.push(("var-c".into(), good()));
    }
    if has(m, 27) {
        t.id = Some(text());
        t.base = Some(text());
        t.support = Some(text());
    }
    if has(m, 28) {
        t.version = Some((text(), Some(text())));
        t.profile = vec![text(), text()];
        t.context.push(Ctx::Map(vec![("ctx-a".into(), text())]));
        t.context.push(Ctx::Text("https://example.org/context".into()));
    }
    if has(m, 29) {
        let d = time::Date::from_calendar_date(2022, time::Month::May, 4).unwrap().with_hms(1, 2, 3).unwrap().assume_utc();
        t.created = Some(d);
        t.modified = Some(d);
    }
    info(&mut t.info, m, 30);
    t.info.title = None;
    // what the forms refer to
    let mut used = (false, false);
    each_form(t, &mut |f, _| {
        used.0 |= f.security.iter().any(|s| KEYS.contains(&s.as_str()));
        used.1 |= f.addl.iter().any(|a| a.2.as_deref() == Some(DEF));
    });
    if used.0 || has(m, 31) {
        t.security.insert(0, Sec { key: Some(KEYS[0].into()), required: true, description: Some(text()), descriptions: tags(), ..sec(SecK::Basic(Some(1), Some(text()))) });
        t.security.push(Sec { key: Some(KEYS[1].into()), ..sec(SecK::Combo(true, vec![KEYS[0].into()], 1, 0)) });
    }
    if used.1 || has(m, 26) {
        t.defs.insert(0, ("def-b".into(), sch(Kind::Tuple(vec![good()]))));
        t.defs.push((DEF.into(), good()));
    }
}
/// What to dress a Thing with: nothing, everything, each thing and everything but each; with every
/// subset asked for, also any two and everything but any two.
pub fn dressing() -> u64 {
    if full() {
        subset(DRESS)
    } else {
        subset1(DRESS)
    }
}
/// The names of security schemes its forms use, and those of schemas.
pub fn used(t: &Th) -> (Vec<String>, Vec<String>) {
    let (mut a, mut b) = (vec![], vec![]);
    let mut t = t.clone();
    each_form(&mut t, &mut |f, _| {
        a.extend(f.security.iter().cloned());
        b.extend(f.addl.iter().filter_map(|x| x.2.clone()));
    });
    (a, b)
}
/// How many of a kind are added by `crowd`, and which kinds there are.
pub const CROWDS: usize = 14;
fn among<T>(v: &mut Vec<T>, n: usize, at: usize, f: impl Fn(usize) -> T) {
    let before = [0, n / 2, n][at];
    let old = std::mem::take(v);
    v.extend((0..before).map(&f));
    v.extend(old);
    v.extend((before..n).map(&f));
}
fn nth(i: usize) -> String {
    let mut s = String::from("crowd-");
    s.push((b'0' + (i / 10) as u8) as char);
    s.push((b'0' + (i % 10) as u8) as char);
    s
}
/// Adds `n` faultless others of one kind; what was there is the first, in the middle or the last.
pub fn crowd(t: &mut Th, k: usize, n: usize, at: usize) {
    use FormOperation::*;
    match k {
        0 => among(&mut t.properties, n, at, |i| (nth(i), prop(good()))),
        1 => among(&mut t.actions, n, at, |i| (nth(i), Act { input: Some(good()), ..Default::default() })),
        2 => among(&mut t.events, n, at, |i| (nth(i), Ev { data: Some(good()), ..Default::default() })),
        3 => among(&mut t.uri, n, at, |i| (nth(i), good())),
        4 => among(&mut t.defs, n, at, |i| (nth(i), good())),
        5 => among(&mut t.links, n, at, |i| Lk { href: nth(i), ..Default::default() }),
        6 => among(&mut t.security, n, at, |i| Sec { key: Some(nth(i)), required: i % 2 == 0, ..sec(SecK::NoSec) }),
        7 => among(&mut t.forms, n, at, |i| Fm { href: nth(i), op: vec![QueryAllActions], ..Default::default() }),
        8 => {
            let f = |i| Fm { href: nth(i), ..Default::default() };
            t.properties.iter_mut().for_each(|p| among(&mut p.1.forms, n, at, f));
            t.actions.iter_mut().for_each(|p| among(&mut p.1.aff.forms, n, at, f));
            t.events.iter_mut().for_each(|p| among(&mut p.1.aff.forms, n, at, f));
        }
        9 => {
            let f = |i| (nth(i), good());
            t.properties.iter_mut().for_each(|p| among(&mut p.1.uri, n, at, f));
            t.actions.iter_mut().for_each(|p| among(&mut p.1.aff.uri, n, at, f));
            t.events.iter_mut().for_each(|p| among(&mut p.1.aff.uri, n, at, f));
        }
        10 => each_schema(t, &mut |s| match &mut s.kind {
            // not the enclosing ones of `good` schemas: those have no members
            Kind::Tuple(v) | Kind::OneOf(v) => among(v, n, at, |_| good()),
            Kind::Obj(v) => among(v, n, at, |i| (nth(i), i % 2 == 0, good())),
            _ => (),
        }),
        11 => {
            each_form(t, &mut |f, p| {
                let o = [[ReadAllProperties, QueryAllActions], [ReadProperty, WriteProperty], [InvokeAction, CancelAction], [SubscribeEvent, UnsubscribeEvent]][p];
                among(&mut f.op, n, at, |i| o[i % 2]);
                among(&mut f.scopes, n, at, nth);
            });
        }
        12 => {
            each_form(t, &mut |f, _| {
                among(&mut f.security, n, at, |_| KEYS[0].to_string());
                among(&mut f.addl, n, at, |i| (i % 3 == 0, None, if i % 2 == 0 { Some(DEF.into()) } else { None }));
            });
            t.security.iter_mut().for_each(|s| {
                if let SecK::Combo(_, v, i, j) = &mut s.kind {
                    among(v, n, at, |_| KEYS[0].to_string());
                    *i += n / 2;
                    *j += n / 4;
                }
            });
            t.security.push(Sec { key: Some(KEYS[0].into()), ..sec(SecK::Auto) });
            t.defs.push((DEF.into(), good()));
        }
        _ => {
            // there are not many well-formed tags at hand: private ones
            let tag = |i: usize| {
                let mut s = String::from("x-");
                s.push((b'a' + (i / 10) as u8) as char);
                s.push((b'a' + (i % 10) as u8) as char);
                s
            };
            let tags = |v: &mut Tags| {
                if let Some(v) = v {
                    among(v, n, at, |i| (tag(i), nth(i)));
                }
            };
            each_schema(t, &mut |s| {
                tags(&mut s.info.titles);
                tags(&mut s.info.descriptions);
                among(&mut s.info.attype, n, at, nth);
            });
            t.actions.iter_mut().for_each(|a| {
                tags(&mut a.1.aff.info.titles);
                tags(&mut a.1.aff.info.descriptions);
            });
            t.events.iter_mut().for_each(|a| {
                tags(&mut a.1.aff.info.titles);
                tags(&mut a.1.aff.info.descriptions);
            });
            tags(&mut t.info.titles);
            tags(&mut t.info.descriptions);
            t.security.iter_mut().for_each(|s| tags(&mut s.descriptions));
            t.links.iter_mut().for_each(|l| among(&mut l.hreflang, n, at, |i| tag(i)));
            among(&mut t.info.attype, n, at, nth);
            among(&mut t.profile, n, at, nth);
            among(&mut t.context, n, at, |i| Ctx::Text(nth(i)));
        }
    }
}
/// Dresses a Thing, or adds as many of a kind as the sixth parameter says.
pub fn surround(t: &mut Th) {
    match param(5) {
        0 => dress(t, dressing()),
        n => crowd(t, pick(CROWDS), n, pick(3)),
    }
}
