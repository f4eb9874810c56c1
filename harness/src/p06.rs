//! Malformed language tags are refused wherever text is translated.
use crate::{ast::*, dress, gen::*, place::*, sym::{text, any_u8, assume, check, cover, flag, param, pick}};
use wot_td::builder::Error;
use wot_td::hlist::Nil;
use wot_td::thing::*;

// ------------------------------------------------ RFC 5646, section 2.1, for tags up to 9 symbols

fn alpha(b: u8) -> bool {
    ((b | 0x20) >= b'a') & ((b | 0x20) <= b'z')
}
fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
fn all(s: &[u8], f: impl Fn(u8) -> bool) -> bool {
    let mut r = true;
    for b in s {
        r &= f(*b);
    }
    r
}
fn alnum(b: u8) -> bool {
    alpha(b) | digit(b)
}
/// Well-formed, by the grammar (read from the right end of the language on, with no look at the
/// registry).
pub fn well_formed(t: &[u8]) -> bool {
    // irregular and regular grandfathered tags, and private use, are judged as a whole
    const WHOLE: [&str; 12] = ["i-ami", "i-bnn", "i-hak", "i-lux", "i-pwn", "i-tao", "i-tay", "i-tsu", "i-default", "i-klingon", "i-navajo", "i-mingo"];
    for w in WHOLE {
        if w.len() == t.len() {
            let mut r = true;
            for (a, b) in w.bytes().zip(t) {
                r &= a == (*b | if a == b'-' { 0 } else { 0x20 });
            }
            if r {
                return true;
            }
        }
    }
    let parts: Vec<&[u8]> = t.split(|b| *b == b'-').collect();
    if parts.iter().any(|p| p.is_empty() || p.len() > 8) {
        return false;
    }
    if !parts.iter().all(|p| all(p, alnum)) {
        return false;
    }
    let single = |p: &[u8], c: u8| p.len() == 1 && p[0] | 0x20 == c;
    let mut i = 0;
    if !single(parts[0], b'x') {
        if parts[0].len() < 2 || !all(parts[0], alpha) {
            return false;
        }
        i = 1;
        if parts[0].len() < 4 {
            // extended language
            let mut n = 0;
            while n < 3 && i < parts.len() && parts[i].len() == 3 && all(parts[i], alpha) {
                i += 1;
                n += 1;
            }
        }
        if i < parts.len() && parts[i].len() == 4 && all(parts[i], alpha) {
            i += 1;
        }
        if i < parts.len() && ((parts[i].len() == 2 && all(parts[i], alpha)) || (parts[i].len() == 3 && all(parts[i], digit))) {
            i += 1;
        }
        while i < parts.len() && (parts[i].len() >= 5 || (parts[i].len() == 4 && digit(parts[i][0]))) {
            i += 1;
        }
        // extensions
        while i < parts.len() && parts[i].len() == 1 && parts[i][0] | 0x20 != b'x' {
            i += 1;
            let from = i;
            while i < parts.len() && parts[i].len() >= 2 {
                i += 1;
            }
            if i == from {
                return false;
            }
        }
    }
    if i < parts.len() {
        // private use
        return single(parts[i], b'x') && i + 1 < parts.len();
    }
    true
}

/// A tag: symbolic with two symbols, or one of a list.
fn tag() -> String {
    match param(1) {
        0 => sym_tag(2),
        _ => {
            const T: [&str; 16] = ["en", "de-DE", "zh-Hant-TW", "sl-rozaj-biske", "de-1996", "es-419", "en-a-bbb-x-a", "x-a-b", "", "e", "en-", "-en", "en--US", "en_US", "123", "en-x"];
            T[pick(16)].to_string()
        }
    }
}
fn sym_tag(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| any_u8() & 0x7f).collect();
    String::from_utf8(v).unwrap()
}
fn tags(t: &str) -> Tags {
    // a well-formed translation before or after
    match pick(3) {
        0 => Some(vec![(t.to_string(), text())]),
        1 => Some(vec![("fr-CA".to_string(), text()), (t.to_string(), text())]),
        _ => Some(vec![(t.to_string(), text()), ("fr-CA".to_string(), text())]),
    }
}
fn put(i: &mut Info, k: usize, t: &str) {
    if k == 0 {
        i.titles = tags(t);
    } else {
        i.descriptions = tags(t);
    }
    if flag() {
        i.title = Some("t".into());
        if k == 0 {
            i.descriptions = Some(vec![("es".into(), "x".into())]);
        } else {
            i.titles = Some(vec![("es".into(), "x".into())]);
        }
    }
}
/// Every translation under its tag, and no others.
fn found(got: &Option<Ml>, want: &Tags) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => {
            let mut r = g.len() == w.len();
            for (k, v) in w {
                r &= g.iter().any(|x| x.0.as_str().eq_ignore_ascii_case(k) && x.1 == v);
            }
            r
        }
        _ => false,
    }
}
fn judged(t: &Th, tag: &str) -> Option<Thing<Nil>> {
    let f = if well_formed(tag.as_bytes()) { vec![] } else { vec![Error::InvalidLanguageTag(tag.to_string())] };
    judge(build(t), &f, "a well-formed language tag is not refused", "a malformed language tag is refused", "the error carries the tag")
}
/// The texts of the Thing, and of affordances, for `p` from 0.
#[no_mangle]
pub extern "C" fn p06_affordances() {
    let t = tag();
    let mut th = Th { title: "t".into(), ..Default::default() };
    let mut i = Info::default();
    put(&mut i, pick(2), &t);
    let p = param(0);
    let second = p > 3;
    if second {
        th.properties.push(("o".into(), prop(sch(Kind::Bool))));
        th.actions.push(("o".into(), Act::default()));
        th.events.push(("o".into(), Ev::default()));
    }
    match p {
        0 => th.info = i.clone(),
        1 | 4 => {
            let mut s = sch([Kind::Bool, Kind::Const(serde_json::Value::Null), Kind::Int { lo: None, hi: None, mult: None }, Kind::Enum(vec![serde_json::Value::Null]), Kind::OneOf(vec![sch(Kind::Null)])][pick(5)].clone());
            s.info = i.clone();
            s.order = if flag() { 2 } else { 0 };
            th.properties.push(("p".into(), prop(s)));
        }
        2 | 5 => th.actions.push(("p".into(), Act { aff: Aff { info: i.clone(), ..Default::default() }, ..Default::default() })),
        _ => th.events.push(("p".into(), Ev { aff: Aff { info: i.clone(), ..Default::default() }, ..Default::default() })),
    }
    if let Some(r) = judged(&th, &t) {
        let (a, b) = match p {
            0 => (&r.titles, &r.descriptions),
            1 | 4 => {
                let q = &r.properties.as_ref().unwrap()["p"];
                check(found(&q.data_schema.titles, &i.titles) & found(&q.data_schema.descriptions, &i.descriptions), "each translation is found under its tag");
                (&q.interaction.titles, &q.interaction.descriptions)
            }
            2 | 5 => (&r.actions.as_ref().unwrap()["p"].interaction.titles, &r.actions.as_ref().unwrap()["p"].interaction.descriptions),
            _ => (&r.events.as_ref().unwrap()["p"].interaction.titles, &r.events.as_ref().unwrap()["p"].interaction.descriptions),
        };
        check(found(a, &i.titles), "each translation is found under its tag");
        check(found(b, &i.descriptions), "each translation is found under its tag");
    }
}
fn kind(k: usize) -> Kind {
    match k {
        0 => Kind::Bool,
        1 => Kind::Null,
        2 => Kind::Num { lo: None, hi: None, mult: None },
        3 => Kind::Int { lo: None, hi: None, mult: None },
        4 => Kind::Str { lo: None, hi: None, pattern: None, encoding: None, media: None },
        5 => Kind::List { item: None, lo: None, hi: None },
        6 => Kind::Tuple(vec![sch(Kind::Bool)]),
        7 => Kind::Obj(vec![]),
        8 => Kind::Const(serde_json::Value::Null),
        9 => Kind::Enum(vec![serde_json::Value::Null]),
        _ => Kind::OneOf(vec![sch(Kind::Bool)]),
    }
}
/// The texts of a schema at every place, nested not at all, once or twice.
#[no_mangle]
pub extern "C" fn p06_schemas() {
    let t = tag();
    let p = param(0);
    let k = pick(2);
    let mut s = sch(Kind::Bool);
    put(&mut s.info, k, &t);
    let i = s.info.clone();
    let (a, b) = if param(2) == 1 { (nest_of_two(), nest_of_two()) } else { (pick(NESTS), 0) };
    assume(p != 0 || a != 0);
    let s = nest(b, nest(a, s));
    assume(fits(p, &s));
    let th = place(p, if param(1) == 0 { pick(3) } else { 0 }, s);
    if let Some(r) = judged(&th, &t) {
        let mut n = 0;
        let want = value(&th);
        check(r.properties.same(&want.properties) & r.actions.same(&want.actions) & r.events.same(&want.events) & r.uri_variables.same(&want.uri_variables) & r.schema_definitions.same(&want.schema_definitions), "each translation is found under its tag");
        n += i.titles.is_some() as usize;
        cover(if n > 0 { "titles" } else { "descriptions" });
    }
}
/// A schema of every kind, read-only or write-only or neither, its texts given early or late.
#[no_mangle]
pub extern "C" fn p06_kinds() {
    let t = tag();
    let mut s = sch(kind(pick(11)));
    put(&mut s.info, pick(2), &t);
    s.mode = pick(3) as u8;
    s.order = pick(3) as u8;
    assume(s.mode == 0 || !matches!(s.kind, Kind::Const(_) | Kind::OneOf(_)));
    let th = place([11, 1, 0][param(0)], 0, s);
    if let Some(r) = judged(&th, &t) {
        let want = value(&th);
        let f = |x: &Thing<Nil>| -> (Option<Ml>, Option<Ml>) {
            let d = match param(0) {
                0 => &x.schema_definitions.as_ref().unwrap()["d"],
                1 => x.actions.as_ref().unwrap()["p"].input.as_ref().unwrap(),
                _ => &x.properties.as_ref().unwrap()["p"].data_schema,
            };
            (d.titles.clone(), d.descriptions.clone())
        };
        let ((a, b), (c, d)) = (f(&r), f(&want));
        check(a.same(&c) & b.same(&d), "each translation is found under its tag");
    }
}
/// Security schemes of every kind, first or second.
#[no_mangle]
pub extern "C" fn p06_security() {
    let t = tag();
    let k = match pick(9) {
        0 => SecK::NoSec,
        1 => SecK::Auto,
        2 => SecK::Basic(None, None),
        3 => SecK::Digest(None, None, None),
        4 => SecK::ApiKey(None, None),
        5 => SecK::Bearer { auth: None, alg: None, format: None, loc: None, name: None },
        6 => SecK::Psk,
        7 => SecK::OAuth2 { flow: "code".into(), auth: None, token: None, refresh: None, scopes: vec![] },
        _ => SecK::Custom("x".into(), None),
    };
    let s = Sec { key: Some("k".into()), required: flag(), early: flag(), descriptions: tags(&t), ..sec(k) };
    let want = s.descriptions.clone();
    let mut th = Th { title: "t".into(), ..Default::default() };
    let other = Sec { key: Some("o".into()), ..sec(SecK::NoSec) };
    th.security = match pick(3) {
        0 => vec![s],
        1 => vec![other, s],
        _ => vec![s, other],
    };
    if let Some(r) = judged(&th, &t) {
        check(found(&r.security_definitions["k"].descriptions, &want), "each translation is found under its tag");
    }
}
/// Links: first or second language of a first or second link.
#[no_mangle]
pub extern "C" fn p06_links() {
    let t = tag();
    let mut th = Th { title: "t".into(), ..Default::default() };
    let ok = || Lk { href: "h".into(), hreflang: vec!["en".into()], ..Default::default() };
    let mut l = ok();
    l.hreflang.insert(pick(2), t.clone());
    l.late = flag();
    if flag() {
        l.rel = Some("icon".into());
        l.sizes = Some("1x1".into());
    }
    let want = l.hreflang.clone();
    let at = pick(3);
    th.links = match at {
        0 => vec![l],
        1 => vec![ok(), l],
        _ => vec![l, Lk { href: "g".into(), plain: true, ..Default::default() }],
    };
    if let Some(r) = judged(&th, &t) {
        let got = r.links.as_ref().unwrap()[(at == 1) as usize].hreflang.as_ref();
        check(got.map_or(false, |g| g.len() == 2 && g.iter().zip(&want).all(|(a, b)| a.as_str().eq_ignore_ascii_case(b))), "the languages of a link are kept");
    }
}
/// Every tag of the given length, over the symbols that matter and any others.
#[no_mangle]
pub extern "C" fn p06_tags() {
    let n = param(0);
    let t = sym_tag(n);
    let mut th = Th { title: "t".into(), ..Default::default() };
    th.info.titles = Some(vec![(t.clone(), "x".into())]);
    if let Some(r) = judged(&th, &t) {
        check(found(&r.titles, &th.info.titles), "each translation is found under its tag");
    }
}
/// Malformed tags at two places at once: the error carries one of them.
#[no_mangle]
pub extern "C" fn p06_two() {
    let (x, y) = (sym_tag(1), sym_tag(2));
    let mut th = Th { title: "t".into(), ..Default::default() };
    th.info.titles = Some(vec![(x.clone(), "x".into())]);
    th.info.descriptions = Some(vec![(y.clone(), "x".into())]);
    let mut f = vec![Error::InvalidLanguageTag(x)];
    if !well_formed(y.as_bytes()) {
        f.push(Error::InvalidLanguageTag(y));
    }
    judge(build(&th), &f, "a well-formed language tag is not refused", "a malformed language tag is refused", "the error carries the tag");
}
/// In Things that have other parts and members: a tag at every place a text can be translated.
#[no_mangle]
pub extern "C" fn p06_dressed() {
    let t = if flag() { sym_tag(2) } else { ["en-", "de-DE"][pick(2)].to_string() };
    let p = param(0);
    let k = pick(2);
    let mut i = Info::default();
    if k == 0 {
        i.titles = tags1(&t);
    } else {
        i.descriptions = tags1(&t);
    }
    let mut th = Th { title: "t".into(), ..Default::default() };
    match p {
        0 => th.info = i,
        1 => th.actions.push(("p".into(), Act { aff: Aff { info: i, ..Default::default() }, ..Default::default() })),
        2 => th.events.push(("p".into(), Ev { aff: Aff { info: i, ..Default::default() }, ..Default::default() })),
        3 => th.security.push(Sec { key: Some("k".into()), required: flag(), descriptions: tags1(&t), ..sec(if k == 0 { SecK::NoSec } else { SecK::Custom("x".into(), None) }) }),
        4 => th.links.push(Lk { href: "h".into(), hreflang: vec!["en".into(), t.clone()], rel: if k == 0 { Some("icon".into()) } else { None }, ..Default::default() }),
        _ => {
            let mut s = sch(Kind::Int { lo: None, hi: None, mult: None });
            s.info = i;
            let s = if param(5) == 0 { nest([0, 5, 8][pick(3)], s) } else { nest([8, 9, 10][pick(3)], s) };
            assume(fits(p - 5, &s));
            th = place(p - 5, 0, s);
        }
    }
    dress::surround(&mut th);
    if let Some(r) = judged(&th, &t) {
        let want = value(&th);
        check(r.titles.same(&want.titles) & r.descriptions.same(&want.descriptions) & links_same(&r.links, &want.links) & r.security_definitions.same(&want.security_definitions), "each translation is found under its tag");
        check(r.properties.same(&want.properties) & r.actions.same(&want.actions) & r.events.same(&want.events) & r.uri_variables.same(&want.uri_variables) & r.schema_definitions.same(&want.schema_definitions), "each translation is found under its tag");
    }
}
fn tags1(t: &str) -> Tags {
    Some(if flag() { vec![("fr-CA".into(), text()), (t.into(), text())] } else { vec![(t.into(), text()), ("fr-CA".into(), text())] })
}
/// Languages compare without regard to case.
fn links_same(a: &Option<Vec<Link>>, b: &Option<Vec<Link>>) -> bool {
    let low = |l: &Option<Vec<Link>>| -> Vec<Vec<String>> { l.iter().flatten().map(|l| l.hreflang.iter().flatten().map(|t| t.as_str().to_ascii_lowercase()).collect()).collect() };
    low(a) == low(b)
}
