//! Two values are equal exactly when every part of them is; a copy is equal to its original.
use crate::{gen::*, sym::*};
use wot_td::{hlist::Nil, thing::*};

fn pair<T: PartialEq + Same>(a: T, b: T) {
    let want = a.same(&b);
    check((a == b) == want, "two values are equal exactly when every part of them is");
    check((b == a) == want, "equality is symmetric");
    check((a != b) != want, "unequal means not equal");
    check(a == a && b == b, "a value equals itself");
    cover("compared");
}
fn copied<T: PartialEq + Same + Clone>(a: T, b: T) {
    check(a.clone().same(&a), "a copy has every part of its original");
    let mut c = b.clone();
    c.clone_from(&a);
    check(c.same(&a), "a copy made over another value has every part of its original");
    pair(a, b);
}
/// A set of fields, and the same or one that differs in one field.
fn two(n: usize) -> (u64, u64) {
    let m = subset1(n);
    let k = pick(n + 1);
    (m, if k < n { m ^ (1 << k) } else { m })
}
/// Values of every type: independent contents, sets of fields that differ in at most one.
#[no_mangle]
pub extern "C" fn p17_fields() {
    match param(0) {
        0 => {
            let (m, n) = two(SCHEMA_FIELDS);
            let (j, k) = [(0, 0), (0, 2), (2, 7)][pick(3)];
            copied(schema(m, subtype(j)), schema(n, subtype(k)))
        }
        1 => {
            let (m, n) = two(4);
            let k = param(1);
            copied(security(k, m), security(k, n))
        }
        2 => {
            let (m, n) = two(5);
            copied(link(m), link(n))
        }
        3 => {
            let (m, n) = two(FORM_FIELDS);
            copied(form(m), form(n))
        }
        4 => {
            let (m, n) = two(8);
            pair(property(m, None), property(n, None))
        }
        5 => {
            let (m, n) = two(12);
            pair(action(m), action(n))
        }
        6 => {
            let (m, n) = two(11);
            pair(event(m), event(n))
        }
        7 => {
            let (m, n) = two(2);
            copied(addresp(m), addresp(n));
            copied(version(has(m, 0)), version(has(n, 0)));
            copied(ExpectedResponse { content_type: st(), other: Nil }, ExpectedResponse { content_type: st(), other: Nil });
        }
        _ => {
            let (m, n) = two(THING_FIELDS);
            pair(thing(m), thing(n))
        }
    }
}
/// Types of data schemas, each against itself with independent contents.
#[no_mangle]
pub extern "C" fn p17_types() {
    let k = param(0);
    let (a, b) = (subtype(k), subtype(k));
    copied(a, b);
}
/// Types of data schemas and security schemes against each other.
#[no_mangle]
pub extern "C" fn p17_kinds() {
    if param(0) == 0 {
        let (j, k) = (pick(8), pick(8));
        copied(small(j), small(k));
    } else {
        let (j, k) = (pick(SCHEMES), pick(SCHEMES));
        copied(fixed(j), fixed(k));
    }
}
fn fixed(k: usize) -> SecuritySchemeSubtype {
    use KnownSecuritySchemeSubtype::*;
    let (l, name) = (SecurityAuthenticationLocation::Header, None);
    SecuritySchemeSubtype::Known(match k {
        0 => NoSec,
        1 => Auto,
        2 => Combo(ComboSecurityScheme::OneOf(vec![st()])),
        3 => Basic(BasicSecurityScheme { location: l, name }),
        4 => Digest(DigestSecurityScheme { qop: QualityOfProtection::Auth, location: l, name }),
        5 => Bearer(BearerSecurityScheme { authorization: None, alg: "a".into(), format: "b".into(), location: l, name }),
        6 => Psk(PskSecurityScheme { identity: None }),
        7 => OAuth2(OAuth2SecurityScheme::new("f")),
        8 => ApiKey(ApiKeySecurityScheme { location: l, name }),
        _ => return security(k, 0).subtype,
    })
}
/// Dates: the same moment is the same date.
#[no_mangle]
pub extern "C" fn p17_dates() {
    use time::*;
    let at = |s: u8| PrimitiveDateTime::new(Date::from_calendar_date(2022, Month::March, 9).unwrap(), Time::from_hms(7, 6, s).unwrap()).assume_utc();
    let (x, y) = (any_u8(), any_u8());
    assume((x < 60) & (y < 60));
    let (mut a, mut b) = (thing(0), thing(0));
    b.title = a.title.clone();
    b.security = a.security.clone();
    b.security_definitions = a.security_definitions.clone();
    if flag() {
        a.created = Some(at(x));
        b.created = if flag() { Some(at(y)) } else { None };
    } else {
        a.modified = Some(at(x));
        b.modified = if flag() { Some(at(y)) } else { None };
    }
    pair(a, b);
}
