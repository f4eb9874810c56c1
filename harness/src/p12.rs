//! A document may leave out what has a default, write a list of one as its member, keep its
//! members in any order and carry members the reader does not know.
use crate::{cases::*, gen::*, sym::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Map, Value};
use wot_td::thing::*;

const MANY: [&str; 8] = ["@type", "security", "scopes", "profile", "hreflang", "op", "oneOf", "allOf"];
const DEFAULTS: [(&str, &str); 4] = [("qop", "auth"), ("alg", "ES256"), ("format", "jwt"), ("@context", TD_CONTEXT_11)];

fn each(v: &mut Value, f: &impl Fn(&str, &mut Value)) {
    match v {
        Value::Array(a) => {
            for x in a {
                each(x, f)
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                f(k, x);
                each(x, f);
            }
        }
        _ => {}
    }
}
/// Every list of strings of one member as that member.
fn narrow(v: &mut Value) {
    each(v, &|k, x| {
        if MANY.contains(&k) {
            let one = match x {
                Value::Array(a) if a.len() == 1 && a[0].is_string() => Some(a[0].take()),
                _ => None,
            };
            if let Some(s) = one {
                *x = s;
            }
        }
        if k == "additionalResponses" {
            let one = match x {
                Value::Array(a) if a.len() == 1 => Some(a[0].take()),
                _ => None,
            };
            if let Some(s) = one {
                *x = s;
            }
        }
    })
}
/// Every such member as a list.
fn widen(v: &mut Value) {
    each(v, &|k, x| {
        if (MANY.contains(&k) && x.is_string()) || (k == "additionalResponses" && x.is_object()) {
            *x = Value::Array(vec![x.take()]);
        }
    })
}
/// Without the members that say what is the default anyway.
fn sparse(v: &mut Value, keep_format: bool) {
    match v {
        Value::Array(a) => {
            for x in a {
                sparse(x, keep_format)
            }
        }
        Value::Object(o) => {
            let sec = o.get("scheme").map(|s| s.as_str().unwrap_or("").to_string());
            for k in ["readOnly", "writeOnly", "safe", "idempotent", "success"] {
                if o.get(k) == Some(&Value::Bool(false)) {
                    o.remove(k);
                }
            }
            if o.get("@context").map_or(false, |c| c == TD_CONTEXT_11) {
                o.remove("@context");
            }
            if let Some(s) = sec {
                let dl = if s == "apikey" { "query" } else { "header" };
                if o.get("in").map_or(false, |c| c == dl) {
                    o.remove("in");
                }
                for (k, d) in [("qop", "auth"), ("alg", "ES256"), ("format", "jwt")] {
                    if o.get(k).map_or(false, |c| c == d) {
                        o.remove(k);
                    }
                }
            }
            for (_, x) in o.iter_mut() {
                sparse(x, keep_format)
            }
        }
        _ => {}
    }
}
/// With members nobody knows.
fn strange(v: &mut Value) {
    if let Value::Object(o) = v {
        if o.get("scheme").map_or(false, |s| s == "custom") {
            return;
        }
        o.insert("0strange".into(), Value::Array(vec![Value::Null, vs("strange")]));
        o.insert("zz:strange".into(), Value::Object([("title".to_string(), vu(1))].into_iter().collect()));
        for k in ["properties", "actions", "events", "securityDefinitions", "schemaDefinitions", "uriVariables"] {
            if let Some(Value::Object(m)) = o.get_mut(k) {
                for (_, x) in m.iter_mut() {
                    strange(x)
                }
            }
        }
        for k in ["forms", "links", "oneOf", "additionalResponses", "items"] {
            match o.get_mut(k) {
                Some(Value::Array(m)) => {
                    for x in m.iter_mut() {
                        strange(x)
                    }
                }
                Some(x) => strange(x),
                None => {}
            }
        }
        for k in ["version", "input", "output", "subscription", "data", "cancellation", DATA_RESPONSE, "response", "items"] {
            if let Some(x) = o.get_mut(k) {
                strange(x)
            }
        }
    }
}
/// The text with the members of each object in the opposite order.
fn backwards(v: &Value, o: &mut String) {
    match v {
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push_str(" , ");
                }
                backwards(x, o);
            }
            o.push_str("]\n");
        }
        Value::Object(m) => {
            let keys: Vec<&String> = m.keys().collect();
            o.push_str("{\t");
            for (i, k) in keys.iter().rev().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(&vs(k).to_string());
                o.push_str(" : ");
                backwards(&m[*k], o);
            }
            o.push('}');
        }
        x => o.push_str(&x.to_string()),
    }
}
struct Read;
impl Visit for Read {
    fn visit<T: Serialize + DeserializeOwned + Same + Wire + PartialEq>(&self, t: T) {
        let mut w = t.wire();
        let what = param(2);
        let label = match what {
            0 => "a document as the specification writes it is read",
            1 => {
                narrow(&mut w);
                "a list of one may be written as its member"
            }
            2 => {
                widen(&mut w);
                "a single member may be written as a list of one"
            }
            3 => {
                sparse(&mut w, false);
                "what has a default may be left out"
            }
            4 => {
                strange(&mut w);
                "members that are not known are passed over"
            }
            _ => {
                let mut s = String::new();
                backwards(&w, &mut s);
                match of_s::<T>(&s) {
                    None => check(false, "the order of members does not matter"),
                    Some(b) => check(b.same(&t), "the order of members does not matter"),
                }
                cover("read");
                return;
            }
        };
        match of_v::<T>(w) {
            None => check(false, label),
            Some(b) => check(b.same(&t), label),
        }
        cover("read");
    }
}
#[no_mangle]
pub extern "C" fn p12_cases() {
    text_mode(param(2) >= 5);
    cases(&Read);
}
/// The defaults of a security scheme that says nothing but its kind.
#[no_mangle]
pub extern "C" fn p12_defaults() {
    use KnownSecuritySchemeSubtype as K;
    use SecurityAuthenticationLocation as L;
    let k = pick(6);
    let name = ["basic", "digest", "bearer", "apikey", "psk", "nosec"][k];
    let mut o = Obj::new();
    o.put("scheme", vs(name));
    let want = match k {
        0 => K::Basic(BasicSecurityScheme { location: L::Header, name: None }),
        1 => K::Digest(DigestSecurityScheme { qop: QualityOfProtection::Auth, location: L::Header, name: None }),
        2 => K::Bearer(BearerSecurityScheme { authorization: None, alg: "ES256".into(), format: "jwt".into(), location: L::Header, name: None }),
        3 => K::ApiKey(ApiKeySecurityScheme { location: L::Query, name: None }),
        4 => K::Psk(PskSecurityScheme { identity: None }),
        _ => K::NoSec,
    };
    match of_v::<SecurityScheme>(o.v()) {
        None => check(false, "a bare security scheme is read"),
        Some(s) => check(s.subtype.same(&SecuritySchemeSubtype::Known(want)), "a bare security scheme has the defaults of its kind"),
    }
    let t = of_v::<Thing<wot_td::hlist::Nil>>({
        let mut o = Obj::new();
        o.put("title", vs("t"));
        o.put("security", Value::Array(vec![]));
        o.put("securityDefinitions", Value::Object(Map::new()));
        o.v()
    });
    check(t.map_or(false, |t| t.context == vs(TD_CONTEXT_11)), "a document without a context has the context of TD 1.1");
    let f = of_v::<Form<wot_td::hlist::Nil>>({
        let mut o = Obj::new();
        o.put("href", vs("h"));
        o.v()
    });
    check(f.map_or(false, |f| f.op == DefaultedFormOperations::Default), "a form without operations has the default ones");
    let a = of_v::<AdditionalExpectedResponse>(Value::Object(Map::new()));
    check(a.map_or(false, |a| !a.success), "an additional response is no success unless it says so");
    cover("defaults");
}
