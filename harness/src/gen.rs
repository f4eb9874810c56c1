//! Values of every public data type, with symbolic contents, and three independent references:
//! `Gen` makes them, `Wire` says how the specification writes them, `Same` compares them field by
//! field (not through the crate's own `PartialEq`).
#![allow(dead_code)]
use crate::{
    sym::{any_name, assume, flag, flavour, has, members, pick, subset},
    util::*,
};
use oxilangtag::LanguageTag;
use serde_json::{Map, Value};
use std::collections::HashMap;
use wot_td::hlist::Nil;
use wot_td::thing::*;

pub type DS = DataSchema<Nil, Nil, Nil>;
pub type Sub = DataSchemaSubtype<Nil, Nil, Nil>;
pub type Arr = ArraySchema<Nil, Nil, Nil>;
pub type ObjS = ObjectSchema<Nil, Nil, Nil>;
pub type Ml = HashMap<LanguageTag<String>, String>;

pub const LANGS: [&str; 6] = ["en", "it-IT", "zh-Hant", "sl-rozaj-biske", "es-419", "x-a-b"];
pub const OPS: [(FormOperation, &str); 18] = [
    (FormOperation::ReadProperty, "readproperty"),
    (FormOperation::WriteProperty, "writeproperty"),
    (FormOperation::ObserveProperty, "observeproperty"),
    (FormOperation::UnobserveProperty, "unobserveproperty"),
    (FormOperation::InvokeAction, "invokeaction"),
    (FormOperation::QueryAction, "queryaction"),
    (FormOperation::CancelAction, "cancelaction"),
    (FormOperation::SubscribeEvent, "subscribeevent"),
    (FormOperation::UnsubscribeEvent, "unsubscribeevent"),
    (FormOperation::ReadAllProperties, "readallproperties"),
    (FormOperation::WriteAllProperties, "writeallproperties"),
    (FormOperation::ReadMultipleProperties, "readmultipleproperties"),
    (FormOperation::WriteMultipleProperties, "writemultipleproperties"),
    (FormOperation::ObserveAllProperties, "observeallproperties"),
    (FormOperation::UnobserveAllProperties, "unobserveallproperties"),
    (FormOperation::SubscribeAllEvents, "subscribeallevents"),
    (FormOperation::UnsubscribeAllEvents, "unsubscribeallevents"),
    (FormOperation::QueryAllActions, "queryallactions"),
];
pub const LOCS: [(SecurityAuthenticationLocation, &str); 5] = [
    (SecurityAuthenticationLocation::Header, "header"),
    (SecurityAuthenticationLocation::Query, "query"),
    (SecurityAuthenticationLocation::Body, "body"),
    (SecurityAuthenticationLocation::Cookie, "cookie"),
    (SecurityAuthenticationLocation::Uri, "uri"),
];

pub fn lang(i: usize) -> LanguageTag<String> {
    LanguageTag::parse(LANGS[i].to_string()).unwrap()
}
/// How leaves are made. Plain: any value. Text: for harnesses that go through the text form, where
/// every digit and escape is a branch: strings are letters, numbers are boundary values.
static TEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn text_mode(on: bool) {
    TEXT.store(on as usize, std::sync::atomic::Ordering::Relaxed);
}
fn text() -> bool {
    TEXT.load(std::sync::atomic::Ordering::Relaxed) != 0
}
/// Whether booleans are true and false in turn, rather than symbolic.
static COIN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn coins() {
    COIN.store(1, std::sync::atomic::Ordering::Relaxed);
}
fn coin() -> usize {
    let n = COIN.load(std::sync::atomic::Ordering::Relaxed);
    if n != 0 {
        COIN.store(n + 1, std::sync::atomic::Ordering::Relaxed);
    }
    n
}
/// In text mode, the next of the boundary values.
fn turn(n: usize) -> usize {
    (TEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) - 1) % n
}
pub fn st() -> String {
    if text() {
        let i = turn(26);
        match flavour() {
            0 | 27 => ((b'a' + i as u8) as char).to_string(),
            1 => String::new(),
            28 | 29 => if (i + flavour()) % 2 == 0 { String::new() } else { "x".into() },
            2 => ["\u{e9}", "\u{4e16}\u{754c}", "\u{1f980}", "e\u{301}", "\u{feff}", "\u{7f}"][i % 6].to_string(),
            3 => ["\"", "\\", "\n", "\u{0}", "/", " a ", "\t", "\u{1f}", "\\u0041", "\"\""][i % 10].to_string(),
            4 => ["null", "true", "0", "-1e5", "[]", "{}", "a,b", ":", "false", "NaN"][i % 10].to_string(),
            _ => crate::sym::LONG.to_string(),
        }
    } else {
        crate::sym::text()
    }
}
pub fn any_bool() -> bool {
    let c = coin();
    if c != 0 {
        // one path: true and false in turn
        c % 3 == 0
    } else if text() {
        flag()
    } else {
        crate::sym::any_bool()
    }
}
fn any_u32() -> u32 {
    if text() {
        [0, 1, u32::MAX, 10, 4_294_967_290][turn(5)]
    } else {
        crate::sym::any_u32()
    }
}
fn any_u64() -> u64 {
    if text() {
        [1, u64::MAX, 9_007_199_254_740_993, 10_000_000_000][turn(4)]
    } else {
        crate::sym::any_u64()
    }
}
fn any_i64() -> i64 {
    if text() {
        [-1, i64::MIN, i64::MIN + 1, -1000, -9_007_199_254_740_993][turn(5)]
    } else {
        let n = crate::sym::any_i64();
        match coin() {
            0 => n,
            k if k % 2 == 0 => n | i64::MIN,
            _ => n & i64::MAX,
        }
    }
}
fn finite_f64() -> f64 {
    if text() {
        [0.1, -1.5e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 9007199254740993.0, -0.0, 1e21, 123456.0, 0.3][turn(10)]
    } else {
        crate::sym::finite_f64()
    }
}
pub fn strs(n: usize) -> Vec<String> {
    (0..crate::sym::scale(n)).map(|_| st()).collect()
}
pub fn ml(n: usize) -> Ml {
    (0..crate::sym::scale(n).min(LANGS.len())).map(|i| (lang(i), st())).collect()
}
/// A JSON value of one of six kinds, leaves symbolic.
pub fn any_value(k: usize) -> Value {
    match k {
        0 => Value::Null,
        1 => Value::Bool(any_bool()),
        2 => vu(any_u64()),
        3 => vs(&st()),
        4 => Value::Array(vec![vs(&st()), Value::Null]),
        5 => {
            let mut o = Obj::new();
            o.put("k", vs(&st()));
            o.v()
        }
        6 => vf(finite_f64()),
        _ => {
            let n = any_i64();
            assume(n < 0);
            vi(n)
        }
    }
}

// ---------------------------------------------------------------- comparison

pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_eq { ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
same_eq!(bool, u8, u16, u32, u64, i64, String, std::num::NonZeroU64, Value, FormOperation, SecurityAuthenticationLocation, QualityOfProtection);
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self == o || (self.is_nan() & o.is_nan())
    }
}
impl Same for Nil {
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Same for () {
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Same for std::borrow::Cow<'static, str> {
    fn same(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Same for LanguageTag<String> {
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Box<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for i in 0..self.len() {
            r &= self[i].same(&o[i]);
        }
        r
    }
}
impl<T: Same> Same for HashMap<String, T> {
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for (k, v) in self {
            match o.get(k) {
                None => return false,
                Some(w) => r &= v.same(w),
            }
        }
        r
    }
}
impl Same for Ml {
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for (k, v) in self {
            // the case of a language tag has no meaning (RFC 5646, 2.1.1)
            match o.iter().find(|x| x.0.as_str().eq_ignore_ascii_case(k.as_str())) {
                None => return false,
                Some(w) => r &= v == w.1,
            }
        }
        r
    }
}
macro_rules! same_struct {
    ([$($g:tt)*] $t:ty { $($f:ident),* }) => {
        impl<$($g)*> Same for $t {
            fn same(&self, o: &Self) -> bool {
                let mut r = true;
                $( r &= self.$f.same(&o.$f); )*
                r
            }
        }
    };
}
impl<T: Same> Same for Maximum<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Maximum::Inclusive(a), Maximum::Inclusive(b)) => a.same(b),
            (Maximum::Exclusive(a), Maximum::Exclusive(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Minimum<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Minimum::Inclusive(a), Minimum::Inclusive(b)) => a.same(b),
            (Minimum::Exclusive(a), Minimum::Exclusive(b)) => a.same(b),
            _ => false,
        }
    }
}
same_struct!([] NumberSchema { maximum, minimum, multiple_of });
same_struct!([] IntegerSchema { maximum, minimum, multiple_of });
same_struct!([] StringSchema { min_length, max_length, pattern, content_encoding, content_media_type });
same_struct!([A: Same, B: Same, C: Same] ObjectSchema<A, B, C> { properties, required, other });
impl<T: Same> Same for BoxedElemOrVec<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (BoxedElemOrVec::Elem(a), BoxedElemOrVec::Elem(b)) => a.same(b),
            (BoxedElemOrVec::Vec(a), BoxedElemOrVec::Vec(b)) => a.same(b),
            _ => false,
        }
    }
}
same_struct!([A: Same, B: Same, C: Same] ArraySchema<A, B, C> { items, min_items, max_items, other });
impl<A: Same, B: Same, C: Same> Same for DataSchemaSubtype<A, B, C> {
    fn same(&self, o: &Self) -> bool {
        use DataSchemaSubtype::*;
        match (self, o) {
            (Array(a), Array(b)) => a.same(b),
            (Boolean, Boolean) => true,
            (Number(a), Number(b)) => a.same(b),
            (Integer(a), Integer(b)) => a.same(b),
            (Object(a), Object(b)) => a.same(b),
            (String(a), String(b)) => a.same(b),
            (Null, Null) => true,
            _ => false,
        }
    }
}
same_struct!([A: Same, B: Same, C: Same] DataSchema<A, B, C> { attype, title, titles, description, descriptions, constant, default, unit, one_of, enumeration, read_only, write_only, format, subtype, other });
same_struct!([] BasicSecurityScheme { location, name });
same_struct!([] DigestSecurityScheme { qop, location, name });
same_struct!([] ApiKeySecurityScheme { location, name });
same_struct!([] BearerSecurityScheme { authorization, alg, format, location, name });
same_struct!([] PskSecurityScheme { identity });
same_struct!([] OAuth2SecurityScheme { authorization, token, refresh, scopes, flow });
same_struct!([] UnknownSecuritySchemeSubtype { scheme, data });
impl Same for ComboSecurityScheme {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (ComboSecurityScheme::OneOf(a), ComboSecurityScheme::OneOf(b)) => a.same(b),
            (ComboSecurityScheme::AllOf(a), ComboSecurityScheme::AllOf(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Same for KnownSecuritySchemeSubtype {
    fn same(&self, o: &Self) -> bool {
        use KnownSecuritySchemeSubtype::*;
        match (self, o) {
            (NoSec, NoSec) | (Auto, Auto) => true,
            (Combo(a), Combo(b)) => a.same(b),
            (Basic(a), Basic(b)) => a.same(b),
            (Digest(a), Digest(b)) => a.same(b),
            (Bearer(a), Bearer(b)) => a.same(b),
            (Psk(a), Psk(b)) => a.same(b),
            (OAuth2(a), OAuth2(b)) => a.same(b),
            (ApiKey(a), ApiKey(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Same for SecuritySchemeSubtype {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (SecuritySchemeSubtype::Known(a), SecuritySchemeSubtype::Known(b)) => a.same(b),
            (SecuritySchemeSubtype::Unknown(a), SecuritySchemeSubtype::Unknown(b)) => a.same(b),
            _ => false,
        }
    }
}
same_struct!([] SecurityScheme { attype, description, descriptions, proxy, subtype });
same_struct!([] Link { href, ty, rel, anchor, sizes, hreflang });
same_struct!([T: Same] ExpectedResponse<T> { content_type, other });
same_struct!([] AdditionalExpectedResponse { success, content_type, schema });
same_struct!([] VersionInfo { instance, model });
impl Same for DefaultedFormOperations {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (DefaultedFormOperations::Default, DefaultedFormOperations::Default) => true,
            (DefaultedFormOperations::Custom(a), DefaultedFormOperations::Custom(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Same for Form<Nil> {
    fn same(&self, o: &Self) -> bool {
        let mut r = self.op.same(&o.op);
        r &= self.href.same(&o.href);
        r &= self.content_type.same(&o.content_type);
        r &= self.content_coding.same(&o.content_coding);
        r &= self.subprotocol.same(&o.subprotocol);
        r &= self.security.same(&o.security);
        r &= self.scopes.same(&o.scopes);
        r &= self.response.same(&o.response);
        r &= self.additional_responses.same(&o.additional_responses);
        r
    }
}
same_struct!([] InteractionAffordance<Nil> { attype, title, titles, description, descriptions, forms, uri_variables });
same_struct!([] PropertyAffordance<Nil> { interaction, data_schema, observable });
same_struct!([] ActionAffordance<Nil> { interaction, input, output, safe, idempotent, synchronous });
same_struct!([] EventAffordance<Nil> { interaction, subscription, data, data_response, cancellation });
impl Same for Thing<Nil> {
    fn same(&self, o: &Self) -> bool {
        thing_diff(self, o).is_none()
    }
}
/// The first field in which two things differ.
pub fn thing_diff(a: &Thing<Nil>, b: &Thing<Nil>) -> Option<&'static str> {
    macro_rules! f { ($($f:ident),*) => { $( if !a.$f.same(&b.$f) { return Some(stringify!($f)); } )* } }
    f!(context, id, attype, title, titles, description, descriptions, version);
    if a.created != b.created || a.created.map(|x| x.offset()) != b.created.map(|x| x.offset()) {
        return Some("created");
    }
    if a.modified != b.modified || a.modified.map(|x| x.offset()) != b.modified.map(|x| x.offset()) {
        return Some("modified");
    }
    f!(support, base, properties, actions, events, links, forms, security, security_definitions, uri_variables, profile, schema_definitions);
    None
}

// ---------------------------------------------------------------- how the specification writes them

pub fn one_or_many(v: &[String]) -> Value {
    if v.len() == 1 {
        vs(&v[0])
    } else {
        many(v)
    }
}
pub fn many(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| vs(s)).collect())
}
pub trait Wire {
    fn wire(&self) -> Value;
}
pub fn wire_ml(m: &Ml) -> Value {
    let mut o = Obj::new();
    for (k, v) in m {
        o.put(k.as_str(), vs(v));
    }
    o.v()
}
pub fn wire_map<T: Wire>(m: &HashMap<String, T>) -> Value {
    let mut o = Obj::new();
    for (k, v) in m {
        o.put(k, v.wire());
    }
    o.v()
}
pub fn wire_vec<T: Wire>(m: &[T]) -> Value {
    Value::Array(m.iter().map(|x| x.wire()).collect())
}
fn opt_s(o: &mut Obj, k: &str, v: &Option<String>) {
    if let Some(v) = v {
        o.put(k, vs(v));
    }
}
fn opt_u(o: &mut Obj, k: &str, v: Option<u32>) {
    if let Some(v) = v {
        o.put(k, vu(v as u64));
    }
}
fn info(o: &mut Obj, at: &Option<Vec<String>>, t: &Option<String>, ts: &Option<Ml>, d: &Option<String>, dd: &Option<Ml>) {
    if let Some(a) = at {
        o.put("@type", one_or_many(a));
    }
    opt_s(o, "title", t);
    if let Some(m) = ts {
        o.put("titles", wire_ml(m));
    }
    opt_s(o, "description", d);
    if let Some(m) = dd {
        o.put("descriptions", wire_ml(m));
    }
}
pub fn wire_sub(o: &mut Obj, s: &Sub) {
    match s {
        Sub::Array(a) => {
            o.put("type", vs("array"));
            match &a.items {
                None => {}
                Some(BoxedElemOrVec::Elem(e)) => o.put("items", e.wire()),
                Some(BoxedElemOrVec::Vec(v)) => o.put("items", wire_vec(v)),
            }
            opt_u(o, "minItems", a.min_items);
            opt_u(o, "maxItems", a.max_items);
        }
        Sub::Boolean => o.put("type", vs("boolean")),
        Sub::Number(n) => {
            o.put("type", vs("number"));
            match n.maximum {
                None => {}
                Some(Maximum::Inclusive(x)) => o.put("maximum", vf(x)),
                Some(Maximum::Exclusive(x)) => o.put("exclusiveMaximum", vf(x)),
            }
            match n.minimum {
                None => {}
                Some(Minimum::Inclusive(x)) => o.put("minimum", vf(x)),
                Some(Minimum::Exclusive(x)) => o.put("exclusiveMinimum", vf(x)),
            }
            if let Some(x) = n.multiple_of {
                o.put("multipleOf", vf(x));
            }
        }
        Sub::Integer(n) => {
            o.put("type", vs("integer"));
            match n.maximum {
                None => {}
                Some(Maximum::Inclusive(x)) => o.put("maximum", vi(x)),
                Some(Maximum::Exclusive(x)) => o.put("exclusiveMaximum", vi(x)),
            }
            match n.minimum {
                None => {}
                Some(Minimum::Inclusive(x)) => o.put("minimum", vi(x)),
                Some(Minimum::Exclusive(x)) => o.put("exclusiveMinimum", vi(x)),
            }
            if let Some(x) = n.multiple_of {
                o.put("multipleOf", vu(x.get()));
            }
        }
        Sub::Object(b) => {
            o.put("type", vs("object"));
            if let Some(p) = &b.properties {
                o.put("properties", wire_map(p));
            }
            if let Some(r) = &b.required {
                o.put("required", many(r));
            }
        }
        Sub::String(s) => {
            o.put("type", vs("string"));
            opt_u(o, "minLength", s.min_length);
            opt_u(o, "maxLength", s.max_length);
            opt_s(o, "pattern", &s.pattern);
            opt_s(o, "contentEncoding", &s.content_encoding);
            opt_s(o, "contentMediaType", &s.content_media_type);
        }
        Sub::Null => o.put("type", vs("null")),
    }
}
impl Wire for DS {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        info(&mut o, &self.attype, &self.title, &self.titles, &self.description, &self.descriptions);
        if let Some(c) = &self.constant {
            o.put("const", c.clone());
        }
        if let Some(c) = &self.default {
            o.put("default", c.clone());
        }
        opt_s(&mut o, "unit", &self.unit);
        if let Some(v) = &self.one_of {
            o.put("oneOf", wire_vec(v));
        }
        if let Some(v) = &self.enumeration {
            o.put("enum", Value::Array(v.clone()));
        }
        o.put("readOnly", Value::Bool(self.read_only));
        o.put("writeOnly", Value::Bool(self.write_only));
        opt_s(&mut o, "format", &self.format);
        if let Some(s) = &self.subtype {
            wire_sub(&mut o, s);
        }
        o.v()
    }
}
fn loc(l: &SecurityAuthenticationLocation) -> Value {
    use SecurityAuthenticationLocation::*;
    vs(match l {
        Header => "header",
        Query => "query",
        Body => "body",
        Cookie => "cookie",
        Uri => "uri",
    })
}
impl Wire for SecurityScheme {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        info(&mut o, &self.attype, &None, &None, &self.description, &self.descriptions);
        opt_s(&mut o, "proxy", &self.proxy);
        use KnownSecuritySchemeSubtype::*;
        match &self.subtype {
            SecuritySchemeSubtype::Known(k) => match k {
                NoSec => o.put("scheme", vs("nosec")),
                Auto => o.put("scheme", vs("auto")),
                Combo(c) => {
                    o.put("scheme", vs("combo"));
                    match c {
                        ComboSecurityScheme::OneOf(v) => o.put("oneOf", one_or_many(v)),
                        ComboSecurityScheme::AllOf(v) => o.put("allOf", one_or_many(v)),
                    }
                }
                Basic(b) => {
                    o.put("scheme", vs("basic"));
                    o.put("in", loc(&b.location));
                    opt_s(&mut o, "name", &b.name);
                }
                Digest(b) => {
                    o.put("scheme", vs("digest"));
                    o.put(
                        "qop",
                        vs(match b.qop {
                            QualityOfProtection::Auth => "auth",
                            QualityOfProtection::AuthInt => "auth-int",
                        }),
                    );
                    o.put("in", loc(&b.location));
                    opt_s(&mut o, "name", &b.name);
                }
                Bearer(b) => {
                    o.put("scheme", vs("bearer"));
                    opt_s(&mut o, "authorization", &b.authorization);
                    o.put("alg", vs(&b.alg));
                    o.put("format", vs(&b.format));
                    o.put("in", loc(&b.location));
                    opt_s(&mut o, "name", &b.name);
                }
                Psk(b) => {
                    o.put("scheme", vs("psk"));
                    opt_s(&mut o, "identity", &b.identity);
                }
                OAuth2(b) => {
                    o.put("scheme", vs("oauth2"));
                    opt_s(&mut o, "authorization", &b.authorization);
                    opt_s(&mut o, "token", &b.token);
                    opt_s(&mut o, "refresh", &b.refresh);
                    if let Some(v) = &b.scopes {
                        o.put("scopes", one_or_many(v));
                    }
                    o.put("flow", vs(&b.flow));
                }
                ApiKey(b) => {
                    o.put("scheme", vs("apikey"));
                    o.put("in", loc(&b.location));
                    opt_s(&mut o, "name", &b.name);
                }
            },
            SecuritySchemeSubtype::Unknown(u) => {
                o.put("scheme", vs(&u.scheme));
                if let Value::Object(m) = &u.data {
                    for (k, v) in m {
                        o.put(k, v.clone());
                    }
                }
            }
        }
        o.v()
    }
}
impl Wire for Link {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        o.put("href", vs(&self.href));
        opt_s(&mut o, "type", &self.ty);
        opt_s(&mut o, "rel", &self.rel);
        opt_s(&mut o, "anchor", &self.anchor);
        opt_s(&mut o, "sizes", &self.sizes);
        if let Some(v) = &self.hreflang {
            let l: Vec<String> = v.iter().map(|x| x.as_str().to_string()).collect();
            o.put("hreflang", one_or_many(&l));
        }
        o.v()
    }
}
impl Wire for AdditionalExpectedResponse {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        o.put_if(self.success, "success", Value::Bool(true));
        opt_s(&mut o, "contentType", &self.content_type);
        opt_s(&mut o, "schema", &self.schema);
        o.v()
    }
}
impl Wire for ExpectedResponse<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        o.put("contentType", vs(&self.content_type));
        o.v()
    }
}
pub fn op_name(f: FormOperation) -> &'static str {
    use FormOperation::*;
    match f {
        ReadProperty => "readproperty",
        WriteProperty => "writeproperty",
        ObserveProperty => "observeproperty",
        UnobserveProperty => "unobserveproperty",
        InvokeAction => "invokeaction",
        QueryAction => "queryaction",
        CancelAction => "cancelaction",
        SubscribeEvent => "subscribeevent",
        UnsubscribeEvent => "unsubscribeevent",
        ReadAllProperties => "readallproperties",
        WriteAllProperties => "writeallproperties",
        ReadMultipleProperties => "readmultipleproperties",
        WriteMultipleProperties => "writemultipleproperties",
        ObserveAllProperties => "observeallproperties",
        UnobserveAllProperties => "unobserveallproperties",
        SubscribeAllEvents => "subscribeallevents",
        UnsubscribeAllEvents => "unsubscribeallevents",
        QueryAllActions => "queryallactions",
    }
}
impl Wire for Form<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        if let DefaultedFormOperations::Custom(v) = &self.op {
            o.put("op", Value::Array(v.iter().map(|x| vs(op_name(*x))).collect()));
        }
        o.put("href", vs(&self.href));
        opt_s(&mut o, "contentType", &self.content_type);
        opt_s(&mut o, "contentCoding", &self.content_coding);
        opt_s(&mut o, "subprotocol", &self.subprotocol);
        if let Some(v) = &self.security {
            o.put("security", one_or_many(v));
        }
        if let Some(v) = &self.scopes {
            o.put("scopes", one_or_many(v));
        }
        if let Some(r) = &self.response {
            o.put("response", r.wire());
        }
        if let Some(v) = &self.additional_responses {
            o.put("additionalResponses", if v.len() == 1 { v[0].wire() } else { wire_vec(v) });
        }
        o.v()
    }
}
fn wire_inter(o: &mut Obj, i: &InteractionAffordance<Nil>) {
    info(o, &i.attype, &i.title, &i.titles, &i.description, &i.descriptions);
    o.put("forms", wire_vec(&i.forms));
    if let Some(u) = &i.uri_variables {
        o.put("uriVariables", wire_map(u));
    }
}
impl Wire for InteractionAffordance<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        wire_inter(&mut o, self);
        o.v()
    }
}
impl Wire for PropertyAffordance<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        wire_inter(&mut o, &self.interaction);
        if let Value::Object(m) = self.data_schema.wire() {
            for (k, v) in m {
                o.put(&k, v);
            }
        }
        if let Some(b) = self.observable {
            o.put("observable", Value::Bool(b));
        }
        o.v()
    }
}
fn opt_w<T: Wire>(o: &mut Obj, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        o.put(k, v.wire());
    }
}
impl Wire for ActionAffordance<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        wire_inter(&mut o, &self.interaction);
        opt_w(&mut o, "input", &self.input);
        opt_w(&mut o, "output", &self.output);
        o.put("safe", Value::Bool(self.safe));
        o.put("idempotent", Value::Bool(self.idempotent));
        if let Some(b) = self.synchronous {
            o.put("synchronous", Value::Bool(b));
        }
        o.v()
    }
}
/// The key of an event's data response: the specification says `dataResponse`, the crate writes
/// `data_response` (a finding of its own, see known_findings.txt). Kept apart here so that
/// everything else is judged independently of it.
pub const DATA_RESPONSE: &str = "data_response";
impl Wire for EventAffordance<Nil> {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        wire_inter(&mut o, &self.interaction);
        opt_w(&mut o, "subscription", &self.subscription);
        opt_w(&mut o, "data", &self.data);
        opt_w(&mut o, DATA_RESPONSE, &self.data_response);
        opt_w(&mut o, "cancellation", &self.cancellation);
        o.v()
    }
}
impl Wire for VersionInfo {
    fn wire(&self) -> Value {
        let mut o = Obj::new();
        o.put("instance", vs(&self.instance));
        opt_s(&mut o, "model", &self.model);
        o.v()
    }
}
/// `created` and `modified` come as their texts.
pub fn wire_thing(t: &Thing<Nil>, created: Option<&str>, modified: Option<&str>) -> Value {
    let mut o = Obj::new();
    o.put("@context", t.context.clone());
    opt_s(&mut o, "id", &t.id);
    if let Some(a) = &t.attype {
        o.put("@type", one_or_many(a));
    }
    o.put("title", vs(&t.title));
    if let Some(m) = &t.titles {
        o.put("titles", wire_ml(m));
    }
    opt_s(&mut o, "description", &t.description);
    if let Some(m) = &t.descriptions {
        o.put("descriptions", wire_ml(m));
    }
    opt_w(&mut o, "version", &t.version);
    if let Some(s) = created {
        o.put("created", vs(s));
    }
    if let Some(s) = modified {
        o.put("modified", vs(s));
    }
    opt_s(&mut o, "support", &t.support);
    opt_s(&mut o, "base", &t.base);
    if let Some(m) = &t.properties {
        o.put("properties", wire_map(m));
    }
    if let Some(m) = &t.actions {
        o.put("actions", wire_map(m));
    }
    if let Some(m) = &t.events {
        o.put("events", wire_map(m));
    }
    if let Some(m) = &t.links {
        o.put("links", wire_vec(m));
    }
    if let Some(m) = &t.forms {
        o.put("forms", wire_vec(m));
    }
    o.put("security", one_or_many(&t.security));
    o.put("securityDefinitions", wire_map(&t.security_definitions));
    if let Some(m) = &t.uri_variables {
        o.put("uriVariables", wire_map(m));
    }
    if let Some(v) = &t.profile {
        o.put("profile", one_or_many(v));
    }
    if let Some(m) = &t.schema_definitions {
        o.put("schemaDefinitions", wire_map(m));
    }
    o.v()
}

impl Wire for Thing<Nil> {
    fn wire(&self) -> Value {
        wire_thing(self, None, None)
    }
}

// ---------------------------------------------------------------- values

fn lim_max<T>(k: usize, v: T) -> Option<Maximum<T>> {
    match k {
        0 => None,
        1 => Some(Maximum::Inclusive(v)),
        _ => Some(Maximum::Exclusive(v)),
    }
}
fn lim_min<T>(k: usize, v: T) -> Option<Minimum<T>> {
    match k {
        0 => None,
        1 => Some(Minimum::Inclusive(v)),
        _ => Some(Minimum::Exclusive(v)),
    }
}
fn opt<T>(c: bool, f: impl FnOnce() -> T) -> Option<T> {
    if c {
        Some(f())
    } else {
        None
    }
}
pub fn number() -> NumberSchema {
    let (a, b) = (pick(3), pick(3));
    NumberSchema { maximum: lim_max(a, finite_f64()), minimum: lim_min(b, finite_f64()), multiple_of: opt(flag(), finite_f64) }
}
pub fn integer() -> IntegerSchema {
    let (a, b) = (pick(3), pick(3));
    IntegerSchema {
        maximum: lim_max(a, any_i64()),
        minimum: lim_min(b, any_i64()),
        multiple_of: if flag() {
            let n = any_u64();
            assume(n != 0);
            std::num::NonZeroU64::new(n)
        } else {
            None
        },
    }
}
pub fn string() -> StringSchema {
    let m = subset(5);
    StringSchema {
        min_length: opt(has(m, 0), any_u32),
        max_length: opt(has(m, 1), any_u32),
        pattern: opt(has(m, 2), st),
        content_encoding: opt(has(m, 3), st),
        content_media_type: opt(has(m, 4), st),
    }
}
/// A small schema: a title and one of a few types.
pub fn small(k: usize) -> DS {
    DS {
        title: Some(st()),
        subtype: match k {
            0 => None,
            1 => Some(Sub::Boolean),
            2 => Some(Sub::Integer(IntegerSchema { minimum: Some(Minimum::Inclusive(any_i64())), ..Default::default() })),
            3 => Some(Sub::String(StringSchema { max_length: Some(any_u32()), ..Default::default() })),
            4 => Some(Sub::Array(Arr { items: Some(BoxedElemOrVec::Elem(Box::new(small(1)))), min_items: Some(any_u32()), ..Default::default() })),
            5 => Some(Sub::Object(ObjS { properties: Some([("a".to_string(), small(3))].into_iter().collect()), required: Some(vec![st()]), ..Default::default() })),
            6 => Some(Sub::Number(NumberSchema { maximum: Some(Maximum::Exclusive(finite_f64())), ..Default::default() })),
            _ => Some(Sub::Null),
        },
        ..Default::default()
    }
}
pub fn array() -> Arr {
    Arr {
        items: match pick(6) {
            0 => None,
            1 => Some(BoxedElemOrVec::Elem(Box::new(small(2)))),
            2 => Some(BoxedElemOrVec::Vec(vec![])),
            3 => Some(BoxedElemOrVec::Vec(vec![small(1)])),
            4 => Some(BoxedElemOrVec::Vec(vec![small(4), small(5)])),
            _ => Some(BoxedElemOrVec::Elem(Box::new(small(4)))),
        },
        min_items: opt(flag(), any_u32),
        max_items: opt(flag(), any_u32),
        other: Nil,
    }
}
pub fn object() -> ObjS {
    ObjS {
        properties: match pick(4) {
            0 => None,
            1 => Some(HashMap::new()),
            2 => Some([("a".to_string(), small(4))].into_iter().collect()),
            _ => Some([("a".to_string(), small(2)), ("b".to_string(), small(5))].into_iter().collect()),
        },
        required: match pick(4) {
            0 => None,
            n => Some(strs(n - 1)),
        },
        other: Nil,
    }
}
pub fn subtype(k: usize) -> Option<Sub> {
    Some(match k {
        0 => return None,
        1 => Sub::Array(array()),
        2 => Sub::Boolean,
        3 => Sub::Number(number()),
        4 => Sub::Integer(integer()),
        5 => Sub::Object(object()),
        6 => Sub::String(string()),
        _ => Sub::Null,
    })
}
pub const SCHEMA_FIELDS: usize = 13;
/// A schema with the chosen fields set.
pub fn schema(m: u64, sub: Option<Sub>) -> DS {
    DS {
        attype: opt(has(m, 0), || strs(if has(m, 1) { 1 } else { 2 })),
        title: opt(has(m, 1), st),
        titles: opt(has(m, 2), || ml(2)),
        description: opt(has(m, 3), st),
        descriptions: opt(has(m, 4), || ml(1)),
        constant: opt(has(m, 5), || any_value(if has(m, 6) { 0 } else { 2 })),
        default: opt(has(m, 6), || any_value(if has(m, 5) { 3 } else { 0 })),
        unit: opt(has(m, 7), st),
        one_of: opt(has(m, 8), || members(vec![small(3), small(0)])),
        enumeration: opt(has(m, 9), || members(vec![any_value(1), any_value(0), any_value(5)])),
        read_only: has(m, 10),
        write_only: has(m, 11),
        format: opt(has(m, 12), st),
        subtype: sub,
        other: Nil,
    }
}
pub const SCHEMES: usize = 11;
pub fn security(k: usize, base: u64) -> SecurityScheme {
    use KnownSecuritySchemeSubtype::*;
    let l = |n: usize| LOCS[pick(n)].0.clone();
    SecurityScheme {
        attype: opt(has(base, 0), || strs(if has(base, 1) { 1 } else { 2 })),
        description: opt(has(base, 1), st),
        descriptions: opt(has(base, 2), || ml(2)),
        proxy: opt(has(base, 3), st),
        subtype: if k >= 9 {
            SecuritySchemeSubtype::Unknown(UnknownSecuritySchemeSubtype {
                scheme: "custom".into(),
                data: {
                    let mut o = Obj::new();
                    if k == 10 {
                        o.put("a", vs(&st()));
                        o.put("b", any_value(4));
                    }
                    o.v()
                },
            })
        } else {
            SecuritySchemeSubtype::Known(match k {
                0 => NoSec,
                1 => Auto,
                2 => {
                    let v = strs(1 + pick(3));
                    Combo(if flag() { ComboSecurityScheme::OneOf(v) } else { ComboSecurityScheme::AllOf(v) })
                }
                3 => Basic(BasicSecurityScheme { location: l(5), name: opt(flag(), st) }),
                4 => Digest(DigestSecurityScheme {
                    qop: if flag() { QualityOfProtection::Auth } else { QualityOfProtection::AuthInt },
                    location: l(5),
                    name: opt(flag(), st),
                }),
                5 => Bearer(BearerSecurityScheme { authorization: opt(flag(), st), alg: st().into(), format: st().into(), location: l(5), name: opt(flag(), st) }),
                6 => Psk(PskSecurityScheme { identity: opt(flag(), st) }),
                7 => {
                    let m = subset(4);
                    OAuth2(OAuth2SecurityScheme {
                        authorization: opt(has(m, 0), st),
                        token: opt(has(m, 1), st),
                        refresh: opt(has(m, 2), st),
                        scopes: opt(has(m, 3), || strs(if has(m, 0) { 1 } else { 2 })),
                        flow: st(),
                    })
                }
                _ => ApiKey(ApiKeySecurityScheme { location: l(5), name: opt(flag(), st) }),
            })
        },
    }
}
/// One of each kind, with everything it can have.
pub fn one_security(k: usize) -> SecurityScheme {
    use KnownSecuritySchemeSubtype::*;
    let l = |i: usize| LOCS[i].0.clone();
    let s = match k {
        0 => NoSec,
        1 => Auto,
        2 => Combo(ComboSecurityScheme::OneOf(strs(4))),
        3 => Basic(BasicSecurityScheme { location: l(3), name: Some(st()) }),
        4 => Digest(DigestSecurityScheme { qop: QualityOfProtection::AuthInt, location: l(2), name: Some(st()) }),
        5 => Bearer(BearerSecurityScheme { authorization: Some(st()), alg: st().into(), format: st().into(), location: l(4), name: Some(st()) }),
        6 => Psk(PskSecurityScheme { identity: Some(st()) }),
        7 => OAuth2(OAuth2SecurityScheme { authorization: Some(st()), token: Some(st()), refresh: Some(st()), scopes: Some(strs(4)), flow: st() }),
        8 => ApiKey(ApiKeySecurityScheme { location: l(0), name: Some(st()) }),
        9 => Combo(ComboSecurityScheme::AllOf(strs(3))),
        _ => return security(10, 0xf),
    };
    SecurityScheme { subtype: SecuritySchemeSubtype::Known(s), ..security(10, 0xf) }
}
pub fn link(m: u64) -> Link {
    Link {
        href: st(),
        ty: opt(has(m, 0), st),
        rel: opt(has(m, 1), st),
        anchor: opt(has(m, 2), st),
        sizes: opt(has(m, 3), st),
        hreflang: opt(has(m, 4), || members(if has(m, 0) { vec![lang(0)] } else { vec![lang(1), lang(2), lang(1)] })),
    }
}
pub fn addresp(m: u64) -> AdditionalExpectedResponse {
    AdditionalExpectedResponse { success: any_bool(), content_type: opt(has(m, 0), st), schema: opt(has(m, 1), st) }
}
pub const FORM_FIELDS: usize = 8;
pub fn form(m: u64) -> Form<Nil> {
    Form {
        op: if has(m, 0) {
            DefaultedFormOperations::Custom(members(if has(m, 1) { vec![OPS[0].0] } else { vec![OPS[1].0, OPS[13].0, OPS[1].0] }))
        } else {
            DefaultedFormOperations::Default
        },
        href: st(),
        content_type: opt(has(m, 1), st),
        content_coding: opt(has(m, 2), st),
        subprotocol: opt(has(m, 3), st),
        security: opt(has(m, 4), || strs(if has(m, 1) { 1 } else { 2 })),
        scopes: opt(has(m, 5), || strs(if has(m, 1) { 2 } else { 1 })),
        response: opt(has(m, 6), || ExpectedResponse { content_type: st(), other: Nil }),
        additional_responses: opt(has(m, 7), || members(if has(m, 1) { vec![addresp(3)] } else { vec![addresp(0), addresp(2)] })),
        other: Nil,
    }
}
pub const INTER_FIELDS: usize = 7;
pub fn inter(m: u64) -> InteractionAffordance<Nil> {
    InteractionAffordance {
        attype: opt(has(m, 0), || strs(if has(m, 1) { 1 } else { 2 })),
        title: opt(has(m, 1), st),
        titles: opt(has(m, 2), || ml(1)),
        description: opt(has(m, 3), st),
        descriptions: opt(has(m, 4), || ml(2)),
        forms: if has(m, 5) { members(vec![form(0b10010), form(0b1)]) } else { vec![] },
        uri_variables: opt(has(m, 6), || named(vec![("u", small(2)), ("v", small(3))])),
        other: Nil,
    }
}
/// A property whose two halves agree on what they share, as on the wire and from the builder.
pub fn property(m: u64, sub: Option<Sub>) -> PropertyAffordance<Nil> {
    let i = inter(m);
    let d = schema(m >> 16, sub);
    PropertyAffordance {
        data_schema: DS {
            attype: i.attype.clone(),
            title: i.title.clone(),
            titles: i.titles.clone(),
            description: i.description.clone(),
            descriptions: i.descriptions.clone(),
            ..d
        },
        interaction: i,
        observable: opt(has(m, 7), any_bool),
        other: Nil,
    }
}
pub fn action(m: u64) -> ActionAffordance<Nil> {
    ActionAffordance {
        interaction: inter(m),
        input: opt(has(m, 7), || small(4)),
        output: opt(has(m, 8), || small(5)),
        safe: has(m, 9),
        idempotent: has(m, 10),
        synchronous: opt(has(m, 11), any_bool),
        other: Nil,
    }
}
pub fn event(m: u64) -> EventAffordance<Nil> {
    EventAffordance {
        interaction: inter(m),
        subscription: opt(has(m, 7), || small(2)),
        data: opt(has(m, 8), || small(4)),
        data_response: opt(has(m, 9), || small(5)),
        cancellation: opt(has(m, 10), || small(3)),
        other: Nil,
    }
}
pub fn version(m: bool) -> VersionInfo {
    VersionInfo { instance: st(), model: opt(m, st) }
}
pub const THING_FIELDS: usize = 18;
pub fn named<T>(v: Vec<(&str, T)>) -> HashMap<String, T> {
    members(v).into_iter().map(|(k, x)| (k.to_string(), x)).collect()
}
/// A thing with the chosen fields set (dates are set by the caller).
pub fn thing(m: u64) -> Thing<Nil> {
    Thing {
        context: match (has(m, 0), has(m, 1)) {
            (false, _) => vs(TD_CONTEXT_11),
            (true, false) => Value::Array(vec![vs(TD_CONTEXT_11), vs(&st())]),
            (true, true) => any_value(5),
        },
        id: opt(has(m, 1), st),
        attype: opt(has(m, 2), || strs(if has(m, 1) { 1 } else { 2 })),
        title: st(),
        titles: opt(has(m, 3), || ml(2)),
        description: opt(has(m, 4), st),
        descriptions: opt(has(m, 5), || ml(1)),
        version: opt(has(m, 6), || version(has(m, 1))),
        created: None,
        modified: None,
        support: opt(has(m, 7), st),
        base: opt(has(m, 8), st),
        properties: opt(has(m, 9), || named(vec![("p", property(0x0400_0022, Some(Sub::Boolean))), ("q", property(0x20, None))])),
        actions: opt(has(m, 10), || named(vec![("p", action(0xa2)), ("r", action(0x500))])),
        events: opt(has(m, 11), || named(vec![("p", event(0x1a2))])),
        links: opt(has(m, 12), || members(vec![link(0), link(0b10011)])),
        forms: opt(has(m, 13), || members(vec![form(1), form(0b101011)])),
        security: strs(if has(m, 14) { 1 } else { 2 }),
        security_definitions: if has(m, 14) { named(vec![("s", security(10, 2))]) } else { named(vec![("s", security(0, 0)), ("t", security(1, 8))]) },
        uri_variables: opt(has(m, 15), || named(vec![("u", small(3))])),
        profile: opt(has(m, 16), || strs(if has(m, 1) { 1 } else { 2 })),
        schema_definitions: opt(has(m, 17), || named(vec![("d", small(4)), ("e", small(6))])),
        other: Nil,
    }
}
