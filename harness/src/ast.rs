//! What a user asks of the builder, as data: the calls that ask it, the faults that must be
//! reported, and the value that must come out.
#![allow(dead_code)]
use crate::{gen::*, sym::*, util::*};
use serde_json::Value;
use std::collections::HashMap;
use wot_td::builder::*;
use wot_td::hlist::Nil;
use wot_td::thing::*;

pub type TB = ThingBuilder<Nil, Extended>;
pub type DSB = DataSchemaBuilder<Nil, Nil, Nil, Extended>;
pub type UDS = UncheckedDataSchema<Nil, Nil, Nil>;
pub type Tags = Option<Vec<(String, String)>>;

#[derive(Clone, Default)]
pub struct Info {
    pub attype: Vec<String>,
    pub title: Option<String>,
    pub titles: Tags,
    pub description: Option<String>,
    pub descriptions: Tags,
}
/// A lower or upper limit: whether exclusive, and the value.
pub type Lim<T> = Option<(bool, T)>;
#[derive(Clone)]
pub enum Kind {
    Bool,
    Null,
    Num { lo: Lim<f64>, hi: Lim<f64>, mult: Option<f64> },
    Int { lo: Lim<i64>, hi: Lim<i64>, mult: Option<u64> },
    Str { lo: Option<u32>, hi: Option<u32>, pattern: Option<String>, encoding: Option<String>, media: Option<String> },
    List { item: Option<Box<Sch>>, lo: Option<u32>, hi: Option<u32> },
    Tuple(Vec<Sch>),
    Obj(Vec<(String, bool, Sch)>),
    Const(Value),
    Enum(Vec<Value>),
    OneOf(Vec<Sch>),
}
#[derive(Clone)]
pub struct Sch {
    pub kind: Kind,
    pub info: Info,
    pub unit: Option<String>,
    pub format: Option<String>,
    pub default: Option<Value>,
    /// 0: neither, 1: read-only, 2: write-only
    pub mode: u8,
    /// When the common members are given: before the kind, after it, after the mode.
    pub order: u8,
}
pub fn sch(kind: Kind) -> Sch {
    Sch { kind, info: Info::default(), unit: None, format: None, default: None, mode: 0, order: 0 }
}
#[derive(Clone, Default)]
pub struct Fm {
    pub href: String,
    pub op: Vec<FormOperation>,
    pub content_type: Option<String>,
    pub content_coding: Option<String>,
    pub subprotocol: Option<String>,
    pub security: Vec<String>,
    pub scopes: Vec<String>,
    pub response: Option<String>,
    pub addl: Vec<(bool, Option<String>, Option<String>)>,
    /// Whether the target is given last.
    pub late: bool,
}
#[derive(Clone, Default)]
pub struct Lk {
    pub href: String,
    pub ty: Option<String>,
    pub rel: Option<String>,
    pub anchor: Option<String>,
    pub sizes: Option<String>,
    pub hreflang: Vec<String>,
    pub late: bool,
    /// Through the value-taking form of the call (everything else is ignored).
    pub plain: bool,
}
#[derive(Clone)]
pub enum SecK {
    NoSec,
    Auto,
    /// all-of, names, and how many of them come with the first call, the second and one by one
    Combo(bool, Vec<String>, usize, usize),
    Basic(Option<usize>, Option<String>),
    Digest(Option<QualityOfProtection>, Option<usize>, Option<String>),
    ApiKey(Option<usize>, Option<String>),
    Bearer { auth: Option<String>, alg: Option<String>, format: Option<String>, loc: Option<usize>, name: Option<String> },
    Psk,
    OAuth2 { flow: String, auth: Option<String>, token: Option<String>, refresh: Option<String>, scopes: Vec<String> },
    Custom(String, Option<Value>),
}
#[derive(Clone)]
pub struct Sec {
    pub kind: SecK,
    pub key: Option<String>,
    pub required: bool,
    pub attype: Vec<String>,
    pub description: Option<String>,
    pub descriptions: Tags,
    pub proxy: Option<String>,
    /// Whether the common members are given before the kind.
    pub early: bool,
}
pub fn sec(kind: SecK) -> Sec {
    Sec { kind, key: None, required: false, attype: vec![], description: None, descriptions: None, proxy: None, early: false }
}
#[derive(Clone, Default)]
pub struct Aff {
    pub info: Info,
    pub forms: Vec<Fm>,
    pub uri: Vec<(String, Sch)>,
}
#[derive(Clone)]
pub struct Prop {
    /// Its `info` is the property's.
    pub sch: Sch,
    pub forms: Vec<Fm>,
    pub uri: Vec<(String, Sch)>,
    pub observable: Option<bool>,
}
pub fn prop(sch: Sch) -> Prop {
    Prop { sch, forms: vec![], uri: vec![], observable: None }
}
#[derive(Clone, Default)]
pub struct Act {
    pub aff: Aff,
    pub input: Option<Sch>,
    pub output: Option<Sch>,
    pub safe: bool,
    pub idempotent: bool,
    pub synchronous: Option<bool>,
}
#[derive(Clone, Default)]
pub struct Ev {
    pub aff: Aff,
    pub subscription: Option<Sch>,
    pub data: Option<Sch>,
    pub data_response: Option<Sch>,
    pub cancellation: Option<Sch>,
}
#[derive(Clone)]
pub enum Ctx {
    Text(String),
    Map(Vec<(String, String)>),
}
#[derive(Clone, Default)]
pub struct Th {
    pub title: String,
    pub info: Info,
    pub id: Option<String>,
    pub version: Option<(String, Option<String>)>,
    pub created: Option<time::OffsetDateTime>,
    pub modified: Option<time::OffsetDateTime>,
    pub support: Option<String>,
    pub base: Option<String>,
    pub profile: Vec<String>,
    pub context: Vec<Ctx>,
    pub properties: Vec<(String, Prop)>,
    pub actions: Vec<(String, Act)>,
    pub events: Vec<(String, Ev)>,
    pub forms: Vec<Fm>,
    pub links: Vec<Lk>,
    pub security: Vec<Sec>,
    pub uri: Vec<(String, Sch)>,
    pub defs: Vec<(String, Sch)>,
}

// ---------------------------------------------------------------- the calls

fn tags<'a>(b: &'a mut MultiLanguageBuilder<String>, t: &[(String, String)]) -> &'a mut MultiLanguageBuilder<String> {
    for (k, v) in t {
        b.add(k.clone(), v.clone());
    }
    b
}
pub fn info<B: BuildableHumanReadableInfo>(mut b: B, i: &Info) -> B {
    for t in &i.attype {
        b = b.attype(t.clone());
    }
    if let Some(t) = &i.title {
        b = b.title(t.clone());
    }
    if let Some(t) = &i.titles {
        b = b.titles(|x| tags(x, t));
    }
    if let Some(t) = &i.description {
        b = b.description(t.clone());
    }
    if let Some(t) = &i.descriptions {
        b = b.descriptions(|x| tags(x, t));
    }
    b
}
fn common<B: BuildableHumanReadableInfo + BuildableDataSchema<Nil, Nil, Nil, Extended>>(b: B, s: &Sch) -> B {
    let mut b = info(b, &s.info);
    if let Some(x) = &s.unit {
        b = b.unit(x.clone());
    }
    if let Some(x) = &s.format {
        b = b.format(x.clone());
    }
    if let Some(x) = &s.default {
        b = b.default_value(x.clone());
    }
    b
}
fn set_none<B>(b: B, _: &Sch) -> B {
    b
}
fn set_num<B: NumberDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::Num { lo, hi, mult } = &s.kind {
        if let Some(m) = mult {
            b = b.multiple_of(*m);
        }
        match hi {
            Some((true, v)) => b = b.exclusive_maximum(*v),
            Some((false, v)) => b = b.maximum(*v),
            None => (),
        }
        match lo {
            Some((true, v)) => b = b.exclusive_minimum(*v),
            Some((false, v)) => b = b.minimum(*v),
            None => (),
        }
    }
    b
}
fn set_int<B: IntegerDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::Int { lo, hi, mult } = &s.kind {
        match lo {
            Some((true, v)) => b = b.exclusive_minimum(*v),
            Some((false, v)) => b = b.minimum(*v),
            None => (),
        }
        match hi {
            Some((true, v)) => b = b.exclusive_maximum(*v),
            Some((false, v)) => b = b.maximum(*v),
            None => (),
        }
        if let Some(m) = mult {
            b = b.multiple_of(std::num::NonZeroU64::new(*m).unwrap());
        }
    }
    b
}
fn set_str<B: StringDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::Str { lo, hi, pattern, encoding, media } = &s.kind {
        if let Some(v) = lo {
            b = b.min_length(*v);
        }
        if let Some(v) = hi {
            b = b.max_length(*v);
        }
        if let Some(v) = pattern {
            b = b.pattern(v.clone());
        }
        if let Some(v) = encoding {
            b = b.content_encoding(v.clone());
        }
        if let Some(v) = media {
            b = b.content_media_type(v.clone());
        }
    }
    b
}
fn set_list<B: VecDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::List { item, lo, hi } = &s.kind {
        if let Some(v) = hi {
            b = b.max_items(*v);
        }
        if let Some(i) = item {
            b = b.set_item(|b| mk(b.finish_extend(), i));
        }
        if let Some(v) = lo {
            b = b.min_items(*v);
        }
    }
    b
}
fn set_tuple<B: TupleDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::Tuple(v) = &s.kind {
        for i in v {
            b = b.append(|b| mk(b.finish_extend(), i));
        }
    }
    b
}
fn set_obj<B: ObjectDataSchemaBuilderLike<Nil, Nil, Nil>>(mut b: B, s: &Sch) -> B {
    if let Kind::Obj(v) = &s.kind {
        for (n, r, i) in v {
            b = b.property(n.clone(), *r, |b| mk(b.finish_extend(), i));
        }
    }
    b
}
macro_rules! rw {
    ($p:ident, $x:expr, $s:ident, $fin:ident, $set:ident, $order:expr) => {
        match $s.mode {
            1 if $order == 2 => $fin!($p => common($set($x.read_only(), $s), $s)),
            2 if $order == 2 => $fin!($p => common($set($x.write_only(), $s), $s)),
            1 if $order == 1 => $fin!($p => common($set($x, $s), $s).read_only()),
            2 if $order == 1 => $fin!($p => common($set($x, $s), $s).write_only()),
            1 => $fin!($p => $set($x, $s).read_only()),
            2 => $fin!($p => $set($x, $s).write_only()),
            _ if $order != 0 => $fin!($p => common($set($x, $s), $s)),
            _ => $fin!($p => $set($x, $s)),
        }
    };
}
fn first<B: BuildableHumanReadableInfo + BuildableDataSchema<Nil, Nil, Nil, Extended>>(b: B, s: &Sch) -> B {
    if s.order == 0 {
        common(b, s)
    } else {
        b
    }
}
fn late<B: BuildableHumanReadableInfo + BuildableDataSchema<Nil, Nil, Nil, Extended>>(b: B, s: &Sch) -> B {
    if s.order != 0 {
        common(b, s)
    } else {
        b
    }
}
fn enum_rest<B: EnumerableDataSchema<Nil, Nil, Nil, Extended, Target = B>>(mut b: B, v: &[Value]) -> B {
    for x in v {
        b = b.enumeration(x.clone());
    }
    b
}
fn one_rest<B: UnionDataSchema<Nil, Nil, Nil, Target = B>>(mut b: B, v: &[Sch]) -> B {
    for x in v {
        b = b.one_of(|b| mk(b.finish_extend(), x));
    }
    b
}
/// `$fin!(p => e)` finishes with the builder `e`, made from the builder `p`.
macro_rules! spec {
    ($p:ident, $s:ident, $fin:ident, $set_str:ident) => {
        match &$s.kind {
            Kind::Bool => rw!($p, first($p, $s).bool(), $s, $fin, set_none, $s.order),
            Kind::Null => rw!($p, first($p, $s).null(), $s, $fin, set_none, $s.order),
            Kind::Num { .. } => rw!($p, first($p, $s).number(), $s, $fin, set_num, $s.order),
            Kind::Int { .. } => rw!($p, first($p, $s).integer(), $s, $fin, set_int, $s.order),
            Kind::Str { .. } => match ($s.mode, $s.order) {
                (1, 2) => $fin!($p => common($set_str($p.string(), $s).read_only(), $s)),
                (2, 2) => $fin!($p => common($set_str($p.string(), $s).write_only(), $s)),
                (1, _) => $fin!($p => late($set_str(first($p, $s).string(), $s), $s).read_only()),
                (2, _) => $fin!($p => late($set_str(first($p, $s).string(), $s), $s).write_only()),
                _ => $fin!($p => late($set_str(first($p, $s).string(), $s), $s)),
            },
            Kind::List { .. } => rw!($p, first($p, $s).vec(), $s, $fin, set_list, $s.order),
            Kind::Tuple(_) => rw!($p, first($p, $s).tuple(), $s, $fin, set_tuple, $s.order),
            Kind::Obj(_) => rw!($p, first($p, $s).object(), $s, $fin, set_obj, $s.order),
            Kind::Const(v) => $fin!($p => late(first($p, $s).constant(v.clone()), $s)),
            Kind::Enum(v) => match $s.mode {
                // the mode is asked for between two members of the enumeration
                1 if $s.order == 2 => $fin!($p => common(enum_rest(first($p, $s).enumeration(v[0].clone()).read_only(), &v[1..]), $s)),
                2 if $s.order == 2 => $fin!($p => common(enum_rest(first($p, $s).enumeration(v[0].clone()).write_only(), &v[1..]), $s)),
                1 => $fin!($p => late(enum_rest(first($p, $s).enumeration(v[0].clone()), &v[1..]).read_only(), $s)),
                2 => $fin!($p => late(enum_rest(first($p, $s).enumeration(v[0].clone()), &v[1..]).write_only(), $s)),
                _ => $fin!($p => late(enum_rest(first($p, $s).enumeration(v[0].clone()), &v[1..]), $s)),
            },
            Kind::OneOf(v) => $fin!($p => late(one_rest(first($p, $s).one_of(|b| mk(b.finish_extend(), &v[0])), &v[1..]), $s)),
        }
    };
}
/// The schema of a position that takes a whole one.
pub fn mk(b: DSB, s: &Sch) -> UDS {
    macro_rules! fin { ($p:ident => $e:expr) => { $e.into() } }
    spec!(b, s, fin, set_str)
}
/// The same schema built on its own.
pub fn standalone(s: &Sch) -> Option<DS> {
    macro_rules! fin { ($p:ident => $e:expr) => { DS::try_from($e).ok() } }
    let b = DSB::default();
    spec!(b, s, fin, set_str)
}
macro_rules! form_calls {
    ($b:expr, $f:expr, $href:expr) => {{
        let f: &Fm = $f;
        let mut b = $b;
        for o in &f.op {
            b = b.op(*o);
        }
        if let Some(x) = &f.content_type {
            b = b.content_type(x.clone());
        }
        if let Some(x) = &f.content_coding {
            b = b.content_coding(x.clone());
        }
        if let Some(x) = &f.subprotocol {
            b = b.subprotocol(x.clone());
        }
        for x in &f.security {
            b = b.security(x.clone());
        }
        for x in &f.scopes {
            b = b.scope(x.clone());
        }
        if let Some(x) = &f.response {
            b = b.response_default_ext(x.clone());
        }
        for (s, c, d) in &f.addl {
            b = b.additional_response(|r| {
                if *s {
                    r.success();
                }
                if let Some(c) = c {
                    r.content_type(c.clone());
                }
                if let Some(d) = d {
                    r.schema(d.clone());
                }
                r
            });
        }
        b
    }};
}
pub type FB0 = FormBuilder<Nil, (), Nil>;
pub type FB = FormBuilder<Nil, String, Nil>;
pub fn form_b(b: FB0, f: &Fm) -> FB {
    if f.late {
        form_calls!(b, f, ()).href(f.href.clone())
    } else {
        form_calls!(b.href(f.href.clone()), f, ())
    }
}
fn inter<B: BuildableInteractionAffordance<Nil>>(mut b: B, forms: &[Fm], uri: &[(String, Sch)]) -> B {
    for f in forms {
        b = b.form(|b| form_b(b, f));
    }
    for (n, s) in uri {
        b = b.uri_variable(n.clone(), |b| mk(b.finish_extend(), s));
    }
    b
}
fn obs_prop<A, B, C>(b: PropertyAffordanceBuilder<Nil, A, B, C>, o: Option<bool>) -> PropertyAffordanceBuilder<Nil, A, B, C> {
    match o {
        Some(o) => b.observable(o),
        None => b,
    }
}
pub fn put_property(tb: TB, name: &str, q: &Prop) -> TB {
    let s = &q.sch;
    macro_rules! fin {
        ($p:ident => $e:expr) => {
            tb.property(name.to_string(), |p| {
                let $p = inter(obs_prop(p.finish_extend_data_schema(), q.observable), &q.forms, &q.uri);
                $e
            })
        };
    }
    // the builder of a property takes no limits for texts
    spec!(b, s, fin, set_none)
}
pub fn put_action(tb: TB, name: &str, a: &Act) -> TB {
    tb.action(name.to_string(), |b| {
        let mut b = inter(info(b, &a.aff.info), &a.aff.forms, &a.aff.uri);
        if let Some(s) = &a.input {
            b = b.input(|b| mk(b.finish_extend(), s));
        }
        if let Some(s) = &a.output {
            b = b.output(|b| mk(b.finish_extend(), s));
        }
        if a.safe {
            b = b.safe();
        }
        if a.idempotent {
            b = b.idempotent();
        }
        if let Some(s) = a.synchronous {
            b = b.synchronous(s);
        }
        b
    })
}
pub fn put_event(tb: TB, name: &str, a: &Ev) -> TB {
    tb.event(name.to_string(), |b| {
        let mut b = b;
        if let Some(s) = &a.subscription {
            b = b.subscription(|b| mk(b.finish_extend(), s));
        }
        if let Some(s) = &a.data {
            b = b.data(|b| mk(b.finish_extend(), s));
        }
        if let Some(s) = &a.data_response {
            b = b.data_response(|b| mk(b.finish_extend(), s));
        }
        if let Some(s) = &a.cancellation {
            b = b.cancellation(|b| mk(b.finish_extend(), s));
        }
        inter(info(b, &a.aff.info), &a.aff.forms, &a.aff.uri)
    })
}
fn sec_common<S>(mut b: SecuritySchemeBuilder<S>, s: &Sec) -> SecuritySchemeBuilder<S> {
    for t in &s.attype {
        b = b.attype(t.clone());
    }
    if let Some(d) = &s.description {
        b = b.description(d.clone());
    }
    if let Some(d) = &s.descriptions {
        b = b.descriptions(|x| tags(x, d));
    }
    if let Some(d) = &s.proxy {
        b = b.proxy(d.clone());
    }
    if let Some(k) = &s.key {
        b = b.with_key(k.clone());
    }
    if s.required {
        b = b.required();
    }
    b
}
pub fn put_security(tb: TB, s: &Sec) -> TB {
    let pre = |b: SecuritySchemeBuilder<()>| if s.early { sec_common(b, s) } else { b };
    macro_rules! post { ($e:expr) => { if s.early { $e } else { sec_common($e, s) } } }
    macro_rules! loc_name {
        ($b:ident, $l:expr, $n:expr) => {
            if let Some(l) = $l {
                $b = $b.location(LOCS[*l].0.clone());
            }
            if let Some(n) = $n {
                $b = $b.name(n.clone());
            }
        };
    }
    macro_rules! combo {
        ($b:ident, $n:expr, $i:expr, $j:expr) => {{
            $b = $b.extend($n[*$i..*$i + *$j].iter().cloned());
            for x in &$n[*$i + *$j..] {
                $b = $b.push(x.clone());
            }
            post!($b)
        }};
    }
    match &s.kind {
        SecK::NoSec => tb.security(|b| post!(pre(b).no_sec())),
        SecK::Auto => tb.security(|b| post!(pre(b).auto())),
        SecK::Combo(true, n, i, j) => tb.security(|b| {
            let mut b = pre(b).combo().all_of(n[..*i].iter().cloned());
            combo!(b, n, i, j)
        }),
        SecK::Combo(false, n, i, j) => tb.security(|b| {
            let mut b = pre(b).combo().one_of(n[..*i].iter().cloned());
            combo!(b, n, i, j)
        }),
        SecK::Basic(l, n) => tb.security(|b| {
            let mut b = pre(b).basic();
            loc_name!(b, l, n);
            post!(b)
        }),
        SecK::Digest(q, l, n) => tb.security(|b| {
            let mut b = pre(b).digest();
            loc_name!(b, l, n);
            if let Some(q) = q {
                b = b.qop(q.clone());
            }
            post!(b)
        }),
        SecK::ApiKey(l, n) => tb.security(|b| {
            let mut b = pre(b).apikey();
            loc_name!(b, l, n);
            post!(b)
        }),
        SecK::Bearer { auth, alg, format, loc, name } => tb.security(|b| {
            let mut b = pre(b).bearer();
            if let Some(x) = auth {
                b = b.authorization(x.clone());
            }
            if let Some(x) = alg {
                b = b.alg(x.clone());
            }
            loc_name!(b, loc, name);
            if let Some(x) = format {
                b = b.format(x.clone());
            }
            post!(b)
        }),
        SecK::Psk => tb.security(|b| post!(pre(b).psk())),
        SecK::OAuth2 { flow, auth, token, refresh, scopes } => tb.security(|b| {
            let mut b = pre(b).oauth2(flow.clone());
            for x in scopes {
                b = b.scope(x.clone());
            }
            if let Some(x) = auth {
                b = b.authorization(x.clone());
            }
            if let Some(x) = token {
                b = b.token(x.clone());
            }
            if let Some(x) = refresh {
                b = b.refresh(x.clone());
            }
            post!(b)
        }),
        SecK::Custom(n, d) => tb.security(|b| {
            let mut b = pre(b).custom(n.clone());
            if let Some(x) = d {
                b = b.data(x.clone());
            }
            post!(b)
        }),
    }
}
macro_rules! link_calls {
    ($b:expr, $l:expr) => {{
        let l: &Lk = $l;
        let mut b = $b;
        if let Some(x) = &l.ty {
            b = b.ty(x.clone());
        }
        for x in &l.hreflang {
            b = b.hreflang(x.clone());
        }
        if let Some(x) = &l.sizes {
            b = b.sizes(x.clone());
        }
        if let Some(x) = &l.rel {
            b = b.rel(x.clone());
        }
        if let Some(x) = &l.anchor {
            b = b.anchor(x.clone());
        }
        b
    }};
}
pub fn put_link_calls(b: LinkBuilder<String>, l: &Lk) -> LinkBuilder<String> {
    link_calls!(b, l)
}
pub fn put_form_calls(b: FB, f: &Fm) -> FB {
    form_calls!(b, f, ())
}
pub fn put_link(tb: TB, l: &Lk) -> TB {
    if l.plain {
        tb.link(l.href.clone())
    } else if l.late {
        tb.link_with(|b| link_calls!(b, l).href(l.href.clone()))
    } else {
        tb.link_with(|b| link_calls!(b.href(l.href.clone()), l))
    }
}
pub fn put_context(tb: TB, c: &Ctx) -> TB {
    match c {
        Ctx::Text(s) => tb.context(s.clone()),
        Ctx::Map(m) => tb.context_map(|b| {
            for (k, v) in m {
                b.context(k.clone(), v.clone());
            }
            b
        }),
    }
}
pub fn start(title: &str) -> TB {
    ThingBuilder::<Nil, ToExtend>::new(title.to_string()).finish_extend()
}
pub const GROUPS: usize = 19;
/// One group of calls.
pub fn put_group(mut b: TB, t: &Th, g: usize) -> TB {
    macro_rules! opt {
        ($f:ident) => {
            if let Some(x) = &t.$f {
                b = b.$f(x.clone());
            }
        };
    }
    match g {
        0 => {
            for x in &t.info.attype {
                b = b.attype(x.clone());
            }
            if let Some(x) = &t.info.titles {
                b = b.titles(|m| tags(m, x));
            }
            if let Some(x) = &t.info.description {
                b = b.description(x.clone());
            }
            if let Some(x) = &t.info.descriptions {
                b = b.descriptions(|m| tags(m, x));
            }
        }
        1 => opt!(id),
        2 => {
            if let Some((i, m)) = &t.version {
                b = b.version(VersionInfo { instance: i.clone(), model: m.clone() });
            }
        }
        3 => opt!(created),
        4 => opt!(modified),
        5 => opt!(support),
        6 => opt!(base),
        7 => {
            for x in &t.profile {
                b = b.profile(x.clone());
            }
        }
        8 => {
            for c in &t.context {
                b = put_context(b, c);
            }
        }
        9 => {
            for (n, p) in &t.properties {
                b = put_property(b, n, p);
            }
        }
        10 => {
            for (n, p) in &t.actions {
                b = put_action(b, n, p);
            }
        }
        11 => {
            for (n, p) in &t.events {
                b = put_event(b, n, p);
            }
        }
        12 => {
            for f in &t.forms {
                b = b.form(|b| form_b(b, f));
            }
        }
        13 => {
            for l in &t.links {
                b = put_link(b, l);
            }
        }
        14 => {
            for s in &t.security {
                b = put_security(b, s);
            }
        }
        15 => {
            for (n, s) in &t.uri {
                b = b.uri_variable(n.clone(), |b| mk(b.finish_extend(), s));
            }
        }
        16 => {
            for (n, s) in &t.defs {
                b = b.schema_definition(n.clone(), |b| mk(b.finish_extend(), s));
            }
        }
        _ => (),
    }
    b
}
pub fn builder(t: &Th) -> TB {
    let mut b = start(&t.title);
    for g in 0..GROUPS {
        b = put_group(b, t, g);
    }
    b
}
pub fn build(t: &Th) -> Result<Thing<Nil>, Error> {
    builder(t).build()
}

// ---------------------------------------------------------------- the value that must come out

fn list(v: &[String]) -> Option<Vec<String>> {
    if v.is_empty() {
        None
    } else {
        Some(v.to_vec())
    }
}
pub fn v_tags(t: &Tags) -> Option<Ml> {
    t.as_ref().map(|t| t.iter().map(|(k, v)| (oxilangtag::LanguageTag::parse(k.clone()).unwrap(), v.clone())).collect())
}
fn v_map(v: &[(String, Sch)]) -> Option<HashMap<String, DS>> {
    if v.is_empty() {
        None
    } else {
        Some(v.iter().map(|(n, s)| (n.clone(), v_sch(s))).collect())
    }
}
fn v_lo<T: Copy>(l: &Lim<T>) -> Option<Minimum<T>> {
    l.map(|(e, v)| if e { Minimum::Exclusive(v) } else { Minimum::Inclusive(v) })
}
fn v_hi<T: Copy>(l: &Lim<T>) -> Option<Maximum<T>> {
    l.map(|(e, v)| if e { Maximum::Exclusive(v) } else { Maximum::Inclusive(v) })
}
pub fn v_sch(s: &Sch) -> DS {
    let constant = match &s.kind {
        Kind::Const(v) => Some(v.clone()),
        _ => None,
    };
    DS {
        attype: list(&s.info.attype),
        title: s.info.title.clone(),
        titles: v_tags(&s.info.titles),
        description: s.info.description.clone(),
        descriptions: v_tags(&s.info.descriptions),
        default: s.default.clone(),
        unit: s.unit.clone(),
        one_of: match &s.kind {
            Kind::OneOf(v) => Some(v.iter().map(v_sch).collect()),
            _ => None,
        },
        enumeration: match &s.kind {
            Kind::Enum(v) => Some(v.clone()),
            _ => None,
        },
        read_only: s.mode == 1 || constant.is_some(),
        write_only: s.mode == 2,
        format: s.format.clone(),
        subtype: match &s.kind {
            Kind::Bool => Some(Sub::Boolean),
            Kind::Null => Some(Sub::Null),
            Kind::Num { lo, hi, mult } => Some(Sub::Number(NumberSchema { maximum: v_hi(hi), minimum: v_lo(lo), multiple_of: *mult })),
            Kind::Int { lo, hi, mult } => Some(Sub::Integer(IntegerSchema { maximum: v_hi(hi), minimum: v_lo(lo), multiple_of: mult.map(|m| std::num::NonZeroU64::new(m).unwrap()) })),
            Kind::Str { lo, hi, pattern, encoding, media } => Some(Sub::String(StringSchema {
                min_length: *lo,
                max_length: *hi,
                pattern: pattern.clone(),
                content_encoding: encoding.clone(),
                content_media_type: media.clone(),
            })),
            Kind::List { item, lo, hi } => Some(Sub::Array(Arr { items: item.as_ref().map(|i| BoxedElemOrVec::Elem(Box::new(v_sch(i)))), min_items: *lo, max_items: *hi, other: Nil })),
            Kind::Tuple(v) => Some(Sub::Array(Arr { items: Some(BoxedElemOrVec::Vec(v.iter().map(v_sch).collect())), min_items: None, max_items: None, other: Nil })),
            Kind::Obj(v) => {
                let req: Vec<String> = v.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
                Some(Sub::Object(ObjS {
                    properties: if v.is_empty() { None } else { Some(v.iter().map(|(n, _, s)| (n.clone(), v_sch(s))).collect()) },
                    required: list(&req),
                    other: Nil,
                }))
            }
            _ => None,
        },
        constant,
        other: Nil,
    }
}
pub fn v_form(f: &Fm) -> Form<Nil> {
    Form {
        op: if f.op.is_empty() { DefaultedFormOperations::Default } else { DefaultedFormOperations::Custom(f.op.clone()) },
        href: f.href.clone(),
        content_type: f.content_type.clone(),
        content_coding: f.content_coding.clone(),
        subprotocol: f.subprotocol.clone(),
        security: list(&f.security),
        scopes: list(&f.scopes),
        response: f.response.as_ref().map(|c| ExpectedResponse { content_type: c.clone(), other: Nil }),
        additional_responses: if f.addl.is_empty() {
            None
        } else {
            Some(f.addl.iter().map(|(s, c, d)| AdditionalExpectedResponse { success: *s, content_type: c.clone(), schema: d.clone() }).collect())
        },
        other: Nil,
    }
}
fn v_inter(i: &Info, forms: &[Fm], uri: &[(String, Sch)]) -> InteractionAffordance<Nil> {
    InteractionAffordance {
        attype: list(&i.attype),
        title: i.title.clone(),
        titles: v_tags(&i.titles),
        description: i.description.clone(),
        descriptions: v_tags(&i.descriptions),
        forms: forms.iter().map(v_form).collect(),
        uri_variables: v_map(uri),
        other: Nil,
    }
}
pub fn v_prop(p: &Prop) -> PropertyAffordance<Nil> {
    PropertyAffordance { interaction: v_inter(&p.sch.info, &p.forms, &p.uri), data_schema: v_sch(&p.sch), observable: p.observable, other: Nil }
}
pub fn v_act(a: &Act) -> ActionAffordance<Nil> {
    ActionAffordance {
        interaction: v_inter(&a.aff.info, &a.aff.forms, &a.aff.uri),
        input: a.input.as_ref().map(v_sch),
        output: a.output.as_ref().map(v_sch),
        safe: a.safe,
        idempotent: a.idempotent,
        synchronous: a.synchronous,
        other: Nil,
    }
}
pub fn v_ev(a: &Ev) -> EventAffordance<Nil> {
    EventAffordance {
        interaction: v_inter(&a.aff.info, &a.aff.forms, &a.aff.uri),
        subscription: a.subscription.as_ref().map(v_sch),
        data: a.data.as_ref().map(v_sch),
        data_response: a.data_response.as_ref().map(v_sch),
        cancellation: a.cancellation.as_ref().map(v_sch),
        other: Nil,
    }
}
pub fn v_link(l: &Lk) -> Link {
    Link {
        href: l.href.clone(),
        ty: l.ty.clone(),
        rel: l.rel.clone(),
        anchor: l.anchor.clone(),
        sizes: l.sizes.clone(),
        hreflang: if l.hreflang.is_empty() { None } else { Some(l.hreflang.iter().map(|t| oxilangtag::LanguageTag::parse(t.clone()).unwrap()).collect()) },
    }
}
/// The name of the kind of a scheme.
pub fn sec_kind(k: &SecK) -> String {
    match k {
        SecK::NoSec => "nosec",
        SecK::Auto => "auto",
        SecK::Combo(..) => "combo",
        SecK::Basic(..) => "basic",
        SecK::Digest(..) => "digest",
        SecK::ApiKey(..) => "apikey",
        SecK::Bearer { .. } => "bearer",
        SecK::Psk => "psk",
        SecK::OAuth2 { .. } => "oauth2",
        SecK::Custom(n, _) => return n.clone(),
    }
    .to_string()
}
pub fn sec_name(s: &Sec) -> String {
    match &s.key {
        Some(k) => k.clone(),
        None => sec_kind(&s.kind),
    }
}
pub fn v_sec(s: &Sec) -> SecurityScheme {
    use KnownSecuritySchemeSubtype as K;
    let loc = |l: &Option<usize>, d: usize| LOCS[l.unwrap_or(d)].0.clone();
    let k = match &s.kind {
        SecK::NoSec => K::NoSec,
        SecK::Auto => K::Auto,
        SecK::Combo(true, n, ..) => K::Combo(ComboSecurityScheme::AllOf(n.clone())),
        SecK::Combo(false, n, ..) => K::Combo(ComboSecurityScheme::OneOf(n.clone())),
        SecK::Basic(l, n) => K::Basic(BasicSecurityScheme { location: loc(l, 0), name: n.clone() }),
        SecK::Digest(q, l, n) => K::Digest(DigestSecurityScheme { qop: q.clone().unwrap_or(QualityOfProtection::Auth), location: loc(l, 0), name: n.clone() }),
        SecK::ApiKey(l, n) => K::ApiKey(ApiKeySecurityScheme { location: loc(l, 1), name: n.clone() }),
        SecK::Bearer { auth, alg, format, loc: l, name } => K::Bearer(BearerSecurityScheme {
            authorization: auth.clone(),
            alg: alg.clone().unwrap_or("ES256".to_string()).into(),
            format: format.clone().unwrap_or("jwt".to_string()).into(),
            location: loc(l, 0),
            name: name.clone(),
        }),
        SecK::Psk => K::Psk(PskSecurityScheme { identity: None }),
        SecK::OAuth2 { flow, auth, token, refresh, scopes } => {
            K::OAuth2(OAuth2SecurityScheme { authorization: auth.clone(), token: token.clone(), refresh: refresh.clone(), scopes: list(scopes), flow: flow.clone() })
        }
        SecK::Custom(n, d) => {
            return SecurityScheme {
                attype: list(&s.attype),
                description: s.description.clone(),
                descriptions: v_tags(&s.descriptions),
                proxy: s.proxy.clone(),
                subtype: SecuritySchemeSubtype::Unknown(UnknownSecuritySchemeSubtype { scheme: n.clone(), data: d.clone().unwrap_or(Value::Object(Default::default())) }),
            }
        }
    };
    SecurityScheme {
        attype: list(&s.attype),
        description: s.description.clone(),
        descriptions: v_tags(&s.descriptions),
        proxy: s.proxy.clone(),
        subtype: SecuritySchemeSubtype::Known(k),
    }
}
pub fn v_context(c: &[Ctx]) -> Value {
    let mut v = vec![vs(TD_CONTEXT_11)];
    for c in c {
        match c {
            Ctx::Text(s) => {
                if s != TD_CONTEXT_11 {
                    v.push(vs(s))
                }
            }
            Ctx::Map(m) => {
                let mut o = Obj::new();
                for (k, x) in m {
                    o.put(k, vs(x));
                }
                v.push(o.v())
            }
        }
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        Value::Array(v)
    }
}
fn v_named<S, T>(v: &[(String, S)], f: impl Fn(&S) -> T) -> Option<HashMap<String, T>> {
    if v.is_empty() {
        None
    } else {
        Some(v.iter().map(|(n, s)| (n.clone(), f(s))).collect())
    }
}
pub fn value(t: &Th) -> Thing<Nil> {
    Thing {
        context: v_context(&t.context),
        id: t.id.clone(),
        attype: list(&t.info.attype),
        title: t.title.clone(),
        titles: v_tags(&t.info.titles),
        description: t.info.description.clone(),
        descriptions: v_tags(&t.info.descriptions),
        version: t.version.as_ref().map(|(i, m)| VersionInfo { instance: i.clone(), model: m.clone() }),
        created: t.created,
        modified: t.modified,
        support: t.support.clone(),
        base: t.base.clone(),
        properties: v_named(&t.properties, v_prop),
        actions: v_named(&t.actions, v_act),
        events: v_named(&t.events, v_ev),
        links: if t.links.is_empty() { None } else { Some(t.links.iter().map(v_link).collect()) },
        forms: if t.forms.is_empty() { None } else { Some(t.forms.iter().map(v_form).collect()) },
        security: t.security.iter().filter(|s| s.required).map(sec_name).collect(),
        security_definitions: t.security.iter().map(|s| (sec_name(s), v_sec(s))).collect(),
        uri_variables: v_map(&t.uri),
        profile: list(&t.profile),
        schema_definitions: v_map(&t.defs),
        other: Nil,
    }
}

// ---------------------------------------------------------------- the faults that must be reported

fn lim_faults<T: PartialOrd + Copy>(lo: &Lim<T>, hi: &Lim<T>) -> bool {
    match (lo, hi) {
        (Some((a, l)), Some((b, h))) => {
            let open = *a | *b;
            (*l > *h) | (open & (*l == *h))
        }
        _ => false,
    }
}
/// The faults of the limits of a schema and of everything in it.
pub fn limit_faults(s: &Sch, out: &mut Vec<Error>) {
    match &s.kind {
        Kind::Num { lo, hi, mult } => {
            let nan = lo.map_or(false, |l| l.1.is_nan()) | hi.map_or(false, |h| h.1.is_nan());
            if nan {
                out.push(Error::NanMinMax);
            }
            if lim_faults(lo, hi) {
                out.push(Error::InvalidMinMax);
            }
            if let Some(m) = mult {
                if !(*m > 0.0) {
                    out.push(Error::InvalidMultipleOf);
                }
            }
        }
        Kind::Int { lo, hi, .. } => {
            if lim_faults(lo, hi) {
                out.push(Error::InvalidMinMax);
            }
        }
        Kind::Str { lo: Some(l), hi: Some(h), .. } | Kind::List { lo: Some(l), hi: Some(h), .. } => {
            if l > h {
                out.push(Error::InvalidMinMax);
            }
        }
        _ => (),
    }
    match &s.kind {
        Kind::List { item: Some(i), .. } => limit_faults(i, out),
        Kind::Tuple(v) | Kind::OneOf(v) => v.iter().for_each(|i| limit_faults(i, out)),
        Kind::Obj(v) => v.iter().for_each(|i| limit_faults(&i.2, out)),
        _ => (),
    }
}
/// Every schema of a Thing, with those that are URI variables marked.
pub fn all_schemas<'a>(t: &'a Th, f: &mut dyn FnMut(&'a Sch, bool)) {
    for (_, p) in &t.properties {
        f(&p.sch, false);
        p.uri.iter().for_each(|x| f(&x.1, true));
    }
    for (_, a) in &t.actions {
        for s in [&a.input, &a.output].into_iter().flatten() {
            f(s, false);
        }
        a.aff.uri.iter().for_each(|x| f(&x.1, true));
    }
    for (_, a) in &t.events {
        for s in [&a.subscription, &a.data, &a.data_response, &a.cancellation].into_iter().flatten() {
            f(s, false);
        }
        a.aff.uri.iter().for_each(|x| f(&x.1, true));
    }
    t.uri.iter().for_each(|x| f(&x.1, true));
    t.defs.iter().for_each(|x| f(&x.1, false));
}
pub fn all_limit_faults(t: &Th) -> Vec<Error> {
    let mut v = vec![];
    all_schemas(t, &mut |s, _| limit_faults(s, &mut v));
    v
}
/// Whether the build ends as the faults demand: with a value if there are none, and otherwise with
/// one of them.
pub fn judge(r: Result<Thing<Nil>, Error>, faults: &[Error], refused: &str, accepted: &str, kind: &str) -> Option<Thing<Nil>> {
    match r {
        Ok(t) => {
            check(faults.is_empty(), accepted);
            cover("accepted");
            Some(t)
        }
        Err(e) => {
            check(!faults.is_empty(), refused);
            let mut known = false;
            for f in faults {
                known |= same_error(f, &e);
            }
            check(known | faults.is_empty(), kind);
            cover("refused");
            None
        }
    }
}
/// Our own comparison of errors (the crate's equality is not trusted with its own verdicts).
pub fn same_error(a: &Error, b: &Error) -> bool {
    use Error::*;
    match (a, b) {
        (DuplicatedSecurityDefinition(x), DuplicatedSecurityDefinition(y)) => x == y,
        (MissingOpInForm, MissingOpInForm) => true,
        (InvalidOpInForm { context: a, operation: x }, InvalidOpInForm { context: b, operation: y }) => (*x as u8 == *y as u8) & same_context(a, b),
        (UndefinedSecurity(x), UndefinedSecurity(y)) => x == y,
        (InvalidMinMax, InvalidMinMax) | (NanMinMax, NanMinMax) | (InvalidMultipleOf, InvalidMultipleOf) => true,
        (DuplicatedAffordance { ty: a, name: x }, DuplicatedAffordance { ty: b, name: y }) => {
            let t = match (a, b) {
                (AffordanceType::Property, AffordanceType::Property) | (AffordanceType::Action, AffordanceType::Action) | (AffordanceType::Event, AffordanceType::Event) => true,
                _ => false,
            };
            t && x == y
        }
        (MissingSchemaDefinition(x), MissingSchemaDefinition(y)) => x == y,
        (InvalidUriVariables, InvalidUriVariables) => true,
        (InvalidLanguageTag(x), InvalidLanguageTag(y)) => x == y,
        (SizesWithRelNotIcon, SizesWithRelNotIcon) => true,
        _ => false,
    }
}
fn same_context(a: &FormContext, b: &FormContext) -> bool {
    use FormContext::*;
    matches!((a, b), (Thing, Thing) | (Property, Property) | (Action, Action) | (Event, Event))
}
