//! Builder calls that mean the same give the same Thing.
use crate::{ast::*, gen::{any_value, thing_diff, Ml, Same, DS}, place::*, sym::{any_bool, any_f64, any_i64, text, any_u32, any_u64, assume, check, cover, flag, has, param, pick}};
use serde_json::Value;
use wot_td::builder::*;
use wot_td::hlist::Nil;
use wot_td::thing::*;

type R = Result<Thing<Nil>, Error>;
fn equal(a: R, b: R, what: &str) {
    match (a, b) {
        (Ok(a), Ok(b)) => check(thing_diff(&a, &b).is_none(), what),
        (Err(a), Err(b)) => check(same_error(&a, &b), what),
        _ => check(false, what),
    }
    cover("compared");
}
const ORDER: &str = "the order of independent calls makes no difference";
/// `n` of the `m` calls, in any order.
fn order(n: usize, m: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..m).collect();
    (0..n).map(|_| left.remove(pick(left.len()))).collect()
}
fn sorted(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn leaf(i: usize) -> Sch {
    let mut s = sch([Kind::Bool, Kind::Null, Kind::Int { lo: None, hi: None, mult: None }][i % 3].clone());
    s.info.title = Some(text());
    s
}
fn date(s: u8) -> time::OffsetDateTime {
    time::Date::from_calendar_date(2022, time::Month::May, 4).unwrap().with_hms(1, 2, s).unwrap().assume_utc()
}
fn ts(a: &str) -> Tags {
    Some(vec![(a.to_string(), text()), ("it-IT".into(), text())])
}
fn info_() -> Info {
    Info { attype: vec![text()], title: Some(text()), titles: ts("en"), description: Some(text()), descriptions: ts("de") }
}
/// A Thing with everything; with one fault, or none.
fn everything(fault: usize) -> Th {
    let form = |op: &[FormOperation]| Fm { href: text(), op: op.to_vec(), security: vec![if fault == 1 { "z" } else { "k" }.into()], response: Some(text()), addl: vec![(true, None, Some(if fault == 2 { "z" } else { "s" }.into()))], ..Default::default() };
    let mut t = Th { title: "t".into(), info: info_(), ..Default::default() };
    t.info.title = None;
    t.id = Some(text());
    t.version = Some((text(), None));
    t.created = Some(date(1));
    t.modified = Some(date(2));
    t.support = Some(text());
    t.base = Some(text());
    t.profile = vec![text()];
    t.context = vec![Ctx::Text(text())];
    t.properties = vec![("p".into(), Prop { forms: vec![form(&[])], uri: vec![("u".into(), leaf(1))], ..prop(leaf(0)) })];
    t.actions = vec![("p".into(), Act { aff: Aff { forms: vec![form(&[])], ..Default::default() }, input: Some(leaf(0)), ..Default::default() })];
    t.events = vec![("p".into(), Ev { aff: Aff { forms: vec![form(&[])], ..Default::default() }, data: Some(leaf(0)), ..Default::default() })];
    t.forms = vec![form(if fault == 3 { &[] } else { &[FormOperation::ReadAllProperties] })];
    t.links = vec![Lk { href: text(), hreflang: vec![if fault == 4 { "?" } else { "en" }.into()], ..Default::default() }];
    t.security = vec![Sec { key: Some("k".into()), required: true, ..sec(SecK::Basic(None, Some(text()))) }];
    t.uri = vec![("v".into(), if fault == 5 { sch(Kind::Tuple(vec![])) } else { leaf(2) })];
    t.defs = vec![("s".into(), leaf(0))];
    t
}
fn in_order(t: &Th, v: &[usize]) -> R {
    let mut b = start(&t.title);
    for g in v {
        b = put_group(b, t, *g);
    }
    b.build()
}
/// The groups of calls on the builder of the Thing: any two exchanged, rotated, reversed.
#[no_mangle]
pub extern "C" fn p19_groups() {
    let t = everything(param(0));
    let n = GROUPS - 2;
    let id: Vec<usize> = (0..n).collect();
    let mut v = id.clone();
    match pick(3) {
        0 => {
            let i = pick(n - 1);
            let j = i + 1 + pick(n - 1 - i);
            v.swap(i, j);
        }
        1 => v.rotate_left(1 + pick(n - 1)),
        _ => {
            v.reverse();
            v.rotate_left(pick(n));
        }
    }
    equal(in_order(&t, &id), in_order(&t, &v), ORDER);
}
/// Any four (three) of the groups, in any order.
#[no_mangle]
pub extern "C" fn p19_few() {
    let t = everything(0);
    let n = if param(1) == 1 { 4 } else { 3 };
    let mut v = vec![param(0)];
    let mut left: Vec<usize> = (0..GROUPS - 2).filter(|x| *x != param(0)).collect();
    for _ in 1..n {
        v.push(left.remove(pick(left.len())));
    }
    // what they refer to
    let pre = |v: &[usize]| {
        let mut w: Vec<usize> = [14, 16].into_iter().filter(|x| !v.contains(x)).collect();
        w.extend(v);
        w
    };
    equal(in_order(&t, &pre(&sorted(&v))), in_order(&t, &pre(&v)), ORDER);
}

// ------------------------------------------------------------------------ calls of the parts

macro_rules! steps {
    ($b:ident, $v:expr, $($i:literal => $e:expr),* $(,)?) => {{
        for i in $v {
            $b = match i {
                $($i => $e,)*
                _ => $b,
            };
        }
        $b
    }};
}
struct C {
    s: Vec<String>,
    i: Vec<i64>,
    f: Vec<f64>,
    u: Vec<u32>,
    v: Value,
}
fn consts() -> C {
    let (i, j) = (any_i64(), any_i64());
    let (f, g) = (any_f64(), any_f64());
    let (u, w) = (any_u32(), any_u32());
    assume((i < j) & (f < g) & (u < w));
    C { s: (0..8).map(|_| text()).collect(), i: vec![i, j], f: vec![f, g], u: vec![u, w], v: any_value(3) }
}
/// Calls of forms.
#[no_mangle]
pub extern "C" fn p19_form() {
    let c = consts();
    let v = order(param(0), 8);
    let mk = |v: &[usize], late: bool| {
        start("t")
            .schema_definition("s", |b| b.finish_extend().null())
            .security(|b| b.no_sec().with_key("k"))
            .form(|b| {
                macro_rules! go {
                    ($b:expr) => {{
                        let mut b = $b.op(FormOperation::ReadAllProperties);
                        let v = v.to_vec();
                        steps!(b, v,
                            0 => b.op(FormOperation::QueryAllActions),
                            1 => b.content_type(c.s[0].clone()),
                            2 => b.content_coding(c.s[1].clone()),
                            3 => b.subprotocol(c.s[2].clone()),
                            4 => b.security("k"),
                            5 => b.scope(c.s[3].clone()),
                            6 => b.response_default_ext(c.s[4].clone()),
                            7 => b.additional_response(|r| r.success().schema("s").content_type(c.s[5].clone())),
                        )
                    }};
                }
                if late {
                    go!(b).href(c.s[6].clone())
                } else {
                    go!(b.href(c.s[6].clone()))
                }
            })
            .build()
    };
    equal(mk(&sorted(&v), false), mk(&v, flag()), ORDER);
}
/// Calls of links.
#[no_mangle]
pub extern "C" fn p19_link() {
    let c = consts();
    let v = order(5, 5);
    let mk = |v: &[usize], late: bool| {
        start("t")
            .link_with(|b| {
                macro_rules! go {
                    ($b:expr) => {{
                        let mut b = $b;
                        let v = v.to_vec();
                        steps!(b, v,
                            0 => b.ty(c.s[0].clone()),
                            1 => b.rel("icon"),
                            2 => b.anchor(c.s[1].clone()),
                            3 => b.sizes(c.s[2].clone()),
                            4 => b.hreflang("en"),
                        )
                    }};
                }
                if late {
                    go!(b).href(c.s[6].clone())
                } else {
                    go!(b.href(c.s[6].clone()))
                }
            })
            .build()
    };
    equal(mk(&sorted(&v), false), mk(&v, flag()), ORDER);
}
macro_rules! hr {
    ($b:ident, $v:expr, $c:ident, $($i:literal => $e:expr),* $(,)?) => {
        steps!($b, $v,
            0 => $b.attype($c.s[0].clone()),
            1 => $b.title($c.s[1].clone()),
            2 => $b.titles(|m| m.add("en", $c.s[2].clone())),
            3 => $b.description($c.s[3].clone()),
            4 => $b.descriptions(|m| m.add("de", $c.s[4].clone())),
            $($i => $e,)*
        )
    };
}
/// Calls of affordances.
#[no_mangle]
pub extern "C" fn p19_affordance() {
    let c = consts();
    let n = if param(1) == 1 { 4 } else { 3 };
    let form = |b: FB0| b.href(c.s[5].clone());
    match param(0) {
        0 => {
            let v = order(n, 12);
            let mk = |v: &[usize]| {
                start("t")
                    .action("p", |b| {
                        let mut b = b;
                        hr!(b, v.to_vec(), c,
                            5 => b.form(form),
                            6 => b.uri_variable("u", |s| s.finish_extend().string().title(c.s[6].clone())),
                            7 => b.input(|s| s.finish_extend().bool().title(c.s[7].clone())),
                            8 => b.output(|s| s.finish_extend().null()),
                            9 => b.safe(),
                            10 => b.idempotent(),
                            11 => b.synchronous(false),
                        )
                    })
                    .build()
            };
            equal(mk(&sorted(&v)), mk(&v), ORDER);
        }
        1 => {
            let v = order(n, 11);
            let mk = |v: &[usize]| {
                start("t")
                    .event("p", |b| {
                        let mut b = b;
                        hr!(b, v.to_vec(), c,
                            5 => b.form(form),
                            6 => b.uri_variable("u", |s| s.finish_extend().string().title(c.s[6].clone())),
                            7 => b.subscription(|s| s.finish_extend().bool().title(c.s[7].clone())),
                            8 => b.data(|s| s.finish_extend().null()),
                            9 => b.data_response(|s| s.finish_extend().integer()),
                            10 => b.cancellation(|s| s.finish_extend().number()),
                        )
                    })
                    .build()
            };
            equal(mk(&sorted(&v)), mk(&v), ORDER);
        }
        _ => {
            // a property: some calls before the type of the schema, some after, some after the mode
            let v = order(n, 11);
            let at = pick(n + 1);
            let also = flag();
            macro_rules! calls {
                ($b:expr, $v:expr) => {{
                    let mut b = $b;
                    hr!(b, $v.to_vec(), c,
                        5 => b.form(form),
                        6 => b.uri_variable("u", |s| s.finish_extend().string().title(c.s[6].clone())),
                        7 => b.observable(true),
                        8 => b.unit(c.s[7].clone()),
                        9 => b.format(c.s[2].clone()),
                        10 => b.default_value(c.v.clone()),
                    )
                }};
            }
            let w = sorted(&v);
            let a = start("t").property("p", |b| calls!(b.finish_extend_data_schema(), w).integer().minimum(c.i[0]).read_only()).build();
            let b = if also {
                start("t").property("p", |b| calls!(calls!(b.finish_extend_data_schema(), v[..at]).integer().minimum(c.i[0]), v[at..]).read_only()).build()
            } else {
                start("t").property("p", |b| calls!(calls!(b.finish_extend_data_schema(), v[..at]).integer().read_only(), v[at..]).minimum(c.i[0])).build()
            };
            equal(a, b, ORDER);
        }
    }
}
/// Calls of schemas: some before the type is given and some after.
#[no_mangle]
pub extern "C" fn p19_schema() {
    let c = consts();
    let k = param(0);
    let n = if param(1) == 1 { 4 } else { 3 };
    // common calls, before or after the type
    macro_rules! common {
        ($b:expr, $v:expr, $($i:literal, $x:ident => $e:expr),* $(,)?) => {{
            let mut b = $b;
            for i in $v {
                b = match i {
                    0 => b.attype(c.s[0].clone()),
                    1 => b.title(c.s[1].clone()),
                    2 => b.titles(|m| m.add("en", c.s[2].clone())),
                    3 => b.description(c.s[3].clone()),
                    4 => b.descriptions(|m| m.add("de", c.s[4].clone())),
                    5 => b.unit(c.s[5].clone()),
                    6 => b.format(c.s[6].clone()),
                    7 => b.default_value(c.v.clone()),
                    $($i => { let $x = b; $e })*
                    _ => b,
                };
            }
            b
        }};
    }
    macro_rules! schema {
        ($ty:ident, $m:literal; $($i:literal, $x:ident => $e:expr),* $(,)?) => {{
            let v = order(n, $m);
            let at = pick(n + 1);
            // calls of the type cannot come before it
            assume(v[..at].iter().all(|x| *x < 8));
            let w = sorted(&v);
            let mk = |pre: &[usize], post: &[usize]| start("t").schema_definition("d", |b| common!(common!(b.finish_extend(), pre.to_vec(),).$ty(), post.to_vec(), $($i, $x => $e),*)).build();
            equal(mk(&[], &w), mk(&v[..at], &v[at..]), ORDER)
        }};
    }
    match k {
        0 => schema!(bool, 8;),
        1 => schema!(null, 8;),
        2 => schema!(number, 11; 8, x => x.minimum(c.f[0]), 9, x => x.exclusive_maximum(c.f[1]), 10, x => x.multiple_of(2.0)),
        3 => schema!(integer, 11; 8, x => x.exclusive_minimum(c.i[0]), 9, x => x.maximum(c.i[1]), 10, x => x.multiple_of(std::num::NonZeroU64::new(7).unwrap())),
        4 => schema!(string, 13; 8, x => x.min_length(c.u[0]), 9, x => x.max_length(c.u[1]), 10, x => x.pattern(c.s[7].clone()), 11, x => x.content_encoding(c.s[0].clone()), 12, x => x.content_media_type(c.s[3].clone())),
        5 => schema!(vec, 11; 8, x => x.min_items(c.u[0]), 9, x => x.max_items(c.u[1]), 10, x => x.set_item(|i| i.finish_extend().bool().title(c.s[7].clone()))),
        6 => schema!(tuple, 9; 8, x => x.append(|i| i.finish_extend().bool().title(c.s[7].clone()))),
        7 => schema!(object, 10; 8, x => x.property("a", true, |i| i.finish_extend().bool().title(c.s[7].clone())), 9, x => x.property("b", false, |i| i.finish_extend().null())),
        _ => {
            let v = order(n, 8);
            let at = pick(n + 1);
            let w = sorted(&v);
            macro_rules! two { ($e:ident) => { equal(
                start("t").schema_definition("d", |b| $e!(common!(b.finish_extend(), w.to_vec(),))).build(),
                start("t").schema_definition("d", |b| common!($e!(common!(b.finish_extend(), v[..at].to_vec(),)), v[at..].to_vec(),)).build(), ORDER) } }
            macro_rules! co { ($b:expr) => { $b.constant(c.v.clone()) } }
            macro_rules! en { ($b:expr) => { $b.enumeration(c.v.clone()).enumeration(c.s[0].clone()) } }
            macro_rules! of { ($b:expr) => { $b.one_of(|i| i.finish_extend().bool().title(c.s[7].clone())).one_of(|i| i.finish_extend().null()) } }
            match k {
                8 => two!(co),
                9 => two!(en),
                _ => two!(of),
            }
        }
    }
}
/// Calls of security schemes: before or after the kind is given.
#[no_mangle]
pub extern "C" fn p19_security() {
    let c = consts();
    let n = if param(1) == 1 { 5 } else { 4 };
    let v = order(n, 6);
    let at = pick(n + 1);
    macro_rules! common {
        ($b:expr, $v:expr) => {{
            let mut b = $b;
            for i in $v {
                b = match i {
                    0 => b.attype(c.s[0].clone()),
                    1 => b.description(c.s[1].clone()),
                    2 => b.descriptions(|m| m.add("en", c.s[2].clone())),
                    3 => b.proxy(c.s[3].clone()),
                    4 => b.required(),
                    _ => b.with_key("k"),
                };
            }
            b
        }};
    }
    let w = sorted(&v);
    macro_rules! go {
        ($x:ident => $e:expr, $y:ident => $f:expr) => {{
            let a = start("t").security(|b| {
                let $x = common!(b, w.to_vec());
                let $y = $e;
                $f
            });
            let b = start("t").security(|b| {
                let $x = common!(b, v[..at].to_vec());
                let $y = $e;
                common!($f, v[at..].to_vec())
            });
            let d = start("t").security(|b| {
                let $x = common!(b, v[..at].to_vec());
                let $y = common!($e, v[at..].to_vec());
                $f
            });
            let a = a.build();
            let d = d.build();
            if let (Ok(a), Ok(d)) = (&a, &d) {
                check(thing_diff(a, d).is_none(), ORDER);
            }
            equal(a, b.build(), ORDER)
        }};
    }
    match param(0) {
        0 => go!(x => x.no_sec(), y => y),
        1 => go!(x => x.auto(), y => y),
        2 => go!(x => x.basic(), y => y.name(c.s[4].clone())),
        3 => go!(x => x.digest(), y => y.qop(QualityOfProtection::AuthInt)),
        4 => go!(x => x.apikey(), y => y.location(SecurityAuthenticationLocation::Cookie)),
        5 => go!(x => x.bearer(), y => y.alg(c.s[4].clone())),
        6 => go!(x => x.psk(), y => y),
        7 => go!(x => x.oauth2(c.s[5].clone()), y => y.scope(c.s[4].clone())),
        8 => go!(x => x.custom("zz"), y => y.data(c.v.clone())),
        _ => go!(x => x.combo().one_of(["k", "zz"]), y => y),
    }
}
/// Calls of the parameters of security schemes.
#[no_mangle]
pub extern "C" fn p19_parameters() {
    let c = consts();
    macro_rules! go {
        ($m:literal, $s:ident => $e:expr, $($i:literal, $x:ident => $f:expr),*) => {{
            let v = order($m, $m);
            let mk = |v: &[usize]| {
                start("t").security(|$s| {
                    let mut b = $e;
                    for i in v.to_vec() {
                        b = match i {
                            $($i => { let $x = b; $f })*
                            _ => b,
                        };
                    }
                    b
                }).build()
            };
            equal(mk(&sorted(&v)), mk(&v), ORDER)
        }};
    }
    let loc = || SecurityAuthenticationLocation::Uri;
    match param(0) {
        0 => go!(2, s => s.basic(), 0, b => b.name(c.s[0].clone()), 1, b => b.location(loc())),
        1 => go!(3, s => s.digest(), 0, b => b.name(c.s[0].clone()), 1, b => b.location(loc()), 2, b => b.qop(QualityOfProtection::AuthInt)),
        2 => go!(2, s => s.apikey(), 0, b => b.name(c.s[0].clone()), 1, b => b.location(loc())),
        3 => go!(5, s => s.bearer(), 0, b => b.name(c.s[0].clone()), 1, b => b.location(loc()), 2, b => b.alg(c.s[1].clone()), 3, b => b.format(c.s[2].clone()), 4, b => b.authorization(c.s[3].clone())),
        _ => go!(4, s => s.oauth2("code"), 0, b => b.authorization(c.s[0].clone()), 1, b => b.token(c.s[1].clone()), 2, b => b.refresh(c.s[2].clone()), 3, b => b.scope(c.s[3].clone())),
    }
}

// ------------------------------------------------------------------------ two forms of a call

const FORMS: &str = "the two forms of a call are the same";
#[no_mangle]
pub extern "C" fn p19_forms() {
    let c = consts();
    let (a, b) = (start("t"), start("t"));
    let (a, b) = match param(0) {
        0 => (a.link(c.s[0].clone()), b.link_with(|l| l.href(c.s[0].clone()))),
        1 => (a.context(c.s[0].clone()).context_map(|m| m), b.context(c.s[0].clone()).context_map(|m| m)),
        2 => {
            let f = |b: FB0| b.href(c.s[0].clone()).op(FormOperation::QueryAllActions);
            (a.form(|b| f(b).response_default_ext(c.s[1].clone())), b.form(|b| f(b).response(c.s[1].clone(), |e| e)))
        }
        3 => (a.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).vec().min_items(c.u[0])), b.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).vec_ext(|e| e).min_items(c.u[0]))),
        4 => (a.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).tuple().append(|b| b.finish_extend().null())), b.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).tuple_ext(|e| e).append(|b| b.finish_extend().null()))),
        5 => (a.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).object().property("a", true, |b| b.finish_extend().null())), b.schema_definition("s", |b| b.finish_extend().title(c.s[0].clone()).object_ext(|e| e).property("a", true, |b| b.finish_extend().null()))),
        6 => (a.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).vec().min_items(c.u[0])), b.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).vec_ext(|e| e).min_items(c.u[0]))),
        7 => (a.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).tuple().append(|b| b.finish_extend().null())), b.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).tuple_ext(|e| e).append(|b| b.finish_extend().null()))),
        8 => (a.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).object().property("a", true, |b| b.finish_extend().null())), b.property("s", |b| b.finish_extend_data_schema().title(c.s[0].clone()).object_ext(|e| e).property("a", true, |b| b.finish_extend().null()))),
        9 => {
            // starting from the empty extension
            (a.id(c.s[0].clone()), ThingBuilder::<Nil, ToExtend>::new_empty("t").finish_extend().id(c.s[0].clone()))
        }
        10 => {
            // calls before extensions are finished, and after
            let x = |b: ThingBuilder<Nil, ToExtend>| b.id(c.s[0].clone()).description(c.s[1].clone()).version(c.s[2].clone()).base(c.s[3].clone()).attype(c.s[4].clone()).profile(c.s[5].clone());
            let y = |b: TB| b.id(c.s[0].clone()).description(c.s[1].clone()).version(c.s[2].clone()).base(c.s[3].clone()).attype(c.s[4].clone()).profile(c.s[5].clone());
            (x(ThingBuilder::<Nil, ToExtend>::new("t")).finish_extend(), y(b))
        }
        11 => (a.version(c.s[0].clone()), b.version(VersionInfo { instance: c.s[0].clone(), model: None })),
        12 => {
            // a schema given as the builder or as the value it converts to
            let f = |b: DSB| b.number().minimum(c.f[0]).maximum(c.f[1]).title(c.s[0].clone());
            (
                a.action("p", |x| x.input(|b| f(b.finish_extend())).output(|b| f(b.finish_extend()).read_only())),
                b.action("p", |x| {
                    x.input(|b| {
                        let u: UDS = f(b.finish_extend()).into();
                        u
                    })
                    .output(|b| {
                        let u: UDS = f(b.finish_extend()).read_only().into();
                        u
                    })
                }),
            )
        }
        13 => (a.security(|s| s.combo().all_of(["k", "l"]).with_key("c")), b.security(|s| s.combo().all_of(["k"]).push("l").with_key("c"))),
        14 => (a.security(|s| s.combo().one_of(["k", "l"]).with_key("c")), b.security(|s| s.combo().one_of(Vec::<String>::new()).extend(["k", "l"]).with_key("c"))),
        _ => {
            // builder of a Thing through its type
            (a.id(c.s[0].clone()), Thing::builder("t").finish_extend().id(c.s[0].clone()))
        }
    };
    let (a, b) = if param(0) == 13 || param(0) == 14 {
        let d = |b: TB| b.security(|s| s.no_sec().with_key("k")).security(|s| s.no_sec().with_key("l"));
        (d(a), d(b))
    } else {
        (a, b)
    };
    equal(a.build(), b.build(), FORMS);
}

// ------------------------------------------------------------------------ explicit defaults

const DEFAULT: &str = "a default given explicitly is the same as left out";
#[no_mangle]
pub extern "C" fn p19_defaults() {
    let c = consts();
    use SecurityAuthenticationLocation as L;
    let (a, b) = (start("t"), start("t"));
    let (a, b) = match param(0) {
        0 => (a.security(|s| s.basic().name(c.s[0].clone())), b.security(|s| s.basic().location(L::Header).name(c.s[0].clone()))),
        1 => (a.security(|s| s.digest()), b.security(|s| s.digest().location(L::Header).qop(QualityOfProtection::Auth))),
        2 => (a.security(|s| s.apikey()), b.security(|s| s.apikey().location(L::Query))),
        3 => (a.security(|s| s.bearer()), b.security(|s| s.bearer().location(L::Header).alg("ES256").format("jwt"))),
        4 => (a.security(|s| s.no_sec()), b.security(|s| s.no_sec().with_key("nosec"))),
        5 => (a.security(|s| s.custom("zz")), b.security(|s| s.custom("zz").with_key("zz").data(Value::Object(Default::default())))),
        6 => (a.context(TD_CONTEXT_11), b),
        7 => (a.context(c.s[0].clone()), b.context(TD_CONTEXT_11).context(c.s[0].clone())),
        _ => (a.security(|s| s.oauth2("code")), b.security(|s| s.oauth2("code").with_key("oauth2"))),
    };
    equal(a.build(), b.build(), DEFAULT);
}

// ------------------------------------------------------------------------ schemas on their own

fn lims<T: PartialOrd + Copy>(a: T, b: T) -> (Lim<T>, Lim<T>) {
    assume(a < b);
    let m = pick(16) as u64;
    (if has(m, 0) { Some((has(m, 2), a)) } else { None }, if has(m, 1) { Some((has(m, 3), b)) } else { None })
}
fn kind(k: usize) -> Kind {
    match k {
        0 => Kind::Bool,
        1 => Kind::Null,
        2 => {
            let (lo, hi) = lims(any_f64(), any_f64());
            Kind::Num { lo, hi, mult: if flag() { Some(1.5) } else { None } }
        }
        3 => {
            let (lo, hi) = lims(any_i64(), any_i64());
            Kind::Int { lo, hi, mult: if flag() { Some(3) } else { None } }
        }
        4 => {
            let m = pick(8) as u64;
            let (a, b) = (any_u32(), any_u32());
            assume(a <= b);
            let o = |c: bool| if c { Some(text()) } else { None };
            Kind::Str { lo: if has(m, 0) { Some(a) } else { None }, hi: if has(m, 1) { Some(b) } else { None }, pattern: o(has(m, 2)), encoding: o(has(m, 1)), media: o(has(m, 0)) }
        }
        5 => {
            let m = pick(8) as u64;
            let (a, b) = (any_u32(), any_u32());
            assume(a <= b);
            Kind::List { item: if has(m, 2) { Some(Box::new(leaf(1))) } else { None }, lo: if has(m, 0) { Some(a) } else { None }, hi: if has(m, 1) { Some(b) } else { None } }
        }
        6 => Kind::Tuple((0..pick(3)).map(leaf).collect()),
        7 => Kind::Obj((0..pick(3)).map(|i| (["a", "b"][i].to_string(), flag(), leaf(i))).collect()),
        8 => Kind::Const(any_value(pick(8))),
        9 => Kind::Enum((0..1 + pick(2)).map(|i| any_value(i + 2)).collect()),
        _ => Kind::OneOf((0..1 + pick(2)).map(leaf).collect()),
    }
}
/// A schema built on its own is the one within a Thing, at each place.
#[no_mangle]
pub extern "C" fn p19_alone() {
    let p = param(0);
    let mut s = sch(kind(pick(11)));
    if flag() {
        s.info = info_();
        s.unit = Some(text());
        s.format = Some(text());
        s.default = Some(any_value(5));
    }
    s.order = pick(3) as u8;
    if !matches!(s.kind, Kind::Const(_) | Kind::OneOf(_)) {
        s.mode = pick(3) as u8;
    }
    assume(fits(p, &s));
    alone(p, s);
}
/// The same for schemas within schemas.
#[no_mangle]
pub extern "C" fn p19_alone_nested() {
    let p = param(0);
    let mut s = leaf(pick(3));
    s.mode = pick(3) as u8;
    let mut s = nest([0, 3, 8, 5, 10][pick(5)], nest(1 + pick(NESTS - 1), s));
    s.info = info_();
    assume(fits(p, &s));
    alone(p, s);
}
fn alone(p: usize, s: Sch) {
    let t = place(p, 0, s.clone());
    let r = match build(&t) {
        Ok(r) => r,
        Err(_) => return check(false, "the Thing is built"),
    };
    let v = |u: &Option<std::collections::HashMap<String, DS>>| u.as_ref().unwrap()["u"].clone();
    let d = match p {
        0 => r.properties.as_ref().unwrap()["p"].data_schema.clone(),
        1 => r.actions.as_ref().unwrap()["p"].input.clone().unwrap(),
        2 => r.actions.as_ref().unwrap()["p"].output.clone().unwrap(),
        3 => r.events.as_ref().unwrap()["p"].subscription.clone().unwrap(),
        4 => r.events.as_ref().unwrap()["p"].data.clone().unwrap(),
        5 => r.events.as_ref().unwrap()["p"].data_response.clone().unwrap(),
        6 => r.events.as_ref().unwrap()["p"].cancellation.clone().unwrap(),
        7 => v(&r.uri_variables),
        8 => v(&r.properties.as_ref().unwrap()["p"].interaction.uri_variables),
        9 => v(&r.actions.as_ref().unwrap()["p"].interaction.uri_variables),
        10 => v(&r.events.as_ref().unwrap()["p"].interaction.uri_variables),
        _ => r.schema_definitions.as_ref().unwrap()["d"].clone(),
    };
    match standalone(&s) {
        Some(x) => check(x.same(&d), "a schema built on its own is the one within a Thing"),
        None => check(false, "a schema is built on its own"),
    }
    cover("compared");
}
