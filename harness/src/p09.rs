//! A built Thing holds exactly what the builder was given, where it was given.
use crate::{ast::*, dress, gen::*, place::*, sym::{any_bool, any_f64, any_i64, any_name, text, any_u32, any_u64, assume, check, cover, flag, full, has, param, pick, subset, subset1}};
use wot_td::builder::*;
use wot_td::hlist::Nil;
use wot_td::thing::*;

fn o(c: bool) -> Option<String> {
    if c {
        Some(text())
    } else {
        None
    }
}
fn l(n: usize) -> Vec<String> {
    (0..crate::sym::scale(n)).map(|_| text()).collect()
}
fn ts(n: usize) -> Tags {
    Some(["en", "it-IT", "zh-Hant"][..n].iter().map(|t| (t.to_string(), text())).collect())
}
fn opt<T>(c: bool, f: impl FnOnce() -> T) -> Option<T> {
    if c {
        Some(f())
    } else {
        None
    }
}
fn info_(m: u64) -> Info {
    Info {
        attype: if has(m, 0) { l(2) } else { vec![] },
        title: o(has(m, 1)),
        titles: if has(m, 2) { ts(2) } else { None },
        description: o(has(m, 3)),
        descriptions: if has(m, 4) { ts(2) } else { None },
    }
}
fn leaf(i: usize) -> Sch {
    let mut s = sch([Kind::Bool, Kind::Null, Kind::Int { lo: None, hi: None, mult: None }][i % 3].clone());
    s.info.title = o(true);
    s.mode = (i % 3) as u8;
    s
}
/// Limits in order, so that the schema is accepted.
fn lims<T: PartialOrd + Copy>(m: u64, a: T, b: T) -> (Lim<T>, Lim<T>) {
    assume(a < b);
    (opt(has(m, 0), || (has(m, 2), a)), opt(has(m, 1), || (has(m, 3), b)))
}
fn kind(k: usize) -> Kind {
    match k {
        0 => Kind::Bool,
        1 => Kind::Null,
        2 => {
            let m = pick(32) as u64;
            let (a, b) = (any_f64(), any_f64());
            if cfg!(feature = "p21") {
                assume(a.is_finite() & b.is_finite());
            }
            let (lo, hi) = lims(m, a, b);
            Kind::Num {
                lo,
                hi,
                mult: opt(has(m, 4), || {
                    let x = any_f64();
                    assume(x > 0.0);
                    if cfg!(feature = "p21") {
                        assume(x.is_finite());
                    }
                    x
                }),
            }
        }
        3 => {
            let m = pick(32) as u64;
            let (lo, hi) = lims(m, any_i64(), any_i64());
            Kind::Int {
                lo,
                hi,
                mult: opt(has(m, 4), || {
                    let x = any_u64();
                    assume(x > 0);
                    x
                }),
            }
        }
        4 => {
            let m = pick(32) as u64;
            let (a, b) = (any_u32(), any_u32());
            assume(a <= b);
            Kind::Str { lo: opt(has(m, 0), || a), hi: opt(has(m, 1), || b), pattern: o(has(m, 2)), encoding: o(has(m, 3)), media: o(has(m, 4)) }
        }
        5 => {
            let m = pick(8) as u64;
            let (a, b) = (any_u32(), any_u32());
            assume(a <= b);
            Kind::List { item: opt(has(m, 2), || Box::new(leaf(2))), lo: opt(has(m, 0), || a), hi: opt(has(m, 1), || b) }
        }
        6 => Kind::Tuple((0..pick(4)).map(leaf).collect()),
        7 => Kind::Obj((0..pick(4)).map(|i| (["a", "b", "c"][i].to_string(), flag(), leaf(i))).collect()),
        8 => Kind::Const(any_value(pick(8))),
        9 => Kind::Enum((0..1 + pick(3)).map(|i| any_value(i + 2)).collect()),
        _ => Kind::OneOf((0..1 + pick(3)).map(leaf).collect()),
    }
}
fn schema_(k: Kind, m: u64) -> Sch {
    let mut s = sch(k);
    s.info = info_(m);
    s.unit = o(has(m, 5));
    s.format = o(has(m, 6));
    s.default = opt(has(m, 7), || any_value(5));
    s
}
fn same_info(a: (&Option<Vec<String>>, &Option<String>, &Option<Ml>, &Option<String>, &Option<Ml>), b: (&Option<Vec<String>>, &Option<String>, &Option<Ml>, &Option<String>, &Option<Ml>)) {
    check(a.0.same(b.0), "the types are those given");
    check(a.1.same(b.1), "the title is that given");
    check(a.2.same(b.2), "the translated titles are those given");
    check(a.3.same(b.3), "the description is that given");
    check(a.4.same(b.4), "the translated descriptions are those given");
}
fn same_schema(a: &DS, b: &DS) {
    same_info((&a.attype, &a.title, &a.titles, &a.description, &a.descriptions), (&b.attype, &b.title, &b.titles, &b.description, &b.descriptions));
    check(a.constant.same(&b.constant) & a.enumeration.same(&b.enumeration) & a.one_of.same(&b.one_of), "the values and alternatives of a schema are those given");
    check(a.default.same(&b.default) & a.unit.same(&b.unit) & a.format.same(&b.format), "the default, unit and format of a schema are those given");
    check((a.read_only == b.read_only) & (a.write_only == b.write_only), "a schema is read-only or write-only as asked");
    check(a.subtype.same(&b.subtype), "the type of a schema has the members given");
}
fn got<'a>(r: &'a Thing<Nil>, p: usize) -> &'a DS {
    match p {
        0 => &r.properties.as_ref().unwrap()["p"].data_schema,
        1 => r.actions.as_ref().unwrap()["p"].input.as_ref().unwrap(),
        2 => r.actions.as_ref().unwrap()["p"].output.as_ref().unwrap(),
        3 => r.events.as_ref().unwrap()["p"].subscription.as_ref().unwrap(),
        4 => r.events.as_ref().unwrap()["p"].data.as_ref().unwrap(),
        5 => r.events.as_ref().unwrap()["p"].data_response.as_ref().unwrap(),
        6 => r.events.as_ref().unwrap()["p"].cancellation.as_ref().unwrap(),
        7 => &r.uri_variables.as_ref().unwrap()["u"],
        8 => &r.properties.as_ref().unwrap()["p"].interaction.uri_variables.as_ref().unwrap()["u"],
        9 => &r.actions.as_ref().unwrap()["p"].interaction.uri_variables.as_ref().unwrap()["u"],
        10 => &r.events.as_ref().unwrap()["p"].interaction.uri_variables.as_ref().unwrap()["u"],
        _ => &r.schema_definitions.as_ref().unwrap()["d"],
    }
}
/// The Thing is exactly the one asked for.
fn whole(t: &Th) -> Option<Thing<Nil>> {
    let r = match build(t) {
        Ok(r) => r,
        Err(_) => {
            check(false, "the Thing is built");
            return None;
        }
    };
    #[cfg(feature = "p21")]
    {
        crate::p21::verdict(&r);
        return None;
    }
    let w = value(t);
    let d = thing_diff(&r, &w);
    if let Some(d) = d {
        crate::sym::obs_str(d);
    }
    check(d.is_none(), "every field has the value given or its default");
    cover("built");
    Some(r)
}
fn verdict(p: usize, second: usize, s: Sch) {
    assume(fits(p, &s));
    let t = place(p, second, s.clone());
    if let Some(r) = whole(&t) {
        same_schema(got(&r, p), &v_sch(&s));
    }
}
/// Schemas of every kind at every place: every combination of what the kind has, a common member
/// and one or all others.
#[no_mangle]
pub extern "C" fn p09_kinds() {
    let k = kind(param(1));
    let m = [0, 0b10110110, 0b11111111][pick(3)];
    let mut s = schema_(k, m);
    s.order = pick(3) as u8;
    if !matches!(s.kind, Kind::Const(_) | Kind::OneOf(_)) {
        s.mode = pick(3) as u8;
    }
    verdict(param(0), 0, s);
}
/// Schemas: the common members, in every combination asked for.
#[no_mangle]
pub extern "C" fn p09_schemas() {
    let k = [Kind::Bool, Kind::Num { lo: None, hi: None, mult: None }, Kind::Tuple(vec![leaf(0)]), Kind::Const(any_value(3)), Kind::Enum(vec![any_value(3)]), Kind::OneOf(vec![leaf(1)]), Kind::Obj(vec![])];
    let k = k[pick(7)].clone();
    let mut s = schema_(k, subset(8));
    s.order = pick(2) as u8 * 2;
    verdict(param(0), pick(3), s);
}
/// Schemas in schemas.
#[no_mangle]
pub extern "C" fn p09_nested() {
    let m = if full() { subset1(8) } else { [0, 0b10101010, 0b01010101][pick(3)] };
    let mut s = schema_(kind([0, 3, 7, 8, 9][pick(5)]), m);
    s.order = 2;
    let mut q = nest(if param(1) == 1 { nest_of_two() } else { 1 + pick(NESTS - 1) }, s);
    q.info.title = o(flag());
    if param(1) == 1 {
        q = nest(nest_of_two(), q);
    }
    verdict(param(0), 0, q);
}
fn form_(m: u64, thing: bool) -> Fm {
    Fm {
        href: text(),
        op: if has(m, 0) {
            if thing {
                vec![FormOperation::ReadAllProperties, FormOperation::WriteMultipleProperties]
            } else {
                vec![]
            }
        } else if thing {
            vec![FormOperation::QueryAllActions]
        } else {
            vec![]
        },
        content_type: o(has(m, 1)),
        content_coding: o(has(m, 2)),
        subprotocol: o(has(m, 3)),
        security: if has(m, 4) { vec!["k".into(), "q".into()] } else { vec![] },
        scopes: if has(m, 5) { l(2) } else { vec![] },
        response: o(has(m, 6)),
        addl: (0..if has(m, 7) { 2 } else { 0 }).map(|i| (i == 0, o(i == 0), if i == 1 { Some("s".into()) } else { None })).collect(),
        late: has(m, 8),
    }
}
fn ops(p: usize) -> Vec<FormOperation> {
    use FormOperation::*;
    match p {
        0 => vec![ReadAllProperties, QueryAllActions],
        1 => vec![WriteProperty, ObserveProperty],
        2 => vec![CancelAction, InvokeAction],
        _ => vec![UnsubscribeEvent, SubscribeEvent],
    }
}
fn base() -> Th {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.security = vec![Sec { key: Some("k".into()), ..sec(SecK::NoSec) }, Sec { key: Some("q".into()), ..sec(SecK::Psk) }];
    t.defs = vec![("s".into(), sch(Kind::Bool))];
    t
}
fn with_forms(p: usize, f: Vec<Fm>) -> Th {
    let mut t = base();
    match p {
        0 => t.forms = f,
        1 => t.properties.push(("p".into(), Prop { forms: f, ..prop(sch(Kind::Null)) })),
        2 => t.actions.push(("p".into(), Act { aff: Aff { forms: f, ..Default::default() }, ..Default::default() })),
        _ => t.events.push(("p".into(), Ev { aff: Aff { forms: f, ..Default::default() }, ..Default::default() })),
    }
    t
}
fn same_forms(r: &Thing<Nil>, p: usize, w: &[Fm]) {
    let f = match p {
        0 => r.forms.as_deref().unwrap_or(&[]),
        1 => &r.properties.as_ref().unwrap()["p"].interaction.forms,
        2 => &r.actions.as_ref().unwrap()["p"].interaction.forms,
        _ => &r.events.as_ref().unwrap()["p"].interaction.forms,
    };
    check(f.len() == w.len(), "there are as many forms as given");
    for (a, b) in f.iter().zip(w) {
        let b = v_form(b);
        check(a.op.same(&b.op), "the operations of a form are those given");
        check(a.href.same(&b.href) & a.content_type.same(&b.content_type) & a.content_coding.same(&b.content_coding) & a.subprotocol.same(&b.subprotocol), "the texts of a form are those given");
        check(a.security.same(&b.security) & a.scopes.same(&b.scopes), "the security and scopes of a form are those given");
        check(a.response.same(&b.response) & a.additional_responses.same(&b.additional_responses), "the responses of a form are those given");
    }
}
/// Forms of the Thing and of each kind of affordance: one or two, with every combination asked for.
#[no_mangle]
pub extern "C" fn p09_forms() {
    let p = param(0);
    let mut f = form_(subset(9), p == 0);
    if p != 0 && flag() {
        f.op = ops(p);
    }
    let g = form_([0b010101010, 0b101010101][pick(2)], p == 0);
    let v = [vec![f.clone()], vec![f.clone(), g.clone()], vec![g, f]][pick(3)].clone();
    if let Some(r) = whole(&with_forms(p, v.clone())) {
        same_forms(&r, p, &v);
    }
}
/// Additional responses, up to three, every combination of their members.
#[no_mangle]
pub extern "C" fn p09_responses() {
    let p = pick(4);
    let mut f = form_(0, p == 0);
    f.addl = (0..pick(4)).map(|i| if i == 0 { (flag(), o(flag()), opt(flag(), || "s".to_string())) } else { [(true, None, None), (false, o(true), Some("s".into()))][pick(2)].clone() }).collect();
    let v = vec![f];
    if let Some(r) = whole(&with_forms(p, v.clone())) {
        same_forms(&r, p, &v);
    }
}
fn link_(m: u64) -> Lk {
    Lk {
        href: text(),
        ty: o(has(m, 0)),
        rel: if has(m, 1) { Some("icon".into()) } else { None },
        anchor: o(has(m, 2)),
        sizes: if has(m, 3) & has(m, 1) { o(true) } else { None },
        hreflang: if has(m, 4) { vec!["en".into(), "it-IT".into()] } else { vec![] },
        late: has(m, 5),
        plain: m == 0,
    }
}
/// Up to three links with every combination of members.
#[no_mangle]
pub extern "C" fn p09_links() {
    let mut t = base();
    t.links.push(link_(pick(64) as u64));
    for _ in 0..pick(3) {
        t.links.push(link_([0, 0b101011][pick(2)]));
    }
    if flag() {
        t.links.reverse();
    }
    if let Some(r) = whole(&t) {
        check(r.links.same(&value(&t).links), "the links are those given, in order");
    }
}
fn vars(n: usize) -> Vec<(String, Sch)> {
    (0..n).map(|i| (["x", "y"][i].to_string(), leaf(i))).collect()
}
fn prop_(m: u64) -> Prop {
    let mut s = schema_(if has(m, 11) { Kind::Int { lo: Some((has(m, 0), any_i64())), hi: None, mult: None } } else { Kind::Bool }, m);
    s.mode = has(m, 9) as u8 * 2;
    s.order = has(m, 10) as u8 * 2;
    Prop { forms: if has(m, 8) { vec![form_(0b10, false), form_(0, false)] } else { vec![] }, uri: vars(if has(m, 12) { 2 } else { 0 }), observable: opt(has(m, 13), any_bool), sch: s }
}
fn act_(m: u64) -> Act {
    Act {
        aff: Aff { info: info_(m), forms: if has(m, 5) { vec![form_(0b100, false), form_(0, false)] } else { vec![] }, uri: vars(if has(m, 6) { 2 } else { 0 }) },
        input: opt(has(m, 7), || leaf(0)),
        output: opt(has(m, 8), || leaf(1)),
        safe: has(m, 9),
        idempotent: has(m, 10),
        synchronous: opt(has(m, 11), any_bool),
    }
}
fn ev_(m: u64) -> Ev {
    Ev {
        aff: Aff { info: info_(m), forms: if has(m, 5) { vec![form_(0b1000, false), form_(0, false)] } else { vec![] }, uri: vars(if has(m, 6) { 2 } else { 0 }) },
        subscription: opt(has(m, 7), || leaf(0)),
        data: opt(has(m, 8), || leaf(1)),
        data_response: opt(has(m, 9), || leaf(2)),
        cancellation: opt(has(m, 10), || leaf(0)),
    }
}
fn same_inter(a: &InteractionAffordance<Nil>, b: &InteractionAffordance<Nil>) {
    same_info((&a.attype, &a.title, &a.titles, &a.description, &a.descriptions), (&b.attype, &b.title, &b.titles, &b.description, &b.descriptions));
    check(a.forms.same(&b.forms), "the forms are those given");
    check(a.uri_variables.same(&b.uri_variables), "the URI variables are those given");
}
/// One affordance with any combination of members, alone or second.
#[no_mangle]
pub extern "C" fn p09_affordances() {
    let mut t = base();
    let second = flag();
    match param(0) {
        0 => {
            if second {
                t.properties.push(("o".into(), prop_(0b11111000011010)));
            }
            t.properties.push(("p".into(), prop_(subset(14))));
        }
        1 => {
            if second {
                t.actions.push(("o".into(), act_(0b111111000010)));
            }
            t.actions.push(("p".into(), act_(subset(12))));
        }
        _ => {
            if second {
                t.events.push(("o".into(), ev_(0b11111000010)));
            }
            t.events.push(("p".into(), ev_(subset(11))));
        }
    }
    if let Some(r) = whole(&t) {
        if let Some(q) = t.properties.last() {
            let (a, b) = (&r.properties.as_ref().unwrap()["p"], v_prop(&q.1));
            same_inter(&a.interaction, &b.interaction);
            same_schema(&a.data_schema, &b.data_schema);
            check(a.observable.same(&b.observable), "a property is observable as given");
        }
        if let Some(q) = t.actions.last() {
            let (a, b) = (&r.actions.as_ref().unwrap()["p"], v_act(&q.1));
            same_inter(&a.interaction, &b.interaction);
            check(a.input.same(&b.input) & a.output.same(&b.output), "the input and output of an action are those given");
            check((a.safe == b.safe) & (a.idempotent == b.idempotent) & a.synchronous.same(&b.synchronous), "an action is safe, idempotent and synchronous as given");
        }
        if let Some(q) = t.events.last() {
            let (a, b) = (&r.events.as_ref().unwrap()["p"], v_ev(&q.1));
            same_inter(&a.interaction, &b.interaction);
            check(a.subscription.same(&b.subscription) & a.data.same(&b.data) & a.data_response.same(&b.data_response) & a.cancellation.same(&b.cancellation), "the schemas of an event are those given");
        }
    }
}
fn date(s: u8) -> time::OffsetDateTime {
    time::Date::from_calendar_date(2022, time::Month::May, 4).unwrap().with_hms(1, 2, s).unwrap().assume_utc()
}
fn thing_(m: u64) -> Th {
    let mut t = Th { title: text(), ..Default::default() };
    t.info = info_(m);
    t.info.title = None;
    t.id = o(has(m, 1));
    t.version = opt(has(m, 5), || (text(), o(has(m, 6))));
    t.created = opt(has(m, 6), || date(7));
    t.modified = opt(has(m, 7), || date(8));
    t.support = o(has(m, 8));
    t.base = o(has(m, 9));
    t.profile = if has(m, 10) { l(1 + has(m, 11) as usize) } else { vec![] };
    t.context = if has(m, 11) { vec![Ctx::Text(text()), Ctx::Map(vec![("a".into(), text()), ("b".into(), text())])] } else { vec![] };
    if has(m, 12) {
        t.properties = vec![("p".into(), prop_(0)), ("q".into(), prop_(0b11100001000010))];
    }
    if has(m, 13) {
        t.actions = vec![("p".into(), act_(0)), ("q".into(), act_(0b110110000010))];
    }
    if has(m, 14) {
        t.events = vec![("p".into(), ev_(0)), ("q".into(), ev_(0b01100000010))];
    }
    t.forms = if has(m, 15) { vec![form_(0b1101101, true), form_(0b10, true)] } else { vec![] };
    t.links = if has(m, 16) { vec![link_(0b1011), link_(0b10100)] } else { vec![] };
    t.security = if has(m, 17) | has(m, 15) { vec![Sec { key: Some("k".into()), required: true, ..sec(SecK::Basic(Some(2), o(true))) }, Sec { description: o(true), required: has(m, 18), ..sec(SecK::NoSec) }, Sec { key: Some("q".into()), proxy: o(true), ..sec(SecK::Auto) }] } else { vec![] };
    t.uri = vars(if has(m, 18) { 2 } else { 0 });
    if has(m, 19) | has(m, 15) {
        t.defs = vec![("s".into(), leaf(0)), ("r".into(), leaf(2))];
    }
    t
}
/// The Thing itself: any combination of members.
#[no_mangle]
pub extern "C" fn p09_thing() {
    whole(&thing_(subset(20)));
}

// ------------------------------------------------------------------------ calls made twice

/// Two requests, the second of which has some members only.
fn merged(a: &Info, b: &Info) -> Info {
    let mut r = a.clone();
    r.attype.extend(b.attype.iter().cloned());
    for (x, y) in [(&mut r.title, &b.title), (&mut r.description, &b.description)] {
        if y.is_some() {
            *x = y.clone();
        }
    }
    for (x, y) in [(&mut r.titles, &b.titles), (&mut r.descriptions, &b.descriptions)] {
        if y.is_some() {
            *x = y.clone();
        }
    }
    r
}
fn last<T: Clone>(a: &Option<T>, b: &Option<T>) -> Option<T> {
    if b.is_some() {
        b.clone()
    } else {
        a.clone()
    }
}
/// Calls on the builder of the Thing, made again with other values: lists grow, the rest is
/// replaced.
#[no_mangle]
pub extern "C" fn p09_again_thing() {
    let (a, m) = (thing_([0, 0b111111111111][pick(2)]), subset(12));
    let b = thing_(m);
    let mut w = b.clone();
    w.title = a.title.clone();
    w.info = merged(&a.info, &b.info);
    w.id = last(&a.id, &b.id);
    w.version = last(&a.version, &b.version);
    w.created = last(&a.created, &b.created);
    w.modified = last(&a.modified, &b.modified);
    w.support = last(&a.support, &b.support);
    w.base = last(&a.base, &b.base);
    w.profile = [&a.profile[..], &b.profile[..]].concat();
    w.context = [&a.context[..], &b.context[..]].concat();
    let mut tb = builder(&a);
    for g in 0..GROUPS {
        tb = put_group(tb, &b, g);
    }
    match tb.build() {
        Ok(r) => check(thing_diff(&r, &value(&w)).is_none(), "the last value given counts, and lists have all values"),
        Err(_) => check(false, "the Thing is built"),
    }
    cover("built");
}
/// The same for the parts.
#[no_mangle]
pub extern "C" fn p09_again_parts() {
    let tb = start("t");
    let k = param(0);
    let m = pick(if k == 9 { 1 } else { 16 }) as u64;
    let (r, w) = match k {
        0 => {
            let (a, b) = (info_(0b11111), info_(m | (m & 1) << 4));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.actions.push(("p".into(), Act { aff: Aff { info: merged(&a, &b), ..Default::default() }, synchronous: Some(true), ..Default::default() }));
            (tb.action("p", |x| info(info(x, &a), &b).synchronous(false).synchronous(true)).build(), w)
        }
        1 => {
            let (a, b) = (info_(0b11111), info_(m | (m & 1) << 4));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.events.push(("p".into(), Ev { aff: Aff { info: merged(&a, &b), ..Default::default() }, data: Some(sch(Kind::Null)), ..Default::default() }));
            (tb.event("p", |x| info(info(x, &a).data(|d| d.finish_extend().bool().title("x")), &b).data(|d| d.finish_extend().null())).build(), w)
        }
        2 => {
            // a property and its schema share the texts
            let (a, b) = (info_(0b11111), info_(m | (m & 1) << 4));
            let (x, y) = (text(), text());
            let mut s = sch(Kind::Bool);
            s.info = merged(&a, &b);
            s.unit = Some(y.clone());
            s.format = Some(x.clone());
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.properties.push(("p".into(), Prop { observable: Some(false), ..prop(s) }));
            (tb.property("p", |p| info(info(p.finish_extend_data_schema(), &a).unit(x.clone()).bool().format(x.clone()).observable(true), &b).unit(y.clone()).observable(false)).build(), w)
        }
        3 => {
            let (a, b) = (link_(0b11111), link_(m << 1));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.links.push(Lk { href: a.href.clone(), ty: last(&a.ty, &b.ty), rel: last(&a.rel, &b.rel), anchor: last(&a.anchor, &b.anchor), sizes: last(&a.sizes, &b.sizes), hreflang: [&a.hreflang[..], &b.hreflang[..]].concat(), ..Default::default() });
            (tb.link_with(|x| put_link_calls(put_link_calls(x.href(a.href.clone()), &a), &b)).build(), w)
        }
        4 => {
            let (mut a, mut b) = (form_(0b011101111, true), form_(m << 1 | (m & 1) << 6, true));
            a.security.clear();
            b.security.clear();
            a.addl.clear();
            b.addl.clear();
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.forms.push(Fm {
                href: a.href.clone(),
                op: [&a.op[..], &b.op[..]].concat(),
                content_type: last(&a.content_type, &b.content_type),
                content_coding: last(&a.content_coding, &b.content_coding),
                subprotocol: last(&a.subprotocol, &b.subprotocol),
                scopes: [&a.scopes[..], &b.scopes[..]].concat(),
                response: last(&a.response, &b.response),
                ..Default::default()
            });
            (tb.form(|x| put_form_calls(put_form_calls(x.href(a.href.clone()), &a), &b)).build(), w)
        }
        5 => {
            let (a, b) = (any_i64(), any_i64());
            let (c, d) = (any_i64(), any_i64());
            assume((a < b) & (c < d));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.actions.push(("p".into(), Act { input: Some(sch(Kind::Int { lo: Some((false, c)), hi: Some((true, d)), mult: None })), ..Default::default() }));
            (tb.action("p", |x| x.input(|i| i.finish_extend().null()).input(|i| i.finish_extend().integer().exclusive_minimum(a).maximum(b).exclusive_maximum(d).minimum(c))).build(), w)
        }
        6 => {
            let (a, b) = (any_f64(), any_f64());
            let (c, d) = (any_f64(), any_f64());
            assume((a < b) & (c < d));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            w.events.push(("p".into(), Ev { data: Some(sch(Kind::Num { lo: Some((true, c)), hi: Some((false, d)), mult: Some(3.0) })), ..Default::default() }));
            (tb.event("p", |x| x.data(|i| i.finish_extend().number().minimum(a).multiple_of(2.0).exclusive_maximum(b).maximum(d).exclusive_minimum(c).multiple_of(3.0))).build(), w)
        }
        7 => {
            let (a, b) = (any_u32(), any_u32());
            let (c, d) = (any_u32(), any_u32());
            assume((a < b) & (c <= d));
            let mut w = base();
            w.security.clear();
            w.defs.clear();
            let one = text();
            w.actions.push(("p".into(), Act { output: Some(sch(Kind::Str { lo: Some(c), hi: Some(d), pattern: Some(one.clone()), encoding: None, media: None })), input: Some(sch(Kind::List { item: Some(Box::new(sch(Kind::Bool))), lo: Some(c), hi: Some(d) })), ..Default::default() }));
            (
                tb.action("p", |x| {
                    x.output(|i| i.finish_extend().string().min_length(a).max_length(b).pattern("p").min_length(c).max_length(d).pattern(one.clone()))
                        .input(|i| i.finish_extend().vec().set_item(|j| j.finish_extend().null()).min_items(a).max_items(b).set_item(|j| j.finish_extend().bool()).max_items(d).min_items(c))
                })
                .build(),
                w,
            )
        }
        8 => {
            // a security scheme
            let (a, b) = (text(), text());
            let mut w = base();
            w.security = vec![Sec { key: Some("b".into()), required: true, description: Some(b.clone()), proxy: Some(a.clone()), attype: vec![a.clone(), b.clone()], descriptions: ts_of(&b), ..sec(SecK::Basic(Some(3), Some(b.clone()))) }];
            w.defs.clear();
            (
                tb.security(|s| {
                    s.description(a.clone()).with_key("a").attype(a.clone()).basic().name(a.clone()).location(LOCS[1].0.clone()).descriptions(|d| d.add("de", a.clone())).description(b.clone()).name(b.clone()).location(LOCS[3].0.clone()).attype(b.clone()).proxy(b.clone()).required().with_key("b").proxy(a.clone()).required().descriptions(|d| d.add("en", b.clone()))
                })
                .build(),
                w,
            )
        }
        _ => {
            // values of an enumeration and the like do not replace one another
            let (a, b) = (any_value(3), any_value(1));
            let mut s = sch(Kind::Enum(vec![a.clone(), b.clone(), a.clone()]));
            s.default = Some(b.clone());
            let mut w = base();
            w.security.clear();
            w.defs = vec![("s".into(), s)];
            (tb.schema_definition("s", |x| x.finish_extend().default_value(a.clone()).enumeration(a.clone()).enumeration(b.clone()).default_value(b.clone()).enumeration(a.clone())).build(), w)
        }
    };
    match r {
        Ok(r) => check(thing_diff(&r, &value(&w)).is_none(), "the last value given counts, and lists have all values"),
        Err(_) => check(false, "the Thing is built"),
    }
    cover("built");
}
fn ts_of(b: &str) -> Tags {
    Some(vec![("en".into(), b.to_string())])
}
/// Everything a Thing can have, less or more: a schema at every place with all that the rest of the
/// Thing can have besides.
#[no_mangle]
pub extern "C" fn p09_dressed() {
    let p = param(0);
    let s = sch(kind2([2, 3, 4, 5, 6, 7, 8, 9, 10][pick(9)]));
    assume(fits(p, &s));
    let mut t = place(p, 0, s);
    dress::surround(&mut t);
    whole(&t);
}
fn kind2(k: usize) -> Kind {
    match k {
        2 => Kind::Num { lo: Some((true, -1.5)), hi: None, mult: Some(0.5) },
        3 => Kind::Int { lo: None, hi: Some((false, any_i64())), mult: None },
        4 => Kind::Str { lo: Some(any_u32()), hi: None, pattern: o(true), encoding: None, media: o(true) },
        5 => Kind::List { item: Some(Box::new(leaf(1))), lo: Some(any_u32()), hi: None },
        6 => Kind::Tuple(vec![leaf(0), leaf(1), leaf(0)]),
        7 => Kind::Obj(vec![("a".into(), true, leaf(0)), ("b".into(), false, leaf(1)), ("c".into(), true, leaf(2))]),
        8 => Kind::Const(any_value(3)),
        9 => Kind::Enum(vec![any_value(1), any_value(3)]),
        _ => Kind::OneOf(vec![leaf(0), leaf(1)]),
    }
}
