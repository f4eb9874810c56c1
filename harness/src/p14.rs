//! Extensions keep their place and contents; the list of extensions obeys its laws.
use crate::{ast::*, gen::{text_mode, thing_diff, Same, DS}, sym::{any_i64, any_u8, check, cover, flag, has, param, pick, subset}, util::*};
use crate::gen::{any_bool, st};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use wot_td::builder::*;
use wot_td::extend::*;
use wot_td::hlist::*;
use wot_td::thing::*;

/// An extension of one number, under a name of its own for each place.
macro_rules! ext_type {
    ($($n:ident $key:literal $ty:ty);* $(;)?) => { $(
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct $n {
            #[serde(rename = $key)]
            v: $ty,
        }
    )* };
}
ext_type! {
    TA "a:thing" String; IA "a:interaction" String; PA "a:property" String; AA "a:action" String; EA "a:event" String;
    FA "a:form" String; RA "a:response" String; DA "a:schema" String; OA "a:object" String; VA "a:array" String;
    IB "b:interaction" bool; PB "b:property" Vec<String>; AB "b:action" bool; EB "b:event" String;
    FB_ "b:form" String; RB "b:response" bool; DB "b:schema" String; OB "b:object" bool; VB "b:array" String;
    IC "c:interaction" String; AC "c:action" String; RC "c:response" String; DC "c:schema" bool; VC "c:array" String;
}
/// Two members, one of which may be absent.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TB_ {
    #[serde(rename = "b:thing")]
    v: bool,
    #[serde(rename = "b:more", default, skip_serializing_if = "Option::is_none")]
    w: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TC {}
impl ExtendableThing for TA {
    type InteractionAffordance = IA;
    type PropertyAffordance = PA;
    type ActionAffordance = AA;
    type EventAffordance = EA;
    type Form = FA;
    type ExpectedResponse = RA;
    type DataSchema = DA;
    type ObjectSchema = OA;
    type ArraySchema = VA;
}
impl ExtendableThing for TB_ {
    type InteractionAffordance = IB;
    type PropertyAffordance = PB;
    type ActionAffordance = AB;
    type EventAffordance = EB;
    type Form = FB_;
    type ExpectedResponse = RB;
    type DataSchema = DB;
    type ObjectSchema = OB;
    type ArraySchema = VB;
}
/// One that extends some places only.
impl ExtendableThing for TC {
    type InteractionAffordance = IC;
    type PropertyAffordance = ();
    type ActionAffordance = AC;
    type EventAffordance = ();
    type Form = ();
    type ExpectedResponse = RC;
    type DataSchema = DC;
    type ObjectSchema = ();
    type ArraySchema = VC;
}
type AB2 = Cons<TB_, Cons<TA, Nil>>;

/// Where an extension stands: the path in the document, and the value of each of its parts.
type Put = (Vec<&'static str>, &'static str, Value);
struct Vals {
    /// texts and booleans, in order of use
    t: Vec<String>,
    b: Vec<bool>,
}
impl Vals {
    fn new() -> Self {
        Vals { t: vec![], b: vec![] }
    }
    fn t(&mut self) -> String {
        let s = st();
        self.t.push(s.clone());
        s
    }
    fn b(&mut self) -> bool {
        // in text form each boolean is a branch: both values in turn
        let s = if param(0) == 1 { self.b.len() % 2 == 1 } else { any_bool() };
        self.b.push(s);
        s
    }
}
fn insert(v: &mut Value, p: &Put) {
    let mut at = v;
    for k in &p.0 {
        at = match at {
            Value::Object(o) => match o.get_mut(*k) {
                Some(x) => x,
                None => return check(false, "the place is there"),
            },
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => return check(false, "the place is there"),
        };
    }
    match at {
        Value::Object(o) => check(o.insert(p.1.to_string(), p.2.clone()).is_none(), "the name is free"),
        _ => check(false, "the place is there"),
    }
}
/// The extension parts of a value, by place.
macro_rules! two {
    ($x:expr, $a:expr, $b:expr, $what:literal) => {
        check(($x.tail.head.v == $a.v) & ($x.head.v == $b.v), $what);
    };
}
fn plain() -> Th {
    let f = || Fm { href: "h".into(), response: Some("ct".into()), ..Default::default() };
    let d = || Some(sch(Kind::Bool));
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.id = Some("i".into());
    t.forms = vec![Fm { op: vec![FormOperation::ReadAllProperties], ..f() }];
    let mut o = sch(Kind::Obj(vec![("x".into(), true, sch(Kind::Bool))]));
    o.info.title = Some("pt".into());
    t.properties = vec![("p".into(), Prop { forms: vec![f()], observable: Some(true), uri: vec![("u".into(), sch(Kind::Null))], ..prop(o) })];
    let v = sch(Kind::List { item: Some(Box::new(sch(Kind::Null))), lo: Some(1), hi: None });
    let w = sch(Kind::Tuple(vec![sch(Kind::Null), sch(Kind::Bool)]));
    t.actions = vec![("p".into(), Act { aff: Aff { forms: vec![f()], uri: vec![("u".into(), sch(Kind::Null))], ..Default::default() }, input: Some(v), output: Some(w), safe: true, ..Default::default() })];
    t.events = vec![("p".into(), Ev { aff: Aff { forms: vec![f()], uri: vec![("u".into(), sch(Kind::Null))], ..Default::default() }, subscription: d(), data: d(), data_response: d(), cancellation: d() })];
    t.uri = vec![("u".into(), sch(Kind::OneOf(vec![sch(Kind::Bool)])))];
    t.defs = vec![("d".into(), sch(Kind::Enum(vec![Value::Null])))];
    t
}
macro_rules! both {
    ($vals:ident, $puts:ident, $at:expr, $ta:ident $ka:literal $fa:ident, $tb:ident $kb:literal $fb:ident) => {{
        let a = $ta { v: $vals.$fa() };
        let b = $tb { v: $vals.$fb() };
        $puts.push(($at.to_vec(), $ka, to_v(&a.v).unwrap()));
        $puts.push(($at.to_vec(), $kb, to_v(&b.v).unwrap()));
        (a, b)
    }};
}
/// Two extensions at every place at once.
#[no_mangle]
pub extern "C" fn p14_everywhere() {
    text_mode(param(0) == 1);
    let mut v = Vals::new();
    let mut puts: Vec<Put> = vec![];
    let none: &[&str] = &[];
    let ta = TA { v: v.t() };
    let tb = TB_ { v: v.b(), w: if flag() { Some(v.t()) } else { None } };
    puts.push((vec![], "a:thing", vs(&ta.v)));
    puts.push((vec![], "b:thing", Value::Bool(tb.v)));
    if let Some(w) = &tb.w {
        puts.push((vec![], "b:more", vs(w)));
    }
    macro_rules! ds { ($($p:literal)*) => { both!(v, puts, &[$($p),*][..], DA "a:schema" t, DB "b:schema" t) } }
    macro_rules! fm { ($($p:literal)*) => { both!(v, puts, &[$($p),*][..], FA "a:form" t, FB_ "b:form" t) } }
    macro_rules! rs { ($($p:literal)*) => { both!(v, puts, &[$($p),*][..], RA "a:response" t, RB "b:response" b) } }
    macro_rules! ia { ($($p:literal)*) => { both!(v, puts, &[$($p),*][..], IA "a:interaction" t, IB "b:interaction" b) } }
    let tf = fm!("forms" "0");
    let tr = rs!("forms" "0" "response");
    let tu = ds!("uriVariables" "u");
    let tuo = ds!("uriVariables" "u" "oneOf" "0");
    let td = ds!("schemaDefinitions" "d");
    // the property
    let pi = ia!("properties" "p");
    let pp = both!(v, puts, &["properties", "p"][..], PA "a:property" t, PB "b:property" pair);
    let pd = ds!("properties" "p");
    let po = both!(v, puts, &["properties", "p"][..], OA "a:object" t, OB "b:object" b);
    let px = ds!("properties" "p" "properties" "x");
    let pu = ds!("properties" "p" "uriVariables" "u");
    let pf = fm!("properties" "p" "forms" "0");
    let pr = rs!("properties" "p" "forms" "0" "response");
    // the action
    let ai = ia!("actions" "p");
    let aa = both!(v, puts, &["actions", "p"][..], AA "a:action" t, AB "b:action" b);
    let au = ds!("actions" "p" "uriVariables" "u");
    let af = fm!("actions" "p" "forms" "0");
    let ar = rs!("actions" "p" "forms" "0" "response");
    let an = ds!("actions" "p" "input");
    let anv = both!(v, puts, &["actions", "p", "input"][..], VA "a:array" t, VB "b:array" t);
    let ani = ds!("actions" "p" "input" "items");
    let ao = ds!("actions" "p" "output");
    let aov = both!(v, puts, &["actions", "p", "output"][..], VA "a:array" t, VB "b:array" t);
    let ao0 = ds!("actions" "p" "output" "items" "0");
    let ao1 = ds!("actions" "p" "output" "items" "1");
    // the event
    let ei = ia!("events" "p");
    let ee = both!(v, puts, &["events", "p"][..], EA "a:event" t, EB "b:event" t);
    let eu = ds!("events" "p" "uriVariables" "u");
    let ef = fm!("events" "p" "forms" "0");
    let er = rs!("events" "p" "forms" "0" "response");
    let es = ds!("events" "p" "subscription");
    let ed = ds!("events" "p" "data");
    let ea = ds!("events" "p" "dataResponse");
    let ec = ds!("events" "p" "cancellation");
    let _ = none;

    macro_rules! form {
        ($b:ident, $f:ident, $r:ident) => {
            $b.ext($f.0.clone()).href("h").response("ct", |x| x.ext($r.0.clone()).ext($r.1.clone())).ext_with(|| $f.1.clone())
        };
    }
    macro_rules! sc { ($b:ident, $d:ident) => { $b.ext($d.0.clone()).ext_with(|| $d.1.clone()).finish_extend() } }
    let thing = ThingBuilder::<Nil, ToExtend>::new("t").ext(ta.clone()).id("i").ext_with(|| tb.clone()).finish_extend()
        .form(|b| form!(b, tf, tr).op(FormOperation::ReadAllProperties))
        .uri_variable("u", |b| sc!(b, tu).one_of(|b| sc!(b, tuo).bool()))
        .schema_definition("d", |b| sc!(b, td).enumeration(Value::Null))
        .property("p", |b| {
            b.ext_interaction(pi.0.clone()).ext(pp.0.clone()).ext_data_schema(pd.0.clone()).ext_data_schema_with(|| pd.1.clone()).finish_extend_data_schema()
                .title("pt")
                .ext_with(|| pp.1.clone())
                .ext_interaction_with(|| pi.1.clone())
                .observable(true)
                .form(|b| form!(b, pf, pr))
                .uri_variable("u", |b| sc!(b, pu).null())
                .object_ext(|o| o.ext(po.0.clone()).ext_with(|| po.1.clone()))
                .property("x", true, |b| sc!(b, px).bool())
        })
        .action("p", |b| {
            b.ext(aa.0.clone()).ext_interaction(ai.0.clone()).ext_with(|| aa.1.clone()).ext_interaction_with(|| ai.1.clone())
                .form(|b| form!(b, af, ar))
                .uri_variable("u", |b| sc!(b, au).null())
                .input(|b| sc!(b, an).vec_ext(|x| x.ext(anv.0.clone()).ext(anv.1.clone())).set_item(|b| sc!(b, ani).null()).min_items(1))
                .output(|b| sc!(b, ao).tuple_ext(|x| x.ext(aov.0.clone()).ext(aov.1.clone())).append(|b| sc!(b, ao0).null()).append(|b| sc!(b, ao1).bool()))
                .safe()
        })
        .event("p", |b| {
            b.ext_interaction(ei.0.clone()).ext_interaction_with(|| ei.1.clone()).ext(ee.0.clone()).ext_with(|| ee.1.clone())
                .form(|b| form!(b, ef, er))
                .uri_variable("u", |b| sc!(b, eu).null())
                .subscription(|b| sc!(b, es).bool())
                .data(|b| sc!(b, ed).bool())
                .cancellation(|b| sc!(b, ec).bool())
                .data_response(|b| sc!(b, ea).bool())
        })
        .build();
    let thing: Thing<AB2> = match thing {
        Ok(t) => t,
        Err(_) => return check(false, "the Thing is built"),
    };
    let found = |t: &Thing<AB2>| {
        check((t.other.tail.head == ta) & (t.other.head == tb), "the extensions of the Thing are those given");
        macro_rules! form_of {
            ($f:expr, $x:ident, $r:ident) => {
                two!($f.other, $x.0, $x.1, "the extensions of a form are those given");
                two!($f.response.as_ref().unwrap().other, $r.0, $r.1, "the extensions of a response are those given");
            };
        }
        macro_rules! sch_of { ($s:expr, $x:ident) => { two!($s.other, $x.0, $x.1, "the extensions of a schema are those given"); } }
        macro_rules! var { ($s:expr) => { $s.as_ref().unwrap()["u"] } }
        form_of!(t.forms.as_ref().unwrap()[0], tf, tr);
        sch_of!(var!(t.uri_variables), tu);
        sch_of!(var!(t.uri_variables).one_of.as_ref().unwrap()[0], tuo);
        sch_of!(t.schema_definitions.as_ref().unwrap()["d"], td);
        let p = &t.properties.as_ref().unwrap()["p"];
        two!(p.interaction.other, pi.0, pi.1, "the extensions of an affordance are those given");
        two!(p.other, pp.0, pp.1, "the extensions of a property are those given");
        sch_of!(p.data_schema, pd);
        sch_of!(var!(p.interaction.uri_variables), pu);
        form_of!(p.interaction.forms[0], pf, pr);
        match &p.data_schema.subtype {
            Some(DataSchemaSubtype::Object(o)) => {
                two!(o.other, po.0, po.1, "the extensions of an object are those given");
                sch_of!(o.properties.as_ref().unwrap()["x"], px);
            }
            _ => check(false, "the schema of the property is an object"),
        }
        let a = &t.actions.as_ref().unwrap()["p"];
        two!(a.interaction.other, ai.0, ai.1, "the extensions of an affordance are those given");
        two!(a.other, aa.0, aa.1, "the extensions of an action are those given");
        sch_of!(var!(a.interaction.uri_variables), au);
        form_of!(a.interaction.forms[0], af, ar);
        let (n, o) = (a.input.as_ref().unwrap(), a.output.as_ref().unwrap());
        sch_of!(n, an);
        sch_of!(o, ao);
        match (&n.subtype, &o.subtype) {
            (Some(DataSchemaSubtype::Array(x)), Some(DataSchemaSubtype::Array(y))) => {
                two!(x.other, anv.0, anv.1, "the extensions of an array are those given");
                two!(y.other, aov.0, aov.1, "the extensions of an array are those given");
                match (x.items.as_ref().unwrap(), y.items.as_ref().unwrap()) {
                    (BoxedElemOrVec::Elem(i), BoxedElemOrVec::Vec(j)) => {
                        sch_of!(i, ani);
                        sch_of!(j[0], ao0);
                        sch_of!(j[1], ao1);
                    }
                    _ => check(false, "the items are those given"),
                }
            }
            _ => check(false, "the input and output are arrays"),
        }
        let e = &t.events.as_ref().unwrap()["p"];
        two!(e.interaction.other, ei.0, ei.1, "the extensions of an affordance are those given");
        two!(e.other, ee.0, ee.1, "the extensions of an event are those given");
        sch_of!(var!(e.interaction.uri_variables), eu);
        form_of!(e.interaction.forms[0], ef, er);
        sch_of!(e.subscription.as_ref().unwrap(), es);
        sch_of!(e.data.as_ref().unwrap(), ed);
        sch_of!(e.data_response.as_ref().unwrap(), ea);
        sch_of!(e.cancellation.as_ref().unwrap(), ec);
    };
    found(&thing);
    // what is written
    let base = match build(&plain()) {
        Ok(t) => t,
        Err(_) => return check(false, "the Thing is built"),
    };
    let mut want = to_v(&base).unwrap();
    for p in &puts {
        let mut p = p.clone();
        // the one name the vocabulary writes in its own way
        for k in p.0.iter_mut() {
            if *k == "dataResponse" {
                *k = crate::gen::DATA_RESPONSE;
            }
        }
        insert(&mut want, &p);
    }
    let doc = match to_v(&thing) {
        Some(d) => d,
        None => return check(false, "a Thing with extensions is written"),
    };
    check(doc == want, "extensions are members of the object they belong to, next to the standard ones");
    // what is read
    let back: Option<Thing<AB2>> = if param(0) == 1 { to_s(&thing).and_then(|s| of_s(&s)) } else { of_v(doc.clone()) };
    match back {
        None => check(false, "a Thing with extensions is read back"),
        Some(b) => {
            found(&b);
            check(b == thing, "a Thing with extensions is read back equal");
            check(to_v(&b).map_or(false, |x| x == doc), "a Thing read back is written the same");
        }
    }
    // who knows no extensions sees the standard members
    match of_v::<Thing<Nil>>(doc) {
        None => check(false, "a reader without extensions reads the document"),
        Some(b) => check(thing_diff(&b, &base).is_none(), "a reader without extensions finds the standard members"),
    }
    cover("extended");
}
impl Vals {
    fn pair(&mut self) -> Vec<String> {
        vec![self.t(), self.t()]
    }
}
/// Three extensions, one of which leaves out some places: places one at a time.
#[no_mangle]
pub extern "C" fn p14_partial() {
    let mut v = Vals::new();
    let (ta, tb) = (TA { v: v.t() }, TB_ { v: v.b(), w: None });
    let tc = TC {};
    let at = param(0);
    let (ia, ib, ic) = (IA { v: v.t() }, IB { v: v.b() }, IC { v: v.t() });
    let (da, db, dc) = (DA { v: v.t() }, DB { v: v.t() }, DC { v: v.b() });
    let b = ThingBuilder::<Nil, ToExtend>::new("t").ext(ta.clone()).ext(tb.clone()).ext(tc.clone()).finish_extend();
    type T3 = Cons<TC, Cons<TB_, Cons<TA, Nil>>>;
    let mut puts: Vec<Put> = vec![(vec![], "a:thing", vs(&ta.v)), (vec![], "b:thing", Value::Bool(tb.v))];
    macro_rules! put { ($p:expr, $k:literal, $x:expr) => { puts.push(($p.to_vec(), $k, to_v(&$x.v).unwrap())) } }
    let mut th = Th { title: "t".into(), ..Default::default() };
    let r: Result<Thing<T3>, _> = match at {
        0 => {
            let (pa, pb) = (PA { v: v.t() }, PB { v: v.pair() });
            let p = ["properties", "p"];
            put!(p, "a:interaction", ia);
            put!(p, "b:interaction", ib);
            put!(p, "c:interaction", ic);
            put!(p, "a:schema", da);
            put!(p, "b:schema", db);
            put!(p, "c:schema", dc);
            put!(p, "a:property", pa);
            put!(p, "b:property", pb);
            th.properties.push(("p".into(), prop(sch(Kind::Null))));
            b.property("p", |b| {
                b.ext(pa.clone()).ext_interaction(ia.clone()).ext_interaction(ib.clone()).ext_data_schema(da.clone()).ext(pb.clone()).ext_data_schema(db.clone()).ext_data_schema(dc.clone()).ext(()).ext_interaction(ic.clone()).finish_extend_data_schema().null()
            })
            .build()
        }
        1 => {
            let (aa, ab, ac) = (AA { v: v.t() }, AB { v: v.b() }, AC { v: v.t() });
            let p = ["actions", "p"];
            put!(p, "a:interaction", ia);
            put!(p, "b:interaction", ib);
            put!(p, "c:interaction", ic);
            put!(p, "a:action", aa);
            put!(p, "b:action", ab);
            put!(p, "c:action", ac);
            let q = ["actions", "p", "input"];
            put!(q, "a:schema", da);
            put!(q, "b:schema", db);
            put!(q, "c:schema", dc);
            th.actions.push(("p".into(), Act { input: Some(sch(Kind::Obj(vec![]))), ..Default::default() }));
            let (oa, ob) = (OA { v: v.t() }, OB { v: v.b() });
            put!(q, "a:object", oa);
            put!(q, "b:object", ob);
            b.action("p", |b| {
                b.ext(aa.clone()).ext(ab.clone()).ext_interaction(ia.clone()).ext(ac.clone()).ext_interaction(ib.clone()).input(|b| b.ext(da.clone()).ext(db.clone()).ext(dc.clone()).finish_extend().object_ext(|o| o.ext(oa.clone()).ext(ob.clone()).ext(()))).ext_interaction(ic.clone())
            })
            .build()
        }
        2 => {
            let (ea, eb) = (EA { v: v.t() }, EB { v: v.t() });
            let p = ["events", "p"];
            put!(p, "a:interaction", ia);
            put!(p, "b:interaction", ib);
            put!(p, "c:interaction", ic);
            put!(p, "a:event", ea);
            put!(p, "b:event", eb);
            let q = ["events", "p", "data"];
            put!(q, "a:schema", da);
            put!(q, "b:schema", db);
            put!(q, "c:schema", dc);
            let (va, vb, vc) = (VA { v: v.t() }, VB { v: v.t() }, VC { v: v.t() });
            put!(q, "a:array", va);
            put!(q, "b:array", vb);
            put!(q, "c:array", vc);
            th.events.push(("p".into(), Ev { data: Some(sch(Kind::List { item: None, lo: None, hi: None })), ..Default::default() }));
            b.event("p", |b| {
                b.ext_interaction(ia.clone()).ext(ea.clone()).ext(eb.clone()).ext_interaction(ib.clone()).data(|b| b.ext(da.clone()).ext(db.clone()).ext(dc.clone()).finish_extend().vec_ext(|x| x.ext(va.clone()).ext(vb.clone()).ext(vc.clone()))).ext(()).ext_interaction(ic.clone())
            })
            .build()
        }
        3 => {
            let (fa, fb) = (FA { v: v.t() }, FB_ { v: v.t() });
            let (ra, rb, rc) = (RA { v: v.t() }, RB { v: v.b() }, RC { v: v.t() });
            let p = ["forms", "0"];
            put!(p, "a:form", fa);
            put!(p, "b:form", fb);
            let q = ["forms", "0", "response"];
            put!(q, "a:response", ra);
            put!(q, "b:response", rb);
            put!(q, "c:response", rc);
            th.forms.push(Fm { href: "h".into(), op: vec![FormOperation::QueryAllActions], response: Some("x".into()), ..Default::default() });
            b.form(|b| b.ext(fa.clone()).op(FormOperation::QueryAllActions).href("h").ext(fb.clone()).response("x", |r| r.ext(ra.clone()).ext(rb.clone()).ext(rc.clone())).ext(())).build()
        }
        _ => {
            let q = ["schemaDefinitions", "s"];
            put!(q, "a:schema", da);
            put!(q, "b:schema", db);
            put!(q, "c:schema", dc);
            let m = pick(3) as u8;
            th.defs.push(("s".into(), Sch { mode: m, order: 1, ..sch(Kind::Num { lo: Some((false, 1.0)), hi: None, mult: None }) }));
            b.schema_definition("s", |b| {
                let b = b.ext(da.clone()).ext(db.clone()).ext(dc.clone()).finish_extend().number().minimum(1.0);
                let r: UncheckedDataSchema<_, _, _> = match m {
                    0 => b.into(),
                    1 => b.read_only().into(),
                    _ => b.write_only().into(),
                };
                r
            })
            .build()
        }
    };
    let t = match r {
        Ok(t) => t,
        Err(_) => return check(false, "the Thing is built"),
    };
    let mut want = to_v(&build(&th).ok().unwrap()).unwrap();
    for p in &puts {
        insert(&mut want, p);
    }
    let doc = to_v(&t);
    check(doc.as_ref().map_or(false, |d| *d == want), "extensions are members of the object they belong to, next to the standard ones");
    match of_v::<Thing<T3>>(want.clone()) {
        None => check(false, "a Thing with extensions is read back"),
        Some(b) => {
            check(b == t, "a Thing with extensions is read back equal");
            check(to_v(&b).map_or(false, |d| d == want), "a Thing read back is written the same");
        }
    }
    // without one of the mandatory members of the extensions it is not read
    let n = puts.len();
    let p = &puts[pick(n)];
    let mut less = want.clone();
    let mut v = &mut less;
    for k in &p.0 {
        v = match v {
            Value::Array(a) => &mut a[0],
            x => x.get_mut(*k).unwrap(),
        };
    }
    v.as_object_mut().unwrap().remove(p.1);
    // what a subtype of a schema lacks makes it a schema without a type
    if !matches!(p.1, "a:object" | "b:object" | "a:array" | "b:array" | "c:array") {
        check(of_v::<Thing<T3>>(less).is_none(), "a document without a member of an extension is refused");
    }
    cover("extended");
}
/// Schemas of every kind and mode, at a definition and of a property.
#[no_mangle]
pub extern "C" fn p14_kinds() {
    let (ta, tb) = (TA { v: st() }, TB_ { v: true, w: None });
    let (da, db) = (DA { v: st() }, DB { v: st() });
    let (va, vb) = (VA { v: st() }, VB { v: st() });
    let (oa, ob) = (OA { v: st() }, OB { v: crate::sym::any_bool() });
    let b = ThingBuilder::<Nil, ToExtend>::new("t").ext(ta.clone()).ext(tb.clone()).finish_extend();
    let k = pick(11);
    let m = if k > 8 { 0 } else { pick(3) };
    let c = crate::gen::any_value(3);
    macro_rules! mode {
        ($e:expr, $into:ident) => {
            match m {
                0 => $into!($e.title("x")),
                1 => $into!($e.read_only().title("x")),
                _ => $into!($e.write_only().title("x")),
            }
        };
    }
    macro_rules! kinds {
        ($b:expr, $into:ident) => {
            match k {
                0 => mode!($b.bool(), $into),
                1 => mode!($b.null(), $into),
                2 => mode!($b.number(), $into),
                3 => mode!($b.integer(), $into),
                4 => mode!($b.string(), $into),
                5 => mode!($b.vec_ext(|x| x.ext(va.clone()).ext(vb.clone())), $into),
                6 => mode!($b.tuple_ext(|x| x.ext(va.clone()).ext(vb.clone())).append(|b| b.ext(da.clone()).ext(db.clone()).finish_extend().null()), $into),
                7 => mode!($b.object_ext(|x| x.ext(oa.clone()).ext(ob.clone())), $into),
                8 => mode!($b.enumeration(c.clone()), $into),
                9 => $into!($b.constant(c.clone()).title("x")),
                _ => $into!($b.one_of(|b| b.ext(da.clone()).ext(db.clone()).finish_extend().null()).title("x")),
            }
        };
    }
    let mut s = sch(match k {
        0 => Kind::Bool,
        1 => Kind::Null,
        2 => Kind::Num { lo: None, hi: None, mult: None },
        3 => Kind::Int { lo: None, hi: None, mult: None },
        4 => Kind::Str { lo: None, hi: None, pattern: None, encoding: None, media: None },
        5 => Kind::List { item: None, lo: None, hi: None },
        6 => Kind::Tuple(vec![sch(Kind::Null)]),
        7 => Kind::Obj(vec![]),
        8 => Kind::Enum(vec![c.clone()]),
        9 => Kind::Const(c.clone()),
        _ => Kind::OneOf(vec![sch(Kind::Null)]),
    });
    s.mode = m as u8;
    s.order = 2;
    s.info.title = Some("x".into());
    let mut th = Th { title: "t".into(), ..Default::default() };
    let at: [&str; 2] = if param(0) == 2 { ["schemaDefinitions", "p"] } else { ["properties", "p"] };
    let r: Result<Thing<AB2>, _> = if param(0) == 2 {
        th.defs.push(("p".into(), s));
        b.schema_definition("p", |b| {
            macro_rules! into { ($e:expr) => { $e.into() } }
            let r: UncheckedDataSchema<_, _, _> = kinds!(b.ext(da.clone()).ext(db.clone()).finish_extend(), into);
            r
        })
        .build()
    } else {
        th.properties.push(("p".into(), prop(s)));
        // the closure cannot differ in type: one call for each kind
        macro_rules! go { ($p:ident => $e:expr) => { b.property("p", |p| { let $p = p.ext_interaction(IA { v: "i".into() }).ext_data_schema(da.clone()).ext(PA { v: "p".into() }).ext_data_schema(db.clone()).finish_extend_data_schema().ext_interaction(IB { v: true }).ext(PB { v: vec![] }); $e }).build() } }
        macro_rules! go3 {
            ($p:ident => $e:expr) => {
                match m {
                    0 => go!($p => $e.title("x")),
                    1 => go!($p => $e.read_only().title("x")),
                    _ => go!($p => $e.write_only().title("x")),
                }
            };
        }
        match k {
            0 => go3!(q => q.bool()),
            1 => go3!(q => q.null()),
            2 => go3!(q => q.number()),
            3 => go3!(q => q.integer()),
            4 => go3!(q => q.string()),
            5 => go3!(q => q.vec_ext(|x| x.ext(va.clone()).ext(vb.clone()))),
            6 => go3!(q => q.tuple_ext(|x| x.ext(va.clone()).ext(vb.clone())).append(|b| b.ext(da.clone()).ext(db.clone()).finish_extend().null())),
            7 => go3!(q => q.object_ext(|x| x.ext(oa.clone()).ext(ob.clone()))),
            8 => go3!(q => q.enumeration(c.clone())),
            9 => go!(q => q.constant(c.clone()).title("x")),
            _ => go!(q => q.one_of(|b| b.ext(da.clone()).ext(db.clone()).finish_extend().null()).title("x")),
        }
    };
    let t = match r {
        Ok(t) => t,
        Err(_) => return check(false, "the Thing is built"),
    };
    let mut puts: Vec<Put> = vec![(vec![], "a:thing", vs(&ta.v)), (vec![], "b:thing", Value::Bool(tb.v))];
    macro_rules! put { ($p:expr, $k:literal, $x:expr) => { puts.push(($p.to_vec(), $k, to_v(&$x).unwrap())) } }
    put!(at, "a:schema", da.v);
    put!(at, "b:schema", db.v);
    match k {
        5 | 6 => {
            put!(at, "a:array", va.v);
            put!(at, "b:array", vb.v);
        }
        7 => {
            put!(at, "a:object", oa.v);
            put!(at, "b:object", ob.v);
        }
        _ => (),
    }
    if k == 6 || k == 10 {
        let q = [at[0], at[1], if k == 6 { "items" } else { "oneOf" }, "0"];
        put!(q, "a:schema", da.v);
        put!(q, "b:schema", db.v);
    }
    if param(0) != 2 {
        put!(at, "a:interaction", "i");
        put!(at, "b:interaction", true);
        put!(at, "a:property", "p");
        put!(at, "b:property", Vec::<String>::new());
    }
    let mut want = to_v(&build(&th).ok().unwrap()).unwrap();
    for p in &puts {
        insert(&mut want, p);
    }
    let doc = to_v(&t);
    check(doc.as_ref().map_or(false, |d| *d == want), "extensions are members of the object they belong to, next to the standard ones");
    match of_v::<Thing<AB2>>(want.clone()) {
        None => check(false, "a Thing with extensions is read back"),
        Some(b) => check(b == t, "a Thing with extensions is read back equal"),
    }
    cover("extended");
}
// ------------------------------------------------------------------------ the lists

/// The laws for lists of one to four elements.
#[no_mangle]
pub extern "C" fn p14_lists() {
    let (a, b, c, d) = (any_u8(), any_i64(), any_u8() as u16, (any_u8(), any_u8()));
    let (a2, b2, c2, d2) = (any_u8(), any_i64(), any_u8() as u16, (any_u8(), any_u8()));
    match param(0) {
        0 => {
            let l = Nil::cons(a);
            check((l.head == a) & (l.tail == Nil), "cons puts the element in front");
            check(l.split_head() == (a, Nil), "the head is the element put in last");
            check(l.split_last() == (a, Nil), "the last is the element put in first");
            check(l.reverse() == l, "a list of one is its own reverse");
            check(*l.to_ref().head == a, "a borrowed list has the elements");
            let mut m = l;
            *m.to_mut().head = a2;
            check(m.head == a2, "a list borrowed for change changes");
        }
        1 => {
            let l = Nil::cons(a).cons(b);
            check((l.head == b) & (l.tail.head == a), "cons puts the element in front");
            check(l.split_head() == (b, Nil::cons(a)), "the head is the element put in last");
            check(l.split_last() == (a, Nil::cons(b)), "the last is the element put in first");
            check(l.reverse() == Nil::cons(b).cons(a), "the reverse has the elements in the other order");
            check(l.reverse().reverse() == l, "the reverse of the reverse is the list");
            let r = l.to_ref();
            check((*r.head == b) & (*r.tail.head == a), "a borrowed list has the elements");
            let mut m = l;
            {
                let r = m.to_mut();
                *r.head = b2;
                *r.tail.head = a2;
            }
            check((m.head == b2) & (m.tail.head == a2), "a list borrowed for change changes");
        }
        2 => {
            let l = Nil::cons(a).cons(b).cons(c);
            check((l.head == c) & (l.tail.head == b) & (l.tail.tail.head == a), "cons puts the element in front");
            check(l.split_head() == (c, Nil::cons(a).cons(b)), "the head is the element put in last");
            check(l.split_last() == (a, Nil::cons(b).cons(c)), "the last is the element put in first");
            check(l.reverse() == Nil::cons(c).cons(b).cons(a), "the reverse has the elements in the other order");
            check(l.reverse().reverse() == l, "the reverse of the reverse is the list");
            let r = l.to_ref();
            check((*r.head == c) & (*r.tail.head == b) & (*r.tail.tail.head == a), "a borrowed list has the elements");
            let mut m = l;
            {
                let r = m.to_mut();
                *r.head = c2;
                *r.tail.head = b2;
                *r.tail.tail.head = a2;
            }
            check((m.head == c2) & (m.tail.head == b2) & (m.tail.tail.head == a2), "a list borrowed for change changes");
        }
        _ => {
            let l = Nil::cons(a).cons(b).cons(c).cons(d);
            check((l.head == d) & (l.tail.head == c) & (l.tail.tail.head == b) & (l.tail.tail.tail.head == a), "cons puts the element in front");
            check(l.split_head() == (d, Nil::cons(a).cons(b).cons(c)), "the head is the element put in last");
            check(l.split_last() == (a, Nil::cons(b).cons(c).cons(d)), "the last is the element put in first");
            check(l.reverse() == Nil::cons(d).cons(c).cons(b).cons(a), "the reverse has the elements in the other order");
            check(l.reverse().reverse() == l, "the reverse of the reverse is the list");
            let (x, i) = l.split_last();
            let (y, i) = i.split_last();
            let (z, i) = i.split_last();
            let (w, i) = i.split_last();
            check((x == a) & (y == b) & (z == c) & (w == d) & (i == Nil), "taking the last again and again gives all elements");
            let r = l.to_ref();
            check((*r.head == d) & (*r.tail.head == c) & (*r.tail.tail.head == b) & (*r.tail.tail.tail.head == a), "a borrowed list has the elements");
            let r = l.to_ref().reverse();
            check((*r.head == a) & (*r.tail.tail.tail.head == d), "a borrowed list is reversed like the list");
            let mut m = l;
            {
                let r = m.to_mut();
                *r.head = d2;
                *r.tail.head = c2;
                *r.tail.tail.head = b2;
                *r.tail.tail.tail.head = a2;
            }
            check((m.head == d2) & (m.tail.head == c2) & (m.tail.tail.head == b2) & (m.tail.tail.tail.head == a2), "a list borrowed for change changes");
            let n = Nil::cons(a).cons(b).cons(c).cons(d);
            check((m == n) == ((a == a2) & (b == b2) & (c == c2) & (d.0 == d2.0) & (d.1 == d2.1)), "lists are equal exactly if their elements are");
        }
    }
    let u: () = Nil.into();
    check(Nil::from(u) == Nil, "the empty list is the unit");
    cover("list");
}
/// The extension methods of the lists.
#[no_mangle]
pub extern "C" fn p14_extend() {
    let (a, b) = (any_u8(), any_i64());
    let e = <Cons<u8, Cons<i64, Nil>> as Extendable>::empty();
    check(e == Nil, "what can be extended starts empty");
    let x = e.ext(a).ext_with(|| b);
    let y = <Nil as Extendable>::empty().ext_with(|| a).ext(b);
    check(x == y, "both forms of extending do the same");
    check((x.head == b) & (x.tail.head == a), "extensions are kept in the order given");
    cover("extend");
}
// ------------------------------------------------------------------------ what was there before

fn day(d: u8) -> time::OffsetDateTime {
    let d = time::Date::from_calendar_date(2022, time::Month::May, d).unwrap();
    d.with_hms(10, 20, 30).unwrap().assume_utc()
}
/// Calls made before the extension (members of `$m`) or after it; `$b` is the builder.
macro_rules! around {
    ($b:ident, $m:expr, before, $($i:literal . $call:ident ( $($arg:expr),* );)*) => { $( if has($m, $i) { $b = $b.$call($($arg),*); } )* };
    ($b:ident, $m:expr, after, $($i:literal . $call:ident ( $($arg:expr),* );)*) => { $( if !has($m, $i) { $b = $b.$call($($arg),*); } )* };
}
fn two_tags(a: &str, b: &str) -> Tags {
    Some(vec![("en".into(), a.into()), ("it-IT".into(), b.into())])
}
fn ml<'a>(b: &'a mut MultiLanguageBuilder<String>, a: &str, c: &str) -> &'a mut MultiLanguageBuilder<String> {
    b.add("en", a);
    b.add("it-IT", c)
}
fn full_info(x: &[String]) -> Info {
    Info { attype: vec!["one".into(), x[0].clone()], title: Some(x[1].clone()), titles: two_tags(&x[2], "t2"), description: Some(x[3].clone()), descriptions: two_tags(&x[4], "d2") }
}
fn full_form(op: &[FormOperation], x: &[String]) -> Fm {
    Fm {
        href: x[0].clone(),
        op: op.to_vec(),
        content_type: Some(x[1].clone()),
        content_coding: Some(x[2].clone()),
        subprotocol: Some(x[3].clone()),
        security: vec!["psk".into(), "psk2".into()],
        scopes: vec!["s1".into(), x[4].clone()],
        response: Some(x[5].clone()),
        addl: vec![(true, Some(x[6].clone()), Some("d".into())), (false, None, None)],
        late: false,
    }
}
fn texts(n: usize) -> Vec<String> {
    (0..n).map(|_| st()).collect()
}
/// A form all of whose members are given before (in `$m`) or after its extension.
macro_rules! ext_form {
    ($start:expr, $m:expr, $f:expr, $fa:expr, $ra:expr) => {{
        let (m, f): (u64, &Fm) = ($m, $f);
        let mut b = $start;
        if f.op.len() > 0 {
            b = b.op(f.op[0]);
        }
        b = b.security(f.security[0].clone()).scope(f.scopes[0].clone());
        macro_rules! calls {
            ($b:ident $w:ident) => {
                around!($b, m, $w,
                    0.content_type(f.content_type.clone().unwrap());
                    1.content_coding(f.content_coding.clone().unwrap());
                    2.subprotocol(f.subprotocol.clone().unwrap());
                    3.response(f.response.clone().unwrap(), |x| x.ext($ra.clone()));
                );
            };
        }
        macro_rules! addl { ($b:ident) => { $b = $b.additional_response(|r| r.success().content_type(f.addl[0].1.clone().unwrap()).schema("d")).additional_response(|r| r); } }
        calls!(b before);
        if has(m, 4) {
            addl!(b);
        }
        // the target too
        let mut b = if has(m, 5) {
            b.href(f.href.clone()).ext($fa.clone())
        } else {
            b.ext($fa.clone()).href(f.href.clone())
        };
        calls!(b after);
        if !has(m, 4) {
            addl!(b);
        }
        for o in f.op.iter().skip(1) {
            b = b.op(*o);
        }
        b.security(f.security[1].clone()).scope(f.scopes[1].clone())
    }};
}
const FORM_CALLS: usize = 6;
/// Whatever was given before an extension is there after it.
#[no_mangle]
pub extern "C" fn p14_survives() {
    let (ta, tb) = (TA { v: st() }, TB_ { v: any_bool(), w: None });
    let (ia, pa, aa, ea) = (IA { v: st() }, PA { v: st() }, AA { v: st() }, EA { v: st() });
    let (ib, pb, ab, eb) = (IB { v: true }, PB { v: vec![] }, AB { v: false }, EB { v: st() });
    let (fa, ra, da, db) = (FA { v: st() }, RA { v: st() }, DA { v: st() }, DB { v: st() });
    let mut th = Th { title: "t".into(), ..Default::default() };
    th.security = vec![Sec { attype: vec![st()], description: Some(st()), required: true, ..sec(SecK::Psk) }, Sec { key: Some("psk2".into()), ..sec(SecK::Psk) }];
    let mut puts: Vec<Put> = vec![];
    macro_rules! put { ($p:expr, $k:literal, $x:expr) => { puts.push(($p.to_vec(), $k, to_v(&$x.v).unwrap())) } }
    put!([""; 0], "a:thing", ta);
    let sec0 = th.security[0].clone();
    macro_rules! secs {
        ($b:expr) => {
            $b.security(|b| b.psk().attype(sec0.attype[0].clone()).description(sec0.description.clone().unwrap()).required()).security(|b| b.psk().with_key("psk2"))
        };
    }
    let at = param(0);
    if at > 1 {
        th.defs = vec![("d".into(), sch(Kind::Bool))];
        put!(["schemaDefinitions", "d"], "a:schema", da);
    }
    // a Thing to put the other parts in
    macro_rules! thing { () => { secs!(ThingBuilder::<Nil, ToExtend>::new("t")).ext(ta.clone()).finish_extend().schema_definition("d", |b| b.ext(da.clone()).finish_extend().bool()) } }
    macro_rules! same {
        ($r:expr) => {{
            let t = match $r {
                Ok(t) => t,
                Err(_) => return check(false, "the Thing is built"),
            };
            let mut want = to_v(&value(&th)).unwrap();
            for p in &puts {
                insert(&mut want, p);
            }
            check(to_v(&t).map_or(false, |d| d == want), "what was given before or after an extension is there");
        }};
    }
    match at {
        // the Thing: before the first extension (1: before the second), or after
        0 | 1 => {
            put!([""; 0], "b:thing", tb);
            let x = texts(9);
            let m = subset(15);
            th.info = Info { title: None, ..full_info(&x) };
            th.id = Some(x[5].clone());
            th.version = Some((x[6].clone(), Some("model".into())));
            th.created = Some(day(1));
            th.modified = Some(day(2));
            th.support = Some(x[7].clone());
            th.base = Some(x[8].clone());
            th.profile = vec!["p1".into(), "p2".into()];
            th.context = vec![Ctx::Text("c1".into()), Ctx::Map(vec![("k".into(), "c2".into())]), Ctx::Text("c3".into())];
            th.links = vec![Lk { href: "l1".into(), plain: true, ..Default::default() }, Lk { href: "l2".into(), rel: Some("r".into()), hreflang: vec!["en".into()], ..Default::default() }, Lk { href: "l3".into(), plain: true, ..Default::default() }];
            let th2 = th.clone();
            macro_rules! calls {
                ($b:ident, $w:ident) => {
                    around!($b, m, $w,
                        0.id(x[5].clone());
                        1.version(VersionInfo { instance: x[6].clone(), model: Some("model".into()) });
                        2.created(th2.created.unwrap());
                        3.modified(th2.modified.unwrap());
                        4.support(x[7].clone());
                        5.base(x[8].clone());
                        6.titles(|b| ml(b, &x[2], "t2"));
                        7.description(x[3].clone());
                        8.descriptions(|b| ml(b, &x[4], "d2"));
                        9.attype(x[0].clone());
                        10.profile("p2");
                    );
                    if has(m, 11) == stringify!($w).starts_with('b') {
                        $b = $b.link_with(|l| l.href("l2").rel("r").hreflang("en"));
                    }
                    if has(m, 12) == stringify!($w).starts_with('b') {
                        $b = $b.context_map(|c| c.context("k", "c2"));
                    }
                    if has(m, 13) == stringify!($w).starts_with('b') {
                        $b = secs!($b);
                    }
                };
            }
            macro_rules! firsts { ($b:ident) => { $b = $b.attype("one").profile("p1").link("l1").context("c1"); } }
            let b = ThingBuilder::<Nil, ToExtend>::new("t");
            let r = if at == 0 {
                let mut b = b;
                firsts!(b);
                calls!(b, before);
                let b = b.ext(ta.clone());
                let b = if has(m, 14) { b.ext_with(|| tb.clone()) } else { b.ext(tb.clone()) };
                let mut b = b.finish_extend();
                calls!(b, after);
                b.link("l3").context("c3").build()
            } else {
                let mut b = b.ext(ta.clone());
                firsts!(b);
                calls!(b, before);
                let b = if has(m, 14) { b.ext_with(|| tb.clone()) } else { b.ext(tb.clone()) };
                let mut b = b.finish_extend();
                calls!(b, after);
                b.link("l3").context("c3").build()
            };
            same!(r)
        }
        // a form of the Thing
        2 => {
            let m = subset(FORM_CALLS);
            let x = texts(7);
            let f = full_form(&[FormOperation::ReadAllProperties, FormOperation::QueryAllActions], &x);
            put!(["forms", "0"], "a:form", fa);
            put!(["forms", "0", "response"], "a:response", ra);
            th.forms.push(f.clone());
            same!(thing!().form(|b| ext_form!(b, m, &f, fa, ra)).build())
        }
        // a property: the members it shares with other affordances, then those of its schema
        3 | 4 => {
            let x = texts(7);
            let f = full_form(&[], &texts(7));
            let mut p = prop(sch(Kind::Null));
            p.sch.info = full_info(&x);
            p.sch.unit = Some(x[5].clone());
            p.sch.format = Some(x[6].clone());
            p.sch.default = Some(vs("default"));
            p.observable = Some(true);
            p.forms = vec![f.clone()];
            p.uri = vec![("u".into(), sch(Kind::Bool))];
            th.properties.push(("p".into(), p));
            let q = ["properties", "p"];
            put!(q, "a:interaction", ia);
            put!(q, "a:property", pa);
            put!(q, "a:schema", da);
            put!(["properties", "p", "uriVariables", "u"], "a:schema", da);
            put!(["properties", "p", "forms", "0"], "a:form", fa);
            put!(["properties", "p", "forms", "0", "response"], "a:response", ra);
            let m = subset(11);
            let n = pick(6);
            same!(thing!().property("p", |b| {
                let mut b = b.attype("one");
                macro_rules! calls {
                    ($b:ident $w:ident) => {
                        around!($b, m, $w,
                            0.attype(x[0].clone());
                            1.title(x[1].clone());
                            2.titles(|b| ml(b, &x[2], "t2"));
                            3.description(x[3].clone());
                            4.descriptions(|b| ml(b, &x[4], "d2"));
                            5.observable(true);
                            6.form(|b| ext_form!(b, 0x15, &f, fa, ra));
                            7.uri_variable("u", |b| b.ext(da.clone()).finish_extend().bool());
                        );
                    };
                }
                // what only a schema that is extended no more can be given
                macro_rules! schema_calls {
                    ($b:ident $w:ident) => {
                        around!($b, m, $w,
                            8.unit(x[5].clone());
                            9.format(x[6].clone());
                            10.default_value("default");
                        );
                    };
                }
                // the extensions in every order
                macro_rules! order { ($x:ident $y:ident $z:ident) => {{ calls!(b before); let b = step!($x b); let b = step!($y b); let mut b = step!($z b); calls!(b after); schema_calls!(b after); b.null() }} }
                macro_rules! step {
                    (i $b:ident) => { $b.ext_interaction(ia.clone()) };
                    (p $b:ident) => { $b.ext(pa.clone()) };
                    (d $b:ident) => {{ let mut b = $b.ext_data_schema(da.clone()).finish_extend_data_schema(); schema_calls!(b before); b }};
                }
                match n {
                    0 => order!(i p d),
                    1 => order!(i d p),
                    2 => order!(p i d),
                    3 => order!(p d i),
                    4 => order!(d i p),
                    _ => order!(d p i),
                }
            }).build())
        }
        5 => {
            let x = texts(5);
            let f = full_form(&[FormOperation::InvokeAction], &texts(7));
            let mut a = Act::default();
            a.aff.info = full_info(&x);
            a.aff.forms = vec![f.clone()];
            a.aff.uri = vec![("u".into(), sch(Kind::Bool))];
            a.input = Some(sch(Kind::Null));
            a.output = Some(sch(Kind::Bool));
            a.safe = true;
            a.idempotent = true;
            a.synchronous = Some(true);
            th.actions.push(("p".into(), a));
            let q = ["actions", "p"];
            put!(q, "a:interaction", ia);
            put!(q, "a:action", aa);
            for k in ["input", "output"] {
                put!(["actions", "p", k], "a:schema", da);
            }
            put!(["actions", "p", "uriVariables", "u"], "a:schema", da);
            put!(["actions", "p", "forms", "0"], "a:form", fa);
            put!(["actions", "p", "forms", "0", "response"], "a:response", ra);
            let m = subset(12);
            let n = pick(2);
            same!(thing!().action("p", |b| {
                let mut b = b.attype("one");
                macro_rules! calls {
                    ($b:ident $w:ident) => {
                        around!($b, m, $w,
                            0.attype(x[0].clone());
                            1.title(x[1].clone());
                            2.titles(|b| ml(b, &x[2], "t2"));
                            3.description(x[3].clone());
                            4.descriptions(|b| ml(b, &x[4], "d2"));
                            5.form(|b| ext_form!(b, 0x2a, &f, fa, ra));
                            6.uri_variable("u", |b| b.ext(da.clone()).finish_extend().bool());
                            7.input(|b| b.ext(da.clone()).finish_extend().null());
                            8.output(|b| b.ext(da.clone()).finish_extend().bool());
                            9.safe();
                            10.idempotent();
                            11.synchronous(true);
                        );
                    };
                }
                calls!(b before);
                let mut b = if n == 0 { b.ext(aa.clone()).ext_interaction(ia.clone()) } else { b.ext_interaction(ia.clone()).ext(aa.clone()) };
                calls!(b after);
                b
            }).build())
        }
        6 => {
            let x = texts(5);
            let f = full_form(&[FormOperation::SubscribeEvent, FormOperation::UnsubscribeEvent], &texts(7));
            let mut a = Ev::default();
            a.aff.info = full_info(&x);
            a.aff.forms = vec![f.clone()];
            a.aff.uri = vec![("u".into(), sch(Kind::Bool))];
            a.subscription = Some(sch(Kind::Null));
            a.data = Some(sch(Kind::Bool));
            a.data_response = Some(sch(Kind::Num { lo: None, hi: None, mult: None }));
            a.cancellation = Some(sch(Kind::Const(vs("c"))));
            th.events.push(("p".into(), a));
            let q = ["events", "p"];
            put!(q, "a:interaction", ia);
            put!(q, "a:event", ea);
            for k in ["subscription", "data", crate::gen::DATA_RESPONSE, "cancellation"] {
                put!(["events", "p", k], "a:schema", da);
            }
            put!(["events", "p", "uriVariables", "u"], "a:schema", da);
            put!(["events", "p", "forms", "0"], "a:form", fa);
            put!(["events", "p", "forms", "0", "response"], "a:response", ra);
            let m = subset(11);
            let n = pick(2);
            same!(thing!().event("p", |b| {
                let mut b = b.attype("one");
                macro_rules! calls {
                    ($b:ident $w:ident) => {
                        around!($b, m, $w,
                            0.attype(x[0].clone());
                            1.title(x[1].clone());
                            2.titles(|b| ml(b, &x[2], "t2"));
                            3.description(x[3].clone());
                            4.descriptions(|b| ml(b, &x[4], "d2"));
                            5.form(|b| ext_form!(b, 0x0f, &f, fa, ra));
                            6.uri_variable("u", |b| b.ext(da.clone()).finish_extend().bool());
                            7.subscription(|b| b.ext(da.clone()).finish_extend().null());
                            8.data(|b| b.ext(da.clone()).finish_extend().bool());
                            9.data_response(|b| b.ext(da.clone()).finish_extend().number());
                            10.cancellation(|b| b.ext(da.clone()).finish_extend().constant("c"));
                        );
                    };
                }
                calls!(b before);
                let mut b = if n == 0 { b.ext(ea.clone()).ext_interaction(ia.clone()) } else { b.ext_interaction(ia.clone()).ext(ea.clone()) };
                calls!(b after);
                b
            }).build())
        }
        // a second extension of the affordances and of schemas, with everything given between the two
        7 => {
            puts.clear();
            put!([""; 0], "a:thing", ta);
            put!([""; 0], "b:thing", tb);
            let x = texts(8);
            let mut s = sch(Kind::Num { lo: Some((false, 1.0)), hi: None, mult: None });
            s.info = full_info(&x);
            s.unit = Some(x[5].clone());
            s.format = Some(x[6].clone());
            s.default = Some(vs(&x[7]));
            th.defs = vec![("d".into(), s)];
            put!(["schemaDefinitions", "d"], "a:schema", da);
            put!(["schemaDefinitions", "d"], "b:schema", db);
            let m = subset(8);
            let n = pick(3);
            same!(secs!(ThingBuilder::<Nil, ToExtend>::new("t")).ext(ta.clone()).ext(tb.clone()).finish_extend().schema_definition("d", |b| {
                let mut b = b.attype("one");
                macro_rules! calls {
                    ($b:ident $w:ident) => {
                        around!($b, m, $w,
                            0.attype(x[0].clone());
                            1.title(x[1].clone());
                            2.titles(|b| ml(b, &x[2], "t2"));
                            3.description(x[3].clone());
                            4.descriptions(|b| ml(b, &x[4], "d2"));
                            5.unit(x[5].clone());
                            6.format(x[6].clone());
                            7.default_value(x[7].clone());
                        );
                    };
                }
                match n {
                    0 => {
                        calls!(b before);
                        let mut b = b.ext(da.clone()).ext_with(|| db.clone()).finish_extend();
                        calls!(b after);
                        b.number().minimum(1.0)
                    }
                    1 => {
                        let mut b = b.ext_with(|| da.clone());
                        calls!(b before);
                        let mut b = b.ext(db.clone()).finish_extend();
                        calls!(b after);
                        b.number().minimum(1.0)
                    }
                    _ => {
                        let mut b = b.ext_with(|| da.clone()).ext(db.clone());
                        calls!(b before);
                        let mut b = b.finish_extend().number().minimum(1.0);
                        calls!(b after);
                        b
                    }
                }
            }).build())
        }
        // the same for the three kinds of affordance
        _ => {
            puts.clear();
            th.defs.clear();
            put!([""; 0], "a:thing", ta);
            put!([""; 0], "b:thing", tb);
            let x = texts(5);
            let n = pick(4);
            let m = subset(5);
            let q = [["properties", "actions", "events"][at - 8], "p"];
            put!(q, "a:interaction", ia);
            put!(q, "b:interaction", ib);
            macro_rules! calls {
                ($b:ident $w:ident) => {
                    around!($b, m, $w,
                        0.attype(x[0].clone());
                        1.title(x[1].clone());
                        2.titles(|b| ml(b, &x[2], "t2"));
                        3.description(x[3].clone());
                        4.descriptions(|b| ml(b, &x[4], "d2"));
                    );
                };
            }
            let b = secs!(ThingBuilder::<Nil, ToExtend>::new("t")).ext(ta.clone()).ext(tb.clone()).finish_extend();
            macro_rules! orders {
                ($b:ident, $x:ident, $y:ident) => {
                    match n {
                        0 => {
                            let mut b = $b.attype("one").ext($x.clone());
                            calls!(b before);
                            let mut b = b.ext($y.clone()).ext_interaction(ia.clone()).ext_interaction(ib.clone());
                            calls!(b after);
                            b
                        }
                        1 => {
                            let mut b = $b.attype("one").ext_interaction(ia.clone());
                            calls!(b before);
                            let mut b = b.ext_interaction(ib.clone()).ext($x.clone()).ext($y.clone());
                            calls!(b after);
                            b
                        }
                        2 => {
                            let mut b = $b.attype("one").ext_interaction_with(|| ia.clone()).ext_with(|| $x.clone());
                            calls!(b before);
                            let mut b = b.ext_with(|| $y.clone()).ext_interaction_with(|| ib.clone());
                            calls!(b after);
                            b
                        }
                        _ => {
                            let mut b = $b.attype("one").ext($x.clone()).ext_interaction(ia.clone()).ext_interaction(ib.clone()).ext($y.clone());
                            calls!(b before);
                            calls!(b after);
                            b
                        }
                    }
                };
            }
            match at {
                8 => {
                    put!(q, "a:property", pa);
                    put!(q, "b:property", pb);
                    put!(q, "a:schema", da);
                    put!(q, "b:schema", db);
                    let mut p = prop(sch(Kind::Str { lo: None, hi: None, pattern: None, encoding: None, media: None }));
                    p.sch.info = full_info(&x);
                    th.properties.push(("p".into(), p));
                    same!(b.property("p", |b| {
                        let b = b.ext_data_schema_with(|| da.clone()).ext_data_schema(db.clone()).finish_extend_data_schema();
                        let b = orders!(b, pa, pb);
                        b.string()
                    }).build())
                }
                9 => {
                    put!(q, "a:action", aa);
                    put!(q, "b:action", ab);
                    let mut a = Act::default();
                    a.aff.info = full_info(&x);
                    th.actions.push(("p".into(), a));
                    same!(b.action("p", |b| orders!(b, aa, ab)).build())
                }
                _ => {
                    put!(q, "a:event", ea);
                    put!(q, "b:event", eb);
                    let mut a = Ev::default();
                    a.aff.info = full_info(&x);
                    th.events.push(("p".into(), a));
                    same!(b.event("p", |b| orders!(b, ea, eb)).build())
                }
            }
        }
    }
    cover("extended");
}
