//! What the builder builds can be written, as a document that is valid, and reads back as the same
//! Thing.
use crate::{ast::*, dress, gen::*, p02::{form_at, put_forms}, p09, p20, place::*, sym::{any_f64, any_i64, any_name, any_str, any_u32, assume, check, cover, flag, param, pick, text}, util::*};
use serde_json::{Map, Value};
use wot_td::hlist::Nil;
use wot_td::thing::*;

type O = Map<String, Value>;

pub fn verdict(r: &Thing<Nil>) {
    let v = match to_v(r) {
        Some(v) => v,
        None => return check(false, "a built Thing can be written"),
    };
    document(&v);
    match of_v::<Thing<Nil>>(v) {
        None => check(false, "the document of a built Thing can be read"),
        Some(b) => check(b.same(r), "the document of a built Thing reads back as the same Thing"),
    }
    cover("built");
}
/// The same through text.
fn verdict_text(r: &Thing<Nil>) {
    let s = match to_s(r) {
        Some(s) => s,
        None => return check(false, "a built Thing can be written"),
    };
    match of_s::<Value>(&s) {
        None => check(false, "what is written is JSON"),
        Some(v) => document(&v),
    }
    match of_s::<Thing<Nil>>(&s) {
        None => check(false, "the document of a built Thing can be read"),
        Some(b) => check(b.same(r), "the document of a built Thing reads back as the same Thing"),
    }
    cover("built");
}

// -------------------------------------------------- whether a document is valid, judged on the JSON

fn each<'a>(o: &'a O, key: &str, f: &mut dyn FnMut(&'a Value)) {
    match o.get(key) {
        Some(Value::Object(m)) => m.values().for_each(f),
        Some(Value::Array(v)) => v.iter().for_each(f),
        Some(x) => f(x),
        None => (),
    }
}
fn obj(v: &Value) -> Option<&O> {
    let o = v.as_object();
    check(o.is_some(), "a part of a document that should be an object is one");
    o
}
fn string(o: &O, key: &str) {
    check(matches!(o.get(key), Some(Value::String(_))), "a mandatory text is there");
}
fn names(o: &O, key: &str, among: &O, label: &str) {
    match o.get(key) {
        Some(Value::String(s)) => check(among.contains_key(s), label),
        Some(Value::Array(v)) => v.iter().for_each(|x| check(x.as_str().map_or(false, |s| among.contains_key(s)), label)),
        Some(_) => check(false, label),
        None => (),
    }
}
fn document(v: &Value) {
    let o = match obj(v) {
        Some(o) => o,
        None => return,
    };
    let td = |v: &Value| v.as_str() == Some(TD_CONTEXT_11);
    check(
        match o.get("@context") {
            Some(Value::Array(v)) => v.first().map_or(false, td),
            Some(v) => td(v),
            None => false,
        },
        "a document starts with the Thing Description context",
    );
    string(o, "title");
    let none = O::new();
    let defs = match o.get("securityDefinitions") {
        Some(Value::Object(m)) => m,
        _ => {
            check(false, "a document has security definitions");
            &none
        }
    };
    for d in defs.values().filter_map(obj) {
        string(d, "scheme");
        check(d.get("scheme").and_then(Value::as_str) != Some("combo") || d.contains_key("oneOf") != d.contains_key("allOf"), "a combined scheme is all of or one of");
        if d.get("scheme").and_then(Value::as_str) == Some("combo") {
            names(d, "oneOf", defs, "a combined scheme names definitions of the document");
            names(d, "allOf", defs, "a combined scheme names definitions of the document");
        }
    }
    check(o.contains_key("security"), "a document says which security is required");
    names(o, "security", defs, "the security of a document names definitions of the document");
    let schemas = match o.get("schemaDefinitions") {
        Some(Value::Object(m)) => m,
        _ => &none,
    };
    each(o, "schemaDefinitions", &mut schema);
    each(o, "uriVariables", &mut variable);
    each(o, "links", &mut |l| {
        if let Some(l) = obj(l) {
            string(l, "href");
            check(!l.contains_key("sizes") || l.get("rel").and_then(Value::as_str) == Some("icon"), "only icons have sizes in a document");
        }
    });
    forms(o, 0, defs, schemas);
    each(o, "properties", &mut |p| {
        schema(p);
        affordance(p, 1, defs, schemas)
    });
    each(o, "actions", &mut |a| {
        affordance(a, 2, defs, schemas);
        if let Some(a) = a.as_object() {
            each_of(a, &["input", "output"]);
        }
    });
    each(o, "events", &mut |a| {
        affordance(a, 3, defs, schemas);
        if let Some(a) = a.as_object() {
            each_of(a, &["subscription", "data", "dataResponse", "data_response", "cancellation"]);
        }
    });
}
fn each_of(o: &O, keys: &[&str]) {
    for k in keys {
        if let Some(s) = o.get(*k) {
            schema(s);
        }
    }
}
fn affordance(v: &Value, p: usize, defs: &O, schemas: &O) {
    if let Some(o) = obj(v) {
        each(o, "uriVariables", &mut variable);
        forms(o, p, defs, schemas);
    }
}
fn variable(v: &Value) {
    schema(v);
    let t = v.get("type").and_then(Value::as_str);
    check(t != Some("object") && t != Some("array"), "no URI variable of a document is an array or an object");
}
fn forms(o: &O, p: usize, defs: &O, schemas: &O) {
    const OPS: [&[&str]; 4] = [
        &["readallproperties", "writeallproperties", "readmultipleproperties", "writemultipleproperties", "observeallproperties", "unobserveallproperties", "subscribeallevents", "unsubscribeallevents", "queryallactions"],
        &["readproperty", "writeproperty", "observeproperty", "unobserveproperty"],
        &["invokeaction", "queryaction", "cancelaction"],
        &["subscribeevent", "unsubscribeevent"],
    ];
    each(o, "forms", &mut |f| {
        let f = match obj(f) {
            Some(f) => f,
            None => return,
        };
        string(f, "href");
        check(p != 0 || f.contains_key("op"), "a form of the Thing says its operations in a document");
        each(f, "op", &mut |x| check(x.as_str().map_or(false, |x| OPS[p].contains(&x)), "the operations of a form in a document belong to its place"));
        names(f, "security", defs, "the security of a form names definitions of the document");
        // one may be written as an object (a finding of P11)
        let one = |r: &Value| {
            if let Some(r) = obj(r) {
                names(r, "schema", schemas, "an additional response names a schema definition of the document");
            }
        };
        match f.get("additionalResponses") {
            Some(Value::Array(v)) => v.iter().for_each(one),
            Some(v) => one(v),
            None => (),
        }
    });
}
fn num(o: &O, key: &str) -> Option<f64> {
    o.get(key).and_then(Value::as_f64)
}
fn int(o: &O, key: &str) -> Option<i64> {
    o.get(key).and_then(Value::as_i64)
}
fn nat(o: &O, key: &str) -> Option<u64> {
    o.get(key).and_then(Value::as_u64)
}
fn le<T: PartialOrd>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a <= b,
        _ => true,
    }
}
fn lt<T: PartialOrd>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a < b,
        _ => true,
    }
}
fn schema(v: &Value) {
    let o = match obj(v) {
        Some(o) => o,
        None => return,
    };
    let yes = |k: &str| o.get(k).and_then(Value::as_bool) == Some(true);
    check(!(yes("readOnly") && yes("writeOnly")), "no schema of a document is both read-only and write-only");
    const EMPTY: &str = "no schema of a document has an empty range";
    match o.get("type").and_then(Value::as_str) {
        Some("integer") => {
            let (a, b, c, d) = (int(o, "minimum"), int(o, "exclusiveMinimum"), int(o, "maximum"), int(o, "exclusiveMaximum"));
            check(le(a, c) & lt(a, d) & lt(b, c) & lt(b, d), EMPTY);
        }
        Some("number") => {
            let (a, b, c, d) = (num(o, "minimum"), num(o, "exclusiveMinimum"), num(o, "maximum"), num(o, "exclusiveMaximum"));
            check(le(a, c) & lt(a, d) & lt(b, c) & lt(b, d), EMPTY);
            check(num(o, "multipleOf").map_or(true, |m| m > 0.0), "a multiple-of is above zero");
        }
        Some("string") => check(le(nat(o, "minLength"), nat(o, "maxLength")), EMPTY),
        Some("array") => check(le(nat(o, "minItems"), nat(o, "maxItems")), EMPTY),
        _ => (),
    }
    match o.get("items") {
        Some(Value::Array(v)) => v.iter().for_each(schema),
        Some(x) => schema(x),
        None => (),
    }
    match o.get("properties") {
        Some(Value::Object(m)) => {
            m.values().for_each(schema);
            if let Some(Value::Array(v)) = o.get("required") {
                check(v.iter().all(|x| x.as_str().map_or(false, |x| m.contains_key(x))), "a schema requires properties it has");
            }
        }
        _ => (),
    }
    if let Some(Value::Array(v)) = o.get("oneOf") {
        v.iter().for_each(schema);
    }
}

// ------------------------------------------------------------------------------------- the entries

macro_rules! entries {
    ($($name:ident $f:path;)*) => { $(#[no_mangle] pub extern "C" fn $name() { $f() })* };
}
entries! {
    p21_kinds p09::p09_kinds;
    p21_schemas p09::p09_schemas;
    p21_nested p09::p09_nested;
    p21_forms p09::p09_forms;
    p21_responses p09::p09_responses;
    p21_links p09::p09_links;
    p21_affordances p09::p09_affordances;
    p21_thing p09::p09_thing;
    p21_dressed p09::p09_dressed;
    p21_security p20::p20_kinds;
    p21_schemes p20::p20_common;
    p21_several p20::p20_several;
}
/// Things that are faulty or not: if one is built, its document is valid.
#[no_mangle]
pub extern "C" fn p21_faults() {
    let t = faulty(param(0));
    match build(&t) {
        Ok(r) => {
            verdict(&r);
            cover("accepted");
        }
        Err(_) => cover("refused"),
    }
}
pub const FAULTS: usize = 12;
fn faulty(k: usize) -> Th {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.security.push(Sec { key: Some(any_name(1)), required: true, ..sec(SecK::NoSec) });
    t.defs.push((any_name(1), good()));
    // with other parts around: fewer places and ways
    let few = param(1) == 1;
    let p = || if few { [0, 4, 5, 6][pick(4)] } else { pick(7) };
    let put = |t: &mut Th, f: &dyn Fn(&mut Fm)| {
        let p = p();
        let mut a = form_at(p);
        let mut b = form_at(p);
        match if few { 1 } else { pick(3) } {
            0 => f(&mut a),
            1 => f(&mut b),
            _ => {
                f(&mut a);
                f(&mut b);
            }
        }
        put_forms(t, p, vec![a, b]);
    };
    let schema = |t: &mut Th, s: Sch| {
        let n = if few { [0, 3, 9, 12][pick(4)] } else { pick(NESTS) };
        let p = if few { [0, 1, 3, 5, 8, 11][pick(6)] } else { pick(PLACES) };
        let s = nest(n, s);
        assume(fits(p, &s) && !(n != 0 && (7..=10).contains(&p)));
        let q = place(p, 0, s);
        t.properties.extend(q.properties);
        t.actions.extend(q.actions);
        t.events.extend(q.events);
        t.uri.extend(q.uri);
        t.defs.extend(q.defs);
    };
    match k {
        // security of forms
        0 => {
            let n = any_name(1);
            put(&mut t, &|f| f.security.push(n.clone()))
        }
        // schemas of responses
        1 => {
            let n = any_name(1);
            put(&mut t, &|f| f.addl.push((true, None, Some(n.clone()))))
        }
        // operations
        2 => {
            let op = crate::gen::OPS[pick(18)].0;
            put(&mut t, &|f| f.op.push(op))
        }
        3 => put(&mut t, &|f| f.op.clear()),
        // combined schemes
        4 => t.security.push(Sec { key: Some(any_name(1)), ..sec(SecK::Combo(flag(), vec![any_name(1), any_name(1)], 1, 0)) }),
        // limits
        5 => {
            let (a, b) = (any_i64(), any_i64());
            schema(&mut t, sch(Kind::Int { lo: Some((flag(), a)), hi: Some((flag(), b)), mult: None }))
        }
        6 => {
            let (a, b) = (any_f64(), any_f64());
            assume(a.abs() < f64::INFINITY && b.abs() < f64::INFINITY);
            schema(&mut t, sch(Kind::Num { lo: Some((flag(), a)), hi: Some((flag(), b)), mult: Some(b) }))
        }
        7 => schema(&mut t, sch(Kind::Str { lo: Some(any_u32()), hi: Some(any_u32()), pattern: None, encoding: None, media: None })),
        8 => schema(&mut t, sch(Kind::List { item: None, lo: Some(any_u32()), hi: Some(any_u32()) })),
        // links
        9 => {
            let l = Lk { href: "h".into(), rel: if flag() { Some(any_str(4)) } else { None }, sizes: Some(text()), late: flag(), ..Default::default() };
            t.links.push(l)
        }
        // URI variables
        10 => {
            let s = sch([Kind::Bool, Kind::Obj(vec![]), Kind::Tuple(vec![]), Kind::List { item: None, lo: None, hi: None }][pick(4)].clone());
            let q = place(7 + pick(4), pick(3), s);
            t.properties.extend(q.properties);
            t.actions.extend(q.actions);
            t.events.extend(q.events);
            t.uri.extend(q.uri);
        }
        // languages
        _ => {
            let tag = ["en", "e!", "EN", "en-", "", "x-a", "english-language"][pick(7)].to_string();
            let v = Some(vec![(tag, text())]);
            match pick(4) {
                0 => t.info.titles = v,
                1 => t.security[0].descriptions = v,
                2 => t.actions.push(("p".into(), Act { aff: Aff { info: Info { descriptions: v, ..Default::default() }, ..Default::default() }, ..Default::default() })),
                _ => t.links.push(Lk { href: "h".into(), hreflang: vec![v.unwrap()[0].0.clone()], ..Default::default() }),
            }
        }
    }
    if param(1) == 1 {
        dress::surround(&mut t);
    }
    t
}
/// Through text: Things with everything around them.
#[no_mangle]
pub extern "C" fn p21_text() {
    text_mode(true);
    let mut t = place(param(0), pick(3), sch([Kind::Bool, Kind::OneOf(vec![good(), sch(Kind::Null)]), Kind::Const(Value::Null)][pick(3)].clone()));
    dress::surround(&mut t);
    match build(&t) {
        Ok(r) => verdict_text(&r),
        Err(_) => check(false, "the Thing is built"),
    }
}
