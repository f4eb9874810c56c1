//! Reading never panics, refuses what lacks a mandatory part or uses unknown terms, and what it
//! accepts is stable.
use crate::{cases::*, gen::*, sym::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Map, Value};
use wot_td::{hlist::Nil, thing::*};

/// Read whatever it is; what is read can be written, and reads as the same.
fn steady<T: Serialize + DeserializeOwned + Same>(v: Value) -> bool {
    match of_v::<T>(v) {
        None => {
            cover("refused");
            false
        }
        Some(t) => {
            match to_v(&t) {
                None => check(false, "what was read can be written"),
                Some(w) => match of_v::<T>(w) {
                    None => check(false, "what was read and written can be read again"),
                    Some(u) => check(u.same(&t), "reading what was read and written changes nothing"),
                },
            }
            cover("accepted");
            true
        }
    }
}
fn odd(k: usize) -> Value {
    match k {
        0..=7 => any_value(k),
        8 => Value::Array(vec![]),
        9 => Value::Object(Map::new()),
        10 => Value::Array(vec![Value::Object(Map::new())]),
        11 => {
            let mut o = Obj::new();
            o.put("a", Value::Object(Map::new()));
            o.v()
        }
        _ => Value::Array(vec![Value::Null, vu(any_u64())]),
    }
}
const ODD: usize = 13;
fn of_members<T: Serialize + DeserializeOwned + Same>(mandatory: &[(&str, Value)], names: &[&str]) {
    let i = pick(names.len());
    let k = pick(ODD);
    let mut o = Obj::new();
    for (m, v) in mandatory {
        o.put(m, v.clone());
    }
    o.put(names[i], odd(k));
    steady::<T>(o.v());
}
fn mandatory(k: usize) -> (Vec<(&'static str, Value)>, Vec<&'static str>) {
    let e = || Value::Object(Map::new());
    let thing = vec![("title", vs("t")), ("security", vs("s")), ("securityDefinitions", e())];
    let inter = ["@type", "title", "titles", "description", "descriptions", "forms", "uriVariables"];
    match k {
        0 => (
            thing,
            vec![
                "@context", "id", "@type", "title", "titles", "description", "descriptions", "version", "created", "modified", "support", "base", "properties", "actions",
                "events", "links", "forms", "security", "securityDefinitions", "uriVariables", "profile", "schemaDefinitions",
            ],
        ),
        1 => (
            vec![],
            vec![
                "@type", "title", "titles", "description", "descriptions", "const", "default", "unit", "oneOf", "enum", "readOnly", "writeOnly", "format", "type", "items",
                "properties", "minimum",
            ],
        ),
        2 => (vec![("type", vs("array"))], vec!["items", "minItems", "maxItems", "type", "minimum"]),
        3 => (vec![("type", vs("number"))], vec!["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "items"]),
        4 => (vec![("type", vs("integer"))], vec!["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength"]),
        5 => (vec![("type", vs("string"))], vec!["minLength", "maxLength", "pattern", "contentEncoding", "contentMediaType", "required"]),
        6 => (vec![("type", vs("object"))], vec!["properties", "required", "type"]),
        7 => (
            vec![("scheme", vs(["basic", "digest", "bearer", "psk", "oauth2", "apikey", "combo", "auto", "other"][pick(9)]))],
            vec!["@type", "description", "descriptions", "proxy", "scheme", "in", "name", "qop", "alg", "format", "authorization", "identity", "token", "refresh", "scopes", "flow", "oneOf", "allOf"],
        ),
        8 => (vec![("href", vs("h"))], vec!["href", "type", "rel", "anchor", "sizes", "hreflang"]),
        9 => (
            vec![("href", vs("h"))],
            vec!["op", "href", "contentType", "contentCoding", "subprotocol", "security", "scopes", "response", "additionalResponses"],
        ),
        10 => (vec![("forms", Value::Array(vec![]))], [&inter[..], &["observable", "readOnly", "type", "const"]].concat()),
        11 => (vec![("forms", Value::Array(vec![]))], [&inter[..], &["input", "output", "safe", "idempotent", "synchronous"]].concat()),
        12 => (vec![("forms", Value::Array(vec![]))], [&inter[..], &["subscription", "data", DATA_RESPONSE, "cancellation"]].concat()),
        13 => (vec![("instance", vs("1"))], vec!["instance", "model"]),
        _ => (vec![], vec!["success", "contentType", "schema"]),
    }
}
/// One member of any shape.
#[no_mangle]
pub extern "C" fn p13_members() {
    let k = param(0);
    let (m, n) = mandatory(k);
    match k {
        0 => of_members::<Thing<Nil>>(&m, &n),
        1..=6 => of_members::<DS>(&m, &n),
        7 => of_members::<SecurityScheme>(&m, &n),
        8 => of_members::<Link>(&m, &n),
        9 => of_members::<Form<Nil>>(&m, &n),
        10 => of_members::<PropertyAffordance<Nil>>(&m, &n),
        11 => of_members::<ActionAffordance<Nil>>(&m, &n),
        12 => of_members::<EventAffordance<Nil>>(&m, &n),
        13 => of_members::<VersionInfo>(&m, &n),
        _ => of_members::<AdditionalExpectedResponse>(&m, &n),
    }
}
/// A document that is no object at all.
#[no_mangle]
pub extern "C" fn p13_shapes() {
    let v = odd(pick(ODD));
    let obj = v.is_object();
    let ok = match param(0) {
        0 => steady::<Thing<Nil>>(v),
        1 => steady::<DS>(v),
        2 => steady::<SecurityScheme>(v),
        3 => steady::<Link>(v),
        4 => steady::<Form<Nil>>(v),
        5 => steady::<PropertyAffordance<Nil>>(v),
        6 => steady::<ActionAffordance<Nil>>(v),
        _ => steady::<EventAffordance<Nil>>(v),
    };
    check(param(0) == 1 || !ok, "a document without its mandatory members is refused");
    cover("shape");
}
/// The mandatory members, one after the other left out.
#[no_mangle]
pub extern "C" fn p13_mandatory() {
    fn without<T: Serialize + DeserializeOwned + Same + Wire>(t: T, keys: &[&str]) {
        let k = pick(keys.len());
        let mut w = t.wire();
        if let Value::Object(o) = &mut w {
            o.remove(keys[k]);
        }
        check(of_v::<T>(w).is_none(), "a document without a mandatory member is refused");
        cover("mandatory");
    }
    match param(0) {
        0 => without(thing(subset1(THING_FIELDS)), &["title", "security", "securityDefinitions"]),
        1 => without(link(subset1(5)), &["href"]),
        2 => without(form(subset1(FORM_FIELDS)), &["href"]),
        3 => without(property(subset1(8), None), &["forms"]),
        4 => without(action(subset1(12)), &["forms"]),
        5 => without(event(subset1(11)), &["forms"]),
        6 => without(version(true), &["instance"]),
        7 => without(ExpectedResponse { content_type: st(), other: Nil }, &["contentType"]),
        8 => without(security(pick(9), 0), &["scheme"]),
        _ => {
            // oauth2 needs its flow to be known as such
            let s = security(7, 0);
            let mut w = s.wire();
            if let Value::Object(o) = &mut w {
                o.remove("flow");
            }
            let r = of_v::<SecurityScheme>(w);
            check(
                r.map_or(true, |r| !matches!(r.subtype, SecuritySchemeSubtype::Known(_))),
                "an oauth2 scheme without its flow is not taken for one",
            );
            cover("mandatory");
        }
    }
}
/// Terms of closed vocabularies.
#[no_mangle]
pub extern "C" fn p13_terms() {
    let k = param(0);
    let n = param(1);
    let s = any_name(n);
    match k {
        0 => {
            let known = OPS.iter().fold(false, |a, o| a | (s == o.1));
            let many = pick(2) == 1;
            let mut o = Obj::new();
            o.put("href", vs("h"));
            o.put("op", if many { Value::Array(vec![vs(&s)]) } else { vs(&s) });
            let r = of_v::<Form<Nil>>(o.v());
            check(r.is_some() == known, "exactly the operations of the specification are read");
            if let Some(f) = r {
                check(matches!(&f.op, DefaultedFormOperations::Custom(v) if v.len() == 1 && op_name(v[0]) == s), "an operation is read as itself");
                cover("known");
            } else {
                cover("unknown");
            }
        }
        1 => {
            let known = LOCS.iter().fold(false, |a, o| a | (s == o.1));
            let mut o = Obj::new();
            o.put("scheme", vs("basic"));
            o.put("in", vs(&s));
            let r = of_v::<SecurityScheme>(o.v());
            let is = matches!(&r, Some(x) if matches!(&x.subtype, SecuritySchemeSubtype::Known(KnownSecuritySchemeSubtype::Basic(b)) if LOCS.iter().any(|l| l.0 == b.location && l.1 == s)));
            check(is == known, "exactly the locations of the specification are read");
            cover(if known { "known" } else { "unknown" });
        }
        2 => {
            let known = ["array", "boolean", "number", "integer", "object", "string", "null"].iter().fold(false, |a, o| a | (s == *o));
            let mut o = Obj::new();
            o.put("type", vs(&s));
            let r = of_v::<DS>(o.v());
            check(r.is_some(), "a data schema is read whatever its type");
            check(r.map_or(false, |r| r.subtype.is_some() == known), "exactly the types of the specification are read as such");
            cover(if known { "known" } else { "unknown" });
        }
        _ => {
            let known = ["nosec", "auto", "basic", "digest", "bearer", "psk", "apikey"].iter().fold(false, |a, o| a | (s == *o));
            // combo and oauth2 have mandatory members
            let mut o = Obj::new();
            o.put("scheme", vs(&s));
            let r = of_v::<SecurityScheme>(o.v());
            match r {
                None => check(false, "a security scheme of any kind is read"),
                Some(r) => match r.subtype {
                    SecuritySchemeSubtype::Known(_) => check(known, "an unknown security scheme is not taken for a known one"),
                    SecuritySchemeSubtype::Unknown(u) => {
                        check(!known, "a known security scheme is read as such");
                        check(u.scheme == s, "an unknown security scheme keeps its name");
                    }
                },
            }
            cover(if known { "known" } else { "unknown" });
        }
    }
}
/// A few arbitrary bytes as a document.
#[no_mangle]
pub extern "C" fn p13_bytes() {
    let n = param(1);
    let mut v = vec![];
    for _ in 0..n {
        v.push(any_u8());
    }
    let ok = match param(0) {
        0 => serde_json::from_slice::<Thing<Nil>>(&v).is_ok(),
        1 => serde_json::from_slice::<DS>(&v).is_ok(),
        2 => serde_json::from_slice::<Form<Nil>>(&v).is_ok(),
        _ => serde_json::from_slice::<SecurityScheme>(&v).is_ok(),
    };
    check(param(0) == 1 || !ok, "no short text is a document");
    cover("bytes");
}
// ------------------------------------------------------------------------ large documents

/// Documents with a bit of everything.
fn rich(k: usize) -> Thing<Nil> {
    coins();
    let mut t = thing(0);
    match k {
        0 => {
            t = thing(0x3ffff & !(1 << 9 | 1 << 10 | 1 << 11));
            t.security_definitions = named((0..11).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"][i], one_security(i))).collect());
        }
        1 => t.properties = Some(named((0..8).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h"][i], property([0, 0xff, 0x1fff_0000][i % 3], small(i).subtype))).collect())),
        2 => {
            t.actions = Some(named(vec![("a", action(0xfff)), ("b", action(0))]));
            t.events = Some(named(vec![("a", event(0x7ff)), ("b", event(0))]));
        }
        _ => {
            t.forms = Some(vec![form(255), form(1), form(0b10101011)]);
            t.links = Some(vec![link(31), link(0)]);
            t.schema_definitions = Some(named((0..8).map(|i| (["a", "b", "c", "d", "e", "f", "g", "h"][i], schema(if i == 7 { 0x1fff } else { 0 }, small(i).subtype))).collect()));
        }
    }
    t
}
fn count(v: &Value) -> usize {
    match v {
        Value::Object(o) => o.iter().map(|(_, x)| 1 + count(x)).sum(),
        Value::Array(a) => a.iter().map(|x| 1 + count(x)).sum(),
        _ => 0,
    }
}
/// Does `f` to the `n`-th member or element of the document: its path and what becomes of it.
fn edit(v: &mut Value, n: &mut usize, path: &mut Vec<String>, f: &mut dyn FnMut(&[String], &mut Value) -> Option<Value>) -> bool {
    match v {
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            for k in keys {
                path.push(k.clone());
                if *n == 0 {
                    match f(path, o.get_mut(&k).unwrap()) {
                        Some(x) => {
                            o.insert(k, x);
                        }
                        None => {
                            o.remove(&k);
                        }
                    }
                    return true;
                }
                *n -= 1;
                if edit(o.get_mut(&k).unwrap(), n, path, f) {
                    return true;
                }
                path.pop();
            }
            false
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                path.push("#".into());
                if *n == 0 {
                    match f(path, &mut a[i]) {
                        Some(x) => a[i] = x,
                        None => {
                            a.remove(i);
                        }
                    }
                    return true;
                }
                *n -= 1;
                if edit(&mut a[i], n, path, f) {
                    return true;
                }
                path.pop();
            }
            false
        }
        _ => false,
    }
}
/// Whether the specification has this member mandatory where it stands.
fn is_mandatory(path: &[String]) -> bool {
    let n = path.len();
    let up = |i: usize| if n > i { path[n - 1 - i].as_str() } else { "" };
    match up(0) {
        "title" | "security" | "securityDefinitions" => n == 1,
        "href" => n >= 3 && up(1) == "#" && (up(2) == "forms" || (up(2) == "links" && n == 3)),
        "forms" => n == 3 && matches!(up(2), "properties" | "actions" | "events"),
        "instance" => n == 2 && up(1) == "version",
        "contentType" => up(1) == "response",
        "scheme" => n == 3 && up(2) == "securityDefinitions",
        _ => false,
    }
}
/// One member or element anywhere in a large document left out or of any other shape.
#[no_mangle]
pub extern "C" fn p13_changed() {
    let t = rich(param(0));
    let mut v = match to_v(&t) {
        Some(v) => v,
        None => return check(false, "a Thing is written"),
    };
    let n = count(&v);
    // a part of the places: those of a residue class
    let (c, of) = (param(1), param(2).max(1));
    let at = c + of * pick((n - c + of - 1) / of);
    let k = pick(if full() { ODD + 2 } else { 6 });
    let k = if full() || k < 2 { k } else { [3, 5, 10, 12][k - 2] + 2 };
    let mut needed = false;
    edit(&mut v, &mut { at }, &mut vec![], &mut |p, x| match k {
        0 => {
            needed = is_mandatory(p);
            None
        }
        1 => Some(Value::Array(vec![x.take()])),
        _ => Some(odd(k - 2)),
    });
    let ok = steady::<Thing<Nil>>(v);
    if k == 0 {
        check(ok != needed, "a document is refused for the lack of a mandatory member, and of no other");
    }
    cover("changed");
}
/// Two members of any shape at once.
#[no_mangle]
pub extern "C" fn p13_pairs() {
    fn of<T: Serialize + DeserializeOwned + Same>(mandatory: &[(&str, Value)], names: &[&str]) {
        let shapes: &[usize] = if full() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] } else { &[0, 3, 5, 10, 12] };
        let (c, m) = (param(1), param(2).max(1));
        let i = c + m * pick((names.len() - c + m - 1) / m);
        let j = pick(names.len());
        let (a, b) = (shapes[pick(shapes.len())], shapes[pick(shapes.len())]);
        let mut o = Obj::new();
        for (m, v) in mandatory {
            o.put(m, v.clone());
        }
        if i < j {
            o.put(names[i], odd(a));
            o.put(names[j], odd(b));
        }
        steady::<T>(o.v());
    }
    let k = param(0);
    let (m, n) = mandatory(k);
    match k {
        0 => of::<Thing<Nil>>(&m, &n),
        1..=6 => of::<DS>(&m, &n),
        7 => of::<SecurityScheme>(&m, &n),
        8 => of::<Link>(&m, &n),
        9 => of::<Form<Nil>>(&m, &n),
        10 => of::<PropertyAffordance<Nil>>(&m, &n),
        11 => of::<ActionAffordance<Nil>>(&m, &n),
        12 => of::<EventAffordance<Nil>>(&m, &n),
        13 => of::<VersionInfo>(&m, &n),
        _ => of::<AdditionalExpectedResponse>(&m, &n),
    }
}
fn steady_text<T: Serialize + DeserializeOwned + Same>(s: &[u8]) -> bool {
    match serde_json::from_slice::<T>(s) {
        Err(_) => {
            cover("refused");
            false
        }
        Ok(t) => {
            match to_s(&t) {
                None => check(false, "what was read can be written"),
                Some(w) => match of_s::<T>(&w) {
                    None => check(false, "what was read and written can be read again"),
                    Some(u) => check(u.same(&t), "reading what was read and written changes nothing"),
                },
            }
            cover("accepted");
            true
        }
    }
}
/// Short documents of all the kinds there are.
const TEXTS: [&str; 12] = [
    r#"{"@context":"https://www.w3.org/2022/wot/td/v1.1","title":"a","securityDefinitions":{"n":{"scheme":"nosec"}},"security":["n"]}"#,
    r#"{"@context":["https://www.w3.org/2022/wot/td/v1.1",{"x":"y"}],"@type":["T","U"],"id":"i","title":"a","titles":{"en":"e"},"securityDefinitions":{},"security":[],"created":"2022-05-01T10:20:30Z","version":{"instance":"1"}}"#,
    r#"{"type":"integer","minimum":-12,"exclusiveMaximum":40,"multipleOf":2,"readOnly":true}"#,
    r#"{"type":"number","exclusiveMinimum":5,"default":null,"unit":"m"}"#,
    r#"{"type":"string","minLength":1,"pattern":"[a]","enum":["a",1],"format":"f"}"#,
    r#"{"type":"array","items":[{"type":"null"},{"const":{}}],"maxItems":3}"#,
    r#"{"type":"object","properties":{"p":{"type":"boolean"}},"required":["p"]}"#,
    r#"{"oneOf":[{"titles":{"it":"\u00e9\n"}}],"writeOnly":false}"#,
    r#"{"scheme":"oauth2","token":"t","scopes":["s"],"flow":"code","proxy":"p"}"#,
    r#"{"href":"h","op":["readproperty"],"contentType":"c","subprotocol":"sse","response":{"contentType":"r"},"additionalResponses":[{"success":true}]}"#,
    r#"{"forms":[{"href":"h","security":"s"}],"observable":true,"type":"string","uriVariables":{"v":{}}}"#,
    r#"{"href":"h","type":"t","rel":"icon","sizes":"16x16","hreflang":["en","it"]}"#,
];
/// The text of a document cut off anywhere, or with one symbol that is anything.
#[no_mangle]
pub extern "C" fn p13_text() {
    let k = param(0);
    let mut b = TEXTS[k].as_bytes().to_vec();
    // a part of the places: those of a residue class
    let (c, of) = (param(1), param(2).max(1));
    let at = c + of * pick((b.len() - c + of - 1) / of);
    let cut = flag();
    if cut {
        b.truncate(at);
    } else {
        b[at] = any_u8();
    }
    let ok = match k {
        0 | 1 => steady_text::<Thing<Nil>>(&b),
        2..=7 => steady_text::<DS>(&b),
        8 => steady_text::<SecurityScheme>(&b),
        9 => steady_text::<Form<Nil>>(&b),
        10 => steady_text::<PropertyAffordance<Nil>>(&b),
        _ => steady_text::<Link>(&b),
    };
    check(!(cut && ok), "a text that is cut off is refused");
    cover("text");
}
