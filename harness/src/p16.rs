//! CoAP, HTTP and MQTT form fields.
use crate::{sym::*, util::*};
use serde_json::Value;
use wot_td::protocol::{coap, http, mqtt};
use wot_td::thing::{ExpectedResponse, Form};

const COAP_METHODS: [(coap::Method, &str); 7] = [
    (coap::Method::Get, "GET"),
    (coap::Method::Put, "PUT"),
    (coap::Method::Post, "POST"),
    (coap::Method::Delete, "DELETE"),
    (coap::Method::Patch, "PATCH"),
    (coap::Method::Fetch, "FETCH"),
    (coap::Method::Ipatch, "iPATCH"),
];
const SIZES: [(coap::BlockSize, u64); 7] = [
    (coap::BlockSize::Size16, 16),
    (coap::BlockSize::Size32, 32),
    (coap::BlockSize::Size64, 64),
    (coap::BlockSize::Size128, 128),
    (coap::BlockSize::Size256, 256),
    (coap::BlockSize::Size512, 512),
    (coap::BlockSize::Size1024, 1024),
];
const HTTP_METHODS: [(http::Method, &str); 5] = [
    (http::Method::Get, "GET"),
    (http::Method::Put, "PUT"),
    (http::Method::Post, "POST"),
    (http::Method::Delete, "DELETE"),
    (http::Method::Patch, "PATCH"),
];
const PACKETS: [(mqtt::ControlPacket, &str); 3] = [
    (mqtt::ControlPacket::Publish, "mqv:publish"),
    (mqtt::ControlPacket::Subscribe, "mqv:subscribe"),
    (mqtt::ControlPacket::Unsubscribe, "mqv:unsubscribe"),
];
const QOS: [(mqtt::QoS, &str); 3] = [
    (mqtt::QoS::AtMostOnce, "quality:0"),
    (mqtt::QoS::AtLeastOnce, "quality:1"),
    (mqtt::QoS::ExactlyOnce, "quality:2"),
];

fn blocks() -> (coap::BlockWiseTransferParameters, Obj) {
    let mut p = coap::BlockWiseTransferParameters::default();
    let mut o = Obj::new();
    let k = pick(8);
    if k < 7 {
        p.block2_size = Some(SIZES[k].0);
        o.put("cov:block2Size", vu(SIZES[k].1));
    }
    let k = pick(3);
    if k < 2 {
        p.block1_size = Some(SIZES[k * 6].0);
        o.put("cov:block1Size", vu(SIZES[k * 6].1));
    }
    (p, o)
}
fn same_form_base<O: wot_td::extend::ExtendableThing>(a: &Form<O>, href: &str) -> bool {
    a.href == href && a.content_type.is_none() && a.subprotocol.is_none() && a.security.is_none()
}

/// Every CoAP form: all fields, all values; writes the vocabulary's terms and reads back the same.
#[no_mangle]
pub extern "C" fn p16_coap() {
    let mut f = coap::Form::default();
    let mut o = Obj::new();
    let href = text();
    o.put("href", vs(&href));
    let m = subset(6);
    if has(m, 0) {
        let k = pick(7);
        f.method = Some(COAP_METHODS[k].0);
        o.put("cov:method", vs(COAP_METHODS[k].1));
    }
    if has(m, 1) {
        let mut p = coap::BlockWiseTransferParameters::default();
        let mut b = Obj::new();
        if flag() {
            p.block2_size = Some(coap::BlockSize::Size32);
            b.put("cov:block2Size", vu(32));
        }
        f.blockwise = Some(p);
        o.put("cov:blockwise", b.v());
    }
    if has(m, 2) {
        let mut p = coap::BlockWiseTransferParameters::default();
        let mut b = Obj::new();
        p.block1_size = Some(coap::BlockSize::Size512);
        b.put("cov:block1Size", vu(512));
        f.qblockwise = Some(p);
        o.put("cov:qblockwise", b.v());
    }
    if has(m, 3) {
        let x = any_u8();
        f.hop_limit = Some(x);
        o.put("cov:hopLimit", vu(x as u64));
    }
    if has(m, 4) {
        let x = any_u16();
        f.accept = Some(x);
        o.put("cov:accept", vu(x as u64));
    }
    if has(m, 5) {
        let x = any_u16();
        f.content_format = Some(x);
        o.put("cov:contentFormat", vu(x as u64));
    }
    let form = Form::<coap::CoapProtocol> { href: href.clone(), other: f.clone(), ..Default::default() };
    let expect = o.v();
    let v = to_v(&form);
    check(v.as_ref() == Some(&expect), "a CoAP form is written with the vocabulary's keys and values");
    let back: Option<Form<coap::CoapProtocol>> = of_v(expect);
    match back {
        None => check(false, "a CoAP form is read back"),
        Some(b) => {
            check(same_form_base(&b, &href), "the form around the CoAP fields is read back");
            let b = b.other;
            check(b.method == f.method, "cov:method is read back");
            check(b.blockwise == f.blockwise, "cov:blockwise is read back");
            check(b.qblockwise == f.qblockwise, "cov:qblockwise is read back");
            check(b.hop_limit == f.hop_limit, "cov:hopLimit is read back");
            check(b.accept == f.accept, "cov:accept is read back");
            check(b.content_format == f.content_format, "cov:contentFormat is read back");
            obs(b.hop_limit.map_or(999, |x| x as u64));
            obs(b.accept.map_or(99999, |x| x as u64));
            cover("coap");
        }
    }
}
#[no_mangle]
pub extern "C" fn p16_coap_blocks() {
    let (p, o) = blocks();
    let expect = o.v();
    check(to_v(&p).as_ref() == Some(&expect), "block sizes are written as their number of bytes");
    let back: Option<coap::BlockWiseTransferParameters> = of_v(expect);
    check(back.is_some(), "block sizes are read back");
    if let Some(b) = back {
        check(b.block1_size == p.block1_size && b.block2_size == p.block2_size, "block sizes are kept");
        cover("blocks");
    }
    let q = coap::Form { blockwise: Some(p), qblockwise: None, ..Default::default() };
    let r: Option<coap::Form> = to_v(&q).and_then(of_v);
    check(r.map_or(false, |r| r.blockwise == Some(p) && r.qblockwise.is_none()), "block-wise parameters stay in their field");
    let q = coap::Form { qblockwise: Some(p), ..Default::default() };
    let r: Option<coap::Form> = to_v(&q).and_then(of_v);
    check(r.map_or(false, |r| r.qblockwise == Some(p) && r.blockwise.is_none()), "q-block-wise parameters stay in their field");
}
/// Any number at any numeric CoAP field: accepted exactly when it is in the field's range.
#[no_mangle]
pub extern "C" fn p16_coap_read() {
    let n = any_u64();
    let which = param(0);
    let in_form = flag();
    let mut o = Obj::new();
    let (key, ok) = match which {
        0 => ("cov:hopLimit", n <= 255),
        1 => ("cov:accept", n <= 65535),
        2 => ("cov:contentFormat", n <= 65535),
        3 => ("cov:block1Size", n == 16 || n == 32 || n == 64 || n == 128 || n == 256 || n == 512 || n == 1024),
        4 => ("cov:block2Size", n == 16 || n == 32 || n == 64 || n == 128 || n == 256 || n == 512 || n == 1024),
        _ => ("cov:contentFormat", n <= 65535),
    };
    o.put(key, vu(n));
    let got = match which {
        0..=2 if in_form => {
            o.put("href", vs("h"));
            of_v::<Form<coap::CoapProtocol>>(o.v()).map(|f| match which {
                0 => f.other.hop_limit.map(|x| x as u64),
                1 => f.other.accept.map(|x| x as u64),
                _ => f.other.content_format.map(|x| x as u64),
            })
        }
        0..=2 => of_v::<coap::Form>(o.v()).map(|f| match which {
            0 => f.hop_limit.map(|x| x as u64),
            1 => f.accept.map(|x| x as u64),
            _ => f.content_format.map(|x| x as u64),
        }),
        3 | 4 => of_v::<coap::BlockWiseTransferParameters>(o.v()).map(|b| {
            let s = if which == 3 { b.block1_size } else { b.block2_size };
            s.and_then(|s| SIZES.iter().find(|x| x.0 == s).map(|x| x.1))
        }),
        _ => {
            if in_form {
                o.put("contentType", vs("c"));
                of_v::<ExpectedResponse<coap::ExpectedResponse>>(o.v()).map(|f| f.other.content_format.map(|x| x as u64))
            } else {
                of_v::<coap::ExpectedResponse>(o.v()).map(|f| f.content_format.map(|x| x as u64))
            }
        }
    };
    check(got.is_some() == ok, "a number is accepted exactly when it is in the field's range");
    if let Some(g) = got {
        check(g == Some(n), "a number that is accepted is kept");
        cover("accepted");
    } else {
        cover("refused");
    }
}
#[no_mangle]
pub extern "C" fn p16_http() {
    let mut r = http::Response::default();
    let mut o = Obj::new();
    let ct = text();
    o.put("contentType", vs(&ct));
    let nh = pick(3);
    let mut hs = vec![];
    for _ in 0..nh {
        let mut h = http::MessageHeader::default();
        let mut ho = Obj::new();
        if flag() {
            let s = text();
            ho.put("htv:fieldName", vs(&s));
            h.field_name = Some(s);
        }
        if flag() {
            let s = text();
            ho.put("htv:fieldValue", vs(&s));
            h.field_value = Some(s);
        }
        r.headers.push(h);
        hs.push(ho.v());
    }
    if nh > 0 {
        o.put("htv:headers", Value::Array(hs));
    }
    if flag() {
        let n = any_u64();
        o.put("htv:statusCodeValue", vu(n));
        r.status_code_value = Some(n as usize);
    }
    let expect = o.v();
    let e = ExpectedResponse::<http::Response> { content_type: ct.clone(), other: r.clone() };
    check(to_v(&e).as_ref() == Some(&expect), "an HTTP response is written with the vocabulary's keys and values");
    let b: Option<ExpectedResponse<http::Response>> = of_v(expect);
    match b {
        None => check(false, "an HTTP response is read back"),
        Some(b) => {
            check(b.content_type == ct, "contentType is read back");
            check(b.other.status_code_value == r.status_code_value, "htv:statusCodeValue is read back");
            check(b.other.headers.len() == nh, "htv:headers are read back");
            for (x, y) in b.other.headers.iter().zip(r.headers.iter()) {
                check(x.field_name == y.field_name && x.field_value == y.field_value, "a header is read back");
            }
            obs(nh as u64);
            cover("http");
        }
    }
}
#[no_mangle]
pub extern "C" fn p16_http_method() {
    let k = pick(6);
    let mut o = Obj::new();
    o.put("href", vs("h"));
    if k < 5 {
        o.put("htv:methodName", vs(HTTP_METHODS[k].1));
    }
    let want = if k < 5 { Some(HTTP_METHODS[k].0) } else { None };
    let e = o.v();
    let f = Form::<http::HttpProtocol> { href: "h".into(), other: http::Form { method_name: want }, ..Default::default() };
    check(to_v(&f).as_ref() == Some(&e), "htv:methodName is written by name");
    let b: Option<Form<http::HttpProtocol>> = of_v(e);
    check(b.map_or(false, |b| b.other.method_name == want), "htv:methodName is read back");
    cover("method");
    // any other word is refused
    let n = pick(7);
    let w = any_str(n);
    let known = HTTP_METHODS.iter().any(|x| x.1 == w);
    let b: Option<http::Method> = of_v(vs(&w));
    check(b.is_some() == known, "only the vocabulary's method names are accepted");
}
#[no_mangle]
pub extern "C" fn p16_mqtt() {
    let mut f = mqtt::Form::default();
    let mut o = Obj::new();
    o.put("href", vs("h"));
    f.retain = flag();
    o.put_if(f.retain, "mqv:retain", Value::Bool(true));
    let k = pick(4);
    if k < 3 {
        f.control_packet = Some(PACKETS[k].0);
        o.put("mqv:controlPacket", vs(PACKETS[k].1));
    }
    let k = pick(4);
    if k < 3 {
        f.qos = Some(QOS[k].0);
        o.put("mqv:qos", vs(QOS[k].1));
    }
    if flag() {
        let s = text();
        o.put("mqv:topic", vs(&s));
        f.topic = Some(s);
    }
    let n = pick(4);
    for _ in 0..n {
        f.filter.push(text());
    }
    if n == 1 {
        o.put("mqv:filter", vs(&f.filter[0]));
    } else if n > 1 {
        o.put("mqv:filter", Value::Array(f.filter.iter().map(|x| vs(x)).collect()));
    }
    let e = o.v();
    let form = Form::<mqtt::MqttProtocol> { href: "h".into(), other: f.clone(), ..Default::default() };
    check(to_v(&form).as_ref() == Some(&e), "an MQTT form is written with the vocabulary's keys and values");
    let b: Option<Form<mqtt::MqttProtocol>> = of_v(e);
    match b {
        None => check(false, "an MQTT form is read back"),
        Some(b) => {
            let b = b.other;
            check(b.retain == f.retain, "mqv:retain is read back");
            check(b.control_packet == f.control_packet, "mqv:controlPacket is read back");
            check(b.qos == f.qos, "mqv:qos is read back");
            check(b.topic == f.topic, "mqv:topic is read back");
            check(b.filter == f.filter, "mqv:filter is read back");
            cover("mqtt");
        }
    }
}
