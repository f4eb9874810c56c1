//! What is written uses the vocabulary of the specification, each key once and nothing else.
use crate::{cases::*, gen::*, sym::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use wot_td::thing::*;

struct Words;
impl Visit for Words {
    fn visit<T: Serialize + DeserializeOwned + Same + Wire + PartialEq>(&self, t: T) {
        if param(2) == 1 {
            match to_s(&t) {
                None => check(false, "a value is written as text"),
                Some(s) => match serde_json::from_str::<serde_json::Value>(&s) {
                    Err(_) => check(false, "the text is JSON"),
                    Ok(v) => {
                        check(v == t.wire(), "the text says what the specification says");
                        check(strict(&s).map_or(false, |x| x.dups == 0), "no key is written twice");
                    }
                },
            }
        } else {
            match to_v(&t) {
                None => check(false, "a value is written"),
                Some(v) => check(v == t.wire(), "a value is written as the specification says"),
            }
        }
        cover("written");
    }
}
#[no_mangle]
pub extern "C" fn p11_cases() {
    text_mode(param(2) == 1);
    cases(&Words);
}
/// The names of operations when shown.
#[no_mangle]
pub extern "C" fn p11_operations() {
    let k = pick(18);
    let s = OPS[k].0.to_string();
    check(s == OPS[k].1, "an operation is shown by its name");
    check(to_v(&OPS[k].0) == Some(vs(OPS[k].1)), "an operation is written by its name");
    check(of_v::<FormOperation>(vs(OPS[k].1)) == Some(OPS[k].0), "an operation is read by its name");
    cover("operation");
}
/// An event's data response.
#[no_mangle]
pub extern "C" fn p11_data_response() {
    let mut e = event(0);
    e.data_response = Some(small(1));
    let v = to_v(&e);
    check(v.map_or(false, |v| v.get("dataResponse").is_some()), "an event's data response is written as dataResponse");
    cover("event");
}
/// A single additional response.
#[no_mangle]
pub extern "C" fn p11_additional_response() {
    let mut f = form(0);
    f.additional_responses = Some(vec![addresp(3)]);
    let v = to_v(&f);
    check(v.map_or(false, |v| v["additionalResponses"].is_array()), "additional responses are written as an array");
    cover("form");
}
/// Dates.
#[no_mangle]
pub extern "C" fn p11_dates() {
    use time::*;
    let (mut mi, mut se) = (7, 59);
    let x = any_u8();
    assume(x < 60);
    if param(0) == 0 {
        mi = x;
    } else {
        se = x;
    }
    let (oh, om) = [(0i8, 0i8), (1, 30), (-5, -45), (14, 0)][pick(4)];
    let d = PrimitiveDateTime::new(Date::from_calendar_date(2022, Month::March, 9).unwrap(), Time::from_hms(7, mi, se).unwrap())
        .assume_offset(UtcOffset::from_hms(oh, om, 0).unwrap());
    let mut s = String::from("2022-03-09T07:");
    for n in [mi, se] {
        s.push((b'0' + n / 10) as char);
        s.push((b'0' + n % 10) as char);
        s.push(':');
    }
    s.pop();
    s.push_str(["Z", "+01:30", "-05:45", "+14:00"][match (oh, om) {
        (0, _) => 0,
        (1, _) => 1,
        (-5, _) => 2,
        _ => 3,
    }]);
    let mut t = thing(0);
    let which = pick(3);
    if which != 1 {
        t.created = Some(d);
    }
    if which != 0 {
        t.modified = Some(d);
    }
    let w = wire_thing(&t, if which != 1 { Some(&s) } else { None }, if which != 0 { Some(&s) } else { None });
    check(to_v(&t) == Some(w), "dates are written in RFC 3339 form");
    cover("dates");
}
