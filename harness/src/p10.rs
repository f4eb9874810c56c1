//! Writing a value to JSON and reading it back gives the same value.
use crate::{cases::*, gen::*, sym::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use wot_td::thing::*;

fn round_text<T: Serialize + DeserializeOwned + Same>(t: &T) {
    match to_s(t) {
        None => check(false, "a value is written as text"),
        Some(s) => {
            obs(s.len() as u64);
            match of_s::<T>(&s) {
                None => check(false, "the text that was written is read back"),
                Some(b) => check(b.same(t), "what is read back from text equals what was written"),
            }
        }
    }
    cover("round trip");
}
fn round<T: Serialize + DeserializeOwned + Same>(t: &T) {
    match to_v(t) {
        None => check(false, "a value is written"),
        Some(v) => match of_v::<T>(v) {
            None => check(false, "what was written is read back"),
            Some(b) => check(b.same(t), "what is read back equals what was written"),
        },
    }
    cover("round trip");
}
struct Round;
impl Visit for Round {
    fn visit<T: Serialize + DeserializeOwned + Same + Wire + PartialEq>(&self, t: T) {
        if param(2) == 1 {
            round_text(&t)
        } else {
            round(&t)
        }
    }
}
/// Third parameter 1: through the text form.
#[no_mangle]
pub extern "C" fn p10_cases() {
    text_mode(param(2) == 1);
    cases(&Round);
}
/// Symbolic text through the text form: escapes, symbols outside ASCII, digits.
#[no_mangle]
pub extern "C" fn p10_text() {
    text_mode(true);
    let mut s = small(1);
    match param(1) {
        0 => s.title = Some(any_str(1)),
        1 => s.unit = Some(any_wide()),
        2 => s.constant = Some(vs(&any_str(2))),
        3 => s.subtype = Some(Sub::Object(ObjS { properties: Some([(any_str(1), small(1))].into_iter().collect()), ..Default::default() })),
        4 => {
            let n = crate::sym::any_u32();
            assume(n < 1000);
            s.subtype = Some(Sub::String(StringSchema { max_length: Some(n), ..Default::default() }))
        }
        5 => {
            let n = any_i64();
            assume(n > -200 && n < 20);
            s.subtype = Some(Sub::Integer(IntegerSchema { minimum: Some(Minimum::Inclusive(n)), ..Default::default() }))
        }
        _ => s.description = Some(any_tri()),
    }
    round_text(&s);
}
fn any_tri() -> String {
    // U+0800..U+FFFF without surrogates
    let (a, b, c) = (any_u8(), any_u8(), any_u8());
    assume(a >= 0xe1 && a <= 0xec);
    unsafe { String::from_utf8_unchecked(vec![a, 0x80 | (b & 0x3f), 0x80 | (c & 0x3f)]) }
}
fn date(k: usize) -> time::OffsetDateTime {
    use time::*;
    let (mut y, mut mo, mut d, mut h, mut mi, mut se, mut ns, mut off) = (2023, Month::May, 31, 4, 5, 6, 0u32, 0);
    match k {
        0 => {
            let v = any_u8();
            assume(v < 60);
            se = v;
        }
        1 => {
            let v = any_u8();
            assume(v < 60);
            mi = v;
        }
        2 => {
            let v = any_u8();
            assume(v < 24);
            h = v;
        }
        3 => d = 1 + pick(31) as u8,
        4 => mo = [Month::January, Month::February, Month::March, Month::April, Month::May, Month::June, Month::July, Month::August, Month::September, Month::October, Month::November, Month::December][pick(12)],
        5 => y = [0, 1, 99, 1000, 1582, 1970, 2000, 2024, 9998, 9999][pick(10)],
        6 => ns = [1, 10, 120, 1_000, 123_456, 1_000_000, 120_000_000, 500_000_000, 999_999_999][pick(9)],
        _ => off = [1, -1, 59, 60, 90, -90, 330, -720, 840, 23 * 60 + 59, -(23 * 60 + 59)][pick(11)],
    }
    if k == 4 {
        d = 28;
    }
    let dt = Date::from_calendar_date(y, mo, d).unwrap();
    let t = Time::from_hms_nano(h, mi, se, ns).unwrap();
    PrimitiveDateTime::new(dt, t).assume_offset(UtcOffset::from_whole_seconds(off * 60).unwrap())
}
#[no_mangle]
pub extern "C" fn p10_dates() {
    text_mode(param(0) == 1);
    let mut t = thing(0);
    let d = date(param(1));
    let which = pick(3);
    if which != 1 {
        t.created = Some(d);
    }
    if which != 0 {
        t.modified = Some(d);
    }
    if param(0) == 1 {
        round_text(&t);
    } else {
        round(&t);
    }
}
/// Numbers whose shortest decimal needs exact reading. What of these fails is listed by its label
/// in known_findings.txt: serde_json reads such a text approximately (its feature float_roundtrip
/// is not asked for).
#[no_mangle]
pub extern "C" fn p10_decimal() {
    text_mode(true);
    let (x, what) = [
        (1.602176634e-19, "the number 1.602176634e-19 survives its text"),
        (123456789.12345679, "the number 123456789.12345679 survives its text"),
        (1.7976931348623155e308, "the number 1.7976931348623155e308 survives its text"),
        (6.02214076e23, "a number survives its text"),
        (0.30000000000000004, "a number survives its text"),
        (14.285714285714286, "a number survives its text"),
        (2.225073858507201e-308, "a number survives its text"),
        (-4.35, "a number survives its text"),
    ][pick(8)];
    let mut s = small(0);
    let bits = |v: &DS| match v.subtype {
        Some(Sub::Number(NumberSchema { maximum: Some(Maximum::Inclusive(x)), .. })) => Some(x.to_bits()),
        _ => None,
    };
    s.subtype = Some(Sub::Number(NumberSchema { maximum: Some(Maximum::Inclusive(x)), ..Default::default() }));
    let back = to_s(&s).and_then(|t| of_s::<DS>(&t)).and_then(|v| bits(&v));
    check(back == Some(f64::to_bits(x)), what);
    cover("decimal");
}
