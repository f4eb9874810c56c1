//! Ordering of lower and upper limits.
use crate::sym::*;
use std::cmp::Ordering::{self, *};
use wot_td::thing::{Maximum, Minimum};

trait Num: Copy + PartialOrd {
    fn any() -> Self;
}
impl Num for i64 {
    fn any() -> Self {
        any_i64()
    }
}
impl Num for f64 {
    fn any() -> Self {
        any_f64()
    }
}
impl Num for u8 {
    fn any() -> Self {
        any_u8()
    }
}
fn code(o: Option<Ordering>) -> u64 {
    match o {
        None => 0,
        Some(Less) => 1,
        Some(Equal) => 2,
        Some(Greater) => 3,
    }
}
fn mn<T>(ex: bool, v: T) -> Minimum<T> {
    if ex {
        Minimum::Exclusive(v)
    } else {
        Minimum::Inclusive(v)
    }
}
fn mx<T>(ex: bool, v: T) -> Maximum<T> {
    if ex {
        Maximum::Exclusive(v)
    } else {
        Maximum::Inclusive(v)
    }
}
/// The reference: how a limit of kind `ea` at `a` stands to one of kind `eb` at `b`.
fn lower<T: Num>(ea: bool, a: T, eb: bool, b: T) -> Option<Ordering> {
    let same = ea == eb;
    if a < b {
        if same || !ea {
            Some(Less)
        } else {
            None
        }
    } else if a > b {
        if same || ea {
            Some(Greater)
        } else {
            None
        }
    } else if a == b {
        Some(if same {
            Equal
        } else if ea {
            Greater
        } else {
            Less
        })
    } else {
        None
    }
}
fn upper<T: Num>(ea: bool, a: T, eb: bool, b: T) -> Option<Ordering> {
    // an exclusive upper limit stands below the inclusive one
    lower(!ea, a, !eb, b)
}
fn cross<T: Num>(ea: bool, a: T, eb: bool, b: T) -> Option<Ordering> {
    let same = ea == eb;
    if a < b {
        if same {
            Some(Less)
        } else {
            None
        }
    } else if a > b {
        Some(Greater)
    } else if a == b {
        Some(if same { Equal } else { Greater })
    } else {
        None
    }
}
fn pairs<T: Num>() {
    let (a, b) = (T::any(), T::any());
    let (ea, eb) = (flag(), flag());
    let ab = mn(ea, a).partial_cmp(&mn(eb, b));
    check(ab == lower(ea, a, eb, b), "lower limits compare as specified");
    check(mn(eb, b).partial_cmp(&mn(ea, a)) == ab.map(Ordering::reverse), "lower limits: swapping reverses");
    check((mn(ea, a) == mn(eb, b)) == (ab == Some(Equal)), "lower limits: equality agrees with the order");
    check((mn(ea, a) < mn(eb, b)) == (ab == Some(Less)), "lower limits: < agrees");
    check((mn(ea, a) >= mn(eb, b)) == (ab == Some(Greater) || ab == Some(Equal)), "lower limits: >= agrees");
    let xy = mx(ea, a).partial_cmp(&mx(eb, b));
    check(xy == upper(ea, a, eb, b), "upper limits compare as specified");
    check(mx(eb, b).partial_cmp(&mx(ea, a)) == xy.map(Ordering::reverse), "upper limits: swapping reverses");
    check((mx(ea, a) == mx(eb, b)) == (xy == Some(Equal)), "upper limits: equality agrees with the order");
    check((mx(ea, a) > mx(eb, b)) == (xy == Some(Greater)), "upper limits: > agrees");
    check((mx(ea, a) <= mx(eb, b)) == (xy == Some(Less) || xy == Some(Equal)), "upper limits: <= agrees");
    let c = mn(ea, a).partial_cmp(&mx(eb, b));
    check(c == cross(ea, a, eb, b), "a lower and an upper limit compare as specified");
    check(mx(eb, b).partial_cmp(&mn(ea, a)) == c.map(Ordering::reverse), "lower against upper: swapping reverses");
    check((mn(ea, a) == mx(eb, b)) == (c == Some(Equal)), "lower against upper: equality agrees");
    check((mx(eb, b) == mn(ea, a)) == (c == Some(Equal)), "upper against lower: equality agrees");
    obs(code(ab));
    obs(code(xy));
    obs(code(c));
    if ab.is_some() {
        cover("ordered");
    } else {
        cover("unordered");
    }
}
fn triples<T: Num>() {
    let (a, b, c) = (T::any(), T::any(), T::any());
    let (ea, eb, ec) = (flag(), flag(), flag());
    let (x, y, z) = (mn(ea, a), mn(eb, b), mn(ec, c));
    if x < y && y < z {
        cover("chain of lower limits");
        check(x < z, "lower limits: < is transitive");
    }
    if x == y && y == z {
        check(x == z, "lower limits: == is transitive");
    }
    if x == y && y < z {
        check(x < z, "lower limits: == and < compose");
    }
    let (x, y, z) = (mx(ea, a), mx(eb, b), mx(ec, c));
    if x < y && y < z {
        cover("chain of upper limits");
        check(x < z, "upper limits: < is transitive");
    }
    if x == y && y < z {
        check(x < z, "upper limits: == and < compose");
    }
}
#[no_mangle]
pub extern "C" fn p15_pairs() {
    match param(0) {
        0 => pairs::<i64>(),
        1 => pairs::<f64>(),
        _ => pairs::<u8>(),
    }
}
#[no_mangle]
pub extern "C" fn p15_triples() {
    match param(0) {
        0 => triples::<i64>(),
        1 => triples::<f64>(),
        _ => triples::<u8>(),
    }
}
#[no_mangle]
pub extern "C" fn p15_nan() {
    let e = flag();
    let a = any_f64();
    let b = f32::from_bits(any_u32());
    check(mn(e, a).is_nan() == (a != a), "lower limit f64: NaN is told");
    check(mx(e, a).is_nan() == (a != a), "upper limit f64: NaN is told");
    check(mn(e, b).is_nan() == (b != b), "lower limit f32: NaN is told");
    check(mx(e, b).is_nan() == (b != b), "upper limit f32: NaN is told");
    cover(if a != a { "nan" } else { "number" });
    obs((a != a) as u64);
}
