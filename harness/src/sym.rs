//! What a harness entry asks of its surroundings. Under the symbolic executor the `sym_*`
//! functions introduce symbolic variables, path constraints and solver queries; under the native
//! runner they replay the values the solver found.
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_fork(x: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_obs(x: u64);
        pub fn sym_is_replay() -> u64;
    }
}

pub fn any_u8() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { raw::sym_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { raw::sym_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { raw::sym_u64() }
}
pub fn any_i64() -> i64 {
    any_u64() as i64
}
/// Any double, NaN and infinities included.
pub fn any_f64() -> f64 {
    f64::from_bits(any_u64())
}
/// Any finite double.
pub fn finite_f64() -> f64 {
    let b = any_u64();
    assume((b >> 52) & 0x7ff != 0x7ff);
    f64::from_bits(b)
}
/// A boolean left symbolic.
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
/// A number below `n`, one path for each value.
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let v = any_u16() as u64;
    assume(v < n as u64);
    unsafe { raw::sym_fork(v) as usize }
}
/// A boolean, one path for each value.
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn param(i: u64) -> usize {
    unsafe { raw::sym_param(i) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { raw::sym_assert(c, label.as_ptr(), label.len()) }
}
pub fn cover(label: &str) {
    unsafe { raw::sym_cover(label.as_ptr(), label.len()) }
}
pub fn obs(x: u64) {
    unsafe { raw::sym_obs(x) }
}
/// Put the value on the record that is compared between the symbolic and the native run.
pub fn obs_str(s: &str) {
    obs(s.len() as u64);
    for &b in s.as_bytes() {
        obs(b as u64);
    }
}
pub fn replaying() -> bool {
    unsafe { raw::sym_is_replay() != 0 }
}

/// A string of `n` symbolic ASCII bytes (control characters, quotes and backslashes included).
pub fn any_str(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_u8() & 0x7f);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of one two-byte symbol (U+0080 to U+07FF) and one ASCII byte.
pub fn any_wide() -> String {
    let a = any_u8();
    let b = any_u8();
    let c = any_u8();
    assume(a >= 0xc2 && a <= 0xdf);
    let v = vec![a, 0x80 | (b & 0x3f), c & 0x7f];
    unsafe { String::from_utf8_unchecked(v) }
}
/// A symbolic string of a handful of printable letters: for names that become keys.
pub fn any_name(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = any_u8();
        assume(b >= b'a' && b <= b'z');
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// What texts are made of (the seventh parameter of an entry).
/// 0: one ASCII symbol; 1: nothing; 2: a symbol of two bytes and an ASCII one; 3: three ASCII
/// symbols; 4: a long text with an ASCII symbol at its end, and longer lists; 5: an ASCII symbol
/// before a symbol of four bytes; 6 to 26: two ASCII symbols fewer than that; 27: one ASCII symbol,
/// and every list and map is empty; 28 and 29: nothing and one ASCII symbol in turn, and lists of
/// one more member; 30: one of a few odd texts.
pub fn flavour() -> usize {
    param(6)
}
/// A text as the flavour says.
pub fn text() -> String {
    match flavour() {
        1 => String::new(),
        2 => any_wide(),
        3 => any_str(3),
        4 => LONG.to_string() + &any_str(1),
        5 => any_str(1) + "\u{1f980}",
        0 | 27 => any_str(1),
        28 | 29 => {
            let n = TURN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + flavour();
            any_str(n % 2)
        }
        30 => odd_text(),
        n => any_str(n - 2),
    }
}
static TURN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// One of a few odd texts, one path for each.
pub fn odd_text() -> String {
    ["", " ", "a", "A ", "\u{e0}"][pick(5)].to_string()
}
/// A name: letters as the flavour says.
pub fn name() -> String {
    match flavour() {
        0 => any_name(1 + pick(2)),
        30 => odd_text(),
        n => any_name(n),
    }
}
pub const LONG: &str = "a text that is longer than most others, with \"quotes\", back\\slashes, tabs\t and caf\u{e9}s, so that it does not fit in any small buffer anywhere, ends in ";
/// How many members a list of `n` has: more where long texts are asked for.
pub fn scale(n: usize) -> usize {
    match flavour() {
        4 if n > 0 => n + 3,
        28 | 29 if n > 0 => n + 1,
        27 => 0,
        _ => n,
    }
}
/// A list or map of given members, none where empty ones are asked for.
pub fn members<T>(v: Vec<T>) -> Vec<T> {
    if flavour() == 27 {
        vec![]
    } else {
        v
    }
}
/// Whether every subset is wanted (the eighth parameter of an entry).
pub fn full() -> bool {
    param(7) == 1
}
/// A subset of `n` members: with at most four members, or where every subset is wanted, any;
/// otherwise none, all, every one and every two of them, all but one and all but
/// two, one path for each.
pub fn subset(n: usize) -> u64 {
    let all = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
    if n <= 4 || (full() && n <= 13) {
        return pick(1 << n) as u64;
    }
    if flavour() != 0 {
        return subset1(n);
    }
    let pairs = n * (n - 1) / 2;
    let k = pick(2 * (1 + n + pairs));
    let (flip, k) = (k & 1 == 1, k >> 1);
    let m = if k == 0 {
        0
    } else if k <= n {
        1 << (k - 1)
    } else {
        let mut r = k - n - 1;
        let mut i = 0;
        while r >= n - 1 - i {
            r -= n - 1 - i;
            i += 1;
        }
        (1 << i) | (1 << (i + 1 + r))
    };
    if flip {
        all & !m
    } else {
        m
    }
}
/// As `subset`, without the pairs.
pub fn subset1(n: usize) -> u64 {
    let all = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
    let k = pick(2 * (1 + n));
    let m = if k >> 1 == 0 { 0 } else { 1 << ((k >> 1) - 1) };
    if k & 1 == 1 {
        all & !m
    } else {
        m
    }
}
pub fn has(m: u64, i: usize) -> bool {
    m >> i & 1 == 1
}

/// What the executor uses in place of the constructors of `serde_json::Error`: the error is real,
/// its message is fixed (message texts are outside every property).
pub struct StubMsg;
impl std::fmt::Display for StubMsg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
#[no_mangle]
pub extern "C" fn sym_json_error() -> *const u8 {
    let e: serde_json::Error = serde::de::Error::custom(StubMsg);
    unsafe { std::mem::transmute(e) }
}
