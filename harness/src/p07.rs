//! Sizes are accepted on icon links only; links keep what they are given.
use crate::{ast::*, dress, gen::*, sym::{any_str, text, any_u8, check, flag, has, param, pick, subset}};
use wot_td::builder::Error;

fn link(m: u64, rel: Option<String>) -> Lk {
    let o = |i: usize| if has(m, i) { Some(text()) } else { None };
    Lk {
        href: text(),
        ty: o(0),
        rel,
        anchor: o(1),
        sizes: o(2),
        hreflang: if has(m, 3) { langs() } else { vec![] },
        late: has(m, 4),
        plain: false,
    }
}
/// Languages, some of them given more than once; parameter 1 chooses the list.
fn langs() -> Vec<String> {
    let l: &[&str] = [&["en", "de-CH"][..], &["it", "it"], &["en", "it", "en"], &["en", "en-GB", "en-US", "en"]][param(1)];
    l.iter().map(|s| s.to_string()).collect()
}
fn verdict(t: &Th) {
    let f: Vec<Error> = t
        .links
        .iter()
        .filter(|l| l.sizes.is_some() && !l.rel.as_ref().map_or(false, |r| r == "icon"))
        .map(|_| Error::SizesWithRelNotIcon)
        .collect();
    if let Some(r) = judge(build(t), &f, "a link is refused for sizes only, and not on icons", "sizes on a link that is no icon are refused", "the error says so") {
        let got = r.links.unwrap_or_default();
        check(got.len() == t.links.len(), "all links are there");
        for (g, l) in got.iter().zip(&t.links) {
            check(g.same(&v_link(l)), "a link has what it was given, in order");
        }
    }
}
/// One link with a relation of up to six symbols.
#[no_mangle]
pub extern "C" fn p07_link() {
    let n = param(0);
    let rel = if n == 7 { None } else { Some(any_str(n)) };
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.links.push(link(pick(32) as u64, rel));
    verdict(&t);
}
/// Relations close to `icon`, and lists of them.
#[no_mangle]
pub extern "C" fn p07_close() {
    const R: [&str; 12] = ["icon", "Icon", "ICON", " icon", "icon ", "icons", "ico", "", "icon icon", "shortcut icon", "icon\0", "stylesheet"];
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.links.push(link(pick(32) as u64, Some(R[pick(12)].to_string())));
    verdict(&t);
}
/// Up to three links.
#[no_mangle]
pub extern "C" fn p07_links() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    for _ in 0..param(0) {
        let l = match pick(5) {
            0 => Lk { href: text(), plain: true, ..Default::default() },
            1 => link(0b00100, Some("icon".into())),
            2 => link(0b10111, Some(any_str(4))),
            3 => link(0b01011, None),
            _ => link(0b00100, None),
        };
        t.links.push(l);
    }
    verdict(&t);
}
/// In Things that have other parts and members.
#[no_mangle]
pub extern "C" fn p07_dressed() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    t.links.push(link(0b00100 | (pick(2) * 0b11011) as u64, match pick(3) {
        0 => None,
        1 => Some(any_str(4)),
        _ => Some("icon icon".into()),
    }));
    dress::surround(&mut t);
    verdict(&t);
}
