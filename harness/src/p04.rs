//! A form carries only operations that belong where it stands.
use crate::{ast::*, dress, gen::OPS, p02::*, sym::*};
use wot_td::builder::{Error, FormContext};
use wot_td::thing::*;

fn context(p: usize) -> FormContext {
    match p {
        0 => FormContext::Thing,
        1 | 4 => FormContext::Property,
        2 | 5 => FormContext::Action,
        _ => FormContext::Event,
    }
}
/// Which operations belong: by their place in the vocabulary.
fn belongs(p: usize, o: usize) -> bool {
    match p {
        0 => o >= 9,
        1 | 4 => o < 4,
        2 | 5 => (4..7).contains(&o),
        _ => (7..9).contains(&o),
    }
}
fn faults(p: usize, ops: &[usize]) -> Vec<Error> {
    let mut v: Vec<Error> = ops.iter().filter(|o| !belongs(p, **o)).map(|o| Error::InvalidOpInForm { context: context(p), operation: OPS[*o].0 }).collect();
    if p == 0 && ops.is_empty() {
        v.push(Error::MissingOpInForm);
    }
    v
}
fn form(p: usize, ops: &[usize]) -> Fm {
    Fm { op: ops.iter().map(|o| OPS[*o].0).collect(), ..form_at(p) }
}
fn judged(t: &Th, f: &[Error]) -> Option<Thing<wot_td::hlist::Nil>> {
    judge(build(t), f, "a form whose operations all belong is not refused", "a form with an operation that does not belong, or a form of the Thing with none, is refused", "the error names the context and a wrong operation")
}
fn kept(f: &Form<wot_td::hlist::Nil>, ops: &[usize]) {
    match &f.op {
        DefaultedFormOperations::Default => check(ops.is_empty(), "operations that are given are kept"),
        DefaultedFormOperations::Custom(v) => {
            let mut same = v.len() == ops.len() && !ops.is_empty();
            for i in 0..v.len().min(ops.len()) {
                same &= v[i] as u8 == OPS[ops[i]].0 as u8;
            }
            check(same, "operations are kept in order");
        }
    }
}
/// Up to two operations, and a third where asked for.
#[no_mangle]
pub extern "C" fn p04_ops() {
    let p = param(0);
    let n = param(1);
    let ops: Vec<usize> = (0..n).map(|_| pick(18)).collect();
    let mut t = Th { title: "t".into(), ..Default::default() };
    put_forms(&mut t, p, vec![form(p, &ops)]);
    if let Some(r) = judged(&t, &faults(p, &ops)) {
        kept(&forms_of(&r, p)[0], &ops);
    }
}
/// A fine operation of each place.
fn fine(p: usize) -> usize {
    match p {
        0 => 9 + pick(9),
        1 | 4 => pick(4),
        2 | 5 => 4 + pick(3),
        _ => 7 + pick(2),
    }
}
/// The second of two forms of the same place; with a form at another place besides.
#[no_mangle]
pub extern "C" fn p04_second() {
    let p = param(0);
    let (a, b) = (fine(p), pick(18));
    let (x, y) = if flag() { (vec![a], vec![b]) } else { (vec![b], vec![a]) };
    let mut t = Th { title: "t".into(), ..Default::default() };
    put_forms(&mut t, p, vec![form(p, &x), form(p, &y)]);
    let q = [1, 2, 3, 0, 2, 3, 1][p];
    let mut f = faults(p, &[b]);
    let c = pick(18);
    put_forms(&mut t, q, vec![form(q, &[c])]);
    f.extend(faults(q, &[c]));
    if let Some(r) = judged(&t, &f) {
        kept(&forms_of(&r, p)[0], &x);
        kept(&forms_of(&r, p)[1], &y);
        kept(&forms_of(&r, q)[0], &[c]);
    }
}
/// Four fine operations with one of any kind among them.
#[no_mangle]
pub extern "C" fn p04_among() {
    let p = param(0);
    let mut ops = vec![[9, 0, 4, 7][p], [17, 3, 6, 8][p], [16, 1, 5, 7][p]];
    ops.insert(pick(4), pick(18));
    let mut t = Th { title: "t".into(), ..Default::default() };
    put_forms(&mut t, p, vec![form(p, &ops)]);
    if let Some(r) = judged(&t, &faults(p, &ops)) {
        kept(&forms_of(&r, p)[0], &ops);
    }
}
/// In Things that have other parts and members: one operation of any kind, alone or after one that
/// belongs.
#[no_mangle]
pub extern "C" fn p04_dressed() {
    let p = param(0);
    let mut ops = vec![pick(18)];
    if flag() {
        ops.insert(0, [9, 0, 4, 7, 0, 4, 7][p]);
    }
    let mut t = Th { title: "t".into(), ..Default::default() };
    put_forms(&mut t, p, vec![form(p, &ops)]);
    dress::surround(&mut t);
    judged(&t, &faults(p, &ops));
}
/// A form of the Thing without operations.
#[no_mangle]
pub extern "C" fn p04_none() {
    let mut t = Th { title: "t".into(), ..Default::default() };
    let mut f = form(0, &[]);
    f.late = flag();
    t.forms.push(f);
    let m = dress::dressing();
    dress::dress(&mut t, m);
    judged(&t, if has(m, 12) { &[] } else { &[Error::MissingOpInForm] });
}
