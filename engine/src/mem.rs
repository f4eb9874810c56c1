//! Byte-addressed copy-on-write memory. Addresses are concrete; bytes may be symbolic.
use crate::expr::*;
use crate::ir::{ID_BASE, OBJ_SHIFT};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, E>, // 8-bit expressions overriding data
    pub ro: bool,
    pub heap: bool,
}
const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Vec<u32>,
    next: u32,
}

pub enum RV {
    C(u128),
    S(E),
}

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![], free: vec![], next: 0 }
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u32 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: BTreeMap::new(), ro: false, heap });
        self.alloc_obj(o)
    }
    pub fn alloc_obj(&mut self, o: Rc<Obj>) -> u32 {
        let id = if let Some(i) = self.free.pop() {
            i
        } else {
            let i = self.next;
            self.next += 1;
            if i as usize / CH >= self.chunks.len() {
                self.chunks.push(Rc::new(vec![None; CH]));
            }
            i
        };
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = Some(o);
        id
    }
    pub fn release(&mut self, id: u32) {
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = None;
        self.free.push(id);
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    #[inline]
    pub fn split(addr: u64) -> (u32, usize) {
        let id = (addr >> OBJ_SHIFT).wrapping_sub(ID_BASE);
        (id as u32, (addr & ((1 << OBJ_SHIFT) - 1)) as usize)
    }
    pub fn check(&self, addr: u64, n: u64) -> bool {
        let hi = addr >> OBJ_SHIFT;
        if hi < ID_BASE || hi >= ID_BASE + self.next as u64 {
            return false;
        }
        let (id, off) = Self::split(addr);
        match self.get(id) {
            Some(o) => off as u64 + n <= o.data.len() as u64,
            None => false,
        }
    }
    /// read n<=16 bytes, little endian
    pub fn read(&self, ar: &mut Arena, addr: u64, n: usize) -> Option<RV> {
        if !self.check(addr, n as u64) {
            return None;
        }
        let (id, off) = Self::split(addr);
        let o = self.get(id).unwrap();
        let has = !o.sym.is_empty() && o.sym.range(off as u32..(off + n) as u32).next().is_some();
        let d = &o.data[off..off + n];
        if !has {
            let v = match n {
                1 => d[0] as u128,
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut v = 0u128;
                    for i in (0..n).rev() {
                        v = (v << 8) | d[i] as u128
                    }
                    v
                }
            };
            return Some(RV::C(v));
        }
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = match o.sym.get(&((off + i) as u32)) {
                Some(&x) => x,
                None => ar.c(d[i] as u128, 8),
            };
            e = Some(match e {
                None => b,
                Some(l) => ar.concat(b, l),
            });
        }
        let e = e.unwrap();
        Some(match ar.as_const(e) {
            Some(k) => RV::C(k),
            None => RV::S(e),
        })
    }
    pub fn write_c(&mut self, addr: u64, n: usize, v: u128) -> bool {
        if !self.check(addr, n as u64) {
            return false;
        }
        let (id, off) = Self::split(addr);
        let o = self.get_mut(id).unwrap();
        if o.ro {
            return false;
        }
        if !o.sym.is_empty() {
            clear_sym(&mut o.sym, off, n);
        }
        let b = v.to_le_bytes();
        o.data[off..off + n].copy_from_slice(&b[..n]);
        true
    }
    pub fn write_e(&mut self, ar: &mut Arena, addr: u64, n: usize, e: E) -> bool {
        if !self.check(addr, n as u64) {
            return false;
        }
        let (id, off) = Self::split(addr);
        let o = self.get_mut(id).unwrap();
        if o.ro {
            return false;
        }
        for i in 0..n {
            let b = ar.extract(e, 8 * i as u16, 8);
            match ar.as_const(b) {
                Some(k) => {
                    o.sym.remove(&((off + i) as u32));
                    o.data[off + i] = k as u8;
                }
                None => {
                    o.sym.insert((off + i) as u32, b);
                }
            }
        }
        true
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if !self.check(dst, n) || !self.check(src, n) {
            return false;
        }
        let n = n as usize;
        let (si, so) = Self::split(src);
        let (di, d0) = Self::split(dst);
        let s = self.get(si).unwrap().clone();
        let o = self.get_mut(di).unwrap();
        if o.ro {
            return false;
        }
        if !o.sym.is_empty() {
            clear_sym(&mut o.sym, d0, n);
        }
        o.data[d0..d0 + n].copy_from_slice(&s.data[so..so + n]);
        if !s.sym.is_empty() {
            for (&k, &e) in s.sym.range(so as u32..(so + n) as u32) {
                o.sym.insert(k - so as u32 + d0 as u32, e);
            }
        }
        true
    }
    pub fn set(&mut self, dst: u64, v: u8, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if !self.check(dst, n) {
            return false;
        }
        let (di, d0) = Self::split(dst);
        let o = self.get_mut(di).unwrap();
        if !o.sym.is_empty() {
            clear_sym(&mut o.sym, d0, n as usize);
        }
        for b in &mut o.data[d0..d0 + n as usize] {
            *b = v
        }
        true
    }
    pub fn byte(&self, ar: &mut Arena, addr: u64) -> Option<E> {
        match self.read(ar, addr, 1)? {
            RV::C(k) => Some(ar.c(k, 8)),
            RV::S(e) => Some(e),
        }
    }
}

fn clear_sym(s: &mut BTreeMap<u32, E>, off: usize, n: usize) {
    let ks: Vec<u32> = s.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
    for k in ks {
        s.remove(&k);
    }
}
