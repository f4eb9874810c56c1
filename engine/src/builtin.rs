use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

type R<X> = Result<X, Stop>;

impl Exec {
    fn cond_e(&mut self, v: &V, t: T) -> E {
        let w = self.md.bits(t) as u16;
        let e = self.to_e(v, w);
        let z = self.ar.c(0, w);
        let q = self.ar.eq(e, z);
        self.ar.not(q)
    }
    fn label(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut b = vec![];
        for i in 0..n {
            match st.mem.read(&mut self.ar, p + i, 1) {
                Some(RV::C(k)) => b.push(k as u8),
                _ => b.push(b'?'),
            }
        }
        String::from_utf8_lossy(&b).into_owned()
    }
    fn new_var(&mut self, st: &mut State, w: u16) -> V {
        let i = st.nvars;
        st.nvars += 1;
        if let Some(c) = &self.opts.conc {
            let k = c.get(i as usize).copied().unwrap_or(0);
            let m = Rc::make_mut(&mut st.model);
            if m.len() <= i as usize {
                m.resize(i as usize + 1, 0);
            }
            m[i as usize] = k;
            return V::I(k & (m_(w)));
        }
        if i as usize >= MASKW * 64 {
            eprintln!("too many symbolic variables");
            std::process::exit(2);
        }
        V::E(self.ar.var(i, w))
    }
    pub fn builtin(&mut self, st: &mut State, k: Ik, fid: u32, a: &[V], t0: Option<T>, ret: T) -> R<V> {
        let w0 = t0.map(|t| self.md.bits(t) as u16).unwrap_or(0);
        Ok(match k {
            Ik::None | Ik::JsonErr => unreachable!(),
            Ik::Panic => {
                let f = &self.md.funcs[fid as usize];
                let name = if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() };
                let mut msg = name.clone();
                // trailing &Location argument
                if let Some(V::I(p)) = a.last() {
                    if let (Some(RV::C(sp)), Some(RV::C(sl)), Some(RV::C(ln))) =
                        (st.mem.read(&mut self.ar, *p, 8), st.mem.read(&mut self.ar, p.wrapping_add(8), 8), st.mem.read(&mut self.ar, p.wrapping_add(16), 4))
                    {
                        if sl < 400 && st.mem.check(sp as u64, sl as u64) {
                            let s = self.label(st, sp as u64, (sl as u64).saturating_sub(1));
                            if s.contains("rs") || s.contains('/') {
                                msg = format!("{} ({}:{})", name, s, ln);
                            }
                        }
                    }
                }
                return Err(Stop::End(End::Panic(msg)));
            }
            Ik::AbortK => return Err(Stop::End(End::Panic(format!("abort via {}", self.md.funcs[fid as usize].name)))),
            Ik::Malloc => {
                let n = self.conc(st, &a[0])?;
                if n >= 1 << (OBJ_SHIFT - 1) {
                    return Ok(V::I(0));
                }
                let id = st.mem.alloc(n.max(1), true);
                V::I(obj_addr(id as u64))
            }
            Ik::Calloc => {
                let n = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = n.saturating_mul(s);
                if n >= 1 << (OBJ_SHIFT - 1) {
                    return Ok(V::I(0));
                }
                let id = st.mem.alloc(n.max(1), true);
                V::I(obj_addr(id as u64))
            }
            Ik::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n >= 1 << (OBJ_SHIFT - 1) {
                    return Ok(V::I(0));
                }
                let id = st.mem.alloc(n.max(1), true);
                let na = obj_addr(id as u64);
                let (oid, off) = Mem::split(p);
                let osz = match st.mem.get(oid) {
                    Some(o) if off == 0 => o.data.len() as u64,
                    _ => return self.crash(st, "realloc of invalid pointer"),
                };
                st.mem.copy(na, p, osz.min(n));
                st.mem.release(oid);
                V::I(na)
            }
            Ik::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    let (oid, off) = Mem::split(p);
                    match st.mem.get(oid) {
                        Some(o) if off == 0 && o.heap => {}
                        _ => return self.crash(st, "free of invalid pointer"),
                    }
                    st.mem.release(oid);
                }
                V::I(0)
            }
            Ik::PosixMemalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let id = st.mem.alloc(n.max(1), true);
                st.mem.write_c(p, 8, obj_addr(id as u64) as u128);
                V::I(0)
            }
            Ik::Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                if !st.mem.copy(d, s, n) {
                    return self.crash(st, &format!("invalid memcpy {:#x} <- {:#x} ({})", d, s, n));
                }
                a[0].clone()
            }
            Ik::Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                match &a[1] {
                    V::E(e) => {
                        let e = self.ar.extract(*e, 0, 8);
                        for i in 0..n {
                            if !st.mem.write_e(&mut self.ar, d + i, 1, e) {
                                return self.crash(st, "invalid memset");
                            }
                        }
                    }
                    V::I(k) => {
                        if !st.mem.set(d, *k as u8, n) {
                            return self.crash(st, "invalid memset");
                        }
                    }
                    _ => panic!(),
                }
                a[0].clone()
            }
            Ik::Memcmp => {
                let x = self.conc(st, &a[0])?;
                let y = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let mut r = self.ar.c(0, 32);
                let lo = self.ar.c(0xffff_ffff, 32);
                let hi = self.ar.c(1, 32);
                let eqonly = self.md.funcs[fid as usize].name == "bcmp";
                for i in (0..n).rev() {
                    let (p, q) = match (st.mem.byte(&mut self.ar, x + i), st.mem.byte(&mut self.ar, y + i)) {
                        (Some(p), Some(q)) => (p, q),
                        _ => return self.crash(st, "invalid memcmp"),
                    };
                    let e = self.ar.eq(p, q);
                    if eqonly {
                        r = self.ar.ite(e, r, hi);
                    } else {
                        let l = self.ar.bin(Op::Ult, p, q);
                        let d = self.ar.ite(l, lo, hi);
                        r = self.ar.ite(e, r, d);
                    }
                }
                self.from_e(r)
            }
            Ik::Strlen => {
                let x = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match st.mem.read(&mut self.ar, x + n, 1) {
                        Some(RV::C(0)) => break,
                        Some(_) => n += 1,
                        None => return self.crash(st, "strlen"),
                    }
                }
                V::I(n)
            }
            Ik::HashOne => {
                self.rep.hash_calls += 1;
                V::I(0x9e37_79b9_7f4a_7c15)
            }
            Ik::Getrandom => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                st.mem.set(d, 0, n);
                V::I(n)
            }
            Ik::Zero | Ik::Noop => self.md.zero(ret),
            Ik::Errno => {
                let id = st.mem.alloc(4, true);
                V::I(obj_addr(id as u64))
            }
            Ik::SymU8 => self.new_var(st, 8),
            Ik::SymU16 => self.new_var(st, 16),
            Ik::SymU32 => self.new_var(st, 32),
            Ik::SymU64 => self.new_var(st, 64),
            Ik::SymParam => {
                let i = self.conc(st, &a[0])?;
                V::I(self.opts.params.get(i as usize).copied().unwrap_or(0))
            }
            Ik::SymFork => V::I(self.conc(st, &a[0])?),
            Ik::SymIsReplay => V::I(0),
            Ik::SymAssume => {
                let c = self.cond_e(&a[0], t0.unwrap());
                match self.ar.as_const(c) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::End(End::Assume)),
                    None => {
                        let pc = st.pc.clone();
                        let holds = self.ar.eval(c, &st.model) != 0;
                        if !holds {
                            match self.sv.sat(&mut self.ar, &pc, c, false) {
                                None => return Err(Stop::End(End::Assume)),
                                Some(md) => Self::apply(st, &md),
                            }
                        }
                        let nc = self.ar.not(c);
                        let mut l = (*pc).clone();
                        l.push(nc);
                        self.leaf(Rc::new(l));
                        Self::add_pc(&mut self.ar, st, c);
                    }
                }
                V::I(0)
            }
            Ik::SymAssert => {
                let c = self.cond_e(&a[0], t0.unwrap());
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let lab = self.label(st, p, n);
                self.rep.asserts += 1;
                st.asserts += 1;
                *self.rep.labels.entry(lab.clone()).or_insert(0) += 1;
                match self.ar.as_const(c) {
                    Some(1) => {}
                    Some(_) => {
                        let v = self.values_of(st);
                        self.violation(st, lab, v);
                        return Err(Stop::End(End::Fail));
                    }
                    None => {
                        let nc = self.ar.not(c);
                        let pc = st.pc.clone();
                        self.rep.assert_queries += 1;
                        if let Some(md) = self.sv.sat(&mut self.ar, &pc, nc, true) {
                            let mut s2 = st.clone();
                            Self::apply(&mut s2, &md);
                            let v = self.values_of(&s2);
                            self.violation(st, lab, v);
                            match self.sv.sat(&mut self.ar, &pc, c, false) {
                                None => return Err(Stop::End(End::Fail)),
                                Some(md) => {
                                    Self::apply(st, &md);
                                    let mut l = (*pc).clone();
                                    l.push(nc);
                                    self.leaf(Rc::new(l));
                                    Self::add_pc(&mut self.ar, st, c);
                                }
                            }
                        }
                    }
                }
                V::I(0)
            }
            Ik::SymCover => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let lab = self.label(st, p, n);
                Rc::make_mut(&mut st.covers).push(lab);
                V::I(0)
            }
            Ik::SymObs => {
                match &a[0] {
                    V::I(k) => Rc::make_mut(&mut st.obs).push((u32::MAX, *k)),
                    V::E(e) => Rc::make_mut(&mut st.obs).push((*e, 0)),
                    _ => panic!(),
                }
                V::I(0)
            }
            Ik::UMin | Ik::UMax | Ik::SMin | Ik::SMax => {
                let p = match k {
                    Ik::UMin => IP::Ult,
                    Ik::UMax => IP::Ugt,
                    Ik::SMin => IP::Slt,
                    _ => IP::Sgt,
                };
                self.map2(t0.unwrap(), &a[0], &a[1], &mut |me, t, x, y| {
                    let w = me.md.bits(t) as u16;
                    Ok(match me.icmp(p, w, x, y) {
                        V::I(1) => x.clone(),
                        V::I(_) => y.clone(),
                        V::E(c) => me.vite(t, c, x, y),
                        _ => panic!(),
                    })
                })?
            }
            Ik::UAddO | Ik::USubO | Ik::UMulO | Ik::SAddO | Ik::SSubO | Ik::SMulO => {
                let x = self.to_e(&a[0], w0);
                let y = self.to_e(&a[1], w0);
                let ar = &mut self.ar;
                let (r, o) = match k {
                    Ik::UAddO => {
                        let r = ar.bin(Op::Add, x, y);
                        let o = ar.bin(Op::Ult, r, x);
                        (r, o)
                    }
                    Ik::USubO => {
                        let r = ar.bin(Op::Sub, x, y);
                        let o = ar.bin(Op::Ult, x, y);
                        (r, o)
                    }
                    Ik::SAddO | Ik::SSubO => {
                        let op = if k == Ik::SAddO { Op::Add } else { Op::Sub };
                        let r = ar.bin(op, x, y);
                        let sx_ = ar.extract(x, w0 - 1, 1);
                        let sy = ar.extract(y, w0 - 1, 1);
                        let sr = ar.extract(r, w0 - 1, 1);
                        let xr = ar.bin(Op::Xor, sx_, sr);
                        let xy = ar.bin(Op::Xor, sx_, sy);
                        let o = if k == Ik::SAddO {
                            let n = ar.not(xy);
                            ar.bin(Op::And, n, xr)
                        } else {
                            ar.bin(Op::And, xy, xr)
                        };
                        (r, o)
                    }
                    _ => {
                        if w0 > 64 {
                            match (ar.as_const(x), ar.as_const(y)) {
                                (Some(p), Some(q)) => {
                                    let (r, o) = if k == Ik::UMulO {
                                        p.overflowing_mul(q)
                                    } else {
                                        let (r, o) = (p as i128).overflowing_mul(q as i128);
                                        (r as u128, o)
                                    };
                                    (ar.c(r, w0), ar.c(o as u128, 1))
                                }
                                _ => return self.unsup(st, "symbolic 128-bit multiply with overflow"),
                            }
                        } else {
                            let r = ar.bin(Op::Mul, x, y);
                            let (p, q) = if k == Ik::UMulO { (ar.zext(x, 2 * w0), ar.zext(y, 2 * w0)) } else { (ar.sext(x, 2 * w0), ar.sext(y, 2 * w0)) };
                            let f = ar.bin(Op::Mul, p, q);
                            let rr = if k == Ik::UMulO { ar.zext(r, 2 * w0) } else { ar.sext(r, 2 * w0) };
                            let e = ar.eq(f, rr);
                            (r, ar.not(e))
                        }
                    }
                };
                V::A(Rc::new(vec![self.from_e(r), self.from_e(o)]))
            }
            Ik::USubSat | Ik::UAddSat => self.map2(t0.unwrap(), &a[0], &a[1], &mut |me, t, x, y| {
                let w = me.md.bits(t) as u16;
                let (p, q) = (me.to_e(x, w), me.to_e(y, w));
                let r = if k == Ik::USubSat {
                    let d = me.ar.bin(Op::Sub, p, q);
                    let c = me.ar.bin(Op::Ult, p, q);
                    let z = me.ar.c(0, w);
                    me.ar.ite(c, z, d)
                } else {
                    let d = me.ar.bin(Op::Add, p, q);
                    let c = me.ar.bin(Op::Ult, d, p);
                    let z = me.ar.c(m(w), w);
                    me.ar.ite(c, z, d)
                };
                Ok(me.from_e(r))
            })?,
            Ik::SSubSat | Ik::SAddSat => match (&a[0], &a[1]) {
                (V::I(x), V::I(y)) if w0 <= 64 => {
                    let (x, y) = (sx(*x as u128, w0), sx(*y as u128, w0));
                    let r = if k == Ik::SSubSat { x - y } else { x + y };
                    let hi = (m(w0) >> 1) as i128;
                    V::I(r.clamp(-hi - 1, hi) as u64 & m_(w0))
                }
                (V::A(_), _) | (V::B(_), _) => return self.unsup(st, "signed saturating op on these"),
                (x, y) => {
                    // one bit wider, then clamped
                    let (p, q) = (self.to_e(x, w0), self.to_e(y, w0));
                    let (p, q) = (self.ar.sext(p, w0 + 1), self.ar.sext(q, w0 + 1));
                    let r = self.ar.bin(if k == Ik::SSubSat { Op::Sub } else { Op::Add }, p, q);
                    let hi = self.ar.c(m(w0) >> 1, w0 + 1);
                    let lo = self.ar.c(m(w0 + 1) & !(m(w0) >> 1), w0 + 1);
                    let over = self.ar.bin(Op::Slt, hi, r);
                    let under = self.ar.bin(Op::Slt, r, lo);
                    let r = self.ar.ite(over, hi, r);
                    let r = self.ar.ite(under, lo, r);
                    let r = self.ar.extract(r, 0, w0);
                    self.from_e(r)
                }
            },
            Ik::Ctpop => {
                let x = self.to_e(&a[0], w0);
                let mut r = self.ar.c(0, w0);
                for i in 0..w0 {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w0);
                    r = self.ar.bin(Op::Add, r, b);
                }
                self.from_e(r)
            }
            Ik::Ctlz | Ik::Cttz => {
                if let (V::I(x), true) = (&a[0], w0 <= 64) {
                    let x = *x;
                    let r = if x == 0 {
                        w0 as u64
                    } else if k == Ik::Ctlz {
                        x.leading_zeros() as u64 - (64 - w0 as u64)
                    } else {
                        x.trailing_zeros() as u64
                    };
                    V::I(r)
                } else {
                    let x = self.to_e(&a[0], w0);
                    let mut r = self.ar.c(w0 as u128, w0);
                    for j in 0..w0 {
                        // last assignment wins: for ctlz the highest set bit
                        let i = if k == Ik::Ctlz { j } else { w0 - 1 - j };
                        let b = self.ar.extract(x, i, 1);
                        let v = if k == Ik::Ctlz { w0 - 1 - i } else { i };
                        let c = self.ar.c(v as u128, w0);
                        r = self.ar.ite(b, c, r);
                    }
                    self.from_e(r)
                }
            }
            Ik::Bswap => {
                let x = self.to_e(&a[0], w0);
                let n = w0 / 8;
                let mut r = self.ar.extract(x, 0, 8);
                for i in 1..n {
                    let b = self.ar.extract(x, i * 8, 8);
                    r = self.ar.concat(r, b);
                }
                self.from_e(r)
            }
            Ik::Bitrev => {
                let x = self.to_e(&a[0], w0);
                let mut r = self.ar.extract(x, 0, 1);
                for i in 1..w0 {
                    let b = self.ar.extract(x, i, 1);
                    r = self.ar.concat(r, b);
                }
                self.from_e(r)
            }
            Ik::Fshl | Ik::Fshr => {
                let s = self.conc(st, &a[2])? % w0 as u64;
                let x = self.to_e(&a[0], w0);
                let y = self.to_e(&a[1], w0);
                let s = if k == Ik::Fshl { s } else { (w0 as u64 - s) % w0 as u64 };
                // fshl by s: high w bits of (x:y) << s ; fshr by s' = fshl by w-s' (s'=0 -> y)
                let r = if s == 0 {
                    if k == Ik::Fshl { x } else { y }
                } else {
                    let c1 = self.ar.c(s as u128, w0);
                    let c2 = self.ar.c((w0 as u64 - s) as u128, w0);
                    let p = self.ar.bin(Op::Shl, x, c1);
                    let q = self.ar.bin(Op::LShr, y, c2);
                    self.ar.bin(Op::Or, p, q)
                };
                self.from_e(r)
            }
            Ik::Abs => {
                let x = self.to_e(&a[0], w0);
                let z = self.ar.c(0, w0);
                let n = self.ar.bin(Op::Sub, z, x);
                let c = self.ar.bin(Op::Slt, x, z);
                let r = self.ar.ite(c, n, x);
                self.from_e(r)
            }
            Ik::Scmp | Ik::Ucmp => {
                let rw = self.md.bits(ret) as u16;
                let x = self.to_e(&a[0], w0);
                let y = self.to_e(&a[1], w0);
                let op = if k == Ik::Scmp { Op::Slt } else { Op::Ult };
                let l = self.ar.bin(op, x, y);
                let g = self.ar.bin(op, y, x);
                let (m1, z, o) = (self.ar.c(m(rw), rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let r = self.ar.ite(g, o, z);
                let r = self.ar.ite(l, m1, r);
                self.from_e(r)
            }
            Ik::IsConst => V::I(0),
            Ik::Expect | Ik::TlsAddr => a[0].clone(),
            Ik::Fabs => {
                let x = self.to_e(&a[0], w0);
                let c = self.ar.c(m(w0) >> 1, w0);
                let r = self.ar.bin(Op::And, x, c);
                self.from_e(r)
            }
            Ik::Copysign => {
                let x = self.to_e(&a[0], w0);
                let y = self.to_e(&a[1], w0);
                let l = self.ar.extract(x, 0, w0 - 1);
                let s = self.ar.extract(y, w0 - 1, 1);
                let r = self.ar.concat(s, l);
                self.from_e(r)
            }
            Ik::FptoUiSat | Ik::FptoSiSat => {
                let rw = self.md.bits(ret) as u16;
                let op = if k == Ik::FptoUiSat { Op::FPToUISat } else { Op::FPToSISat };
                match &a[0] {
                    V::I(x) => self.mkv(eval_op(op, rw, w0, *x as u128, 0, 0, 0), rw),
                    _ => return self.unsup(st, "symbolic float to int"),
                }
            }
            Ik::FFloor | Ik::FTrunc | Ik::FRound | Ik::FCeil | Ik::FSqrt => match &a[0] {
                V::I(x) if w0 == 64 => {
                    let x = f64::from_bits(*x);
                    let r = match k {
                        Ik::FFloor => x.floor(),
                        Ik::FTrunc => x.trunc(),
                        Ik::FRound => x.round(),
                        Ik::FCeil => x.ceil(),
                        _ => x.sqrt(),
                    };
                    V::I(r.to_bits())
                }
                _ => return self.unsup(st, "symbolic float rounding"),
            },
            Ik::VReduceOr | Ik::VReduceAnd => {
                let (_, et) = self.lanes(t0.unwrap()).unwrap();
                let w = self.md.bits(et) as u16;
                if let V::A(v) = &a[0] {
                    let mut r = self.to_e(&v[0], w);
                    for x in &v[1..] {
                        let y = self.to_e(x, w);
                        r = self.ar.bin(if k == Ik::VReduceOr { Op::Or } else { Op::And }, r, y);
                    }
                    self.from_e(r)
                } else {
                    panic!()
                }
            }
            _ => {
                let n = self.md.funcs[fid as usize].name.clone();
                return self.unsup(st, &format!("call to external {}", n));
            }
        })
    }
}
fn m_(w: u16) -> u64 {
    if w >= 64 { !0 } else { (1 << w) - 1 }
}
