use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solve::Solver;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    body: Rc<Body>,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    fobj: u32,
    dst: u32,
    nb: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    top: Frame,
    frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Rc<Vec<E>>,
    pub model: Rc<Vec<u64>>,
    pub conc: Rc<FxMap<E, u64>>,
    pub nvars: u32,
    pub obs: Rc<Vec<(E, u64)>>, // (expr or MAX, const)
    pub covers: Rc<Vec<String>>,
    pub asserts: u32,
    instrs: u64,
    fork_tag: u64,
}

pub enum Stop {
    Conc(E),
    Fork(Vec<State>), // additional states; current continues unless dead
    End(End),
}
#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assume,
    Fail,
    Panic(String),
    Unsupported(String),
    Limit(String),
}
type R<X> = Result<X, Stop>;

pub struct Violation {
    pub label: String,
    pub values: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub values: Vec<u64>,
    pub obs: Vec<u64>,
    pub covers: Vec<String>,
    pub asserts: u32,
}
#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub violations: Vec<Violation>,
    pub viol_counts: std::collections::BTreeMap<String, u64>,
    pub unsupported: Vec<String>,
    pub covers: std::collections::BTreeMap<String, u64>,
    pub labels: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub incomplete: Option<String>,
    pub cover_query: Option<bool>,
    pub hash_calls: u64,
    pub max_vars: u32,
}

pub struct Opts {
    pub params: Vec<u64>,
    pub max_paths: u64,
    pub max_time: f64,
    pub max_viol: usize,
    pub conc: Option<Vec<u64>>,
    pub nsamples: usize,
    pub trace: bool,
    pub shard: Option<(u64, u64)>,
    pub cover_leaves: usize,
    /// Hash with the compiled hasher instead of a constant.
    pub real_hash: bool,
}

pub struct Exec {
    pub md: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub opts: Opts,
    pub rep: Report,
    pub used: FxSet<u32>,
    work: Vec<State>,
    leaves: Vec<Rc<Vec<E>>>,
    leaves_over: bool,
    t0: Instant,
    sample_div: u64,
    pub prof: FxMap<u32, u64>,
}

macro_rules! kinds { ($($n:ident),* $(,)?) => { #[allow(non_camel_case_types)] #[derive(Clone,Copy,PartialEq,Eq,Debug)] #[repr(u16)] pub enum Ik { None, $($n),* }
 impl Ik { fn from(k:u16)->Ik{ const T:&[Ik]=&[Ik::None,$(Ik::$n),*]; T[k as usize] } } } }
kinds! {
    Panic, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcpy, Memset, Memcmp, Strlen, HashOne, Getrandom, Zero, Noop, AbortK,
    SymU8, SymU16, SymU32, SymU64, SymAssume, SymAssert, SymCover, SymParam, SymObs, SymFork, SymIsReplay,
    UMin, UMax, SMin, SMax, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, SSubSat, SAddSat, Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr, Abs, Scmp, Ucmp,
    IsConst, Expect, TlsAddr, Fabs, Copysign, FptoUiSat, FptoSiSat, Errno, RustAlloc, RustAllocZ, RustRealloc, RustDealloc, FFloor, FTrunc, FRound, FCeil, FSqrt, VReduceOr, VReduceAnd, JsonErr, Unsup,
}

fn classify(name: &str, pretty: &str, has_body: bool) -> Ik {
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") || p("memmove") {
            Ik::Memcpy
        } else if p("memset") {
            Ik::Memset
        } else if p("umin.") {
            Ik::UMin
        } else if p("umax.") {
            Ik::UMax
        } else if p("smin.") {
            Ik::SMin
        } else if p("smax.") {
            Ik::SMax
        } else if p("uadd.with") {
            Ik::UAddO
        } else if p("usub.with") {
            Ik::USubO
        } else if p("umul.with") {
            Ik::UMulO
        } else if p("sadd.with") {
            Ik::SAddO
        } else if p("ssub.with") {
            Ik::SSubO
        } else if p("smul.with") {
            Ik::SMulO
        } else if p("usub.sat") {
            Ik::USubSat
        } else if p("uadd.sat") {
            Ik::UAddSat
        } else if p("ssub.sat") {
            Ik::SSubSat
        } else if p("sadd.sat") {
            Ik::SAddSat
        } else if p("ctpop") {
            Ik::Ctpop
        } else if p("ctlz") {
            Ik::Ctlz
        } else if p("cttz") {
            Ik::Cttz
        } else if p("bswap") {
            Ik::Bswap
        } else if p("bitreverse") {
            Ik::Bitrev
        } else if p("fshl") {
            Ik::Fshl
        } else if p("fshr") {
            Ik::Fshr
        } else if p("abs.") {
            Ik::Abs
        } else if p("scmp") {
            Ik::Scmp
        } else if p("ucmp") {
            Ik::Ucmp
        } else if p("is.constant") {
            Ik::IsConst
        } else if p("expect") {
            Ik::Expect
        } else if p("threadlocal.address") {
            Ik::TlsAddr
        } else if p("fabs") {
            Ik::Fabs
        } else if p("copysign") {
            Ik::Copysign
        } else if p("fptoui.sat") {
            Ik::FptoUiSat
        } else if p("fptosi.sat") {
            Ik::FptoSiSat
        } else if p("floor") {
            Ik::FFloor
        } else if p("trunc.") {
            Ik::FTrunc
        } else if p("round.") {
            Ik::FRound
        } else if p("ceil") {
            Ik::FCeil
        } else if p("sqrt") {
            Ik::FSqrt
        } else if p("trap") || p("ubsantrap") {
            Ik::AbortK
        } else if p("vector.reduce.or") {
            Ik::VReduceOr
        } else if p("vector.reduce.and") {
            Ik::VReduceAnd
        } else if p("lifetime") || p("assume") || p("dbg") || p("experimental") || p("x86.sse2.pause") || p("prefetch") || p("donothing") {
            Ik::Noop
        } else {
            Ik::Unsup
        };
    }
    match name {
        "malloc" => return Ik::Malloc,
        "calloc" => return Ik::Calloc,
        "realloc" => return Ik::Realloc,
        "free" => return Ik::Free,
        "posix_memalign" => return Ik::PosixMemalign,
        "memcpy" | "memmove" => return Ik::Memcpy,
        "memset" => return Ik::Memset,
        "memcmp" | "bcmp" => return Ik::Memcmp,
        "strlen" => return Ik::Strlen,
        "getrandom" => return Ik::Getrandom,
        "abort" | "exit" | "_exit" => return Ik::AbortK,
        "__errno_location" => return Ik::Errno,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "write" | "writev" | "getenv" => {
            return Ik::Zero
        }
        "sym_u8" => return Ik::SymU8,
        "sym_u16" => return Ik::SymU16,
        "sym_u32" => return Ik::SymU32,
        "sym_u64" => return Ik::SymU64,
        "sym_assume" => return Ik::SymAssume,
        "sym_assert" => return Ik::SymAssert,
        "sym_cover" => return Ik::SymCover,
        "sym_param" => return Ik::SymParam,
        "sym_obs" => return Ik::SymObs,
        "sym_fork" => return Ik::SymFork,
        "sym_is_replay" => return Ik::SymIsReplay,
        _ => {}
    }
    if pretty.starts_with("core::panicking::") || pretty.starts_with("__rustc::rust_begin_unwind") || pretty.starts_with("std::panicking::begin_panic") || pretty.starts_with("std::panicking::panic_with_hook") {
        return Ik::Panic;
    }
    if pretty.contains("::hashmap_random_keys") {
        return Ik::Zero;
    }
    if name.contains("8hash_one") || pretty.contains("::hash_one") {
        return Ik::HashOne;
    }
    if !has_body {
        return Ik::Unsup;
    }
    // the text of a serde_json error is not modelled: the error is built with a fixed message
    if pretty.starts_with("<serde_json::error::Error as serde") && pretty.contains("::Error>::") && !pretty.contains("StubMsg") {
        return Ik::JsonErr;
    }
    Ik::None
}

fn mask64(w: u16) -> u64 {
    if w >= 64 { !0 } else { (1 << w) - 1 }
}

impl Exec {
    pub fn new(md: Module, opts: Opts) -> Self {
        Exec {
            md,
            ar: Arena::new(),
            sv: Solver::new(),
            opts,
            rep: Report::default(),
            used: FxSet::default(),
            work: vec![],
            leaves: vec![],
            leaves_over: false,
            t0: Instant::now(),
            sample_div: 1,
            prof: FxMap::default(),
        }
    }
    fn kind(&mut self, f: u32) -> Ik {
        let fu = &mut self.md.funcs[f as usize];
        if fu.kind == 0 {
            let mut k = classify(&fu.name, &fu.pretty, fu.range.is_some());
            if self.opts.real_hash && matches!(k, Ik::HashOne) {
                k = Ik::None;
            }
            fu.kind = 1 + k as u16;
        }
        Ik::from(fu.kind - 1)
    }
    pub fn run(&mut self, entry: &str) {
        self.t0 = Instant::now();
        let f = *self.md.fix.get(entry).unwrap_or_else(|| {
            eprintln!("no such harness {}", entry);
            std::process::exit(2)
        });
        let mut mem = Mem::new();
        for g in &self.md.globals {
            let mut o = Obj { data: g.data.clone(), sym: Default::default(), ro: g.constant, heap: false };
            if o.data.is_empty() {
                o.data.push(0);
            }
            mem.alloc_obj(Rc::new(o));
        }
        let body = self.md.body(f);
        self.used.insert(f);
        let mut st = State {
            top: Frame { body: body.clone(), blk: 0, ip: 0, regs: vec![V::I(0); body.nregs], fobj: u32::MAX, dst: u32::MAX, nb: None },
            frames: vec![],
            mem,
            pc: Rc::new(vec![]),
            model: Rc::new(vec![]),
            conc: Rc::new(FxMap::default()),
            nvars: 0,
            obs: Rc::new(vec![]),
            covers: Rc::new(vec![]),
            asserts: 0,
            instrs: 0,
            fork_tag: 1,
        };
        if body.frame > 0 {
            st.top.fobj = st.mem.alloc(body.frame, false);
        }
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.rep.paths >= self.opts.max_paths {
                self.rep.incomplete = Some(format!("path limit {}", self.opts.max_paths));
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.opts.max_time {
                self.rep.incomplete = Some(format!("time limit {}", self.opts.max_time));
                break;
            }
            self.run_path(st);
        }
        self.work.clear();
        if self.rep.incomplete.is_none() && self.opts.conc.is_none() && self.opts.shard.is_none() {
            self.check_cover();
        }
    }
    /// The explored path conditions (plus the regions excluded by assumptions) cover the whole input space.
    fn check_cover(&mut self) {
        if self.leaves_over || self.leaves.len() > self.opts.cover_leaves {
            return;
        }
        let mut cs = vec![];
        for l in std::mem::take(&mut self.leaves) {
            let mut e = self.ar.c(1, 1);
            for &c in l.iter() {
                e = self.ar.bin(Op::And, e, c);
            }
            cs.push(self.ar.not(e));
        }
        let r = self.sv.z3.check(&mut self.ar, &cs, &[]);
        self.rep.cover_query = Some(r.is_none());
    }
    pub fn leaf(&mut self, pc: Rc<Vec<E>>) {
        if self.leaves.len() <= self.opts.cover_leaves {
            self.leaves.push(pc);
        } else {
            self.leaves_over = true;
        }
    }

    fn run_path(&mut self, mut st: State) {
        let mut cnt = 0u64;
        loop {
            cnt += 1;
            if cnt & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.opts.max_time {
                self.rep.incomplete = Some(format!("time limit {}", self.opts.max_time));
                self.finish(st, End::Limit("time".into()));
                return;
            }
            let r = self.step_many(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::Fork(v)) => {
                    self.rep.forks += v.len() as u64;
                    self.work.extend(v);
                }
                Err(Stop::Conc(e)) => {
                    let pc = st.pc.clone();
                    match self.sv.values(&mut self.ar, &pc, e, 4096) {
                        None => {
                            let s = self.stack(&st).join(" < ");
                            self.finish(st, End::Unsupported(format!("too many values to concretise at {}", s)));
                            return;
                        }
                        Some(vs) => {
                            let w = self.ar.w(e);
                            let n = vs.len();
                            self.rep.forks += n.saturating_sub(1) as u64;
                            for v in vs.into_iter().rev() {
                                let mut s2 = st.clone();
                                let c = self.ar.c(v, w);
                                let q = self.ar.eq(e, c);
                                let md = match self.sv.sat(&mut self.ar, &pc, q, false) {
                                    Some(m) => m,
                                    None => panic!("inconsistent concretisation"),
                                };
                                Self::apply(&mut s2, &md);
                                Self::add_pc(&mut self.ar, &mut s2, q);
                                Rc::make_mut(&mut s2.conc).insert(e, v as u64);
                                self.work.push(s2);
                            }
                            return;
                        }
                    }
                }
                Err(Stop::End(e)) => {
                    self.finish(st, e);
                    return;
                }
            }
        }
    }
    pub fn apply(st: &mut State, md: &Rc<Vec<(u32, u64)>>) {
        if md.is_empty() {
            return;
        }
        let m = Rc::make_mut(&mut st.model);
        for &(i, v) in md.iter() {
            if i as usize >= m.len() {
                m.resize(i as usize + 1, 0);
            }
            m[i as usize] = v;
        }
    }
    pub fn add_pc(ar: &mut Arena, st: &mut State, c: E) {
        if ar.as_const(c) == Some(1) {
            return;
        }
        let n = ar.n(c);
        if n.op == Op::And && n.w == 1 {
            Self::add_pc(ar, st, n.a);
            Self::add_pc(ar, st, n.b);
            return;
        }
        Rc::make_mut(&mut st.pc).push(c);
    }
    pub fn values_of(&self, st: &State) -> Vec<u64> {
        (0..st.nvars as usize).map(|i| st.model.get(i).copied().unwrap_or(0)).collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        let nm = |b: &Body| {
            let f = &self.md.funcs[b.fid as usize];
            if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() }
        };
        v.push(nm(&st.top.body));
        for f in st.frames.iter().rev() {
            v.push(nm(&f.body));
        }
        v
    }
    pub fn violation(&mut self, st: &State, label: String, values: Vec<u64>) {
        let c = self.rep.viol_counts.entry(label.clone()).or_insert(0);
        *c += 1;
        if *c as usize <= self.opts.max_viol {
            let stack = self.stack(st);
            self.rep.violations.push(Violation { label, values, stack });
        }
    }
    fn finish(&mut self, st: State, e: End) {
        self.rep.paths += 1;
        self.rep.instrs += st.instrs;
        self.rep.max_vars = self.rep.max_vars.max(st.nvars);
        self.leaf(st.pc.clone());
        let track = |rep: &mut Report| {
            for c in st.covers.iter() {
                *rep.covers.entry(c.clone()).or_insert(0) += 1;
            }
        };
        match e {
            End::Done => {
                self.rep.done += 1;
                track(&mut self.rep);
                if self.rep.done % self.sample_div == 0 {
                    let values = self.values_of(&st);
                    let mut obs = vec![];
                    self.ar.new_eval();
                    for &(e, k) in st.obs.iter() {
                        obs.push(if e == u32::MAX { k } else { self.ar.ev(e, &st.model) as u64 });
                    }
                    self.rep.samples.push(Sample { values, obs, covers: st.covers.to_vec(), asserts: st.asserts });
                    if self.rep.samples.len() >= 2 * self.opts.nsamples.max(1) {
                        let mut i = 0;
                        self.rep.samples.retain(|_| {
                            i += 1;
                            i % 2 == 0
                        });
                        self.sample_div *= 2;
                    }
                }
            }
            End::Assume => self.rep.assumed_away += 1,
            End::Fail => {}
            End::Panic(msg) => {
                let v = self.values_of(&st);
                self.violation(&st, format!("panic: {}", msg), v);
            }
            End::Unsupported(m) | End::Limit(m) => {
                if self.rep.unsupported.len() < 20 {
                    self.rep.unsupported.push(m.clone());
                }
                if self.rep.incomplete.is_none() {
                    self.rep.incomplete = Some(format!("unsupported: {}", m));
                }
            }
        }
    }

    // ---- values
    pub fn to_e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::I(x) => self.ar.c(*x as u128, w),
            V::B(x) => self.ar.c(**x, w),
            V::E(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(k) => {
                if self.ar.w(e) <= 64 { V::I(k as u64) } else { V::B(Rc::new(k)) }
            }
            None => V::E(e),
        }
    }
    pub fn mkv(&self, k: u128, w: u16) -> V {
        if w <= 64 { V::I(k as u64 & mask64(w)) } else { V::B(Rc::new(k & m(w))) }
    }
    #[inline]
    fn op(st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.top.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    pub fn conc(&mut self, st: &State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::B(x) => Ok(**x as u64),
            V::E(e) => {
                if let Some(&k) = st.conc.get(e) {
                    return Ok(k);
                }
                Err(Stop::Conc(*e))
            }
            V::A(_) => panic!("aggregate"),
        }
    }
    pub fn unsup<X>(&self, st: &State, m: &str) -> R<X> {
        Err(Stop::End(End::Unsupported(format!("{} at {}", m, self.stack(st).join(" < ")))))
    }
    pub fn crash<X>(&self, st: &State, m: &str) -> R<X> {
        let _ = st;
        Err(Stop::End(End::Panic(m.to_string())))
    }

    fn load(&mut self, st: &mut State, t: T, addr: u64) -> R<V> {
        match self.md.types[t as usize].clone() {
            Ty::Arr(n, e) => {
                let sz = self.md.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, e, addr + i * sz)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let bw = self.md.bits(e);
                if bw % 8 != 0 {
                    let tot = self.md.bits(t) as u16;
                    let nb = ((tot + 7) / 8) as usize;
                    let x = match st.mem.read(&mut self.ar, addr, nb) {
                        Some(RV::C(k)) => self.ar.c(k, nb as u16 * 8),
                        Some(RV::S(e)) => e,
                        None => return self.crash(st, "invalid memory read"),
                    };
                    let mut v = vec![];
                    for i in 0..n {
                        let l = self.ar.extract(x, (i as u64 * bw) as u16, bw as u16);
                        v.push(self.from_e(l));
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                let sz = self.md.size(e);
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load(st, e, addr + i * sz)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = self.md.field_off(t, i);
                    v.push(self.load(st, ft, addr + o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = self.md.bits(t) as u16;
                let n = ((w + 7) / 8) as usize;
                match st.mem.read(&mut self.ar, addr, n) {
                    Some(RV::C(k)) => Ok(self.mkv(k, w)),
                    Some(RV::S(e)) => {
                        let e = self.ar.extract(e, 0, w);
                        Ok(self.from_e(e))
                    }
                    None => self.crash(st, &format!("invalid memory read of {} bytes at {:#x}", n, addr)),
                }
            }
        }
    }
    fn store(&mut self, st: &mut State, t: T, v: &V, addr: u64) -> R<()> {
        match self.md.types[t as usize].clone() {
            Ty::Arr(_, e) => {
                let sz = self.md.size(e);
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, e, x, addr + i as u64 * sz)?;
                    }
                }
                Ok(())
            }
            Ty::Vec(_, e) => {
                let bw = self.md.bits(e) as u16;
                if let V::A(vs) = v {
                    if bw % 8 != 0 {
                        let tot = self.md.bits(t) as u16;
                        let x = self.bits_of(v, t);
                        let nb = (tot + 7) / 8;
                        let x = self.ar.zext(x, nb * 8);
                        if !st.mem.write_e(&mut self.ar, addr, nb as usize, x) {
                            return self.crash(st, "invalid memory write");
                        }
                        return Ok(());
                    }
                    let sz = self.md.size(e);
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, e, x, addr + i as u64 * sz)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(..) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let (o, ft) = self.md.field_off(t, i);
                        self.store(st, ft, x, addr + o)?;
                    }
                }
                Ok(())
            }
            _ => {
                let w = self.md.bits(t) as u16;
                let n = ((w + 7) / 8) as usize;
                let ok = match v {
                    V::I(x) => st.mem.write_c(addr, n, *x as u128),
                    V::B(x) => st.mem.write_c(addr, n, **x),
                    V::E(e) => {
                        let x = self.ar.zext(*e, 8 * n as u16);
                        st.mem.write_e(&mut self.ar, addr, n, x)
                    }
                    V::A(_) => panic!("store aggregate as scalar"),
                };
                if !ok {
                    return self.crash(st, &format!("invalid memory write of {} bytes at {:#x}", n, addr));
                }
                Ok(())
            }
        }
    }
    /// load through a symbolic address: ITE over the feasible addresses
    fn load_sym(&mut self, st: &mut State, t: T, e: E) -> R<V> {
        if let Some(&k) = st.conc.get(&e) {
            return self.load(st, t, k);
        }
        let scalar = !matches!(self.md.types[t as usize], Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..));
        if !scalar {
            return Err(Stop::Conc(e));
        }
        let pc = st.pc.clone();
        let vs = match self.sv.values(&mut self.ar, &pc, e, 1100) {
            Some(v) => v,
            None => return self.unsup(st, "symbolic address with too many targets"),
        };
        let w = self.md.bits(t) as u16;
        let n = ((w + 7) / 8) as usize;
        let mut groups: Vec<(E, Vec<u64>)> = vec![];
        let mut ix: FxMap<E, usize> = FxMap::default();
        for a in vs {
            let x = match st.mem.read(&mut self.ar, a as u64, n) {
                Some(RV::C(k)) => self.ar.c(k, n as u16 * 8),
                Some(RV::S(x)) => x,
                None => return Err(Stop::Conc(e)), // some target is invalid: fork and report there
            };
            let x = self.ar.extract(x, 0, w);
            let g = *ix.entry(x).or_insert_with(|| {
                groups.push((x, vec![]));
                groups.len() - 1
            });
            groups[g].1.push(a as u64);
        }
        groups.sort_by_key(|g| g.1.len());
        let (mut r, _) = groups.pop().unwrap();
        for (x, addrs) in groups {
            let mut c = self.ar.c(0, 1);
            for a in addrs {
                let k = self.ar.c(a as u128, 64);
                let q = self.ar.eq(e, k);
                c = self.ar.bin(Op::Or, c, q);
            }
            r = self.ar.ite(c, x, r);
        }
        Ok(self.from_e(r))
    }
    fn bits_of(&mut self, v: &V, t: T) -> E {
        match self.md.types[t as usize].clone() {
            Ty::Vec(_, e) => {
                let w = self.md.bits(e) as u16;
                if let V::A(vs) = v {
                    let mut r: Option<E> = None;
                    for x in vs.iter() {
                        let b = self.to_e(x, w);
                        r = Some(match r {
                            None => b,
                            Some(l) => self.ar.concat(b, l),
                        });
                    }
                    r.unwrap()
                } else {
                    panic!()
                }
            }
            _ => {
                let w = self.md.bits(t) as u16;
                self.to_e(v, w)
            }
        }
    }
    fn of_bits(&mut self, e: E, t: T) -> V {
        match self.md.types[t as usize].clone() {
            Ty::Vec(n, el) => {
                let w = self.md.bits(el) as u16;
                let mut v = vec![];
                for i in 0..n {
                    let x = self.ar.extract(e, i as u16 * w, w);
                    v.push(self.from_e(x));
                }
                V::A(Rc::new(v))
            }
            _ => self.from_e(e),
        }
    }
    pub fn lanes(&self, t: T) -> Option<(u32, T)> {
        match self.md.types[t as usize] {
            Ty::Vec(n, e) => Some((n, e)),
            _ => None,
        }
    }
    pub fn map2(&mut self, t: T, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, T, &V, &V) -> R<V>) -> R<V> {
        if let Some((_, e)) = self.lanes(t) {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(f(self, e, p, q)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
            panic!("vector operand");
        }
        f(self, t, a, b)
    }
    pub fn binop(&mut self, st: &State, o: Bin, t: T, a: &V, b: &V) -> R<V> {
        let w = self.md.bits(t) as u16;
        let isf = matches!(o, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem);
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 && !isf {
                let (x, y) = (*x, *y);
                let sxx = |v: u64| sx(v as u128, w) as i64;
                let r = match o {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::UDiv => if y == 0 { return self.crash(st, "division by zero") } else { x / y },
                    Bin::URem => if y == 0 { return self.crash(st, "division by zero") } else { x % y },
                    Bin::SDiv => if y == 0 { return self.crash(st, "division by zero") } else { sxx(x).wrapping_div(sxx(y)) as u64 },
                    Bin::SRem => if y == 0 { return self.crash(st, "division by zero") } else { sxx(x).wrapping_rem(sxx(y)) as u64 },
                    Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::AShr => (sxx(x) >> y.min(w as u64 - 1)) as u64,
                    _ => unreachable!(),
                };
                return Ok(V::I(r & mask64(w)));
            }
            if isf {
                let r = if w == 64 {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    match o {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    match o {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u64
                };
                return Ok(V::I(r));
            }
        }
        let eo = match o {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::FAdd => Op::FAdd,
            Bin::FSub => Op::FSub,
            Bin::FMul => Op::FMul,
            Bin::FDiv => Op::FDiv,
            Bin::FRem => return self.unsup(st, "symbolic frem"),
        };
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.ar.bin(eo, x, y);
        Ok(self.from_e(r))
    }
    pub fn icmp(&mut self, p: IP, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sx(v as u128, w) as i64;
            let r = match p {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Slt => s(x) < s(y),
                IP::Sle => s(x) <= s(y),
                IP::Sgt => s(x) > s(y),
                IP::Sge => s(x) >= s(y),
            };
            return V::I(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = match p {
            IP::Eq => self.ar.eq(x, y),
            IP::Ne => {
                let q = self.ar.eq(x, y);
                self.ar.not(q)
            }
            IP::Ult => self.ar.bin(Op::Ult, x, y),
            IP::Ule => self.ar.bin(Op::Ule, x, y),
            IP::Ugt => self.ar.bin(Op::Ult, y, x),
            IP::Uge => self.ar.bin(Op::Ule, y, x),
            IP::Slt => self.ar.bin(Op::Slt, x, y),
            IP::Sle => self.ar.bin(Op::Sle, x, y),
            IP::Sgt => self.ar.bin(Op::Slt, y, x),
            IP::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.from_e(r)
    }
    fn fcmp(&mut self, p: FP, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = if w == 64 {
                (f64::from_bits(*x), f64::from_bits(*y))
            } else {
                (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
            };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                FP::False => false,
                FP::True => true,
                FP::Oeq => x == y,
                FP::Ogt => x > y,
                FP::Oge => x >= y,
                FP::Olt => x < y,
                FP::Ole => x <= y,
                FP::One => !un && x != y,
                FP::Ord => !un,
                FP::Uno => un,
                FP::Ueq => un || x == y,
                FP::Ugt => un || x > y,
                FP::Uge => un || x >= y,
                FP::Ult => un || x < y,
                FP::Ule => un || x <= y,
                FP::Une => un || x != y,
            };
            return V::I(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let sign = 1u128 << (w - 1);
        let inf: u128 = if w == 64 { 0x7ff0_0000_0000_0000 } else { 0x7f80_0000 };
        let ar = &mut self.ar;
        let mag = ar.c(sign - 1, w);
        let infc = ar.c(inf, w);
        let ax = ar.bin(Op::And, x, mag);
        let ay = ar.bin(Op::And, y, mag);
        let nx = ar.bin(Op::Ult, infc, ax);
        let ny = ar.bin(Op::Ult, infc, ay);
        let un = ar.bin(Op::Or, nx, ny);
        let z = ar.c(0, w);
        let zx = ar.eq(ax, z);
        let zy = ar.eq(ay, z);
        let bz = ar.bin(Op::And, zx, zy);
        let e0 = ar.eq(x, y);
        let eqv = ar.bin(Op::Or, e0, bz);
        let key = |ar: &mut Arena, v: E| {
            let s = ar.extract(v, w - 1, 1);
            let ones = ar.c(m(w), w);
            let sb = ar.c(sign, w);
            let n1 = ar.bin(Op::Xor, v, ones);
            let n2 = ar.bin(Op::Xor, v, sb);
            ar.ite(s, n1, n2)
        };
        let kx = key(ar, x);
        let ky = key(ar, y);
        let nbz = ar.not(bz);
        let l0 = ar.bin(Op::Ult, kx, ky);
        let lt = ar.bin(Op::And, l0, nbz);
        let g0 = ar.bin(Op::Ult, ky, kx);
        let gt = ar.bin(Op::And, g0, nbz);
        let ord = ar.not(un);
        let o = |ar: &mut Arena, c: E| ar.bin(Op::And, ord, c);
        let u = |ar: &mut Arena, c: E| ar.bin(Op::Or, un, c);
        let r = match p {
            FP::False => ar.c(0, 1),
            FP::True => ar.c(1, 1),
            FP::Ord => ord,
            FP::Uno => un,
            FP::Oeq => o(ar, eqv),
            FP::Ueq => u(ar, eqv),
            FP::One => {
                let n = ar.not(eqv);
                o(ar, n)
            }
            FP::Une => {
                let n = ar.not(eqv);
                u(ar, n)
            }
            FP::Olt => o(ar, lt),
            FP::Ult => u(ar, lt),
            FP::Ogt => o(ar, gt),
            FP::Ugt => u(ar, gt),
            FP::Ole => {
                let c = ar.bin(Op::Or, lt, eqv);
                o(ar, c)
            }
            FP::Ule => {
                let c = ar.bin(Op::Or, lt, eqv);
                u(ar, c)
            }
            FP::Oge => {
                let c = ar.bin(Op::Or, gt, eqv);
                o(ar, c)
            }
            FP::Uge => {
                let c = ar.bin(Op::Or, gt, eqv);
                u(ar, c)
            }
        };
        self.from_e(r)
    }
    fn cast(&mut self, st: &State, c: Cast, ft: T, v: &V, tt: T) -> R<V> {
        if c == Cast::Bit {
            let (fv, tv) = (self.lanes(ft).is_some(), self.lanes(tt).is_some());
            if !fv && !tv {
                return Ok(v.clone());
            }
            let tot = self.md.bits(ft);
            if tot > 128 {
                return self.unsup(st, "wide bitcast");
            }
            let e = self.bits_of(v, ft);
            return Ok(self.of_bits(e, tt));
        }
        if let (Some((_, fe)), Some((_, te))) = (self.lanes(ft), self.lanes(tt)) {
            if let V::A(vs) = v {
                let mut o = vec![];
                for x in vs.iter() {
                    o.push(self.cast(st, c, fe, x, te)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let fw = self.md.bits(ft) as u16;
        let tw = self.md.bits(tt) as u16;
        match v {
            V::E(e) => {
                let e = *e;
                let r = match c {
                    Cast::Trunc => self.ar.extract(e, 0, tw),
                    Cast::ZExt => self.ar.zext(e, tw),
                    Cast::SExt => self.ar.sext(e, tw),
                    Cast::PtrInt => {
                        if tw < fw { self.ar.extract(e, 0, tw) } else { self.ar.zext(e, tw) }
                    }
                    Cast::FPTrunc => self.ar.fun1(Op::FPTrunc, e, tw),
                    Cast::FPExt => self.ar.fun1(Op::FPExt, e, tw),
                    Cast::UIToFP => self.ar.fun1(Op::UIToFP, e, tw),
                    Cast::SIToFP => self.ar.fun1(Op::SIToFP, e, tw),
                    Cast::FPToUI | Cast::FPToSI => return self.unsup(st, "symbolic float to int"),
                    Cast::Bit => unreachable!(),
                };
                Ok(self.from_e(r))
            }
            _ => {
                let k = match v {
                    V::I(x) => *x as u128,
                    V::B(x) => **x,
                    _ => panic!(),
                };
                let r = match c {
                    Cast::Trunc | Cast::ZExt | Cast::PtrInt => k,
                    Cast::SExt => sx(k, fw) as u128,
                    Cast::FPTrunc => eval_op(Op::FPTrunc, tw, fw, k, 0, 0, 0),
                    Cast::FPExt => eval_op(Op::FPExt, tw, fw, k, 0, 0, 0),
                    Cast::UIToFP => eval_op(Op::UIToFP, tw, fw, k, 0, 0, 0),
                    Cast::SIToFP => eval_op(Op::SIToFP, tw, fw, k, 0, 0, 0),
                    Cast::FPToUI => eval_op(Op::FPToUISat, tw, fw, k, 0, 0, 0),
                    Cast::FPToSI => eval_op(Op::FPToSISat, tw, fw, k, 0, 0, 0),
                    Cast::Bit => unreachable!(),
                };
                Ok(self.mkv(r, tw))
            }
        }
    }
    pub fn vite(&mut self, t: T, c: E, a: &V, b: &V) -> V {
        match self.md.types[t as usize].clone() {
            Ty::Struct(f, _) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    return V::A(Rc::new((0..f.len()).map(|i| self.vite(f[i], c, &x[i], &y[i])).collect()));
                }
                panic!()
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    return V::A(Rc::new((0..x.len()).map(|i| self.vite(e, c, &x[i], &y[i])).collect()));
                }
                panic!()
            }
            _ => {
                let w = self.md.bits(t) as u16;
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.ite(c, x, y);
                self.from_e(r)
            }
        }
    }

    /// Decide a symbolic condition on the current path: true/false if forced, otherwise fork.
    /// On fork the current state takes the side its model satisfies; the sibling is returned.
    fn branch(&mut self, st: &mut State, c: E) -> (bool, Option<State>) {
        if let Some(&k) = st.conc.get(&c) {
            return (k != 0, None);
        }
        let mv = self.ar.eval(c, &st.model) != 0;
        let nc = self.ar.not(c);
        let other = if mv { nc } else { c };
        let pc = st.pc.clone();
        match self.sv.sat(&mut self.ar, &pc, other, false) {
            None => (mv, None),
            Some(md) => {
                let mut s2 = st.clone();
                Self::apply(&mut s2, &md);
                Self::add_pc(&mut self.ar, &mut s2, other);
                let mine = if mv { c } else { nc };
                Self::add_pc(&mut self.ar, st, mine);
                (mv, Some(s2))
            }
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let body = st.top.body.clone();
        let from = st.top.blk;
        let blk = &body.blocks[b as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                st.top.regs[*d as usize] = Self::op(st, o);
            }
            _ => {
                let vals: Vec<(u32, V)> = blk
                    .phis
                    .iter()
                    .map(|(d, inc)| (*d, Self::op(st, &inc.iter().find(|x| x.0 == from).expect("phi").1)))
                    .collect();
                for (d, v) in vals {
                    st.top.regs[d as usize] = v;
                }
            }
        }
        st.top.blk = b;
        st.top.ip = 0;
    }

    /// run instructions of the current frame until control leaves the basic straight line
    fn step_many(&mut self, st: &mut State) -> R<()> {
        let body = st.top.body.clone();
        let blk = &body.blocks[st.top.blk as usize];
        loop {
            let i = &blk.insts[st.top.ip as usize];
            st.instrs += 1;
            if self.opts.trace {
                eprintln!("[{}] {} b{} {:?}", st.frames.len(), self.md.funcs[body.fid as usize].name, st.top.blk, i);
            }
            let v: V = match &i.k {
                K::Alloca(o) => V::I(obj_addr(st.top.fobj as u64) + o),
                K::Load(t, a) => {
                    let a = Self::op(st, a);
                    match a {
                        V::I(x) => self.load(st, *t, x)?,
                        V::E(e) => self.load_sym(st, *t, e)?,
                        _ => panic!(),
                    }
                }
                K::Store(t, v, a) => {
                    let a = Self::op(st, a);
                    let x = self.conc(st, &a)?;
                    let v = Self::op(st, v);
                    self.store(st, *t, &v, x)?;
                    V::I(0)
                }
                K::Gep(b, off, idx) => {
                    let b = Self::op(st, b);
                    let mut acc = match b {
                        V::I(x) => V::I(x.wrapping_add(*off as u64)),
                        V::E(e) => {
                            let c = self.ar.c(*off as u64 as u128, 64);
                            let r = self.ar.bin(Op::Add, e, c);
                            self.from_e(r)
                        }
                        _ => return self.unsup(st, "vector gep"),
                    };
                    for (o, w, s) in idx {
                        let x = Self::op(st, o);
                        acc = match (&acc, &x) {
                            (V::I(a), V::I(x)) => V::I(a.wrapping_add((sx(*x as u128, *w) as i64).wrapping_mul(*s) as u64)),
                            _ => {
                                let xe = self.to_e(&x, *w);
                                let xe = self.ar.sext(xe, 64);
                                let sc = self.ar.c(*s as u64 as u128, 64);
                                let p = self.ar.bin(Op::Mul, xe, sc);
                                let ae = self.to_e(&acc, 64);
                                let r = self.ar.bin(Op::Add, ae, p);
                                self.from_e(r)
                            }
                        };
                    }
                    acc
                }
                K::Bin(o, t, a, b) => {
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    // a symbolic divisor may be zero only on paths the compiler already excluded
                    if let (V::I(_), V::I(_)) = (&a, &b) {
                        self.binop(st, *o, *t, &a, &b)?
                    } else {
                        let s: *const State = st;
                        let oo = *o;
                        self.map2(*t, &a, &b, &mut |me, t, x, y| me.binop(unsafe { &*s }, oo, t, x, y))?
                    }
                }
                K::Icmp(p, t, a, b) => {
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    let pp = *p;
                    self.map2(*t, &a, &b, &mut |me, t, x, y| {
                        let w = me.md.bits(t) as u16;
                        Ok(me.icmp(pp, w, x, y))
                    })?
                }
                K::Fcmp(p, t, a, b) => {
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    let pp = *p;
                    self.map2(*t, &a, &b, &mut |me, t, x, y| {
                        let w = me.md.bits(t) as u16;
                        Ok(me.fcmp(pp, w, x, y))
                    })?
                }
                K::FNeg(t, a) => {
                    let a = Self::op(st, a);
                    let w = self.md.bits(*t) as u16;
                    let k = V::I(1u64 << (w - 1));
                    match (&a, &k) {
                        (V::I(x), V::I(y)) => V::I(x ^ y),
                        _ => {
                            let x = self.to_e(&a, w);
                            let y = self.to_e(&k, w);
                            let r = self.ar.bin(Op::Xor, x, y);
                            self.from_e(r)
                        }
                    }
                }
                K::Cast(c, ft, a, tt) => {
                    let a = Self::op(st, a);
                    self.cast(st, *c, *ft, &a, *tt)?
                }
                K::Select(ct, c, t, a, b) => {
                    let c = Self::op(st, c);
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    match c {
                        V::I(k) => if k != 0 { a } else { b },
                        V::E(e) => {
                            if let Some(&k) = st.conc.get(&e) {
                                if k != 0 { a } else { b }
                            } else {
                                self.vite(*t, e, &a, &b)
                            }
                        }
                        V::A(cs) => {
                            let _ = ct;
                            let (_, el) = self.lanes(*t).unwrap();
                            if let (V::A(x), V::A(y)) = (&a, &b) {
                                let mut o = vec![];
                                for i in 0..cs.len() {
                                    o.push(match &cs[i] {
                                        V::I(k) => if *k != 0 { x[i].clone() } else { y[i].clone() },
                                        V::E(e) => self.vite(el, *e, &x[i], &y[i]),
                                        _ => panic!(),
                                    });
                                }
                                V::A(Rc::new(o))
                            } else {
                                panic!()
                            }
                        }
                        _ => panic!(),
                    }
                }
                K::Copy(a) => Self::op(st, a),
                K::Nop => V::I(0),
                K::ExtractValue(a, ix) => {
                    let mut a = Self::op(st, a);
                    for &i in ix {
                        a = match &a {
                            V::A(v) => v[i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    a
                }
                K::InsertValue(a, b, ix) => {
                    let mut a = Self::op(st, a);
                    let b = Self::op(st, b);
                    fn ins(a: &mut V, b: V, ix: &[u32]) {
                        if ix.is_empty() {
                            *a = b;
                            return;
                        }
                        match a {
                            V::A(v) => ins(&mut Rc::make_mut(v)[ix[0] as usize], b, &ix[1..]),
                            _ => panic!("insertvalue"),
                        }
                    }
                    ins(&mut a, b, ix);
                    a
                }
                K::ExtractElem(_, a, b) => {
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    let i = self.conc(st, &b)?;
                    match &a {
                        V::A(v) => v[i as usize].clone(),
                        _ => panic!(),
                    }
                }
                K::InsertElem(_, a, b, c) => {
                    let mut a = Self::op(st, a);
                    let b = Self::op(st, b);
                    let c = Self::op(st, c);
                    let i = self.conc(st, &c)?;
                    match &mut a {
                        V::A(v) => Rc::make_mut(v)[i as usize] = b,
                        _ => panic!(),
                    }
                    a
                }
                K::Shuffle(t, a, b, mk) => {
                    let a = Self::op(st, a);
                    let b = Self::op(st, b);
                    let (n, _) = self.lanes(*t).unwrap();
                    if let (V::A(x), V::A(y)) = (&a, &b) {
                        V::A(Rc::new(
                            mk.iter().map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect(),
                        ))
                    } else {
                        panic!()
                    }
                }
                K::Rmw(o, t, a, v) => {
                    let a = Self::op(st, a);
                    let x = self.conc(st, &a)?;
                    let v = Self::op(st, v);
                    let old = self.load(st, *t, x)?;
                    let w = self.md.bits(*t) as u16;
                    let nv = match o {
                        Rmw::Xchg => v,
                        Rmw::Add => self.binop(st, Bin::Add, *t, &old, &v)?,
                        Rmw::Sub => self.binop(st, Bin::Sub, *t, &old, &v)?,
                        Rmw::And => self.binop(st, Bin::And, *t, &old, &v)?,
                        Rmw::Or => self.binop(st, Bin::Or, *t, &old, &v)?,
                        Rmw::Xor => self.binop(st, Bin::Xor, *t, &old, &v)?,
                        _ => {
                            let p = match o {
                                Rmw::Max => IP::Sgt,
                                Rmw::Min => IP::Slt,
                                Rmw::UMax => IP::Ugt,
                                _ => IP::Ult,
                            };
                            match self.icmp(p, w, &old, &v) {
                                V::I(1) => old.clone(),
                                V::I(_) => v,
                                V::E(c) => self.vite(*t, c, &old, &v),
                                _ => panic!(),
                            }
                        }
                    };
                    self.store(st, *t, &nv, x)?;
                    old
                }
                K::CmpXchg(t, a, c, n) => {
                    let a = Self::op(st, a);
                    let x = self.conc(st, &a)?;
                    let c = Self::op(st, c);
                    let n = Self::op(st, n);
                    let old = self.load(st, *t, x)?;
                    let w = self.md.bits(*t) as u16;
                    let eq = self.icmp(IP::Eq, w, &old, &c);
                    match eq {
                        V::I(k) => {
                            if k != 0 {
                                self.store(st, *t, &n, x)?;
                            }
                            V::A(Rc::new(vec![old, V::I(k)]))
                        }
                        _ => return self.unsup(st, "symbolic cmpxchg"),
                    }
                }
                K::Br(b) => {
                    self.goto(st, *b);
                    return Ok(());
                }
                K::CondBr(c, x, y) => {
                    match Self::op(st, c) {
                        V::I(k) => {
                            let b = if k != 0 { *x } else { *y };
                            self.goto(st, b);
                            return Ok(());
                        }
                        V::E(e) => {
                            let (tk, sib) = self.branch(st, e);
                            let (bt, bf) = if tk { (*x, *y) } else { (*y, *x) };
                            self.goto(st, bt);
                            if let Some(mut s2) = sib {
                                self.goto(&mut s2, bf);
                                return Err(Stop::Fork(vec![s2]));
                            }
                            return Ok(());
                        }
                        _ => panic!(),
                    }
                }
                K::Switch(t, v, d, cs) => {
                    let v = Self::op(st, v);
                    let w = self.md.bits(*t) as u16;
                    match v {
                        V::E(e) => {
                            if let Some(&k) = st.conc.get(&e) {
                                let b = cs.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*d);
                                self.goto(st, b);
                                return Ok(());
                            }
                            // group by target block
                            let mut groups: Vec<(u32, E)> = vec![];
                            let mut any = self.ar.c(0, 1);
                            for (k, b) in cs {
                                let c = self.ar.c(*k, w);
                                let q = self.ar.eq(e, c);
                                any = self.ar.bin(Op::Or, any, q);
                                if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                                    g.1 = self.ar.bin(Op::Or, g.1, q);
                                } else {
                                    groups.push((*b, q));
                                }
                            }
                            let nany = self.ar.not(any);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) {
                                g.1 = self.ar.bin(Op::Or, g.1, nany);
                            } else {
                                groups.push((*d, nany));
                            }
                            let pc = st.pc.clone();
                            let mut feas = vec![];
                            let mut mine = usize::MAX;
                            for (b, c) in groups {
                                if self.ar.eval(c, &st.model) != 0 {
                                    mine = feas.len();
                                    feas.push((b, c, None));
                                } else if let Some(md) = self.sv.sat(&mut self.ar, &pc, c, false) {
                                    feas.push((b, c, Some(md)));
                                }
                            }
                            let single = feas.len() == 1;
                            let mut out = vec![];
                            for (i, (b, c, md)) in feas.iter().enumerate() {
                                if i == mine {
                                    continue;
                                }
                                let mut s2 = st.clone();
                                Self::apply(&mut s2, md.as_ref().unwrap());
                                Self::add_pc(&mut self.ar, &mut s2, *c);
                                self.goto(&mut s2, *b);
                                out.push(s2);
                            }
                            let (b, c, _) = &feas[mine];
                            if !single {
                                Self::add_pc(&mut self.ar, st, *c);
                            }
                            self.goto(st, *b);
                            if !out.is_empty() {
                                return Err(Stop::Fork(out));
                            }
                            return Ok(());
                        }
                        v => {
                            let k = match v {
                                V::I(x) => x as u128,
                                V::B(x) => *x,
                                _ => panic!(),
                            };
                            let b = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                            self.goto(st, b);
                            return Ok(());
                        }
                    }
                }
                K::Ret(v) => {
                    let v = v.as_ref().map(|v| Self::op(st, v));
                    if st.top.fobj != u32::MAX {
                        st.mem.release(st.top.fobj);
                    }
                    match st.frames.pop() {
                        None => return Err(Stop::End(End::Done)),
                        Some(f) => {
                            let (dst, nb) = (st.top.dst, st.top.nb);
                            st.top = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            if let (Some(v), true) = (v, dst != u32::MAX) {
                                st.top.regs[dst as usize] = v;
                            }
                            st.top.ip += 1;
                            if let Some(b) = nb {
                                self.goto(st, b);
                            }
                        }
                    }
                    return Ok(());
                }
                K::Unreachable => return self.crash(st, "reached unreachable code"),
                K::Call(c, args, ret, nb) => {
                    let mut fid = match c {
                        Callee::Direct(f) => *f,
                        Callee::Asm(ident) => {
                            // identity barriers pass their operand through; cpuid reads as "no features"
                            let z = if *ident { Self::op(st, &args[0].1) } else { self.md.zero(*ret) };
                            if i.dst != u32::MAX {
                                st.top.regs[i.dst as usize] = z;
                            }
                            st.top.ip += 1;
                            continue;
                        }
                        Callee::Ind(o) => {
                            let v = Self::op(st, o);
                            let a = self.conc(st, &v)?;
                            if a < FN_BASE || (a - FN_BASE) / 16 >= self.md.funcs.len() as u64 {
                                return self.crash(st, "call through invalid pointer");
                            }
                            ((a - FN_BASE) / 16) as u32
                        }
                    };
                    let mut k = self.kind(fid);
                    if k == Ik::JsonErr {
                        if let Some(&f) = self.md.fix.get("sym_json_error") {
                            fid = f;
                        }
                        k = Ik::None;
                    }
                    if k == Ik::None {
                        if st.frames.len() > 2000 {
                            return self.crash(st, "stack overflow (recursion deeper than 2000 frames)");
                        }
                        let nbody = self.md.body(fid);
                        self.used.insert(fid);
                        let mut regs = vec![V::I(0); nbody.nregs];
                        for (p, (_, o)) in nbody.params.iter().zip(args) {
                            regs[*p as usize] = Self::op(st, o);
                        }
                        let fobj = if nbody.frame > 0 { st.mem.alloc(nbody.frame, false) } else { u32::MAX };
                        let fr = Frame { body: nbody, blk: 0, ip: 0, regs, fobj, dst: i.dst, nb: *nb };
                        let old = std::mem::replace(&mut st.top, fr);
                        st.frames.push(Rc::new(old));
                        return Ok(());
                    }
                    let av: Vec<V> = args.iter().map(|(_, o)| Self::op(st, o)).collect();
                    let ty0 = args.first().map(|a| a.0);
                    let v = self.builtin(st, k, fid, &av, ty0, *ret)?;
                    if i.dst != u32::MAX {
                        st.top.regs[i.dst as usize] = v;
                    }
                    st.top.ip += 1;
                    if let Some(b) = nb {
                        self.goto(st, *b);
                        return Ok(());
                    }
                    continue;
                }
            };
            if i.dst != u32::MAX {
                st.top.regs[i.dst as usize] = v;
            }
            st.top.ip += 1;
        }
    }
}
