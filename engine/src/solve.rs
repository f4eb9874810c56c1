//! Path-condition queries: independence slicing, cache, tiny-domain evaluation, Z3.
use crate::expr::*;
use crate::z3::Z3;
use std::rc::Rc;

pub struct Solver {
    pub z3: Z3,
    cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>,
    pub widths: Vec<FxMap<u16, E>>, // var index -> width -> expr
    pub cache_hits: u64,
    pub small: u64,
    /// of conditions over a single variable of at most 8 bits: for which values that is known, and
    /// for which of those they hold
    tables: FxMap<E, ([u64; 4], [u64; 4])>,
}

impl Solver {
    pub fn new() -> Self {
        Solver { z3: Z3::new(), cache: FxMap::default(), widths: vec![], cache_hits: 0, small: 0, tables: FxMap::default() }
    }
    /// constraints of `pc` transitively sharing variables with `seed`
    pub fn slice(&self, ar: &Arena, pc: &[E], seed: Mask) -> (Vec<E>, Mask) {
        let mut mk = seed;
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &e) in pc.iter().enumerate() {
                if !used[i] && mask_hit(ar.emask(e), &mk) {
                    used[i] = true;
                    out.push(e);
                    let nm = mask_or(&mk, ar.emask(e));
                    if nm != mk {
                        mk = nm;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        (out, mk)
    }
    fn vars_of(&self, ar: &Arena, cs: &[E]) -> Vec<E> {
        // collect Var nodes in the constraints
        let mut seen: FxSet<E> = FxSet::default();
        let mut st: Vec<E> = cs.to_vec();
        let mut out = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = ar.n(e);
            match n.op {
                Op::Var => out.push(e),
                _ => {
                    let k = arity(n.op);
                    if k > 0 && ar.mask[n.a as usize] != 0 {
                        st.push(n.a)
                    }
                    if k > 1 && ar.mask[n.b as usize] != 0 {
                        st.push(n.b)
                    }
                    if k > 2 && ar.mask[n.c as usize] != 0 {
                        st.push(n.c)
                    }
                }
            }
        }
        out.sort_unstable();
        out
    }
    /// The only variable of the expressions behind `mk`, if there is just one of at most 8 bits.
    fn only(&self, ar: &Arena, mk: &Mask) -> Option<E> {
        let mut it = None;
        for (i, &x) in mk.iter().enumerate() {
            if x != 0 {
                if it.is_some() || x & (x - 1) != 0 {
                    return None;
                }
                it = Some(i * 64 + x.trailing_zeros() as usize);
            }
        }
        let v = ar.var_at(it?)?;
        if ar.w(v) <= 8 {
            Some(v)
        } else {
            None
        }
    }
    /// Of the values `among` of `v`: those for which `c` holds.
    fn table(&mut self, ar: &mut Arena, c: E, v: E, among: [u64; 4]) -> [u64; 4] {
        let (mut known, mut t) = self.tables.get(&c).copied().unwrap_or_default();
        let n = ar.n(v);
        let mut md = vec![];
        for i in 0..4 {
            let mut todo = among[i] & !known[i];
            known[i] |= todo;
            while todo != 0 {
                let b = todo.trailing_zeros();
                todo &= todo - 1;
                md.resize(n.k as usize + 1, 0u64);
                md[n.k as usize] = i as u64 * 64 + b as u64;
                ar.new_eval();
                if ar.ev(c, &md) == 1 {
                    t[i] |= 1 << b;
                }
            }
        }
        if !md.is_empty() {
            self.tables.insert(c, (known, t));
        }
        let mut out = among;
        for i in 0..4 {
            out[i] &= t[i];
        }
        out
    }
    /// The values of the only variable for which all conditions hold.
    fn all_of(&mut self, ar: &mut Arena, cs: &[E], v: E) -> [u64; 4] {
        let mut t = [0u64; 4];
        for x in 0..1usize << ar.w(v) {
            t[x >> 6] |= 1 << (x & 63);
        }
        for &c in cs {
            t = self.table(ar, c, v, t);
        }
        t
    }
    /// Is pc /\ cond satisfiable? Returns assignments for the variables of the relevant slice.
    /// `force` skips the cache and the tiny-domain shortcut: the verdict is Z3's.
    pub fn sat(&mut self, ar: &mut Arena, pc: &[E], cond: E, force: bool) -> Option<Rc<Vec<(u32, u64)>>> {
        if let Some(k) = ar.as_const(cond) {
            return if k == 1 { Some(Rc::new(vec![])) } else { None };
        }
        let (mut cs, mk) = self.slice(ar, pc, *ar.emask(cond));
        cs.push(cond);
        if !force {
            if let Some(r) = self.cache.get(&cs) {
                self.cache_hits += 1;
                return r.clone();
            }
        }
        let vars = match self.only(ar, &mk) {
            Some(v) => vec![v],
            None => self.vars_of(ar, &cs),
        };
        let bits: u32 = vars.iter().map(|&v| ar.w(v) as u32).sum();
        let r = if !force && vars.len() == 1 && bits <= 8 {
            self.small += 1;
            let t = self.all_of(ar, &cs, vars[0]);
            (0..4).find(|&i| t[i] != 0).map(|i| Rc::new(vec![(ar.n(vars[0]).k as u32, i as u64 * 64 + t[i].trailing_zeros() as u64)]))
        } else if !force && bits <= 8 {
            self.small += 1;
            let mut found = None;
            let mx = vars.iter().map(|&v| ar.n(v).k as usize).max().unwrap_or(0);
            let mut md = vec![0u64; mx + 1];
            for x in 0..(1u64 << bits) {
                let mut sh = 0;
                for &v in &vars {
                    let n = ar.n(v);
                    md[n.k as usize] = (x >> sh) & (m(n.w) as u64);
                    sh += n.w as u32;
                }
                ar.new_eval();
                if cs.iter().rev().all(|&c| ar.ev(c, &md) == 1) {
                    found = Some(Rc::new(vars.iter().map(|&v| (ar.n(v).k as u32, md[ar.n(v).k as usize])).collect::<Vec<_>>()));
                    break;
                }
            }
            found
        } else {
            let r = self.z3.check(ar, &cs, &vars);
            r.map(|vals| Rc::new(vars.iter().zip(vals).map(|(&v, x)| (ar.n(v).k as u32, x)).collect::<Vec<_>>()))
        };
        if !force {
            self.cache.insert(cs, r.clone());
        }
        r
    }
    /// all feasible values of e under pc (None if more than lim)
    pub fn values(&mut self, ar: &mut Arena, pc: &[E], e: E, lim: usize) -> Option<Vec<u128>> {
        let (cs, mk) = self.slice(ar, pc, *ar.emask(e));
        let mut all = cs.clone();
        all.push(e);
        let vars = match self.only(ar, &mk) {
            Some(v) => vec![v],
            None => self.vars_of(ar, &all),
        };
        let bits: u32 = vars.iter().map(|&v| ar.w(v) as u32).sum();
        let mut out: Vec<u128> = vec![];
        if bits <= 12 {
            self.small += 1;
            let mx = vars.iter().map(|&v| ar.n(v).k as usize).max().unwrap_or(0);
            let mut md = vec![0u64; mx + 1];
            let mut seen: FxSet<u128> = FxSet::default();
            if vars.len() == 1 && bits <= 8 {
                let t = self.all_of(ar, &cs, vars[0]);
                for x in 0..256usize {
                    if t[x >> 6] >> (x & 63) & 1 == 1 {
                        md[mx] = x as u64;
                        ar.new_eval();
                        let v = ar.ev(e, &md);
                        if seen.insert(v) {
                            out.push(v);
                            if out.len() > lim {
                                return None;
                            }
                        }
                    }
                }
                return Some(out);
            }
            for x in 0..(1u64 << bits) {
                let mut sh = 0;
                for &v in &vars {
                    let n = ar.n(v);
                    md[n.k as usize] = (x >> sh) & (m(n.w) as u64);
                    sh += n.w as u32;
                }
                ar.new_eval();
                if cs.iter().all(|&c| ar.ev(c, &md) == 1) {
                    let v = ar.ev(e, &md);
                    if seen.insert(v) {
                        out.push(v);
                        if out.len() > lim {
                            return None;
                        }
                    }
                }
            }
            return Some(out);
        }
        let w = ar.w(e);
        let mut extra = ar.c(1, 1);
        loop {
            let r = self.sat(ar, pc, extra, false);
            let md = match (r, out.is_empty()) {
                (Some(x), false) => x,
                (_, true) => {
                    // first: any model of the slice
                    let mut cs2 = cs.clone();
                    if cs2.is_empty() {
                        cs2.push(ar.c(1, 1));
                    }
                    let vs = self.vars_of(ar, &all);
                    match self.z3.check(ar, &cs2, &vs) {
                        Some(vals) => Rc::new(vs.iter().zip(vals).map(|(&v, x)| (ar.n(v).k as u32, x)).collect::<Vec<_>>()),
                        None => return Some(out),
                    }
                }
                (None, false) => return Some(out),
            };
            let mx = md.iter().map(|x| x.0 as usize).max().unwrap_or(0);
            let mut mv = vec![0u64; mx + 1];
            for &(i, x) in md.iter() {
                mv[i as usize] = x;
            }
            let v = ar.eval(e, &mv);
            out.push(v);
            if out.len() > lim {
                return None;
            }
            let c = ar.c(v, w);
            let q = ar.eq(e, c);
            let nq = ar.not(q);
            extra = ar.bin(Op::And, extra, nq);
        }
    }
}
