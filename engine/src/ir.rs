//! Textual LLVM IR: module scan and lazy function parsing.
use crate::expr::{FxMap, E};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    E(E),
    B(Rc<u128>),
    A(Rc<Vec<V>>),
}

pub type T = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, T),
    Vec(u32, T),
    Struct(Vec<T>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IP { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FP { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, PtrInt, FPTrunc, FPExt, UIToFP, SIToFP, FPToUI, FPToSI }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Ind(O),
    /// inline assembly; true: a register-identity barrier (template is only a comment)
    Asm(bool),
}
#[derive(Clone, Debug)]
pub enum K {
    Alloca(u64),
    Load(T, O),
    Store(T, O, O),
    Gep(O, i64, Vec<(O, u16, i64)>),
    Bin(Bin, T, O, O),
    Icmp(IP, T, O, O),
    Fcmp(FP, T, O, O),
    FNeg(T, O),
    Cast(Cast, T, O, T),
    Select(T, O, T, O, O),
    Call(Callee, Vec<(T, O)>, T, Option<u32>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(T, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    ExtractValue(O, Vec<u32>),
    InsertValue(O, O, Vec<u32>),
    ExtractElem(T, O, O),
    InsertElem(T, O, O, O),
    Shuffle(T, O, O, Vec<u32>),
    Copy(O),
    Rmw(Rmw, T, O, O),
    CmpXchg(T, O, O, O),
    Nop,
}
#[derive(Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX none
    pub k: K,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Body {
    pub fid: u32,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub frame: u64,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub range: Option<(usize, usize)>, // header line start .. end of body
    pub body: Option<Rc<Body>>,
    pub kind: u16, // intercept id, 0 = none
    pub weak: bool,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
    pub src: (usize, usize),
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: Vec<Ty>,
    tix: FxMap<Ty, T>,
    pub named: FxMap<String, T>,
    pub funcs: Vec<Func>,
    pub fix: FxMap<String, u32>,
    pub globals: Vec<Global>,
    pub gix: FxMap<String, u32>,
    pub alias: FxMap<String, String>,
}

pub const OBJ_SHIFT: u32 = 28;
pub const ID_BASE: u64 = 16;
pub fn obj_addr(id: u64) -> u64 {
    (id + ID_BASE) << OBJ_SHIFT
}
/// functions live in a separate range
pub const FN_BASE: u64 = 0x5000_0000_0000;

fn unq(s: &[u8]) -> String {
    // contents of a quoted name with \xx escapes
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if s[i] == b'\\' {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> T {
        if let Some(&x) = self.tix.get(&t) {
            return x;
        }
        let id = self.types.len() as T;
        self.types.push(t.clone());
        self.tix.insert(t, id);
        id
    }
    pub fn align(&self, t: T) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p { 1 } else { f.iter().map(|&x| self.align(x)).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn bits(&self, t: T) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, e) => *n as u64 * self.bits(*e),
            _ => self.size(t) * 8,
        }
    }
    pub fn size(&self, t: T) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => ((*n as u64 * self.bits(*e)) + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for &x in f {
                    if !*p {
                        let a = self.align(x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(x);
                }
                if !*p {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: T, i: usize) -> (u64, T) {
        match &self.types[t as usize] {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, &x) in f.iter().enumerate() {
                    if !*p {
                        let a = self.align(x);
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, x);
                    }
                    o += self.size(x);
                }
                panic!("field")
            }
            Ty::Arr(_, e) => (i as u64 * self.size(*e), *e),
            Ty::Vec(_, e) => (i as u64 * self.size(*e), *e),
            _ => panic!("field of {:?}", self.types[t as usize]),
        }
    }
    pub fn zero(&self, t: T) -> V {
        match &self.types[t as usize] {
            Ty::Arr(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|&x| self.zero(x)).collect())),
            _ => V::I(0),
        }
    }

    pub fn func_id(&mut self, name: &str) -> u32 {
        if let Some(&x) = self.fix.get(name) {
            return x;
        }
        if let Some(a) = self.alias.get(name).cloned() {
            return self.func_id(&a);
        }
        let id = self.funcs.len() as u32;
        self.funcs.push(Func { name: name.to_string(), pretty: String::new(), range: None, body: None, kind: 0, weak: false });
        self.fix.insert(name.to_string(), id);
        id
    }
    pub fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(&g) = self.gix.get(name) {
            return obj_addr(g as u64);
        }
        if let Some(&f) = self.fix.get(name) {
            if self.funcs[f as usize].weak {
                return 0;
            }
            return FN_BASE + 16 * f as u64;
        }
        if let Some(a) = self.alias.get(name).cloned() {
            return self.sym_addr(&a);
        }
        let f = self.func_id(name);
        FN_BASE + 16 * f as u64
    }

    pub fn load(text: Vec<u8>) -> Module {
        let mut md = Module {
            text: Rc::new(text),
            types: vec![],
            tix: FxMap::default(),
            named: FxMap::default(),
            funcs: vec![],
            fix: FxMap::default(),
            globals: vec![],
            gix: FxMap::default(),
            alias: FxMap::default(),
        };
        let text = md.text.clone();
        let t: &[u8] = &text;
        let mut i = 0;
        let mut pretty: Option<(usize, usize)> = None;
        let n = t.len();
        let eol = |mut i: usize| {
            while i < n && t[i] != b'\n' {
                i += 1
            }
            i
        };
        let mut tydefs = vec![];
        while i < n {
            let e = eol(i);
            let l = &t[i..e];
            if l.starts_with(b"; ") {
                if !l.starts_with(b"; Function Attrs") {
                    pretty = Some((i + 2, e));
                }
            } else if l.starts_with(b"define ") {
                // find end "\n}"
                let mut j = e;
                loop {
                    if t[j] == b'\n' && t[j + 1] == b'}' {
                        break;
                    }
                    j += 1;
                }
                let name = Self::find_at_name(l);
                let id = md.func_id(&name);
                md.funcs[id as usize].range = Some((i, j + 1));
                if let Some((a, b)) = pretty {
                    md.funcs[id as usize].pretty = String::from_utf8_lossy(&t[a..b]).into_owned();
                }
                pretty = None;
                i = j + 2;
                continue;
            } else if l.starts_with(b"declare ") {
                let name = Self::find_at_name(l);
                let id = md.func_id(&name);
                if l.windows(12).any(|w| w == b"extern_weak ") {
                    md.funcs[id as usize].weak = true;
                }
                pretty = None;
            } else if l.starts_with(b"@") {
                let mut p = Ps::new(l);
                let name = p.sigil_name();
                p.ws();
                p.expect(b'=');
                p.ws();
                let rest = &l[p.i..];
                let rs = String::from_utf8_lossy(rest).into_owned();
                if let Some(k) = rs.find("alias ").filter(|&k| !rs[..k].contains("global ") && !rs[..k].contains("constant ")) {
                    let tail = &rs[k..];
                    let at = tail.rfind('@').unwrap();
                    let mut q = Ps::new(tail[at..].as_bytes());
                    let target = q.sigil_name();
                    md.alias.insert(name, target);
                } else {
                    let id = md.globals.len() as u32;
                    md.globals.push(Global { name: name.clone(), size: 0, data: vec![], constant: false, src: (i + p.i, e) });
                    md.gix.insert(name, id);
                }
                pretty = None;
            } else if l.starts_with(b"%") {
                tydefs.push((i, e));
            }
            i = e + 1;
        }
        for (a, b) in tydefs {
            let l = text[a..b].to_vec();
            let mut p = Ps::new(&l);
            let name = p.sigil_name();
            p.ws();
            p.expect(b'=');
            p.word("type");
            if p.try_word("opaque") {
                let t = md.ty(Ty::Other);
                md.named.insert(name, t);
                continue;
            }
            let ty = p.ty(&mut md);
            md.named.insert(name, ty);
        }
        for g in 0..md.globals.len() {
            let (a, b) = md.globals[g].src;
            let l = text[a..b].to_vec();
            let mut p = Ps::new(&l);
            let mut ext = false;
            loop {
                p.ws();
                let w = p.ident();
                match w.as_str() {
                    "global" => break,
                    "constant" => {
                        md.globals[g].constant = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "" => panic!("global {}", String::from_utf8_lossy(&l)),
                    _ => {
                        p.ws();
                        if p.peek() == b'(' {
                            p.skip_parens()
                        }
                    }
                }
            }
            let ty = p.ty(&mut md);
            let sz = md.size(ty);
            md.globals[g].size = sz;
            let mut d = vec![0u8; sz as usize];
            if !ext {
                p.const_bytes(&mut md, ty, &mut d, 0);
            }
            md.globals[g].data = d;
        }
        md
    }
    fn find_at_name(l: &[u8]) -> String {
        let mut i = 0;
        // first '@' outside quotes and parens at depth 0... return attrs contain no '@'
        while l[i] != b'@' {
            i += 1
        }
        let mut p = Ps::new(&l[i..]);
        p.sigil_name()
    }

    pub fn body(&mut self, fid: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[fid as usize].body {
            return b.clone();
        }
        let (a, b) = self.funcs[fid as usize].range.unwrap_or_else(|| panic!("no body for {}", self.funcs[fid as usize].name));
        let text = self.text.clone();
        let bd = Rc::new(parse_body(self, fid, &text[a..b]));
        self.funcs[fid as usize].body = Some(bd.clone());
        bd
    }
}

struct Fx2 {
    regs: FxMap<String, u32>,
    blks: FxMap<String, u32>,
    nblk: u32,
}
impl Fx2 {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn blk(&mut self, n: String) -> u32 {
        if let Some(&x) = self.blks.get(&n) {
            return x;
        }
        let k = self.nblk;
        self.nblk += 1;
        self.blks.insert(n, k);
        k
    }
}

fn strip_meta(l: &[u8]) -> &[u8] {
    let mut q = false;
    let mut i = 0;
    while i < l.len() {
        let c = l[i];
        if c == b'"' {
            q = !q;
        }
        if !q && c == b',' && i + 2 < l.len() && l[i + 1] == b' ' && l[i + 2] == b'!' {
            return &l[..i];
        }
        if !q && c == b';' {
            return &l[..i];
        }
        i += 1;
    }
    l
}

fn parse_body(md: &mut Module, fid: u32, t: &[u8]) -> Body {
    let lines: Vec<&[u8]> = t.split(|&c| c == b'\n').collect();
    let mut fx = Fx2 { regs: FxMap::default(), blks: FxMap::default(), nblk: 0 };
    // header
    let h = lines[0];
    let mut at = 0;
    while h[at] != b'@' {
        at += 1
    }
    let mut p = Ps::new(&h[at..]);
    p.sigil_name();
    p.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    loop {
        p.ws();
        if p.peek() == b')' {
            break;
        }
        if p.peek() == b'.' {
            p.i += 3;
            continue;
        }
        p.ty(md);
        p.attrs();
        let n = p.sigil_name();
        if n.bytes().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
        params.push(fx.reg(n));
        p.ws();
        if p.peek() == b',' {
            p.i += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    let mut cur: Option<usize> = None;
    let mut frame = 0u64;
    let mut li = 1;
    while li < lines.len() {
        let l = lines[li];
        li += 1;
        if l.is_empty() || l[0] == b';' || l == b"}" {
            continue;
        }
        if l[0] != b' ' {
            // label
            let name = if l[0] == b'"' {
                let e = l[1..].iter().position(|&c| c == b'"').unwrap();
                unq(&l[1..1 + e])
            } else {
                let e = l.iter().position(|&c| c == b':').unwrap();
                String::from_utf8_lossy(&l[..e]).into_owned()
            };
            let b = fx.blk(name) as usize;
            while blocks.len() <= b {
                blocks.push(Block::default());
            }
            cur = Some(b);
            continue;
        }
        if cur.is_none() {
            let b = fx.blk(format!("{}", unnamed)) as usize;
            while blocks.len() <= b {
                blocks.push(Block::default());
            }
            cur = Some(b);
        }
        let mut buf: Vec<u8> = strip_meta(l).to_vec();
        if buf.iter().all(|c| *c == b' ') {
            continue;
        }
        while li < lines.len() {
            let nx = lines[li];
            let cont = nx.len() > 2 && nx[0] == b' ' && nx[1] == b' ' && (nx[2] == b' ' || nx[2] == b']');
            if !cont {
                break;
            }
            buf.push(b' ');
            buf.extend_from_slice(strip_meta(nx));
            li += 1;
        }
        let mut p = Ps::new(&buf);
        let c = cur.unwrap();
        parse_inst(md, &mut fx, &mut p, &mut blocks[c], &mut frame);
        let nb = fx.nblk as usize;
        while blocks.len() < nb {
            blocks.push(Block::default());
        }
    }
    Body { fid, params, nregs: fx.regs.len(), frame, blocks }
}

fn parse_inst(md: &mut Module, fx: &mut Fx2, p: &mut Ps, blk: &mut Block, frame: &mut u64) {
    p.ws();
    let mut dst = u32::MAX;
    if p.peek() == b'%' {
        let n = p.sigil_name();
        dst = fx.reg(n);
        p.ws();
        p.expect(b'=');
    }
    let op = p.ident();
    let k = match op.as_str() {
        "alloca" => {
            p.try_word("inalloca");
            let ty = p.ty(md);
            let mut al = md.align(ty);
            let sz = md.size(ty);
            p.ws();
            while p.peek() == b',' {
                p.i += 1;
                p.ws();
                if p.try_word("align") {
                    al = p.num() as u64;
                } else {
                    panic!("dynamic alloca");
                }
                p.ws();
            }
            let o = (*frame + al - 1) / al * al;
            *frame = o + sz;
            K::Alloca(o)
        }
        "load" => {
            p.try_word("atomic");
            p.try_word("volatile");
            let ty = p.ty(md);
            p.expect(b',');
            let a = p.tyval(md, fx).1;
            K::Load(ty, a)
        }
        "store" => {
            p.try_word("atomic");
            p.try_word("volatile");
            let (ty, v) = p.tyval(md, fx);
            p.expect(b',');
            let a = p.tyval(md, fx).1;
            K::Store(ty, v, a)
        }
        "getelementptr" => {
            p.flags();
            let ty = p.ty(md);
            p.expect(b',');
            let base = p.tyval(md, fx).1;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = ty;
            let mut first = true;
            loop {
                p.ws();
                if p.peek() != b',' {
                    break;
                }
                p.i += 1;
                let (ity, v) = p.tyval(md, fx);
                let iw = md.bits(ity) as u16;
                let stride;
                if first {
                    stride = md.size(cur) as i64;
                    first = false;
                } else if let Ty::Struct(..) = md.types[cur as usize] {
                    let i = match v {
                        O::K(V::I(x)) => x as usize,
                        _ => panic!(),
                    };
                    let (o, t) = md.field_off(cur, i);
                    off += o as i64;
                    cur = t;
                    continue;
                } else {
                    let (_, t) = md.field_off(cur, 0);
                    cur = t;
                    stride = md.size(cur) as i64;
                }
                match v {
                    O::K(V::I(x)) => off += crate::expr::sx(x as u128, iw) as i64 * stride,
                    v => idx.push((v, iw, stride)),
                }
            }
            K::Gep(base, off, idx)
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub"
        | "fmul" | "fdiv" | "frem" => {
            let b = match op.as_str() {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            p.flags();
            let ty = p.ty(md);
            let a = p.val(md, fx, ty);
            p.expect(b',');
            let c = p.val(md, fx, ty);
            K::Bin(b, ty, a, c)
        }
        "icmp" => {
            p.try_word("samesign");
            let pr = match p.ident().as_str() {
                "eq" => IP::Eq,
                "ne" => IP::Ne,
                "ult" => IP::Ult,
                "ule" => IP::Ule,
                "ugt" => IP::Ugt,
                "uge" => IP::Uge,
                "slt" => IP::Slt,
                "sle" => IP::Sle,
                "sgt" => IP::Sgt,
                "sge" => IP::Sge,
                x => panic!("icmp {}", x),
            };
            let ty = p.ty(md);
            let a = p.val(md, fx, ty);
            p.expect(b',');
            let c = p.val(md, fx, ty);
            K::Icmp(pr, ty, a, c)
        }
        "fcmp" => {
            p.flags();
            let pr = match p.ident().as_str() {
                "false" => FP::False,
                "oeq" => FP::Oeq,
                "ogt" => FP::Ogt,
                "oge" => FP::Oge,
                "olt" => FP::Olt,
                "ole" => FP::Ole,
                "one" => FP::One,
                "ord" => FP::Ord,
                "ueq" => FP::Ueq,
                "ugt" => FP::Ugt,
                "uge" => FP::Uge,
                "ult" => FP::Ult,
                "ule" => FP::Ule,
                "une" => FP::Une,
                "uno" => FP::Uno,
                "true" => FP::True,
                x => panic!("fcmp {}", x),
            };
            let ty = p.ty(md);
            let a = p.val(md, fx, ty);
            p.expect(b',');
            let c = p.val(md, fx, ty);
            K::Fcmp(pr, ty, a, c)
        }
        "fneg" => {
            p.flags();
            let ty = p.ty(md);
            let a = p.val(md, fx, ty);
            K::FNeg(ty, a)
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
        | "ptrtoaddr" => {
            p.flags();
            let (ty, a) = p.tyval(md, fx);
            p.word("to");
            let to = p.ty(md);
            let c = match op.as_str() {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" => Cast::Bit,
                "fptrunc" => Cast::FPTrunc,
                "fpext" => Cast::FPExt,
                "uitofp" => Cast::UIToFP,
                "sitofp" => Cast::SIToFP,
                "fptoui" => Cast::FPToUI,
                "fptosi" => Cast::FPToSI,
                _ => Cast::PtrInt,
            };
            K::Cast(c, ty, a, to)
        }
        "select" => {
            p.flags();
            let (ct, c) = p.tyval(md, fx);
            p.expect(b',');
            let (t, a) = p.tyval(md, fx);
            p.expect(b',');
            let (_, b) = p.tyval(md, fx);
            K::Select(ct, c, t, a, b)
        }
        "phi" => {
            p.flags();
            let ty = p.ty(md);
            let mut inc = vec![];
            loop {
                p.ws();
                if p.peek() != b'[' {
                    break;
                }
                p.i += 1;
                let v = p.val(md, fx, ty);
                p.expect(b',');
                p.ws();
                let b = p.sigil_name();
                p.expect(b']');
                let b = fx.blk(b);
                inc.push((b, v));
                p.ws();
                if p.peek() == b',' {
                    p.i += 1;
                }
            }
            blk.phis.push((dst, inc));
            return;
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                p.word("call");
            }
            parse_call(md, fx, p, op == "invoke")
        }
        "br" => {
            if p.try_word("label") {
                p.ws();
                let b = p.sigil_name();
                K::Br(fx.blk(b))
            } else {
                let (_, c) = p.tyval(md, fx);
                p.expect(b',');
                p.word("label");
                p.ws();
                let a = p.sigil_name();
                p.expect(b',');
                p.word("label");
                p.ws();
                let b = p.sigil_name();
                let (a, b) = (fx.blk(a), fx.blk(b));
                K::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (ty, v) = p.tyval(md, fx);
            p.expect(b',');
            p.word("label");
            p.ws();
            let d = p.sigil_name();
            let d = fx.blk(d);
            p.expect(b'[');
            let mut cs = vec![];
            loop {
                p.ws();
                if p.peek() == b']' {
                    break;
                }
                let (_, c) = p.tyval(md, fx);
                p.expect(b',');
                p.word("label");
                p.ws();
                let b = p.sigil_name();
                let b = fx.blk(b);
                let c = match c {
                    O::K(V::I(x)) => x as u128,
                    O::K(V::B(x)) => *x,
                    _ => panic!(),
                };
                cs.push((c, b));
            }
            K::Switch(ty, v, d, cs)
        }
        "ret" => {
            p.ws();
            let ty = p.ty(md);
            if md.types[ty as usize] == Ty::Void {
                K::Ret(None)
            } else {
                K::Ret(Some(p.val(md, fx, ty)))
            }
        }
        "unreachable" | "resume" | "landingpad" | "cleanupret" => K::Unreachable,
        "extractvalue" => {
            let (_, a) = p.tyval(md, fx);
            K::ExtractValue(a, p.idxs())
        }
        "insertvalue" => {
            let (_, a) = p.tyval(md, fx);
            p.expect(b',');
            let (_, b) = p.tyval(md, fx);
            K::InsertValue(a, b, p.idxs())
        }
        "extractelement" => {
            let (t, a) = p.tyval(md, fx);
            p.expect(b',');
            let (_, b) = p.tyval(md, fx);
            K::ExtractElem(t, a, b)
        }
        "insertelement" => {
            let (t, a) = p.tyval(md, fx);
            p.expect(b',');
            let (_, b) = p.tyval(md, fx);
            p.expect(b',');
            let (_, c) = p.tyval(md, fx);
            K::InsertElem(t, a, b, c)
        }
        "shufflevector" => {
            let (t, a) = p.tyval(md, fx);
            p.expect(b',');
            let (_, b) = p.tyval(md, fx);
            p.expect(b',');
            let (_, c) = p.tyval(md, fx);
            let mk = match c {
                O::K(V::A(v)) => v
                    .iter()
                    .map(|x| match x {
                        V::I(k) => *k as u32,
                        _ => panic!(),
                    })
                    .collect(),
                _ => panic!(),
            };
            K::Shuffle(t, a, b, mk)
        }
        "freeze" => {
            let (_, a) = p.tyval(md, fx);
            K::Copy(a)
        }
        "fence" => K::Nop,
        "atomicrmw" => {
            p.try_word("volatile");
            let o = match p.ident().as_str() {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                "umax" => Rmw::UMax,
                "umin" => Rmw::UMin,
                x => panic!("atomicrmw {}", x),
            };
            let (_, a) = p.tyval(md, fx);
            p.expect(b',');
            let (t, v) = p.tyval(md, fx);
            K::Rmw(o, t, a, v)
        }
        "cmpxchg" => {
            p.try_word("weak");
            p.try_word("volatile");
            let (_, a) = p.tyval(md, fx);
            p.expect(b',');
            let (t, c) = p.tyval(md, fx);
            p.expect(b',');
            let (_, v) = p.tyval(md, fx);
            K::CmpXchg(t, a, c, v)
        }
        x => panic!("unknown instruction {} in {}", x, String::from_utf8_lossy(p.s)),
    };
    blk.insts.push(Inst { dst, k });
}

fn parse_call(md: &mut Module, fx: &mut Fx2, p: &mut Ps, invoke: bool) -> K {
    // skip cconv / ret attrs until a type
    loop {
        p.ws();
        if p.is_type_start() {
            break;
        }
        let w = p.ident();
        if w.is_empty() {
            panic!("call: {}", String::from_utf8_lossy(p.s));
        }
        p.after_attr(&w);
    }
    let ret = p.ty(md);
    p.ws();
    if p.peek() == b'(' {
        p.skip_parens();
        p.ws();
    }
    let callee = if p.peek() == b'@' {
        let n = p.sigil_name();
        if n.starts_with("llvm.experimental.noalias.scope") || n.starts_with("llvm.dbg") {
            return K::Nop;
        }
        Callee::Direct(md.func_id(&n))
    } else if p.peek() == b'%' {
        let n = p.sigil_name();
        Callee::Ind(O::R(fx.reg(n)))
    } else {
        let w = p.ident();
        if w == "asm" {
            while p.try_word("sideeffect") || p.try_word("alignstack") || p.try_word("inteldialect") || p.try_word("unwind") {}
            let t = p.quoted();
            p.expect(b',');
            let c = p.quoted();
            Callee::Asm(t.starts_with("/*") && t.ends_with("*/") && c.starts_with("=&r,0"))
        } else {
            p.i -= w.len();
            let t = md.ty(Ty::Ptr);
            Callee::Ind(p.val(md, fx, t))
        }
    };
    p.expect(b'(');
    let mut args = vec![];
    loop {
        p.ws();
        if p.peek() == b')' {
            p.i += 1;
            break;
        }
        let t = p.ty(md);
        if md.types[t as usize] == Ty::Other {
            // metadata argument: skip to , or )
            let mut d = 0;
            while !(d == 0 && (p.peek() == b',' || p.peek() == b')')) {
                match p.peek() {
                    b'(' => d += 1,
                    b')' => d -= 1,
                    _ => {}
                }
                p.i += 1;
            }
        } else {
            p.attrs();
            let v = p.val(md, fx, t);
            args.push((t, v));
        }
        p.ws();
        if p.peek() == b',' {
            p.i += 1;
        }
    }
    let mut nb = None;
    if invoke {
        let s = String::from_utf8_lossy(&p.s[p.i..]).into_owned();
        let k = s.find("to label ").unwrap();
        let mut q = Ps::new(s[k + 9..].as_bytes());
        nb = Some(fx.blk(q.sigil_name()));
    }
    K::Call(callee, args, ret, nb)
}

pub struct Ps<'a> {
    s: &'a [u8],
    pub i: usize,
}
impl<'a> Ps<'a> {
    fn new(s: &'a [u8]) -> Self {
        Ps { s, i: 0 }
    }
    #[inline]
    fn peek(&self) -> u8 {
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    fn expect(&mut self, c: u8) {
        self.ws();
        if self.peek() != c {
            panic!("expected {} at {} in: {}", c as char, self.i, String::from_utf8_lossy(self.s));
        }
        self.i += 1;
    }
    fn ident(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') {
            self.i += 1
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn quoted(&mut self) -> String {
        self.expect(b'"');
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            self.i += 1
        }
        let r = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
        self.i += 1;
        r
    }
    fn word(&mut self, w: &str) {
        let x = self.ident();
        if x != w {
            panic!("expected {} got {} in {}", w, x, String::from_utf8_lossy(self.s));
        }
    }
    fn try_word(&mut self, w: &str) -> bool {
        self.ws();
        let a = self.i;
        if self.ident() == w {
            true
        } else {
            self.i = a;
            false
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let a = self.i;
        if self.peek() == b'-' {
            self.i += 1
        }
        while self.peek().is_ascii_digit() {
            self.i += 1
        }
        let s = std::str::from_utf8(&self.s[a..self.i]).unwrap();
        s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("num {:?}", s))
    }
    fn sigil_name(&mut self) -> String {
        self.ws();
        self.i += 1;
        if self.peek() == b'"' {
            let a = self.i + 1;
            let mut j = a;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            unq(&self.s[a..j])
        } else {
            let a = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                    self.i += 1
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        let mut q = false;
        loop {
            let c = self.peek();
            if c == b'"' {
                q = !q
            }
            if !q {
                if c == b'(' {
                    d += 1
                }
                if c == b')' {
                    d -= 1
                }
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn flags(&mut self) {
        loop {
            self.ws();
            let a = self.i;
            let w = self.ident();
            match w.as_str() {
                "inbounds" | "nuw" | "nsw" | "nusw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                | "afn" | "reassoc" | "fast" => {}
                "inrange" => self.skip_parens(),
                _ => {
                    self.i = a;
                    break;
                }
            }
        }
    }
    fn is_type_start(&self) -> bool {
        let r = &self.s[self.i..];
        match r[0] {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => r.len() > 1 && r[1].is_ascii_digit(),
            _ => [&b"ptr"[..], b"void", b"double", b"float", b"metadata"].iter().any(|w| {
                r.starts_with(w) && (r.len() == w.len() || !(r[w.len()].is_ascii_alphanumeric() || r[w.len()] == b'_'))
            }),
        }
    }
    fn after_attr(&mut self, w: &str) {
        self.ws();
        if self.peek() == b'(' {
            self.skip_parens();
        } else if w == "align" || w == "alignstack" {
            self.num();
        }
    }
    /// skip parameter attributes before a value
    fn attrs(&mut self) {
        loop {
            self.ws();
            let a = self.i;
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                if c == b'"' {
                    // string attribute
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1
                    }
                    self.i += 1;
                    if self.peek() == b'=' {
                        self.i += 2;
                        while self.peek() != b'"' {
                            self.i += 1
                        }
                        self.i += 1;
                    }
                    continue;
                }
                return;
            }
            let w = self.ident();
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat"
                | "bitcast" | "trunc" | "add" | "sub" | "xor" | "c" | "mul" | "shl" => {
                    self.i = a;
                    return;
                }
                x if x.starts_with("f0x") => {
                    self.i = a;
                    return;
                }
                _ => self.after_attr(&w),
            }
        }
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() != b',' {
                break;
            }
            self.i += 1;
            v.push(self.num() as u32);
        }
        v
    }
    pub fn ty(&mut self, md: &mut Module) -> T {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.word("x");
                let e = self.ty(md);
                self.expect(b']');
                md.ty(Ty::Arr(n, e))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    let t = self.struct_ty(md, true);
                    self.expect(b'>');
                    t
                } else {
                    let n = self.num() as u32;
                    self.word("x");
                    let e = self.ty(md);
                    self.expect(b'>');
                    md.ty(Ty::Vec(n, e))
                }
            }
            b'{' => self.struct_ty(md, false),
            b'%' => {
                let n = self.sigil_name();
                *md.named.get(&n).unwrap_or_else(|| panic!("type {}", n))
            }
            _ => {
                let w = self.ident();
                let t = match w.as_str() {
                    "ptr" => {
                        self.ws();
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "token" | "label" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {}", w, String::from_utf8_lossy(self.s)))),
                    _ => panic!("type {} in {}", w, String::from_utf8_lossy(self.s)),
                };
                md.ty(t)
            }
        }
    }
    fn struct_ty(&mut self, md: &mut Module, packed: bool) -> T {
        self.expect(b'{');
        let mut f = vec![];
        loop {
            self.ws();
            if self.peek() == b'}' {
                self.i += 1;
                break;
            }
            f.push(self.ty(md));
            self.ws();
            if self.peek() == b',' {
                self.i += 1
            }
        }
        md.ty(Ty::Struct(f, packed))
    }
    fn tyval(&mut self, md: &mut Module, fx: &mut Fx2) -> (T, O) {
        let t = self.ty(md);
        self.attrs();
        let v = self.val(md, fx, t);
        (t, v)
    }
    fn val(&mut self, md: &mut Module, fx: &mut Fx2, t: T) -> O {
        self.ws();
        if self.peek() == b'%' {
            let n = self.sigil_name();
            return O::R(fx.reg(n));
        }
        O::K(self.cval(md, t))
    }
    fn cval(&mut self, md: &mut Module, t: T) -> V {
        self.ws();
        let c = self.peek();
        if c == b'@' {
            let n = self.sigil_name();
            return V::I(md.sym_addr(&n));
        }
        if c == b'{' || c == b'[' || (c == b'<') {
            let packed = c == b'<' && self.s[self.i + 1] == b'{';
            self.i += if packed { 2 } else { 1 };
            let close = if packed { b'}' } else { match c { b'{' => b'}', b'[' => b']', _ => b'>' } };
            let mut v = vec![];
            loop {
                self.ws();
                if self.peek() == close {
                    self.i += if packed { 2 } else { 1 };
                    break;
                }
                let t = self.ty(md);
                v.push(self.cval(md, t));
                self.ws();
                if self.peek() == b',' {
                    self.i += 1
                }
            }
            return V::A(Rc::new(v));
        }
        if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
            let b = self.cstr();
            return V::A(Rc::new(b.iter().map(|&x| V::I(x as u64)).collect()));
        }
        let fl = matches!(md.types[t as usize], Ty::F64 | Ty::F32);
        if fl && self.s[self.i..].starts_with(b"f0x") {
            self.i += 3;
            let h = self.ident();
            return V::I(u64::from_str_radix(&h, 16).unwrap());
        }
        if fl && (c == b'+' || c == b'-') && self.s.get(self.i + 1).map_or(false, |x| x.is_ascii_alphabetic()) {
            self.i += 1;
            let w = self.ident();
            let mut pay = 0u64;
            self.ws();
            if self.peek() == b'(' {
                let a = self.i + 1;
                self.skip_parens();
                let h = std::str::from_utf8(&self.s[a..self.i - 1]).unwrap().to_string();
                pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap();
            }
            let f64t = md.types[t as usize] == Ty::F64;
            let (inf, q, sg) = if f64t { (0x7ff0_0000_0000_0000u64, 1u64 << 51, 1u64 << 63) } else { (0x7f80_0000, 1 << 22, 1 << 31) };
            let b = match w.as_str() {
                "inf" => inf,
                "qnan" => inf | q | pay,
                "nan" => inf | q | pay,
                "snan" => inf | pay,
                x => panic!("float {}", x),
            };
            return V::I(if c == b'-' { b | sg } else { b });
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let ty = md.types[t as usize].clone();
            match ty {
                Ty::F64 | Ty::F32 => {
                    let a = self.i;
                    while self.i < self.s.len() && (self.peek().is_ascii_alphanumeric() || matches!(self.peek(), b'-' | b'+' | b'.')) {
                        self.i += 1
                    }
                    let s = std::str::from_utf8(&self.s[a..self.i]).unwrap();
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        s.parse::<f64>().unwrap()
                    };
                    return V::I(if ty == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 });
                }
                _ => {
                    let x = self.num();
                    let w = md.bits(t) as u16;
                    let k = (x as u128) & crate::expr::m(w);
                    return if w <= 64 { V::I(k as u64) } else { V::B(Rc::new(k)) };
                }
            }
        }
        let w = self.ident();
        match w.as_str() {
            "true" => V::I(1),
            "false" | "null" | "none" => V::I(0),
            "undef" | "poison" | "zeroinitializer" => md.zero(t),
            "splat" => {
                self.expect(b'(');
                let et = self.ty(md);
                let v = self.cval(md, et);
                self.expect(b')');
                let n = match md.types[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                V::A(Rc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                self.flags();
                self.expect(b'(');
                let ty = self.ty(md);
                self.expect(b',');
                let pt = self.ty(md);
                let base = match self.cval(md, pt) {
                    V::I(x) => x,
                    _ => panic!(),
                };
                let mut off = 0i64;
                let mut cur = ty;
                let mut first = true;
                loop {
                    self.ws();
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    let it = self.ty(md);
                    let v = match self.cval(md, it) {
                        V::I(x) => crate::expr::sx(x as u128, md.bits(it) as u16) as i64,
                        _ => panic!(),
                    };
                    if first {
                        off += v * md.size(cur) as i64;
                        first = false;
                    } else {
                        let (o, t) = if let Ty::Struct(..) = md.types[cur as usize] {
                            let (o, t) = md.field_off(cur, v as usize);
                            (o as i64, t)
                        } else {
                            let (_, t) = md.field_off(cur, 0);
                            (v * md.size(t) as i64, t)
                        };
                        off += o;
                        cur = t;
                    }
                }
                self.expect(b')');
                V::I(base.wrapping_add(off as u64))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.expect(b'(');
                let ft = self.ty(md);
                let v = self.cval(md, ft);
                self.word("to");
                let tt = self.ty(md);
                self.expect(b')');
                let wd = md.bits(tt) as u16;
                match v {
                    V::I(x) => V::I(x & crate::expr::m(wd) as u64),
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                self.flags();
                self.expect(b'(');
                let at = self.ty(md);
                let a = self.cval(md, at);
                self.expect(b',');
                let bt = self.ty(md);
                let b = self.cval(md, bt);
                self.expect(b')');
                let (a, b) = match (a, b) {
                    (V::I(a), V::I(b)) => (a, b),
                    _ => panic!(),
                };
                let r = match w.as_str() {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a ^ b,
                };
                V::I(r & crate::expr::m(md.bits(at) as u16) as u64)
            }
            _ => panic!("const {} in {}", w, String::from_utf8_lossy(&self.s[..self.s.len().min(400)])),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.i += 2;
        let mut o = vec![];
        loop {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                break;
            }
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    o.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    o.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                o.push(c);
                self.i += 1;
            }
        }
        o
    }
    fn const_bytes(&mut self, md: &mut Module, t: T, d: &mut Vec<u8>, off: u64) {
        self.ws();
        if self.peek() == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
            let b = self.cstr();
            d[off as usize..off as usize + b.len()].copy_from_slice(&b);
            return;
        }
        let v = self.cval(md, t);
        put_const(md, t, &v, d, off);
    }
}

fn put_const(md: &Module, t: T, v: &V, d: &mut Vec<u8>, off: u64) {
    match v {
        V::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = md.field_off(t, i);
                put_const(md, ft, x, d, off + o);
            }
        }
        V::I(x) => {
            let n = (md.bits(t) + 7) / 8;
            for i in 0..n.min(8) {
                d[(off + i) as usize] = (x >> (8 * i)) as u8;
            }
        }
        V::B(x) => {
            let n = (md.bits(t) + 7) / 8;
            for i in 0..n {
                d[(off + i) as usize] = (**x >> (8 * i)) as u8;
            }
        }
        V::E(_) => unreachable!(),
    }
}
