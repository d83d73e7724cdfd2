//! Lowers the raw IR to a flat register machine: every aggregate / vector / wide
//! integer is split into scalar registers of at most 64 bits.
use crate::expr::Op as E;
use crate::ll::*;
use std::collections::HashMap;

pub type O = u32; // operand; high bit set = constant-table index
pub const CST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CmpK {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug)]
pub enum In {
    Bin { k: E, w: u8, d: u32, a: O, b: O },
    Cmp { k: CmpK, w: u8, d: u32, a: O, b: O },
    Zext { d: u32, a: O, wf: u8, wt: u8 },
    Sext { d: u32, a: O, wf: u8, wt: u8 },
    Trunc { d: u32, a: O, wf: u8, wt: u8 },
    Mov { d: u32, a: O },
    Sel { d: u32, c: O, a: O, b: O, w: u8 },
    Load { d: u32, p: O, w: u8, off: u32 },
    Store { v: O, p: O, w: u8, off: u32 },
    Lea { d: u32, base: O, off: i64 },
    LeaX { d: u32, base: O, idx: O, scale: i64 },
    Alloca { d: u32, off: u32 },
    Call { s: u32 },
    Ret { s: u32 },
    Br { e: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { s: u32 },
    Unreachable,
    Wide { s: u32 },
    FOp { s: u32 },
    Trap { m: u32 },
    Rmw { k: u8, d: u32, p: O, v: O, w: u8 },
    CmpXchg { d: u32, p: O, a: O, b: O, w: u8 }, // d, d+1
}

pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, O)>,
}

#[derive(Clone, Debug)]
pub enum Target {
    Func(u32), // index in prog.funcs
    Native(Nat),
    Indirect(O),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Nat {
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memmove,
    Memset,
    Bcmp,
    Strlen,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UsubSat,
    UaddSat,
    Ucmp,
    Scmp,
    IsConst,
    TlsAddr,
    LoadRel,
    Expect,
    Panic,
    Trap,
    Write,
    Objectsize,
    SymByte,
    SymChoice,
    SymAssume,
    SymSplit,
    SymCheck,
    SymCheckEq,
    SymInput,
    SymReach,
    SymTag,
    Const(u64),
    Random,
    Syscall,
    Errno,
    Clock,
    F1(u8),
    F2(u8),
    Unknown(u32),
}

pub struct Site {
    pub tgt: Target,
    pub args: Vec<(O, u8)>,
    pub d: u32,
    pub rets: Vec<u8>,
    pub cont: Option<u32>, // edge for invoke
    pub name: u32,
}

pub struct Sw {
    pub v: O,
    pub w: u8,
    pub def: u32,
    pub cases: Vec<(u64, u32)>,
    pub groups: Vec<(u32, Vec<u64>)>, // edge -> values (non-default)
    pub map: HashMap<u64, u32>,
}

pub enum WOp {
    Bin { op: &'static str, w: u32, d: u32, a: Vec<O>, b: Vec<O> },
    Cmp { op: &'static str, w: u32, d: u32, a: Vec<O>, b: Vec<O> },
    Cast { op: &'static str, wf: u32, wt: u32, d: u32, a: Vec<O> },
    Ovf { op: &'static str, d: u32, a: Vec<O>, b: Vec<O> },
}
pub enum FOp {
    Bin { op: &'static str, dbl: bool, d: u32, a: O, b: O },
    Cmp { op: &'static str, dbl: bool, d: u32, a: O, b: O },
    Cast { op: &'static str, wf: u8, wt: u8, dblf: bool, dblt: bool, d: u32, a: O },
    Neg { dbl: bool, d: u32, a: O },
}

pub struct PF {
    pub name: String,
    pub nregs: u32,
    pub frame: u32,
    pub code: Vec<In>,
    pub nparams: u32,
    pub consts: Vec<u64>,
    pub edges: Vec<Edge>,
    pub sites: Vec<Site>,
    pub rets: Vec<Vec<O>>,
    pub sws: Vec<Sw>,
    pub wide: Vec<WOp>,
    pub fops: Vec<FOp>,
    pub traps: Vec<String>,
    pub panics: bool,
}

pub struct Prog {
    pub funcs: Vec<PF>,
    pub by_name: HashMap<String, u32>,
    pub by_addr: HashMap<u64, Target>,
    pub gmem: Vec<u8>,
    pub gbase: u64,
    pub strs: Vec<String>,
    pub gsyms: Vec<(u64, String)>,
}

pub const GBASE: u64 = 0x10_0000;
pub const FBASE: u64 = 0x7000_0000_0000;

pub fn widths(t: &Ty, out: &mut Vec<u8>) {
    match t {
        Ty::Int(w) => {
            let mut w = *w;
            while w > 64 {
                out.push(64);
                w -= 64;
            }
            out.push(w as u8)
        }
        Ty::Ptr | Ty::Double => out.push(64),
        Ty::Float => out.push(32),
        Ty::Array(n, t) | Ty::Vector(n, t) => {
            for _ in 0..*n {
                widths(t, out)
            }
        }
        Ty::Struct(ts, _) => {
            for t in ts {
                widths(t, out)
            }
        }
        _ => {}
    }
}
fn wd(t: &Ty) -> Vec<u8> {
    let mut v = vec![];
    widths(t, &mut v);
    v
}
/// (byte offset, bits) for each scalar of t in memory
fn layout(t: &Ty, base: u64, out: &mut Vec<(u64, u8)>) {
    match t {
        Ty::Int(_) => {
            let mut o = base;
            for w in wd(t) {
                out.push((o, w));
                o += 8;
            }
        }
        Ty::Ptr | Ty::Double => out.push((base, 64)),
        Ty::Float => out.push((base, 32)),
        Ty::Array(n, e) => {
            for i in 0..*n {
                layout(e, base + i * e.size(), out)
            }
        }
        Ty::Vector(n, e) => {
            for i in 0..*n {
                layout(e, base + i * e.store_size(), out)
            }
        }
        Ty::Struct(ts, _) => {
            for (i, e) in ts.iter().enumerate() {
                layout(e, base + t.field_off(i), out)
            }
        }
        _ => {}
    }
}
fn flat_index(t: &Ty, ix: &[u32]) -> (usize, Ty) {
    if ix.is_empty() {
        return (0, t.clone());
    }
    let i = ix[0] as usize;
    let mut off = 0;
    for k in 0..i {
        off += wd(t.elem(k)).len();
    }
    let (o, ty) = flat_index(t.elem(i), &ix[1..]);
    (off + o, ty)
}

fn nat_of(n: &str) -> Option<Nat> {
    use Nat::*;
    Some(match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "memcpy" => Memcpy,
        "memmove" => Memmove,
        "memset" => Memset,
        "bcmp" | "memcmp" => Bcmp,
        "strlen" => Strlen,
        "abort" => Trap,
        "write" => Write,
        // what the standard library asks of the system
        "__cxa_thread_atexit_impl" | "getenv" | "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_create"
        | "pthread_setspecific" | "atexit" => Const(0),
        "gettid" | "getpid" | "pthread_self" => Const(1),
        "getrandom" => Random,
        "syscall" => Syscall,
        "__errno_location" => Errno,
        "clock_gettime" => Clock,
        "sqrt" => F1(0),
        "floor" => F1(1),
        "ceil" => F1(2),
        "trunc" => F1(3),
        "round" => F1(4),
        "fabs" => F1(5),
        "log" => F1(6),
        "log2" => F1(7),
        "log10" => F1(8),
        "log1p" => F1(9),
        "exp" => F1(10),
        "exp2" => F1(11),
        "pow" => F2(0),
        "fmod" => F2(1),
        "sym_byte" => SymByte,
        "sym_choice" => SymChoice,
        "sym_assume" => SymAssume,
        "sym_split" => SymSplit,
        "sym_check" => SymCheck,
        "sym_check_eq" => SymCheckEq,
        "sym_input" => SymInput,
        "sym_reach" => SymReach,
        "sym_tag" => SymTag,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                let is = |p: &str| r.starts_with(p);
                if is("lifetime") || is("experimental.noalias") || is("assume") || is("dbg") || is("donothing") || is("x86.sse2.pause")
                    || is("invariant") || is("prefetch") || is("sideeffect") || is("pseudoprobe")
                {
                    Nop
                } else if is("memcpy") {
                    Memcpy
                } else if is("memmove") {
                    Memmove
                } else if is("memset") {
                    Memset
                } else if is("ctpop") {
                    Ctpop
                } else if is("cttz") {
                    Cttz
                } else if is("ctlz") {
                    Ctlz
                } else if is("bswap") {
                    Bswap
                } else if is("bitreverse") {
                    Bitrev
                } else if is("umax") {
                    Umax
                } else if is("umin") {
                    Umin
                } else if is("smax") {
                    Smax
                } else if is("smin") {
                    Smin
                } else if is("abs") {
                    Abs
                } else if is("fshl") {
                    Fshl
                } else if is("fshr") {
                    Fshr
                } else if is("uadd.with") {
                    UaddO
                } else if is("usub.with") {
                    UsubO
                } else if is("umul.with") {
                    UmulO
                } else if is("sadd.with") {
                    SaddO
                } else if is("ssub.with") {
                    SsubO
                } else if is("smul.with") {
                    SmulO
                } else if is("usub.sat") {
                    UsubSat
                } else if is("uadd.sat") {
                    UaddSat
                } else if is("ucmp") {
                    Ucmp
                } else if is("scmp") {
                    Scmp
                } else if is("is.constant") {
                    IsConst
                } else if is("threadlocal.address") {
                    TlsAddr
                } else if is("load.relative") {
                    LoadRel
                } else if is("expect") {
                    Expect
                } else if is("trap") || is("ubsantrap") || is("debugtrap") {
                    Trap
                } else if is("objectsize") {
                    Objectsize
                } else if r == "powi.f64.i32" {
                    F2(2)
                } else if r == "minnum.f64" {
                    F2(3)
                } else if r == "maxnum.f64" {
                    F2(4)
                } else if r == "copysign.f64" {
                    F2(5)
                } else if let Some(f) = r.strip_suffix(".f64") {
                    return match f {
                        "sqrt" | "floor" | "ceil" | "trunc" | "round" | "fabs" | "log" | "log2" | "log10" | "exp" | "exp2" | "pow" => nat_of(f),
                        _ => None,
                    };
                } else {
                    return None;
                }
            } else {
                return None;
            }
        }
    })
}

/// Functions that only ever raise a panic / abort.
fn is_panic(n: &str) -> bool {
    let has = |p: &str| n.contains(p);
    (has("4core9panicking"))
        || has("3std9panicking")
        || has("rust_panic")
        || has("panic_fmt")
        || has("slice_error_fail")
        || has("slice_index_fail")
        || has("13unwrap_failed")
        || has("13expect_failed")
        || has("handle_alloc_error")
        || has("17capacity_overflow")
        || has("12handle_error")
        || has("rust_begin_unwind")
        || has("panic_misaligned")
}

pub fn lower(m: &mut Module) -> Result<Prog, String> {
    let mut p = Prog {
        funcs: vec![],
        by_name: HashMap::new(),
        by_addr: HashMap::new(),
        gmem: vec![],
        gbase: GBASE,
        strs: vec![],
        gsyms: vec![],
    };
    // addresses
    let mut addr: HashMap<u32, u64> = HashMap::new();
    let mut cur = GBASE;
    for (id, g) in &m.globals {
        let a = g.align.max(1);
        cur = (cur + a - 1) / a * a;
        addr.insert(*id, cur);
        p.gsyms.push((cur, g.name.clone()));
        cur += g.ty.size().max(1);
    }
    p.gmem = vec![0; (cur - GBASE + 64) as usize];
    let mut fids: Vec<u32> = m.funcs.keys().copied().collect();
    fids.sort();
    let mut findex: HashMap<u32, u32> = HashMap::new();
    for (k, f) in fids.iter().enumerate() {
        findex.insert(*f, k as u32);
        p.by_name.insert(m.names[*f as usize].clone(), k as u32);
    }
    for id in 0..m.names.len() as u32 {
        if !addr.contains_key(&id) {
            let a = FBASE + id as u64 * 16;
            addr.insert(id, a);
            if let Some(k) = findex.get(&id) {
                p.by_addr.insert(a, Target::Func(*k));
            } else {
                let nat = nat_of(&m.names[id as usize]).unwrap_or(Nat::Unknown(id));
                p.by_addr.insert(a, Target::Native(nat));
            }
        }
    }
    p.strs = m.names.clone();
    // global initialisers
    for (id, g) in &m.globals {
        if let Some(v) = &g.init {
            let off = (addr[id] - GBASE) as usize;
            let mut buf = vec![0u8; g.ty.size() as usize];
            init(&g.ty, v, &mut buf, &addr).map_err(|e| format!("init {}: {}", g.name, e))?;
            p.gmem[off..off + buf.len()].copy_from_slice(&buf);
        }
    }
    for f in &fids {
        let func = &m.funcs[f];
        let pf = lower_fn(m, func, &addr, &findex)?;
        p.funcs.push(pf);
    }
    Ok(p)
}

fn cval(t: &Ty, v: &V, addr: &HashMap<u32, u64>) -> Result<u128, String> {
    Ok(match v {
        V::Int(x) => mask(*x, t),
        V::Float(x) => *x as u128,
        V::Undef | V::Zero => 0,
        V::Global(g) => *addr.get(g).ok_or("global addr")? as u128,
        V::Cast(_, b, to) => {
            let x = cval(&b.0, &b.1, addr)?;
            mask(x, to)
        }
        V::Bin(op, t, a, b) => {
            let x = cval(t, a, addr)?;
            let y = cval(t, b, addr)?;
            let r = match *op {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "shl" => x << y,
                "lshr" => x >> y,
                _ => return Err(format!("const op {}", op)),
            };
            mask(r, t)
        }
        V::Gep(bt, p, idx) => {
            let base = cval(&Ty::Ptr, p, addr)? as u64;
            let mut t = bt.clone();
            let mut off = 0i64;
            for (k, (it, iv)) in idx.iter().enumerate() {
                let i = cval(it, iv, addr)?;
                let i = match it {
                    Ty::Int(w) => crate::expr::sx(i as u64, *w as u8),
                    _ => return Err("gep idx".into()),
                };
                if k == 0 {
                    off += i * t.size() as i64;
                } else {
                    off += match &t {
                        Ty::Struct(..) => t.field_off(i as usize) as i64,
                        _ => i * t.elem(0).size() as i64,
                    };
                    let e = match &t {
                        Ty::Struct(..) => t.elem(i as usize).clone(),
                        _ => t.elem(0).clone(),
                    };
                    t = e;
                }
            }
            base.wrapping_add(off as u64) as u128
        }
        _ => return Err(format!("const {:?}", v)),
    })
}

fn init(t: &Ty, v: &V, buf: &mut [u8], addr: &HashMap<u32, u64>) -> Result<(), String> {
    match v {
        V::Zero | V::Undef => Ok(()),
        V::Bytes(b) => {
            buf[..b.len()].copy_from_slice(b);
            Ok(())
        }
        V::Agg(xs) => {
            for (i, (et, ev)) in xs.iter().enumerate() {
                let off = t.field_off(i) as usize;
                init(et, ev, &mut buf[off..off + et.size() as usize], addr)?;
            }
            Ok(())
        }
        V::Splat(x) => {
            let es = x.0.store_size() as usize;
            for k in 0..buf.len() / es {
                init(&x.0, &x.1, &mut buf[k * es..(k + 1) * es], addr)?;
            }
            Ok(())
        }
        _ => {
            let x = cval(t, v, addr)?;
            let n = t.store_size() as usize;
            buf[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            Ok(())
        }
    }
}

struct L<'a> {
    m: &'a Module,
    addr: &'a HashMap<u32, u64>,
    findex: &'a HashMap<u32, u32>,
    pf: PF,
    base: Vec<u32>,  // local -> first register
    cidx: HashMap<u64, u32>,
}

impl<'a> L<'a> {
    fn c(&mut self, v: u64) -> O {
        if let Some(i) = self.cidx.get(&v) {
            return *i | CST;
        }
        let i = self.pf.consts.len() as u32;
        self.pf.consts.push(v);
        self.cidx.insert(v, i);
        i | CST
    }
    fn tmp(&mut self) -> u32 {
        self.pf.nregs += 1;
        self.pf.nregs - 1
    }
    fn ops(&mut self, t: &Ty, v: &V) -> Result<Vec<O>, String> {
        let ws = wd(t);
        match v {
            V::Local(l) => {
                let b = self.base[*l as usize];
                if b == u32::MAX {
                    return Err(format!("undefined local {}", l));
                }
                Ok((0..ws.len() as u32).map(|i| b + i).collect())
            }
            V::Undef | V::Zero => {
                let z = self.c(0);
                Ok(vec![z; ws.len()])
            }
            V::Agg(xs) => {
                let mut o = vec![];
                for (et, ev) in xs {
                    o.extend(self.ops(et, ev)?);
                }
                Ok(o)
            }
            V::Bytes(b) => {
                let b = b.clone();
                Ok(b.iter().map(|x| self.c(*x as u64)).collect())
            }
            V::Splat(x) => {
                let e = self.ops(&x.0.clone(), &x.1.clone())?;
                let mut o = vec![];
                while o.len() < ws.len() {
                    o.extend(e.iter());
                }
                Ok(o)
            }
            V::Asm => Err("inline asm".into()),
            _ => {
                let mut x = cval(t, v, self.addr)?;
                let mut o = vec![];
                for w in &ws {
                    let part = (x as u64) & crate::expr::m(*w);
                    o.push(self.c(part));
                    x = if *w == 64 { x >> 64 } else { 0 };
                }
                Ok(o)
            }
        }
    }
    fn op1(&mut self, t: &Ty, v: &V) -> Result<O, String> {
        let o = self.ops(t, v)?;
        if o.len() != 1 {
            return Err(format!("scalar expected, {:?}", t));
        }
        Ok(o[0])
    }
    fn emit(&mut self, i: In) {
        self.pf.code.push(i)
    }
}

fn binop(o: &str) -> Option<E> {
    Some(match o {
        "add" => E::Add,
        "sub" => E::Sub,
        "mul" => E::Mul,
        "udiv" => E::UDiv,
        "sdiv" => E::SDiv,
        "urem" => E::URem,
        "srem" => E::SRem,
        "shl" => E::Shl,
        "lshr" => E::LShr,
        "ashr" => E::AShr,
        "and" => E::And,
        "or" => E::Or,
        "xor" => E::Xor,
        _ => return None,
    })
}
fn cmpk(o: &str) -> CmpK {
    match o {
        "eq" => CmpK::Eq,
        "ne" => CmpK::Ne,
        "ult" => CmpK::Ult,
        "ule" => CmpK::Ule,
        "ugt" => CmpK::Ugt,
        "uge" => CmpK::Uge,
        "slt" => CmpK::Slt,
        "sle" => CmpK::Sle,
        "sgt" => CmpK::Sgt,
        _ => CmpK::Sge,
    }
}
fn scalar(t: &Ty) -> Ty {
    match t {
        Ty::Vector(_, e) => (**e).clone(),
        _ => t.clone(),
    }
}
fn sw(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Float => 32,
        _ => 64,
    }
}

fn lower_fn(m: &Module, f: &Func, addr: &HashMap<u32, u64>, findex: &HashMap<u32, u32>) -> Result<PF, String> {
    let mut l = L {
        m,
        addr,
        findex,
        pf: PF {
            name: f.name.clone(),
            nregs: 0,
            frame: 0,
            code: vec![],
            nparams: 0,
            consts: vec![],
            edges: vec![],
            sites: vec![],
            rets: vec![],
            sws: vec![],
            wide: vec![],
            fops: vec![],
            traps: vec![],
            panics: is_panic(&f.name),
        },
        base: vec![u32::MAX; f.nlocals as usize],
        cidx: HashMap::new(),
    };
    for (t, id) in &f.params {
        l.base[*id as usize] = l.pf.nregs;
        l.pf.nregs += wd(t).len() as u32;
    }
    l.pf.nparams = l.pf.nregs;
    // result types -> registers
    for b in &f.blocks {
        for ins in &b.insts {
            if let Some(d) = ins.dst {
                let t = result_ty(&ins.i);
                l.base[d as usize] = l.pf.nregs;
                l.pf.nregs += wd(&t).len().max(1) as u32;
            }
        }
    }
    let labels: HashMap<u32, usize> = f.blocks.iter().enumerate().map(|(i, b)| (b.label, i)).collect();
    let mut starts = vec![0u32; f.blocks.len()];
    let mut edge_targets: Vec<usize> = vec![]; // edge index -> block
    for (bi, b) in f.blocks.iter().enumerate() {
        starts[bi] = l.pf.code.len() as u32;
        for ins in &b.insts {
            if let I::Phi(..) = ins.i {
                continue;
            }
            let n = l.pf.code.len();
            if let Err(e) = lower_inst(&mut l, f, ins, bi, &labels, &mut edge_targets) {
                l.pf.code.truncate(n);
                let k = l.pf.traps.len() as u32;
                l.pf.traps.push(e);
                l.emit(In::Trap { m: k });
            }
        }
    }
    for (e, b) in edge_targets.iter().enumerate() {
        l.pf.edges[e].pc = starts[*b];
    }
    Ok(l.pf)
}

fn result_ty(i: &I) -> Ty {
    match i {
        I::Bin(_, t, ..) | I::Fneg(t, _) | I::Freeze(t, _) | I::Load(t, _) | I::Phi(t, _) => t.clone(),
        I::Icmp(_, t, ..) | I::Fcmp(_, t, ..) => match t {
            Ty::Vector(n, _) => Ty::Vector(*n, Box::new(Ty::Int(1))),
            _ => Ty::Int(1),
        },
        I::Cast(_, _, _, to) => to.clone(),
        I::Select(_, _, t, ..) => t.clone(),
        I::Gep(..) | I::Alloca(..) => Ty::Ptr,
        I::Call { ret, .. } => ret.clone(),
        I::ExtractValue(t, _, ix) => flat_index(t, ix).1,
        I::InsertValue(t, ..) => t.clone(),
        I::ExtractElem(t, ..) => scalar(t),
        I::InsertElem(t, ..) => t.clone(),
        I::Shuffle(t, _, _, mask) => Ty::Vector(mask.len() as u64, Box::new(scalar(t))),
        I::AtomicRmw(_, t, ..) => t.clone(),
        I::CmpXchg(t, ..) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
        I::Unsupported(_) => Ty::Struct(vec![Ty::Ptr, Ty::Int(64), Ty::Int(64)], false),
        _ => Ty::Void,
    }
}

fn mk_edge(
    l: &mut L,
    f: &Func,
    from: usize,
    to: u32,
    labels: &HashMap<u32, usize>,
    targets: &mut Vec<usize>,
) -> Result<u32, String> {
    let b = *labels.get(&to).ok_or("label")?;
    let mut moves = vec![];
    for ins in &f.blocks[b].insts {
        if let I::Phi(t, inc) = &ins.i {
            let from_label = f.blocks[from].label;
            let v = inc
                .iter()
                .find(|(_, lb)| *lb == from_label)
                .or_else(|| if from == 0 { inc.iter().find(|(_, lb)| !labels.contains_key(lb)) } else { None })
                .ok_or("phi pred")?;
            let o = l.ops(t, &v.0)?;
            let d = l.base[ins.dst.unwrap() as usize];
            for (k, x) in o.iter().enumerate() {
                if d + k as u32 != *x {
                    moves.push((d + k as u32, *x));
                }
            }
        } else {
            break;
        }
    }
    l.pf.edges.push(Edge { pc: 0, moves });
    targets.push(b);
    Ok(l.pf.edges.len() as u32 - 1)
}

fn lower_inst(
    l: &mut L,
    f: &Func,
    ins: &Inst,
    bi: usize,
    labels: &HashMap<u32, usize>,
    et: &mut Vec<usize>,
) -> Result<(), String> {
    let d = ins.dst.map(|x| l.base[x as usize]).unwrap_or(u32::MAX);
    match &ins.i {
        I::Bin(op, t, a, b) => {
            let s = scalar(t);
            let x = l.ops(t, a)?;
            let y = l.ops(t, b)?;
            if matches!(s, Ty::Float | Ty::Double) {
                for i in 0..x.len() {
                    let k = l.pf.fops.len() as u32;
                    l.pf.fops.push(FOp::Bin { op, dbl: s == Ty::Double, d: d + i as u32, a: x[i], b: y[i] });
                    l.emit(In::FOp { s: k });
                }
                return Ok(());
            }
            let w = sw(&s);
            let k = binop(op).ok_or("binop")?;
            if w > 64 {
                let n = wd(&s).len();
                for i in 0..x.len() / n {
                    let id = l.pf.wide.len() as u32;
                    l.pf.wide.push(WOp::Bin {
                        op,
                        w,
                        d: d + (i * n) as u32,
                        a: x[i * n..(i + 1) * n].to_vec(),
                        b: y[i * n..(i + 1) * n].to_vec(),
                    });
                    l.emit(In::Wide { s: id });
                }
                return Ok(());
            }
            for i in 0..x.len() {
                l.emit(In::Bin { k, w: w as u8, d: d + i as u32, a: x[i], b: y[i] });
            }
        }
        I::Icmp(op, t, a, b) => {
            let s = scalar(t);
            let x = l.ops(t, a)?;
            let y = l.ops(t, b)?;
            let w = sw(&s);
            if w > 64 {
                let id = l.pf.wide.len() as u32;
                l.pf.wide.push(WOp::Cmp { op, w, d, a: x, b: y });
                l.emit(In::Wide { s: id });
                return Ok(());
            }
            for i in 0..x.len() {
                l.emit(In::Cmp { k: cmpk(op), w: w as u8, d: d + i as u32, a: x[i], b: y[i] });
            }
        }
        I::Fcmp(op, t, a, b) => {
            let x = l.op1(t, a)?;
            let y = l.op1(t, b)?;
            let k = l.pf.fops.len() as u32;
            l.pf.fops.push(FOp::Cmp { op, dbl: *t == Ty::Double, d, a: x, b: y });
            l.emit(In::FOp { s: k });
        }
        I::Fneg(t, a) => {
            let x = l.op1(t, a)?;
            let k = l.pf.fops.len() as u32;
            l.pf.fops.push(FOp::Neg { dbl: *t == Ty::Double, d, a: x });
            l.emit(In::FOp { s: k });
        }
        I::Freeze(t, a) => {
            let x = l.ops(t, a)?;
            for i in 0..x.len() {
                l.emit(In::Mov { d: d + i as u32, a: x[i] });
            }
        }
        I::Cast(op, tf, a, tt) => {
            let sf = scalar(tf);
            let st = scalar(tt);
            let x = l.ops(tf, a)?;
            let (wf, wt) = (sw(&sf), sw(&st));
            match *op {
                "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                    if wf > 64 || wt > 64 {
                        let nf = wd(&sf).len();
                        let nt = wd(&st).len();
                        for i in 0..x.len() / nf {
                            let id = l.pf.wide.len() as u32;
                            l.pf.wide.push(WOp::Cast {
                                op,
                                wf,
                                wt,
                                d: d + (i * nt) as u32,
                                a: x[i * nf..(i + 1) * nf].to_vec(),
                            });
                            l.emit(In::Wide { s: id });
                        }
                        return Ok(());
                    }
                    for i in 0..x.len() {
                        let (dd, a) = (d + i as u32, x[i]);
                        let (wf, wt) = (wf as u8, wt as u8);
                        if wf == wt {
                            l.emit(In::Mov { d: dd, a });
                        } else if wf > wt {
                            l.emit(In::Trunc { d: dd, a, wf, wt });
                        } else if *op == "sext" {
                            l.emit(In::Sext { d: dd, a, wf, wt });
                        } else {
                            l.emit(In::Zext { d: dd, a, wf, wt });
                        }
                    }
                }
                "bitcast" => {
                    let wfs = wd(tf);
                    let wts = wd(tt);
                    if wfs == wts {
                        for i in 0..x.len() {
                            l.emit(In::Mov { d: d + i as u32, a: x[i] });
                        }
                    } else if wts.len() == 1 {
                        // vector -> int
                        let w = wts[0];
                        let mut acc = None;
                        let mut sh = 0u64;
                        for i in 0..x.len() {
                            let z = l.tmp();
                            l.emit(In::Zext { d: z, a: x[i], wf: wfs[i], wt: w });
                            let s = l.tmp();
                            let c = l.c(sh);
                            l.emit(In::Bin { k: E::Shl, w, d: s, a: z, b: c });
                            sh += wfs[i] as u64;
                            acc = Some(match acc {
                                None => s,
                                Some(p) => {
                                    let r = l.tmp();
                                    l.emit(In::Bin { k: E::Or, w, d: r, a: p, b: s });
                                    r
                                }
                            });
                        }
                        l.emit(In::Mov { d, a: acc.unwrap() });
                    } else if wfs.len() == 1 {
                        let w = wfs[0];
                        let mut sh = 0u64;
                        for i in 0..wts.len() {
                            let s = l.tmp();
                            let c = l.c(sh);
                            l.emit(In::Bin { k: E::LShr, w, d: s, a: x[0], b: c });
                            l.emit(In::Trunc { d: d + i as u32, a: s, wf: w, wt: wts[i] });
                            sh += wts[i] as u64;
                        }
                    } else {
                        return Err("bitcast".into());
                    }
                }
                _ => {
                    if x.len() != 1 || wf > 64 || wt > 64 {
                        return Err(format!("cast {}", op));
                    }
                    let k = l.pf.fops.len() as u32;
                    l.pf.fops.push(FOp::Cast {
                        op,
                        wf: wf as u8,
                        wt: wt as u8,
                        dblf: sf == Ty::Double,
                        dblt: st == Ty::Double,
                        d,
                        a: x[0],
                    });
                    l.emit(In::FOp { s: k });
                }
            }
        }
        I::Select(ct, c, t, a, b) => {
            let cs = l.ops(ct, c)?;
            let x = l.ops(t, a)?;
            let y = l.ops(t, b)?;
            let ws = wd(t);
            for i in 0..x.len() {
                let c = if cs.len() == 1 { cs[0] } else { cs[i] };
                l.emit(In::Sel { d: d + i as u32, c, a: x[i], b: y[i], w: ws[i] });
            }
        }
        I::Load(t, p) => {
            let p = l.op1(&Ty::Ptr, p)?;
            let mut lay = vec![];
            if let Ty::Vector(_, e) = t {
                if let Ty::Int(w) = **e {
                    if w % 8 != 0 {
                        return Err("sub-byte vector load".into());
                    }
                }
            }
            layout(t, 0, &mut lay);
            let p = if lay.len() > 1 {
                let q = l.tmp();
                l.emit(In::Mov { d: q, a: p });
                q
            } else {
                p
            };
            for (i, (o, w)) in lay.iter().enumerate() {
                l.emit(In::Load { d: d + i as u32, p, w: *w, off: *o as u32 });
            }
        }
        I::Store(t, v, p) => {
            let p = l.op1(&Ty::Ptr, p)?;
            let x = l.ops(t, v)?;
            if let Ty::Vector(_, e) = t {
                if let Ty::Int(w) = **e {
                    if w % 8 != 0 {
                        return Err("sub-byte vector store".into());
                    }
                }
            }
            let mut lay = vec![];
            layout(t, 0, &mut lay);
            for (i, (o, w)) in lay.iter().enumerate() {
                l.emit(In::Store { v: x[i], p, w: *w, off: *o as u32 });
            }
        }
        I::Gep(bt, p, idx) => {
            let mut base = l.op1(&Ty::Ptr, p)?;
            let mut off = 0i64;
            let mut t = bt.clone();
            let mut dyns: Vec<(O, i64)> = vec![];
            for (k, (it, iv)) in idx.iter().enumerate() {
                let w = sw(it);
                let sz;
                if k == 0 {
                    sz = t.size() as i64;
                } else {
                    if let Ty::Struct(..) = t {
                        let i = match iv {
                            V::Int(x) => *x as usize,
                            V::Zero => 0,
                            _ => return Err("struct gep".into()),
                        };
                        off += t.field_off(i) as i64;
                        t = t.elem(i).clone();
                        continue;
                    }
                    let e = t.elem(0).clone();
                    sz = e.size() as i64;
                    t = e;
                }
                match iv {
                    V::Local(_) => {
                        let mut o = l.op1(it, iv)?;
                        if w < 64 {
                            let x = l.tmp();
                            l.emit(In::Sext { d: x, a: o, wf: w as u8, wt: 64 });
                            o = x;
                        }
                        dyns.push((o, sz));
                    }
                    _ => {
                        let c = cval(it, iv, l.addr)? as u64;
                        off += crate::expr::sx(c, w as u8) * sz;
                    }
                }
            }
            for (o, s) in dyns {
                let r = l.tmp();
                l.emit(In::LeaX { d: r, base, idx: o, scale: s });
                base = r;
            }
            l.emit(In::Lea { d, base, off });
        }
        I::Alloca(t, n, al) => {
            let n = match n {
                V::Int(x) => *x as u64,
                _ => return Err("dynamic alloca".into()),
            };
            let al = (*al).max(1);
            let mut off = l.pf.frame as u64;
            off = (off + al - 1) / al * al;
            l.pf.frame = (off + t.size() * n) as u32;
            l.emit(In::Alloca { d, off: off as u32 });
        }
        I::Call { ret, callee, args, invoke } => {
            let mut a = vec![];
            for (t, v) in args {
                let ws = wd(t);
                let o = l.ops(t, v)?;
                for (x, w) in o.iter().zip(ws.iter()) {
                    a.push((*x, *w));
                }
            }
            let mut name = u32::MAX;
            let tgt = match callee {
                V::Global(g) => {
                    name = *g;
                    if let Some(k) = l.findex.get(g) {
                        Target::Func(*k)
                    } else {
                        let n = &l.m.names[*g as usize];
                        if is_panic(n) {
                            Target::Native(Nat::Panic)
                        } else {
                            Target::Native(nat_of(n).unwrap_or(Nat::Unknown(*g)))
                        }
                    }
                }
                V::Asm => return Err("inline asm".into()),
                v => Target::Indirect(l.op1(&Ty::Ptr, v)?),
            };
            if let Target::Native(Nat::Nop) = tgt {
                return Ok(());
            }
            if let (Target::Native(_), true) = (&tgt, name != u32::MAX && l.m.names[name as usize].starts_with("llvm.")) {
                let wide = |t: &Ty| matches!(t, Ty::Vector(..)) || matches!(t, Ty::Int(w) if *w > 64);
                if args.iter().any(|(t, _)| wide(t)) {
                    let n = l.m.names[name as usize].clone();
                    let op = ["uadd", "usub", "umul", "sadd", "ssub", "smul"]
                        .into_iter()
                        .find(|o| n.starts_with(&format!("llvm.{}.with.overflow.i128", o)));
                    if let (Some(op), 4) = (op, a.len()) {
                        let o: Vec<O> = a.iter().map(|x| x.0).collect();
                        let id = l.pf.wide.len() as u32;
                        l.pf.wide.push(WOp::Ovf { op, d, a: o[..2].to_vec(), b: o[2..].to_vec() });
                        l.emit(In::Wide { s: id });
                        return Ok(());
                    }
                    return Err(format!("wide {}", n));
                }
            }
            let rets = wd(ret);
            let cont = match invoke {
                Some((to, _)) => Some(mk_edge(l, f, bi, *to, labels, et)?),
                None => None,
            };
            let id = l.pf.sites.len() as u32;
            l.pf.sites.push(Site { tgt, args: a, d, rets, cont, name });
            l.emit(In::Call { s: id });
        }
        I::Phi(..) => {}
        I::Br(to) => {
            let e = mk_edge(l, f, bi, *to, labels, et)?;
            l.emit(In::Br { e });
        }
        I::CondBr(c, a, b) => {
            let c = l.op1(&Ty::Int(1), c)?;
            let t = mk_edge(l, f, bi, *a, labels, et)?;
            let fe = mk_edge(l, f, bi, *b, labels, et)?;
            l.emit(In::CondBr { c, t, f: fe });
        }
        I::Switch(t, v, def, cases) => {
            let w = sw(t);
            if w > 64 {
                return Err("wide switch".into());
            }
            let v = l.op1(t, v)?;
            let mut tgts: HashMap<u32, u32> = HashMap::new();
            let dfe = mk_edge(l, f, bi, *def, labels, et)?;
            tgts.insert(*def, dfe);
            let mut cs = vec![];
            let mut groups: Vec<(u32, Vec<u64>)> = vec![];
            for (c, lab) in cases {
                let e = match tgts.get(lab) {
                    Some(e) => *e,
                    None => {
                        let e = mk_edge(l, f, bi, *lab, labels, et)?;
                        tgts.insert(*lab, e);
                        e
                    }
                };
                cs.push((*c as u64, e));
                if e != dfe {
                    match groups.iter_mut().find(|g| g.0 == e) {
                        Some(g) => g.1.push(*c as u64),
                        None => groups.push((e, vec![*c as u64])),
                    }
                }
            }
            let map = cs.iter().copied().collect();
            let id = l.pf.sws.len() as u32;
            l.pf.sws.push(Sw { v, w: w as u8, def: dfe, cases: cs, groups, map });
            l.emit(In::Switch { s: id });
        }
        I::Ret(t, v) => {
            let o = if *t == Ty::Void { vec![] } else { l.ops(t, v)? };
            let id = l.pf.rets.len() as u32;
            l.pf.rets.push(o);
            l.emit(In::Ret { s: id });
        }
        I::Unreachable => l.emit(In::Unreachable),
        I::ExtractValue(t, v, ix) => {
            let o = l.ops(t, v)?;
            let (off, et2) = flat_index(t, ix);
            for i in 0..wd(&et2).len() {
                l.emit(In::Mov { d: d + i as u32, a: o[off + i] });
            }
        }
        I::InsertValue(t, v, t2, v2, ix) => {
            let mut o = l.ops(t, v)?;
            let x = l.ops(t2, v2)?;
            let (off, _) = flat_index(t, ix);
            for (i, y) in x.iter().enumerate() {
                o[off + i] = *y;
            }
            for (i, y) in o.iter().enumerate() {
                l.emit(In::Mov { d: d + i as u32, a: *y });
            }
        }
        I::ExtractElem(t, v, ix) => {
            let o = l.ops(t, v)?;
            match ix {
                V::Int(k) => l.emit(In::Mov { d, a: o[*k as usize] }),
                _ => return Err("dynamic extractelement".into()),
            }
        }
        I::InsertElem(t, v, e, ix) => {
            let mut o = l.ops(t, v)?;
            let x = l.op1(&scalar(t), e)?;
            match ix {
                V::Int(k) => o[*k as usize] = x,
                _ => return Err("dynamic insertelement".into()),
            }
            for (i, y) in o.iter().enumerate() {
                l.emit(In::Mov { d: d + i as u32, a: *y });
            }
        }
        I::Shuffle(t, a, b, mask) => {
            let x = l.ops(t, a)?;
            let y = l.ops(t, b)?;
            let z = l.c(0);
            for (i, mi) in mask.iter().enumerate() {
                let o = match mi {
                    None => z,
                    Some(k) if (*k as usize) < x.len() => x[*k as usize],
                    Some(k) => y[*k as usize - x.len()],
                };
                l.emit(In::Mov { d: d + i as u32, a: o });
            }
        }
        I::AtomicRmw(op, t, p, v) => {
            let p = l.op1(&Ty::Ptr, p)?;
            let v = l.op1(t, v)?;
            let k = match *op {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => return Err(format!("rmw {}", op)),
            };
            l.emit(In::Rmw { k, d, p, v, w: sw(t) as u8 });
        }
        I::CmpXchg(t, p, a, b) => {
            let p = l.op1(&Ty::Ptr, p)?;
            let a = l.op1(t, a)?;
            let b = l.op1(t, b)?;
            l.emit(In::CmpXchg { d, p, a, b, w: sw(t) as u8 });
        }
        I::Fence => {}
        I::Unsupported(s) => return Err(s.clone()),
    }
    Ok(())
}
