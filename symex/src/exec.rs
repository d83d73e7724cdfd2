//! Symbolic execution of one path: concrete values drive, expressions shadow.
use crate::expr::*;
use crate::lower::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Default)]
pub struct Val {
    pub c: u64,
    pub s: Id,
}

#[derive(Clone)]
pub struct Item {
    pub scn: u32,
    pub vals: Vec<u64>,
    pub dec: Vec<u8>, // decisions of the prefix: 0 constraint added, 1 implied
    pub hash: u64,    // hash of the prefix decisions
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    Assume,
    Fail(u32),
    Panic(String),
    Limit(&'static str),
    Error(String),
}

pub struct PathResult {
    pub outcome: Outcome,
    pub vals: Vec<u64>,
    pub input: Vec<u8>,
    pub digest: u64,
    pub checks: u32,
    pub steps: u64,
    pub decisions: u32,
    pub tags: Vec<u32>,
    pub nsym: u32,
}

#[derive(Clone)]
pub enum Cached {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Shared {
    pub l2: Vec<Mutex<FMap<u128, Cached>>>,
    /// print queries slower than this
    pub slow: f64,
    /// no solver calls after it
    pub deadline: std::time::Instant,
}
impl Shared {
    pub fn new(deadline: std::time::Instant) -> Self {
        Shared { deadline, l2: (0..64).map(|_| Mutex::new(Default::default())).collect(), slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0) }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_time: f64,
    pub l1: u64,
    pub l2: u64,
    pub asserts_proved: u64,
    pub asserts_const: u64,
    pub steps: u64,
    pub sym_branches: u64,
    pub concretised: u64,
}

const HBASE: u64 = 0x1000_0000;
const SBASE: u64 = 0x1_0000_0000;
const SSIZE: u64 = 64 << 20;

struct Region {
    base: u64,
    data: Vec<u8>,
    sh: Vec<Id>,
}

struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    sp: u64,
}

pub struct Machine {
    pub prog: Arc<Prog>,
    pub shared: Arc<Shared>,
    pub ex: Exprs,
    pub z3: Z3,
    l1: FMap<u128, Cached>,
    enum_cache: FMap<u128, Arc<Vec<(u64, Vec<(u32, u64)>)>>>,
    globals: Region,
    heap: Region,
    stack: Region,
    glog: Vec<(u32, u8)>,
    heap_top: u64,
    heap_high: u64,
    stack_high: u64,
    free: Vec<Vec<u64>>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    // path state
    known: FMap<Id, bool>,
    pinned: Vec<bool>,
    ufp: Vec<u32>,
    groups: Vec<Vec<Id>>,
    vals: Vec<u64>,
    varw: Vec<u8>,
    nvars: usize,
    dec: Vec<u8>,
    prefix: Vec<u8>,
    prefix_hash: u64,
    hash: u64,
    out: Vec<Item>,
    cand: Vec<(Outcome, Vec<u64>)>,
    scn: u32,
    input: Vec<u8>,
    digest: u64,
    checks: u32,
    tags: Vec<u32>,
    pub incomplete: HashMap<String, u64>,
    pub stats: Stats,
    pub called: Vec<u64>, // per function: call count
    pub step_limit: u64,
    pub depth_limit: usize,
}

enum Stop {
    O(Outcome),
}
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::O(Outcome::Error(s.into())))
}

impl Machine {
    pub fn new(prog: Arc<Prog>, shared: Arc<Shared>, timeout_ms: u32) -> Self {
        let g = prog.gmem.clone();
        let gl = g.len();
        let nf = prog.funcs.len();
        Machine {
            shared,
            ex: Exprs::new(),
            z3: Z3::new(timeout_ms),
            l1: Default::default(),
            enum_cache: Default::default(),
            globals: Region { base: GBASE, data: g, sh: vec![0; gl] },
            heap: Region { base: HBASE, data: vec![0; 1 << 20], sh: vec![0; 1 << 20] },
            stack: Region { base: SBASE, data: vec![0; 1 << 20], sh: vec![0; 1 << 20] },
            glog: vec![],
            heap_top: HBASE,
            heap_high: HBASE,
            stack_high: SBASE,
            free: vec![vec![]; 64],
            regs: vec![Val::default(); 4096],
            frames: vec![],
            known: Default::default(),
            pinned: vec![],
            ufp: vec![],
            groups: vec![],
            vals: vec![],
            varw: vec![],
            nvars: 0,
            dec: vec![],
            prefix: vec![],
            prefix_hash: 0,
            hash: 0,
            out: vec![],
            cand: vec![],
            scn: 0,
            input: vec![],
            digest: 0,
            checks: 0,
            tags: vec![],
            incomplete: HashMap::new(),
            stats: Stats::default(),
            called: vec![0; nf],
            step_limit: 150_000_000,
            depth_limit: 12_000,
            prog,
        }
    }

    fn reset(&mut self) {
        for (o, b) in self.glog.drain(..).rev() {
            self.globals.data[o as usize] = b;
            self.globals.sh[o as usize] = 0;
        }
        let h = (self.heap_high - HBASE) as usize;
        self.heap.sh[..h].fill(0);
        let s = (self.stack_high - SBASE) as usize;
        self.stack.sh[..s].fill(0);
        self.heap_top = HBASE;
        self.heap_high = HBASE;
        self.stack_high = SBASE;
        for f in &mut self.free {
            f.clear();
        }
        self.frames.clear();
        self.known.clear();
        self.pinned.clear();
        self.ufp.clear();
        self.groups.clear();
        self.varw.clear();
        self.nvars = 0;
        self.dec.clear();
        self.hash = 0;
        self.input.clear();
        self.digest = 0xcbf29ce484222325;
        self.checks = 0;
        self.tags.clear();
        if self.ex.nodes.len() > 3_000_000 || self.z3.made > 400_000 {
            self.ex = Exprs::new();
            self.z3.reset();
            self.l1.clear();
            self.enum_cache.clear();
        }
    }

    // ---------- memory ----------
    #[inline(always)]
    fn reg_of(&mut self, a: u64, n: u64) -> X<(&mut Region, usize)> {
        let r = if a >= SBASE {
            if a + n > SBASE + SSIZE {
                return err(format!("bad address {:#x}", a));
            }
            let need = (a + n - SBASE) as usize;
            if need > self.stack.data.len() {
                let nl = (need * 2).max(1 << 20);
                self.stack.data.resize(nl, 0);
                self.stack.sh.resize(nl, 0);
            }
            &mut self.stack
        } else if a >= HBASE {
            if a + n > self.heap_high.max(HBASE) {
                return err(format!("bad heap address {:#x}+{}", a, n));
            }
            &mut self.heap
        } else if a >= GBASE && a + n <= GBASE + self.globals.data.len() as u64 {
            &mut self.globals
        } else {
            return err(format!("bad address {:#x}+{}", a, n));
        };
        let o = (a - r.base) as usize;
        Ok((r, o))
    }
    #[inline(always)]
    fn load(&mut self, a: u64, w: u8) -> X<Val> {
        let n = ((w as usize) + 7) / 8;
        let (r, o) = self.reg_of(a, n as u64)?;
        let c = if n == 8 {
            u64::from_le_bytes(r.data[o..o + 8].try_into().unwrap())
        } else if n == 1 {
            r.data[o] as u64
        } else {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&r.data[o..o + n]);
            u64::from_le_bytes(b)
        } & m(w);
        let sh = &r.sh[o..o + n];
        if sh.iter().all(|x| *x == 0) {
            return Ok(Val { c, s: 0 });
        }
        let mut ids = [0 as Id; 8];
        let mut bytes = [0u8; 8];
        ids[..n].copy_from_slice(sh);
        bytes[..n].copy_from_slice(&r.data[o..o + n]);
        let mut acc = 0;
        for k in 0..n {
            let e = if ids[k] != 0 { ids[k] } else { self.ex.cst(bytes[k] as u64, 8) };
            acc = if k == 0 { e } else { self.ex.concat(e, acc) };
        }
        let s = if (n * 8) as u8 != w { self.ex.extract(acc, 0, w) } else { acc };
        Ok(self.norm(c, s))
    }
    #[inline(always)]
    fn norm(&self, c: u64, s: Id) -> Val {
        if self.ex.cv(s).is_some() {
            Val { c, s: 0 }
        } else {
            Val { c, s }
        }
    }
    #[inline(always)]
    fn store(&mut self, a: u64, v: Val, w: u8) -> X<()> {
        let n = ((w as usize) + 7) / 8;
        if a < HBASE {
            self.log_global(a, n as u64)?;
        } else if a >= SBASE && a + 8 > self.stack_high {
            self.stack_high = a + 8;
        }
        let mut ids = [0 as Id; 8];
        if v.s != 0 {
            let e = if (n * 8) as u8 != w { self.ex.zext(v.s, (n * 8) as u8) } else { v.s };
            for k in 0..n {
                let b = self.ex.extract(e, (k * 8) as u8, 8);
                ids[k] = if self.ex.cv(b).is_some() { 0 } else { b };
            }
        }
        let (r, o) = self.reg_of(a, n as u64)?;
        let b = v.c.to_le_bytes();
        r.data[o..o + n].copy_from_slice(&b[..n]);
        r.sh[o..o + n].copy_from_slice(&ids[..n]);
        Ok(())
    }
    fn log_global(&mut self, a: u64, n: u64) -> X<()> {
        if a < GBASE || a + n > GBASE + self.globals.data.len() as u64 {
            return err(format!("bad store {:#x}", a));
        }
        for k in 0..n {
            let o = (a + k - GBASE) as usize;
            self.glog.push((o as u32, self.globals.data[o]));
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sh) = {
            let (r, o) = self.reg_of(s, n)?;
            (r.data[o..o + n as usize].to_vec(), r.sh[o..o + n as usize].to_vec())
        };
        if d < HBASE {
            self.log_global(d, n)?;
        } else if d >= SBASE && d + n > self.stack_high {
            self.stack_high = d + n;
        }
        let (r, o) = self.reg_of(d, n)?;
        r.data[o..o + n as usize].copy_from_slice(&data);
        r.sh[o..o + n as usize].copy_from_slice(&sh);
        Ok(())
    }
    fn bytes(&mut self, p: u64, n: u64) -> X<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (r, o) = self.reg_of(p, n)?;
        Ok((0..n as usize).map(|k| Val { c: r.data[o + k] as u64, s: r.sh[o + k] }).collect())
    }
    fn class(n: u64) -> (usize, u64) {
        let n = n.max(16);
        let p = n.next_power_of_two();
        (p.trailing_zeros() as usize, p)
    }
    fn malloc(&mut self, n: u64, al: u64) -> X<u64> {
        if n > 1 << 28 {
            return Ok(0);
        }
        let (k, sz) = Self::class(n + 16);
        let a = if al <= 16 && !self.free[k].is_empty() {
            self.free[k].pop().unwrap()
        } else {
            let mut t = self.heap_top + 16;
            if al > 16 {
                t = (t + al - 1) / al * al;
            }
            let end = t + sz;
            if end > HBASE + (1 << 30) {
                return err("heap exhausted");
            }
            let need = (end - HBASE) as usize;
            if need > self.heap.data.len() {
                let nl = (need * 2).max(1 << 20);
                self.heap.data.resize(nl, 0);
                self.heap.sh.resize(nl, 0);
            }
            self.heap_top = end;
            self.heap_high = self.heap_high.max(end);
            // header: class index
            let o = (t - 16 - HBASE) as usize;
            self.heap.data[o..o + 8].copy_from_slice(&(k as u64).to_le_bytes());
            t
        };
        // remember the requested size in the header
        let o = (a - 8 - HBASE) as usize;
        self.heap.data[o..o + 8].copy_from_slice(&n.to_le_bytes());
        Ok(a)
    }
    fn free_(&mut self, a: u64) -> X<()> {
        if a == 0 {
            return Ok(());
        }
        let o = (a - 16 - HBASE) as usize;
        let k = u64::from_le_bytes(self.heap.data[o..o + 8].try_into().unwrap()) as usize;
        let n = u64::from_le_bytes(self.heap.data[o + 8..o + 16].try_into().unwrap()) as usize;
        if k >= 64 {
            return err("free of bad pointer");
        }
        let s = (a - HBASE) as usize;
        self.heap.sh[s..s + n].fill(0);
        self.free[k].push(a);
        Ok(())
    }

    // ---------- path condition ----------
    fn find(&mut self, mut v: u32) -> u32 {
        while self.ufp[v as usize] != v {
            let p = self.ufp[v as usize];
            self.ufp[v as usize] = self.ufp[p as usize];
            v = p;
        }
        v
    }
    fn add(&mut self, c: Id) {
        if self.ex.cv(c).is_some() {
            return;
        }
        let n = self.ex.n(c);
        if n.op == Op::And {
            self.add(n.a);
            self.add(n.b);
            self.known.insert(c, true);
            return;
        }
        if self.known.get(&c) == Some(&true) {
            return;
        }
        self.learn(c);
        if n.op == Op::Eq {
            let na = self.ex.n(n.a);
            if na.op == Op::Var && self.ex.cv(n.b).is_some() {
                self.pinned[na.a as usize] = true;
            }
        }
        if n.op == Op::Var && n.w == 1 {
            self.pinned[n.a as usize] = true;
        }
        let sup: Vec<u32> = self.ex.support(c).to_vec();
        let mut r = self.find(sup[0]);
        for v in &sup[1..] {
            let q = self.find(*v);
            if q != r {
                let (big, small) = if self.groups[r as usize].len() >= self.groups[q as usize].len() { (r, q) } else { (q, r) };
                let g = std::mem::take(&mut self.groups[small as usize]);
                self.groups[big as usize].extend(g);
                self.ufp[small as usize] = big;
                r = big;
            }
        }
        self.groups[r as usize].push(c);
    }
    fn learn(&mut self, c: Id) {
        self.known.insert(c, true);
        let n = self.ex.not(c);
        self.known.insert(n, false);
    }
    fn truth(&self, c: Id, concrete: bool) -> Option<bool> {
        if let Some(v) = self.ex.cv(c) {
            return Some(v == 1);
        }
        if let Some(b) = self.known.get(&c) {
            return Some(*b);
        }
        if self.ex.support(c).iter().all(|v| self.pinned[*v as usize]) {
            return Some(concrete);
        }
        self.deduce(c, 12)
    }
    /// what follows from known parts
    fn deduce(&self, c: Id, d: u32) -> Option<bool> {
        if let Some(v) = self.ex.cv(c) {
            return Some(v == 1);
        }
        if let Some(b) = self.known.get(&c) {
            return Some(*b);
        }
        if d == 0 {
            return None;
        }
        let n = self.ex.n(c);
        if n.w != 1 {
            return None;
        }
        match n.op {
            Op::Not => self.deduce(n.a, d - 1).map(|x| !x),
            Op::And => match (self.deduce(n.a, d - 1), self.deduce(n.b, d - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.deduce(n.a, d - 1), self.deduce(n.b, d - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    fn slice(&mut self, e: &[Id]) -> Vec<Id> {
        let mut roots: Vec<u32> = vec![];
        let mut sups: Vec<u32> = vec![];
        for i in e {
            sups.extend_from_slice(self.ex.support(*i));
        }
        sups.sort_unstable();
        sups.dedup();
        for v in sups {
            let r = self.find(v);
            if !roots.contains(&r) {
                roots.push(r);
            }
        }
        let mut out = vec![];
        for r in roots {
            out.extend_from_slice(&self.groups[r as usize]);
        }
        out
    }
    /// Is (path condition) && extra satisfiable?  Values for the variables involved.
    fn query(&mut self, extra: &[Id]) -> (Cached, Vec<u32>) {
        self.stats.queries += 1;
        let mut cs = self.slice(extra);
        cs.sort_unstable();
        cs.dedup();
        for e in extra {
            if self.ex.cv(*e) == Some(0) {
                return (Cached::Unsat, vec![]);
            }
        }
        cs.extend_from_slice(extra);
        // level 1 : ids
        let k1 = hash_ids(&cs);
        let mut vars: Vec<u32> = vec![];
        for c in &cs {
            vars.extend_from_slice(self.ex.support(*c));
        }
        vars.sort_unstable();
        vars.dedup();
        if let Some(r) = self.l1.get(&k1) {
            self.stats.l1 += 1;
            return (r.clone(), vars);
        }
        // level 2 : alpha-renamed structure
        let (k2, order) = self.canon(&cs);
        let shard = (k2 as usize) & 63;
        let hit = self.shared.l2[shard].lock().unwrap().get(&k2).cloned();
        let r = if let Some(h) = hit {
            self.stats.l2 += 1;
            match h {
                Cached::Sat(v) => {
                    // v is in canonical order -> reorder to sorted vars
                    let mut o = vec![0; vars.len()];
                    for (i, var) in order.iter().enumerate() {
                        let p = vars.binary_search(var).unwrap();
                        o[p] = v[i];
                    }
                    Cached::Sat(o)
                }
                x => x,
            }
        } else {
            let vv: Vec<(u32, Id)> = vars.iter().map(|v| (*v, self.ex.var(*v, self.varw[*v as usize]))).collect();
            let t = std::time::Instant::now();
            if t > self.shared.deadline {
                self.note_incomplete("time budget exhausted within a path");
                return (Cached::Unknown, vars);
            }
            let r = self.z3.check(&self.ex, &cs, &vv);
            let dt = t.elapsed().as_secs_f64();
            self.stats.z3_time += dt;
            self.stats.z3_queries += 1;
            if self.shared.slow > 0.0 && dt > self.shared.slow {
                let mut o = format!("SLOW {:.3}s {} constraints\n", dt, cs.len());
                for c in &cs {
                    o += &format!("   {}\n", self.ex.show(*c, 12));
                }
                eprintln!("{}", o);
            }
            let r = match r {
                Res::Sat(v) => {
                    self.stats.z3_sat += 1;
                    // cross-check the model against our own semantics
                    let mut memo = Default::default();
                    let f = |x: u32| v[vars.binary_search(&x).unwrap()];
                    let ok = cs.iter().all(|c| self.ex.eval(*c, &f, &mut memo) == 1);
                    if ok {
                        Cached::Sat(v)
                    } else {
                        *self.incomplete.entry("z3 model rejected by evaluator".into()).or_default() += 1;
                        Cached::Unknown
                    }
                }
                Res::Unsat => {
                    self.stats.z3_unsat += 1;
                    Cached::Unsat
                }
                Res::Unknown => {
                    self.stats.z3_unknown += 1;
                    Cached::Unknown
                }
            };
            let canon = match &r {
                Cached::Sat(v) => {
                    Cached::Sat(order.iter().map(|x| v[vars.binary_search(x).unwrap()]).collect())
                }
                x => x.clone(),
            };
            self.shared.l2[shard].lock().unwrap().insert(k2, canon);
            r
        };
        self.l1.insert(k1, r.clone());
        (r, vars)
    }
    fn canon(&self, cs: &[Id]) -> (u128, Vec<u32>) {
        // order constraints by a structural, name-independent key is expensive; use given order
        let mut h1: u64 = 0x9E3779B97F4A7C15;
        let mut h2: u64 = 0xC2B2AE3D27D4EB4F;
        let mut put = |x: u64| {
            h1 = (h1.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h1 ^= h1 >> 29;
            h2 = (h2 ^ x).wrapping_mul(0xD6E8FEB86659FD93);
            h2 ^= h2 >> 32;
        };
        let mut order: Vec<u32> = vec![];
        let mut vm: FMap<u32, u64> = Default::default();
        let mut nm: FMap<Id, u64> = Default::default();
        let mut stack: Vec<(Id, bool)> = vec![];
        for c in cs {
            put(0xC0FFEE);
            stack.push((*c, false));
            while let Some((i, _)) = stack.pop() {
                if let Some(k) = nm.get(&i) {
                    put(0x1000_0000 + *k);
                    continue;
                }
                let n = self.ex.n(i);
                let k = nm.len() as u64;
                nm.insert(i, k);
                match n.op {
                    Op::Const => {
                        put(1 + ((n.w as u64) << 8));
                        put(n.c);
                    }
                    Op::Var => {
                        let l = vm.len() as u64;
                        let x = *vm.entry(n.a).or_insert_with(|| {
                            order.push(n.a);
                            l
                        });
                        put(2 + ((n.w as u64) << 8) + (x << 16));
                    }
                    _ => {
                        put(3 + ((n.w as u64) << 8) + ((n.op as u64) << 16));
                        match n.op {
                            Op::Not | Op::Zext | Op::Sext => stack.push((n.a, false)),
                            Op::Extract => {
                                put(n.b as u64);
                                stack.push((n.a, false));
                            }
                            Op::Ite => {
                                stack.push((n.c as Id, false));
                                stack.push((n.b, false));
                                stack.push((n.a, false));
                            }
                            _ => {
                                stack.push((n.b, false));
                                stack.push((n.a, false));
                            }
                        }
                    }
                }
            }
        }
        (((h1 as u128) << 64) | h2 as u128, order)
    }
    fn note_incomplete(&mut self, s: &str) {
        *self.incomplete.entry(s.to_string()).or_default() += 1;
    }
    fn step_dec(&mut self, tag: u64, status: u8) {
        self.hash = (self.hash.rotate_left(7) ^ tag).wrapping_mul(0x9E3779B97F4A7C15);
        self.dec.push(status);
    }
    fn check_prefix(&mut self) -> X<()> {
        if self.dec.len() == self.prefix.len() && self.hash != self.prefix_hash && !self.prefix.is_empty() {
            return err("path diverged from its prefix");
        }
        Ok(())
    }
    fn push_item(&mut self, model: &[u64], vars: &[u32], tag: u64) {
        let mut vals: Vec<u64> = self.vals[..self.nvars].to_vec();
        for (k, v) in vars.iter().enumerate() {
            vals[*v as usize] = model[k];
        }
        let mut dec = self.dec.clone();
        dec.push(0);
        let hash = (self.hash.rotate_left(7) ^ tag).wrapping_mul(0x9E3779B97F4A7C15);
        self.out.push(Item { scn: self.scn, vals, dec, hash });
    }
    fn decide(&mut self, cond: Id, taken: bool) -> X<()> {
        let c = if taken { cond } else { self.ex.not(cond) };
        if let Some(t) = self.truth(c, true) {
            if !t {
                return err("inconsistent path condition");
            }
            return Ok(());
        }
        self.stats.sym_branches += 1;
        let idx = self.dec.len();
        if idx < self.prefix.len() {
            let st = self.prefix[idx];
            if st == 0 {
                self.add(c);
            } else {
                self.learn(c);
            }
            self.step_dec(taken as u64 + 1, st);
            return self.check_prefix();
        }
        let nc = self.ex.not(c);
        let (r, vars) = self.query(&[nc]);
        match r {
            Cached::Unsat => {
                self.learn(c);
                self.step_dec(taken as u64 + 1, 1);
            }
            Cached::Sat(mdl) => {
                self.push_item(&mdl, &vars, (!taken) as u64 + 1);
                self.add(c);
                self.step_dec(taken as u64 + 1, 0);
            }
            Cached::Unknown => {
                self.note_incomplete("solver unknown on a branch");
                self.add(c);
                self.step_dec(taken as u64 + 1, 0);
            }
        }
        Ok(())
    }
    /// All feasible values of e (up to a limit) with a model for each.
    fn all_values(&mut self, e: Id, cur: u64) -> Arc<Vec<(u64, Vec<(u32, u64)>)>> {
        let mut cs = self.slice(&[e]);
        cs.sort_unstable();
        cs.push(e);
        cs.push(self.ex.cst(cur, 64));
        let key = hash_ids(&cs);
        if let Some(r) = self.enum_cache.get(&key) {
            return r.clone();
        }
        let w = self.ex.w(e);
        let mut out = vec![(cur, vec![])];
        let k = self.ex.cst(cur, w);
        let eq = self.ex.bin(Op::Eq, e, k);
        let mut extra = vec![self.ex.not(eq)];
        loop {
            if out.len() > 300 {
                self.note_incomplete("more than 300 values in a concretisation");
                break;
            }
            let (r, vars) = self.query(&extra);
            match r {
                Cached::Sat(mdl) => {
                    let f = |x: u32| match vars.binary_search(&x) {
                        Ok(i) => mdl[i],
                        Err(_) => 0,
                    };
                    let mut memo = Default::default();
                    let v = self.ex.eval(e, &f, &mut memo);
                    out.push((v, vars.iter().copied().zip(mdl.iter().copied()).collect()));
                    let k = self.ex.cst(v, w);
                    let eq = self.ex.bin(Op::Eq, e, k);
                    let ne = self.ex.not(eq);
                    extra.push(ne);
                }
                Cached::Unsat => break,
                Cached::Unknown => {
                    self.note_incomplete("solver unknown in a concretisation");
                    break;
                }
            }
        }
        let a = Arc::new(out);
        self.enum_cache.insert(key, a.clone());
        a
    }
    fn concretise(&mut self, v: Val) -> X<u64> {
        if v.s == 0 {
            return Ok(v.c);
        }
        if self.ex.support(v.s).iter().all(|x| self.pinned[*x as usize]) {
            return Ok(v.c);
        }
        self.stats.concretised += 1;
        let w = self.ex.w(v.s);
        let k = self.ex.cst(v.c, w);
        let eq = self.ex.bin(Op::Eq, v.s, k);
        if self.known.get(&eq) == Some(&true) {
            return Ok(v.c);
        }
        let idx = self.dec.len();
        let tag = v.c.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x55;
        if idx < self.prefix.len() {
            let st = self.prefix[idx];
            if st == 0 {
                self.add(eq);
            } else {
                self.learn(eq);
            }
            self.step_dec(tag, st);
            self.check_prefix()?;
            return Ok(v.c);
        }
        let all = self.all_values(v.s, v.c);
        if all.len() == 1 {
            self.learn(eq);
            self.step_dec(tag, 1);
            return Ok(v.c);
        }
        for (x, mdl) in all.iter().skip(1) {
            let (vars, vals): (Vec<u32>, Vec<u64>) = mdl.iter().copied().unzip();
            let t = x.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x55;
            self.push_item(&vals, &vars, t);
        }
        self.add(eq);
        self.step_dec(tag, 0);
        Ok(v.c)
    }
    fn assume(&mut self, v: Val) -> X<()> {
        if v.s == 0 {
            if v.c & 1 == 0 {
                return Err(Stop::O(Outcome::Assume));
            }
            return Ok(());
        }
        let conc = v.c & 1 == 1;
        match self.truth(v.s, conc) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::O(Outcome::Assume)),
            None => {}
        }
        if conc {
            self.add(v.s);
            return Ok(());
        }
        if self.dec.len() < self.prefix.len() {
            return err("assumption violated inside a prefix");
        }
        let (r, vars) = self.query(&[v.s]);
        match r {
            Cached::Sat(mdl) => {
                let mut vals: Vec<u64> = self.vals[..self.nvars].to_vec();
                for (k, x) in vars.iter().enumerate() {
                    vals[*x as usize] = mdl[k];
                }
                self.out.push(Item { scn: self.scn, vals, dec: self.dec.clone(), hash: self.hash });
            }
            Cached::Unsat => {}
            Cached::Unknown => self.note_incomplete("solver unknown on an assumption"),
        }
        Err(Stop::O(Outcome::Assume))
    }
    fn assert(&mut self, v: Val, label: u32) -> X<()> {
        self.checks += 1;
        if v.s == 0 || self.ex.support(v.s).iter().all(|x| self.pinned[*x as usize]) {
            self.stats.asserts_const += 1;
            if v.c & 1 == 0 {
                return Err(Stop::O(Outcome::Fail(label)));
            }
            return Ok(());
        }
        if v.c & 1 == 0 {
            // concrete failure; nothing more to explore on this side, but the
            // values that satisfy the assertion continue
            if self.dec.len() >= self.prefix.len() {
                let (r, vars) = self.query(&[v.s]);
                if let Cached::Sat(mdl) = r {
                    self.push_assume(&mdl, &vars);
                }
            }
            return Err(Stop::O(Outcome::Fail(label)));
        }
        if self.dec.len() >= self.prefix.len() {
            if self.known.get(&v.s) == Some(&true) {
                self.stats.asserts_proved += 1;
                return Ok(());
            }
            let n = self.ex.not(v.s);
            let (r, vars) = self.query(&[n]);
            match r {
                Cached::Unsat => {
                    self.stats.asserts_proved += 1;
                    self.learn(v.s);
                    return Ok(());
                }
                Cached::Sat(mdl) => {
                    let mut vals: Vec<u64> = self.vals[..self.nvars].to_vec();
                    for (k, x) in vars.iter().enumerate() {
                        vals[*x as usize] = mdl[k];
                    }
                    self.cand.push((Outcome::Fail(label), vals));
                }
                Cached::Unknown => self.note_incomplete("solver unknown on an assertion"),
            }
        }
        self.add(v.s);
        Ok(())
    }
    fn push_assume(&mut self, mdl: &[u64], vars: &[u32]) {
        let mut vals: Vec<u64> = self.vals[..self.nvars].to_vec();
        for (k, x) in vars.iter().enumerate() {
            vals[*x as usize] = mdl[k];
        }
        self.out.push(Item { scn: self.scn, vals, dec: self.dec.clone(), hash: self.hash });
    }
    fn new_var(&mut self, w: u8, hint: u64) -> (Id, u64) {
        let k = self.nvars;
        if k >= self.vals.len() {
            self.vals.push(hint & m(w));
        }
        self.nvars += 1;
        self.varw.push(w);
        self.pinned.push(false);
        self.ufp.push(k as u32);
        self.groups.push(vec![]);
        (self.ex.var(k as u32, w), self.vals[k] & m(w))
    }

    // ---------- value ops ----------
    fn ide(&mut self, v: Val, w: u8) -> Id {
        if v.s != 0 {
            v.s
        } else {
            self.ex.cst(v.c, w)
        }
    }
    fn bin(&mut self, k: Op, w: u8, a: Val, b: Val) -> X<Val> {
        if a.s == 0 && b.s == 0 {
            return match Exprs::fold(k, w, a.c, b.c) {
                Some(c) => Ok(Val { c, s: 0 }),
                None => Err(Stop::O(Outcome::Panic("division by zero".into()))),
            };
        }
        if matches!(k, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && b.s != 0 {
            let y = self.concretise(b)?;
            return self.bin(k, w, a, Val { c: y, s: 0 });
        }
        let x = self.ide(a, w);
        let y = self.ide(b, w);
        let e = self.ex.bin(k, x, y);
        let c = Exprs::fold(k, w, a.c, b.c).unwrap_or(0);
        Ok(self.norm(c, e))
    }
    fn cmp(&mut self, k: CmpK, w: u8, a: Val, b: Val) -> Val {
        let (x, y) = (a.c, b.c);
        let c = match k {
            CmpK::Eq => x == y,
            CmpK::Ne => x != y,
            CmpK::Ult => x < y,
            CmpK::Ule => x <= y,
            CmpK::Ugt => x > y,
            CmpK::Uge => x >= y,
            CmpK::Slt => sx(x, w) < sx(y, w),
            CmpK::Sle => sx(x, w) <= sx(y, w),
            CmpK::Sgt => sx(x, w) > sx(y, w),
            CmpK::Sge => sx(x, w) >= sx(y, w),
        } as u64;
        if a.s == 0 && b.s == 0 {
            return Val { c, s: 0 };
        }
        let x = self.ide(a, w);
        let y = self.ide(b, w);
        let e = match k {
            CmpK::Eq => self.ex.bin(Op::Eq, x, y),
            CmpK::Ne => {
                let r = self.ex.bin(Op::Eq, x, y);
                self.ex.not(r)
            }
            CmpK::Ult => self.ex.bin(Op::Ult, x, y),
            CmpK::Ule => self.ex.bin(Op::Ule, x, y),
            CmpK::Ugt => self.ex.bin(Op::Ult, y, x),
            CmpK::Uge => self.ex.bin(Op::Ule, y, x),
            CmpK::Slt => self.ex.bin(Op::Slt, x, y),
            CmpK::Sle => self.ex.bin(Op::Sle, x, y),
            CmpK::Sgt => self.ex.bin(Op::Slt, y, x),
            CmpK::Sge => self.ex.bin(Op::Sle, y, x),
        };
        self.norm(c, e)
    }
    fn sel(&mut self, c: Val, a: Val, b: Val, w: u8) -> Val {
        let conc = if c.c & 1 == 1 { a } else { b };
        if c.s == 0 {
            return conc;
        }
        if let Some(t) = self.truth(c.s, c.c & 1 == 1) {
            return if t { a } else { b };
        }
        let x = self.ide(a, w);
        let y = self.ide(b, w);
        let e = self.ex.ite(c.s, x, y);
        self.norm(conc.c, e)
    }
    /// A load through a symbolic address: fork over the feasible addresses, unless
    /// all of them hold concrete bytes (then the result is an if-then-else).
    fn load_sym(&mut self, p: Val, w: u8) -> X<Val> {
        if p.s == 0 || self.ex.support(p.s).iter().all(|x| self.pinned[*x as usize]) {
            return self.load(p.c, w);
        }
        let all = self.all_values(p.s, p.c);
        if all.len() > 1 && all.len() <= 300 && w <= 32 {
            let mut vals = vec![];
            let mut ok = true;
            for (a, _) in all.iter() {
                match self.load(*a, w) {
                    Ok(v) if v.s == 0 => vals.push((*a, v.c)),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                vals.sort();
                let mut acc = self.ex.cst(vals[vals.len() - 1].1, w);
                let mut i = vals.len() - 1;
                while i > 0 {
                    i -= 1;
                    let v = vals[i].1;
                    if i + 1 < vals.len() && vals[i + 1].1 == v {
                        continue;
                    }
                    let k = self.ex.cst(vals[i].0, 64);
                    let c = self.ex.bin(Op::Ule, p.s, k);
                    let ve = self.ex.cst(v, w);
                    acc = self.ex.ite(c, ve, acc);
                }
                let c = self.load(p.c, w)?.c;
                return Ok(self.norm(c, acc));
            }
        }
        let a = self.concretise(p)?;
        self.load(a, w)
    }

    #[inline(always)]
    fn rd(&self, base: usize, consts: &[u64], o: O) -> Val {
        if o & CST != 0 {
            Val { c: consts[(o & !CST) as usize], s: 0 }
        } else {
            self.regs[base + o as usize]
        }
    }
    fn push_frame(&mut self, f: u32, base: u32, sp: u64) -> X<()> {
        if self.frames.len() >= self.depth_limit {
            return Err(Stop::O(Outcome::Limit("recursion depth")));
        }
        let n = self.prog.funcs[f as usize].nregs;
        let need = (base + n) as usize + 64;
        if need > self.regs.len() {
            self.regs.resize(need * 2, Val::default());
        }
        self.called[f as usize] += 1;
        let fr = self.prog.funcs[f as usize].frame as u64;
        if sp + fr > self.stack_high {
            self.stack_high = sp + fr;
        }
        if sp + fr >= SBASE + SSIZE {
            return Err(Stop::O(Outcome::Limit("stack size")));
        }
        let need = (sp + fr + 64 - SBASE) as usize;
        if need > self.stack.data.len() {
            self.stack.data.resize(need * 2, 0);
            self.stack.sh.resize(need * 2, 0);
        }
        self.frames.push(Frame { f, pc: 0, base, sp });
        Ok(())
    }

    pub fn run(&mut self, it: &Item, entry: u32) -> (PathResult, Vec<Item>, Vec<(Outcome, Vec<u64>)>) {
        self.reset();
        self.vals = it.vals.clone();
        self.prefix = it.dec.clone();
        self.prefix_hash = it.hash;
        self.scn = it.scn;
        self.out = vec![];
        self.cand = vec![];
        let mut steps = 0u64;
        let r = self.exec(entry, it.scn, &mut steps);
        self.stats.steps += steps;
        let outcome = match r {
            Ok(()) => Outcome::Done,
            Err(Stop::O(o)) => o,
        };
        let vals = self.vals[..self.nvars].to_vec();
        if !matches!(outcome, Outcome::Done | Outcome::Assume) {
            self.cand.push((outcome.clone(), vals.clone()));
        }
        (
            PathResult {
                outcome,
                vals,
                input: std::mem::take(&mut self.input),
                digest: self.digest,
                checks: self.checks,
                steps,
                decisions: self.dec.len() as u32,
                tags: std::mem::take(&mut self.tags),
                nsym: self.nvars as u32,
            },
            std::mem::take(&mut self.out),
            std::mem::take(&mut self.cand),
        )
    }

    fn exec(&mut self, entry: u32, scn: u32, steps: &mut u64) -> X<()> {
        let prog = self.prog.clone();
        self.push_frame(entry, 0, SBASE)?;
        self.regs[0] = Val { c: scn as u64, s: 0 };
        let mut pf = &prog.funcs[entry as usize];
        let mut base = 0usize;
        let mut sp = SBASE;
        let mut pc = 0usize;
        let mut n = 0u64;
        let mut mv: Vec<(u32, Val)> = Vec::with_capacity(32);
        let limit = self.step_limit;
        macro_rules! rd {
            ($o:expr) => {
                self.rd(base, &pf.consts, $o)
            };
        }
        macro_rules! wr {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let i = base + $d as usize;
                self.regs[i] = v;
            }};
        }
        macro_rules! goto {
            ($e:expr) => {{
                let e = &pf.edges[$e as usize];
                if e.moves.len() == 1 {
                    let (d, o) = e.moves[0];
                    let v = rd!(o);
                    wr!(d, v);
                } else if !e.moves.is_empty() {
                    mv.clear();
                    for (d, o) in &e.moves {
                        mv.push((*d, rd!(*o)));
                    }
                    for (d, v) in &mv {
                        self.regs[base + *d as usize] = *v;
                    }
                }
                pc = e.pc as usize;
            }};
        }
        loop {
            n += 1;
            if n > limit {
                *steps = n;
                return Err(Stop::O(Outcome::Limit("steps")));
            }
            *steps = n;
            let ins = pf.code[pc];
            pc += 1;
            match ins {
                In::Bin { k, w, d, a, b } => {
                    let (a, b) = (rd!(a), rd!(b));
                    if a.s == 0 && b.s == 0 {
                        match k {
                            Op::Add => wr!(d, Val { c: a.c.wrapping_add(b.c) & m(w), s: 0 }),
                            Op::Sub => wr!(d, Val { c: a.c.wrapping_sub(b.c) & m(w), s: 0 }),
                            Op::And => wr!(d, Val { c: a.c & b.c, s: 0 }),
                            Op::Or => wr!(d, Val { c: a.c | b.c, s: 0 }),
                            _ => {
                                let v = self.bin(k, w, a, b)?;
                                wr!(d, v)
                            }
                        }
                    } else {
                        let v = self.bin(k, w, a, b)?;
                        wr!(d, v)
                    }
                }
                In::Cmp { k, w, d, a, b } => {
                    let v = {
                        let (a, b) = (rd!(a), rd!(b));
                        self.cmp(k, w, a, b)
                    };
                    wr!(d, v)
                }
                In::Zext { d, a, wf: _, wt } => {
                    let a = rd!(a);
                    if a.s == 0 {
                        wr!(d, a)
                    } else {
                        let e = self.ex.zext(a.s, wt);
                        wr!(d, Val { c: a.c, s: e })
                    }
                }
                In::Sext { d, a, wf, wt } => {
                    let a = rd!(a);
                    let c = (sx(a.c, wf) as u64) & m(wt);
                    if a.s == 0 {
                        wr!(d, Val { c, s: 0 })
                    } else {
                        let e = self.ex.sext(a.s, wt);
                        wr!(d, Val { c, s: e })
                    }
                }
                In::Trunc { d, a, wf: _, wt } => {
                    let a = rd!(a);
                    let c = a.c & m(wt);
                    if a.s == 0 {
                        wr!(d, Val { c, s: 0 })
                    } else {
                        let e = self.ex.extract(a.s, 0, wt);
                        let v = self.norm(c, e);
                        wr!(d, v)
                    }
                }
                In::Mov { d, a } => wr!(d, rd!(a)),
                In::Sel { d, c, a, b, w } => {
                    let (c, a, b) = (rd!(c), rd!(a), rd!(b));
                    if c.s == 0 {
                        wr!(d, if c.c & 1 == 1 { a } else { b })
                    } else {
                        let v = self.sel(c, a, b, w);
                        wr!(d, v)
                    }
                }
                In::Load { d, p, w, off } => {
                    let p = rd!(p);
                    let v = if p.s == 0 {
                        self.load(p.c.wrapping_add(off as u64), w)?
                    } else {
                        let q = if off == 0 {
                            p
                        } else {
                            let k = Val { c: off as u64, s: 0 };
                            self.bin(Op::Add, 64, p, k)?
                        };
                        self.load_sym(q, w)?
                    };
                    wr!(d, v)
                }
                In::Store { v, p, w, off } => {
                    let p = rd!(p);
                    let v = rd!(v);
                    let a = if p.s == 0 { p.c } else { self.concretise(p)? };
                    self.store(a.wrapping_add(off as u64), v, w)?;
                }
                In::Lea { d, base: b, off } => {
                    let b = rd!(b);
                    if b.s == 0 {
                        wr!(d, Val { c: b.c.wrapping_add(off as u64), s: 0 })
                    } else {
                        let v = self.bin(Op::Add, 64, b, Val { c: off as u64, s: 0 })?;
                        wr!(d, v)
                    }
                }
                In::LeaX { d, base: b, idx, scale } => {
                    let (b, i) = (rd!(b), rd!(idx));
                    if b.s == 0 && i.s == 0 {
                        wr!(d, Val { c: b.c.wrapping_add(i.c.wrapping_mul(scale as u64)), s: 0 })
                    } else {
                        let x = self.bin(Op::Mul, 64, i, Val { c: scale as u64, s: 0 })?;
                        let v = self.bin(Op::Add, 64, b, x)?;
                        wr!(d, v)
                    }
                }
                In::Alloca { d, off } => wr!(d, Val { c: sp + off as u64, s: 0 }),
                In::Br { e } => goto!(e),
                In::CondBr { c, t, f } => {
                    let c = rd!(c);
                    let taken = c.c & 1 == 1;
                    if c.s != 0 {
                        self.decide(c.s, taken)?;
                    }
                    let e = if taken { t } else { f };
                    goto!(e);
                }
                In::Switch { s } => {
                    let swx = &pf.sws[s as usize];
                    let v = rd!(swx.v);
                    let e = *swx.map.get(&v.c).unwrap_or(&swx.def);
                    if v.s != 0 {
                        self.do_switch(swx, v, e)?;
                    }
                    goto!(e);
                }
                In::Ret { s } => {
                    let rv: &Vec<O> = &pf.rets[s as usize];
                    mv.clear();
                    for o in rv {
                        mv.push((0, rd!(*o)));
                    }
                    self.frames.pop();
                    match self.frames.last() {
                        None => return Ok(()),
                        Some(fr) => {
                            pf = &prog.funcs[fr.f as usize];
                            base = fr.base as usize;
                            sp = fr.sp;
                            let cpc = fr.pc as usize; // the call instruction
                            let site = match pf.code[cpc] {
                                In::Call { s } => &pf.sites[s as usize],
                                _ => return err("ret"),
                            };
                            for (k, (_, v)) in mv.iter().enumerate() {
                                self.regs[base + site.d as usize + k] = *v;
                            }
                            match site.cont {
                                Some(e) => goto!(e),
                                None => pc = cpc + 1,
                            }
                        }
                    }
                }
                In::Call { s } => {
                    let site = &pf.sites[s as usize];
                    let tgt = match &site.tgt {
                        Target::Indirect(o) => {
                            let v = rd!(*o);
                            let a = self.concretise(v)?;
                            match prog.by_addr.get(&a) {
                                Some(t) => t.clone(),
                                None => return err(format!("indirect call to {:#x}", a)),
                            }
                        }
                        t => t.clone(),
                    };
                    match tgt {
                        Target::Func(f) => {
                            let callee = &prog.funcs[f as usize];
                            if callee.panics {
                                return Err(Stop::O(Outcome::Panic(self.panic_where(&callee.name))));
                            }
                            let nb = base as u32 + pf.nregs;
                            self.frames.last_mut().unwrap().pc = pc as u32 - 1;
                            let nsp = (sp + pf.frame as u64 + 15) & !15;
                            self.push_frame(f, nb, nsp)?;
                            for (k, (o, _)) in site.args.iter().enumerate() {
                                let v = rd!(*o);
                                self.regs[nb as usize + k] = v;
                            }
                            pf = callee;
                            base = nb as usize;
                            sp = nsp;
                            pc = 0;
                        }
                        Target::Native(nat) => {
                            let mut args: [Val; 6] = [Val::default(); 6];
                            for (k, (o, _)) in site.args.iter().enumerate().take(6) {
                                args[k] = rd!(*o);
                            }
                            let w = site.args.get(0).map(|x| x.1).unwrap_or(0);
                            let r = self.native(nat, &args, w, &site.rets)?;
                            for k in 0..site.rets.len().min(2) {
                                self.regs[base + site.d as usize + k] = r[k];
                            }
                            if let Some(e) = site.cont {
                                goto!(e);
                            }
                        }
                        Target::Indirect(_) => return err("indirect"),
                    }
                }
                In::Unreachable => {
                    return Err(Stop::O(Outcome::Panic(format!("unreachable reached in {}", pf.name))));
                }
                In::Trap { m } => return err(format!("unsupported in {}: {}", pf.name, pf.traps[m as usize])),
                In::Wide { s } => {
                    let op = &pf.wide[s as usize];
                    self.wide(op, base, &pf.consts)?;
                }
                In::FOp { s } => {
                    let op = &pf.fops[s as usize];
                    self.fop(op, base, &pf.consts)?;
                }
                In::Rmw { k, d, p, v, w } => {
                    let p = rd!(p);
                    let v = rd!(v);
                    let a = self.concretise(p)?;
                    let old = self.load(a, w)?;
                    let nv = match k {
                        0 => v,
                        1 => self.bin(Op::Add, w, old, v)?,
                        2 => self.bin(Op::Sub, w, old, v)?,
                        3 => self.bin(Op::And, w, old, v)?,
                        4 => self.bin(Op::Or, w, old, v)?,
                        _ => self.bin(Op::Xor, w, old, v)?,
                    };
                    self.store(a, nv, w)?;
                    if d != u32::MAX {
                        wr!(d, old)
                    }
                }
                In::CmpXchg { d, p, a, b, w } => {
                    let p = rd!(p);
                    let (x, y) = (rd!(a), rd!(b));
                    let ad = self.concretise(p)?;
                    let old = self.load(ad, w)?;
                    let oc = self.concretise(old)?;
                    let xc = self.concretise(x)?;
                    if oc == xc {
                        self.store(ad, y, w)?;
                    }
                    wr!(d, Val { c: oc, s: 0 });
                    wr!(d + 1, Val { c: (oc == xc) as u64, s: 0 });
                }
            }
        }
    }

    fn panic_where(&self, callee: &str) -> String {
        let mut s = short_name(callee);
        for f in self.frames.iter().rev() {
            let n = &self.prog.funcs[f.f as usize].name;
            if n.contains("nom_sparql") || n.contains("3nom") || n.contains("harness") {
                s.push_str(" <- ");
                s.push_str(&short_name(n));
                break;
            }
        }
        s
    }

    fn do_switch(&mut self, swx: &Sw, v: Val, e: u32) -> X<()> {
        let all_pinned = self.ex.support(v.s).iter().all(|x| self.pinned[*x as usize]);
        if all_pinned {
            return Ok(());
        }
        let w = swx.w;
        // build conditions per target
        let mut conds: Vec<(u32, Id)> = vec![];
        let mut any: Id = self.ex.cst(0, 1);
        for (edge, vals) in &swx.groups {
            let mut c = self.ex.cst(0, 1);
            for x in vals {
                let k = self.ex.cst(*x, w);
                let q = self.ex.bin(Op::Eq, v.s, k);
                c = self.ex.bin(Op::Or, c, q);
            }
            any = self.ex.bin(Op::Or, any, c);
            conds.push((*edge, c));
        }
        let dc = self.ex.not(any);
        conds.push((swx.def, dc));
        let cur = conds.iter().position(|x| x.0 == e).unwrap();
        let c = conds[cur].1;
        match self.truth(c, true) {
            Some(true) => return Ok(()),
            Some(false) => return err("inconsistent switch"),
            None => {}
        }
        self.stats.sym_branches += 1;
        let idx = self.dec.len();
        let tag = 0x100 + cur as u64;
        if idx < self.prefix.len() {
            let st = self.prefix[idx];
            if st == 0 {
                self.add(c);
            } else {
                self.learn(c);
            }
            self.step_dec(tag, st);
            return self.check_prefix();
        }
        let mut forked = false;
        for (k, (_, oc)) in conds.clone().iter().enumerate() {
            if k == cur {
                continue;
            }
            if self.ex.cv(*oc) == Some(0) || self.known.get(oc) == Some(&false) {
                continue;
            }
            let (r, vars) = self.query(&[*oc]);
            match r {
                Cached::Sat(mdl) => {
                    forked = true;
                    self.push_item(&mdl, &vars, 0x100 + k as u64);
                }
                Cached::Unsat => {}
                Cached::Unknown => {
                    forked = true;
                    self.note_incomplete("solver unknown on a switch");
                }
            }
        }
        if forked {
            self.add(c);
            self.step_dec(tag, 0);
        } else {
            self.learn(c);
            self.step_dec(tag, 1);
        }
        Ok(())
    }

    fn rdw(&mut self, base: usize, consts: &[u64], a: &[O], w: u32) -> X<u128> {
        let mut x = 0u128;
        for (i, o) in a.iter().enumerate() {
            let v = self.rd(base, consts, *o);
            let c = self.concretise(v)?;
            x |= (c as u128) << (64 * i);
        }
        let _ = w;
        Ok(x)
    }
    fn wrw(&mut self, base: usize, d: u32, w: u32, x: u128) {
        let x = if w < 128 { x & ((1u128 << w) - 1) } else { x };
        self.regs[base + d as usize] = Val { c: x as u64, s: 0 };
        if w > 64 {
            self.regs[base + d as usize + 1] = Val { c: (x >> 64) as u64, s: 0 };
        }
    }
    fn wide(&mut self, op: &WOp, base: usize, consts: &[u64]) -> X<()> {
        match op {
            WOp::Bin { op, w, d, a, b } => {
                // bitwise and 64-multiple shifts stay symbolic
                let ws: Vec<u8> = if *w > 64 { vec![64, (*w - 64) as u8] } else { vec![*w as u8] };
                if let Some(k) = match *op {
                    "and" => Some(Op::And),
                    "or" => Some(Op::Or),
                    "xor" => Some(Op::Xor),
                    _ => None,
                } {
                    for i in 0..a.len() {
                        let (x, y) = (self.rd(base, consts, a[i]), self.rd(base, consts, b[i]));
                        let v = self.bin(k, ws[i], x, y)?;
                        self.regs[base + *d as usize + i] = v;
                    }
                    return Ok(());
                }
                if (*op == "shl" || *op == "lshr") && *w == 128 {
                    let s0 = self.rd(base, consts, b[0]);
                    if s0.s == 0 && s0.c == 64 {
                        let lo = self.rd(base, consts, a[0]);
                        let hi = self.rd(base, consts, a[1]);
                        let z = Val::default();
                        let (l, h) = if *op == "shl" { (z, lo) } else { (hi, z) };
                        self.regs[base + *d as usize] = l;
                        self.regs[base + *d as usize + 1] = h;
                        return Ok(());
                    }
                }
                let x = self.rdw(base, consts, a, *w)?;
                let y = self.rdw(base, consts, b, *w)?;
                let sxw = |v: u128| -> i128 {
                    if *w >= 128 {
                        v as i128
                    } else {
                        ((v << (128 - w)) as i128) >> (128 - w)
                    }
                };
                let r = match *op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "udiv" => {
                        if y == 0 {
                            return err("div0");
                        }
                        x / y
                    }
                    "urem" => {
                        if y == 0 {
                            return err("div0");
                        }
                        x % y
                    }
                    "shl" => {
                        if y >= *w as u128 {
                            0
                        } else {
                            x << y
                        }
                    }
                    "lshr" => {
                        if y >= *w as u128 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    "ashr" => (sxw(x) >> y.min(127)) as u128,
                    _ => return err(format!("wide {}", op)),
                };
                self.wrw(base, *d, *w, r);
            }
            WOp::Cmp { op, w, d, a, b } => {
                let x = self.rdw(base, consts, a, *w)?;
                let y = self.rdw(base, consts, b, *w)?;
                let s = |v: u128| -> i128 {
                    if *w >= 128 {
                        v as i128
                    } else {
                        ((v << (128 - w)) as i128) >> (128 - w)
                    }
                };
                let r = match *op {
                    "eq" => x == y,
                    "ne" => x != y,
                    "ult" => x < y,
                    "ule" => x <= y,
                    "ugt" => x > y,
                    "uge" => x >= y,
                    "slt" => s(x) < s(y),
                    "sle" => s(x) <= s(y),
                    "sgt" => s(x) > s(y),
                    _ => s(x) >= s(y),
                };
                self.regs[base + *d as usize] = Val { c: r as u64, s: 0 };
            }
            WOp::Ovf { op, d, a, b } => {
                let x = self.rdw(base, consts, a, 128)?;
                let y = self.rdw(base, consts, b, 128)?;
                let (r, o) = match *op {
                    "uadd" => x.overflowing_add(y),
                    "usub" => x.overflowing_sub(y),
                    "umul" => x.overflowing_mul(y),
                    "sadd" => { let r = (x as i128).overflowing_add(y as i128); (r.0 as u128, r.1) }
                    "ssub" => { let r = (x as i128).overflowing_sub(y as i128); (r.0 as u128, r.1) }
                    _ => { let r = (x as i128).overflowing_mul(y as i128); (r.0 as u128, r.1) }
                };
                self.wrw(base, *d, 128, r);
                self.regs[base + *d as usize + 2] = Val { c: o as u64, s: 0 };
            }
            WOp::Cast { op, wf, wt, d, a } => {
                // keep limbs symbolic where possible
                if (*op == "zext" || *op == "trunc" || *op == "ptrtoint" || *op == "inttoptr") && *wf >= 64 || *op == "zext" {
                    if *wt > 64 {
                        let lo = self.rd(base, consts, a[0]);
                        let lo = if lo.s != 0 && *wf < 64 {
                            let e = self.ex.zext(lo.s, 64);
                            self.norm(lo.c, e)
                        } else {
                            lo
                        };
                        let hi = if a.len() > 1 {
                            let h = self.rd(base, consts, a[1]);
                            let (f, t) = ((*wf - 64) as u8, (*wt - 64) as u8);
                            if h.s == 0 {
                                Val { c: h.c & m(t), s: 0 }
                            } else {
                                let e = if t >= f { self.ex.zext(h.s, t) } else { self.ex.extract(h.s, 0, t) };
                                self.norm(h.c & m(t), e)
                            }
                        } else {
                            Val::default()
                        };
                        self.regs[base + *d as usize] = lo;
                        self.regs[base + *d as usize + 1] = hi;
                    } else {
                        let lo = self.rd(base, consts, a[0]);
                        let v = if lo.s == 0 {
                            Val { c: lo.c & m(*wt as u8), s: 0 }
                        } else {
                            let e = self.ex.extract(lo.s, 0, *wt as u8);
                            self.norm(lo.c & m(*wt as u8), e)
                        };
                        self.regs[base + *d as usize] = v;
                    }
                    return Ok(());
                }
                let x = self.rdw(base, consts, a, *wf)?;
                let x = if *op == "sext" { (((x << (128 - wf)) as i128) >> (128 - wf)) as u128 } else { x };
                self.wrw(base, *d, *wt, x);
            }
        }
        Ok(())
    }
    fn fop(&mut self, op: &FOp, base: usize, consts: &[u64]) -> X<()> {
        match op {
            FOp::Bin { op, dbl, d, a, b } => {
                let (x, y) = (self.rd(base, consts, *a), self.rd(base, consts, *b));
                let (x, y) = (self.concretise(x)?, self.concretise(y)?);
                let r = if *dbl {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    match *op {
                        "fadd" => p + q,
                        "fsub" => p - q,
                        "fmul" => p * q,
                        "fdiv" => p / q,
                        _ => p % q,
                    }
                    .to_bits()
                } else {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match *op {
                        "fadd" => p + q,
                        "fsub" => p - q,
                        "fmul" => p * q,
                        "fdiv" => p / q,
                        _ => p % q,
                    }
                    .to_bits() as u64
                };
                self.regs[base + *d as usize] = Val { c: r, s: 0 };
            }
            FOp::Cmp { op, dbl, d, a, b } => {
                let (x, y) = (self.rd(base, consts, *a), self.rd(base, consts, *b));
                let (x, y) = (self.concretise(x)?, self.concretise(y)?);
                let (p, q) = if *dbl {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = p.is_nan() || q.is_nan();
                let r = match *op {
                    "oeq" => p == q,
                    "ogt" => p > q,
                    "oge" => p >= q,
                    "olt" => p < q,
                    "ole" => p <= q,
                    "one" => !un && p != q,
                    "ord" => !un,
                    "ueq" => un || p == q,
                    "ugt" => un || p > q,
                    "uge" => un || p >= q,
                    "ult" => un || p < q,
                    "ule" => un || p <= q,
                    "une" => un || p != q,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.regs[base + *d as usize] = Val { c: r as u64, s: 0 };
            }
            FOp::Cast { op, wf, wt, dblf, dblt, d, a } => {
                let x = self.rd(base, consts, *a);
                let x = self.concretise(x)?;
                let fb = |v: f64, dbl: bool| if dbl { v.to_bits() } else { (v as f32).to_bits() as u64 };
                let ff = if *dblf { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let r = match *op {
                    "uitofp" => {
                        if *dblt {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    "sitofp" => {
                        let s = sx(x, *wf);
                        if *dblt {
                            (s as f64).to_bits()
                        } else {
                            (s as f32).to_bits() as u64
                        }
                    }
                    "fptoui" => (ff as u64) & m(*wt),
                    "fptosi" => (ff as i64 as u64) & m(*wt),
                    "fpext" | "fptrunc" => fb(ff, *dblt),
                    _ => return err(format!("fp cast {}", op)),
                };
                self.regs[base + *d as usize] = Val { c: r, s: 0 };
            }
            FOp::Neg { dbl, d, a } => {
                let x = self.rd(base, consts, *a);
                let k = if *dbl { 1u64 << 63 } else { 1 << 31 };
                let v = self.bin(Op::Xor, if *dbl { 64 } else { 32 }, x, Val { c: k, s: 0 })?;
                self.regs[base + *d as usize] = v;
            }
        }
        Ok(())
    }

    fn native(&mut self, nat: Nat, a: &[Val; 6], w: u8, rets: &[u8]) -> X<[Val; 2]> {
        use Nat::*;
        let v = |c: u64| [Val { c, s: 0 }, Val::default()];
        let none = [Val::default(); 2];
        Ok(match nat {
            Nop => none,
            Malloc => {
                let n = self.concretise(a[0])?;
                v(self.malloc(n, 16)?)
            }
            Calloc => {
                let n = self.concretise(a[0])?.wrapping_mul(self.concretise(a[1])?);
                let p = self.malloc(n, 16)?;
                if p != 0 {
                    self.fill(p, Val::default(), n)?;
                }
                v(p)
            }
            Realloc => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                let q = self.malloc(n, 16)?;
                if p != 0 && q != 0 {
                    let o = (p - 8 - HBASE) as usize;
                    let old = u64::from_le_bytes(self.heap.data[o..o + 8].try_into().unwrap());
                    self.copy(q, p, old.min(n))?;
                    self.free_(p)?;
                }
                v(q)
            }
            Free => {
                let p = self.concretise(a[0])?;
                self.free_(p)?;
                none
            }
            Memalign => {
                let out = self.concretise(a[0])?;
                let al = self.concretise(a[1])?;
                let n = self.concretise(a[2])?;
                let p = self.malloc(n, al)?;
                self.store(out, Val { c: p, s: 0 }, 64)?;
                v(0)
            }
            Memcpy | Memmove => {
                let n = self.concretise(a[2])?;
                let d = self.concretise(a[0])?;
                let s = self.concretise(a[1])?;
                self.copy(d, s, n)?;
                [a[0], Val::default()]
            }
            Memset => {
                let n = self.concretise(a[2])?;
                let d = self.concretise(a[0])?;
                let b = if a[1].s != 0 {
                    let e = self.ex.extract(a[1].s, 0, 8);
                    self.norm(a[1].c & 255, e)
                } else {
                    Val { c: a[1].c & 255, s: 0 }
                };
                self.fill(d, b, n)?;
                [a[0], Val::default()]
            }
            Bcmp => {
                let n = self.concretise(a[2])?;
                let p = self.concretise(a[0])?;
                let q = self.concretise(a[1])?;
                let x = self.bytes(p, n)?;
                let y = self.bytes(q, n)?;
                // memcmp order result in {-1,0,1}; bcmp uses are compared with zero
                let mut acc = Val { c: 0, s: 0 };
                let (xs, ys): (Vec<u8>, Vec<u8>) = (x.iter().map(|v| v.c as u8).collect(), y.iter().map(|v| v.c as u8).collect());
                let conc: i32 = match xs.cmp(&ys) {
                    std::cmp::Ordering::Less => -1,
                    std::cmp::Ordering::Equal => 0,
                    _ => 1,
                };
                for k in (0..n as usize).rev() {
                    let eq = self.cmp(CmpK::Eq, 8, x[k], y[k]);
                    let lt = self.cmp(CmpK::Ult, 8, x[k], y[k]);
                    let r = self.sel(lt, Val { c: 0xffff_ffff, s: 0 }, Val { c: 1, s: 0 }, 32);
                    acc = self.sel(eq, acc, r, 32);
                }
                acc.c = conc as u32 as u64;
                [acc, Val::default()]
            }
            Strlen => {
                let p = self.concretise(a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load(p + n, 8)?;
                    if self.concretise(b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                v(n)
            }
            Umax | Umin | Smax | Smin => {
                let k = match nat {
                    Umax => CmpK::Ugt,
                    Umin => CmpK::Ult,
                    Smax => CmpK::Sgt,
                    _ => CmpK::Slt,
                };
                let c = self.cmp(k, w, a[0], a[1]);
                [self.sel(c, a[0], a[1], w), Val::default()]
            }
            Abs => {
                let c = self.cmp(CmpK::Slt, w, a[0], Val::default());
                let n = self.bin(Op::Sub, w, Val::default(), a[0])?;
                [self.sel(c, n, a[0], w), Val::default()]
            }
            Ctpop | Cttz | Ctlz | Bswap | Bitrev => {
                if a[0].s != 0 && nat == Cttz && w <= 16 {
                    // ite chain
                    let mut acc = Val { c: w as u64, s: 0 };
                    for k in (0..w).rev() {
                        let sh = self.bin(Op::And, w, a[0], Val { c: 1 << k, s: 0 })?;
                        let z = self.cmp(CmpK::Ne, w, sh, Val::default());
                        acc = self.sel(z, Val { c: k as u64, s: 0 }, acc, w);
                    }
                    acc.c = (a[0].c.trailing_zeros() as u64).min(w as u64);
                    return Ok([acc, Val::default()]);
                }
                let x = self.concretise(a[0])?;
                v(match nat {
                    Ctpop => x.count_ones() as u64,
                    Cttz => (x.trailing_zeros() as u64).min(w as u64),
                    Ctlz => x.leading_zeros() as u64 - (64 - w as u64),
                    Bswap => x.swap_bytes() >> (64 - w as u64),
                    _ => x.reverse_bits() >> (64 - w as u64),
                })
            }
            Fshl | Fshr => {
                let s = self.concretise(a[2])? % w as u64;
                if s == 0 {
                    return Ok([if nat == Fshl { a[0] } else { a[1] }, Val::default()]);
                }
                let (l, r) = if nat == Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let x = self.bin(Op::Shl, w, a[0], Val { c: l, s: 0 })?;
                let y = self.bin(Op::LShr, w, a[1], Val { c: r, s: 0 })?;
                [self.bin(Op::Or, w, x, y)?, Val::default()]
            }
            UaddO => {
                let r = self.bin(Op::Add, w, a[0], a[1])?;
                let o = self.cmp(CmpK::Ult, w, r, a[0]);
                [r, o]
            }
            UsubO => {
                let r = self.bin(Op::Sub, w, a[0], a[1])?;
                let o = self.cmp(CmpK::Ult, w, a[0], a[1]);
                [r, o]
            }
            UmulO | SmulO | SaddO | SsubO => {
                let (k, ok) = match nat {
                    UmulO => (Op::Mul, Op::UMulO),
                    SmulO => (Op::Mul, Op::SMulO),
                    SaddO => (Op::Add, Op::SAddO),
                    _ => (Op::Sub, Op::SSubO),
                };
                let r = self.bin(k, w, a[0], a[1])?;
                let o = self.bin(ok, w, a[0], a[1])?;
                [r, o]
            }
            UsubSat => {
                let r = self.bin(Op::Sub, w, a[0], a[1])?;
                let o = self.cmp(CmpK::Ult, w, a[0], a[1]);
                [self.sel(o, Val::default(), r, w), Val::default()]
            }
            UaddSat => {
                let r = self.bin(Op::Add, w, a[0], a[1])?;
                let o = self.cmp(CmpK::Ult, w, r, a[0]);
                [self.sel(o, Val { c: m(w), s: 0 }, r, w), Val::default()]
            }
            Ucmp | Scmp => {
                let rw = rets[0];
                let lt = self.cmp(if nat == Ucmp { CmpK::Ult } else { CmpK::Slt }, w, a[0], a[1]);
                let gt = self.cmp(if nat == Ucmp { CmpK::Ugt } else { CmpK::Sgt }, w, a[0], a[1]);
                let x = self.sel(gt, Val { c: 1, s: 0 }, Val::default(), rw);
                [self.sel(lt, Val { c: m(rw), s: 0 }, x, rw), Val::default()]
            }
            IsConst => v(0),
            TlsAddr | Expect => [a[0], Val::default()],
            LoadRel => {
                let p = self.concretise(a[0])?;
                let o = self.concretise(a[1])?;
                let x = self.load(p.wrapping_add(o), 32)?;
                let x = self.concretise(x)?;
                v(p.wrapping_add(sx(x, 32) as u64))
            }
            Objectsize => v(!0),
            Panic => return Err(Stop::O(Outcome::Panic(self.panic_where("panic")))),
            Trap => return Err(Stop::O(Outcome::Panic(self.panic_where("abort")))),
            Write => v(self.concretise(a[2])?),
            SymByte => {
                let hint = self.concretise(a[0])?;
                let (id, c) = self.new_var(8, hint);
                [Val { c, s: id }, Val::default()]
            }
            SymChoice => {
                let n = self.concretise(a[0])?;
                let (id, mut c) = self.new_var(8, 0);
                if c >= n {
                    c = 0;
                }
                let k = self.ex.cst(n, 8);
                let lt = self.ex.bin(Op::Ult, id, k);
                self.add(lt);
                let c = self.concretise(Val { c, s: id })?;
                v(c)
            }
            SymSplit => {
                let c = Val { c: a[0].c & 1, s: a[0].s };
                let c = if c.s != 0 && self.ex.w(c.s) != 1 {
                    let e = self.ex.extract(c.s, 0, 1);
                    self.norm(c.c, e)
                } else {
                    c
                };
                if c.s != 0 {
                    self.decide(c.s, c.c == 1)?;
                }
                v(c.c)
            }
            SymAssume => {
                self.assume(a[0])?;
                none
            }
            SymCheck => {
                let l = self.concretise(a[1])? as u32;
                let c = Val { c: a[0].c & 1, s: a[0].s };
                let c = if c.s != 0 && self.ex.w(c.s) != 1 {
                    let e = self.ex.extract(c.s, 0, 1);
                    self.norm(c.c, e)
                } else {
                    c
                };
                self.assert(c, l)?;
                self.dig(&[0x5a, l as u8]);
                none
            }
            SymCheckEq => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                let q = self.concretise(a[2])?;
                let k = self.concretise(a[3])?;
                let l = self.concretise(a[4])? as u32;
                let x = self.bytes(p, n)?;
                let y = self.bytes(q, k)?;
                let bs: Vec<u8> = x.iter().map(|v| v.c as u8).collect();
                if n != k {
                    self.checks += 1;
                    return Err(Stop::O(Outcome::Fail(l)));
                }
                let mut acc = Val { c: 1, s: 0 };
                for i in 0..n as usize {
                    let e = self.cmp(CmpK::Eq, 8, x[i], y[i]);
                    acc = self.bin(Op::And, 1, acc, e)?;
                }
                self.assert(acc, l)?;
                self.dig(&bs);
                none
            }
            SymInput => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                let b: Vec<u8> = self.bytes(p, n)?.iter().map(|v| v.c as u8).collect();
                self.dig(&b);
                self.input = b;
                none
            }
            SymReach | SymTag => {
                let t = self.concretise(a[0])? as u32;
                self.tags.push(t);
                none
            }
            Const(c) => v(c),
            Random => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                self.fill(p, Val { c: 0x5a, s: 0 }, n)?;
                v(n)
            }
            Syscall => match self.concretise(a[0])? {
                318 => {
                    let p = self.concretise(a[1])?;
                    let n = self.concretise(a[2])?;
                    self.fill(p, Val { c: 0x5a, s: 0 }, n)?;
                    v(n)
                }
                // futex: nobody else waits
                202 => v(0),
                n => return err(format!("system call {}", n)),
            },
            Errno => {
                let p = self.malloc(16, 16)?;
                self.fill(p, Val::default(), 16)?;
                v(p)
            }
            Clock => {
                let p = self.concretise(a[1])?;
                self.fill(p, Val::default(), 16)?;
                v(0)
            }
            F1(k) => {
                let x = f64::from_bits(self.concretise(a[0])?);
                let y = match k {
                    0 => x.sqrt(),
                    1 => x.floor(),
                    2 => x.ceil(),
                    3 => x.trunc(),
                    4 => x.round(),
                    5 => x.abs(),
                    6 => x.ln(),
                    7 => x.log2(),
                    8 => x.log10(),
                    9 => x.ln_1p(),
                    10 => x.exp(),
                    _ => x.exp2(),
                };
                v(y.to_bits())
            }
            F2(k) => {
                let x = f64::from_bits(self.concretise(a[0])?);
                let b = self.concretise(a[1])?;
                let y = f64::from_bits(b);
                let z = match k {
                    0 => x.powf(y),
                    1 => x % y,
                    2 => x.powi(b as u32 as i32),
                    3 => x.min(y),
                    4 => x.max(y),
                    _ => x.copysign(y),
                };
                v(z.to_bits())
            }
            Unknown(id) => return err(format!("call to unmodelled external {}", self.prog.strs[id as usize])),
        })
    }
    fn dig(&mut self, b: &[u8]) {
        for x in b {
            self.digest = (self.digest ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.digest = (self.digest ^ 0xff).wrapping_mul(0x100000001b3);
    }
    fn fill(&mut self, d: u64, b: Val, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if d < HBASE {
            self.log_global(d, n)?;
        } else if d >= SBASE && d + n > self.stack_high {
            self.stack_high = d + n;
        }
        let (r, o) = self.reg_of(d, n)?;
        r.data[o..o + n as usize].fill(b.c as u8);
        r.sh[o..o + n as usize].fill(b.s);
        Ok(())
    }
}

fn hash_ids(cs: &[Id]) -> u128 {
    let mut h1: u64 = 0x9E3779B97F4A7C15;
    let mut h2: u64 = 0xC2B2AE3D27D4EB4F;
    for c in cs {
        h1 = (h1.rotate_left(5) ^ *c as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h1 ^= h1 >> 29;
        h2 = (h2 ^ *c as u64).wrapping_mul(0xD6E8FEB86659FD93);
        h2 ^= h2 >> 32;
    }
    ((h1 as u128) << 64) | h2 as u128
}

/// Readable tail of a v0-mangled name: its path identifiers.
pub fn short_name(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() && k < 80 {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.retain(|s| s != "core" && s != "std" && s != "alloc");
    if out.len() > 8 {
        out.truncate(8);
    }
    out.join("::")
}
