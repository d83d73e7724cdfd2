//! Hash-consed bit-vector expressions (widths 1..=64) with light simplification.
use std::collections::HashMap;

pub type Id = u32; // 0 = "no expression" (value is concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Zext,
    Sext,
    Extract, // b = low bit
    Concat,  // a high, b low
    Ite,     // a ? b : c
    UMulO,
    SMulO,
    SAddO,
    SSubO,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: u64,
}

pub fn m(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}

pub struct FastHasher(u64);
impl Default for FastHasher {
    fn default() -> Self {
        FastHasher(0xcbf29ce484222325)
    }
}
impl std::hash::Hasher for FastHasher {
    fn finish(&self) -> u64 {
        let x = self.0;
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 32;
    }
}
pub type BH = std::hash::BuildHasherDefault<FastHasher>;
pub type FMap<K, V> = HashMap<K, V, BH>;

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: FMap<Node, Id>,
    pub sup: Vec<u32>, // support set id per node
    pub sets: Vec<Box<[u32]>>,
    setmap: FMap<Box<[u32]>, u32>,
    unions: FMap<(u32, u32), u32>,
}

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs {
            nodes: vec![],
            map: Default::default(),
            sup: vec![],
            sets: vec![],
            setmap: Default::default(),
            unions: Default::default(),
        };
        e.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        e.sup.push(0);
        e.sets.push(Box::new([]));
        e.setmap.insert(Box::new([]), 0);
        e
    }
    pub fn w(&self, i: Id) -> u8 {
        self.nodes[i as usize].w
    }
    pub fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    pub fn cv(&self, i: Id) -> Option<u64> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Some(n.c)
        } else {
            None
        }
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.unions.get(&k) {
            return *r;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.intern_set(v);
        self.unions.insert(k, r);
        r
    }
    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        let b: Box<[u32]> = v.into();
        if let Some(r) = self.setmap.get(&b) {
            return *r;
        }
        let id = self.sets.len() as u32;
        self.sets.push(b.clone());
        self.setmap.insert(b, id);
        id
    }
    pub fn support(&self, i: Id) -> &[u32] {
        &self.sets[self.sup[i as usize] as usize]
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let s = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(vec![n.a]),
            Op::Not | Op::Zext | Op::Sext | Op::Extract => self.sup[n.a as usize],
            Op::Ite => {
                let s = self.union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.union(s, self.sup[n.c as usize])
            }
            _ => self.union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, id);
        id
    }
    pub fn cst(&mut self, v: u64, w: u8) -> Id {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: v & m(w) })
    }
    pub fn var(&mut self, id: u32, w: u8) -> Id {
        self.mk(Node { op: Op::Var, w, a: id, b: 0, c: 0 })
    }
    pub fn fold(op: Op, w: u8, x: u64, y: u64) -> Option<u64> {
        // w = operand width
        Some(match op {
            Op::Add => x.wrapping_add(y) & m(w),
            Op::Sub => x.wrapping_sub(y) & m(w),
            Op::Mul => x.wrapping_mul(y) & m(w),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_div(sx(y, w)) as u64) & m(w)
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_rem(sx(y, w)) as u64) & m(w)
            }
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & m(w)
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u64 { w as u64 - 1 } else { y };
                ((sx(x, w) >> s) as u64) & m(w)
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => (x == y) as u64,
            Op::Ult => (x < y) as u64,
            Op::Ule => (x <= y) as u64,
            Op::Slt => (sx(x, w) < sx(y, w)) as u64,
            Op::Sle => (sx(x, w) <= sx(y, w)) as u64,
            Op::UMulO => ((x as u128) * (y as u128) > m(w) as u128) as u64,
            Op::SMulO => {
                let p = (sx(x, w) as i128) * (sx(y, w) as i128);
                (p != sx((p as u64) & m(w), w) as i128) as u64
            }
            Op::SAddO => {
                let p = (sx(x, w) as i128) + (sx(y, w) as i128);
                (p != sx((p as u64) & m(w), w) as i128) as u64
            }
            Op::SSubO => {
                let p = (sx(x, w) as i128) - (sx(y, w) as i128);
                (p != sx((p as u64) & m(w), w) as i128) as u64
            }
            _ => return None,
        })
    }
    fn is_cmp(op: Op) -> bool {
        matches!(
            op,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulO | Op::SMulO | Op::SAddO | Op::SSubO
        )
    }
    fn const_ite(&self, i: Id) -> Option<(Id, u64, u64)> {
        let n = self.n(i);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.cv(n.b), self.cv(n.c as Id)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width {:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold(op, w, x, y) {
                return self.cst(r, rw);
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        // op(ite(c,k1,k2), k)
        if let Some(y) = cb {
            if let Some((c, x1, x2)) = self.const_ite(a) {
                if let (Some(r1), Some(r2)) = (Self::fold(op, w, x1, y), Self::fold(op, w, x2, y)) {
                    let r1 = self.cst(r1, rw);
                    let r2 = self.cst(r2, rw);
                    return self.ite(c, r1, r2);
                }
            }
        }
        if let Some(x) = ca {
            if let Some((c, y1, y2)) = self.const_ite(b) {
                if let (Some(r1), Some(r2)) = (Self::fold(op, w, x, y1), Self::fold(op, w, x, y2)) {
                    let r1 = self.cst(r1, rw);
                    let r2 = self.cst(r2, rw);
                    return self.ite(c, r1, r2);
                }
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.cst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(y) = cb {
                    let k = self.cst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                if a == b {
                    return self.cst(0, w);
                }
            }
            Op::Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(y) if y.is_power_of_two() => {
                    let k = self.cst(y.trailing_zeros() as u64, w);
                    return self.bin(Op::Shl, a, k);
                }
                _ => {}
            },
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m(w) {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.cst(x & y, w);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let k = self.cst(y & m(iw), iw);
                        let r = self.bin(Op::And, na.a, k);
                        return self.zext(r, w);
                    }
                    // low mask -> zext(extract)
                    if (y + 1).is_power_of_two() {
                        let bits = (y + 1).trailing_zeros() as u8;
                        let r = self.extract(a, 0, bits);
                        return self.zext(r, w);
                    }
                }
                if a == b {
                    return a;
                }
            }
            Op::Or => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m(w) {
                        return b;
                    }
                    if na.op == Op::Or {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.cst(x | y, w);
                            return self.bin(Op::Or, na.a, k);
                        }
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if y <= m(iw) {
                            let k = self.cst(y, iw);
                            let r = self.bin(Op::Or, na.a, k);
                            return self.zext(r, w);
                        }
                    }
                }
                if a == b {
                    return a;
                }
                // or(zext x, shl(zext y, k)) with disjoint ranges -> concat
                if let Some(r) = self.or_concat(a, b).or_else(|| self.or_concat(b, a)) {
                    return r;
                }
            }
            Op::Xor => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                }
                if a == b {
                    return self.cst(0, w);
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u64 {
                        return self.cst(0, w);
                    }
                    // -> concat(extract(a,0,w-y), 0_y)
                    let hi = self.extract(a, 0, w - y as u8);
                    let z = self.cst(0, y as u8);
                    return self.concat(hi, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u64 {
                        return self.cst(0, w);
                    }
                    let hi = self.extract(a, y as u8, w - y as u8);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if y > m(iw) {
                                return self.cst(0, 1);
                            }
                            let k = self.cst(y, iw);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Add => {
                            if let Some(x) = self.cv(na.b) {
                                let k = self.cst(y.wrapping_sub(x), w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cv(na.b) {
                                let k = self.cst(y ^ x, w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            if let Some(x) = self.cv(na.b) {
                                if x != y & m(lw) {
                                    return self.cst(0, 1);
                                }
                                let k = self.cst(y >> lw, w - lw);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if let Some(x) = self.cv(na.a) {
                                if x != y >> lw {
                                    return self.cst(0, 1);
                                }
                                let k = self.cst(y, lw);
                                return self.bin(Op::Eq, na.b, k);
                            }
                            let kh = self.cst(y >> lw, w - lw);
                            let kl = self.cst(y, lw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let z = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, z);
                        }
                        Op::Not => {
                            let k = self.cst(!y, w);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Ite => {
                            // eq(ite(c,k,x),y)
                            if let Some(k) = self.cv(na.b) {
                                if k != y {
                                    let nc = self.not(na.a);
                                    let r = self.bin(Op::Eq, na.c as Id, b);
                                    return self.bin(Op::And, nc, r);
                                }
                            }
                            if let Some(k) = self.cv(na.c as Id) {
                                if k != y {
                                    let r = self.bin(Op::Eq, na.b, b);
                                    return self.bin(Op::And, na.a, r);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(0, 1);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return self.cst(0, 1);
                    }
                    if y == 1 {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if y > m(iw) {
                            return self.cst(1, 1);
                        }
                        let k = self.cst(y, iw);
                        return self.bin(Op::Ult, na.a, k);
                    }
                }
                if let Some(x) = ca {
                    if x == m(w) {
                        return self.cst(0, 1);
                    }
                    if nb.op == Op::Zext {
                        let iw = self.w(nb.a);
                        if x >= m(iw) {
                            return self.cst(0, 1);
                        }
                        let k = self.cst(x, iw);
                        return self.bin(Op::Ult, k, nb.a);
                    }
                }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let r = self.bin(Op::Ult, b, a);
                return self.not(r);
            }
            Op::Sle => {
                let r = self.bin(Op::Slt, b, a);
                return self.not(r);
            }
            Op::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
                // non-negative zext operands: unsigned
                let nonneg = |s: &Self, n: &Node, c: Option<u64>| match c {
                    Some(v) => sx(v, w) >= 0,
                    None => n.op == Op::Zext && s.w(n.a) < w,
                };
                let (pa, pb) = (nonneg(self, &na, ca), nonneg(self, &nb, cb));
                if pa && pb {
                    return self.bin(Op::Ult, a, b);
                }
                if pa && cb.is_some() {
                    return self.cst(0, 1); // nonneg < negative const
                }
                if pb && ca.is_some() {
                    return self.cst(1, 1); // negative const < nonneg
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0 })
    }
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        // a = zext(x), b = concat(y, 0_k) with width(x) <= k
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Zext && nb.op == Op::Concat && self.cv(nb.b) == Some(0) {
            let k = self.w(nb.b);
            let iw = self.w(na.a);
            if iw <= k {
                let lo = self.zext(na.a, k);
                return Some(self.concat(nb.a, lo));
            }
        }
        // both concat at same split with complementary zeros
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if self.cv(nb.b) == Some(0) || self.cv(na.b) == Some(0) || self.cv(na.a) == Some(0) || self.cv(nb.a) == Some(0)
            {
                let h = self.bin(Op::Or, na.a, nb.a);
                let l = self.bin(Op::Or, na.b, nb.b);
                return Some(self.concat(h, l));
            }
        }
        if let Some(v) = self.cv(b) {
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                let w = self.w(a);
                let kh = self.cst(v >> lw, w - lw);
                let kl = self.cst(v, lw);
                let h = self.bin(Op::Or, na.a, kh);
                let l = self.bin(Op::Or, na.b, kl);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        if let Some(x) = self.cv(a) {
            return self.cst(!x, n.w);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if let Some((c, x, y)) = self.const_ite(a) {
            let x = self.cst(!x, n.w);
            let y = self.cst(!y, n.w);
            return self.ite(c, x, y);
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 })
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.cst(x, w);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if let Some((c, x, y)) = self.const_ite(a) {
            let x = self.cst(x, w);
            let y = self.cst(y, w);
            return self.ite(c, x, y);
        }
        if n.op == Op::Concat && self.cv(n.a) == Some(0) {
            return self.zext(n.b, w);
        }
        self.mk(Node { op: Op::Zext, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.cst(sx(x, n.w) as u64, w);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.w == 1 {
            let x = self.cst(!0, w);
            let y = self.cst(0, w);
            return self.ite(a, x, y);
        }
        if let Some((c, x, y)) = self.const_ite(a) {
            let x = self.cst(sx(x, n.w) as u64, w);
            let y = self.cst(sx(y, n.w) as u64, w);
            return self.ite(c, x, y);
        }
        self.mk(Node { op: Op::Sext, w, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.cst(x >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b as u8 + lo, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.const_ite(a).is_some() || true {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c as Id, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.cst((x << nl.w) | y, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nh.a == nl.a && nh.b as u8 == nl.b as u8 + nl.w {
                return self.extract(nh.a, nl.b as u8, w);
            }
            // high part of x adjacent to x itself truncated (zext'd low)
        }
        // concat(x_hi_extract, concat(x_extract, y)) -> merge
        if nl.op == Op::Concat {
            let nl_h = self.n(nl.a);
            if nh.op == Op::Extract && nl_h.op == Op::Extract && nh.a == nl_h.a && nh.b as u8 == nl_h.b as u8 + nl_h.w {
                let x = self.extract(nh.a, nl_h.b as u8, nh.w + nl_h.w);
                return self.concat(x, nl.b);
            }
            if self.cv(nl.a).is_some() && self.cv(h).is_some() {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
        }
        // zext(x)[hi bits zero] : concat(zext(y), l) -> zext(concat(y,l))
        if nh.op == Op::Zext {
            let y = nh.a;
            if self.w(y) + nl.w <= 64 {
                let c = self.concat(y, l);
                return self.zext(c, w);
            }
        }
        // reassemble ite split bytewise
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c as Id, nl.c as Id);
            return self.ite(nh.a, x, y);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0 })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                (None, Some(_)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c as Id);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b as u64 })
    }

    /// for diagnostics
    pub fn show(&self, i: Id, d: u32) -> String {
        let n = self.n(i);
        let x = |j: Id| if d == 0 { "..".to_string() } else { self.show(j, d - 1) };
        match n.op {
            Op::Const => format!("{:x}:{}", n.c, n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Not => format!("~{}", x(n.a)),
            Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, x(n.a)),
            Op::Extract => format!("{}[{}+{}]", x(n.a), n.b, n.w),
            Op::Ite => format!("({} ? {} : {})", x(n.a), x(n.b), x(n.c as Id)),
            _ => format!("({:?} {} {})", n.op, x(n.a), x(n.b)),
        }
    }
    pub fn eval(&self, i: Id, val: &dyn Fn(u32) -> u64, memo: &mut FMap<Id, u64>) -> u64 {
        let n = self.n(i);
        match n.op {
            Op::Const => return n.c,
            Op::Var => return val(n.a) & m(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&i) {
            return *v;
        }
        let r = match n.op {
            Op::Not => !self.eval(n.a, val, memo) & m(n.w),
            Op::Zext => self.eval(n.a, val, memo),
            Op::Sext => (sx(self.eval(n.a, val, memo), self.w(n.a)) as u64) & m(n.w),
            Op::Extract => (self.eval(n.a, val, memo) >> n.b) & m(n.w),
            Op::Concat => {
                let h = self.eval(n.a, val, memo);
                let l = self.eval(n.b, val, memo);
                (h << self.w(n.b)) | l
            }
            Op::Ite => {
                if self.eval(n.a, val, memo) == 1 {
                    self.eval(n.b, val, memo)
                } else {
                    self.eval(n.c as Id, val, memo)
                }
            }
            _ => {
                let x = self.eval(n.a, val, memo);
                let y = self.eval(n.b, val, memo);
                Self::fold(n.op, self.w(n.a), x, y).unwrap_or(0)
            }
        };
        memo.insert(i, r);
        r
    }
}
