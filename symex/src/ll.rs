//! Parser for textual LLVM IR (the subset rustc emits), producing a raw IR.
//! Nothing here is specific to the code under test.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Label,
    Metadata,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let p = b.next_power_of_two();
                p.min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vector(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for t in ts {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Vector(..) => self.store_size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.store_size() * i as u64,
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    Local(u32),
    Global(u32),
    Int(u128),
    Float(u64),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, V)>),
    Splat(Box<(Ty, V)>),
    Cast(&'static str, Box<(Ty, V)>, Ty),
    Gep(Ty, Box<V>, Vec<(Ty, V)>),
    Bin(&'static str, Ty, Box<V>, Box<V>),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Ty, V, V),
    Icmp(&'static str, Ty, V, V),
    Fcmp(&'static str, Ty, V, V),
    Cast(&'static str, Ty, V, Ty),
    Fneg(Ty, V),
    Freeze(Ty, V),
    Select(Ty, V, Ty, V, V),
    Load(Ty, V),
    Store(Ty, V, V),
    Gep(Ty, V, Vec<(Ty, V)>),
    Alloca(Ty, V, u64),
    Call { ret: Ty, callee: V, args: Vec<(Ty, V)>, invoke: Option<(u32, u32)> },
    Phi(Ty, Vec<(V, u32)>),
    Br(u32),
    CondBr(V, u32, u32),
    Switch(Ty, V, u32, Vec<(u128, u32)>),
    Ret(Ty, V),
    Unreachable,
    ExtractValue(Ty, V, Vec<u32>),
    InsertValue(Ty, V, Ty, V, Vec<u32>),
    ExtractElem(Ty, V, V),
    InsertElem(Ty, V, V, V),
    Shuffle(Ty, V, V, Vec<Option<u32>>),
    AtomicRmw(&'static str, Ty, V, V),
    CmpXchg(Ty, V, V, V),
    Fence,
    Unsupported(String),
}

pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
}

pub struct Block {
    pub label: u32,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nlocals: u32,
    pub blocks: Vec<Block>,
    pub error: Option<String>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<V>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Default)]
pub struct Module {
    pub syms: HashMap<String, u32>,
    pub names: Vec<String>,
    pub funcs: HashMap<u32, Func>,
    pub globals: Vec<(u32, Global)>,
    pub named_types: HashMap<String, Ty>,
}

impl Module {
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(x) = self.syms.get(n) {
            return *x;
        }
        let id = self.names.len() as u32;
        self.names.push(n.to_string());
        self.syms.insert(n.to_string(), id);
        id
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(String),
    Global(String),
    Word(&'a str),
    Num(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Meta(&'a str),
    Attr,
    Dots,
    End,
}

fn lex<'a>(s: &'a str) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let (bytes, j) = lex_str(b, i);
                    name = String::from_utf8_lossy(&bytes).into_owned();
                    i = j;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (bytes, j) = lex_str(b, i + 1);
                out.push(Tok::CStr(bytes));
                i = j;
            }
            b'"' => {
                let (bytes, j) = lex_str(b, i);
                out.push(Tok::Str(bytes));
                i = j;
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(&s[st..i]));
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (isid(b[i]) || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
                {
                    i += 1;
                }
                out.push(Tok::Num(&s[st..i]));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Word(&s[st..i]));
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out.push(Tok::End);
    out
}

fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    i += 1;
    let mut o = Vec::new();
    let h = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => c - b'A' + 10,
    };
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    (o, i + 1)
}

type R<T> = Result<T, String>;

struct P<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m mut Module,
    locals: Option<&'m mut HashMap<String, u32>>,
}

const BINOPS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub",
    "fmul", "fdiv", "frem",
];
const CASTS: &[&str] = &[
    "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext",
    "fptrunc", "addrspacecast", "ptrtoaddr",
];
const PREDS: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
const FPREDS: &[&str] = &[
    "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true", "false",
];
const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "volatile", "atomic", "weak", "inrange",
];
const RMW: &[&str] = &["xchg", "add", "sub", "and", "or", "xor", "umax", "umin", "max", "min", "nand"];

fn stat(list: &'static [&'static str], w: &str) -> Option<&'static str> {
    list.iter().find(|x| **x == w).copied()
}

impl<'a, 'm> P<'a, 'm> {
    fn pk(&self) -> &Tok<'a> {
        &self.t[self.i]
    }
    fn nx(&mut self) -> Tok<'a> {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn isp(&self, c: u8) -> bool {
        *self.pk() == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c as char, self.pk()))
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), Tok::Word(x) if *x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn flags(&mut self) {
        loop {
            match self.pk() {
                Tok::Word(w) if FLAGS.contains(w) => {
                    let inrange = *w == "inrange";
                    self.i += 1;
                    if inrange && self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.nx() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.nx() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if self.isw("addrspace") {
                    self.i += 1;
                    self.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::Float,
            Tok::Word("double") => Ty::Double,
            Tok::Word("label") => Ty::Label,
            Tok::Word("metadata") => Ty::Metadata,
            Tok::Word("opaque") => Ty::Opaque,
            Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp(b']')?;
                Ty::Array(n as u64, Box::new(t))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty()?);
                    self.eat(b',');
                }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty()?);
                        self.eat(b',');
                    }
                    self.exp(b'>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vector(n as u64, Box::new(t))
                }
            }
            Tok::Local(n) => match self.m.named_types.get(&n) {
                Some(t) => t.clone(),
                None => return Err(format!("named type {}", n)),
            },
            x => return Err(format!("type: {:?}", x)),
        };
        Ok(t)
    }
    fn num(&mut self) -> R<u128> {
        match self.nx() {
            Tok::Num(n) => parse_int(n).ok_or_else(|| format!("int {}", n)),
            x => Err(format!("num: {:?}", x)),
        }
    }
    fn local(&mut self, n: String) -> R<u32> {
        match &mut self.locals {
            Some(l) => {
                let k = l.len() as u32;
                Ok(*l.entry(n).or_insert(k))
            }
            None => Err("local outside function".into()),
        }
    }
    fn tv(&mut self) -> R<(Ty, V)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.pk() {
                Tok::Word(w) => {
                    if matches!(
                        *w,
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "splat" | "getelementptr"
                            | "none" | "asm" | "blockaddress" | "x"
                    ) || BINOPS.contains(w)
                        || CASTS.contains(w)
                    {
                        return;
                    }
                    self.i += 1;
                    if *self.pk() == Tok::P(b'(') {
                        self.skip_parens();
                    } else if let Tok::Num(_) = self.pk() {
                        // "align 8"
                        if matches!(self.t[self.i - 1], Tok::Word("align")) {
                            self.i += 1;
                        }
                    }
                }
                Tok::Str(_) => {
                    // string attribute
                    self.i += 1;
                }
                Tok::Attr => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }
    fn val(&mut self, t: &Ty) -> R<V> {
        Ok(match self.nx() {
            Tok::Local(n) => V::Local(self.local(n)?),
            Tok::Global(n) => V::Global(self.m.sym(&n)),
            Tok::Num(n) => match t {
                Ty::Float | Ty::Double => V::Float(parse_float(n, t).ok_or_else(|| format!("float {}", n))?),
                _ => V::Int(parse_int(n).ok_or_else(|| format!("int {}", n))?),
            },
            Tok::Word("true") => V::Int(1),
            Tok::Word("false") => V::Int(0),
            Tok::Word("null") | Tok::Word("none") => V::Int(0),
            Tok::Word("undef") | Tok::Word("poison") => V::Undef,
            Tok::Word("zeroinitializer") => V::Zero,
            Tok::CStr(b) => V::Bytes(b),
            Tok::Word("asm") => {
                // asm sideeffect "..", ".."
                while !matches!(self.pk(), Tok::P(b'(') | Tok::End) {
                    self.i += 1;
                }
                V::Asm
            }
            Tok::Word("splat") => {
                self.exp(b'(')?;
                let x = self.tv()?;
                self.exp(b')')?;
                V::Splat(Box::new(x))
            }
            Tok::Word("getelementptr") => {
                self.flags();
                self.exp(b'(')?;
                let bt = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.tv()?;
                let mut idx = vec![];
                while self.eat(b',') {
                    self.flags();
                    idx.push(self.tv()?);
                }
                self.exp(b')')?;
                V::Gep(bt, Box::new(p), idx)
            }
            Tok::Word(w) if CASTS.contains(&w) => {
                let op = stat(CASTS, w).unwrap();
                self.flags();
                self.exp(b'(')?;
                let x = self.tv()?;
                if !self.eatw("to") {
                    return Err("cast to".into());
                }
                let to = self.ty()?;
                self.exp(b')')?;
                V::Cast(op, Box::new(x), to)
            }
            Tok::Word(w) if BINOPS.contains(&w) => {
                let op = stat(BINOPS, w).unwrap();
                self.flags();
                self.exp(b'(')?;
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let (_, b) = self.tv()?;
                self.exp(b')')?;
                V::Bin(op, t, Box::new(a), Box::new(b))
            }
            Tok::P(c @ (b'[' | b'{' | b'<')) => {
                let mut packed = false;
                let close = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => {
                        if self.eat(b'{') {
                            packed = true;
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut v = vec![];
                while !self.eat(close) {
                    v.push(self.tv()?);
                    self.eat(b',');
                }
                if packed {
                    self.exp(b'>')?;
                }
                V::Agg(v)
            }
            Tok::P(b'+') | Tok::P(b'-') => return Err("sign".into()),
            x => return Err(format!("val: {:?}", x)),
        })
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        match self.nx() {
            Tok::Local(n) => self.local(n),
            x => Err(format!("label {:?}", x)),
        }
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = None;
        if let Tok::Local(n) = self.pk().clone() {
            if self.t.get(self.i + 1) == Some(&Tok::P(b'=')) {
                self.i += 2;
                dst = Some(self.local(n)?);
            }
        }
        let w = match self.nx() {
            Tok::Word(w) => w,
            x => return Err(format!("inst {:?}", x)),
        };
        let i = match w {
            _ if BINOPS.contains(&w) => {
                self.flags();
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                I::Bin(stat(BINOPS, w).unwrap(), t, a, b)
            }
            "icmp" | "fcmp" => {
                self.flags();
                let p = match self.nx() {
                    Tok::Word(p) => p,
                    x => return Err(format!("pred {:?}", x)),
                };
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                if w == "icmp" {
                    I::Icmp(stat(PREDS, p).ok_or("pred")?, t, a, b)
                } else {
                    I::Fcmp(stat(FPREDS, p).ok_or("pred")?, t, a, b)
                }
            }
            _ if CASTS.contains(&w) => {
                self.flags();
                let (t, a) = self.tv()?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let to = self.ty()?;
                I::Cast(stat(CASTS, w).unwrap(), t, a, to)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tv()?;
                I::Fneg(t, a)
            }
            "freeze" => {
                let (t, a) = self.tv()?;
                I::Freeze(t, a)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tv()?;
                self.exp(b',')?;
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let (_, b) = self.tv()?;
                I::Select(ct, c, t, a, b)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.tv()?;
                I::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tv()?;
                self.exp(b',')?;
                let (_, p) = self.tv()?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.tv()?;
                let mut idx = vec![];
                while self.isp(b',') {
                    if matches!(self.t[self.i + 1], Tok::Meta(_)) {
                        break;
                    }
                    self.i += 1;
                    idx.push(self.tv()?);
                }
                I::Gep(bt, p, idx)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = V::Int(1);
                let mut al = t.align();
                while self.eat(b',') {
                    if self.eatw("align") {
                        al = self.num()? as u64;
                    } else if matches!(self.pk(), Tok::Meta(_)) {
                        break;
                    } else {
                        n = self.tv()?.1;
                    }
                }
                I::Alloca(t, n, al)
            }
            "tail" | "musttail" | "notail" => {
                if !self.eatw("call") {
                    return Err("tail call".into());
                }
                self.call(false)?
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp(b'[')?;
                    let x = self.val(&t)?;
                    self.exp(b',')?;
                    let l = match self.nx() {
                        Tok::Local(n) => self.local(n)?,
                        x => return Err(format!("phi {:?}", x)),
                    };
                    self.exp(b']')?;
                    v.push((x, l));
                    if self.isp(b',') && self.t[self.i + 1] == Tok::P(b'[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "br" => {
                if self.isw("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tv()?;
                    self.exp(b',')?;
                    let a = self.label()?;
                    self.exp(b',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv()?;
                self.exp(b',')?;
                let d = self.label()?;
                self.exp(b'[')?;
                let mut cs = vec![];
                while !self.eat(b']') {
                    let ct = self.ty()?;
                    let c = self.val(&ct)?;
                    let c = match c {
                        V::Int(x) => mask(x, &ct),
                        _ => return Err("switch case".into()),
                    };
                    self.exp(b',')?;
                    cs.push((c, self.label()?));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(t, V::Undef)
                } else {
                    let v = self.val(&t)?;
                    I::Ret(t, v)
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (t, v) = self.tv()?;
                let mut ix = vec![];
                while self.isp(b',') && matches!(self.t[self.i + 1], Tok::Num(_)) {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                I::ExtractValue(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tv()?;
                self.exp(b',')?;
                let (t2, v2) = self.tv()?;
                let mut ix = vec![];
                while self.isp(b',') && matches!(self.t[self.i + 1], Tok::Num(_)) {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                I::InsertValue(t, v, t2, v2, ix)
            }
            "extractelement" => {
                let (t, v) = self.tv()?;
                self.exp(b',')?;
                let (_, ix) = self.tv()?;
                I::ExtractElem(t, v, ix)
            }
            "insertelement" => {
                let (t, v) = self.tv()?;
                self.exp(b',')?;
                let (_, e) = self.tv()?;
                self.exp(b',')?;
                let (_, ix) = self.tv()?;
                I::InsertElem(t, v, e, ix)
            }
            "shufflevector" => {
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let (_, b) = self.tv()?;
                self.exp(b',')?;
                let (mt, m) = self.tv()?;
                let n = match mt {
                    Ty::Vector(n, _) => n as usize,
                    _ => return Err("mask".into()),
                };
                let mask = match m {
                    V::Zero => vec![Some(0); n],
                    V::Undef => vec![None; n],
                    V::Agg(v) => v
                        .into_iter()
                        .map(|(_, x)| match x {
                            V::Int(i) => Some(i as u32),
                            _ => None,
                        })
                        .collect(),
                    V::Splat(b) => match b.1 {
                        V::Int(i) => vec![Some(i as u32); n],
                        _ => vec![None; n],
                    },
                    _ => return Err("mask".into()),
                };
                I::Shuffle(t, a, b, mask)
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.nx() {
                    Tok::Word(w) => stat(RMW, w).ok_or("rmw")?,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tv()?;
                self.exp(b',')?;
                let (t, v) = self.tv()?;
                I::AtomicRmw(op, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tv()?;
                self.exp(b',')?;
                let (t, a) = self.tv()?;
                self.exp(b',')?;
                let (_, b) = self.tv()?;
                I::CmpXchg(t, p, a, b)
            }
            "fence" => I::Fence,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => I::Unsupported(w.to_string()),
            _ => I::Unsupported(format!("inst {}", w)),
        };
        Ok(Inst { dst, i })
    }
    fn call(&mut self, invoke: bool) -> R<I> {
        // optional flags / cc / ret attrs until type
        loop {
            match self.pk() {
                Tok::Word(w) => {
                    if *w == "ptr" || *w == "void" || *w == "float" || *w == "double" {
                        break;
                    }
                    if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                        break;
                    }
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if let (Tok::Word("align" | "cc"), Tok::Num(_)) = (&self.t[self.i - 1], self.pk()) {
                        self.i += 1;
                    }
                }
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => break,
                Tok::Str(_) | Tok::Attr => self.i += 1,
                x => return Err(format!("call {:?}", x)),
            }
        }
        let ret = self.ty()?;
        // optional function type "(ptr, ...)"
        if self.isp(b'(') {
            self.skip_parens();
        }
        let callee = self.val(&Ty::Ptr)?;
        self.exp(b'(')?;
        let mut args = vec![];
        while !self.eat(b')') {
            let t = self.ty()?;
            if t == Ty::Metadata {
                // metadata argument
                let mut d = 0;
                loop {
                    match self.pk() {
                        Tok::P(b',') if d == 0 => break,
                        Tok::P(b')') if d == 0 => break,
                        Tok::P(b'(') | Tok::P(b'{') => d += 1,
                        Tok::P(b')') | Tok::P(b'}') => d -= 1,
                        Tok::End => return Err("meta".into()),
                        _ => {}
                    }
                    self.i += 1;
                }
            } else {
                self.skip_attrs();
                let v = self.val(&t)?;
                args.push((t, v));
            }
            self.eat(b',');
        }
        let mut inv = None;
        if invoke {
            while !self.isw("to") {
                if *self.pk() == Tok::End {
                    return Err("invoke to".into());
                }
                self.i += 1;
            }
            self.i += 1;
            let a = self.label()?;
            if !self.eatw("unwind") {
                return Err("unwind".into());
            }
            let b = self.label()?;
            inv = Some((a, b));
        }
        Ok(I::Call { ret, callee, args, invoke: inv })
    }
}

pub fn mask(x: u128, t: &Ty) -> u128 {
    match t {
        Ty::Int(w) if *w < 128 => x & ((1u128 << w) - 1),
        _ => x,
    }
}

fn parse_int(n: &str) -> Option<u128> {
    if let Some(r) = n.strip_prefix('-') {
        r.parse::<u128>().ok().map(|x| x.wrapping_neg())
    } else {
        n.parse::<u128>().ok()
    }
}

fn parse_float(n: &str, t: &Ty) -> Option<u64> {
    if let Some(h) = n.strip_prefix("0x") {
        if let Some(h) = h.strip_prefix('H') {
            return u64::from_str_radix(h, 16).ok();
        }
        let d = u64::from_str_radix(h, 16).ok()?;
        return Some(if *t == Ty::Float { (f64::from_bits(d) as f32).to_bits() as u64 } else { d });
    }
    let f: f64 = match n {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" => f64::NAN,
        "-qnan" => -f64::NAN,
        _ => n.parse().ok()?,
    };
    Some(if *t == Ty::Float { (f as f32).to_bits() as u64 } else { f.to_bits() })
}

pub fn parse_module(src: &str) -> R<Module> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            let f = parse_func(&mut m, &lines[i..j])?;
            let id = m.sym(&f.name.clone());
            m.funcs.insert(id, f);
            i = j + 1;
            continue;
        }
        if l.starts_with('@') {
            parse_global(&mut m, l).map_err(|e| format!("{}: {}", e, &l[..l.len().min(300)]))?;
        } else if l.starts_with('%') {
            let t = lex(l);
            let mut p = P { t, i: 0, m: &mut m, locals: None };
            if let Tok::Local(n) = p.nx() {
                p.exp(b'=')?;
                p.i += 1; // type
                let ty = p.ty()?;
                m.named_types.insert(n, ty);
            }
        }
        i += 1;
    }
    Ok(m)
}

fn parse_global(m: &mut Module, l: &str) -> R<()> {
    let t = lex(l);
    let mut p = P { t, i: 0, m, locals: None };
    let name = match p.nx() {
        Tok::Global(n) => n,
        x => return Err(format!("global {:?}", x)),
    };
    p.exp(b'=')?;
    let mut external = false;
    let constant;
    loop {
        match p.nx() {
            Tok::Word("constant") => {
                constant = true;
                break;
            }
            Tok::Word("global") => {
                constant = false;
                break;
            }
            Tok::Word("alias") => {
                // @a = alias ty, ptr @b : represent as error unless needed
                return Ok(());
            }
            Tok::Word("external") | Tok::Word("extern_weak") => external = true,
            Tok::End => return Err("global".into()),
            Tok::P(b'(') => {
                p.i -= 1;
                p.skip_parens();
            }
            _ => {}
        }
    }
    let ty = p.ty()?;
    let init = if external || matches!(p.pk(), Tok::P(b',') | Tok::End) { None } else { Some(p.val(&ty)?) };
    let mut align = ty.align();
    while *p.pk() != Tok::End {
        if p.eatw("align") {
            align = p.num()? as u64;
        } else {
            p.i += 1;
        }
    }
    let id = m.sym(&name);
    m.globals.push((id, Global { name, ty, init, align, constant }));
    Ok(())
}

fn parse_func(m: &mut Module, lines: &[&str]) -> R<Func> {
    let mut locals: HashMap<String, u32> = HashMap::new();
    let hdr = lines[0];
    let t = lex(hdr);
    let (name, ret, params);
    {
        let mut p = P { t, i: 1, m: &mut *m, locals: Some(&mut locals) };
        // find the global token at depth 0 to locate the return type just before
        loop {
            match p.pk() {
                Tok::Word(w)
                    if *w == "void"
                        || *w == "ptr"
                        || *w == "float"
                        || *w == "double"
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) =>
                {
                    break
                }
                Tok::Word(_) => {
                    p.i += 1;
                    if p.isp(b'(') {
                        p.skip_parens();
                    } else if let Tok::Num(_) = p.pk() {
                        p.i += 1;
                    }
                }
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => break,
                Tok::Str(_) | Tok::Attr => p.i += 1,
                x => return Err(format!("define {:?}: {}", x, &hdr[..hdr.len().min(200)])),
            }
        }
        ret = p.ty()?;
        name = match p.nx() {
            Tok::Global(n) => n,
            x => return Err(format!("define name {:?}: {}", x, &hdr[..hdr.len().min(200)])),
        };
        p.exp(b'(')?;
        let mut ps = vec![];
        let mut anon = 0;
        while !p.eat(b')') {
            if *p.pk() == Tok::Dots {
                p.i += 1;
                continue;
            }
            let t = p.ty()?;
            p.skip_attrs();
            let n = match p.pk().clone() {
                Tok::Local(n) => {
                    p.i += 1;
                    n
                }
                _ => {
                    anon += 1;
                    format!("{}", anon - 1)
                }
            };
            let id = p.local(n)?;
            ps.push((t, id));
            p.eat(b',');
        }
        params = ps;
    }
    let mut blocks: Vec<Block> = vec![];
    let mut error = None;
    let mut i = 1;
    // implicit entry label
    let mut cur: Option<Block> = None;
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() || l.starts_with(';') {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = l.split(" ;").next().unwrap().trim_end();
            let lab = lab.strip_suffix(':').unwrap_or(lab);
            let lab = lab.trim_matches('"').to_string();
            if let Some(b) = cur.take() {
                blocks.push(b);
            }
            let k = locals.len() as u32;
            let id = *locals.entry(lab).or_insert(k);
            cur = Some(Block { label: id, insts: vec![] });
            i += 1;
            continue;
        }
        let mut s = l.to_string();
        i += 1;
        // continuation lines
        while i < lines.len() {
            let n = lines[i];
            if n.starts_with("   ") || n.starts_with("  ]") {
                s.push(' ');
                s.push_str(n);
                i += 1;
            } else {
                break;
            }
        }
        let tr = s.trim_start();
        if tr.starts_with("#dbg_") {
            continue;
        }
        if cur.is_none() {
            let k = locals.len() as u32;
            locals.insert("\u{1}entry".into(), k);
            cur = Some(Block { label: k, insts: vec![] });
        }
        // cut trailing metadata to keep the token stream small
        let toks = lex(tr);
        let r = {
            let mut p = P { t: toks, i: 0, m: &mut *m, locals: Some(&mut locals) };
            p.inst()
        };
        let ins = match r {
            Ok(x) => x,
            Err(e) => {
                let msg = format!("{}: {}", e, &tr[..tr.len().min(200)]);
                if error.is_none() {
                    error = Some(msg.clone());
                }
                // keep the destination defined
                let mut dst = None;
                if tr.starts_with('%') {
                    if let Tok::Local(n) = &lex(tr)[0] {
                        let k = locals.len() as u32;
                        dst = Some(*locals.entry(n.clone()).or_insert(k));
                    }
                }
                Inst { dst, i: I::Unsupported(msg) }
            }
        };
        cur.as_mut().unwrap().insts.push(ins);
    }
    if let Some(b) = cur.take() {
        blocks.push(b);
    }
    Ok(Func { name, ret, params, nlocals: locals.len() as u32, blocks, error })
}
