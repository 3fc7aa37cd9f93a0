//! LLVM textual IR: index of the module, lazy parsing of function bodies.
use crate::expr::*;
use std::cell::OnceCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const GLOBAL_BASE: u64 = 0x10_0000_0000;
pub const FUNC_BASE: u64 = 0x10_6000_0000;
pub const STACK_BASE: u64 = 1 << 60;
pub const HEAP_BASE: u64 = 2 << 60;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Float(u32),
    Meta,
    Label,
}
fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(_) | Ty::Vec(..) => up(self.store(), self.align()),
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Float(w) => *w as u64 / 8,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    MemCpy,
    MemSet,
    UMin,
    UMax,
    SMin,
    SMax,
    BSwap,
    BitReverse,
    CtPop,
    Ctlz,
    Cttz,
    Abs,
    UAddSat,
    USubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    FshL,
    FshR,
    UCmp,
    SCmp,
    Expect,
    IsConstant,
    ThreadLocal,
    LoadRelative,
    Trap,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    Other(String),
}
impl Intr {
    pub fn classify(n: &str) -> Intr {
        let s = &n[5..];
        let t = [
            ("assume", Intr::Assume),
            ("experimental.noalias", Intr::Nop),
            ("lifetime", Intr::Nop),
            ("dbg", Intr::Nop),
            ("prefetch", Intr::Nop),
            ("x86.sse2.pause", Intr::Nop),
            ("va_", Intr::Other("va".into())),
            ("memcpy", Intr::MemCpy),
            ("memmove", Intr::MemCpy),
            ("memset", Intr::MemSet),
            ("umin", Intr::UMin),
            ("umax", Intr::UMax),
            ("smin", Intr::SMin),
            ("smax", Intr::SMax),
            ("bswap", Intr::BSwap),
            ("bitreverse", Intr::BitReverse),
            ("ctpop", Intr::CtPop),
            ("ctlz", Intr::Ctlz),
            ("cttz", Intr::Cttz),
            ("abs", Intr::Abs),
            ("uadd.sat", Intr::UAddSat),
            ("usub.sat", Intr::USubSat),
            ("uadd.with.overflow", Intr::UAddO),
            ("usub.with.overflow", Intr::USubO),
            ("umul.with.overflow", Intr::UMulO),
            ("sadd.with.overflow", Intr::SAddO),
            ("ssub.with.overflow", Intr::SSubO),
            ("smul.with.overflow", Intr::SMulO),
            ("fshl", Intr::FshL),
            ("fshr", Intr::FshR),
            ("ucmp", Intr::UCmp),
            ("scmp", Intr::SCmp),
            ("expect", Intr::Expect),
            ("is.constant", Intr::IsConstant),
            ("threadlocal.address", Intr::ThreadLocal),
            ("load.relative", Intr::LoadRelative),
            ("trap", Intr::Trap),
            ("vector.reduce.or", Intr::VecReduceOr),
            ("vector.reduce.and", Intr::VecReduceAnd),
            ("vector.reduce.add", Intr::VecReduceAdd),
        ];
        for (p, k) in t {
            if s.starts_with(p) {
                return k;
            }
        }
        Intr::Other(n.to_string())
    }
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intrinsic(Intr),
}

#[derive(Debug)]
pub enum Inst {
    Bin(Bin, Ty, u32, Opd, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    Cast(Cast, u32, Ty, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, i64, u32)>),
    Alloca(u32, u64, u64),
    Call(Option<u32>, Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Phi(u32, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    Freeze(u32, Opd),
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>),
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Vec<Inst>>,
}

pub struct FnInfo {
    pub name: String,
    pub start: usize, // offset of the define line; usize::MAX for declarations
    pub noreturn: bool,
    pub body: OnceCell<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
    ty: Ty,
    init: (usize, usize), // text range
}

pub struct Module {
    text: String,
    pub fns: Vec<FnInfo>,
    pub fnidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    gidx: HashMap<String, usize>,
    types: HashMap<String, Ty>,
}

// ------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Id(&'a str),
    Num(&'a str),
    Str(&'a str, bool), // c"..." when true
    P(char),
    Meta,
    Attr(u32),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    p: usize,
    end: usize,
}
impl<'a> Lex<'a> {
    fn new(t: &'a str, p: usize, end: usize) -> Self {
        Lex { s: t.as_bytes(), t, p, end }
    }
    fn ws(&mut self) {
        while self.p < self.end {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn idc(c: u8) -> bool {
        c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
    }
    fn name(&mut self) -> &'a str {
        // after sigil
        if self.p < self.end && self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p = st;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            return &self.t[st..self.p - 1];
        }
        let st = self.p;
        while self.p < self.end && Self::idc(self.s[self.p]) {
            self.p += 1;
        }
        &self.t[st..self.p]
    }
    fn peek(&mut self) -> Tok<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.p >= self.end {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.end && self.s[self.p] == b'{' {
                    // inline metadata node
                    let mut d = 0;
                    loop {
                        match self.s[self.p] {
                            b'{' => d += 1,
                            b'}' => d -= 1,
                            _ => {}
                        }
                        self.p += 1;
                        if d == 0 {
                            break;
                        }
                    }
                } else {
                    while self.p < self.end && (Self::idc(self.s[self.p]) || self.s[self.p] == b'\\') {
                        self.p += 1;
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                let n = self.name();
                Tok::Attr(n.parse().unwrap_or(0))
            }
            b'"' => {
                let st = self.p + 1;
                self.p = st;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                Tok::Str(&self.t[st..self.p - 1], false)
            }
            b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                let st = self.p + 2;
                self.p = st;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                Tok::Str(&self.t[st..self.p - 1], true)
            }
            b'.' if self.t[self.p..self.end].starts_with("...") => {
                self.p += 3;
                Tok::Dots
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.end && (Self::idc(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                Tok::Num(&self.t[st..self.p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while self.p < self.end && Self::idc(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Id(&self.t[st..self.p])
            }
            _ => {
                self.p += 1;
                Tok::P(c as char)
            }
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let p = self.p;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        let p = self.p;
        if self.next() == Tok::Id(s) {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn expect(&mut self, c: char) {
        let p = self.p;
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} at: {}", c, t, &self.t[p.saturating_sub(80)..(p + 60).min(self.t.len())]);
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn ctx(&self) -> &str {
        &self.t[self.p.saturating_sub(100)..(self.p + 80).min(self.t.len())]
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => {
            *s == "ptr"
                || *s == "void"
                || *s == "float"
                || *s == "double"
                || *s == "half"
                || *s == "metadata"
                || *s == "label"
                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}

impl Module {
    fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Tok::Id("ptr") => {
                if l.eat_id("addrspace") {
                    l.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("void") => Ty::Void,
            Tok::Id("float") => Ty::Float(32),
            Tok::Id("double") => Ty::Float(64),
            Tok::Id("half") => Ty::Float(16),
            Tok::Id("metadata") => Ty::Meta,
            Tok::Id("label") => Ty::Label,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", s, l.ctx()))),
            Tok::P('[') => {
                let n = self.num(l);
                assert!(l.eat_id("x"));
                let t = self.ty(l);
                l.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let f = self.tylist(l, '}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if l.eat('{') {
                    let f = self.tylist(l, '}');
                    l.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num(l);
                    assert!(l.eat_id("x"));
                    let t = self.ty(l);
                    l.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type {}", n)),
            t => panic!("bad type {:?} at {}", t, l.ctx()),
        };
        t
    }
    fn tylist(&self, l: &mut Lex, close: char) -> Vec<Ty> {
        let mut f = vec![];
        if l.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty(l));
            if l.eat(close) {
                return f;
            }
            l.expect(',');
        }
    }
    fn num(&self, l: &mut Lex) -> u64 {
        match l.next() {
            Tok::Num(s) => s.parse().unwrap(),
            t => panic!("num {:?} at {}", t, l.ctx()),
        }
    }
    fn intlit(s: &str, w: u32) -> u128 {
        if let Some(h) = s.strip_prefix("0x") {
            return u128::from_str_radix(h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H'), 16).unwrap_or(0);
        }
        if let Some(r) = s.strip_prefix('-') {
            let v: u128 = r.parse().unwrap();
            return v.wrapping_neg() & mask(w);
        }
        s.parse::<u128>().unwrap_or(0) & mask(w)
    }
    pub fn gaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.gidx.get(n) {
            return self.globals[*i].addr;
        }
        if let Some(i) = self.fnidx.get(n) {
            return FUNC_BASE + 16 * (*i as u64);
        }
        panic!("unknown global {}", n)
    }
    fn konst(&self, l: &mut Lex, ty: &Ty) -> V {
        match l.next() {
            Tok::Num(s) => match ty {
                Ty::Int(w) => V::C(Self::intlit(s, *w)),
                _ => V::C(Self::intlit(s, 64)),
            },
            Tok::Id("true") => V::C(1),
            Tok::Id("false") => V::C(0),
            Tok::Id("null") | Tok::Id("none") => V::C(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => ty.zero(),
            Tok::Str(s, true) => {
                let b = unescape(s);
                V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect()))
            }
            Tok::Global(n) => V::C(self.gaddr(n) as u128),
            Tok::Id("splat") => {
                l.expect('(');
                let t = self.ty(l);
                let v = self.konst(l, &t);
                l.expect(')');
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                V::A(Rc::new(vec![v; n as usize]))
            }
            Tok::P('[') => self.aggr(l, ']'),
            Tok::P('{') => self.aggr(l, '}'),
            Tok::P('<') => {
                if l.eat('{') {
                    let v = self.aggr(l, '}');
                    l.expect('>');
                    v
                } else {
                    self.aggr(l, '>')
                }
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(x) = l.peek() {
                    if is_type_start(&Tok::Id(x)) {
                        break;
                    }
                    l.next();
                    if l.peek() == Tok::P('(') && x == "inrange" {
                        l.skip_parens();
                    }
                }
                l.expect('(');
                let t = self.ty(l);
                l.expect(',');
                let bt = self.ty(l);
                let b = self.cint(l, &bt);
                let mut off = 0i64;
                let mut cur = t;
                let mut first = true;
                while l.eat(',') {
                    let it = self.ty(l);
                    let v = self.cint(l, &it);
                    let i = sext(v, it.bits()) as i64;
                    if first {
                        off += i * cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Arr(_, e) => {
                                off += i * e.size() as i64;
                                cur = (**e).clone();
                            }
                            _ => {
                                let (o, f) = cur.field(i as usize);
                                off += o as i64;
                                cur = f;
                            }
                        }
                    }
                }
                l.expect(')');
                V::C((b as u64).wrapping_add(off as u64) as u128)
            }
            Tok::Id("ptrtoint") | Tok::Id("ptrtoaddr") | Tok::Id("inttoptr") | Tok::Id("trunc") | Tok::Id("bitcast") | Tok::Id("addrspacecast") => {
                l.expect('(');
                let t = self.ty(l);
                let v = self.cint(l, &t);
                assert!(l.eat_id("to"));
                let t2 = self.ty(l);
                l.expect(')');
                V::C(v & mask(t2.bits()))
            }
            Tok::Id(op @ ("sub" | "add" | "xor" | "and" | "mul" | "shl")) => {
                while let Tok::Id(_) = l.peek() {
                    l.next();
                }
                l.expect('(');
                let t = self.ty(l);
                let a = self.cint(l, &t);
                l.expect(',');
                let t2 = self.ty(l);
                let b = self.cint(l, &t2);
                l.expect(')');
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "shl" => a << b,
                    _ => a.wrapping_mul(b),
                };
                V::C(r & mask(t.bits()))
            }
            t => panic!("const {:?} of {:?} at {}", t, ty, l.ctx()),
        }
    }
    fn cint(&self, l: &mut Lex, ty: &Ty) -> u128 {
        match self.konst(l, ty) {
            V::C(c) => c,
            _ => panic!("cint"),
        }
    }
    fn aggr(&self, l: &mut Lex, close: char) -> V {
        let mut v = vec![];
        if l.eat(close) {
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty(l);
            v.push(self.konst(l, &t));
            if l.eat(close) {
                return V::A(Rc::new(v));
            }
            l.expect(',');
        }
    }
    fn emit(&self, ty: &Ty, v: &V, out: &mut [u8]) {
        match (ty, v) {
            (Ty::Arr(n, t), V::A(x)) | (Ty::Vec(n, t), V::A(x)) => {
                let s = t.size() as usize;
                for i in 0..*n as usize {
                    self.emit(t, &x[i], &mut out[i * s..(i + 1) * s]);
                }
            }
            (Ty::Struct(..), V::A(x)) => {
                for (i, e) in x.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    let s = t.size() as usize;
                    self.emit(&t, e, &mut out[o as usize..o as usize + s]);
                }
            }
            (_, V::C(c)) => {
                let n = ty.store() as usize;
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            _ => panic!("emit {:?}", ty),
        }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            fnidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
        };
        let mut pos = 0;
        let mut in_fn = false;
        let mut glines = vec![];
        let mut attrs: HashMap<u32, bool> = HashMap::new();
        let mut fattrs: Vec<Option<u32>> = vec![];
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            if in_fn {
                if line.starts_with('}') {
                    in_fn = false;
                }
                continue;
            }
            if line.starts_with("define ") || line.starts_with("declare ") {
                let is_def = line.starts_with("define ");
                let mut l = Lex::new(&text, st, pos);
                let name = loop {
                    match l.next() {
                        Tok::Global(n) => break n.to_string(),
                        Tok::Eof => panic!("fn name"),
                        _ => {}
                    }
                };
                l.skip_parens();
                let mut at = None;
                loop {
                    match l.next() {
                        Tok::Attr(n) => {
                            at = Some(n);
                        }
                        Tok::Eof => break,
                        _ => {}
                    }
                }
                let id = m.fns.len() as u32;
                m.fnidx.insert(name.clone(), id);
                m.fns.push(FnInfo { name, start: if is_def { st } else { usize::MAX }, noreturn: false, body: OnceCell::new() });
                fattrs.push(at);
                in_fn = is_def;
            } else if line.starts_with('@') {
                glines.push((st, pos));
            } else if line.starts_with("attributes #") {
                let r = &line["attributes #".len()..];
                let n: u32 = r[..r.find(' ').unwrap()].parse().unwrap();
                attrs.insert(n, r.split_whitespace().any(|w| w == "noreturn"));
            } else if line.starts_with('%') {
                let mut l = Lex::new(&text, st, pos);
                if let Tok::Local(n) = l.next() {
                    let n = n.to_string();
                    l.expect('=');
                    assert!(l.eat_id("type"));
                    if l.eat_id("opaque") {
                        continue;
                    }
                    let t = m.ty(&mut l);
                    m.types.insert(n, t);
                }
            }
        }
        for (f, a) in m.fns.iter_mut().zip(fattrs) {
            if let Some(a) = a {
                f.noreturn = *attrs.get(&a).unwrap_or(&false);
            }
        }
        let mut addr = GLOBAL_BASE;
        let mut aliases: Vec<(String, String)> = vec![];
        for (st, en) in glines {
            let mut l = Lex::new(&text, st, en);
            let name = match l.next() {
                Tok::Global(n) => n.to_string(),
                _ => panic!(),
            };
            l.expect('=');
            let mut ext = false;
            let mut alias = false;
            let constant = loop {
                match l.next() {
                    Tok::Id("global") => break false,
                    Tok::Id("constant") => break true,
                    Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                    Tok::Id("alias") => {
                        alias = true;
                        break true;
                    }
                    Tok::P('(') => {
                        let mut d = 1;
                        while d > 0 {
                            match l.next() {
                                Tok::P('(') => d += 1,
                                Tok::P(')') => d -= 1,
                                _ => {}
                            }
                        }
                    }
                    Tok::Eof => panic!("global {}", name),
                    _ => {}
                }
            };
            if alias {
                // a second name, which the compiler gives to a function it found to be the same
                let mut d = 0;
                loop {
                    match l.next() {
                        Tok::P('(' | '[' | '{' | '<') => d += 1,
                        Tok::P(')' | ']' | '}' | '>') => d -= 1,
                        Tok::P(',') if d == 0 => break,
                        Tok::Eof => panic!("alias {}", name),
                        _ => {}
                    }
                }
                let _ = m.ty(&mut l);
                match l.next() {
                    Tok::Global(t) => aliases.push((name, t.to_string())),
                    t => panic!("alias {} of {:?}", name, t),
                }
                continue;
            }
            let ty = m.ty(&mut l);
            let size = ty.size();
            // guard gaps so that out-of-bounds accesses do not hit a neighbour
            addr = up(addr + 64, ty.align().max(16));
            m.gidx.insert(name.clone(), m.globals.len());
            m.globals.push(Global { name, addr, size, constant, data: vec![], ty, init: if ext { (0, 0) } else { (l.p, en) } });
            addr += size;
        }
        assert!(addr < FUNC_BASE);
        for _ in 0..=aliases.len() {
            for (n, t) in &aliases {
                if let Some(i) = m.fnidx.get(t).copied() {
                    m.fnidx.insert(n.clone(), i);
                } else if let Some(i) = m.gidx.get(t).copied() {
                    m.gidx.insert(n.clone(), i);
                }
            }
        }
        for i in 0..m.globals.len() {
            let (a, b) = m.globals[i].init;
            let ty = m.globals[i].ty.clone();
            let mut data = vec![0u8; ty.size() as usize];
            if a != 0 {
                let mut l = Lex::new(&text, a, b);
                let v = m.konst(&mut l, &ty);
                m.emit(&ty, &v, &mut data);
            }
            m.globals[i].data = data;
        }
        m.text = text;
        m
    }
    pub fn find_global(&self, addr: u64) -> Option<usize> {
        let i = self.globals.partition_point(|g| g.addr <= addr);
        if i == 0 {
            return None;
        }
        let g = &self.globals[i - 1];
        if addr <= g.addr + g.size + 32 {
            Some(i - 1)
        } else {
            None
        }
    }

    pub fn body(&self, id: u32) -> Option<Rc<Func>> {
        let f = &self.fns[id as usize];
        if f.start == usize::MAX {
            return None;
        }
        Some(f.body.get_or_init(|| Rc::new(self.parse_fn(id))).clone())
    }

    fn skip_attrs(&self, l: &mut Lex) {
        // skip parameter/return attributes up to a value or a type
        loop {
            let p = l.p;
            match l.next() {
                Tok::Id(s) => {
                    if is_type_start(&Tok::Id(s)) || is_value_kw(s) {
                        l.p = p;
                        return;
                    }
                    match l.peek() {
                        Tok::P('(') => l.skip_parens(),
                        Tok::Num(_) if s == "align" || s == "cc" || s == "addrspace" => {
                            l.next();
                        }
                        _ => {}
                    }
                }
                Tok::Str(_, false) => {
                    if l.eat('=') {
                        l.next();
                    }
                }
                Tok::Attr(_) => {}
                _ => {
                    l.p = p;
                    return;
                }
            }
        }
    }

    fn parse_fn(&self, id: u32) -> Func {
        let text = &self.text;
        let st = self.fns[id as usize].start;
        let end = st + text[st..].find("\n}").unwrap() + 1;
        let hdr_end = st + text[st..].find('\n').unwrap();
        let mut l = Lex::new(text, st, hdr_end);
        loop {
            if let Tok::Global(_) = l.next() {
                break;
            }
        }
        let mut c = FnCtx { regs: HashMap::new(), labels: HashMap::new(), m: self };
        let mut params = vec![];
        l.expect('(');
        if !l.eat(')') {
            loop {
                if l.peek() == Tok::Dots {
                    l.next();
                } else {
                    let _t = self.ty(&mut l);
                    // attributes until %name
                    loop {
                        match l.next() {
                            Tok::Local(n) => {
                                params.push(c.reg(n));
                                break;
                            }
                            Tok::P('(') => {
                                let mut d = 1;
                                while d > 0 {
                                    match l.next() {
                                        Tok::P('(') => d += 1,
                                        Tok::P(')') => d -= 1,
                                        _ => {}
                                    }
                                }
                            }
                            Tok::Eof => panic!("param"),
                            _ => {}
                        }
                    }
                }
                if l.eat(')') {
                    break;
                }
                l.expect(',');
            }
        }
        // first pass: labels
        let body = &text[hdr_end + 1..end];
        let mut nb = 0u32;
        let mut first_seen = false;
        let mut off = hdr_end + 1;
        let mut lines: Vec<(usize, usize)> = vec![];
        for line in body.split_inclusive('\n') {
            let lo = off;
            off += line.len();
            let t = line.trim_end();
            if t.is_empty() {
                continue;
            }
            if !t.starts_with(' ') {
                // label
                let name = if let Some(r) = t.strip_prefix('"') { &r[..r.find('"').unwrap()] } else { &t[..t.find(':').unwrap()] };
                if !first_seen {
                    first_seen = true;
                    c.labels.insert(name.to_string(), 0);
                    nb = 1;
                } else {
                    c.labels.insert(name.to_string(), nb);
                    nb += 1;
                }
                lines.push((lo, usize::MAX));
                continue;
            }
            if !first_seen {
                first_seen = true;
                nb = 1;
            }
            lines.push((lo, off));
        }
        // second pass
        let mut blocks: Vec<Vec<Inst>> = vec![];
        let mut i = 0;
        if lines[0].1 != usize::MAX {
            blocks.push(vec![]);
        }
        while i < lines.len() {
            let (lo, hi) = lines[i];
            i += 1;
            if hi == usize::MAX {
                blocks.push(vec![]);
                continue;
            }
            let mut hi = hi;
            let t = text[lo..hi].trim_start();
            if t.starts_with("catch ") || t.starts_with("cleanup") || t.starts_with("filter ") {
                continue;
            }
            if t.starts_with("switch ") {
                while !text[lo..hi].trim_end().ends_with(']') && !text[lo..hi].contains("\n  ]") {
                    hi = lines[i].1;
                    i += 1;
                }
            }
            if t.starts_with("invoke ") || t.contains("= invoke ") {
                hi = lines[i].1;
                i += 1;
            }
            let mut l = Lex::new(text, lo, hi);
            let inst = self.inst(&mut l, &mut c);
            blocks.last_mut().unwrap().push(inst);
        }
        debug_assert_eq!(blocks.len(), nb as usize);
        Func { name: self.fns[id as usize].name.clone(), id, params, nregs: c.regs.len(), blocks }
    }

    fn opd(&self, l: &mut Lex, c: &mut FnCtx, ty: &Ty) -> Opd {
        if let Tok::Local(n) = l.peek() {
            l.next();
            return Opd::R(c.reg(n));
        }
        Opd::K(self.konst(l, ty))
    }
    fn topd(&self, l: &mut Lex, c: &mut FnCtx) -> (Ty, Opd) {
        let t = self.ty(l);
        let o = self.opd(l, c, &t);
        (t, o)
    }
    fn label(&self, l: &mut Lex, c: &FnCtx) -> u32 {
        match l.next() {
            Tok::Local(n) => *c.labels.get(n).unwrap_or(&0),
            t => panic!("label {:?} {}", t, l.ctx()),
        }
    }
    fn flags(&self, l: &mut Lex) {
        while let Tok::Id(s) = l.peek() {
            match s {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "fast"
                | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {
                    l.next();
                }
                "inrange" => {
                    l.next();
                    l.skip_parens();
                }
                _ => break,
            }
        }
    }

    fn inst(&self, l: &mut Lex, c: &mut FnCtx) -> Inst {
        let st = l.p;
        let mut dst = None;
        if let Tok::Local(n) = l.peek() {
            l.next();
            l.expect('=');
            dst = Some(c.reg(n));
        }
        let op = match l.next() {
            Tok::Id(s) => s,
            t => panic!("inst {:?} {}", t, l.ctx()),
        };
        let d = dst.unwrap_or(0);
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "urem" => Some(Bin::URem),
            "sdiv" => Some(Bin::SDiv),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags(l);
            let (t, a) = self.topd(l, c);
            l.expect(',');
            let e = self.opd(l, c, &t);
            if matches!(t, Ty::Int(w) if w > 128) {
                return Inst::Unsupported("integer wider than 128 bits".into());
            }
            return Inst::Bin(b, t, d, a, e);
        }
        match op {
            "icmp" => {
                self.flags(l);
                let p = match l.next() {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", s),
                    },
                    _ => panic!(),
                };
                let (t, a) = self.topd(l, c);
                l.expect(',');
                let e = self.opd(l, c, &t);
                Inst::ICmp(p, t, d, a, e)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.flags(l);
                let (t, a) = self.topd(l, c);
                assert!(l.eat_id("to"));
                let t2 = self.ty(l);
                let k = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if t.bits() < t2.bits() {
                            Cast::Zext
                        } else {
                            Cast::Trunc
                        }
                    }
                };
                if matches!(t2, Ty::Int(w) if w > 128) {
                    return Inst::Unsupported("integer wider than 128 bits".into());
                }
                Inst::Cast(k, d, t, a, t2)
            }
            "load" => {
                self.flags(l);
                let t = self.ty(l);
                l.expect(',');
                let (_, p) = self.topd(l, c);
                if matches!(t, Ty::Int(w) if w > 128) {
                    return Inst::Unsupported("integer wider than 128 bits".into());
                }
                Inst::Load(d, t, p)
            }
            "store" => {
                self.flags(l);
                let (t, v) = self.topd(l, c);
                l.expect(',');
                let (_, p) = self.topd(l, c);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(l);
                let t = self.ty(l);
                l.expect(',');
                let (_, b) = self.topd(l, c);
                let mut off = 0i64;
                let mut dy = vec![];
                let mut cur = t;
                let mut first = true;
                while l.peek() == Tok::P(',') {
                    let p = l.p;
                    l.next();
                    if l.peek() == Tok::Meta {
                        l.p = p;
                        break;
                    }
                    let (it, i) = self.topd(l, c);
                    let (scale, nx) = if first {
                        (cur.size() as i64, cur.clone())
                    } else {
                        match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i64, (**e).clone()),
                            _ => {
                                let k = match &i {
                                    Opd::K(V::C(k)) => *k as usize,
                                    _ => panic!("gep struct"),
                                };
                                let (o, f) = cur.field(k);
                                off += o as i64;
                                cur = f;
                                continue;
                            }
                        }
                    };
                    first = false;
                    match &i {
                        Opd::K(V::C(k)) => off += sext(*k, it.bits()) as i64 * scale,
                        _ => dy.push((i, scale, it.bits())),
                    }
                    cur = nx;
                }
                Inst::Gep(d, b, off, dy)
            }
            "alloca" => {
                let t = self.ty(l);
                let mut n = 1;
                let mut al = t.align();
                while l.eat(',') {
                    if l.eat_id("align") {
                        al = self.num(l);
                    } else if l.peek() == Tok::Meta {
                        break;
                    } else {
                        let (_, v) = self.topd(l, c);
                        match v {
                            Opd::K(V::C(k)) => n = k as u64,
                            _ => return Inst::Unsupported("dynamic alloca".into()),
                        }
                    }
                }
                Inst::Alloca(d, t.size() * n, al)
            }
            "tail" | "musttail" | "notail" => {
                assert!(l.eat_id("call"));
                self.call(l, c, dst, false)
            }
            "call" => self.call(l, c, dst, false),
            "invoke" => self.call(l, c, dst, true),
            "select" => {
                self.flags(l);
                let (ct, q) = self.topd(l, c);
                l.expect(',');
                let (t, a) = self.topd(l, c);
                l.expect(',');
                let (_, b) = self.topd(l, c);
                Inst::Select(d, t, q, a, b, matches!(ct, Ty::Vec(..)))
            }
            "phi" => {
                self.flags(l);
                let t = self.ty(l);
                let mut v = vec![];
                loop {
                    l.expect('[');
                    let o = self.opd(l, c, &t);
                    l.expect(',');
                    let b = self.label(l, c);
                    l.expect(']');
                    v.push((o, b));
                    let p = l.p;
                    if l.next() != Tok::P(',') || l.peek() != Tok::P('[') {
                        l.p = p;
                        break;
                    }
                }
                Inst::Phi(d, v)
            }
            "br" => {
                if l.eat_id("label") {
                    return Inst::Br(self.label(l, c));
                }
                let (_, q) = self.topd(l, c);
                l.expect(',');
                assert!(l.eat_id("label"));
                let a = self.label(l, c);
                l.expect(',');
                assert!(l.eat_id("label"));
                let b = self.label(l, c);
                Inst::CondBr(q, a, b)
            }
            "switch" => {
                let (t, v) = self.topd(l, c);
                l.expect(',');
                assert!(l.eat_id("label"));
                let df = self.label(l, c);
                l.expect('[');
                let mut cs = vec![];
                while !l.eat(']') {
                    let ct = self.ty(l);
                    let k = self.cint(l, &ct);
                    l.expect(',');
                    assert!(l.eat_id("label"));
                    let b = self.label(l, c);
                    cs.push((k, b));
                }
                Inst::Switch(t.bits(), v, df, cs)
            }
            "ret" => {
                if l.eat_id("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.topd(l, c);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => {
                let (_, a) = self.topd(l, c);
                let ix = self.idxs(l);
                Inst::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.topd(l, c);
                l.expect(',');
                let (_, b) = self.topd(l, c);
                let ix = self.idxs(l);
                Inst::InsertValue(d, a, b, ix)
            }
            "freeze" => {
                let (_, a) = self.topd(l, c);
                Inst::Freeze(d, a)
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                self.flags(l);
                let o = match l.next() {
                    Tok::Id(s) => s.to_string(),
                    _ => panic!(),
                };
                let (_, p) = self.topd(l, c);
                l.expect(',');
                let (t, v) = self.topd(l, c);
                Inst::Rmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                self.flags(l);
                let (_, p) = self.topd(l, c);
                l.expect(',');
                let (t, a) = self.topd(l, c);
                l.expect(',');
                let (_, b) = self.topd(l, c);
                Inst::CmpXchg(d, t, p, a, b)
            }
            "extractelement" => {
                let (_, a) = self.topd(l, c);
                l.expect(',');
                let (_, i) = self.topd(l, c);
                Inst::ExtractElement(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.topd(l, c);
                l.expect(',');
                let (_, v) = self.topd(l, c);
                l.expect(',');
                let (_, i) = self.topd(l, c);
                Inst::InsertElement(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.topd(l, c);
                l.expect(',');
                let (_, b) = self.topd(l, c);
                l.expect(',');
                let mt = self.ty(l);
                match self.konst(l, &mt) {
                    V::A(x) => {
                        let ix = x
                            .iter()
                            .map(|v| match v {
                                V::C(k) => *k as u32,
                                _ => 0,
                            })
                            .collect();
                        Inst::Shuffle(d, a, b, ix)
                    }
                    _ => panic!(),
                }
            }
            _ => Inst::Unsupported(self.text[st..l.end].trim().to_string()),
        }
    }
    fn idxs(&self, l: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        while l.peek() == Tok::P(',') {
            let p = l.p;
            l.next();
            match l.next() {
                Tok::Num(s) => v.push(s.parse().unwrap()),
                _ => {
                    l.p = p;
                    break;
                }
            }
        }
        v
    }
    fn call(&self, l: &mut Lex, c: &mut FnCtx, dst: Option<u32>, inv: bool) -> Inst {
        self.skip_attrs(l);
        let rt = self.ty(l);
        if l.peek() == Tok::P('(') {
            l.skip_parens();
        }
        if let Tok::Id("asm") = l.peek() {
            // inline assembly: only empty barriers are expected
            return Inst::Unsupported("asm".into());
        }
        let callee = match l.next() {
            Tok::Global(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intrinsic(Intr::classify(n))
                } else {
                    Callee::Fn(*self.fnidx.get(n).unwrap_or_else(|| panic!("callee {}", n)))
                }
            }
            Tok::Local(n) => Callee::Ind(Opd::R(c.reg(n))),
            t => {
                return Inst::Unsupported(format!("callee {:?}", t));
            }
        };
        let mut args = vec![];
        l.expect('(');
        if !l.eat(')') {
            loop {
                let t = self.ty(l);
                if t == Ty::Meta {
                    // metadata argument
                    loop {
                        match l.peek() {
                            Tok::P(',') | Tok::P(')') => break,
                            Tok::P('(') => l.skip_parens(),
                            _ => {
                                l.next();
                            }
                        }
                    }
                } else {
                    self.skip_attrs(l);
                    let v = self.opd(l, c, &t);
                    args.push((t, v));
                }
                if l.eat(')') {
                    break;
                }
                l.expect(',');
            }
        }
        let mut normal = None;
        if inv {
            loop {
                match l.next() {
                    Tok::Id("to") => {
                        assert!(l.eat_id("label"));
                        normal = Some(self.label(l, c));
                        break;
                    }
                    Tok::Eof => panic!("invoke"),
                    _ => {}
                }
            }
        }
        Inst::Call(dst, callee, args, rt, normal)
    }
}

fn is_value_kw(s: &str) -> bool {
    matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "splat" | "none" | "ptrtoaddr"
    )
}

struct FnCtx<'m> {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    #[allow(dead_code)]
    m: &'m Module,
}
impl<'m> FnCtx<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
