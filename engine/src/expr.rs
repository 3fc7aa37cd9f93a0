//! Hash-consed bit-vector terms (1..=128 bits) with rewriting.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    SExt,
    Extract,
    Concat,
    Ite,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Copy, Debug)]
enum Seg {
    C(u32, u128),
    S(E, u32, u32), // expr, lo, width
}
impl Seg {
    fn w(&self) -> u32 {
        match self {
            Seg::C(w, _) => *w,
            Seg::S(_, _, w) => *w,
        }
    }
}

pub type SupId = u32;

pub struct Arena {
    pub nodes: Vec<Node>,
    umax: Vec<u128>,
    pub sup: Vec<SupId>,
    map: FxMap<Node, E>,
    pub sups: Vec<Vec<u32>>, // sorted variable lists
    supmap: HashMap<Vec<u32>, SupId>,
    supunion: FxMap<(SupId, SupId), SupId>,
    pub nvars: u32,
    // evaluation cache
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_cur: u32,
    tables: FxMap<E, Box<[u64; 4]>>,
    pub no_tree: bool,
    smalls: FxMap<E, Option<std::rc::Rc<Vec<u128>>>>,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            umax: vec![],
            sup: vec![],
            map: Default::default(),
            sups: vec![vec![]],
            supmap: Default::default(),
            supunion: Default::default(),
            nvars: 0,
            ev_stamp: vec![],
            ev_val: vec![],
            ev_cur: 0,
            tables: Default::default(),
            no_tree: false,
            smalls: Default::default(),
        };
        a.supmap.insert(vec![], 0);
        a.cst(1, 0);
        a.cst(1, 1);
        a
    }
    pub const F: E = 0;
    pub const T: E = 1;

    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    pub fn umax(&self, e: E) -> u128 {
        self.umax[e as usize]
    }
    pub fn support(&self, e: E) -> &Vec<u32> {
        &self.sups[self.sup[e as usize] as usize]
    }
    pub fn sup_union(&mut self, a: SupId, b: SupId) -> SupId {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.supunion.get(&key) {
            return *r;
        }
        let (x, y) = (&self.sups[a as usize], &self.sups[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.intern_sup(v);
        self.supunion.insert(key, r);
        r
    }
    fn intern_sup(&mut self, v: Vec<u32>) -> SupId {
        if let Some(r) = self.supmap.get(&v) {
            return *r;
        }
        let id = self.sups.len() as u32;
        self.sups.push(v.clone());
        self.supmap.insert(v, id);
        id
    }

    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op, w: w as u8, a, b, c, k };
        if let Some(r) = self.map.get(&n) {
            return *r;
        }
        if matches!(op, Eq | Ult | Slt) && !self.no_tree {
            if let Some(r) = self.cmp_tree(op, a, b) {
                self.map.insert(n, r);
                return r;
            }
        }
        let id = self.nodes.len() as E;
        let m = mask(w);
        let pow = |x: u128| -> u128 {
            if x == 0 {
                0
            } else {
                mask(128 - x.leading_zeros())
            }
        };
        let um = match op {
            Const => k,
            Var => m,
            Add => {
                let (x, o) = self.umax(a).overflowing_add(self.umax(b));
                if o || x > m {
                    m
                } else {
                    x
                }
            }
            Mul => match self.umax(a).checked_mul(self.umax(b)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            UDiv => match self.as_const(b) {
                Some(0) | None => m,
                Some(d) => self.umax(a) / d,
            },
            URem => match self.as_const(b) {
                Some(0) | None => m,
                Some(d) => (d - 1).min(self.umax(a)),
            },
            And => self.umax(a).min(self.umax(b)),
            Or | Xor => pow(self.umax(a).max(self.umax(b))).min(m),
            LShr => self.umax(a),
            Ite => self.umax(b).max(self.umax(c)),
            Concat => (self.umax(a) << self.w(b)) | self.umax(b),
            Extract => {
                let s = self.umax(a) >> (k as u32);
                if s <= m {
                    s
                } else {
                    m
                }
            }
            _ => m,
        };
        let sup = match op {
            Const => 0,
            Var => self.intern_sup(vec![k as u32]),
            Not | Extract | SExt => self.sup[a as usize],
            Ite => {
                let s = self.sup_union(self.sup[a as usize], self.sup[b as usize]);
                self.sup_union(s, self.sup[c as usize])
            }
            _ => self.sup_union(self.sup[a as usize], self.sup[b as usize]),
        };
        self.nodes.push(n);
        self.umax.push(um);
        self.sup.push(sup);
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        self.map.insert(n, id);
        id
    }

    pub fn cst(&mut self, w: u32, v: u128) -> E {
        self.mk(Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn bool(&self, b: bool) -> E {
        if b {
            Self::T
        } else {
            Self::F
        }
    }
    pub fn var(&mut self) -> E {
        let k = self.nvars;
        self.nvars += 1;
        self.mk(Var, 8, 0, 0, 0, k as u128)
    }

    // ---------- segments
    fn segs(&self, e: E, lo: u32, w: u32, out: &mut Vec<Seg>) {
        // appends low-to-high segments of e[lo..lo+w]
        if w == 0 {
            return;
        }
        let n = self.nodes[e as usize];
        match n.op {
            Const => out.push(Seg::C(w, (n.k >> lo) & mask(w))),
            Concat => {
                let lw = self.w(n.b);
                if lo < lw {
                    let t = w.min(lw - lo);
                    self.segs(n.b, lo, t, out);
                    if w > t {
                        self.segs(n.a, 0, w - t, out);
                    }
                } else {
                    self.segs(n.a, lo - lw, w, out);
                }
            }
            Extract => self.segs(n.a, lo + n.k as u32, w, out),
            _ => out.push(Seg::S(e, lo, w)),
        }
    }
    fn seg_expr(&mut self, s: Seg) -> E {
        match s {
            Seg::C(w, v) => self.cst(w, v),
            Seg::S(e, lo, w) => self.extract(e, lo, w),
        }
    }
    fn build(&mut self, segs: &[Seg]) -> E {
        // expand slices of non-leaf, then merge
        let mut m: Vec<Seg> = Vec::with_capacity(segs.len());
        for s in segs {
            match (m.last_mut(), *s) {
                (_, Seg::C(0, _)) | (_, Seg::S(_, _, 0)) => {}
                (Some(Seg::C(w0, v0)), Seg::C(w1, v1)) => {
                    *v0 |= v1 << *w0;
                    *w0 += w1;
                }
                (Some(Seg::S(e0, lo0, w0)), Seg::S(e1, lo1, w1)) if *e0 == e1 && *lo0 + *w0 == lo1 => {
                    *w0 += w1;
                }
                (_, s) => m.push(s),
            }
        }
        let mut acc: Option<E> = None;
        for s in m {
            let e = match s {
                Seg::C(w, v) => self.cst(w, v),
                Seg::S(e, lo, w) => {
                    if lo == 0 && w == self.w(e) {
                        e
                    } else {
                        self.mk(Extract, w, e, 0, 0, lo as u128)
                    }
                }
            };
            acc = Some(match acc {
                None => e,
                Some(l) => {
                    let w = self.w(e) + self.w(l);
                    self.mk(Concat, w, e, l, 0, 0)
                }
            });
        }
        acc.unwrap()
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let mut s = vec![];
        self.segs(lo, 0, self.w(lo), &mut s);
        self.segs(hi, 0, self.w(hi), &mut s);
        self.build(&s)
    }
    /// bytes low to high
    pub fn concat_bytes(&mut self, b: &[E]) -> E {
        let mut s = Vec::with_capacity(b.len());
        for e in b {
            self.segs(*e, 0, self.w(*e), &mut s);
        }
        self.build(&s)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let mut s = vec![];
        self.segs(e, 0, ew, &mut s);
        s.push(Seg::C(w - ew, 0));
        self.build(&s)
    }
    fn top_zero(&self, e: E) -> bool {
        self.umax(e) >> (self.w(e) - 1) == 0
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(c) = self.as_const(e) {
            return self.cst(w, sext(c, ew) as u128);
        }
        if self.top_zero(e) {
            return self.zext(e, w);
        }
        let n = self.n(e);
        if n.op == SExt {
            return self.sext(n.a, w);
        }
        if n.op == Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
            let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk(SExt, w, e, 0, 0, 0)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        let n = self.n(e);
        match n.op {
            Const => self.cst(w, n.k >> lo),
            Concat | Extract => {
                let mut s = vec![];
                self.segs(e, lo, w, &mut s);
                if let [Seg::S(x, l, ww)] = s[..] {
                    if x != e {
                        return self.extract(x, l, ww);
                    }
                }
                // simplify individual slices
                let mut t = vec![];
                for sg in s {
                    match sg {
                        Seg::S(x, l, ww) if !(l == 0 && ww == self.w(x)) => {
                            let y = self.extract(x, l, ww);
                            self.segs(y, 0, ww, &mut t);
                        }
                        _ => t.push(sg),
                    }
                }
                self.build(&t)
            }
            And | Or | Xor => {
                let (x, y) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w));
                self.bitop(n.op, x, y)
            }
            Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Ite => {
                let (x, y) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w));
                self.ite(n.a, x, y)
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else if lo >= iw - 1 {
                    let b = self.extract(n.a, iw - 1, 1);
                    self.sext(b, w)
                } else {
                    let b = self.extract(n.a, lo, iw - lo);
                    self.sext(b, w)
                }
            }
            Add if lo == 0 => {
                let (x, y) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w));
                self.add(x, y)
            }
            Mul if lo == 0 => {
                let (x, y) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w));
                self.mul(x, y)
            }
            _ => {
                if self.umax(e) >> lo == 0 {
                    return self.cst(w, 0);
                }
                self.mk(Extract, w, e, 0, 0, lo as u128)
            }
        }
    }

    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let n = self.n(e);
        match n.op {
            Const => self.cst(w, !n.k),
            Not => n.a,
            Concat => {
                let (x, y) = (self.not(n.a), self.not(n.b));
                self.concat(x, y)
            }
            Ite if w > 1 || (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) => {
                let (x, y) = (self.not(n.b), self.not(n.c));
                self.ite(n.a, x, y)
            }
            _ => self.mk(Not, w, e, 0, 0, 0),
        }
    }

    pub fn bitop(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = match op {
                And => x & y,
                Or => x | y,
                _ => x ^ y,
            };
            return self.cst(w, v);
        }
        if a == b {
            return match op {
                Xor => self.cst(w, 0),
                _ => a,
            };
        }
        // const on the right
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        let m = mask(w);
        if let Some(c) = cb {
            if c == 0 {
                return match op {
                    And => b,
                    _ => a,
                };
            }
            if c == m {
                return match op {
                    And => a,
                    Or => b,
                    _ => self.not(a),
                };
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if (na.op == Not && na.a == b) || (nb.op == Not && nb.a == a) {
            return match op {
                And => self.cst(w, 0),
                _ => self.cst(w, m),
            };
        }
        if w > 1 && (cb.is_some() || na.op == Concat || nb.op == Concat) {
            // segment-wise
            let (mut sa, mut sb) = (vec![], vec![]);
            self.segs(a, 0, w, &mut sa);
            if let Some(c) = cb {
                // split constant in runs
                let mut i = 0;
                while i < w {
                    let bit = (c >> i) & 1;
                    let mut j = i + 1;
                    while j < w && (c >> j) & 1 == bit {
                        j += 1;
                    }
                    sb.push(Seg::C(j - i, if bit == 1 { mask(j - i) } else { 0 }));
                    i = j;
                }
            } else {
                self.segs(b, 0, w, &mut sb);
                // split mixed constants of either side
                sb = Self::split_const(&sb);
            }
            sa = Self::split_const(&sa);
            let mut out: Vec<Seg> = vec![];
            let (mut i, mut j) = (0, 0);
            let (mut oa, mut ob) = (0u32, 0u32);
            while i < sa.len() {
                let t = (sa[i].w() - oa).min(sb[j].w() - ob);
                let pa = Self::sub(sa[i], oa, t);
                let pb = Self::sub(sb[j], ob, t);
                let r = self.seg_op(op, pa, pb);
                // expand
                match r {
                    Seg::S(e, lo, ww) => self.segs(e, lo, ww, &mut out),
                    c => out.push(c),
                }
                oa += t;
                ob += t;
                if oa == sa[i].w() {
                    i += 1;
                    oa = 0;
                }
                if ob == sb[j].w() {
                    j += 1;
                    ob = 0;
                }
            }
            return self.build(&out);
        }
        if w == 1 {
            // absorption for boolean structure
            if op == And || op == Or {
                let dual = if op == And { Or } else { And };
                if na.op == op && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == op && (nb.a == a || nb.b == a) {
                    return b;
                }
                if na.op == dual && (na.a == b || na.b == b) {
                    return b;
                }
                if nb.op == dual && (nb.a == a || nb.b == a) {
                    return a;
                }
            }
            if op == Xor {
                if na.op == Not {
                    let x = self.bitop(Xor, na.a, b);
                    return self.not(x);
                }
                if nb.op == Not {
                    let x = self.bitop(Xor, a, nb.a);
                    return self.not(x);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(op, w, a, b, 0, 0)
    }
    fn split_const(s: &[Seg]) -> Vec<Seg> {
        let mut out = vec![];
        for g in s {
            match *g {
                Seg::C(w, c) if c != 0 && c != mask(w) => {
                    let mut i = 0;
                    while i < w {
                        let bit = (c >> i) & 1;
                        let mut j = i + 1;
                        while j < w && (c >> j) & 1 == bit {
                            j += 1;
                        }
                        out.push(Seg::C(j - i, if bit == 1 { mask(j - i) } else { 0 }));
                        i = j;
                    }
                }
                g => out.push(g),
            }
        }
        out
    }
    fn sub(s: Seg, off: u32, w: u32) -> Seg {
        match s {
            Seg::C(_, v) => Seg::C(w, (v >> off) & mask(w)),
            Seg::S(e, lo, _) => Seg::S(e, lo + off, w),
        }
    }
    fn seg_op(&mut self, op: Op, a: Seg, b: Seg) -> Seg {
        let (a, b) = match a {
            Seg::C(..) => (b, a),
            _ => (a, b),
        };
        match (a, b) {
            (Seg::C(w, x), Seg::C(_, y)) => Seg::C(
                w,
                match op {
                    And => x & y,
                    Or => x | y,
                    _ => x ^ y,
                },
            ),
            (Seg::S(e, lo, w), Seg::C(_, c)) => {
                if c == 0 {
                    if op == And {
                        Seg::C(w, 0)
                    } else {
                        a
                    }
                } else {
                    match op {
                        And => a,
                        Or => b,
                        _ => {
                            let x = self.extract(e, lo, w);
                            let y = self.not(x);
                            Seg::S(y, 0, w)
                        }
                    }
                }
            }
            (Seg::S(e, lo, w), Seg::S(f, l2, _)) => {
                let x = self.extract(e, lo, w);
                let y = self.extract(f, l2, w);
                let r = self.bitop(op, x, y);
                Seg::S(r, 0, w)
            }
            _ => unreachable!(),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bitop(And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bitop(Or, a, b)
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(w, 0);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let lo = self.extract(a, 0, w - k);
            let z = self.cst(k, 0);
            return self.concat(lo, z);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.shift_ite(a, b, 0) {
            return r;
        }
        self.mk(Shl, w, a, b, 0, 0)
    }
    /// shift by an amount with a small range: expand to ite chain over constants
    fn shift_ite(&mut self, a: E, b: E, kind: u8) -> Option<E> {
        let n = self.n(b);
        if n.op == Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
            let (x, y) = match kind {
                0 => (self.shl(a, n.b), self.shl(a, n.c)),
                1 => (self.lshr(a, n.b), self.lshr(a, n.c)),
                _ => (self.ashr(a, n.b), self.ashr(a, n.c)),
            };
            return Some(self.ite(n.a, x, y));
        }
        None
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(w, 0);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, k, w - k);
            return self.zext(hi, w);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.shift_ite(a, b, 1) {
            return r;
        }
        self.mk(LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.top_zero(a) {
            return self.lshr(a, b);
        }
        if let Some(k) = self.as_const(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, k, w - k);
            return self.sext(hi, w);
        }
        if let Some(r) = self.shift_ite(a, b, 2) {
            return r;
        }
        self.mk(AShr, w, a, b, 0, 0)
    }

    fn disjoint(&self, a: E, b: E) -> bool {
        let w = self.w(a);
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, 0, w, &mut sa);
        self.segs(b, 0, w, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            return false;
        }
        sa = Self::split_const(&sa);
        sb = Self::split_const(&sb);
        let (mut i, mut j) = (0, 0);
        let (mut oa, mut ob) = (0u32, 0u32);
        while i < sa.len() {
            let t = (sa[i].w() - oa).min(sb[j].w() - ob);
            let za = matches!(sa[i], Seg::C(_, 0));
            let zb = matches!(sb[j], Seg::C(_, 0));
            if !za && !zb {
                return false;
            }
            oa += t;
            ob += t;
            if oa == sa[i].w() {
                i += 1;
                oa = 0;
            }
            if ob == sb[j].w() {
                j += 1;
                ob = 0;
            }
        }
        true
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, x.wrapping_add(y));
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if cb == Some(0) {
            return a;
        }
        if w == 1 {
            return self.bitop(Xor, a, b);
        }
        if let Some(c) = cb {
            let n = self.n(a);
            if n.op == Add {
                if let Some(c2) = self.as_const(n.b) {
                    let k = self.cst(w, c.wrapping_add(c2));
                    return self.add(n.a, k);
                }
            }
            if n.op == Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
                let (x, y) = (self.add(n.b, b), self.add(n.c, b));
                return self.ite(n.a, x, y);
            }
        }
        // x + (-x)
        if self.disjoint(a, b) {
            return self.bitop(Or, a, b);
        }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.not(a);
        let one = self.cst(w, 1);
        self.add(n, one)
    }
    pub fn sub_(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.cst(w, 0);
        }
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            let k = self.cst(w, c.wrapping_neg());
            return self.add(a, k);
        }
        // (x + c) - x
        let na = self.n(a);
        if na.op == Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, x.wrapping_mul(y));
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        match cb {
            Some(0) => return b,
            Some(1) => return a,
            Some(c) if c.is_power_of_two() => {
                let k = self.cst(w, c.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            _ => {}
        }
        if let Some(m) = self.umax(a).checked_mul(self.umax(b)) {
            let need = (128 - m.leading_zeros()).max(1);
            if need + 4 < w {
                let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                let r = self.mul(x, y);
                return self.zext(r, w);
            }
        }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Mul, w, a, b, 0, 0)
    }
    pub fn udivrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = if y == 0 {
                if op == UDiv {
                    mask(w)
                } else {
                    x
                }
            } else if op == UDiv {
                x / y
            } else {
                x % y
            };
            return self.cst(w, v);
        }
        if let Some(c) = self.as_const(b) {
            if c.is_power_of_two() {
                let t = c.trailing_zeros();
                return if op == UDiv {
                    let k = self.cst(w, t as u128);
                    self.lshr(a, k)
                } else {
                    let k = self.cst(w, c - 1);
                    self.and(a, k)
                };
            }
            if c != 0 && self.umax(a) < c {
                return if op == UDiv { self.cst(w, 0) } else { a };
            }
        }
        let m = self.umax(a).max(self.umax(b));
        let need = (128 - m.leading_zeros()).max(1);
        if need < w {
            let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
            if self.as_const(y) != Some(0) {
                let r = self.udivrem(op, x, y);
                // division by zero differs in value, but the code never divides by zero
                return self.zext(r, w);
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn sdivrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sext(x, w), sext(y, w));
            if y != 0 {
                let v = if op == SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                return self.cst(w, v as u128);
            }
        }
        if self.top_zero(a) && self.top_zero(b) {
            return self.udivrem(if op == SDiv { UDiv } else { URem }, a, b);
        }
        self.mk(op, w, a, b, 0, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::T;
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let cb = self.as_const(b);
        if self.as_const(a).is_some() {
            return Self::F; // two distinct constants
        }
        if let Some(c) = cb {
            if c > self.umax(a) {
                return Self::F;
            }
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
        } else if w == 1 {
            let x = self.bitop(Xor, a, b);
            return self.not(x);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Concat || nb.op == Concat {
            let (mut sa, mut sb) = (vec![], vec![]);
            self.segs(a, 0, w, &mut sa);
            self.segs(b, 0, w, &mut sb);
            let mut parts: Vec<(Seg, Seg)> = vec![];
            let (mut i, mut j) = (0, 0);
            let (mut oa, mut ob) = (0u32, 0u32);
            while i < sa.len() {
                let t = (sa[i].w() - oa).min(sb[j].w() - ob);
                parts.push((Self::sub(sa[i], oa, t), Self::sub(sb[j], ob, t)));
                oa += t;
                ob += t;
                if oa == sa[i].w() {
                    i += 1;
                    oa = 0;
                }
                if ob == sb[j].w() {
                    j += 1;
                    ob = 0;
                }
            }
            // constants first
            for (x, y) in &parts {
                if let (Seg::C(_, u), Seg::C(_, v)) = (x, y) {
                    if u != v {
                        return Self::F;
                    }
                }
            }
            let mut acc = Self::T;
            for (x, y) in parts {
                let (x, y) = (self.seg_expr(x), self.seg_expr(y));
                let q = self.eq(x, y);
                acc = self.and(acc, q);
                if acc == Self::F {
                    return acc;
                }
            }
            return acc;
        }
        if let Some(c) = cb {
            match na.op {
                Ite => {
                    if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                        let (x, y) = (self.eq(na.b, b), self.eq(na.c, b));
                        return self.ite(na.a, x, y);
                    }
                }
                Add => {
                    if let Some(c2) = self.as_const(na.b) {
                        let k = self.cst(w, c.wrapping_sub(c2));
                        return self.eq(na.a, k);
                    }
                }
                Not => {
                    let k = self.cst(w, !c);
                    return self.eq(na.a, k);
                }
                SExt => {
                    let iw = self.w(na.a);
                    if sext(c & mask(iw), iw) as u128 & mask(w) == c {
                        let k = self.cst(iw, c);
                        return self.eq(na.a, k);
                    }
                    return Self::F;
                }
                _ => {}
            }
        } else if na.op == Add && nb.op == Add && na.b == nb.b {
            return self.eq(na.a, nb.a);
        }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Eq, 1, a, b, 0, 0)
    }
    fn lead_zero(&self, e: E) -> u32 {
        let m = self.umax(e);
        let w = self.w(e);
        let used = 128 - m.leading_zeros();
        w - used.min(w)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(x < y);
        }
        if let Some(c) = cb {
            if c == 0 {
                return Self::F;
            }
            if self.umax(a) < c {
                return Self::T;
            }
            if c == 1 {
                let z = self.cst(w, 0);
                return self.eq(a, z);
            }
        }
        if let Some(c) = ca {
            if c >= self.umax(b) {
                return Self::F;
            }
            if c == 0 {
                let q = self.eq(b, a);
                return self.not(q);
            }
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        let lz = self.lead_zero(a).min(self.lead_zero(b));
        if lz > 0 && lz < w {
            let (x, y) = (self.extract(a, 0, w - lz), self.extract(b, 0, w - lz));
            return self.ult(x, y);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if cb.is_some() && na.op == Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
            let (x, y) = (self.ult(na.b, b), self.ult(na.c, b));
            return self.ite(na.a, x, y);
        }
        if ca.is_some() && nb.op == Ite && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) {
            let (x, y) = (self.ult(a, nb.b), self.ult(a, nb.c));
            return self.ite(nb.a, x, y);
        }
        if let Some(c) = cb {
            // a < 2^k  => high bits zero
            if c.is_power_of_two() {
                let k = c.trailing_zeros();
                let hi = self.extract(a, k, w - k);
                let z = self.cst(w - k, 0);
                return self.eq(hi, z);
            }
        }
        if let Some(c) = ca {
            // 2^k-1 < b => high bits nonzero
            if (c + 1).is_power_of_two() {
                let k = (c + 1).trailing_zeros();
                let hi = self.extract(b, k, w - k);
                let z = self.cst(w - k, 0);
                let q = self.eq(hi, z);
                return self.not(q);
            }
        }
        self.mk(Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(sext(x, w) < sext(y, w));
        }
        if self.top_zero(a) && self.top_zero(b) {
            return self.ult(a, b);
        }
        if let Some(c) = cb {
            if c == 0 {
                return self.extract(a, w - 1, 1);
            }
            if self.top_zero(a) && (c >> (w - 1)) == 1 {
                return Self::F;
            }
        }
        if let Some(c) = ca {
            if c == mask(w) {
                let q = self.extract(b, w - 1, 1);
                return self.not(q);
            }
            if self.top_zero(b) && (c >> (w - 1)) == 1 {
                return Self::T;
            }
        }
        let na = self.n(a);
        if cb.is_some() && na.op == Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
            let (x, y) = (self.slt(na.b, b), self.slt(na.c, b));
            return self.ite(na.a, x, y);
        }
        self.mk(Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == Self::T {
            return a;
        }
        if c == Self::F {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == Self::T {
                return self.or(c, b);
            }
            if b == Self::F {
                return self.and(c, a);
            }
            if a == Self::F {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == Self::T {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        let na = self.n(a);
        if na.op == Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common concat structure: hoist equal/const segments
        if w > 1 && (na.op == Concat || nb.op == Concat) {
            let (mut sa, mut sb) = (vec![], vec![]);
            self.segs(a, 0, w, &mut sa);
            self.segs(b, 0, w, &mut sb);
            let mut pieces: Vec<(Seg, Seg)> = vec![];
            let (mut i, mut j) = (0, 0);
            let (mut oa, mut ob) = (0u32, 0u32);
            let mut common = false;
            while i < sa.len() {
                let t = (sa[i].w() - oa).min(sb[j].w() - ob);
                let (x, y) = (Self::sub(sa[i], oa, t), Self::sub(sb[j], ob, t));
                match (x, y) {
                    (Seg::C(_, u), Seg::C(_, v)) if u == v => common = true,
                    (Seg::S(e, l, _), Seg::S(f, m, _)) if e == f && l == m => common = true,
                    _ => {}
                }
                pieces.push((x, y));
                oa += t;
                ob += t;
                if oa == sa[i].w() {
                    i += 1;
                    oa = 0;
                }
                if ob == sb[j].w() {
                    j += 1;
                    ob = 0;
                }
            }
            if common && pieces.len() > 1 {
                let mut out = vec![];
                for (x, y) in pieces {
                    let (x, y) = (self.seg_expr(x), self.seg_expr(y));
                    let r = self.ite(c, x, y);
                    self.segs(r, 0, self.w(r), &mut out);
                }
                return self.build(&out);
            }
        }
        self.mk(Ite, w, c, a, b, 0)
    }
    /// comparison with a constant of a value computed from a choice among constants: decided at
    /// the leaves of the choice, leaving a boolean function of its conditions
    fn cmp_tree(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (x, flip, k) = match (self.as_const(a), self.as_const(b)) {
            (None, Some(k)) => (a, false, k),
            (Some(k), None) => (b, true, k),
            _ => return None,
        };
        let w = self.w(x);
        // operations from the compared value down to the choice
        let mut ops: Vec<(Node, u32, bool, u128)> = vec![];
        let mut e = x;
        loop {
            let n = self.n(e);
            match n.op {
                Ite => break,
                Not | SExt | Extract => {
                    ops.push((n, self.w(n.a), true, 0));
                    e = n.a;
                }
                Add | Mul | And | Or | Xor | Shl | LShr | AShr | UDiv | URem | Concat => {
                    if let Some(c) = self.as_const(n.b) {
                        ops.push((n, self.w(n.a), true, c));
                        e = n.a;
                    } else if let Some(c) = self.as_const(n.a) {
                        ops.push((n, self.w(n.a), false, c));
                        e = n.b;
                    } else {
                        return None;
                    }
                }
                _ => return None,
            }
            if ops.len() > 12 {
                return None;
            }
        }
        // the choice: a tree whose leaves are all constants
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut st = vec![e];
        while let Some(t) = st.pop() {
            let n = self.n(t);
            match n.op {
                Const => {}
                Ite => {
                    if seen.insert(t, ()).is_none() {
                        if seen.len() > 80 {
                            return None;
                        }
                        st.push(n.b);
                        st.push(n.c);
                    }
                }
                _ => return None,
            }
        }
        let mut memo: FxMap<E, E> = FxMap::default();
        Some(self.leaf_map(e, &ops, op, flip, k, w, &mut memo))
    }
    fn leaf_map(
        &mut self,
        e: E,
        ops: &[(Node, u32, bool, u128)],
        op: Op,
        flip: bool,
        k: u128,
        w: u32,
        memo: &mut FxMap<E, E>,
    ) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.n(e);
        let r = if n.op == Const {
            let mut v = n.k;
            for (o, aw, left, c) in ops.iter().rev() {
                let m = mask(o.w as u32);
                v = match o.op {
                    Not => !v & m,
                    SExt => sext(v, *aw) as u128 & m,
                    Extract => (v >> o.k) & m,
                    _ => {
                        let (x, y) = if *left { (v, *c) } else { (*c, v) };
                        let wb = self.w(o.b);
                        conc(o.op, *aw, x, y, wb) & m
                    }
                };
            }
            let (x, y) = if flip { (k, v) } else { (v, k) };
            let r = match op {
                Eq => x == y,
                Ult => x < y,
                _ => sext(x, w) < sext(y, w),
            };
            self.bool(r)
        } else {
            let x = self.leaf_map(n.b, ops, op, flip, k, w, memo);
            let y = self.leaf_map(n.c, ops, op, flip, k, w, memo);
            self.ite(n.a, x, y)
        };
        memo.insert(e, r);
        r
    }
    pub fn ctpop(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut acc = self.cst(w, 0);
        for i in 0..w {
            let b = self.extract(a, i, 1);
            let z = self.zext(b, w);
            acc = self.add(acc, z);
        }
        acc
    }
    pub fn ctlz(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut acc = self.cst(w, w as u128);
        for i in 0..w {
            let b = self.extract(a, i, 1);
            let k = self.cst(w, (w - 1 - i) as u128);
            acc = self.ite(b, k, acc);
        }
        acc
    }
    pub fn cttz(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut acc = self.cst(w, w as u128);
        for i in (0..w).rev() {
            let b = self.extract(a, i, 1);
            let k = self.cst(w, i as u128);
            acc = self.ite(b, k, acc);
        }
        acc
    }
    pub fn bswap(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut v = vec![];
        for i in (0..w / 8).rev() {
            v.push(self.extract(a, i * 8, 8));
        }
        self.concat_bytes(&v)
    }
    pub fn bitreverse(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut v = vec![];
        for i in (0..w).rev() {
            v.push(self.extract(a, i, 1));
        }
        self.concat_bytes(&v)
    }

    // ---------- evaluation
    /// Over-approximate value set of an expression built from a few constants by
    /// if-then-else and arithmetic; None when it is not (visibly) small.
    pub fn small(&mut self, e: E) -> Option<std::rc::Rc<Vec<u128>>> {
        let n = self.nodes[e as usize];
        if n.op == Const {
            return Some(std::rc::Rc::new(vec![n.k]));
        }
        let m = self.umax[e as usize];
        if m < 4 && n.w > 1 {
            return Some(std::rc::Rc::new((0..=m).collect()));
        }
        if n.op == Var {
            return None;
        }
        if let Some(r) = self.smalls.get(&e) {
            return r.clone();
        }
        let r = self.small0(e, n);
        self.smalls.insert(e, r.clone());
        r
    }
    fn small0(&mut self, _e: E, n: Node) -> Option<std::rc::Rc<Vec<u128>>> {
        let mut out: Vec<u128> = vec![];
        match n.op {
            Ite => {
                let (a, b) = (self.small(n.b)?, self.small(n.c)?);
                out.extend(a.iter());
                out.extend(b.iter());
            }
            Not | SExt | Extract => {
                let a = self.small(n.a)?;
                for x in a.iter() {
                    let x = *x;
                    let aw = self.w(n.a);
                    out.push(match n.op {
                        Not => !x & mask(n.w as u32),
                        SExt => sext(x, aw) as u128 & mask(n.w as u32),
                        _ => (x >> n.k) & mask(n.w as u32),
                    });
                }
            }
            _ => {
                if matches!(n.op, Eq | Ult | Slt) {
                    return None;
                }
                let (a, b) = (self.small(n.a)?, self.small(n.b)?);
                let (wa, wb) = (self.w(n.a), self.w(n.b));
                for x in a.iter() {
                    for y in b.iter() {
                        out.push(conc(n.op, wa, *x, *y, wb) & mask(n.w as u32));
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        if out.len() > 64 {
            return None;
        }
        Some(std::rc::Rc::new(out))
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Const => format!("{:#x}", n.k),
            Var => format!("v{}", n.k),
            Not => format!("!{}", self.show(n.a, d - 1)),
            Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            SExt => format!("sx{}({})", n.w, self.show(n.a, d - 1)),
            Ite => format!("ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    pub fn cur_stamp(&self) -> u32 {
        self.ev_cur
    }
    pub fn new_stamp(&mut self) -> u32 {
        self.ev_cur += 1;
        self.ev_cur
    }
    pub fn eval(&mut self, e: E, stamp: u32, model: &[u8]) -> u128 {
        if self.ev_stamp[e as usize] == stamp {
            return self.ev_val[e as usize];
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let v = match n.op {
            Const => n.k,
            Var => *model.get(n.k as usize).unwrap_or(&0) as u128,
            Ite => {
                if self.eval(n.a, stamp, model) == 1 {
                    self.eval(n.b, stamp, model)
                } else {
                    self.eval(n.c, stamp, model)
                }
            }
            Not => !self.eval(n.a, stamp, model),
            Extract => self.eval(n.a, stamp, model) >> (n.k as u32),
            SExt => {
                let iw = self.w(n.a);
                sext(self.eval(n.a, stamp, model), iw) as u128
            }
            _ => {
                let x = self.eval(n.a, stamp, model);
                let y = self.eval(n.b, stamp, model);
                let ow = self.w(n.a);
                conc(n.op, ow, x, y, self.w(n.b))
            }
        } & mask(w);
        self.ev_stamp[e as usize] = stamp;
        self.ev_val[e as usize] = v;
        v
    }
    /// truth table of a 1-bit term over its single variable
    pub fn table(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return **t;
        }
        let v = self.support(e)[0] as usize;
        let mut m = vec![0u8; v + 1];
        let mut t = [0u64; 4];
        for i in 0..256usize {
            m[v] = i as u8;
            let s = self.new_stamp();
            if self.eval(e, s, &m) == 1 {
                t[i >> 6] |= 1 << (i & 63);
            }
        }
        self.tables.insert(e, Box::new(t));
        t
    }
}

pub fn conc(op: Op, w: u32, x: u128, y: u128, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Add => x.wrapping_add(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        SDiv => {
            let (x, y) = (sext(x, w), sext(y, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        SRem => {
            let (x, y) = (sext(x, w), sext(y, w));
            if y == 0 {
                x as u128 & m
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => {
            let s = (y.min(w as u128 - 1)) as u32;
            (sext(x, w) >> s) as u128 & m
        }
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Slt => (sext(x, w) < sext(y, w)) as u128,
        Concat => (x << wb) | y,
        _ => unreachable!(),
    }
}
