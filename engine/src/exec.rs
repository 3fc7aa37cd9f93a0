//! Symbolic executor over the LLVM IR of the real code.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

const OFF: u64 = 0x1000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub size: u64,           // known valid size
    pub ssize: Option<E>,    // symbolic size (64 bit)
}
impl Obj {
    fn new(size: u64) -> Obj {
        Obj { data: vec![0; size as usize], sym: None, size, ssize: None }
    }
    fn grow(&mut self, n: u64) {
        if (self.data.len() as u64) < n {
            self.data.resize(n as usize, 0);
            if let Some(s) = &mut self.sym {
                s.resize(n as usize, 0);
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: &'static Func,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    ret: Option<u32>,
    normal: Option<u32>,
    mark: usize,
}

pub type Dom = [u64; 4];

#[derive(Clone)]
pub struct State {
    cur: Frame,
    frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    glob: FxMap<usize, Rc<Obj>>,
    cons: Vec<E>,
    dom: Vec<Dom>,
    ent: Vec<bool>,
    model: Vec<u8>,
    stamp: u32, // evaluation stamp valid for the current model (0 = none)
    fixed: FxMap<E, u128>,
    observed: Vec<Vec<V>>,
    nvars: u32,
    steps: u64,
    forks: u32,
    reach: Vec<u32>,
    alloc: u64,
    /// bytes allocated and not freed, and how many may be (beyond that is a violation)
    live: u64,
    limit: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone)]
pub struct AssertStat {
    pub seen: u64,
    pub rewritten: u64,
    pub z3_unsat: u64,
    pub violated: u64,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub observed: Vec<Vec<u8>>,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_alloc: u64,
    pub audit: bool,
    pub no_print: bool,
    pub real_format: bool,
    pub max_samples: usize,
    pub max_viol: usize,
    pub verbose: bool,
    pub max_forks: u64,
    pub merge: bool,
    pub split: bool,
    pub merge_any: bool,
    pub join_cap: usize,
}

pub enum Stop {
    End,                 // path finished normally
    Assumed,             // path cut by an assumption
    Violated,            // path ends in a violation (already recorded)
    Incomplete(String),  // engine cannot continue: whole run is inconclusive
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Merge {
    No,
    Any,    // merge every way back from the call
    Reader, // differences only in the returned value / result slot
    Writer, // differences only in the result slot and in heap contents
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    SymBytes,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    Bcmp,
    Memcmp,
    Strlen,
    Zero,
    AllocLimit,
    Live,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Print,
    PrintHandle,
    ExpectPanic,
    Split,
    Format,
    NoReturn,
    Extern,
    MemcpyC,
}

/// marks (among the goals reached) that the rest of the path is expected to panic
const EXPECT_PANIC: u32 = u32::MAX;

pub struct Exec {
    pub ar: Arena,
    pub so: Solver,
    pub m: &'static Module,
    pub o: Opts,
    hooks: Vec<Hook>,
    vars: Vec<E>,
    pub work: std::collections::VecDeque<State>,
    pub viol: Vec<Violation>,
    viol_keys: HashSet<(String, u32, String)>,
    pub nviol: u64,
    pub asserts: BTreeMap<u32, AssertStat>,
    pub reach: BTreeMap<u32, u64>,
    pub samples: Vec<Sample>,
    pub paths: u64,
    pub cut: u64,
    pub steps: u64,
    pub forks: u64,
    pub maxsteps: u64,
    pub dom_unsat: u64,
    pub dom_sat: u64,
    pub model_hits: u64,
    pub audits: u64,
    pub used: Vec<bool>,
    pub maxalloc: u64,
    pub fork_at: FxMap<(u32, u32), u64>,
    pub incomplete: Option<String>,
    switch_memo: FxMap<(usize, E), Rc<Vec<(E, u32)>>>,
    fmt_model: Option<u32>,
    pub prints: u64,
    merge: Vec<Merge>,
    merge_depth: u32,
    pub q_at: FxMap<(u32, u32), u64>,
    dbg: u32,
    pub merges: u64,
    pub merged_paths: u64,
}

fn tbl_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn tbl_not(b: &Dom) -> Dom {
    [!b[0], !b[1], !b[2], !b[3]]
}
fn tbl_empty(a: &Dom) -> bool {
    a.iter().all(|x| *x == 0)
}
fn tbl_first(a: &Dom) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i as u32 * 64 + a[i].trailing_zeros()) as u8;
        }
    }
    0
}
fn tbl_iter(a: &Dom) -> Vec<u8> {
    (0..256u32).filter(|i| a[*i as usize / 64] >> (i % 64) & 1 == 1).map(|i| i as u8).collect()
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
        _ => false,
    }
}
/// may two versions of an object be joined? `data`: contents may differ
fn obj_join(x: &Obj, y: &Obj, data: bool, words: bool, cap: usize) -> bool {
    if x.size != y.size || x.data.len() != y.data.len() || x.ssize != y.ssize {
        return false;
    }
    let n = x.data.len();
    let byte = |o: &Obj, i: usize| -> (E, u8) {
        let s = o.sym.as_ref().map_or(0, |s| s[i]);
        (s, if s == 0 { o.data[i] } else { 0 })
    };
    let mut i = 0;
    let mut nd = 0;
    while i < n {
        let e = (i + 8).min(n);
        nd += (i..e).filter(|k| byte(x, *k) != byte(y, *k)).count();
        if nd > cap {
            return false;
        }
        if (i..e).any(|k| byte(x, k) != byte(y, k)) {
            if !data {
                return false;
            }
            if words && e - i == 8 {
                // words that look like pointers or niche-encoded tags carry structure
                for o in [x, y] {
                    if (i..e).all(|k| byte(o, k).0 == 0) {
                        let v = u64::from_le_bytes(o.data[i..e].try_into().unwrap());
                        if v >> 36 != 0 {
                            return false;
                        }
                    }
                }
            }
        }
        i = e;
    }
    true
}

enum Loc {
    Stack(usize, u64),
    Heap(usize, u64),
    Glob(usize, u64),
    Bad,
}

impl Exec {
    pub fn new(m: &'static Module, so: Solver, o: Opts) -> Exec {
        let mut hooks = vec![];
        for f in &m.fns {
            let n = f.name.as_str();
            let decl = f.start == usize::MAX;
            let h = match n {
                "__sym_bytes" => Hook::SymBytes,
                "__sym_assume" => Hook::SymAssume,
                "__sym_assert" => Hook::SymAssert,
                "__sym_reach" => Hook::SymReach,
                "__sym_observe" => Hook::SymObserve,
                "__sym_split" => Hook::Split,
                "__sym_alloc_limit" => Hook::AllocLimit,
                "__sym_live" => Hook::Live,
                "__sym_expect_panic" => Hook::ExpectPanic,
                "bcmp" => Hook::Bcmp,
                "memcmp" => Hook::Memcmp,
                "strlen" => Hook::Strlen,
                "malloc" => Hook::Malloc,
                "calloc" => Hook::Calloc,
                "realloc" => Hook::Realloc,
                "posix_memalign" => Hook::PosixMemalign,
                "free" => Hook::Free,
                "memcpy" | "memmove" => Hook::MemcpyC,
                // what thread locals leave behind is dropped after the entry
                "__cxa_thread_atexit_impl" => Hook::Zero,
                _ if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") => Hook::Print,
                _ if decl && (n.contains("3std2io5stdio6stdout") || n.contains("3std2io5stdio6stderr")) => Hook::PrintHandle,
                _ if f.noreturn => Hook::NoReturn,
                _ if n.contains("5alloc3fmt6format12format_inner") && !o.real_format => Hook::Format,
                _ if decl => Hook::Extern,
                _ => Hook::None,
            };
            hooks.push(h);
        }
        let merge = m
            .fns
            .iter()
            .map(|f| {
                let n = f.name.as_str();
                if n.contains("8IterOnes") && n.contains("4next") {
                    Merge::Any
                } else if o.merge_any {
                    Merge::No
                } else if n.contains("10DekuReader") && n.contains("20from_reader_with_ctx") {
                    Merge::Reader
                } else if n.contains("10DekuWriter") && n.contains("9to_writer") {
                    Merge::Writer
                } else {
                    Merge::No
                }
            })
            .collect();
        let fmt_model = m.fnidx.get("__model_format").copied();
        Exec {
            ar: Arena::new(),
            so,
            m,
            o,
            hooks,
            vars: vec![],
            work: Default::default(),
            viol: vec![],
            viol_keys: Default::default(),
            nviol: 0,
            asserts: Default::default(),
            reach: Default::default(),
            samples: vec![],
            paths: 0,
            cut: 0,
            steps: 0,
            forks: 0,
            maxsteps: 0,
            dom_unsat: 0,
            dom_sat: 0,
            model_hits: 0,
            audits: 0,
            used: vec![false; m.fns.len()],
            maxalloc: 0,
            fork_at: Default::default(),
            incomplete: None,
            switch_memo: Default::default(),
            fmt_model,
            prints: 0,
            merge,
            merge_depth: 0,
            q_at: Default::default(),
            dbg: 0,
            merges: 0,
            merged_paths: 0,
        }
    }

    fn body(&mut self, id: u32) -> Option<&'static Func> {
        self.used[id as usize] = true;
        let rc = self.m.body(id)?;
        Some(unsafe { &*Rc::as_ptr(&rc) })
    }

    pub fn start(&mut self, entry: &str) -> bool {
        let id = match self.m.fnidx.get(entry) {
            Some(i) => *i,
            None => return false,
        };
        let f = match self.body(id) {
            Some(f) => f,
            None => return false,
        };
        let cur = Frame { func: f, blk: 0, ip: 0, regs: vec![V::C(0); f.nregs], ret: None, normal: None, mark: 0 };
        self.work.push_back(State {
            cur,
            frames: vec![],
            stack: vec![],
            heap: vec![],
            glob: Default::default(),
            cons: vec![],
            dom: vec![],
            ent: vec![],
            model: vec![],
            stamp: 0,
            fixed: Default::default(),
            observed: vec![],
            nvars: 0,
            steps: 0,
            forks: 0,
            reach: vec![],
            alloc: 0,
            live: 0,
            limit: u64::MAX,
        });
        true
    }

    /// run one state to completion (forked siblings go to the worklist)
    pub fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = loop {
            if let Err(e) = self.step_block(&mut st) {
                break e;
            }
            if st.steps > self.o.max_steps {
                break Stop::Incomplete(format!("path exceeds {} instructions in {}", self.o.max_steps, st.cur.func.name));
            }
        };
        self.steps += st.steps - s0;
        self.maxsteps = self.maxsteps.max(st.steps);
        match r {
            Stop::End => {
                self.paths += 1;
                for r in st.reach.iter().filter(|r| **r != EXPECT_PANIC) {
                    *self.reach.entry(*r).or_default() += 1;
                }
                // the model must satisfy every constraint of the path
                let stamp = self.ar.new_stamp();
                for c in &st.cons {
                    if self.ar.eval(*c, stamp, &st.model) != 1 {
                        self.incomplete = Some("internal: path model does not satisfy its constraints".into());
                    }
                }
                let k = self.paths;
                // reservoir-like deterministic sampling
                if self.samples.len() < self.o.max_samples || (k.wrapping_mul(0x9E3779B97F4A7C15) >> 40) % k < self.o.max_samples as u64 {
                    let mut obs = vec![];
                    for o in &st.observed {
                        let mut b = vec![];
                        for v in o {
                            b.push(match v {
                                V::C(c) => *c as u8,
                                V::S(e) => self.ar.eval(*e, stamp, &st.model) as u8,
                                _ => 0,
                            });
                        }
                        obs.push(b);
                    }
                    let s = Sample { input: st.model.clone(), observed: obs };
                    if self.samples.len() < self.o.max_samples {
                        self.samples.push(s);
                    } else {
                        let i = ((k.wrapping_mul(0xD1B54A32D192ED03) >> 33) % self.o.max_samples as u64) as usize;
                        self.samples[i] = s;
                    }
                }
            }
            Stop::Assumed => self.cut += 1,
            Stop::Violated => {
                self.paths += 1;
            }
            Stop::Incomplete(m) => {
                let s: Vec<String> = self.trace(&st);
                self.incomplete = Some(format!("{} @ {}", m, s.join(" < ")));
            }
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.cur.func.name.clone()];
        for f in st.frames.iter().rev() {
            v.push(f.func.name.clone());
        }
        v
    }

    // ------------------------------------------------------------ constraints
    fn slice(&self, st: &State, extra: E) -> Vec<E> {
        let mut vars: BTreeSet<u32> = self.ar.support(extra).iter().copied().collect();
        let mut out = vec![extra];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.ar.support(*c);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in s {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    fn evalm(&mut self, st: &mut State, e: E) -> u128 {
        if st.stamp == 0 || st.stamp != self.cur_stamp() {
            st.stamp = self.ar.new_stamp();
        }
        self.ar.eval(e, st.stamp, &st.model)
    }
    fn cur_stamp(&self) -> u32 {
        self.ar.cur_stamp()
    }

    /// Is `c` satisfiable together with the path constraints? Some(patch): model changes.
    fn feasible(&mut self, st: &mut State, c: E) -> R<Option<Vec<(u32, u8)>>> {
        if c == Arena::T {
            return Ok(Some(vec![]));
        }
        if c == Arena::F {
            return Ok(None);
        }
        if let Some(v) = st.fixed.get(&c) {
            return Ok(if *v == 1 { Some(vec![]) } else { None });
        }
        if self.evalm(st, c) == 1 {
            self.model_hits += 1;
            return Ok(Some(vec![]));
        }
        let sup = self.ar.support(c);
        if sup.len() == 1 {
            let v = sup[0] as usize;
            let t = self.ar.table(c);
            let d = tbl_and(&st.dom[v], &t);
            if tbl_empty(&d) {
                self.dom_unsat += 1;
                if self.o.audit {
                    self.audits += 1;
                    let sl = self.slice(st, c);
                    match self.so.check(&self.ar, &sl) {
                        Res::Unsat => {}
                        Res::Sat(_) => return Err(Stop::Incomplete("audit: domain says unsat, Z3 says sat".into())),
                        Res::Unknown => return Err(Stop::Incomplete("audit: solver gave up".into())),
                    }
                }
                return Ok(None);
            }
            if !st.ent[v] {
                self.dom_sat += 1;
                return Ok(Some(vec![(v as u32, tbl_first(&d))]));
            }
        }
        let sl = self.slice(st, c);
        let t0 = self.so.stats.time_us;
        let r = self.so.check(&self.ar, &sl);
        if self.o.verbose {
            *self.q_at.entry((st.cur.func.id, st.cur.blk)).or_default() += self.so.stats.time_us - t0;
        }
        match r {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Incomplete("solver gave up on a query".into())),
        }
    }

    fn add(&mut self, st: &mut State, c: E) {
        if c == Arena::T {
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            st.fixed.insert(c, 1);
            return;
        }
        if n.op == Op::Not {
            let m = self.ar.n(n.a);
            if m.op == Op::Or {
                let (x, y) = (self.ar.not(m.a), self.ar.not(m.b));
                self.add(st, x);
                self.add(st, y);
                st.fixed.insert(n.a, 0);
                st.fixed.insert(c, 1);
                return;
            }
            st.fixed.insert(n.a, 0);
        } else {
            let nc = self.ar.not(c);
            st.fixed.insert(nc, 0);
        }
        if n.op == Op::Eq {
            if let Some(k) = self.ar.as_const(n.b) {
                st.fixed.insert(n.a, k);
            } else if let Some(k) = self.ar.as_const(n.a) {
                st.fixed.insert(n.b, k);
            }
        }
        if st.fixed.insert(c, 1) == Some(1) && st.cons.contains(&c) {
            return;
        }
        st.cons.push(c);
        let sup = self.ar.support(c).clone();
        if sup.len() == 1 {
            let t = self.ar.table(c);
            let v = sup[0] as usize;
            st.dom[v] = tbl_and(&st.dom[v], &t);
        } else {
            for v in sup {
                st.ent[v as usize] = true;
            }
        }
    }
    fn patch(&mut self, st: &mut State, p: &[(u32, u8)]) {
        let mut ch = false;
        for (v, x) in p {
            if st.model[*v as usize] != *x {
                st.model[*v as usize] = *x;
                ch = true;
            }
        }
        if ch {
            st.stamp = 0;
        }
    }

    /// Decide a 1-bit value, forking when both outcomes are possible. The fork re-executes
    /// the current instruction, so callers must not have changed the state before.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        if let Some(k) = st.fixed.get(&c) {
            return Ok(*k == 1);
        }
        let nc = self.ar.not(c);
        let cur = self.evalm(st, c) == 1;
        let (take, other) = if cur { (c, nc) } else { (nc, c) };
        if let Some(p) = self.feasible(st, other)? {
            let mut s2 = st.clone();
            self.add(&mut s2, other);
            self.patch(&mut s2, &p);
            self.note_fork(st);
            s2.forks += 1;
            st.forks += 1;
            s2.fixed.insert(c, !cur as u128);
            self.work.push_back(s2);
            self.add(st, take);
            st.fixed.insert(c, cur as u128);
        } else {
            // implied: remember, nothing to add
            st.fixed.insert(take, 1);
            st.fixed.insert(other, 0);
        }
        Ok(cur)
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        if self.o.verbose {
            *self.fork_at.entry((st.cur.func.id, st.cur.blk)).or_default() += 1;
        }
    }

    /// candidate values of e (superset of the feasible ones unless `exact`)
    fn candidates(&mut self, st: &mut State, e: E, cap: usize) -> R<Vec<u128>> {
        let sup = self.ar.support(e).clone();
        let mut out: Vec<u128> = vec![];
        if sup.len() == 1 {
            let v = sup[0] as usize;
            let mut mdl = st.model.clone();
            let mut seen = BTreeSet::new();
            for x in tbl_iter(&st.dom[v].clone()) {
                mdl[v] = x;
                let s = self.ar.new_stamp();
                let k = self.ar.eval(e, s, &mdl);
                seen.insert(k);
            }
            st.stamp = 0;
            out.extend(seen);
        } else {
            // enumerate with the solver
            let w = self.ar.w(e);
            let mut block = Arena::T;
            let first = self.evalm(st, e);
            out.push(first);
            loop {
                let k = self.ar.cst(w, *out.last().unwrap());
                let q = self.ar.eq(e, k);
                let nq = self.ar.not(q);
                block = self.ar.and(block, nq);
                if block == Arena::F {
                    break;
                }
                let sl = self.slice(st, block);
                match self.so.check(&self.ar, &sl) {
                    Res::Unsat => break,
                    Res::Unknown => return Err(Stop::Incomplete("solver gave up enumerating".into())),
                    Res::Sat(p) => {
                        let mut mdl = st.model.clone();
                        for (v, x) in p {
                            mdl[v as usize] = x;
                        }
                        let s = self.ar.new_stamp();
                        let k = self.ar.eval(e, s, &mdl);
                        st.stamp = 0;
                        out.push(k);
                        if out.len() > cap {
                            return Err(Stop::Incomplete(format!("more than {} values for a symbolic address or size", cap)));
                        }
                    }
                }
            }
        }
        if out.len() > cap {
            return Err(Stop::Incomplete(format!("more than {} values for a symbolic address or size", cap)));
        }
        Ok(out)
    }

    /// a single concrete value for e, forking over all the feasible ones
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k);
        }
        if let Some(k) = st.fixed.get(&e) {
            return Ok(*k);
        }
        let w = self.ar.w(e);
        let mine = self.evalm(st, e);
        let vals = self.candidates(st, e, 300)?;
        let mut n = 0;
        for k in vals {
            if k == mine {
                continue;
            }
            let kc = self.ar.cst(w, k);
            let q = self.ar.eq(e, kc);
            if let Some(p) = self.feasible(st, q)? {
                let mut s2 = st.clone();
                self.add(&mut s2, q);
                self.patch(&mut s2, &p);
                s2.fixed.insert(e, k);
                s2.forks += 1;
                self.note_fork(st);
                self.work.push_back(s2);
                n += 1;
            }
        }
        let kc = self.ar.cst(w, mine);
        let q = self.ar.eq(e, kc);
        if n > 0 {
            st.forks += 1;
            self.add(st, q);
        }
        st.fixed.insert(e, mine);
        Ok(mine)
    }
    fn conc_v(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => self.concretize(st, *e),
            V::A(_) => Err(Stop::Incomplete("aggregate as scalar".into())),
        }
    }

    fn violate(&mut self, st: &mut State, kind: &str, id: u32, msg: &str, extra: Option<E>) -> R<()> {
        self.nviol += 1;
        let mut tr = self.trace(st);
        tr.truncate(12);
        let key = (kind.to_string(), id, format!("{}|{}", msg, tr.first().cloned().unwrap_or_default()));
        if self.viol.len() >= self.o.max_viol || (self.viol_keys.contains(&key) && self.viol.iter().filter(|v| v.kind == kind && v.id == id && v.msg == msg).count() >= 3) {
            return Ok(());
        }
        // the solver confirms the complete path condition and provides the counterexample
        let mut cs = st.cons.clone();
        if let Some(e) = extra {
            cs.push(e);
        }
        let mut input = st.model.clone();
        match self.so.check(&self.ar, &cs) {
            Res::Sat(m) => {
                for (v, x) in m {
                    input[v as usize] = x;
                }
            }
            Res::Unsat => return Err(Stop::Incomplete("internal: violation on an infeasible path".into())),
            Res::Unknown => return Err(Stop::Incomplete("solver gave up confirming a violation".into())),
        }
        self.viol_keys.insert(key);
        self.viol.push(Violation { kind: kind.into(), id, msg: msg.into(), input, stack: tr });
        Ok(())
    }
    fn ub<T>(&mut self, st: &mut State, msg: &str) -> R<T> {
        self.violate(st, "ub", 0, msg, None)?;
        Err(Stop::Violated)
    }

    // ------------------------------------------------------------ memory
    fn locate(&self, a: u64) -> Loc {
        match a >> 60 {
            1 => {
                let x = a & !(15 << 60);
                Loc::Stack((x >> 32) as usize, (x & 0xffff_ffff).wrapping_sub(OFF))
            }
            2 => {
                let x = a & !(15 << 60);
                Loc::Heap((x >> 32) as usize, (x & 0xffff_ffff).wrapping_sub(OFF))
            }
            0 => match self.m.find_global(a) {
                Some(g) => Loc::Glob(g, a - self.m.globals[g].addr),
                None => Loc::Bad,
            },
            _ => Loc::Bad,
        }
    }
    fn bounds(&mut self, st: &mut State, size: u64, ssize: Option<E>, off: u64, n: u64) -> R<bool> {
        // Ok(true) if in bounds
        let end = off as u128 + n as u128;
        if end <= size as u128 {
            return Ok(true);
        }
        if let Some(s) = ssize {
            if end < (1 << 40) {
                let k = self.ar.cst(64, end);
                let bad = self.ar.ult(s, k);
                if self.feasible(st, bad)?.is_some() {
                    self.violate(st, "ub", 0, "out-of-bounds access to a heap block of symbolic size", Some(bad))?;
                    return Ok(false);
                }
                let ok = self.ar.not(bad);
                st.fixed.insert(ok, 1);
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn robj<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> R<(Option<Rc<Obj>>, usize, u64)> {
        // returns (object or None for an unmodified global, global index, offset)
        match self.locate(a) {
            Loc::Stack(i, off) => {
                if i >= st.stack.len() {
                    return self.ub(st, "access to a dead stack slot");
                }
                if off.checked_add(n).map_or(true, |e| e > st.stack[i].size) {
                    return self.ub(st, "out-of-bounds stack access");
                }
                Ok((Some(st.stack[i].clone()), 0, off))
            }
            Loc::Heap(i, off) => {
                let (sz, ss) = match st.heap.get(i) {
                    Some(Some(o)) => (o.size, o.ssize),
                    Some(None) => return self.ub(st, "use after free"),
                    None => return self.ub(st, "wild heap access"),
                };
                if off + n > sz {
                    if !self.bounds(st, sz, ss, off, n)? {
                        return self.ub(st, "out-of-bounds heap access");
                    }
                    let o = Rc::make_mut(st.heap[i].as_mut().unwrap());
                    o.size = off + n;
                    o.grow(off + n);
                }
                let rc = st.heap[i].as_mut().unwrap();
                if (rc.data.len() as u64) < off + n {
                    Rc::make_mut(rc).grow(off + n);
                }
                Ok((Some(rc.clone()), 0, off))
            }
            Loc::Glob(g, off) => {
                if off + n > self.m.globals[g].size {
                    return self.ub(st, "out-of-bounds access to a static");
                }
                if let Some(o) = st.glob.get(&g) {
                    return Ok((Some(o.clone()), g, off));
                }
                Ok((None, g, off))
            }
            Loc::Bad => self.ub(st, "access through an invalid pointer"),
        }
    }
    /// byte value as V (C or S of width 8)
    fn rbytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, g, off) = self.robj(st, a, n)?;
        let (off, n) = (off as usize, n as usize);
        Ok(match o {
            None => self.m.globals[g].data[off..off + n].iter().map(|b| V::C(*b as u128)).collect(),
            Some(o) => match &o.sym {
                None => o.data[off..off + n].iter().map(|b| V::C(*b as u128)).collect(),
                Some(s) => (off..off + n).map(|i| if s[i] != 0 { V::S(s[i]) } else { V::C(o.data[i] as u128) }).collect(),
            },
        })
    }
    fn wobj<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        match self.locate(a) {
            Loc::Stack(i, off) => {
                if i >= st.stack.len() {
                    return self.ub(st, "write to a dead stack slot");
                }
                if off.checked_add(n).map_or(true, |e| e > st.stack[i].size) {
                    return self.ub(st, "out-of-bounds stack write");
                }
                Ok((Rc::make_mut(&mut st.stack[i]), off as usize))
            }
            Loc::Heap(i, off) => {
                let (sz, ss) = match st.heap.get(i) {
                    Some(Some(o)) => (o.size, o.ssize),
                    Some(None) => return self.ub(st, "write after free"),
                    None => return self.ub(st, "wild heap write"),
                };
                if off + n > sz && !self.bounds(st, sz, ss, off, n)? {
                    return self.ub(st, "out-of-bounds heap write");
                }
                let o = Rc::make_mut(st.heap[i].as_mut().unwrap());
                o.size = o.size.max(off + n);
                o.grow(off + n);
                Ok((o, off as usize))
            }
            Loc::Glob(g, off) => {
                let gl = &self.m.globals[g];
                if off + n > gl.size {
                    return self.ub(st, "out-of-bounds write to a static");
                }
                if gl.constant {
                    return self.ub(st, "write to a constant");
                }
                let e = st.glob.entry(g).or_insert_with(|| Rc::new(Obj { data: gl.data.clone(), sym: None, size: gl.size, ssize: None }));
                Ok((Rc::make_mut(e), off as usize))
            }
            Loc::Bad => self.ub(st, "write through an invalid pointer"),
        }
    }
    fn wbytes(&mut self, st: &mut State, a: u64, b: &[V]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.wobj(st, a, b.len() as u64)?;
        for (i, v) in b.iter().enumerate() {
            match v {
                V::C(c) => {
                    o.data[off + i] = *c as u8;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = 0;
                    }
                }
                V::S(e) => {
                    if o.sym.is_none() {
                        o.sym = Some(vec![0; o.data.len()]);
                    }
                    o.sym.as_mut().unwrap()[off + i] = *e;
                }
                _ => unreachable!(),
            }
        }
        Ok(())
    }
    fn norm(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ar.cst(w, *c),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate"),
        }
    }
    fn load_conc(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let n = ty.store();
                // fast path
                let (o, g, off) = self.robj(st, a, n)?;
                let (off, nn) = (off as usize, n as usize);
                let (data, sym): (&[u8], Option<&[E]>) = match &o {
                    None => (&self.m.globals[g].data[off..off + nn], None),
                    Some(o) => (&o.data[off..off + nn], o.sym.as_ref().map(|s| &s[off..off + nn])),
                };
                if sym.map_or(true, |s| s.iter().all(|x| *x == 0)) {
                    let mut b = [0u8; 16];
                    b[..nn].copy_from_slice(data);
                    return Ok(V::C(u128::from_le_bytes(b) & mask(w)));
                }
                let s = sym.unwrap();
                let mut es = Vec::with_capacity(nn);
                for i in 0..nn {
                    es.push(if s[i] != 0 { s[i] } else { self.ar.cst(8, data[i] as u128) });
                }
                let e = self.ar.concat_bytes(&es);
                let e = if w < n as u32 * 8 { self.ar.extract(e, 0, w) } else { e };
                Ok(self.norm(e))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_conc(st, a + i * s, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    // packed bits
                    let w = (*n as u32) * t.bits();
                    let x = self.load_conc(st, a, &Ty::Int(w))?;
                    return Ok(self.unflatten(&x, w, ty));
                }
                let s = t.store();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_conc(st, a + i * s, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    v.push(self.load_conc(st, a + o, &t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Incomplete(format!("load of {:?}", ty))),
        }
    }
    /// integer of total width -> vector
    fn unflatten(&mut self, x: &V, w: u32, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let b = t.bits();
                let mut v = vec![];
                for i in 0..*n as u32 {
                    v.push(match x {
                        V::C(c) => V::C((c >> (i * b)) & mask(b)),
                        V::S(_) => {
                            let e = self.ex(x, w);
                            let e = self.ar.extract(e, i * b, b);
                            self.norm(e)
                        }
                        _ => unreachable!(),
                    });
                }
                V::A(Rc::new(v))
            }
            _ => x.clone(),
        }
    }
    fn flatten(&mut self, v: &V, ty: &Ty) -> V {
        match (v, ty) {
            (V::A(x), Ty::Vec(_, t)) => {
                let b = t.bits();
                let mut es = vec![];
                for y in x.iter() {
                    es.push(self.ex(y, b));
                }
                let e = self.ar.concat_bytes(&es);
                self.norm(e)
            }
            _ => v.clone(),
        }
    }
    fn to_bytes(&mut self, ty: &Ty, v: &V, out: &mut Vec<V>) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), V::C(c)) => {
                let n = ty.store();
                for i in 0..n {
                    out.push(V::C((c >> (8 * i)) & 0xff));
                }
            }
            (Ty::Int(_) | Ty::Ptr, V::S(e)) => {
                let n = ty.store() as u32;
                let e = self.ar.zext(*e, n * 8);
                for i in 0..n {
                    let b = self.ar.extract(e, i * 8, 8);
                    out.push(self.norm(b));
                }
            }
            (Ty::Arr(_, t), V::A(x)) => {
                for y in x.iter() {
                    self.to_bytes(t, y, out);
                }
            }
            (Ty::Vec(n, t), V::A(x)) => {
                if t.bits() % 8 != 0 {
                    let w = *n as u32 * t.bits();
                    let f = self.flatten(v, ty);
                    self.to_bytes(&Ty::Int(w), &f, out);
                } else {
                    for y in x.iter() {
                        self.to_bytes(t, y, out);
                    }
                }
            }
            _ => panic!("to_bytes {:?} {:?}", ty, v),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(..), V::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.store(st, a + o, &t, y)?;
                }
                Ok(())
            }
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), V::C(c)) => {
                let n = ty.store() as usize;
                let (o, off) = self.wobj(st, a, n as u64)?;
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
                Ok(())
            }
            _ => {
                let mut b = vec![];
                self.to_bytes(ty, v, &mut b);
                self.wbytes(st, a, &b)
            }
        }
    }
    fn is_valid(&self, st: &State, a: u64, n: u64) -> bool {
        match self.locate(a) {
            Loc::Stack(i, off) => i < st.stack.len() && off.checked_add(n).map_or(false, |e| e <= st.stack[i].size),
            Loc::Heap(i, off) => match st.heap.get(i) {
                Some(Some(o)) => off.checked_add(n).map_or(false, |e| e <= o.size),
                _ => false,
            },
            Loc::Glob(g, off) => off + n <= self.m.globals[g].size,
            Loc::Bad => false,
        }
    }
    fn load(&mut self, st: &mut State, a: &V, ty: &Ty) -> R<V> {
        let e = match a {
            V::C(c) => return self.load_conc(st, *c as u64, ty),
            V::S(e) => *e,
            _ => return Err(Stop::Incomplete("address".into())),
        };
        if let Some(k) = st.fixed.get(&e) {
            let k = *k as u64;
            return self.load_conc(st, k, ty);
        }
        if !matches!(ty, Ty::Int(_)) {
            let k = self.concretize(st, e)? as u64;
            return self.load_conc(st, k, ty);
        }
        let w = ty.bits();
        let cands = self.candidates(st, e, 300)?;
        // group candidate addresses by the loaded value
        let mut groups: Vec<(V, E)> = vec![];
        for k in cands {
            let kc = self.ar.cst(64, k);
            let q = self.ar.eq(e, kc);
            if !self.is_valid(st, k as u64, ty.store()) {
                if let Some(p) = self.feasible(st, q)? {
                    let mut s2 = st.clone();
                    self.add(&mut s2, q);
                    self.patch(&mut s2, &p);
                    match self.load_conc(&mut s2, k as u64, ty) {
                        Err(Stop::Violated) => {}
                        Err(x) => return Err(x),
                        Ok(_) => return Err(Stop::Incomplete("symbolic address into a block of symbolic size".into())),
                    }
                }
                let nq = self.ar.not(q);
                if self.feasible(st, nq)?.is_none() {
                    return Err(Stop::Violated);
                }
                let p = self.feasible(st, nq)?.unwrap();
                self.add(st, nq);
                self.patch(st, &p);
                continue;
            }
            let v = self.load_conc(st, k as u64, ty)?;
            let key = match &v {
                V::C(c) => self.ar.cst(w, *c),
                V::S(e) => *e,
                _ => unreachable!(),
            };
            match groups.iter_mut().find(|g| match &g.0 {
                V::S(x) => *x == key,
                _ => false,
            }) {
                Some(g) => {
                    let o = self.ar.or(g.1, q);
                    g.1 = o;
                }
                None => groups.push((V::S(key), q)),
            }
        }
        let mut acc: Option<E> = None;
        for (v, q) in groups.iter().rev() {
            let x = match v {
                V::S(x) => *x,
                _ => unreachable!(),
            };
            acc = Some(match acc {
                None => x,
                Some(a) => self.ar.ite(*q, x, a),
            });
        }
        Ok(self.norm(acc.unwrap()))
    }

    fn malloc(&mut self, st: &mut State, size: &V) -> R<u64> {
        let id = st.heap.len() as u64;
        let o = match size {
            V::C(c) => {
                let n = *c as u64;
                if st.limit != u64::MAX && st.live.saturating_add(n) > st.limit {
                    self.violate(st, "alloc", 0, "allocation out of proportion", None)?;
                    return Err(Stop::Violated);
                }
                if n > self.o.max_alloc {
                    return Err(Stop::Incomplete(format!("allocation of {} bytes", n)));
                }
                self.maxalloc = self.maxalloc.max(n);
                st.alloc += n;
                st.live += n;
                Obj::new(n)
            }
            V::S(e) if st.limit != u64::MAX && !st.fixed.contains_key(e) => {
                // every size the announced numbers allow
                let room = self.ar.cst(64, st.limit.saturating_sub(st.live) as u128);
                let over = self.ar.ult(room, *e);
                if self.feasible(st, over)?.is_some() {
                    self.violate(st, "alloc", 0, "allocation out of proportion", Some(over))?;
                    return Err(Stop::Violated);
                }
                Obj { data: vec![], sym: None, size: 0, ssize: Some(*e) }
            }
            V::S(e) => match st.fixed.get(e) {
                Some(k) => {
                    let k = *k as u64;
                    st.live += k;
                    Obj::new(k)
                }
                None => Obj { data: vec![], sym: None, size: 0, ssize: Some(*e) },
            },
            _ => unreachable!(),
        };
        st.heap.push(Some(Rc::new(o)));
        Ok(HEAP_BASE | (id << 32) | OFF)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match self.locate(p) {
            Loc::Heap(i, 0) => match st.heap.get(i) {
                Some(Some(o)) => {
                    if o.ssize.is_none() {
                        st.live = st.live.saturating_sub(o.size);
                    }
                    st.heap[i] = None;
                    Ok(())
                }
                _ => self.ub(st, "double free"),
            },
            _ => self.ub(st, "free of an invalid pointer"),
        }
    }

    // ------------------------------------------------------------ instructions
    #[inline]
    fn val(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn fixv(&self, st: &State, o: &Opd) -> V {
        let v = self.val(st, o);
        if let V::S(e) = &v {
            if let Some(k) = st.fixed.get(e) {
                return V::C(*k);
            }
        }
        v
    }
    fn goto(&mut self, st: &mut State, t: u32) {
        let prev = st.cur.blk;
        st.cur.blk = t;
        let insts = &st.cur.func.blocks[t as usize];
        let mut n = 0;
        let mut tmp: Vec<(u32, V)> = vec![];
        for i in insts {
            if let Inst::Phi(d, inc) = i {
                n += 1;
                for (o, b) in inc {
                    if *b == prev {
                        tmp.push((*d, self.val(st, o)));
                        break;
                    }
                }
            } else {
                break;
            }
        }
        for (d, v) in tmp {
            st.cur.regs[d as usize] = v;
        }
        st.cur.ip = n;
    }

    fn binop(&mut self, op: Bin, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let o = match op {
                Bin::Add => return V::C(x.wrapping_add(*y) & mask(w)),
                Bin::Sub => return V::C(x.wrapping_sub(*y) & mask(w)),
                Bin::Mul => Op::Mul,
                Bin::UDiv => Op::UDiv,
                Bin::URem => Op::URem,
                Bin::SDiv => Op::SDiv,
                Bin::SRem => Op::SRem,
                Bin::And => Op::And,
                Bin::Or => Op::Or,
                Bin::Xor => Op::Xor,
                Bin::Shl => Op::Shl,
                Bin::LShr => Op::LShr,
                Bin::AShr => Op::AShr,
            };
            return V::C(conc(o, w, *x, *y, w) & mask(w));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match op {
            Bin::Add => ar.add(x, y),
            Bin::Sub => ar.sub_(x, y),
            Bin::Mul => ar.mul(x, y),
            Bin::UDiv => ar.udivrem(Op::UDiv, x, y),
            Bin::URem => ar.udivrem(Op::URem, x, y),
            Bin::SDiv => ar.sdivrem(Op::SDiv, x, y),
            Bin::SRem => ar.sdivrem(Op::SRem, x, y),
            Bin::And => ar.bitop(Op::And, x, y),
            Bin::Or => ar.bitop(Op::Or, x, y),
            Bin::Xor => ar.bitop(Op::Xor, x, y),
            Bin::Shl => ar.shl(x, y),
            Bin::LShr => ar.lshr(x, y),
            Bin::AShr => ar.ashr(x, y),
        };
        self.norm(e)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.ult(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Ule => {
                let e = ar.ult(y, x);
                ar.not(e)
            }
            Pred::Uge => {
                let e = ar.ult(x, y);
                ar.not(e)
            }
            Pred::Slt => ar.slt(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sle => {
                let e = ar.slt(y, x);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.slt(x, y);
                ar.not(e)
            }
        };
        self.norm(e)
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, v: &V) -> V {
        match v {
            V::C(c) => match k {
                Cast::Zext | Cast::Bit => V::C(*c),
                Cast::Trunc => V::C(c & mask(tw)),
                Cast::Sext => V::C(sext(*c, fw) as u128 & mask(tw)),
            },
            V::S(e) => {
                let e = match k {
                    Cast::Bit => *e,
                    Cast::Zext => self.ar.zext(*e, tw),
                    Cast::Trunc => self.ar.extract(*e, 0, tw),
                    Cast::Sext => self.ar.sext(*e, tw),
                };
                self.norm(e)
            }
            _ => panic!("cast"),
        }
    }
    fn lanes(v: &V) -> Rc<Vec<V>> {
        match v {
            V::A(x) => x.clone(),
            _ => panic!("lanes"),
        }
    }

    /// execute instructions until a control transfer
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let func = st.cur.func;
        let insts = &func.blocks[st.cur.blk as usize];
        loop {
            let i = &insts[st.cur.ip as usize];
            st.steps += 1;
            match i {
                Inst::Bin(op, ty, d, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let r = match ty {
                        Ty::Vec(_, t) => {
                            let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                            let w = t.bits();
                            V::A(Rc::new((0..x.len()).map(|i| self.binop(*op, w, &x[i], &y[i])).collect()))
                        }
                        _ => self.binop(*op, ty.bits(), &x, &y),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::ICmp(p, ty, d, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let r = match ty {
                        Ty::Vec(_, t) => {
                            let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                            let w = t.bits();
                            V::A(Rc::new((0..x.len()).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect()))
                        }
                        _ => self.icmp(*p, ty.bits(), &x, &y),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Cast(k, d, ft, a, tt) => {
                    let x = self.val(st, a);
                    let r = if *k == Cast::Bit && (matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..))) {
                        let w = match ft {
                            Ty::Vec(n, t) => *n as u32 * t.bits(),
                            _ => ft.bits(),
                        };
                        let f = self.flatten(&x, ft);
                        self.unflatten(&f, w, tt)
                    } else if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (ft, tt) {
                        let x = Self::lanes(&x);
                        V::A(Rc::new((0..x.len()).map(|i| self.cast(*k, f.bits(), t.bits(), &x[i])).collect()))
                    } else {
                        self.cast(*k, ft.bits(), tt.bits(), &x)
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Load(d, ty, p) => {
                    let a = self.val(st, p);
                    let v = self.load(st, &a, ty)?;
                    st.cur.regs[*d as usize] = v;
                }
                Inst::Store(ty, v, p) => {
                    let a = self.val(st, p);
                    let v = self.val(st, v);
                    let a = self.conc_v(st, &a)? as u64;
                    self.store(st, a, ty, &v)?;
                }
                Inst::Gep(d, b, off, dy) => {
                    let base = self.val(st, b);
                    if matches!(base, V::A(_)) {
                        return Err(Stop::Incomplete("vector gep".into()));
                    }
                    let mut acc = self.binop(Bin::Add, 64, &base, &V::C(*off as u64 as u128));
                    for (o, sc, w) in dy {
                        let x = self.val(st, o);
                        let x = if *w < 64 {
                            self.cast(Cast::Sext, *w, 64, &x)
                        } else {
                            x
                        };
                        let t = self.binop(Bin::Mul, 64, &x, &V::C(*sc as u64 as u128));
                        acc = self.binop(Bin::Add, 64, &acc, &t);
                    }
                    st.cur.regs[*d as usize] = acc;
                }
                Inst::Alloca(d, n, _) => {
                    let id = st.stack.len() as u64;
                    st.stack.push(Rc::new(Obj::new(*n)));
                    st.cur.regs[*d as usize] = V::C((STACK_BASE | (id << 32) | OFF) as u128);
                }
                Inst::Select(d, ty, c, a, b, vecc) => {
                    let c = self.val(st, c);
                    let r = if *vecc {
                        let (c, x, y) = (Self::lanes(&c), Self::lanes(&self.val(st, a)), Self::lanes(&self.val(st, b)));
                        let w = match ty {
                            Ty::Vec(_, t) => t.bits(),
                            _ => 0,
                        };
                        let mut v = vec![];
                        for i in 0..c.len() {
                            v.push(self.sel(&c[i], w, &x[i], &y[i]));
                        }
                        V::A(Rc::new(v))
                    } else {
                        match &c {
                            V::C(k) => self.val(st, if *k == 1 { a } else { b }),
                            V::S(e) => {
                                let (x, y) = (self.val(st, a), self.val(st, b));
                                if *ty == Ty::Ptr || matches!(ty, Ty::Struct(..) | Ty::Vec(..) | Ty::Arr(..)) {
                                    let same = matches!((&x, &y), (V::C(p), V::C(q)) if p == q);
                                    if same || self.decide(st, *e)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else if let Some(k) = st.fixed.get(e) {
                                    if *k == 1 {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    self.sel(&c, ty.bits(), &x, &y)
                                }
                            }
                            _ => unreachable!(),
                        }
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Br(t) => {
                    self.goto(st, *t);
                    return Ok(());
                }
                Inst::CondBr(c, a, b) => {
                    let t = match self.val(st, c) {
                        V::C(k) => k == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => unreachable!(),
                    };
                    self.goto(st, if t { *a } else { *b });
                    return Ok(());
                }
                Inst::Switch(w, v, df, cs) => {
                    let t = match self.val(st, v) {
                        V::C(k) => cs.iter().find(|c| c.0 == k).map_or(*df, |c| c.1),
                        V::S(e) => {
                            if let Some(k) = st.fixed.get(&e) {
                                cs.iter().find(|c| c.0 == *k).map_or(*df, |c| c.1)
                            } else {
                                self.switch(st, i as *const Inst as usize, e, *w, *df, cs)?
                            }
                        }
                        _ => unreachable!(),
                    };
                    self.goto(st, t);
                    return Ok(());
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| self.val(st, o));
                    st.stack.truncate(st.cur.mark);
                    match st.frames.pop() {
                        None => return Err(Stop::End),
                        Some(f) => {
                            let (ret, normal) = (st.cur.ret, st.cur.normal);
                            st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            if let (Some(d), Some(v)) = (ret, v) {
                                st.cur.regs[d as usize] = v;
                            }
                            match normal {
                                Some(b) => self.goto(st, b),
                                None => st.cur.ip += 1,
                            }
                            return Ok(());
                        }
                    }
                }
                Inst::Unreachable => {
                    return self.ub(st, "unreachable code reached");
                }
                Inst::ExtractValue(d, a, ix) => {
                    let mut v = self.val(st, a);
                    for i in ix {
                        v = match v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    st.cur.regs[*d as usize] = v;
                }
                Inst::InsertValue(d, a, b, ix) => {
                    let v = self.val(st, a);
                    let x = self.val(st, b);
                    fn ins(v: &V, x: V, ix: &[u32]) -> V {
                        match v {
                            V::A(r) => {
                                let mut r = (**r).clone();
                                r[ix[0] as usize] = if ix.len() == 1 { x } else { ins(&r[ix[0] as usize], x, &ix[1..]) };
                                V::A(Rc::new(r))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    st.cur.regs[*d as usize] = ins(&v, x, ix);
                }
                Inst::Freeze(d, a) => {
                    let v = self.val(st, a);
                    st.cur.regs[*d as usize] = v;
                }
                Inst::Rmw(d, op, ty, p, v) => {
                    let a = self.val(st, p);
                    let a = self.conc_v(st, &a)? as u64;
                    let x = self.val(st, v);
                    let old = self.load_conc(st, a, ty)?;
                    let w = ty.bits();
                    let nv = match op.as_str() {
                        "add" => self.binop(Bin::Add, w, &old, &x),
                        "sub" => self.binop(Bin::Sub, w, &old, &x),
                        "and" => self.binop(Bin::And, w, &old, &x),
                        "or" => self.binop(Bin::Or, w, &old, &x),
                        "xor" => self.binop(Bin::Xor, w, &old, &x),
                        "xchg" => x,
                        _ => return Err(Stop::Incomplete(format!("atomicrmw {}", op))),
                    };
                    self.store(st, a, ty, &nv)?;
                    st.cur.regs[*d as usize] = old;
                }
                Inst::CmpXchg(d, ty, p, a, b) => {
                    let ad = self.val(st, p);
                    let ad = self.conc_v(st, &ad)? as u64;
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let old = self.load_conc(st, ad, ty)?;
                    let eq = match self.icmp(Pred::Eq, ty.bits(), &old, &x) {
                        V::C(k) => k == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => unreachable!(),
                    };
                    if eq {
                        self.store(st, ad, ty, &y)?;
                    }
                    st.cur.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(eq as u128)]));
                }
                Inst::ExtractElement(d, a, i) => {
                    let v = Self::lanes(&self.val(st, a));
                    let i = self.val(st, i);
                    let k = self.conc_v(st, &i)? as usize;
                    st.cur.regs[*d as usize] = v[k].clone();
                }
                Inst::InsertElement(d, a, x, i) => {
                    let v = Self::lanes(&self.val(st, a));
                    let i = self.val(st, i);
                    let k = self.conc_v(st, &i)? as usize;
                    let mut v = (*v).clone();
                    v[k] = self.val(st, x);
                    st.cur.regs[*d as usize] = V::A(Rc::new(v));
                }
                Inst::Shuffle(d, a, b, ix) => {
                    let (x, y) = (Self::lanes(&self.val(st, a)), Self::lanes(&self.val(st, b)));
                    let n = x.len();
                    let v = ix.iter().map(|i| if (*i as usize) < n { x[*i as usize].clone() } else { y.get(*i as usize - n).cloned().unwrap_or(V::C(0)) }).collect();
                    st.cur.regs[*d as usize] = V::A(Rc::new(v));
                }
                Inst::Nop => {}
                Inst::Phi(..) => return Err(Stop::Incomplete("phi".into())),
                Inst::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported instruction: {}", s))),
                Inst::Call(dst, callee, args, rt, normal) => {
                    let entered = self.call(st, *dst, callee, args, rt, *normal)?;
                    if entered {
                        return Ok(());
                    }
                    if let Some(b) = normal {
                        self.goto(st, *b);
                        return Ok(());
                    }
                }
            }
            st.cur.ip += 1;
        }
    }
    fn sel(&mut self, c: &V, w: u32, x: &V, y: &V) -> V {
        match c {
            V::C(1) => x.clone(),
            V::C(_) => y.clone(),
            V::S(e) => {
                let (a, b) = (self.ex(x, w), self.ex(y, w));
                let r = self.ar.ite(*e, a, b);
                self.norm(r)
            }
            _ => unreachable!(),
        }
    }

    fn switch(&mut self, st: &mut State, key: usize, e: E, w: u32, df: u32, cs: &[(u128, u32)]) -> R<u32> {
        let conds = match self.switch_memo.get(&(key, e)) {
            Some(c) => c.clone(),
            None => {
                let mut g: Vec<(E, u32)> = vec![];
                let mut any = Arena::F;
                for (k, t) in cs {
                    let kc = self.ar.cst(w, *k);
                    let q = self.ar.eq(e, kc);
                    any = self.ar.or(any, q);
                    if *t == df {
                        continue;
                    }
                    match g.iter_mut().find(|x| x.1 == *t) {
                        Some(x) => {
                            let o = self.ar.or(x.0, q);
                            x.0 = o;
                        }
                        None => g.push((q, *t)),
                    }
                }
                let mut all = Arena::F;
                for (q, _) in &g {
                    all = self.ar.or(all, *q);
                }
                let nd = self.ar.not(all);
                g.push((nd, df));
                let r = Rc::new(g);
                self.switch_memo.insert((key, e), r.clone());
                r
            }
        };
        let mut mine = None;
        let mut n = 0;
        for (q, t) in conds.iter() {
            if self.evalm(st, *q) == 1 {
                mine = Some((*q, *t));
            } else if let Some(p) = self.feasible(st, *q)? {
                let mut s2 = st.clone();
                self.add(&mut s2, *q);
                self.patch(&mut s2, &p);
                s2.forks += 1;
                self.note_fork(st);
                n += 1;
                // siblings re-execute the switch: make its outcome known
                self.goto(&mut s2, *t);
                self.work.push_back(s2);
            }
        }
        let (q, t) = mine.unwrap();
        if n > 0 {
            st.forks += 1;
            self.add(st, q);
        }
        Ok(t)
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[(Ty, Opd)], rt: &Ty, normal: Option<u32>) -> R<bool> {
        let id = match callee {
            Callee::Intrinsic(k) => {
                let v = self.intrinsic(st, k, args, rt)?;
                if let (Some(d), Some(v)) = (dst, v) {
                    st.cur.regs[d as usize] = v;
                }
                return Ok(false);
            }
            Callee::Fn(id) => *id,
            Callee::Ind(o) => {
                let p = self.val(st, o);
                let a = self.conc_v(st, &p)? as u64;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || ((a - FUNC_BASE) / 16) as usize >= self.m.fns.len() {
                    return self.ub(st, "call through an invalid function pointer");
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let h = self.hooks[id as usize];
        let mut target = id;
        let mut nargs = args.len();
        match h {
            Hook::None => {}
            Hook::Format => match self.fmt_model {
                Some(m) => {
                    target = m;
                    nargs = 1;
                }
                None => {}
            },
            Hook::NoReturn => {
                if st.reach.contains(&EXPECT_PANIC) {
                    return Err(Stop::End);
                }
                let n = self.m.fns[id as usize].name.clone();
                self.violate(st, "panic", 0, &n, None)?;
                return Err(Stop::Violated);
            }
            _ => {
                let a: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
                let v = self.hook(st, h, id, &a)?;
                if let (Some(d), Some(v)) = (dst, v) {
                    st.cur.regs[d as usize] = v;
                }
                return Ok(false);
            }
        }
        let f = match self.body(target) {
            Some(f) => f,
            None => return Err(Stop::Incomplete(format!("call to undefined {}", self.m.fns[target as usize].name))),
        };
        if self.o.merge && self.o.split {
            // a size or index that became a choice between a few constants through
            // joining is cheaper followed case by case
            for (t, o) in args.iter().take(nargs) {
                if let V::S(e) = self.val(st, o) {
                    if t.bits() == 64 && self.ar.small(e).is_some_and(|s| s.len() <= 8 && *s.last().unwrap() > 1) {
                        self.concretize(st, e)?;
                    }
                }
            }
        }
        let mut regs = vec![V::C(0); f.nregs];
        for (p, (_, o)) in f.params.iter().zip(args.iter().take(nargs)) {
            regs[*p as usize] = self.fixv(st, o);
        }
        let nf = Frame { func: f, blk: 0, ip: 0, regs, ret: dst, normal, mark: st.stack.len() };
        let old = std::mem::replace(&mut st.cur, nf);
        st.frames.push(Rc::new(old));
        if st.frames.len() > 2000 {
            let n = f.name.clone();
            self.violate(st, "panic", 0, &format!("unbounded recursion in {}", n), None)?;
            return Err(Stop::Violated);
        }
        let mode = self.merge[target as usize];
        if mode != Merge::No && self.o.merge {
            return self.merge_call(st, mode, rt);
        }
        Ok(true)
    }

    /// Explore the call just entered to its returns, then join the resulting states where
    /// they differ only in data. Joining is exact: every differing value becomes an
    /// if-then-else over the path conditions; states that differ in structure stay apart.
    fn merge_call(&mut self, st: &mut State, mode: Merge, rt: &Ty) -> R<bool> {
        let depth = st.frames.len();
        let ncons = st.cons.len();
        let base = st.clone();
        let a0 = match base.cur.func.params.first() {
            Some(p) => match &base.cur.regs[*p as usize] {
                V::C(c) => *c as u64,
                _ => 0,
            },
            None => 0,
        };
        let saved = std::mem::take(&mut self.work);
        self.work.push_back(base.clone());
        self.merge_depth += 1;
        let mut done: Vec<State> = vec![];
        let mut lost = false;
        let mut fail: Option<Stop> = None;
        'all: while let Some(mut s) = self.work.pop_back() {
            let s0 = s.steps;
            loop {
                match self.step_block(&mut s) {
                    Ok(()) => {}
                    Err(Stop::Incomplete(m)) => {
                        let t = self.trace(&s);
                        fail = Some(Stop::Incomplete(format!("{} @ {}", m, t.join(" < "))));
                        break 'all;
                    }
                    Err(Stop::Violated) => {
                        lost = true;
                        self.paths += 1;
                        self.steps += s.steps - s0;
                        break;
                    }
                    Err(Stop::Assumed) => {
                        lost = true;
                        self.cut += 1;
                        self.steps += s.steps - s0;
                        break;
                    }
                    Err(Stop::End) => unreachable!(),
                }
                if s.frames.len() < depth {
                    self.steps += s.steps - s0;
                    s.steps = s0;
                    done.push(s);
                    break;
                }
                if s.steps > self.o.max_steps {
                    fail = Some(Stop::Incomplete("path too long".into()));
                    break 'all;
                }
            }
            if self.forks > self.o.max_forks {
                fail = Some(Stop::Incomplete("exploration budget exceeded".into()));
                break;
            }
        }
        self.merge_depth -= 1;
        self.work = saved;
        if let Some(f) = fail {
            return Err(f);
        }
        if done.is_empty() {
            return Err(Stop::Violated);
        }
        let _ = lost;
        // group and join
        let mut groups: Vec<(State, E, usize)> = vec![]; // representative, condition, members
        let d = {
            // register receiving the result
            base.cur.ret
        };
        for s in done {
            let mut c = Arena::T;
            for k in &s.cons[ncons..] {
                c = self.ar.and(c, *k);
            }
            let mut placed = false;
            let mut s = Some(s);
            for g in groups.iter_mut() {
                if self.can_join(&g.0, s.as_ref().unwrap(), mode, a0, d) {
                    let t = s.take().unwrap();
                    self.join(&mut g.0, &t, c, rt);
                    g.1 = self.ar.or(g.1, c);
                    g.2 += 1;
                    placed = true;
                    break;
                }
            }
            if !placed {
                groups.push((s.unwrap(), c, 1));
            }
        }
        let single = groups.len() == 1 && !lost;
        let mut out = vec![];
        for (mut g, c, n) in groups {
            if n > 1 || single {
                self.merges += 1;
                self.merged_paths += n as u64 - 1;
                if n > 1 {
                    g.cons.truncate(ncons);
                    g.dom = base.dom.clone();
                    g.ent = base.ent.clone();
                    g.fixed = base.fixed.clone();
                    // variables created inside the call keep their full domain
                    while g.dom.len() < g.model.len() {
                        g.dom.push([!0; 4]);
                        g.ent.push(false);
                    }
                    if !single {
                        self.add(&mut g, c);
                    }
                }
            }
            out.push(g);
        }
        let first = out.swap_remove(0);
        for o in out {
            self.work.push_back(o);
        }
        *st = first;
        Ok(true)
    }

    fn can_join(&self, a: &State, b: &State, mode: Merge, a0: u64, ret: Option<u32>) -> bool {
        if a.stack.len() != b.stack.len() || a.heap.len() != b.heap.len() || a.nvars != b.nvars || a.observed.len() != b.observed.len() || a.reach != b.reach || a.alloc != b.alloc || a.live != b.live || a.limit != b.limit {
            return false;
        }
        if a.cur.blk != b.cur.blk || a.cur.ip != b.cur.ip {
            return false;
        }
        // registers: only the result may differ (phi copies after an invoke are compared too)
        for (i, (x, y)) in a.cur.regs.iter().zip(&b.cur.regs).enumerate() {
            if !same(x, y) {
                if Some(i as u32) != ret || !self.joinable(x, y, mode) {
                    return false;
                }
            }
        }
        if a.observed.iter().zip(&b.observed).any(|(x, y)| x.len() != y.len() || x.iter().zip(y).any(|(p, q)| !same(p, q))) {
            return false;
        }
        let slot = match self.locate(a0) {
            Loc::Stack(i, _) => (1, i),
            Loc::Heap(i, _) => (2, i),
            _ => (0, 0),
        };
        for (i, (x, y)) in a.stack.iter().zip(&b.stack).enumerate() {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            let ok = slot == (1, i);
            if !obj_join(x, y, ok, mode != Merge::Any, if mode == Merge::Reader { self.o.join_cap } else { 999 }) {
                return false;
            }
        }
        for (i, (x, y)) in a.heap.iter().zip(&b.heap).enumerate() {
            match (x, y) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        continue;
                    }
                    let ok = slot == (2, i) || mode == Merge::Writer;
                    if !obj_join(x, y, ok, true, if mode == Merge::Reader { self.o.join_cap } else { 999 }) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        if a.glob.len() != b.glob.len() {
            return false;
        }
        for (k, x) in &a.glob {
            match b.glob.get(k) {
                Some(y) if Rc::ptr_eq(x, y) || obj_join(x, y, false, true, 0) => {}
                _ => return false,
            }
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if !Rc::ptr_eq(x, y) {
                return false;
            }
        }
        true
    }
    fn joinable(&self, x: &V, y: &V, mode: Merge) -> bool {
        match (x, y) {
            (V::A(p), V::A(q)) => p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| same(x, y) || self.joinable(x, y, mode)),
            (V::C(p), V::C(q)) => *p < (1 << 36) && *q < (1 << 36),
            (V::A(_), _) | (_, V::A(_)) => false,
            (V::C(p), _) | (_, V::C(p)) => *p < (1 << 36),
            _ => true,
        }
    }
    /// g := ite(c, s, g)
    fn join(&mut self, g: &mut State, s: &State, c: E, rt: &Ty) {
        let n = g.cur.regs.len();
        for i in 0..n {
            if !same(&g.cur.regs[i], &s.cur.regs[i]) {
                let v = self.join_v(&g.cur.regs[i].clone(), &s.cur.regs[i], c, rt);
                g.cur.regs[i] = v;
            }
        }
        for (x, y) in g.stack.iter_mut().zip(&s.stack) {
            if !Rc::ptr_eq(x, y) {
                self.join_obj(x, y, c);
            }
        }
        for (x, y) in g.heap.iter_mut().zip(&s.heap) {
            if let (Some(x), Some(y)) = (x, y) {
                if !Rc::ptr_eq(x, y) {
                    self.join_obj(x, y, c);
                }
            }
        }
    }
    fn join_v(&mut self, x: &V, y: &V, c: E, ty: &Ty) -> V {
        match (x, y) {
            (V::A(p), V::A(q)) => {
                let mut v = vec![];
                for (i, (x, y)) in p.iter().zip(q.iter()).enumerate() {
                    let t = ty.field(i).1;
                    v.push(if same(x, y) { x.clone() } else { self.join_v(x, y, c, &t) });
                }
                V::A(Rc::new(v))
            }
            _ => {
                let w = match (x, y) {
                    (V::S(e), _) | (_, V::S(e)) => self.ar.w(*e),
                    _ => ty.bits(),
                };
                let (a, b) = (self.ex(y, w), self.ex(x, w));
                let r = self.ar.ite(c, a, b);
                self.norm(r)
            }
        }
    }
    fn join_obj(&mut self, x: &mut Rc<Obj>, y: &Rc<Obj>, c: E) {
        let n = x.data.len();
        let mut diff = vec![];
        for i in 0..n {
            let p = x.sym.as_ref().map_or(0, |s| s[i]);
            let q = y.sym.as_ref().map_or(0, |s| s[i]);
            if p != q || (p == 0 && x.data[i] != y.data[i]) {
                diff.push((i, p, q));
            }
        }
        if diff.is_empty() {
            return;
        }
        let o = Rc::make_mut(x);
        if o.sym.is_none() {
            o.sym = Some(vec![0; n]);
        }
        for (i, p, q) in diff {
            let a = if q != 0 { q } else { self.ar.cst(8, y.data[i] as u128) };
            let b = if p != 0 { p } else { self.ar.cst(8, o.data[i] as u128) };
            let e = self.ar.ite(c, a, b);
            match self.ar.as_const(e) {
                Some(k) => {
                    o.sym.as_mut().unwrap()[i] = 0;
                    o.data[i] = k as u8;
                }
                None => o.sym.as_mut().unwrap()[i] = e,
            }
        }
    }

    fn hook(&mut self, st: &mut State, h: Hook, id: u32, a: &[V]) -> R<Option<V>> {
        match h {
            Hook::SymBytes => {
                let p = self.conc_v(st, &a[0])? as u64;
                let n = self.conc_v(st, &a[1])? as usize;
                let mut b = vec![];
                for _ in 0..n {
                    let k = st.nvars as usize;
                    st.nvars += 1;
                    while self.vars.len() <= k {
                        let v = self.ar.var();
                        self.vars.push(v);
                    }
                    st.dom.push([!0; 4]);
                    st.ent.push(false);
                    st.model.push(0);
                    b.push(V::S(self.vars[k]));
                }
                st.stamp = 0;
                self.wbytes(st, p, &b)?;
                Ok(None)
            }
            Hook::SymAssume => {
                let c = match &a[0] {
                    V::C(1) => return Ok(None),
                    V::C(_) => return Err(Stop::Assumed),
                    V::S(e) => *e,
                    _ => unreachable!(),
                };
                match self.feasible(st, c)? {
                    None => Err(Stop::Assumed),
                    Some(p) => {
                        self.add(st, c);
                        self.patch(st, &p);
                        Ok(None)
                    }
                }
            }
            Hook::SymAssert => {
                let id = self.conc_v(st, &a[1])? as u32;
                self.asserts.entry(id).or_default().seen += 1;
                let c = match &a[0] {
                    V::C(1) => {
                        self.asserts.get_mut(&id).unwrap().rewritten += 1;
                        return Ok(None);
                    }
                    V::C(_) => {
                        self.asserts.get_mut(&id).unwrap().violated += 1;
                        self.violate(st, "assert", id, "", None)?;
                        return Err(Stop::Violated);
                    }
                    V::S(e) => *e,
                    _ => unreachable!(),
                };
                let nc = self.ar.not(c);
                let sl = self.slice(st, nc);
                match self.so.check(&self.ar, &sl) {
                    Res::Unsat => {
                        self.asserts.get_mut(&id).unwrap().z3_unsat += 1;
                        st.fixed.insert(c, 1);
                        st.fixed.insert(nc, 0);
                        Ok(None)
                    }
                    Res::Unknown => Err(Stop::Incomplete(format!("solver gave up on assertion {}", id))),
                    Res::Sat(_) => {
                        self.asserts.get_mut(&id).unwrap().violated += 1;
                        self.violate(st, "assert", id, "", Some(nc))?;
                        match self.feasible(st, c)? {
                            None => Err(Stop::Violated),
                            Some(p) => {
                                self.add(st, c);
                                self.patch(st, &p);
                                Ok(None)
                            }
                        }
                    }
                }
            }
            Hook::SymReach => {
                let k = self.conc_v(st, &a[0])? as u32;
                if !st.reach.contains(&k) {
                    st.reach.push(k);
                }
                Ok(None)
            }
            Hook::Split => {
                let v = self.conc_v(st, &a[0])?;
                Ok(Some(V::C(v as u128)))
            }
            Hook::AllocLimit => {
                let n = self.conc_v(st, &a[0])? as u64;
                st.limit = if n == u64::MAX { n } else { st.live + n };
                Ok(None)
            }
            // objects and bytes (those of a symbolic number of bytes count as objects only)
            Hook::Live => Ok(Some(V::C((((st.heap.iter().flatten().count() as u64) << 40) + st.live) as u128))),
            Hook::ExpectPanic => {
                if !st.reach.contains(&EXPECT_PANIC) {
                    st.reach.push(EXPECT_PANIC);
                }
                Ok(None)
            }
            Hook::PrintHandle => {
                self.prints += 1;
                if self.o.no_print {
                    let n = self.m.fns[id as usize].name.clone();
                    self.violate(st, "print", 0, &n, None)?;
                    return Err(Stop::Violated);
                }
                Err(Stop::Incomplete("use of a standard stream".into()))
            }
            Hook::SymObserve => {
                let n = self.conc_v(st, &a[1])? as u64;
                let p = self.conc_v(st, &a[0])? as u64;
                let b = self.rbytes(st, p, n)?;
                st.observed.push(b);
                Ok(None)
            }
            Hook::Bcmp | Hook::Memcmp => {
                let n = self.conc_v(st, &a[2])? as u64;
                let (p, q) = (self.conc_v(st, &a[0])? as u64, self.conc_v(st, &a[1])? as u64);
                let (x, y) = (self.rbytes(st, p, n)?, self.rbytes(st, q, n)?);
                let mut acc = self.ar.cst(32, 0);
                if h == Hook::Bcmp {
                    let mut c = Arena::T;
                    for i in 0..n as usize {
                        let (u, v) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
                        let e = self.ar.eq(u, v);
                        c = self.ar.and(c, e);
                    }
                    let one = self.ar.cst(32, 1);
                    let r = self.ar.ite(c, acc, one);
                    return Ok(Some(self.norm(r)));
                }
                let (lt, gt) = (self.ar.cst(32, mask(32)), self.ar.cst(32, 1));
                for i in (0..n as usize).rev() {
                    let (u, v) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
                    let e = self.ar.eq(u, v);
                    let l = self.ar.ult(u, v);
                    let d = self.ar.ite(l, lt, gt);
                    acc = self.ar.ite(e, acc, d);
                }
                Ok(Some(self.norm(acc)))
            }
            Hook::Zero => Ok(Some(V::C(0))),
            Hook::Strlen => {
                let mut p = self.conc_v(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    match &self.rbytes(st, p, 1)?[0] {
                        V::C(0) => break,
                        V::C(_) => {}
                        _ => return Err(Stop::Incomplete("strlen of symbolic data".into())),
                    }
                    p += 1;
                    n += 1;
                }
                Ok(Some(V::C(n)))
            }
            Hook::MemcpyC => {
                let n = self.conc_v(st, &a[2])? as u64;
                let (p, q) = (self.conc_v(st, &a[0])? as u64, self.conc_v(st, &a[1])? as u64);
                let b = self.rbytes(st, q, n)?;
                self.wbytes(st, p, &b)?;
                Ok(Some(a[0].clone()))
            }
            Hook::Malloc => Ok(Some(V::C(self.malloc(st, &a[0])? as u128))),
            Hook::Calloc => {
                let n = self.binop(Bin::Mul, 64, &a[0], &a[1]);
                Ok(Some(V::C(self.malloc(st, &n)? as u128)))
            }
            Hook::PosixMemalign => {
                let p = self.conc_v(st, &a[0])? as u64;
                let r = self.malloc(st, &a[2])?;
                self.store(st, p, &Ty::Ptr, &V::C(r as u128))?;
                Ok(Some(V::C(0)))
            }
            Hook::Realloc => {
                let p = self.conc_v(st, &a[0])? as u64;
                let n = self.conc_v(st, &a[1])? as u64;
                let q = self.malloc(st, &V::C(n as u128))?;
                if p != 0 {
                    let old = match self.locate(p) {
                        Loc::Heap(i, 0) => match st.heap.get(i) {
                            Some(Some(o)) => o.clone(),
                            _ => return self.ub(st, "realloc of freed memory"),
                        },
                        _ => return self.ub(st, "realloc of an invalid pointer"),
                    };
                    if let Some(Some(o)) = st.heap.last_mut() {
                        let o = Rc::make_mut(o);
                        let k = (old.data.len() as u64).min(n) as usize;
                        o.data[..k].copy_from_slice(&old.data[..k]);
                        if let Some(s) = &old.sym {
                            let mut t = vec![0; n as usize];
                            t[..k].copy_from_slice(&s[..k]);
                            o.sym = Some(t);
                        }
                    }
                    self.free(st, p)?;
                }
                Ok(Some(V::C(q as u128)))
            }
            Hook::Free => {
                let p = self.conc_v(st, &a[0])? as u64;
                self.free(st, p)?;
                Ok(None)
            }
            Hook::Print => {
                self.prints += 1;
                if self.o.no_print {
                    let n = self.m.fns[id as usize].name.clone();
                    self.violate(st, "print", 0, &n, None)?;
                }
                Ok(None)
            }
            _ => Err(Stop::Incomplete(format!("external function {}", self.m.fns[id as usize].name))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: &Intr, args: &[(Ty, Opd)], rt: &Ty) -> R<Option<V>> {
        let a: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        match k {
            Intr::Nop => return Ok(None),
            Intr::Assume => {
                match &a[0] {
                    V::C(1) => {}
                    V::C(_) => return self.ub(st, "compiler assumption violated"),
                    V::S(e) => {
                        let n = self.ar.not(*e);
                        if self.feasible(st, n)?.is_some() {
                            self.violate(st, "ub", 0, "compiler assumption violated", Some(n))?;
                            match self.feasible(st, *e)? {
                                None => return Err(Stop::Violated),
                                Some(p) => {
                                    self.add(st, *e);
                                    self.patch(st, &p);
                                }
                            }
                        } else {
                            st.fixed.insert(*e, 1);
                        }
                    }
                    _ => {}
                }
                return Ok(None);
            }
            Intr::MemCpy => {
                let n = self.conc_v(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(None);
                }
                let (p, q) = (self.conc_v(st, &a[0])? as u64, self.conc_v(st, &a[1])? as u64);
                let (o, g, off) = self.robj(st, q, n)?;
                let off = off as usize;
                let nn = n as usize;
                let m = self.m;
                let (d, doff) = self.wobj(st, p, n)?;
                match o {
                    None => {
                        d.data[doff..doff + nn].copy_from_slice(&m.globals[g].data[off..off + nn]);
                        if let Some(s) = &mut d.sym {
                            s[doff..doff + nn].fill(0);
                        }
                    }
                    Some(o) => {
                        d.data[doff..doff + nn].copy_from_slice(&o.data[off..off + nn]);
                        match &o.sym {
                            None => {
                                if let Some(s) = &mut d.sym {
                                    s[doff..doff + nn].fill(0);
                                }
                            }
                            Some(s) => {
                                if d.sym.is_none() {
                                    d.sym = Some(vec![0; d.data.len()]);
                                }
                                d.sym.as_mut().unwrap()[doff..doff + nn].copy_from_slice(&s[off..off + nn]);
                            }
                        }
                    }
                }
                return Ok(None);
            }
            Intr::MemSet => {
                let n = self.conc_v(st, &a[2])? as u64;
                let p = self.conc_v(st, &a[0])? as u64;
                let b = vec![a[1].clone(); n as usize];
                self.wbytes(st, p, &b)?;
                return Ok(None);
            }
            Intr::LoadRelative => {
                let b = self.conc_v(st, &a[0])? as u64;
                let o = self.val(st, &args[1].1);
                let ow = args[1].0.bits();
                let o = if ow < 64 { self.cast(Cast::Sext, ow, 64, &o) } else { o };
                let ad = self.binop(Bin::Add, 64, &V::C(b as u128), &o);
                let ad = self.conc_v(st, &ad)? as u64;
                let v = self.load_conc(st, ad, &Ty::Int(32))?;
                let v = self.cast(Cast::Sext, 32, 64, &v);
                return Ok(Some(self.binop(Bin::Add, 64, &V::C(b as u128), &v)));
            }
            Intr::Trap => {
                if st.reach.contains(&EXPECT_PANIC) {
                    return Err(Stop::End);
                }
                self.violate(st, "panic", 0, "llvm.trap", None)?;
                return Err(Stop::Violated);
            }
            Intr::Expect | Intr::ThreadLocal => return Ok(Some(a[0].clone())),
            Intr::IsConstant => return Ok(Some(V::C(0))),
            Intr::Other(n) => return Err(Stop::Incomplete(format!("intrinsic {}", n))),
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let l = Self::lanes(&a[0]);
                let op = match k {
                    Intr::VecReduceOr => Bin::Or,
                    Intr::VecReduceAnd => Bin::And,
                    _ => Bin::Add,
                };
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = self.binop(op, rt.bits(), &acc, x);
                }
                return Ok(Some(acc));
            }
            _ => {}
        }
        // arithmetic, possibly on vectors
        if let Ty::Vec(n, t) = rt {
            let mut out = vec![];
            for i in 0..*n as usize {
                let la: Vec<V> = a
                    .iter()
                    .map(|v| match v {
                        V::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.arith(k, &la, t.bits(), t.bits()));
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = args[0].0.bits();
        let rw = match rt {
            Ty::Struct(..) => w,
            _ => rt.bits(),
        };
        Ok(Some(self.arith(k, &a, w, rw)))
    }

    fn arith(&mut self, k: &Intr, a: &[V], w: u32, rw: u32) -> V {
        let x = self.ex(&a[0], w);
        let ar = &mut self.ar;
        let e = match k {
            Intr::BSwap => ar.bswap(x),
            Intr::BitReverse => ar.bitreverse(x),
            Intr::CtPop => ar.ctpop(x),
            Intr::Ctlz => ar.ctlz(x),
            Intr::Cttz => ar.cttz(x),
            Intr::Abs => {
                let z = ar.cst(w, 0);
                let n = ar.sub_(z, x);
                let c = ar.slt(x, z);
                ar.ite(c, n, x)
            }
            _ => {
                let y = self.ex(&a[1], w);
                let ar = &mut self.ar;
                match k {
                    Intr::UMin => {
                        let c = ar.ult(x, y);
                        ar.ite(c, x, y)
                    }
                    Intr::UMax => {
                        let c = ar.ult(x, y);
                        ar.ite(c, y, x)
                    }
                    Intr::SMin => {
                        let c = ar.slt(x, y);
                        ar.ite(c, x, y)
                    }
                    Intr::SMax => {
                        let c = ar.slt(x, y);
                        ar.ite(c, y, x)
                    }
                    Intr::UAddSat => {
                        let s = ar.add(x, y);
                        let c = ar.ult(s, x);
                        let m = ar.cst(w, mask(w));
                        ar.ite(c, m, s)
                    }
                    Intr::USubSat => {
                        let s = ar.sub_(x, y);
                        let c = ar.ult(x, y);
                        let z = ar.cst(w, 0);
                        ar.ite(c, z, s)
                    }
                    Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                        let (r, o) = match k {
                            Intr::UAddO => {
                                let s = ar.add(x, y);
                                let o = ar.ult(s, x);
                                (s, o)
                            }
                            Intr::USubO => {
                                let s = ar.sub_(x, y);
                                let o = ar.ult(x, y);
                                (s, o)
                            }
                            _ => {
                                let sg = !matches!(k, Intr::UMulO);
                                let ww = if matches!(k, Intr::UMulO | Intr::SMulO) { 2 * w } else { w + 1 };
                                let (p, q) = if sg { (ar.sext(x, ww), ar.sext(y, ww)) } else { (ar.zext(x, ww), ar.zext(y, ww)) };
                                let r = match k {
                                    Intr::SAddO => ar.add(p, q),
                                    Intr::SSubO => ar.sub_(p, q),
                                    _ => ar.mul(p, q),
                                };
                                let lo = ar.extract(r, 0, w);
                                let back = if sg { ar.sext(lo, ww) } else { ar.zext(lo, ww) };
                                let ok = ar.eq(back, r);
                                (lo, ar.not(ok))
                            }
                        };
                        let (r, o) = (self.norm(r), self.norm(o));
                        return V::A(Rc::new(vec![r, o]));
                    }
                    Intr::FshL | Intr::FshR => {
                        let z = self.ex(&a[2], w);
                        let ar = &mut self.ar;
                        let kw = ar.cst(w, w as u128);
                        let s = ar.udivrem(Op::URem, z, kw);
                        let c0 = ar.cst(w, 0);
                        let is0 = ar.eq(s, c0);
                        let inv = ar.sub_(kw, s);
                        let (l, r, d) = if *k == Intr::FshL {
                            (ar.shl(x, s), ar.lshr(y, inv), x)
                        } else {
                            (ar.shl(x, inv), ar.lshr(y, s), y)
                        };
                        let o = ar.or(l, r);
                        ar.ite(is0, d, o)
                    }
                    Intr::UCmp | Intr::SCmp => {
                        let (l, g) = if *k == Intr::UCmp { (ar.ult(x, y), ar.ult(y, x)) } else { (ar.slt(x, y), ar.slt(y, x)) };
                        let (m1, z, p1) = (ar.cst(rw, mask(rw)), ar.cst(rw, 0), ar.cst(rw, 1));
                        let t = ar.ite(g, p1, z);
                        ar.ite(l, m1, t)
                    }
                    _ => panic!("arith {:?}", k),
                }
            }
        };
        self.norm(e)
    }
}

impl Exec {
    pub fn reset_counters(&mut self) {
        self.viol.clear();
        self.viol_keys.clear();
        self.nviol = 0;
        self.asserts.clear();
        self.reach.clear();
        self.samples.clear();
        self.paths = 0;
        self.cut = 0;
        self.steps = 0;
        self.forks = 0;
        self.maxsteps = 0;
        self.dom_unsat = 0;
        self.dom_sat = 0;
        self.model_hits = 0;
        self.audits = 0;
        self.prints = 0;
        self.fork_at.clear();
    }
}
