//! Native execution of harness entries on concrete inputs.
//! usage: replay <out-file> <list-file>; lines of the list: entry hex-input
//! Writes one line per run: outcome, failed assertion or panic message, observed bytes, bytes printed.
use std::cell::RefCell;
use std::io::Write;
use std::panic;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

struct Ctx {
    input: Vec<u8>,
    pos: usize,
    observed: Vec<Vec<u8>>,
    reached: Vec<u32>,
    expect_panic: bool,
}
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
/// standard output and error go to a file, so that printing is observable
fn capture(path: &str) {
    use std::os::fd::AsRawFd;
    let _ = std::fs::remove_file(path);
    let f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
    unsafe { assert!(dup2(f.as_raw_fd(), 1) >= 0 && dup2(f.as_raw_fd(), 2) >= 0) }
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx { input: vec![], pos: 0, observed: vec![], reached: vec![], expect_panic: false });
    static MSG: RefCell<String> = RefCell::new(String::new());
}
struct Assume;
struct Failed(u32);

#[no_mangle]
pub extern "C-unwind" fn __sym_bytes(p: *mut u8, n: usize) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for i in 0..n {
            let b = c.input.get(c.pos).copied().unwrap_or(0);
            c.pos += 1;
            unsafe { *p.add(i) = b };
        }
    })
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        panic::panic_any(Assume)
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assert(c: bool, id: u32) {
    if !c {
        panic::panic_any(Failed(id))
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_reach(id: u32) {
    CTX.with(|c| c.borrow_mut().reached.push(id))
}
#[no_mangle]
pub extern "C-unwind" fn __sym_observe(p: *const u8, n: usize) {
    let v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    CTX.with(|c| c.borrow_mut().observed.push(v))
}
#[no_mangle]
pub extern "C-unwind" fn __sym_split(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn __sym_expect_panic() {
    CTX.with(|c| c.borrow_mut().expect_panic = true)
}

/// the allocator, counting
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static EXCEEDED: AtomicBool = AtomicBool::new(false);
fn more(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed);
    if l.saturating_add(n) > LIMIT.load(Relaxed) {
        EXCEEDED.store(true, Relaxed)
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        COUNT.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        COUNT.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
#[no_mangle]
pub extern "C-unwind" fn __sym_live() -> usize {
    (COUNT.load(Relaxed) << 40) + LIVE.load(Relaxed)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_alloc_limit(n: usize) {
    LIMIT.store(LIVE.load(Relaxed).saturating_add(n), Relaxed)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut out = std::fs::File::create(&a[1]).unwrap();
    let list = std::fs::read_to_string(&a[2]).unwrap();
    let es = h::entries();
    let pr = format!("{}.print", a[1]);
    capture(&pr);
    let size = || {
        let _ = std::io::stdout().flush();
        std::fs::metadata(&pr).map_or(0, |m| m.len())
    };
    panic::set_hook(Box::new(|i| {
        let m = format!(
            "{} at {}",
            i.payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or(i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default(),
            i.location().map_or(String::new(), |l| l.to_string())
        );
        MSG.with(|x| *x.borrow_mut() = m);
    }));
    for l in list.lines() {
        let (name, input) = l.split_once(' ').unwrap();
        let f = es.iter().find(|e| e.0 == name).expect("entry").1;
        CTX.with(|c| *c.borrow_mut() = Ctx { input: unhex(input), pos: 0, observed: vec![], reached: vec![], expect_panic: false });
        // announced before the run, so that an abort is attributable
        write!(out, "{} ", name).unwrap();
        out.flush().unwrap();
        h::gen::set_full(false);
        h::gen::set_ends(false);
        h::gen::set_plain(false);
        let before = size();
        LIMIT.store(usize::MAX, Relaxed);
        EXCEEDED.store(false, Relaxed);
        let r = panic::catch_unwind(|| f());
        let o = CTX.with(|c| c.borrow().observed.iter().map(|v| hex(v)).collect::<Vec<_>>().join(","));
        LIMIT.store(usize::MAX, Relaxed);
        let res = match r {
            _ if EXCEEDED.load(Relaxed) => "alloc -".to_string(),
            Ok(()) => "ok -".to_string(),
            Err(e) => {
                if e.is::<Assume>() {
                    "assume -".to_string()
                } else if let Some(Failed(id)) = e.downcast_ref::<Failed>() {
                    format!("assert {}", id)
                } else if CTX.with(|c| c.borrow().expect_panic) {
                    "ok -".to_string()
                } else {
                    let m = MSG.with(|x| x.borrow().clone());
                    format!("panic {}", m.replace(['\n', '\t'], " "))
                }
            }
        };
        writeln!(out, "{}\t[{}]\t{}", res, o, size() - before).unwrap();
        out.flush().unwrap();
    }
}
