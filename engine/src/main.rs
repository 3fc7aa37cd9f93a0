//! symex: bounded symbolic execution of LLVM IR with Z3 as the decision procedure.
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// line-oriented dump used between the worker processes and the parent
fn dump(x: &Exec) -> String {
    let mut s = String::new();
    let st = &x.so.stats;
    writeln!(
        s,
        "N {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        x.paths, x.cut, x.steps, x.forks, x.maxsteps, x.dom_unsat, x.dom_sat, x.model_hits, x.audits, x.maxalloc, x.nviol, x.prints, st.queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.time_us
    )
    .unwrap();
    writeln!(s, "M {}", st.max_us).unwrap();
    for (i, u) in x.used.iter().enumerate() {
        if *u {
            writeln!(s, "U {}", i).unwrap();
        }
    }
    for (k, a) in &x.asserts {
        writeln!(s, "A {} {} {} {} {}", k, a.seen, a.rewritten, a.z3_unsat, a.violated).unwrap();
    }
    for (k, n) in &x.reach {
        writeln!(s, "R {} {}", k, n).unwrap();
    }
    for v in &x.viol {
        writeln!(s, "V {}\t{}\t{}\t{}\t{}", v.kind, v.id, v.msg, hex(&v.input), v.stack.join("|")).unwrap();
    }
    for v in &x.samples {
        writeln!(s, "S {}\t{}", hex(&v.input), v.observed.iter().map(|o| hex(o)).collect::<Vec<_>>().join(",")).unwrap();
    }
    for ((f, b), n) in &x.fork_at {
        writeln!(s, "F {} {} {}", f, b, n).unwrap();
    }
    for ((f, b), n) in &x.q_at {
        writeln!(s, "Q {} {} {}", f, b, n).unwrap();
    }
    for (p, sat) in &x.so.dumped {
        writeln!(s, "D {}\t{}", p.display(), sat).unwrap();
    }
    if let Some(i) = &x.incomplete {
        writeln!(s, "I {}", i.replace('\n', " ")).unwrap();
    }
    s
}

#[derive(Default)]
struct Sum {
    n: [u64; 18],
    maxus: u64,
    used: std::collections::BTreeSet<u32>,
    asserts: BTreeMap<u32, [u64; 4]>,
    reach: BTreeMap<u32, u64>,
    viol: Vec<Violation>,
    samples: Vec<(String, String)>,
    forks: BTreeMap<(u32, u32), u64>,
    qat: BTreeMap<(u32, u32), u64>,
    dumped: Vec<(String, String)>,
    incomplete: Option<String>,
}
impl Sum {
    fn merge(&mut self, t: &str) {
        for l in t.lines() {
            let (k, r) = l.split_at(2);
            match k {
                "N " => {
                    for (i, x) in r.split(' ').enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if i == 4 || i == 9 {
                            self.n[i] = self.n[i].max(x)
                        } else {
                            self.n[i] += x
                        }
                    }
                }
                "M " => self.maxus = self.maxus.max(r.parse().unwrap()),
                "U " => {
                    self.used.insert(r.parse().unwrap());
                }
                "A " => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    let e = self.asserts.entry(v[0] as u32).or_default();
                    for i in 0..4 {
                        e[i] += v[i + 1];
                    }
                }
                "R " => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    *self.reach.entry(v[0] as u32).or_default() += v[1];
                }
                "V " => {
                    let v: Vec<&str> = r.split('\t').collect();
                    self.viol.push(Violation {
                        kind: v[0].into(),
                        id: v[1].parse().unwrap(),
                        msg: v[2].into(),
                        input: unhex(v[3]),
                        stack: v[4].split('|').map(|s| s.to_string()).collect(),
                    });
                }
                "S " => {
                    let v: Vec<&str> = r.split('\t').collect();
                    self.samples.push((v[0].into(), v[1].into()));
                }
                "F " => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    *self.forks.entry((v[0] as u32, v[1] as u32)).or_default() += v[2];
                }
                "Q " => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                    *self.qat.entry((v[0] as u32, v[1] as u32)).or_default() += v[2];
                }
                "D " => {
                    let v: Vec<&str> = r.split('\t').collect();
                    self.dumped.push((v[0].into(), v[1].into()));
                }
                "I " => self.incomplete = Some(r.into()),
                _ => {}
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    ll: String,
    entries: Vec<String>,
    out: String,
    jobs: usize,
    audit: bool,
    no_print: bool,
    real_format: bool,
    verbose: bool,
    max_steps: u64,
    max_forks: u64,
    samples: usize,
    rlimit: u32,
    dump: Option<String>,
    dump_every: u64,
    timeout: u64,
    merge: bool,
    split: bool,
    merge_any: bool,
    join_cap: usize,
    logic: bool,
}

fn main() {
    let mut a = Args {
        ll: String::new(),
        entries: vec![],
        out: String::new(),
        jobs: 1,
        audit: false,
        no_print: false,
        real_format: false,
        verbose: false,
        max_steps: 50_000_000,
        max_forks: 5_000_000,
        samples: 40,
        rlimit: 200_000_000,
        dump: None,
        dump_every: 50,
        timeout: 3600,
        merge: true,
        split: true,
        merge_any: false,
        join_cap: 0,
        logic: true,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut nx = || it.next().expect("argument");
        match x.as_str() {
            "--ll" => a.ll = nx(),
            "--entry" => a.entries.push(nx()),
            "--out" => a.out = nx(),
            "--jobs" => a.jobs = nx().parse().unwrap(),
            "--audit" => a.audit = true,
            "--no-print" => a.no_print = true,
            "--real-format" => a.real_format = true,
            "--no-merge" => a.merge = false,
            "--join-cap" => a.join_cap = it.next().unwrap().parse().unwrap(),
            "--no-split" => a.split = false,
            "--merge-any" => a.merge_any = true,
            "--simple" => a.logic = false,
            "--verbose" => a.verbose = true,
            "--max-steps" => a.max_steps = nx().parse().unwrap(),
            "--max-forks" => a.max_forks = nx().parse().unwrap(),
            "--samples" => a.samples = nx().parse().unwrap(),
            "--rlimit" => a.rlimit = nx().parse().unwrap(),
            "--dump" => a.dump = Some(nx()),
            "--dump-every" => a.dump_every = nx().parse().unwrap(),
            "--timeout" => a.timeout = nx().parse().unwrap(),
            _ => panic!("unknown argument {}", x),
        }
    }
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || real_main(a)).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

fn mkexec(a: &Args, m: &'static ir::Module) -> Exec {
    let mut so = solver::Solver::new(a.rlimit, a.logic);
    if let Some(d) = &a.dump {
        let _ = std::fs::create_dir_all(d);
        so.dump = Some((d.into(), a.dump_every, 0));
    }
    Exec::new(
        m,
        so,
        Opts {
            max_steps: a.max_steps,
            max_alloc: 1 << 28,
            audit: a.audit,
            no_print: a.no_print,
            real_format: a.real_format,
            max_samples: a.samples,
            max_viol: 40,
            verbose: a.verbose,
            max_forks: a.max_forks,
            merge: a.merge,
            split: a.split,
            merge_any: a.merge_any,
            join_cap: a.join_cap,
        },
    )
}

fn real_main(a: Args) -> i32 {
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a.ll).expect("ll");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let mut js_out = vec![];
    let mut rc = 0;
    for entry in &a.entries {
        let t1 = Instant::now();
        let mut x = mkexec(&a, m);
        if !x.start(entry) {
            eprintln!("no entry {}", entry);
            return 3;
        }
        let mut sum = Sum::default();
        let want = if a.jobs > 1 { a.jobs * 24 } else { usize::MAX };
        // breadth-first until there is enough to share, then depth-first
        while let Some(s) = if a.jobs > 1 { x.work.pop_front() } else { x.work.pop_back() } {
            x.run(s);
            if x.incomplete.is_some() || x.work.len() >= want {
                break;
            }
            if x.forks > a.max_forks || t1.elapsed().as_secs() > a.timeout {
                x.incomplete = Some(format!("exploration budget exceeded ({} forks, {} s)", x.forks, t1.elapsed().as_secs()));
            }
        }
        if x.incomplete.is_none() && !x.work.is_empty() {
            let n = x.work.len();
            let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
            let ctr = unsafe { &*ctr };
            let tmp = format!("{}.w", a.out);
            let mut pids = vec![];
            for j in 0..a.jobs {
                let pid = unsafe { fork() };
                assert!(pid >= 0);
                if pid == 0 {
                    // child: fresh counters, shared terms
                    let mut work: Vec<Option<State>> = x.work.drain(..).map(Some).collect();
                    let mut so = solver::Solver::new(a.rlimit, a.logic);
                    if let Some(d) = &a.dump {
                        so.dump = Some((format!("{}/{}", d, j).into(), a.dump_every, 0));
                        let _ = std::fs::create_dir_all(format!("{}/{}", d, j));
                    }
                    x.so = so;
                    x.reset_counters();
                    'o: loop {
                        let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        x.work.push_back(work[i].take().unwrap());
                        while let Some(s) = x.work.pop_back() {
                            x.run(s);
                            if x.incomplete.is_some() {
                                break 'o;
                            }
                            if x.forks > a.max_forks || t1.elapsed().as_secs() > a.timeout {
                                x.incomplete = Some(format!("exploration budget exceeded ({} forks, {} s)", x.forks, t1.elapsed().as_secs()));
                                break 'o;
                            }
                        }
                    }
                    let _ = std::fs::write(format!("{}{}", tmp, j), dump(&x) + "E ok\n");
                    unsafe { _exit(0) }
                }
                pids.push(pid);
            }
            sum.merge(&dump(&x));
            for (j, p) in pids.iter().enumerate() {
                let mut st = 0;
                unsafe { waitpid(*p, &mut st, 0) };
                let f = format!("{}{}", tmp, j);
                let t = std::fs::read_to_string(&f).unwrap_or_default();
                let _ = std::fs::remove_file(&f);
                if st != 0 || !t.ends_with("E ok\n") {
                    sum.incomplete = Some(format!("worker died (status {})", st));
                } else {
                    sum.merge(&t);
                }
            }
        } else {
            sum.merge(&dump(&x));
        }
        let name = |i: u32| m.fns[i as usize].name.clone();
        let n = &sum.n;
        let mut s = String::new();
        writeln!(s, "{{\"entry\":{},\"complete\":{},", js(entry), sum.incomplete.is_none()).unwrap();
        writeln!(s, "\"incomplete\":{},", sum.incomplete.as_ref().map_or("null".into(), |x| js(x))).unwrap();
        writeln!(s, "\"paths\":{},\"cut\":{},\"instructions\":{},\"forks\":{},\"max_path_instructions\":{},\"domain_unsat\":{},\"domain_sat\":{},\"model_hits\":{},\"audited\":{},\"max_alloc\":{},\"violations_seen\":{},\"prints\":{},", n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10], n[11]).unwrap();
        writeln!(s, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"solver\":{},", n[12], n[13], n[14], n[15], n[16], n[17] as f64 / 1e6, sum.maxus as f64 / 1e6, t1.elapsed().as_secs_f64(), js(&solver::Solver::version())).unwrap();
        writeln!(s, "\"asserts\":{{{}}},", sum.asserts.iter().map(|(k, v)| format!("\"{}\":{{\"seen\":{},\"rewritten\":{},\"unsat\":{},\"violated\":{}}}", k, v[0], v[1], v[2], v[3])).collect::<Vec<_>>().join(",")).unwrap();
        writeln!(s, "\"reach\":{{{}}},", sum.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")).unwrap();
        writeln!(s, "\"violations\":[{}],", sum.viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"input\":{},\"stack\":[{}]}}", js(&v.kind), v.id, js(&v.msg), js(&hex(&v.input)), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n")).unwrap();
        writeln!(s, "\"samples\":[{}],", sum.samples.iter().map(|v| format!("{{\"input\":{},\"observed\":[{}]}}", js(&v.0), if v.1.is_empty() { String::new() } else { v.1.split(',').map(js).collect::<Vec<_>>().join(",") })).collect::<Vec<_>>().join(",\n")).unwrap();
        writeln!(s, "\"dumped\":[{}],", sum.dumped.iter().map(|v| format!("[{},{}]", js(&v.0), v.1)).collect::<Vec<_>>().join(",")).unwrap();
        writeln!(s, "\"functions\":[{}]}}", sum.used.iter().map(|i| js(&name(*i))).collect::<Vec<_>>().join(",")).unwrap();
        js_out.push(s);
        if a.verbose {
            let mut f: Vec<_> = sum.forks.iter().collect();
            f.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), n) in f.iter().take(15) {
                eprintln!("{:8} bb{} {}", n, b, name(*f));
            }
            let mut f: Vec<_> = sum.qat.iter().collect();
            f.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), n) in f.iter().take(25) {
                eprintln!("query {:8} ms bb{} {}", **n / 1000, b, name(*f));
            }
        }
        eprintln!(
            "{}: paths {} cut {} insts {} forks {} queries {} (cache {}) solver {:.2}s wall {:.2}s viol {} {}",
            entry,
            n[0],
            n[1],
            n[2],
            n[3],
            n[12],
            n[16],
            n[17] as f64 / 1e6,
            t1.elapsed().as_secs_f64(),
            n[10],
            sum.incomplete.as_deref().unwrap_or("")
        );
        if sum.incomplete.is_some() {
            rc = 2;
        }
    }
    std::fs::write(&a.out, format!("[{}]\n", js_out.join(",\n"))).expect("out");
    eprintln!("total {:.2}s", t0.elapsed().as_secs_f64());
    rc
}
