mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn getpid() -> c_int;
    fn signal(s: c_int, h: usize) -> usize;
    fn prctl(o: c_int, ...) -> c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
}

const SLOTS: usize = 64;
#[repr(C)]
struct Shared {
    slots: [AtomicI32; SLOTS],
    stop: AtomicI32,
    boss: AtomicI32,
    fails: AtomicI32,
    crashed: AtomicI32,
    seq: AtomicU64,
    paths: AtomicU64,
    queries: AtomicU64,
}

struct Opts {
    ir: String,
    jobs: Vec<Job>,
    procs: usize,
    timeout: f64,
    out: String,
    work: String,
    seed: u64,
    steps: u64,
    samples: usize,
    stop_on_fail: bool,
    verbose: bool,
    mem_mb: u64,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn dump(e: &Engine, path: &str) {
    let s = &e.st;
    let mut o = String::new();
    o.push('{');
    let list = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let _ = write!(
        o,
        "\"done\":[{}],\"killed\":[{}],\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"concs\":{},\"max_cons\":{},\"max_vars\":{},",
        list(&s.done), list(&s.killed), s.forks, s.steps, s.max_path_steps, s.concs, s.max_cons, s.max_vars
    );
    let _ = write!(
        o,
        "\"queries\":{},\"quick\":{},\"hits\":{},\"sat\":{},\"unsat\":{},\"nanos\":{},\"max_nanos\":{},\"exprs\":{},",
        e.so.queries, e.so.quick, e.so.hits, e.so.sat, e.so.unsat, e.so.nanos, e.so.max_nanos, e.ar.n.len()
    );
    o.push_str("\"covers\":[");
    o.push_str(&s.covers.iter().map(|((j, c), n)| format!("[{},{},{}]", j, c, n)).collect::<Vec<_>>().join(","));
    o.push_str("],\"funcs\":[");
    o.push_str(&s.funcs.iter().map(|f| js(&e.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(","));
    o.push_str("],");
    let samp = |v: &Vec<Sample>| {
        v.iter()
            .map(|x| {
                format!(
                    "{{\"job\":{},\"bytes\":\"{}\",\"out\":\"{}\",\"msg\":{},\"trace\":{}}}",
                    x.job, hex(&x.bytes), hex(&x.out), js(&x.msg), js(&x.trace)
                )
            })
            .collect::<Vec<_>>()
            .join(",")
    };
    let _ = write!(o, "\"samples\":[{}],\"fails\":[{}],", samp(&s.samples), samp(&s.fails));
    let _ = write!(o, "\"errors\":[{}]}}", s.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, path).unwrap();
}

fn fresh(e: &mut Engine) {
    let n = e.jobs.len();
    e.st = Stats { done: vec![0; n], killed: vec![0; n], seen: vec![0; n], ..Default::default() };
    e.so.queries = 0;
    e.so.hits = 0;
    e.so.quick = 0;
    e.so.sat = 0;
    e.so.unsat = 0;
    e.so.nanos = 0;
    e.so.max_nanos = 0;
}

fn worker(e: &mut Engine, sh: &'static Shared, mut slot: usize, o: &Opts) -> ! {
    let mut last_fork = Instant::now();
    let mut gap = Duration::from_millis(5);
    let mut n = 0u64;
    loop {
        if sh.stop.load(SeqCst) != 0 {
            break;
        }
        let st = match e.pending.pop() {
            Some(s) => s,
            None => break,
        };
        e.run(st);
        n += 1;
        if n % 256 == 0 && unsafe { kill(sh.boss.load(SeqCst), 0) } != 0 {
            unsafe { _exit(1) } // orphaned
        }
        sh.paths.fetch_add(1, SeqCst);
        if !e.st.fails.is_empty() && o.stop_on_fail {
            sh.stop.store(1, SeqCst);
        }
        if e.st.errors.len() >= 20 {
            sh.stop.store(1, SeqCst);
        }
        if !e.pending.is_empty() && (n < 20 || n % 8 == 0) && last_fork.elapsed() > gap {
            for i in 0..o.procs {
                if sh.slots[i].compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        slot = i;
                        sh.slots[i].store(unsafe { getpid() }, SeqCst);
                        let h = (e.pending.len() + 1) / 2;
                        // the child takes the older (larger) half, interleaved
                        let all = std::mem::take(&mut e.pending);
                        e.pending = all.into_iter().take(h).collect();
                        fresh(e);
                        last_fork = Instant::now();
                        n = 0;
                    } else if pid > 0 {
                        let h = (e.pending.len() + 1) / 2;
                        e.pending.drain(..h);
                        gap = (last_fork.elapsed() / 4).clamp(Duration::from_millis(5), Duration::from_millis(50));
                        last_fork = Instant::now();
                    } else {
                        sh.slots[i].store(0, SeqCst);
                    }
                    break;
                }
            }
        }
    }
    if sh.stop.load(SeqCst) == 0 {
        assert!(e.pending.is_empty());
    }
    if e.verbose {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let mut s = String::new();
        for ((f, b, i), c) in v.into_iter().take(25) {
            let _ = writeln!(s, "fork site {} x{} bb{} ip{}", c, e.m.funcs[*f as usize].name, b, i);
        }
        if n > 50 {
            eprintln!("{}", s);
        }
    }
    let id = sh.seq.fetch_add(1, SeqCst);
    dump(e, &format!("{}/w{}.json", o.work, id));
    sh.slots[slot].store(0, SeqCst);
    let _ = std::io::stderr().flush();
    unsafe { _exit(0) }
}

fn real_main() {
    let mut o = Opts {
        ir: String::new(),
        jobs: vec![],
        procs: 8,
        timeout: 600.0,
        out: String::new(),
        work: String::new(),
        seed: 1,
        steps: 80_000_000,
        samples: 4,
        stop_on_fail: true,
        verbose: false,
        mem_mb: 6000,
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "--ir" => o.ir = nx(),
            "--job" => {
                let s = nx();
                let mut p = s.split(':');
                let name = p.next().unwrap().to_string();
                let params = p
                    .next()
                    .map(|q| q.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect())
                    .unwrap_or_default();
                o.jobs.push(Job { name, params });
            }
            "--procs" => o.procs = nx().parse().unwrap(),
            "--timeout" => o.timeout = nx().parse().unwrap(),
            "--out" => o.out = nx(),
            "--work" => o.work = nx(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--steps" => o.steps = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--mem-mb" => o.mem_mb = nx().parse().unwrap(),
            "--keep-going" => o.stop_on_fail = false,
            "-v" => o.verbose = true,
            _ => panic!("option {}", x),
        }
    }
    let o: &'static Opts = Box::leak(Box::new(o));
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&o.ir).expect("ir");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let _ = std::fs::create_dir_all(&o.work);
    let load = t0.elapsed().as_secs_f64();
    sh.slots[0].store(-1, SeqCst);
    sh.boss.store(unsafe { getpid() }, SeqCst);
    let pid = unsafe {
        signal(17, 1); // SIGCHLD ignored: children are reaped automatically
        fork()
    };
    if pid == 0 {
        sh.slots[0].store(unsafe { getpid() }, SeqCst);
        unsafe {
            let l = [o.mem_mb << 20, o.mem_mb << 20];
            setrlimit(9, &l);
            prctl(1, 9); // die with the coordinator
        }
        let jobs: Vec<Job> =
            o.jobs.iter().map(|j| Job { name: j.name.clone(), params: j.params.clone() }).collect();
        let n = jobs.len();
        let mut e = Engine::new(m, jobs, o.seed);
        e.max_steps = o.steps;
        e.nsamples = o.samples;
        e.verbose = o.verbose;
        for j in (0..n).rev() {
            e.start(j);
        }
        worker(&mut e, sh, 0, o);
    }
    let mut timed_out = false;
    loop {
        std::thread::sleep(Duration::from_millis(10));
        let mut live = 0;
        for s in &sh.slots[..o.procs] {
            let p = s.load(SeqCst);
            if p > 0 {
                if unsafe { kill(p, 0) } != 0 && s.compare_exchange(p, 0, SeqCst, SeqCst).is_ok() {
                    sh.crashed.fetch_add(1, SeqCst);
                    sh.stop.store(1, SeqCst);
                } else {
                    live += 1;
                }
            } else if p < 0 {
                live += 1;
            }
        }
        if live == 0 {
            break;
        }
        if t0.elapsed().as_secs_f64() > o.timeout {
            if !timed_out {
                timed_out = true;
                sh.stop.store(1, SeqCst);
            } else if t0.elapsed().as_secs_f64() > o.timeout + 20.0 {
                for s in &sh.slots[..o.procs] {
                    let p = s.load(SeqCst);
                    if p > 0 {
                        unsafe { kill(p, 9) };
                    }
                }
            }
        }
    }
    // merge is done by the driver; write the envelope
    let nfiles = sh.seq.load(SeqCst);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"timed_out\":{},\"crashed\":{},\"wall\":{:.3},\"load\":{:.3},\"paths\":{},\"solver\":{},\"workers\":[",
        timed_out, sh.crashed.load(SeqCst), t0.elapsed().as_secs_f64(), load, sh.paths.load(SeqCst),
        js(&solver::version())
    );
    for i in 0..nfiles {
        let p = format!("{}/w{}.json", o.work, i);
        if let Ok(t) = std::fs::read_to_string(&p) {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&t);
        }
        let _ = std::fs::remove_file(&p);
    }
    s.push_str("]}");
    std::fs::write(&o.out, s).unwrap();
}

fn main() {
    // deep recursion in expression walks: run on a large stack
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
