//! Runs one harness natively on concrete inputs:  replay NAME P1,P2 HEXBYTES
//! exit 0 passed, 1 FAIL, 77 an assumption did not hold, 134 panic, 99 unknown.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct G(UnsafeCell<(Vec<u8>, usize, Vec<u64>, Vec<u8>)>);
unsafe impl Sync for G {}
static S: G = G(UnsafeCell::new((Vec::new(), 0, Vec::new(), Vec::new())));
fn st() -> &'static mut (Vec<u8>, usize, Vec<u64>, Vec<u8>) {
    unsafe { &mut *S.0.get() }
}
fn done(code: i32) -> ! {
    let mut s = String::from("OUT ");
    for b in &st().3 {
        s.push_str(&format!("{:02x}", b));
    }
    println!("{}", s);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// Counts as the engine does.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static MAX: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        let m = MAX.load(Relaxed);
        if m > 0 && n > m {
            MAX.store(0, Relaxed);
            println!("FAIL allocation too large ({} bytes)", l.size());
            done(1)
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
#[no_mangle]
unsafe extern "C" fn sym_heap(n: u64) {
    MAX.store(if n == 0 { 0 } else { LIVE.load(Relaxed) + n as i64 }, Relaxed)
}

#[no_mangle]
unsafe extern "C" fn sym_make(p: *mut u8, n: usize) {
    let s = st();
    for i in 0..n {
        *p.add(i) = s.0.get(s.1 + i).copied().unwrap_or(0);
    }
    s.1 += n;
}
#[no_mangle]
unsafe extern "C" fn sym_assume(b: u8) {
    if b == 0 {
        done(77)
    }
}
#[no_mangle]
unsafe extern "C" fn sym_fail(p: *const u8, n: usize) -> ! {
    println!("FAIL {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    done(1)
}
#[no_mangle]
unsafe extern "C" fn sym_cover(_: u32) {}
#[no_mangle]
unsafe extern "C" fn sym_out(p: *const u8, n: usize) {
    st().3.extend_from_slice(std::slice::from_raw_parts(p, n));
}
#[no_mangle]
unsafe extern "C" fn sym_param(i: u32) -> u64 {
    st().2.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
unsafe extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = st();
    s.2 = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let h = a[3].as_bytes();
    s.0 = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    for (n, f) in harness::table() {
        if n == a[1] {
            f();
            done(0);
        }
    }
    done(99)
}
