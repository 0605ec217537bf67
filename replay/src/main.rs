//! Native replay: runs one harness on the real build with the concrete input
//! values of an engine path, and reports what happened.
//!
//!   replay INPUTS.txt
//!
//! INPUTS.txt: an `entry NAME` line, then `param V` and `in NAME BITS VALUE` lines in consumption order.
//! Output lines: `obs NAME VALUE`, `reach NAME`, `checkfail NAME`,
//! `mismatch ...`, and finally `end ok|assume`.  A panic, an abort, a huge
//! allocation or a stack overflow ends the process abnormally.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::Mutex;

struct Guarded;
static TOTAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn count(n: usize) {
    TOTAL.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
}
const LIMIT: usize = 1 << 20;
fn huge(n: usize) -> ! {
    let _ = n;
    let m = b"hugealloc\n";
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        write(1, m.as_ptr(), m.len());
        _exit(90)
    }
}
static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn armed() -> bool {
    ARMED.load(std::sync::atomic::Ordering::Relaxed)
}
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT && armed() {
            huge(l.size())
        }
        count(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT && armed() {
            huge(l.size())
        }
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT && armed() {
            huge(n)
        }
        count(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Guarded = Guarded;

struct Feed {
    params: Vec<u64>,
    ins: std::collections::VecDeque<(String, u32, u64)>,
}
static FEED: Mutex<Feed> = Mutex::new(Feed { params: vec![], ins: std::collections::VecDeque::new() });

unsafe fn nm(p: *const u8, n: usize) -> &'static str {
    std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
}
fn quit(code: i32) -> ! {
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

#[no_mangle]
pub unsafe extern "C" fn vs_int(p: *const u8, n: usize, bits: u32) -> u64 {
    let name = nm(p, n);
    let x = FEED.lock().unwrap().ins.pop_front();
    match x {
        Some((a, b, v)) if a == name && b == bits => v,
        Some((a, b, _)) => {
            println!("mismatch wanted {}:{} got {}:{}", name, bits, a, b);
            quit(5)
        }
        None => {
            println!("mismatch wanted {}:{} at end of inputs", name, bits);
            quit(5)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn vs_bytes(p: *const u8, n: usize, dst: *mut u8, k: usize) {
    let name = nm(p, n);
    for i in 0..k {
        let want = format!("{}[{}]", name, i);
        let x = FEED.lock().unwrap().ins.pop_front();
        match x {
            Some((a, 8, v)) if a == want => *dst.add(i) = v as u8,
            o => {
                println!("mismatch wanted {} got {:?}", want, o);
                quit(5)
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn vs_assume(c: bool) {
    if !c {
        println!("end assume");
        quit(0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn vs_check(c: bool, p: *const u8, n: usize) {
    if !c {
        println!("checkfail {}", nm(p, n));
        quit(10)
    }
}
#[no_mangle]
pub unsafe extern "C" fn vs_fail(p: *const u8, n: usize) -> ! {
    println!("checkfail {}", nm(p, n));
    quit(10)
}
#[no_mangle]
pub unsafe extern "C" fn vs_reach(p: *const u8, n: usize) {
    println!("reach {}", nm(p, n));
}
#[no_mangle]
pub unsafe extern "C" fn vs_observe(p: *const u8, n: usize, v: u64) {
    println!("obs {} {}", nm(p, n), v);
}
#[no_mangle]
pub extern "C" fn vs_param(i: u64) -> u64 {
    FEED.lock().unwrap().params[i as usize]
}
#[no_mangle]
pub unsafe extern "C" fn vs_choose(p: *const u8, l: usize, n: u64) -> u64 {
    if n == 0 {
        vs_assume(false)
    }
    let bits = 64 - (n - 1).leading_zeros();
    let v = vs_int(p, l, bits.max(1));
    if v >= n {
        println!("mismatch choice {} of {}", v, n);
        quit(5)
    }
    v
}
#[no_mangle]
pub extern "C" fn vs_concrete(v: u64) -> u64 {
    v
}

#[no_mangle]
pub extern "C" fn vs_allocated() -> u64 {
    TOTAL.load(std::sync::atomic::Ordering::Relaxed)
}

fn main() {
    // bring up the allocator-hungry parts of std before arming the guard
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[1]).expect("inputs");
    let mut entry = String::new();
    {
        let mut f = FEED.lock().unwrap();
        for l in txt.lines() {
            let w: Vec<&str> = l.split('\t').collect();
            match w[0] {
                "entry" => entry = w[1].to_string(),
                "param" => f.params.push(w[1].parse().unwrap()),
                "in" => f.ins.push_back((w[1].to_string(), w[2].parse().unwrap(), w[3].parse().unwrap())),
                _ => {}
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        ARMED.store(false, std::sync::atomic::Ordering::Relaxed);
        println!("panic {}", i);
        quit(101)
    }));
    for t in vh::tables() {
        for (n, f) in t {
            if *n == entry {
                ARMED.store(true, std::sync::atomic::Ordering::Relaxed);
                f();
                println!("end ok");
                quit(0);
            }
        }
    }
    println!("mismatch no harness {}", entry);
    quit(5)
}
