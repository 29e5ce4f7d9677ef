//! C21: drops layers whose session key the reference peer knows and looks for it in the storage they leave.
use crate::refer::Key;
use crate::world::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

thread_local! {
    static ARMED: Cell<*const Key> = const { Cell::new(std::ptr::null()) };
    static FREED: Cell<bool> = const { Cell::new(false) };
}
/// what a thread runs, so that a request for memory that cannot be met can be reported with its input
type Running = (*const Setup, *const Vec<Op>);
thread_local! {
    static RUNNING: Cell<Running> = const { Cell::new((std::ptr::null(), std::ptr::null())) };
}
pub static REPORT: std::sync::Mutex<(String, Option<String>)> = std::sync::Mutex::new((String::new(), None));
pub fn running(s: &Setup, o: &Vec<Op>) {
    RUNNING.with(|r| r.set((s, o)));
}
/// far beyond anything the scenarios hand to the layer
const HUGE: usize = 8 << 30;
#[cold]
fn huge(n: usize) -> ! {
    let (s, o) = RUNNING.try_with(|r| r.get()).unwrap_or((std::ptr::null(), std::ptr::null()));
    let rep = REPORT.lock().unwrap_or_else(|e| e.into_inner());
    let what = format!("the layer asks the allocator for {} bytes at once; where they are not there the process aborts", n);
    let mut st = serde_json::json!({"runs": 1, "operations": 1, "distinct": 1, "rule": "stopped by a request for memory", "samples": [], "secs": 0.0, "violations": []});
    if !s.is_null() && (rep.0 == "C01" || rep.0 == "ALL") {
        let (s, o) = unsafe { (&*s, &*o) };
        let v = serde_json::json!([{"kind": "allocation", "what": what, "properties": ["C01"], "step": o.len(), "setup": format!("{:?}", s),
            "operations": o.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()}]);
        if let Some(p) = &rep.1 {
            let _ = std::fs::write(p, serde_json::json!({"property": "C01",
                "how": "operations on one real layer (crate at /repo); one of them asks for the memory", "violations": v}).to_string());
        }
        st["violations"] = v;
    } else {
        st["error"] = what.into();
    }
    println!("{}", st);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
pub struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge(l.size())
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge(l.size())
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HUGE {
            huge(n)
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = ARMED.try_with(|a| a.get()).unwrap_or(std::ptr::null());
        if !k.is_null() && l.size() < 100_000 && !places(std::slice::from_raw_parts(p, l.size()), &*k)[0].is_empty() {
            let _ = FREED.try_with(|f| f.set(true));
        }
        System.dealloc(p, l)
    }
}
/// where parts of the key, and of the nonce, lie
fn places(b: &[u8], k: &Key) -> [Vec<usize>; 2] {
    let mut r = [vec![], vec![]];
    for (i, w) in b.windows(8).enumerate() {
        if w.iter().any(|x| *x != 0) {
            for (j, s) in [&k.k, &k.n].into_iter().enumerate() {
                if s.windows(8).any(|x| x == w) {
                    r[j].push(i);
                }
            }
        }
    }
    r
}
fn scan<T>(v: T, k: &Key) -> Option<String> {
    let mut m: Box<MaybeUninit<T>> = Box::new(MaybeUninit::zeroed());
    unsafe {
        std::ptr::write(m.as_mut_ptr(), v);
        let p = m.as_ptr() as *const u8;
        let read = || -> Vec<u8> { (0..std::mem::size_of::<T>()).map(|i| std::ptr::read_volatile(p.add(i))).collect() };
        let before = places(&read(), k);
        FREED.with(|f| f.set(false));
        ARMED.with(|a| a.set(k));
        std::ptr::drop_in_place(m.as_mut_ptr());
        ARMED.with(|a| a.set(std::ptr::null()));
        let after = places(&read(), k);
        // Unused parts of the value may carry what earlier values left on the stack when it was moved;
        // so what counts is that the copy in use is gone, not that no byte of the key is anywhere.
        for (j, what) in ["key", "nonce"].iter().enumerate() {
            if !before[j].is_empty() && before[j] == after[j] {
                return Some(format!("the session {} is still in the storage of the dropped layer", what));
            }
        }
        if before[0].is_empty() && FREED.with(|f| f.get()) {
            return Some("dropping the layer released heap memory that still holds the session key".into());
        }
    }
    None
}
pub fn search(seed: u64, secs: u64) -> (Vec<serde_json::Value>, u64, u64) {
    let end = Instant::now() + Duration::from_secs(secs.min(10));
    let mut g = crate::gen::Gen::new(seed, "ALL", &[], &[]);
    let (mut runs, mut layers) = (0, 0);
    let mut out = vec![];
    while Instant::now() < end && out.is_empty() {
        let (s, ops) = g.scenario();
        runs += 1;
        let w = catch_unwind(AssertUnwindSafe(|| {
            let mut w = World::new(s.clone()).ok()?;
            let _ = w.run(&ops);
            Some(w.into_layers())
        }));
        for (l, k) in w.ok().flatten().unwrap_or_default() {
            if let Some(k) = k {
                layers += 1;
                let r = match l {
                    Lut::Min(l) => scan(l, &k),
                    Lut::Full(l) => scan(l, &k),
                };
                if let Some(t) = r {
                    out.push(serde_json::json!({"kind": "not-wiped", "what": t, "setup": format!("{:?}", s),
                        "operations": ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()}));
                    break;
                }
            }
        }
    }
    (out, runs, layers)
}
