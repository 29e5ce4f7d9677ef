use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub mod types;
#[cfg(feature = "wipe_keys")]
pub mod keys;

pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static FREED: AtomicBool = AtomicBool::new(false);
pub struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Ordering::SeqCst) && types::has(p, l.size()) {
            FREED.store(true, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
pub fn main() {
    let mut out = vec![];
    types::run(&mut out);
    #[cfg(feature = "wipe_keys")]
    keys::run(&mut out);
    for o in out {
        println!("LEFT {}", o);
    }
    println!("DONE {}", if cfg!(feature = "wipe_keys") { "seeds, shared secrets and session keys" } else { "seeds and shared secrets" });
}
