// Compiled inside a copy of the crate: drops values filled with a known pattern and looks at their storage.
use std::mem::MaybeUninit;

use std::sync::atomic::{AtomicU8, Ordering};

/// every value gets a pattern of its own, so that what an earlier one left on the stack is not mistaken for it
static SALT: AtomicU8 = AtomicU8::new(0);
pub fn pattern() -> [u8; 64] {
    let s = SALT.load(Ordering::SeqCst);
    let mut p = [0u8; 64];
    for i in 0..64u8 {
        p[i as usize] = 0x80 | (i.wrapping_mul(37).wrapping_add(s.wrapping_mul(29)).wrapping_add(11) & 0x7f);
    }
    p
}
pub fn next() {
    SALT.fetch_add(1, Ordering::SeqCst);
}
fn hits(b: &[u8], n: usize) -> Vec<bool> {
    let p = pattern();
    let mut h = vec![false; b.len()];
    for i in 0..b.len().saturating_sub(n - 1) {
        if p.windows(n).any(|w| w == &b[i..i + n]) {
            for x in h.iter_mut().skip(i).take(n) {
                *x = true;
            }
        }
    }
    h
}
unsafe fn bytes<T>(p: *const T) -> Vec<u8> {
    (0..std::mem::size_of::<T>()).map(|i| std::ptr::read_volatile((p as *const u8).add(i))).collect()
}
/// `at` tells where in the value the secret lies; otherwise it is looked for
pub fn dropped<T>(what: &str, v: T, at: Option<fn(&mut T) -> (usize, usize)>, out: &mut Vec<String>) {
    let mut m: Box<MaybeUninit<T>> = Box::new(MaybeUninit::zeroed());
    unsafe {
        std::ptr::write(m.as_mut_ptr(), v);
        let before = bytes(m.as_ptr());
        let h = match at {
            Some(f) => {
                let (p, n) = f(&mut *m.as_mut_ptr());
                let base = m.as_ptr() as usize;
                (0..before.len()).map(|i| base + i >= p && base + i < p + n).collect()
            }
            None => hits(&before, 4),
        };
        crate::__wipe::ARMED.store(true, std::sync::atomic::Ordering::SeqCst);
        std::ptr::drop_in_place(m.as_mut_ptr());
        crate::__wipe::ARMED.store(false, std::sync::atomic::Ordering::SeqCst);
        let after = bytes(m.as_ptr());
        let left = (0..after.len()).filter(|&i| h[i] && after[i] == before[i] && after[i] != 0).count();
        if left > 0 {
            out.push(format!("{}: {} bytes of secret are still in the storage of the dropped value", what, left));
        }
        if crate::__wipe::FREED.swap(false, std::sync::atomic::Ordering::SeqCst) {
            out.push(format!("{}: dropping the value released heap memory that still holds the secret", what));
        }
    }
}
pub fn has(p: *const u8, n: usize) -> bool {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    n >= 4 && n < 100_000 && hits_any(b)
}
fn hits_any(b: &[u8]) -> bool {
    let p = pattern();
    b.windows(4).any(|x| x[0] & 0x80 != 0 && p.windows(4).any(|w| w == x))
}
pub fn run(out: &mut Vec<String>) {
    use crate::agreement::SharedSecret;
    use crate::seeds::{Seed32, Seed48, Seed64};
    fn f<S: Default + AsMut<[u8]>>() -> S {
        next();
        let mut s = S::default();
        let n = s.as_mut().len();
        s.as_mut().copy_from_slice(&pattern()[..n]);
        s
    }
    fn at<S: AsMut<[u8]>>(s: &mut S) -> (usize, usize) {
        (s.as_mut().as_ptr() as usize, s.as_mut().len())
    }
    dropped("Seed32", f::<Seed32>(), Some(at), out);
    dropped("Seed48", f::<Seed48>(), Some(at), out);
    dropped("Seed64", f::<Seed64>(), Some(at), out);
    dropped("SharedSecret::B32", SharedSecret::B32(f()), Some(at), out);
    dropped("SharedSecret::B48", SharedSecret::B48(f()), Some(at), out);
    dropped("SharedSecret::B64", SharedSecret::B64(f()), Some(at), out);
    dropped("clone of a Seed32", f::<Seed32>().clone(), Some(at), out);
}
