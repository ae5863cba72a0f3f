//! The random source seen by the code under test: the draws of `ThreadRng` (rand is built from
//! `/verif/vendor/rand`, which differs from the published crate only there) within `drawing` are
//! what the check answers.
use std::cell::RefCell;

type Source = Box<dyn FnMut() -> Option<u64>>;
thread_local!(static SOURCE: RefCell<Option<Source>> = const { RefCell::new(None) });

fn next() -> Option<u64> {
    // the check's own code may draw while it answers
    SOURCE.with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().and_then(|f| f())))
}

struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        rand::rngs::mc::set(None);
        SOURCE.with(|s| s.borrow_mut().take());
    }
}

/// Run `body` with every draw of this thread answered by `source`.
pub fn drawing<'a, T>(source: impl FnMut() -> Option<u64> + 'a, body: impl FnOnce() -> T) -> T {
    let b: Box<dyn FnMut() -> Option<u64> + 'a> = Box::new(source);
    // sound: the guard drops it before `drawing` returns
    let b: Source = unsafe { std::mem::transmute(b) };
    SOURCE.with(|s| *s.borrow_mut() = Some(b));
    let _g = Disarm;
    rand::rngs::mc::set(Some(next));
    body()
}

/// A fixed sequence, so that code which rejects values gets on in the end.
pub fn fixed(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_mul(0xD134_2543_DE82_EF95).wrapping_add((i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// `given` first, `fixed` after it; returns also how many were drawn.
pub fn scripted<T>(given: &[u64], seed: u64, body: impl FnOnce() -> T) -> (T, usize) {
    let n = std::cell::Cell::new(0usize);
    let r = drawing(
        || {
            let i = n.get();
            n.set(i + 1);
            Some(given.get(i).copied().unwrap_or_else(|| fixed(seed, i as u64)))
        },
        body,
    );
    (r, n.get())
}

/// The draw for which `gen_range` over `n` values gives the `k`-th.
pub fn nth(k: usize, n: usize) -> u64 {
    (((k as u128) << 64).div_ceil(n as u128)) as u64
}
