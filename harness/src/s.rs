//! Source of harness inputs: symbolic values under Kani, concrete ones natively (a replayed
//! counterexample, or random values that validate the harness against the real build).

#[cfg(kani)]
pub struct S;

#[cfg(kani)]
#[allow(dead_code)]
impl S {
    pub fn u8(&mut self) -> u8 { kani::any() }
    pub fn i8(&mut self) -> i8 { kani::any() }
    pub fn u32(&mut self) -> u32 { kani::any() }
    pub fn i32(&mut self) -> i32 { kani::any() }
    pub fn u64(&mut self) -> u64 { kani::any() }
    pub fn i64(&mut self) -> i64 { kani::any() }
    pub fn usize(&mut self) -> usize { kani::any() }
    pub fn bool(&mut self) -> bool { let b: u8 = kani::any(); kani::assume(b < 2); b == 1 }
    /// a value in 0..n
    pub fn below(&mut self, n: usize) -> usize { let b: u8 = kani::any(); kani::assume((b as usize) < n); b as usize }
    pub fn assume(&mut self, c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
pub struct S {
    /// replay: the values in the order in which the harness asks for them
    pub vals: Option<std::collections::VecDeque<Vec<u8>>>,
    pub rng: u64,
    pub short: bool,
}

/// Panic payload: the inputs do not satisfy the assumptions of the harness.
#[cfg(not(kani))]
pub struct Rejected;

#[cfg(not(kani))]
#[allow(dead_code)]
impl S {
    pub fn replay(v: Vec<Vec<u8>>) -> S { S { vals: Some(v.into()), rng: 0, short: false } }
    pub fn random(seed: u64) -> S { S { vals: None, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, short: false } }
    fn next(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    fn take(&mut self, n: usize) -> Option<u64> {
        let q = self.vals.as_mut()?;
        match q.pop_front() {
            None => { self.short = true; Some(0) }
            Some(b) => {
                if b.len() != n { eprintln!("REPLAY-MISALIGNED want {} got {}", n, b.len()); std::process::exit(78) }
                let mut w = [0u8; 8];
                w[..n].copy_from_slice(&b);
                Some(u64::from_le_bytes(w))
            }
        }
    }
    /// a value of n bytes: small ones, values near the limits and arbitrary ones are all likely
    fn val(&mut self, n: usize) -> u64 {
        if let Some(v) = self.take(n) { return v; }
        let r = self.next();
        let m = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
        let k = self.next() % 6;
        (match k { 0..=2 => r % 4, 3 => (r % 4).wrapping_neg(), 4 => (m >> 1).wrapping_add(r % 4).wrapping_sub(1), _ => self.next() ^ (r << 32) }) & m
    }
    pub fn u8(&mut self) -> u8 { self.val(1) as u8 }
    pub fn i8(&mut self) -> i8 { self.val(1) as i8 }
    pub fn u32(&mut self) -> u32 { self.val(4) as u32 }
    pub fn i32(&mut self) -> i32 { self.val(4) as i32 }
    pub fn u64(&mut self) -> u64 { self.val(8) }
    pub fn i64(&mut self) -> i64 { self.val(8) as i64 }
    pub fn usize(&mut self) -> usize { self.val(8) as usize }
    pub fn bool(&mut self) -> bool {
        match self.take(1) { Some(v) => { self.assume(v < 2); v == 1 } None => self.next() % 2 == 1 }
    }
    pub fn below(&mut self, n: usize) -> usize {
        match self.take(1) { Some(v) => { self.assume((v as usize) < n); v as usize } None => (self.next() % n as u64) as usize }
    }
    pub fn assume(&mut self, c: bool) { if !c { std::panic::panic_any(Rejected) } }
}

/// Reachability witness: Kani must report it satisfiable, or the harness proves nothing.
#[macro_export]
macro_rules! witness { ($c:expr, $m:literal) => { { #[cfg(kani)] kani::cover!($c, $m); #[cfg(not(kani))] { let _ = $c; } } } }

/// The call must panic. Ends the harness (under Kani nothing runs after a panic).
#[cfg(kani)]
pub fn must_panic<R, F: FnOnce() -> R>(what: &'static str, f: F) {
    kani::cover!(true, "witness: about to make the call that must panic");
    let r = f();
    core::mem::forget(r);
    let _ = what;
    kani::assert(false, "MUSTPANIC: the call returned");
}
#[cfg(not(kani))]
pub fn must_panic<R, F: FnOnce() -> R>(what: &'static str, f: F) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(r) => { core::mem::forget(r); panic!("MUSTPANIC: {} returned", what) }
        Err(e) => { if e.is::<Rejected>() { std::panic::resume_unwind(e) } }
    }
}

/// Declares the harnesses of one property: name, loop bound, body.
#[macro_export]
macro_rules! harnesses {
    ($reg:ident, $feat:literal; $($name:ident, $unw:literal, $body:expr;)*) => {
        $(
            #[cfg(all(kani, feature = $feat))]
            #[kani::proof]
            #[kani::unwind($unw)]
            fn $name() {
                let mut s = $crate::s::S;
                let f: fn(&mut $crate::s::S) = $body;
                f(&mut s);
                kani::cover!(true, "witness: end of harness");
            }
        )*
        #[cfg(not(kani))]
        pub fn $reg() -> Vec<(&'static str, fn(&mut $crate::s::S))> { vec![$((stringify!($name), $body)),*] }
    };
}
