//! What a harness asks of its surroundings. In the symbolic run these are the C functions of
//! lib/l2c.py; natively they are below, with real panics and values from a file or at random.
extern "C-unwind" {
    pub fn vp_point();
}
extern "C" {
    pub fn vp_any(n: u32) -> u32;
    pub fn vp_pick(n: u32) -> u32;
    pub fn vp_assume(c: u32);
    pub fn vp_born() -> u32;
    pub fn vp_gone(i: u32);
    pub fn vp_look(i: u32);
    pub fn vp_check(c: u32, id: u32);
    pub fn vp_witness(id: u32);
    pub fn vp_arm(n: u32);
    pub fn vp_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
}

#[cfg(feature = "native")]
pub mod native {
    use std::collections::VecDeque;
    use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
    pub struct Rejected;
    pub struct User;
    pub struct St { pub state: Vec<u8>, pub fuse: u32, pub vals: Option<VecDeque<u32>>, pub rng: u64 }
    pub static mut ST: St = St { state: Vec::new(), fuse: 0, vals: None, rng: 1 };
    #[allow(static_mut_refs)]
    fn st() -> &'static mut St { unsafe { &mut ST } }
    pub fn reset(vals: Option<Vec<u32>>, seed: u64) {
        *st() = St { state: vec![0], fuse: 0, vals: vals.map(|v| v.into()), rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1 };
    }
    pub fn fail(m: &str) -> ! { println!("violated: {m}"); std::process::exit(1) }
    #[no_mangle] pub extern "C-unwind" fn vp_point() {
        let s = st();
        if s.fuse > 0 { s.fuse -= 1; if s.fuse == 0 { panic_any(User) } }
    }
    #[no_mangle] pub extern "C" fn vp_any(n: u32) -> u32 {
        let s = st();
        if let Some(q) = &mut s.vals {
            let v = q.pop_front().unwrap_or(0);
            if v >= n { println!("rejected"); std::process::exit(78) }
            return v;
        }
        s.rng ^= s.rng << 13; s.rng ^= s.rng >> 7; s.rng ^= s.rng << 17;
        ((s.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 33) % n as u64) as u32
    }
    #[no_mangle] pub extern "C" fn vp_pick(n: u32) -> u32 { vp_any(n) }
    #[no_mangle] pub extern "C" fn vp_assume(c: u32) { if c == 0 { println!("rejected"); std::process::exit(77) } }
    #[no_mangle] pub extern "C" fn vp_born() -> u32 { st().state.push(1); st().state.len() as u32 - 1 }
    #[no_mangle] pub extern "C" fn vp_gone(i: u32) {
        let s = st();
        if i == 0 || i as usize >= s.state.len() { fail("something that is not an element is dropped") }
        if s.state[i as usize] == 2 { fail("an element is dropped twice") }
        s.state[i as usize] = 2;
    }
    #[no_mangle] pub extern "C" fn vp_look(i: u32) {
        let s = st();
        if i == 0 || i as usize >= s.state.len() || s.state[i as usize] != 1 { fail("an element is used that does not exist (any more)") }
    }
    #[no_mangle] pub extern "C" fn vp_check(c: u32, id: u32) {
        if c == 0 { fail(crate::CHECKS.iter().find(|x| x.0 == id).map(|x| x.1).unwrap_or("?")) }
    }
    #[no_mangle] pub extern "C" fn vp_witness(_: u32) {}
    #[no_mangle] pub extern "C" fn vp_arm(n: u32) { st().fuse = n }
    #[no_mangle] pub extern "C" fn vp_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
        let r = catch_unwind(AssertUnwindSafe(|| f(d)));
        st().fuse = 0;
        match r { Ok(()) => 0, Err(e) => { std::mem::forget(e); 1 } }
    }
}
