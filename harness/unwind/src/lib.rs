//! What is left of a collection after user code panicked inside one of its operations.
//! Compiled by rustc with unwinding; lib/l2c.py turns the result into a program for the solver.
pub mod rt;
mod cb;
use rt::*;

/// Text of the checks, by number.
pub const CHECKS: &[(u32, &str)] = &[
    (1, "the buffer reports a length above its capacity"),
    (2, "the buffer shows a number of elements that differs from its length"),
    (3, "the buffer shows the same element twice"),
    (4, "an element pushed after the panic is not at the end"),
    (5, "the code panics although no user code does"),
    (6, "an element is dropped while it is still in the buffer"),
];
/// What must be possible in every harness, by number.
pub const WITNESSES: &[(u32, &str)] = &[(1, "a panic in user code"), (2, "no panic")];

/// An element that is tracked: dropping, cloning and comparing it is user code that may panic.
pub struct E(pub u64);
pub fn mk() -> E { unsafe { E(vp_born() as u64) } }
impl Drop for E { fn drop(&mut self) { unsafe { vp_gone(self.0 as u32); vp_point() } } }
impl Clone for E { fn clone(&self) -> E { unsafe { vp_look(self.0 as u32); vp_point() } mk() } }
impl PartialEq for E { fn eq(&self, o: &E) -> bool { unsafe { vp_look(self.0 as u32); vp_look(o.0 as u32); vp_point() } true } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { unsafe { vp_look(self.0 as u32); vp_look(o.0 as u32); vp_point() } std::cmp::Ordering::Equal } }

extern "C-unwind" fn vp_tramp<F: FnOnce()>(d: *mut u8) {
    let f = unsafe { &mut *(d as *mut Option<F>) }.take();
    if let Some(f) = f { f() }
}
/// Runs f and catches a panic; true if there was one.
pub fn attempt<F: FnOnce()>(f: F) -> bool {
    let mut o = Some(f);
    unsafe { vp_try(vp_tramp::<F>, &mut o as *mut Option<F> as *mut u8) != 0 }
}
pub fn any(n: u32) -> u32 { unsafe { vp_any(n) } }
/// An arbitrary value below n; the solver's program is split into one case for each.
pub fn pick(n: u32) -> u32 { unsafe { vp_pick(n) } }
/// The n-th call of user code from now on panics, for an arbitrary n up to the given one (0: none does).
pub fn arm(most: u32) { unsafe { vp_arm(vp_any(most + 1)) } }
pub fn check(c: bool, id: u32) { unsafe { vp_check(c as u32, id) } }
pub fn ended(p: bool) { unsafe { if p { vp_witness(1) } else { vp_witness(2) } } }

#[macro_export]
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() $body)*
        pub const ALL: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
pub const REGISTRY: &[(&str, extern "C-unwind" fn())] = cb::ALL;
