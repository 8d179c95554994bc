//! The hash collections the harnesses share with the crate: the model's under the solver, std's
//! when a counterexample is replayed on the real build. And hashers.
#[cfg(feature = "model")]
pub use vstd::collections::{HashMap, HashSet, hash_map::RandomState};
#[cfg(not(feature = "model"))]
pub use std::collections::{HashMap, HashSet, hash_map::RandomState};
/// whether the model's map keeps new entries in order
#[cfg(feature = "model")]
pub use vstd::in_order;
#[cfg(not(feature = "model"))]
pub fn in_order(_: bool) {}
/// a map with exactly the first n of these entries, whose keys are different
#[cfg(feature = "model")]
pub use vstd::map_with;
#[cfg(not(feature = "model"))]
pub fn map_with<S: BuildHasher + Default, const N: usize>(a: [(u8, usize); N], n: usize) -> HashMap<u8, usize, S> { a.into_iter().take(n).collect() }
use std::hash::{BuildHasher, Hasher};

/// Two different types of hashers. Natively every one has a seed of its own, so that repeated
/// replays see different orders of iteration.
#[derive(Clone, Copy, Debug)]
pub struct H<const N: u64>(u64);
impl<const N: u64> PartialEq for H<N> { fn eq(&self, _: &Self) -> bool { true } }
impl<const N: u64> Eq for H<N> {}
pub struct Mix(u64);
impl<const N: u64> Default for H<N> {
    fn default() -> Self {
        #[cfg(kani)]
        { H(N) }
        #[cfg(not(kani))]
        { H(N ^ std::collections::hash_map::RandomState::new().build_hasher().finish()) }
    }
}
impl<const N: u64> BuildHasher for H<N> { type Hasher = Mix; fn build_hasher(&self) -> Mix { Mix(self.0) } }
impl Hasher for Mix {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) } }
    fn finish(&self) -> u64 { self.0.wrapping_mul(0xD6E8FEB86659FD93) }
}
pub type H1 = H<1>;
pub type H2 = H<2>;
