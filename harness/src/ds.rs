//! Disjoint sets. The oracle labels every known element with its set; a union relabels. Symbolic
//! queries stand for all queries.
#![allow(dead_code)]
use crate::hm::{in_order, H1, H2};
use crate::s::S;
#[allow(unused_imports)]
use crate::{harnesses, witness};
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use std::hash::BuildHasher;
use std::iter::FromIterator;
use std::mem::forget;

type D<B = H1> = DisjointSet<u8, B>;
/// a loop for i in 0..K without a loop bound
macro_rules! each { ($k:expr, $i:ident => $b:expr) => { { assert!($k <= 8); each!(@ $k, $i => $b; 0 1 2 3 4 5 6 7) } }; (@ $k:expr, $i:ident => $b:expr; $($n:literal)*) => { { $(if $n < $k { let $i: usize = $n; $b; })* } } }
/// labels of the elements 0..K; 255: unknown
#[derive(Clone, Copy)]
struct P<const K: usize>([u8; K]);
impl<const K: usize> P<K> {
    fn new() -> Self { P([255; K]) }
    fn singles() -> Self { let mut p = P([0; K]); each!(K, i => p.0[i] = i as u8); p }
    fn add(&mut self, a: u8) { if self.0[a as usize] == 255 { self.0[a as usize] = a } }
    fn join(&mut self, a: u8, b: u8) {
        self.add(a);
        self.add(b);
        let (x, y) = (self.0[a as usize], self.0[b as usize]);
        each!(K, i => if self.0[i] == y { self.0[i] = x });
    }
    fn has(&self, a: u8) -> bool { self.0[a as usize] != 255 }
    fn same(&self, a: u8, b: u8) -> bool { self.has(a) && self.0[a as usize] == self.0[b as usize] }
    fn len(&self) -> usize { let mut n = 0; each!(K, i => if self.0[i] != 255 { n += 1 }); n }
}
fn key<const K: usize>(s: &mut S) -> u8 { s.below(K) as u8 }
/// one query
fn ask<B: BuildHasher, const K: usize>(s: &mut S, d: &mut D<B>, p: &P<K>) {
    let (a, b) = (key::<K>(s), key::<K>(s));
    assert!(d.in_union(&a, &b) == p.same(a, b), "joined exactly when a chain of unions connects them");
}
fn unite<B: BuildHasher, const K: usize>(s: &mut S, d: &mut D<B>, p: &mut P<K>) {
    let (a, b) = (key::<K>(s), key::<K>(s));
    d.union(a, b);
    p.join(a, b);
}
/// K elements, each alone
fn alone<B: BuildHasher + Default, const K: usize>() -> (D<B>, P<K>) {
    in_order(true);
    let mut d: D<B> = DisjointSet::with_capacity(K);
    each!(K, i => d.make_set(i as u8));
    (d, P::singles())
}
/// the known elements and their number
fn known<B: BuildHasher, const K: usize>(s: &mut S, d: &D<B>, p: &P<K>) {
    let a = key::<K>(s);
    assert!(d.contains(&a) == p.has(a), "known exactly when given");
    assert!(d.len() == p.len(), "as many as given without duplicates");
    assert!(d.is_empty() == (p.len() == 0), "empty exactly when there are none");
}
fn unions<B: BuildHasher + Default, const K: usize>(s: &mut S, m: usize) {
    in_order(true);
    let mut d: D<B> = DisjointSet::new();
    let mut p = P::<K>::new();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    ask(s, &mut d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn grown<B: BuildHasher + Default, const K: usize>(s: &mut S, m: usize) {
    let (mut d, mut p) = alone::<B, K>();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    ask(s, &mut d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn asked_between<const K: usize>(s: &mut S, m: usize) {
    let (mut d, mut p) = alone::<H1, K>();
    each!(m, _i => { unite(s, &mut d, &mut p); ask(s, &mut d, &p) });
    forget(d);
}
fn history<const K: usize>(s: &mut S, m: usize) {
    in_order(true);
    let mut d: D = DisjointSet::new();
    let mut p = P::<K>::new();
    each!(m, _i => { if s.bool() { let a = key::<K>(s); d.make_set(a); p.add(a) } else { unite(s, &mut d, &mut p) } });
    ask(s, &mut d, &p);
    forget(d);
}
harnesses! { reg_d01, "D01";
    d01_none, 4, |s| { unions::<H1, 3>(s, 0) };
    d01_unions_1, 4, |s| { unions::<H1, 3>(s, 1) };
    d01_unions_2, 4, |s| { unions::<H2, 4>(s, 2) };
    d01_grown_1, 4, |s| { grown::<H1, 4>(s, 1) };
    d01_grown_2, 4, |s| { grown::<H1, 4>(s, 2) };
    d01_grown_3, 4, |s| { grown::<H1, 4>(s, 3) };
    d01_asked_between, 4, |s| { asked_between::<4>(s, 3) };
    d01_history_3, 4, |s| { history::<3>(s, 3) };
    d01_random_state, 4, |s| { let mut d: DisjointSet<u8> = DisjointSet::new(); let (a, b, x, y) = (key::<3>(s), key::<3>(s), key::<3>(s), key::<3>(s)); let mut p = P::<3>::new(); d.union(a, b); p.join(a, b); assert!(d.in_union(&x, &y) == p.same(x, y), "joined exactly when a chain of unions connects them"); forget(d) };
    d01_fast, 4, |s| { let mut d: FastDisjointSet<u8> = FastDisjointSet::new(); let (a, b, x, y) = (key::<3>(s), key::<3>(s), key::<3>(s), key::<3>(s)); let mut p = P::<3>::new(); d.union(a, b); p.join(a, b); assert!(d.in_union(&x, &y) == p.same(x, y), "joined exactly when a chain of unions connects them"); forget(d) };
}
harnesses! { reg_d01t, "D01t";
    d01_t_unions_3, 5, |s| { unions::<H1, 5>(s, 3) };
    d01_t_grown_4, 5, |s| { grown::<H1, 5>(s, 4) };
    d01_t_asked_between, 5, |s| { asked_between::<5>(s, 4) };
    d01_t_history_4, 5, |s| { history::<4>(s, 4) };
}
/// Trees as deep as they can get with eight elements: pairs, fours, perhaps the eight, every
/// union naming arbitrary members of the two sets.
fn eight(s: &mut S) -> (D, bool) {
    let (mut d, _) = alone::<H1, 8>();
    d.union(0, 1);
    d.union(2, 3);
    d.union(4, 5);
    d.union(6, 7);
    let (a, b) = (s.below(2) as u8, s.below(2) as u8);
    d.union(a, 2 + b);
    let (a, b) = (s.below(2) as u8, s.below(2) as u8);
    d.union(4 + a, 6 + b);
    let all = s.bool();
    if all {
        let (a, b) = (s.below(4) as u8, s.below(4) as u8);
        d.union(a, 4 + b);
    }
    (d, all)
}
fn deep(s: &mut S, queries: usize) {
    let (mut d, all) = eight(s);
    each!(queries, _i => {
        let (a, b) = (key::<8>(s), key::<8>(s));
        assert!(d.in_union(&a, &b) == (all || a / 4 == b / 4), "joined exactly when a chain of unions connects them");
    });
    forget(d);
}
harnesses! { reg_d01b, "D01b";
    d01_b_deep, 5, |s| { deep(s, 2) };
}

// -- D02 ---------------------------------------------------------------------------------------
pub struct It<'a> { a: &'a [u8], i: usize, hint: usize }
impl<'a> Iterator for It<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> { if self.i < self.a.len() { self.i += 1; Some(&self.a[self.i - 1]) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.a.len() - self.i; match self.hint { 0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(usize::MAX)), _ => (n / 2, None) } }
}
pub struct Vl<'a>(It<'a>);
impl<'a> Iterator for Vl<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next().copied() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
fn keys<const K: usize, const N: usize>(s: &mut S) -> [u8; N] { let mut a = [0; N]; for i in 0..N { a[i] = key::<K>(s) } a }
fn made<const K: usize, const N: usize>(s: &mut S) {
    in_order(true);
    let mut d: D = DisjointSet::new();
    let mut p = P::<K>::new();
    for _ in 0..N { let a = key::<K>(s); d.make_set(a); p.add(a) }
    known(s, &d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn collected<const K: usize, const N: usize>(s: &mut S, by_ref: bool) {
    in_order(true);
    let a = keys::<K, N>(s);
    let i = It { a: &a, i: 0, hint: s.below(4) };
    let mut d: D = if by_ref { DisjointSet::from_iter(i) } else { DisjointSet::from_iter(Vl(i)) };
    let mut p = P::<K>::new();
    for i in 0..N { p.add(a[i]) }
    known(s, &d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn extended<const K: usize, const N: usize>(s: &mut S, by_ref: bool) {
    in_order(true);
    let mut d: D = DisjointSet::new();
    let mut p = P::<K>::new();
    unite(s, &mut d, &mut p);
    let a = keys::<K, N>(s);
    let i = It { a: &a, i: 0, hint: s.below(4) };
    if by_ref { d.extend(i) } else { d.extend(Vl(i)) }
    for i in 0..N { p.add(a[i]) }
    known(s, &d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn again<const K: usize>(s: &mut S) {
    let (mut d, mut p) = alone::<H1, K>();
    unite(s, &mut d, &mut p);
    unite(s, &mut d, &mut p);
    d.make_set(key::<K>(s));
    known(s, &d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn joined<const K: usize>(s: &mut S, m: usize) {
    in_order(true);
    let mut d: D = DisjointSet::new();
    let mut p = P::<K>::new();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    known(s, &d, &p);
    forget(d);
}
/// an unknown element that is only asked about stays unknown
fn only_asked<const K: usize>(s: &mut S) {
    in_order(true);
    let mut d: D = DisjointSet::new();
    let mut p = P::<K>::new();
    unite(s, &mut d, &mut p);
    ask(s, &mut d, &p);
    known(s, &d, &p);
    forget(d);
}
harnesses! { reg_d02, "D02";
    d02_made_0, 4, |s| { made::<3, 0>(s) };
    d02_made_3, 4, |s| { made::<4, 3>(s) };
    d02_joined_1, 4, |s| { joined::<3>(s, 1) };
    d02_joined_2, 4, |s| { joined::<5>(s, 2) };
    d02_collected_value, 4, |s| { collected::<4, 3>(s, false) };
    d02_collected_ref, 4, |s| { collected::<4, 3>(s, true) };
    d02_collected_none, 4, |s| { let r = s.bool(); collected::<2, 0>(s, r) };
    d02_extended_value, 4, |s| { extended::<4, 2>(s, false) };
    d02_extended_ref, 4, |s| { extended::<4, 2>(s, true) };
    d02_again, 4, |s| { again::<4>(s) };
    d02_only_asked, 4, |s| { only_asked::<3>(s) };
}
harnesses! { reg_d02t, "D02t";
    d02_t_made_4, 5, |s| { made::<5, 4>(s) };
    d02_t_collected_value, 5, |s| { collected::<5, 4>(s, false) };
    d02_t_collected_ref, 5, |s| { collected::<5, 4>(s, true) };
    d02_t_extended_value, 5, |s| { extended::<5, 3>(s, false) };
    d02_t_extended_ref, 5, |s| { extended::<5, 3>(s, true) };
    d02_t_again, 5, |s| { again::<5>(s) };
    d02_t_joined_3, 5, |s| { joined::<5>(s, 3) };
}

// -- D03 ---------------------------------------------------------------------------------------
/// the groups of an iteration against the labels
fn groups<B: BuildHasher, const K: usize>(s: &mut S, d: &mut D<B>, p: &P<K>) {
    in_order(false);
    let (mut total, mut index) = (0, 0u8);
    let mut at = [255u8; K];
    let mut it = (&mut *d).into_iter();
    while let Some(mut g) = it.next() {
        let mut n = 0;
        while let Some(e) = g.next() {
            n += 1;
            assert!(p.has(*e), "only known elements");
            assert!(at[*e as usize] == 255, "every element once");
            at[*e as usize] = index;
        }
        assert!(n > 0, "no empty group");
        total += n;
        index += 1;
        forget(g);
    }
    forget(it);
    assert!(total == p.len(), "every element");
    let (a, b) = (key::<K>(s), key::<K>(s));
    s.assume(p.has(a) && p.has(b));
    assert!((at[a as usize] == at[b as usize]) == p.same(a, b), "in the same group exactly when joined");
}
fn partition<const K: usize>(s: &mut S, m: usize) {
    let (mut d, mut p) = alone::<H1, K>();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    groups(s, &mut d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
fn partition_new<const K: usize>(s: &mut S, m: usize) {
    let mut d: D<H2> = DisjointSet::new();
    let mut p = P::<K>::new();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    groups(s, &mut d, &p);
    forget(d);
}
harnesses! { reg_d03, "D03";
    d03_empty, 4, |_s| { let mut d: D = DisjointSet::new(); let mut it = (&mut d).into_iter(); assert!(it.next().is_none(), "no groups"); forget(it); forget(d) };
    d03_alone, 4, |s| { partition::<3>(s, 0) };
    d03_one, 4, |s| { partition::<3>(s, 1) };
    d03_two, 4, |s| { partition::<3>(s, 2) };
    d03_pairs, 5, |s| {
        // two pairs, then a union through arbitrary members
        let (mut d, mut p) = alone::<H1, 4>();
        d.union(0, 1);
        d.union(2, 3);
        let (a, b) = (s.below(2) as u8, s.below(2) as u8);
        d.union(a, 2 + b);
        p.0 = [0; 4];
        groups(s, &mut d, &p);
        forget(d);
    };
    d03_new, 4, |s| { partition_new::<3>(s, 1) };
}
harnesses! { reg_d03t, "D03t";
    d03_t_three, 5, |s| { partition::<4>(s, 3) };
    d03_t_new_2, 5, |s| { partition_new::<4>(s, 2) };
}
// -- D04 ---------------------------------------------------------------------------------------
fn started<const K: usize>(s: &mut S, m: usize) -> (D, P<K>) {
    let (mut d, mut p) = alone::<H1, K>();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    (d, p)
}
fn cleared<const K: usize>(s: &mut S, m: usize) {
    let (mut d, _) = started::<K>(s, m);
    d.clear();
    let mut p = P::<K>::new();
    known(s, &d, &p);
    unite(s, &mut d, &mut p);
    known(s, &d, &p);
    let a = key::<K>(s);
    d.make_set(a);
    p.add(a);
    ask(s, &mut d, &p);
    forget(d);
}
fn cloned<const K: usize>(s: &mut S, m: usize, change_clone: bool) {
    let (mut d, p) = started::<K>(s, m);
    let mut e = d.clone();
    let mut q = p;
    if change_clone {
        unite(s, &mut e, &mut q);
    } else {
        unite(s, &mut d, &mut q);
    }
    let (old, new) = if change_clone { (&mut d, &mut e) } else { (&mut e, &mut d) };
    known(s, old, &p);
    ask(s, old, &p);
    ask(s, new, &q);
    forget(d);
    forget(e);
}
fn fresh<B: BuildHasher>(s: &mut S, mut d: D<B>) {
    let mut p = P::<3>::new();
    known(s, &d, &p);
    unite(s, &mut d, &mut p);
    let a = key::<3>(s);
    d.make_set(a);
    p.add(a);
    known(s, &d, &p);
    ask(s, &mut d, &p);
    forget(d);
}
harnesses! { reg_d04, "D04";
    d04_clear, 4, |s| { cleared::<3>(s, 1) };
    d04_clear_2, 4, |s| { cleared::<4>(s, 2) };
    d04_clear_groups, 4, |s| { let (mut d, _) = started::<3>(s, 1); d.clear(); let mut p = P::<3>::new(); unite(s, &mut d, &mut p); groups(s, &mut d, &p); forget(d) };
    d04_cleared_twice, 4, |s| { let (mut d, _) = started::<3>(s, 1); d.clear(); d.clear(); fresh(s, d) };
    d04_clone_changed, 4, |s| { cloned::<3>(s, 1, true) };
    d04_original_changed, 4, |s| { cloned::<3>(s, 1, false) };
    d04_original_cleared, 4, |s| { let (mut d, p) = started::<3>(s, 2); let mut e = d.clone(); if s.bool() { d.clear() } known(s, &e, &p); ask(s, &mut e, &p); forget(d); forget(e) };
    d04_clone_from, 4, |s| { let (d, p) = started::<3>(s, 2); let mut e: D = DisjointSet::new(); let mut x = P::<3>::new(); unite(s, &mut e, &mut x); e.clone_from(&d); known(s, &e, &p); ask(s, &mut e, &p); forget(d); forget(e) };
    d04_new, 4, |s| { fresh::<H1>(s, DisjointSet::new()) };
    d04_default, 4, |s| { fresh::<H1>(s, Default::default()) };
    d04_with_capacity, 4, |s| { let n = s.below(5); fresh::<H1>(s, DisjointSet::with_capacity(n)) };
    d04_with_hasher, 4, |s| { fresh(s, DisjointSet::with_hasher(H1::default())) };
    d04_with_both, 4, |s| { let n = s.below(5); fresh(s, DisjointSet::with_capacity_and_hasher(n, H1::default())) };
    d04_reserve, 4, |s| { let (mut d, mut p) = started::<3>(s, 1); let n = s.below(5); d.reserve(n); known(s, &d, &p); unite(s, &mut d, &mut p); ask(s, &mut d, &p); forget(d) };
}
harnesses! { reg_d04t, "D04t";
    d04_t_clear_3, 5, |s| { cleared::<4>(s, 3) };
    d04_t_clone_changed, 5, |s| { cloned::<4>(s, 3, true) };
    d04_t_original_changed, 5, |s| { cloned::<4>(s, 3, false) };
}

// -- D05 ---------------------------------------------------------------------------------------
/// After m unions of K elements, how many stored entries does finding one of them visit?
#[cfg(feature = "vecs")]
fn steps<const K: usize>(s: &mut S, m: usize, between: bool) {
    let (mut d, mut p) = alone::<H1, K>();
    each!(m, _i => {
        unite(s, &mut d, &mut p);
        if between && s.bool() { ask(s, &mut d, &p) }
    });
    let a = key::<K>(s);
    vstd::vecs::reset();
    assert!(d.in_union(&a, &a), "an element is with itself");
    let mut most = 1;
    let mut n = K;
    while n > 1 { n /= 2; most += 1 }
    let v = vstd::vecs::visited().count_ones();
    assert!(v <= most, "at most logarithmically many entries are visited");
    forget(d);
}
/// the same for the entries a union visits: two searches
#[cfg(feature = "vecs")]
fn union_steps<const K: usize>(s: &mut S, m: usize) {
    let (mut d, mut p) = alone::<H1, K>();
    each!(m, _i => { unite(s, &mut d, &mut p) });
    let (a, b) = (key::<K>(s), key::<K>(s));
    vstd::vecs::reset();
    d.union(a, b);
    let mut most = 1;
    let mut n = K;
    while n > 1 { n /= 2; most += 1 }
    let v = vstd::vecs::visited().count_ones();
    assert!(v <= 2 * most, "at most logarithmically many entries are visited");
    forget(d);
}
#[cfg(feature = "vecs")]
harnesses! { reg_d05, "D05";
    d05_of_2, 4, |s| { steps::<2>(s, 1, false) };
    d05_of_3, 4, |s| { steps::<3>(s, 2, false) };
    d05_of_4, 4, |s| { steps::<4>(s, 3, false) };
    d05_of_4_asked, 4, |s| { steps::<4>(s, 3, true) };
}
#[cfg(feature = "vecs")]
harnesses! { reg_d05b, "D05b";
    d05_b_of_8, 5, |s| {
        let (mut d, _) = eight(s);
        let a = key::<8>(s);
        vstd::vecs::reset();
        assert!(d.in_union(&a, &a), "an element is with itself");
        let v = vstd::vecs::visited().count_ones();
        assert!(v <= 4, "at most logarithmically many entries are visited");
        forget(d);
    };
}
#[cfg(feature = "vecs")]
harnesses! { reg_d05t, "D05t";
    d05_t_of_5, 5, |s| { steps::<5>(s, 4, false) };
    d05_t_of_6, 5, |s| { steps::<6>(s, 5, false) };
    d05_t_union, 5, |s| { union_steps::<6>(s, 5) };
}
