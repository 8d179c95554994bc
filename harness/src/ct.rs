//! Counters. The oracle is a list of (element, count) pairs; a symbolic probe element stands for
//! every element.
#![allow(dead_code)]
use crate::hm::{map_with, HashMap, H1, H2};
use crate::s::S;
#[allow(unused_imports)]
use crate::{harnesses, witness};
use advanced_collections::counter::{Counter, FastCounter};
use std::hash::BuildHasher;
use std::iter::FromIterator;
use std::mem::forget;

type C<B = H1> = Counter<u8, B>;
type E = (u8, usize);
/// ids of elements: a few different ones are as good as all (elements are only compared)
fn key(s: &mut S) -> u8 { s.below(5) as u8 }
fn keys<const N: usize>(s: &mut S) -> [u8; N] { let mut a = [0; N]; for i in 0..N { a[i] = key(s) } a }
fn count(s: &mut S) -> usize { let n = s.usize(); s.assume(n <= usize::MAX / 4); n }
/// up to N entries with different elements; unused places have count 0
fn entries<const N: usize>(s: &mut S) -> ([E; N], usize) { let e = entries0(s); for i in 0..N { s.assume(e.0[i].1 >= 1) } e }
/// counts may be 0
fn entries0<const N: usize>(s: &mut S) -> ([E; N], usize) {
    let n = s.below(N + 1);
    let mut a = [(0, 0); N];
    for i in 0..N {
        a[i] = (key(s), count(s));
        for j in 0..i { s.assume(i >= n || a[j].0 != a[i].0); }
    }
    (a, n)
}
/// entries are symbolic, so their order in a is every order of iteration
fn map_of<B: BuildHasher + Default, const N: usize>(a: &([E; N], usize)) -> HashMap<u8, usize, B> { map_with(a.0, a.1) }
fn mk<B: BuildHasher + Default, const N: usize>(s: &mut S) -> (C<B>, ([E; N], usize)) {
    let a = entries::<N>(s);
    (Counter::from_hashmap(map_of(&a)), a)
}
fn mk0<B: BuildHasher + Default, const N: usize>(s: &mut S) -> (C<B>, ([E; N], usize)) {
    let a = entries0::<N>(s);
    (Counter::from_hashmap(map_of(&a)), a)
}
fn of<const N: usize>(a: &([E; N], usize), q: u8) -> usize { for i in 0..N { if i < a.1 && a.0[i].0 == q { return a.0[i].1 } } 0 }
/// the entry of q: counts of 0 exist too
fn opt<const N: usize>(a: &([E; N], usize), q: u8) -> Option<usize> { for i in 0..N { if i < a.1 && a.0[i].0 == q { return Some(a.0[i].1) } } None }
fn occ(a: &[u8], q: u8) -> usize { let mut n = 0; for x in a { if *x == q { n += 1 } } n }
fn got<B: BuildHasher>(c: &C<B>, q: u8) -> usize { match c.get(&q) { None => 0, Some(n) => *n } }
/// the count of q is w, and only counted elements are there
fn at<B: BuildHasher>(c: &C<B>, q: u8, w: usize) {
    assert!(got(c, q) == w, "the count of every element is right");
    assert!(c.contains_key(&q) == (w > 0), "elements that do not occur are absent");
}
/// number of different elements among the first n entries and a
fn distinct<const N: usize>(e: &([E; N], usize), a: &[u8]) -> usize {
    let mut n = e.1;
    for i in 0..a.len() {
        let mut new = of(e, a[i]) == 0;
        for j in 0..i { if a[j] == a[i] { new = false } }
        if new { n += 1 }
    }
    n
}
/// an iterator with a size hint that is exact, absent or merely an upper bound
pub struct It<'a> { a: &'a [u8], i: usize, hint: usize }
impl<'a> Iterator for It<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> { if self.i < self.a.len() { self.i += 1; Some(&self.a[self.i - 1]) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.a.len() - self.i; match self.hint { 0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(usize::MAX)), _ => (n / 2, None) } }
}
pub struct Vl<'a>(It<'a>);
impl<'a> Iterator for Vl<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next().copied() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
fn it<'a>(s: &mut S, a: &'a [u8]) -> It<'a> { It { a, i: 0, hint: s.below(4) } }
const NONE: ([E; 0], usize) = ([], 0);

fn pushed<const N: usize>(s: &mut S) {
    let mut c: C = Counter::new();
    let a = keys::<N>(s);
    for i in 0..N { c.push(a[i]) }
    let q = key(s);
    at(&c, q, occ(&a, q));
    assert!(c.len() == distinct(&NONE, &a), "one entry for each different element");
    assert!(c.is_empty() == (N == 0), "empty");
    forget(c);
}
fn push1<const N: usize>(s: &mut S) {
    let (mut c, e) = mk::<H1, N>(s);
    let (x, q) = (key(s), key(s));
    c.push(x);
    at(&c, q, of(&e, q) + (x == q) as usize);
    assert!(c.len() == distinct(&e, &[x]), "one entry for each different element");
    forget(c);
}
fn extended<const N: usize, const M: usize>(s: &mut S, by_ref: bool) {
    let (mut c, e) = mk::<H1, N>(s);
    let a = keys::<M>(s);
    let q = key(s);
    let i = it(s, &a);
    if by_ref { c.extend(i) } else { c.extend(Vl(i)) }
    at(&c, q, of(&e, q) + occ(&a, q));
    assert!(c.len() == distinct(&e, &a), "one entry for each different element");
    forget(c);
}
fn collected<B: BuildHasher + Default, const M: usize>(s: &mut S, by_ref: bool) {
    let a = keys::<M>(s);
    let q = key(s);
    let i = it(s, &a);
    let c: C<B> = if by_ref { Counter::from_iter(i) } else { Counter::from_iter(Vl(i)) };
    at(&c, q, occ(&a, q));
    assert!(c.len() == distinct(&NONE, &a), "one entry for each different element");
    forget(c);
}
fn fresh<B: BuildHasher + Default>(s: &mut S, mut c: C<B>) {
    assert!(c.len() == 0 && c.is_empty(), "a new counter is empty");
    let (x, q) = (key(s), key(s));
    at(&c, q, 0);
    c.push(x);
    at(&c, q, (x == q) as usize);
    forget(c);
}
harnesses! { reg_k01, "K01";
    k01_push_3, 5, |s| { pushed::<3>(s) };
    k01_push_any, 5, |s| { push1::<3>(s) };
    k01_extend_value, 5, |s| { extended::<2, 2>(s, false) };
    k01_extend_ref, 5, |s| { extended::<2, 2>(s, true) };
    k01_extend_none, 5, |s| { let r = s.bool(); extended::<2, 0>(s, r) };
    k01_collect_value, 5, |s| { collected::<H1, 3>(s, false) };
    k01_collect_ref, 5, |s| { collected::<H1, 3>(s, true) };
    k01_collect_none, 5, |s| { let r = s.bool(); collected::<H2, 0>(s, r) };
    k01_new, 5, |s| { fresh::<H1>(s, Counter::new()) };
    k01_default, 5, |s| { fresh::<H1>(s, Counter::default()) };
    k01_with_capacity, 5, |s| { let n = s.u8() as usize; let c = C::<H1>::with_capacity(n); assert!(c.capacity() >= n, "as much as asked for"); fresh(s, c) };
    k01_with_hasher, 5, |s| { fresh::<H1>(s, Counter::with_hasher(H1::default())) };
    k01_with_both, 5, |s| { let n = s.u8() as usize; let c = C::<H1>::with_capacity_and_hasher(n, H1::default()); assert!(c.capacity() >= n, "as much as asked for"); fresh(s, c) };
    k01_random_state, 5, |s| { let mut c: Counter<u8> = Counter::new(); let (x, y, q) = (key(s), key(s), key(s)); c.push(x); c.push(y); at(&c, q, occ(&[x, y], q)); forget(c) };
    k01_fast, 5, |s| { let mut c: FastCounter<u8> = FastCounter::new(); let (x, y, q) = (key(s), key(s), key(s)); c.push(x); c.push(y); at(&c, q, occ(&[x, y], q)); forget(c) };
    k01_mixed, 5, |s| {
        let a = keys::<1>(s); let b = keys::<1>(s); let (x, q) = (key(s), key(s));
        let mut c: C = Counter::from_iter(a.iter());
        c.push(x); c.extend(b.iter());
        at(&c, q, occ(&a, q) + occ(&b, q) + (x == q) as usize);
        forget(c)
    };
}
harnesses! { reg_k01t, "K01t";
    k01_t_push_5, 7, |s| { pushed::<5>(s) };
    k01_t_push_any, 7, |s| { push1::<5>(s) };
    k01_t_extend_value, 7, |s| { extended::<2, 4>(s, false) };
    k01_t_extend_ref, 7, |s| { extended::<3, 3>(s, true) };
    k01_t_collect_value, 7, |s| { collected::<H1, 5>(s, false) };
    k01_t_collect_ref, 7, |s| { collected::<H1, 5>(s, true) };
}

// -- K02, K03 ----------------------------------------------------------------------------------
fn same<B: BuildHasher, const N: usize>(c: &C<B>, e: &([E; N], usize), q: u8) {
    at(c, q, of(e, q));
    assert!(c.len() == e.1, "as many entries as before");
}
fn union_len<const N: usize, const M: usize>(a: &([E; N], usize), b: &([E; M], usize)) -> usize {
    let mut n = a.1;
    for i in 0..M { if i < b.1 && of(a, b.0[i].0) == 0 { n += 1 } }
    n
}
fn added<const N: usize, const M: usize>(s: &mut S, form: u8) {
    let (mut a, ea) = mk::<H1, N>(s);
    let (b, eb) = mk::<H2, M>(s);
    let q = key(s);
    match form {
        0 => a = a + b,
        1 => { a = a + &b; same(&b, &eb, q); forget(b) }
        2 => a += b,
        _ => { a += &b; same(&b, &eb, q); forget(b) }
    }
    at(&a, q, of(&ea, q) + of(&eb, q));
    assert!(a.len() == union_len(&ea, &eb), "one entry for each different element");
    forget(a);
}
fn left<const N: usize, const M: usize>(a: &([E; N], usize), b: &([E; M], usize)) -> usize {
    let mut n = 0;
    for i in 0..N { if i < a.1 && a.0[i].1 > of(b, a.0[i].0) { n += 1 } }
    n
}
fn subtracted<const N: usize, const M: usize>(s: &mut S, form: u8) {
    let (mut a, ea) = mk::<H1, N>(s);
    let (b, eb) = mk::<H2, M>(s);
    let q = key(s);
    match form {
        0 => a = a - b,
        1 => { a = a - &b; same(&b, &eb, q); forget(b) }
        2 => a -= b,
        _ => { a -= &b; same(&b, &eb, q); forget(b) }
    }
    let (x, y) = (of(&ea, q), of(&eb, q));
    at(&a, q, if x > y { x - y } else { 0 });
    assert!(a.len() == left(&ea, &eb), "one entry for each element with something left");
    witness!(a.len() == 1 && ea.1 == 2, "witness: one of two entries can go");
    forget(a);
}
harnesses! { reg_k02, "K02";
    k02_add, 5, |s| { added::<2, 2>(s, 0) };
    k02_add_ref, 5, |s| { added::<2, 2>(s, 1) };
    k02_assign, 5, |s| { added::<2, 2>(s, 2) };
    k02_assign_ref, 5, |s| { added::<2, 2>(s, 3) };
    k02_same_hasher, 5, |s| { let (a, ea) = mk::<H1, 1>(s); let (b, eb) = mk::<H1, 2>(s); let q = key(s); let a = a + b; at(&a, q, of(&ea, q) + of(&eb, q)); forget(a) };
    k02_same_hasher_assign, 5, |s| { let (mut a, ea) = mk::<H1, 1>(s); let (b, eb) = mk::<H1, 2>(s); let q = key(s); a += &b; forget(b); at(&a, q, of(&ea, q) + of(&eb, q)); forget(a) };
    k02_counted, 6, |s| {
        let x = keys::<2>(s); let y = keys::<2>(s); let q = key(s);
        let a: C = Counter::from_iter(x.iter()); let b: C<H2> = Counter::from_iter(y.iter());
        let c = a + b;
        at(&c, q, occ(&x, q) + occ(&y, q));
        forget(c)
    };
}
harnesses! { reg_k02t, "K02t";
    k02_t_add, 7, |s| { added::<3, 3>(s, 0) };
    k02_t_add_ref, 7, |s| { added::<3, 3>(s, 1) };
    k02_t_assign, 7, |s| { added::<3, 3>(s, 2) };
    k02_t_assign_ref, 7, |s| { added::<3, 3>(s, 3) };
    k02_t_swap, 7, |s| { let (a, _) = mk::<H1, 2>(s); let (b, _) = mk::<H1, 2>(s); let x = a.clone() + &b; let y = b + a; let q = key(s); assert!(got(&x, q) == got(&y, q) && x.len() == y.len(), "addition commutes"); forget(x); forget(y) };
}
/// a count of 0, which can be put in through the map view, takes nothing away
fn zero_rhs(s: &mut S, form: u8) {
    let (mut a, ea) = mk::<H1, 2>(s);
    let mut b: C<H2> = Counter::new();
    b.insert(key(s), 0);
    let q = key(s);
    match form { 0 => a = a - b, 1 => { a = a - &b; forget(b) } 2 => a -= b, _ => { a -= &b; forget(b) } }
    at(&a, q, of(&ea, q));
    assert!(a.len() == ea.1, "no entry goes");
    forget(a);
}
harnesses! { reg_k03, "K03";
    k03_sub, 5, |s| { subtracted::<2, 2>(s, 0) };
    k03_sub_ref, 5, |s| { subtracted::<2, 2>(s, 1) };
    k03_assign, 5, |s| { subtracted::<2, 2>(s, 2) };
    k03_assign_ref, 5, |s| { subtracted::<2, 2>(s, 3) };
    k03_same_hasher, 5, |s| { let (a, ea) = mk::<H1, 2>(s); let (b, eb) = mk::<H1, 1>(s); let q = key(s); let a = a - b; at(&a, q, of(&ea, q).saturating_sub(of(&eb, q))); forget(a) };
    k03_same_hasher_assign, 5, |s| { let (mut a, ea) = mk::<H1, 2>(s); let (b, eb) = mk::<H1, 1>(s); let q = key(s); a -= &b; forget(b); at(&a, q, of(&ea, q).saturating_sub(of(&eb, q))); forget(a) };
    k03_zero_rhs, 5, |s| { zero_rhs(s, 0) };
    k03_zero_rhs_ref, 5, |s| { zero_rhs(s, 1) };
    k03_zero_rhs_assign, 5, |s| { zero_rhs(s, 2) };
    k03_zero_rhs_assign_ref, 5, |s| { zero_rhs(s, 3) };
}
harnesses! { reg_k03t, "K03t";
    k03_t_sub, 7, |s| { subtracted::<3, 3>(s, 0) };
    k03_t_sub_ref, 7, |s| { subtracted::<3, 3>(s, 1) };
    k03_t_assign, 7, |s| { subtracted::<3, 3>(s, 2) };
    k03_t_assign_ref, 7, |s| { subtracted::<3, 3>(s, 3) };
    k03_t_back, 7, |s| { let (a, ea) = mk::<H1, 2>(s); let (b, _) = mk::<H2, 2>(s); let q = key(s); let c = a + &b - b; same(&c, &ea, q); forget(c) };
}

// -- K04 ---------------------------------------------------------------------------------------
/// the number of entries is fixed: std's sort is only within reach when its length is known
fn common<const N: usize>(s: &mut S, consuming: bool) {
    let mut a = [(0u8, 0usize); N];
    for i in 0..N { a[i] = (key(s), s.usize()); for j in 0..i { s.assume(a[j].0 != a[i].0) } }
    let c: C = Counter::from_hashmap(map_with(a, N));
    witness!(N < 2 || a[0].1 == a[N - 1].1, "witness: equal counts");
    let v = if consuming { c.into_most_common() } else {
        let v = c.most_common();
        let q = key(s);
        exact(&c, &(a, N), q);
        forget(c);
        v
    };
    assert!(v.len() == N, "every entry exactly once");
    for i in 0..N {
        assert!(opt(&(a, N), v[i].0) == Some(v[i].1), "with its count");
        for j in 0..i { assert!(v[j].0 != v[i].0, "no entry twice"); }
        if i > 0 { assert!(v[i - 1].1 >= v[i].1, "most common first"); }
    }
    forget(v);
}
harnesses! { reg_k04, "K04";
    k04_into_0, 5, |s| { common::<0>(s, true) };
    k04_into_1, 5, |s| { common::<1>(s, true) };
    k04_into_2, 5, |s| { common::<2>(s, true) };
    k04_into_3, 5, |s| { common::<3>(s, true) };
    k04_ref_0, 5, |s| { common::<0>(s, false) };
    k04_ref_1, 5, |s| { common::<1>(s, false) };
    k04_ref_2, 5, |s| { common::<2>(s, false) };
    k04_ref_3, 5, |s| { common::<3>(s, false) };
}
/// many entries (a longer sort takes other ways), one of them with an arbitrary count
fn many<const N: usize>(s: &mut S, consuming: bool, most: usize) {
    let mut a = [(0u8, 0usize); N];
    for i in 0..N { a[i] = (i as u8, (i * 7 + 3) % N * 3 / 2) }
    let x = if most == 0 { s.usize() } else { s.below(most) };
    a[N / 2].1 = x;
    let c: C = Counter::from_hashmap(map_with(a, N));
    let v = if consuming { c.into_most_common() } else { let v = c.most_common(); forget(c); v };
    assert!(v.len() == N, "every entry exactly once");
    let q = s.below(N);
    let mut seen = 0;
    for i in 0..N {
        if v[i].0 as usize == q { seen += 1; assert!(v[i].1 == if q == N / 2 { x } else { (q * 7 + 3) % N * 3 / 2 }, "with its count") }
        if i > 0 { assert!(v[i - 1].1 >= v[i].1, "most common first"); }
    }
    assert!(seen == 1, "no entry twice");
    forget(v);
}
harnesses! { reg_k04b, "K04b";
    k04_b_into, 22, |s| { many::<20>(s, true, 0) };
    k04_b_ref, 22, |s| { many::<20>(s, false, 0) };
}
harnesses! { reg_k04c, "K04c";
    k04_c_into, 26, |s| { many::<24>(s, true, 40) };
    k04_c_ref, 26, |s| { many::<24>(s, false, 40) };
}
harnesses! { reg_k04t, "K04t";
    k04_t_into_4, 6, |s| { common::<4>(s, true) };
    k04_t_into_5, 7, |s| { common::<5>(s, true) };
    k04_t_ref_4, 6, |s| { common::<4>(s, false) };
    k04_t_ref_5, 7, |s| { common::<5>(s, false) };
}

// -- K05 ---------------------------------------------------------------------------------------
/// each entry of e is in the counter and nothing else
fn holds<B: BuildHasher, const N: usize>(s: &mut S, c: &C<B>, e: &([E; N], usize)) {
    let q = key(s);
    exact(c, e, q);
}
fn exact<B: BuildHasher, const N: usize>(c: &C<B>, e: &([E; N], usize), q: u8) {
    assert!(c.get(&q).copied() == opt(e, q), "the same entries with the same counts");
    assert!(c.contains_key(&q) == opt(e, q).is_some(), "and nothing else");
    assert!(c.len() == e.1, "as many entries as before");
}
/// what an iterator yields, checked against e
struct Seen<const N: usize> { n: usize, k: [u8; N] }
impl<const N: usize> Seen<N> {
    fn new() -> Self { Seen { n: 0, k: [255; N] } }
    fn see(&mut self, e: &([E; N], usize), k: u8, v: usize) {
        assert!(opt(e, k) == Some(v), "an entry with its count");
        for j in 0..N { assert!(j >= self.n || self.k[j] != k, "no entry twice"); }
        assert!(self.n < N, "not more entries than there are");
        self.k[self.n] = k;
        self.n += 1;
    }
    fn end(&self, e: &([E; N], usize)) { assert!(self.n == e.1, "every entry"); }
}
harnesses! { reg_k05, "K05";
    k05_from_hashmap, 5, |s| { let (c, e) = mk0::<H1, 2>(s); holds(s, &c, &e); forget(c) };
    k05_from_value, 5, |s| { let e = entries0::<2>(s); let m: HashMap<u8, usize, H2> = map_of(&e); let c: C = Counter::from(m); holds(s, &c, &e); forget(c) };
    k05_from_ref, 5, |s| { let e = entries0::<2>(s); let m: HashMap<u8, usize, H2> = map_of(&e); let c: C = Counter::from(&m); holds(s, &c, &e); let q = key(s); assert!(m.len() == e.1 && m.get(&q).copied() == opt(&e, q), "the map is unchanged"); forget(m); forget(c) };
    k05_from_same, 5, |s| { let e = entries0::<2>(s); let m: HashMap<u8, usize, H1> = map_of(&e); let c: C = if s.bool() { Counter::from(&m) } else { Counter::from(m.clone()) }; holds(s, &c, &e); forget(m); forget(c) };
    k05_iter_value, 5, |s| { let (c, e) = mk0::<H1, 3>(s); let mut w = Seen::<3>::new(); let mut i = c.into_iter(); while let Some((k, v)) = i.next() { w.see(&e, k, v) } w.end(&e); forget(i) };
    k05_iter_ref, 5, |s| { let (c, e) = mk0::<H1, 3>(s); let mut w = Seen::<3>::new(); for (k, v) in &c { w.see(&e, *k, *v) } w.end(&e); holds(s, &c, &e); forget(c) };
    k05_iter_mut, 5, |s| {
        let (mut c, e) = mk0::<H1, 3>(s); let mut w = Seen::<3>::new(); let x = key(s); let n = count(s);
        for (k, v) in &mut c { w.see(&e, *k, *v); if *k == x { *v = n } }
        w.end(&e);
        let q = key(s);
        assert!(c.get(&q).copied() == if opt(&e, q).is_some() && q == x { Some(n) } else { opt(&e, q) } && c.len() == e.1, "a change is seen");
        forget(c)
    };
    k05_deref, 5, |s| { let (c, e) = mk0::<H1, 2>(s); let m: &HashMap<u8, usize, H1> = &c; let q = key(s); assert!(m.len() == e.1 && m.get(&q).copied() == opt(&e, q) && m.is_empty() == (e.1 == 0), "viewed as a map"); forget(c) };
    k05_deref_mut, 5, |s| {
        let (mut c, e) = mk0::<H1, 2>(s); let (x, n, q) = (key(s), count(s), key(s)); 
        { let m: &mut HashMap<u8, usize, H1> = &mut c; m.insert(x, n); }
        assert!(c.get(&q).copied() == if q == x { Some(n) } else { opt(&e, q) }, "a change is seen");
        c.push(x);
        assert!(c.get(&q).copied() == if q == x { Some(n + 1) } else { opt(&e, q) }, "a change is seen");
        forget(c)
    };
    k05_remove, 5, |s| {
        let (mut c, e) = mk0::<H1, 2>(s); let (x, y, q) = (key(s), key(s), key(s));
        let r = c.remove(&x);
        assert!(r == opt(&e, x), "what was removed");
        c.push(y);
        let was = if q == x { None } else { opt(&e, q) };
        assert!(c.get(&q).copied() == if q == y { Some(was.unwrap_or(0) + 1) } else { was }, "pushed");
        forget(c)
    };
    k05_round_trip, 5, |s| { let (c, e) = mk0::<H1, 2>(s); let m: HashMap<u8, usize, H2> = c.into_iter().collect(); let d: C<H2> = Counter::from_hashmap(m); holds(s, &d, &e); forget(d) };
    k05_clear, 5, |s| { let (mut c, _) = mk0::<H1, 2>(s); c.clear(); let (x, q) = (key(s), key(s)); assert!(c.is_empty() && c.len() == 0, "cleared through the map view"); c.push(x); at(&c, q, (x == q) as usize); forget(c) };
}
harnesses! { reg_k05t, "K05t";
    k05_t_from_value, 7, |s| { let e = entries0::<4>(s); let m: HashMap<u8, usize, H2> = map_of(&e); let c: C = Counter::from(m); holds(s, &c, &e); forget(c) };
    k05_t_from_ref, 7, |s| { let e = entries0::<4>(s); let m: HashMap<u8, usize, H2> = map_of(&e); let c: C = Counter::from(&m); holds(s, &c, &e); forget(m); forget(c) };
    k05_t_iter_ref, 7, |s| { let (c, e) = mk0::<H1, 4>(s); let mut w = Seen::<4>::new(); for (k, v) in &c { w.see(&e, *k, *v) } w.end(&e); holds(s, &c, &e); forget(c) };
    k05_t_iter_value, 7, |s| { let (c, e) = mk0::<H1, 4>(s); let mut w = Seen::<4>::new(); let mut i = c.into_iter(); while let Some((k, v)) = i.next() { w.see(&e, k, v) } w.end(&e); forget(i) };
}

// -- K06 ---------------------------------------------------------------------------------------
fn equal_maps<const N: usize, const M: usize>(a: &([E; N], usize), b: &([E; M], usize)) -> bool {
    if a.1 != b.1 { return false }
    for i in 0..N { if i < a.1 && opt(b, a.0[i].0) != Some(a.0[i].1) { return false } }
    true
}
harnesses! { reg_k06, "K06";
    k06_eq, 5, |s| { let (a, ea) = mk0::<H1, 2>(s); let (b, eb) = mk0::<H1, 2>(s); let w = equal_maps(&ea, &eb); assert!((a == b) == w && (b == a) == w && (a != b) == !w, "equal exactly when the entries are"); witness!(w && ea.1 == 2, "witness: two entries, equal"); forget(a); forget(b) };
    k06_order, 5, |s| {
        let (x, y) = (key(s), key(s));
        let mut a: C = Counter::new(); let mut b: C = Counter::with_capacity(9);
        a.push(x); a.push(y); b.push(y); b.push(x);
        assert!(a == b, "the order of pushing does not matter, nor the capacity");
        b.push(x);
        assert!(a != b, "a count matters");
        forget(a); forget(b)
    };
    k06_removed, 5, |s| { let (a, ea) = mk0::<H1, 2>(s); let mut b = a.clone(); let x = key(s); b.push(x); assert!(a != b, "a count matters"); if opt(&ea, x).is_none() { b.remove(&x); assert!(a == b, "only entries matter, not what was there once"); } forget(a); forget(b) };
    k06_clone, 5, |s| {
        let (a, ea) = mk0::<H1, 2>(s); let mut b = a.clone();
        assert!(a == b, "a clone is equal");
        let (x, q) = (key(s), key(s));
        b.push(x);
        exact(&a, &ea, q);
        assert!(b.get(&q).copied() == if q == x { Some(of(&ea, q) + 1) } else { opt(&ea, q) }, "the clone changes");
        forget(a); forget(b)
    };
    k06_clone_original, 5, |s| {
        let (mut a, ea) = mk0::<H1, 2>(s); let b = a.clone();
        let (x, q) = (key(s), key(s));
        match s.below(3) { 0 => a.push(x), 1 => a.clear(), _ => { a.remove(&x); } }
        exact(&b, &ea, q);
        forget(a); forget(b)
    };
    k06_clone_from, 5, |s| { let (mut a, _) = mk0::<H1, 1>(s); let (b, eb) = mk0::<H1, 2>(s); a.clone_from(&b); assert!(a == b, "clone_from"); let q = key(s); exact(&a, &eb, q); forget(a); forget(b) };
}
harnesses! { reg_k06t, "K06t";
    k06_t_eq, 6, |s| { let (a, ea) = mk0::<H1, 3>(s); let (b, eb) = mk0::<H1, 3>(s); let w = equal_maps(&ea, &eb); assert!((a == b) == w && (b == a) == w, "equal exactly when the entries are"); forget(a); forget(b) };
    k06_t_filled, 7, |s| { let x = keys::<3>(s); let y = keys::<3>(s); let a: C = Counter::from_iter(x.iter()); let b: C = Counter::from_iter(y.iter()); let mut w = true; for q in 0..5 { if occ(&x, q) != occ(&y, q) { w = false } } assert!((a == b) == w, "equal exactly when filled with the same elements"); forget(a); forget(b) };
}
