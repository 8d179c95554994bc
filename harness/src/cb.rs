//! Circular buffer harnesses (properties C01..C12).
use advanced_collections::circular_buffer::CircularBuffer;
use crate::s::*;
use std::cmp::Ordering;
use std::iter::FromIterator;

type CB = CircularBuffer<u8>;
const W: usize = 20;

/// The sequence that a buffer shows.
#[derive(Clone, Copy)]
struct Seq { a: [u8; W], n: usize }
impl Seq {
    fn new() -> Seq { Seq { a: [0; W], n: 0 } }
    fn add(&mut self, v: u8) { self.a[self.n] = v; self.n += 1; }
    /// drops the first k
    fn skip(&self, k: usize, max: usize) -> Seq {
        let mut r = Seq::new();
        for i in 0..max { if i + k < self.n { r.a[i] = self.a[i + k]; } }
        r.n = self.n - k;
        r
    }
    /// the last min(n, k)
    fn last(&self, k: usize, max: usize) -> Seq { if self.n > k { self.skip(self.n - k, max) } else { *self } }
    fn push_back(&mut self, v: u8, cap: usize) {
        if cap == 0 { return; }
        if self.n == cap { *self = self.skip(1, cap); }
        self.add(v);
    }
    fn push_front(&mut self, v: u8, cap: usize) {
        if cap == 0 { return; }
        if self.n == cap { self.n -= 1; }
        for i in (0..cap).rev() { if i < self.n { self.a[i + 1] = self.a[i]; } }
        self.a[0] = v;
        self.n += 1;
    }
    fn pop_front(&mut self, cap: usize) -> Option<u8> {
        if self.n == 0 { return None; }
        let v = self.a[0];
        *self = self.skip(1, cap);
        Some(v)
    }
    fn pop_back(&mut self) -> Option<u8> { if self.n == 0 { None } else { self.n -= 1; Some(self.a[self.n]) } }
}

/// An arbitrary reachable buffer of capacity `cap`: any position of the first element in the
/// storage, any length, any content.
fn mk(s: &mut S, cap: usize) -> CB {
    let mut c = CB::new(cap);
    let rot = s.below(cap + 1);
    for i in 0..cap { if i < rot { c.push_back(0); c.pop_front(); } }
    let n = s.below(cap + 1);
    for i in 0..cap { if i < n { let v = s.u8(); c.push_back(v); } }
    c
}
/// The same with a given position of the first element and a given length (any content).
fn mk_at(s: &mut S, cap: usize, rot: usize, n: usize) -> CB {
    let mut c = CB::new(cap);
    for _ in 0..rot { c.push_back(0); c.pop_front(); }
    for _ in 0..n { let v = s.u8(); c.push_back(v); }
    c
}
/// Ends a harness without running destructors (those are the subject of C03 only).
fn fin<T>(t: T) { std::mem::forget(t) }
/// What the buffer shows by indexing.
fn snap(c: &CB, cap: usize) -> Seq {
    let mut m = Seq::new();
    let n = c.len();
    assert!(n <= cap, "length exceeds capacity");
    for i in 0..cap { if i < n { m.a[i] = c[i]; } }
    m.n = n;
    m
}
fn same(c: &CB, m: &Seq, max: usize) {
    assert!(c.len() == m.n, "length");
    for i in 0..max { if i < m.n { assert!(c[i] == m.a[i], "element"); } }
}
fn same_slice(c: &[u8], m: &Seq, max: usize) {
    assert!(c.len() == m.n, "slice length");
    for i in 0..max { if i < m.n { assert!(c[i] == m.a[i], "slice element"); } }
}
/// After any operation the buffer still works as a queue of capacity `cap` that holds `m`.
fn usable(s: &mut S, c: &mut CB, m: &Seq, cap: usize) {
    same(c, m, cap);
    assert!(c.capacity() == cap, "capacity");
    let mut m = *m;
    let (v, w) = (s.u8(), s.u8());
    if s.bool() {
        c.push_back(v);
        m.push_back(v, cap);
    } else {
        c.push_front(v);
        m.push_front(v, cap);
    }
    same(c, &m, cap);
    c.push_back(w);
    m.push_back(w, cap);
    assert!(c.pop_front() == m.pop_front(cap), "pop_front afterwards");
    same(c, &m, cap);
}

/// Storage of more places than eight bits count.
const LARGE: usize = 258;
/// seven elements in large storage, wrapped around its end
fn wide(s: &mut S) -> (CB, [u8; 7]) {
    let a = [s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8()];
    let mut c = CB::new(LARGE);
    c.push_front(a[2]);
    c.push_front(a[1]);
    c.push_front(a[0]);
    c.push_back(a[3]);
    c.push_back(a[4]);
    c.push_back(a[5]);
    c.push_back(a[6]);
    (c, a)
}
/// many elements, wrapped: element k is (k + 3) ^ v
fn long(s: &mut S) -> (CircularBuffer<u16>, u16) {
    let v = s.u8() as u16;
    let mut c: CircularBuffer<u16> = CircularBuffer::from_iter((0..LARGE as u16).map(|i| i ^ v));
    for i in 0..3 { c.push_back((LARGE as u16 + i) ^ v) }
    (c, v)
}

// C01 ---------------------------------------------------------------------------------------

fn deque_op(s: &mut S, c: &mut CB, m: &mut Seq, cap: usize) {
    match s.below(5) {
        0 => { let v = s.u8(); c.push_back(v); m.push_back(v, cap); }
        1 => { let v = s.u8(); c.push_front(v); m.push_front(v, cap); }
        2 => assert!(c.pop_back() == m.pop_back(), "pop_back"),
        3 => assert!(c.pop_front() == m.pop_front(cap), "pop_front"),
        _ => { c.clear(); m.n = 0; }
    }
}
fn step(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let mut m = snap(&c, cap);
    deque_op(s, &mut c, &mut m, cap);
    same(&c, &m, cap);
    fin(c);
}
/// one operation at every arrangement of `n` elements, one after another
fn grid(s: &mut S, cap: usize, n: usize) {
    for rot in 0..cap + 1 {
        let mut c = mk_at(s, cap, rot, n);
        let mut m = snap(&c, cap);
        deque_op(s, &mut c, &mut m, cap);
        same(&c, &m, cap);
        fin(c);
    }
}
fn step2(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let mut m = snap(&c, cap);
    deque_op(s, &mut c, &mut m, cap);
    deque_op(s, &mut c, &mut m, cap);
    same(&c, &m, cap);
    fin(c);
}
fn hist(s: &mut S, cap: usize, k: usize) {
    let mut c = CB::new(cap);
    let mut m = Seq::new();
    for _ in 0..k {
        deque_op(s, &mut c, &mut m, cap);
        same(&c, &m, cap);
    }
    fin(c);
}

/// mixes single operations with bulk ones
fn mixed(s: &mut S, cap: usize, k: usize) {
    let mut c = CB::new(cap);
    let mut m = Seq::new();
    for _ in 0..k {
        match s.below(4) {
            0 => { let (v, w) = (s.u8(), s.u8()); c.extend([v, w]); m.push_back(v, cap); m.push_back(w, cap); }
            1 => { let v = s.u8(); c.push_front(v); m.push_front(v, cap); }
            2 => assert!(c.drain().next() == m.pop_front(cap), "drain one"),
            _ => { c.reverse(); let o = m; for i in 0..cap { if i < o.n { m.a[i] = o.a[o.n - 1 - i]; } } }
        }
        same(&c, &m, cap);
    }
    fin(c);
}
harnesses! { reg_c01, "C01";
    c01_wide, 262, |s| {
        let (mut c, a) = wide(s);
        let k = s.below(7);
        assert!(c.len() == 7 && c[k] == a[k], "element");
        assert!(c.pop_front() == Some(a[0]) && c.pop_back() == Some(a[6]) && c.pop_front() == Some(a[1]), "popped");
        fin(c);
    };
    c01_long, 262, |s| {
        let (mut c, v) = long(s);
        let k = s.below(LARGE);
        assert!(c.len() == LARGE && c[k] == (k as u16 + 3) ^ v, "element");
        c.push_front(2 ^ v);
        assert!(c.len() == LARGE && c[k] == (k as u16 + 2) ^ v, "element");
        assert!(c.pop_front() == Some(2 ^ v) && c.pop_back() == Some(259 ^ v), "popped");
        fin(c);
    };
    c01_grid_1_0, 5, |s| grid(s, 1, 0);
    c01_grid_1_1, 5, |s| grid(s, 1, 1);
    c01_grid_2_0, 6, |s| grid(s, 2, 0);
    c01_grid_2_1, 6, |s| grid(s, 2, 1);
    c01_grid_2_2, 6, |s| grid(s, 2, 2);
    c01_grid_3_0, 7, |s| grid(s, 3, 0);
    c01_grid_3_1, 7, |s| grid(s, 3, 1);
    c01_grid_3_2, 7, |s| grid(s, 3, 2);
    c01_grid_3_3, 7, |s| grid(s, 3, 3);
    c01_step_0, 5, |s| step(s, 0);
    c01_step_1, 5, |s| step(s, 1);
    c01_step_2, 6, |s| step(s, 2);
    c01_step_3, 7, |s| step(s, 3);
    c01_step_4, 8, |s| step(s, 4);
    c01_step_5, 9, |s| step(s, 5);
    c01_step2_1, 6, |s| step2(s, 1);
    c01_step2_2, 6, |s| step2(s, 2);
    c01_step2_3, 7, |s| step2(s, 3);
    c01_hist_1, 6, |s| hist(s, 1, 4);
    c01_hist_2, 6, |s| hist(s, 2, 4);
    c01_hist_3, 7, |s| hist(s, 3, 4);
    c01_mixed_2, 6, |s| mixed(s, 2, 3);
}
harnesses! { reg_c01t, "C01t";
    c01t_grid_4_0, 8, |s| grid(s, 4, 0);
    c01t_grid_4_1, 8, |s| grid(s, 4, 1);
    c01t_grid_4_2, 8, |s| grid(s, 4, 2);
    c01t_grid_4_3, 8, |s| grid(s, 4, 3);
    c01t_grid_4_4, 8, |s| grid(s, 4, 4);
    c01t_grid_5_0, 9, |s| grid(s, 5, 0);
    c01t_grid_5_1, 9, |s| grid(s, 5, 1);
    c01t_grid_5_2, 9, |s| grid(s, 5, 2);
    c01t_grid_5_3, 9, |s| grid(s, 5, 3);
    c01t_grid_5_4, 9, |s| grid(s, 5, 4);
    c01t_grid_5_5, 9, |s| grid(s, 5, 5);
    c01t_step_6, 10, |s| step(s, 6);
    c01t_step_8, 12, |s| step(s, 8);
    c01t_step_12, 16, |s| step(s, 12);
    c01t_step2_4, 8, |s| step2(s, 4);
    c01t_hist_1, 9, |s| hist(s, 1, 7);
    c01t_hist_2, 9, |s| hist(s, 2, 6);
    c01t_hist_3, 9, |s| hist(s, 3, 6);
    c01t_hist_4, 9, |s| hist(s, 4, 6);
    c01t_mixed_2, 6, |s| mixed(s, 2, 4);
    c01t_mixed_3, 7, |s| mixed(s, 3, 3);
}

// C02 ---------------------------------------------------------------------------------------

fn consistent(c: &CB, n: usize, cap: usize) {
    assert!(c.len() == n, "len");
    assert!(c.capacity() == cap, "capacity");
    assert!(c.is_empty() == (n == 0), "is_empty");
    assert!(c.is_full() == (n == cap), "is_full");
}
/// the length is the number of elements that are there
fn c02_count(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let n = c.len();
    assert!(c.iter().count() == n, "number of elements iterated over");
    for i in 0..cap { assert!(c.pop_front().is_some() == (i < n), "number of elements popped"); }
    assert!(c.pop_front().is_none(), "number of elements popped");
    consistent(&c, 0, cap);
    fin(c);
}
fn c02_new(_: &mut S, cap: usize) {
    let c = CB::new(cap);
    consistent(&c, 0, cap);
    let c = CB::with_capacity(cap);
    consistent(&c, 0, cap);
}
fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
fn c02_op(s: &mut S, c: &mut CB, n: usize, cap: usize) -> usize {
    match s.below(5) {
        0 => { let v = s.u8(); c.push_back(v); min(n + 1, cap) }
        1 => { let v = s.u8(); c.push_front(v); min(n + 1, cap) }
        2 => { assert!(c.pop_back().is_some() == (n > 0)); n.saturating_sub(1) }
        3 => { assert!(c.pop_front().is_some() == (n > 0)); n.saturating_sub(1) }
        _ => { c.clear(); 0 }
    }
}
fn c02_bulk_op(s: &mut S, c: &mut CB, n: usize, cap: usize) -> usize {
    match s.below(5) {
        0 => { c.reverse(); n }
        1 => { let v = s.u8(); c.extend([v, v]); min(n + 2, cap) }
        2 => { if n > 0 { let i = s.below(cap); let j = s.below(cap); if i < n && j < n { c.swap(i, j); } } n }
        3 => { if let Some(f) = c.first_mut() { *f = 1; } if let Some(f) = c.last_mut() { *f = 2; } n }
        _ => { let mut d = c.drain(); d.next(); d.next(); n.saturating_sub(2) }
    }
}
fn c02_step(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let n = c.len();
    consistent(&c, n, cap);
    let n = c02_op(s, &mut c, n, cap);
    consistent(&c, n, cap);
    fin(c);
}
fn c02_bulk(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let n = c.len();
    let n = c02_bulk_op(s, &mut c, n, cap);
    consistent(&c, n, cap);
    let n = c02_op(s, &mut c, n, cap);
    consistent(&c, n, cap);
    fin(c);
}
fn c02_hist(s: &mut S, cap: usize, k: usize) {
    let mut c = CB::new(cap);
    let mut n = 0;
    for _ in 0..k {
        n = if s.bool() { c02_op(s, &mut c, n, cap) } else { c02_bulk_op(s, &mut c, n, cap) };
        consistent(&c, n, cap);
    }
    fin(c);
}
fn c02_lin(s: &mut S, cap: usize, rot: usize, n: usize) {
    let mut c = mk_at(s, cap, rot, n);
    assert!(c.linearize().len() == n, "length of the slice");
    consistent(&c, n, cap);
    let n = c02_op(s, &mut c, n, cap);
    consistent(&c, n, cap);
    fin(c);
}
fn c02_resize(s: &mut S, cap: usize, rot: usize, n: usize, to: usize) {
    let mut c = mk_at(s, cap, rot, n);
    c.resize(to);
    let n = min(n, to);
    consistent(&c, n, to);
    let n = c02_op(s, &mut c, n, to);
    consistent(&c, n, to);
    fin(c);
}
fn c02_append(s: &mut S, cap: usize, cap2: usize) {
    let mut c = mk(s, cap);
    let mut d = mk(s, cap2);
    let (n, n2) = (c.len(), d.len());
    c.append(&mut d);
    consistent(&c, min(n + n2, cap), cap);
    consistent(&d, 0, cap2);
    fin(c); fin(d);
}
fn c02_from(s: &mut S, n: usize, how: usize) {
    let a = [s.u8(), s.u8(), s.u8(), s.u8()];
    let mut c = match how {
        0 => CB::from(a[..n].to_vec()),
        1 => CB::from_iter(a[..n].iter()),
        _ => CB::from_iter(Odd { a, i: 0, n, hint: (0, None) }),
    };
    consistent(&c, n, n);
    let m = c02_op(s, &mut c, n, n);
    consistent(&c, m, n);
    fin(c);
}
fn c02_clone(s: &mut S, cap: usize) {
    let c = mk(s, cap);
    let n = c.len();
    let d = c.clone();
    consistent(&d, n, cap);
    consistent(&c, n, cap);
    fin(c); fin(d);
}
harnesses! { reg_c02, "C02";
    c02_wide, 262, |s| { let (mut c, _) = wide(s); assert!(c.len() == 7 && c.capacity() == LARGE && !c.is_full() && !c.is_empty(), "length"); c.pop_front(); c.pop_back(); assert!(c.len() == 5, "length"); fin(c) };
    c02_long, 262, |s| { let (mut c, _) = long(s); assert!(c.len() == LARGE && c.capacity() == LARGE && c.is_full() && !c.is_empty(), "length"); c.pop_front(); assert!(c.len() == LARGE - 1 && !c.is_full(), "length"); fin(c) };
    c02_lin_1_0, 5, |s| for r in 0..2 { c02_lin(s, 1, r, 0) };
    c02_lin_1_1, 5, |s| for r in 0..2 { c02_lin(s, 1, r, 1) };
    c02_lin_2_0, 6, |s| for r in 0..3 { c02_lin(s, 2, r, 0) };
    c02_lin_2_1, 6, |s| for r in 0..3 { c02_lin(s, 2, r, 1) };
    c02_lin_2_2, 6, |s| for r in 0..3 { c02_lin(s, 2, r, 2) };
    c02_lin_3_2, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 2) };
    c02_lin_3_3, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 3) };
    c02_resize_0_0_0, 4, |s| for r in 0..1 { c02_resize(s, 0, r, 0, 0) };
    c02_resize_0_0_1, 5, |s| for r in 0..1 { c02_resize(s, 0, r, 0, 1) };
    c02_resize_0_0_2, 6, |s| for r in 0..1 { c02_resize(s, 0, r, 0, 2) };
    c02_resize_1_0_0, 5, |s| for r in 0..2 { c02_resize(s, 1, r, 0, 0) };
    c02_resize_1_0_1, 5, |s| for r in 0..2 { c02_resize(s, 1, r, 0, 1) };
    c02_resize_1_0_2, 6, |s| for r in 0..2 { c02_resize(s, 1, r, 0, 2) };
    c02_resize_1_1_0, 5, |s| for r in 0..2 { c02_resize(s, 1, r, 1, 0) };
    c02_resize_1_1_1, 5, |s| for r in 0..2 { c02_resize(s, 1, r, 1, 1) };
    c02_resize_1_1_2, 6, |s| for r in 0..2 { c02_resize(s, 1, r, 1, 2) };
    c02_resize_2_0_1, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 0, 1) };
    c02_resize_2_0_2, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 0, 2) };
    c02_resize_2_0_3, 7, |s| for r in 0..3 { c02_resize(s, 2, r, 0, 3) };
    c02_resize_2_1_1, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 1, 1) };
    c02_resize_2_1_2, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 1, 2) };
    c02_resize_2_1_3, 7, |s| for r in 0..3 { c02_resize(s, 2, r, 1, 3) };
    c02_resize_2_2_1, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 2, 1) };
    c02_resize_2_2_2, 6, |s| for r in 0..3 { c02_resize(s, 2, r, 2, 2) };
    c02_resize_2_2_3, 7, |s| for r in 0..3 { c02_resize(s, 2, r, 2, 3) };
    c02_resize_3_3_2, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 2) };
    c02_new_0, 4, |s| c02_new(s, 0);
    c02_new_1, 5, |s| c02_new(s, 1);
    c02_new_4, 8, |s| c02_new(s, 4);
    c02_new_7, 11, |s| c02_new(s, 7);
    c02_step_0, 5, |s| c02_step(s, 0);
    c02_step_1, 5, |s| c02_step(s, 1);
    c02_step_2, 6, |s| c02_step(s, 2);
    c02_step_3, 7, |s| c02_step(s, 3);
    c02_step_4, 8, |s| c02_step(s, 4);
    c02_bulk_0, 5, |s| c02_bulk(s, 0);
    c02_bulk_1, 5, |s| c02_bulk(s, 1);
    c02_bulk_2, 6, |s| c02_bulk(s, 2);
    c02_bulk_3, 7, |s| c02_bulk(s, 3);
    c02_count_0, 5, |s| c02_count(s, 0);
    c02_count_1, 5, |s| c02_count(s, 1);
    c02_count_2, 6, |s| c02_count(s, 2);
    c02_count_3, 7, |s| c02_count(s, 3);
    c02_hist_2, 6, |s| c02_hist(s, 2, 3);
    c02_append_0_2, 6, |s| c02_append(s, 0, 2);
    c02_append_2_2, 6, |s| c02_append(s, 2, 2);
    c02_append_2_0, 6, |s| c02_append(s, 2, 0);
    c02_append_1_2, 6, |s| c02_append(s, 1, 2);
    c02_from_0_0, 5, |s| c02_from(s, 0, 0);
    c02_from_0_1, 5, |s| c02_from(s, 0, 1);
    c02_from_0_2, 5, |s| c02_from(s, 0, 2);
    c02_from_1_0, 5, |s| c02_from(s, 1, 0);
    c02_from_2_1, 6, |s| c02_from(s, 2, 1);
    c02_from_3_0, 7, |s| c02_from(s, 3, 0);
    c02_from_3_2, 7, |s| c02_from(s, 3, 2);
    c02_clone_2, 6, |s| c02_clone(s, 2);
}
harnesses! { reg_c02t, "C02t";
    c02t_lin_3_0, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 0) };
    c02t_lin_3_1, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 1) };
    c02t_lin_3_2, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 2) };
    c02t_lin_3_3, 7, |s| for r in 0..4 { c02_lin(s, 3, r, 3) };
    c02t_lin_4_0, 8, |s| for r in 0..5 { c02_lin(s, 4, r, 0) };
    c02t_lin_4_1, 8, |s| for r in 0..5 { c02_lin(s, 4, r, 1) };
    c02t_lin_4_2, 8, |s| for r in 0..5 { c02_lin(s, 4, r, 2) };
    c02t_lin_4_3, 8, |s| for r in 0..5 { c02_lin(s, 4, r, 3) };
    c02t_lin_4_4, 8, |s| for r in 0..5 { c02_lin(s, 4, r, 4) };
    c02t_resize_3_0_0, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 0) };
    c02t_resize_3_0_1, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 1) };
    c02t_resize_3_0_2, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 2) };
    c02t_resize_3_0_3, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 3) };
    c02t_resize_3_0_4, 8, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 4) };
    c02t_resize_3_0_6, 10, |s| for r in 0..4 { c02_resize(s, 3, r, 0, 6) };
    c02t_resize_3_1_0, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 0) };
    c02t_resize_3_1_1, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 1) };
    c02t_resize_3_1_2, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 2) };
    c02t_resize_3_1_3, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 3) };
    c02t_resize_3_1_4, 8, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 4) };
    c02t_resize_3_1_6, 10, |s| for r in 0..4 { c02_resize(s, 3, r, 1, 6) };
    c02t_resize_3_2_0, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 0) };
    c02t_resize_3_2_1, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 1) };
    c02t_resize_3_2_2, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 2) };
    c02t_resize_3_2_3, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 3) };
    c02t_resize_3_2_4, 8, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 4) };
    c02t_resize_3_2_6, 10, |s| for r in 0..4 { c02_resize(s, 3, r, 2, 6) };
    c02t_resize_3_3_0, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 0) };
    c02t_resize_3_3_1, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 1) };
    c02t_resize_3_3_2, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 2) };
    c02t_resize_3_3_3, 7, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 3) };
    c02t_resize_3_3_4, 8, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 4) };
    c02t_resize_3_3_6, 10, |s| for r in 0..4 { c02_resize(s, 3, r, 3, 6) };
    c02t_resize_4_0_0, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 0) };
    c02t_resize_4_0_1, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 1) };
    c02t_resize_4_0_2, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 2) };
    c02t_resize_4_0_3, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 3) };
    c02t_resize_4_0_4, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 4) };
    c02t_resize_4_0_6, 10, |s| for r in 0..5 { c02_resize(s, 4, r, 0, 6) };
    c02t_resize_4_1_0, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 0) };
    c02t_resize_4_1_1, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 1) };
    c02t_resize_4_1_2, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 2) };
    c02t_resize_4_1_3, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 3) };
    c02t_resize_4_1_4, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 4) };
    c02t_resize_4_1_6, 10, |s| for r in 0..5 { c02_resize(s, 4, r, 1, 6) };
    c02t_resize_4_2_0, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 0) };
    c02t_resize_4_2_1, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 1) };
    c02t_resize_4_2_2, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 2) };
    c02t_resize_4_2_3, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 3) };
    c02t_resize_4_2_4, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 4) };
    c02t_resize_4_2_6, 10, |s| for r in 0..5 { c02_resize(s, 4, r, 2, 6) };
    c02t_resize_4_3_0, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 0) };
    c02t_resize_4_3_1, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 1) };
    c02t_resize_4_3_2, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 2) };
    c02t_resize_4_3_3, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 3) };
    c02t_resize_4_3_4, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 4) };
    c02t_resize_4_3_6, 10, |s| for r in 0..5 { c02_resize(s, 4, r, 3, 6) };
    c02t_resize_4_4_0, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 0) };
    c02t_resize_4_4_1, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 1) };
    c02t_resize_4_4_2, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 2) };
    c02t_resize_4_4_3, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 3) };
    c02t_resize_4_4_4, 8, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 4) };
    c02t_resize_4_4_6, 10, |s| for r in 0..5 { c02_resize(s, 4, r, 4, 6) };
    c02t_step_6, 10, |s| c02_step(s, 6);
    c02t_step_8, 12, |s| c02_step(s, 8);
    c02t_bulk_4, 8, |s| c02_bulk(s, 4);
    c02t_bulk_5, 9, |s| c02_bulk(s, 5);
    c02t_count_5, 9, |s| c02_count(s, 5);
    c02t_hist_1, 7, |s| c02_hist(s, 1, 5);
    c02t_hist_2, 7, |s| c02_hist(s, 2, 4);
    c02t_hist_3, 7, |s| c02_hist(s, 3, 4);
    c02t_append_3_3, 7, |s| c02_append(s, 3, 3);
    c02t_append_2_4, 8, |s| c02_append(s, 2, 4);
    c02t_from_4_0, 8, |s| c02_from(s, 4, 0);
    c02t_from_4_1, 8, |s| c02_from(s, 4, 1);
    c02t_from_4_2, 8, |s| c02_from(s, 4, 2);
}

/// An iterator whose size hint is the given one (possibly far too low, or without upper bound).
struct Odd { a: [u8; 4], i: usize, n: usize, hint: (usize, Option<usize>) }
impl Iterator for Odd {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { if self.i < self.n { self.i += 1; Some(self.a[self.i - 1]) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

// C03 ---------------------------------------------------------------------------------------

const NT: usize = 16;
// Kani 0.68 merges a constant of the program with a `static mut` that has the same initial bytes
// (then reads of the constant see what was written to the static), so the initial values, which
// tok_reset replaces, must be ones that occur nowhere else.
static mut DROPS: [u8; NT] = [0xA7; NT];
static mut CLONES: [u8; NT] = [0xB9; NT];
static mut MADE: usize = 0x5EED_C0DE_1357_9BDF;
/// A value that counts how often it is dropped (by id).
struct Tok(u8);
impl Drop for Tok { fn drop(&mut self) { unsafe { DROPS[self.0 as usize] += 1; } } }
fn tok_reset() { unsafe { DROPS = [0; NT]; CLONES = [0; NT]; MADE = 0; } }
fn tok() -> Tok { unsafe { MADE += 1; Tok((MADE - 1) as u8) } }
fn drops(i: u8) -> u8 { unsafe { DROPS[i as usize] } }
fn made() -> usize { unsafe { MADE } }
fn mk_tok(s: &mut S, cap: usize) -> CircularBuffer<Tok> {
    let mut c = CircularBuffer::new(cap);
    let rot = s.below(cap + 1);
    for i in 0..cap { if i < rot { c.push_back(tok()); drop(c.pop_front()); } }
    let n = s.below(cap + 1);
    for i in 0..cap { if i < n { c.push_back(tok()); } }
    c
}
/// takes a value that the buffer handed out
fn took(t: Option<Tok>) { if let Some(t) = t { assert!(drops(t.0) == 0, "a value handed out was already dropped"); } }
/// the stored elements are alive
fn alive(c: &CircularBuffer<Tok>, cap: usize) {
    let n = c.len();
    for i in 0..cap { if i < n { assert!(drops(c[i].0) == 0, "a stored element was dropped"); } }
}
/// every element made and not stored in the buffer has been dropped exactly once
fn others_gone(stored: usize, max: usize) {
    let mut d = 0;
    for i in 0..max { if i < made() { let k = drops(i as u8); assert!(k <= 1, "an element was dropped twice"); d += k as usize; } }
    assert!(d + stored == made(), "elements that are neither stored nor dropped, or dropped while stored");
}
fn all_gone(max: usize) {
    assert!(made() <= max);
    for i in 0..max { if i < made() { assert!(drops(i as u8) == 1, "every element is dropped exactly once"); } }
}
fn tok_op(s: &mut S, c: &mut CircularBuffer<Tok>) {
    match s.below(8) {
        0 => c.push_back(tok()),
        1 => c.push_front(tok()),
        2 => took(c.pop_back()),
        3 => took(c.pop_front()),
        4 => c.clear(),
        5 => { let mut d = c.drain(); took(d.next()); took(d.next()); }
        6 => c.reverse(),
        _ => { let (i, j) = (s.below(4), s.below(4)); let n = c.len(); if i < n && j < n { c.swap(i, j); } }
    }
}
fn mk_tok_at(cap: usize, rot: usize, n: usize) -> CircularBuffer<Tok> {
    let mut c = CircularBuffer::new(cap);
    for _ in 0..rot { c.push_back(tok()); drop(c.pop_front()); }
    for _ in 0..n { c.push_back(tok()); }
    c
}
fn c03_lin(s: &mut S, cap: usize, rot: usize, n: usize) {
    tok_reset();
    let mut c = mk_tok_at(cap, rot, n);
    assert!(c.linearize().len() == n);
    alive(&c, cap);
    others_gone(n, 2 * cap + 2);
    tok_op(s, &mut c);
    drop(c);
    all_gone(2 * cap + 2);
}
fn c03_step(s: &mut S, cap: usize) {
    tok_reset();
    let mut c = mk_tok(s, cap);
    tok_op(s, &mut c);
    alive(&c, cap);
    others_gone(c.len(), 2 * cap + 2);
    drop(c);
    all_gone(2 * cap + 2);
}
fn c03_hist(s: &mut S, cap: usize, k: usize) {
    tok_reset();
    let mut c = CircularBuffer::new(cap);
    for _ in 0..k { tok_op(s, &mut c); alive(&c, cap); others_gone(c.len(), k + 1); }
    drop(c);
    all_gone(k + 1);
}
fn c03_resize(s: &mut S, cap: usize, rot: usize, n: usize, to: usize) {
    tok_reset();
    let mut c = mk_tok_at(cap, rot, n);
    c.resize(to);
    alive(&c, to);
    others_gone(c.len(), 2 * cap + 2);
    if s.bool() { c.push_back(tok()); } else { c.push_front(tok()); }
    took(c.pop_front());
    drop(c);
    all_gone(2 * cap + 2);
}
fn c03_append(s: &mut S, cap: usize, cap2: usize) {
    tok_reset();
    let mut c = mk_tok(s, cap);
    let mut d = mk_tok(s, cap2);
    let first = s.bool();
    c.append(&mut d);
    alive(&c, cap);
    others_gone(c.len(), 2 * (cap + cap2) + 2);
    if first { drop(c); alive(&d, cap2); drop(d); } else { drop(d); alive(&c, cap); drop(c); }
    all_gone(2 * (cap + cap2) + 2);
}
fn c03_into_iter(s: &mut S, cap: usize) {
    tok_reset();
    let c = mk_tok(s, cap);
    let k = s.below(cap + 1);
    let mut it = c.into_iter();
    for i in 0..cap { if i < k { took(it.next()); } }
    drop(it);
    all_gone(2 * cap + 1);
}
fn from_check(s: &mut S, mut c: CircularBuffer<Tok>, n: usize) {
    alive(&c, n);
    others_gone(n, n + 2);
    tok_op(s, &mut c);
    alive(&c, n);
    others_gone(c.len(), n + 2);
    drop(c);
    all_gone(n + 2);
}
fn c03_from(s: &mut S, n: usize, spare: usize) {
    tok_reset();
    let mut v = Vec::with_capacity(n + spare);
    for _ in 0..n { v.push(tok()); }
    from_check(s, CircularBuffer::from(v), n);
}
fn c03_collect_vec(s: &mut S, n: usize, spare: usize) {
    tok_reset();
    let mut v = Vec::with_capacity(n + spare);
    for _ in 0..n { v.push(tok()); }
    from_check(s, CircularBuffer::from_iter(v), n);
}
/// Makes n tokens.
struct Toks(usize);
impl Iterator for Toks { type Item = Tok; fn next(&mut self) -> Option<Tok> { if self.0 == 0 { None } else { self.0 -= 1; Some(tok()) } } }
fn c03_collect(s: &mut S, n: usize) {
    tok_reset();
    from_check(s, CircularBuffer::from_iter(Toks(n)), n);
}
fn c03_extend(s: &mut S, cap: usize) {
    tok_reset();
    let mut c = mk_tok(s, cap);
    let a = [tok(), tok(), tok()];
    c.extend(a);
    alive(&c, cap);
    others_gone(c.len(), 2 * cap + 4);
    drop(c);
    all_gone(2 * cap + 4);
}
harnesses! { reg_c03, "C03";
    c03_from_0_0, 5, |s| c03_from(s, 0, 0);
    c03_from_0_1, 5, |s| c03_from(s, 0, 1);
    c03_from_1_1, 6, |s| c03_from(s, 1, 1);
    c03_from_2_0, 7, |s| c03_from(s, 2, 0);
    c03_collect_vec_0_1, 5, |s| c03_collect_vec(s, 0, 1);
    c03_collect_vec_2_0, 7, |s| c03_collect_vec(s, 2, 0);
    c03_collect_vec_1_2, 6, |s| c03_collect_vec(s, 1, 2);
    c03_collect_0, 5, |s| c03_collect(s, 0);
    c03_collect_1, 6, |s| c03_collect(s, 1);
    c03_collect_2, 7, |s| c03_collect(s, 2);
    c03_lin_1_0, 6, |s| for r in 0..2 { c03_lin(s, 1, r, 0) };
    c03_lin_1_1, 6, |s| for r in 0..2 { c03_lin(s, 1, r, 1) };
    c03_lin_2_0, 8, |s| for r in 0..3 { c03_lin(s, 2, r, 0) };
    c03_lin_2_1, 8, |s| for r in 0..3 { c03_lin(s, 2, r, 1) };
    c03_lin_2_2, 8, |s| for r in 0..3 { c03_lin(s, 2, r, 2) };
    c03_resize_1_0_0, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 0, 0) };
    c03_resize_1_0_1, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 0, 1) };
    c03_resize_1_0_2, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 0, 2) };
    c03_resize_1_1_0, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 1, 0) };
    c03_resize_1_1_1, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 1, 1) };
    c03_resize_1_1_2, 6, |s| for r in 0..2 { c03_resize(s, 1, r, 1, 2) };
    c03_resize_2_1_0, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 1, 0) };
    c03_resize_2_1_1, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 1, 1) };
    c03_resize_2_1_3, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 1, 3) };
    c03_resize_2_2_0, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 2, 0) };
    c03_resize_2_2_1, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 2, 1) };
    c03_resize_2_2_3, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 2, 3) };
    c03_step_0, 6, |s| c03_step(s, 0);
    c03_step_1, 8, |s| c03_step(s, 1);
    c03_step_2, 10, |s| c03_step(s, 2);
    c03_step_3, 12, |s| c03_step(s, 3);
    c03_hist_1, 6, |s| c03_hist(s, 1, 3);
    c03_hist_2, 6, |s| c03_hist(s, 2, 3);
    c03_append_0_1, 6, |s| c03_append(s, 0, 1);
    c03_append_2_1, 10, |s| c03_append(s, 2, 1);
    c03_append_1_2, 10, |s| c03_append(s, 1, 2);
    c03_into_iter_2, 7, |s| c03_into_iter(s, 2);
    c03_extend_2, 10, |s| c03_extend(s, 2);
}
harnesses! { reg_c03t, "C03t";
    c03t_from_2_1, 7, |s| c03_from(s, 2, 1);
    c03t_from_3_0, 8, |s| c03_from(s, 3, 0);
    c03t_from_3_2, 8, |s| c03_from(s, 3, 2);
    c03t_collect_3, 8, |s| c03_collect(s, 3);
    c03t_lin_3_0, 10, |s| for r in 0..4 { c03_lin(s, 3, r, 0) };
    c03t_lin_3_1, 10, |s| for r in 0..4 { c03_lin(s, 3, r, 1) };
    c03t_lin_3_2, 10, |s| for r in 0..4 { c03_lin(s, 3, r, 2) };
    c03t_lin_3_3, 10, |s| for r in 0..4 { c03_lin(s, 3, r, 3) };
    c03t_resize_2_0_2, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 0, 2) };
    c03t_resize_2_0_4, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 0, 4) };
    c03t_resize_2_1_2, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 1, 2) };
    c03t_resize_2_1_4, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 1, 4) };
    c03t_resize_2_2_2, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 2, 2) };
    c03t_resize_2_2_4, 8, |s| for r in 0..3 { c03_resize(s, 2, r, 2, 4) };
    c03t_resize_3_0_0, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 0, 0) };
    c03t_resize_3_0_1, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 0, 1) };
    c03t_resize_3_0_2, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 0, 2) };
    c03t_resize_3_0_3, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 0, 3) };
    c03t_resize_3_0_5, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 0, 5) };
    c03t_resize_3_1_0, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 1, 0) };
    c03t_resize_3_1_1, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 1, 1) };
    c03t_resize_3_1_2, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 1, 2) };
    c03t_resize_3_1_3, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 1, 3) };
    c03t_resize_3_1_5, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 1, 5) };
    c03t_resize_3_2_0, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 2, 0) };
    c03t_resize_3_2_1, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 2, 1) };
    c03t_resize_3_2_2, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 2, 2) };
    c03t_resize_3_2_3, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 2, 3) };
    c03t_resize_3_2_5, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 2, 5) };
    c03t_resize_3_3_0, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 3, 0) };
    c03t_resize_3_3_1, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 3, 1) };
    c03t_resize_3_3_2, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 3, 2) };
    c03t_resize_3_3_3, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 3, 3) };
    c03t_resize_3_3_5, 10, |s| for r in 0..4 { c03_resize(s, 3, r, 3, 5) };
    c03t_step_4, 14, |s| c03_step(s, 4);
    c03t_step_5, 16, |s| c03_step(s, 5);
    c03t_hist_1, 7, |s| c03_hist(s, 1, 4);
    c03t_hist_2, 7, |s| c03_hist(s, 2, 4);
    c03t_hist_3, 7, |s| c03_hist(s, 3, 4);
    c03t_append_3_2, 14, |s| c03_append(s, 3, 2);
    c03t_append_2_3, 14, |s| c03_append(s, 2, 3);
    c03t_into_iter_4, 11, |s| c03_into_iter(s, 4);
    c03t_extend_3, 12, |s| c03_extend(s, 3);
}

// C04 ---------------------------------------------------------------------------------------

fn views(s: &mut S, cap: usize, view: usize) {
    let mut c = mk(s, cap);
    let m = snap(&c, cap);
    let n = m.n;
    match view {
        0 => {
            let (a, b) = c.slices();
            assert!(a.len() + b.len() == n, "slices: number of elements");
            for i in 0..cap { if i < n {
                let v = if i < a.len() { a[i] } else { b[i - a.len()] };
                assert!(v == m.a[i], "slices");
            } }
        }
        1 => {
            let mut it = c.iter();
            for i in 0..cap { if i < n { assert!(it.next() == Some(&m.a[i]), "iter"); } }
            assert!(it.next().is_none(), "iter: end");
        }
        2 => {
            let mut it = (&c).into_iter();
            for i in 0..cap { if i < n { assert!(it.next() == Some(&m.a[i]), "iteration by reference"); } }
            assert!(it.next().is_none(), "iteration by reference: end");
        }
        3 => {
            let mut it = c.iter().rev();
            for i in 0..cap { if i < n { assert!(it.next() == Some(&m.a[n - 1 - i]), "iter from the back"); } }
            assert!(it.next().is_none(), "iter from the back: end");
        }
        _ => {
            assert!(c.first().copied() == if n > 0 { Some(m.a[0]) } else { None }, "first");
            assert!(c.last().copied() == if n > 0 { Some(m.a[n - 1]) } else { None }, "last");
            assert!(c.first_mut().copied() == if n > 0 { Some(m.a[0]) } else { None }, "first_mut");
            assert!(c.last_mut().copied() == if n > 0 { Some(m.a[n - 1]) } else { None }, "last_mut");
        }
    }
    same(&c, &m, cap);
    fin(c);
}
fn views_mut(s: &mut S, cap: usize, view: usize) {
    let mut c = mk(s, cap);
    let mut m = snap(&c, cap);
    let n = m.n;
    let v = s.u8();
    let p = if cap > 0 { s.below(cap) } else { 0 };
    match view {
        0 => { if let Some(r) = c.first_mut() { *r = v; } if n > 0 { m.a[0] = v; } }
        1 => { if let Some(r) = c.last_mut() { *r = v; } if n > 0 { m.a[n - 1] = v; } }
        2 => if p < n { c[p] = v; m.a[p] = v; },
        3 => {
            let mut i = 0;
            for r in c.iter_mut() { assert!(i < n, "iter_mut: too many"); assert!(*r == m.a[i], "iter_mut"); if i == p { *r = v; } i += 1; }
            assert!(i == n, "iter_mut: too few");
            if p < n { m.a[p] = v; }
        }
        4 => {
            let mut i = 0;
            for r in &mut c { assert!(i < n, "mutable iteration by reference: too many"); assert!(*r == m.a[i], "mutable iteration by reference"); if i == p { *r = v; } i += 1; }
            assert!(i == n, "mutable iteration by reference: too few");
            if p < n { m.a[p] = v; }
        }
        _ => {
            let (a, b) = c.slices_mut();
            assert!(a.len() + b.len() == n, "slices_mut: number of elements");
            for i in 0..cap { if i < n {
                let r = if i < a.len() { &mut a[i] } else { &mut b[i - a.len()] };
                assert!(*r == m.a[i], "slices_mut");
                if i == p { *r = v; }
            } }
            if p < n { m.a[p] = v; }
        }
    }
    same(&c, &m, cap);
    fin(c);
}
harnesses! { reg_c04, "C04";
    c04_wide, 262, |s| {
        let (mut c, x) = wide(s);
        let k = s.below(7);
        assert!(c.iter().nth(k) == Some(&x[k]) && c.iter_mut().nth(k) == Some(&mut x[k].clone()), "iteration");
        let (a, b) = c.slices();
        assert!(a.len() + b.len() == 7, "slice length");
        assert!(*(if k < a.len() { &a[k] } else { &b[k - a.len()] }) == x[k], "slice element");
        let (a, b) = c.slices_mut();
        assert!(a.len() + b.len() == 7, "slice length");
        assert!(*(if k < a.len() { &a[k] } else { &b[k - a.len()] }) == x[k], "slice element");
        assert!(c.first() == Some(&x[0]) && c.last() == Some(&x[6]), "ends");
        fin(c);
    };
    c04_slices_0, 5, |s| views(s, 0, 0);
    c04_iter_0, 5, |s| views(s, 0, 1);
    c04_ref_0, 5, |s| views(s, 0, 2);
    c04_rev_0, 5, |s| views(s, 0, 3);
    c04_ends_0, 5, |s| views(s, 0, 4);
    c04_slices_1, 5, |s| views(s, 1, 0);
    c04_iter_1, 5, |s| views(s, 1, 1);
    c04_ref_1, 5, |s| views(s, 1, 2);
    c04_rev_1, 5, |s| views(s, 1, 3);
    c04_ends_1, 5, |s| views(s, 1, 4);
    c04_slices_2, 5, |s| views(s, 2, 0);
    c04_iter_2, 5, |s| views(s, 2, 1);
    c04_ref_2, 5, |s| views(s, 2, 2);
    c04_rev_2, 5, |s| views(s, 2, 3);
    c04_ends_2, 5, |s| views(s, 2, 4);
    c04_slices_3, 6, |s| views(s, 3, 0);
    c04_iter_3, 6, |s| views(s, 3, 1);
    c04_ref_3, 6, |s| views(s, 3, 2);
    c04_rev_3, 6, |s| views(s, 3, 3);
    c04_ends_3, 6, |s| views(s, 3, 4);
    c04_mut_first_0, 5, |s| views_mut(s, 0, 0);
    c04_mut_last_0, 5, |s| views_mut(s, 0, 1);
    c04_mut_index_0, 5, |s| views_mut(s, 0, 2);
    c04_mut_iter_0, 5, |s| views_mut(s, 0, 3);
    c04_mut_ref_0, 5, |s| views_mut(s, 0, 4);
    c04_mut_slices_0, 5, |s| views_mut(s, 0, 5);
    c04_mut_first_1, 5, |s| views_mut(s, 1, 0);
    c04_mut_last_1, 5, |s| views_mut(s, 1, 1);
    c04_mut_index_1, 5, |s| views_mut(s, 1, 2);
    c04_mut_iter_1, 5, |s| views_mut(s, 1, 3);
    c04_mut_ref_1, 5, |s| views_mut(s, 1, 4);
    c04_mut_slices_1, 5, |s| views_mut(s, 1, 5);
    c04_mut_first_2, 5, |s| views_mut(s, 2, 0);
    c04_mut_last_2, 5, |s| views_mut(s, 2, 1);
    c04_mut_index_2, 5, |s| views_mut(s, 2, 2);
    c04_mut_iter_2, 5, |s| views_mut(s, 2, 3);
    c04_mut_ref_2, 5, |s| views_mut(s, 2, 4);
    c04_mut_slices_2, 5, |s| views_mut(s, 2, 5);
    c04_mut_first_3, 6, |s| views_mut(s, 3, 0);
    c04_mut_last_3, 6, |s| views_mut(s, 3, 1);
    c04_mut_index_3, 6, |s| views_mut(s, 3, 2);
    c04_mut_iter_3, 6, |s| views_mut(s, 3, 3);
    c04_mut_ref_3, 6, |s| views_mut(s, 3, 4);
    c04_mut_slices_3, 6, |s| views_mut(s, 3, 5);
}
harnesses! { reg_c04t, "C04t";
    c04t_slices_4, 7, |s| views(s, 4, 0);
    c04t_iter_4, 7, |s| views(s, 4, 1);
    c04t_ref_4, 7, |s| views(s, 4, 2);
    c04t_rev_4, 7, |s| views(s, 4, 3);
    c04t_ends_4, 7, |s| views(s, 4, 4);
    c04t_slices_5, 8, |s| views(s, 5, 0);
    c04t_iter_5, 8, |s| views(s, 5, 1);
    c04t_ref_5, 8, |s| views(s, 5, 2);
    c04t_rev_5, 8, |s| views(s, 5, 3);
    c04t_ends_5, 8, |s| views(s, 5, 4);
    c04t_slices_7, 10, |s| views(s, 7, 0);
    c04t_iter_7, 10, |s| views(s, 7, 1);
    c04t_ref_7, 10, |s| views(s, 7, 2);
    c04t_rev_7, 10, |s| views(s, 7, 3);
    c04t_ends_7, 10, |s| views(s, 7, 4);
    c04t_mut_first_4, 7, |s| views_mut(s, 4, 0);
    c04t_mut_last_4, 7, |s| views_mut(s, 4, 1);
    c04t_mut_index_4, 7, |s| views_mut(s, 4, 2);
    c04t_mut_iter_4, 7, |s| views_mut(s, 4, 3);
    c04t_mut_ref_4, 7, |s| views_mut(s, 4, 4);
    c04t_mut_slices_4, 7, |s| views_mut(s, 4, 5);
    c04t_mut_first_5, 8, |s| views_mut(s, 5, 0);
    c04t_mut_last_5, 8, |s| views_mut(s, 5, 1);
    c04t_mut_index_5, 8, |s| views_mut(s, 5, 2);
    c04t_mut_iter_5, 8, |s| views_mut(s, 5, 3);
    c04t_mut_ref_5, 8, |s| views_mut(s, 5, 4);
    c04t_mut_slices_5, 8, |s| views_mut(s, 5, 5);
    c04t_mut_first_7, 10, |s| views_mut(s, 7, 0);
    c04t_mut_last_7, 10, |s| views_mut(s, 7, 1);
    c04t_mut_index_7, 10, |s| views_mut(s, 7, 2);
    c04t_mut_iter_7, 10, |s| views_mut(s, 7, 3);
    c04t_mut_ref_7, 10, |s| views_mut(s, 7, 4);
    c04t_mut_slices_7, 10, |s| views_mut(s, 7, 5);
}

// C05 ---------------------------------------------------------------------------------------

fn resize(s: &mut S, cap: usize, rot: usize, n: usize, to: usize) {
    let mut c = mk_at(s, cap, rot, n);
    let m = snap(&c, cap);
    assert!(m.n == n, "length");
    c.resize(to);
    let m = m.last(to, cap);
    usable(s, &mut c, &m, to);
    fin(c);
}
fn resize2(s: &mut S, cap: usize, rot: usize, n: usize, to: usize, to2: usize) {
    let mut c = mk_at(s, cap, rot, n);
    let m = snap(&c, cap);
    c.resize(to);
    let mut m = m.last(to, cap);
    let v = s.u8();
    c.push_back(v);
    m.push_back(v, to);
    c.resize(to2);
    let m = m.last(to2, to);
    same(&c, &m, to2);
    assert!(c.capacity() == to2, "capacity after resize");
    fin(c);
}
harnesses! { reg_c05, "C05";
    c05_wide, 262, |s| { let (mut c, a) = wide(s); c.resize(257); let k = s.below(7); assert!(c.capacity() == 257 && c.len() == 7 && c[k] == a[k], "kept"); fin(c) };
    c05_0_0_0, 4, |s| for r in 0..1 { resize(s, 0, r, 0, 0) };
    c05_0_0_1, 5, |s| for r in 0..1 { resize(s, 0, r, 0, 1) };
    c05_0_0_2, 6, |s| for r in 0..1 { resize(s, 0, r, 0, 2) };
    c05_0_0_3, 7, |s| for r in 0..1 { resize(s, 0, r, 0, 3) };
    c05_1_0_0, 5, |s| for r in 0..2 { resize(s, 1, r, 0, 0) };
    c05_1_0_1, 5, |s| for r in 0..2 { resize(s, 1, r, 0, 1) };
    c05_1_0_2, 6, |s| for r in 0..2 { resize(s, 1, r, 0, 2) };
    c05_1_0_3, 7, |s| for r in 0..2 { resize(s, 1, r, 0, 3) };
    c05_1_1_0, 5, |s| for r in 0..2 { resize(s, 1, r, 1, 0) };
    c05_1_1_1, 5, |s| for r in 0..2 { resize(s, 1, r, 1, 1) };
    c05_1_1_2, 6, |s| for r in 0..2 { resize(s, 1, r, 1, 2) };
    c05_1_1_3, 7, |s| for r in 0..2 { resize(s, 1, r, 1, 3) };
    c05_2_0_0, 6, |s| for r in 0..3 { resize(s, 2, r, 0, 0) };
    c05_2_0_1, 6, |s| for r in 0..3 { resize(s, 2, r, 0, 1) };
    c05_2_0_2, 6, |s| for r in 0..3 { resize(s, 2, r, 0, 2) };
    c05_2_0_3, 7, |s| for r in 0..3 { resize(s, 2, r, 0, 3) };
    c05_2_1_0, 6, |s| for r in 0..3 { resize(s, 2, r, 1, 0) };
    c05_2_1_1, 6, |s| for r in 0..3 { resize(s, 2, r, 1, 1) };
    c05_2_1_2, 6, |s| for r in 0..3 { resize(s, 2, r, 1, 2) };
    c05_2_1_3, 7, |s| for r in 0..3 { resize(s, 2, r, 1, 3) };
    c05_2_2_0, 6, |s| for r in 0..3 { resize(s, 2, r, 2, 0) };
    c05_2_2_1, 6, |s| for r in 0..3 { resize(s, 2, r, 2, 1) };
    c05_2_2_2, 6, |s| for r in 0..3 { resize(s, 2, r, 2, 2) };
    c05_2_2_3, 7, |s| for r in 0..3 { resize(s, 2, r, 2, 3) };
    c05_3_1_0, 7, |s| for r in 0..4 { resize(s, 3, r, 1, 0) };
    c05_3_1_1, 7, |s| for r in 0..4 { resize(s, 3, r, 1, 1) };
    c05_3_1_2, 7, |s| for r in 0..4 { resize(s, 3, r, 1, 2) };
    c05_3_1_3, 7, |s| for r in 0..4 { resize(s, 3, r, 1, 3) };
    c05_3_1_5, 9, |s| for r in 0..4 { resize(s, 3, r, 1, 5) };
    c05_3_2_0, 7, |s| for r in 0..4 { resize(s, 3, r, 2, 0) };
    c05_3_2_1, 7, |s| for r in 0..4 { resize(s, 3, r, 2, 1) };
    c05_3_2_2, 7, |s| for r in 0..4 { resize(s, 3, r, 2, 2) };
    c05_3_2_3, 7, |s| for r in 0..4 { resize(s, 3, r, 2, 3) };
    c05_3_2_5, 9, |s| for r in 0..4 { resize(s, 3, r, 2, 5) };
    c05_3_3_0, 7, |s| for r in 0..4 { resize(s, 3, r, 3, 0) };
    c05_3_3_1, 7, |s| for r in 0..4 { resize(s, 3, r, 3, 1) };
    c05_3_3_2, 7, |s| for r in 0..4 { resize(s, 3, r, 3, 2) };
    c05_3_3_3, 7, |s| for r in 0..4 { resize(s, 3, r, 3, 3) };
    c05_3_3_5, 9, |s| for r in 0..4 { resize(s, 3, r, 3, 5) };
    c05_twice_2_2_3_1, 7, |s| for r in 0..3 { resize2(s, 2, r, 2, 3, 1) };
}
harnesses! { reg_c05t, "C05t";
    c05t_4_0_0, 8, |s| for r in 0..5 { resize(s, 4, r, 0, 0) };
    c05t_4_0_1, 8, |s| for r in 0..5 { resize(s, 4, r, 0, 1) };
    c05t_4_0_2, 8, |s| for r in 0..5 { resize(s, 4, r, 0, 2) };
    c05t_4_0_3, 8, |s| for r in 0..5 { resize(s, 4, r, 0, 3) };
    c05t_4_0_4, 8, |s| for r in 0..5 { resize(s, 4, r, 0, 4) };
    c05t_4_0_5, 9, |s| for r in 0..5 { resize(s, 4, r, 0, 5) };
    c05t_4_0_7, 11, |s| for r in 0..5 { resize(s, 4, r, 0, 7) };
    c05t_4_1_0, 8, |s| for r in 0..5 { resize(s, 4, r, 1, 0) };
    c05t_4_1_1, 8, |s| for r in 0..5 { resize(s, 4, r, 1, 1) };
    c05t_4_1_2, 8, |s| for r in 0..5 { resize(s, 4, r, 1, 2) };
    c05t_4_1_3, 8, |s| for r in 0..5 { resize(s, 4, r, 1, 3) };
    c05t_4_1_4, 8, |s| for r in 0..5 { resize(s, 4, r, 1, 4) };
    c05t_4_1_5, 9, |s| for r in 0..5 { resize(s, 4, r, 1, 5) };
    c05t_4_1_7, 11, |s| for r in 0..5 { resize(s, 4, r, 1, 7) };
    c05t_4_2_0, 8, |s| for r in 0..5 { resize(s, 4, r, 2, 0) };
    c05t_4_2_1, 8, |s| for r in 0..5 { resize(s, 4, r, 2, 1) };
    c05t_4_2_2, 8, |s| for r in 0..5 { resize(s, 4, r, 2, 2) };
    c05t_4_2_3, 8, |s| for r in 0..5 { resize(s, 4, r, 2, 3) };
    c05t_4_2_4, 8, |s| for r in 0..5 { resize(s, 4, r, 2, 4) };
    c05t_4_2_5, 9, |s| for r in 0..5 { resize(s, 4, r, 2, 5) };
    c05t_4_2_7, 11, |s| for r in 0..5 { resize(s, 4, r, 2, 7) };
    c05t_4_3_0, 8, |s| for r in 0..5 { resize(s, 4, r, 3, 0) };
    c05t_4_3_1, 8, |s| for r in 0..5 { resize(s, 4, r, 3, 1) };
    c05t_4_3_2, 8, |s| for r in 0..5 { resize(s, 4, r, 3, 2) };
    c05t_4_3_3, 8, |s| for r in 0..5 { resize(s, 4, r, 3, 3) };
    c05t_4_3_4, 8, |s| for r in 0..5 { resize(s, 4, r, 3, 4) };
    c05t_4_3_5, 9, |s| for r in 0..5 { resize(s, 4, r, 3, 5) };
    c05t_4_3_7, 11, |s| for r in 0..5 { resize(s, 4, r, 3, 7) };
    c05t_4_4_0, 8, |s| for r in 0..5 { resize(s, 4, r, 4, 0) };
    c05t_4_4_1, 8, |s| for r in 0..5 { resize(s, 4, r, 4, 1) };
    c05t_4_4_2, 8, |s| for r in 0..5 { resize(s, 4, r, 4, 2) };
    c05t_4_4_3, 8, |s| for r in 0..5 { resize(s, 4, r, 4, 3) };
    c05t_4_4_4, 8, |s| for r in 0..5 { resize(s, 4, r, 4, 4) };
    c05t_4_4_5, 9, |s| for r in 0..5 { resize(s, 4, r, 4, 5) };
    c05t_4_4_7, 11, |s| for r in 0..5 { resize(s, 4, r, 4, 7) };
    c05t_5_0_0, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 0) };
    c05t_5_0_1, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 1) };
    c05t_5_0_2, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 2) };
    c05t_5_0_3, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 3) };
    c05t_5_0_4, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 4) };
    c05t_5_0_5, 9, |s| for r in 0..6 { resize(s, 5, r, 0, 5) };
    c05t_5_0_7, 11, |s| for r in 0..6 { resize(s, 5, r, 0, 7) };
    c05t_5_1_0, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 0) };
    c05t_5_1_1, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 1) };
    c05t_5_1_2, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 2) };
    c05t_5_1_3, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 3) };
    c05t_5_1_4, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 4) };
    c05t_5_1_5, 9, |s| for r in 0..6 { resize(s, 5, r, 1, 5) };
    c05t_5_1_7, 11, |s| for r in 0..6 { resize(s, 5, r, 1, 7) };
    c05t_5_2_0, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 0) };
    c05t_5_2_1, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 1) };
    c05t_5_2_2, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 2) };
    c05t_5_2_3, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 3) };
    c05t_5_2_4, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 4) };
    c05t_5_2_5, 9, |s| for r in 0..6 { resize(s, 5, r, 2, 5) };
    c05t_5_2_7, 11, |s| for r in 0..6 { resize(s, 5, r, 2, 7) };
    c05t_5_3_0, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 0) };
    c05t_5_3_1, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 1) };
    c05t_5_3_2, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 2) };
    c05t_5_3_3, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 3) };
    c05t_5_3_4, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 4) };
    c05t_5_3_5, 9, |s| for r in 0..6 { resize(s, 5, r, 3, 5) };
    c05t_5_3_7, 11, |s| for r in 0..6 { resize(s, 5, r, 3, 7) };
    c05t_5_4_0, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 0) };
    c05t_5_4_1, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 1) };
    c05t_5_4_2, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 2) };
    c05t_5_4_3, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 3) };
    c05t_5_4_4, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 4) };
    c05t_5_4_5, 9, |s| for r in 0..6 { resize(s, 5, r, 4, 5) };
    c05t_5_4_7, 11, |s| for r in 0..6 { resize(s, 5, r, 4, 7) };
    c05t_5_5_0, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 0) };
    c05t_5_5_1, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 1) };
    c05t_5_5_2, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 2) };
    c05t_5_5_3, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 3) };
    c05t_5_5_4, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 4) };
    c05t_5_5_5, 9, |s| for r in 0..6 { resize(s, 5, r, 5, 5) };
    c05t_5_5_7, 11, |s| for r in 0..6 { resize(s, 5, r, 5, 7) };
    c05t_6_5_3, 10, |s| for r in 0..7 { resize(s, 6, r, 5, 3) };
    c05t_6_5_4, 10, |s| for r in 0..7 { resize(s, 6, r, 5, 4) };
    c05t_6_5_7, 11, |s| for r in 0..7 { resize(s, 6, r, 5, 7) };
    c05t_6_5_9, 13, |s| for r in 0..7 { resize(s, 6, r, 5, 9) };
    c05t_6_6_3, 10, |s| for r in 0..7 { resize(s, 6, r, 6, 3) };
    c05t_6_6_4, 10, |s| for r in 0..7 { resize(s, 6, r, 6, 4) };
    c05t_6_6_7, 11, |s| for r in 0..7 { resize(s, 6, r, 6, 7) };
    c05t_6_6_9, 13, |s| for r in 0..7 { resize(s, 6, r, 6, 9) };
    c05t_twice_3_3_1_4, 8, |s| for r in 0..4 { resize2(s, 3, r, 3, 1, 4) };
    c05t_twice_3_2_4_2, 8, |s| for r in 0..4 { resize2(s, 3, r, 2, 4, 2) };
}

// C06 ---------------------------------------------------------------------------------------

fn linearize(s: &mut S, cap: usize, rot: usize, n: usize) {
    let mut c = mk_at(s, cap, rot, n);
    let mut m = snap(&c, cap);
    let v = s.u8();
    {
        let l = c.linearize();
        same_slice(l, &m, cap);
        if n > 0 { let i = s.below(n); l[i] = v; m.a[i] = v; }
    }
    {
        let (a, b) = c.slices();
        assert!(b.is_empty() || a.is_empty(), "not contiguous after linearize");
    }
    usable(s, &mut c, &m, cap);
    fin(c);
}
fn swap_(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let mut m = snap(&c, cap);
    let (i, j) = (s.below(cap), s.below(cap));
    s.assume(i < m.n && j < m.n);
    c.swap(i, j);
    let t = m.a[i]; m.a[i] = m.a[j]; m.a[j] = t;
    usable(s, &mut c, &m, cap);
    fin(c);
}
fn reverse(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let m = snap(&c, cap);
    c.reverse();
    let mut r = m;
    for i in 0..cap { if i < m.n { r.a[i] = m.a[m.n - 1 - i]; } }
    usable(s, &mut c, &r, cap);
    fin(c);
}
harnesses! { reg_c06, "C06";
    c06_wide_linearize, 262, |s| { let (mut c, a) = wide(s); let k = s.below(7); assert!(c.linearize()[k] == a[k], "linear"); assert!(c.len() == 7 && c.capacity() == LARGE && c[k] == a[k], "after linearize"); fin(c) };
    c06_wide, 262, |s| { let (mut c, a) = wide(s); let k = s.below(7); c.reverse(); assert!(c[k] == a[6 - k], "reversed"); c.swap(k, 6); assert!(c[k] == a[0] && c[6] == a[6 - k], "swapped"); fin(c) };
    c06_linearize_0_0, 4, |s| for r in 0..1 { linearize(s, 0, r, 0) };
    c06_linearize_1_0, 5, |s| for r in 0..2 { linearize(s, 1, r, 0) };
    c06_linearize_1_1, 5, |s| for r in 0..2 { linearize(s, 1, r, 1) };
    c06_linearize_2_0, 6, |s| for r in 0..3 { linearize(s, 2, r, 0) };
    c06_linearize_2_1, 6, |s| for r in 0..3 { linearize(s, 2, r, 1) };
    c06_linearize_2_2, 6, |s| for r in 0..3 { linearize(s, 2, r, 2) };
    c06_linearize_3_0, 7, |s| for r in 0..4 { linearize(s, 3, r, 0) };
    c06_linearize_3_1, 7, |s| for r in 0..4 { linearize(s, 3, r, 1) };
    c06_linearize_3_2, 7, |s| for r in 0..4 { linearize(s, 3, r, 2) };
    c06_linearize_3_3, 7, |s| for r in 0..4 { linearize(s, 3, r, 3) };
    c06_swap_1, 5, |s| swap_(s, 1);
    c06_swap_2, 6, |s| swap_(s, 2);
    c06_swap_3, 7, |s| swap_(s, 3);
    c06_swap_4, 8, |s| swap_(s, 4);
    c06_reverse_0, 5, |s| reverse(s, 0);
    c06_reverse_1, 5, |s| reverse(s, 1);
    c06_reverse_2, 6, |s| reverse(s, 2);
    c06_reverse_3, 7, |s| reverse(s, 3);
    c06_reverse_4, 8, |s| reverse(s, 4);
    c06_reverse_5, 9, |s| reverse(s, 5);
}
harnesses! { reg_c06t, "C06t";
    c06t_linearize_4_0, 8, |s| for r in 0..5 { linearize(s, 4, r, 0) };
    c06t_linearize_4_1, 8, |s| for r in 0..5 { linearize(s, 4, r, 1) };
    c06t_linearize_4_2, 8, |s| for r in 0..5 { linearize(s, 4, r, 2) };
    c06t_linearize_4_3, 8, |s| for r in 0..5 { linearize(s, 4, r, 3) };
    c06t_linearize_4_4, 8, |s| for r in 0..5 { linearize(s, 4, r, 4) };
    c06t_linearize_5_0, 9, |s| for r in 0..6 { linearize(s, 5, r, 0) };
    c06t_linearize_5_1, 9, |s| for r in 0..6 { linearize(s, 5, r, 1) };
    c06t_linearize_5_2, 9, |s| for r in 0..6 { linearize(s, 5, r, 2) };
    c06t_linearize_5_3, 9, |s| for r in 0..6 { linearize(s, 5, r, 3) };
    c06t_linearize_5_4, 9, |s| for r in 0..6 { linearize(s, 5, r, 4) };
    c06t_linearize_5_5, 9, |s| for r in 0..6 { linearize(s, 5, r, 5) };
    c06t_linearize_6_0, 10, |s| for r in 0..7 { linearize(s, 6, r, 0) };
    c06t_linearize_6_1, 10, |s| for r in 0..7 { linearize(s, 6, r, 1) };
    c06t_linearize_6_2, 10, |s| for r in 0..7 { linearize(s, 6, r, 2) };
    c06t_linearize_6_3, 10, |s| for r in 0..7 { linearize(s, 6, r, 3) };
    c06t_linearize_6_4, 10, |s| for r in 0..7 { linearize(s, 6, r, 4) };
    c06t_linearize_6_5, 10, |s| for r in 0..7 { linearize(s, 6, r, 5) };
    c06t_linearize_6_6, 10, |s| for r in 0..7 { linearize(s, 6, r, 6) };
    c06t_swap_5, 9, |s| swap_(s, 5);
    c06t_swap_6, 10, |s| swap_(s, 6);
    c06t_swap_8, 12, |s| swap_(s, 8);
    c06t_reverse_6, 10, |s| reverse(s, 6);
    c06t_reverse_7, 11, |s| reverse(s, 7);
    c06t_reverse_8, 12, |s| reverse(s, 8);
}

// C07 ---------------------------------------------------------------------------------------

fn hint(s: &mut S, n: usize) -> (usize, Option<usize>) {
    match s.below(3) { 0 => (0, None), 1 => (n, Some(n)), _ => (0, Some(usize::MAX)) }
}
fn extend(s: &mut S, cap: usize, how: usize) {
    let mut c = mk(s, cap);
    let mut m = snap(&c, cap);
    let a = [s.u8(), s.u8(), s.u8(), s.u8()];
    let n = s.below(5);
    for i in 0..4 { if i < n { m.push_back(a[i], cap); } }
    match how {
        0 => { let h = hint(s, n); c.extend(Odd { a, i: 0, n, hint: h }); }
        1 => c.extend(&a[..n]),
        _ => c.extend(a.iter().take(n)),
    }
    usable(s, &mut c, &m, cap);
    fin(c);
}
fn append(s: &mut S, cap: usize, cap2: usize) {
    let mut c = mk(s, cap);
    let mut d = mk(s, cap2);
    let mut m = snap(&c, cap);
    let m2 = snap(&d, cap2);
    c.append(&mut d);
    for i in 0..cap2 { if i < m2.n { m.push_back(m2.a[i], cap); } }
    same(&c, &m, cap);
    assert!(c.capacity() == cap, "capacity of the receiver");
    assert!(d.len() == 0 && d.is_empty(), "the source is not empty after append");
    usable(s, &mut d, &Seq::new(), cap2);
    fin(c); fin(d);
}
fn from(s: &mut S, n: usize, how: usize) {
    let a = [s.u8(), s.u8(), s.u8(), s.u8()];
    let mut m = Seq::new();
    for i in 0..n { m.add(a[i]); }
    let mut c = match how {
        0 => CB::from(a[..n].to_vec()),
        1 => { let mut v = Vec::with_capacity(n + 2); for i in 0..n { v.push(a[i]); } CB::from(v) }
        2 => CB::from_iter(a[..n].iter()),
        3 => { let h = hint(s, n); CB::from_iter(Odd { a, i: 0, n, hint: h }) }
        _ => CB::from_iter(a[..n].to_vec()),
    };
    assert!(c.capacity() == n, "capacity = number of elements");
    usable(s, &mut c, &m, n);
    fin(c);
}
fn drain(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let m = snap(&c, cap);
    let k = s.below(cap + 2);
    {
        let mut d = c.drain();
        for i in 0..cap + 1 { if i < k { assert!(d.next() == if i < m.n { Some(m.a[i]) } else { None }, "drain"); } }
    }
    let m = m.skip(min(k, m.n), cap);
    usable(s, &mut c, &m, cap);
    fin(c);
}
fn into_iter(s: &mut S, cap: usize) {
    let c = mk(s, cap);
    let m = snap(&c, cap);
    let mut it = c.into_iter();
    for i in 0..cap { if i < m.n { assert!(it.next() == Some(m.a[i]), "consuming iteration"); } }
    assert!(it.next().is_none(), "consuming iteration: end");
    assert!(it.next().is_none(), "consuming iteration: end");
    fin(it);
}
fn roundtrip(s: &mut S, cap: usize, rot: usize, n: usize, how: usize) {
    let c = mk_at(s, cap, rot, n);
    let m = snap(&c, cap);
    let d: CB = if how == 0 { c.iter().collect() } else { c.into_iter().collect() };
    same(&d, &m, cap);
    assert!(d.capacity() == m.n, "capacity = number of elements");
    fin(d);
}
harnesses! { reg_c07, "C07";
    c07_extend_0_0, 6, |s| extend(s, 0, 0);
    c07_extend_0_1, 6, |s| extend(s, 0, 1);
    c07_extend_1_0, 6, |s| extend(s, 1, 0);
    c07_extend_2_1, 6, |s| extend(s, 2, 1);
    c07_extend_2_2, 6, |s| extend(s, 2, 2);
    c07_extend_3_0, 7, |s| extend(s, 3, 0);
    c07_extend_3_1, 7, |s| extend(s, 3, 1);
    c07_append_0_2, 6, |s| append(s, 0, 2);
    c07_append_2_0, 6, |s| append(s, 2, 0);
    c07_append_2_2, 6, |s| append(s, 2, 2);
    c07_append_1_3, 7, |s| append(s, 1, 3);
    c07_append_3_2, 7, |s| append(s, 3, 2);
    c07_from_0_0, 6, |s| from(s, 0, 0);
    c07_from_0_1, 6, |s| from(s, 0, 1);
    c07_from_0_2, 6, |s| from(s, 0, 2);
    c07_from_0_3, 6, |s| from(s, 0, 3);
    c07_from_0_4, 6, |s| from(s, 0, 4);
    c07_from_1_0, 6, |s| from(s, 1, 0);
    c07_from_1_1, 6, |s| from(s, 1, 1);
    c07_from_1_2, 6, |s| from(s, 1, 2);
    c07_from_1_3, 6, |s| from(s, 1, 3);
    c07_from_1_4, 6, |s| from(s, 1, 4);
    c07_from_3_0, 7, |s| from(s, 3, 0);
    c07_from_3_1, 7, |s| from(s, 3, 1);
    c07_from_3_2, 7, |s| from(s, 3, 2);
    c07_from_3_3, 7, |s| from(s, 3, 3);
    c07_from_3_4, 7, |s| from(s, 3, 4);
    c07_drain_0, 5, |s| drain(s, 0);
    c07_drain_1, 5, |s| drain(s, 1);
    c07_drain_2, 6, |s| drain(s, 2);
    c07_drain_3, 7, |s| drain(s, 3);
    c07_into_iter_0, 5, |s| into_iter(s, 0);
    c07_into_iter_1, 5, |s| into_iter(s, 1);
    c07_into_iter_3, 7, |s| into_iter(s, 3);
    c07_roundtrip_2_1_0, 6, |s| for r in 0..3 { roundtrip(s, 2, r, 1, 0) };
    c07_roundtrip_2_2_0, 6, |s| for r in 0..3 { roundtrip(s, 2, r, 2, 0) };
    c07_roundtrip_2_2_1, 6, |s| for r in 0..3 { roundtrip(s, 2, r, 2, 1) };
}
harnesses! { reg_c07t, "C07t";
    c07t_extend_4_0, 8, |s| extend(s, 4, 0);
    c07t_extend_4_1, 8, |s| extend(s, 4, 1);
    c07t_extend_3_2, 7, |s| extend(s, 3, 2);
    c07t_extend_5_0, 9, |s| extend(s, 5, 0);
    c07t_append_3_3, 7, |s| append(s, 3, 3);
    c07t_append_2_4, 8, |s| append(s, 2, 4);
    c07t_append_4_3, 8, |s| append(s, 4, 3);
    c07t_from_2_0, 6, |s| from(s, 2, 0);
    c07t_from_2_1, 6, |s| from(s, 2, 1);
    c07t_from_2_2, 6, |s| from(s, 2, 2);
    c07t_from_2_3, 6, |s| from(s, 2, 3);
    c07t_from_2_4, 6, |s| from(s, 2, 4);
    c07t_from_4_0, 8, |s| from(s, 4, 0);
    c07t_from_4_1, 8, |s| from(s, 4, 1);
    c07t_from_4_2, 8, |s| from(s, 4, 2);
    c07t_from_4_3, 8, |s| from(s, 4, 3);
    c07t_from_4_4, 8, |s| from(s, 4, 4);
    c07t_drain_4, 8, |s| drain(s, 4);
    c07t_drain_6, 10, |s| drain(s, 6);
    c07t_into_iter_5, 9, |s| into_iter(s, 5);
    c07t_roundtrip_3_1_0, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 1, 0) };
    c07t_roundtrip_3_1_1, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 1, 1) };
    c07t_roundtrip_3_2_0, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 2, 0) };
    c07t_roundtrip_3_2_1, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 2, 1) };
    c07t_roundtrip_3_3_0, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 3, 0) };
    c07t_roundtrip_3_3_1, 7, |s| for r in 0..4 { roundtrip(s, 3, r, 3, 1) };
}

// C08 ---------------------------------------------------------------------------------------

fn lex(a: &Seq, b: &Seq, max: usize) -> Ordering {
    for i in 0..max {
        if i >= a.n { return if i >= b.n { Ordering::Equal } else { Ordering::Less }; }
        if i >= b.n { return Ordering::Greater; }
        if a.a[i] < b.a[i] { return Ordering::Less; }
        if a.a[i] > b.a[i] { return Ordering::Greater; }
    }
    if a.n < b.n { Ordering::Less } else if a.n > b.n { Ordering::Greater } else { Ordering::Equal }
}
fn cmp(s: &mut S, cap: usize, cap2: usize, op: usize) {
    let a = mk(s, cap);
    let b = mk(s, cap2);
    let (ma, mb) = (snap(&a, cap), snap(&b, cap2));
    let o = lex(&ma, &mb, if cap < cap2 { cap } else { cap2 });
    match op {
        0 => assert!((a == b) == (o == Ordering::Equal), "=="),
        1 => assert!((a != b) == (o != Ordering::Equal), "!="),
        2 => assert!(a.cmp(&b) == o, "cmp"),
        3 => assert!(a.partial_cmp(&b) == Some(o), "partial_cmp"),
        4 => assert!((a < b) == (o == Ordering::Less), "<"),
        5 => assert!((a <= b) == (o != Ordering::Greater), "<="),
        6 => assert!((a > b) == (o == Ordering::Greater), ">"),
        _ => assert!((a >= b) == (o != Ordering::Less), ">="),
    }
    fin(a); fin(b);
}
fn cmp_slice(s: &mut S, cap: usize, op: usize) {
    let a = mk(s, cap);
    let m = snap(&a, cap);
    let b = [s.u8(), s.u8(), s.u8(), s.u8()];
    let n = s.below(5);
    let mut eq = m.n == n;
    for i in 0..4 { if i < n && i < m.n { eq = eq && m.a[i] == b[i]; } }
    match op {
        0 => assert!((a == b[..n]) == eq, "== slice"),
        1 => assert!((a == &b[..n]) == eq, "== reference to slice"),
        2 => assert!((a != b[..n]) == !eq, "!= slice"),
        _ => assert!((a != &b[..n]) == !eq, "!= reference to slice"),
    }
    fin(a);
}
/// Partially ordered: values with different second component are incomparable; equality
/// of value 9 with itself fails, as NaN.
#[derive(Clone, Copy)]
struct Po(u8, u8);
impl PartialEq for Po { fn eq(&self, o: &Po) -> bool { self.0 != 9 && self.0 == o.0 && self.1 == o.1 } }
impl PartialOrd for Po {
    fn partial_cmp(&self, o: &Po) -> Option<Ordering> {
        if self.0 == 9 || o.0 == 9 || self.1 != o.1 { None } else if self.0 < o.0 { Some(Ordering::Less) } else if self.0 > o.0 { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
}
fn mk_po(s: &mut S, cap: usize) -> CircularBuffer<Po> {
    let mut c = CircularBuffer::new(cap);
    let rot = s.below(cap + 1);
    for i in 0..cap { if i < rot { c.push_back(Po(0, 0)); c.pop_front(); } }
    let n = s.below(cap + 1);
    for i in 0..cap { if i < n { let v = Po(s.below(10) as u8, s.below(2) as u8); c.push_back(v); } }
    c
}
fn cmp_partial(s: &mut S, cap: usize, cap2: usize, op: usize) {
    let a = mk_po(s, cap);
    let b = mk_po(s, cap2);
    let (n, m) = (a.len(), b.len());
    let mut eq = n == m;
    for i in 0..cap { if i < n && i < m && !(a[i] == b[i]) { eq = false; } }
    let mut o = Some(if n < m { Ordering::Less } else if n > m { Ordering::Greater } else { Ordering::Equal });
    for i in (0..cap).rev() {
        if i < n && i < m { let c = a[i].partial_cmp(&b[i]); if c != Some(Ordering::Equal) { o = c; } }
    }
    let (lt, eqq, gt) = (o == Some(Ordering::Less), o == Some(Ordering::Equal), o == Some(Ordering::Greater));
    match op {
        0 => assert!((a == b) == eq, "=="),
        1 => assert!((a != b) == !eq, "!="),
        3 => assert!(a.partial_cmp(&b) == o, "partial_cmp"),
        4 => assert!((a < b) == lt, "<"),
        5 => assert!((a <= b) == (lt || eqq), "<="),
        6 => assert!((a > b) == gt, ">"),
        _ => assert!((a >= b) == (gt || eqq), ">="),
    }
    fin(a); fin(b);
}
harnesses! { reg_c08, "C08";
    c08_eq_1_2, 6, |s| cmp(s, 1, 2, 0);
    c08_cmp_1_2, 6, |s| cmp(s, 1, 2, 2);
    c08_partial_cmp_1_2, 6, |s| cmp(s, 1, 2, 3);
    c08_lt_1_2, 6, |s| cmp(s, 1, 2, 4);
    c08_eq_2_1, 6, |s| cmp(s, 2, 1, 0);
    c08_cmp_2_1, 6, |s| cmp(s, 2, 1, 2);
    c08_partial_cmp_2_1, 6, |s| cmp(s, 2, 1, 3);
    c08_gt_2_1, 6, |s| cmp(s, 2, 1, 6);
    c08_eq_2_2, 6, |s| cmp(s, 2, 2, 0);
    c08_ne_2_2, 6, |s| cmp(s, 2, 2, 1);
    c08_cmp_2_2, 6, |s| cmp(s, 2, 2, 2);
    c08_partial_cmp_2_2, 6, |s| cmp(s, 2, 2, 3);
    c08_lt_2_2, 6, |s| cmp(s, 2, 2, 4);
    c08_le_2_2, 6, |s| cmp(s, 2, 2, 5);
    c08_gt_2_2, 6, |s| cmp(s, 2, 2, 6);
    c08_ge_2_2, 6, |s| cmp(s, 2, 2, 7);
    c08_eq_0_1, 5, |s| cmp(s, 0, 1, 0);
    c08_cmp_0_1, 5, |s| cmp(s, 0, 1, 2);
    c08_partial_cmp_0_1, 5, |s| cmp(s, 0, 1, 3);
    c08_eq_3_3, 7, |s| cmp(s, 3, 3, 0);
    c08_cmp_3_3, 7, |s| cmp(s, 3, 3, 2);
    c08_slice_0_0, 6, |s| cmp_slice(s, 0, 0);
    c08_slice_0_1, 6, |s| cmp_slice(s, 0, 1);
    c08_slice_2_0, 6, |s| cmp_slice(s, 2, 0);
    c08_slice_2_1, 6, |s| cmp_slice(s, 2, 1);
    c08_slice_2_2, 6, |s| cmp_slice(s, 2, 2);
    c08_slice_2_3, 6, |s| cmp_slice(s, 2, 3);
    c08_slice_3_0, 7, |s| cmp_slice(s, 3, 0);
    c08_partial_eq_2_2, 6, |s| cmp_partial(s, 2, 2, 0);
    c08_partial_ne_2_2, 6, |s| cmp_partial(s, 2, 2, 1);
    c08_partial_partial_cmp_2_2, 6, |s| cmp_partial(s, 2, 2, 3);
    c08_partial_lt_2_2, 6, |s| cmp_partial(s, 2, 2, 4);
    c08_partial_le_2_2, 6, |s| cmp_partial(s, 2, 2, 5);
    c08_partial_gt_2_2, 6, |s| cmp_partial(s, 2, 2, 6);
    c08_partial_ge_2_2, 6, |s| cmp_partial(s, 2, 2, 7);
}
harnesses! { reg_c08t, "C08t";
    c08t_eq_3_3, 7, |s| cmp(s, 3, 3, 0);
    c08t_ne_3_3, 7, |s| cmp(s, 3, 3, 1);
    c08t_cmp_3_3, 7, |s| cmp(s, 3, 3, 2);
    c08t_partial_cmp_3_3, 7, |s| cmp(s, 3, 3, 3);
    c08t_lt_3_3, 7, |s| cmp(s, 3, 3, 4);
    c08t_le_3_3, 7, |s| cmp(s, 3, 3, 5);
    c08t_gt_3_3, 7, |s| cmp(s, 3, 3, 6);
    c08t_ge_3_3, 7, |s| cmp(s, 3, 3, 7);
    c08t_eq_4_2, 8, |s| cmp(s, 4, 2, 0);
    c08t_ne_4_2, 8, |s| cmp(s, 4, 2, 1);
    c08t_cmp_4_2, 8, |s| cmp(s, 4, 2, 2);
    c08t_partial_cmp_4_2, 8, |s| cmp(s, 4, 2, 3);
    c08t_lt_4_2, 8, |s| cmp(s, 4, 2, 4);
    c08t_le_4_2, 8, |s| cmp(s, 4, 2, 5);
    c08t_gt_4_2, 8, |s| cmp(s, 4, 2, 6);
    c08t_ge_4_2, 8, |s| cmp(s, 4, 2, 7);
    c08t_eq_3_4, 8, |s| cmp(s, 3, 4, 0);
    c08t_ne_3_4, 8, |s| cmp(s, 3, 4, 1);
    c08t_cmp_3_4, 8, |s| cmp(s, 3, 4, 2);
    c08t_partial_cmp_3_4, 8, |s| cmp(s, 3, 4, 3);
    c08t_lt_3_4, 8, |s| cmp(s, 3, 4, 4);
    c08t_le_3_4, 8, |s| cmp(s, 3, 4, 5);
    c08t_gt_3_4, 8, |s| cmp(s, 3, 4, 6);
    c08t_ge_3_4, 8, |s| cmp(s, 3, 4, 7);
    c08t_slice_3_0, 7, |s| cmp_slice(s, 3, 0);
    c08t_slice_3_1, 7, |s| cmp_slice(s, 3, 1);
    c08t_slice_3_2, 7, |s| cmp_slice(s, 3, 2);
    c08t_slice_3_3, 7, |s| cmp_slice(s, 3, 3);
    c08t_slice_4_0, 8, |s| cmp_slice(s, 4, 0);
    c08t_slice_4_1, 8, |s| cmp_slice(s, 4, 1);
    c08t_slice_4_2, 8, |s| cmp_slice(s, 4, 2);
    c08t_slice_4_3, 8, |s| cmp_slice(s, 4, 3);
    c08t_partial_eq_3_3, 7, |s| cmp_partial(s, 3, 3, 0);
    c08t_partial_ne_3_3, 7, |s| cmp_partial(s, 3, 3, 1);
    c08t_partial_partial_cmp_3_3, 7, |s| cmp_partial(s, 3, 3, 3);
    c08t_partial_lt_3_3, 7, |s| cmp_partial(s, 3, 3, 4);
    c08t_partial_le_3_3, 7, |s| cmp_partial(s, 3, 3, 5);
    c08t_partial_gt_3_3, 7, |s| cmp_partial(s, 3, 3, 6);
    c08t_partial_ge_3_3, 7, |s| cmp_partial(s, 3, 3, 7);
    c08t_partial_eq_1_2, 7, |s| cmp_partial(s, 1, 2, 0);
    c08t_partial_ne_1_2, 7, |s| cmp_partial(s, 1, 2, 1);
    c08t_partial_partial_cmp_1_2, 7, |s| cmp_partial(s, 1, 2, 3);
    c08t_partial_lt_1_2, 7, |s| cmp_partial(s, 1, 2, 4);
    c08t_partial_le_1_2, 7, |s| cmp_partial(s, 1, 2, 5);
    c08t_partial_gt_1_2, 7, |s| cmp_partial(s, 1, 2, 6);
    c08t_partial_ge_1_2, 7, |s| cmp_partial(s, 1, 2, 7);
    c08t_partial_eq_2_1, 7, |s| cmp_partial(s, 2, 1, 0);
    c08t_partial_ne_2_1, 7, |s| cmp_partial(s, 2, 1, 1);
    c08t_partial_partial_cmp_2_1, 7, |s| cmp_partial(s, 2, 1, 3);
    c08t_partial_lt_2_1, 7, |s| cmp_partial(s, 2, 1, 4);
    c08t_partial_le_2_1, 7, |s| cmp_partial(s, 2, 1, 5);
    c08t_partial_gt_2_1, 7, |s| cmp_partial(s, 2, 1, 6);
    c08t_partial_ge_2_1, 7, |s| cmp_partial(s, 2, 1, 7);
}

// C09 ---------------------------------------------------------------------------------------

fn clone_indep(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let m = snap(&c, cap);
    let mut d = c.clone();
    assert!(d.capacity() == cap, "capacity of the clone");
    same(&d, &m, cap);
    same(&c, &m, cap);
    if s.bool() {
        let mut mm = m;
        deque_op(s, &mut c, &mut mm, cap);
        if c.len() > 0 { c[0] = s.u8(); }
        same(&d, &m, cap);
        drop(c);
        usable(s, &mut d, &m, cap);
        fin(d);
    } else {
        let mut mm = m;
        deque_op(s, &mut d, &mut mm, cap);
        if d.len() > 0 { d[0] = s.u8(); }
        same(&c, &m, cap);
        drop(d);
        usable(s, &mut c, &m, cap);
        fin(c);
    }
}
/// Clones get a fresh token; CLONES counts how often each token was cloned.
struct Ct(Tok, u8);
impl Clone for Ct { fn clone(&self) -> Ct { unsafe { CLONES[(self.0).0 as usize] += 1; } assert!(drops((self.0).0) == 0, "cloned something dropped"); Ct(tok(), self.1) } }
fn clone_count(s: &mut S, cap: usize) {
    tok_reset();
    let mut c = CircularBuffer::new(cap);
    let rot = s.below(cap + 1);
    for i in 0..cap { if i < rot { c.push_back(Ct(tok(), 0)); drop(c.pop_front()); } }
    let n = s.below(cap + 1);
    for i in 0..cap { if i < n { let v = s.u8(); c.push_back(Ct(tok(), v)); } }
    let before = made();
    let d = c.clone();
    assert!(made() == before + n, "as many clones as elements");
    assert!(d.len() == n && c.len() == n, "length of the clone");
    for i in 0..cap { if i < n {
        let id = (c[i].0).0;
        assert!(unsafe { CLONES[id as usize] } == 1, "each element is cloned once");
        assert!(d[i].1 == c[i].1, "clone has the same elements");
        assert!((d[i].0).0 != id, "clone shares an element");
    } }
    if s.bool() { drop(c); for i in 0..cap { if i < n { assert!(drops((d[i].0).0) == 0, "dropping the original drops elements of the clone"); } } drop(d); }
    else { drop(d); for i in 0..cap { if i < n { assert!(drops((c[i].0).0) == 0, "dropping the clone drops elements of the original"); } } drop(c); }
    all_gone(3 * cap + 1);
}
fn clone_from_(s: &mut S, cap: usize, cap2: usize) {
    let c = mk(s, cap);
    let m = snap(&c, cap);
    let mut d = mk(s, cap2);
    d.clone_from(&c);
    same(&d, &m, cap);
    same(&c, &m, cap);
    assert!(d.capacity() == cap, "capacity after clone_from");
    fin(c); fin(d);
}
harnesses! { reg_c09, "C09";
    c09_indep_0, 5, |s| clone_indep(s, 0);
    c09_indep_1, 5, |s| clone_indep(s, 1);
    c09_indep_2, 6, |s| clone_indep(s, 2);
    c09_indep_3, 7, |s| clone_indep(s, 3);
    c09_count_1, 6, |s| clone_count(s, 1);
    c09_count_2, 9, |s| clone_count(s, 2);
    c09_clone_from_2_1, 6, |s| clone_from_(s, 2, 1);
}
harnesses! { reg_c09t, "C09t";
    c09t_indep_4, 8, |s| clone_indep(s, 4);
    c09t_indep_5, 9, |s| clone_indep(s, 5);
    c09t_count_3, 12, |s| clone_count(s, 3);
    c09t_clone_from_1_2, 6, |s| clone_from_(s, 1, 2);
    c09t_clone_from_3_3, 7, |s| clone_from_(s, 3, 3);
}

// C10 ---------------------------------------------------------------------------------------

fn bad(s: &mut S, c: &CB) -> usize { let i = s.usize(); s.assume(i >= c.len()); i }
fn index_mp(s: &mut S, cap: usize) { let c = mk(s, cap); let i = bad(s, &c); must_panic("indexing past the end", || c[i]) }
fn index_mut_mp(s: &mut S, cap: usize) { let mut c = mk(s, cap); let i = bad(s, &c); must_panic("mutable indexing past the end", || { c[i] = 1; }) }
fn swap_mp(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let (i, j) = (s.usize(), s.usize());
    s.assume(i >= c.len() || j >= c.len());
    must_panic("swapping past the end", || c.swap(i, j))
}
/// valid positions never panic and show the element at that position
fn valid(s: &mut S, cap: usize) {
    let mut c = mk(s, cap);
    let m = snap(&c, cap);
    let (i, j) = (s.usize(), s.usize());
    s.assume(i < m.n && j < m.n);
    assert!(c[i] == m.a[i], "index");
    c.swap(i, j);
    assert!(c[i] == m.a[j] && c[j] == m.a[i], "swap");
    c[i] = 7;
    assert!(c[i] == 7, "mutable index");
    fin(c);
}
harnesses! { reg_c10, "C10";
    c10_wide_mp, 262, |s| { let (c, _) = wide(s); let i = bad(s, &c); must_panic("indexing past the end", || c[i]) };
    c10_wide_swap_mp, 262, |s| { let (mut c, _) = wide(s); let (i, k) = (bad(s, &c), s.below(7)); must_panic("swapping past the end", || c.swap(k, i)) };
    c10_index_0_mp, 5, |s| index_mp(s, 0);
    c10_index_1_mp, 5, |s| index_mp(s, 1);
    c10_index_2_mp, 6, |s| index_mp(s, 2);
    c10_index_3_mp, 7, |s| index_mp(s, 3);
    c10_index_mut_0_mp, 5, |s| index_mut_mp(s, 0);
    c10_index_mut_1_mp, 5, |s| index_mut_mp(s, 1);
    c10_index_mut_3_mp, 7, |s| index_mut_mp(s, 3);
    c10_swap_0_mp, 5, |s| swap_mp(s, 0);
    c10_swap_1_mp, 5, |s| swap_mp(s, 1);
    c10_swap_2_mp, 6, |s| swap_mp(s, 2);
    c10_swap_3_mp, 7, |s| swap_mp(s, 3);
    c10_valid_1, 5, |s| valid(s, 1);
    c10_valid_3, 7, |s| valid(s, 3);
    c10_valid_4, 8, |s| valid(s, 4);
}
harnesses! { reg_c10t, "C10t";
    c10t_index_5_mp, 9, |s| index_mp(s, 5);
    c10t_index_8_mp, 12, |s| index_mp(s, 8);
    c10t_index_mut_5_mp, 9, |s| index_mut_mp(s, 5);
    c10t_swap_5_mp, 9, |s| swap_mp(s, 5);
    c10t_valid_8, 12, |s| valid(s, 8);
}

// C11 ---------------------------------------------------------------------------------------

/// Drives a buffer of Ts; `what` chooses the operations.
fn types<T: Clone + PartialEq>(s: &mut S, what: usize, mut f: impl FnMut(&mut S) -> T) {
    let mut c: CircularBuffer<T> = CircularBuffer::new(2);
    let (a, b, d) = (f(s), f(s), f(s));
    assert!(c.len() == 0 && c.first().is_none(), "new buffer is not empty");
    match what {
        0 => {
            assert!(c.pop_back().is_none(), "new buffer is not empty");
            c.push_back(a.clone());
            c.push_back(b);
            c.push_front(d.clone());
            assert!(c.len() == 2 && c[0] == d && c[1] == a, "content");
            assert!(c.pop_front() == Some(d), "pop_front");
            assert!(c.pop_back() == Some(a), "pop_back");
            assert!(c.len() == 0, "length");
            drop(c);
        }
        1 => {
            c.push_back(a.clone());
            c.push_back(b.clone());
            c.resize(3);
            assert!(c.len() == 2 && c[0] == a && c[1] == b, "content after growing");
            c.push_back(d.clone());
            c.resize(1);
            assert!(c.len() == 1 && c[0] == d, "content after shrinking");
            fin(c);
        }
        2 => {
            c.push_back(a);
            c.push_back(b.clone());
            c.push_back(d.clone());
            { let l = c.linearize(); assert!(l.len() == 2 && l[0] == b && l[1] == d, "linearized"); }
            { let e = c.clone(); assert!(e.len() == 2 && e[0] == b && e[1] == d, "clone"); fin(e); }
            c.clear();
            assert!(c.len() == 0, "clear");
            fin(c);
        }
        _ => {
            c.push_front(a.clone());
            c.push_front(b.clone());
            c.reverse();
            assert!(c[0] == a && c[1] == b, "reversed");
            c.swap(0, 1);
            assert!(c.first() == Some(&b) && c.last() == Some(&a), "swapped");
            assert!(c.drain().next() == Some(b), "drain");
            c.extend(std::iter::once(d.clone()));
            let mut it = c.into_iter();
            assert!(it.next() == Some(a) && it.next() == Some(d) && it.next().is_none(), "consuming iteration");
        }
    }
}
fn types_conv<T: Clone + PartialEq>(s: &mut S, how: usize, mut f: impl FnMut(&mut S) -> T) {
    let (a, b, d) = (f(s), f(s), f(s));
    let v = vec![a.clone(), b.clone()];
    let mut c = match how { 0 => CircularBuffer::from(v), 1 => CircularBuffer::from_iter(v), _ => CircularBuffer::from_iter(v.iter()) };
    assert!(c.len() == 2 && c.capacity() == 2 && c[0] == a && c[1] == b, "conversion");
    c.push_back(d.clone());
    assert!(c.pop_front() == Some(b), "pop_front");
    let mut it = c.into_iter();
    assert!(it.next() == Some(d) && it.next().is_none(), "consuming iteration");
}
fn t_char(s: &mut S) -> char { (b'a' + s.below(26) as u8) as char }
fn t_bool(s: &mut S) -> bool { s.bool() }
fn t_ref(s: &mut S) -> &'static u8 { static V: [u8; 3] = [1, 2, 3]; &V[s.below(3)] }
fn t_box(s: &mut S) -> Box<u8> { Box::new(s.u8()) }
fn t_nz(s: &mut S) -> std::num::NonZeroU8 { std::num::NonZeroU8::new(1 + s.below(255) as u8).unwrap() }
fn t_unit(_: &mut S) {}
#[derive(Clone, Copy, PartialEq)]
enum En { A, B }
fn t_enum(s: &mut S) -> En { if s.bool() { En::A } else { En::B } }
fn t_big(s: &mut S) -> (u64, u16, [u16; 3]) { (s.u64(), s.u8() as u16, [s.u8() as u16; 3]) }
fn t_zst_arr(_: &mut S) -> [u64; 0] { [] }
fn yes() -> bool { true }
fn no() -> bool { false }
fn t_fn_new(s: &mut S) {
    let mut c: CircularBuffer<fn() -> bool> = CircularBuffer::new(2);
    let b = s.bool();
    let f: fn() -> bool = if b { yes } else { no };
    c.push_front(no);
    c.push_back(f);
    c.resize(1);
    let g = c.pop_front();
    assert!(g.is_some() && g.unwrap()() == b, "content");
}
// Fixed values for resizing: with symbolic ones the solver cannot tell when a drain of values
// with a niche ends, and sizes of allocations become symbolic.
fn u_char(i: usize) -> char { ['a', 'z', '\0'][i] }
fn u_bool(i: usize) -> bool { i != 1 }
fn u_ref(i: usize) -> &'static u8 { static V: [u8; 3] = [11, 22, 33]; &V[i] }
fn u_nz(i: usize) -> std::num::NonZeroU8 { std::num::NonZeroU8::new(i as u8 + 1).unwrap() }
fn u_enum(i: usize) -> En { if i == 0 { En::A } else { En::B } }
fn fixed<T: Clone + PartialEq>(f: fn(usize) -> T) -> impl FnMut(&mut S) -> T { let mut i = 0; move |_| { i += 1; f(i - 1) } }
fn t_vec(s: &mut S) -> Vec<u8> { vec![s.u8()] }
harnesses! { reg_c11, "C11";
    c11_char_0, 7, |s| types(s, 0, t_char);
    c11_char_1, 7, |s| types(s, 1, fixed(u_char));
    c11_char_2, 7, |s| types(s, 2, t_char);
    c11_char_3, 7, |s| types(s, 3, t_char);
    c11_bool_0, 7, |s| types(s, 0, t_bool);
    c11_bool_1, 7, |s| types(s, 1, fixed(u_bool));
    c11_bool_2, 7, |s| types(s, 2, t_bool);
    c11_bool_3, 7, |s| types(s, 3, t_bool);
    c11_ref_0, 7, |s| types(s, 0, t_ref);
    c11_ref_1, 7, |s| types(s, 1, fixed(u_ref));
    c11_ref_2, 7, |s| types(s, 2, t_ref);
    c11_ref_3, 7, |s| types(s, 3, t_ref);
    c11_box_0, 7, |s| types(s, 0, t_box);
    c11_box_1, 7, |s| types(s, 1, t_box);
    c11_box_2, 7, |s| types(s, 2, t_box);
    c11_box_3, 7, |s| types(s, 3, t_box);
    c11_nz_0, 7, |s| types(s, 0, t_nz);
    c11_nz_1, 7, |s| types(s, 1, fixed(u_nz));
    c11_nz_2, 7, |s| types(s, 2, t_nz);
    c11_nz_3, 7, |s| types(s, 3, t_nz);
    c11_unit_0, 7, |s| types(s, 0, t_unit);
    c11_unit_1, 7, |s| types(s, 1, t_unit);
    c11_unit_2, 7, |s| types(s, 2, t_unit);
    c11_unit_3, 7, |s| types(s, 3, t_unit);
    c11_enum_0, 7, |s| types(s, 0, t_enum);
    c11_enum_1, 7, |s| types(s, 1, fixed(u_enum));
    c11_enum_2, 7, |s| types(s, 2, t_enum);
    c11_enum_3, 7, |s| types(s, 3, t_enum);
    c11_fn, 8, |s| t_fn_new(s);
    c11_conv_char_0, 8, |s| types_conv(s, 0, t_char);
    c11_conv_char_1, 8, |s| types_conv(s, 1, t_char);
    c11_conv_char_2, 8, |s| types_conv(s, 2, t_char);
    c11_conv_box_0, 8, |s| types_conv(s, 0, t_box);
    c11_conv_box_1, 8, |s| types_conv(s, 1, t_box);
    c11_conv_box_2, 8, |s| types_conv(s, 2, t_box);
    c11_conv_ref_0, 8, |s| types_conv(s, 0, t_ref);
    c11_conv_ref_1, 8, |s| types_conv(s, 1, t_ref);
    c11_conv_ref_2, 8, |s| types_conv(s, 2, t_ref);
    c11_conv_unit_0, 8, |s| types_conv(s, 0, t_unit);
    c11_conv_unit_1, 8, |s| types_conv(s, 1, t_unit);
    c11_conv_unit_2, 8, |s| types_conv(s, 2, t_unit);
}
harnesses! { reg_c11t, "C11t";
    c11t_char_0, 7, |s| types(s, 0, t_char);
    c11t_char_1, 7, |s| types(s, 1, fixed(u_char));
    c11t_char_2, 7, |s| types(s, 2, t_char);
    c11t_char_3, 7, |s| types(s, 3, t_char);
    c11t_bool_0, 7, |s| types(s, 0, t_bool);
    c11t_bool_1, 7, |s| types(s, 1, fixed(u_bool));
    c11t_bool_2, 7, |s| types(s, 2, t_bool);
    c11t_bool_3, 7, |s| types(s, 3, t_bool);
    c11t_ref_0, 7, |s| types(s, 0, t_ref);
    c11t_ref_1, 7, |s| types(s, 1, fixed(u_ref));
    c11t_ref_2, 7, |s| types(s, 2, t_ref);
    c11t_ref_3, 7, |s| types(s, 3, t_ref);
    c11t_box_0, 7, |s| types(s, 0, t_box);
    c11t_box_1, 7, |s| types(s, 1, t_box);
    c11t_box_2, 7, |s| types(s, 2, t_box);
    c11t_box_3, 7, |s| types(s, 3, t_box);
    c11t_nz_0, 7, |s| types(s, 0, t_nz);
    c11t_nz_1, 7, |s| types(s, 1, fixed(u_nz));
    c11t_nz_2, 7, |s| types(s, 2, t_nz);
    c11t_nz_3, 7, |s| types(s, 3, t_nz);
    c11t_unit_0, 7, |s| types(s, 0, t_unit);
    c11t_unit_1, 7, |s| types(s, 1, t_unit);
    c11t_unit_2, 7, |s| types(s, 2, t_unit);
    c11t_unit_3, 7, |s| types(s, 3, t_unit);
    c11t_enum_0, 7, |s| types(s, 0, t_enum);
    c11t_enum_1, 7, |s| types(s, 1, fixed(u_enum));
    c11t_enum_2, 7, |s| types(s, 2, t_enum);
    c11t_enum_3, 7, |s| types(s, 3, t_enum);
    c11t_vec_0, 7, |s| types(s, 0, t_vec);
    c11t_vec_2, 7, |s| types(s, 2, t_vec);
    c11t_vec_3, 7, |s| types(s, 3, t_vec);
    c11t_big_0, 7, |s| types(s, 0, t_big);
    c11t_big_1, 7, |s| types(s, 1, t_big);
    c11t_big_2, 7, |s| types(s, 2, t_big);
    c11t_big_3, 7, |s| types(s, 3, t_big);
    c11t_zst_arr_0, 7, |s| types(s, 0, t_zst_arr);
    c11t_zst_arr_1, 7, |s| types(s, 1, t_zst_arr);
    c11t_zst_arr_2, 7, |s| types(s, 2, t_zst_arr);
    c11t_zst_arr_3, 7, |s| types(s, 3, t_zst_arr);
    c11t_conv_nz_0, 8, |s| types_conv(s, 0, t_nz);
    c11t_conv_nz_1, 8, |s| types_conv(s, 1, t_nz);
    c11t_conv_nz_2, 8, |s| types_conv(s, 2, t_nz);
    c11t_conv_bool_0, 8, |s| types_conv(s, 0, t_bool);
    c11t_conv_bool_1, 8, |s| types_conv(s, 1, t_bool);
    c11t_conv_bool_2, 8, |s| types_conv(s, 2, t_bool);
    c11t_conv_vec_0, 8, |s| types_conv(s, 0, t_vec);
    c11t_conv_vec_1, 8, |s| types_conv(s, 1, t_vec);
    c11t_conv_vec_2, 8, |s| types_conv(s, 2, t_vec);
    c11t_conv_big_0, 8, |s| types_conv(s, 0, t_big);
    c11t_conv_big_1, 8, |s| types_conv(s, 1, t_big);
    c11t_conv_big_2, 8, |s| types_conv(s, 2, t_big);
}

// C12 ---------------------------------------------------------------------------------------

/// single pushes and pops: every element that stays in the buffer keeps its address
fn addr_op(s: &mut S, c: &mut CB, cap: usize, op: usize) {
    let n = c.len();
    let mut p: [*const u8; W] = [std::ptr::null(); W];
    for i in 0..cap { if i < n { p[i] = &c[i]; } }
    // how far positions move: element i is afterwards at position i + add_front - drop_front
    let (drop_front, drop_back, add_front) = match op {
        0 => { let v = s.u8(); c.push_back(v); ((n == cap) as usize, 0, 0) }
        1 => { let v = s.u8(); c.push_front(v); (0, (n == cap) as usize, 1) }
        2 => { c.pop_back(); (0, 1, 0) }
        _ => { c.pop_front(); (1, 0, 0) }
    };
    for i in 0..cap {
        if i >= drop_front && i + drop_back < n {
            assert!(&c[i + add_front - drop_front] as *const u8 == p[i], "an element that stayed was moved");
        }
    }
}
fn addr(s: &mut S, cap: usize, k: usize) {
    let mut c = mk(s, cap);
    for _ in 0..k { let op = s.below(4); addr_op(s, &mut c, cap, op); }
    fin(c);
}
/// every arrangement of `n` elements and the operation one after another
fn addr_grid(s: &mut S, cap: usize, n: usize, op: usize) {
    for rot in 0..cap + 1 {
        let mut c = mk_at(s, cap, rot, n);
        addr_op(s, &mut c, cap, op);
        fin(c);
    }
}
fn addr_word(s: &mut S, cap: usize) {
    let mut c: CircularBuffer<u64> = CircularBuffer::new(cap);
    let r = s.below(cap + 1);
    for i in 0..cap { if i < r { c.push_back(0); c.pop_front(); } }
    c.push_back(s.u64());
    let p: *const u64 = &c[0];
    for _ in 1..cap { if s.bool() { c.push_back(1); } else { c.push_front(1); } }
    let n = c.len();
    let mut found = false;
    for i in 0..cap { if i < n && &c[i] as *const u64 == p { found = true; } }
    assert!(found, "an element that stayed was moved");
}
harnesses! { reg_c12, "C12";
    c12_grid_2_1_0, 6, |s| addr_grid(s, 2, 1, 0);
    c12_grid_2_1_1, 6, |s| addr_grid(s, 2, 1, 1);
    c12_grid_2_1_2, 6, |s| addr_grid(s, 2, 1, 2);
    c12_grid_2_1_3, 6, |s| addr_grid(s, 2, 1, 3);
    c12_grid_2_2_0, 6, |s| addr_grid(s, 2, 2, 0);
    c12_grid_2_2_1, 6, |s| addr_grid(s, 2, 2, 1);
    c12_grid_2_2_2, 6, |s| addr_grid(s, 2, 2, 2);
    c12_grid_2_2_3, 6, |s| addr_grid(s, 2, 2, 3);
    c12_grid_3_1_0, 7, |s| addr_grid(s, 3, 1, 0);
    c12_grid_3_1_1, 7, |s| addr_grid(s, 3, 1, 1);
    c12_grid_3_1_2, 7, |s| addr_grid(s, 3, 1, 2);
    c12_grid_3_1_3, 7, |s| addr_grid(s, 3, 1, 3);
    c12_grid_3_2_0, 7, |s| addr_grid(s, 3, 2, 0);
    c12_grid_3_2_1, 7, |s| addr_grid(s, 3, 2, 1);
    c12_grid_3_2_2, 7, |s| addr_grid(s, 3, 2, 2);
    c12_grid_3_2_3, 7, |s| addr_grid(s, 3, 2, 3);
    c12_grid_3_3_0, 7, |s| addr_grid(s, 3, 3, 0);
    c12_grid_3_3_1, 7, |s| addr_grid(s, 3, 3, 1);
    c12_grid_3_3_2, 7, |s| addr_grid(s, 3, 3, 2);
    c12_grid_3_3_3, 7, |s| addr_grid(s, 3, 3, 3);
    c12_addr_1, 5, |s| addr(s, 1, 2);
    c12_addr_2, 6, |s| addr(s, 2, 2);
    c12_addr_3, 7, |s| addr(s, 3, 2);
    c12_addr_4, 8, |s| addr(s, 4, 1);
    c12_addr_5, 9, |s| addr(s, 5, 1);
    c12_word_3, 7, |s| addr_word(s, 3);
}
harnesses! { reg_c12t, "C12t";
    c12t_grid_4_1_0, 8, |s| addr_grid(s, 4, 1, 0);
    c12t_grid_4_1_1, 8, |s| addr_grid(s, 4, 1, 1);
    c12t_grid_4_1_2, 8, |s| addr_grid(s, 4, 1, 2);
    c12t_grid_4_1_3, 8, |s| addr_grid(s, 4, 1, 3);
    c12t_grid_4_2_0, 8, |s| addr_grid(s, 4, 2, 0);
    c12t_grid_4_2_1, 8, |s| addr_grid(s, 4, 2, 1);
    c12t_grid_4_2_2, 8, |s| addr_grid(s, 4, 2, 2);
    c12t_grid_4_2_3, 8, |s| addr_grid(s, 4, 2, 3);
    c12t_grid_4_3_0, 8, |s| addr_grid(s, 4, 3, 0);
    c12t_grid_4_3_1, 8, |s| addr_grid(s, 4, 3, 1);
    c12t_grid_4_3_2, 8, |s| addr_grid(s, 4, 3, 2);
    c12t_grid_4_3_3, 8, |s| addr_grid(s, 4, 3, 3);
    c12t_grid_4_4_0, 8, |s| addr_grid(s, 4, 4, 0);
    c12t_grid_4_4_1, 8, |s| addr_grid(s, 4, 4, 1);
    c12t_grid_4_4_2, 8, |s| addr_grid(s, 4, 4, 2);
    c12t_grid_4_4_3, 8, |s| addr_grid(s, 4, 4, 3);
    c12t_addr_2, 6, |s| addr(s, 2, 4);
    c12t_addr_3, 7, |s| addr(s, 3, 3);
    c12t_addr_6, 10, |s| addr(s, 6, 2);
    c12t_addr_8, 12, |s| addr(s, 8, 1);
    c12t_word_5, 9, |s| addr_word(s, 5);
}
