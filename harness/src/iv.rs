//! Intervals and their bounds. The oracle sees an interval as a set of points of a dense order:
//! in doubled coordinates value v is the point 2v and 2v+1 stands for everything between v and
//! v+1, so an open lower bound at v starts at 2v+1 and an open upper one ends at 2v-1.
#![allow(dead_code)]
use crate::s::{must_panic, S};
#[allow(unused_imports)]
use crate::{harnesses, witness};
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

type Iv = Interval<i32>;
type Lo = LowerBound<i32>;
type Up = UpperBound<i32>;
/// lower value, closed, upper value, closed; None: empty
type M = Option<(i32, bool, i32, bool)>;

fn valid4<T: Ord>(l: &T, lc: bool, u: &T, uc: bool) -> bool { l < u || (l == u && lc && uc) }
fn dl(v: i32, c: bool) -> i64 { 2 * v as i64 + if c { 0 } else { 1 } }
fn du(v: i32, c: bool) -> i64 { 2 * v as i64 - if c { 0 } else { 1 } }
/// first and last point
fn ends(m: M) -> Option<(i64, i64)> { m.map(|(l, lc, u, uc)| (dl(l, lc), du(u, uc))) }
fn has(m: M, q: i64) -> bool { match ends(m) { None => false, Some((a, b)) => a <= q && q <= b } }
fn point(s: &mut S) -> i64 { let q = s.i64(); s.assume(q >= -(1 << 34) && q <= (1 << 34)); q }

fn m_nonempty(s: &mut S) -> (i32, bool, i32, bool) {
    let (l, lc, u, uc) = (s.i32(), s.bool(), s.i32(), s.bool());
    s.assume(valid4(&l, lc, &u, uc));
    (l, lc, u, uc)
}
fn iv(m: M) -> Iv { match m { None => Interval::empty(), Some((l, lc, u, uc)) => Interval::new(l, lc, u, uc) } }
/// any interval: empty or not
fn mk(s: &mut S) -> (Iv, M) {
    let m = if s.bool() { Some(m_nonempty(s)) } else { None };
    (iv(m), m)
}
/// any interval, but reached through an operation
fn mk_hist(s: &mut S) -> Iv {
    let k = s.below(6);
    let (a, _) = mk(s);
    let (b, _) = mk(s);
    let mut r = a;
    match k {
        0 => r.span(b),
        1 => r.intersection(b),
        2 => { let _ = r.merge(b); }
        3 => { r = a.into_span(b) }
        4 => { r = a.into_intersection(b) }
        _ => {
            let d = s.i32();
            let m = get(&a);
            if let Some((l, _, u, _)) = m { s.assume(l.checked_add(d).is_some() && u.checked_add(d).is_some()); }
            r += d;
        }
    }
    r
}
fn get<T: Ord + Copy>(i: &Interval<T>) -> Option<(T, bool, T, bool)> {
    i.bounds().map(|(l, u)| (*l.val(), l.is_closed(), *u.val(), u.is_closed()))
}
fn same(i: &Iv, m: M) -> bool { get(i) == m && i.is_empty() == m.is_none() }

/// the rule every interval obeys, and agreement of all accessors
fn lawful<T: Ord + Copy>(i: &Interval<T>) {
    match i.bounds() {
        None => {
            assert!(i.is_empty() && i.lower().is_none() && i.upper().is_none(), "empty: accessors");
            assert!(i.is_lower_closed().is_none() && i.is_upper_closed().is_none() && !i.is_single(), "empty: closedness");
            assert!(i.into_tuple().is_none(), "empty: into_tuple");
            assert!(i.into_bounds().is_none(), "empty: into_bounds");
        }
        Some((l, u)) => {
            let (l, lc, u, uc) = (*l.val(), l.is_closed(), *u.val(), u.is_closed());
            assert!(valid4(&l, lc, &u, uc), "a non-empty interval obeys the rule");
            assert!(!i.is_empty(), "not empty");
            assert!(i.is_single() == (l == u), "is_single");
            assert!(i.is_lower_closed() == Some(lc) && i.is_upper_closed() == Some(uc), "closedness");
            let (a, b) = (i.lower().unwrap(), i.upper().unwrap());
            assert!(*a.val() == l && a.is_closed() == lc, "lower");
            assert!(*b.val() == u && b.is_closed() == uc, "upper");
            let t = i.into_tuple().unwrap();
            assert!(t.0 == l && t.1 == lc && t.2 == u && t.3 == uc, "into_tuple");
            let (a, b) = i.into_bounds().unwrap();
            let (av, ac) = a.into_tuple();
            let (bv, bc) = b.into_tuple();
            assert!(av == l && ac == lc && bv == u && bc == uc, "into_bounds");
        }
    }
}
fn built(i: Iv, m: M) { lawful(&i); assert!(same(&i, m), "exactly the bounds it was built with"); }

// -- I01 ---------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
/// arithmetic that saturates
pub struct Sat(i32);
impl std::ops::Add for Sat { type Output = Sat; fn add(self, o: Sat) -> Sat { Sat(self.0.saturating_add(o.0)) } }
impl std::ops::Sub for Sat { type Output = Sat; fn sub(self, o: Sat) -> Sat { Sat(self.0.saturating_sub(o.0)) } }
impl std::ops::AddAssign for Sat { fn add_assign(&mut self, o: Sat) { *self = *self + o } }
impl std::ops::SubAssign for Sat { fn sub_assign(&mut self, o: Sat) { *self = *self - o } }
impl std::ops::Neg for Sat { type Output = Sat; fn neg(self) -> Sat { Sat(self.0.saturating_neg()) } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
/// arithmetic that wraps
pub struct Wr(i32);
impl std::ops::Add for Wr { type Output = Wr; fn add(self, o: Wr) -> Wr { Wr(self.0.wrapping_add(o.0)) } }
impl std::ops::Sub for Wr { type Output = Wr; fn sub(self, o: Wr) -> Wr { Wr(self.0.wrapping_sub(o.0)) } }
impl std::ops::Mul for Wr { type Output = Wr; fn mul(self, o: Wr) -> Wr { Wr(self.0.wrapping_mul(o.0)) } }
impl std::ops::AddAssign for Wr { fn add_assign(&mut self, o: Wr) { *self = *self + o } }
impl std::ops::SubAssign for Wr { fn sub_assign(&mut self, o: Wr) { *self = *self - o } }
impl std::ops::MulAssign for Wr { fn mul_assign(&mut self, o: Wr) { *self = *self * o } }
impl std::ops::Neg for Wr { type Output = Wr; fn neg(self) -> Wr { Wr(self.0.wrapping_neg()) } }

fn mk_of<T: Ord + Copy>(s: &mut S, f: fn(i32) -> T) -> Interval<T> {
    let (l, lc, u, uc) = m_nonempty(s);
    Interval::new(f(l), lc, f(u), uc)
}
fn invalid(s: &mut S, lc: bool, uc: bool) -> (i32, i32) {
    let (l, u) = (s.i32(), s.i32());
    s.assume(!valid4(&l, lc, &u, uc));
    (l, u)
}
fn div_ok(v: i32, d: i32) -> bool { d != 0 && !(v == i32::MIN && d == -1) }

harnesses! { reg_i01, "I01";
    i01_new, 4, |s| { let m = m_nonempty(s); built(Interval::new(m.0, m.1, m.2, m.3), Some(m)); };
    i01_from_bounds, 4, |s| { let m = m_nonempty(s); built(Interval::from_bounds(Lo::new(m.0, m.1), Up::new(m.2, m.3)), Some(m)); };
    i01_open, 4, |s| { let (a, b) = (s.i32(), s.i32()); s.assume(a < b); built(Interval::open(a, b), Some((a, false, b, false))); };
    i01_closed, 4, |s| { let (a, b) = (s.i32(), s.i32()); s.assume(a <= b); built(Interval::closed(a, b), Some((a, true, b, true))); };
    i01_lower_closed, 4, |s| { let (a, b) = (s.i32(), s.i32()); s.assume(a < b); built(Interval::lower_closed(a, b), Some((a, true, b, false))); };
    i01_upper_closed, 4, |s| { let (a, b) = (s.i32(), s.i32()); s.assume(a < b); built(Interval::upper_closed(a, b), Some((a, false, b, true))); };
    i01_single, 4, |s| { let a = s.i32(); built(Interval::single(a), Some((a, true, a, true))); };
    i01_empty, 4, |_s| { built(Interval::empty(), None); };
    i01_bounds_new, 4, |s| {
        let (v, c) = (s.i32(), s.bool());
        let (l, u) = (Lo::new(v, c), Up::new(v, c));
        assert!(*l.val() == v && l.is_closed() == c && *u.val() == v && u.is_closed() == c, "accessors of a bound");
        assert!(l.into_tuple() == (v, c) && u.into_tuple() == (v, c), "into_tuple of a bound");
    };
    i01_roundtrip, 4, |s| {
        let (i, m) = mk(s);
        if let Some((l, u)) = i.into_bounds() { built(Interval::from_bounds(l, u), m); }
        if let Some((l, lc, u, uc)) = i.into_tuple() { built(Interval::new(l, lc, u, uc), m); }
        let c = i.clone();
        built(c, m);
    };
    i01_new_mp, 4, |s| { let (lc, uc) = (s.bool(), s.bool()); let (l, u) = invalid(s, lc, uc); must_panic("new", || Interval::new(l, lc, u, uc)); };
    i01_from_bounds_mp, 4, |s| { let (lc, uc) = (s.bool(), s.bool()); let (l, u) = invalid(s, lc, uc); must_panic("from_bounds", || Interval::from_bounds(Lo::new(l, lc), Up::new(u, uc))); };
    i01_open_mp, 4, |s| { let (l, u) = invalid(s, false, false); must_panic("open", || Interval::open(l, u)); };
    i01_closed_mp, 4, |s| { let (l, u) = invalid(s, true, true); must_panic("closed", || Interval::closed(l, u)); };
    i01_lower_closed_mp, 4, |s| { let (l, u) = invalid(s, true, false); must_panic("lower_closed", || Interval::lower_closed(l, u)); };
    i01_upper_closed_mp, 4, |s| { let (l, u) = invalid(s, false, true); must_panic("upper_closed", || Interval::upper_closed(l, u)); };
    i01_op_intersection, 4, |s| { let (mut a, _) = mk(s); let (b, _) = mk(s); lawful(&a.into_intersection(b)); a.intersection(b); lawful(&a); };
    i01_op_merge, 4, |s| {
        let (mut a, _) = mk(s); let (b, _) = mk(s);
        match a.into_merged(b) { Ok(c) => lawful(&c), Err((x, y)) => { lawful(&x); lawful(&y) } }
        if let Err(x) = a.merge(b) { lawful(&x) }
        lawful(&a);
    };
    i01_op_span, 4, |s| { let (mut a, _) = mk(s); let (b, _) = mk(s); lawful(&a.into_span(b)); a.span(b); lawful(&a); };
    i01_op_chain, 4, |s| { let i = mk_hist(s); lawful(&i); let mut j = i; let (b, _) = mk(s); match s.below(3) { 0 => j.span(b), 1 => j.intersection(b), _ => { let _ = j.merge(b); } } lawful(&j); };
    i01_op_wrap, 4, |s| { let mut i = mk_of(s, Wr); let d = Wr(s.i32()); lawful(&(i + d)); lawful(&(i - d)); lawful(&-i); if s.bool() { i += d } else { i -= d } lawful(&i); };
    i01_op_sat, 4, |s| { let mut i = mk_of(s, Sat); let d = Sat(s.i32()); lawful(&(i + d)); lawful(&(i - d)); lawful(&-i); if s.bool() { i += d } else { i -= d } lawful(&i); };
    i01_op_mul, 4, |s| {
        let (mut i, _) = mk16(s); let d = s.i8() as i16;
        lawful(&(i * d)); i *= d; lawful(&i);
    };
    i01_op_div, 4, |s| {
        let (mut i, _) = mk16(s); let d = s.i8() as i16; s.assume(d != 0);
        lawful(&(i / d)); i /= d; lawful(&i);
    };
}
harnesses! { reg_i01t, "I01t";
    i01_t_mul_wrap, 4, |s| { let mut i = mk_of(s, Wr); let d = Wr(s.i32()); lawful(&(i * d)); i *= d; lawful(&i); };
    i01_t_div, 4, |s| {
        let mut i = mk_of(s, |x| x); let d = s.i32(); let m = get(&i).unwrap(); s.assume(div_ok(m.0, d) && div_ok(m.2, d));
        lawful(&(i / d)); i /= d; lawful(&i);
    };
    i01_t_chain, 4, |s| { let i = mk_hist(s); let mut j = mk_hist(s); lawful(&j); match s.below(3) { 0 => j.span(i), 1 => j.intersection(i), _ => { let _ = j.merge(i); } } lawful(&j); let (b, _) = mk(s); j.intersection(b); lawful(&j); j.span(b); lawful(&j); };
}

// -- I02 ---------------------------------------------------------------------------------------
harnesses! { reg_i02, "I02";
    i02_any, 4, |s| { let (i, m) = mk(s); let v = s.i32(); assert!(i.contains_val(&v) == has(m, 2 * v as i64), "contained exactly when between the bounds"); };
    i02_empty, 4, |s| { let v = s.i32(); assert!(!Iv::empty().contains_val(&v), "the empty interval contains no value"); };
    i02_single, 4, |s| { let (a, v) = (s.i32(), s.i32()); assert!(Interval::single(a).contains_val(&v) == (a == v), "a single value contains itself only"); };
    i02_hist, 4, |s| { let i = mk_hist(s); let m = get(&i); let v = s.i32(); assert!(i.contains_val(&v) == has(m, 2 * v as i64), "contained exactly when between the bounds"); };
    i02_u8, 4, |s| {
        let (l, lc, u, uc, v) = (s.u8(), s.bool(), s.u8(), s.bool(), s.u8());
        s.assume(valid4(&l, lc, &u, uc));
        let i = Interval::new(l, lc, u, uc);
        assert!(i.contains_val(&v) == ((l < v || l == v && lc) && (v < u || v == u && uc)), "contained exactly when between the bounds");
    };
}
harnesses! { reg_i02t, "I02t";
    i02_t_i64, 4, |s| {
        let (l, lc, u, uc, v) = (s.i64(), s.bool(), s.i64(), s.bool(), s.i64());
        s.assume(valid4(&l, lc, &u, uc));
        let i = Interval::new(l, lc, u, uc);
        assert!(i.contains_val(&v) == ((l < v || l == v && lc) && (v < u || v == u && uc)), "contained exactly when between the bounds");
    };
}

// -- I03 ---------------------------------------------------------------------------------------
fn subset(a: &Iv, ma: M, b: &Iv, mb: M, q: i64) {
    let c = a.contains_interval(b);
    if c { assert!(!has(mb, q) || has(ma, q), "contained: no point of the second is outside the first"); }
    match ends(mb) {
        None => assert!(c, "the empty interval is contained"),
        Some((x, y)) => assert!(c || !has(ma, x) || !has(ma, y), "not contained: a point is outside"),
    }
    if ma.is_none() { assert!(c == mb.is_none(), "the empty interval contains only itself"); }
}
harnesses! { reg_i03, "I03";
    i03_any, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); subset(&a, ma, &b, mb, q); };
    i03_self, 4, |s| { let (a, _) = mk(s); assert!(a.contains_interval(&a), "an interval contains itself"); };
    i03_hist, 4, |s| { let a = mk_hist(s); let (b, mb) = mk(s); let q = point(s); let ma = get(&a); subset(&a, ma, &b, mb, q); subset(&b, mb, &a, ma, q); };
    i03_values, 4, |s| { let (a, ma) = mk(s); let v = s.i32(); assert!(a.contains_interval(&Interval::single(v)) == has(ma, 2 * v as i64), "a single value is contained like the value"); };
}
harnesses! { reg_i03t, "I03t";
    i03_t_order, 4, |s| {
        let (a, _) = mk(s); let (b, _) = mk(s); let (c, _) = mk(s);
        if a.contains_interval(&b) && b.contains_interval(&c) { assert!(a.contains_interval(&c), "transitive"); }
        if a.contains_interval(&b) && b.contains_interval(&a) { assert!(a == b, "antisymmetric"); }
    };
}

// -- I04 ---------------------------------------------------------------------------------------
fn intersected(a: &Iv, ma: M, b: &Iv, mb: M, q: i64, by_value: bool) {
    let c = if by_value { a.into_intersection(*b) } else { let mut c = *a; c.intersection(*b); c };
    lawful(&c);
    assert!(has(get(&c), q) == (has(ma, q) && has(mb, q)), "exactly the common points");
    assert!(a.intersects(b) == !c.is_empty(), "intersects exactly when the intersection is not empty");
    assert!(b.intersects(a) == !c.is_empty(), "intersects is symmetric");
}
harnesses! { reg_i04, "I04";
    i04_value, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); intersected(&a, ma, &b, mb, q, true); witness!(a.intersects(&b), "witness: they can intersect"); };
    i04_inplace, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); intersected(&a, ma, &b, mb, q, false); };
    i04_empty, 4, |s| {
        let (a, _) = mk(s); let e = Iv::empty();
        assert!(!a.intersects(&e) && !e.intersects(&a), "the empty interval intersects nothing");
        assert!(a.into_intersection(e).is_empty() && e.into_intersection(a).is_empty(), "and gives empty");
        let mut c = a; c.intersection(e); assert!(c.is_empty(), "and gives empty in place");
        let mut c = e; c.intersection(a); assert!(c.is_empty(), "and gives empty in place");
    };
    i04_self, 4, |s| { let (a, m) = mk(s); assert!(same(&a.into_intersection(a), m), "with itself"); let mut c = a; c.intersection(a); assert!(same(&c, m), "with itself, in place"); };
    i04_hist, 4, |s| { let a = mk_hist(s); let (b, mb) = mk(s); let q = point(s); let ma = get(&a); let v = s.bool(); intersected(&a, ma, &b, mb, q, v); };
    i04_hist_rhs, 4, |s| { let b = mk_hist(s); let (a, ma) = mk(s); let q = point(s); let mb = get(&b); let v = s.bool(); intersected(&a, ma, &b, mb, q, v); };
}
harnesses! { reg_i04t, "I04t";
    i04_t_assoc, 4, |s| {
        let (a, _) = mk(s); let (b, _) = mk(s); let (c, _) = mk(s);
        assert!(get(&a.into_intersection(b).into_intersection(c)) == get(&a.into_intersection(b.into_intersection(c))), "associative");
        assert!(get(&a.into_intersection(b)) == get(&b.into_intersection(a)), "commutative");
    };
    i04_t_chain, 4, |s| {
        let (mut a, ma) = mk(s); let (b, mb) = mk(s); let (c, mc) = mk(s); let (d, md) = mk(s); let q = point(s);
        a.intersection(b); a.intersection(c); a.intersection(d);
        assert!(has(get(&a), q) == (has(ma, q) && has(mb, q) && has(mc, q) && has(md, q)), "exactly the common points of four");
    };
}

// -- I05 ---------------------------------------------------------------------------------------
fn mergeable(ma: M, mb: M) -> bool {
    match (ends(ma), ends(mb)) { (Some((a, b)), Some((x, y))) => !(x > b + 1 || a > y + 1), _ => true }
}
fn merged(a: &Iv, ma: M, b: &Iv, mb: M, q: i64, by_value: bool) {
    let can = mergeable(ma, mb);
    assert!(a.can_be_merged(b) == can && b.can_be_merged(a) == can, "can be merged exactly when there is no gap");
    let r = if by_value {
        match a.into_merged(*b) {
            Ok(c) => Some(c),
            Err((x, y)) => { assert!(same(&x, ma) && same(&y, mb), "refused: the operands come back unmodified"); None }
        }
    } else {
        let mut c = *a;
        match c.merge(*b) {
            Ok(()) => Some(c),
            Err(y) => { assert!(same(&y, mb), "refused: the operand comes back"); assert!(same(&c, ma), "refused: the receiver is unmodified"); None }
        }
    };
    assert!(r.is_some() == can, "merging succeeds exactly when there is no gap");
    if let Some(c) = r {
        lawful(&c);
        assert!(has(get(&c), q) == (has(ma, q) || has(mb, q)), "exactly the union");
    }
}
harnesses! { reg_i05, "I05";
    i05_value, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); merged(&a, ma, &b, mb, q, true); };
    i05_inplace, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); merged(&a, ma, &b, mb, q, false); };
    i05_empty, 4, |s| { let (a, ma) = mk(s); let q = point(s); let v = s.bool(); let e = Iv::empty(); merged(&a, ma, &e, None, q, v); merged(&e, None, &a, ma, q, v); };
    i05_self, 4, |s| { let (a, m) = mk(s); let r = a.into_merged(a); assert!(r.is_ok() && same(&r.unwrap(), m), "with itself"); let mut c = a; assert!(c.merge(a).is_ok() && same(&c, m), "with itself, in place"); };
    i05_hist, 4, |s| { let a = mk_hist(s); let (b, mb) = mk(s); let q = point(s); let ma = get(&a); let v = s.bool(); merged(&a, ma, &b, mb, q, v); };
    i05_hist_rhs, 4, |s| { let b = mk_hist(s); let (a, ma) = mk(s); let q = point(s); let mb = get(&b); let v = s.bool(); merged(&a, ma, &b, mb, q, v); };
}
harnesses! { reg_i05t, "I05t";
    i05_t_chain, 4, |s| {
        let (mut a, ma) = mk(s); let (b, mb) = mk(s); let (c, mc) = mk(s); let q = point(s);
        let x = a.merge(b).is_ok(); let y = a.merge(c).is_ok();
        assert!(x == mergeable(ma, mb), "first");
        assert!(has(get(&a), q) == (has(ma, q) || x && has(mb, q) || y && has(mc, q)), "exactly the union of what was merged");
    };
}

// -- I06 ---------------------------------------------------------------------------------------
fn spanned(a: &Iv, ma: M, b: &Iv, mb: M, q: i64, by_value: bool) {
    let c = if by_value { a.into_span(*b) } else { let mut c = *a; c.span(*b); c };
    lawful(&c);
    let mc = get(&c);
    assert!(has(mc, q) || !has(ma, q) && !has(mb, q), "every point of both");
    match (ends(ma), ends(mb)) {
        (Some((a1, a2)), Some((b1, b2))) => {
            assert!(ends(mc) == Some((a1.min(b1), a2.max(b2))), "no larger than necessary");
            let (l, lc, u, uc) = mc.unwrap();
            let (x, y) = (ma.unwrap(), mb.unwrap());
            assert!((l, lc) == (x.0, x.1) || (l, lc) == (y.0, y.1), "the lower bound is one of the operands'");
            assert!((u, uc) == (x.2, x.3) || (u, uc) == (y.2, y.3), "the upper bound is one of the operands'");
        }
        (None, _) => assert!(mc == mb, "the empty interval is neutral"),
        (_, None) => assert!(mc == ma, "the empty interval is neutral"),
    }
}
harnesses! { reg_i06, "I06";
    i06_value, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); spanned(&a, ma, &b, mb, q, true); };
    i06_inplace, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); let q = point(s); spanned(&a, ma, &b, mb, q, false); };
    i06_hist, 4, |s| { let a = mk_hist(s); let (b, mb) = mk(s); let q = point(s); let ma = get(&a); let v = s.bool(); spanned(&a, ma, &b, mb, q, v); };
    i06_hist_rhs, 4, |s| { let b = mk_hist(s); let (a, ma) = mk(s); let q = point(s); let mb = get(&b); let v = s.bool(); spanned(&a, ma, &b, mb, q, v); };
}
harnesses! { reg_i06t, "I06t";
    i06_t_least, 4, |s| {
        let (a, _) = mk(s); let (b, _) = mk(s); let (c, _) = mk(s);
        let r = a.into_span(b);
        assert!(r.contains_interval(&a) && r.contains_interval(&b), "covers both");
        if c.contains_interval(&a) && c.contains_interval(&b) { assert!(c.contains_interval(&r), "contained in everything that covers both"); }
        assert!(get(&b.into_span(a)) == get(&r), "commutative");
        assert!(get(&a.into_span(b).into_span(c)) == get(&a.into_span(b.into_span(c))), "associative");
    };
}

// -- I07 ---------------------------------------------------------------------------------------
fn below(a: M, b: M) -> bool { match (ends(a), ends(b)) { (Some((_, x)), Some((y, _))) => x < y, _ => false } }
/// every point of a is at most every point of b: they share at most the value where they meet
fn at_most(a: M, b: M) -> bool { match (ends(a), ends(b)) { (Some((_, x)), Some((y, _))) => x < y || x == y && x % 2 == 0, _ => false } }
fn compared(a: &Iv, ma: M, b: &Iv, mb: M) {
    assert!((a < b) == below(ma, mb), "<");
    assert!((a > b) == below(mb, ma), ">");
    assert!((a <= b) == at_most(ma, mb), "<=");
    assert!((a >= b) == at_most(mb, ma), ">=");
    let p = a.partial_cmp(b);
    assert!((p == Some(Ordering::Less)) == below(ma, mb), "partial_cmp: less");
    assert!((p == Some(Ordering::Greater)) == below(mb, ma), "partial_cmp: greater");
    assert!((p == Some(Ordering::Equal)) == (ma == mb), "partial_cmp: equal");
}
harnesses! { reg_i07, "I07";
    i07_any, 4, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); compared(&a, ma, &b, mb); };
    i07_points, 4, |s| {
        let (a, ma) = mk(s); let (b, mb) = mk(s); let (p, q) = (point(s), point(s));
        if a < b && has(ma, p) && has(mb, q) { assert!(p < q, "every point is below"); }
        if a <= b && has(ma, p) && has(mb, q) { assert!(p <= q, "every point is at most"); }
        if a > b && has(ma, p) && has(mb, q) { assert!(p > q, "every point is above"); }
        if a >= b && has(ma, p) && has(mb, q) { assert!(p >= q, "every point is at least"); }
    };
    i07_empty, 4, |s| { let (a, ma) = mk(s); let e = Iv::empty(); compared(&a, ma, &e, None); compared(&e, None, &a, ma); };
    i07_self, 4, |s| { let (a, ma) = mk(s); compared(&a, ma, &a, ma); };
    i07_hist, 4, |s| { let a = mk_hist(s); let (b, mb) = mk(s); let ma = get(&a); compared(&a, ma, &b, mb); compared(&b, mb, &a, ma); };
}
harnesses! { reg_i07t, "I07t";
    i07_t_trans, 4, |s| {
        let (a, _) = mk(s); let (b, _) = mk(s); let (c, _) = mk(s);
        if a < b && b < c { assert!(a < c, "transitive"); }
        assert!(!(a < b && a > b), "not both");
        if a < b { assert!(!a.intersects(&b), "disjoint"); }
    };
}

// -- I08 ---------------------------------------------------------------------------------------
fn value_compared(i: &Iv, m: M, v: i32) {
    let d = 2 * v as i64;
    let (lt, le, gt, ge, eq) = match ends(m) { None => (false, false, false, false, false), Some((a, b)) => (b < d, b <= d, a > d, a >= d, a == d && b == d) };
    assert!((*i < v) == lt, "<");
    assert!((*i <= v) == le, "<=");
    assert!((*i > v) == gt, ">");
    assert!((*i >= v) == ge, ">=");
    assert!((*i == v) == eq, "==");
    assert!((*i != v) == !eq, "!=");
    let p = i.partial_cmp(&v);
    assert!((p == Some(Ordering::Less)) == lt, "partial_cmp: less");
    assert!((p == Some(Ordering::Greater)) == gt, "partial_cmp: greater");
    assert!((p == Some(Ordering::Equal)) == eq, "partial_cmp: equal");
}
harnesses! { reg_i08, "I08";
    i08_any, 4, |s| { let (i, m) = mk(s); let v = s.i32(); value_compared(&i, m, v); };
    i08_single, 4, |s| { let (a, v) = (s.i32(), s.i32()); value_compared(&Interval::single(a), Some((a, true, a, true)), v); };
    i08_hist, 4, |s| { let i = mk_hist(s); let m = get(&i); let v = s.i32(); value_compared(&i, m, v); };
}
harnesses! { reg_i08t, "I08t";
    i08_t_chain, 4, |s| {
        let (i, _) = mk(s); let (j, _) = mk(s); let v = s.i32();
        if i < v && j > v { assert!(i < j, "on both sides of a value"); }
        if i <= v && j >= v { assert!(i <= j, "on both sides of a value, touching"); }
        assert!(i.is_empty() || i.contains_val(&v) == !(i < v || i > v), "contained exactly when neither above nor below");
    };
}

// -- I09 ---------------------------------------------------------------------------------------
fn shift_ok(s: &mut S, m: M, d: i32, sub: bool) -> M {
    match m {
        None => None,
        Some((l, lc, u, uc)) => {
            let (a, b) = if sub { (l.checked_sub(d), u.checked_sub(d)) } else { (l.checked_add(d), u.checked_add(d)) };
            s.assume(a.is_some() && b.is_some());
            Some((a.unwrap(), lc, b.unwrap(), uc))
        }
    }
}
harnesses! { reg_i09, "I09";
    i09_add, 4, |s| { let (i, m) = mk(s); let d = s.i32(); let w = shift_ok(s, m, d, false); let r = i + d; lawful(&r); assert!(same(&r, w), "both bounds move"); };
    i09_sub, 4, |s| { let (i, m) = mk(s); let d = s.i32(); let w = shift_ok(s, m, d, true); let r = i - d; lawful(&r); assert!(same(&r, w), "both bounds move"); };
    i09_add_assign, 4, |s| { let (mut i, m) = mk(s); let d = s.i32(); let w = shift_ok(s, m, d, false); i += d; lawful(&i); assert!(same(&i, w), "both bounds move"); };
    i09_sub_assign, 4, |s| { let (mut i, m) = mk(s); let d = s.i32(); let w = shift_ok(s, m, d, true); i -= d; lawful(&i); assert!(same(&i, w), "both bounds move"); };
    i09_points, 4, |s| {
        let (i, m) = mk(s); let d = s.i32(); let v = s.i32();
        shift_ok(s, m, d, false); s.assume(v.checked_add(d).is_some());
        assert!((i + d).contains_val(&(v + d)) == i.contains_val(&v), "a point belongs to the result exactly when it was moved there");
    };
    i09_unsigned, 4, |s| {
        let (l, lc, u, uc, d) = (s.u8(), s.bool(), s.u8(), s.bool(), s.u8());
        s.assume(valid4(&l, lc, &u, uc));
        let i = Interval::new(l, lc, u, uc);
        if u.checked_add(d).is_some() { assert!(get(&(i + d)) == Some((l + d, lc, u + d, uc)), "unsigned +"); let mut j = i; j += d; assert!(get(&j) == Some((l + d, lc, u + d, uc)), "unsigned +="); }
        if l.checked_sub(d).is_some() { assert!(get(&(i - d)) == Some((l - d, lc, u - d, uc)), "unsigned -"); let mut j = i; j -= d; assert!(get(&j) == Some((l - d, lc, u - d, uc)), "unsigned -="); }
    };
    i09_hist, 4, |s| { let i = mk_hist(s); let m = get(&i); let d = s.i32(); let sub = s.bool(); let w = shift_ok(s, m, d, sub); let r = if sub { i - d } else { i + d }; assert!(same(&r, w), "both bounds move"); };
}
harnesses! { reg_i09t, "I09t";
    i09_t_back, 4, |s| { let (i, m) = mk(s); let d = s.i32(); shift_ok(s, m, d, false); assert!(same(&((i + d) - d), m), "there and back"); let mut j = i; j += d; j -= d; assert!(same(&j, m), "there and back, assigned"); };
    i09_t_set, 4, |s| {
        let (a, ma) = mk(s); let (b, mb) = mk(s); let d = s.i32(); shift_ok(s, ma, d, false); shift_ok(s, mb, d, false);
        assert!(get(&(a + d).into_intersection(b + d)) == get(&(a.into_intersection(b) + d)), "moving commutes with intersection");
        assert!(((a + d) < (b + d)) == (a < b), "moving keeps the order");
    };
}

// -- I10 ---------------------------------------------------------------------------------------
fn fixed<T: Ord + Copy>(l: T, lc: bool, u: T, uc: bool) -> Option<(T, bool, T, bool)> {
    if l < u || l == u && lc && uc { Some((l, lc, u, uc)) } else if u < l { Some((u, uc, l, lc)) } else { None }
}
type W = i16;
/// a small interval in a type in which nothing overflows
fn mk16(s: &mut S) -> (Interval<W>, Option<(W, bool, W, bool)>) {
    let e = s.bool();
    let (l, lc, u, uc) = (s.i8() as W, s.bool(), s.i8() as W, s.bool());
    s.assume(valid4(&l, lc, &u, uc));
    if e { (Interval::empty(), None) } else { (Interval::new(l, lc, u, uc), Some((l, lc, u, uc))) }
}
harnesses! { reg_i10, "I10";
    i10_mul, 4, |s| { let (i, m) = mk16(s); let d = s.i8() as W; let r = i * d; lawful(&r); let w = m.and_then(|m| fixed(m.0 * d, m.1, m.2 * d, m.3)); assert!(get(&r) == w, "both bounds are multiplied"); };
    i10_mul_assign, 4, |s| { let (mut i, m) = mk16(s); let d = s.i8() as W; i *= d; lawful(&i); let w = m.and_then(|m| fixed(m.0 * d, m.1, m.2 * d, m.3)); assert!(get(&i) == w, "both bounds are multiplied"); };
    i10_div, 4, |s| { let (i, m) = mk16(s); let d = s.i8() as W; s.assume(d != 0); let r = i / d; lawful(&r); let w = m.and_then(|m| fixed(m.0 / d, m.1, m.2 / d, m.3)); assert!(get(&r) == w, "both bounds are divided"); };
    i10_div_assign, 4, |s| { let (mut i, m) = mk16(s); let d = s.i8() as W; s.assume(d != 0); i /= d; lawful(&i); let w = m.and_then(|m| fixed(m.0 / d, m.1, m.2 / d, m.3)); assert!(get(&i) == w, "both bounds are divided"); };
    i10_neg, 4, |s| { let (i, m) = mk(s); if let Some(m) = m { s.assume(m.0 > i32::MIN); } let r = -i; lawful(&r); let w = m.map(|m| (-m.2, m.3, -m.0, m.1)); assert!(same(&r, w), "both bounds are negated"); };
    i10_neg_sat, 4, |s| { let i = mk_of(s, Sat); let m = get(&i).unwrap(); let w = fixed(-m.0, m.1, -m.2, m.3); let r = get(&-i); assert!(r == w, "both bounds are negated, equal ones too"); };
    i10_mul_wrap, 4, |s| { let (l, lc, u, uc) = m_nonempty(s); let (l, u, d) = (Wr(l << 24), Wr(u << 24), Wr(s.i8() as i32)); s.assume(valid4(&l, lc, &u, uc)); let i = Interval::new(l, lc, u, uc); assert!(get(&(i * d)) == fixed(l * d, lc, u * d, uc), "both bounds are multiplied, wrapping"); };
}
harnesses! { reg_i10t, "I10t";
    i10_t_mul, 4, |s| { let (mut i, m) = mk(s); let d = s.i32(); let mut w = None; if let Some(m) = m { let (a, b) = (m.0.checked_mul(d), m.2.checked_mul(d)); s.assume(a.is_some() && b.is_some()); w = fixed(a.unwrap(), m.1, b.unwrap(), m.3); } assert!(get(&(i * d)) == w, "both bounds are multiplied"); i *= d; assert!(get(&i) == w, "and assigned"); };
    i10_t_div, 4, |s| {
        let (l, lc, u, uc, d) = (s.i32(), s.bool(), s.i32(), s.bool(), s.i32());
        s.assume(l >= -512 && l < 512 && u >= -512 && u < 512 && d >= -64 && d < 64 && d != 0 && valid4(&l, lc, &u, uc));
        let mut i = Interval::new(l, lc, u, uc);
        let w = fixed(l / d, lc, u / d, uc);
        assert!(get(&(i / d)) == w, "both bounds are divided"); i /= d; assert!(get(&i) == w, "and assigned");
    };
    i10_t_neg_twice, 4, |s| { let (i, m) = mk(s); if let Some(m) = m { s.assume(m.0 > i32::MIN); } assert!(same(&-(-i), m), "negated twice"); let v = s.i32(); s.assume(v > i32::MIN); assert!((-i).contains_val(&-v) == i.contains_val(&v), "points are negated"); };
}

// -- I11 ---------------------------------------------------------------------------------------
struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(8) ^ *x as u64; } }
    fn write_u8(&mut self, x: u8) { self.0 = self.0.rotate_left(9) ^ x as u64 }
    fn write_i32(&mut self, x: i32) { self.0 = self.0.rotate_left(11) ^ x as u32 as u64 }
    fn write_isize(&mut self, x: isize) { self.0 = self.0.rotate_left(13) ^ x as u64 }
    fn write_usize(&mut self, x: usize) { self.0 = self.0.rotate_left(13) ^ x as u64 }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = Hs(7); t.hash(&mut h); h.finish() }
fn ordered<B: Ord + Copy + Hash>(a: B, b: B, ka: i64, kb: i64) {
    assert!((a < b) == (ka < kb), "<");
    assert!((a <= b) == (ka <= kb), "<=");
    assert!((a > b) == (ka > kb), ">");
    assert!((a >= b) == (ka >= kb), ">=");
    assert!((a == b) == (ka == kb), "==");
    assert!((a != b) == (ka != kb), "!=");
    assert!(a.cmp(&b) == ka.cmp(&kb), "cmp");
    assert!(a.partial_cmp(&b) == Some(ka.cmp(&kb)), "partial_cmp");
    assert!(a.min(b) == if ka <= kb { a } else { b }, "min");
    assert!(a.max(b) == if ka <= kb { b } else { a }, "max");
    if ka == kb { assert!(hash(&a) == hash(&b), "equal bounds have equal hashes"); }
}
fn lo(s: &mut S) -> (Lo, i32, bool) { let (v, c) = (s.i32(), s.bool()); (Lo::new(v, c), v, c) }
fn up(s: &mut S) -> (Up, i32, bool) { let (v, c) = (s.i32(), s.bool()); (Up::new(v, c), v, c) }
harnesses! { reg_i11, "I11";
    i11_lower, 10, |s| { let (a, v, c) = lo(s); let (b, w, d) = lo(s); ordered(a, b, dl(v, c), dl(w, d)); };
    i11_upper, 10, |s| { let (a, v, c) = up(s); let (b, w, d) = up(s); ordered(a, b, du(v, c), du(w, d)); };
    i11_lower_same, 10, |s| { let (a, v, c) = lo(s); let d = s.bool(); ordered(a, Lo::new(v, d), dl(v, c), dl(v, d)); };
    i11_upper_same, 10, |s| { let (a, v, c) = up(s); let d = s.bool(); ordered(a, Up::new(v, d), du(v, c), du(v, d)); };
    i11_lower_set, 10, |s| { let (a, v, c) = lo(s); let (b, w, d) = lo(s); let q = point(s); if a <= b { assert!(q < dl(w, d) || q >= dl(v, c), "the smaller lower bound admits all points that the greater one admits"); } };
    i11_upper_set, 10, |s| { let (a, v, c) = up(s); let (b, w, d) = up(s); let q = point(s); if a <= b { assert!(q > du(v, c) || q <= du(w, d), "the greater upper bound admits all points that the smaller one admits"); } };
}
harnesses! { reg_i11t, "I11t";
    i11_t_lower_three, 10, |s| { let (a, _, _) = lo(s); let (b, _, _) = lo(s); let (c, _, _) = lo(s); if a <= b && b <= c { assert!(a <= c, "transitive"); } assert!(a.min(b).min(c) == a.min(b.min(c)), "min is associative"); };
    i11_t_upper_three, 10, |s| { let (a, _, _) = up(s); let (b, _, _) = up(s); let (c, _, _) = up(s); if a <= b && b <= c { assert!(a <= c, "transitive"); } assert!(a.max(b).max(c) == a.max(b.max(c)), "max is associative"); };
}

// -- I12 ---------------------------------------------------------------------------------------
harnesses! { reg_i12, "I12";
    i12_separated, 4, |s| {
        let (l, v, c) = lo(s); let (u, w, d) = up(s);
        let gap = v > w || v == w && !c && !d;
        assert!(l.is_separated_from(&u) == gap, "lower from upper");
        assert!(u.is_separated_from(&l) == gap, "upper from lower");
    };
    i12_lower_upper, 4, |s| {
        let (l, v, c) = lo(s); let (u, w, d) = up(s);
        let open = !(c && d);
        assert!((l < u) == (v < w || v == w && open), "<");
        assert!((l > u) == (v > w || v == w && open), ">");
        assert!((l <= u) == (v <= w), "<=");
        assert!((l >= u) == (v >= w), ">=");
        assert!(!(l == u) && l != u, "never equal");
        let p = l.partial_cmp(&u);
        assert!(p != Some(Ordering::Equal), "partial_cmp is never equal");
        if v < w { assert!(p == Some(Ordering::Less), "partial_cmp by value"); }
        if v > w { assert!(p == Some(Ordering::Greater), "partial_cmp by value"); }
        if v == w && !open { assert!(p == None, "partial_cmp of touching closed bounds"); }
    };
    i12_upper_lower, 4, |s| {
        let (l, v, c) = lo(s); let (u, w, d) = up(s);
        let open = !(c && d);
        assert!((u < l) == (w < v || v == w && open), "<");
        assert!((u > l) == (w > v || v == w && open), ">");
        assert!((u <= l) == (w <= v), "<=");
        assert!((u >= l) == (w >= v), ">=");
        assert!(!(u == l) && u != l, "never equal");
        let p = u.partial_cmp(&l);
        assert!(p != Some(Ordering::Equal), "partial_cmp is never equal");
        if w < v { assert!(p == Some(Ordering::Less), "partial_cmp by value"); }
        if w > v { assert!(p == Some(Ordering::Greater), "partial_cmp by value"); }
        if v == w && !open { assert!(p == None, "partial_cmp of touching closed bounds"); }
    };
    i12_mirror, 4, |s| {
        let (l, v, _) = lo(s); let (u, w, _) = if s.bool() { let d = s.bool(); (Up::new(v, d), v, d) } else { up(s) };
        assert!((l < u) == (u > l) && (l > u) == (u < l) && (l <= u) == (u >= l) && (l >= u) == (u <= l), "mirror images");
        let _ = w;
    };
}
harnesses! { reg_i12t, "I12t";
    i12_t_u8, 4, |s| {
        let (v, c, w, d) = (s.u8(), s.bool(), s.u8(), s.bool());
        let (l, u) = (LowerBound::new(v, c), UpperBound::new(w, d));
        assert!(l.is_separated_from(&u) == (v > w || v == w && !c && !d) && u.is_separated_from(&l) == l.is_separated_from(&u), "separated");
        assert!((l < u) == (u > l) && (l > u) == (u < l) && (l <= u) == (u >= l) && (l >= u) == (u <= l), "mirror images");
    };
}

// -- I13 ---------------------------------------------------------------------------------------
fn with_value<B: PartialOrd<i32> + Copy>(b: B, k: i64, v: i32) {
    let d = 2 * v as i64;
    assert!((b < v) == (k < d), "<");
    assert!((b <= v) == (k <= d), "<=");
    assert!((b > v) == (k > d), ">");
    assert!((b >= v) == (k >= d), ">=");
    assert!((b == v) == (k == d), "==");
    assert!((b != v) == (k != d), "!=");
    assert!(b.partial_cmp(&v) == Some(k.cmp(&d)), "partial_cmp");
}
harnesses! { reg_i13, "I13";
    i13_lower_value, 4, |s| { let (b, v, c) = lo(s); let x = s.i32(); with_value(b, dl(v, c), x); with_value(b, dl(v, c), v); };
    i13_upper_value, 4, |s| { let (b, v, c) = up(s); let x = s.i32(); with_value(b, du(v, c), x); with_value(b, du(v, c), v); };
    i13_lower_add, 4, |s| { let (mut b, v, c) = lo(s); let x = s.i32(); let w = v.checked_add(x); s.assume(w.is_some()); let r = b + x; assert!(r.into_tuple() == (w.unwrap(), c), "+"); b += x; assert!(b.into_tuple() == (w.unwrap(), c), "+="); };
    i13_lower_sub, 4, |s| { let (mut b, v, c) = lo(s); let x = s.i32(); let w = v.checked_sub(x); s.assume(w.is_some()); let r = b - x; assert!(r.into_tuple() == (w.unwrap(), c), "-"); b -= x; assert!(b.into_tuple() == (w.unwrap(), c), "-="); };
    i13_upper_add, 4, |s| { let (mut b, v, c) = up(s); let x = s.i32(); let w = v.checked_add(x); s.assume(w.is_some()); let r = b + x; assert!(r.into_tuple() == (w.unwrap(), c), "+"); b += x; assert!(b.into_tuple() == (w.unwrap(), c), "+="); };
    i13_upper_sub, 4, |s| { let (mut b, v, c) = up(s); let x = s.i32(); let w = v.checked_sub(x); s.assume(w.is_some()); let r = b - x; assert!(r.into_tuple() == (w.unwrap(), c), "-"); b -= x; assert!(b.into_tuple() == (w.unwrap(), c), "-="); };
    i13_mul, 4, |s| {
        let (v, c, x) = (s.i8() as W, s.bool(), s.i8() as W);
        let (mut l, mut u) = (LowerBound::new(v, c), UpperBound::new(v, c));
        assert!((l * x).into_tuple() == (v * x, c) && (u * x).into_tuple() == (v * x, c), "*");
        l *= x; u *= x;
        assert!(l.into_tuple() == (v * x, c) && u.into_tuple() == (v * x, c), "*=");
    };
    i13_div, 4, |s| {
        let (v, c, x) = (s.i8() as W, s.bool(), s.i8() as W);
        s.assume(x != 0);
        let (mut l, mut u) = (LowerBound::new(v, c), UpperBound::new(v, c));
        assert!((l / x).into_tuple() == (v / x, c) && (u / x).into_tuple() == (v / x, c), "/");
        l /= x; u /= x;
        assert!(l.into_tuple() == (v / x, c) && u.into_tuple() == (v / x, c), "/=");
    };
}
harnesses! { reg_i13t, "I13t";
    i13_t_mul, 4, |s| {
        let (v, c, x) = (s.i32(), s.bool(), s.i32()); let w = v.checked_mul(x); s.assume(w.is_some()); let w = w.unwrap();
        let (mut l, mut u) = (LowerBound::new(v, c), UpperBound::new(v, c));
        assert!((l * x).into_tuple() == (w, c) && (u * x).into_tuple() == (w, c), "*");
        l *= x; u *= x;
        assert!(l.into_tuple() == (w, c) && u.into_tuple() == (w, c), "*=");
    };
    i13_t_div, 4, |s| {
        let (v, c, x) = (s.i32(), s.bool(), s.i32()); s.assume(div_ok(v, x) && v >= -4096 && v < 4096 && x >= -4096 && x < 4096); let w = v / x;
        let (mut l, mut u) = (LowerBound::new(v, c), UpperBound::new(v, c));
        assert!((l / x).into_tuple() == (w, c) && (u / x).into_tuple() == (w, c), "/");
        l /= x; u /= x;
        assert!(l.into_tuple() == (w, c) && u.into_tuple() == (w, c), "/=");
    };
}

// -- I14 ---------------------------------------------------------------------------------------
fn equal_as(a: &Iv, b: &Iv, want: bool) {
    assert!((a == b) == want, "==");
    assert!((a != b) == !want, "!=");
    assert!((b == a) == want, "symmetric");
    if want { assert!(hash(a) == hash(b), "equal intervals have equal hashes"); }
}
harnesses! { reg_i14, "I14";
    i14_any, 10, |s| { let (a, ma) = mk(s); let (b, mb) = mk(s); equal_as(&a, &b, ma == mb); };
    i14_near, 10, |s| { let (a, ma) = mk(s); s.assume(ma.is_some()); let m = ma.unwrap(); let mb = (m.0, s.bool(), m.2, s.bool()); s.assume(valid4(&mb.0, mb.1, &mb.2, mb.3)); equal_as(&a, &Interval::new(mb.0, mb.1, mb.2, mb.3), m == mb); };
    i14_self, 10, |s| { let (a, m) = mk(s); let b = a; equal_as(&a, &b, true); equal_as(&a, &a.clone(), true); equal_as(&a, &iv(m), true); };
    i14_hist, 10, |s| { let a = mk_hist(s); let m = get(&a); equal_as(&a, &iv(m), true); if a.is_empty() { equal_as(&a, &Interval::empty(), true); } };
    i14_merged, 10, |s| { let (a, _) = mk(s); let (b, _) = mk(s); if let Ok(c) = a.into_merged(b) { let m = get(&c); equal_as(&c, &iv(m), true); } };
    i14_div_empty, 10, |s| {
        let (a, _) = mk(s); let d = s.i8() as i32; s.assume(d != 0);
        let m = get(&a); if let Some(m) = m { s.assume(m.0 > -100 && m.0 < 100 && m.2 > -100 && m.2 < 100); }
        let mut b = a; b /= d;
        let r = a / d;
        equal_as(&r, &b, true);
        if r.is_empty() { equal_as(&r, &Interval::empty(), true); }
    };
    i14_neg_mul_empty, 10, |s| { let (a, _) = mk(s); let r = a * 0; if r.is_empty() { equal_as(&r, &Iv::empty(), true); } else { equal_as(&r, &Interval::single(0), true); } assert!(-Iv::empty() == Iv::empty(), "negated empty"); };
    i14_fails, 10, |s| { let (mut a, ma) = mk(s); let (b, mb) = mk(s); if let Err((x, y)) = a.into_merged(b) { equal_as(&x, &iv(ma), true); equal_as(&y, &iv(mb), true); } if let Err(y) = a.merge(b) { equal_as(&y, &iv(mb), true); equal_as(&a, &iv(ma), true); } };
}
harnesses! { reg_i14t, "I14t";
    i14_t_trans, 10, |s| { let (a, _) = mk(s); let (b, _) = mk(s); let (c, _) = mk(s); if a == b && b == c { assert!(a == c && hash(&a) == hash(&c), "transitive"); } };
    i14_t_hist, 10, |s| { let a = mk_hist(s); let b = mk_hist(s); let (m, n) = (get(&a), get(&b)); equal_as(&a, &b, m == n); };
}

// -- I15 ---------------------------------------------------------------------------------------
struct Out { b: [u8; 16], n: usize }
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for x in s.as_bytes() { assert!(self.n < 16, "longer than expected"); self.b[self.n] = *x; self.n += 1; }
        Ok(())
    }
}
/// displayed as one letter
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct L(u8);
impl std::fmt::Display for L {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(match self.0 { 0 => "a", 1 => "b", 2 => "c", 3 => "d", 4 => "e", 5 => "f", 6 => "g", _ => "h" }) }
}
fn show<T: Ord + std::fmt::Display>(i: &Interval<T>) -> Out {
    use std::fmt::Write;
    let mut o = Out { b: [0; 16], n: 0 };
    assert!(write!(o, "{}", i).is_ok(), "displaying succeeds");
    o
}
fn letters(s: &mut S) -> (u8, bool, u8, bool) {
    let (l, lc, u, uc) = (s.below(8) as u8, s.bool(), s.below(8) as u8, s.bool());
    s.assume(valid4(&l, lc, &u, uc));
    (l, lc, u, uc)
}
harnesses! { reg_i15, "I15";
    i15_nonempty, 18, |s| {
        let (l, lc, u, uc) = letters(s);
        let o = show(&Interval::new(L(l), lc, L(u), uc));
        assert!(o.n == 5, "bracket, value, comma, value, bracket");
        assert!(o.b[0] == if lc { b'[' } else { b'(' }, "lower bracket");
        assert!(o.b[1] == b'a' + l && o.b[2] == b',' && o.b[3] == b'a' + u, "values and comma");
        assert!(o.b[4] == if uc { b']' } else { b')' }, "upper bracket");
    };
    i15_empty, 18, |s| {
        let e: Interval<L> = Interval::empty();
        let o = show(&e);
        let (l, lc, u, uc) = letters(s);
        let mut r = Interval::new(L(l), lc, L(u), uc);
        r.intersection(e);
        let p = show(&r);
        assert!(o.n > 0 && o.n == p.n, "a fixed symbol");
        for k in 0..6 { if k < o.n { assert!(o.b[k] == p.b[k], "a fixed symbol"); } }
        assert!(o.b[0] != b'[' && o.b[0] != b'(', "that no non-empty interval prints as");
    };
    i15_digits, 18, |s| {
        let (l, lc, u, uc) = letters(s);
        let o = show(&Interval::new(l, lc, u, uc));
        assert!(o.n == 5 && o.b[0] == (if lc { b'[' } else { b'(' }) && o.b[1] == b'0' + l && o.b[2] == b',' && o.b[3] == b'0' + u && o.b[4] == (if uc { b']' } else { b')' }), "digits");
    };
}
harnesses! { reg_i15t, "I15t";
    i15_t_hist, 18, |s| {
        let (l, lc, u, uc) = letters(s); let (l2, lc2, u2, uc2) = letters(s);
        let mut r = Interval::new(L(l), lc, L(u), uc);
        r.span(Interval::new(L(l2), lc2, L(u2), uc2));
        let o = show(&r);
        let (a, ac, b, bc) = { let (x, y) = r.bounds().unwrap(); (x.val().0, x.is_closed(), y.val().0, y.is_closed()) };
        assert!(o.n == 5 && o.b[0] == (if ac { b'[' } else { b'(' }) && o.b[1] == b'a' + a && o.b[2] == b',' && o.b[3] == b'a' + b && o.b[4] == (if bc { b']' } else { b')' }), "after an operation");
    };
    i15_t_i8, 18, |s| {
        let (l, lc, u, uc) = (s.i8(), s.bool(), s.i8(), s.bool());
        s.assume(l >= 10 && l < 100 && u < 0 && u > -10);
        let o = show(&Interval::new(u, uc, l, lc));
        assert!(o.n == 7 && o.b[0] == (if uc { b'[' } else { b'(' }) && o.b[1] == b'-' && o.b[2] == b'0' + (-u) as u8 && o.b[3] == b',' && o.b[4] == b'0' + l as u8 / 10 && o.b[5] == b'0' + l as u8 % 10 && o.b[6] == (if lc { b']' } else { b')' }), "negative and two digits");
    };
}
