use crate::*;
use advanced_collections::circular_buffer::CircularBuffer;
use std::iter::FromIterator;
type B = CircularBuffer<E>;

/// every arrangement of a buffer of the given capacity: position of the first element, length
fn arranged(cap: u32) -> B {
    let mut b = CircularBuffer::new(cap as usize);
    if cap > 0 {
        let r = pick(cap + 1);
        for _ in 0..r { b.push_back(mk()); std::mem::forget(b.pop_front()); }
    }
    let n = pick(cap + 1);
    for _ in 0..n { b.push_back(mk()) }
    b
}

/// the buffer after a panic: consistent, shows living and different elements, can be used and dropped
fn after(mut b: B) {
    check(!attempt(|| {
        let n = b.len();
        check(n <= b.capacity(), 1);
        let mut k = 0;
        let mut seen = 0u64;
        for e in b.iter() {
            unsafe { vp_look(e.0 as u32) }
            check(e.0 > 63 || seen & (1u64 << (e.0 as u32 & 63)) == 0, 3);
            seen |= 1u64 << (e.0 as u32 & 63);
            k += 1;
        }
        check(k == n, 2);
        if b.capacity() > 0 {
            let x = mk();
            let id = x.0;
            b.push_back(x);
            check(match b.last() { Some(e) => e.0 == id, None => false }, 4);
        }
        drop(b);
    }), 5);
}

/// an iterator over new elements that is user code
struct Src { left: u32, hint: usize }
impl Iterator for Src {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        unsafe { vp_point() }
        if self.left == 0 { return None; }
        self.left -= 1;
        Some(mk())
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}

fn op(cap: u32, most: u32, f: impl FnOnce(&mut B)) {
    let mut b = arranged(cap);
    arm(most);
    let p = attempt(|| f(&mut b));
    ended(p);
    after(b);
}

/// the same with one case for each place of the panic (for operations that replace the storage)
fn op_s(cap: u32, most: u32, f: impl FnOnce(&mut B)) {
    let mut b = arranged(cap);
    unsafe { vp_arm(pick(most + 1)) }
    let p = attempt(|| f(&mut b));
    ended(p);
    after(b);
}

fn two(cap: u32, other: u32, most: u32, f: impl FnOnce(&mut B, &mut B)) {
    let mut a = arranged(cap);
    let mut b = arranged(other);
    arm(most);
    let p = attempt(|| f(&mut a, &mut b));
    ended(p);
    after(a);
    after(b);
}

harnesses! {
    h_push_back { op(3, 1, |b| b.push_back(mk())) }
    h_push_front { op(3, 1, |b| b.push_front(mk())) }
    h_push_back_none { op(0, 1, |b| b.push_back(mk())) }
    h_clear { op(3, 3, |b| b.clear()) }
    h_resize_less_s { op_s(3, 3, |b| b.resize(1)) }
    h_resize_zero_s { op_s(3, 3, |b| b.resize(0)) }
    h_resize_more_s { op_s(3, 3, |b| b.resize(4)) }
    h_drop {
        let b = arranged(3);
        arm(3);
        let p = attempt(|| drop(b));
        ended(p);
    }
    h_extend { op(2, 6, |b| b.extend(Src { left: 3, hint: 0 })) }
    h_extend_ref {
        let v = [mk(), mk(), mk()];
        op(2, 6, |b| b.extend(v.iter()));
    }
    h_append_w { two(2, 2, 3, |a, b| a.append(b)) }
    h_clone { op(3, 6, |b| drop(b.clone())) }
    h_eq_w { two(2, 2, 3, |a, b| { let r = *a == *b; std::mem::forget(r) }) }
    h_cmp_w { two(2, 2, 3, |a, b| { let r = (*a).cmp(b); std::mem::forget(r) }) }
    h_drain { op(3, 3, |b| { let mut d = b.drain(); drop(d.next()); drop(d.next()) }) }
    h_iter_mut { op(3, 3, |b| for e in b.iter_mut() { unsafe { vp_look(e.0 as u32); vp_point() } }) }
    h_replace { op(3, 1, |b| if b.len() > 0 { let i = any(3) as usize; if i < b.len() { b[i] = mk() } }) }
    h_into_iter {
        let b = arranged(3);
        arm(3);
        let p = attempt(|| { let mut i = b.into_iter(); drop(i.next()) });
        ended(p);
    }
    h_from_iter {
        arm(5);
        let p = attempt(|| { let b = B::from_iter(Src { left: 2, hint: 2 }); drop(b) });
        ended(p);
    }
    h_from_iter_ref {
        let v = [mk(), mk()];
        arm(5);
        let p = attempt(|| { let b = B::from_iter(v.iter()); drop(b) });
        ended(p);
    }
    h_from_vec {
        let mut v = Vec::with_capacity(2);
        v.push(mk());
        v.push(mk());
        arm(3);
        let p = attempt(|| { let b = B::from(v); drop(b) });
        ended(p);
    }
}
