//! A model of Vec: at most VCAP elements in an array (never freed). It remembers which entries
//! were visited by indexing since reset(). More than VCAP elements fail MODEL-CAPACITY.
use ::std::iter::{FromIterator, FusedIterator};
use ::std::mem::{self, MaybeUninit};
use ::std::ops::{Deref, DerefMut, Index, IndexMut};
use ::std::{fmt, ptr, slice};
use ::std::vec::Vec as V;

pub const VCAP: usize = crate::map::CAP;
static mut VISITED: u64 = 0x5EED_0DD5_1357_2468;
static mut RECORDING: u64 = 0x4EC0_4D1A_6357_0246;
pub fn reset() { unsafe { RECORDING = 1; VISITED = 0 } }
/// one bit for each index below 64
pub fn visited() -> u64 { unsafe { RECORDING = 0; VISITED } }
fn visit(i: usize) { if unsafe { RECORDING } == 1 && i < 64 { unsafe { VISITED |= 1 << i } } }

pub struct Vec<T> { buf: mem::ManuallyDrop<Box<[MaybeUninit<T>; VCAP]>>, len: usize, cap: usize }
pub struct IntoIter<T> { buf: mem::ManuallyDrop<Box<[MaybeUninit<T>; VCAP]>>, i: usize, n: usize }

impl<T> Vec<T> {
    pub fn new() -> Self { Vec { buf: mem::ManuallyDrop::new(Box::new([const { MaybeUninit::uninit() }; VCAP])), len: 0, cap: 0 } }
    pub fn with_capacity(n: usize) -> Self { let mut v = Vec::new(); v.reserve(n); v }
    pub fn push(&mut self, t: T) {
        assert!(self.len < VCAP, "MODEL-CAPACITY: too many elements for the model of Vec");
        self.buf[self.len] = MaybeUninit::new(t);
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<T> { if self.len == 0 { None } else { self.len -= 1; Some(unsafe { self.buf[self.len].assume_init_read() }) } }
    pub fn truncate(&mut self, n: usize) { while self.len > n { drop(self.pop()) } }
    pub fn clear(&mut self) { if mem::needs_drop::<T>() { self.truncate(0) } else { self.len = 0 } }
    pub fn reserve(&mut self, n: usize) {
        match self.len.checked_add(n) { Some(c) if c <= isize::MAX as usize / (1 + mem::size_of::<T>()) => if c > self.cap { self.cap = c }, _ => panic!("capacity overflow") }
    }
    pub fn reserve_exact(&mut self, n: usize) { self.reserve(n) }
    pub fn insert(&mut self, i: usize, t: T) { assert!(i <= self.len); self.push(t); self[i..].rotate_right(1) }
    pub fn remove(&mut self, i: usize) -> T { self[i..].rotate_left(1); self.pop().unwrap() }
    pub fn swap_remove(&mut self, i: usize) -> T { let n = self.len; self.swap(i, n - 1); self.pop().unwrap() }
    pub fn resize(&mut self, n: usize, t: T) where T: Clone { self.truncate(n); while self.len < n { self.push(t.clone()) } }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn capacity(&self) -> usize { if self.cap < self.len { self.len } else { self.cap } }
    pub fn shrink_to_fit(&mut self) { self.cap = self.len }
    pub fn as_slice(&self) -> &[T] { unsafe { slice::from_raw_parts(self.buf.as_ptr() as *const T, self.len) } }
    pub fn as_mut_slice(&mut self) -> &mut [T] { unsafe { slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut T, self.len) } }
    pub fn append(&mut self, o: &mut Self) { for t in mem::replace(o, Vec::new()) { self.push(t) } }
    pub fn extend_from_slice(&mut self, o: &[T]) where T: Clone { for t in o { self.push(t.clone()) } }
    pub fn drain(&mut self, _: ::std::ops::RangeFull) -> IntoIter<T> { mem::replace(self, Vec::new()).into_iter() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { for t in mem::replace(self, Vec::new()) { if f(&t) { self.push(t) } } }
    pub fn into_boxed_slice(self) -> Box<[T]> { let mut v = V::with_capacity(self.len); for t in self { v.push(t) } v.into_boxed_slice() }
    pub unsafe fn set_len(&mut self, n: usize) { assert!(n <= VCAP, "MODEL-CAPACITY: too many elements for the model of Vec"); self.len = n }
    pub fn get(&self, i: usize) -> Option<&T> { visit(i); if i < self.len { Some(unsafe { self.buf[i].assume_init_ref() }) } else { None } }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> { visit(i); if i < self.len { Some(unsafe { self.buf[i].assume_init_mut() }) } else { None } }
    pub unsafe fn get_unchecked(&self, i: usize) -> &T { self.get(i).unwrap() }
    pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T { self.get_mut(i).unwrap() }
}
impl<T> Drop for Vec<T> { fn drop(&mut self) { if mem::needs_drop::<T>() { self.truncate(0) } } }
impl<T> Drop for IntoIter<T> { fn drop(&mut self) { if mem::needs_drop::<T>() { while let Some(t) = self.next() { drop(t) } } } }
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { if self.i >= self.n { return None } self.i += 1; Some(unsafe { self.buf[self.i - 1].assume_init_read() }) }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<T> DoubleEndedIterator for IntoIter<T> { fn next_back(&mut self) -> Option<T> { if self.i >= self.n { return None } self.n -= 1; Some(unsafe { self.buf[self.n].assume_init_read() }) } }
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> FusedIterator for IntoIter<T> {}
impl<T: Clone> Clone for Vec<T> { fn clone(&self) -> Self { let mut v = Vec::new(); let mut i = 0; while i < self.len { v.push(unsafe { self.buf[i].assume_init_ref() }.clone()); i += 1 } v } }
impl<T: fmt::Debug> fmt::Debug for Vec<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.as_slice().fmt(f) } }
impl<T: PartialEq> PartialEq for Vec<T> { fn eq(&self, o: &Self) -> bool { self.as_slice() == o.as_slice() } }
impl<T: Eq> Eq for Vec<T> {}
impl<T: PartialOrd> PartialOrd for Vec<T> { fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> { self.as_slice().partial_cmp(o.as_slice()) } }
impl<T> Default for Vec<T> { fn default() -> Self { Vec::new() } }
impl<T> Deref for Vec<T> { type Target = [T]; fn deref(&self) -> &[T] { self.as_slice() } }
impl<T> DerefMut for Vec<T> { fn deref_mut(&mut self) -> &mut [T] { self.as_mut_slice() } }
impl<T> AsRef<[T]> for Vec<T> { fn as_ref(&self) -> &[T] { self } }
impl<T> ::std::borrow::Borrow<[T]> for Vec<T> { fn borrow(&self) -> &[T] { self } }
/// ways to index
pub trait At<T> { type Output: ?Sized; fn at<'a>(self, v: &'a Vec<T>) -> &'a Self::Output; fn at_mut<'a>(self, v: &'a mut Vec<T>) -> &'a mut Self::Output; }
impl<T> At<T> for usize {
    type Output = T;
    fn at<'a>(self, v: &'a Vec<T>) -> &'a T { assert!(self < v.len, "index out of bounds"); v.get(self).unwrap() }
    fn at_mut<'a>(self, v: &'a mut Vec<T>) -> &'a mut T { assert!(self < v.len, "index out of bounds"); v.get_mut(self).unwrap() }
}
macro_rules! ranges { ($($t:ty),*) => { $(impl<T> At<T> for $t {
    type Output = [T];
    fn at<'a>(self, v: &'a Vec<T>) -> &'a [T] { &v.as_slice()[self] }
    fn at_mut<'a>(self, v: &'a mut Vec<T>) -> &'a mut [T] { &mut v.as_mut_slice()[self] }
})* } }
ranges!(::std::ops::Range<usize>, ::std::ops::RangeFrom<usize>, ::std::ops::RangeTo<usize>, ::std::ops::RangeFull, ::std::ops::RangeInclusive<usize>);
impl<T, I: At<T>> Index<I> for Vec<T> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { i.at(self) } }
impl<T, I: At<T>> IndexMut<I> for Vec<T> { fn index_mut(&mut self, i: I) -> &mut I::Output { i.at_mut(self) } }
impl<T> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut v = Vec::new(); v.extend(i); v } }
impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.push(t) } } }
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { for t in i { self.push(*t) } } }
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(mut self) -> IntoIter<T> { let n = self.len; self.len = 0; IntoIter { buf: unsafe { ptr::read(&self.buf) }, i: 0, n } }
}
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = slice::Iter<'a, T>; fn into_iter(self) -> slice::Iter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for &'a mut Vec<T> { type Item = &'a mut T; type IntoIter = slice::IterMut<'a, T>; fn into_iter(self) -> slice::IterMut<'a, T> { self.iter_mut() } }
impl<T> From<V<T>> for Vec<T> { fn from(v: V<T>) -> Self { v.into_iter().collect() } }
impl<T, const N: usize> From<[T; N]> for Vec<T> { fn from(v: [T; N]) -> Self { v.into_iter().collect() } }
impl<T> From<Vec<T>> for Box<[T]> { fn from(v: Vec<T>) -> Self { v.into_boxed_slice() } }
impl<T> From<Box<[T]>> for Vec<T> { fn from(v: Box<[T]>) -> Self { v.into_vec().into() } }
#[macro_export]
macro_rules! vec {
    () => { $crate::vec::Vec::new() };
    ($e:expr; $n:expr) => { { let mut v = $crate::vec::Vec::new(); v.resize($n, $e); v } };
    ($($e:expr),+ $(,)?) => { { let mut v = $crate::vec::Vec::new(); $(v.push($e);)+ v } };
}
