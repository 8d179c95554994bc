//! A model of std's HashMap and HashSet: at most CAP entries in an array, found by comparing keys
//! with Eq. A new entry takes an arbitrary position in the order of iteration, so every order a
//! real map may show is covered. More than CAP entries fail an assertion named MODEL-CAPACITY,
//! which counts as "not decided", never as a violation. Keys are never hashed.
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::iter::{FromIterator, FusedIterator};
use ::std::marker::PhantomData;
use ::std::mem::{self, MaybeUninit};
use ::std::ops::Index;
use ::std::ptr;

pub const CAP: usize = if cfg!(feature = "small") { 4 } else if cfg!(feature = "big") { 8 } else if cfg!(feature = "huge") { 24 } else { 6 };
type Slots<K, V> = [MaybeUninit<(K, V)>; CAP];

#[derive(Clone, Copy, Debug)]
pub struct RandomState;
pub struct NoHash(u64);
impl Hasher for NoHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(5) ^ *x as u64 } }
}
impl RandomState { pub fn new() -> Self { RandomState } }
impl Default for RandomState { fn default() -> Self { RandomState } }
impl BuildHasher for RandomState { type Hasher = NoHash; fn build_hasher(&self) -> NoHash { NoHash(0) } }

/// 0: a new entry takes an arbitrary position; otherwise the last one
static mut IN_ORDER: u64 = 0x0DDE_0123_5EED_4567;
pub fn in_order(b: bool) { unsafe { IN_ORDER = b as u64 } }
/// a value in 0..=n: the position a new entry takes
fn position(n: usize) -> usize {
    #[cfg(kani)]
    { if unsafe { IN_ORDER } == 1 { return n } let p: u16 = kani::any(); kani::assume(p as usize <= n); p as usize }
    #[cfg(not(kani))]
    n
}
fn check_capacity(n: usize) { if n > 1 << 32 { panic!("Hash table capacity overflow"); } }

struct Raw<K, V> { slots: Slots<K, V>, len: usize }
pub struct HashMap<K, V, S = RandomState> { raw: Raw<K, V>, cap: usize, hasher: S }

fn no_slots<K, V>() -> Slots<K, V> { [const { MaybeUninit::uninit() }; CAP] }
impl<K, V> Raw<K, V> {
    const fn new() -> Self { Raw { slots: [const { MaybeUninit::uninit() }; CAP], len: 0 } }
    fn at(&self, i: usize) -> &(K, V) { unsafe { &*(self.slots.as_ptr().add(i) as *const (K, V)) } }
    fn at_mut(&mut self, i: usize) -> &mut (K, V) { unsafe { &mut *(self.slots.as_mut_ptr().add(i) as *mut (K, V)) } }
    /// the last entry takes the place of the one removed
    fn take(&mut self, i: usize) -> (K, V) {
        unsafe {
            let p = self.slots.as_mut_ptr() as *mut (K, V);
            let r = ptr::read(p.add(i));
            self.len -= 1;
            if i != self.len { ptr::copy_nonoverlapping(p.add(self.len), p.add(i), 1); }
            r
        }
    }
    /// a new entry; the one that was at its position goes to the end
    fn put(&mut self, k: K, v: V) -> usize {
        assert!(self.len < CAP, "MODEL-CAPACITY: too many entries for the model of the hash map");
        let n = self.len;
        let i = position(n);
        unsafe {
            let p = self.slots.as_mut_ptr() as *mut (K, V);
            if i != n { ptr::copy_nonoverlapping(p.add(i), p.add(n), 1); }
            ptr::write(p.add(i), (k, v));
        }
        self.len = n + 1;
        i
    }
}
impl<K, V> Drop for Raw<K, V> {
    fn drop(&mut self) {
        if mem::needs_drop::<(K, V)>() {
            let mut i = 0;
            while i < self.len { unsafe { self.slots[i].assume_init_drop() } i += 1; }
        }
    }
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self { Self::with_hasher(RandomState) }
    pub fn with_capacity(c: usize) -> Self { Self::with_capacity_and_hasher(c, RandomState) }
}
/// a map with exactly the first n of these entries, whose keys are different
pub fn map_with<K: Copy, V: Copy, S: Default, const N: usize>(a: [(K, V); N], n: usize) -> HashMap<K, V, S> {
    let mut m = HashMap::with_hasher(S::default());
    for i in 0..N { unsafe { ptr::write((m.raw.slots.as_mut_ptr() as *mut (K, V)).add(i), a[i]) } }
    m.raw.len = n;
    m
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(hasher: S) -> Self { HashMap { raw: Raw::new(), cap: 0, hasher } }
    pub fn with_capacity_and_hasher(c: usize, hasher: S) -> Self { check_capacity(c); HashMap { raw: Raw::new(), cap: c, hasher } }
    pub fn capacity(&self) -> usize { if self.cap < self.raw.len { self.raw.len } else { self.cap } }
    pub fn hasher(&self) -> &S { &self.hasher }
    pub fn len(&self) -> usize { self.raw.len }
    pub fn is_empty(&self) -> bool { self.raw.len == 0 }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
    pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
    pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys(self.into_iter()) }
    pub fn into_values(self) -> IntoValues<K, V> { IntoValues(self.into_iter()) }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { p: self.raw.slots.as_ptr() as *const (K, V), i: 0, n: self.raw.len, x: PhantomData } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { p: self.raw.slots.as_mut_ptr() as *mut (K, V), i: 0, n: self.raw.len, x: PhantomData } }
    fn take_all(&mut self) -> IntoIter<K, V> {
        let n = self.raw.len;
        self.raw.len = 0;
        IntoIter { slots: mem::replace(&mut self.raw.slots, no_slots()), i: 0, n }
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> { Drain(self.take_all(), PhantomData) }
    pub fn clear(&mut self) { drop(self.take_all()) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        while i < self.raw.len {
            let e = unsafe { self.raw.slots[i].assume_init_mut() };
            if f(&e.0, &mut e.1) { i += 1 } else { drop(self.raw.take(i)) }
        }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let n = self.raw.len;
        // no loop, so that its bound does not depend on CAP
        macro_rules! here { ($($i:literal)*) => { $(if $i >= CAP || n <= $i { return None } if self.raw.at($i).0.borrow() == k { return Some($i) })* } }
        here!(0 1 2 3 4 5 6 7);
        None
    }
    pub fn reserve(&mut self, n: usize) {
        check_capacity(n);
        if self.cap < self.raw.len + n { self.cap = self.raw.len + n }
    }
    pub fn try_reserve(&mut self, n: usize) -> Result<(), ::std::collections::TryReserveError> { self.reserve(n); Ok(()) }
    pub fn shrink_to_fit(&mut self) { self.cap = self.raw.len }
    pub fn shrink_to(&mut self, n: usize) { if n < self.cap { self.cap = n } }
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        match self.find(&key) {
            Some(i) => Entry::Occupied(OccupiedEntry { map: &mut self.raw, i }),
            None => Entry::Vacant(VacantEntry { map: &mut self.raw, key }),
        }
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.find(k).map(|i| &self.raw.at(i).1) }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.find(k).map(|i| { let e = self.raw.at(i); (&e.0, &e.1) }) }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&mut self.raw.at_mut(i).1), None => None } }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(mem::replace(&mut self.raw.at_mut(i).1, v)),
            None => { self.raw.put(k, v); None }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|e| e.1) }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(self.raw.take(i)), None => None } }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { Self::with_hasher(S::default()) } }
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        let mut r = HashMap { raw: Raw::new(), cap: self.cap, hasher: self.hasher.clone() };
        let mut i = 0;
        while i < self.raw.len { r.raw.slots[i] = MaybeUninit::new(self.raw.at(i).clone()); r.raw.len += 1; i += 1; }
        r
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        if self.raw.len != o.raw.len { return false }
        let mut i = 0;
        while i < self.raw.len {
            let e = self.raw.at(i);
            match o.find(&e.0) { None => return false, Some(j) => if o.raw.at(j).1 != e.1 { return false } }
            i += 1;
        }
        true
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { let it = it.into_iter(); self.reserve(it.size_hint().0); for (k, v) in it { self.insert(k, v); } }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V); type IntoIter = IntoIter<K, V>;
    fn into_iter(mut self) -> IntoIter<K, V> { self.take_all() }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }

// -- iterators ---------------------------------------------------------------------------------
pub struct Iter<'a, K, V> { p: *const (K, V), i: usize, n: usize, x: PhantomData<&'a (K, V)> }
pub struct IterMut<'a, K, V> { p: *mut (K, V), i: usize, n: usize, x: PhantomData<&'a mut (K, V)> }
pub struct IntoIter<K, V> { slots: Slots<K, V>, i: usize, n: usize }
pub struct Drain<'a, K, V>(IntoIter<K, V>, PhantomData<&'a mut (K, V)>);
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
pub struct Values<'a, K, V>(Iter<'a, K, V>);
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
pub struct IntoKeys<K, V>(IntoIter<K, V>);
pub struct IntoValues<K, V>(IntoIter<K, V>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.n { return None }
        let e = unsafe { &*self.p.add(self.i) };
        self.i += 1;
        Some((&e.0, &e.1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { p: self.p, i: self.i, n: self.n, x: PhantomData } } }
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.n { return None }
        let e = unsafe { &mut *self.p.add(self.i) };
        self.i += 1;
        Some((&e.0, &mut e.1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        if self.i >= self.n { return None }
        let e = unsafe { ptr::read(self.slots.as_ptr().add(self.i) as *const (K, V)) };
        self.i += 1;
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<K, V> Drop for IntoIter<K, V> {
    fn drop(&mut self) { if mem::needs_drop::<(K, V)>() { while let Some(e) = self.next() { drop(e) } } }
}
macro_rules! wrap { ($t:ident [$($l:lifetime)?] $item:ty, $e:ident => $r:expr) => {
    impl<$($l,)? K, V> Iterator for $t<$($l,)? K, V> {
        type Item = $item;
        fn next(&mut self) -> Option<$item> { match self.0.next() { Some($e) => Some($r), None => None } }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<$($l,)? K, V> ExactSizeIterator for $t<$($l,)? K, V> {}
    impl<$($l,)? K, V> FusedIterator for $t<$($l,)? K, V> {}
} }
wrap!(Keys['a] &'a K, e => e.0);
wrap!(Values['a] &'a V, e => e.1);
wrap!(ValuesMut['a] &'a mut V, e => e.1);
wrap!(IntoKeys[] K, e => e.0);
wrap!(IntoValues[] V, e => e.1);
wrap!(Drain['a] (K, V), e => e);
impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys(self.0.clone()) } }
impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values(self.0.clone()) } }
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
impl<'a, K, V> FusedIterator for Iter<'a, K, V> {}
impl<'a, K, V> FusedIterator for IterMut<'a, K, V> {}
impl<K, V> FusedIterator for IntoIter<K, V> {}

// -- entries -----------------------------------------------------------------------------------
pub enum Entry<'a, K: 'a, V: 'a> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { map: &'a mut Raw<K, V>, i: usize }
pub struct VacantEntry<'a, K, V> { map: &'a mut Raw<K, V>, key: K }
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => { let v = f(&e.key); e.insert(v) } } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(ref mut e) = self { f(e.get_mut()) } self }
    pub fn key(&self) -> &K { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => &e.key } }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { match self { Entry::Occupied(mut e) => { e.insert(v); e } Entry::Vacant(e) => e.insert_entry(v) } }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.map.at(self.i).0 }
    pub fn get(&self) -> &V { &self.map.at(self.i).1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.map.at_mut(self.i).1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.map.at_mut(self.i).1 }
    pub fn insert(&mut self, v: V) -> V { mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.remove_entry().1 }
    pub fn remove_entry(self) -> (K, V) { self.map.take(self.i) }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.key }
    pub fn into_key(self) -> K { self.key }
    pub fn insert(self, v: V) -> &'a mut V { let i = self.map.put(self.key, v); &mut self.map.at_mut(i).1 }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { let i = self.map.put(self.key, v); OccupiedEntry { map: self.map, i } }
}

// -- sets --------------------------------------------------------------------------------------
pub struct HashSet<T, S = RandomState>(HashMap<T, (), S>);
pub struct SetIter<'a, T>(Keys<'a, T, ()>);
pub struct SetIntoIter<T>(IntoIter<T, ()>);
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self { HashSet(HashMap::new()) }
    pub fn with_capacity(c: usize) -> Self { HashSet(HashMap::with_capacity(c)) }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(h: S) -> Self { HashSet(HashMap::with_hasher(h)) }
    pub fn with_capacity_and_hasher(c: usize, h: S) -> Self { HashSet(HashMap::with_capacity_and_hasher(c, h)) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn capacity(&self) -> usize { self.0.capacity() }
    pub fn iter(&self) -> SetIter<'_, T> { SetIter(self.0.keys()) }
    pub fn clear(&mut self) { self.0.clear() }
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    pub fn insert(&mut self, t: T) -> bool { if self.0.contains_key(&t) { false } else { self.0.insert(t, ()); true } }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> bool where T: Borrow<Q> { self.0.contains_key(t) }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> bool where T: Borrow<Q> { self.0.remove(t).is_some() }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> Option<&T> where T: Borrow<Q> { self.0.get_key_value(t).map(|e| e.0) }
}
impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet(HashMap::default()) } }
impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet(self.0.clone()) } }
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.insert(t); } } }
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m } }
impl<'a, T> Iterator for SetIter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<T> Iterator for SetIntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { match self.0.next() { Some(e) => Some(e.0), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = SetIter<'a, T>; fn into_iter(self) -> SetIter<'a, T> { self.iter() } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = SetIntoIter<T>; fn into_iter(self) -> SetIntoIter<T> { SetIntoIter(self.0.into_iter()) } }
