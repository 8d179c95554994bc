From f858aa86decc0e3ba144dd6646887a63d63ec6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 1/5] fix: an empty interval contains no value

contains_val() was true for every value on the empty interval, because
an empty interval is neither below nor above any value.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..81fbaf8 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !self.is_empty() && !(self > val || self < val)
     }
 
     /**
-- 
2.43.0


From 7b876ed97398e26e336da6ba30c67b7f44da3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 2/5] fix: an empty interval intersects nothing

intersects() was true whenever one of the intervals was empty, although
their intersection is empty.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index 81fbaf8..e717cbd 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !self.is_empty() && !other.is_empty() && !(self > other || self < other)
     }
 
     /**
-- 
2.43.0


From 255909acad2c5cd43d0bff548d8bac0ed4f74fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 3/5] fix: lower and upper bounds are never equal, so always
 different

Both == and != were false when comparing a lower with an upper bound.
---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0


From 87cc32a3fea4529dc0f6d8b88400af9e83bdcbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 4/5] fix: cloning a circular buffer clones only its elements

The derived Clone also cloned the slots that hold no element (there is
always at least one), which is undefined behaviour for element types that
own resources.
---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..367d8c4 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only slots that hold elements can be cloned
+        let mut result = Self::with_capacity(self.capacity());
+        result.extend(self.iter());
+        result
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From d28c72f9e2adb71cdff74874a156cb255ddf53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 5/5] fix: a circular buffer works for every element type

Unused slots were filled with mem::uninitialized(), which is undefined
behaviour and panics for types such as char, references and boxes.
Keep them as MaybeUninit instead.
---
 src/circular_buffer/circular.rs | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 367d8c4..e58ecda 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(unsafe{&*self.buffer[self.internal_index(0)].as_ptr()})
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(0)].as_mut_ptr()})
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&*self.buffer[self.internal_index(self.len()-1)].as_ptr()})
         }
     }
 
@@ -551,7 +551,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(self.len()-1)].as_mut_ptr()})
         }
     }
 
@@ -582,7 +582,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and the slots hold elements, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +619,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and the slots hold elements, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +644,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and the slots hold elements, can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +741,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +771,13 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        unsafe{&mut *self.buffer[self.internal_index(index)].as_mut_ptr()}
     }
 }
 
@@ -789,8 +789,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +804,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,12 +817,13 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
+    fn from(v : Vec<T>) -> Self {
         let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
+        let mut v = Vec::from_iter(v.into_iter().map(|x| MaybeUninit::new(x)));
+        v.push(MaybeUninit::uninit());
         v.shrink_to_fit();
         Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
+            buffer: v.into_boxed_slice(),
             start: 0,
             end: buf_len
         }
-- 
2.43.0

