From a5a6670144acf9f10a2b1c9d70770bbcb2dbe6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 01/17] fix: initialize the index of a heap allocated MemBump

MemBump::new left the level uninitialized, so a fresh allocator would report
or start at an arbitrary level.
---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..3d15060 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // Safety: the allocation begins with the header, the index. The data may stay uninitialized.
+        unsafe { ptr::write(ptr.as_ptr() as *mut Cell<usize>, Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From 767f537e5e0888b65aa43d1534c9ee9436070c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 02/17] fix: make unsync Bump usable with over-aligned storage

The data of the MemBump begins right behind the index, while the storage of a
Bump<T> begins at the alignment of T. With a T aligned to more than a usize
dereferencing tripped a debug assertion, and otherwise the padding was
subtracted from the space such that a T did not fit into a Bump<T>. The latter
made ExitStack::set hit its unreachable!().
---
 static-alloc/src/unsync/bump.rs | 37 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 3d15060..d2df046 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -563,33 +563,54 @@ impl MemBump {
     }
 }
 
+impl<T> Bump<T> {
+    /// The number of bytes between the index and the data.
+    ///
+    /// When the alignment of the data exceeds the alignment of the index then there is some
+    /// padding. It is part of the data of the `MemBump`, which directly follows the index.
+    fn padding_size() -> usize {
+        let header = MemBump::header_layout();
+        let (_, offset) = header
+            .extend(Layout::new::<MaybeUninit<T>>())
+            .expect("Layout of an existing type");
+        offset - header.size()
+    }
+
+    /// The size of the data when viewed as a `MemBump`.
+    fn mem_bump_capacity() -> usize {
+        Self::padding_size() + mem::size_of::<T>()
+    }
+}
+
 impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] =
+            ptr::slice_from_raw_parts(ptr, Self::mem_bump_capacity());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        // The alignment of `self` can be larger, and thus its trailing padding as well.
+        debug_assert!(mem::size_of_val(bump) <= from_size);
         bump
     }
 }
 
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] =
+            ptr::slice_from_raw_parts_mut(ptr, Self::mem_bump_capacity());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        // The alignment of `self` can be larger, and thus its trailing padding as well.
+        debug_assert!(mem::size_of_val(bump) <= from_size);
         bump
     }
 }
-- 
2.43.0


From ad95db821308e13eb38800b3ebff5b027c06d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 03/17] fix: do not hand out padding bytes from a zeroed unsync
 Bump

The bytes between the index and over-aligned storage are not initialized by the
constructor and thus not zeroed.
---
 static-alloc/src/unsync/bump.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index d2df046..d3bce74 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -115,7 +115,8 @@ impl<T> Bump<T> {
     /// The caller can rely on all allocations to be zeroed.
     pub fn zeroed() -> Self {
         Bump {
-            _index: Cell::new(0),
+            // Skip the padding in front of the data, it need not be zeroed.
+            _index: Cell::new(Self::padding_size()),
             _data: UnsafeCell::new(MaybeUninit::zeroed()),
         }
     }
-- 
2.43.0


From 449bc895591ce5165c1b381dc629345f9546ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 04/17] fix: apply the alignment when reacquiring an allocation

MemBump::get_unchecked returned a pointer to the level itself, which is
unaligned and not the prior allocation if that had required padding.
---
 static-alloc/src/unsync/bump.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index d3bce74..4ae5664 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -394,9 +394,10 @@ impl MemBump {
     /// ```
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
         debug_assert!(level.0 < self.capacity());
-        let ptr = self.data_ptr().as_ptr();
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let ptr = self.data_ptr().as_ptr().add(level.0);
+        // The allocation was aligned, relative to the level it was made at.
+        let alloc = ptr.add(ptr.align_offset(mem::align_of::<V>())) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From 391fad343e4f4192e0980a486a34410dfc46908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 05/17] fix: allow zero-sized types and empty arrays in MemBump

Requesting them ran into the assertion that the layout is not empty. In
particular, this affected Alloca with a length of zero or of zero-sized
elements, and Chain::bump_box. Mirrors the sync Bump.
---
 static-alloc/src/unsync/bump.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 4ae5664..881d94f 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -321,6 +321,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -336,6 +340,14 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(level));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -393,6 +405,10 @@ impl MemBump {
     /// # Ok::<_, static_alloc::bump::Failure>(())
     /// ```
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
+        if mem::size_of::<V>() == 0 {
+            return Allocation::for_zst(level);
+        }
+
         debug_assert!(level.0 < self.capacity());
         // Safety: guaranteed by the caller.
         let ptr = self.data_ptr().as_ptr().add(level.0);
@@ -460,8 +476,12 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
-        let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
+        let raw: NonNull<MaybeUninit<T>> = match layout.size() {
+            // No memory is required for zero-sized elements, or for none at all.
+            0 => NonNull::dangling(),
+            _ => self.alloc(layout).ok_or(Failure::Exhausted)?.cast(),
+        };
+        let slice = ptr::slice_from_raw_parts_mut(raw.as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
     }
-- 
2.43.0


From 36c3c4c8bbdeba8da61e111543a1acae30081c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 06/17] fix: refuse an Alloca of usize::MAX elements

The length computation overflowed, panicking in debug builds and creating an
instance that can not be used otherwise.
---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 4727dd4ca5791d9176324d5a1bd99b5535e256e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 07/17] fix: drop remaining pinned values if a destructor
 panics

The unwind flag did not have the rest of the chain while a value was dropped.
On a panic the other values were thus never dropped even though their memory
is released, violating the drop guarantee of pinning.
---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..d238e0f 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // Advance first, the flag must drop the remaining values if this panics.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From ae5ecfe2d7b6df27f17e2d22e0c3aceed899eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 08/17] fix: keep the length of a copied slice of zero-sized
 elements

---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..793f0f2 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. It may be larger than the
+            // length of `uninit`, when its elements are zero-sized.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From e51cab5909352e0ab7f6d93b5774b8abcb3112ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 09/17] fix: align the copy of a zero-sized unsized value

The reference was created from a pointer with an alignment of one.
---
 without-alloc/src/alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 793f0f2..1824ece 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,7 +225,11 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            None => {
+                // Not `invent_for_zst`, the pointer must have the alignment of the value.
+                let dangling = core::ptr::NonNull::new(layout.align() as *mut u8).unwrap();
+                unsafe { Uninit::from_memory(dangling, 0) }
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From cfb70736946eafb19a2dba184d23ce4939297026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 10/17] fix: keep the memory of an Rc while its value is
 dropped

The destructor of the value could successfully unwrap a Weak to its own memory,
while it was still in use.
---
 without-alloc/src/rc.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..b809fcb 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -340,11 +340,6 @@ impl<T> Rc<'_, T> {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
-
-    fn dec_weak(&self) {
-        let val = Self::weak_count(self) - 1;
-        self.inner().weak.set(val);
-    }
 }
 
 impl<'a, T> Weak<'a, T> {
@@ -521,7 +516,8 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // Dropped after the value, else a `Weak` inside the value could release the memory.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From 4f8ab0a76cddc547cec0f2ca65ca828b690e9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 11/17] fix: update the slice length when splitting an uninit
 slice

The pointer kept its old length metadata, so the slice obtained from the first
part (as_ptr, as_mut, into_mut) overlapped with the second part.
---
 without-alloc/src/uninit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..7f1874b 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -830,6 +830,10 @@ impl<'a, T> UninitView<'a, [T]> {
         self.len = bytes;
 
         let base = self.ptr.as_ptr() as *mut u8;
+        // Update the length of the pointer as well, it must not cover the other part.
+        let this = ptr::slice_from_raw_parts_mut(base as *mut T, self.capacity());
+        // SAFETY: same address as before.
+        self.ptr = unsafe { ptr::NonNull::new_unchecked(this) };
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
-- 
2.43.0


From 3ed90c1d6ce8d1b81da1d76aebf389900450e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 12/17] fix: stop filling a result when its container is full

All remaining items of the iterator had been pulled and dropped, which never
terminates for an endless iterator.
---
 fill/src/fill.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..86991cb 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -172,24 +172,32 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
     fn fill<I>(&mut self, iter: I)
         where I: IntoIterator<Item=Result<T, E>>
     {
-        let mut iter = iter.into_iter();
-
         let container = match self {
             Ok(container) => container,
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
+        let mut iter = iter.into_iter();
+        let mut failed = None;
+
+        // Let the container pull the items. Only it knows when it is full.
+        container.fill(core::iter::from_fn(|| {
+            if failed.is_some() {
+                return None;
+            }
+
+            match iter.next()? {
+                Ok(ok) => Some(ok),
+                Err(err) => {
+                    failed = Some(err);
+                    None
                 },
-            };
-        };
+            }
+        }));
 
-        *self = Err(err);
+        if let Some(err) = failed {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From dcc23b971e83ce756da89d8b50baed69e6042c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 13/17] fix: split uninit memory at a byte offset, not an
 element offset

---
 without-alloc/src/uninit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 7f1874b..c192691 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -626,7 +626,7 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
-- 
2.43.0


From d0fdea5f2bfecabc223161c46236a937376f0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 14/17] fix: compute the alignment offset of uninit memory in
 bytes

---
 without-alloc/src/uninit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index c192691..757eebc 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -560,6 +560,7 @@ impl UninitView<'_, ()> {
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         let align = self.ptr.as_ptr()
+            .cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
-- 
2.43.0


From 8a433a6fe9032555841480c066c3a068fba16c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 15/17] fix: drain with range bounds that overflow panics in
 release builds too

(Excluded(usize::MAX), ..) and ..=usize::MAX wrapped around to 0 where
overflow checks are off: the whole vector, or nothing, was drained instead.
---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..dfdbd34 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("start of range overflows"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("end of range overflows"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


From a74e72e0ae2c0c2600d02e4c8153cf02fef5dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 16/17] fix: make LeakBox invariant over the type of its value

---
 static-alloc/src/leaked.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index d492c36..cc08b4e 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -154,8 +154,10 @@ impl<T> Alloca<T> {
 pub struct LeakBox<'ctx, T: ?Sized> {
     #[allow(unused)]
     lifetime: AllocTime<'ctx>,
-    // Covariance should be OK.
     pointer: NonNull<T>,
+    // Must be invariant over `T`. The place may be observed with that type when this box is gone,
+    // see `from_mut`, so that no value of any other type may be written to it.
+    variance: PhantomData<*mut T>,
 }
 
 impl<'ctx, T> LeakBox<'ctx, T> {
@@ -175,7 +177,7 @@ impl<'ctx, T> LeakBox<'ctx, T> {
         // * It is valid for write as it is the only pointer to it.
         // * The allocation lives for at least `'ctx`.
         core::ptr::write(pointer.as_ptr(), val);
-        Self { pointer, lifetime, }
+        Self { pointer, lifetime, variance: PhantomData, }
     }
 }
 
@@ -240,6 +242,7 @@ impl<'ctx, T: ?Sized> LeakBox<'ctx, T> {
         LeakBox {
             lifetime: AllocTime::default(),
             pointer: NonNull::new_unchecked(pointer),
+            variance: PhantomData,
         }
     }
 
@@ -492,6 +495,7 @@ impl<'ctx, T> LeakBox<'ctx, MaybeUninit<T>> {
         LeakBox {
             pointer: this.pointer.cast(),
             lifetime: this.lifetime,
+            variance: PhantomData,
         }
     }
 }
-- 
2.43.0


From 795d22fb45a4e732a57b671c1f88c38011b5efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:39 +0000
Subject: [PATCH 17/17] fix: do not allow an exit stack to be moved after
 pinning

---
 exit-stack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index d238e0f..e81bdc8 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,8 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// The stack must not be moved while it is pinned, no matter the type of its memory.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +102,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0

