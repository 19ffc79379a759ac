From adb1fe883ce30484a6907ba5ef0b2115c479e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 01/19] verif: instrumented primitives behind --cfg
 thingbuf_verif

---
 src/loom.rs          |   6 +-
 src/mpsc/blocking.rs |   6 +-
 src/util/mutex.rs    |   6 +-
 src/verif.rs         | 510 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 525 insertions(+), 3 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..fdb3dba 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -200,7 +200,11 @@ mod inner {
     }
 }
 
-#[cfg(not(all(loom, test)))]
+#[cfg(all(thingbuf_verif, not(all(loom, test))))]
+#[path = "verif.rs"]
+mod inner;
+
+#[cfg(all(not(thingbuf_verif), not(all(loom, test))))]
 mod inner {
     #![allow(dead_code)]
     pub(crate) mod sync {
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..6e3f771 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -16,7 +16,11 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
-use std::time::{Duration, Instant};
+#[cfg(thingbuf_verif)]
+use crate::loom::time::Instant;
+use std::time::Duration;
+#[cfg(not(thingbuf_verif))]
+use std::time::Instant;
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
 /// channel with  the provided capacity.
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..264f9e5 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -5,11 +5,15 @@ pub(crate) use self::spin_impl::*;
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", not(all(loom, test)), not(thingbuf_verif))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
 
+#[cfg(all(thingbuf_verif, feature = "std", not(all(loom, test))))]
+#[allow(unused_imports)]
+pub(crate) use crate::loom::mutex::{const_mutex, Mutex, MutexGuard};
+
 feature! {
     #![all(loom, test)]
     mod loom_impl;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7fb5a2a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,510 @@
+//! Instrumented replacements for the primitives in `crate::loom`, compiled only
+//! with `--cfg thingbuf_verif`.
+//!
+//! Every atomic access, `UnsafeCell` access, lock operation, park/unpark, spin
+//! hint and clock read is forwarded to functions which a verification harness
+//! (in a separate crate) defines; see the `extern` block below. Nothing in this
+//! file is part of `thingbuf` unless that cfg is set.
+#![allow(dead_code, missing_docs, unreachable_pub)]
+
+extern "Rust" {
+    fn tbv_load(addr: usize, size: usize, ord: u8) -> u64;
+    fn tbv_store(addr: usize, size: usize, val: u64, ord: u8);
+    /// `kind`: 0 = swap, 1 = add, 2 = sub, 3 = and, 4 = or, 5 = xor, 6 = max, 7 = min, 8 = nand
+    fn tbv_rmw(addr: usize, size: usize, kind: u8, val: u64, ord: u8) -> u64;
+    fn tbv_cas(
+        addr: usize,
+        size: usize,
+        cur: u64,
+        new: u64,
+        succ: u8,
+        fail: u8,
+        weak: bool,
+    ) -> (bool, u64);
+    fn tbv_fence(ord: u8);
+    fn tbv_access(addr: usize, size: usize, write: bool);
+    fn tbv_spin();
+    fn tbv_yield();
+    fn tbv_park();
+    fn tbv_park_timeout(nanos: u64);
+    fn tbv_unpark(id: u64);
+    fn tbv_current() -> u64;
+    fn tbv_now() -> u64;
+    fn tbv_lock(addr: usize);
+    fn tbv_try_lock(addr: usize) -> bool;
+    fn tbv_unlock(addr: usize);
+}
+
+pub(crate) mod atomic {
+    pub use core::sync::atomic::Ordering;
+
+    #[inline]
+    fn ord(o: Ordering) -> u8 {
+        match o {
+            Ordering::Relaxed => 0,
+            Ordering::Acquire => 1,
+            Ordering::Release => 2,
+            Ordering::AcqRel => 3,
+            _ => 4,
+        }
+    }
+
+    pub fn fence(o: Ordering) {
+        unsafe { super::tbv_fence(ord(o)) }
+    }
+
+    pub fn compiler_fence(_: Ordering) {}
+
+    pub fn spin_loop_hint() {
+        super::hint::spin_loop()
+    }
+
+    macro_rules! shim_atomic {
+        ($($name:ident, $prim:ty, $to:expr, $from:expr;)*) => {$(
+            #[derive(Debug)]
+            pub struct $name(core::sync::atomic::$name);
+
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(Default::default())
+                }
+            }
+
+            impl $name {
+                pub const fn new(v: $prim) -> Self {
+                    Self(core::sync::atomic::$name::new(v))
+                }
+
+                #[inline]
+                fn at(&self) -> (usize, usize) {
+                    (&self.0 as *const _ as usize, core::mem::size_of::<$prim>())
+                }
+
+                fn rmw(&self, kind: u8, v: $prim, o: Ordering) -> $prim {
+                    let (a, s) = self.at();
+                    let to: fn($prim) -> u64 = $to;
+                    let from: fn(u64) -> $prim = $from;
+                    from(unsafe { super::tbv_rmw(a, s, kind, to(v), ord(o)) })
+                }
+
+                fn cas(&self, cur: $prim, new: $prim, su: Ordering, fa: Ordering, weak: bool) -> Result<$prim, $prim> {
+                    let (a, s) = self.at();
+                    let to: fn($prim) -> u64 = $to;
+                    let from: fn(u64) -> $prim = $from;
+                    let (ok, v) = unsafe { super::tbv_cas(a, s, to(cur), to(new), ord(su), ord(fa), weak) };
+                    if ok { Ok(from(v)) } else { Err(from(v)) }
+                }
+
+                pub fn load(&self, o: Ordering) -> $prim {
+                    let (a, s) = self.at();
+                    let from: fn(u64) -> $prim = $from;
+                    from(unsafe { super::tbv_load(a, s, ord(o)) })
+                }
+
+                pub fn store(&self, v: $prim, o: Ordering) {
+                    let (a, s) = self.at();
+                    let to: fn($prim) -> u64 = $to;
+                    unsafe { super::tbv_store(a, s, to(v), ord(o)) }
+                }
+
+                pub fn swap(&self, v: $prim, o: Ordering) -> $prim { self.rmw(0, v, o) }
+                pub fn fetch_and(&self, v: $prim, o: Ordering) -> $prim { self.rmw(3, v, o) }
+                pub fn fetch_or(&self, v: $prim, o: Ordering) -> $prim { self.rmw(4, v, o) }
+                pub fn fetch_xor(&self, v: $prim, o: Ordering) -> $prim { self.rmw(5, v, o) }
+
+                pub fn compare_exchange(&self, c: $prim, n: $prim, su: Ordering, fa: Ordering) -> Result<$prim, $prim> {
+                    self.cas(c, n, su, fa, false)
+                }
+
+                pub fn compare_exchange_weak(&self, c: $prim, n: $prim, su: Ordering, fa: Ordering) -> Result<$prim, $prim> {
+                    self.cas(c, n, su, fa, true)
+                }
+
+                pub fn fetch_update<F>(&self, su: Ordering, fa: Ordering, mut f: F) -> Result<$prim, $prim>
+                where
+                    F: FnMut($prim) -> Option<$prim>,
+                {
+                    let mut prev = self.load(fa);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, su, fa) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $prim {
+                    self.0.get_mut()
+                }
+
+                pub fn into_inner(self) -> $prim {
+                    self.0.into_inner()
+                }
+            }
+        )*};
+    }
+
+    macro_rules! shim_atomic_num {
+        ($($name:ident, $prim:ty;)*) => {
+            shim_atomic! { $($name, $prim, |v| v as u64, |v| v as $prim;)* }
+            $(impl $name {
+                pub fn fetch_add(&self, v: $prim, o: Ordering) -> $prim { self.rmw(1, v, o) }
+                pub fn fetch_sub(&self, v: $prim, o: Ordering) -> $prim { self.rmw(2, v, o) }
+                pub fn fetch_max(&self, v: $prim, o: Ordering) -> $prim { self.rmw(6, v, o) }
+                pub fn fetch_min(&self, v: $prim, o: Ordering) -> $prim { self.rmw(7, v, o) }
+            })*
+        };
+    }
+
+    shim_atomic! { AtomicBool, bool, |v| v as u64, |v| v & 1 != 0; }
+    shim_atomic_num! {
+        AtomicUsize, usize;
+        AtomicU8, u8;
+        AtomicU16, u16;
+        AtomicU32, u32;
+        AtomicU64, u64;
+    }
+}
+
+pub(crate) mod hint {
+    #[inline]
+    pub(crate) fn spin_loop() {
+        unsafe { super::tbv_spin() }
+    }
+}
+
+pub(crate) mod cell {
+    #[derive(Debug)]
+    pub(crate) struct UnsafeCell<T>(core::cell::UnsafeCell<T>);
+
+    impl<T> UnsafeCell<T> {
+        pub const fn new(data: T) -> UnsafeCell<T> {
+            UnsafeCell(core::cell::UnsafeCell::new(data))
+        }
+
+        fn touch(&self, write: bool) {
+            unsafe { super::tbv_access(self.0.get() as usize, core::mem::size_of::<T>(), write) }
+        }
+
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*const T) -> R,
+        {
+            self.touch(false);
+            f(self.0.get())
+        }
+
+        pub fn with_mut<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            self.touch(true);
+            f(self.0.get())
+        }
+
+        pub(crate) fn get_mut(&self) -> MutPtr<T> {
+            self.touch(true);
+            MutPtr(self.0.get())
+        }
+    }
+
+    #[derive(Debug)]
+    pub(crate) struct MutPtr<T: ?Sized>(*mut T);
+
+    impl<T: ?Sized> MutPtr<T> {
+        #[allow(clippy::mut_from_ref)]
+        pub(crate) unsafe fn deref(&self) -> &mut T {
+            super::tbv_access(self.0 as *mut u8 as usize, core::mem::size_of_val(&*self.0), true);
+            &mut *self.0
+        }
+
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            unsafe {
+                super::tbv_access(self.0 as *mut u8 as usize, core::mem::size_of_val(&*self.0), true)
+            };
+            f(self.0)
+        }
+    }
+}
+
+#[cfg(feature = "alloc")]
+pub(crate) mod sync {
+    pub use alloc::sync::Weak;
+    pub use core::sync::*;
+
+    /// `alloc::sync::Arc`, with its reference count updates made visible to the
+    /// harness (as a counter of their own, so that the happens-before edges the
+    /// reference count provides are known to it).
+    pub struct Arc<T> {
+        // Dropped explicitly, so that the count is updated first.
+        inner: alloc::sync::Arc<(super::atomic::AtomicUsize, T)>,
+    }
+
+    impl<T> Arc<T> {
+        pub fn new(v: T) -> Self {
+            Self {
+                inner: alloc::sync::Arc::new((super::atomic::AtomicUsize::new(1), v)),
+            }
+        }
+
+        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
+            alloc::sync::Arc::ptr_eq(&a.inner, &b.inner)
+        }
+
+        pub fn strong_count(this: &Self) -> usize {
+            this.inner.0.load(super::atomic::Ordering::SeqCst)
+        }
+    }
+
+    impl<T> Clone for Arc<T> {
+        fn clone(&self) -> Self {
+            self.inner.0.fetch_add(1, super::atomic::Ordering::Relaxed);
+            Self {
+                inner: self.inner.clone(),
+            }
+        }
+    }
+
+    impl<T> Drop for Arc<T> {
+        fn drop(&mut self) {
+            self.inner.0.fetch_sub(1, super::atomic::Ordering::AcqRel);
+        }
+    }
+
+    impl<T> core::ops::Deref for Arc<T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.inner.1
+        }
+    }
+
+    impl<T: core::fmt::Debug> core::fmt::Debug for Arc<T> {
+        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            self.inner.1.fmt(f)
+        }
+    }
+}
+
+#[cfg(not(feature = "alloc"))]
+pub(crate) mod sync {
+    pub use core::sync::*;
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod thread {
+    use std::time::Duration;
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(u64);
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+    pub struct ThreadId(u64);
+
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            ThreadId(self.0)
+        }
+
+        pub fn unpark(&self) {
+            unsafe { super::tbv_unpark(self.0) }
+        }
+
+        pub fn name(&self) -> Option<&str> {
+            None
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(unsafe { super::tbv_current() })
+    }
+
+    pub fn park() {
+        unsafe { super::tbv_park() }
+    }
+
+    pub fn park_timeout(d: Duration) {
+        unsafe { super::tbv_park_timeout(d.as_nanos().min(u64::MAX as u128) as u64) }
+    }
+
+    pub fn sleep(d: Duration) {
+        let end = super::time::Instant::now() + d;
+        loop {
+            let now = super::time::Instant::now();
+            if now >= end {
+                return;
+            }
+            park_timeout(end - now)
+        }
+    }
+
+    pub fn yield_now() {
+        unsafe { super::tbv_yield() }
+    }
+
+    pub use std::thread::panicking;
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod time {
+    pub use std::time::Duration;
+
+    /// A virtual clock, advanced by the harness.
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+    pub struct Instant(u64);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(unsafe { super::tbv_now() })
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            Duration::from_nanos(self.0.saturating_sub(earlier.0))
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.duration_since(earlier)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0).map(Duration::from_nanos)
+        }
+
+        pub fn checked_add(&self, d: Duration) -> Option<Self> {
+            let d = u64::try_from(d.as_nanos()).ok()?;
+            self.0.checked_add(d).map(Self)
+        }
+
+        pub fn checked_sub(&self, d: Duration) -> Option<Self> {
+            let d = u64::try_from(d.as_nanos()).ok()?;
+            self.0.checked_sub(d).map(Self)
+        }
+    }
+
+    impl core::ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, d: Duration) -> Self {
+            self.checked_add(d).expect("overflow when adding duration to instant")
+        }
+    }
+
+    impl core::ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, d: Duration) -> Self {
+            self.checked_sub(d).expect("overflow when subtracting duration from instant")
+        }
+    }
+
+    impl core::ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, o: Instant) -> Duration {
+            self.duration_since(o)
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod mutex {
+    use super::cell::UnsafeCell;
+    use core::{fmt, ops};
+
+    pub(crate) struct Mutex<T> {
+        data: UnsafeCell<T>,
+    }
+
+    pub(crate) struct MutexGuard<'a, T>(&'a Mutex<T>, core::marker::PhantomData<*mut ()>);
+
+    pub(crate) const fn const_mutex<T>(data: T) -> Mutex<T> {
+        Mutex {
+            data: UnsafeCell::new(data),
+        }
+    }
+
+    impl<T> Mutex<T> {
+        fn addr(&self) -> usize {
+            self as *const _ as *const u8 as usize
+        }
+
+        pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
+            unsafe { super::tbv_lock(self.addr()) };
+            MutexGuard(self, core::marker::PhantomData)
+        }
+
+        pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            if unsafe { super::tbv_try_lock(self.addr()) } {
+                Some(MutexGuard(self, core::marker::PhantomData))
+            } else {
+                None
+            }
+        }
+    }
+
+    impl<T> ops::Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.0.data.with(|p| unsafe { &*p })
+        }
+    }
+
+    impl<T> ops::DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.0.data.with_mut(|p| unsafe { &mut *p })
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            unsafe { super::tbv_unlock(self.0.addr()) }
+        }
+    }
+
+    impl<T> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Mutex { .. }")
+        }
+    }
+
+    unsafe impl<T: Send> Send for Mutex<T> {}
+    unsafe impl<T: Send> Sync for Mutex<T> {}
+}
+
+pub(crate) mod alloc {
+    /// Tracks nothing (see the `Track` of the ordinary build).
+    #[derive(Debug, Default)]
+    pub struct Track<T> {
+        value: T,
+    }
+
+    impl<T> Track<T> {
+        pub fn new(value: T) -> Track<T> {
+            Track { value }
+        }
+
+        pub fn get_ref(&self) -> &T {
+            &self.value
+        }
+
+        pub fn get_mut(&mut self) -> &mut T {
+            &mut self.value
+        }
+
+        pub fn into_inner(self) -> T {
+            self.value
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) fn traceln(args: std::fmt::Arguments) {
+    eprintln!("{}", args);
+}
+
+#[cfg(not(feature = "std"))]
+pub(crate) fn traceln(_: core::fmt::Arguments) {}
-- 
2.43.0


From 43853d0145cb8eda03310fa5721f2c39908154a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 02/19] fix: Receiver::is_closed must not be true while a
 sender exists

The sender count starts at 1 for the first sender and every clone and drop
adds or subtracts one, so the channel is closed when it is 0; `<= 1` reported
a channel with one living sender as closed.
---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 6e3f771..867d2cb 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -877,7 +877,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1563,7 +1563,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From fe78f0ed0a8eca0d103994420ce9cdb9f25d59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 03/19] fix: TrySendError::is_closed and
 SendTimeoutError::is_closed

They answered `true` for Full (or Timeout) errors and `false` for Closed ones.
---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From 45673bfb29df81b045483514e5ea9402a9c22fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:58 +0000
Subject: [PATCH 04/19] fix: close the channel also when a handle is dropped by
 a panicking thread

Core::close did nothing while the thread was unwinding, so the other side
never learned that the channel was closed and waited forever. Only loom needs
this (its primitives cannot be used while unwinding).
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..510eda6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,7 +167,7 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From 14c0f66d14d8469441f319895a006a82064df662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:00 +0000
Subject: [PATCH 05/19] fix: reject static queues and channels of capacity zero

The dynamically allocated flavours assert that the capacity is not zero; the
static ones did not, and accessed a slot outside their empty array on first
use.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 510eda6..6c7bece 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,7 @@ struct Slot<T> {
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
+        assert!(capacity > 0);
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
-- 
2.43.0


From 66108aee517fbe41d3f8435b3a646978c3c3bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:03 +0000
Subject: [PATCH 06/19] fix: dropping a StaticChannel must not panic

Unlike the other flavours, StaticChannel never marked its slots as dropped, so
that dropping one (e.g. a local one which was never split) tripped the debug
assertion in Core's destructor.
---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..d5ab7db 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -756,6 +756,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 867d2cb..51f37ab 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -244,6 +244,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From 213ac1722b73e8b41eb2a379423091648837a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:05 +0000
Subject: [PATCH 07/19] fix: do not drop elements which were never initialized

If Recycle::new_element panicked, the slot it was called for had already been
claimed, and drop_slots dropped its uninitialized contents. Such a slot still
has its initial state.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6c7bece..928ff0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -399,7 +399,12 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
-        for slot in &mut slots[..num_initialized] {
+        for (i, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // If the recycling policy panicked while creating an element, the
+            // slot was claimed, but never initialized.
+            if slot.state.load(Relaxed) == i {
+                continue;
+            }
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
-- 
2.43.0


From 69328a42f27b552373d688f2b74e3a29ff20eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:06 +0000
Subject: [PATCH 08/19] fix: push and pop must not spin for as long as a slot
 is held

While somebody held a reference to the slot (or was stalled in the middle of
an operation on it), push_ref spun until that reference was released when the
slot was still being written or read from the previous lap, and pop_ref when
it was still being read. A thread holding the reference itself hung forever.
Report Full or Empty instead, as pop_ref does for a slot which is being
written to.
---
 src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 928ff0c..3a4e31d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -272,6 +272,19 @@ impl Core {
                     return Err(TrySendError::Full(()));
                 }
 
+                // The element is still being read.
+                if test_dbg!(backoff.done_spinning()) {
+                    return Err(TrySendError::Full(()));
+                }
+
+                backoff.spin();
+            } else if test_dbg!(state.wrapping_add(self.gen) == tail) {
+                // The slot has been claimed on the previous lap and is still
+                // being written to.
+                if test_dbg!(backoff.done_spinning()) {
+                    return Err(TrySendError::Full(()));
+                }
+
                 backoff.spin();
             } else {
                 backoff.spin_yield();
@@ -335,7 +348,9 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
+            // Either nothing has been pushed to this slot yet, or the element
+            // popped from it on the previous lap is still being read.
+            if test_dbg!(state == head || state.wrapping_add(self.gen) == head + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
-- 
2.43.0


From 196814d1032fc5f2e770b80ad96f9e2b498ea517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 09/19] fix: use after free of a waiter in List::dequeue

The node's state was changed before the rest of the node was accessed. A
waiter which sees the new state (e.g. because its future happens to be polled,
or after a spurious unpark) returns without locking the list, so its node may
be gone before dequeue has finished with it.
---
 src/wait/queue.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..a978216 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -578,9 +578,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
@@ -595,6 +592,11 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // This must come last: as soon as the waiter can see that it has been
+        // dequeued, it may be deallocated without locking the list.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From 4da0107c56f13e7f49315d0de6454641dad4d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:10 +0000
Subject: [PATCH 10/19] fix: WaitQueue::notify must not act on an outdated
 state

notify decided what to do before it locked the list. If the last waiter
removed itself in between (its future was dropped), the notification was lost
(or a debug assertion failed) although a sender may be about to wait; and a
concurrent close could be overwritten.
---
 src/wait/queue.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index a978216..e35bbe2 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,24 +388,31 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
-                }
+        // Reload the queue's state, as it may have changed while we were
+        // waiting to lock the linked list: the waiters may be gone.
+        let mut state = self.state.load(Acquire);
+        while test_dbg!(state) == WAKING || state == EMPTY {
+            match test_dbg!(self
+                .state
+                .compare_exchange_weak(state, WAKING, SeqCst, SeqCst))
+            {
+                Ok(_) => return false,
+                Err(actual) => state = actual,
             }
+        }
+
+        match state {
             WAITING => {
                 let waiter = list.dequeue(WAKING);
                 debug_assert!(
@@ -417,7 +424,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
                 // If we popped the last node, transition back to the empty
                 // state.
                 if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
+                    let _ = self.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst);
                 }
 
                 // drop the lock
@@ -429,12 +436,8 @@ impl<T: Notify + Unpin> WaitQueue<T> {
                     return true;
                 }
             }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
-            }
+            // The queue was closed in the meantime, so everyone is being woken.
+            _state => debug_assert_eq!(_state, CLOSED),
         }
         false
     }
-- 
2.43.0


From 8a7605956aebb33db374a5c3c0900efc2fea3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:12 +0000
Subject: [PATCH 11/19] fix: a panic while cloning a waker must not corrupt the
 wait queue

start_wait_slow cloned the waiter after it had set the queue's state to
WAITING. If that panicked, the queue claimed to have waiters, but the list was
empty.
---
 src/wait/queue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index e35bbe2..3731a78 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,9 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Cloning a waker may panic, so do it before anything is changed.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +273,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
-- 
2.43.0


From ced483e17cdef0601e6068752c9943141887b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:14 +0000
Subject: [PATCH 12/19] fix: a dropped send future must pass on its
 notification

If a waiting send future was notified, but dropped before it was polled again,
the notification was lost, and another waiting sender slept on although there
was capacity for it.
---
 src/mpsc/async_impl.rs | 8 ++++++--
 src/wait/queue.rs      | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index d5ab7db..76affb1 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1501,8 +1501,12 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
-            this.waiter.remove(&this.core.tx_wait)
+        if test_dbg!(*this.state) == State::Waiting
+            && !test_dbg!(this.waiter.remove(&this.core.tx_wait))
+        {
+            // This future has been notified, but will not make use of the
+            // notification: pass it on to another waiter.
+            this.core.tx_wait.notify();
         }
     }
 }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 3731a78..e752427 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -474,10 +474,16 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Removes the waiter from the queue. Returns `false` if it was dequeued
+    /// in the meantime, in which case a notification was assigned to it (or
+    /// the queue was closed).
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) -> bool {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        if !self.is_linked() {
+            return false;
+        }
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -489,6 +495,7 @@ impl<T: Notify> Waiter<T> {
         if test_dbg!(list.is_empty()) {
             let _ = test_dbg!(q.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
         }
+        true
     }
 
     #[inline]
-- 
2.43.0


From 4e7fa2152364e209fa25a5f37b8aea91d755b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 13/19] fix: recv_timeout must not restart its timeout

After a wakeup without a message the receiver parked for the whole timeout
again, instead of what was left of it.
---
 src/mpsc/blocking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 51f37ab..1878e92 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1647,7 +1647,7 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
-- 
2.43.0


From acd21defce57b0b6a682d07d0d7233555c867c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:17 +0000
Subject: [PATCH 14/19] fix: blocking send must wait again after an
 unsuccessful wakeup

When a notified sender found the channel full again, it asked for the result
of the notification it had already consumed over and over, spinning instead of
waiting for the next notification.
---
 src/mpsc/blocking.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 1878e92..0295f77 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1696,7 +1696,8 @@ fn send_ref<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
-                    _ => {}
+                    // the notification has been consumed: wait for another one
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
-- 
2.43.0


From 940f005458f4084f09a8f28626ce8d69821b354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:18 +0000
Subject: [PATCH 15/19] fix: send_timeout must take its waiter out of the queue
 when it gives up

On timeout the waiter, which lives on the stack, stayed linked in the wait
queue (use after free), a notification assigned to it was lost, the timeout
was restarted by every wakeup, and was not checked at all once a notification
had been consumed without success.
---
 src/mpsc/blocking.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 0295f77..4cc732b 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1750,17 +1750,31 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-                    _ => {}
+                    // the notification has been consumed: wait for another one
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
-                let elapsed = beginning_park.elapsed();
-                if elapsed >= timeout {
-                    return Err(SendTimeoutError::Timeout(()));
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
+            }
+        }
+
+        if beginning_park.elapsed() >= timeout {
+            let node = unsafe {
+                // Safety: as above.
+                Pin::new_unchecked(&mut waiter)
+            };
+            // The waiter must not stay in the queue when this function returns.
+            if !unqueued && !node.remove(&core.tx_wait) {
+                // It has been notified: this is the last chance to use that.
+                match core.try_send_ref(slots.as_ref(), recycle) {
+                    Ok(slot) => return Ok(SendRef(slot)),
+                    Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
+                    _ => {}
                 }
             }
+            return Err(SendTimeoutError::Timeout(()));
         }
     }
 }
-- 
2.43.0


From 6febcea33947cdf435e83b71d44a5f8a8cb6482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 16/19] fix: a panicking waker clone must not trip an assertion
 in WaitCell

---
 src/wait/cell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..8e3125c 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -130,7 +130,8 @@ impl<T: Notify> WaitCell<T> {
                 }
 
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
+                    // If `f` panicked, this is the waiter which was already
+                    // registered before, and it has been notified.
                     waiter.notify();
                 }
 
-- 
2.43.0


From d54d60a16de0956a25fa74e2c45ea133ae439add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 17/19] fix: do not wake or drop wakers while holding the wait
 queue's lock

Waking a task may poll or drop it, and dropping a waker may drop the task
it belongs to. If that task is itself waiting in the queue, this locks the
list again: closing a channel deadlocked when the last reference to a
waiting sender's task was its waker.
---
 src/wait/queue.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index e752427..8fcfd44 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -350,17 +350,16 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let prev = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            ref mut waiter => waiter.replace(my_waiter.clone()),
         });
 
+        // Dropping a waker may drop a task which is in the list as well, so
+        // unlock it first.
+        drop(list);
+        drop(prev);
+
         WaitResult::Wait
     }
 
@@ -450,10 +449,13 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_println!("WaitQueue::close()");
 
         test_dbg!(self.state.swap(CLOSED, SeqCst));
-        let mut list = self.list.lock();
-        while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
-                waiter.notify();
+        // Notifying a waiter may run (or drop) the waiting task, which may lock
+        // the list, so the lock must not be held while doing so.
+        loop {
+            let waiter = self.list.lock().dequeue(CLOSED);
+            match waiter {
+                Some(waiter) => waiter.notify(),
+                None => break,
             }
         }
     }
-- 
2.43.0


From f3e3ef157464f269188eb4b7e6fd66c76844557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 18/19] verif: more of the instrumented primitives (AtomicPtr,
 signed atomics, Weak, ...)

---
 src/verif.rs | 145 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 137 insertions(+), 8 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 7fb5a2a..d435df6 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -70,6 +70,12 @@ pub(crate) mod atomic {
                 }
             }
 
+            impl From<$prim> for $name {
+                fn from(v: $prim) -> Self {
+                    Self::new(v)
+                }
+            }
+
             impl $name {
                 pub const fn new(v: $prim) -> Self {
                     Self(core::sync::atomic::$name::new(v))
@@ -111,6 +117,7 @@ pub(crate) mod atomic {
                 pub fn fetch_and(&self, v: $prim, o: Ordering) -> $prim { self.rmw(3, v, o) }
                 pub fn fetch_or(&self, v: $prim, o: Ordering) -> $prim { self.rmw(4, v, o) }
                 pub fn fetch_xor(&self, v: $prim, o: Ordering) -> $prim { self.rmw(5, v, o) }
+                pub fn fetch_nand(&self, v: $prim, o: Ordering) -> $prim { self.rmw(8, v, o) }
 
                 pub fn compare_exchange(&self, c: $prim, n: $prim, su: Ordering, fa: Ordering) -> Result<$prim, $prim> {
                     self.cas(c, n, su, fa, false)
@@ -146,8 +153,8 @@ pub(crate) mod atomic {
     }
 
     macro_rules! shim_atomic_num {
-        ($($name:ident, $prim:ty;)*) => {
-            shim_atomic! { $($name, $prim, |v| v as u64, |v| v as $prim;)* }
+        ($($name:ident, $prim:ty, $unsigned:ty;)*) => {
+            shim_atomic! { $($name, $prim, |v| v as $unsigned as u64, |v| v as $prim;)* }
             $(impl $name {
                 pub fn fetch_add(&self, v: $prim, o: Ordering) -> $prim { self.rmw(1, v, o) }
                 pub fn fetch_sub(&self, v: $prim, o: Ordering) -> $prim { self.rmw(2, v, o) }
@@ -158,12 +165,70 @@ pub(crate) mod atomic {
     }
 
     shim_atomic! { AtomicBool, bool, |v| v as u64, |v| v & 1 != 0; }
+
+    impl AtomicBool {
+        pub fn fetch_not(&self, o: Ordering) -> bool {
+            self.fetch_xor(true, o)
+        }
+    }
+
+    /// A pointer, kept as the number it is.
+    pub struct AtomicPtr<T>(AtomicUsize, core::marker::PhantomData<*mut T>);
+
+    unsafe impl<T> Send for AtomicPtr<T> {}
+    unsafe impl<T> Sync for AtomicPtr<T> {}
+
+    impl<T> core::fmt::Debug for AtomicPtr<T> {
+        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            self.0.fmt(f)
+        }
+    }
+
+    impl<T> Default for AtomicPtr<T> {
+        fn default() -> Self {
+            Self(AtomicUsize::new(0), core::marker::PhantomData)
+        }
+    }
+
+    impl<T> AtomicPtr<T> {
+        pub fn new(p: *mut T) -> Self {
+            Self(AtomicUsize::new(p as usize), core::marker::PhantomData)
+        }
+
+        pub fn load(&self, o: Ordering) -> *mut T {
+            self.0.load(o) as *mut T
+        }
+
+        pub fn store(&self, p: *mut T, o: Ordering) {
+            self.0.store(p as usize, o)
+        }
+
+        pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
+            self.0.swap(p as usize, o) as *mut T
+        }
+
+        pub fn compare_exchange(&self, c: *mut T, n: *mut T, su: Ordering, fa: Ordering) -> Result<*mut T, *mut T> {
+            let r = self.0.compare_exchange(c as usize, n as usize, su, fa);
+            r.map(|p| p as *mut T).map_err(|p| p as *mut T)
+        }
+
+        pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, su: Ordering, fa: Ordering) -> Result<*mut T, *mut T> {
+            let r = self.0.compare_exchange_weak(c as usize, n as usize, su, fa);
+            r.map(|p| p as *mut T).map_err(|p| p as *mut T)
+        }
+    }
+
     shim_atomic_num! {
-        AtomicUsize, usize;
-        AtomicU8, u8;
-        AtomicU16, u16;
-        AtomicU32, u32;
-        AtomicU64, u64;
+        AtomicIsize, isize, usize;
+        AtomicI8, i8, u8;
+        AtomicI16, i16, u16;
+        AtomicI32, i32, u32;
+        AtomicI64, i64, u64;
+        AtomicUsize, usize, usize;
+        AtomicU8, u8, u8;
+        AtomicU16, u16, u16;
+        AtomicU32, u32, u32;
+        AtomicU64, u64, u64;
     }
 }
 
@@ -233,7 +298,6 @@ pub(crate) mod cell {
 
 #[cfg(feature = "alloc")]
 pub(crate) mod sync {
-    pub use alloc::sync::Weak;
     pub use core::sync::*;
 
     /// `alloc::sync::Arc`, with its reference count updates made visible to the
@@ -258,6 +322,55 @@ pub(crate) mod sync {
         pub fn strong_count(this: &Self) -> usize {
             this.inner.0.load(super::atomic::Ordering::SeqCst)
         }
+
+        pub fn downgrade(this: &Self) -> Weak<T> {
+            Weak(alloc::sync::Arc::downgrade(&this.inner))
+        }
+
+        pub fn as_ptr(this: &Self) -> *const T {
+            &this.inner.1
+        }
+
+        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
+            if this.inner.0.load(super::atomic::Ordering::Acquire) != 1 {
+                return None;
+            }
+            alloc::sync::Arc::get_mut(&mut this.inner).map(|i| &mut i.1)
+        }
+    }
+
+    pub struct Weak<T>(alloc::sync::Weak<(super::atomic::AtomicUsize, T)>);
+
+    impl<T> Weak<T> {
+        pub fn upgrade(&self) -> Option<Arc<T>> {
+            let inner = self.0.upgrade()?;
+            inner.0.fetch_add(1, super::atomic::Ordering::Acquire);
+            Some(Arc { inner })
+        }
+    }
+
+    impl<T> Clone for Weak<T> {
+        fn clone(&self) -> Self {
+            Self(self.0.clone())
+        }
+    }
+
+    impl<T> AsRef<T> for Arc<T> {
+        fn as_ref(&self) -> &T {
+            self
+        }
+    }
+
+    impl<T> From<T> for Arc<T> {
+        fn from(v: T) -> Self {
+            Self::new(v)
+        }
+    }
+
+    impl<T: Default> Default for Arc<T> {
+        fn default() -> Self {
+            Self::new(T::default())
+        }
     }
 
     impl<T> Clone for Arc<T> {
@@ -402,6 +515,18 @@ pub(crate) mod time {
         }
     }
 
+    impl core::ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, d: Duration) {
+            *self = *self + d
+        }
+    }
+
+    impl core::ops::SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, d: Duration) {
+            *self = *self - d
+        }
+    }
+
     impl core::ops::Sub<Instant> for Instant {
         type Output = Duration;
         fn sub(self, o: Instant) -> Duration {
@@ -437,6 +562,10 @@ pub(crate) mod mutex {
             MutexGuard(self, core::marker::PhantomData)
         }
 
+        pub(crate) fn get_mut(&mut self) -> &mut T {
+            self.data.with_mut(|p| unsafe { &mut *p })
+        }
+
         pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
             if unsafe { super::tbv_try_lock(self.addr()) } {
                 Some(MutexGuard(self, core::marker::PhantomData))
-- 
2.43.0


From 14972c1c6320461b73350c0edbef9bbecd939a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:51 +0000
Subject: [PATCH 19/19] verif: more of the standard API in the instrumented
 primitives

---
 src/verif.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index d435df6..6a13ec0 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -141,6 +141,16 @@ pub(crate) mod atomic {
                     Err(prev)
                 }
 
+                pub fn try_update(&self, su: Ordering, fa: Ordering, f: impl FnMut($prim) -> Option<$prim>) -> Result<$prim, $prim> {
+                    self.fetch_update(su, fa, f)
+                }
+
+                pub fn update(&self, su: Ordering, fa: Ordering, mut f: impl FnMut($prim) -> $prim) -> $prim {
+                    match self.fetch_update(su, fa, |v| Some(f(v))) {
+                        Ok(v) | Err(v) => v,
+                    }
+                }
+
                 pub fn get_mut(&mut self) -> &mut $prim {
                     self.0.get_mut()
                 }
@@ -216,6 +226,18 @@ pub(crate) mod atomic {
             let r = self.0.compare_exchange_weak(c as usize, n as usize, su, fa);
             r.map(|p| p as *mut T).map_err(|p| p as *mut T)
         }
+
+        pub fn fetch_update<F>(&self, su: Ordering, fa: Ordering, mut f: F) -> Result<*mut T, *mut T>
+        where
+            F: FnMut(*mut T) -> Option<*mut T>,
+        {
+            let r = self.0.fetch_update(su, fa, |p| f(p as *mut T).map(|p| p as usize));
+            r.map(|p| p as *mut T).map_err(|p| p as *mut T)
+        }
+
+        pub fn into_inner(self) -> *mut T {
+            self.0.into_inner() as *mut T
+        }
     }
 
     shim_atomic_num! {
@@ -248,6 +270,10 @@ pub(crate) mod cell {
             UnsafeCell(core::cell::UnsafeCell::new(data))
         }
 
+        pub(super) fn into_inner(self) -> T {
+            self.0.into_inner()
+        }
+
         fn touch(&self, write: bool) {
             unsafe { super::tbv_access(self.0.get() as usize, core::mem::size_of::<T>(), write) }
         }
@@ -331,6 +357,23 @@ pub(crate) mod sync {
             &this.inner.1
         }
 
+        pub fn into_inner(this: Self) -> Option<T> {
+            let inner = this.inner.clone();
+            drop(this);
+            alloc::sync::Arc::try_unwrap(inner).ok().map(|i| i.1)
+        }
+
+        pub fn try_unwrap(this: Self) -> Result<T, Self> {
+            if this.inner.0.load(super::atomic::Ordering::Acquire) != 1 {
+                return Err(this);
+            }
+            Self::into_inner(this).ok_or_else(|| unreachable!())
+        }
+
+        pub fn weak_count(this: &Self) -> usize {
+            alloc::sync::Arc::weak_count(&this.inner)
+        }
+
         pub fn get_mut(this: &mut Self) -> Option<&mut T> {
             if this.inner.0.load(super::atomic::Ordering::Acquire) != 1 {
                 return None;
@@ -342,6 +385,10 @@ pub(crate) mod sync {
     pub struct Weak<T>(alloc::sync::Weak<(super::atomic::AtomicUsize, T)>);
 
     impl<T> Weak<T> {
+        pub fn strong_count(&self) -> usize {
+            self.0.strong_count()
+        }
+
         pub fn upgrade(&self) -> Option<Arc<T>> {
             let inner = self.0.upgrade()?;
             inner.0.fetch_add(1, super::atomic::Ordering::Acquire);
@@ -562,6 +609,14 @@ pub(crate) mod mutex {
             MutexGuard(self, core::marker::PhantomData)
         }
 
+        pub(crate) fn new(data: T) -> Self {
+            const_mutex(data)
+        }
+
+        pub(crate) fn into_inner(self) -> T {
+            self.data.into_inner()
+        }
+
         pub(crate) fn get_mut(&mut self) -> &mut T {
             self.data.with_mut(|p| unsafe { &mut *p })
         }
-- 
2.43.0

