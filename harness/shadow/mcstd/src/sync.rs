pub use ::std::sync::*;

use ::std::boxed::Box;
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::option::Option::{self, None, Some};
use ::std::result::Result::{self, Err, Ok};
use ::std::time::Duration;
use ::std::vec::Vec;
use crate::rt::{active, Op};

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    inner: ::std::sync::Mutex<T>
}

pub struct MutexGuard<'a, T: ?Sized> {
    inner: Option<::std::sync::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>
}

fn key<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: ::std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if let Some(rt) = active() {
            rt.point(Op::Lock(key(&self.inner)));
        }
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { inner: Some(g), lock: self }),
            Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), lock: self }))
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if let Some(rt) = active() {
            if !rt.try_lock(key(&self.inner)) {
                return Err(TryLockError::WouldBlock)
            }
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { inner: Some(g), lock: self }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), lock: self })))
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}

impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.is_none() {
            return;
        }
        if let Some(rt) = active() {
            let k = key(&self.lock.inner);
            if ::std::thread::panicking() {
                self.inner = None;
                rt.unlock_quiet(k);
            }
            else {
                // The real lock is released before the bookkeeping; nobody else runs in between.
                rt.point(Op::Unlock(k));
                self.inner = None;
                rt.unlock_quiet(k);
            }
        }
    }
}

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    inner: ::std::sync::RwLock<T>
}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    inner: Option<::std::sync::RwLockReadGuard<'a, T>>,
    lock: &'a RwLock<T>
}

pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: Option<::std::sync::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: ::std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if let Some(rt) = active() {
            rt.point(Op::Read(key(&self.inner)));
        }
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { inner: Some(g), lock: self }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { inner: Some(e.into_inner()), lock: self }))
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if let Some(rt) = active() {
            rt.point(Op::Write(key(&self.inner)));
        }
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), lock: self }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { inner: Some(e.into_inner()), lock: self }))
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.inner.as_ref().unwrap() }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.inner.as_ref().unwrap() }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(rt) = active() {
            let k = key(&self.lock.inner);
            rt.unlock_read(k);
        }
        self.inner = None;
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(rt) = active() {
            let k = key(&self.lock.inner);
            rt.point(Op::Unlock(k));
            self.inner = None;
            rt.unlock_quiet(k);
        }
    }
}

// ---------------------------------------------------------------- Condvar

pub struct Condvar {
    real: ::std::sync::Condvar,
    waiters: ::std::sync::Mutex<VecDeque<usize>>
}

impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Self { real: ::std::sync::Condvar::new(), waiters: ::std::sync::Mutex::new(VecDeque::new()) }
    }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        if let Some(rt) = active() {
            let ticket = rt.ticket();
            self.waiters.lock().unwrap().push_back(ticket);
            guard.inner = None;
            rt.unlock_quiet(key(&lock.inner));
            ::std::mem::forget(guard);
            rt.point(Op::Wait(ticket));
            lock.lock()
        }
        else {
            let inner = guard.inner.take().unwrap();
            match self.real.wait(inner) {
                Ok(g) => Ok(MutexGuard { inner: Some(g), lock }),
                Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), lock }))
            }
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        if let Some(rt) = active() {
            rt.point(Op::Yield);
            if let Some(n) = self.waiters.lock().unwrap().pop_front() {
                rt.grant(n);
            }
        }
        self.real.notify_one();
    }
    pub fn notify_all(&self) {
        if let Some(rt) = active() {
            rt.point(Op::Yield);
            let all: Vec<usize> = self.waiters.lock().unwrap().drain(..).collect();
            for n in all {
                rt.grant(n);
            }
        }
        self.real.notify_all();
    }
}

// ---------------------------------------------------------------- mpsc

pub mod mpsc {
    use super::{Condvar, Mutex};
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use ::std::clone::Clone;
    use ::std::collections::VecDeque;
    use ::std::ops::Drop;
    use ::std::option::Option::{self, None, Some};
    use ::std::result::Result::{self, Err, Ok};
    use ::std::sync::Arc;

    struct Channel<T> {
        state: Mutex<(VecDeque<T>, usize, bool)>,
        cv: Condvar
    }
    pub struct Sender<T>(Arc<Channel<T>>);
    pub struct Receiver<T>(Arc<Channel<T>>);
    pub type SyncSender<T> = Sender<T>;

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Channel { state: Mutex::new((VecDeque::new(), 1, true)), cv: Condvar::new() });
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(_: usize) -> (Sender<T>, Receiver<T>) {
        channel()
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut s = self.0.state.lock().unwrap();
            if !s.2 {
                return Err(SendError(t));
            }
            s.0.push_back(t);
            ::std::mem::drop(s);
            self.0.cv.notify_one();
            Ok(())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.state.lock().unwrap().1 += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.state.lock().unwrap().1 -= 1;
            self.0.cv.notify_all();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.state.lock().unwrap().2 = false;
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut s = self.0.state.lock().unwrap();
            loop {
                if let Some(n) = s.0.pop_front() {
                    return Ok(n);
                }
                if s.1 == 0 {
                    return Err(RecvError);
                }
                s = self.0.cv.wait(s).unwrap();
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut s = self.0.state.lock().unwrap();
            match s.0.pop_front() {
                Some(n) => Ok(n),
                None if s.1 == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty)
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { self.0.recv().ok() }
    }
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { self.0.try_recv().ok() }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { self.0.recv().ok() }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> { IntoIter(self) }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> { self.iter() }
    }
}

// ---------------------------------------------------------------- Barrier is built on the above

pub struct Barrier {
    n: usize,
    state: Mutex<(usize, usize)>,
    cv: Condvar
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Self { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) {
        let mut s = self.state.lock().unwrap();
        let generation = s.1;
        s.0 += 1;
        if s.0 >= self.n {
            s.0 = 0;
            s.1 += 1;
            ::std::mem::drop(s);
            self.cv.notify_all();
        }
        else {
            while s.1 == generation {
                s = self.cv.wait(s).unwrap();
            }
        }
    }
}

// ---------------------------------------------------------------- atomics

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::rt::{active, Op};
    use ::std::fmt;
    use ::std::option::Option::{self, None, Some};
    use ::std::result::Result;

    macro_rules! base {
        ($name:ident, $t:ty) => {
            pub struct $name { inner: ::std::sync::atomic::$name }
            impl $name {
                pub const fn new(v: $t) -> Self { Self { inner: ::std::sync::atomic::$name::new(v) } }
                fn point(&self) {
                    if let Some(rt) = active() {
                        rt.point(Op::Atomic(&self.inner as *const _ as usize));
                    }
                }
                pub fn into_inner(self) -> $t { self.inner.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.inner.get_mut() }
                pub fn load(&self, o: Ordering) -> $t { self.point(); self.inner.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { self.point(); self.inner.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { self.point(); self.inner.compare_exchange(a, b, o, p) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { self.point(); self.inner.compare_exchange(a, b, o, p) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_xor(v, o) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { self.point(); self.inner.fetch_update(o, p, f) }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
            }
            impl Default for $name {
                fn default() -> Self { Self::new(Default::default()) }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self { Self::new(v) }
            }
        };
    }
    macro_rules! number {
        ($name:ident, $t:ty) => {
            base!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.point(); self.inner.fetch_min(v, o) }
            }
        };
    }
    base!(AtomicBool, bool);
    number!(AtomicUsize, usize);
    number!(AtomicIsize, isize);
    number!(AtomicU64, u64);
    number!(AtomicI64, i64);
    number!(AtomicU32, u32);
    number!(AtomicI32, i32);
    number!(AtomicU16, u16);
    number!(AtomicU8, u8);

    #[allow(unused)]
    fn _unused() -> Option<()> { None }
}

#[allow(unused)]
fn _unused(_: Box<Duration>) -> Result<(), ()> { Ok(()) }
