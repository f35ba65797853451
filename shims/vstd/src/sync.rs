pub use ::std::sync::*;
use ::std::sync as real;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::AtomicU32;
use ::std::mem::ManuallyDrop;
use vctl::sched::{self, Kind, Op};

/// Engine errors are not verdicts: leave loudly with a distinct status.
#[cold]
fn engine(msg: &str) -> ! {
    ::std::eprintln!("ENGINE-ERROR {msg}");
    ::std::process::exit(97)
}

fn at(id: &AtomicU32, kind: Kind) -> u32 {
    let obj = sched::obj_id(id);
    sched::point(Op { obj, kind });
    obj
}

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> { id: AtomicU32, inner: real::RwLock<T> }

pub struct RwLockReadGuard<'a, T: ?Sized + 'a> { g: ManuallyDrop<real::RwLockReadGuard<'a, T>>, held: Option<u32> }
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> { g: ManuallyDrop<real::RwLockWriteGuard<'a, T>>, held: Option<u32> }

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(o) = self.held { sched::before_release(o) }
        unsafe { ManuallyDrop::drop(&mut self.g) }
        if let Some(o) = self.held { sched::release(o, false) }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(o) = self.held { sched::before_release(o) }
        unsafe { ManuallyDrop::drop(&mut self.g) }
        if let Some(o) = self.held { sched::release(o, true) }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.g } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.g } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { &mut self.g } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let mut s = ManuallyDrop::new(s);
        let g = unsafe { ManuallyDrop::take(&mut s.g) };
        if let Some(o) = s.held { sched::downgrade(o) }
        RwLockReadGuard { g: ManuallyDrop::new(real::RwLockWriteGuard::downgrade(g)), held: s.held }
    }
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock { id: AtomicU32::new(0), inner: real::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}

fn lock_result<G, W>(r: Result<G, PoisonError<G>>, wrap: impl Fn(G) -> W) -> LockResult<W> {
    match r { Ok(g) => Ok(wrap(g)), Err(p) => Err(PoisonError::new(wrap(p.into_inner()))) }
}
fn try_result<G>(r: TryLockResult<G>, what: &str) -> Result<G, PoisonError<G>> {
    match r {
        Ok(g) => Ok(g),
        Err(TryLockError::Poisoned(p)) => Err(p),
        Err(TryLockError::WouldBlock) => engine(what),
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if sched::me().is_some() {
            let o = at(&self.id, Kind::Read);
            lock_result(try_result(self.inner.try_read(), "read lock granted but busy"), |g| RwLockReadGuard { g: ManuallyDrop::new(g), held: Some(o) })
        } else {
            lock_result(self.inner.read(), |g| RwLockReadGuard { g: ManuallyDrop::new(g), held: None })
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if sched::me().is_some() {
            let o = at(&self.id, Kind::Write);
            lock_result(try_result(self.inner.try_write(), "write lock granted but busy"), |g| RwLockWriteGuard { g: ManuallyDrop::new(g), held: Some(o) })
        } else {
            lock_result(self.inner.write(), |g| RwLockWriteGuard { g: ManuallyDrop::new(g), held: None })
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let mut held = None;
        if sched::me().is_some() {
            let o = at(&self.id, Kind::TryRead);
            if !sched::try_take(o, false) { return Err(TryLockError::WouldBlock) }
            held = Some(o);
        }
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { g: ManuallyDrop::new(g), held }),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { g: ManuallyDrop::new(p.into_inner()), held }))),
            Err(TryLockError::WouldBlock) => if held.is_some() { engine("try_read") } else { Err(TryLockError::WouldBlock) },
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let mut held = None;
        if sched::me().is_some() {
            let o = at(&self.id, Kind::TryWrite);
            if !sched::try_take(o, true) { return Err(TryLockError::WouldBlock) }
            held = Some(o);
        }
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { g: ManuallyDrop::new(g), held }),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { g: ManuallyDrop::new(p.into_inner()), held }))),
            Err(TryLockError::WouldBlock) => if held.is_some() { engine("try_write") } else { Err(TryLockError::WouldBlock) },
        }
    }
    pub fn is_poisoned(&self) -> bool {
        if sched::me().is_some() { at(&self.id, Kind::Load); }
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        if sched::me().is_some() { at(&self.id, Kind::Store); }
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> { id: AtomicU32, inner: real::Mutex<T> }
pub struct MutexGuard<'a, T: ?Sized + 'a> { g: ManuallyDrop<real::MutexGuard<'a, T>>, held: Option<u32>, lock: &'a Mutex<T> }

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(o) = self.held { sched::before_release(o) }
        unsafe { ManuallyDrop::drop(&mut self.g) }
        if let Some(o) = self.held { sched::release(o, true) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.g } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { &mut self.g } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { id: AtomicU32::new(0), inner: real::Mutex::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if sched::me().is_some() {
            let o = at(&self.id, Kind::Write);
            lock_result(try_result(self.inner.try_lock(), "mutex granted but busy"), |g| MutexGuard { g: ManuallyDrop::new(g), held: Some(o), lock: self })
        } else {
            lock_result(self.inner.lock(), |g| MutexGuard { g: ManuallyDrop::new(g), held: None, lock: self })
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let mut held = None;
        if sched::me().is_some() {
            let o = at(&self.id, Kind::TryWrite);
            if !sched::try_take(o, true) { return Err(TryLockError::WouldBlock) }
            held = Some(o);
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { g: ManuallyDrop::new(g), held, lock: self }),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: ManuallyDrop::new(p.into_inner()), held, lock: self }))),
            Err(TryLockError::WouldBlock) => if held.is_some() { engine("try_lock") } else { Err(TryLockError::WouldBlock) },
        }
    }
    pub fn is_poisoned(&self) -> bool {
        if sched::me().is_some() { at(&self.id, Kind::Load); }
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        if sched::me().is_some() { at(&self.id, Kind::Store); }
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }

// ---------------------------------------------------------------- Condvar

#[derive(Default)]
pub struct Condvar { id: AtomicU32, inner: real::Condvar }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }
impl Condvar {
    pub const fn new() -> Self { Condvar { id: AtomicU32::new(0), inner: real::Condvar::new() } }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        if guard.held.is_some() {
            let cv = sched::obj_id(&self.id);
            sched::cv_prepare(cv);
            drop(guard);
            sched::point(Op { obj: cv, kind: Kind::CvWait });
            lock.lock()
        } else {
            let mut guard = ManuallyDrop::new(guard);
            let g = unsafe { ManuallyDrop::take(&mut guard.g) };
            lock_result(self.inner.wait(g), |g| MutexGuard { g: ManuallyDrop::new(g), held: None, lock })
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *guard) { guard = self.wait(guard)?; }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        if sched::me().is_some() { let o = at(&self.id, Kind::CvNotify); sched::cv_notify(o, false) } else { self.inner.notify_one() }
    }
    pub fn notify_all(&self) {
        if sched::me().is_some() { let o = at(&self.id, Kind::CvNotify); sched::cv_notify(o, true) } else { self.inner.notify_all() }
    }
}

// ---------------------------------------------------------------- OnceLock, Once, LazyLock

pub struct OnceLock<T> { id: AtomicU32, inner: real::OnceLock<T> }

struct Initialising(u32);
impl Drop for Initialising { fn drop(&mut self) { sched::once_end(self.0) } }

impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { id: AtomicU32::new(0), inner: real::OnceLock::new() } }
    pub fn get(&self) -> Option<&T> {
        if let Some(v) = self.inner.get() { return Some(v) }
        if sched::me().is_some() { at(&self.id, Kind::OnceGet); }
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.inner.get_mut() }
    pub fn set(&self, value: T) -> Result<(), T> {
        if sched::me().is_some() { at(&self.id, Kind::OnceInit); }
        self.inner.set(value)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        // reading a set cell commutes with every other operation
        if let Some(v) = self.inner.get() { return v }
        if sched::me().is_none() { return self.inner.get_or_init(f) }
        let o = at(&self.id, Kind::OnceInit);
        if let Some(v) = self.inner.get() { return v }
        sched::once_begin(o);
        let done = Initialising(o);
        let v = f();
        if self.inner.set(v).is_err() { engine("once cell set twice") }
        drop(done);
        self.inner.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> { self.inner.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.inner.take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { OnceLock::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { OnceLock { id: AtomicU32::new(0), inner: self.inner.clone() } } }
impl<T: PartialEq> PartialEq for OnceLock<T> { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl<T> From<T> for OnceLock<T> { fn from(t: T) -> Self { OnceLock { id: AtomicU32::new(0), inner: real::OnceLock::from(t) } } }

pub struct Once { cell: OnceLock<()> }
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self { Once { cell: OnceLock::new() } }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.cell.get_or_init(f); }
    pub fn is_completed(&self) -> bool { self.cell.get().is_some() }
}
impl fmt::Debug for Once { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Once") } }

pub struct LazyLock<T, F = fn() -> T> { cell: OnceLock<T>, init: ::std::cell::Cell<Option<F>> }
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { cell: OnceLock::new(), init: ::std::cell::Cell::new(Some(f)) } }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| match this.init.take() { Some(f) => f(), None => panic!("LazyLock instance has previously been poisoned") })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.cell.fmt(f) } }
impl<T: Default> Default for LazyLock<T> { fn default() -> Self { LazyLock::new(T::default) } }

// ---------------------------------------------------------------- atomics

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use ::std::sync::atomic as real;
    use ::std::fmt;
    use vctl::sched::{self, Kind};

    macro_rules! common {
        ($name:ident, $t:ty $(, $g:ident)?) => {
            impl$(<$g>)? $name$(<$g>)? {
                fn pt(&self, k: Kind) { if sched::me().is_some() { super::at(&self.id, k); } }
                pub const fn new(v: $t) -> Self { Self { id: real::AtomicU32::new(0), inner: real::$name::new(v) } }
                pub fn load(&self, o: Ordering) -> $t { self.pt(Kind::Load); self.inner.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { self.pt(Kind::Store); self.inner.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.swap(v, o) }
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.pt(Kind::Store); self.inner.compare_exchange(c, n, s, f) }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.pt(Kind::Store); self.inner.compare_exchange(c, n, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, s, l) { x @ Ok(_) => return x, Err(p) => prev = p }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $t { self.inner.get_mut() }
                pub fn into_inner(self) -> $t { self.inner.into_inner() }
            }
            impl$(<$g>)? From<$t> for $name$(<$g>)? { fn from(v: $t) -> Self { Self::new(v) } }
            impl$(<$g>)? fmt::Debug for $name$(<$g>)? { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => {$(
            pub struct $name { id: real::AtomicU32, inner: real::$name }
            common!($name, $t);
            impl Default for $name { fn default() -> Self { Self::new(0) } }
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_sub(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_xor(v, o) }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_nand(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.pt(Kind::Store); self.inner.fetch_min(v, o) }
            }
        )*};
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
         AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

    pub struct AtomicBool { id: real::AtomicU32, inner: real::AtomicBool }
    common!(AtomicBool, bool);
    impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.pt(Kind::Store); self.inner.fetch_and(v, o) }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.pt(Kind::Store); self.inner.fetch_or(v, o) }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.pt(Kind::Store); self.inner.fetch_xor(v, o) }
    }

    pub struct AtomicPtr<T> { id: real::AtomicU32, inner: real::AtomicPtr<T> }
    common!(AtomicPtr, *mut T, T);
    impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::std::ptr::null_mut()) } }
}
