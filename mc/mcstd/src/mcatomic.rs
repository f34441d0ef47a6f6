use ::std::fmt;
use ::std::sync::atomic::Ordering;
use mccore::rt;

fn point(l: &'static str) {
    rt::point(l)
}

fn touch<T>(v: &T) {
    mccore::statics::touch(v as *const T as *const u8, ::std::mem::size_of::<T>());
}

pub fn fence(_: Ordering) {
    point("fence");
}

macro_rules! atomics {
    ($($name:ident $ty:ty;)*) => {$(
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name(::std::sync::atomic::$name);
        impl $name {
            pub const fn new(v: $ty) -> Self { Self(::std::sync::atomic::$name::new(v)) }
            pub fn get_mut(&mut self) -> &mut $ty { self.0.get_mut() }
            pub fn into_inner(self) -> $ty { self.0.into_inner() }
            pub fn load(&self, _: Ordering) -> $ty { touch(self); point("atomic load"); self.0.load(Ordering::SeqCst) }
            pub fn store(&self, v: $ty, _: Ordering) { touch(self); point("atomic store"); self.0.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic swap"); self.0.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $ty, b: $ty, _: Ordering, _: Ordering) -> Result<$ty, $ty> {
                touch(self); point("atomic cas"); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, a: $ty, b: $ty, _: Ordering, _: Ordering) -> Result<$ty, $ty> {
                touch(self); point("atomic cas"); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$ty, $ty> {
                touch(self); point("atomic update"); self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) }
        }
        impl From<$ty> for $name { fn from(v: $ty) -> Self { Self::new(v) } }
    )*};
}
macro_rules! arith {
    ($($name:ident $ty:ty;)*) => {$(
        impl $name {
            pub fn fetch_add(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic add"); self.0.fetch_add(v, Ordering::SeqCst) }
            pub fn fetch_sub(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic sub"); self.0.fetch_sub(v, Ordering::SeqCst) }
            pub fn fetch_max(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic max"); self.0.fetch_max(v, Ordering::SeqCst) }
            pub fn fetch_min(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic min"); self.0.fetch_min(v, Ordering::SeqCst) }
        }
    )*};
}
macro_rules! bits {
    ($($name:ident $ty:ty;)*) => {$(
        impl $name {
            pub fn fetch_and(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic and"); self.0.fetch_and(v, Ordering::SeqCst) }
            pub fn fetch_or(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic or"); self.0.fetch_or(v, Ordering::SeqCst) }
            pub fn fetch_xor(&self, v: $ty, _: Ordering) -> $ty { touch(self); point("atomic xor"); self.0.fetch_xor(v, Ordering::SeqCst) }
        }
    )*};
}
atomics! { AtomicBool bool; AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
arith! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
bits! { AtomicBool bool; AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
