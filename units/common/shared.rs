// Shared state and the surroundings: what is read there may be anything, and what is written there is not read back.

/// depends on how the crate was built, or on where it runs
#[verifier::external_body]
pub fn anything_() -> bool { unimplemented!() }

/// of the atomics
pub enum atomic__Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub use core::cmp::Ordering as cmp__Ordering;
#[verifier::external_body]
pub struct VarError { _p: () }
#[verifier::external] impl core::fmt::Debug for VarError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub fn env__var<K>(k: K) -> Result<String, VarError> { unimplemented!() }
#[verifier::external_body]
pub struct AtomicUsize { _p: () }
impl AtomicUsize {
    #[verifier::external_body] pub fn new(v: usize) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: usize, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: usize, b: usize, o: atomic__Ordering, p: atomic__Ordering) -> Result<usize, usize> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: usize, o: atomic__Ordering) -> usize { unimplemented!() }
}
impl Default_ for AtomicUsize { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicU64 { _p: () }
impl AtomicU64 {
    #[verifier::external_body] pub fn new(v: u64) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: u64, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: u64, b: u64, o: atomic__Ordering, p: atomic__Ordering) -> Result<u64, u64> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: u64, o: atomic__Ordering) -> u64 { unimplemented!() }
}
impl Default_ for AtomicU64 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicU32 { _p: () }
impl AtomicU32 {
    #[verifier::external_body] pub fn new(v: u32) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: u32, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: u32, b: u32, o: atomic__Ordering, p: atomic__Ordering) -> Result<u32, u32> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: u32, o: atomic__Ordering) -> u32 { unimplemented!() }
}
impl Default_ for AtomicU32 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicU16 { _p: () }
impl AtomicU16 {
    #[verifier::external_body] pub fn new(v: u16) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: u16, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: u16, b: u16, o: atomic__Ordering, p: atomic__Ordering) -> Result<u16, u16> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: u16, o: atomic__Ordering) -> u16 { unimplemented!() }
}
impl Default_ for AtomicU16 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicU8 { _p: () }
impl AtomicU8 {
    #[verifier::external_body] pub fn new(v: u8) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: u8, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: u8, b: u8, o: atomic__Ordering, p: atomic__Ordering) -> Result<u8, u8> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: u8, o: atomic__Ordering) -> u8 { unimplemented!() }
}
impl Default_ for AtomicU8 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicIsize { _p: () }
impl AtomicIsize {
    #[verifier::external_body] pub fn new(v: isize) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: isize, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: isize, b: isize, o: atomic__Ordering, p: atomic__Ordering) -> Result<isize, isize> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: isize, o: atomic__Ordering) -> isize { unimplemented!() }
}
impl Default_ for AtomicIsize { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicI64 { _p: () }
impl AtomicI64 {
    #[verifier::external_body] pub fn new(v: i64) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: i64, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: i64, b: i64, o: atomic__Ordering, p: atomic__Ordering) -> Result<i64, i64> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: i64, o: atomic__Ordering) -> i64 { unimplemented!() }
}
impl Default_ for AtomicI64 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicI32 { _p: () }
impl AtomicI32 {
    #[verifier::external_body] pub fn new(v: i32) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: i32, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: i32, b: i32, o: atomic__Ordering, p: atomic__Ordering) -> Result<i32, i32> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: i32, o: atomic__Ordering) -> i32 { unimplemented!() }
}
impl Default_ for AtomicI32 { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct AtomicBool { _p: () }
impl AtomicBool {
    #[verifier::external_body] pub fn new(v: bool) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: atomic__Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: bool, o: atomic__Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: bool, b: bool, o: atomic__Ordering, p: atomic__Ordering) -> Result<bool, bool> { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and(&self, v: bool, o: atomic__Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or(&self, v: bool, o: atomic__Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn fetch_xor(&self, v: bool, o: atomic__Ordering) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: bool, o: atomic__Ordering) -> bool { unimplemented!() }
}
impl Default_ for AtomicBool { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
/// a lock: its content is arbitrary whenever it is taken; taking it twice in one thread and poisoning are not modelled
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Mutex<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct PoisonError { _p: () }
#[verifier::external] impl core::fmt::Debug for PoisonError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<T> Mutex<T> {
    #[verifier::external_body] pub fn new(v: T) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> (ret: Result<Box<T>, PoisonError>) ensures ret is Ok { unimplemented!() }
}
impl<T> Default_ for Mutex<T> { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { _p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    #[verifier::external_body] pub fn new(v: T) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn read(&self) -> (ret: Result<Box<T>, PoisonError>) ensures ret is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write(&self) -> (ret: Result<Box<T>, PoisonError>) ensures ret is Ok { unimplemented!() }
}
impl<T> Default_ for RwLock<T> { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cell<T> { _p: core::marker::PhantomData<T> }
impl<T> Cell<T> {
    #[verifier::external_body] pub fn new(v: T) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> T { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, v: T) { unimplemented!() }
    #[verifier::external_body] pub fn replace(&self, v: T) -> T { unimplemented!() }
    #[verifier::external_body] pub fn take(&self) -> T { unimplemented!() }
}
impl<T> Default_ for Cell<T> { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
