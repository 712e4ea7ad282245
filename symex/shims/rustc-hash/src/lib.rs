//! Verification shim: the interface of rustc-hash 2.1 with a constant hash, so that a map lookup
//! compares the key with every stored key instead of following a hash of symbolic bytes.
#![no_std]
#[cfg(feature = "std")]
extern crate std;
use core::hash::{BuildHasher, Hasher};

#[cfg(feature = "std")]
pub type FxHashMap<K, V> = std::collections::HashMap<K, V, FxBuildHasher>;
#[cfg(feature = "std")]
pub type FxHashSet<V> = std::collections::HashSet<V, FxBuildHasher>;

#[derive(Clone, Default)]
pub struct FxHasher;
impl FxHasher {
    pub const fn with_seed(_: usize) -> FxHasher {
        FxHasher
    }
    pub const fn default() -> FxHasher {
        FxHasher
    }
}
impl Hasher for FxHasher {
    #[inline]
    fn write(&mut self, _: &[u8]) {}
    #[inline]
    fn write_u8(&mut self, _: u8) {}
    #[inline]
    fn write_u16(&mut self, _: u16) {}
    #[inline]
    fn write_u32(&mut self, _: u32) {}
    #[inline]
    fn write_u64(&mut self, _: u64) {}
    #[inline]
    fn write_usize(&mut self, _: usize) {}
    #[inline]
    fn finish(&self) -> u64 {
        0
    }
}
#[derive(Copy, Clone, Default)]
pub struct FxBuildHasher;
impl BuildHasher for FxBuildHasher {
    type Hasher = FxHasher;
    fn build_hasher(&self) -> FxHasher {
        FxHasher
    }
}
