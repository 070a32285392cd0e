mod hash_map; mod hash_set;
pub use hash_map::AHashMap; pub use hash_set::AHashSet;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Debug, Default)]
pub struct RandomState;
impl RandomState { pub fn new() -> Self { RandomState } pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self { RandomState } pub fn with_seed(_: usize) -> Self { RandomState } }
#[derive(Clone, Debug, Default)]
pub struct AHasher(u64);
impl AHasher { #[inline] fn m(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); } }
impl Hasher for AHasher {
    #[inline] fn finish(&self) -> u64 { self.0 }
    #[inline] fn write(&mut self, _: &[u8]) {}
    #[inline] fn write_u8(&mut self, i: u8) { if i != 0xff { self.m(i as u64) } }
    #[inline] fn write_u16(&mut self, i: u16) { self.m(i as u64) }
    #[inline] fn write_u32(&mut self, i: u32) { self.m(i as u64) }
    #[inline] fn write_u64(&mut self, i: u64) { self.m(i) }
    #[inline] fn write_usize(&mut self, i: usize) { self.m(i as u64) }
    #[inline] fn write_i64(&mut self, i: i64) { self.m(i as u64) }
    #[inline] fn write_isize(&mut self, i: isize) { self.m(i as u64) }
}
impl BuildHasher for RandomState { type Hasher = AHasher; #[inline] fn build_hasher(&self) -> AHasher { AHasher(0) } }
pub type HashMap<K, V> = std::collections::HashMap<K, V, RandomState>;
pub type HashSet<K> = std::collections::HashSet<K, RandomState>;
pub trait HashMapExt { fn new() -> Self; fn with_capacity(capacity: usize) -> Self; }
impl<K, V> HashMapExt for HashMap<K, V> { fn new() -> Self { HashMap::with_hasher(RandomState) } fn with_capacity(c: usize) -> Self { HashMap::with_capacity_and_hasher(c, RandomState) } }
pub trait HashSetExt { fn new() -> Self; fn with_capacity(capacity: usize) -> Self; }
impl<K> HashSetExt for HashSet<K> { fn new() -> Self { HashSet::with_hasher(RandomState) } fn with_capacity(c: usize) -> Self { HashSet::with_capacity_and_hasher(c, RandomState) } }
