//! Stand-in for `elsa`: a map whose entries, once inserted, never move.
use stable_deref_trait::StableDeref;
use std::{borrow::Borrow, cell::UnsafeCell, collections::HashMap, hash::Hash};
pub struct FrozenMap<K, V> {
    map: UnsafeCell<HashMap<K, V>>,
}
impl<K, V> Default for FrozenMap<K, V> {
    fn default() -> Self { Self { map: UnsafeCell::new(HashMap::new()) } }
}
impl<K: Clone, V: Clone> Clone for FrozenMap<K, V> {
    fn clone(&self) -> Self { Self { map: UnsafeCell::new(unsafe { &*self.map.get() }.clone()) } }
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { unsafe { &*self.map.get() }.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn into_map(self) -> HashMap<K, V> { self.map.into_inner() }
    pub fn map_get<Q: ?Sized + Hash + Eq, T, F: FnOnce(&V) -> T>(&self, k: &Q, f: F) -> Option<T>
    where
        K: Borrow<Q>,
    {
        unsafe { &*self.map.get() }.get(k).map(f)
    }
}
impl<K: Eq + Hash, V: StableDeref> FrozenMap<K, V> {
    /// Keeps an existing entry.
    pub fn insert(&self, k: K, v: V) -> &V::Target { unsafe { &mut *self.map.get() }.entry(k).or_insert(v) }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V::Target>
    where
        K: Borrow<Q>,
    {
        unsafe { &*self.map.get() }.get(k).map(|x| &**x)
    }
}
impl<K, V> std::fmt::Debug for FrozenMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("FrozenMap") }
}
