//! API-compatible replacement for `lru` 0.7 (not available offline).
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::Hash;
pub struct LruCache<K, V> { map: HashMap<K, (u64, V)>, cap: usize, tick: u64 }
impl<K, V> std::fmt::Debug for LruCache<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "LruCache") } }
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self { LruCache { map: HashMap::new(), cap, tick: 0 } }
    pub fn unbounded() -> Self { Self::new(usize::MAX) }
    pub fn get<'a, Q>(&'a mut self, k: &Q) -> Option<&'a V> where K: Borrow<Q>, Q: Hash + Eq + ?Sized {
        self.tick += 1; let t = self.tick;
        self.map.get_mut(k).map(|e| { e.0 = t; &e.1 })
    }
    pub fn get_mut<'a, Q>(&'a mut self, k: &Q) -> Option<&'a mut V> where K: Borrow<Q>, Q: Hash + Eq + ?Sized {
        self.tick += 1; let t = self.tick;
        self.map.get_mut(k).map(|e| { e.0 = t; &mut e.1 })
    }
    pub fn peek<Q>(&self, k: &Q) -> Option<&V> where K: Borrow<Q>, Q: Hash + Eq + ?Sized { self.map.get(k).map(|e| &e.1) }
    pub fn contains<Q>(&self, k: &Q) -> bool where K: Borrow<Q>, Q: Hash + Eq + ?Sized { self.map.contains_key(k) }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1; let t = self.tick;
        if let Some(e) = self.map.get_mut(&k) { e.0 = t; return Some(std::mem::replace(&mut e.1, v)); }
        if self.map.len() >= self.cap { self.pop_lru(); }
        if self.cap > 0 { self.map.insert(k, (t, v)); }
        None
    }
    /// the entry replaced or evicted
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        let out = if !self.map.contains_key(&k) && self.map.len() >= self.cap { self.pop_lru() } else { None };
        let kk = k.clone();
        self.put(k, v).map(|o| (kk, o)).or(out)
    }
    pub fn get_or_insert<F: FnOnce() -> V>(&mut self, k: K, f: F) -> Option<&V> {
        if !self.map.contains_key(&k) { self.put(k.clone(), f()); }
        self.get(&k)
    }
    pub fn peek_mut<'a, Q>(&'a mut self, k: &Q) -> Option<&'a mut V> where K: Borrow<Q>, Q: Hash + Eq + ?Sized { self.map.get_mut(k).map(|e| &mut e.1) }
    pub fn peek_lru(&self) -> Option<(&K, &V)> { self.map.iter().min_by_key(|(_, e)| e.0).map(|(k, e)| (k, &e.1)) }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        let k = self.map.iter().min_by_key(|(_, e)| e.0).map(|(k, _)| k.clone())?;
        self.map.remove(&k).map(|e| (k, e.1))
    }
    pub fn pop<Q>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q>, Q: Hash + Eq + ?Sized { self.map.remove(k).map(|e| e.1) }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn cap(&self) -> usize { self.cap }
    pub fn resize(&mut self, cap: usize) { while self.map.len() > cap { self.pop_lru(); } self.cap = cap; }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { let mut v: Vec<_> = self.map.iter_mut().collect(); v.sort_by_key(|(_, e)| std::cmp::Reverse(e.0)); v.into_iter().map(|(k, e)| (k, &mut e.1)) }
    pub fn clear(&mut self) { self.map.clear() }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { let mut v: Vec<_> = self.map.iter().collect(); v.sort_by_key(|(_, e)| std::cmp::Reverse(e.0)); v.into_iter().map(|(k, e)| (k, &e.1)) }
}
