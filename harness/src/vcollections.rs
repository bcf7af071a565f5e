//! Solver model of `std::collections`: HashMap and HashSet as association lists. Keys are compared
//! with `==` only (a lawful Hash is assumed), and iteration order is a solver variable: the
//! elements come out in insertion order or in reverse, as the solver likes.
pub use std::collections::*;
use crate::sym::any;

pub struct HashMap<K, V, S = ()> {
    items: Vec<(K, V)>,
    s: std::marker::PhantomData<S>,
}

/// Set by harnesses to which the iteration order does not matter.
pub static mut IN_ORDER: bool = false;

/// The most entries that the model's loops allow for.
const CAP: usize = 4;

fn order<T>(mut v: Vec<T>) -> Vec<T> {
    if unsafe { !IN_ORDER } && v.len() > 1 {
        let backwards: bool = any();
        if backwards {
            v.reverse();
        }
    }
    v
}

impl<K: Eq, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self { items: Vec::new(), s: Default::default() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: std::borrow::Borrow<Q> {
        let mut i = 0;
        while i < CAP && i < self.items.len() {
            if self.items[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => {
                assert!(self.items.len() < CAP, "the model of HashMap is too small");
                self.items.push((k, v));
                None
            }
        }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: std::borrow::Borrow<Q> {
        self.find(k).map(|i| &self.items[i].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: std::borrow::Borrow<Q> {
        match self.find(k) {
            Some(i) => Some(&mut self.items[i].1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: std::borrow::Borrow<Q> {
        self.find(k).map(|i| (&self.items[i].0, &self.items[i].1))
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: std::borrow::Borrow<Q> {
        self.find(k).is_some()
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: std::borrow::Borrow<Q> {
        self.find(k).map(|i| self.items.remove(i).1)
    }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => hash_map::Entry::Occupied(hash_map::OccupiedEntry { map: self, i }),
            None => hash_map::Entry::Vacant(hash_map::VacantEntry { map: self, k }),
        }
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        while i < CAP && i < self.items.len() {
            let (k, v) = &mut self.items[i];
            if f(k, v) {
                i += 1;
            } else {
                self.items.remove(i);
            }
        }
    }
}
impl<K, V> HashMap<K, V> {
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        order(self.items.iter().map(|(k, v)| (k, v)).collect()).into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
        order(self.items.iter_mut().map(|(k, v)| (&*k, v)).collect()).into_iter()
    }
    pub fn keys(&self) -> std::vec::IntoIter<&K> {
        order(self.items.iter().map(|(k, _)| k).collect()).into_iter()
    }
    pub fn values(&self) -> std::vec::IntoIter<&V> {
        order(self.items.iter().map(|(_, v)| v).collect()).into_iter()
    }
    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
        order(self.items.iter_mut().map(|(_, v)| v).collect()).into_iter()
    }
    pub fn into_keys(self) -> std::vec::IntoIter<K> {
        order(self.items.into_iter().map(|(k, _)| k).collect()).into_iter()
    }
    pub fn into_values(self) -> std::vec::IntoIter<V> {
        order(self.items.into_iter().map(|(_, v)| v).collect()).into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        order(std::mem::take(&mut self.items)).into_iter()
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        order(self.items).into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
        for (k, v) in iter {
            self.insert(k, v);
        }
    }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
        let mut m = Self::new();
        m.extend(iter);
        m
    }
}
impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        Self { items: self.items.clone(), s: Default::default() }
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HashMap")
    }
}
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.items.iter().all(|(k, v)| o.get(k).is_some_and(|w| v == w))
    }
}
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + std::borrow::Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

pub mod hash_map {
    pub use super::HashMap;
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(super) map: &'a mut HashMap<K, V>,
        pub(super) i: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(super) map: &'a mut HashMap<K, V>,
        pub(super) k: K,
    }
    impl<'a, K: Eq, V> Entry<'a, K, V> {
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_default(self) -> &'a mut V where V: Default {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut());
            }
            self
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => &e.k,
            }
        }
    }
    impl<'a, K: Eq, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            &self.map.items[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.map.items[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.map.items[self.i].1
        }
        pub fn key(&self) -> &K {
            &self.map.items[self.i].0
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.map.items.remove(self.i).1
        }
    }
    impl<'a, K: Eq, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.map.items.push((self.k, v));
            let n = self.map.items.len();
            &mut self.map.items[n - 1].1
        }
        pub fn key(&self) -> &K {
            &self.k
        }
    }
}

pub struct HashSet<T>(HashMap<T, ()>);
pub mod hash_set {
    pub use super::HashSet;
}
impl<T: Eq> HashSet<T> {
    pub fn new() -> Self {
        Self(HashMap::new())
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn insert(&mut self, t: T) -> bool {
        self.0.insert(t, ()).is_none()
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where T: std::borrow::Borrow<Q> {
        self.0.contains_key(k)
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&T> where T: std::borrow::Borrow<Q> {
        self.0.get_key_value(k).map(|(k, _)| k)
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where T: std::borrow::Borrow<Q> {
        self.0.remove(k).is_some()
    }
}
impl<T> HashSet<T> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::vec::IntoIter<&T> {
        self.0.keys()
    }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_keys()
    }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = std::vec::IntoIter<&'a T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<T: Eq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for t in iter {
            self.insert(t);
        }
    }
}
impl<T: Eq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::new();
        s.extend(iter);
        s
    }
}
impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq> Default for HashSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for HashSet<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for HashSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HashSet")
    }
}
impl<T: Eq> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq> Eq for HashSet<T> {}
