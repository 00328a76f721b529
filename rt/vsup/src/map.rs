//! Association-list map with the `HashMap` methods the server uses (Kani runs only: the standard
//! hasher is out of the verifier's reach). Behaviour is that of a finite map.
#[derive(Clone, Debug, Default)]
pub struct HashMap<K, V> { pub items: Vec<(K, V)> }

impl<K: PartialEq, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap { items: Vec::new() } }
    fn pos(&self, k: &K) -> Option<usize> {
        let mut i = 0;
        while i < self.items.len() { if self.items[i].0 == *k { return Some(i); } i += 1; }
        None
    }
    pub fn get(&self, k: &K) -> Option<&V> { match self.pos(k) { Some(i) => Some(&self.items[i].1), None => None } }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { match self.pos(k) { Some(i) => Some(&mut self.items[i].1), None => None } }
    pub fn contains_key(&self, k: &K) -> bool { self.pos(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => { self.items.push((k, v)); None }
        }
    }
    pub fn remove(&mut self, k: &K) -> Option<V> { match self.pos(k) { Some(i) => Some(self.items.swap_remove(i).1), None => None } }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.items.iter().map(|e| &e.1) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.items.iter().map(|e| &e.0) }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.items.iter().map(|e| (&e.0, &e.1)) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.items.iter_mut().map(|e| &mut e.1) }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.items.retain_mut(|e| f(&e.0, &mut e.1)) }
}
