// the entry API, on top of the above (verified, not trusted)
#[verifier::reject_recursive_types(K)]
pub struct Entry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
impl<K: Copy, V> HashMap<K, V> {
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures r.key == k, r.map@ == old(self)@, final(self)@ == final(r.map)@,
    { Entry { map: self, key: k } }
}
impl<'a, K: Copy, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()),
        ensures
            old(self.map)@.contains_key(self.key) ==> *r == old(self.map)@[self.key],
            !old(self.map)@.contains_key(self.key) ==> f.ensures((), *r),
            final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    {
        if !self.map.contains_key(&self.key) {
            let v = f();
            self.map.insert(self.key, v);
        }
        self.map.get_mut(&self.key).unwrap()
    }
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            *r == (if old(self.map)@.contains_key(self.key) { old(self.map)@[self.key] } else { v }),
            final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    {
        if !self.map.contains_key(&self.key) {
            self.map.insert(self.key, v);
        }
        self.map.get_mut(&self.key).unwrap()
    }
}
