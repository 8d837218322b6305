// ---------------------------------------------------------------- std: assumed contracts used here only
impl<K, V> HashMap<K, V> {
    /// keeps exactly the entries for which `f` says true (`f` must not change the values)
    #[verifier::external_body]
    pub fn retain<F: FnMut(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k])),
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && f.ensures((&k, &old(self)@[k]), true) && final(self)@[k] == old(self)@[k],
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> final(self)@.contains_key(k) || f.ensures((&k, &old(self)@[k]), false),
    { unimplemented!() }
    /// the entry `k` after setting it to `v`
    #[verifier::external_body]
    pub fn vx_insert_mut<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => e.key == k && e.map@ == old(self)@ && old(self)@.contains_key(k) && final(self)@ == final(e.map)@,
            Entry::Vacant(e) => e.key == k && e.map@ == old(self)@ && !old(self)@.contains_key(k) && final(self)@ == final(e.map)@,
        },
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> (r: &V)
        requires self.map@.contains_key(self.key),
        ensures *r == old(self.map)@[self.key],
    { self.map.get(&self.key).unwrap() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V)
        requires old(self).map@.contains_key(old(self).key),
        ensures r == old(self).map@[old(self).key], final(self).key == old(self).key,
            final(self).map@ == old(self).map@.insert(old(self).key, v),
            *final(final(self).map) == *final(old(self).map),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V)
        requires self.map@.contains_key(self.key),
        ensures *r == old(self.map)@[self.key], final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    { unimplemented!() }
}

