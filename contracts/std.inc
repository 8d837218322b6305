// ================================================================ std library: assumed contracts
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }

// ---------------------------------------------------------------- std::collections::HashMap
// A map with spec equality of keys. (Assumes that Hash/Eq of the key types are lawful: they are derived
// on byte arrays and byte vectors.) Iterators are read as the vector of what they yield.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;

    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && self@[*k] == *v, None => !self@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()), { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), (r == 0) == (self@ == Map::<K, V>::empty()), { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@, { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None::<(K, V)> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(K, V)>)
        ensures vx_lists_owned(old(self)@, r@), final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>)
        ensures vx_lists(self@, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(K, V)>)
        ensures vx_lists_owned(self@, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: Vec<&'a K>)
        ensures
            r@.no_duplicates(),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*#[trigger] r@[i]),
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == k,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: Vec<&'a V>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> exists|k: K| self@.contains_key(k) && #[trigger] self@[k] == *#[trigger] r@[i],
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == self@[k],
    { unimplemented!() }
    /// `extend`: later pairs replace earlier ones
    #[verifier::external_body]
    pub fn extend(&mut self, pairs: Vec<(K, V)>)
        ensures final(self)@ == vx_extend(old(self)@, pairs@),
    { unimplemented!() }
}
impl<K, V: Clone> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
}

pub trait VxIntoIter<T>: Sized { spec fn vx_yields(&self, r: Seq<T>) -> bool; fn vx_into_iter(self) -> (r: Vec<T>) ensures self.vx_yields(r@); }
impl<T> VxIntoIter<T> for Vec<T> { open spec fn vx_yields(&self, r: Seq<T>) -> bool { r == self@ } fn vx_into_iter(self) -> (r: Vec<T>) { self } }
impl<K, V> VxIntoIter<(K, V)> for HashMap<K, V> {
    open spec fn vx_yields(&self, r: Seq<(K, V)>) -> bool { vx_lists_owned(self@, r) }
    fn vx_into_iter(self) -> (r: Vec<(K, V)>) { self.into_iter() }
}

/// `s` yields every pair of `m` exactly once
pub open spec fn vx_lists<K, V>(m: Map<K, V>, s: Seq<(&K, &V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}
pub open spec fn vx_lists_owned<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub open spec fn vx_extend<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len(),
{
    if s.len() == 0 { m } else { vx_extend(m, s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn vx_has_key<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// what `vx_extend` does, key by key
pub proof fn lemma_extend<K, V>(m: Map<K, V>, s: Seq<(K, V)>)
    ensures
        forall|k: K| #[trigger] vx_extend(m, s).contains_key(k) <==> (m.contains_key(k) || vx_has_key(s, k)),
        forall|k: K| !vx_has_key(s, k) ==> #[trigger] vx_extend(m, s)[k] == m[k],
        forall|k: K| vx_has_key(s, k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && #[trigger] vx_extend(m, s)[k] == s[i].1,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_extend(m, p);
        let n = s.len() - 1;
        assert forall|k: K| vx_has_key(s, k) == (vx_has_key(p, k) || k == s.last().0) by {
            if vx_has_key(p, k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); }
            if vx_has_key(s, k) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
                if i < n { assert(p[i].0 == k); }
            }
            if k == s.last().0 { assert(s[n].0 == k); }
        }
        assert forall|k: K| vx_has_key(s, k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && #[trigger] vx_extend(m, s)[k] == s[i].1 by {
            if k == s[n].0 { assert(vx_extend(m, s)[k] == s[n].1); }
            else {
                let i2 = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k && vx_extend(m, p)[k] == p[i].1;
                assert(s[i2].0 == k);
            }
        }
    }
}

// ---------------------------------------------------------------- iterator adaptors on what is yielded
/// `r` consists of the elements of `s` for which `f` says true, in order
pub open spec fn vx_filtered<T, F: FnMut(&T) -> bool>(s: Seq<T>, f: F, r: Seq<T>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> s.contains(#[trigger] r[i]) && f.ensures((&r[i],), true)
    &&& forall|i: int| 0 <= i < s.len() ==> r.contains(#[trigger] s[i]) || f.ensures((&s[i],), false)
    &&& s.no_duplicates() ==> r.no_duplicates()
}
pub trait VxIter<T>: Sized {
    spec fn vx_seq(&self) -> Seq<T>;
    fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| #![trigger self.vx_seq()[i]] 0 <= i < self.vx_seq().len() ==> f.requires((&self.vx_seq()[i],)),
        ensures vx_filtered(self.vx_seq(), f, r@);
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],)),
        ensures r@.len() == self.vx_seq().len(),
            forall|i: int| #![trigger r@[i]] #![trigger self.vx_seq()[i]] 0 <= i < r@.len() ==> f.ensures((self.vx_seq()[i],), r@[i]);
    fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],)),
        ensures
            forall|j: int| 0 <= j < r@.len() ==> exists|i: int| 0 <= i < self.vx_seq().len() && f.ensures((#[trigger] self.vx_seq()[i],), Some(#[trigger] r@[j])),
            forall|i: int| 0 <= i < self.vx_seq().len() ==>
                f.ensures((#[trigger] self.vx_seq()[i],), None) || exists|j: int| 0 <= j < r@.len() && f.ensures((self.vx_seq()[i],), Some(#[trigger] r@[j]));
    fn any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.vx_seq().len() && f.ensures((#[trigger] self.vx_seq()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.vx_seq().len() ==> f.ensures((#[trigger] self.vx_seq()[i],), false);
    fn all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.vx_seq().len() && f.ensures((#[trigger] self.vx_seq()[i],), false),
            r ==> forall|i: int| 0 <= i < self.vx_seq().len() ==> f.ensures((#[trigger] self.vx_seq()[i],), true);
    fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| #![trigger self.vx_seq()[i]] 0 <= i < self.vx_seq().len() ==> f.requires((&self.vx_seq()[i],)),
        ensures r@.len() <= self.vx_seq().len(), r@ =~= self.vx_seq().take(r@.len() as int),
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == self.vx_seq()[i] && f.ensures((&r@[i],), true),
            r@.len() < self.vx_seq().len() ==> f.ensures((&self.vx_seq()[r@.len() as int],), false);
    fn take(self, n: usize) -> (r: Vec<T>)
        ensures r@ =~= self.vx_seq().take(if n < self.vx_seq().len() { n as int } else { self.vx_seq().len() as int });
    fn skip(self, n: usize) -> (r: Vec<T>)
        ensures r@ =~= self.vx_seq().skip(if n < self.vx_seq().len() { n as int } else { self.vx_seq().len() as int });
}
impl<T> VxIter<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn skip(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VxCollect<C>: Sized {
    spec fn vx_collected(&self, c: &C) -> bool;
    fn collect(self) -> (r: C) ensures self.vx_collected(&r);
}
impl<T> VxCollect<Vec<T>> for Vec<T> {
    open spec fn vx_collected(&self, c: &Vec<T>) -> bool { c@ == self@ }
    fn collect(self) -> (r: Vec<T>) { assert(<Vec<T> as VxCollect<Vec<T>>>::vx_collected(&self, &self)); self }
}
impl<K, V> VxCollect<HashMap<K, V>> for Vec<(K, V)> {
    open spec fn vx_collected(&self, c: &HashMap<K, V>) -> bool {
        &&& c@ == vx_extend(Map::<K, V>::empty(), self@)
        &&& forall|k: K| #[trigger] c@.contains_key(k) ==> vx_has_key(self@, k)
        &&& forall|i: int| 0 <= i < self@.len() ==> c@.contains_key((#[trigger] self@[i]).0)
        &&& forall|k: K| c@.contains_key(k) ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == k && #[trigger] c@[k] == self@[i].1
    }
    fn collect(self) -> (r: HashMap<K, V>) {
        let mut m = HashMap::new();
        proof { lemma_extend(Map::<K, V>::empty(), self@); }
        m.extend(self);
        m
    }
}
pub trait VxCloned<T>: Sized {
    spec fn vx_cloned(&self, r: Seq<T>) -> bool;
    fn cloned(self) -> (r: Vec<T>) ensures self.vx_cloned(r@);
}
/// types whose `clone` returns an equal value
pub trait VxLawfulClone {}
impl<'a, T: VxLawfulClone> VxCloned<T> for Vec<&'a T> {
    open spec fn vx_cloned(&self, r: Seq<T>) -> bool {
        r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> r[i] == *self@[i]
    }
    #[verifier::external_body]
    fn cloned(self) -> (r: Vec<T>) { unimplemented!() }
}

// ---------------------------------------------------------------- Option, slices
pub assume_specification<T, P: FnOnce(&T) -> bool + core::marker::Destruct>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    where T: core::marker::Destruct
    requires o is Some ==> p.requires((&o->0,)),
    ensures match r { Some(v) => o == Some(v) && p.ensures((&v,), true), None => o is None || p.ensures((&o->0,), false) };
pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => r == d };
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E> + core::marker::Destruct>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };

pub broadcast proof fn vx_push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x),
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if y == x { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) && y != x { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(x)[i] == y; assert(s[i] == y); }
}
pub proof fn vx_take_contains<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|y: T| #[trigger] s.take(n + 1).contains(y) <==> (s.take(n).contains(y) || y == s[n]),
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|y: T| #[trigger] s.take(n + 1).contains(y) <==> (s.take(n).contains(y) || y == s[n]) by { vx_push_contains(s.take(n), s[n], y); }
}

/// `&mut v[i]`, as `for x in &mut v` yields it
#[verifier::external_body]
pub fn vx_nth_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_nth_mut2<'a, A, B>(v: &'a mut Vec<(A, B)>, i: usize) -> (r: (&'a mut A, &'a mut B))
    requires i < old(v)@.len(),
    ensures *r.0 == old(v)@[i as int].0, *r.1 == old(v)@[i as int].1, final(v)@ == old(v)@.update(i as int, (*final(r.0), *final(r.1))),
{ unimplemented!() }

pub trait VxResult<T>: Sized {
    spec fn vx_ok(&self) -> bool;
    spec fn vx_val(&self) -> T;
    /// panics where a failure is not recoverable: does not return
    fn vx_or_panic(self) -> (r: T) ensures self.vx_ok(), r == self.vx_val();
    /// `expect` that is proved not to panic
    fn vx_expect(self, m: &str) -> (r: T) requires self.vx_ok(), ensures r == self.vx_val();
}
impl<T, E> VxResult<T> for Result<T, E> {
    open spec fn vx_ok(&self) -> bool { self is Ok }
    open spec fn vx_val(&self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_or_panic(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@, { unimplemented!() }
/// `<[T; N]>::try_from(v).expect(..)`, proved not to panic
#[verifier::external_body]
pub fn vx_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N, ensures r@ == v@, { unimplemented!() }
/// Rust bounds the size of every slice by isize::MAX
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff, {}
#[verifier::external_body]
pub proof fn axiom_vec_len(s: &Vec<u8>) ensures s@.len() <= 0x7fff_ffff_ffff_ffff, {}

// ---------------------------------------------------------------- `for` over a vector, element by element
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFor<T> { x: core::marker::PhantomData<T> }
impl<T> VxFor<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn at(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.at() <= self.seq().len() }
    pub open spec fn left(&self) -> int { self.seq().len() - self.at() }
    #[verifier::external_body]
    pub fn more(&self) -> (r: bool) ensures r == (self.at() < self.seq().len()), { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: T)
        requires old(self).wf(), old(self).at() < old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(), final(self).at() == old(self).at() + 1, r == old(self).seq()[old(self).at()],
    { unimplemented!() }
}
pub fn vx_for<T, I: VxIntoIter<T>>(i: I) -> (r: VxFor<T>)
    ensures i.vx_yields(r.seq()), r.at() == 0, r.wf(),
{ vx_for_vec(i.vx_into_iter()) }
#[verifier::external_body]
pub fn vx_for_vec<T>(v: Vec<T>) -> (r: VxFor<T>) ensures r.seq() == v@, r.at() == 0, r.wf(), { unimplemented!() }
//@include stdmore.inc
