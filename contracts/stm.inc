/// an environment fault: a lock that another thread holds, or a poisoned one
pub uninterp spec fn fault() -> bool;
//@rewrites clear
//@file stm/src/stm/error.rs
//@item enum TxError
impl core::fmt::Debug for TxError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct VxStrings { x: u8 }
//@file stm/src/stm/shared_value.rs
//@rewrite "HashSet<String>" => "VxStrings"
//@item enum SharedValue
//@rewrites clear
// derived
impl Clone for SharedValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl VxLawfulClone for SharedValue {}
impl VxLawfulClone for TVar {}
/// `TryFrom<SharedValue>`: the value of a variant (macro impl_try_from)
pub trait VxFrom: Sized {
    spec fn of(v: SharedValue) -> Option<Self>;
    fn try_from(v: SharedValue) -> (r: Result<Self, TxError>) ensures match r { Ok(t) => Self::of(v) == Some(t), Err(_) => Self::of(v) is None };
}
// ---------------------------------------------------------------- the shared memory, one thread at a time
pub struct Memory { pub vars: Map<int, TVarData>, pub counts: Map<int, int> }
#[verifier::external_body]
pub tracked struct World { x: u8 }
impl World {
    pub uninterp spec fn st(&self) -> Memory;
}
/// `Arc<Mutex<TVarData>>`: what matters of it is which variable it is
#[verifier::external_body]
pub struct Var { x: u8 }
impl Var {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn vx_new(d: TVarData, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures !old(w).st().vars.contains_key(r.id()), final(w).st() == (Memory { vars: old(w).st().vars.insert(r.id(), d), ..old(w).st() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Guard, Guard>)
        ensures *final(w) == *old(w), match r { Ok(g) => g.id() == self.id() && old(w).st().vars.contains_key(self.id()), Err(_) => fault() },
    { unimplemented!() }
    /// the address of what it points to
    #[verifier::external_body]
    pub fn vx_addr(&self) -> (r: usize) ensures r == self.id(), { unimplemented!() }
}
pub broadcast axiom fn axiom_var(a: Var, b: Var) ensures #![trigger a.id(), b.id()] a.id() == b.id() ==> a == b;
/// `Mutex<TVarData>` that is not shared any more
pub struct Owned { pub d: TVarData }
impl Owned { pub fn vx_inner(self) -> (r: TVarData) ensures r == self.d, { self.d } }
impl Var {
    #[verifier::external_body]
    pub fn vx_try_unwrap(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Owned, Var>)
        ensures *final(w) == *old(w), match r { Ok(o) => o.d == old(w).st().vars[self.id()], Err(v) => v == self },
    { unimplemented!() }
}
impl Clone for TVarData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// `map_err(|_| e)`
pub trait VxMapTo<T, F>: Sized { spec fn vx_res(&self) -> Option<T>; fn vx_map_to(self, f: F) -> (r: Result<T, F>) ensures match r { Ok(t) => self.vx_res() == Some(t), Err(e) => self.vx_res() is None && e == f }; }
impl<T, E, F> VxMapTo<T, F> for Result<T, E> {
    open spec fn vx_res(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
    #[verifier::external_body]
    fn vx_map_to(self, f: F) -> (r: Result<T, F>) { unimplemented!() }
}
/// std::hash::Hasher: what it was fed
pub trait Hasher: Sized { spec fn fed(&self) -> Seq<int>; fn write_usize(&mut self, n: usize) ensures final(self).fed() == old(self).fed().push(n as int); }
pub fn vx_hash<H: Hasher>(state: &mut H, n: usize) ensures final(state).fed() == old(state).fed().push(n as int), { state.write_usize(n); }
impl Clone for Var { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// `MutexGuard<TVarData>`
#[verifier::external_body]
pub struct Guard { x: u8 }
impl Guard {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn vx_get(&self, Tracked(w): Tracked<&mut World>) -> (r: TVarData)
        ensures *final(w) == *old(w), r == old(w).st().vars[self.id()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_value(&mut self, v: SharedValue, Tracked(w): Tracked<&mut World>)
        ensures final(self).id() == old(self).id(), final(w).st() == (Memory { vars: old(w).st().vars.insert(old(self).id(), TVarData { value: v, ..old(w).st().vars[old(self).id()] }), ..old(w).st() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_version(&mut self, v: usize, Tracked(w): Tracked<&mut World>)
        ensures final(self).id() == old(self).id(), final(w).st() == (Memory { vars: old(w).st().vars.insert(old(self).id(), TVarData { version: v, ..old(w).st().vars[old(self).id()] }), ..old(w).st() }),
    { unimplemented!() }
}
pub trait VxGet<E>: Sized { spec fn vx_id(&self) -> Option<int>; spec fn vx_e(&self) -> Option<E>; fn vx_get(self, Tracked(w): Tracked<&mut World>) -> (r: Result<TVarData, E>) ensures *final(w) == *old(w), match r { Ok(d) => self.vx_id() matches Some(i) && d == old(w).st().vars[i], Err(e) => self.vx_e() == Some(e) }; }
impl<E> VxGet<E> for Result<Guard, E> {
    open spec fn vx_id(&self) -> Option<int> { match self { Ok(g) => Some(g.id()), Err(_) => None } }
    open spec fn vx_e(&self) -> Option<E> { match self { Ok(_) => None, Err(e) => Some(*e) } }
    #[verifier::external_body]
    fn vx_get(self, Tracked(w): Tracked<&mut World>) -> (r: Result<TVarData, E>) { unimplemented!() }
}
/// `Arc<AtomicUsize>`; that it overflows (2^64 increments) is left out
#[verifier::external_body]
pub struct Counter { x: u8 }
impl Counter {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures *final(w) == *old(w), r == old(w).st().counts[self.id()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures r == old(w).st().counts[self.id()], final(w).st() == (Memory { counts: old(w).st().counts.insert(self.id(), old(w).st().counts[self.id()] + n), ..old(w).st() }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn has(&self, t: T) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|t: T| !#[trigger] r.has(t), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures r == !old(self).has(t), forall|x: T| #[trigger] final(self).has(x) <==> old(self).has(x) || x == t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self.has(*t), { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Vec<&'a T>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.has(*#[trigger] r@[i]),
            forall|t: T| #[trigger] self.has(t) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == t,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *#[trigger] r@[i] != *#[trigger] r@[j],
    { unimplemented!() }
}
/// `zip`
#[verifier::external_body]
pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| #![trigger r@[i]] #![trigger a@[i]] #![trigger b@[i]] 0 <= i < r@.len() ==> r@[i] == (a@[i], b@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_wait() { unimplemented!() }
// ================================================================ tvar.rs
//@closures on
//@rewrite "Arc<Mutex<TVarData>>" => "Var"
//@rewrite "MutexGuard<'\w+, TVarData>" => "Guard"
//@rewrite "Arc::new\(Mutex::new\((TVarData \{[^{}]*\}|\w+)\)\)" => "Var::vx_new($1, Tracked(&mut *w))"
//@rewrite "\.try_lock\(\)" => ".try_lock(Tracked(&mut *w))"
//@rewrite "std::thread::sleep\(Duration::from_millis\(\d+\)\);" => "vx_wait();"
//@rewrite "std::hint::spin_loop\(\);" => "vx_wait();"
//@rewrite "TryFrom<SharedValue, Error = TxError> \+ Clone" => "VxFrom"
//@rewrite "std::ptr::addr_of!\(\*(\w+)\.data\) as usize" => "$1.data.vx_addr()"
//@rewrite "(fn (?:new|try_lock|bounded_lock|try_get_data|try_get_version)(?:<T>)?\((?:[^()]|\([^()]*\))*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@file stm/src/stm/tvar.rs
//@item struct TVar
//@item struct TVarData
// derived
impl Clone for TVar { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl TVar {
    pub open spec fn id(&self) -> int { self.data.id() }
    /// the value that the variable has
    pub open spec fn val(&self, w: World) -> SharedValue { w.st().vars[self.id()].value }
//@fn TVar::new
@ret r
@sig
    ensures
        !old(w).st().vars.contains_key(r.id()),
        final(w).st() == (Memory { vars: old(w).st().vars.insert(r.id(), TVarData { value, version }), ..old(w).st() }),
//@end
//@fn TVar::try_lock
@ret r
@sig
    ensures *final(w) == *old(w), match r { Ok(g) => g.id() == self.id() && old(w).st().vars.contains_key(self.id()), Err(_) => fault() },
//@end
//@fn TVar::bounded_lock
@ret r
@loop 0 for
    invariant *w == *old(w),
@sig
    ensures *final(w) == *old(w), match r { Ok(g) => g.id() == self.id() && old(w).st().vars.contains_key(self.id()), Err(_) => true },
//@end
//@fn TVar::try_get_data
@rx "\.try_lock\(\)\?\.clone\(\)" => ".try_lock()?.vx_get(Tracked(&mut *w))"
@ret r
@sig
    ensures *final(w) == *old(w), match r { Ok(t) => T::of(self.val(*old(w))) == Some(t), Err(_) => fault() || T::of(self.val(*old(w))) is None },
//@end
//@fn TVar::try_get_version
@rx "\.try_lock\(\)\s*\.map" => ".try_lock().vx_get(Tracked(&mut *w)).map"
@ret r
@sig
    ensures *final(w) == *old(w), match r { Ok(n) => n == old(w).st().vars[self.id()].version, Err(_) => fault() },
//@end
//@fn TVar::take
@rx "(fn take<T>\(self)\)" => "$1, Tracked(w): Tracked<&mut World>)"
@rx "Arc::try_unwrap\((\w+)\.data\)" => "$1.data.vx_try_unwrap(Tracked(&mut *w))"
@rx "(\w+)\.into_inner\(\)\.expect\(\"[^\"]*\"\)" => "$1.vx_inner()"
@rx "\.map_err\(\|\w+\| (TVar \{[^{}]*\})\)" => ".vx_map_to($1)"
@rx "TryFrom<SharedValue>" => "VxFrom"
@ret r
@sig
    ensures match r { Ok(t) => T::of(self.val(*old(w))) == Some(t), Err(v) => v.val(*final(w)) == self.val(*old(w)) },
//@end
//@fn Hash for TVar::hash
@rx "(\w+)\.hash\(state\)" => "vx_hash(state, $1)"
@sig
    ensures final(state).fed() == old(state).fed().push(self.id()),
//@end
}
impl TVar {
//@fn PartialEq for TVar::eq
@ret r
@sig
    ensures r <==> self.id() == other.id(),
//@end
}
// ================================================================ transaction.rs
//@rewrites clear
//@closures on
//@rewrite "MutexGuard<'\w+, TVarData>" => "Guard"
//@rewrite "TryFrom<SharedValue, Error = TxError> \+ Clone" => "VxFrom"
//@rewrite "let mut (\w+) = vec!\[\];" => "let mut $1: Vec<Guard> = vec![];"
//@rewrite "\.(try_get_data|try_get_version|bounded_lock)\(\)" => ".$1(Tracked(&mut *w))"
//@rewrite "(\w+)\.into_iter\(\)\.zip\((\w+)\.into_iter\(\)\)" => "vx_zip($1, $2)"
//@rewrite "(fn (?:load|lock_tvars_used|validate|commit)(?:<T>|<'a>)?\((?:[^()]|\([^()]*\))*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@file stm/src/stm/transaction.rs
//@item struct Transaction
pub broadcast proof fn lemma_tvar(a: TVar, b: TVar) ensures #![trigger a.id(), b.id()] a.id() == b.id() ==> a == b { axiom_var(a.data, b.data); }
/// memory after the transaction: the variables it wrote have the last written values, all others are as they were
pub open spec fn applied(a: Memory, b: Memory, m: Map<TVar, SharedValue>) -> bool {
    &&& forall|i: int| #![trigger a.vars.contains_key(i)] #![trigger b.vars.contains_key(i)] a.vars.contains_key(i) <==> b.vars.contains_key(i)
    &&& forall|t: TVar| #![trigger m.contains_key(t)] #![trigger b.vars[t.id()]] m.contains_key(t) ==> b.vars[t.id()].value == m[t]
    &&& forall|i: int| #![trigger b.vars[i]] a.vars.contains_key(i) && (forall|t: TVar| #[trigger] m.contains_key(t) ==> t.id() != i) ==> b.vars[i] == a.vars[i]
}
impl Transaction {
    /// every variable that is written is one that is used
    pub closed spec fn wf(&self) -> bool { forall|t: TVar| #[trigger] self.tvars_new_values@.contains_key(t) ==> self.tvars_used.has(t) }
    /// the values that it will write
    pub closed spec fn log(&self) -> Map<TVar, SharedValue> { self.tvars_new_values@ }
    /// what a read of `t` yields now
    pub open spec fn sees(&self, t: TVar, w: World) -> SharedValue { if self.log().contains_key(t) { self.log()[t] } else { t.val(w) } }
//@fn Transaction::new
@ret r
@sig
    ensures r.wf(), r.log() == Map::<TVar, SharedValue>::empty(), r.version == version, r.id == id,
//@end
//@fn Transaction::store
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).version == old(self).version, r is Ok, final(self).log() == old(self).log().insert(*tvar, value),
//@end
//@fn Transaction::load
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).version == old(self).version, final(self).log() == old(self).log(), *final(w) == *old(w),
        match r {
            Ok(v) => T::of(old(self).sees(*tvar, *old(w))) == Some(v),
            Err(_) => fault() || T::of(old(self).sees(*tvar, *old(w))) is None || old(w).st().vars[tvar.id()].version > old(self).version,
        },
//@end
//@fn Transaction::lock_tvars_used
@ret r
@start
    broadcast use lemma_tvar;
@loopiter 0 vx_it
@loop 0 for
    invariant
        forall|i: int| 0 <= i < vx_it.seq().len() ==> self.tvars_used.has(*#[trigger] vx_it.seq()[i]),
        forall|t: TVar| #[trigger] self.tvars_used.has(t) ==> exists|i: int| 0 <= i < vx_it.seq().len() && *#[trigger] vx_it.seq()[i] == t,
        forall|i: int, j: int| 0 <= i < j < vx_it.seq().len() ==> *#[trigger] vx_it.seq()[i] != *#[trigger] vx_it.seq()[j],
        forall|i: int, j: int| 0 <= i < j < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[i]).id() != (#[trigger] vx_it.seq()[j]).id(),
        forall|t: TVar| #[trigger] self.log().contains_key(t) ==> forall|i: int| 0 <= i < locks@.len() && *#[trigger] vx_it.seq()[i] == t ==> values@[i] == Some(self.log()[t]),
        *w == *old(w), locks@.len() == vx_it.index@, values@.len() == vx_it.index@,
        forall|j: int| #![trigger locks@[j]] #![trigger vx_it.seq()[j]] 0 <= j < vx_it.index@ ==> locks@[j].id() == vx_it.seq()[j].id() && w.st().vars.contains_key(locks@[j].id()),
        forall|j: int| 0 <= j < vx_it.index@ ==> #[trigger] values@[j] == (if self.log().contains_key(*vx_it.seq()[j]) { Some(self.log()[*vx_it.seq()[j]]) } else { None }),
@sig
    requires self.wf(),
    ensures
        *final(w) == *old(w),
        r matches Ok(p) ==> self.covers(p.0@, p.1@, old(w).st()),
//@end
//@fn Transaction::validate
@ret r
@rx "(\w+)\.version;" => "$1.vx_get(Tracked(&mut *w)).version;"
@loopiter 0 vx_it
@loop 0 for
    invariant *w == *old(w), forall|j: int| 0 <= j < vx_it.index@ ==> old(w).st().vars[(#[trigger] locks@[j]).id()].version <= self.version,
@sig
    ensures
        *final(w) == *old(w),
        r is Ok ==> forall|j: int| 0 <= j < locks@.len() ==> old(w).st().vars[(#[trigger] locks@[j]).id()].version <= self.version,
//@end
//@fn Transaction::commit
@ret r
@rx "(\w+)\.(value|version) = ([^;]+);" => "$1.set_$2($3, Tracked(&mut *w));"
@rx "\b(lock|guard)\.(value|version)\b" => "$1.vx_get(Tracked(&mut *w)).$2"
@loopiter 0 vx_it
@start
    let ghost vx_l = locks@;
    let ghost vx_v = values@;
@loop 0 for
    invariant
        self.covers(vx_l, vx_v, old(w).st()), w.st().counts == old(w).st().counts, vx_it.seq().len() == vx_l.len(),
        forall|j: int| 0 <= j < vx_l.len() ==> #[trigger] vx_it.seq()[j] == (vx_l[j], vx_v[j]),
        forall|i: int| #![trigger old(w).st().vars.contains_key(i)] #![trigger w.st().vars.contains_key(i)] old(w).st().vars.contains_key(i) <==> w.st().vars.contains_key(i),
        forall|j: int| 0 <= j < vx_it.index@ && vx_v[j] is Some ==> Some(w.st().vars[(#[trigger] vx_l[j]).id()].value) == vx_v[j],
        forall|i: int| #[trigger] w.st().vars[i] == old(w).st().vars[i] || w.st().vars[i].version == wv,
        forall|i: int| #[trigger] w.st().vars[i] == old(w).st().vars[i] || exists|j: int| 0 <= j < vx_l.len() && vx_v[j] is Some && (#[trigger] vx_l[j]).id() == i,
@sig
    requires self.covers(locks@, values@, old(w).st()),
    ensures
        r is Ok, final(w).st().counts == old(w).st().counts,
        applied(old(w).st(), final(w).st(), self.log()),
        forall|i: int| #[trigger] final(w).st().vars[i] == old(w).st().vars[i] || final(w).st().vars[i].version == wv,
//@end
//@fn Transaction::check_tvar_version
@ret r
@sig
    ensures r is Ok <==> self.version >= tvar_version,
//@end
    /// each variable that is used is locked once, with the value that it is to have
    pub open spec fn covers(&self, l: Seq<Guard>, v: Seq<Option<SharedValue>>, m: Memory) -> bool {
        &&& l.len() == v.len()
        &&& forall|i: int| 0 <= i < l.len() ==> m.vars.contains_key((#[trigger] l[i]).id())
        &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).id() != (#[trigger] l[j]).id()
        &&& forall|t: TVar| #[trigger] self.log().contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).id() == t.id() && v[i] == Some(self.log()[t])
        &&& forall|i: int| 0 <= i < l.len() && #[trigger] v[i] is Some ==> exists|t: TVar| #[trigger] self.log().contains_key(t) && t.id() == l[i].id()
    }
}
// ================================================================ stm.rs
//@rewrites clear
//@closures on
//@rewrite "Arc<AtomicUsize>" => "Counter"
//@rewrite "\binfo!\([^;]*\);" => ""
//@rewrite "\.load\(Ordering::SeqCst\)" => ".load(Tracked(&mut *w))"
//@rewrite "\.fetch_add\((\w+), Ordering::SeqCst\)" => ".fetch_add($1, Tracked(&mut *w))"
//@rewrite "(self\.(?:increment_tx_ids|increment_clock|get_clock|tx_ids))\(\)" => "$1(Tracked(&mut *w))"
//@rewrite "\.lock_tvars_used\(\)" => ".lock_tvars_used(Tracked(&mut *w))"
//@rewrite "\.(validate|commit)\(((?:[^()]|\([^()]*\))+)\)" => ".$1($2, Tracked(&mut *w))"
//@rewrite "TVar::new\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)" => "TVar::new($1, Tracked(&mut *w))"
//@rewrite "(fn (?:get_clock|increment_clock|increment_tx_ids|read_write|read_only|create)(?:<F, U>)?\((?:[^()]|\([^()]*\))*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@file stm/src/stm/stm.rs
//@item struct TxResult
//@item struct Stm
impl Stm {
    /// the clock is no older than any variable
    pub open spec fn wf(&self, m: Memory) -> bool {
        &&& self.clock.id() != self.transaction_ids.id()
        &&& forall|i: int| m.vars.contains_key(i) ==> (#[trigger] m.vars[i]).version <= m.counts[self.clock.id()]
    }
//@fn Stm::get_clock
@ret r
@sig
    ensures *final(w) == *old(w), r == old(w).st().counts[self.clock.id()],
//@end
//@fn Stm::increment_clock
@ret r
@sig
    ensures final(w).st() == (Memory { counts: old(w).st().counts.insert(self.clock.id(), old(w).st().counts[self.clock.id()] + 1), ..old(w).st() }), r == old(w).st().counts[self.clock.id()] + 1,
//@end
//@fn Stm::increment_tx_ids
@ret r
@sig
    ensures final(w).st() == (Memory { counts: old(w).st().counts.insert(self.transaction_ids.id(), old(w).st().counts[self.transaction_ids.id()] + 1), ..old(w).st() }), r == old(w).st().counts[self.transaction_ids.id()] + 1,
//@end
//@fn Stm::create
@ret r
@sig
    requires self.wf(old(w).st()),
    ensures !old(w).st().vars.contains_key(r.id()), final(w).st().vars == old(w).st().vars.insert(r.id(), final(w).st().vars[r.id()]), r.val(*final(w)) == val, self.wf(final(w).st()),
//@end
//@fn Stm::read_write
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@loop 0 loop
    invariant
        w.st().vars == old(w).st().vars, self.wf(w.st()), body(transaction),
@sig
    requires self.wf(old(w).st()), body(transaction),
    ensures
        self.wf(final(w).st()),
        match r {
            Ok(x) => exists|m: &mut Transaction, p: Result<U, TxError>| #[trigger] transaction.ensures((m,), p) && p == Ok::<U, TxError>(x.res) && m.blank() && applied(old(w).st(), final(w).st(), final(m).log()),
            Err(_) => final(w).st().vars == old(w).st().vars,
        },
//@end
//@fn Stm::read_only
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@loop 0 loop
    invariant
        w.st().vars == old(w).st().vars, self.wf(w.st()), body(transaction),
@sig
    requires self.wf(old(w).st()), body(transaction),
    ensures
        self.wf(final(w).st()), final(w).st().vars == old(w).st().vars,
        r matches Ok(x) ==> exists|m: &mut Transaction, p: Result<U, TxError>| #[trigger] transaction.ensures((m,), p) && p == Ok::<U, TxError>(x.res) && m.blank(),
//@end
}
impl Transaction { pub open spec fn blank(&self) -> bool { self.wf() && self.log() == Map::<TVar, SharedValue>::empty() } }
/// a transaction's body: it uses the transaction by `load` and `store` only
#[verifier::prophetic]
pub open spec fn body<U, F: Fn(&mut Transaction) -> Result<U, TxError>>(f: F) -> bool {
    &&& forall|m: &mut Transaction| m.blank() ==> #[trigger] f.requires((m,))
    &&& forall|m: &mut Transaction, r: Result<U, TxError>| #[trigger] f.ensures((m,), r) && m.blank() ==> final(m).wf() && final(m).version == m.version
}
