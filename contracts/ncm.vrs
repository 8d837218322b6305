// Contracts for engine/runtime/src/memories (noncontiguous_memory.rs, file_memory.rs, ram_memory.rs, frag.rs)
// and utils.rs: what a protected memory returns
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@closures on
//@rewrite "\.expect\(\"[^\"]*\"\)" => ".vx_or_panic()"
//@rewrite "\.expect\((?:error_msg|POISONED_LOCK)\)" => ".vx_or_panic()"
//@rewrite "blake2b::Blake2b256::digest\(" => "vx_digest("
//@rewrite "std::io::Error" => "IoError"
//@rewrite "io::Result<" => "IoResult<"
// Every function that may touch the file system gets the files as a ghost argument.
//@rewrite "(fn (?:write_to_file|clear_and_delete_file|read_file|unlock|alloc|new_shards|get_shards_data|refresh|clone|zeroize|update|visit_seq|deserialize|serialize|alloc_initialized|get)(?:<[^>]*>)?\([^)]*?),?\s*\)\s*(->|where|\{|requires|ensures)" => "$1, Tracked(w): Tracked<&mut World>) $2"
//@rewrite "fn (new_fname|get_dir)\(\)" => "fn $1(Tracked(w): Tracked<&mut World>)"
//@rewrite "(FileMemory::new_fname|FileMemory::get_dir)\(\)" => "$1(Tracked(&mut *w))"
//@rewrite "(buf\.serialize\([^()]*)\)" => "$1, Tracked(&mut *w))"
//@rewrite "((?:fs::copy|fs::read|fs::remove_file|File::create|\.write_all|\.write_to_file|\.new_shards|MemoryShard::new_shards|(?:File|Ram|NonContiguous)Memory::alloc|random_fname|Frag::alloc_initialized|Self::alloc_default)\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*?),?\s*\)" => "$1, Tracked(&mut *w))"
//@rewrite "(\b\w+\s*\.(?:unlock|get|get_shards_data|refresh|clear_and_delete_file|read_file)\()\)" => "${1}Tracked(&mut *w))"
//@rewrite "(\b(?:fm|buf|frag|ram|borrow_mut\(\))\.zeroize\()\)" => "${1}Tracked(&mut *w))"

// ================================================================ dependencies: assumed contracts
pub struct IoError { x: u8 }
pub type IoResult<T> = Result<T, IoError>;
/// the files on disk
#[verifier::external_body]
pub tracked struct World { x: u8 }
impl World { pub uninterp spec fn files(&self) -> Map<PathBuf, Seq<u8>>; }
/// everything but the file `p` is as before
pub open spec fn vx_only(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>, p: PathBuf) -> bool {
    forall|q: PathBuf| q != p ==> (#[trigger] a.contains_key(q) <==> b.contains_key(q)) && (a.contains_key(q) ==> a[q] == b[q])
}
/// the files of `a` are still there and unchanged
pub open spec fn vx_kept(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>) -> bool {
    forall|q: PathBuf| #[trigger] a.contains_key(q) ==> b.contains_key(q) && a[q] == b[q]
}
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn vx_join(d: PathBuf, n: Seq<char>) -> PathBuf;
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, n: String) ensures *final(self) == vx_join(*old(self), n@), { unimplemented!() }
}
/// A random name of at least 16 characters names no existing file.
#[verifier::external_body]
pub fn random_fname(size: usize, Tracked(w): Tracked<&mut World>) -> (r: String)
    requires size >= 16,
    ensures *final(w) == *old(w), forall|d: PathBuf| !old(w).files().contains_key(#[trigger] vx_join(d, r@)),
{ unimplemented!() }
pub struct Permissions { x: u8 }
pub struct Metadata { x: u8 }
impl Permissions { #[verifier::external_body] pub fn set_mode(&mut self, m: u32) { unimplemented!() } }
impl Metadata { #[verifier::external_body] pub fn permissions(&self) -> Permissions { unimplemented!() } }
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub fn metadata(p: &PathBuf) -> Result<Metadata, IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn set_permissions(p: &PathBuf, m: Permissions) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn read(p: &PathBuf, Tracked(w): Tracked<&mut World>) -> (r: Result<Vec<u8>, IoError>)
        ensures *final(w) == *old(w), r matches Ok(c) ==> old(w).files().contains_key(*p) && c@ == old(w).files()[*p],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(p: &PathBuf, q: PathBuf, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, IoError>)
        ensures vx_only(old(w).files(), final(w).files(), q),
            r is Ok ==> old(w).files().contains_key(*p) && final(w).files().contains_key(q) && final(w).files()[q] == old(w).files()[*p],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &PathBuf, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures vx_only(old(w).files(), final(w).files(), *p), r is Ok ==> !final(w).files().contains_key(*p),
    { unimplemented!() }
}
pub struct File { pub path: PathBuf }
impl File {
    #[verifier::external_body]
    pub fn create(p: &PathBuf, Tracked(w): Tracked<&mut World>) -> (r: Result<File, IoError>)
        ensures vx_only(old(w).files(), final(w).files(), *p),
            r matches Ok(f) ==> f.path == *p && final(w).files().contains_key(*p) && final(w).files()[*p] == Seq::<u8>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures final(self).path == old(self).path, vx_only(old(w).files(), final(w).files(), old(self).path),
            r is Ok && old(w).files().contains_key(old(self).path) ==> final(w).files().contains_key(old(self).path) && final(w).files()[old(self).path] == old(w).files()[old(self).path] + b@,
    { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
pub enum IoErrorKind { NotFound, Other }
impl IoError { #[verifier::external_body] pub fn kind(&self) -> IoErrorKind { unimplemented!() } }
pub trait VxZero: Sized { spec fn zeroed(&self) -> bool; fn zeroize(&mut self) ensures final(self).zeroed(); }
impl VxZero for usize { open spec fn zeroed(&self) -> bool { *self == 0 } fn zeroize(&mut self) { *self = 0; } }
pub assume_specification<T, E, F>[ Result::<T, E>::or::<F> ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: core::marker::Destruct,
    ensures r == (match a { Ok(v) => Ok::<T, F>(v), Err(_) => b });
/// BLAKE2b-256
pub uninterp spec fn blake(s: Seq<u8>) -> Seq<u8>;
pub trait VxBytes { spec fn vx_bytes(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes> VxBytes for &T { open spec fn vx_bytes(&self) -> Seq<u8> { (**self).vx_bytes() } }
#[verifier::external_body]
pub fn vx_digest<D: VxBytes>(d: D) -> (r: Vec<u8>) ensures r@ == blake(d.vx_bytes()), r@.len() == 32, { unimplemented!() }

// `Mutex<RefCell<T>>` is read as a cell that is accessed exclusively (sequential use); methods that write
// through it take `&mut self` here.
pub struct PoisonError {}
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v, { Mutex { v } }
    #[verifier::external_body]
    pub fn lock<'a>(&'a mut self) -> (r: Result<&'a mut T, PoisonError>)
        ensures match r { Ok(x) => *x == old(self).v && *final(x) == final(self).v, Err(_) => *final(self) == *old(self) },
    { unimplemented!() }
}
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v, { RefCell { v } }
    pub fn borrow<'a>(&'a self) -> (r: &'a T) ensures *r == self.v, { &self.v }
    pub fn borrow_mut<'a>(&'a mut self) -> (r: &'a mut T) ensures *r == old(self).v, *final(r) == final(self).v, { &mut self.v }
    #[verifier::external_body]
    pub fn replace(&mut self, t: T) -> (r: T) ensures final(self).v == t, r == old(self).v, { unimplemented!() }
}

// ================================================================ Buffer: its contract is decided by C14's Kani harnesses
#[verifier::external_body]
pub struct Buffer { x: u8 }
impl Buffer {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn alloc(payload: &[u8], size: usize) -> (r: Self)
        requires payload@.len() == size,
        ensures r@ == payload@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroize(&mut self, Tracked(w): Tracked<&mut World>) ensures *final(w) == *old(w), final(self)@.len() == 0, { unimplemented!() }
}
//@rewrite "Buffer<u8>" => "Buffer"

// ================================================================ serde: a format is read as the sequence of elements it carries
pub uninterp spec fn carried<O>(o: O) -> Seq<u8>;
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn so_far(&self) -> Seq<u8>;
    fn serialize_element(&mut self, e: &u8) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).so_far() == old(self).so_far().push(*e);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r matches Ok(o) ==> carried(o) == self.so_far();
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, n: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>) ensures r matches Ok(s) ==> s.so_far() == Seq::<u8>::empty();
}
pub trait SeqAccess<'de>: Sized {
    type Error;
    spec fn rest(&self) -> Seq<u8>;
    fn size_hint(&self) -> Option<usize>;
    fn next_element(&mut self) -> (r: Result<Option<u8>, Self::Error>)
        ensures match r {
            Ok(Some(e)) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            Ok(None) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Err(_) => true,
        };
}
impl Buffer {
//@file engine/runtime/src/memories/buffer.rs
//@fn Serialize for Buffer::serialize
@ret r
@loopiter 0 vx_it
@loop 0 for
    invariant
        vx_it.seq().len() == self@.len(), forall|j: int| 0 <= j < self@.len() ==> *#[trigger] vx_it.seq()[j] == self@[j],
        state.so_far() =~= self@.take(vx_it.index@),
@sig
    ensures *final(w) == *old(w), r matches Ok(o) ==> carried(o) =~= self@,
//@end
}
pub struct BufferVisitor {}
//@rewrite "Vec::<T>" => "Vec::<u8>"
impl BufferVisitor {
//@fn Visitor<'de> for BufferVisitor::visit_seq
@ret r
@rx "Self::Value" => "Buffer"
@rx "visit_seq<E>" => "visit_seq<'de, E>"
@start
let ghost vx_all = access.rest();
@loop 0 while
    invariant seq@ + access.rest() =~= vx_all,
    ensures seq@ =~= vx_all,
    decreases access.rest().len(),
@sig
    ensures *final(w) == *old(w), r matches Ok(b) ==> b@ =~= access.rest(),
//@end
}

// ================================================================ lib.rs, utils.rs
//@file engine/runtime/src/lib.rs
//@item enum MemoryError
use MemoryError::*;
//@rewrite "\"[^\"]*\"\.to_string\(\)" => "vx_msg()"
#[verifier::external_body]
pub fn vx_msg() -> String { unimplemented!() }
//@file engine/runtime/src/utils.rs
pub open spec fn vx_xor(a: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| a[i] ^ b[i]) }
//@fn xor
@ret r
@loopstart 0
proof { let x = payload@[i as int]; let y = noise@[i as int]; assert(x ^ y == y ^ x) by (bit_vector); }
@loop 0 for
    invariant
        data@.len() == size, size <= noise@.len(), size <= payload@.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] data@[j] == payload@[j] ^ noise@[j],
@sig
    requires size <= noise@.len(), size <= payload@.len(),
    ensures r@ == vx_xor(payload@, noise@, size as int),
//@end
#[verifier::external_body]
pub fn random_vec(size: usize) -> (r: Vec<u8>) ensures r@.len() == size, { unimplemented!() }

pub broadcast proof fn xor_twice(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n == a.len() && n <= b.len(),
    ensures #[trigger] vx_xor(vx_xor(a, b, n), b, n) == a,
{
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i] == (a[i] ^ b[i]) ^ b[i] by {
        let x = a[i]; let y = b[i];
        assert((x ^ y) ^ y == x) by (bit_vector);
    }
    assert(vx_xor(vx_xor(a, b, n), b, n) =~= a);
}
pub broadcast proof fn xor_comm(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len() && n <= b.len(),
    ensures #[trigger] vx_xor(a, b, n) == vx_xor(b, a, n),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] vx_xor(a, b, n)[i] == vx_xor(b, a, n)[i] by { let x = a[i]; let y = b[i]; assert(x ^ y == y ^ x) by (bit_vector); }
    assert(vx_xor(a, b, n) =~= vx_xor(b, a, n));
}
pub broadcast group xors { xor_twice, xor_comm }

// ================================================================ ram_memory.rs
//@file engine/runtime/src/memories/ram_memory.rs
//@item struct RamMemory
impl RamMemory {
    pub closed spec fn wf(&self) -> bool { self.size == 0 || self.buf@.len() == self.size }
    /// what unlocking yields
    pub closed spec fn content(&self) -> Option<Seq<u8>> { if self.size == 0 { None } else { Some(self.buf@) } }
//@fn RamMemory::alloc
@ret r
@sig
    requires payload@.len() == size,
    ensures
        *final(w) == *old(w),
        size == 0 ==> r is Err,
        r matches Ok(m) ==> m.wf() && m.content() == Some(payload@),
//@end
//@fn LockedMemory for RamMemory::update
@ret r
@sig
    requires payload@.len() == size,
    ensures *final(w) == *old(w), size == 0 ==> r is Err, r matches Ok(m) ==> m.wf() && m.content() == Some(payload@),
//@end
//@fn LockedMemory for RamMemory::unlock
@ret r
@sig
    requires self.wf(),
    ensures *final(w) == *old(w), match r { Ok(b) => self.content() == Some(b@), Err(_) => self.content() is None },
//@end
//@fn Zeroize for RamMemory::zeroize
@sig
    ensures *final(w) == *old(w), final(self).wf(), final(self).content() is None,
//@end
    /// derived
    pub fn clone(&self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires self.wf(),
        ensures *final(w) == *old(w), r.wf(), r.content() == self.content(),
    { RamMemory { buf: self.buf.clone(), size: self.size } }
//@fn Serialize for RamMemory::serialize
@ret r
@sig
    requires self.wf(),
    ensures *final(w) == *old(w), r matches Ok(o) ==> self.content() == Some(carried(o)),
//@end
}
pub struct RamMemoryVisitor {}
impl RamMemoryVisitor {
//@fn Visitor<'de> for RamMemoryVisitor::visit_seq
@ret r
@rx "Self::Value" => "RamMemory"
@rx "visit_seq<E>" => "visit_seq<'de, E>"
@start
let ghost vx_all = access.rest();
@loop 0 while
    invariant seq@ + access.rest() =~= vx_all, vx_all.len() <= usize::MAX, *w == *old(w),
    ensures seq@ =~= vx_all,
    decreases access.rest().len(),
@sig
    requires access.rest().len() <= usize::MAX,
    ensures vx_kept(old(w).files(), final(w).files()), r matches Ok(m) ==> m.wf() && m.content() == Some(access.rest()),
//@end
}

// ================================================================ file_memory.rs
//@file engine/runtime/src/memories/file_memory.rs
//@item const FILENAME_SIZE
//@item struct FileMemory
impl FileMemory {
    pub closed spec fn wf(&self) -> bool { self.size == 0 || self.noise@.len() == self.size }
    /// owns an intact file, unless it was wiped
    pub closed spec fn has_file(&self, f: Map<PathBuf, Seq<u8>>) -> bool { self.size != 0 && f.contains_key(self.fname) && f[self.fname].len() == self.size }
    pub closed spec fn name(&self) -> PathBuf { self.fname }
    pub closed spec fn wiped(&self) -> bool { self.size == 0 }
    /// what unlocking yields
    pub closed spec fn content(&self, f: Map<PathBuf, Seq<u8>>) -> Option<Seq<u8>> {
        if self.has_file(f) { Some(vx_xor(f[self.fname], self.noise@, self.size as int)) } else { None }
    }
    /// nobody else's file: the content depends on this file only
    pub proof fn lemma_content(&self, f: Map<PathBuf, Seq<u8>>, g: Map<PathBuf, Seq<u8>>)
        ensures vx_kept(f, g) && self.content(f) is Some ==> self.content(g) == self.content(f),
    {}
//@fn FileMemory::alloc
@ret r
@start
broadcast use xors;
@sig
    requires payload@.len() == size,
    ensures
        vx_kept(old(w).files(), final(w).files()),
        size == 0 ==> r is Err,
        r matches Ok(m) ==> m.wf() && m.content(final(w).files()) == Some(payload@) && !old(w).files().contains_key(m.name()),
//@end
    // the directory of the user's local data, which exists afterwards
    #[verifier::external_body]
    fn get_dir(Tracked(w): Tracked<&mut World>) -> (r: IoResult<PathBuf>) ensures *final(w) == *old(w), { unimplemented!() }
//@fn FileMemory::new_fname
@ret r
@sig
    ensures *final(w) == *old(w), r matches Ok(p) ==> !old(w).files().contains_key(p),
//@end
//@fn FileMemory::clear_and_delete_file
@ret r
@sig
    ensures vx_only(old(w).files(), final(w).files(), self.name()), r is Ok ==> !final(w).files().contains_key(self.name()),
//@end
//@fn FileMemory::lock_file
@sig
//@end
//@fn FileMemory::set_write_only
@sig
//@end
//@fn FileMemory::set_read_only
@sig
//@end
//@fn FileMemory::read_file
@ret r
@sig
    ensures *final(w) == *old(w), r matches Ok(c) ==> old(w).files().contains_key(self.fname) && c@ == old(w).files()[self.fname],
//@end
//@fn FileMemory::write_to_file
@ret r
@rx "payload\.as_bytes\(\)" => "payload"
@sig
    ensures vx_only(old(w).files(), final(w).files(), self.name()),
        r is Ok ==> final(w).files().contains_key(self.fname) && final(w).files()[self.fname] == payload@,
//@end
//@fn LockedMemory for FileMemory::update
@ret r
@sig
    requires payload@.len() == size,
    ensures
        vx_kept(old(w).files(), final(w).files()),
        size == 0 ==> r is Err,
        r matches Ok(m) ==> m.wf() && m.content(final(w).files()) == Some(payload@) && !old(w).files().contains_key(m.name()),
//@end
//@fn LockedMemory for FileMemory::unlock
@ret r
@sig
    requires self.wf(), self.has_file(old(w).files()) || self.size == 0,
    ensures *final(w) == *old(w), r matches Ok(b) ==> self.content(old(w).files()) == Some(b@), self.size == 0 ==> r is Err,
//@end
//@fn Zeroize for FileMemory::zeroize
@sig
    ensures vx_only(old(w).files(), final(w).files(), old(self).name()), final(self).wf(), forall|f: Map<PathBuf, Seq<u8>>| final(self).content(f) is None,
//@end
//@fn Clone for FileMemory::clone
@ret r
@sig
    requires self.wf(), self.has_file(old(w).files()),
    ensures vx_kept(old(w).files(), final(w).files()), r.wf(), r.content(final(w).files()) == self.content(old(w).files()), !old(w).files().contains_key(r.name()),
//@end
//@fn Serialize for FileMemory::serialize
@ret r
@sig
    requires self.wf(), self.has_file(old(w).files()) || self.wiped(),
    ensures *final(w) == *old(w), r matches Ok(o) ==> self.content(old(w).files()) == Some(carried(o)),
//@end
}
pub struct FileMemoryVisitor {}
impl FileMemoryVisitor {
//@fn Visitor<'de> for FileMemoryVisitor::visit_seq
@ret r
@rx "Self::Value" => "FileMemory"
@rx "visit_seq<E>" => "visit_seq<'de, E>"
@start
let ghost vx_all = access.rest();
@loop 0 while
    invariant seq@ + access.rest() =~= vx_all, vx_all.len() <= usize::MAX, *w == *old(w),
    ensures seq@ =~= vx_all,
    decreases access.rest().len(),
@sig
    requires access.rest().len() <= usize::MAX,
    ensures vx_kept(old(w).files(), final(w).files()), r matches Ok(m) ==> m.wf() && m.content(final(w).files()) == Some(access.rest()),
//@end
}

// ================================================================ frag.rs
//@file engine/runtime/src/memories/frag.rs
//@item enum FragStrategy #[derive(Clone, Copy)]
/// exclusively owned memory (allocating and releasing it is decided by C13's Kani harnesses)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NonNull<T> { x: PhantomData<T> }
impl<T> NonNull<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn vx_addr(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn as_ref<'a>(&'a self) -> (r: &'a T) ensures *r == self@, { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn as_mut<'a>(&'a mut self) -> (r: &'a mut T) ensures *r == old(self)@, *final(r) == final(self)@, { unimplemented!() }
}
pub mod libc { #[allow(non_camel_case_types)] pub struct c_void { x: u8 } }
//@rewrite "<T: Default \+ Clone>" => "<T>"
//@item struct Frag
/// allocators: what they return is decided by C13's Kani harnesses
pub struct DirectAlloc {}
pub struct MemoryMapAlloc {}
pub const MAX_RETRY_ATTEMPTS: usize = 10;
#[verifier::external_body]
fn calc_distance<T>(a: &T, b: &T) -> usize { unimplemented!() }
impl FragConfig { pub fn new(last_address: usize) -> Self { FragConfig { last_address } } }
pub const FRAG_MIN_DISTANCE: usize = 0x1000;
pub struct FragConfig { pub last_address: usize }
impl<T> Frag<T> {
    pub open spec fn live(&self) -> bool { self.live }
    pub open spec fn wf(&self) -> bool { !(self.strategy is Hybrid) }
    pub open spec fn view(&self) -> T { self.ptr@ }
}
impl DirectAlloc {
    #[verifier::external_body]
    pub fn alloc<T>(c: Option<FragConfig>) -> (r: Result<Frag<T>, MemoryError>) ensures r matches Ok(f) ==> f.live() && f.strategy is Direct, { unimplemented!() }
    #[verifier::external_body]
    pub fn dealloc<T>(f: &mut Frag<T>) -> (r: Result<(), MemoryError>) { unimplemented!() }
}
impl MemoryMapAlloc {
    #[verifier::external_body]
    pub fn alloc<T>(c: Option<FragConfig>) -> (r: Result<Frag<T>, MemoryError>) ensures r matches Ok(f) ==> f.live() && f.strategy is Map, { unimplemented!() }
    #[verifier::external_body]
    pub fn dealloc<T>(f: &mut Frag<T>) -> (r: Result<(), MemoryError>) { unimplemented!() }
}
/// values whose `clone` is equal, and their default
pub trait VxDefault: Sized { fn default() -> Self; fn clone(&self) -> (r: Self) ensures r == *self; }
impl VxDefault for [u8; 32] {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
//@rewrite "Mutex::new\((\w+)\.clone\(\)\)" => "Mutex::new($1.clone(Tracked(&mut *w)))"
//@rewrite "(let ptr: )\*mut T" => "$1&mut T"
//@rewrite "unreachable!\([^)]*\)" => "vx_unreachable()"
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false, { unimplemented!() }
impl<T: VxDefault> Frag<T> {
//@rewrite "(\w+)\.ptr\.as_ptr\(\) as usize" => "$1.ptr.vx_addr()"
//@fn Frag::alloc_default
@ret r
@rx "a\.get\(\w*\)\?, b\.get\(\w*\)\?" => "a.get(Tracked(&mut *w))?, b.get(Tracked(&mut *w))?"
@rx "distance: usize\)" => "distance: usize, Tracked(w): Tracked<&mut World>)"
@loop 0 for
    invariant a.live(), a.wf(), *w == *old(w),
@sig
    ensures *final(w) == *old(w), r matches Ok(p) ==> p.0.live() && p.1.live() && p.0.wf() && p.1.wf(),
//@end
//@fn Frag::dealloc
@sig
    requires old(ptr).wf(),
//@end
//@fn Frag::is_live
@ret r
@sig
    ensures r == self.live(),
//@end
//@fn Frag::get
@ret r
@sig
    ensures *final(w) == *old(w), match r { Ok(v) => self.live() && *v == self@, Err(_) => !self.live() },
//@end
//@fn Frag::set
@ret r
@sig
    ensures final(self).live() == old(self).live(), final(self).wf() == old(self).wf(), match r { Ok(_) => old(self).live() && final(self)@ == data, Err(_) => !old(self).live() && final(self)@ == old(self)@ },
//@end
//@fn Zeroize for Frag::zeroize
@sig
    ensures *final(w) == *old(w), !final(self).live(), final(self).wf() == old(self).wf(),
//@end
//@fn Clone for Frag::clone
@ret r
@sig
    requires self.wf(),
    ensures *final(w) == *old(w), r.wf(), r.live() == self.live(), self.live() ==> r@ == self@,
//@end
//@fn Frag::alloc_initialized
@ret r
@sig
    ensures *final(w) == *old(w), r matches Ok(p) ==> p.0.live() && p.1.live() && p.0.wf() && p.1.wf() && p.0@ == data1 && p.1@ == data2,
//@end
}

// ================================================================ noncontiguous_memory.rs
//@file engine/runtime/src/memories/noncontiguous_memory.rs
//@item const NC_DATA_SIZE
//@item enum NCConfig #[derive(Clone)]
use NCConfig::*;
//@item const NC_CONFIGURATION
//@item enum MemoryShard
use MemoryShard::*;
//@item struct NonContiguousMemory
//@rewrite "(data[12])\.try_into\(\)" => "vx_array8($1)"
#[verifier::external_body]
pub fn vx_array8<const N: usize>(b: &[u8]) -> (r: Result<[u8; N], ()>)
    ensures match r { Ok(a) => a@ == b@, Err(_) => b@.len() != N },
{ unimplemented!() }
impl MemoryShard {
    pub closed spec fn wf(&self) -> bool { match self { File(m) => m.wf(), Ram(m) => m.wf(), Frag(m) => m.wf() } }
    pub closed spec fn content(&self, f: Map<PathBuf, Seq<u8>>) -> Option<Seq<u8>> {
        match self {
            File(m) => m.content(f),
            Ram(m) => m.content(),
            Frag(m) => if m.live() { Some(m@@) } else { None },
        }
    }
    /// its file, if it has one, is there
    pub closed spec fn intact(&self, f: Map<PathBuf, Seq<u8>>) -> bool { match self { File(m) => m.has_file(f) || m.wiped(), _ => true } }
    pub proof fn lemma_kept(&self, f: Map<PathBuf, Seq<u8>>, g: Map<PathBuf, Seq<u8>>)
        requires vx_kept(f, g), self.intact(f),
        ensures self.intact(g), self.content(g) == self.content(f),
    { broadcast use xors; }
//@fn MemoryShard::new_shards
@ret r
@sig
    requires data1@.len() == 32, data2@.len() == 32,
    ensures
        vx_kept(old(w).files(), final(w).files()),
        r matches Ok(p) ==> p.0.wf() && p.1.wf() && p.0.intact(final(w).files()) && p.1.intact(final(w).files()) && p.0.content(final(w).files()) == Some(data1@) && p.1.content(final(w).files()) == Some(data2@),
//@end
//@fn MemoryShard::get
@ret r
@sig
    requires self.wf(), self.intact(old(w).files()),
    ensures *final(w) == *old(w), match r { Ok(v) => self.content(old(w).files()) == Some(v@), Err(_) => true },
//@end
    /// derived
    pub fn clone(&self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires self.wf(), self.intact(old(w).files()), self.content(old(w).files()) is Some,
        ensures vx_kept(old(w).files(), final(w).files()), r.wf(), r.intact(final(w).files()), r.content(final(w).files()) == self.content(old(w).files()),
    {
        match self {
            File(m) => File(m.clone(Tracked(&mut *w))),
            Ram(m) => Ram(m.clone(Tracked(&mut *w))),
            Frag(m) => Frag(m.clone(Tracked(&mut *w))),
        }
    }
//@fn Zeroize for MemoryShard::zeroize
@sig
    requires old(self).wf(),
    ensures final(self).wf(), forall|f: Map<PathBuf, Seq<u8>>| #![trigger final(self).content(f)] final(self).content(f) is None,
//@end
}
impl RefCell<MemoryShard> {
    pub fn clone(&self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires self.v.wf(), self.v.intact(old(w).files()), self.v.content(old(w).files()) is Some,
        ensures vx_kept(old(w).files(), final(w).files()), r.v.wf(), r.v.intact(final(w).files()), r.v.content(final(w).files()) == self.v.content(old(w).files()),
    { RefCell { v: self.v.clone(Tracked(w)) } }
}
/// the secret two shards stand for
pub open spec fn joined(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match (a, b) { (Some(x), Some(y)) => Some(vx_xor(blake(x), y, 32)), _ => None }
}
impl NonContiguousMemory {
    pub closed spec fn wf(&self, f: Map<PathBuf, Seq<u8>>) -> bool {
        let (a, b) = (self.shard1.v.v, self.shard2.v.v);
        &&& a.wf() && b.wf() && a.intact(f) && b.intact(f)
        &&& a.content(f) matches Some(x) ==> x.len() == 32
        &&& b.content(f) matches Some(x) ==> x.len() == 32
    }
    /// what unlocking yields
    pub closed spec fn content(&self, f: Map<PathBuf, Seq<u8>>) -> Option<Seq<u8>> {
        joined(self.shard1.v.v.content(f), self.shard2.v.v.content(f))
    }
//@rewrite "(fn (?:get_shards_data|refresh|unlock)\()&self" => "$1&mut self"
//@fn NonContiguousMemory::alloc
@ret r
@start
broadcast use xors;
@sig
    requires size == 32 ==> payload@.len() == 32,
    ensures
        vx_kept(old(w).files(), final(w).files()),
        size != 32 ==> r is Err,
        r matches Ok(m) ==> m.wf(final(w).files()) && m.content(final(w).files()) == Some(payload@),
//@end
//@fn NonContiguousMemory::get_shards_data
@ret r
@sig
    requires old(self).wf(old(w).files()),
    ensures *final(self) == *old(self), *final(w) == *old(w),
        r matches Ok(p) ==> old(self).shard1.v.v.content(old(w).files()) == Some(p.0@) && old(self).shard2.v.v.content(old(w).files()) == Some(p.1@),
//@end
//@fn NonContiguousMemory::refresh
@ret r
@start
broadcast use xors;
@sig
    requires old(self).wf(old(w).files()),
    ensures vx_kept(old(w).files(), final(w).files()), final(self).wf(final(w).files()),
        final(self).content(final(w).files()) == old(self).content(old(w).files()),
        old(self).content(old(w).files()) is None ==> r is Err,
//@end
//@fn LockedMemory for NonContiguousMemory::unlock
@ret r
@start
broadcast use xors;
@sig
    requires old(self).wf(old(w).files()),
    ensures vx_kept(old(w).files(), final(w).files()), final(self).wf(final(w).files()),
        final(self).content(final(w).files()) == old(self).content(old(w).files()),
        old(self).content(old(w).files()) is None ==> r is Err,
        r matches Ok(b) ==> old(self).content(old(w).files()) == Some(b@) && b@.len() == 32,
//@end
//@fn LockedMemory for NonContiguousMemory::update
@ret r
@sig
    requires size == 32 ==> payload@.len() == 32,
    ensures
        vx_kept(old(w).files(), final(w).files()),
        size != 32 ==> r is Err,
        r matches Ok(m) ==> m.wf(final(w).files()) && m.content(final(w).files()) == Some(payload@),
//@end
//@rewrite "(fn clone\()&self" => "$1&mut self"
//@fn Clone for NonContiguousMemory::clone
@ret r
@sig
    requires old(self).wf(old(w).files()), old(self).content(old(w).files()) is Some,
    ensures
        vx_kept(old(w).files(), final(w).files()), *final(self) == *old(self),
        r.wf(final(w).files()), r.content(final(w).files()) == old(self).content(old(w).files()),
//@end
//@fn Zeroize for NonContiguousMemory::zeroize
@sig
    requires old(self).shards_wf(),
    ensures final(self).shards_wf(), forall|f: Map<PathBuf, Seq<u8>>| #![trigger final(self).content(f)] final(self).content(f) is None,
//@end
//@fn Serialize for NonContiguousMemory::serialize
@ret r
@rx "&self" => "&mut self"
@sig
    requires old(self).wf(old(w).files()),
    ensures vx_kept(old(w).files(), final(w).files()), r matches Ok(o) ==> old(self).content(old(w).files()) == Some(carried(o)),
//@end
    pub closed spec fn shards_wf(&self) -> bool { self.shard1.v.v.wf() && self.shard2.v.v.wf() }
}
pub struct NonContiguousMemoryVisitor {}
impl NonContiguousMemoryVisitor {
//@fn Visitor<'de> for NonContiguousMemoryVisitor::visit_seq
@ret r
@rx "Self::Value" => "NonContiguousMemory"
@rx "visit_seq<E>" => "visit_seq<'de, E>"
@start
let ghost vx_all = access.rest();
@loop 0 while
    invariant seq@ + access.rest() =~= vx_all, vx_all.len() <= usize::MAX, *w == *old(w),
    ensures seq@ =~= vx_all,
    decreases access.rest().len(),
@sig
    requires access.rest().len() <= usize::MAX,
    ensures vx_kept(old(w).files(), final(w).files()), r matches Ok(m) ==> m.wf(final(w).files()) && m.content(final(w).files()) == Some(access.rest()),
//@end
}
} // verus!
fn main() {}
