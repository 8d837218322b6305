// Contracts for engine/src/vault/base64.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
//@closures on
//@rewrite "\.iter\(\)" => ".vx_iter()"
//@rewrite "\.chunks\(" => ".vx_chunks("
//@rewrite "\bString\b" => "VxString"
//@rewrite "\bVec::new\(\)" => "Vec::<u8>::new()"

// ---------------------------------------------------------------- std: iterators as vectors of what they yield
pub trait VxSeqIter<T> {
    spec fn vx_s(&self) -> Seq<T>;
    /// references to the elements, in order
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>)
        ensures r@.len() == self.vx_s().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_s()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vx_s()[i];
}
impl<T> VxSeqIter<T> for [T] {
    open spec fn vx_s(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VxSeqIter<T> for [T; N] {
    open spec fn vx_s(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
}
pub trait VxChunks<T> {
    spec fn vx_c(&self) -> Seq<T>;
    /// consecutive pieces of `n` elements, the last one shorter when they do not divide evenly
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>)
        requires n > 0,
        ensures
            r@.len() == (self.vx_c().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vx_c().subrange(i * n, if (i + 1) * n <= self.vx_c().len() { (i + 1) * n } else { self.vx_c().len() as int });
}
impl<T> VxChunks<T> for [T] {
    open spec fn vx_c(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { unimplemented!() }
}
pub trait VxIt<T>: Sized {
    spec fn vx_v(&self) -> Seq<T>;
    fn zip<U>(self, o: Vec<U>) -> (r: Vec<(T, U)>)
        ensures
            r@.len() == (if self.vx_v().len() <= o@.len() { self.vx_v().len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self.vx_v()[i], o@[i]);
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_v().len() ==> f.requires((#[trigger] self.vx_v()[i],)),
        ensures r@.len() == self.vx_v().len(),
            forall|i: int| #![trigger r@[i]] #![trigger self.vx_v()[i]] 0 <= i < r@.len() ==> f.ensures((self.vx_v()[i],), r@[i]);
    fn rev(self) -> (r: Vec<T>)
        ensures r@.len() == self.vx_v().len(),
            forall|i: int| #![trigger self.vx_v()[i]] 0 <= i < r@.len() ==> r@[r@.len() - 1 - i] == self.vx_v()[i],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.vx_v()[r@.len() - 1 - i];
    /// the longest prefix of elements for which `f` says true
    fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| #![trigger self.vx_v()[i]] 0 <= i < self.vx_v().len() ==> f.requires((&self.vx_v()[i],)),
        ensures
            r@.len() <= self.vx_v().len(), r@ == self.vx_v().take(r@.len() as int),
            forall|i: int| #![trigger self.vx_v()[i]] 0 <= i < r@.len() ==> f.ensures((&self.vx_v()[i],), true),
            r@.len() < self.vx_v().len() ==> f.ensures((&self.vx_v()[r@.len() as int],), false);
    fn count(self) -> (r: usize) ensures r == self.vx_v().len();
}
impl<T> VxIt<T> for Vec<T> {
    open spec fn vx_v(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zip<U>(self, o: Vec<U>) -> (r: Vec<(T, U)>) { unimplemented!() }
    #[verifier::external_body]
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn rev(self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize) { unimplemented!() }
}
/// sets the last `n` elements (all, if there are fewer)
#[verifier::external_body]
pub fn vx_set_last(v: &mut Vec<u8>, n: usize, x: u8)
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if i + n >= old(v)@.len() { x } else { old(v)@[i] }),
{ unimplemented!() }
#[verifier::external_body]
pub struct VxString { x: u8 }
pub struct FromUtf8Error {}
impl VxString {
    /// the bytes of the text
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<VxString, FromUtf8Error>)
        ensures r matches Ok(s) ==> s@ == v@, (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128) ==> r is Ok,
    { unimplemented!() }
}
/// a panic that is proved not to be reached
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false, { unimplemented!() }

// ---------------------------------------------------------------- RFC 4648, section 5
/// the URL-safe alphabet
pub open spec fn alpha(v: int) -> u8 {
    if v < 26 { (65 + v) as u8 } else if v < 52 { (97 + v - 26) as u8 } else if v < 62 { (48 + v - 52) as u8 } else if v == 62 { 45u8 } else { 95u8 }
}
pub open spec fn unalpha(c: u8) -> Option<int> {
    if 65 <= c <= 90 { Some(c - 65) } else if 97 <= c <= 122 { Some(c - 97 + 26) } else if 48 <= c <= 57 { Some(c - 48 + 52) }
    else if c == 45 { Some(62) } else if c == 95 { Some(63) } else { None }
}
/// the `i`-th piece of `n` elements
pub open spec fn piece(d: Seq<u8>, n: int, i: int) -> Seq<u8> { d.subrange(i * n, if (i + 1) * n <= d.len() { (i + 1) * n } else { d.len() as int }) }
/// the first `k` of up to three bytes as a 24-bit number
pub open spec fn num3(d: Seq<u8>, k: int) -> int {
    (if k > 0 && d.len() > 0 { d[0] * 65536 } else { 0 }) + (if k > 1 && d.len() > 1 { d[1] * 256 } else { 0 }) + (if k > 2 && d.len() > 2 { d[2] as int } else { 0 })
}
/// the `k`-th group of six bits of a 24-bit number
pub open spec fn six(n: int, k: int) -> int { if k == 0 { n / 262144 % 64 } else if k == 1 { n / 4096 % 64 } else if k == 2 { n / 64 % 64 } else { n % 64 } }
pub open spec fn pad_of(n: int) -> int { if n % 3 == 1 { 2 } else if n % 3 == 2 { 1 } else { 0 } }
pub open spec fn enc_len(n: int) -> int { (n + 2) / 3 * 4 }
/// `d` as URL-safe base64 with padding
pub open spec fn enc(d: Seq<u8>) -> Seq<u8> {
    let l = enc_len(d.len() as int);
    Seq::new(l as nat, |j: int| if j + pad_of(d.len() as int) >= l { 61u8 } else { alpha(six(num3(piece(d, 3, j / 4), 3), j % 4)) })
}
/// how many characters `=` end the text
pub open spec fn pads(b: Seq<u8>) -> int
    decreases b.len(),
{
    if b.len() > 0 && b.last() == 61 { 1 + pads(b.drop_last()) } else { 0 }
}
/// the first `k` of up to four characters as a 24-bit number
pub open spec fn num4(c: Seq<u8>, k: int) -> int {
    (if k > 0 && c.len() > 0 { unalpha(c[0]).unwrap() * 262144 } else { 0 }) + (if k > 1 && c.len() > 1 { unalpha(c[1]).unwrap() * 4096 } else { 0 })
        + (if k > 2 && c.len() > 2 { unalpha(c[2]).unwrap() * 64 } else { 0 }) + (if k > 3 && c.len() > 3 { unalpha(c[3]).unwrap() } else { 0 })
}
/// the `k`-th byte of a 24-bit number
pub open spec fn oct(n: int, k: int) -> u8 { (if k == 0 { n / 65536 % 256 } else if k == 1 { n / 256 % 256 } else { n % 256 }) as u8 }
/// what the text decodes to
pub open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> {
    let p = pads(b);
    let c = b.take(b.len() - p);
    if b.len() % 4 != 0 || p > 2 || exists|i: int| 0 <= i < c.len() && unalpha(#[trigger] c[i]) is None { None }
    else { Some(Seq::new((b.len() / 4 * 3 - p) as nat, |j: int| oct(num4(piece(c, 4, j / 3), 4), j % 3))) }
}
proof fn lemma_pads(b: Seq<u8>, n: int)
    requires
        0 <= n <= b.len(), forall|i: int| b.len() - n <= i < b.len() ==> b[i] == 61u8, n < b.len() ==> b[b.len() - n - 1] != 61u8,
    ensures pads(b) == n,
    decreases b.len(),
{
    if n > 0 { assert(b[b.len() - 1] == 61u8); lemma_pads(b.drop_last(), n - 1); }
}
proof fn lemma_pads_is(b: Seq<u8>)
    ensures
        0 <= pads(b) <= b.len(), forall|i: int| b.len() - pads(b) <= i < b.len() ==> b[i] == 61u8,
        pads(b) < b.len() ==> b[b.len() - pads(b) - 1] != 61u8,
    decreases b.len(),
{
    if b.len() > 0 && b.last() == 61 {
        let c = b.drop_last();
        lemma_pads_is(c);
        assert forall|i: int| b.len() - pads(b) <= i < b.len() implies b[i] == 61u8 by { if i < b.len() - 1 { assert(c[i] == 61u8); } }
        if pads(b) < b.len() { assert(c[c.len() - pads(c) - 1] == b[b.len() - pads(b) - 1]); }
    }
}
/// decoding what was encoded gives it back
proof fn lemma_round_trip(d: Seq<u8>)
    ensures dec(enc(d)) == Some(d),
{
    let e = enc(d);
    let p = pad_of(d.len() as int);
    let l = e.len() as int;
    assert(l % 4 == 0 && l / 4 * 3 - p == d.len()) by (nonlinear_arith) requires l == (d.len() + 2) / 3 * 4, p == pad_of(d.len() as int) {}
    lemma_alpha();
    assert forall|j: int| 0 <= j < l - p implies unalpha(#[trigger] e[j]) == Some(six(num3(piece(d, 3, j / 4), 3), j % 4)) by {
        lemma_num3(piece(d, 3, j / 4));
    }
    assert(pads(e) == p) by {
        if p < l { assert(unalpha(e[l - p - 1]) is Some); }
        lemma_pads(e, p);
    }
    let c = e.take(l - p);
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] oct(num4(piece(c, 4, j / 3), 4), j % 3) == d[j] by {
        let i = j / 3;
        let x = piece(d, 3, i);
        let y = piece(c, 4, i);
        assert(x[j % 3] == d[j]);
        lemma_block(x, y);
    }
    assert(dec(e).unwrap() =~= d);
}
proof fn lemma_alpha()
    ensures forall|v: int| 0 <= v < 64 ==> #[trigger] unalpha(alpha(v)) == Some(v), forall|v: int| 0 <= v < 64 ==> (#[trigger] alpha(v)) < 128,
{ }
proof fn lemma_num3(x: Seq<u8>)
    ensures 0 <= num3(x, 3) < 16777216, forall|k: int| 0 <= #[trigger] six(num3(x, 3), k) < 64,
{ }
/// one block: `y` is the characters of `x` that are not padding
proof fn lemma_block(x: Seq<u8>, y: Seq<u8>)
    requires
        0 < x.len() <= 3, y.len() == x.len() + 1,
        forall|k: int| 0 <= k < y.len() ==> unalpha(#[trigger] y[k]) == Some(six(num3(x, 3), k)),
    ensures forall|k: int| 0 <= k < x.len() ==> #[trigger] oct(num4(y, 4), k) == x[k],
{
    let n = num3(x, 3);
    assert(unalpha(y[0]) == Some(six(n, 0)) && unalpha(y[1]) == Some(six(n, 1)));
    if y.len() > 2 { assert(unalpha(y[2]) == Some(six(n, 2))); }
    if y.len() > 3 { assert(unalpha(y[3]) == Some(six(n, 3))); }
    lemma_six(n);
    if x.len() == 1 { assert(n == x[0] * 65536); assert(six(n, 2) == 0 && six(n, 3) == 0) by (nonlinear_arith) requires n == x[0] * 65536 {} }
    if x.len() == 2 { assert(n == x[0] * 65536 + x[1] * 256); assert(six(n, 3) == 0) by (nonlinear_arith) requires n == x[0] * 65536 + x[1] * 256 {} }
    assert(num4(y, 4) == n);
    let (a, b, c) = (x[0] as int, if x.len() > 1 { x[1] as int } else { 0 }, if x.len() > 2 { x[2] as int } else { 0 });
    lemma_oct(a, b, c);
}
proof fn lemma_six(n: int)
    requires 0 <= n < 16777216,
    ensures n == six(n, 0) * 262144 + six(n, 1) * 4096 + six(n, 2) * 64 + six(n, 3),
{
    assert(n / 4096 == n / 64 / 64) by (nonlinear_arith);
    assert(n / 262144 == n / 4096 / 64) by (nonlinear_arith);
}
proof fn lemma_oct(a: int, b: int, c: int)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256,
    ensures ({ let n = a * 65536 + b * 256 + c; n / 65536 % 256 == a && n / 256 % 256 == b && n % 256 == c }),
{ }

pub struct Base64 {}
//@file engine/src/vault/base64.rs
//@item struct Base64Error
impl Base64 {
//@item const Base64::PADDING

//@fn Base64::encode_data
@ret r
@rx "for b in base\.iter_mut\(\)\.rev\(\)\.take\((.*?)\) \{ \*b = (.*?); \}" => "vx_set_last(&mut base, $1, $2);"
@rx "(?s)Err\(e\) => \{.*?panic!.*?\n            \}" => "Err(e) => vx_panic(),"
@rx "num >> s\b" => "num >> *s"
@nloops 4
@closure 0
-> (vx_r: usize) requires *s < 64 ensures vx_r == (num >> *s) & 63
@loopiter 0 vx_it
@loop 0 for
    invariant
        base@.len() == 4 * vx_it.index@,
        vx_it.seq().len() == (data@.len() + 2) / 3,
        forall|i: int| 0 <= i < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[i])@ == piece(data@, 3, i),
        forall|j: int| 0 <= j < base@.len() ==> #[trigger] base@[j] == alpha(six(num3(piece(data@, 3, j / 4), 3), j % 4)),
@loopiter 1 vx_it1
@loop 1 for
    invariant
        vx_it1.seq().len() == chunk@.len(), chunk@.len() <= 3,
        forall|i: int| 0 <= i < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[i]).0 == 16 - 8 * i && *vx_it1.seq()[i].1 == chunk@[i],
        acc == num3(chunk@, vx_it1.index@),
@loopstart 1
proof { let x = *b as usize; assert(x < 256 ==> x << 16usize == x * 65536 && x << 8usize == x * 256 && x << 0usize == x) by (bit_vector); }
@before 2
proof { assert(num < 16777216 ==> (num >> 18usize) & 63 == num / 262144 % 64 && (num >> 12usize) & 63 == num / 4096 % 64 && (num >> 6usize) & 63 == num / 64 % 64 && (num >> 0usize) & 63 == num % 64) by (bit_vector); lemma_num3(chunk@); }
@loopiter 2 vx_it2
@loop 2 for
    invariant
        vx_it2.seq().len() == 4,
        0 <= vx_it.index@ < vx_it.seq().len(), num == num3(chunk@, 3), chunk@ == piece(data@, 3, vx_it.index@),
        forall|i: int| 0 <= i < 4 ==> (#[trigger] vx_it2.seq()[i]) == six(num as int, i),
        base@.len() == 4 * vx_it.index@ + vx_it2.index@,
        forall|j: int| 0 <= j < base@.len() ==> #[trigger] base@[j] == alpha(six(num3(piece(data@, 3, j / 4), 3), j % 4)),
@sig
    ensures r@ == enc(data@),
//@end
//@fn Base64::decode_data
@ret r
@rx "fn decode_data\(base:" => "fn decode_data(vx_base:"
@rx "num >> s\b" => "num >> *s"
@nloops 3
@rx "let mut acc = 0;" => "let mut acc: usize = 0;"
@closure 1
-> (vx_r: usize) requires b < 64, acc + (b << *s) <= usize::MAX ensures vx_r == acc + (b << *s)
@closure 2
-> (vx_r: u8) requires 0 <= *s < 64 ensures vx_r == (num >> *s) as u8
@start
let base = vx_base;
proof { lemma_pads_is(vx_base@); }
@before 0
proof { assert(base@ =~= vx_base@.take(vx_base@.len() - pads(vx_base@))); }
@loopiter 0 vx_it
@loop 0 for
    invariant
        base@ == vx_base@.take(vx_base@.len() - pads(vx_base@)), base.len() >= vx_base.len() - 2,
        data@.len() == 3 * vx_it.index@,
        vx_it.seq().len() == (base@.len() + 3) / 4,
        forall|i: int| 0 <= i < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[i])@ == piece(base@, 4, i),
        forall|j: int| 0 <= j < data@.len() ==> #[trigger] data@[j] == oct(num4(piece(base@, 4, j / 3), 4), j % 3),
        forall|i: int| 0 <= i < 4 * vx_it.index@ && i < base@.len() ==> unalpha(#[trigger] base@[i]) is Some,
@loopiter 1 vx_it1
@loop 1 for
    invariant
        base@ == vx_base@.take(vx_base@.len() - pads(vx_base@)), vx_it.seq().len() == (base@.len() + 3) / 4,
        vx_it1.seq().len() == chunk@.len(), chunk@.len() <= 4,
        0 <= vx_it.index@ < vx_it.seq().len(), chunk@ == piece(base@, 4, vx_it.index@),
        forall|i: int| 0 <= i < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[i]).0 == 18 - 6 * i && *vx_it1.seq()[i].1 == chunk@[i],
        acc == num4(chunk@, vx_it1.index@), forall|i: int| 0 <= i < vx_it1.index@ ==> unalpha(#[trigger] chunk@[i]) is Some,
@loopstart 1
proof {
    assert(chunk@[vx_it1.index@] == base@[4 * vx_it.index@ + vx_it1.index@]);
 assert(forall|x: usize| x < 64 ==> x << 18usize == x * 262144 && x << 12usize == x * 4096 && x << 6usize == x * 64 && x << 0usize == x) by (bit_vector); }
@before 2
proof { assert((num >> 16usize) as u8 == num / 65536 % 256 && (num >> 8usize) as u8 == num / 256 % 256 && (num >> 0usize) as u8 == num % 256) by (bit_vector); }
@loopiter 2 vx_it2
@loop 2 for
    invariant
        vx_it2.seq().len() == 3,
        0 <= vx_it.index@ < vx_it.seq().len(), num == num4(chunk@, 4), chunk@ == piece(base@, 4, vx_it.index@),
        forall|i: int| 0 <= i < 3 ==> (#[trigger] vx_it2.seq()[i]) == oct(num as int, i),
        data@.len() == 3 * vx_it.index@ + vx_it2.index@,
        forall|j: int| 0 <= j < data@.len() ==> #[trigger] data@[j] == oct(num4(piece(base@, 4, j / 3), 4), j % 3),
@sig
    ensures match r { Ok(d) => dec(vx_base@) == Some(d@), Err(_) => dec(vx_base@) is None },
//@end
//@fn Base64::encode_byte
@ret r
@rx "panic!\([^;]*?\)," => "vx_panic(),"
@sig
    requires b < 64,
    ensures r == alpha(b as int),
//@end
//@fn Base64::decode_byte
@ret r
@sig
    ensures match r { Ok(v) => unalpha(b) == Some(v as int) && v < 64, Err(_) => unalpha(b) is None },
//@end
}
} // verus!
fn main() {}
