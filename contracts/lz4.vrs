// Contracts for engine/src/snapshot/compression/{encoder,decoder}.rs
#![allow(unused_imports, dead_code, unused_variables, unused_assignments)]
use vstd::prelude::*;

verus! {

global size_of usize == 8;
broadcast use vstd::slice::group_slice_axioms;

// ---------------------------------------------------------------- trusted externals
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);

// std: u16::from_le_bytes
#[verifier::external_body]
fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r as int == b[0] as int + 256 * (b[1] as int),
    no_unwind
{ u16::from_le_bytes(b) }

// std: u32::from_ne_bytes is a function of the four bytes, injective
pub uninterp spec fn ne32(b: Seq<u8>) -> u32;
#[verifier::external_body]
fn vx_u32_from_ne_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == ne32(b@),
    no_unwind
{ u32::from_ne_bytes(b) }
#[verifier::external_body]
broadcast proof fn ne32_injective(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 4, b.len() == 4, #[trigger] ne32(a) == #[trigger] ne32(b),
    ensures a =~= b,
{}

// std: slice -> array conversion succeeds exactly when the lengths agree
pub trait VxTryInto4 { fn vx_try_into4(self) -> [u8; 4]; }
#[verifier::external_body]
fn vx_arr4(s: &[u8]) -> (r: [u8; 4])
    requires s@.len() == 4,
    ensures r@ == s@,
{ s.try_into().unwrap() }
#[verifier::external_body]
fn vx_arr2(s: &[u8]) -> (r: [u8; 2])
    requires s@.len() == 2,
    ensures r@ == s@,
{ s.try_into().unwrap() }

// `a.iter().zip(b).take_while(|&(a, b)| a == b).count()` : length of the common prefix.
// (verified, not trusted)
fn vx_common_prefix(a: &[u8], b: &[u8]) -> (n: usize)
    ensures
        n <= a@.len(), n <= b@.len(),
        forall|i: int| 0 <= i < n ==> a@[i] == b@[i],
        (n == a@.len() || n == b@.len() || a@[n as int] != b@[n as int]),
{
    let mut n = 0usize;
    while n < a.len() && n < b.len() && a[n] == b[n]
        invariant n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i],
        decreases a@.len() - n,
    { n = n + 1; }
    n
}

// ---------------------------------------------------------------- specification of the format
pub open spec fn max_in() -> nat { 0x0000_ffff_ffff_ffff } // 2^48-1 bytes: addressable memory on every supported target
pub open spec fn max_out() -> nat { 0x0fff_ffff_ffff_ffff }

/// length extension: a run of 0xFF bytes closed by a smaller one; (value, bytes used)
pub open spec fn rd_int(s: Seq<u8>) -> Option<(nat, nat)>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] != 255 { Some((s[0] as nat, 1nat)) }
    else {
        match rd_int(s.skip(1)) {
            None => None,
            Some((v, c)) => Some((v + 255, c + 1)),
        }
    }
}

pub open spec fn copy_dup(out: Seq<u8>, start: int, len: nat) -> Seq<u8>
    decreases len,
{
    if len == 0 { out } else { copy_dup(out.push(out[start]), start + 1, (len - 1) as nat) }
}

/// (length, bytes used) of a length field whose nibble is `nib`
pub open spec fn rd_len(nib: nat, s: Seq<u8>) -> Option<(nat, nat)> {
    if nib < 15 { Some((nib, 0nat)) }
    else { match rd_int(s) { None => None, Some((v, c)) => Some((v + 15, c)) } }
}

pub open spec fn hi(t: u8) -> nat { (t as nat) / 16 }
pub open spec fn lo(t: u8) -> nat { (t as nat) % 16 }

pub enum Blk { Bad, Last { out: Seq<u8> }, More { out: Seq<u8>, rest: Seq<u8> } }

/// literal part of a block: `Last` when the input ends after the literals
pub open spec fn dec_lit(tok: u8, s: Seq<u8>, out: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match rd_len(hi(tok), s) {
        None => None,
        Some((l, c)) =>
            if s.skip(c as int).len() < l { None }
            else { Some((out + s.skip(c as int).take(l as int), s.skip(c as int).skip(l as int))) },
    }
}

pub open spec fn dec_dup(tok: u8, s: Seq<u8>, out: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() < 2 { None }
    else {
        let off = s[0] as int + 256 * (s[1] as int);
        match rd_len(lo(tok), s.skip(2)) {
            None => None,
            Some((l, c)) =>
                if off == 0 || off > out.len() { None }
                else { Some((copy_dup(out, out.len() - off, l + 4), s.skip(2).skip(c as int))) },
        }
    }
}

pub open spec fn dec_block(s: Seq<u8>, out: Seq<u8>) -> Blk
    recommends s.len() > 0
{
    match dec_lit(s[0], s.skip(1), out) {
        None => Blk::Bad,
        Some((o, r)) =>
            if r.len() == 0 { Blk::Last { out: o } }
            else {
                match dec_dup(s[0], r, o) { None => Blk::Bad, Some((o2, r2)) => Blk::More { out: o2, rest: r2 } }
            },
    }
}

/// the whole stream, starting from already decoded output `out`
pub open spec fn dec(s: Seq<u8>, out: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Some(out) }
    else {
        match dec_block(s, out) {
            Blk::Bad => None,
            Blk::Last { out } => Some(out),
            Blk::More { out, rest } => if rest.len() < s.len() { dec(rest, out) } else { None },
        }
    }
}

proof fn lemma_rd_int(s: Seq<u8>)
    ensures match rd_int(s) { None => true, Some((v, c)) => 1 <= c <= s.len() && v <= 255 * c },
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 255 { lemma_rd_int(s.skip(1)); }
}

proof fn lemma_rd_int_app(s: Seq<u8>, t: Seq<u8>)
    requires rd_int(s) is Some, rd_int(s).unwrap().1 == s.len(),
    ensures rd_int(s + t) == rd_int(s),
    decreases s.len(),
{
    if s[0] == 255 {
        lemma_rd_int(s.skip(1));
        lemma_rd_int_app(s.skip(1), t);
        assert((s + t).skip(1) =~= s.skip(1) + t);
    }
}

proof fn lemma_copy_len(out: Seq<u8>, start: int, len: nat)
    ensures copy_dup(out, start, len).len() == out.len() + len,
    decreases len,
{
    if len > 0 { lemma_copy_len(out.push(out[start]), start + 1, (len - 1) as nat); }
}

// ---------------------------------------------------------------- decoder (extracted)
//@file engine/src/snapshot/compression/decoder.rs
//@rewrite "u16::from_le_bytes\(" => "vx_u16_from_le_bytes("
//@rewrite "u32::from_ne_bytes\(" => "vx_u32_from_ne_bytes("
//@item struct Lz4DecodeError
//@item struct Lz4Decoder

pub open spec fn room(n_in: nat, n_out: nat) -> bool {
    n_in <= max_in() && n_out + 512 * n_in <= max_out()
}

//@impl Lz4Decoder
//@fn Lz4Decoder::take
@ret r
@sig
    ensures
        r is Ok <==> old(self).input@.len() >= size,
        match r {
            Ok(v) => v@ == old(self).input@.take(size as int) && final(self).input@ == old(self).input@.skip(size as int),
            Err(_) => final(self).input@ == old(self).input@,
        },
        final(self).output@ == old(self).output@, final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
//@end

//@fn Lz4Decoder::take_internal
@ret r
@sig
    ensures
        r is Ok <==> old(input)@.len() >= size,
        match r {
            Ok(v) => v@ == old(input)@.take(size as int) && final(input)@ == old(input)@.skip(size as int),
            Err(_) => final(input)@ == old(input)@,
        },
@start
    let ghost vx_in = input@;
@rx "(?s)res\s*\}\s*\}\s*$" => "proof { assert(input@ =~= vx_in.skip(size as int)); } res } }"
//@end

//@fn Lz4Decoder::output
@sig
    ensures final(output)@ == old(output)@ + buf@,
@start
    let ghost vx_b = buf@;
@tail
    proof { assert(vx_b.take(vx_b.len() as int) =~= vx_b); }
//@end

//@fn Lz4Decoder::duplicate
@sig
    requires
        start < old(self).output@.len(), old(self).output@.len() + length <= max_out(),
    ensures
        final(self).output@ == copy_dup(old(self).output@, start as int, length as nat),
        final(self).input@ == old(self).input@, final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
@start
    let ghost vx_o = self.output@;
@loopiter 0 vx_it
@loop 0 for
        invariant
            start < vx_o.len(), vx_o.len() + length <= max_out(),
            self.input@ == old(self).input@, self.token == old(self).token, *final(self.output) == *final(old(self).output),
            vx_it.index@ <= length,
            self.output@.len() == vx_o.len() + vx_it.index@,
            copy_dup(self.output@, start + vx_it.index@, (length - vx_it.index@) as nat) == copy_dup(vx_o, start as int, length as nat),
@tail
//@end

//@fn Lz4Decoder::read_int
@ret r
@sig
    requires old(self).input@.len() <= max_in(),
    ensures
        match rd_int(old(self).input@) {
            None => r is Err,
            Some((v, c)) => r is Ok && r->Ok_0 == v && final(self).input@ == old(self).input@.skip(c as int),
        },
        final(self).output@ == old(self).output@, final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
@start
    let ghost vx_s = self.input@;
@loop 0 loop
        invariant_except_break
            self.input@.len() <= vx_s.len(), vx_s.len() <= max_in(),
            self.input@ == vx_s.skip(vx_s.len() - self.input@.len()),
            size == 255 * (vx_s.len() - self.input@.len()),
            match rd_int(self.input@) {
                None => rd_int(vx_s) is None,
                Some((v, c)) => rd_int(vx_s) == Some((v + size as nat, (c + (vx_s.len() - self.input@.len())) as nat)),
            },
        invariant
            vx_s == old(self).input@, 
            self.output@ == old(self).output@, self.token == old(self).token, *final(self.output) == *final(old(self).output),
        ensures
            rd_int(vx_s) is Some, rd_int(vx_s)->Some_0.0 == size,
            self.input@ == vx_s.skip(rd_int(vx_s)->Some_0.1 as int),
        decreases self.input@.len(),
@loopstart 0
    proof {
        let cur = self.input@;
        if cur.len() > 0 { assert(cur.skip(1) =~= vx_s.skip(vx_s.len() - cur.len() + 1)); }
        assert(cur.skip(0) =~= cur);
    }
//@end

//@fn Lz4Decoder::read_u16
@ret r
@sig
    ensures
        r is Ok <==> old(self).input@.len() >= 2,
        r is Ok ==> r->Ok_0 as int == old(self).input@[0] as int + 256 * (old(self).input@[1] as int)
            && final(self).input@ == old(self).input@.skip(2),
        final(self).output@ == old(self).output@, final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
@rx "(?s)(self\.take\(\w+\)\?)\.try_into\(\)\s*\.(expect\(\"[^\"]*\"\)|unwrap\(\))" => "vx_arr2($1)"
//@end

//@fn Lz4Decoder::read_literal
@ret r
@sig
    requires room(old(self).input@.len(), old(self).output@.len()),
    ensures
        match dec_lit(old(self).token, old(self).input@, old(self).output@) {
            None => r is Err,
            Some((o, rest)) => r is Ok && final(self).output@ == o && final(self).input@ == rest
               && o.len() + 512 * rest.len() <= old(self).output@.len() + 512 * old(self).input@.len() && rest.len() <= old(self).input@.len(),
        },
        final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
@start
    proof {
        lemma_rd_int(self.input@);
        lemma_nib(self.token);
        assert(self.input@.skip(0) =~= self.input@);
    }
//@end

//@fn Lz4Decoder::read_duplicate
@ret r
@sig
    requires old(self).input@.len() <= max_in(), old(self).output@.len() + 512 * old(self).input@.len() <= max_out(),
    ensures
        match dec_dup(old(self).token, old(self).input@, old(self).output@) {
            None => r is Err,
            Some((o, rest)) => r is Ok && final(self).output@ == o && final(self).input@ == rest
              && rest.len() < old(self).input@.len() && o.len() + 512 * rest.len() <= old(self).output@.len() + 512 * old(self).input@.len(),
        },
        final(self).token == old(self).token, *final(final(self).output) == *final(old(self).output),
@start
    proof {
        if self.input@.len() >= 2 { lemma_rd_int(self.input@.skip(2)); assert(self.input@.skip(2).skip(0) =~= self.input@.skip(2)); }
        lemma_nib(self.token);
    }
@at before "self.duplicate(" 0
    proof { lemma_copy_len(self.output@, start as int, length as nat); }
//@end

//@fn Lz4Decoder::complete
@ret r
@sig
    requires room(old(self).input@.len(), old(self).output@.len()),
    ensures
        match dec(old(self).input@, old(self).output@) {
            None => r is Err,
            Some(o) => r is Ok && final(self).output@ == o,
        },
        *final(final(self).output) == *final(old(self).output),
@loop 0 while
        invariant_except_break
            room(self.input@.len(), self.output@.len()),
            dec(self.input@, self.output@) == dec(old(self).input@, old(self).output@),
        invariant
            *final(self.output) == *final(old(self).output),
        ensures
            dec(old(self).input@, old(self).output@) == Some(self.output@),
        decreases self.input@.len(),
//@end
}

proof fn lemma_nib(t: u8)
    ensures (t >> 4) as nat == hi(t), (t & 0xF) as nat == lo(t), hi(t) < 16, (4 + (t & 0xF)) as nat == 4 + lo(t),
{
    assert(t >> 4 == t / 16) by (bit_vector);
    assert(t & 0xF == t % 16) by (bit_vector);
}

//@fn decompress_into
@ret r
@sig
    requires room(input@.len(), old(output)@.len()),
    ensures
        match dec(input@, old(output)@) { None => r is Err, Some(o) => r is Ok && final(output)@ == o },
//@end

//@fn decompress
@ret r
@sig
    requires input@.len() <= max_in(),
    ensures
        match dec(input@, Seq::empty()) { None => r is Err, Some(o) => r is Ok && r->Ok_0@ == o },
//@end

// ---------------------------------------------------------------- encoder (extracted)
/// `e` is a prefix of a stream that decodes to `p` (more must follow)
pub open spec fn pre_dec(e: Seq<u8>, p: Seq<u8>) -> bool {
    forall|t: Seq<u8>| t.len() > 0 ==> #[trigger] dec(e + t, Seq::empty()) == dec(t, p)
}

/// the bytes a non-final block must have: token, literal length, literals, offset, duplicate length
pub open spec fn int_bytes(n: nat) -> Seq<u8>
    decreases n,
{
    if n >= 255 { seq![255u8] + int_bytes((n - 255) as nat) } else { seq![n as u8] }
}
pub open spec fn len_bytes(n: nat) -> Seq<u8> { if n >= 15 { int_bytes((n - 15) as nat) } else { Seq::empty() } }
pub open spec fn nib(n: nat) -> nat { if n >= 15 { 15 } else { n } }

proof fn lemma_int_bytes(n: nat)
    ensures rd_int(int_bytes(n)) == Some((n, int_bytes(n).len())),
    decreases n,
{
    if n >= 255 {
        lemma_int_bytes((n - 255) as nat);
        assert(int_bytes(n).skip(1) =~= int_bytes((n - 255) as nat));
    }
}

proof fn lemma_len_bytes(n: nat, t: Seq<u8>)
    ensures rd_len(nib(n), len_bytes(n) + t) == Some((n, len_bytes(n).len())),
        (len_bytes(n) + t).skip(len_bytes(n).len() as int) =~= t,
{
    if n >= 15 {
        lemma_int_bytes((n - 15) as nat);
        lemma_rd_int_app(int_bytes((n - 15) as nat), t);
    }
}

proof fn lemma_int_bytes_push(o: Seq<u8>, n: nat)
    requires n >= 255,
    ensures o.push(255u8) + int_bytes((n - 255) as nat) =~= o + int_bytes(n),
{
    assert(int_bytes(n) == seq![255u8] + int_bytes((n - 255) as nat));
}

/// copying from `off` back reproduces `x[..c+len]` when the data repeats with that distance
proof fn lemma_copy_repeat(x: Seq<u8>, c: int, off: int, len: nat)
    requires 0 < off <= c, c + len <= x.len(), forall|k: int| c <= k < c + len ==> #[trigger] x[k] == x[k - off],
    ensures copy_dup(x.take(c), c - off, len) == x.take(c + len as int),
    decreases len,
{
    if len > 0 {
        assert(x[c] == x[c - off]);
        assert(x.take(c).push(x.take(c)[c - off]) =~= x.take(c + 1));
        lemma_copy_repeat(x, c + 1, off, (len - 1) as nat);
    }
}

proof fn lemma_dec_dup_blk(x: Seq<u8>, c: int, off: nat, pad: nat, tok: u8, t: Seq<u8>)
    requires
        c + 4 + pad <= x.len(), 0 < off <= c, off <= 0xFFFF,
        forall|k: int| c <= k < c + 4 + pad ==> #[trigger] x[k] == x[k - off],
        lo(tok) == nib(pad),
    ensures
        dec_dup(tok, blk_dup(off, pad) + t, x.take(c)) == Some((x.take(c + 4 + pad), t)),
{
    hide(rd_int); hide(int_bytes); hide(copy_dup); hide(len_bytes);
    let s3 = blk_dup(off, pad) + t;
    assert(s3[0] == (off % 256) as u8 && s3[1] == (off / 256) as u8);
    assert(s3.skip(2) =~= len_bytes(pad) + t);
    lemma_len_bytes(pad, t);
    lemma_copy_repeat(x, c, off as int, pad + 4);
}

proof fn lemma_dec_lit_blk(x: Seq<u8>, start: int, lit: nat, tok: u8, t: Seq<u8>)
    requires 0 <= start, start + lit <= x.len(), hi(tok) == nib(lit),
    ensures
        dec_lit(tok, len_bytes(lit) + (x.subrange(start, start + lit) + t), x.take(start)) == Some((x.take(start + lit), t)),
{
    hide(rd_int); hide(int_bytes); hide(len_bytes);
    let l = x.subrange(start, start + lit);
    lemma_len_bytes(lit, l + t);
    let s2 = l + t;
    assert(s2.take(lit as int) =~= l);
    assert(s2.skip(lit as int) =~= t);
    assert(x.take(start) + l =~= x.take(start + lit));
}

/// one emitted block decodes to the literals it carries followed by its duplicate
proof fn lemma_block_more(x: Seq<u8>, start: int, lit: nat, off: nat, pad: nat, tok: u8, t: Seq<u8>)
    requires
        0 <= start, start + lit + 4 + pad <= x.len(), 0 < off <= start + lit, off <= 0xFFFF,
        forall|k: int| start + lit <= k < start + lit + 4 + pad ==> #[trigger] x[k] == x[k - off],
        hi(tok) == nib(lit), lo(tok) == nib(pad),
    ensures
        dec(blk_lit(tok, lit, x, start) + blk_dup(off, pad) + t, x.take(start)) == dec(t, x.take((start + lit + 4 + pad) as int)),
{
    hide(rd_int); hide(int_bytes); hide(copy_dup); hide(len_bytes); hide(dec_lit); hide(dec_dup);
    let c = start + lit;
    let l = x.subrange(start, c);
    let d = blk_dup(off, pad);
    let b = blk_lit(tok, lit, x, start) + d + t;
    assert(b[0] == tok);
    assert(b.skip(1) =~= len_bytes(lit) + (l + (d + t)));
    lemma_dec_lit_blk(x, start, lit, tok, d + t);
    lemma_dec_dup_blk(x, c, off, pad, tok, t);
    assert(dec_block(b, x.take(start)) == Blk::More { out: x.take(c + 4 + pad), rest: t });
    assert(t.len() < b.len());
}

proof fn lemma_block_last(x: Seq<u8>, start: int, lit: nat, tok: u8)
    requires 0 <= start, start + lit == x.len(), hi(tok) == nib(lit),
    ensures dec(blk_lit(tok, lit, x, start), x.take(start)) == Some(x),
{
    let l = x.subrange(start, start + lit);
    let b = blk_lit(tok, lit, x, start);
    assert(b[0] == tok);
    assert(b.skip(1) =~= len_bytes(lit) + l);
    lemma_len_bytes(lit, l);
    assert(l.take(lit as int) =~= l);
    assert(l.skip(lit as int).len() == 0);
    assert(x.take(start) + l =~= x);
}

pub open spec fn blk_lit(tok: u8, lit: nat, x: Seq<u8>, start: int) -> Seq<u8> {
    seq![tok] + len_bytes(lit) + x.subrange(start, start + lit)
}
pub open spec fn blk_dup(off: nat, pad: nat) -> Seq<u8> {
    seq![(off % 256) as u8, (off / 256) as u8] + len_bytes(pad)
}

proof fn lemma_pre_step(e: Seq<u8>, p: Seq<u8>, b: Seq<u8>, q: Seq<u8>)
    requires pre_dec(e, p), forall|t: Seq<u8>| t.len() > 0 ==> #[trigger] dec(b + t, p) == dec(t, q),
    ensures pre_dec(e + b, q),
{
    assert forall|t: Seq<u8>| t.len() > 0 implies #[trigger] dec((e + b) + t, Seq::empty()) == dec(t, q) by {
        assert((e + b) + t =~= e + (b + t));
        assert(dec(e + (b + t), Seq::empty()) == dec(b + t, p));
        assert(dec(b + t, p) == dec(t, q));
    }
}

proof fn lemma_pre_init()
    ensures pre_dec(Seq::empty(), Seq::empty()),
{
    assert forall|t: Seq<u8>| t.len() > 0 implies #[trigger] dec(Seq::<u8>::empty() + t, Seq::empty()) == dec(t, Seq::empty()) by {
        assert(Seq::<u8>::empty() + t =~= t);
    }
}

proof fn lemma_finish(x: Seq<u8>, o: Seq<u8>, e: Seq<u8>, start: int, lit: nat, tok: u8)
    requires 0 <= start, start + lit == x.len(), hi(tok) == nib(lit), pre_dec(e, x.take(start)),
    ensures ({
        let b = blk_lit(tok, lit, x, start);
        dec(e + b, Seq::empty()) == Some(x) && (o + e) + b == o + (e + b)
    }),
{
    hide(dec); hide(rd_int); hide(int_bytes);
    let b = blk_lit(tok, lit, x, start);
    lemma_block_last(x, start, lit, tok);
    assert(b.len() > 0);
    assert((o + e) + b =~= o + (e + b));
}

proof fn lemma_continue(x: Seq<u8>, o: Seq<u8>, e: Seq<u8>, start: int, lit: nat, off: nat, pad: nat, tok: u8, cur: int)
    requires
        0 <= start, start + lit + 4 + pad <= x.len(), 0 < off <= start + lit, off <= 0xFFFF,
        forall|k: int| start + lit <= k < start + lit + 4 + pad ==> #[trigger] x[k] == x[k - off],
        hi(tok) == nib(lit), lo(tok) == nib(pad), cur == start + lit + 4 + pad,
        pre_dec(e, x.take(start)),
    ensures ({
        let b = blk_lit(tok, lit, x, start) + blk_dup(off, pad);
        let now = (o + e) + b;
        pre_dec(now.skip(o.len() as int), x.take(cur)) && now == o + now.skip(o.len() as int) && now.len() >= o.len()
    }),
{
    hide(dec); hide(rd_int); hide(int_bytes);
    let b = blk_lit(tok, lit, x, start) + blk_dup(off, pad);
    let now = (o + e) + b;
    assert(now.skip(o.len() as int) =~= e + b);
    assert(now =~= o + (e + b));
    assert forall|t: Seq<u8>| t.len() > 0 implies #[trigger] dec(b + t, x.take(start)) == dec(t, x.take(cur)) by {
        lemma_block_more(x, start, lit, off, pad, tok, t);
    }
    lemma_pre_step(e, x.take(start), b, x.take(cur));
}

proof fn lemma_tok(a: u8, b: u8)
    requires a < 16, b < 16,
    ensures hi((a << 4) | b) == a, lo((a << 4) | b) == b, (a << 4) | b == ((a << 4) | b),
{
    assert(a < 16 && b < 16 ==> ((a << 4) | b) / 16 == a && ((a << 4) | b) % 16 == b) by (bit_vector);
}
proof fn lemma_f0()
    ensures (15u8 << 4) == 0xF0,
{
    assert((15u8 << 4) == 0xF0) by (bit_vector);
}

proof fn lemma_off(o: u16)
    ensures (o as u8) as int == (o as int) % 256, ((o >> 8) as u8) as int == (o as int) / 256,
{
    assert((o as u8) == o % 256) by (bit_vector);
    assert(((o >> 8) as u8) == o / 256) by (bit_vector);
}

//@file engine/src/snapshot/compression.rs
//@item struct Block
//@item struct Duplicate #[derive(Clone, Copy)]

//@file engine/src/snapshot/compression/encoder.rs
//@item const DICT_SIZE
//@item struct Lz4Encoder

impl<'a> Lz4Encoder<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.input@.len() <= max_in()
        &&& self.cursor <= self.input@.len() + 1
        &&& forall|h: int| 0 <= h < DICT_SIZE ==> (#[trigger] self.dict@[h] == usize::MAX
               || (self.dict@[h] < self.cursor && self.dict@[h] + 4 < self.input@.len()))
    }
    pub open spec fn dup_ok(&self, d: Duplicate, at: int) -> bool {
        &&& 0 < d.offset <= at
        &&& at + 4 + d.padding <= self.input@.len()
        &&& forall|k: int| at <= k < at + 4 + d.padding ==> #[trigger] self.input@[k] == self.input@[k - d.offset]
    }
}

//@impl Lz4Encoder
//@fn Lz4Encoder::step_forward
@ret r
@sig
    requires old(self).wf(), old(self).cursor + steps <= old(self).input@.len() + 1,
    ensures
        final(self).wf(), final(self).cursor == old(self).cursor + steps, r == (final(self).cursor <= final(self).input@.len()),
        final(self).input == old(self).input, final(self).output@ == old(self).output@,
        *final(final(self).output) == *final(old(self).output),
@loopvar 0 vx_i
@loopiter 0 vx_it
@loop 0 for
        invariant
            self.wf(), old(self).cursor + steps <= old(self).input@.len() + 1,
            self.cursor == old(self).cursor + vx_it.index@, vx_it.index@ <= steps,
            self.input == old(self).input, self.output@ == old(self).output@,
            *final(self.output) == *final(old(self).output),
//@end

//@fn Lz4Encoder::insert_cursor
@sig
    requires old(self).wf(), 
    ensures
        final(self).cursor == old(self).cursor,
        final(self).input == old(self).input, final(self).output@ == old(self).output@,
        *final(final(self).output) == *final(old(self).output),
        final(self).input@.len() <= max_in(),
        forall|h: int| 0 <= h < DICT_SIZE ==> (#[trigger] final(self).dict@[h] == usize::MAX
               || (final(self).dict@[h] <= final(self).cursor && final(self).dict@[h] + 4 < final(self).input@.len())),
//@end

//@fn Lz4Encoder::remaining
@ret r
@sig
    requires self.cursor <= self.input@.len() + 1, self.input@.len() <= max_in(),
    ensures r == (self.cursor + 4 < self.input@.len()),
//@end

//@fn Lz4Encoder::get_cursor_hash
@ret r
@sig
    requires self.cursor + 4 <= self.input@.len(), self.input@.len() <= max_in(),
    ensures r < DICT_SIZE,
@start
    assert(forall|v: u32| #[trigger] (v >> 30) < 4u32) by (bit_vector);
//@end

//@fn Lz4Encoder::get
@ret r
@sig
    requires n + 4 <= self.input@.len(), self.input@.len() <= max_in(),
    ensures r == ne32(self.input@.subrange(n as int, n + 4)),
@rx "(?s)(self\.input\[[^\]]*\])\s*\.try_into\(\)\s*\.(expect\(\"[^\"]*\"\)|unwrap\(\))" => "vx_arr4(&$1)"
//@end

//@fn Lz4Encoder::get_at_cursor
@ret r
@sig
    requires self.cursor + 4 <= self.input@.len(), self.input@.len() <= max_in(),
    ensures r == ne32(self.input@.subrange(self.cursor as int, self.cursor + 4)),
//@end

//@fn Lz4Encoder::find_duplicate
@ret r
@sig
    requires self.wf(),
    ensures match r { None => true, Some(d) => self.dup_ok(d, self.cursor as int) },
@start
    assert(!0usize == usize::MAX) by (bit_vector);
@at after "let padding" 0
    proof {
        ne32_injective(self.input@.subrange(candidate as int, candidate + 4), self.input@.subrange(self.cursor as int, self.cursor + 4));
        let off = self.cursor - candidate;
        assert forall|k: int| self.cursor <= k < self.cursor + 4 + padding implies #[trigger] self.input@[k] == self.input@[k - off] by {
            if k < self.cursor + 4 {
                assert(self.input@.subrange(candidate as int, candidate + 4)[k - self.cursor] == self.input@[k - off]);
                assert(self.input@.subrange(self.cursor as int, self.cursor + 4)[k - self.cursor] == self.input@[k]);
            } else {
                assert(self.input@.skip(self.cursor + 4)[k - self.cursor - 4] == self.input@.skip(candidate + 4)[k - self.cursor - 4]);
            }
        }
    }
@rx "(?s)self\s*\.input\[(.*?)\]\s*\.iter\(\)\s*\.zip\(&self\.input\[(.*?)\]\)\s*\.take_while\(\|&\((\w+), (\w+)\)\| (\w+) == (\w+)\)\s*\.count\(\)" => "vx_common_prefix(&self.input[$1], &self.input[$2])"
//@end

//@fn Lz4Encoder::write_int
@sig
    ensures
        final(self).output@ == old(self).output@ + int_bytes(n as nat),
        final(self).input == old(self).input, final(self).cursor == old(self).cursor, final(self).dict == old(self).dict,
        *final(final(self).output) == *final(old(self).output),
@start
    let ghost vx_n = n;
@loop 0 while
        invariant
            self.output@ + int_bytes(n as nat) =~= old(self).output@ + int_bytes(vx_n as nat),
            self.input == old(self).input, self.cursor == old(self).cursor, self.dict == old(self).dict,
            *final(self.output) == *final(old(self).output),
        decreases n,
@loopstart 0
    proof { lemma_int_bytes_push(self.output@, n as nat); }
//@end

//@fn Lz4Encoder::pop_block
@ret r
@sig
    requires old(self).wf(), old(self).cursor <= old(self).input@.len(),
    ensures
        final(self).wf(),
        final(self).input == old(self).input, final(self).output@ == old(self).output@,
        *final(final(self).output) == *final(old(self).output),
        match r.duplicates {
            None => old(self).cursor + r.literal_length == old(self).input@.len(),
            Some(d) => final(self).cursor == old(self).cursor + r.literal_length + 4 + d.padding
                && final(self).cursor <= final(self).input@.len()
                && final(self).dup_ok(d, old(self).cursor + r.literal_length),
        },
@loop 0 loop
        invariant
            self.wf(), self.cursor == old(self).cursor + lit, self.cursor <= self.input@.len(),
            self.input == old(self).input, self.output@ == old(self).output@,
            *final(self.output) == *final(old(self).output),
        decreases self.input@.len() - self.cursor,
//@end

//@fn Lz4Encoder::complete
@sig
    requires old(self).wf(), old(self).cursor == 0, old(self).input@.len() <= max_in(),
    ensures
        exists|e: Seq<u8>| #[trigger] dec(e, Seq::empty()) == Some(old(self).input@) && final(self).output@ == old(self).output@ + e,
        *final(final(self).output) == *final(old(self).output),
@rx "([\w.]+)\.map_or\(([^,]*), \|(\w+)\| ([^)]*)\)" => "(match $1 { Some($3) => $4, None => $2 })"
@start
    hide(rd_int); hide(int_bytes); hide(copy_dup); hide(dec_lit); hide(dec_dup); hide(dec_block); hide(dec); hide(pre_dec); 
    let ghost vx_o = self.output@;
    proof {
        lemma_pre_init();
        assert(self.output@.skip(vx_o.len() as int) =~= Seq::empty());
        assert(vx_o + Seq::empty() =~= vx_o);
        assert(self.input@.take(0) =~= Seq::empty());
    }
@loop 0 loop
        invariant_except_break
            self.wf(), self.cursor <= self.input@.len(),
            self.output@.len() >= vx_o.len(),
            self.output@ == vx_o + self.output@.skip(vx_o.len() as int),
            pre_dec(self.output@.skip(vx_o.len() as int), self.input@.take(self.cursor as int)),
        invariant
            self.input == old(self).input, vx_o == old(self).output@,
            *final(self.output) == *final(old(self).output),
        ensures
            exists|e: Seq<u8>| #[trigger] dec(e, Seq::empty()) == Some(old(self).input@) && self.output@ == vx_o + e,
        decreases self.input@.len() - self.cursor,
@loopstart 0
    let ghost vx_out0 = self.output@;
    let ghost vx_e0 = self.output@.skip(vx_o.len() as int);
    let ghost vx_c0 = self.cursor as int;
@at after "let dup_extra_len" 0
    proof {
        lemma_f0();
        lemma_tok(nib(block.literal_length as nat) as u8, nib(dup_extra_len as nat) as u8);
    }
@at before "break" 0
    proof {
        let b = blk_lit(token, block.literal_length as nat, self.input@, vx_c0);
        assert(self.output@ =~= vx_out0 + b);
        lemma_finish(self.input@, vx_o, vx_e0, vx_c0, block.literal_length as nat, token);
    }
@loopend 0
    proof {
        let d = block.duplicates->Some_0;
        let bl = blk_lit(token, block.literal_length as nat, self.input@, vx_c0);
        let bd = blk_dup(d.offset as nat, d.padding as nat);
        lemma_off(d.offset);
        assert(self.output@ =~= vx_out0 + (bl + bd));
        lemma_continue(self.input@, vx_o, vx_e0, vx_c0, block.literal_length as nat, d.offset as nat, d.padding as nat, token, self.cursor as int);
    }
//@end
}

//@fn compress_into
@sig
    requires input@.len() <= max_in(),
    ensures exists|e: Seq<u8>| #[trigger] dec(e, Seq::empty()) == Some(input@) && final(output)@ == old(output)@ + e,
@start
    assert(!0usize == usize::MAX) by (bit_vector);
//@end

//@fn compress
@ret r
@sig
    requires input@.len() <= max_in(),
    ensures dec(r@, Seq::empty()) == Some(input@),
//@end

} // verus!
fn main() {}
