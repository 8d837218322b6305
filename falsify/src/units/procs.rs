use super::client::{loc, verify, CM, NR, NV};
use super::vault::read;
use crate::{ensure, Ctx, R};
use crypto::{
    ciphers::{
        aes_gcm::Aes256Gcm,
        aes_kw::Aes256Kw,
        chacha::XChaCha20Poly1305,
        traits::{Aead, Tag},
    },
    hashes::{
        sha::{Sha256, Sha384, Sha512},
        Digest,
    },
    keys::{
        bip39,
        pbkdf::{PBKDF2_HMAC_SHA256, PBKDF2_HMAC_SHA384, PBKDF2_HMAC_SHA512},
        slip10, x25519,
    },
    macs::hmac::{HMAC_SHA256, HMAC_SHA384, HMAC_SHA512},
    signatures::ed25519,
};
use iota_stronghold::{procedures::*, Client, Location};

type Id = (usize, usize);
/// what a step computes from its sources: (output, secret)
type F = Box<dyn Fn(&[Vec<u8>]) -> Option<(Vec<u8>, Option<Vec<u8>>)>>;

enum Kind {
    /// deterministic
    Det(F),
    /// random secret of that length
    Random(usize),
    Mnemonic(MnemonicLanguage, String),
    Revoke(Id, bool),
    Gc(usize),
}
struct Step {
    /// the secrets that the sources should hold for the step to be meaningful
    prep: Vec<(Id, Vec<u8>)>,
    p: StrongholdProcedure,
    srcs: Vec<Id>,
    target: Option<Id>,
    kind: Kind,
    name: &'static str,
}

fn id(c: &mut Ctx) -> Id {
    (c.r.below(NV), c.r.below(NR))
}
fn l(i: Id) -> Location {
    loc(i.0, i.1)
}
fn hash(c: &mut Ctx) -> Sha2Hash {
    match c.r.below(3) {
        0 => Sha2Hash::Sha256,
        1 => Sha2Hash::Sha384,
        _ => Sha2Hash::Sha512,
    }
}
fn hmac(h: &Sha2Hash, key: &[u8], msg: &[u8]) -> Vec<u8> {
    match h {
        Sha2Hash::Sha256 => {
            let mut m = [0; 32];
            HMAC_SHA256(msg, key, &mut m);
            m.to_vec()
        }
        Sha2Hash::Sha384 => {
            let mut m = [0; 48];
            HMAC_SHA384(msg, key, &mut m);
            m.to_vec()
        }
        Sha2Hash::Sha512 => {
            let mut m = [0; 64];
            HMAC_SHA512(msg, key, &mut m);
            m.to_vec()
        }
    }
}
fn hlen(h: &Sha2Hash) -> usize {
    match h {
        Sha2Hash::Sha256 => 32,
        Sha2Hash::Sha384 => 48,
        Sha2Hash::Sha512 => 64,
    }
}
fn digest(h: &Sha2Hash, m: &[u8]) -> Vec<u8> {
    match h {
        Sha2Hash::Sha256 => Sha256::digest(m).to_vec(),
        Sha2Hash::Sha384 => Sha384::digest(m).to_vec(),
        Sha2Hash::Sha512 => Sha512::digest(m).to_vec(),
    }
}
/// RFC 5869 with one output block
fn hkdf(h: &Sha2Hash, salt: &[u8], ikm: &[u8], info: &[u8]) -> Vec<u8> {
    let prk = hmac(h, salt, ikm);
    hmac(h, &prk, &[info, &[1]].concat())
}
/// NIST SP 800-56A, 5.8.1
fn concat_kdf(h: &Sha2Hash, len: usize, z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], pubi: &[u8], privi: &[u8]) -> Vec<u8> {
    let be = |n: usize| (n as u32).to_be_bytes().to_vec();
    let mut out = vec![];
    let mut i = 1u32;
    while out.len() < len {
        let m = [&i.to_be_bytes()[..], z, &be(alg.len()), alg, &be(apu.len()), apu, &be(apv.len()), apv, pubi, privi].concat();
        out.extend(digest(h, &m));
        i += 1;
    }
    out.truncate(len);
    out
}
fn ed(k: &[u8]) -> Option<ed25519::SecretKey> {
    let mut b = [0; 32];
    b.copy_from_slice(k.get(..32)?);
    Some(ed25519::SecretKey::from_bytes(b))
}
fn xk(k: &[u8]) -> Option<x25519::SecretKey> {
    if k.len() != 32 {
        return None;
    }
    x25519::SecretKey::try_from_slice(k).ok()
}
fn aead_enc(ci: &AeadCipher, key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut ct = vec![0; pt.len()];
    match ci {
        AeadCipher::Aes256Gcm => {
            let mut t = Tag::<Aes256Gcm>::default();
            Aes256Gcm::try_encrypt(key, nonce, ad, pt, &mut ct, &mut t).ok()?;
            Some((t.to_vec(), ct))
        }
        AeadCipher::XChaCha20Poly1305 => {
            let mut t = Tag::<XChaCha20Poly1305>::default();
            XChaCha20Poly1305::try_encrypt(key, nonce, ad, pt, &mut ct, &mut t).ok()?;
            Some((t.to_vec(), ct))
        }
    }
}
fn aead_dec(ci: &AeadCipher, key: &[u8], nonce: &[u8], ad: &[u8], tag: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let mut pt = vec![0; ct.len()];
    match ci {
        AeadCipher::Aes256Gcm => Aes256Gcm::try_decrypt(key, nonce, ad, &mut pt, ct, tag).ok()?,
        AeadCipher::XChaCha20Poly1305 => XChaCha20Poly1305::try_decrypt(key, nonce, ad, &mut pt, ct, tag).ok()?,
    };
    Some(pt)
}
fn kw(key: &[u8], k: &[u8]) -> Option<Vec<u8>> {
    if key.len() != 32 {
        return None;
    }
    let mut ct = vec![0; k.len() + 8];
    Aes256Kw::new(key).wrap_key(k, &mut ct).ok()?;
    Some(ct)
}
fn ukw(key: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if key.len() != 32 || ct.len() < 8 {
        return None;
    }
    let mut k = vec![0; ct.len() - 8];
    Aes256Kw::new(key).unwrap_key(ct, &mut k).ok()?;
    Some(k)
}
/// a key of the right length, or sometimes not
fn key(c: &mut Ctx, n: usize, bad: bool) -> Vec<u8> {
    let n = if bad && c.r.bool() {
        match c.r.below(5) {
            0 => 0,
            1 => n - 1,
            2 => n + 1,
            3 => n / 2,
            _ => c.r.below(2 * n + 10),
        }
    } else {
        n
    };
    c.r.bytes(n)
}
fn tamper(c: &mut Ctx, v: &mut Vec<u8>) {
    match c.r.below(4) {
        0 => {
            v.pop();
        }
        1 => v.push(c.r.byte()),
        2 => {
            let n = c.r.below(12);
            *v = c.r.bytes(n);
        }
        _ => {
            if !v.is_empty() {
                let i = c.r.below(v.len());
                v[i] ^= 1 << c.r.below(8);
            }
        }
    }
}

fn step(c: &mut Ctx, bad: bool) -> Step {
    let (s, t) = (id(c), id(c));
    let s2 = id(c);
    let sec = |k: Vec<u8>| Some((vec![], Some(k)));
    let w = c.r.below(24);
    let mut st: Step = match w {
        0 => {
            let d = c.r.data(300);
            let d2 = d.clone();
            Step { prep: vec![], p: WriteVault { data: d, location: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Det(Box::new(move |_| Some((vec![], Some(d2.clone()))))), name: "WriteVault" }
        }
        1 => {
            let d = c.r.data(300);
            Step { prep: vec![(s, d)], p: CopyRecord { source: l(s), target: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(Box::new(move |k| sec(k[0].clone()))), name: "CopyRecord" }
        }
        2 => {
            let n = match c.r.below(4) {
                0 => None,
                1 => Some(c.r.below(3)),
                _ => Some(c.r.below(200)),
            };
            Step { prep: vec![], p: Slip10Generate { size_bytes: n, output: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Random(n.unwrap_or(64)), name: "Slip10Generate" }
        }
        3 | 4 => {
            let n = c.r.below(4);
            let seg: Vec<u32> = (0..n).map(|_| if c.r.bool() { c.r.below(100) as u32 } else { c.r.u64() as u32 & 0x7fff_ffff }).collect();
            let chain = if bad && c.r.one_in(4) { Chain::from_u32(seg.clone()) } else { Chain::from_u32_hardened(seg.clone()) };
            let ch = chain.clone();
            if w == 3 {
                let n = *c.r.pick(&[16usize, 32, 64]);
                let k = c.r.bytes(n);
                let fun: F = Box::new(move |k| {
                    let dk = slip10::Seed::from_bytes(&k[0]).derive(slip10::Curve::Ed25519, &ch).ok()?;
                    let v: Vec<u8> = dk.into();
                    Some((dk.chain_code().to_vec(), Some(v)))
                });
                Step { prep: vec![(s, k)], p: Slip10Derive { chain, input: Slip10DeriveInput::Seed(l(s)), output: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(fun), name: "Slip10Derive(seed)" }
            } else {
                let k: Vec<u8> = slip10::Seed::from_bytes(&c.r.bytes(32)).to_master_key(slip10::Curve::Ed25519).into();
                let k = if bad { key(c, k.len(), true) } else { k };
                let fun: F = Box::new(move |k| {
                    let dk = slip10::Key::try_from(&k[0][..]).and_then(|p| p.derive(&ch)).ok()?;
                    let v: Vec<u8> = dk.into();
                    Some((dk.chain_code().to_vec(), Some(v)))
                });
                Step { prep: vec![(s, k)], p: Slip10Derive { chain, input: Slip10DeriveInput::Key(l(s)), output: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(fun), name: "Slip10Derive(key)" }
            }
        }
        5 => {
            let ty = if c.r.bool() { KeyType::Ed25519 } else { KeyType::X25519 };
            Step { prep: vec![], p: GenerateKey { ty, output: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Random(32), name: "GenerateKey" }
        }
        6 => {
            let k = if c.r.bool() { c.r.bytes(64) } else { key(c, 32, bad) };
            let fun: F = Box::new(|k| Some((ed(&k[0])?.public_key().to_bytes().to_vec(), None)));
            Step { prep: vec![(s, k)], p: PublicKey { ty: KeyType::Ed25519, private_key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "PublicKey(ed25519)" }
        }
        7 => {
            let k = key(c, 32, bad);
            let fun: F = Box::new(|k| Some((xk(&k[0])?.public_key().to_bytes().to_vec(), None)));
            Step { prep: vec![(s, k)], p: PublicKey { ty: KeyType::X25519, private_key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "PublicKey(x25519)" }
        }
        8 | 9 => {
            let k = if c.r.bool() { c.r.bytes(64) } else { key(c, 32, bad) };
            let msg = c.r.data(300);
            let m = msg.clone();
            let fun: F = Box::new(move |k| Some((ed(&k[0])?.sign(&m).to_bytes().to_vec(), None)));
            Step { prep: vec![(s, k)], p: Ed25519Sign { msg, private_key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "Ed25519Sign" }
        }
        10 | 11 => {
            let k = key(c, 32, bad);
            let public_key = if c.r.one_in(6) { [0; 32] } else { c.r.arr::<32>() };
            let fun: F = Box::new(move |k| Some((vec![], Some(xk(&k[0])?.diffie_hellman(&x25519::PublicKey::from_bytes(public_key)).to_bytes().to_vec()))));
            Step { prep: vec![(s, k)], p: X25519DiffieHellman { public_key, private_key: l(s), shared_key: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(fun), name: "X25519DiffieHellman" }
        }
        12 => {
            let (k, msg, h) = (c.r.data(200), c.r.data(300), hash(c));
            let (m, h2) = (msg.clone(), h.clone());
            let fun: F = Box::new(move |k| Some((hmac(&h2, &k[0], &m), None)));
            Step { prep: vec![(s, k)], p: Hmac { hash_type: h, msg, key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "Hmac" }
        }
        13 => {
            let (k, salt, label, h) = (c.r.data(200), c.r.data(200), c.r.data(100), hash(c));
            let (a, b, h2) = (salt.clone(), label.clone(), h.clone());
            let fun: F = Box::new(move |k| Some((vec![], Some(hkdf(&h2, &a, &k[0], &b)))));
            Step { prep: vec![(s, k)], p: Hkdf { hash_type: h, salt, label, ikm: l(s), okm: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(fun), name: "Hkdf" }
        }
        14 | 15 => {
            let (z, h) = (c.r.data(100), hash(c));
            let n = c.r.below(12);
            let alg = String::from_utf8(c.r.bytes(n).iter().map(|b| b'A' + b % 40).collect()).unwrap();
            let (apu, apv, pi, si) = (c.r.data(30), c.r.data(30), c.r.data(30), c.r.data(30));
            let q = hlen(&h);
            let n = match c.r.below(7) {
                0 => 0,
                6 => q * c.r.range(254, 259) + c.r.below(3),
                1 => q * c.r.below(5),
                2 => (q * c.r.range(1, 5)) - 1,
                3 => q * c.r.below(5) + 1,
                _ => c.r.below(1000),
            };
            let huge = bad && c.r.one_in(3);
            let n = if huge { *c.r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 31, usize::MAX - 62, usize::MAX - 63, 1 << 62]) } else { n };
            let (h2, alg2, u, v, p2, s2_) = (h.clone(), alg.clone(), apu.clone(), apv.clone(), pi.clone(), si.clone());
            let fun: F = Box::new(move |k| if huge { None } else { Some((vec![], Some(concat_kdf(&h2, n, &k[0], alg2.as_bytes(), &u, &v, &p2, &s2_)))) });
            Step {
                prep: vec![(s, z)],
                p: ConcatKdf { hash: h, algorithm_id: alg, shared_secret: l(s), key_len: n, apu, apv, pub_info: pi, priv_info: si, output: l(t) }.into(),
                srcs: vec![s],
                target: Some(t),
                kind: Kind::Det(fun),
                name: "ConcatKdf",
            }
        }
        16 => {
            let ek = key(c, 32, bad);
            let n = 8 * c.r.below(12);
            let n = if bad && c.r.bool() { c.r.below(80) } else { n };
            let wk = c.r.bytes(n);
            let fun: F = Box::new(|k| Some((kw(&k[0], &k[1])?, None)));
            Step { prep: vec![(s, ek), (s2, wk)], p: AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: l(s), wrap_key: l(s2) }.into(), srcs: vec![s, s2], target: None, kind: Kind::Det(fun), name: "AesKeyWrapEncrypt" }
        }
        17 | 18 => {
            let dk = key(c, 32, bad);
            let n = 8 * c.r.below(8);
            let k = c.r.bytes(n);
            let mut ct = kw(&dk, &k).unwrap_or_default();
            if bad && c.r.bool() {
                tamper(c, &mut ct);
            }
            let ct2 = ct.clone();
            let fun: F = Box::new(move |k| Some((vec![], Some(ukw(&k[0], &ct2)?))));
            Step { prep: vec![(s, dk)], p: AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: l(s), wrapped_key: ct, output: l(t) }.into(), srcs: vec![s], target: Some(t), kind: Kind::Det(fun), name: "AesKeyWrapDecrypt" }
        }
        19 => {
            let (password, salt, h) = (c.r.data(150), c.r.data(100), hash(c));
            let count = core::num::NonZeroU32::new(c.r.range(1, 12) as u32).unwrap();
            let (a, b, h2) = (password.clone(), salt.clone(), h.clone());
            let fun: F = Box::new(move |_| {
                let mut o = vec![0; hlen(&h2)];
                match h2 {
                    Sha2Hash::Sha256 => PBKDF2_HMAC_SHA256(&a, &b, count, (&mut o[..]).try_into().unwrap()),
                    Sha2Hash::Sha384 => PBKDF2_HMAC_SHA384(&a, &b, count, (&mut o[..]).try_into().unwrap()),
                    Sha2Hash::Sha512 => PBKDF2_HMAC_SHA512(&a, &b, count, (&mut o[..]).try_into().unwrap()),
                }
                Some((vec![], Some(o)))
            });
            Step { prep: vec![], p: Pbkdf2Hmac { hash_type: h, password, salt, count, output: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Det(fun), name: "Pbkdf2Hmac" }
        }
        20 | 21 => {
            let ci = if c.r.bool() { AeadCipher::Aes256Gcm } else { AeadCipher::XChaCha20Poly1305 };
            let nl = match ci {
                AeadCipher::Aes256Gcm => 12,
                _ => 24,
            };
            let (k, nonce) = (key(c, 32, bad), key(c, nl, bad));
            let (ad, pt) = (c.r.data(60), c.r.data(300));
            if w == 20 {
                let (a, p2, n2) = (ad.clone(), pt.clone(), nonce.clone());
                let fun: F = Box::new(move |k| {
                    let (t, ct) = aead_enc(&ci, &k[0], &n2, &a, &p2)?;
                    Some(([t, ct].concat(), None))
                });
                Step { prep: vec![(s, k)], p: AeadEncrypt { cipher: ci, associated_data: ad, plaintext: pt, nonce, key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "AeadEncrypt" }
            } else {
                let (mut tag, mut ct) = aead_enc(&ci, &k, &nonce, &ad, &pt).unwrap_or_default();
                let mut ad = ad;
                if bad {
                    match c.r.below(4) {
                        0 => tamper(c, &mut tag),
                        1 => tamper(c, &mut ct),
                        2 => tamper(c, &mut ad),
                        _ => {}
                    }
                }
                let (a, c2, t2, n2) = (ad.clone(), ct.clone(), tag.clone(), nonce.clone());
                let fun: F = Box::new(move |k| Some((aead_dec(&ci, &k[0], &n2, &a, &t2, &c2)?, None)));
                Step { prep: vec![(s, k)], p: AeadDecrypt { cipher: ci, associated_data: ad, ciphertext: ct, tag, nonce, key: l(s) }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "AeadDecrypt" }
            }
        }
        22 => {
            let (a, b) = (c.r.data(100), c.r.data(100));
            let fun: F = Box::new(|k| Some((vec![], Some([&k[0][..], &k[1][..]].concat()))));
            Step { prep: vec![(s, a), (s2, b)], p: ConcatSecret { location_a: l(s), location_b: l(s2), output_location: l(t) }.into(), srcs: vec![s, s2], target: Some(t), kind: Kind::Det(fun), name: "ConcatSecret" }
        }
        _ => {
            let d = c.r.data(100);
            let e = if c.r.bool() { d.clone() } else { c.r.data(100) };
            let e2 = e.clone();
            let fun: F = Box::new(move |k| Some((vec![(k[0] == e2) as u8], None)));
            Step { prep: vec![(s, d)], p: CompareSecret { location: l(s), expected: e }.into(), srcs: vec![s], target: None, kind: Kind::Det(fun), name: "CompareSecret" }
        }
    };
    // two sources at one place hold one secret
    if st.srcs.len() == 2 && st.srcs[0] == st.srcs[1] {
        st.prep.truncate(1);
    }
    st
}
fn mnemonic_step(c: &mut Ctx) -> Step {
    let t = id(c);
    let la = if c.r.bool() { MnemonicLanguage::English } else { MnemonicLanguage::Japanese };
    let pass = match c.r.below(3) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(format!("pässword {}", c.r.below(100))),
    };
    if c.r.bool() {
        Step { prep: vec![], p: BIP39Generate { passphrase: pass.clone(), language: la.clone(), output: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Mnemonic(la, pass.unwrap_or_default()), name: "BIP39Generate" }
    } else {
        let e = c.r.bytes(32);
        let wl = match la {
            MnemonicLanguage::English => bip39::wordlist::ENGLISH,
            MnemonicLanguage::Japanese => bip39::wordlist::JAPANESE,
        };
        let m = bip39::wordlist::encode(&e, &wl).unwrap();
        let (m2, p2) = (m.clone(), pass.clone().unwrap_or_default());
        let fun: F = Box::new(move |_| {
            let mut s = [0; 64];
            bip39::mnemonic_to_seed(&m2, &p2, &mut s);
            Some((vec![], Some(s.to_vec())))
        });
        Step { prep: vec![], p: BIP39Recover { passphrase: pass, mnemonic: m, output: l(t) }.into(), srcs: vec![], target: Some(t), kind: Kind::Det(fun), name: "BIP39Recover" }
    }
}
fn other_step(c: &mut Ctx) -> Step {
    let t = id(c);
    if c.r.bool() {
        let gc = c.r.bool();
        Step { prep: vec![], p: RevokeData { location: l(t), should_gc: gc }.into(), srcs: vec![], target: None, kind: Kind::Revoke(t, gc), name: "RevokeData" }
    } else {
        Step { prep: vec![], p: GarbageCollect { vault_path: super::client::vpath(t.0).into_bytes() }.into(), srcs: vec![], target: None, kind: Kind::Gc(t.0), name: "GarbageCollect" }
    }
}
fn write_step(i: Id, d: Vec<u8>) -> Step {
    let d2 = d.clone();
    Step { prep: vec![], p: WriteVault { data: d, location: l(i) }.into(), srcs: vec![], target: Some(i), kind: Kind::Det(Box::new(move |_| Some((vec![], Some(d2.clone()))))), name: "WriteVault" }
}

enum Want {
    Fail,
    /// output and secret
    Det(Vec<u8>, Option<(Id, Vec<u8>)>),
    Random(Id, usize),
    Mnemonic(Id, MnemonicLanguage, String),
    Nothing,
}
/// What the step has to do in the state `m`. The state is updated, except for random secrets.
fn eval(st: &Step, m: &mut CM) -> Want {
    let alive = |m: &CM, i: &Id| m.recs.get(i).filter(|x| !x.1).map(|x| x.0.clone());
    let srcs: Option<Vec<Vec<u8>>> = st.srcs.iter().map(|i| alive(m, i)).collect();
    let Some(srcs) = srcs else { return Want::Fail };
    let dead = st.target.map_or(false, |t| m.recs.get(&t).map_or(false, |x| x.1));
    match &st.kind {
        Kind::Det(f) => match f(&srcs) {
            Some(_) if dead => Want::Fail,
            None => Want::Fail,
            Some((o, None)) => Want::Det(o, None),
            Some((o, Some(k))) => {
                let t = st.target.unwrap();
                m.vaults.insert(t.0);
                m.recs.insert(t, (k.clone(), false));
                Want::Det(o, Some((t, k)))
            }
        },
        _ if dead => Want::Fail,
        Kind::Random(n) => Want::Random(st.target.unwrap(), *n),
        Kind::Mnemonic(a, p) => Want::Mnemonic(st.target.unwrap(), a.clone(), p.clone()),
        Kind::Revoke(t, gc) => {
            if let Some(e) = m.recs.get_mut(t) {
                e.1 = true;
            }
            if *gc {
                m.recs.retain(|k, e| k.0 != t.0 || !e.1);
            }
            Want::Nothing
        }
        Kind::Gc(v) => {
            m.recs.retain(|k, e| k.0 != *v || !e.1);
            Want::Nothing
        }
    }
}
/// Learns a random secret.
fn learn(cl: &Client, m: &mut CM, t: Id, n: usize, what: &str) -> Result<Vec<u8>, String> {
    let s = read(cl, &l(t)).ok_or_else(|| format!("{} wrote no secret", what))?;
    ensure!(s.len() == n, "{} wrote {} bytes, expected {}", what, s.len(), n);
    ensure!(n < 16 || s.iter().any(|b| *b != 0), "{} wrote zeros", what);
    m.vaults.insert(t.0);
    m.recs.insert(t, (s.clone(), false));
    Ok(s)
}
fn check_mnemonic(out: &[u8], seed: &[u8], la: &MnemonicLanguage, pass: &str) -> R {
    let s = String::from_utf8(out.to_vec()).map_err(|e| e.to_string())?;
    let wl = match la {
        MnemonicLanguage::English => bip39::wordlist::ENGLISH,
        MnemonicLanguage::Japanese => bip39::wordlist::JAPANESE,
    };
    bip39::wordlist::verify(&s, &wl).map_err(|e| format!("the mnemonic {:?} is not valid: {:?}", s, e))?;
    let mut want = [0; 64];
    bip39::mnemonic_to_seed(&s, pass, &mut want);
    ensure!(want[..] == *seed, "the stored seed is not the one of the returned mnemonic");
    Ok(())
}
fn resync_vaults(cl: &Client, m: &mut CM, t: Option<Id>) {
    // a failed step may leave the vault of its target
    if let Some(t) = t {
        if cl.vault_exists(super::client::vpath(t.0)).unwrap_or(false) {
            m.vaults.insert(t.0);
        }
    }
}
/// through the typed interface
fn typed(cl: &Client, p: StrongholdProcedure) -> Result<Vec<u8>, ProcedureError> {
    use StrongholdProcedure as P;
    match p {
        P::PublicKey(x) => cl.execute_procedure(x).map(|o| o.to_vec()),
        P::Ed25519Sign(x) => cl.execute_procedure(x).map(|o| o.to_vec()),
        P::Hmac(x) => cl.execute_procedure(x),
        P::AeadEncrypt(x) => cl.execute_procedure(x),
        P::AeadDecrypt(x) => cl.execute_procedure(x),
        P::AesKeyWrapEncrypt(x) => cl.execute_procedure(x),
        P::Slip10Derive(x) => cl.execute_procedure(x).map(|o| o.to_vec()),
        P::BIP39Generate(x) => cl.execute_procedure(x).map(|o| o.into_bytes()),
        P::CompareSecret(x) => cl.execute_procedure(x),
        P::WriteVault(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::RevokeData(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::GarbageCollect(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::CopyRecord(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::Slip10Generate(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::BIP39Recover(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::GenerateKey(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::X25519DiffieHellman(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::Hkdf(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::ConcatKdf(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::AesKeyWrapDecrypt(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::Pbkdf2Hmac(x) => cl.execute_procedure(x).map(|_| vec![]),
        P::ConcatSecret(x) => cl.execute_procedure(x).map(|_| vec![]),
    }
}
/// Executes one step alone and compares.
fn single(c: &mut Ctx, cl: &Client, m: &mut CM, st: Step) -> R {
    let w = eval(&st, m);
    c.note(format!("{} {:?} -> {:?}{}", st.name, st.srcs, st.target, if let Want::Fail = w { " (to fail)" } else { "" }));
    let p = st.p.clone();
    let got = if c.r.bool() { typed(cl, p) } else { cl.execute_procedure(p).map(Into::into) };
    match w {
        Want::Fail => {
            ensure!(got.is_err(), "{} succeeded", st.name);
            resync_vaults(cl, m, st.target);
        }
        Want::Det(o, _) => {
            let g = got.map_err(|e| format!("{} failed: {}", st.name, e))?;
            ensure!(g == o, "{} returned {:?}, expected {:?}", st.name, g, o);
        }
        Want::Nothing => {
            got.map_err(|e| format!("{} failed: {}", st.name, e))?;
        }
        Want::Random(t, n) => {
            got.map_err(|e| format!("{} failed: {}", st.name, e))?;
            let s = learn(cl, m, t, n, st.name)?;
            ensure!(n < 16 || m.recs.iter().all(|(k, v)| *k == t || v.0 != s), "{} repeated a secret", st.name);
        }
        Want::Mnemonic(t, la, pass) => {
            let g = got.map_err(|e| format!("{} failed: {}", st.name, e))?;
            let s = learn(cl, m, t, 64, st.name)?;
            check_mnemonic(&g, &s, &la, &pass)?;
        }
    }
    Ok(())
}
fn prep(c: &mut Ctx, cl: &Client, m: &mut CM, st: &Step) -> R {
    for (i, d) in &st.prep {
        if !m.recs.get(i).map_or(false, |x| x.1) {
            single(c, cl, m, write_step(*i, d.clone()))?;
        }
    }
    Ok(())
}
fn done(cl: &Client, m: &CM) -> R {
    verify(cl, m, 0)
}

/// Each procedure with well-formed sources and parameters.
pub fn functions(c: &mut Ctx) -> R {
    let (cl, mut m) = (Client::default(), CM::default());
    for _ in 0..1 + c.size / 3 {
        let st = step(c, false);
        prep(c, &cl, &mut m, &st)?;
        single(c, &cl, &mut m, st)?;
        done(&cl, &m)?;
    }
    Ok(())
}
/// Procedures that work on what earlier ones left, with revocations in between.
pub fn pipelines(c: &mut Ctx) -> R {
    let (cl, mut m) = (Client::default(), CM::default());
    for v in 0..NV {
        for r in 0..NR {
            if c.r.bool() {
                let n = *c.r.pick(&[0usize, 8, 16, 31, 32, 32, 32, 64]);
                let d = c.r.bytes(n);
                single(c, &cl, &mut m, write_step((v, r), d))?;
            }
        }
    }
    for _ in 0..c.size {
        let st = if c.r.one_in(8) { other_step(c) } else { let b = c.r.one_in(4); step(c, b) };
        if c.r.one_in(3) {
            prep(c, &cl, &mut m, &st)?;
        }
        single(c, &cl, &mut m, st)?;
        done(&cl, &m)?;
    }
    Ok(())
}
/// Wrong lengths, altered ciphertexts, missing and revoked records.
pub fn bad_inputs(c: &mut Ctx) -> R {
    let (cl, mut m) = (Client::default(), CM::default());
    for _ in 0..1 + c.size / 2 {
        let st = step(c, true);
        if !c.r.one_in(5) {
            prep(c, &cl, &mut m, &st)?;
        }
        if c.r.one_in(6) {
            if let Some(t) = st.target {
                let s = Step { prep: vec![], p: RevokeData { location: l(t), should_gc: false }.into(), srcs: vec![], target: None, kind: Kind::Revoke(t, false), name: "RevokeData" };
                single(c, &cl, &mut m, s)?;
            }
        }
        single(c, &cl, &mut m, st)?;
        done(&cl, &m)?;
    }
    Ok(())
}
pub fn mnemonic(c: &mut Ctx) -> R {
    let (cl, mut m) = (Client::default(), CM::default());
    for _ in 0..c.size {
        let st = mnemonic_step(c);
        single(c, &cl, &mut m, st)?;
        done(&cl, &m)?;
    }
    Ok(())
}

fn copy_of(m: &CM) -> Result<Client, String> {
    let cl = Client::default();
    let e = |e: ProcedureError| e.to_string();
    for v in &m.vaults {
        let i = (*v, 0);
        cl.execute_procedure(WriteVault { data: vec![1], location: l(i) }).map_err(e)?;
        cl.execute_procedure(RevokeData { location: l(i), should_gc: true }).map_err(e)?;
    }
    for (i, (d, dead)) in &m.recs {
        cl.execute_procedure(WriteVault { data: d.clone(), location: l(*i) }).map_err(e)?;
        if *dead {
            cl.execute_procedure(RevokeData { location: l(*i), should_gc: false }).map_err(e)?;
        }
    }
    Ok(cl)
}
/// Whole chains (C17).
pub fn chains(c: &mut Ctx) -> R {
    let (cl, mut m) = (Client::default(), CM::default());
    for _ in 0..3 {
        let mut steps: Vec<Step> = vec![];
        let n = c.r.range(1, c.size.max(1));
        let spoil = c.r.bool().then(|| c.r.below(n));
        for i in 0..n {
            let st = match c.r.below(20) {
                0 | 1 => other_step(c),
                2 if c.r.one_in(4) => mnemonic_step(c),
                _ => step(c, spoil == Some(i)),
            };
            if !(spoil == Some(i) && c.r.bool()) {
                for (i, d) in &st.prep {
                    steps.push(write_step(*i, d.clone()));
                }
            }
            steps.push(st);
        }
        // the model of the whole chain. Random secrets stay unknown until the end, which is why a
        // chain does not read one: such a step is turned into one that writes
        let before = m.clone();
        let mut unknown: Vec<Id> = vec![];
        let mut wants: Vec<Want> = vec![];
        let mut written: Vec<Id> = vec![];
        let mut failed = None;
        for i in 0..steps.len() {
            if steps[i].srcs.iter().any(|s| unknown.contains(s)) {
                let d = c.r.data(20);
                let t = steps[i].target.unwrap_or(steps[i].srcs[0]);
                steps[i] = write_step(t, d);
            }
            let w = eval(&steps[i], &mut m);
            match &w {
                Want::Fail => {
                    failed = Some(i);
                    break;
                }
                Want::Det(_, Some((t, _))) => {
                    unknown.retain(|u| u != t);
                    written.push(*t);
                }
                Want::Random(t, _) | Want::Mnemonic(t, _, _) => {
                    unknown.retain(|u| u != t);
                    unknown.push(*t);
                    written.push(*t);
                    m.vaults.insert(t.0);
                    m.recs.insert(*t, (vec![], false));
                }
                Want::Nothing => unknown.retain(|u| m.recs.get(u).map_or(false, |x| !x.1)),
                _ => {}
            }
            wants.push(w);
        }
        c.note(format!(
            "chain {:?}, fails at {:?}",
            steps.iter().map(|s| format!("{} {:?}->{:?}", s.name, s.srcs, s.target)).collect::<Vec<_>>(),
            failed
        ));
        // the error of the failing step alone, in the state that it meets
        let got = cl.execute_procedure_chained(steps.iter().map(|s| s.p.clone()).collect());
        match failed {
            Some(f) => {
                ensure!(got.is_err(), "the chain succeeded, although step {} ({}) cannot", f, steps[f].name);
                for t in &written {
                    ensure!(read(&cl, &l(*t)).is_none(), "the secret at {:?} can be read after the chain failed", t);
                    if let Some(e) = m.recs.get_mut(t) {
                        e.1 = true;
                    }
                }
                for t in &unknown {
                    ensure!(m.recs.get(t).map_or(true, |e| e.1), "model");
                }
                resync_vaults(&cl, &mut m, steps[f].target);
                if c.r.one_in(3) {
                    // the same steps one by one
                    let two = copy_of(&before)?;
                    for s in &steps[..f] {
                        two.execute_procedure(s.p.clone()).map_err(|e| format!("{} alone failed: {}", s.name, e))?;
                    }
                    let e = two.execute_procedure(steps[f].p.clone());
                    let (e, g) = (e.map_err(|e| e.to_string()), got.map_err(|e| e.to_string()));
                    match (e, g) {
                        (Err(e), Err(g)) => ensure!(e == g, "the chain failed with {:?}, its step {} with {:?}", g, f, e),
                        (e, _) => return Err(format!("{} alone: {:?}", steps[f].name, e)),
                    }
                }
            }
            None => {
                let g = got.map_err(|e| format!("the chain failed: {}", e))?;
                ensure!(g.len() == steps.len(), "{} outputs for {} steps", g.len(), steps.len());
                // random secrets that were not overwritten
                let mut last: std::collections::BTreeMap<Id, usize> = Default::default();
                for (i, w) in wants.iter().enumerate() {
                    if let Want::Det(_, Some((t, _))) | Want::Random(t, _) | Want::Mnemonic(t, _, _) = w {
                        last.insert(*t, i);
                    }
                }
                for (i, (o, w)) in g.into_iter().zip(&wants).enumerate() {
                    let o: Vec<u8> = o.into();
                    match w {
                        Want::Det(e, _) => ensure!(o == *e, "output {} ({}) is {:?}, expected {:?}", i, steps[i].name, o, e),
                        Want::Random(t, n) if last[t] == i && unknown.contains(t) => {
                            ensure!(o.is_empty(), "output of {}", steps[i].name);
                            learn(&cl, &mut m, *t, *n, steps[i].name)?;
                        }
                        Want::Mnemonic(t, la, p) if last[t] == i && unknown.contains(t) => {
                            let s = learn(&cl, &mut m, *t, 64, steps[i].name)?;
                            check_mnemonic(&o, &s, la, p)?;
                        }
                        _ => {}
                    }
                }
            }
        }
        done(&cl, &m)?;
        // clean up some of the revoked records
        for v in 0..NV {
            if c.r.bool() {
                let s = Step { prep: vec![], p: GarbageCollect { vault_path: super::client::vpath(v).into_bytes() }.into(), srcs: vec![], target: None, kind: Kind::Gc(v), name: "GarbageCollect" };
                single(c, &cl, &mut m, s)?;
            }
        }
    }
    Ok(())
}
