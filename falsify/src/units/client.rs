use super::vault::read;
use crate::{clock::Frozen, ensure, Ctx, R};
use crypto::hashes::{
    blake2b::Blake2b256,
    sha::{Sha256, Sha384, Sha512},
    Digest,
};
use engine::vault::{ClientId, RecordId, VaultId};
use iota_stronghold::{
    derive_record_id, derive_record_id_from_counter, derive_vault_id,
    procedures::{GarbageCollect, RevokeData},
    Client, KeyProvider, LoadFromPath, Location, Snapshot, SnapshotPath, Stronghold,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};

// ------------------------------------------------------------------ locations (C15)

/// HMAC pads its key with zeros (and hashes keys longer than a block), so two record paths with the
/// same padded form give the same record. This is the known finding C15-record-path-padding.
fn hmac_key(p: &[u8]) -> [u8; 128] {
    let mut k = [0; 128];
    if p.len() > 128 {
        k[..64].copy_from_slice(&Sha512::digest(p));
    } else {
        k[..p.len()].copy_from_slice(p);
    }
    k
}

#[derive(Clone, PartialEq, Debug)]
enum L {
    G(Vec<u8>, Vec<u8>),
    C(Vec<u8>, usize),
}
impl L {
    fn loc(&self) -> Location {
        match self {
            L::G(v, r) => Location::generic(v.clone(), r.clone()),
            L::C(v, c) => Location::counter(v.clone(), *c),
        }
    }
    fn vault(&self) -> &Vec<u8> {
        match self {
            L::G(v, _) | L::C(v, _) => v,
        }
    }
}
fn same_record(a: &L, b: &L) -> bool {
    match (a, b) {
        (L::G(v, r), L::G(w, s)) => v == w && hmac_key(r) == hmac_key(s),
        _ => a == b,
    }
}
fn path(c: &mut Ctx) -> Vec<u8> {
    match c.r.below(12) {
        0 => vec![],
        1 => vec![0],
        2 => vec![b'a'; c.r.range(120, 136)],
        3 => {
            let n = c.r.below(200);
            c.r.bytes(n)
        }
        4 => {
            let n = c.r.below(5);
            (0..n).map(|_| *c.r.pick(&[0u8, 1, 255])).collect()
        }
        5 => b"first_record".to_vec(),
        6 => format!("{}", c.r.below(12)).into_bytes(),
        8 => {
            let n = (1usize << *c.r.pick(&[8, 9, 10, 12, 16])) - 1 + c.r.below(3);
            let b = c.r.byte();
            vec![b; n]
        }
        7 => format!("[{}, {}]{}", c.r.below(3), c.r.below(3), c.r.below(12)).into_bytes(),
        _ => format!("p{}", c.r.below(4)).into_bytes(),
    }
}
fn location(c: &mut Ctx) -> L {
    let v = path(c);
    if c.r.bool() {
        L::G(v, path(c))
    } else {
        let n = match c.r.below(5) {
            0 => 0,
            1 => 1,
            2 => usize::MAX - c.r.below(2),
            3 => c.r.u64() as usize,
            _ => c.r.below(120),
        };
        L::C(v, n)
    }
}
/// a location that is close to the given one
fn near(c: &mut Ctx, l: &L) -> L {
    let tweak = |c: &mut Ctx, p: &Vec<u8>| -> Vec<u8> {
        let mut p = p.clone();
        match c.r.below(5) {
            0 => {
                p.pop();
            }
            1 => p.push(c.r.byte()),
            2 if !p.is_empty() => {
                let i = c.r.below(p.len());
                p[i] ^= 1 << c.r.below(8);
            }
            3 if !p.is_empty() => {
                p.remove(0);
            }
            _ => p.insert(0, 0),
        }
        p
    };
    match l {
        L::G(v, r) => match c.r.below(4) {
            0 => L::G(tweak(c, v), r.clone()),
            1 => L::G(r.clone(), v.clone()),
            2 => {
                // move the border between the two paths
                let mut a = v.clone();
                let mut b = r.clone();
                if let Some(x) = a.pop() {
                    b.insert(0, x);
                }
                L::G(a, b)
            }
            _ => L::G(v.clone(), tweak(c, r)),
        },
        L::C(v, n) => match c.r.below(5) {
            0 => L::C(tweak(c, v), *n),
            1 => L::C(v.clone(), n.wrapping_add(1)),
            2 => L::C(v.clone(), n.wrapping_mul(10)),
            3 => L::C(v.clone(), n ^ (1 << c.r.below(64))),
            _ => L::G(v.clone(), if *n == 0 { b"first_record".to_vec() } else { n.to_string().into_bytes() }),
        },
    }
}

pub fn locations(c: &mut Ctx) -> R {
    let mut ls: Vec<L> = vec![location(c)];
    for _ in 0..c.size {
        let l = if c.r.bool() {
            location(c)
        } else {
            let b = c.r.pick(&ls).clone();
            near(c, &b)
        };
        ls.push(l);
    }
    let ids: Vec<(VaultId, RecordId)> = ls.iter().map(|l| l.loc().resolve()).collect();
    for (l, (v, r)) in ls.iter().zip(&ids) {
        c.note(format!("{:?}", l));
        let loc = l.loc();
        ensure!(loc.resolve() == (*v, *r), "resolving twice gives other identifiers");
        ensure!(loc.clone().resolve() == (*v, *r), "a clone resolves to other identifiers");
        ensure!(loc.vault_path() == &l.vault()[..], "vault_path differs");
        ensure!(derive_vault_id(l.vault()) == *v, "derive_vault_id differs from resolve");
        ensure!(Client::default().vault(l.vault()).id() == *v, "ClientVault::id differs from resolve");
        match l {
            L::G(p, q) => {
                ensure!(derive_record_id(p, q) == *r, "derive_record_id differs from resolve");
                ensure!(Location::const_generic(p.clone(), q.clone()).resolve() == (*v, *r), "const_generic resolves differently");
                ensure!(loc.record_path() == &q[..], "record_path differs");
            }
            L::C(p, n) => {
                ensure!(derive_record_id_from_counter(p, *n) == *r, "derive_record_id_from_counter differs from resolve");
                ensure!(Location::const_counter(p.clone(), *n).resolve() == (*v, *r), "const_counter resolves differently");
            }
        }
        let l2: Location = super::through(c, &loc)?;
        ensure!(l2.resolve() == (*v, *r), "a deserialized location resolves differently");
    }
    for i in 0..ls.len() {
        for j in 0..i {
            let (a, b) = (&ls[i], &ls[j]);
            ensure!((a.vault() == b.vault()) == (ids[i].0 == ids[j].0), "vaults of {:?} and {:?}: {:?} {:?}", a, b, ids[i].0, ids[j].0);
            if same_record(a, b) {
                if a == b {
                    ensure!(ids[i] == ids[j], "equal locations {:?} resolve differently", a);
                }
            } else {
                ensure!(ids[i].1 != ids[j].1, "{:?} and {:?} resolve to the same record", a, b);
            }
        }
    }
    Ok(())
}

/// The known finding itself: both members of it still hold?
pub fn known_c15() -> Option<String> {
    let a = Location::generic("vault", b"key".to_vec());
    let b = Location::generic("vault", b"key\0".to_vec());
    let long = vec![b'x'; 129];
    let c1 = Location::generic("vault", long.clone());
    let c2 = Location::generic("vault", Sha512::digest(&long).to_vec());
    if a.resolve() == b.resolve() || c1.resolve() == c2.resolve() {
        Some("record paths of one vault that are equal after HMAC key padding (b\"key\" and b\"key\\0\"; a path of 129 bytes and its SHA-512) resolve to the same record".into())
    } else {
        None
    }
}

pub fn location_isolation(c: &mut Ctx) -> R {
    let cl = Client::default();
    let mut ls: Vec<(L, Option<Vec<u8>>)> = vec![];
    while ls.len() < c.size.min(6) + 1 {
        let l = if ls.is_empty() || c.r.bool() {
            location(c)
        } else {
            let b = c.r.pick(&ls).0.clone();
            near(c, &b)
        };
        if !ls.iter().any(|(m, _)| same_record(m, &l)) {
            ls.push((l, None));
        }
    }
    for _ in 0..c.size {
        let i = c.r.below(ls.len());
        let n = c.r.below(40);
        let d = c.r.bytes(n);
        c.note(format!("write {:?}", ls[i].0));
        cl.vault(ls[i].0.vault()).write_secret(ls[i].0.loc(), d.clone()).map_err(|e| e.to_string())?;
        ls[i].1 = Some(d);
        for (l, d) in &ls {
            ensure!(read(&cl, &l.loc()) == *d, "{:?} reads {:?}, expected {:?}", l, read(&cl, &l.loc()), d);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ sessions (C19, C20)

/// What a client holds.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct CM {
    pub recs: BTreeMap<(usize, usize), (Vec<u8>, bool)>,
    pub vaults: BTreeSet<usize>,
    /// value, expiry
    pub store: BTreeMap<Vec<u8>, (Vec<u8>, Option<i64>)>,
}
pub const NV: usize = 3;
pub const NR: usize = 3;
pub fn vpath(v: usize) -> String {
    format!("vault{}", v)
}
pub fn rpath(r: usize) -> String {
    format!("r{}", r)
}
pub fn loc(v: usize, r: usize) -> Location {
    if r == 0 {
        Location::counter(vpath(v), 7usize)
    } else {
        Location::generic(vpath(v), rpath(r))
    }
}
pub fn rid(v: usize, r: usize) -> RecordId {
    loc(v, r).resolve().1
}
const SK: [&[u8]; 4] = [b"", b"a", b"b", b"c"];

pub fn verify(cl: &Client, m: &CM, now: i64) -> R {
    for v in 0..NV {
        let e = cl.vault_exists(vpath(v)).map_err(|e| e.to_string())?;
        ensure!(e == m.vaults.contains(&v), "vault_exists({}) = {}", v, e);
        for r in 0..NR {
            let e = m.recs.get(&(v, r)).filter(|x| !x.1).map(|x| x.0.clone());
            let g = if m.vaults.contains(&v) { read(cl, &loc(v, r)) } else { None };
            ensure!(g == e, "record {}/{} reads {:?}, expected {:?}", v, r, g, e);
            let x = cl.record_exists(&loc(v, r)).map_err(|e| e.to_string())?;
            ensure!(x == e.is_some(), "record_exists {}/{} = {}", v, r, x);
        }
    }
    let s = cl.store();
    for k in SK {
        let e = m.store.get(k).filter(|x| x.1.map_or(true, |t| now < t)).map(|x| x.0.clone());
        let g = s.get(k).map_err(|e| e.to_string())?;
        ensure!(g == e, "store key {:?} holds {:?}, expected {:?}", k, g, e);
    }
    for k in s.keys().map_err(|e| e.to_string())? {
        ensure!(m.store.contains_key(&k), "store lists {:?}, which was not inserted", k);
    }
    Ok(())
}

/// One random change of a client.
pub fn change(c: &mut Ctx, who: &str, cl: &Client, m: &mut CM, now: i64) -> R {
    let (v, r) = (c.r.below(NV), c.r.below(NR));
    match c.r.below(9) {
        0..=3 => {
            let n = if c.r.one_in(20) { 5000 } else { 40 };
            let d = c.r.data(n);
            c.note(format!("{} write {}/{} {}b", who, v, r, d.len()));
            let res = cl.vault(vpath(v)).write_secret(loc(v, r), d.clone());
            m.vaults.insert(v);
            match m.recs.get(&(v, r)) {
                Some((_, true)) => ensure!(res.is_err(), "a revoked record was written"),
                _ => {
                    res.map_err(|e| e.to_string())?;
                    m.recs.insert((v, r), (d, false));
                }
            }
        }
        4 => {
            let gc = c.r.bool();
            c.note(format!("{} revoke {}/{} gc={}", who, v, r, gc));
            cl.execute_procedure(RevokeData { location: loc(v, r), should_gc: gc }).map_err(|e| e.to_string())?;
            if let Some(e) = m.recs.get_mut(&(v, r)) {
                e.1 = true;
            }
            if gc {
                m.recs.retain(|k, e| k.0 != v || !e.1);
            }
        }
        5 => {
            c.note(format!("{} gc {}", who, v));
            cl.execute_procedure(GarbageCollect { vault_path: vpath(v).into_bytes() }).map_err(|e| e.to_string())?;
            m.recs.retain(|k, e| k.0 != v || !e.1);
        }
        6 | 7 => {
            let k = c.r.pick(&SK).to_vec();
            let d = c.r.data(20);
            let l = if c.r.one_in(3) { Some(c.r.range(0, 20) as i64) } else { None };
            c.note(format!("{} store insert {:?} life {:?}", who, k, l));
            let old = cl.store().insert(k.clone(), d.clone(), l.map(|s| Duration::from_secs(s as u64))).map_err(|e| e.to_string())?;
            let e = m.store.get(&k).filter(|x| x.1.map_or(true, |t| now < t)).map(|x| x.0.clone());
            ensure!(old == e, "store insert returned {:?}, expected {:?}", old, e);
            m.store.insert(k, (d, l.map(|s| now + s * 1_000_000_000)));
        }
        _ => {
            let k = c.r.pick(&SK).to_vec();
            c.note(format!("{} store delete {:?}", who, k));
            cl.store().delete(&k).map_err(|e| e.to_string())?;
            m.store.remove(&k);
        }
    }
    Ok(())
}

const T0: i64 = 1_600_000_000_000_000_000;
fn cpath(i: usize) -> String {
    format!("client{}", i)
}
pub fn cid(i: usize) -> ClientId {
    ClientId::load_from_path(cpath(i).as_bytes(), cpath(i).as_bytes())
}
struct H {
    cl: Client,
    m: CM,
    /// which client
    ix: usize,
}
struct S {
    sh: Stronghold,
    hs: Vec<H>,
    loaded: BTreeMap<usize, usize>,
    snap: BTreeMap<usize, CM>,
    keyloc: bool,
}
struct File {
    path: SnapshotPath,
    /// (key, content); None: no such file
    content: Option<(usize, BTreeMap<usize, CM>)>,
}
const NC: usize = 3;

fn provider(k: usize) -> KeyProvider {
    KeyProvider::try_from(vec![k as u8 + 1; 32]).unwrap()
}
fn check(s: &S, now: i64) -> R {
    for (i, h) in s.hs.iter().enumerate() {
        verify(&h.cl, &h.m, now).map_err(|e| format!("handle {} of client{}: {}", i, h.ix, e))?;
    }
    for i in 0..NC {
        match (s.sh.get_client(cpath(i)), s.loaded.get(&i)) {
            (Ok(cl), Some(h)) => {
                ensure!(*cl.id() == cid(i), "get_client(client{}) returns a client with another id", i);
                verify(&cl, &s.hs[*h].m, now).map_err(|e| format!("get_client(client{}): {}", i, e))?;
            }
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("client{} can be fetched but is not in the session", i)),
            (Err(e), Some(_)) => return Err(format!("client{} cannot be fetched: {}", i, e)),
        }
    }
    Ok(())
}
/// reopens a file and compares it with the model
fn check_file(f: &File, now: i64) -> R {
    let Some((k, m)) = &f.content else { return Ok(()) };
    let sn = Snapshot::read_from_snapshot(&f.path, [*k as u8 + 1; 32], None).map_err(|e| format!("reading the snapshot: {}", e))?;
    for i in 0..NC {
        ensure!(sn.has_data(cid(i)) == m.contains_key(&i), "client{} in the snapshot: {}", i, sn.has_data(cid(i)));
        if let Some(cm) = m.get(&i) {
            let (keys, db, _) = sn.get_state(cid(i)).map_err(|e| e.to_string())?;
            let mut vs: Vec<VaultId> = db.list_vaults();
            vs.sort();
            let mut e: Vec<VaultId> = cm.vaults.iter().map(|v| derive_vault_id(vpath(*v))).collect();
            e.sort();
            ensure!(vs == e, "client{} has vaults {:?} in the snapshot, expected {:?}", i, vs, e);
            ensure!(keys.len() == e.len() && e.iter().all(|v| keys.contains_key(v)), "client{} has other vault keys in the snapshot", i);
            for v in &cm.vaults {
                let mut l = db.list_records(&derive_vault_id(vpath(*v)));
                l.sort();
                let mut e: Vec<RecordId> = cm.recs.keys().filter(|k| k.0 == *v).map(|k| rid(k.0, k.1)).collect();
                e.sort();
                ensure!(l == e, "client{} vault{} has records {:?} in the snapshot, expected {:?}", i, v, l, e);
            }
        }
    }
    // a new session
    let sh = Stronghold::default();
    sh.load_snapshot(&provider(*k), &f.path).map_err(|e| format!("load_snapshot: {}", e))?;
    for i in 0..NC {
        match (sh.load_client(cpath(i)), m.get(&i)) {
            (Ok(cl), Some(cm)) => {
                ensure!(*cl.id() == cid(i), "loaded client has another id");
                verify(&cl, cm, now).map_err(|e| format!("client{} in a new session: {}", i, e))?
            }
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("client{} can be loaded but was not committed", i)),
            (Err(e), Some(_)) => return Err(format!("client{} cannot be loaded: {}", i, e)),
        }
    }
    // and once more, each from the file directly
    for (i, cm) in m {
        let sh = Stronghold::default();
        let cl = sh.load_client_from_snapshot(cpath(*i), &provider(*k), &f.path).map_err(|e| format!("load_client_from_snapshot: {}", e))?;
        verify(&cl, cm, now).map_err(|e| format!("client{} from the file: {}", i, e))?;
    }
    Ok(())
}
fn op(c: &mut Ctx, s: &mut S, files: &mut Vec<File>, now: i64) -> R {
    let i = c.r.below(NC);
    let who = cpath(i);
    match c.r.below(22) {
        0 | 1 => {
            if s.hs.len() < 6 {
                c.note(format!("create {}", who));
                let cl = s.sh.create_client(&who).map_err(|e| e.to_string())?;
                s.hs.push(H { cl, m: CM::default(), ix: i });
                s.loaded.insert(i, s.hs.len() - 1);
            }
        }
        2..=9 => {
            if !s.hs.is_empty() {
                let h = c.r.below(s.hs.len());
                let n = format!("h{}(client{})", h, s.hs[h].ix);
                let cl = s.hs[h].cl.clone();
                change(c, &n, &cl, &mut s.hs[h].m, now)?;
            }
        }
        10 | 11 => {
            c.note(format!("write_client {}", who));
            let res = s.sh.write_client(&who);
            ensure!(res.is_ok() == s.loaded.contains_key(&i), "write_client({}): {:?}", who, res.is_ok());
            if let Some(h) = s.loaded.get(&i) {
                s.snap.insert(i, s.hs[*h].m.clone());
            }
        }
        12 | 13 => {
            c.note(format!("load {}", who));
            let res = s.sh.load_client(&who);
            let ok = !s.loaded.contains_key(&i) && s.snap.contains_key(&i);
            ensure!(res.is_ok() == ok, "load_client({}) ok={}, expected {}", who, res.is_ok(), ok);
            if let Ok(cl) = res {
                s.hs.push(H { cl, m: s.snap[&i].clone(), ix: i });
                s.loaded.insert(i, s.hs.len() - 1);
            }
        }
        14 | 15 => {
            if !s.hs.is_empty() {
                let h = c.r.below(s.hs.len());
                let ix = s.hs[h].ix;
                c.note(format!("unload client{}", ix));
                let res = s.sh.unload_client(s.hs[h].cl.clone());
                ensure!(res.is_ok() == s.loaded.contains_key(&ix), "unload_client ok={}", res.is_ok());
                if let Ok(cl) = res {
                    verify(&cl, &s.hs[s.loaded[&ix]].m, now).map_err(|e| format!("unloaded client: {}", e))?;
                }
                s.loaded.remove(&ix);
            }
        }
        16 => {
            if !s.hs.is_empty() {
                let h = c.r.below(s.hs.len());
                let ix = s.hs[h].ix;
                c.note(format!("purge client{}", ix));
                s.sh.purge_client(s.hs[h].cl.clone()).map_err(|e| e.to_string())?;
                s.loaded.remove(&ix);
                s.snap.remove(&ix);
            }
        }
        17 if c.r.one_in(3) => {
            c.note("clear");
            s.sh.clear().map_err(|e| e.to_string())?;
            for (_, h) in std::mem::take(&mut s.loaded) {
                s.hs[h].m = CM::default();
            }
            s.snap.clear();
            s.keyloc = false;
        }
        18 | 19 => {
            let (f, k) = (c.r.below(files.len()), c.r.below(3));
            let stored = c.r.one_in(3);
            c.note(format!("commit to file {} with key {} stored={}", f, k, stored));
            if stored {
                s.sh
                    .store_snapshot_key_at_location(provider(k), Location::generic("keys", format!("k{}", k)))
                    .map_err(|e| e.to_string())?;
                s.keyloc = true;
                s.sh.commit(&files[f].path).map_err(|e| format!("commit: {}", e))?;
            } else {
                s.sh.commit_with_keyprovider(&files[f].path, &provider(k)).map_err(|e| format!("commit: {}", e))?;
            }
            for (i, h) in &s.loaded {
                s.snap.insert(*i, s.hs[*h].m.clone());
            }
            files[f].content = Some((k, s.snap.clone()));
            check_file(&files[f], now)?;
        }
        20 => {
            let (f, k) = (c.r.below(files.len()), c.r.below(3));
            let ok = files[f].content.as_ref().map_or(false, |x| x.0 == k);
            c.note(format!("load_snapshot file {} key {} (right: {})", f, k, ok));
            let res = s.sh.load_snapshot(&provider(k), &files[f].path);
            ensure!(res.is_ok() == ok, "load_snapshot ok={}, expected {}", res.is_ok(), ok);
            if ok {
                s.snap = files[f].content.as_ref().unwrap().1.clone();
                s.keyloc = false;
            }
        }
        _ => {
            let (f, k) = (c.r.below(files.len()), c.r.below(3));
            let right = files[f].content.as_ref().map_or(false, |x| x.0 == k);
            let ok = right && !s.loaded.contains_key(&i);
            c.note(format!("load {} from file {} key {} (right: {})", who, f, k, right));
            let res = s.sh.load_client_from_snapshot(&who, &provider(k), &files[f].path);
            ensure!(!res.is_ok() || ok, "load_client_from_snapshot succeeded with a wrong key, no file, or a loaded client");
            if ok {
                let m = &files[f].content.as_ref().unwrap().1;
                match res {
                    Ok(cl) => {
                        // a client that the file does not hold is loaded empty
                        s.hs.push(H { cl, m: m.get(&i).cloned().unwrap_or_default(), ix: i });
                        s.loaded.insert(i, s.hs.len() - 1);
                        s.snap = m.clone();
                        s.keyloc = false;
                    }
                    Err(e) => {
                        ensure!(!m.contains_key(&i), "load_client_from_snapshot: {}", e);
                    }
                }
            }
        }
    }
    Ok(())
}

fn session(c: &mut Ctx, steps: usize) -> R {
    let clock = Frozen::at(T0);
    let d = c.fresh_dir();
    let mut files: Vec<File> = (0..2).map(|i| File { path: SnapshotPath::from_path(d.join(format!("s{}", i))), content: None }).collect();
    let mut s = S { sh: Stronghold::default(), hs: vec![], loaded: BTreeMap::new(), snap: BTreeMap::new(), keyloc: false };
    let res = (|| {
        for _ in 0..steps {
            if c.r.one_in(6) {
                let n = c.r.range(1, 9) as i64;
                c.note(format!("+{}s", n));
                clock.advance(n * 1_000_000_000);
            }
            op(c, &mut s, &mut files, clock.now())?;
            check(&s, clock.now())?;
        }
        for f in &files {
            check_file(f, clock.now())?;
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    res
}
pub fn sessions(c: &mut Ctx) -> R {
    let n = c.size;
    session(c, n)
}

pub fn session_errors(c: &mut Ctx) -> R {
    let sh = Stronghold::default();
    ensure!(sh.get_client("nobody").is_err(), "an unknown client was fetched");
    ensure!(sh.load_client("nobody").is_err(), "an unknown client was loaded");
    ensure!(sh.write_client("nobody").is_err(), "an unknown client was written");
    let other = Client::default();
    ensure!(sh.unload_client(other.clone()).is_err(), "an unknown client was unloaded");
    let cl = sh.create_client("a").map_err(|e| e.to_string())?;
    let mut m = CM::default();
    for _ in 0..c.size {
        change(c, "a", &cl, &mut m, i64::MIN / 2)?;
    }
    // lifetimes are not used here: time does not stand still
    m.store.retain(|_, v| v.1.is_none());
    let live: Vec<Vec<u8>> = cl.store().keys().map_err(|e| e.to_string())?;
    for k in live {
        if !m.store.contains_key(&k) {
            cl.store().delete(&k).map_err(|e| e.to_string())?;
        }
    }
    sh.write_client("a").map_err(|e| e.to_string())?;
    ensure!(sh.load_client("a").is_err(), "a client was loaded twice");
    verify(&cl, &m, 0)?;
    ensure!(sh.load_client("b").is_err(), "a client that the snapshot does not hold was loaded");
    let x = sh.unload_client(cl.clone()).map_err(|e| e.to_string())?;
    ensure!(sh.unload_client(x.clone()).is_err(), "a client was unloaded twice");
    ensure!(sh.get_client("a").is_err(), "an unloaded client was fetched");
    let y = sh.load_client("a").map_err(|e| e.to_string())?;
    verify(&y, &m, 0)?;
    sh.purge_client(y).map_err(|e| e.to_string())?;
    ensure!(sh.get_client("a").is_err() && sh.load_client("a").is_err(), "a purged client is still there");
    Ok(())
}

pub fn commit_reload(c: &mut Ctx) -> R {
    let n = c.size;
    session(c, n)?;
    // a purposeful one: clients in every role at commit time
    let clock = Frozen::at(T0);
    let d = c.fresh_dir();
    let mut f = File { path: SnapshotPath::from_path(d.join("sub").join("s")), content: None };
    let res = (|| {
        let sh = Stronghold::default();
        let mut m: BTreeMap<usize, CM> = BTreeMap::new();
        for i in 0..NC {
            if c.r.one_in(4) {
                continue;
            }
            let cl = sh.create_client(cpath(i)).map_err(|e| e.to_string())?;
            let mut cm = CM::default();
            for _ in 0..c.r.below(n + 2) {
                change(c, &cpath(i), &cl, &mut cm, clock.now())?;
            }
            match c.r.below(4) {
                0 => {
                    // written, changed afterwards, unloaded: the written state counts
                    sh.write_client(cpath(i)).map_err(|e| e.to_string())?;
                    m.insert(i, cm.clone());
                    for _ in 0..3 {
                        change(c, &cpath(i), &cl, &mut cm, clock.now())?;
                    }
                    c.note(format!("unload {}", i));
                    sh.unload_client(cl).map_err(|e| e.to_string())?;
                }
                1 => {
                    c.note(format!("unload {} unwritten", i));
                    sh.unload_client(cl).map_err(|e| e.to_string())?;
                }
                2 => {
                    sh.write_client(cpath(i)).map_err(|e| e.to_string())?;
                    for _ in 0..3 {
                        change(c, &cpath(i), &cl, &mut cm, clock.now())?;
                    }
                    m.insert(i, cm);
                }
                _ => {
                    m.insert(i, cm);
                }
            }
        }
        c.note("commit");
        sh.commit_with_keyprovider(&f.path, &provider(0)).map_err(|e| format!("commit: {}", e))?;
        f.content = Some((0, m));
        check_file(&f, clock.now())?;
        clock.advance(c.r.range(0, 25) as i64 * 1_000_000_000);
        check_file(&f, clock.now())
    })();
    let _ = std::fs::remove_dir_all(&d);
    res
}

pub fn commit_errors(c: &mut Ctx) -> R {
    let clock = Frozen::at(T0);
    let d = c.fresh_dir();
    let res = (|| {
        let sh = Stronghold::default();
        let cl = sh.create_client("client0").map_err(|e| e.to_string())?;
        let mut m = CM::default();
        for _ in 0..c.size + 2 {
            change(c, "client0", &cl, &mut m, clock.now())?;
        }
        let p = SnapshotPath::from_path(d.join("s"));
        sh.commit_with_keyprovider(&p, &provider(0)).map_err(|e| e.to_string())?;
        let bytes = std::fs::read(d.join("s")).map_err(|e| e.to_string())?;
        let fail = |c: &mut Ctx, what: String, p: &SnapshotPath, k: usize| -> R {
            c.note(what.clone());
            ensure!(sh.load_snapshot(&provider(k), p).is_err(), "load_snapshot succeeds: {}", what);
            ensure!(sh.load_client_from_snapshot("client0", &provider(k), p).is_err(), "load_client_from_snapshot succeeds: {}", what);
            ensure!(sh.load_client_from_snapshot("client1", &provider(k), p).is_err(), "load_client_from_snapshot of another client succeeds: {}", what);
            let g = sh.get_client("client0").map_err(|e| format!("after {}: {}", what, e))?;
            verify(&g, &m, clock.now()).map_err(|e| format!("after {}: {}", what, e))?;
            verify(&cl, &m, clock.now())?;
            // the in-memory snapshot still serves the client
            sh.unload_client(cl.clone()).map_err(|e| e.to_string())?;
            let l = sh.load_client("client0").map_err(|e| format!("load_client after {}: {}", what, e))?;
            verify(&l, &m, clock.now()).map_err(|e| format!("reloaded after {}: {}", what, e))?;
            let fresh = Stronghold::default();
            ensure!(fresh.load_client_from_snapshot("client0", &provider(k), p).is_err(), "a new session loads: {}", what);
            ensure!(fresh.get_client("client0").is_err(), "a failed load left a client behind");
            Ok(())
        };
        fail(c, "missing file".into(), &SnapshotPath::from_path(d.join("nothing")), 0)?;
        fail(c, "other key".into(), &p, 1)?;
        let q = SnapshotPath::from_path(d.join("t"));
        for _ in 0..3 {
            let mut b = bytes.clone();
            let i = c.r.below(b.len());
            b[i] ^= 1 << c.r.below(8);
            std::fs::write(d.join("t"), &b).map_err(|e| e.to_string())?;
            fail(c, format!("bit of byte {} changed", i), &q, 0)?;
        }
        let n = c.r.below(bytes.len());
        std::fs::write(d.join("t"), &bytes[..n]).map_err(|e| e.to_string())?;
        fail(c, format!("cut to {}", n), &q, 0)?;
        let fresh = Stronghold::default();
        fresh.create_client("x").map_err(|e| e.to_string())?;
        ensure!(fresh.commit(&p).is_err(), "commit without a stored key succeeds");
        ensure!(std::fs::read(d.join("s")).map_err(|e| e.to_string())? == bytes, "a refused commit changed the file");
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    res
}

// ------------------------------------------------------------------ key provider (C22)

fn yields(c: &mut Ctx, kp: &KeyProvider, want: &[u8]) -> R {
    for i in 0..c.r.range(1, 4) {
        let b = kp.try_unlock().map_err(|e| format!("unlock: {:?}", e))?;
        ensure!(&*b.borrow() == want, "unlock {} gives {:?}, expected {:?}", i, &*b.borrow(), want);
    }
    Ok(())
}
pub fn key_provider(c: &mut Ctx) -> R {
    let n = match c.r.below(6) {
        0 => 32,
        1 => c.r.range(30, 34),
        2 => 0,
        3 => 64,
        _ => c.r.below(c.size * 4 + 1),
    };
    let p = if c.r.one_in(4) { vec![c.r.byte() & 1; n] } else { c.r.bytes(n) };
    match c.r.below(5) {
        0 => {
            c.note(format!("key of {} bytes", n));
            match KeyProvider::try_from(p.clone()) {
                Ok(kp) => {
                    ensure!(n == 32, "a key of {} bytes is accepted", n);
                    yields(c, &kp, &p)?;
                }
                Err(_) => ensure!(n != 32, "a key of 32 bytes is refused"),
            }
        }
        1 => {
            c.note(format!("truncated, {} bytes", n));
            let mut want = [0u8; 32];
            for i in 0..n.min(32) {
                want[i] = p[i];
            }
            let kp = KeyProvider::with_passphrase_truncated(p).map_err(|e| e.to_string())?;
            yields(c, &kp, &want)?;
        }
        2 => {
            c.note(format!("blake2b, {} bytes", n));
            let want = Blake2b256::digest(&p).to_vec();
            let kp = KeyProvider::with_passphrase_hashed_blake2b(p).map_err(|e| e.to_string())?;
            yields(c, &kp, &want)?;
        }
        3 => {
            c.note(format!("sha256, {} bytes", n));
            // a digest that has already been fed
            let pre = c.r.below(20);
            let pre = c.r.bytes(pre);
            let mut d = Sha256::new();
            d.update(&pre);
            let mut e = d.clone();
            e.update(&p);
            let want = e.finalize().to_vec();
            let kp = KeyProvider::with_passphrase_hashed(p, d).map_err(|e| e.to_string())?;
            yields(c, &kp, &want)?;
        }
        _ => {
            c.note(format!("long digests, {} bytes", n));
            ensure!(KeyProvider::with_passphrase_hashed(p.clone(), Sha384::new()).is_err(), "a 48-byte digest is accepted");
            ensure!(KeyProvider::with_passphrase_hashed(p, Sha512::new()).is_err(), "a 64-byte digest is accepted");
        }
    }
    Ok(())
}
pub fn key_provider_argon(c: &mut Ctx) -> R {
    let (n, s) = (c.r.below(40), c.r.range(8, 24));
    let (p, s) = (c.r.bytes(n), c.r.bytes(s));
    c.note(format!("argon2 {} {}", p.len(), s.len()));
    let want = argon2::hash_raw(&p, &s, &argon2::Config::default()).map_err(|e| e.to_string())?;
    let kp = KeyProvider::with_passphrase_hashed_argon2(p.clone(), s).map_err(|e| e.to_string())?;
    yields(c, &kp, &want)?;
    ensure!(KeyProvider::with_passphrase_hashed_argon2(p, vec![1; 4]).is_err(), "a salt of 4 bytes is accepted");
    Ok(())
}
