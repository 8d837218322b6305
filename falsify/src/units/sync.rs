use super::client::{change, cid, loc, rid, rpath, verify, vpath, CM, NR, NV};
use crate::{clock::Frozen, ensure, Ctx, R};
use crypto::keys::x25519;
use engine::vault::{ClientId, DbView, Key, RecordHint, RecordId, VaultId};
use iota_stronghold::{
    derive_vault_id,
    sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig},
    Client, ClientState, KeyProvider, Location, Provider, Snapshot, SnapshotPath, Stronghold,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const T0: i64 = 1_600_000_000_000_000_000;
type Loc = (VaultId, RecordId);
/// The records of a client: the data, or None when revoked.
#[derive(Clone, Default, PartialEq, Debug)]
struct D {
    vaults: BTreeSet<VaultId>,
    recs: BTreeMap<Loc, Option<Vec<u8>>>,
}

fn dump(state: &ClientState) -> Result<D, String> {
    let (keys, db, _) = state;
    let mut d = D::default();
    for vid in db.list_vaults() {
        d.vaults.insert(vid);
        let k = keys.get(&vid).ok_or_else(|| format!("no key for vault {:?}", vid))?;
        for r in db.list_records(&vid) {
            let mut v = None;
            let res = db.get_guard::<std::convert::Infallible, _>(k, vid, r, |g| {
                v = Some(g.borrow().to_vec());
                Ok(())
            });
            if res.is_ok() {
                ensure!(db.contains_record(vid, r), "contains_record is false for a readable record");
            } else {
                ensure!(!db.contains_record(vid, r), "record {:?} exists but cannot be read", r);
                v = None;
            }
            d.recs.insert((vid, r), v);
        }
    }
    Ok(d)
}
#[derive(Clone, Debug, Default)]
struct Cfg {
    replace: bool,
    vaults: Option<Vec<VaultId>>,
    recs: BTreeMap<VaultId, Vec<RecordId>>,
    map: BTreeMap<VaultId, VaultId>,
}
/// Everything that the target may look like: (all acceptable data per record, allowed new vaults)
struct Exp {
    must: BTreeMap<Loc, Vec<Option<Vec<u8>>>>,
    old_vaults: BTreeSet<VaultId>,
    may_vaults: BTreeSet<VaultId>,
}
fn expect(src: &D, dst: &D, c: &Cfg) -> Exp {
    let mut e = Exp { must: BTreeMap::new(), old_vaults: dst.vaults.clone(), may_vaults: dst.vaults.clone() };
    for (l, d) in &dst.recs {
        e.must.insert(*l, vec![d.clone()]);
    }
    let mut from_source: BTreeMap<Loc, Vec<Option<Vec<u8>>>> = BTreeMap::new();
    for v in &src.vaults {
        if c.vaults.as_ref().map_or(true, |s| s.contains(v)) {
            e.may_vaults.insert(*c.map.get(v).unwrap_or(v));
        }
    }
    for ((v, r), d) in &src.recs {
        if d.is_none() || !c.vaults.as_ref().map_or(true, |s| s.contains(v)) || !c.recs.get(v).map_or(true, |s| s.contains(r)) {
            continue;
        }
        let t = (*c.map.get(v).unwrap_or(v), *r);
        let there = matches!(dst.recs.get(&t), Some(Some(_)));
        if there && !c.replace {
            continue;
        }
        // two records of the source may be sent to one place: either of them is accepted
        from_source.entry(t).or_default().push(d.clone());
    }
    e.must.extend(from_source);
    e
}
fn compare(got: &D, e: &Exp) -> R {
    for (l, g) in &got.recs {
        let w = e.must.get(l).ok_or_else(|| format!("the target has the record {:?}, which was not selected", l))?;
        ensure!(w.contains(g), "the target holds {:?} at {:?}, expected {:?}", g, l, w);
    }
    for l in e.must.keys() {
        ensure!(got.recs.contains_key(l), "the target misses the record {:?}", l);
    }
    ensure!(e.old_vaults.is_subset(&got.vaults) && got.vaults.is_subset(&e.may_vaults), "the target has the vaults {:?}", got.vaults);
    Ok(())
}

// ------------------------------------------------------------- clients

/// The ids behind a client model.
fn of_cm(m: &CM, extra: &BTreeMap<Loc, Vec<u8>>) -> D {
    let mut d = D::default();
    for v in &m.vaults {
        d.vaults.insert(derive_vault_id(vpath(*v)));
    }
    for ((v, r), (x, dead)) in &m.recs {
        d.recs.insert((derive_vault_id(vpath(*v)), rid(*v, *r)), if *dead { None } else { Some(x.clone()) });
    }
    for (l, x) in extra {
        d.recs.insert(*l, Some(x.clone()));
    }
    d
}
/// and back
fn to_cm(d: &D, m: &mut CM, extra: &mut BTreeMap<Loc, Vec<u8>>) {
    m.recs.clear();
    m.vaults.clear();
    extra.clear();
    let mut back: BTreeMap<Loc, (usize, usize)> = BTreeMap::new();
    for v in 0..NV {
        if d.vaults.contains(&derive_vault_id(vpath(v))) {
            m.vaults.insert(v);
        }
        for r in 0..NR {
            back.insert((derive_vault_id(vpath(v)), rid(v, r)), (v, r));
        }
    }
    for (l, x) in &d.recs {
        match back.get(l) {
            Some(i) => {
                m.recs.insert(*i, (x.clone().unwrap_or_default(), x.is_none()));
            }
            None => {
                extra.insert(*l, x.clone().unwrap_or_default());
            }
        }
    }
}
/// a configuration over vault paths, and the same in ids
fn config(c: &mut Ctx) -> (SyncClientsConfig, Cfg) {
    let replace = c.r.bool();
    let mut k = SyncClientsConfig::new(if replace { MergePolicy::Replace } else { MergePolicy::KeepOld });
    let mut f = Cfg { replace, ..Default::default() };
    if c.r.one_in(3) {
        let vs: Vec<usize> = (0..NV + 1).filter(|_| c.r.bool()).collect();
        k.sync_selected_vaults(vs.iter().map(|v| vpath(*v)).collect::<Vec<_>>());
        f.vaults = Some(vs.iter().map(|v| derive_vault_id(vpath(*v))).collect());
    }
    for v in 0..NV {
        if c.r.one_in(3) {
            let rs: Vec<usize> = (1..NR + 1).filter(|_| c.r.bool()).collect();
            k.sync_selected_record(vpath(v), rs.iter().map(|r| rpath(*r)).collect::<Vec<_>>());
            f.recs.insert(derive_vault_id(vpath(v)), rs.iter().map(|r| rid(v, *r)).collect());
        }
    }
    if c.r.one_in(3) {
        let mut m: HashMap<String, String> = HashMap::new();
        for _ in 0..c.r.range(1, 2) {
            m.insert(vpath(c.r.below(NV)), vpath(c.r.below(NV + 1)));
        }
        for (a, b) in &m {
            f.map.insert(derive_vault_id(a), derive_vault_id(b));
        }
        k.map_vaults(m);
    }
    (k, f)
}
struct Side {
    cl: Client,
    m: CM,
    extra: BTreeMap<Loc, Vec<u8>>,
    more: BTreeSet<VaultId>,
}
struct World {
    sh: Stronghold,
    path: SnapshotPath,
    sides: Vec<Side>,
    dir: std::path::PathBuf,
}
fn world(c: &mut Ctx, n: usize) -> Result<World, String> {
    let sh = Stronghold::default();
    let mut sides = vec![];
    for i in 0..n {
        let cl = sh.create_client(format!("client{}", i)).map_err(|e| e.to_string())?;
        sides.push(Side { cl, m: CM::default(), extra: BTreeMap::new(), more: BTreeSet::new() });
    }
    let dir = c.fresh_dir();
    let path = SnapshotPath::from_path(dir.join("s"));
    Ok(World { sh, path, sides, dir })
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// everything that the clients hold, as a snapshot would keep it
fn states(w: &World) -> Result<Vec<D>, String> {
    let key = [9u8; 32];
    let kp = KeyProvider::try_from(key.to_vec()).map_err(|e| format!("{:?}", e))?;
    w.sh.commit_with_keyprovider(&w.path, &kp).map_err(|e| e.to_string())?;
    let s = Snapshot::read_from_snapshot(&w.path, key, None).map_err(|e| e.to_string())?;
    (0..w.sides.len()).map(|i| s.get_state(cid(i)).map_err(|e| e.to_string()).and_then(|s| dump(&s))).collect()
}
fn sync_step(c: &mut Ctx, w: &mut World, a: usize, b: usize) -> R {
    let before: Vec<D> = w.sides.iter().map(|s| { let mut d = of_cm(&s.m, &s.extra); d.vaults.extend(&s.more); d }).collect();
    let f = if a == b {
        // within one client
        let (v, t) = (c.r.below(NV), c.r.below(NV));
        let sel: Option<Vec<usize>> = c.r.bool().then(|| (0..NR).filter(|_| c.r.bool()).collect());
        let replace = c.r.bool();
        c.note(format!("sync_vaults client{} {} -> {} select {:?} replace {}", a, v, t, sel, replace));
        let ids: Option<Vec<RecordId>> = sel.map(|s| s.iter().map(|r| rid(v, *r)).collect());
        let p = if replace { MergePolicy::Replace } else { MergePolicy::KeepOld };
        w.sides[a].cl.sync_vaults(vpath(v).into_bytes(), vpath(t).into_bytes(), ids.clone(), p).map_err(|e| format!("sync_vaults: {}", e))?;
        let (vi, ti) = (derive_vault_id(vpath(v)), derive_vault_id(vpath(t)));
        Cfg { replace, vaults: Some(vec![vi]), recs: ids.map(|i| [(vi, i)].into()).unwrap_or_default(), map: [(vi, ti)].into() }
    } else {
        let (k, f) = config(c);
        c.note(format!("client{} sync_with client{} {:?}", b, a, f));
        w.sides[b].cl.sync_with(&w.sides[a].cl, k).map_err(|e| format!("sync_with: {}", e))?;
        f
    };
    let e = expect(&before[a], &before[b], &f);
    let now = states(w)?;
    for (i, d) in now.iter().enumerate() {
        if i == b {
            compare(d, &e).map_err(|x| format!("client{} after the sync: {}", i, x))?;
        } else {
            ensure!(*d == before[i], "client{} changed, although it is not the target", i);
        }
    }
    let s = &mut w.sides[b];
    to_cm(&now[b], &mut s.m, &mut s.extra);
    s.more = now[b].vaults.clone();
    Ok(())
}
fn run(c: &mut Ctx, w: &mut World, within: usize) -> R {
    let n = w.sides.len();
    for _ in 0..c.size {
        if c.r.one_in(3) {
            let a = c.r.below(n);
            let b = if c.r.one_in(within) { a } else { c.r.below(n) };
            sync_step(c, w, a, b)?;
        } else if c.r.one_in(6) {
            // what is synchronised a second time has changed in between, some of it to data of the same length
            let a = c.r.below(n);
            let b = if c.r.one_in(within) { a } else { c.r.below(n) };
            sync_step(c, w, a, b)?;
            let live: Vec<((usize, usize), usize)> = w.sides[a].m.recs.iter().filter(|(_, e)| !e.1).map(|(k, e)| (*k, e.0.len())).collect();
            for ((v, r), len) in live {
                if c.r.bool() {
                    let n = if c.r.one_in(3) { c.r.below(40) } else { len };
                    let d = c.r.bytes(n);
                    c.note(format!("client{} overwrite {}/{} {}b (was {}b)", a, v, r, n, len));
                    w.sides[a].cl.vault(vpath(v)).write_secret(loc(v, r), d.clone()).map_err(|e| e.to_string())?;
                    w.sides[a].m.recs.insert((v, r), (d, false));
                }
            }
            sync_step(c, w, a, b)?;
        } else {
            let i = c.r.below(n);
            let s = &mut w.sides[i];
            // a foreign record of a vault stays when the vault's revoked records are collected
            change(c, &format!("client{}", i), &s.cl, &mut s.m, T0)?;
        }
        for (i, s) in w.sides.iter().enumerate() {
            verify(&s.cl, &s.m, T0).map_err(|e| format!("client{}: {}", i, e))?;
        }
    }
    let _ = loc;
    Ok(())
}
pub fn clients(c: &mut Ctx) -> R {
    let _t = Frozen::at(T0);
    let mut w = world(c, 2)?;
    run(c, &mut w, 6)
}
pub fn vaults(c: &mut Ctx) -> R {
    let _t = Frozen::at(T0);
    let mut w = world(c, 1)?;
    run(c, &mut w, 1)
}

// ------------------------------------------------------------- snapshots

fn vid(i: usize) -> VaultId {
    derive_vault_id(vpath(i))
}
fn fill(c: &mut Ctx, s: &mut Snapshot, who: usize, m: &mut BTreeMap<usize, D>) -> R {
    let mut keys: HashMap<VaultId, Key<Provider>> = HashMap::new();
    let mut db = DbView::<Provider>::new();
    let mut d = D::default();
    for v in 0..NV {
        if c.r.one_in(3) {
            continue;
        }
        let k = Key::<Provider>::random();
        db.init_vault(&k, vid(v));
        d.vaults.insert(vid(v));
        for a in 0..NV {
            for r in 0..NR {
                // mostly the vault's own records, sometimes one that was mapped there
                if c.r.one_in(if a == v { 2 } else { 8 }) {
                    let x = c.r.data(60);
                    let id = rid(a, r);
                    db.write(&k, vid(v), id, &x, RecordHint::new(b"h").unwrap()).map_err(|e| e.to_string())?;
                    let mut e = Some(x);
                    if c.r.one_in(6) {
                        db.revoke_record(&k, vid(v), id).map_err(|e| e.to_string())?;
                        e = None;
                    }
                    d.recs.insert((vid(v), id), e);
                }
            }
        }
        keys.insert(vid(v), k);
    }
    c.note(format!("client{}: {:?}", who, d.recs.iter().map(|(l, x)| (l.0, l.1, x.as_ref().map(|x| x.len()))).collect::<Vec<_>>()));
    let mut cache = engine::store::Cache::new();
    cache.insert(b"k".to_vec(), vec![who as u8], None);
    s.add_data(cid(who), (keys, db, cache)).map_err(|e| e.to_string())?;
    m.insert(who, d);
    Ok(())
}
fn all(s: &Snapshot, n: usize) -> Result<BTreeMap<usize, D>, String> {
    let mut o = BTreeMap::new();
    for i in 0..n {
        if s.has_data(cid(i)) {
            o.insert(i, dump(&s.get_state(cid(i)).map_err(|e| e.to_string())?)?);
        }
    }
    Ok(o)
}
pub fn snapshots(c: &mut Ctx) -> R {
    let _t = Frozen::at(T0);
    const N: usize = 4;
    let (mut a, mut b) = (Snapshot::default(), Snapshot::default());
    let (mut ma, mut mb) = (BTreeMap::new(), BTreeMap::new());
    for i in 0..3 {
        if c.r.bool() {
            c.note("source");
            fill(c, &mut a, i, &mut ma)?;
        }
        if c.r.bool() {
            c.note("target");
            fill(c, &mut b, i, &mut mb)?;
        }
    }
    let stores: Vec<usize> = mb.keys().copied().collect();
    let sk = x25519::SecretKey::try_from_slice(&c.r.bytes(32)).map_err(|e| e.to_string())?;
    let skloc = Location::generic("secret vault", "secret record");
    let pk = sk.public_key();
    b.store_secret_key(sk.to_bytes(), skloc.clone()).map_err(|e| e.to_string())?;
    for _ in 0..1 + c.size / 3 {
        let replace = c.r.bool();
        let policy = if replace { MergePolicy::Replace } else { MergePolicy::KeepOld };
        let mut k = SyncSnapshotsConfig::new(policy);
        let mut sel: Option<Vec<usize>> = None;
        if c.r.one_in(3) {
            let s: Vec<usize> = (0..N).filter(|_| c.r.bool()).collect();
            k.sync_selected_clients(s.iter().map(|i| format!("client{}", i)).collect::<Vec<_>>());
            sel = Some(s);
        }
        let mut cfgs: BTreeMap<usize, Cfg> = BTreeMap::new();
        for i in 0..3 {
            if c.r.one_in(3) {
                let (kc, f) = config(c);
                k.config_client_sync(format!("client{}", i), kc);
                cfgs.insert(i, f);
            }
        }
        let mut map: BTreeMap<usize, usize> = BTreeMap::new();
        if c.r.one_in(3) {
            for _ in 0..c.r.range(1, 2) {
                map.insert(c.r.below(3), c.r.below(N));
            }
            k.map_clients(map.iter().map(|(x, y)| (format!("client{}", x), format!("client{}", y))).collect());
        }
        c.note(format!("select {:?} configs {:?} map {:?} replace {}", sel, cfgs, map, replace));
        // what is on offer: the whole source, or an exported part of it
        let mut offer: BTreeMap<usize, D> = ma.clone();
        let exported = c.r.bool();
        if exported {
            let mut part: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
            let mut left: BTreeMap<usize, D> = BTreeMap::new();
            for (i, d) in &ma {
                if c.r.one_in(4) {
                    continue;
                }
                let mut o = D::default();
                let mut p: HashMap<VaultId, Vec<RecordId>> = HashMap::new();
                for v in &d.vaults {
                    if c.r.one_in(4) {
                        continue;
                    }
                    o.vaults.insert(*v);
                    let l = p.entry(*v).or_default();
                    for ((w, r), x) in &d.recs {
                        if w == v && x.is_some() && !c.r.one_in(3) {
                            l.push(*r);
                            o.recs.insert((*w, *r), x.clone());
                        }
                    }
                }
                part.insert(cid(*i), p);
                left.insert(*i, o);
            }
            c.note(format!("export {:?}", part));
            let (epk, bytes) = a.export_to_serialized_state(part, pk.clone()).map_err(|e| format!("export: {}", e))?;
            offer = left;
            if c.r.one_in(3) {
                // an altered file is refused
                let mut bad = bytes.clone();
                if !bad.is_empty() {
                    let i = c.r.below(bad.len());
                    bad[i] ^= 1 << c.r.below(8);
                }
                ensure!(
                    b.import_from_serialized_state(bad, skloc.clone(), x25519::PublicKey::from_bytes(epk.to_bytes()), k.clone()).is_err(),
                    "an altered export was imported"
                );
                ensure!(all(&b, N)? == mb, "a refused import changed the target");
            }
            b.import_from_serialized_state(bytes, skloc.clone(), epk, k).map_err(|e| format!("import: {}", e))?;
        } else {
            let st = a.get_snapshot_state().map_err(|e| e.to_string())?;
            b.merge_state(st, k).map_err(|e| format!("merge_state: {}", e))?;
        }
        ensure!(all(&a, N)? == ma, "the source changed");
        // fold the source clients that go to one target
        let mut want: BTreeMap<usize, Exp> = BTreeMap::new();
        for (i, d) in &offer {
            if sel.as_ref().map_or(false, |s| !s.contains(i)) {
                continue;
            }
            let t = *map.get(i).unwrap_or(i);
            let f = cfgs.get(i).cloned().unwrap_or(Cfg { replace, ..Default::default() });
            let old = mb.get(&t).cloned().unwrap_or_default();
            let e = expect(d, &old, &f);
            match want.get_mut(&t) {
                None => {
                    want.insert(t, e);
                }
                Some(x) => {
                    for (l, v) in e.must {
                        let old = vec![old.recs.get(&l).cloned()];
                        match x.must.get_mut(&l) {
                            // touched by neither or by one or by both of them
                            Some(y) => {
                                let untouched = |z: &Vec<Option<Vec<u8>>>| old[0].as_ref().map_or(false, |o| z.len() == 1 && z[0] == *o);
                                if untouched(y) {
                                    *y = v;
                                } else if !untouched(&v) {
                                    y.extend(v);
                                }
                            }
                            None => {
                                x.must.insert(l, v);
                            }
                        }
                    }
                    x.may_vaults.extend(e.may_vaults);
                }
            }
        }
        let now = all(&b, N)?;
        for i in 0..N {
            match (now.get(&i), want.get(&i)) {
                (Some(g), Some(e)) => compare(g, e).map_err(|x| format!("client{} of the target: {}", i, x))?,
                (g, None) => ensure!(g == mb.get(&i), "client{} of the target changed", i),
                (None, Some(e)) => ensure!(e.must.is_empty(), "client{} of the target is missing", i),
            }
            let (_, _, st) = b.get_state(cid(i)).map_err(|e| e.to_string())?;
            let e = stores.contains(&i).then(|| vec![i as u8]);
            ensure!(st.get(&b"k".to_vec()) == e.as_ref(), "the store of client{} changed", i);
        }
        mb = now;
        if c.r.one_in(3) {
            let i = c.r.below(3);
            fill(c, &mut a, i, &mut ma)?;
        }
    }
    Ok(())
}
