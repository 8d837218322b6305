use crate::Unit;
pub mod client;
pub mod enc;
pub mod lz4;
pub mod mem;
pub mod procs;
pub mod snap;
pub mod stm;
pub mod store;
pub mod sync;
pub mod vault;

pub fn all() -> Vec<(&'static str, Vec<Unit>)> {
    macro_rules! u { ($f:path, $w:expr, $m:expr) => { Unit { name: stringify!($f), f: $f, weight: $w, max: $m } }; }
    vec![
        ("C01", vec![u!(lz4::roundtrip, 6, 60), u!(lz4::far, 1, 4)]),
        ("C02", vec![u!(lz4::arbitrary, 3, 60), u!(lz4::mutated, 3, 60), u!(lz4::reference, 2, 60)]),
        ("C03", vec![u!(snap::stream, 3, 40), u!(snap::file, 2, 40), u!(snap::pathological_stream, 1, 20)]),
        ("C04", vec![u!(snap::reject_stream, 2, 30), u!(snap::reject_file, 2, 30), u!(snap::reject_key, 1, 10)]),
        ("C05", vec![u!(enc::b64_roundtrip, 2, 60), u!(enc::b64_decode, 4, 40)]),
        ("C06", vec![u!(enc::ids, 2, 60), u!(enc::val, 2, 20)]),
        ("C07", vec![u!(enc::headers, 1, 20)]),
        ("C08", vec![u!(store::cache_ops, 5, 40), u!(store::store_ops, 2, 30)]),
        ("C09", vec![u!(vault::dbview_ops, 3, 40), u!(vault::client_vault_ops, 2, 25)]),
        ("C10", vec![u!(vault::wrong_key, 3, 25), u!(vault::tampered, 2, 12)]),
        ("C11", vec![u!(vault::export_import, 1, 20)]),
        ("C12", vec![u!(vault::keystore_ops, 1, 40)]),
        ("C13", vec![u!(mem::buffers, 3, 40), u!(mem::locked, 3, 40), u!(mem::split, 3, 20)]),
        ("C14", vec![u!(mem::borrow_protocol, 1, 30)]),
        ("C15", vec![u!(client::locations, 3, 30), u!(client::location_isolation, 1, 12)]),
        ("C16", vec![u!(vault::seal_open, 1, 40)]),
        ("C17", vec![u!(procs::chains, 1, 12)]),
        ("C18", vec![u!(procs::functions, 12, 30), u!(procs::pipelines, 3, 20), u!(procs::bad_inputs, 6, 20), u!(procs::mnemonic, 1, 4)]),
        ("C19", vec![u!(client::sessions, 3, 25), u!(client::session_errors, 1, 6)]),
        ("C20", vec![u!(client::commit_reload, 3, 16), u!(client::commit_errors, 1, 6)]),
        ("C21", vec![u!(sync::clients, 3, 14), u!(sync::vaults, 2, 12), u!(sync::snapshots, 3, 10)]),
        ("C22", vec![u!(client::key_provider, 4, 40), u!(client::key_provider_argon, 1, 3)]),
        ("C23", vec![u!(stm::transactions, 1, 30)]),
        ("C28", vec![u!(snap::crash, 1, 40)]),
    ]
}

/// `t` written and read back, in a format that gives the reader the lengths or in one that does not
pub fn through<T: serde::Serialize + serde::de::DeserializeOwned>(c: &mut crate::Ctx, t: &T) -> Result<T, String> {
    match c.r.below(3) {
        0 => {
            let s = serde_json::to_string(t).map_err(|e| e.to_string())?;
            c.note("through JSON text");
            serde_json::from_str(&s).map_err(|e| e.to_string())
        }
        1 => {
            let s = serde_json::to_value(t).map_err(|e| e.to_string())?;
            c.note("through a JSON value");
            serde_json::from_value(s).map_err(|e| e.to_string())
        }
        _ => {
            let s = bincode::serialize(t).map_err(|e| e.to_string())?;
            bincode::deserialize(&s).map_err(|e| e.to_string())
        }
    }
}
