"""Which contracts decide which property.

PROOFS[prop] = list of jobs.
  verus job: {"kind": "verus", "template": "contracts/x.vrs", "only": regex or None, "funcs": ...}
     "only": a failing obligation inside an extracted function counts for this property only when the
     function's selector matches; failures outside extracted functions always count.
  kani job:  {"kind": "kani", "harness": [names], "bounded": {name: "bound"}}
"""
GUARDED = ["create", "alloc", "borrow", "clone_borrow", "drop_borrow", "drop_borrow_of_many", "borrow_mut", "borrow_mut_count",
           "write_then_read", "zeroize", "drop_buffer", "clone_buffer", "eq_buffer", "other_constructors"]
STOPS = ["stop_read_while_written", "stop_too_many_borrows", "stop_write_while_borrowed", "stop_release_without_borrow",
         "stop_read_of_inaccessible", "stop_zeroize_while_borrowed", "stop_drop_while_borrowed", "stop_borrow_without_protection",
         "stop_borrow_mut_without_protection", "stop_lock_without_protection", "stop_write_of_read_only"]
SODIUM = ["libsodium: sodium_allocarray, sodium_free, sodium_mprotect_*, sodium_memzero, sodium_memcmp are their documented contracts (kani stubs in kani/src/guarded.rs)"]
PROOFS = {
    "C01": [{"kind": "verus", "template": "contracts/lz4.vrs"}],
    "C02": [{"kind": "verus", "template": "contracts/lz4.vrs", "only": r"Lz4Decoder|decompress"}],
    "C09": [
        {"kind": "verus", "template": "contracts/vault.vrs"},
        {"kind": "verus", "template": "contracts/client.vrs", "only": r"Runner for Client::(write_to_vault|revoke_data|garbage_collect|get_guards)|Client::get_guard|Client::(vault|record)_exists|ClientVault::"},
    ],
    "C10": [{"kind": "verus", "template": "contracts/vault.vrs", "only": r"check_key|Record::get_|[Dd]ecrypt|[Ee]ncrypt|Key::"}],
    "C11": [{"kind": "verus", "template": "contracts/vault.vrs", "only": r"import_records|export_|update_meta|Vault::extend|Record::get_|DbView::init_vault"}],
    "C12": [{"kind": "verus", "template": "contracts/keystore.vrs"}],
    "C08": [{"kind": "verus", "template": "contracts/cache.vrs"}],
    "C05": [{"kind": "verus", "template": "contracts/base64.vrs"}],
    "C06": [{"kind": "verus", "template": "contracts/ids.vrs", "only": r"^(?!.*Transaction)"}],
    "C07": [
        {"kind": "verus", "template": "contracts/ids.vrs", "only": r"Transaction|Val|RecordHint|BlobId|ChainId"},
        {"kind": "kani", "name": "kani headers", "harness": ["headers::data_header_keeps_fields", "headers::revocation_header_keeps_id", "headers::header_kind_of_any_bytes"]},
    ],
    "C14": [{"kind": "kani", "name": "kani guarded", "harness": ["guarded::" + h for h in GUARDED + STOPS], "stops": {"guarded::" + h for h in STOPS},
             "native": False, "trusted": SODIUM,
             "bounded": {"guarded::" + h: "buffers of 1 to 4 bytes" for h in ("alloc", "write_then_read", "zeroize", "clone_buffer", "eq_buffer")}}],
    "C13": [{"kind": "verus", "template": "contracts/ncm.vrs"}, {"kind": "verus", "template": "contracts/buffer.vrs"}],
    "C15": [{"kind": "verus", "template": "contracts/location.vrs"}],
    "C16": [{"kind": "verus", "template": "contracts/provider.vrs"}],
    "C03": [{"kind": "verus", "template": "contracts/snapfile.vrs", "only": r"write|read|check_"}],
    "C04": [{"kind": "verus", "template": "contracts/snapfile.vrs", "only": r"read|check_"}],
    "C28": [{"kind": "verus", "template": "contracts/snapfile.vrs", "only": r"write"}],
    "C17": [{"kind": "verus", "template": "contracts/client.vrs"}],
    "C19": [
        {"kind": "verus", "template": "contracts/session.vrs", "only": r"Stronghold::(create_client|get_client|load_client|load_client_from_snapshot|unload_client|purge_client|clear)$|Snapshot::(purge_client|has_data|clear)$"},
        {"kind": "verus", "template": "contracts/client.vrs", "only": r"Client::(restore|clear|id|default)$"},
    ],
    "C20": [
        {"kind": "verus", "template": "contracts/session.vrs", "only": r"Stronghold::(commit|commit_with_keyprovider|write_client|load_client|load_client_from_snapshot|load_snapshot|store_snapshot_key_at_location)$|Snapshot::"},
        {"kind": "verus", "template": "contracts/client.vrs", "only": r"Client::restore$"},
    ],
    "C21": [
        {"kind": "verus", "template": "contracts/sync.vrs"},
        {"kind": "verus", "template": "contracts/sync_snap.vrs"},
        {"kind": "verus", "template": "contracts/vault.vrs", "only": r"DbView::(import_records|export_records|list_|get_blob_id|contains_)|Vault::(extend|export_records|list_)"},
    ],
    "C22": [{"kind": "verus", "template": "contracts/keyprov.vrs"}],
    "C23": [{"kind": "verus", "template": "contracts/stm.vrs"}],
    "C18": [{"kind": "verus", "template": "contracts/procedures.vrs"}],
}
