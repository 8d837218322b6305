#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Compressing and decompressing any data gives the data back",
  "For every byte string, the snapshot compressor terminates without panicking and decompressing its output succeeds and returns exactly the original bytes. This includes the empty string, strings shorter than a minimum match, highly repetitive data, and data whose repeats are far apart.",
  ["inputs"], "every byte string the compressor is given (every snapshot payload)",
  "The tests compress a handful of strings and random buffers; match placement, long-literal and long-match length encodings and the end-of-block rules depend on every byte of the input.",
  ["engine/src/snapshot/compression.rs", "engine/src/snapshot/compression/encoder.rs", "engine/src/snapshot/compression/decoder.rs"],
  [("token / length encoding", "encoder.rs: write_token, write_integer, complete"), ("match finder and hash table", "encoder.rs: go_forward_2, get_cur_hash, find_duplicate"), ("decoder main loop", "decoder.rs: complete, duplicate, read_integer")],
  observe=["engine::snapshot::{compress, decompress}"])

p("C02", "Decompression of arbitrary bytes is total and memory-safe",
  "For every byte string, decompression terminates and returns either bytes or an error; it never panics, never overflows, and never reads before the start or past the end of what it was given or has produced. Input that ends early, or whose back-reference points before the start of the output, is reported as an error.",
  ["inputs"], "every byte string, including truncated, corrupted and adversarial ones",
  "Only a few well-formed and two malformed streams are tried; totality is a statement about all malformed streams.",
  ["engine/src/snapshot/compression/decoder.rs", "engine/src/snapshot/compression.rs"],
  [("bounds-checked take", "decoder.rs: take, take_imp, move_cursor"), ("back-reference check", "decoder.rs: duplicate")],
  observe=["engine::snapshot::decompress"])

p("C03", "A written snapshot reads back exactly, and leaves only the finished file",
  "A payload of any length that is successfully written as a snapshot, to a stream or to a file, under a key and associated data is returned byte for byte by reading with the same key and associated data. A snapshot file starts with the magic bytes PARTI and the version bytes 2.0, writing over an existing snapshot replaces it completely, and a successful write leaves no other file behind in the directory.",
  ["inputs", "histories"], "every payload, key, associated data, and every sequence of writes to a path",
  "Tests write a few fixed-size payloads once; they cannot cover all payload sizes, keys, associated data and rewrites.",
  ["engine/src/snapshot/logic.rs"],
  [("stream container", "logic.rs: write, read"), ("file container, temp file and rename", "logic.rs: write_to, read_from")],
  observe=["engine::snapshot::{write, read, write_to, read_from}"])

p("C04", "A snapshot that was altered or opened with the wrong key is rejected",
  "Reading a snapshot returns an error, never data and never a panic, whenever the file is shorter than a minimal snapshot, its magic or version bytes differ, any byte of it was changed or cut off or added, or the key or the associated data is not the one it was written with. Keys count as the same when they denote the same X25519 scalar.",
  ["inputs", "fault_sequences"], "every snapshot, every corruption, truncation or extension of it, every other key and associated data",
  "Tests corrupt a few random bytes of one snapshot; the guarantee is about every position, length and key.",
  ["engine/src/snapshot/logic.rs"],
  [("minimum length and header check", "logic.rs: check_min_file_len, check_header"), ("authenticated decryption with nonce bound to both public keys", "logic.rs: read")],
  observe=["engine::snapshot::{read, read_from}"])

p("C05", "URL-safe Base64 encoding and decoding are exact inverses and total",
  "Encoding any bytes yields standard padded URL-safe Base64 text, and decoding that text returns exactly the same bytes. Decoding any other input either fails with an error or returns bytes; it never panics, and it fails whenever the length is not a multiple of four, there are more than two padding characters, or a character is outside the alphabet.",
  ["inputs"], "every byte string to encode and every byte string to decode",
  "Tests use a short table of vectors and random strings; chunk boundaries, padding and the alphabet edges need all inputs.",
  ["engine/src/vault/base64.rs"],
  [("chunked bit packing and padding", "base64.rs: encode_data, decode_data"), ("alphabet", "base64.rs: encode_byte, decode_byte")],
  observe=["engine::vault::{Base64Encodable, Base64Decodable}"])

p("C06", "Identifiers, hints and counters are fixed-size, length-checked and faithful",
  "Loading an identifier from bytes succeeds exactly when there are 24 of them and then gives those bytes back unchanged; a record hint accepts at most 24 bytes and pads them with zeros. Counter values convert to and from 64-bit integers without loss, order like those integers, and adding to them adds to the integer or is refused on overflow.",
  ["inputs"], "every byte string offered as an identifier or hint, every 64-bit value",
  "Tests construct a handful of identifiers of the right length; wrong lengths and byte order for all values are not covered.",
  ["engine/src/vault/types/utils.rs"],
  [("length check and copy", "utils.rs: TryFrom<&[u8]> / load for Id, ChainId, BlobId, RecordId, VaultId, ClientId"), ("hint padding", "utils.rs: RecordHint::new"), ("big-endian counter", "utils.rs: Val")],
  observe=["engine::vault::{Id, VaultId, ClientId, RecordId, ChainId, BlobId, RecordHint}"])

p("C07", "Record headers keep every field and are never read as the wrong kind",
  "A data header built from an identifier, length, blob identifier and hint gives each of these back unchanged after a trip through its byte form, and a revocation header gives back its identifier. A header is only readable as the kind it was written as, and a byte string is accepted as a header exactly when it has the fixed header length.",
  ["inputs"], "every combination of header field values, every byte string offered as a header",
  "The packed byte layout is accessed through pointer casts; tests build a few headers and never check the whole value space or wrong kinds.",
  ["engine/src/vault/types/transactions.rs", "engine/src/vault/types.rs", "engine/src/vault/types/utils.rs"],
  [("packed views", "types.rs: AsView, AsViewMut"), ("typed access", "transactions.rs: Transaction::typed, TypedTransaction"), ("fixed length", "transactions.rs: TryFrom<Vec<u8>> for Transaction")],
  observe=["record metadata read back from a vault"])

p("C08", "The key-value store behaves like a map whose expired entries are invisible",
  "After any sequence of operations, looking up a key returns the value most recently inserted for it unless it was deleted, cleared or has outlived its lifetime; otherwise nothing is returned. Insert and delete report the previous unexpired value and affect no other key, an entry without a lifetime never expires, and periodic cleanup removes only expired entries.",
  ["histories", "inputs"], "every sequence of store operations, keys, values, lifetimes and times at which they happen",
  "Tests run short scripted sequences; the guarantee is about all interleavings of inserts, deletes, expiry times and cleanup points.",
  ["engine/src/store/storage/cache.rs", "engine/src/store/storage.rs", "client/src/types/store.rs"],
  [("expiry filter on every read", "cache.rs: get, contains_key, insert, remove, get_or_insert"), ("expiry test", "storage.rs: Value::has_expired"), ("scanner", "cache.rs: try_remove_expired_items")],
  observe=["iota_stronghold::Store", "engine::store::Cache"])

p("C09", "A vault record always holds exactly the data last written to it",
  "After any sequence of vault operations, reading a record with the vault's key returns exactly the bytes of the last successful write to that record, with the hint given at its creation; a record that was never written, was revoked, or was collected is reported as missing. Writing, revoking, or garbage-collecting affects no other record or vault, and garbage collection removes exactly the revoked records.",
  ["histories", "inputs"], "every sequence of write, revoke, garbage-collect, list and read operations over any number of vaults and records, with any data",
  "Tests run a few short scripted histories with one or two records.",
  ["engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs"],
  [("record life cycle", "view.rs: Record::{new, update_data, revoke, get_blob}"), ("vault map", "view.rs: Vault::{add_or_update_record, revoke, garbage_collect, get_guard}"), ("view", "view.rs: DbView::{write, revoke_record, garbage_collect_vault, get_guard, exec_procedure}")],
  observe=["engine::vault::DbView"])

p("C10", "A vault answers only to its own key",
  "Every operation that reads, writes, revokes or lists records with a key other than the vault's key fails or returns an empty list, and leaves every vault exactly as it was. Encrypted record contents are bound to their record: contents that were altered, or moved to a record with another identifier, are never returned as that record's data.",
  ["inputs", "histories"], "every vault content, every wrong key, every operation",
  "Tests try one wrong key on one or two operations and do not check that the state is untouched.",
  ["engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs"],
  [("key comparison before use", "view.rs: Vault::check_key"), ("associated data binds record and blob identifiers", "view.rs: Record::{new, get_blob, update_data}")],
  observe=["engine::vault::DbView"])

p("C11", "Moving records between vaults keeps their data under the new key",
  "Records exported from one vault and imported into another are afterwards readable with the target vault's key and have the same data, hint and blob identifier as at the source; the source vault is unchanged and target records that were not imported are unchanged. Importing a record that already exists at the target replaces it.",
  ["histories", "inputs"], "every pair of vault contents, every selection of records, equal or different keys",
  "The existing tests move one or two records between fresh vaults.",
  ["engine/src/vault/view.rs"],
  [("re-encryption", "view.rs: Record::update_meta"), ("import/export", "view.rs: DbView::{export_records, export_all, import_records}, Vault::extend")],
  observe=["engine::vault::DbView::{export_records, import_records}"])

p("C12", "The key store returns for each vault exactly the key stored for it",
  "After any sequence of operations, asking for a vault's key returns the key most recently stored for that vault, or nothing when none was stored or it was taken out or cleared; creating or inserting-if-absent never changes an existing key. Operations on one vault's key never change another's, and the full contents survive being dumped and used to rebuild a new key store.",
  ["histories", "inputs"], "every sequence of key store operations over any set of vaults and keys",
  "Tests exercise one insert and one get per scenario.",
  ["client/src/security/keystore.rs", "engine/src/vault/crypto_box.rs"],
  [("keys encrypted under a master key with the vault id as associated data", "keystore.rs: insert_key, get_key"), ("insert-if-absent", "keystore.rs: get_or_insert_key, create_key"), ("rebuild", "keystore.rs: rebuild_keystore, get_data")],
  observe=["iota_stronghold::KeyStore"])

p("C13", "Protected memory returns exactly the payload it was given",
  "Unlocking a protected memory (guarded buffer, RAM, file, or split non-contiguous memory in any of its configurations) returns exactly the payload it was created or last updated with, any number of times, and so do its clones and its serialized and deserialized copies. Zero-sized requests, and split memories of any size other than 32 bytes, are refused with an error, and a memory that has been wiped is refused or empty, never stale data.",
  ["inputs", "histories", "configurations"], "every payload, every memory kind and configuration, every sequence of unlock, refresh, clone, update and serialize",
  "Tests unlock one random payload once or twice per configuration.",
  ["engine/runtime/src/memories/buffer.rs", "engine/runtime/src/memories/ram_memory.rs", "engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/noncontiguous_memory.rs", "engine/runtime/src/memories/frag.rs", "engine/runtime/src/utils.rs"],
  [("split into two shards, xor with a hash", "noncontiguous_memory.rs: alloc, unlock, refresh"), ("size checks", "noncontiguous_memory.rs, ram_memory.rs, file_memory.rs: alloc")],
  observe=["runtime::memories::*"])

p("C14", "Guarded memory is accessible exactly while it is borrowed",
  "Guarded memory is inaccessible except while at least one borrow of it is alive: a read borrow makes it readable, a write borrow writable, and dropping the last borrow makes it inaccessible again. At most one write borrow exists and never together with a read borrow, the borrow count matches the live borrows, and misuse or too many borrows is stopped by a panic instead of granting access.",
  ["histories"], "every properly nested or interleaved sequence of borrows, clones, comparisons and releases by one thread",
  "Tests take one or two borrows at a time; counter wrap-around and every interleaving are not sampled.",
  ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs"],
  [("protection state machine", "boxed.rs: retain, release"), ("borrow guards", "buffer.rs: Ref, RefMut")],
  state=[("prot", "current protection of the pages", "boxed.rs: Boxed.prot"), ("refs", "number of live borrows", "boxed.rs: Boxed.refs")],
  observe=["runtime::memories::buffer::Buffer"])

p("C15", "Storage locations always map to the same vault and record",
  "The vault of a location depends on its vault path alone and its record on the vault path and the record path or counter, and resolving a location twice, or through any of the public helper functions, gives the same identifiers. Locations that differ in vault path, record path or counter resolve to different records, so writing to one location never shows up at another.",
  ["inputs"], "every vault path, record path and counter",
  "Tests resolve a few fixed paths.",
  ["client/src/types/location.rs", "client/src/utils/ids.rs"],
  [("keyed hash of the paths", "ids.rs: LoadFromPath"), ("derivations", "location.rs: resolve, derive_vault_id, derive_record_id, derive_record_id_from_counter")],
  observe=["iota_stronghold::Location::resolve"])

p("C16", "Sealed boxes open to the sealed data, and only with the right key and context",
  "Opening a sealed box with the key and associated data it was sealed with returns exactly the sealed data, for data of any length. Opening anything else (another key, other associated data, altered, shortened or extended bytes, or bytes too short to be a box) returns an error and never panics or returns data.",
  ["inputs"], "every key, associated data, plaintext, and every byte string offered for opening",
  "Tests seal and open one or two messages; short or altered boxes of every length are not tried.",
  ["client/src/internal/provider.rs", "engine/src/vault/crypto_box.rs"],
  [("tag, nonce, ciphertext layout", "provider.rs: box_seal, box_open")],
  observe=["iota_stronghold::Provider (engine::vault::BoxProvider)"])

p("C17", "A failed procedure chain leaves none of its secrets behind",
  "When any step of a procedure chain fails, the chain returns that step's error and every secret that a step of the chain wrote is no longer readable; no later step is executed. When all steps succeed, the outputs are returned in order, one per step, and every written secret is readable.",
  ["programs", "fault_sequences"], "every chain of procedures and every position at which a step fails",
  "The tests fail one chain at one step with one kind of procedure.",
  ["client/src/types/client.rs", "client/src/procedures/primitives.rs"],
  [("roll-back log", "client.rs: execute_procedure_chained"), ("output location of each procedure", "primitives.rs: StrongholdProcedure::output")],
  observe=["iota_stronghold::Client::execute_procedure_chained"])

p("C18", "Each cryptographic procedure computes its standard function on the named secrets",
  "Every procedure reads exactly the secrets at its source locations and returns, or stores at its target location, the result of its standard function (signatures, public keys, key agreement, HMAC, HKDF, PBKDF2, Concat KDF, SLIP-10, BIP-39, AEAD, AES key wrap, copying and concatenation) for all parameters. Keys of the wrong length and malformed ciphertexts give an error without writing anything, and decrypting or unwrapping inverts encrypting or wrapping.",
  ["inputs", "programs"], "every secret, message, parameter and source or target location",
  "Tests check a few vectors per procedure; lengths, rounds and parameter placement for all inputs are not sampled.",
  ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs", "client/src/procedures/clientrunner.rs"],
  [("procedure bodies", "primitives.rs: use_secret / derive / generate"), ("execution against the vault", "types.rs: UseSecret, DeriveSecret, GenerateSecret; clientrunner.rs: get_guards, exec_proc, write_to_vault")],
  observe=["iota_stronghold::Client::execute_procedure"])

p("C19", "Clients are isolated and live exactly as long as the session says",
  "Operations on one client never change another client's vaults, records or store. A client can be fetched from the session exactly when it was created or loaded and not unloaded, purged or cleared since; loading a client twice, loading one that the in-memory snapshot does not hold, and fetching an unknown one are errors that change nothing, and purging removes its data from the session and the in-memory snapshot.",
  ["histories"], "every sequence of create, load, get, write, unload, purge and clear over any set of clients",
  "Tests cover one or two clients in fixed scripts.",
  ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs"],
  [("client registry", "stronghold.rs: create_client, get_client, load_client, unload_client, purge_client, clear"), ("state replacement", "client.rs: restore, clear")],
  observe=["iota_stronghold::Stronghold"])

p("C20", "Committing and reloading a snapshot restores every client's state",
  "After a successful commit, loading the snapshot file with the same key in a new session restores, for every client that was loaded or had been written into the snapshot, exactly the records and store entries it had at that moment, and nothing else. Loading with a different key, from a missing file, or from a damaged file is an error that leaves the session's clients usable and unchanged.",
  ["histories", "inputs"], "every session history before the commit, every set of clients, vaults, records and store entries",
  "Tests save and load one client with a few records.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "engine/src/snapshot/logic.rs"],
  [("client state to encrypted blob and back", "snapshot.rs: add_data, get_state"), ("file write and read", "snapshot.rs: write_to_snapshot, read_from_snapshot"), ("commit and load", "stronghold.rs: commit_with_keyprovider, commit, load_snapshot, load_client_from_snapshot, write_client")],
  observe=["iota_stronghold::Stronghold"])

p("C21", "Synchronising copies exactly the selected records under the merge policy",
  "Synchronising copies from the source exactly those records that are selected (all if there is no selection), into the mapped client and vault (the same one if there is no mapping), and they are readable there with the source's data. A record that exists on both sides is kept under the keep-old policy and replaced under the replace policy; the source, and every target record that is not copied over, stay unchanged.",
  ["histories", "configurations"], "every source and target content, selection, mapping and policy",
  "Tests cover a few fixed combinations of selection and mapping.",
  ["client/src/sync.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs", "engine/src/vault/view.rs"],
  [("difference computation", "sync.rs: get_hierarchy, get_diff"), ("export and import", "sync.rs: export_entries, import_records; client.rs: sync_with, sync_vaults; snapshot.rs: merge_state, export_to_serialized_state, import_from_serialized_state")],
  observe=["iota_stronghold::Client::{sync_with, sync_vaults}", "iota_stronghold::Snapshot"])

p("C22", "A key provider yields exactly the documented key, every time",
  "A key provider built from a 32-byte key yields that key, from a truncated passphrase its first 32 bytes padded with zeros, and from a hashed passphrase the digest of the passphrase, each time it is unlocked. Keys of any other length are refused with an error.",
  ["inputs"], "every key and passphrase, any number of unlocks",
  "Tests use one constant 32-byte key.",
  ["client/src/security/keyprovider.rs", "engine/runtime/src/memories/noncontiguous_memory.rs"],
  [("constructors", "keyprovider.rs: with_passphrase_truncated, with_passphrase_hashed, with_passphrase_hashed_blake2b, with_passphrase_hashed_argon2, TryFrom<Vec<u8>>"), ("unlock", "keyprovider.rs: try_unlock")],
  observe=["iota_stronghold::KeyProvider"])

p("C23", "A transaction sees its own writes and takes effect completely or not at all",
  "Inside a transaction a read of a variable returns the value the transaction itself last wrote to it, or else the variable's committed value. When the transaction succeeds, every variable it wrote has its last written value and every other variable is unchanged; when the transaction's body fails, no variable changes.",
  ["programs", "histories"], "every transaction body over any set of variables, run without interference",
  "Tests run a few fixed transaction bodies.",
  ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
  [("buffered writes and validated reads", "transaction.rs: load, store"), ("lock, validate, commit", "stm.rs: Stm::transaction / commit"), ("versioned variables", "tvar.rs")],
  observe=["stronghold_stm::stm"])

p("C24", "Concurrent transactions behave as if run one after another",
  "Committed transactions on shared variables from any number of threads are equivalent to some serial order, and no transaction body ever observes a mix of values from before and after another transaction's commit.",
  ["schedules"], "every interleaving of any number of transactions",
  "Tests run a few threads and observe whichever schedules the machine happens to produce.",
  ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
  [("version clock, locking and validation at commit", "stm.rs")], observe=["stronghold_stm::stm"])

p("C25", "Read-log-update readers always see a consistent snapshot",
  "A reader in a read-log-update section sees each object either wholly before or wholly after any concurrent writer's commit, and writers never reclaim a copy a reader can still reach.",
  ["schedules"], "every interleaving of readers and writers",
  "Tests run a few threads without controlling the schedule.",
  ["stm/src/rlu/rlu.rs", "stm/src/rlu/guard/read.rs", "stm/src/rlu/guard/write.rs", "stm/src/rlu/rlog.rs", "stm/src/rlu/var.rs"],
  [("quiescence and log swap", "rlu.rs")], observe=["stronghold_stm::rlu"])

p("C26", "Secrets are wiped from memory when their containers are released",
  "When a container of secret data (guarded buffer, key, protected memory, key provider passphrase) is dropped or wiped, no copy of the secret made by the container remains in process memory or on disk.",
  ["histories"], "every way in which a container's life can end",
  "Absence of residual copies is a statement about all of process memory, not about values the tests can read through the API.",
  ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories", "client/src/security/keyprovider.rs"],
  [("zeroize on drop, sodium_free", "boxed.rs, memories/*.rs")])

p("C27", "Concurrent use of one stronghold never corrupts guarded memory or aborts",
  "Threads that share a stronghold, client or guarded memory through the public API never corrupt its access bookkeeping, abort the process, or observe inaccessible memory.",
  ["schedules"], "every interleaving of API calls on shared objects",
  "The one multi-threaded test aborts in about one run of ten, depending on the schedule.",
  ["engine/runtime/src/boxed.rs", "client/src/types/client.rs", "client/src/types/stronghold.rs"],
  [("unsynchronised borrow counters behind unsafe Sync", "boxed.rs"), ("read-write locks", "client.rs, stronghold.rs")])

p("C28", "A crash during a snapshot write leaves the old or the new snapshot",
  "If the process or machine stops at any point while a snapshot is written over an existing one, the path afterwards holds either the complete old or the complete new snapshot.",
  ["crash_points"], "every point at which a write can be interrupted",
  "Tests do not interrupt writes.",
  ["engine/src/snapshot/logic.rs"], [("temporary file, sync, rename", "logic.rs: write_to")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
