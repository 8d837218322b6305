"""Per property: claimed level, assumptions, notes (used by gen_manifest.py and bin/check)."""
BASE = ["rustc and the Rust standard library", "Verus 0.2026.09.13 with Z3, Kani 0.68 with CBMC", "the extractor tools/vx (text by byte range; listed rewrites)"]
LEVEL = {}
NOTE = {}
TECH = {}
ASSUME = {}
def p(i, level, tech, note, assume=()):
    LEVEL[i], TECH[i], NOTE[i], ASSUME[i] = level, tech, note, list(assume)

VX = "Verus contracts on functions extracted mechanically from /repo"
p("C01", "proof", VX + " (LZ4 encoder and decoder, all loops)", "Encoder and decoder are verified against one format specification for every input, including loops, overflow and bounds; the round-trip follows from both postconditions.")
p("C02", "proof", VX + " (LZ4 decoder)", "The decoder's postcondition holds for every byte sequence: the specified output or an error, and no panic, overflow or out-of-bounds access.")
BND = "bounded: contracts evaluated on generated executions of the real code"
for i, n in [("C03", ""), ("C04", ""), ("C05", ""), ("C06", ""), ("C07", ""), ("C08", ""), ("C09", ""), ("C10", ""), ("C11", ""), ("C12", ""), ("C13", ""), ("C14", ""), ("C15", ""), ("C16", ""), ("C17", ""), ("C18", ""), ("C19", ""), ("C20", ""), ("C21", ""), ("C22", ""), ("C23", "")]:
    p(i, "exploration", BND, "bounded stand-in, not a proof")
p("C09", "proof", VX + " (Record, Vault, DbView: every function of view.rs; the client's reads, writes, revocations and collections over it)", "Each operation's postcondition gives the readable contents of every record before and after; the well-formedness of all records is an invariant of every operation, so the statement holds after any sequence. The cipher is an ideal box, HashMap a map.", ["HashMap is a map with lawful key equality", "the cipher behind BoxProvider opens what it sealed (C16)", "record headers keep their fields (C07)"])
p("C10", "proof", VX + " (Record, Vault, DbView)", "Every operation of view.rs has a clause for a key other than the vault's; reading ends in an open of the box under the record's own identifier and blob identifier.", ["HashMap is a map with lawful key equality", "a box opens only under the key and associated data it was sealed with (unforgeability of XChaCha20-Poly1305)"])
p("C11", "proof", VX + " (DbView export and import, Record::update_meta)", "Importing re-encrypts each record; the loop invariant says what each re-encrypted record contains under the new key, the postcondition gives the contents of every record of the target.", ["HashMap is a map with lawful key equality", "the cipher behind BoxProvider opens what it sealed (C16)"])
p("C12", "proof", VX + " (every function of keystore.rs, NCKey)", "Each operation's postcondition gives the key held for every vault before and after; that every held key decrypts is an invariant, so the statement holds after any sequence.", ["HashMap is a map with lawful key equality", "split memory returns its payload (C13)", "the cipher behind BoxProvider opens what it sealed (C16)"])
p("C08", "proof", VX + " (every function of storage.rs and cache.rs, and of Store)", "Each operation's postcondition gives what a lookup yields for every key at every later clock reading, before and after; it holds after any sequence because the lookups of the result are stated from those of the state before. Times are integers; the order of clock readings within one call is not assumed.", ["HashMap is a map with lawful key equality", "SystemTime and Duration arithmetic is integer arithmetic with a largest time; a clock that runs backwards may panic in the cleanup", "RwLock is read as exclusive access (sequential use)"])
p("C16", "proof", VX + " (every function of provider.rs, Encrypt, Decrypt, Key)", "The provider is verified against the contract of the trait BoxProvider on which C09 to C12 rely: a sealed box opens to its data, and opening returns data for nothing but what sealing that data yields (lemma_only_sealed).", ["XChaCha20-Poly1305 of iota-crypto is a deterministic authenticated cipher: opening recomputes the tag; that different keys, associated data or altered bytes never collide is its unforgeability", "the buffer sizes iota-crypto checks are 32, 24 and 16 bytes"])
p("C05", "proof", VX + " (encode_data, decode_data, encode_byte, decode_byte, Base64Encodable, Base64Decodable)", "The encoder is verified against the URL-safe alphabet and padding of RFC 4648 for every byte sequence, the decoder against the inverse: it returns data exactly for the encodings of that data, otherwise an error.")
KN = "Kani contracts on the real crates (CBMC, all inputs)"
p("C06", "proof", VX + " (every loading, conversion, comparison and arithmetic function of types/utils.rs)", "Each function's postcondition gives the bytes or the integer of the result for every input; adding past the largest integer does not return (overflow checks are on in every profile of the workspace).", ["64-bit big-endian conversion of the standard library is what its documentation says", "derived Clone, Copy, Eq and Hash of byte arrays"])
p("C07", "proof", KN + " for the header views (raw pointer casts, packed structs); " + VX + " for the byte form", "The constructors and readers are decided on the compiled real code for every identifier, length, blob identifier, hint and every 112-byte string; that a byte string is a header exactly at 112 bytes is proved for every length.", ["an allocation is aligned for a type of alignment 1"])
p("C14", "proof", KN + ", inductive over every borrow count and protection", "From every state that satisfies the invariant (recorded count and protection, page protection), each operation on the compiled real code ends in a state that satisfies it, with the count changed by exactly the borrow made or dropped; every misuse ends before access is granted. Sequential use (C27 is not claimed). Five harnesses that look at the bytes use buffers of 1 to 4 bytes; the others any length up to 2^40.", ["libsodium's page protection is what its last successful call set", "element type u8 (the code is generic and uses the type's size only)", "a borrow is dropped at most once (Rust's ownership)"])
p("C13", "proof", VX + " (RAM, file, fragment and split memory, Buffer, Boxed, their serde visitors, xor)", "Each memory has a ghost content: the bytes of its buffer, or its file xor its noise, or the hash of one shard xor the other. Creating and updating set it, unlocking returns it and leaves it, refreshing the shards keeps it (an xor lemma with the hash uninterpreted), clones and deserialized copies have it, wiping ends it; so it holds after any number of unlocks. The files on disk are a ghost argument of every function that may touch them.", ["a random name of 16 characters names no existing file", "reading a file gives what was last written to it; nobody else changes it (dropping a memory removes only its own file)", "mmap and malloc give memory of its own to each fragment", "Mutex, RefCell and NonNull are read as exclusive access (sequential use)", "serde formats carry the sequence of elements they were given", "payload length equals the requested size (other calls panic)"])
p("C15", "proof", VX + " (every function of location.rs and ids.rs)", "Resolving and the helper functions return the same function of the paths, for every path and counter; that different locations are different inputs to the keyed hash is a lemma over those contracts (the counter text is proved injective), so they differ unless the hash collides. The recorded finding (paths that are the same HMAC key) is the one exception the lemma names.", ["truncated HMAC-SHA512 has no collisions, and no identifier is the text of a counter location", "Debug and Display of bytes and integers print as documented (decimal, in brackets)"])
p("C17", "proof", VX + " (Client::execute_procedure_chained and execute_procedure, StrongholdProcedure::output, clientrunner.rs, ClientVault)", "The chain's postcondition gives the sequence of states its steps went through: on success one output per step, in order; on failure the steps before the failing one succeeded, none after it ran, and every location one of them wrote to is empty while all others are as the failing step left them. The loop invariant ties the roll-back log to the output locations. That what a step wrote is still there later is a lemma.", ["the vaults behave as contracted (C09), the key store too (C12)", "a lock that is poisoned or an allocator or random source that fails is an environment fault: a revocation may then fail", "Arc<RwLock<T>> is read as an owned cell (sequential use)"])
p("C18", "proof", VX + " (generate, derive, use_secret, execute and the locations of all 21 procedures, ConcatKdf, AES key wrap)", "Each procedure's postcondition names the secret it reads, the standard function of it and the location it writes; a frame lemma says that no other record changes and that nothing is written on an error; decrypting inverts encrypting by a lemma over the contracts.", ["each primitive of iota-crypto and hkdf computes its standard function (deterministic, documented lengths); ConcatKdf is verified against NIST SP 800-56C over the digest", "the runner's vault reads and writes as contracted (C09, C17)"])
SNAP = ["the file system: create_new refuses an existing name, write_all appends, a synchronised file survives a crash, rename is atomic; two different paths name two different files (no links)", "iota-crypto's X25519 is commutative, Blake2b-256 is a function, XChaCha20-Poly1305 opens what it sealed", "decompressing a compressed payload gives it back, and decompressing anything ends without a panic (C01, C02)"]
p("C03", "proof", VX + " (write, read, write_to, read_from, check_header, check_min_file_len)", "The container and the file are specified byte by byte; write_to's postcondition says what the path holds and that no other name changed, read_from returns the payload of any such file, and that what was written reads back is a lemma over the two. The file system is a ghost argument threaded through every call.", SNAP + ["readers and writers other than files keep the contract of std::io::Read and Write"])
p("C04", "proof", VX + " (read, read_from, check_header, check_min_file_len)", "Reading returns an error whenever the bytes are not a file in the sense of C03; lemma_only_sealed says that such a file has no byte that is not bound by header, public key, tag or ciphertext, so an altered one opens only if the cipher was forged.", SNAP + ["XChaCha20-Poly1305 is unforgeable, and X25519 with Blake2b gives another key and nonce for another scalar or public key"])
p("C28", "proof", VX + " (write_to, write) over a ghost history of file system states", "Every state the file system goes through is in a ghost history; write_to's postcondition says that a crash in any of them leaves the old file or a complete new one at the path. What was not synchronised may be anything after a crash.", SNAP)
p("C22", "proof", VX + " (every function of keyprovider.rs)", "Each constructor's postcondition gives the key the provider holds for every input, and unlocking returns it; a digest is any function of what it was fed.", ["split memory returns its payload (C13); NCKey refuses other lengths (C12, C16)", "Blake2b-256 and the default Argon2 give 32 bytes; Argon2 is a function of passphrase and salt", "iter().enumerate().take(n) lists the first n elements with their positions"])
p("C19", "proof", VX + " (every function of Stronghold that changes the registry, Snapshot::purge_client, has_data, clear, Client::restore, clear)", "Each operation's postcondition gives the registry (a map from client identifier to client) and the in-memory snapshot before and after; a created client is blank, a loaded one has exactly the state that the snapshot held, and every refusal leaves both as they were. It holds after any sequence because the well-formedness the operations need is one they keep.", ["Arc<RwLock<T>> is read as an owned cell (sequential use): that two clients share no cell is that each is made of fresh ones", "HashMap is a map with lawful key equality", "client identifiers are a function of the path (C15)", "the client's vaults and store behave as contracted (C08, C09, C12, C17)"])
p("C20", "proof", VX + " (every function of snapshot.rs but those of synchronisation; commit, commit_with_keyprovider, write_client, load_snapshot, load_client, load_client_from_snapshot, store_snapshot_key_at_location)", "A successful commit's postcondition: the file holds, under the key, exactly the states of the loaded clients and of those the snapshot held before; a load's: the snapshot holds exactly what the file does. That a second session that loads the file has the same records and store entries is proved by a composed function (vx_restored) over those contracts, for every pair of sessions. A refused load leaves clients and snapshot as they were.", ["serde and bincode with the derived implementations give back what was serialised (tested by the bounded stand-in on generated histories)", "a file that the key opens was written by this code", "the file layer is as contracted (C03), also for a wrong key and a damaged file (C04)", "the client's parts are as contracted (C08, C09, C12, C17), key providers too (C22)", "create_dir_all only makes directories", "Arc<RwLock<T>> is read as an owned cell (sequential use)", "HashMap is a map with lawful key equality"])
p("C23", "proof", VX + " (every function of stm.rs, transaction.rs and tvar.rs)", "Memory is a ghost argument: a map from variables to value and version. A read inside a transaction yields the logged value or the committed one; committing applies the log to memory and to nothing else; every retry leaves memory as it was (loop invariant), for every body.", ["a body acts on variables by load and store only", "the mutexes and counters are in sequential use (C24 is not claimed); a lock that another thread holds is an environment fault", "HashMap and HashSet are a map and a set with lawful key equality; the address of a live variable identifies it", "the five conversions of macro impl_try_from return the value of their variant (tested by the bounded stand-in)", "fewer than 2^64 transactions"])
p("C21", "proof", VX + " (client side: get_hierarchy, get_diff, export_entries, Client::sync_with, Client::sync_vaults; snapshot side: get_hierarchy, get_diff, export_entries, import_records, Snapshot::merge_state, export_to_serialized_state, import_from_serialized_state; the builders of SyncClientsConfig and SyncSnapshotsConfig; blob identifiers: Record::update_data, Vault::add_or_update_record, BlobId::random)", "Postcondition of sync_with and sync_vaults, for all contents, selections, mappings and policies: every record of every target vault either is as the source has it, and is then selected, mapped there and taken under the policy, or is as it was, and then nothing that is selected was to come there; also after an error. The snapshot level is the same statement for every client of the snapshot, by merge_state's contract. That a write puts the record under a freshly drawn blob identifier, which is what a synchronisation compares, is a postcondition of every write. Export for a remote peer: whoever holds the secret of that public key opens what is sent to exactly the selected readable records, each as it was; import merges what was received by the same statement, and a damaged or foreign message is an error that changes nothing; a lemma over the two contracts says the same end to end.", ["records are compared by blob identifier: two random 192-bit draws differ, so two blobs with the same identifier hold the same data", "vaults are as contracted (C09, C11), keys too (C12)", "Arc<RwLock<T>> is read as an owned cell: source and target are two clients, not one", "HashMap and Vec are a map and a sequence with lawful equality", "what a peer sealed for us with the shared key was produced by this code (its states are intact); X25519, XChaCha20-Poly1305, LZ4 and serde round trips are as in C01 to C04"])
NA = {
    "C24": "Serializability over all thread schedules needs a concurrent program logic over Arc<Mutex> and atomics; Verus accepts the code only after rewriting it to its own lock and permission types (that would be a model), and Kani has no threads.",
    "C25": "The read-log-update code keeps shared state in raw pointers and atomics read by other threads; no installed deductive verifier accepts it as written, and Kani has no threads.",
    "C26": "That no copy of a secret remains in process memory is a statement about the compiler's stack slots, registers and the allocator, which contracts on source-level values cannot express.",
    "C27": "Quantifies over thread schedules of code that is knowingly racy (borrow counters in Cells behind an unsafe Sync); Kani has no threads and Verus cannot accept the unsafe Sync.",
}
