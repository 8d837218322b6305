From 5e90977a0114a36ef78e2b20e9457e0eca0cfe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 01/16] hook: expose vault header internals under
 cfg(stronghold_verif)

---
 engine/src/vault.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/src/vault.rs b/engine/src/vault.rs
index cfbc0c0..e8a0283 100644
--- a/engine/src/vault.rs
+++ b/engine/src/vault.rs
@@ -27,3 +27,17 @@ pub use crate::vault::{
     types::utils::{BlobId, ChainId, ClientId, Id, InvalidLength, RecordHint, RecordId, VaultId},
     view::{DbView, RecordError, VaultError},
 };
+
+/// Access to internals for the verification harness; not part of any regular build.
+#[allow(unexpected_cfgs)]
+#[cfg(stronghold_verif)]
+pub mod verif_hooks {
+    pub use super::types::{
+        transactions::{
+            DataTransaction, RevocationTransaction, SealedBlob, SealedTransaction, Transaction, TransactionType,
+            UntypedTransaction,
+        },
+        utils::Val,
+        AsView, AsViewMut,
+    };
+}
-- 
2.43.0


From 1d5691c8d37389ef3eb762a22e477a12f0fe4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 02/16] fix: return an error instead of panicking when opening
 a box shorter than its overhead

---
 client/src/internal/provider.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/src/internal/provider.rs b/client/src/internal/provider.rs
index ff42932..415c31d 100644
--- a/client/src/internal/provider.rs
+++ b/client/src/internal/provider.rs
@@ -59,6 +59,12 @@ impl BoxProvider for Provider {
 
     /// Decrypts the data using the xchacha20-poly1305 algorithm.
     fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> Result<Vec<u8>, Self::Error> {
+        if data.len() < Self::box_overhead() {
+            return Err(crypto::Error::CipherError {
+                alg: XChaCha20Poly1305::NAME,
+            });
+        }
+
         let (tag, ct) = data.split_at(Self::TAG_LEN);
         let (nonce, cipher) = ct.split_at(Self::NONCE_LEN);
 
-- 
2.43.0


From b48717a134b27117bcb1d505342e9cba0b2d3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 03/16] fix: store entries with a lifetime beyond the
 representable time never expire instead of panicking

---
 engine/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..18907e3 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,7 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
-- 
2.43.0


From 52b2012ed19e4a087216db4ff0acc678e6157aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 04/16] fix: reading a record whose blob does not decrypt
 returns an error instead of panicking

---
 engine/src/vault/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..30caca2 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -510,7 +510,10 @@ impl Record {
 
         let blob = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|err| match err {
+                DecryptError::Invalid => RecordError::CorruptedContent("Could not convert bytes into blob".into()),
+                DecryptError::Provider(e) => RecordError::Provider(e),
+            })?;
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From 4d164d5b08220cb9471ab2ee83373fa99e08c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 05/16] fix: importing records under a wrong key returns an
 error and creates no vault instead of panicking

---
 engine/src/vault/view.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 30caca2..0712bb9 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -295,14 +295,12 @@ impl<P: BoxProvider> DbView<P> {
         vid: VaultId,
         mut records: Vec<(RecordId, Record)>,
     ) -> Result<(), RecordError<P::Error>> {
+        for (rid, record) in &mut records {
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
+        }
         if !self.vaults.contains_key(&vid) {
             self.init_vault(new_key, vid);
         }
-        for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
-        }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
     }
-- 
2.43.0


From 477ebe573168c302e8bfb6ccb1fda64848ba1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 06/16] fix: cloning a memory fragment copies it instead of
 sharing memory that is released twice

---
 engine/runtime/src/memories/frag.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..fe5246c 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -72,6 +71,23 @@ pub struct Frag<T: Default + Clone> {
     info: Option<(windows::Win32::Foundation::HANDLE, *const libc::c_void)>,
 }
 
+impl<T: Default + Clone> Clone for Frag<T> {
+    /// The clone owns a fragment of its own: sharing the pointer would release the memory twice.
+    fn clone(&self) -> Self {
+        let mut frag = match self.strategy {
+            FragStrategy::Direct => DirectAlloc::alloc(None),
+            FragStrategy::Map => MemoryMapAlloc::alloc(None),
+            FragStrategy::Hybrid => unreachable!("Frag are allocated only using map or direct allocation"),
+        }
+        .expect("Error while allocating fragment memory");
+        match self.get() {
+            Ok(data) => frag.set(data.clone()).expect("The fragment is live"),
+            Err(_) => frag.zeroize(),
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
-- 
2.43.0


From ec33093eae68c86f096c34a782a1f9766ba70417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/16] fix: a failed chain also revokes the outputs of
 AesKeyWrapDecrypt and ConcatSecret

---
 client/src/procedures/primitives.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
-- 
2.43.0


From dbee670cf3a40ce223c32542124a94396aade8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 08/16] fix: listing the entries of a vault skips revoked
 records, so that such a vault can be synchronised

---
 engine/src/vault/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 0712bb9..916058c 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -371,10 +371,13 @@ impl<P: BoxProvider> Vault<P> {
         buf
     }
 
-    /// List the [`RecordId`]s of the entries stored in this [`Vault`].
+    /// List the [`RecordId`]s of the entries stored in this [`Vault`]. Revoked entries are not listed.
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
         for (&id, record) in self.entries.iter() {
+            if record.revoke.is_some() {
+                continue;
+            }
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 3a453b64b86538af654e456294026fad221517a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 09/16] fix: synchronising selected records into a missing
 vault copies only the selection

---
 client/src/sync.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..901eb62 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,12 +136,16 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
+            let select_records = config.select_records.get(&vid);
             if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
+                let d = list
+                    .into_iter()
+                    .map(|(rid, _)| rid)
+                    .filter(|rid| select_records.map_or(true, |s| s.contains(rid)))
+                    .collect();
                 diff.insert(vid, d);
                 continue;
             }
-            let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
                 if let Some(select_records) = select_records {
-- 
2.43.0


From 36ceae7981f35fba1d0bc6f074ca5d27296cf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 10/16] fix: compare records of a mapped vault with the key of
 the target vault

---
 client/src/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 901eb62..2c76809 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -162,14 +162,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From a410fcce95455fe477d7fb99ec35eee86873b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 11/16] fix: merging snapshots imports into the mapped client
 and vault and reports failures

---
 client/src/sync.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 2c76809..8ce0531 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -314,7 +314,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -369,25 +369,25 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c)),
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))
                 }
-            };
+            }?;
         }
         Ok(())
     }
-- 
2.43.0


From beaf2e587656683b65a7e89adfa3469139b16d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 12/16] fix: a refused load_client_from_snapshot leaves the
 session's in-memory snapshot as it was

---
 client/src/types/stronghold.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..b5b4e05 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -129,20 +129,23 @@ impl Stronghold {
         let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
 
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
-
         // If a client has already been loaded returns an error
         if clients.contains_key(&client_id) {
             return Err(ClientError::ClientAlreadyLoaded(client_id));
         }
 
-        let client_state: ClientState = snapshot
+        let mut loaded = Snapshot::default();
+        load_snapshot!(&mut loaded, snapshot_path, keyprovider);
+
+        let client_state: ClientState = loaded
             .get_state(client_id)
             .map_err(|e| ClientError::Inner(e.to_string()))?;
 
         // Load the client state
         client.restore(client_state, client_id)?;
 
+        *snapshot = loaded;
+
         // insert client as ref into Strongholds client ref
         clients.insert(client_id, client.clone());
 
-- 
2.43.0


From b73526228178b914e926b4a24f8af2e32d547dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 13/16] fix: AES key wrapping with a key of the wrong length
 returns an error instead of panicking

---
 client/src/procedures/primitives.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..f9b719d 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -1008,10 +1008,24 @@ impl UseSecret<2> for AesKeyWrapEncrypt {
     }
 }
 
+/// The key wrap cipher panics on key encryption keys of any other length.
+fn check_kek_length(key: &[u8]) -> Result<(), crypto::Error> {
+    if key.len() != Aes256Kw::KEY_LENGTH {
+        return Err(crypto::Error::BufferSize {
+            has: key.len(),
+            needs: Aes256Kw::KEY_LENGTH,
+            name: "key encryption key",
+        });
+    }
+    Ok(())
+}
+
 impl AesKeyWrapEncrypt {
     fn wrap_key(&self, encryption_key: &[u8], wrap_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
+        check_kek_length(encryption_key)?;
+
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
 
         let wrap: Aes256Kw = Aes256Kw::new(encryption_key);
@@ -1058,6 +1072,8 @@ impl AesKeyWrapDecrypt {
     fn unwrap_key(&self, decryption_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
+        check_kek_length(decryption_key)?;
+
         let plaintext_len: usize = self.wrapped_key.len().checked_sub(Aes256Kw::BLOCK).ok_or_else(|| {
             FatalProcedureError::from(format!(
                 "ciphertext needs to have a length >= than the block size: {}",
-- 
2.43.0


From 52634cf1d5ddaff5223eec594434f843553f5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 14/16] fix: ConcatKdf with a key length near the maximum
 returns an error instead of overflowing

---
 client/src/procedures/primitives.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index f9b719d..d048488 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -941,7 +941,10 @@ impl ConcatKdf {
 
         let mut output: Vec<u8> = Vec::new();
 
-        let target: usize = (len + (<D as Digest>::output_size() - 1)) / <D as Digest>::output_size();
+        let target: usize = len
+            .checked_add(<D as Digest>::output_size() - 1)
+            .ok_or_else(|| FatalProcedureError::from("key length overflow".to_owned()))?
+            / <D as Digest>::output_size();
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
-- 
2.43.0


From cb24eace36603079744e9633ed6336bb72bc5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 15/16] fix: a failing procedure no longer revokes the record
 that its target location held before

---
 client/src/types/client.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..7583e15 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let target = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,10 @@ impl Client {
                     return Err(e);
                 }
             };
+            // a failed step writes nothing: what its target held before is not part of the roll-back
+            if let Some(target) = target {
+                log.push(target);
+            }
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From d2a1f5f7cc9bf4f0f8b255736c55cd5df34c8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 16/16] hook: expose the state of guarded memory under
 cfg(kani)

---
 engine/runtime/src/boxed.rs           | 24 ++++++++++++++++++++++++
 engine/runtime/src/memories/buffer.rs | 13 +++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..f1cfbc0 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -323,6 +323,30 @@ pub(crate) unsafe fn lock_memory<T>(ptr: *mut T, len: usize) {
     sodium_mlock(ptr as *mut _, len);
 }
 
+/// Access to internals for the verification harness; not part of any regular build.
+#[allow(unexpected_cfgs)]
+#[cfg(kani)]
+impl<T: Bytes> Boxed<T> {
+    /// number of borrows and protection (0 no access, 1 read-only, 2 read-write) as they are recorded
+    pub(crate) fn verif_state(&self) -> (u8, u8) {
+        let prot = match self.prot.get() {
+            Prot::NoAccess => 0,
+            Prot::ReadOnly => 1,
+            Prot::ReadWrite => 2,
+        };
+        (self.refs.get(), prot)
+    }
+
+    pub(crate) fn verif_set_state(&self, refs: u8, prot: u8) {
+        self.refs.set(refs);
+        self.prot.set(match prot {
+            0 => Prot::NoAccess,
+            1 => Prot::ReadOnly,
+            _ => Prot::ReadWrite,
+        });
+    }
+}
+
 #[cfg(test)]
 mod test {
     extern crate alloc;
diff --git a/engine/runtime/src/memories/buffer.rs b/engine/runtime/src/memories/buffer.rs
index 2b32dca..c90fbcc 100644
--- a/engine/runtime/src/memories/buffer.rs
+++ b/engine/runtime/src/memories/buffer.rs
@@ -285,6 +285,19 @@ where
     }
 }
 
+/// Access to internals for the verification harness; not part of any regular build.
+#[allow(unexpected_cfgs)]
+#[cfg(kani)]
+impl<T: Bytes> Buffer<T> {
+    pub fn verif_state(&self) -> (u8, u8) {
+        self.boxed.verif_state()
+    }
+
+    pub fn verif_set_state(&self, refs: u8, prot: u8) {
+        self.boxed.verif_set_state(refs, prot)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     extern crate alloc;
-- 
2.43.0

