From 110285e405ef2be101426eed87c68cc68191a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 01/24] fix: revoke outputs of ConcatSecret and
 AesKeyWrapDecrypt when a chain fails

---
 client/src/procedures/primitives.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
-- 
2.43.0


From 53bb0236b4b9e0ace8013fe076c8324e7b67959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 02/24] fix: keep the secret at the target of a failed
 procedure

---
 client/src/types/client.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..679c7c1 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let target = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,10 @@ impl Client {
                     return Err(e);
                 }
             };
+            // Only a procedure that succeeded has written its target.
+            if let Some(location) = target {
+                log.push(location);
+            }
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From 1a39593c1556709b4843bd5ced1235f388034137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 03/24] fix: respect the record selection when syncing into a
 new vault

---
 client/src/sync.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..0216265 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,12 +136,16 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
+            let select_records = config.select_records.get(&vid);
             if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
+                let d = list
+                    .into_iter()
+                    .map(|(rid, _)| rid)
+                    .filter(|rid| select_records.map_or(true, |select| select.contains(rid)))
+                    .collect();
                 diff.insert(vid, d);
                 continue;
             }
-            let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
                 if let Some(select_records) = select_records {
-- 
2.43.0


From d7a170ae49d982b4d705efb53e06d4a4c8756f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 04/24] fix: compare blob ids with the key of the mapped target
 vault

---
 client/src/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 0216265..eedfc2d 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -162,14 +162,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From 1acc96997b10c95d597a593cf11ec489bc8ab753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 05/24] fix: list the live records of a vault that also has
 revoked ones

---
 engine/src/vault/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..fda5c55 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -376,7 +376,7 @@ impl<P: BoxProvider> Vault<P> {
     /// List the [`RecordId`]s of the entries stored in this [`Vault`].
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
-        for (&id, record) in self.entries.iter() {
+        for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 467b70e3a900b02b304ce9604e27f8a97b8b2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 06/24] fix: return an error instead of panicking when an
 imported record cannot be re-encrypted

---
 engine/src/vault/view.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index fda5c55..6abf8a9 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -299,9 +299,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
-- 
2.43.0


From 83064e9ae4429a554b029611bf2ecd8f9587d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:26 +0000
Subject: [PATCH 07/24] fix: apply client and vault mappings when merging
 snapshot states, and report failures

---
 client/src/sync.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index eedfc2d..ab773d8 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -314,7 +314,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -369,25 +369,25 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c)),
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))
                 }
-            };
+            }?;
         }
         Ok(())
     }
-- 
2.43.0


From 7da2850912b15b52e4faeae248b7d89c833af70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 08/24] fix: keep a stored snapshot key apart from the keys of
 client states

---
 client/src/types/snapshot.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..35d0a31 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -52,8 +52,11 @@ impl<'a> SyncClients<'a> for ClientState {
 /// Wrapper for the [`SnapshotState`] data structure.
 #[derive(Default)]
 pub struct Snapshot {
-    // Keys for vaults in db and for the encrypted client states.
+    // Keys for vaults in db.
     keystore: KeyStore<Provider>,
+    // Keys for the encrypted client states. Client ids and vault ids are derived alike, hence the
+    // state keys must not share a store with the keys of the vaults in db.
+    state_keys: KeyStore<Provider>,
     // Db with snapshot keys.
     db: DbView<Provider>,
     // Loaded snapshot states with each client state separately encrypted.
@@ -165,7 +168,7 @@ impl Snapshot {
         let ((encrypted, store), key) = match self
             .states
             .get(&id)
-            .and_then(|state| self.keystore.get_key(vid).map(|pkey| (state, pkey)))
+            .and_then(|state| self.state_keys.get_key(vid).map(|pkey| (state, pkey)))
             .and_then(|(state, pkey)| {
                 let k = &pkey.key;
                 k.borrow().deref().try_into().ok().map(|k| (state, k))
@@ -248,7 +251,7 @@ impl Snapshot {
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
         let pkey = PKey::load(key.into()).expect("Provider::box_key_len == KEY_SIZE == 32");
-        self.keystore.insert_key(vault_id, pkey)?;
+        self.state_keys.insert_key(vault_id, pkey)?;
         self.states.insert(id, (buffer, store));
         Ok(())
     }
@@ -393,6 +396,7 @@ impl Snapshot {
     /// but from [`crate::Stronghold::clear()`]
     pub(crate) fn clear(&mut self) -> Result<(), SnapshotError> {
         self.keystore.clear_keys();
+        self.state_keys.clear_keys();
         self.db.clear();
         self.states.clear();
 
-- 
2.43.0


From e76c1bc1f26cf63a75bd4ab62cb112ebf4c37157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 09/24] fix: keep the stored snapshot key when a snapshot is
 loaded

---
 client/src/types/snapshot.rs   | 7 +++++++
 client/src/types/stronghold.rs | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 35d0a31..78c724b 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -211,6 +211,13 @@ impl Snapshot {
         Snapshot::from_state(state, key, write_key)
     }
 
+    /// Replaces the client states with those of `other`. Keys that have been stored in this
+    /// snapshot are not part of a snapshot file and are kept.
+    pub(crate) fn replace_states(&mut self, other: Snapshot) {
+        self.states = other.states;
+        self.state_keys = other.state_keys;
+    }
+
     /// Writes state to the specified named snapshot or the specified path
     /// TODO: Add associated data.
     pub fn write_to_snapshot(&self, snapshot_path: &SnapshotPath, use_key: UseKey) -> Result<(), SnapshotError> {
diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..9adcb0b 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -66,8 +66,9 @@ macro_rules! load_snapshot {
                 .map_err(|e| ClientError::Inner(format!("{:?}", e)))?;
             let buffer_ref = buffer.borrow().deref().try_into().unwrap();
 
-            *($snapshot) = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
+            let loaded = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
                 .map_err(|e| ClientError::Inner(e.to_string()))?;
+            ($snapshot).replace_states(loaded);
             // END CRITICAL SECTION
         }
     }};
-- 
2.43.0


From 3a29fe239007daf7a93c196dc65ac2e943bce22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 10/24] fix: do not panic on lifetimes beyond the representable
 time

---
 engine/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..5fe684d 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,8 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            // A deadline beyond the representable time is never reached.
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
-- 
2.43.0


From 4075b0ba994d6ec7ab5bc857158d36abd9a4ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 11/24] fix: reject key encryption keys of wrong length instead
 of panicking

---
 client/src/procedures/primitives.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..c331b90 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -1008,12 +1008,26 @@ impl UseSecret<2> for AesKeyWrapEncrypt {
     }
 }
 
+/// The cipher panics on keys that are not of its key length.
+fn check_aes_kw_key(key: &[u8]) -> Result<(), FatalProcedureError> {
+    if key.len() != Aes256Kw::KEY_LENGTH {
+        return Err(crypto::Error::BufferSize {
+            has: key.len(),
+            needs: Aes256Kw::KEY_LENGTH,
+            name: "key encryption key",
+        }
+        .into());
+    }
+    Ok(())
+}
+
 impl AesKeyWrapEncrypt {
     fn wrap_key(&self, encryption_key: &[u8], wrap_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
 
+        check_aes_kw_key(encryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(encryption_key);
         wrap.wrap_key(wrap_key, &mut ciphertext)?;
 
@@ -1066,6 +1080,7 @@ impl AesKeyWrapDecrypt {
         })?;
         let mut plaintext: Vec<u8> = vec![0; plaintext_len];
 
+        check_aes_kw_key(decryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(decryption_key);
         wrap.unwrap_key(self.wrapped_key.as_ref(), &mut plaintext)?;
 
-- 
2.43.0


From 6a91af6c14849a1d39a7849975802636faa4d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 12/24] fix: report oversized key lengths in ConcatKdf instead
 of overflowing

---
 client/src/procedures/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index c331b90..5a7cca5 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -941,7 +941,8 @@ impl ConcatKdf {
 
         let mut output: Vec<u8> = Vec::new();
 
-        let target: usize = (len + (<D as Digest>::output_size() - 1)) / <D as Digest>::output_size();
+        let size = <D as Digest>::output_size();
+        let target: usize = len / size + usize::from(len % size != 0);
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
-- 
2.43.0


From 3eb11041bb09acdcdf8fd1b5d8c33f08b9b6fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 13/24] fix: make borrow counting of guarded memory thread safe

---
 engine/runtime/src/boxed.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..5d3224e 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -12,6 +12,8 @@ use core::{
     slice,
 };
 
+use std::sync::{Mutex, PoisonError};
+
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
     sodium_mprotect_readwrite,
@@ -27,7 +29,6 @@ enum Prot {
 type RefCount = u8;
 
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
@@ -37,6 +38,9 @@ pub(crate) struct Boxed<T: Bytes> {
     prot: Cell<Prot>,
     // The number of current borrows of this pointer.
     refs: Cell<RefCount>,
+    // Shared references may be retained and released from several threads: the borrow count and
+    // the protection level are only changed together, while this is locked.
+    guard: Mutex<()>,
 }
 
 impl<T: Bytes> Boxed<T> {
@@ -154,10 +158,12 @@ impl<T: Bytes> Boxed<T> {
             len,
             prot: Cell::new(Prot::ReadWrite),
             refs: Cell::new(1),
+            guard: Mutex::new(()),
         }
     }
 
     fn retain(&self, prot: Prot) {
+        let _guard = self.guard.lock().unwrap_or_else(PoisonError::into_inner);
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +191,7 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _guard = self.guard.lock().unwrap_or_else(PoisonError::into_inner);
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
@@ -290,6 +297,8 @@ impl<T: Bytes + ConstEq> PartialEq for Boxed<T> {
     }
 }
 
+impl<T: Bytes + ConstEq + Eq> Eq for Boxed<T> {}
+
 impl<T: Bytes + Zeroed> From<&mut T> for Boxed<T> {
     fn from(data: &mut T) -> Self {
         Self::new(1, |b| unsafe { data.copy_and_zero(b.as_mut()) })
-- 
2.43.0


From 2d7cd4f1835422ef5a6c9a9730a8ca77ad0bee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 14/24] hooks: scheduling points in locks and transactions for
 the verification harness (--cfg vp_hooks)

---
 client/src/types/client.rs                    |   6 +-
 client/src/types/store.rs                     |   6 +-
 client/src/types/stronghold.rs                |   6 +-
 engine/runtime/src/boxed.rs                   |   8 +-
 engine/runtime/src/lib.rs                     |   4 +
 .../src/memories/noncontiguous_memory.rs      |  12 +-
 engine/runtime/src/vp_hooks.rs                | 161 ++++++++++++++++++
 engine/runtime/src/vp_hooks_serde.rs          |  22 +++
 stm/src/lib.rs                                |   3 +
 stm/src/stm/stm.rs                            |   6 +
 stm/src/stm/transaction.rs                    |   2 +
 stm/src/stm/tvar.rs                           |  11 +-
 12 files changed, 241 insertions(+), 6 deletions(-)
 create mode 100644 engine/runtime/src/vp_hooks.rs
 create mode 100644 engine/runtime/src/vp_hooks_serde.rs

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index 679c7c1..4533bda 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -1,5 +1,9 @@
 // Copyright 2020-2022 IOTA Stiftung
 // SPDX-License-Identifier: Apache-2.0
+#[cfg(not(vp_hooks))]
+use std::sync::RwLock;
+#[cfg(vp_hooks)]
+use engine::runtime::vp_hooks::RwLock;
 use super::{location, snapshot};
 
 use crate::{
@@ -18,7 +22,7 @@ use engine::{
 use std::{
     collections::HashMap,
     error::Error,
-    sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard},
+    sync::{Arc, RwLockReadGuard, RwLockWriteGuard},
     time::Duration,
 };
 use stronghold_utils::GuardDebug;
diff --git a/client/src/types/store.rs b/client/src/types/store.rs
index bbef039..9a2f3ab 100644
--- a/client/src/types/store.rs
+++ b/client/src/types/store.rs
@@ -1,11 +1,15 @@
 // Copyright 2020-2022 IOTA Stiftung
 // SPDX-License-Identifier: Apache-2.0
 
+#[cfg(not(vp_hooks))]
+use std::sync::RwLock;
+#[cfg(vp_hooks)]
+use engine::runtime::vp_hooks::RwLock;
 use std::{
     error::Error,
     marker::PhantomData,
     ops::Deref,
-    sync::{Arc, RwLock, RwLockReadGuard},
+    sync::{Arc, RwLockReadGuard},
     time::Duration,
 };
 
diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 9adcb0b..a6435b4 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -1,5 +1,9 @@
 // Copyright 2020-2022 IOTA Stiftung
 // SPDX-License-Identifier: Apache-2.0
+#[cfg(not(vp_hooks))]
+use std::sync::RwLock;
+#[cfg(vp_hooks)]
+use engine::runtime::vp_hooks::RwLock;
 use crate::{
     procedures::Runner,
     sync::{SnapshotHierarchy, SyncSnapshots, SyncSnapshotsConfig},
@@ -11,7 +15,7 @@ use engine::vault::ClientId;
 use std::{
     collections::{hash_map::Entry, HashMap},
     ops::Deref,
-    sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard},
+    sync::{Arc, RwLockReadGuard, RwLockWriteGuard},
 };
 use stronghold_utils::GuardDebug;
 use zeroize::Zeroize;
diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 5d3224e..5dca0f9 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -12,7 +12,11 @@ use core::{
     slice,
 };
 
-use std::sync::{Mutex, PoisonError};
+#[cfg(vp_hooks)]
+use crate::vp_hooks::Mutex;
+#[cfg(not(vp_hooks))]
+use std::sync::Mutex;
+use std::sync::PoisonError;
 
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
@@ -315,6 +319,8 @@ unsafe impl<T: Bytes + Send> Send for Boxed<T> {}
 unsafe impl<T: Bytes + Sync> Sync for Boxed<T> {}
 
 fn mprotect<T>(ptr: *mut T, prot: Prot) {
+    #[cfg(vp_hooks)]
+    crate::vp_hooks::point("mprotect", ptr as usize);
     if !match prot {
         Prot::NoAccess => unsafe { sodium_mprotect_noaccess(ptr as *mut _) == 0 },
         Prot::ReadOnly => unsafe { sodium_mprotect_readonly(ptr as *mut _) == 0 },
diff --git a/engine/runtime/src/lib.rs b/engine/runtime/src/lib.rs
index eee87d4..27a172f 100644
--- a/engine/runtime/src/lib.rs
+++ b/engine/runtime/src/lib.rs
@@ -9,6 +9,10 @@ pub mod locked_memory;
 pub mod memories;
 mod types;
 pub mod utils;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
+#[cfg(vp_hooks)]
+mod vp_hooks_serde;
 
 pub use thiserror::Error as DeriveError;
 pub use types::Bytes;
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a7f7fab..7b17af9 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -28,7 +28,11 @@ use serde::{
     ser::{Serialize, Serializer},
 };
 
-use std::{cell::RefCell, sync::Mutex};
+#[cfg(vp_hooks)]
+use crate::vp_hooks::Mutex;
+use std::cell::RefCell;
+#[cfg(not(vp_hooks))]
+use std::sync::Mutex;
 
 #[allow(dead_code)]
 static IMPOSSIBLE_CASE: &str = "NonContiguousMemory: this case should not happen if allocated properly";
@@ -154,6 +158,12 @@ impl NonContiguousMemory {
         Ok((shard1.get()?, shard2.get()?))
     }
 
+    /// The present content of the two shards, for the verification harness.
+    #[cfg(vp_hooks)]
+    pub fn vp_shards(&self) -> Result<(Vec<u8>, Vec<u8>), MemoryError> {
+        self.get_shards_data()
+    }
+
     /// Returns the memory addresses of the two inner shards.
     ///
     /// This is for testing purposes only, and is intended to work with `NCConfig::FullRam`
diff --git a/engine/runtime/src/vp_hooks.rs b/engine/runtime/src/vp_hooks.rs
new file mode 100644
index 0000000..0c6a2f0
--- /dev/null
+++ b/engine/runtime/src/vp_hooks.rs
@@ -0,0 +1,161 @@
+// Copyright 2020-2022 IOTA Stiftung
+// SPDX-License-Identifier: Apache-2.0
+
+//! Scheduling points for the verification harness. Only compiled with `--cfg vp_hooks`.
+//!
+//! The locks of this module behave like those of the standard library, but tell a registered
+//! scheduler when a thread is about to take one and when it has to wait for it.
+
+use std::sync::{
+    self, atomic::AtomicUsize, atomic::Ordering, LockResult, MutexGuard, OnceLock, PoisonError, RwLockReadGuard,
+    RwLockWriteGuard, TryLockError,
+};
+
+/// What a thread reports.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    /// The thread may be interrupted here.
+    Point,
+    /// The thread cannot go on before another one has done something.
+    Blocked,
+}
+
+/// Returns false if the calling thread is not under control of the scheduler.
+pub type Hook = fn(Event, &'static str, usize) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Registers the scheduler.
+pub fn set(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+/// A place where another thread may run.
+pub fn point(what: &'static str, addr: usize) -> bool {
+    HOOK.get().map(|h| h(Event::Point, what, addr)).unwrap_or(false)
+}
+
+/// The calling thread has to wait. Returns false if it is not under control of the scheduler.
+pub fn blocked(what: &'static str, addr: usize) -> bool {
+    HOOK.get().map(|h| h(Event::Blocked, what, addr)).unwrap_or(false)
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(t: T) -> Self {
+        Mutex(sync::Mutex::new(t))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let addr = self as *const _ as usize;
+        if !point("mutex", addr) {
+            return self.0.lock();
+        }
+        loop {
+            match self.0.try_lock() {
+                Ok(g) => return Ok(g),
+                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(e.into_inner())),
+                Err(TryLockError::WouldBlock) => {
+                    if !blocked("mutex", addr) {
+                        return self.0.lock();
+                    }
+                }
+            }
+        }
+    }
+
+    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError<MutexGuard<'_, T>>> {
+        point("trylock", self as *const _ as usize);
+        self.0.try_lock()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+
+/// Readers wait while a writer waits, as with the standard library.
+#[derive(Debug, Default)]
+pub struct RwLock<T> {
+    inner: sync::RwLock<T>,
+    waiting: AtomicUsize,
+}
+
+impl<T> RwLock<T> {
+    pub fn new(t: T) -> Self {
+        RwLock {
+            inner: sync::RwLock::new(t),
+            waiting: AtomicUsize::new(0),
+        }
+    }
+
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        let addr = self as *const _ as usize;
+        if !point("read", addr) {
+            return self.inner.read();
+        }
+        loop {
+            if self.waiting.load(Ordering::SeqCst) == 0 {
+                match self.inner.try_read() {
+                    Ok(g) => return Ok(g),
+                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(e.into_inner())),
+                    Err(TryLockError::WouldBlock) => {}
+                }
+            }
+            if !blocked("read", addr) {
+                return self.inner.read();
+            }
+        }
+    }
+
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        let addr = self as *const _ as usize;
+        if !point("write", addr) {
+            return self.inner.write();
+        }
+        let mut waits = false;
+        let res = loop {
+            match self.inner.try_write() {
+                Ok(g) => break Ok(g),
+                Err(TryLockError::Poisoned(e)) => break Err(PoisonError::new(e.into_inner())),
+                Err(TryLockError::WouldBlock) => {
+                    if !waits {
+                        waits = true;
+                        self.waiting.fetch_add(1, Ordering::SeqCst);
+                    }
+                    if !blocked("write", addr) {
+                        break self.inner.write();
+                    }
+                }
+            }
+        };
+        if waits {
+            self.waiting.fetch_sub(1, Ordering::SeqCst);
+        }
+        res
+    }
+
+    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError<RwLockReadGuard<'_, T>>> {
+        point("tryread", self as *const _ as usize);
+        self.inner.try_read()
+    }
+
+    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError<RwLockWriteGuard<'_, T>>> {
+        point("trywrite", self as *const _ as usize);
+        self.inner.try_write()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+}
diff --git a/engine/runtime/src/vp_hooks_serde.rs b/engine/runtime/src/vp_hooks_serde.rs
new file mode 100644
index 0000000..937a949
--- /dev/null
+++ b/engine/runtime/src/vp_hooks_serde.rs
@@ -0,0 +1,22 @@
+// Copyright 2020-2022 IOTA Stiftung
+// SPDX-License-Identifier: Apache-2.0
+
+//! Serialization of the locks in [`crate::vp_hooks`]. Only compiled with `--cfg vp_hooks`.
+
+use crate::vp_hooks::RwLock;
+use serde::{de::Deserialize, ser::Error, Deserializer, Serialize, Serializer};
+
+impl<T: Serialize> Serialize for RwLock<T> {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        match self.read() {
+            Ok(t) => t.serialize(serializer),
+            Err(_) => Err(S::Error::custom("lock poison error while serializing")),
+        }
+    }
+}
+
+impl<'de, T: Deserialize<'de>> Deserialize<'de> for RwLock<T> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        T::deserialize(deserializer).map(RwLock::new)
+    }
+}
diff --git a/stm/src/lib.rs b/stm/src/lib.rs
index 6a6204e..157c6a8 100644
--- a/stm/src/lib.rs
+++ b/stm/src/lib.rs
@@ -3,3 +3,6 @@
 
 pub mod rlu;
 pub mod stm;
+#[cfg(vp_hooks)]
+#[path = "../../engine/runtime/src/vp_hooks.rs"]
+pub mod vp_hooks;
diff --git a/stm/src/stm/stm.rs b/stm/src/stm/stm.rs
index 38ec18c..95223b6 100644
--- a/stm/src/stm/stm.rs
+++ b/stm/src/stm/stm.rs
@@ -30,11 +30,17 @@ pub struct Stm {
 
 impl Stm {
     pub fn get_clock(&self) -> usize {
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("clock", 0);
         self.clock.load(Ordering::SeqCst)
     }
 
     pub fn increment_clock(&self) -> usize {
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("clock", 0);
         self.clock.fetch_add(1, Ordering::SeqCst);
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("clock", 0);
         self.clock.load(Ordering::SeqCst)
     }
 
diff --git a/stm/src/stm/transaction.rs b/stm/src/stm/transaction.rs
index 99e1b5c..8bed9f2 100644
--- a/stm/src/stm/transaction.rs
+++ b/stm/src/stm/transaction.rs
@@ -103,6 +103,8 @@ impl Transaction {
         values: Vec<Option<SharedValue>>,
     ) -> Result<(), TxError> {
         for (mut lock, value) in locks.into_iter().zip(values.into_iter()) {
+            #[cfg(vp_hooks)]
+            crate::vp_hooks::point("commit", 0);
             if let Some(value) = value {
                 lock.value = value;
                 lock.version = wv;
diff --git a/stm/src/stm/tvar.rs b/stm/src/stm/tvar.rs
index 5c5216e..dfcc7b2 100644
--- a/stm/src/stm/tvar.rs
+++ b/stm/src/stm/tvar.rs
@@ -1,12 +1,17 @@
 // Copyright 2020-2022 IOTA Stiftung
 // SPDX-License-Identifier: Apache-2.0
 
+#[cfg(vp_hooks)]
+use crate::vp_hooks::Mutex;
+#[cfg(not(vp_hooks))]
+use std::sync::Mutex;
+
 use crate::stm::{error::TxError, shared_value::*};
 
 use std::{
     fmt::Debug,
     hash::{Hash, Hasher},
-    sync::{Arc, Mutex, MutexGuard},
+    sync::{Arc, MutexGuard},
     time::Duration,
 };
 
@@ -46,6 +51,10 @@ impl TVar {
                 return lock;
             }
 
+            #[cfg(vp_hooks)]
+            if crate::vp_hooks::blocked("tvar", 0) {
+                continue;
+            }
             // Safe some cpu time.
             std::thread::sleep(Duration::from_millis(1));
 
-- 
2.43.0


From b09b6024c89131afe7432c8e85007aa258c40dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 15/24] fix: compare lengths before contents of borrowed
 buffers

---
 engine/runtime/src/types/const_eq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/runtime/src/types/const_eq.rs b/engine/runtime/src/types/const_eq.rs
index f827ef5..f55dc86 100644
--- a/engine/runtime/src/types/const_eq.rs
+++ b/engine/runtime/src/types/const_eq.rs
@@ -8,6 +8,11 @@ use libsodium_sys::sodium_memcmp;
 /// A trait for comparing types in Constant Time using [`sodium_memcmp`].
 pub trait ConstEq: ContiguousBytes {
     fn const_eq(&self, rhs: &Self) -> bool {
+        // comparing different lengths would read beyond the end of the shorter one
+        if self.as_bytes().len() != rhs.as_bytes().len() {
+            return false;
+        }
+
         unsafe {
             sodium_memcmp(
                 self.as_bytes().as_ptr() as *const _,
-- 
2.43.0


From 82d9a8f73ac03c443304d02fd3e1b82ccc9de44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 16/24] fix: clone fragmented memory instead of sharing and
 freeing it twice

---
 engine/runtime/src/memories/frag.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..d2cd1ca 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -82,6 +81,25 @@ impl<T: Default + Clone> Zeroize for Frag<T> {
     }
 }
 
+/// A clone owns memory of its own, allocated with the same strategy.
+impl<T: Default + Clone> Clone for Frag<T> {
+    fn clone(&self) -> Self {
+        let error_msg = "Error while cloning fragment memory";
+        let mut frag = match self.strategy {
+            FragStrategy::Direct => DirectAlloc::alloc(None),
+            FragStrategy::Map => MemoryMapAlloc::alloc(None),
+            FragStrategy::Hybrid => unreachable!("Frag are allocated only using map or direct allocation"),
+        }
+        .expect(error_msg);
+
+        match self.get() {
+            Ok(data) => frag.set(data.clone()).expect(error_msg),
+            Err(_) => frag.zeroize(),
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Drop for Frag<T> {
     fn drop(&mut self) {
         self.zeroize();
-- 
2.43.0


From 05ff43618589f33e95a4affdabf7c7614561ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 17/24] fix: do not free a rejected fragment twice

---
 engine/runtime/src/memories/frag.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index d2cd1ca..ae7b585 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -145,7 +145,7 @@ impl<T: Default + Clone> Frag<T> {
 
         for _ in 0..MAX_RETRY_ATTEMPTS {
             let config = Some(FragConfig::new(a.ptr.as_ptr() as usize));
-            let mut b = match strategy {
+            let b = match strategy {
                 FragStrategy::Direct => DirectAlloc::alloc(config),
                 FragStrategy::Map => MemoryMapAlloc::alloc(config),
                 FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
@@ -159,7 +159,6 @@ impl<T: Default + Clone> Frag<T> {
                     b.ptr.as_ptr() as usize,
                     &a as *const _ as usize
                 );
-                Frag::dealloc(&mut b)?;
                 continue;
             }
             info!("Mapped 2 fragments: at {:?} and {:?}", a.ptr, b.ptr);
-- 
2.43.0


From ca3afac5b90534af5cc90f5f9d53651d71f39e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 18/24] fix: list_records leaves out revoked records

---
 engine/src/vault/view.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 6abf8a9..de5aa84 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -243,7 +243,13 @@ impl<P: BoxProvider> DbView<P> {
     pub fn list_records(&self, vid: &VaultId) -> Vec<RecordId> {
         self.vaults
             .get(vid)
-            .map(|v| v.entries.keys().map(|&c| c.into()).collect())
+            .map(|v| {
+                v.entries
+                    .iter()
+                    .filter(|(_, record)| record.revoke.is_none())
+                    .map(|(&c, _)| c.into())
+                    .collect()
+            })
             .unwrap_or_default()
     }
 
-- 
2.43.0


From 7b08deb3c81c7909939ec40fd6e0498322fc1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 19/24] fix: a refused import_records does not create the vault

---
 engine/src/vault/view.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index de5aa84..cc61da1 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -301,12 +301,12 @@ impl<P: BoxProvider> DbView<P> {
         vid: VaultId,
         mut records: Vec<(RecordId, Record)>,
     ) -> Result<(), RecordError<P::Error>> {
-        if !self.vaults.contains_key(&vid) {
-            self.init_vault(new_key, vid);
-        }
         for (rid, record) in &mut records {
             record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
+        if !self.vaults.contains_key(&vid) {
+            self.init_vault(new_key, vid);
+        }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
     }
-- 
2.43.0


From c6f0f59eeeb91958e32253118fec22ddbd24a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 20/24] fix: a read in a section no longer discards its open
 write guards

get and get_mut reset the mark that makes releasing a guard commit, so that
a change made through a write guard was silently lost if the section asked
for another guard before it released the write guard.
---
 stm/src/rlu/rlu.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stm/src/rlu/rlu.rs b/stm/src/rlu/rlu.rs
index d28c3f0..066a2d3 100644
--- a/stm/src/rlu/rlu.rs
+++ b/stm/src/rlu/rlu.rs
@@ -287,7 +287,6 @@ where
     T: Clone,
 {
     pub fn read_lock(&self) {
-        self.is_writer.store(false, Ordering::SeqCst);
         self.run_count.fetch_add(1, Ordering::SeqCst);
         self.local_clock
             .store(self.ctrl.global_count.load(Ordering::SeqCst), Ordering::SeqCst);
-- 
2.43.0


From 71c7658609082638c10176c232295485b01ea0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 21/24] hooks: scheduling points in read-log-update variables
 (cfg vp_hooks)

---
 stm/src/rlu/guard/write.rs |  7 ++++++-
 stm/src/rlu/rlu.rs         | 13 ++++++++++++-
 stm/src/rlu/var.rs         |  7 ++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/stm/src/rlu/guard/write.rs b/stm/src/rlu/guard/write.rs
index f02ac1d..68ff457 100644
--- a/stm/src/rlu/guard/write.rs
+++ b/stm/src/rlu/guard/write.rs
@@ -6,9 +6,14 @@ use std::{
     ops::{Deref, DerefMut},
     sync::{
         atomic::{AtomicUsize, Ordering},
-        Arc, MutexGuard, RwLock,
+        Arc, MutexGuard,
     },
 };
+#[cfg(not(vp_hooks))]
+use std::sync::RwLock;
+
+#[cfg(vp_hooks)]
+use crate::vp_hooks::RwLock;
 
 pub enum WriteGuardType<'a, T>
 where
diff --git a/stm/src/rlu/rlu.rs b/stm/src/rlu/rlu.rs
index 066a2d3..650f32f 100644
--- a/stm/src/rlu/rlu.rs
+++ b/stm/src/rlu/rlu.rs
@@ -9,10 +9,15 @@ use std::{
     ops::{Deref, DerefMut},
     sync::{
         atomic::{AtomicBool, AtomicUsize, Ordering},
-        Arc, Mutex, RwLock,
+        Arc,
     },
     time::Duration,
 };
+#[cfg(not(vp_hooks))]
+use std::sync::{Mutex, RwLock};
+
+#[cfg(vp_hooks)]
+use crate::vp_hooks::{Mutex, RwLock};
 
 use crate::rlu::{var::InnerVarCopy, BusyBreaker, InnerVar, RLULog, RLUVar, Read, ReadGuard, Write, WriteGuard};
 
@@ -287,6 +292,8 @@ where
     T: Clone,
 {
     pub fn read_lock(&self) {
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("clock", 0);
         self.run_count.fetch_add(1, Ordering::SeqCst);
         self.local_clock
             .store(self.ctrl.global_count.load(Ordering::SeqCst), Ordering::SeqCst);
@@ -582,9 +589,13 @@ where
     }
 
     fn commit_log(&self) -> Result<()> {
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("clock", 0);
         self.write_clock
             .store(self.ctrl.global_count.load(Ordering::SeqCst) + 1, Ordering::SeqCst);
         self.ctrl.global_count.fetch_add(1, Ordering::SeqCst);
+        #[cfg(vp_hooks)]
+        crate::vp_hooks::point("commit", 0);
         self.synchronize()?;
         self.write_back_log()?;
         self.reset_write_clock();
diff --git a/stm/src/rlu/var.rs b/stm/src/rlu/var.rs
index 770e063..4768058 100644
--- a/stm/src/rlu/var.rs
+++ b/stm/src/rlu/var.rs
@@ -5,8 +5,13 @@ use crate::rlu::{guard::BaseGuard, Result, TransactionError, RLU};
 use log::*;
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
-    Arc, Mutex, RwLock,
+    Arc,
 };
+#[cfg(not(vp_hooks))]
+use std::sync::{Mutex, RwLock};
+
+#[cfg(vp_hooks)]
+use crate::vp_hooks::{Mutex, RwLock};
 
 /// This type represents an rlu managed type. The type is is not being constructed directly
 /// but with the help of [`RLU`].
-- 
2.43.0


From 2cd510a210f22b9783861892c51c9f40f61acb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 22/24] fix: reading a sequence does not reserve the length
 that forged data announces

---
 engine/runtime/src/memories/buffer.rs               | 2 +-
 engine/runtime/src/memories/file_memory.rs          | 2 +-
 engine/runtime/src/memories/mod.rs                  | 4 ++++
 engine/runtime/src/memories/noncontiguous_memory.rs | 2 +-
 engine/runtime/src/memories/ram_memory.rs           | 2 +-
 5 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/buffer.rs b/engine/runtime/src/memories/buffer.rs
index 2b32dca..e586c12 100644
--- a/engine/runtime/src/memories/buffer.rs
+++ b/engine/runtime/src/memories/buffer.rs
@@ -261,7 +261,7 @@ where
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0).min(crate::memories::MAX_PREALLOCATION));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..300bd4a 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -266,7 +266,7 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(crate::memories::MAX_PREALLOCATION));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/mod.rs b/engine/runtime/src/memories/mod.rs
index c04f3cb..0cc22c4 100644
--- a/engine/runtime/src/memories/mod.rs
+++ b/engine/runtime/src/memories/mod.rs
@@ -7,3 +7,7 @@ pub mod file_memory;
 pub mod frag;
 pub mod noncontiguous_memory;
 pub mod ram_memory;
+
+/// Upper bound of the capacity reserved for a sequence before its elements have been read.
+/// The length is announced by the serialised data, which may be damaged or forged.
+pub(crate) const MAX_PREALLOCATION: usize = 4096;
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index 7b17af9..b9aa8d3 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -318,7 +318,7 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(crate::memories::MAX_PREALLOCATION));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 5ff1f87..3dbe78c 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -125,7 +125,7 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(crate::memories::MAX_PREALLOCATION));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
-- 
2.43.0


From 7ca5ea7eb750ab18573b4ae1da31fb7376b687b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 23/24] fix: a record whose blob cannot be decrypted makes the
 operation fail instead of panicking

---
 engine/src/vault/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index cc61da1..8fc6f63 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -514,7 +514,10 @@ impl Record {
 
         let blob = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|e| match e {
+                DecryptError::Provider(e) => RecordError::Provider(e),
+                DecryptError::Invalid => unreachable!("Vec<u8>: TryFrom<Vec<u8>> is infallible."),
+            })?;
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From 9e83f33f154a0f8cde31683cb57def73058d2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 24/24] fix: deserialising a locked memory of unsupported size
 fails instead of panicking

---
 engine/runtime/src/memories/file_memory.rs          | 4 +---
 engine/runtime/src/memories/noncontiguous_memory.rs | 5 +----
 engine/runtime/src/memories/ram_memory.rs           | 5 +----
 3 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 300bd4a..dbcbfb7 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -272,9 +272,7 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = FileMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to deserialize file memory");
-
-        Ok(seq)
+        FileMemory::alloc(seq.as_slice(), seq.len()).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index b9aa8d3..58d2bd5 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -324,10 +324,7 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION)
-            .expect("Failed to allocate NonContiguousMemory during deserialization");
-
-        Ok(seq)
+        NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 3dbe78c..e65d250 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -131,10 +131,7 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
             seq.push(e);
         }
 
-        let seq =
-            RamMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to allocate RamMemory during deserialization");
-
-        Ok(seq)
+        RamMemory::alloc(seq.as_slice(), seq.len()).map_err(serde::de::Error::custom)
     }
 }
 
-- 
2.43.0

