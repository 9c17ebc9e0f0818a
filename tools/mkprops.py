#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "A vault record always holds the value last written to it",
  "After any sequence of operations on a client, a record that was written and not removed since yields, to every procedure that uses it and through every handle of the same client, exactly the bytes of the last successful write, copy or derivation that targeted it, and a record never written does not exist. Writing, revoking or collecting a record changes no record in another location, vault or client. Existence queries for vaults and records agree with this at all times.",
  ["histories", "inputs"], "every finite sequence of client operations (write, generate, copy, derive, revoke, delete, collect, sync, commit, load, clear) over any number of clients, vaults, record paths and counters, through any handle, with payloads of any length",
  "The tests write one or two records per vault in fixed orders and mostly check that calls return Ok; interference between vaults, handles and clients only shows in specific mixed histories.",
  ["client/src/types/client.rs", "client/src/types/vault.rs", "client/src/types/location.rs", "client/src/procedures/clientrunner.rs", "client/src/procedures/primitives.rs", "client/src/security/keystore.rs", "engine/src/vault/view.rs", "engine/src/vault/types/transactions.rs"],
  [("vault view", "encrypted records per vault of a client", "engine/src/vault/view.rs DbView/Vault/Record"), ("key store", "vault keys of a client, encrypted under a master key", "client/src/security/keystore.rs")],
  [("take key, write record, put key back", "client/src/procedures/clientrunner.rs write_to_vault"), ("record update keeps id and hint, replaces blob", "engine/src/vault/view.rs update_data")],
  ["Client::record_exists", "Client::vault_exists", "CompareSecret / Hmac / PublicKey procedure outputs"])

p("C02", "Revoked or deleted secrets are gone; collection removes only those",
  "Once a record has been revoked or deleted, no procedure can use it, existence queries deny it, and neither export, synchronisation, commit nor reload brings its content back. Garbage collection removes exactly the revoked records of the one vault it names, leaves every other record readable, and afterwards the location can be written afresh. Revoking twice, revoking a missing record, or collecting a vault without garbage changes nothing.",
  ["histories"], "every finite history of writes, revocations, deletions, collections, syncs, commits and reloads over several vaults and records",
  "Tests revoke one record in one vault and collect immediately; they do not mix revoked and live records across vaults, syncs and snapshot round trips.",
  ["client/src/types/vault.rs", "client/src/procedures/clientrunner.rs", "engine/src/vault/view.rs", "client/src/sync.rs"],
  [("revocation marker", "sealed revocation transaction of a record", "engine/src/vault/view.rs Record.revoke")],
  [("revoked records fail to decrypt", "engine/src/vault/view.rs get_transaction"), ("collection filters revoked entries", "engine/src/vault/view.rs garbage_collect")],
  ["Client::record_exists", "ClientVault::{revoke_secret,delete_secret,cleanup}", "procedure results"])

p("C03", "A failed operation leaves all existing secrets as they were",
  "When a single procedure or vault operation fails for whatever reason (missing source vault or record, wrong key type or length, bad arguments, failing decryption), every record that existed before still exists with the same content and no new readable record appears.",
  ["histories", "inputs", "fault_sequences"], "every failing call of every procedure, in every reachable client state, with target locations that are empty, live, revoked, or equal to the source",
  "Tests exercise a few failing procedures on fresh targets only and do not look at what happened to a secret already stored at the target.",
  ["client/src/types/client.rs", "client/src/procedures/clientrunner.rs", "client/src/procedures/primitives.rs", "engine/src/vault/view.rs"],
  [("chain log", "locations to revoke if a chain fails", "client/src/types/client.rs execute_procedure_chained")],
  [("sources are resolved and the product computed before the target is written", "engine/src/vault/view.rs exec_procedure"), ("rollback on error", "client/src/types/client.rs execute_procedure_chained")],
  ["Result of execute_procedure", "record_exists and secret comparison before and after"])

p("C04", "A failed procedure chain leaves none of its products readable",
  "When a chain of procedures fails at some step, the caller gets that step's error, no later step runs, and no record produced by an executed step of the chain can be read any more. Records the chain never targeted keep their contents; a chain that succeeds returns one output per step, in order, each equal to what the step returns when run alone in the same state.",
  ["programs", "histories"], "every chain of any procedures (every kind that produces a secret included) failing at any position, started from any client state",
  "One test chains a few procedures with one failing step; the rollback depends on a hand-kept list of producing procedures that no test walks through.",
  ["client/src/types/client.rs", "client/src/procedures/primitives.rs"],
  [("chain log", "outputs produced so far", "client/src/types/client.rs")],
  [("per-procedure output location", "client/src/procedures/primitives.rs StrongholdProcedure::output"), ("revoke logged outputs", "client/src/types/client.rs")],
  ["execute_procedure_chained result", "record_exists / secret comparison afterwards"])

p("C05", "Committing and loading a snapshot restores every client exactly",
  "Loading a snapshot file with the key it was committed under yields, for every client contained in it, exactly the vault records (with revocations), vault keys and store entries the client had when its state was last captured into the snapshot, and nothing else. This holds after any number of commit, load, purge and re-commit rounds, for any number of clients and for contents of any size and shape. A purged client is absent from every later commit, and a client that was unloaded without purging stays present as last captured.",
  ["histories", "inputs"], "every history of client operations interleaved with captures, commits, purges and loads, across processes; every size and byte pattern of stored data",
  "Tests do one commit and one load of one or two clients with random data; they never compare the whole state nor run several rounds.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "engine/src/snapshot/logic.rs", "engine/src/snapshot/compression/encoder.rs", "engine/src/snapshot/compression/decoder.rs"],
  [("snapshot states", "encrypted client states held in memory", "client/src/types/snapshot.rs Snapshot.states"), ("snapshot file", "compressed, encrypted states", "engine/src/snapshot/logic.rs")],
  [("capture of a client", "client/src/types/stronghold.rs write_with_clientid!"), ("restore of a client", "client/src/types/client.rs restore")],
  ["load_client, load_client_from_snapshot in a fresh instance, then full comparison of the client"])

p("C06", "Wrong keys and damaged snapshot files are rejected without effect",
  "Loading a snapshot with any key other than the one it was committed under, or a file that was truncated, extended, altered in any byte, replaced by another kind of file, or is missing, returns an error and never panics. After such a failed load the in-memory snapshot, the loaded clients and their contents are what they were before. Content that is properly encrypted but no complete snapshot state never makes the loading panic or abort: it is refused without effect, or loaded, and then using it does not panic either.",
  ["inputs", "fault_sequences"], "every single-byte change, truncation and extension of a snapshot file, every wrong key, every non-snapshot file",
  "One test loads a corrupted file; positions, truncation lengths and the state after the failure are not explored.",
  ["engine/src/snapshot/logic.rs", "engine/src/snapshot/compression/decoder.rs", "client/src/types/stronghold.rs", "client/src/types/snapshot.rs"],
  [("file header", "magic, version, ephemeral key, tag", "engine/src/snapshot/logic.rs")],
  [("header check and AEAD decryption before anything is replaced", "engine/src/snapshot/logic.rs read_from"), ("state is assigned only after success", "client/src/types/stronghold.rs load_snapshot!")],
  ["Result of load_snapshot / load_client_from_snapshot", "full state comparison before and after"])

p("C07", "Committing is atomic: a crash never costs the previous snapshot",
  "Whatever happens during a commit (the process is killed at any point, the machine loses power, or any file operation fails), the snapshot path afterwards holds either the complete previous snapshot or the complete new one, loadable with its key, and never a partial or mixed file. A commit that reports success has made the new snapshot durable in content before it replaced the old one, and a commit that reports an error leaves the previous snapshot in place.",
  ["crash_points", "fault_sequences"], "every system-call boundary of a commit as crash point, every subset of un-synced file operations lost, every file operation failing once with an I/O error or a short write",
  "Tests never crash or fail a commit.",
  ["engine/src/snapshot/logic.rs", "client/src/types/stronghold.rs"],
  [("snapshot file and its temporary sibling", "file system objects", "engine/src/snapshot/logic.rs write_to")],
  [("write temporary, sync, rename", "engine/src/snapshot/logic.rs write_to")],
  ["system calls of a commit", "the file left behind, loaded by a fresh process"])

p("C08", "Clients are created, loaded, unloaded and purged consistently",
  "Looking up a client by path succeeds exactly when it was created or loaded and not unloaded, purged or cleared since, and yields the same live client as every other handle from that lookup. Loading a client fails with the documented error when it is already loaded or when the snapshot has no data for it, and otherwise yields its captured state; capturing a client that is not loaded fails. Clearing or resetting a session forgets all clients, captured states, session-store entries and the stored key location.",
  ["histories"], "every history of create, get, load, load-from-file, unload, purge, capture, clear and reset over several client paths and snapshot files",
  "Tests check single create/load/purge sequences; repeated and crossed lifecycles over several clients are not covered.",
  ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs"],
  [("client table", "loaded clients by id", "client/src/types/stronghold.rs Stronghold.clients"), ("snapshot states", "captured states by id", "client/src/types/snapshot.rs")],
  [("already-loaded and data-present checks", "client/src/types/stronghold.rs load_client")],
  ["results of the session operations"])

p("C09", "The store is an exact, expiring, persistent key-value map",
  "A store read returns the value of the last insert for that key that has neither been deleted nor reached its lifetime, and nothing otherwise; insert and delete return the previous unexpired value; key listing contains every live key and no key that was never inserted or was deleted. A value with a lifetime is readable before and unreadable from the moment the lifetime has elapsed, including across commit and load, and values without a lifetime never expire. No lifetime makes the store panic.",
  ["histories", "inputs"], "every history of insert, get, delete, contains, keys, clear, commit, load and passing time over several keys, values and lifetimes including zero and the largest representable one",
  "The tests sleep once or twice with one key; expiry boundaries, overwrites of expiring keys and persistence of deadlines are not covered.",
  ["client/src/types/store.rs", "engine/src/store/storage/cache.rs", "engine/src/store/storage.rs"],
  [("cache table", "values with optional deadline", "engine/src/store/storage/cache.rs")],
  [("expiry check on every read", "engine/src/store/storage.rs has_expired")],
  ["Store::{insert,get,delete,contains_key,keys,clear}"])

p("C10", "Synchronising vaults copies exactly the selected records",
  "Synchronising vaults within a client or from one client into another leaves the source unchanged and makes the target contain exactly: for every selected live source record, the source value under the mapped vault, except that with the keep policy a live record already in the target wins; every other target record is unchanged. Unselected, unmapped-to and revoked source records are never copied. Synchronising again with the same arguments changes nothing.",
  ["histories", "configurations"], "every selection of vaults and records, every vault mapping, both merge policies, on every pair of source and target states including absent, empty and revoked targets",
  "The tests cover three hand-made configurations on fresh random records and check presence by identifier, not contents.",
  ["client/src/sync.rs", "client/src/types/client.rs", "engine/src/vault/view.rs"],
  [("hierarchy and diff", "which records are to be copied", "client/src/sync.rs")],
  [("diff against the target, export, re-encrypt and import", "client/src/sync.rs get_diff; engine/src/vault/view.rs import_records")],
  ["Client::sync_with, Client::sync_vaults, then full comparison of both clients"])

p("C11", "Exporting and merging snapshot states preserves exactly the selection",
  "Exporting a selection of records from a snapshot for a peer and importing it there under the peer's key makes the peer's snapshot contain exactly the selected live records with their values at the mapped client and vault, subject to the chosen merge policy, and leaves everything else in it unchanged. Importing with a wrong key or damaged bytes fails and changes nothing. A state that a peer encrypted properly but made up or cut short never makes the import, or later use of the snapshot, panic or abort. The same holds for merging a state directly.",
  ["configurations", "inputs", "histories"], "every selection of clients, vaults and records, every mapping of clients and vaults, both merge policies, on every pair of snapshot states",
  "Two tests merge random states with one configuration each and check identifiers only; mapping results are not checked.",
  ["client/src/types/snapshot.rs", "client/src/sync.rs"],
  [("snapshot states", "captured client states", "client/src/types/snapshot.rs")],
  [("export with ephemeral key agreement", "client/src/types/snapshot.rs export_to_serialized_state"), ("merge through diff and import", "client/src/sync.rs SyncSnapshots")],
  ["Snapshot::{merge_state,export_to_serialized_state,import_from_serialized_state,get_snapshot_state}"])

p("C12", "A commit with the stored key uses exactly the stored key",
  "After a snapshot key has been stored, committing without a key writes a file that loads with exactly that key, whatever clients, vaults and other snapshot operations the session also has; storing another key replaces it. Without a stored key such a commit fails and leaves an existing snapshot file untouched. A key provider always yields the same key: the one the named scheme makes of the passphrase (and salt). Equal passphrases under the same scheme yield equal keys, and different ones different keys (when truncating: different in their first 32 bytes). The passphrase handed over is erased.",
  ["histories", "configurations"], "every history of storing keys at locations (also ones that share a path with a client or vault), loading snapshots, purging, clearing and committing; every pair of passphrases and salts, however alike",
  "The test stores one key once at a location of its own and commits once.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "client/src/security/keyprovider.rs"],
  [("key location", "where the snapshot key is kept", "client/src/types/stronghold.rs key_location"), ("snapshot key vault", "record holding the key", "client/src/types/snapshot.rs Snapshot.db/keystore")],
  [("key looked up at its location at commit", "client/src/types/snapshot.rs write_to_snapshot")],
  ["Stronghold::commit result", "load of the written file with each key"])

p("C13", "Concurrent use of one client is linearizable and never crashes",
  "Any number of threads using the same client (its vaults, procedures, store and existence queries) at once always finish, without panic, crash or deadlock, and every result is one that some sequential order of the calls, consistent with real time, would give. No completed write is lost and no reader sees a record or key half updated. Each step of a chain, each revocation after its failure, and the two halves of a deletion (revoke, then collect) count as calls of their own; synchronisations are documented as susceptible to races and only have to finish.",
  ["schedules"], "every interleaving of the lock acquisitions of concurrent operations on shared clients",
  "The multithreaded tests assert only final contents of disjoint records under whatever schedule the machine happens to produce, and one of them aborts from time to time.",
  ["client/src/procedures/clientrunner.rs", "client/src/types/client.rs", "client/src/types/store.rs", "engine/runtime/src/boxed.rs", "engine/src/vault/view.rs"],
  [("key store and vault view locks", "two read-write locks taken in one order", "client/src/types/client.rs Client"), ("protected memory counters", "borrow count and protection of a guarded buffer", "engine/runtime/src/boxed.rs")],
  [("both locks held for the whole vault operation", "client/src/procedures/clientrunner.rs")],
  ["call/return histories of threads"], "yield points at lock operations (read-write locks of the client crate)")

p("C14", "Concurrent session operations stay atomic per client",
  "Commits, captures, loads, lookups, purges and client operations running in parallel never deadlock, and each snapshot contains for every loaded client a state that this client really had at one moment between start and end of the commit: no torn records, no key without its vault, and every operation that completed before the commit began is included. A capture or commit never alters the live client.",
  ["schedules"], "every interleaving of lock acquisitions between commits, captures, lifecycle operations and client operations of several threads",
  "No test commits while other threads write.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "client/src/types/client.rs"],
  [("session locks", "snapshot, client table, client locks in one order", "client/src/types/stronghold.rs")],
  [("client locks are held together during capture", "client/src/types/stronghold.rs write_with_clientid!")],
  ["call/return histories with the loaded content of every committed file"], "yield points at lock operations")

p("C15", "Guarded memory is accessible only while borrowed and returns its data",
  "A guarded buffer's memory is inaccessible to ordinary reads and writes whenever no borrow exists, readable but not writable while shared borrows exist, and writable only during an exclusive borrow, for any nesting and order of borrows, clones and drops and from any number of threads sharing it. Borrows always return exactly the data stored, equality compares contents, copies are independent, and the memory is wiped before it is released.",
  ["schedules", "histories"], "every sequence and interleaving of borrow, clone-of-borrow, mutable borrow, compare, clone, serialise, drop by several threads",
  "Unit tests borrow in straight lines from one thread and never probe the page protection after complex sequences or in parallel.",
  ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs"],
  [("protection and borrow count", "state of the protected allocation", "engine/runtime/src/boxed.rs Boxed.{prot,refs}")],
  [("retain/release with page protection", "engine/runtime/src/boxed.rs retain, release")],
  ["page protection of the buffer's address", "borrowed contents"], "address of the guarded allocation; yield points in retain and release")

p("C16", "Split secrets are always reassembled correctly while being re-split",
  "A secret kept in non-contiguous memory, in any of its configurations, is returned unchanged by every unlock, no matter how many unlocks, refreshes and clones run before or at the same time, and no such operation fails or deadlocks. Neither shard alone equals the secret, every refresh changes both shards, and after the memory is cleared the secret can no longer be obtained.",
  ["schedules", "histories"], "every interleaving of unlock, refresh, clone and clear by several threads, for every shard configuration and every 32-byte secret",
  "Tests unlock sequentially a few times.",
  ["engine/runtime/src/memories/noncontiguous_memory.rs", "engine/runtime/src/memories/ram_memory.rs", "engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/frag.rs"],
  [("two shards", "masked random value and masked secret", "engine/runtime/src/memories/noncontiguous_memory.rs")],
  [("both shards are read and replaced under both locks", "engine/runtime/src/memories/noncontiguous_memory.rs refresh, get_shards_data")],
  ["results of unlock", "shard contents through a test hook"], "yield points at the shard locks, read access to shards")

p("C17", "Locked memories return what was stored and leave nothing behind",
  "A locked memory of any kind (RAM, file, non-contiguous, fragmented) returns exactly the bytes stored by the last allocation or update, independently of its clones, however often it is unlocked. A file-backed memory keeps its file unreadable to other users and never holding the plain secret between uses, and when it is dropped or cleared its content is overwritten and its file removed. A cleared memory refuses to unlock, and sizes that are not supported are rejected, also when a memory is deserialised.",
  ["histories", "inputs"], "every sequence of allocate, unlock, update, clone, clear and drop for every memory kind and data of every supported length",
  "Tests allocate once and unlock once or twice per kind.",
  ["engine/runtime/src/memories/ram_memory.rs", "engine/runtime/src/memories/encrypted_ram.rs", "engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/frag.rs", "engine/runtime/src/locked_memory.rs"],
  [("backing file", "masked content, permissions", "engine/runtime/src/memories/file_memory.rs")],
  [("masking noise, permission changes around access, wipe on drop", "engine/runtime/src/memories/file_memory.rs")],
  ["results of unlock/update", "files in the memory directory"])

p("C18", "Software transactions are serializable and read consistent states",
  "Transactions over shared transactional variables always have an effect equal to running the committed ones one after another in an order consistent with real time; every read inside a transaction, even one that will retry, sees a state that existed between transactions together with the transaction's own writes. A transaction that ends in an error or is retried leaves no trace in any variable, and read-only transactions never change a variable.",
  ["schedules", "programs"], "every interleaving of reads, version checks, locks and commits of several transactions over several variables, with aborts",
  "Tests run counters and transfers under natural scheduling and check sums at the end.",
  ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs", "stm/src/stm/shared_value.rs"],
  [("global clock, variable versions and locks", "TL2 state", "stm/src/stm")],
  [("read validation, commit-time locking and validation", "stm/src/stm/stm.rs, transaction.rs, tvar.rs")],
  ["begin/read/write/end histories of transactions"], "yield points at the lock, clock and version operations")

p("C19", "Software transactions always terminate when conflicts end",
  "Whatever transactions run in parallel, in whatever order they touch variables, they never deadlock, no lock stays held after a transaction finished, and each transaction commits once the transactions conflicting with it have finished. A transaction without concurrent conflicts commits at its first attempt and its writes are visible to every later transaction.",
  ["schedules"], "every fair schedule of several transactions over several variables",
  "Tests time out only if the observed schedule happens to block.",
  ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
  [("variable locks", "held during commit", "stm/src/stm/tvar.rs")],
  [("bounded try-lock and release on retry", "stm/src/stm/stm.rs")],
  ["termination of transactions under controlled schedules"], "yield points at the lock, clock and version operations")

p("C20", "Read-log-update variables give readers consistent snapshots",
  "Readers of read-log-update variables see, for the whole of a read section, values that were all committed before it began, writers never expose uncommitted changes, a write section that aborts leaves no trace, and one that succeeds has made all its changes visible.",
  ["schedules"], "every interleaving of reader and writer sections over several variables",
  "The repository's own tests for it are ignored because they race and deadlock.",
  ["stm/src/rlu/rlu.rs", "stm/src/rlu/var.rs", "stm/src/rlu/guard/read.rs", "stm/src/rlu/guard/write.rs"],
  [("per-thread logs and clocks", "copies of variables being updated", "stm/src/rlu/rlu.rs")],
  [("write-back after readers quiesce", "stm/src/rlu/rlu.rs")],
  ["values read in sections and outside of them"], "the locks and clock operations of the module as scheduling points")

p("C21", "Procedures compute their function of exactly the named secrets",
  "Every procedure that produces a secret stores at its target exactly the documented function of its arguments and of the secrets at its source locations, and every procedure that returns an output returns exactly the documented function of them; sources are never changed. Decryption and unwrapping invert encryption and wrapping made with the same key and parameters and fail for any other key, parameter or ciphertext. Outputs never contain a source secret unless the procedure's purpose is to reveal it.",
  ["programs", "inputs"], "every composition of procedures, so that products feed further procedures, over secrets of every admissible length and arguments of every kind",
  "Tests check round trips of single procedures with random inputs and do not compare stored products with an independent computation.",
  ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs", "client/src/procedures/clientrunner.rs"],
  [("secrets at source and target locations", "vault records", "client/src/procedures/primitives.rs")],
  [("source resolution and product write", "client/src/procedures/clientrunner.rs exec_proc")],
  ["procedure outputs", "comparison of the target secret with the expected value"])

p("C22", "Different locations never share a record",
  "Two different vault paths, client paths, record paths within a vault, or counters never denote the same stored object, whatever bytes and lengths they have, and the same path always denotes the same object in every session.",
  ["inputs"], "every pair of distinct paths of any bytes and lengths, generic and counter based",
  "Tests use short random paths, which collide only in specially related inputs.",
  ["client/src/types/location.rs", "client/src/utils/ids.rs"],
  [("derived identifiers", "24-byte identifiers computed from paths", "client/src/utils/ids.rs")],
  [("keyed hash of the path", "client/src/utils/ids.rs")],
  ["writes and reads through pairs of locations"])

p("C23", "Data at rest never shows secrets and never repeats",
  "A snapshot file or an exported state contains no secret, vault key, store entry, path or snapshot key in readable form, not even when it compresses well. Committing the same state twice with the same key gives unrelated file contents, and so does exporting it twice.",
  ["histories", "inputs"], "every state, key and sequence of commits and exports",
  "No test looks at the bytes on disk.",
  ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs"],
  [("snapshot file bytes", "header, ephemeral key, tag, ciphertext", "engine/src/snapshot/logic.rs")],
  [("ephemeral key agreement and AEAD", "engine/src/snapshot/logic.rs write")],
  ["bytes of committed files and exports"])

p("C24", "The vault engine enforces its keys and reports faithfully",
  "In the storage engine, a vault's records can be read, written, listed with their hints or blob identifiers, revoked, garbage collected, and carried to another vault only with the key the vault was created with; every other key is refused without any change, also when it is only nearly right. Listings report exactly the live records with the hint given at first write and a blob identifier that changes with each write and only then. Exported records stay sealed: importing them into a vault under another key makes them readable there with the same contents, hints and blob identifiers and unreadable with the old key, and importing with a wrong old key, under another identifier, or after any bit was changed fails and changes nothing.",
  ["histories", "inputs"], "every sequence of engine operations with right and wrong keys over several vaults and records",
  "Engine tests use the right key except for one read; wrong keys after updates, revocations and imports are not covered.",
  ["engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs", "engine/src/vault/types/transactions.rs", "engine/src/vault/types/utils.rs"],
  [("vault key and entries", "key copy kept by a vault and its sealed records", "engine/src/vault/view.rs")],
  [("key check before access; AEAD binding of record id", "engine/src/vault/view.rs check_key")],
  ["engine API results"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
