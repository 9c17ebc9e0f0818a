MEM = "TLA+ specification of the memory types explored with TLC; generated behaviours replayed on the code with comparison after every step"
MEMN = "Model checking within the stated bounds and replay on the real code; page protections are asked from the kernel, wiping is observed at munmap."
CHECKS.update({p: ("model_checking", MEM, MEMN) for p in ["C15", "C16", "C17"]})
CONC = "; models of the algorithm that threads share it by (BoxedAlg, ShardAlg) checked with TLC, and histories of real threads under a controlled scheduler validated against GuardConc and ShardConc with TLC"
CHECKS.update({p: ("model_checking", MEM + CONC, MEMN + " Programs of threads: pairs of short sequences under systematically varied schedules, larger ones under random schedules and freely.") for p in ["C15", "C16"]})
LIN = "TLA+ specification (Lin over Session/Vault): histories of multi-threaded programs recorded from the code under a controlled scheduler, each validated with TLC"
LINN = ("For pairs of calls every interleaving of lock acquisitions is run on the real code (up to a cap per program); larger programs are run under random and "
        "priority schedules and freely; every recorded history must be explained by the specification.")
CHECKS.update({p: ("model_checking", LIN, LINN) for p in ["C13", "C14"]})
HOOKS = dict(guard="cfg vp_hooks", enable="RUSTFLAGS='--cfg vp_hooks' cargo build (check.py does this for the checks that need it, into harness/target-hooks)",
             source_commits=['2d7cd4f1835422ef5a6c9a9730a8ca77ad0bee57', '71c7658609082638c10176c232295485b01ea0c1'])
STM = "TLA+ model of the transaction algorithm (TL2) checked with TLC, and histories of real transactions under a controlled scheduler validated against the specification Stm with TLC"
STMN = "The algorithm is explored completely for all programs of 2 short transactions (thorough: also 3 transactions); real interleavings up to the stated caps per program."
CHECKS.update({p: ("model_checking", STM, STMN) for p in ["C18", "C19"]})
CHECKS["C07"] = ("model_checking", "TLA+ specification of file system, commits and snapshot path (FileSys, CommitFS, CommitRace, Register): file operations of real commits recorded under injected errors, kills and power losses and validated with TLC; interleavings of recorded commits explored with TLC; concurrent histories validated against Register",
    "Every file operation of the listed commits is failed, cut short, killed at and followed by a loss of power; power loss keeps any subset of unsynced writes in the model, three chosen ones on the real file.")
CHECKS["C24"] = ("model_checking", "TLA+ specification of the vault engine (Engine) explored with TLC; generated behaviours replayed on DbView with comparison of every listing and read, with every key, after every step",
    "Every history within the exhaustive bound (a sample of it in the quick tier) and random deeper ones are run on the real engine.")
CHECKS["C11"] = ("model_checking", "TLA+ specification of exchanging snapshots (SnapSync over Vault) explored with TLC, with the property asserted on every step; generated behaviours replayed on Snapshot with comparison of all records and stores after every step; TLA+ specification of forged states (Forged), every alteration at every place imported into the real code",
    "Configurations under which two source records compete for one place are left out. Every history within the exhaustive bounds (a sample in the quick tier) and random deeper ones are run on the real code.")
CHECKS["C22"] = ("model_checking", "TLA+ specification of which object a location denotes (Names), with pairs of related paths enumerated and random tables of paths generated by TLC; replayed on real clients, vaults, records, counters and stores with reads through all locations",
    "Paths are built from a structured universe (lengths around block and identifier sizes, shared prefixes and suffixes, derived identifiers, digests and texts); collisions of the hash itself are out of reach. The key aliasing of HMAC is a known finding.")
CHECKS["C23"] = ("model_checking", "TLA+ specification in the manner of Dolev and Yao of what outputs give away (AtRest), checked with TLC; generated sequences of commits and exports run on the code, and the bytes written searched and compared as the specification predicts",
    "Readable means found as eight or more successive bytes: raw, backwards, in hexadecimal or base64, or under a constant; unrelated means without common windows, without excess agreement and evenly distributed. Secrecy of the ciphers themselves is assumed.")
CHECKS["C20"] = ("model_checking", "TLA+ specification of sections over read-log-update variables (Rlu): histories of real sections under a controlled scheduler, each validated with TLC; families of programs differ in which known deviations they may show",
    "Sections of one guard: every schedule up to a cap, explained with at most late write-back. Sections of several guards and failing ones are known to deviate (known findings) and are checked for anything beyond that.")
CHECKS["C05"] = ("model_checking", "TLA+ specification (Session over Vault) explored with TLC; generated behaviours (BFS and simulation) replayed on the public API with comparison after every step; TLA+ specification of the compressed format (Lz4, with its decoder checked by TLC in Lz4Alg), whose generated blocks and plaintexts go through the codec, snapshot files and stores",
    "Model checking within the stated bounds and replay on the real code; contents are described by literal runs and copies with lengths and distances around everything the format counts with, up to several MiB.")
CHECKS["C12"] = ("model_checking", "TLA+ specification (Session over Vault) explored with TLC; generated behaviours (BFS and simulation) replayed on the public API with comparison after every step; TLA+ specification of key derivation (Keys), with all pairs of providers of a universe and random histories replayed on real providers and files",
    "Model checking within the stated bounds and replay on the real code; hashes are taken as injective. Keys equal up to the bits X25519 ignores are a known finding.")
CHECKS["C06"] = ("model_checking", "TLA+ specifications (Session, SnapFile: a file as pieces of snapshots, Forged: properly sealed content that is no state) explored with TLC; generated behaviours replayed on real files and the public API with comparison of everything in memory after every failed load",
    "All single alterations of the model and random sequences of them; places are concretised to bytes, every byte in sweeps. Whether altered content that is still well-formed is taken or refused is left open; panics, aborts and side effects of refusals are not.")
