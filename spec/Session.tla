------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A Stronghold session and the snapshot files it works with.              *)
(*                                                                         *)
(* The whole state is one record st:                                       *)
(*   objs    sequence of client objects [path, c], c as in module Vault;   *)
(*           handles refer to objects, and an object lives on after its    *)
(*           path has been unloaded, purged or created anew                *)
(*   loaded  client path -> index into objs (the map of live clients)      *)
(*   snap    client path -> captured client (the in-memory snapshot)       *)
(*   kloc    the stored snapshot key, or NoKey                             *)
(*   sstore  the session store                                             *)
(*   files   snapshot path -> [kind, key, data]                            *)
(*   now     the clock                                                     *)
(*   n       number of fresh secrets drawn                                 *)
(*                                                                         *)
(* Apply(st, op) is the result of operation op: the state afterwards and   *)
(* the answer.  Named actions and the properties follow at the end.        *)
(***************************************************************************)
EXTENDS Vault

CONSTANTS Files,       \* names of snapshot paths that can hold a file
          BadFiles     \* paths below something that is not a directory

NoKey == "nokey"
NoFile == [kind |-> "none", key |-> NoKey, data |-> EmptyFn]
Junk == [kind |-> "junk", key |-> NoKey, data |-> EmptyFn]
DirFile == [kind |-> "dir", key |-> NoKey, data |-> EmptyFn]

Init0 == [objs |-> <<>>, loaded |-> EmptyFn, snap |-> EmptyFn, kloc |-> NoKey,
          sstore |-> EmptyFn, files |-> [f \in Files |-> NoFile], now |-> 1, n |-> 0]

Ok == [ok |-> TRUE, e |-> "", v |-> Unit]
OkV(x) == [ok |-> TRUE, e |-> "", v |-> x]
Err(k) == [ok |-> FALSE, e |-> k, v |-> Unit]
AR(s, res) == [s |-> s, res |-> res]

IsLoaded(st, p) == p \in DOMAIN st.loaded
Obj(st, o) == st.objs[o].c
SetObj(st, o, c) == [st EXCEPT !.objs[o].c = c]

(* Capture every loaded client into the in-memory snapshot.                *)
CaptureAll(st) ==
    [st EXCEPT !.snap = [p \in DOMAIN st.loaded |-> Obj(st, st.loaded[p])] @@ @]

NewClient(st, p, c) ==
    LET s1 == [st EXCEPT !.objs = Append(@, [path |-> p, c |-> c])] IN
    [s1 EXCEPT !.loaded = (p :> Len(s1.objs)) @@ @]

(* What loading snapshot file f with key k gives.                          *)
LoadError(st, f, k) ==
    CASE f \notin Files -> "filemissing"
      [] st.files[f].kind = "none" -> "filemissing"
      [] st.files[f].kind \in {"junk", "dir"} -> "load"
      [] st.files[f].key # k -> "load"
      [] OTHER -> ""

Commit(st, f, k) ==
    LET s1 == CaptureAll(st) IN
    IF f \in BadFiles THEN AR(st, Err("filemissing"))
    ELSE IF k = NoKey THEN AR(s1, Err("nokeylocation"))
    ELSE IF s1.files[f].kind = "dir" THEN AR(s1, Err("write"))
    ELSE AR([s1 EXCEPT !.files[f] = [kind |-> "snap", key |-> k, data |-> s1.snap]], Ok)

OpResult(r) == IF r.ok THEN OkV(r.out) ELSE Err("op")
Answer(st, o, r) == AR([SetObj(st, o, r.c) EXCEPT !.n = r.n], OpResult(r))

Apply(st, op) ==
    CASE op.k = "exec" -> Answer(st, op.o, Chain(Obj(st, op.o), <<op.st>>, <<>>, <<>>, st.n))
      [] op.k = "chain" -> Answer(st, op.o, Chain(Obj(st, op.o), op.sts, <<>>, <<>>, st.n))
      \* calls on a vault handle
      [] op.k = "vwrite" ->
            Answer(st, op.o, DoWrite(Obj(st, op.o), op.l, <<"pay", op.a>>, Unit, st.n))
      [] op.k = "vrevoke" -> AR(SetObj(st, op.o, DoRevoke(Obj(st, op.o), op.l)), Ok)
      [] op.k = "vdelete" ->
            AR(SetObj(st, op.o, DoCollect(DoRevoke(Obj(st, op.o), op.l), op.l[1])),
               OkV(HasVault(Obj(st, op.o), op.l[1])))
      [] op.k = "vcleanup" ->
            AR(SetObj(st, op.o, DoCollect(Obj(st, op.o), op.v)), OkV(HasVault(Obj(st, op.o), op.v)))
      \* synchronisation: within object o, or from object q into object o
      [] op.k = "sync" ->
            AR(SetObj(st, op.o, SyncInto(Obj(st, op.q), Obj(st, op.o), op.cfg)), Ok)
      \* store of a client object, or of the session (o = 0)
      [] op.k = "sput" ->
            LET s == IF op.o = 0 THEN st.sstore ELSE Obj(st, op.o).store
                t == SPut(s, op.key, op.val, op.life, st.now) IN
            AR(IF op.o = 0 THEN [st EXCEPT !.sstore = t] ELSE [st EXCEPT !.objs[op.o].c.store = t],
               OkV(SGet(s, op.key, st.now)))
      [] op.k = "sdel" ->
            LET s == IF op.o = 0 THEN st.sstore ELSE Obj(st, op.o).store
                t == SDel(s, op.key) IN
            AR(IF op.o = 0 THEN [st EXCEPT !.sstore = t] ELSE [st EXCEPT !.objs[op.o].c.store = t],
               OkV(SGet(s, op.key, st.now)))
      [] op.k = "tick" -> AR([st EXCEPT !.now = @ + op.d], Ok)
      \* clients of the session
      [] op.k = "create" -> AR(NewClient(st, op.p, EmptyClient), OkV(Len(st.objs) + 1))
      [] op.k = "get" ->
            AR(st, IF IsLoaded(st, op.p) THEN OkV(st.loaded[op.p]) ELSE Err("notpresent"))
      [] op.k = "unload" ->
            LET p == st.objs[op.o].path IN
            IF IsLoaded(st, p) THEN AR([st EXCEPT !.loaded = Remove(@, {p})], OkV(st.loaded[p]))
            ELSE AR(st, Err("notpresent"))
      [] op.k = "purge" ->
            LET p == st.objs[op.o].path IN
            AR([st EXCEPT !.loaded = Remove(@, {p}), !.snap = Remove(@, {p})], Ok)
      [] op.k = "loadc" ->
            IF IsLoaded(st, op.p) THEN AR(st, Err("alreadyloaded"))
            ELSE IF op.p \notin DOMAIN st.snap THEN AR(st, Err("notpresent"))
            ELSE AR(NewClient(st, op.p, st.snap[op.p]), OkV(Len(st.objs) + 1))
      [] op.k = "capture" ->
            IF IsLoaded(st, op.p)
            THEN AR([st EXCEPT !.snap = (op.p :> Obj(st, st.loaded[op.p])) @@ @], Ok)
            ELSE AR(st, Err("notpresent"))
      [] op.k = "clear" ->
            LET live == {st.loaded[p] : p \in DOMAIN st.loaded} IN
            AR([st EXCEPT !.snap = EmptyFn, !.loaded = EmptyFn, !.sstore = EmptyFn, !.kloc = NoKey,
                          !.objs = [i \in DOMAIN @ |->
                                      IF i \in live THEN [path |-> @[i].path, c |-> EmptyClient] ELSE @[i]]], Ok)
      [] op.k = "reset" ->
            AR([st EXCEPT !.snap = EmptyFn, !.loaded = EmptyFn, !.sstore = EmptyFn, !.kloc = NoKey], Ok)
      [] op.k = "restart" -> AR([Init0 EXCEPT !.files = st.files, !.now = st.now, !.n = st.n], Ok)
      \* snapshots
      [] op.k = "setkey" -> AR([st EXCEPT !.kloc = op.key], Ok)
      [] op.k = "commitk" -> Commit(st, op.f, op.key)
      [] op.k = "commit" -> Commit(st, op.f, st.kloc)
      [] op.k = "load" ->
            LET e == LoadError(st, op.f, op.key) IN
            IF e # "" THEN AR(st, Err(e)) ELSE AR([st EXCEPT !.snap = st.files[op.f].data], Ok)
      \* Loading a client straight from a file first replaces the in-memory snapshot.
      [] op.k = "loadf" ->
            LET e == LoadError(st, op.f, op.key) IN
            IF e # "" THEN AR(st, Err(e))
            ELSE LET s1 == [st EXCEPT !.snap = st.files[op.f].data] IN
                 IF IsLoaded(s1, op.p) THEN AR(s1, Err("alreadyloaded"))
                 ELSE IF op.p \notin DOMAIN s1.snap THEN AR(s1, Err("notpresent"))
                 ELSE AR(NewClient(s1, op.p, s1.snap[op.p]), OkV(Len(st.objs) + 1))
      \* what happens to files from outside
      [] op.k = "damage" -> AR([st EXCEPT !.files[op.f] = Junk], Ok)
      [] op.k = "rmfile" -> AR([st EXCEPT !.files[op.f] = NoFile], Ok)
      [] op.k = "mkdir" -> AR([st EXCEPT !.files[op.f] = DirFile], Ok)
      [] op.k = "copyfile" -> AR([st EXCEPT !.files[op.f] = st.files[op.g]], Ok)

(***************************************************************************)
(* Projection of a state for the conformance harness.                      *)
(***************************************************************************)
ProjC(c, now) ==
    [vs |-> DOMAIN c.vaults,
     rs |-> UNION {{[v |-> v, o |-> id[1], r |-> id[2], rev |-> c.vaults[v][id].rev,
                     t |-> c.vaults[v][id].t] : id \in DOMAIN c.vaults[v]} : v \in DOMAIN c.vaults},
     st |-> {[k |-> k, val |-> c.store[k].val, dl |-> c.store[k].dl] : k \in DOMAIN c.store}]
ProjMap(m, now) == {[p |-> p, c |-> ProjC(m[p], now)] : p \in DOMAIN m}
Proj(st) ==
    [objs |-> [i \in DOMAIN st.objs |-> [path |-> st.objs[i].path, c |-> ProjC(st.objs[i].c, st.now)]],
     loaded |-> {[p |-> p, o |-> st.loaded[p]] : p \in DOMAIN st.loaded},
     snap |-> ProjMap(st.snap, st.now),
     kloc |-> st.kloc,
     sstore |-> {[k |-> k, val |-> st.sstore[k].val, dl |-> st.sstore[k].dl] : k \in DOMAIN st.sstore},
     files |-> {[f |-> f, kind |-> st.files[f].kind, key |-> st.files[f].key,
                 data |-> ProjMap(st.files[f].data, st.now)] : f \in Files},
     now |-> st.now]

(***************************************************************************)
(* Properties, as relations between a state, an operation with its answer, *)
(* and the state afterwards.  s, t: states; op, res.                       *)
(***************************************************************************)
ObjOps == {"exec", "chain", "vwrite", "vrevoke", "vdelete", "vcleanup", "sync"}
VaultUntouched(s, t, o, v) ==
    /\ HasVault(Obj(s, o), v) = HasVault(Obj(t, o), v)
    /\ HasVault(Obj(s, o), v) => Obj(s, o).vaults[v] = Obj(t, o).vaults[v]
Targets(op) == CASE op.k = "exec" -> {op.st.d} [] op.k = "chain" -> {op.sts[i].d : i \in DOMAIN op.sts}
                 [] op.k \in {"vwrite", "vrevoke", "vdelete"} -> {op.l} [] OTHER -> {}
Produces(op) == op.k = "vwrite" \/ (op.k = "exec" /\ op.st.p \in Producers)

\* C01: a write lands exactly at its target, and changes nothing else
P_C01(s, op, res, t) ==
    /\ \A o \in DOMAIN s.objs : o \in DOMAIN t.objs /\ op.k \in ObjOps /\ op.o # o => Obj(s, o).vaults = Obj(t, o).vaults
    /\ op.k \in {"exec", "chain", "vwrite"} =>
         \A v \in DOMAIN Obj(s, op.o).vaults : \A id \in LiveIds(Obj(s, op.o), v) :
            \/ <<v, id>> \in {<<l[1], l>> : l \in Targets(op) \ {<<>>}}
            \/ /\ IsLive(Obj(t, op.o), v, id)
               /\ Obj(t, op.o).vaults[v][id].t = Obj(s, op.o).vaults[v][id].t
    /\ Produces(op) /\ res.ok => LET l == IF op.k = "exec" THEN op.st.d ELSE op.l IN Live(Obj(t, op.o), l)
\* C02: what was revoked stays unreadable until it is written anew
P_C02(s, op, res, t) ==
    /\ op.k \in {"vrevoke", "vdelete"} => ~Live(Obj(t, op.o), op.l)
    /\ op.k \in {"vdelete", "vcleanup"} =>
          LET v == IF op.k = "vdelete" THEN op.l[1] ELSE op.v IN
          /\ HasVault(Obj(t, op.o), v) => DOMAIN Obj(t, op.o).vaults[v] = LiveIds(Obj(t, op.o), v)
          /\ \A w \in DOMAIN Obj(s, op.o).vaults \ {v} : VaultUntouched(s, t, op.o, w)
    /\ op.k = "vcleanup" => \A id \in LiveIds(Obj(s, op.o), op.v) :
                               HasVault(Obj(s, op.o), op.v) => Obj(t, op.o).vaults[op.v][id] = Obj(s, op.o).vaults[op.v][id]
\* C03: a failed operation changes no record
P_C03(s, op, res, t) ==
    ~res.ok /\ op.k \in {"exec", "vwrite"} =>
        \A v \in DOMAIN Obj(t, op.o).vaults :
            IF HasVault(Obj(s, op.o), v) THEN Obj(t, op.o).vaults[v] = Obj(s, op.o).vaults[v]
            ELSE DOMAIN Obj(t, op.o).vaults[v] = {}
\* C04: a failed chain leaves none of the products of its executed steps readable
P_C04(s, op, res, t) ==
    ~res.ok /\ op.k = "chain" =>
        \A v \in DOMAIN Obj(t, op.o).vaults : \A id \in LiveIds(Obj(t, op.o), v) :
            IsLive(Obj(s, op.o), v, id) /\ Obj(s, op.o).vaults[v][id].t = Obj(t, op.o).vaults[v][id].t
\* C05: what a commit wrote is what the captures said, and what a load gives
P_C05(s, op, res, t) ==
    /\ op.k \in {"commitk", "commit"} /\ res.ok =>
         /\ \A p \in DOMAIN s.loaded : t.files[op.f].data[p] = Obj(s, s.loaded[p])
         /\ \A p \in DOMAIN t.files[op.f].data : p \in DOMAIN s.loaded \/ p \in DOMAIN s.snap
    /\ op.k = "load" /\ res.ok => t.snap = s.files[op.f].data
    /\ op.k = "purge" => s.objs[op.o].path \notin DOMAIN t.snap
    /\ op.k \in {"loadc", "loadf"} /\ res.ok => Obj(t, t.loaded[op.p]) = t.snap[op.p]
\* C06: a failed load changes nothing
P_C06(s, op, res, t) ==
    op.k \in {"load", "loadf"} /\ ~res.ok /\ res.e \in {"load", "filemissing"} => t = s
\* C08: lookups and the life cycle of clients
P_C08(s, op, res, t) ==
    /\ op.k = "get" => res.ok = (op.p \in DOMAIN s.loaded) /\ t = s
    /\ op.k \in {"create", "loadc", "loadf"} /\ res.ok => op.p \in DOMAIN t.loaded
    /\ op.k \in {"loadc", "loadf"} /\ op.p \in DOMAIN s.loaded => ~res.ok
    /\ op.k \in {"unload", "purge"} => s.objs[op.o].path \notin DOMAIN t.loaded
    /\ op.k \in {"clear", "reset"} => t.loaded = EmptyFn /\ t.snap = EmptyFn /\ t.sstore = EmptyFn /\ t.kloc = NoKey
\* C09: the store is a map with deadlines
P_C09(s, op, res, t) ==
    op.k \in {"sput", "sdel"} =>
        LET a == IF op.o = 0 THEN s.sstore ELSE Obj(s, op.o).store
            b == IF op.o = 0 THEN t.sstore ELSE Obj(t, op.o).store IN
        /\ \A k \in DOMAIN a \cup DOMAIN b : k # op.key => SGet(a, k, s.now) = SGet(b, k, s.now)
        /\ op.k = "sdel" => SGet(b, op.key, s.now) = "absent"
        /\ op.k = "sput" => SGet(b, op.key, s.now) = (IF op.life = 0 THEN "absent" ELSE op.val)
\* C10: the source of a sync is unchanged, the target is as required, and a repetition changes nothing
P_C10(s, op, res, t) ==
    op.k = "sync" =>
        LET src == Obj(s, op.q)  dst == Obj(s, op.o)  new == Obj(t, op.o)  cfg == op.cfg IN
        /\ op.q # op.o => Obj(t, op.q) = src
        /\ \A v \in DOMAIN new.vaults : \A id \in LiveIds(new, v) :
              \/ IsLive(dst, v, id) /\ dst.vaults[v][id].t = new.vaults[v][id].t
              \/ \E w \in SelVaults(src, cfg) : Mapped(cfg, w) = v /\ id \in SelIds(src, cfg, w)
                                                /\ new.vaults[v][id] = src.vaults[w][id]
        /\ \A w \in SelVaults(src, cfg) : \A id \in SelIds(src, cfg, w) : IsLive(new, Mapped(cfg, w), id)
        /\ \A v \in DOMAIN dst.vaults : \A id \in LiveIds(dst, v) : IsLive(new, v, id)
        /\ cfg.pol = "keep" => \A v \in DOMAIN dst.vaults : \A id \in LiveIds(dst, v) : new.vaults[v][id] = dst.vaults[v][id]
        /\ op.q # op.o => SyncInto(src, new, cfg) = new
\* C12: without a stored key a commit touches no file
P_C12(s, op, res, t) ==
    /\ op.k = "commit" /\ s.kloc = NoKey => ~res.ok /\ t.files = s.files
    /\ op.k = "commit" /\ res.ok => t.files[op.f].key = s.kloc
    /\ op.k \notin {"setkey", "clear", "reset", "restart"} => t.kloc = s.kloc

Properties(s, op, res, t) ==
    /\ P_C01(s, op, res, t) /\ P_C02(s, op, res, t) /\ P_C03(s, op, res, t) /\ P_C04(s, op, res, t)
    /\ P_C05(s, op, res, t) /\ P_C06(s, op, res, t) /\ P_C08(s, op, res, t) /\ P_C09(s, op, res, t)
    /\ P_C10(s, op, res, t) /\ P_C12(s, op, res, t)

\* A revoked record is never part of what a reader can obtain; loaded objects exist.
Sane(st) ==
    /\ \A p \in DOMAIN st.loaded : st.loaded[p] \in DOMAIN st.objs /\ st.objs[st.loaded[p]].path = p
=============================================================================
