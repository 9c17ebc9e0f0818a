------------------------------ MODULE LockedMem ------------------------------
(***************************************************************************)
(* Locked memories (engine/runtime): memories that hold a value while it   *)
(* is not in use.  Used by properties C16 (memories of two shards, "nc.*") *)
(* and C17 (all kinds).                                                    *)
(*                                                                         *)
(*   mems  sequence of [kind, val, len, st], st in "live", "wiped", "gone" *)
(*         ("wiped": cleared but not yet dropped)                          *)
(*   epoch number of re-splits of each memory so far: every one gives      *)
(*         shards different from all earlier ones                          *)
(*                                                                         *)
(* A value is a name; the harness maps it to bytes.  Each live file-backed *)
(* memory owns FilesOf(kind) files, which no other memory shares; all      *)
(* other memories own none.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NcKinds == {"nc.ram", "nc.file", "nc.mixed", "nc.map", "nc.direct", "nc.hybrid"}
FragKinds == {"frag.map", "frag.direct", "frag.hybrid"}
FilesOf(kind) == CASE kind = "file" -> 1 [] kind = "nc.file" -> 2 [] kind = "nc.mixed" -> 1 [] OTHER -> 0
SizeOk(kind, len) == IF kind \in NcKinds THEN len = 32 ELSE len > 0

Init0 == [mems |-> <<>>]
Live(s) == {m \in DOMAIN s.mems : s.mems[m].st = "live"}
There(s) == {m \in DOMAIN s.mems : s.mems[m].st # "gone"}
Ok == [ok |-> TRUE, v |-> "unit"]
OkV(x) == [ok |-> TRUE, v |-> x]
Err == [ok |-> FALSE, v |-> "err"]
AR(s, res) == [s |-> s, res |-> res]
NewMem(s, kind, val, len) ==
    [s EXCEPT !.mems = Append(@, [kind |-> kind, val |-> val, len |-> len, st |-> "live", ep |-> 0])]

Admitted(s, op) ==
    CASE op.k = "alloc" -> TRUE
      [] op.k = "deser" -> op.kind \notin FragKinds
      [] op.k \in {"unlock", "wipe", "drop", "debug"} -> op.m \in There(s)
      \* the clone of a wiped memory is a wiped memory; one that had files cannot be cloned any more
      [] op.k = "clone" -> op.m \in Live(s) \/ (op.m \in There(s) /\ FilesOf(s.mems[op.m].kind) = 0)
      [] op.k = "serde" -> op.m \in Live(s) /\ s.mems[op.m].kind \notin FragKinds
      [] op.k = "far" -> op.kind \in FragKinds
      [] op.k = "refresh" -> op.m \in There(s) /\ s.mems[op.m].kind \in NcKinds
      [] op.k = "update" -> op.m \in There(s)

Apply(s, op) ==
    CASE op.k = "alloc" ->
            IF SizeOk(op.kind, op.len) THEN AR(NewMem(s, op.kind, op.val, op.len), OkV(Len(s.mems) + 1))
            ELSE AR(s, Err)
      \* a memory made of the serialised bytes of a value; a split one comes into being in RAM
      [] op.k = "deser" ->
            IF SizeOk(op.kind, op.len)
            THEN AR(NewMem(s, IF op.kind \in NcKinds THEN "nc.ram" ELSE op.kind, op.val, op.len), OkV(Len(s.mems) + 1))
            ELSE AR(s, Err)
      \* every unlock of a split memory re-splits it
      [] op.k = "unlock" ->
            IF s.mems[op.m].st = "live"
            THEN AR([s EXCEPT !.mems[op.m].ep = @ + 1], OkV(<<"val", s.mems[op.m].val, s.mems[op.m].len>>))
            ELSE AR(s, Err)
      [] op.k = "refresh" ->
            IF s.mems[op.m].st = "live" THEN AR([s EXCEPT !.mems[op.m].ep = @ + 1], Ok) ELSE AR(s, Err)
      [] op.k \in {"clone", "serde"} ->
            LET m == s.mems[op.m] IN
            AR([NewMem(s, IF op.k = "serde" /\ m.kind \in NcKinds THEN "nc.ram" ELSE m.kind, m.val, m.len)
                EXCEPT !.mems[Len(s.mems) + 1].st = m.st], OkV(Len(s.mems) + 1))
      \* update consumes the memory and makes a new one in its place (of the same kind); a wiped split
      \* memory has forgotten its configuration and comes back in RAM
      [] op.k = "update" ->
            LET m == s.mems[op.m]
                kind == IF m.st = "wiped" /\ m.kind \in NcKinds THEN "nc.ram" ELSE m.kind
                s1 == [s EXCEPT !.mems[op.m].st = "gone"] IN
            IF SizeOk(kind, op.len) /\ ~(m.st = "wiped" /\ m.kind \in FragKinds) THEN AR(NewMem(s1, kind, op.val, op.len), OkV(Len(s.mems) + 1))
            ELSE AR(s1, Err)
      \* two fragments farther apart than the address space allows
      [] op.k = "far" -> AR(s, Err)
      [] op.k = "debug" -> AR(s, Ok)
      [] op.k = "wipe" -> AR([s EXCEPT !.mems[op.m].st = "wiped"], Ok)
      [] op.k = "drop" -> AR([s EXCEPT !.mems[op.m].st = "gone"], Ok)

RECURSIVE Sum(_, _)
Sum(s, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN FilesOf(s.mems[m].kind) + Sum(s, S \ {m})
NFiles(s) == Sum(s, Live(s))

Proj(s) == [mems |-> s.mems, nfiles |-> NFiles(s)]
=============================================================================
