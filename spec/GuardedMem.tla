----------------------------- MODULE GuardedMem -----------------------------
(***************************************************************************)
(* Guarded buffers (engine/runtime, Buffer over Boxed): what their memory  *)
(* holds and who may touch it.  Used by property C15.                      *)
(*                                                                         *)
(*   bufs  sequence of [val, len, live]; a buffer holds the first len      *)
(*         elements of content val ("zero" are zeros, "rnd<i>" unknown *)
(*         random elements drawn when buffer i was made)                   *)
(*   brs   sequence of [b, k, live]: borrows, k = "r" shared, "w" exclusive*)
(*                                                                         *)
(* The protection of a buffer's pages is a function of its borrows: that   *)
(* is the property, and the harness compares it with the pages of the      *)
(* process after every step.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxRefs == 255                      \* more simultaneous shared borrows are refused

Init0 == [bufs |-> <<>>, brs |-> <<>>]
LiveB(s) == {b \in DOMAIN s.bufs : s.bufs[b].live}
LiveR(s) == {r \in DOMAIN s.brs : s.brs[r].live}
Of(s, b) == {r \in LiveR(s) : s.brs[r].b = b}
Shared(s, b) == {r \in Of(s, b) : s.brs[r].k = "r"}
Excl(s, b) == {r \in Of(s, b) : s.brs[r].k = "w"}
Prot(s, b) == IF Excl(s, b) # {} THEN "rw" ELSE IF Shared(s, b) # {} THEN "r" ELSE "none"

Ok == [ok |-> TRUE, v |-> "unit"]
OkV(x) == [ok |-> TRUE, v |-> x]
AR(s, res) == [s |-> s, res |-> res]
NewBuf(s, val, len) == [s EXCEPT !.bufs = Append(@, [val |-> val, len |-> len, live |-> TRUE])]
NewBr(s, b, k) == [s EXCEPT !.brs = Append(@, [b |-> b, k |-> k, live |-> TRUE])]
Same(x, y) == x.len = y.len /\ (x.len = 0 \/ x.val = y.val)

\* which operations Rust's borrow rules admit
Admitted(s, op) ==
    CASE op.k \in {"alloc", "zero", "random", "from"} -> TRUE
      [] op.k \in {"clone", "serde", "debug"} -> op.b \in LiveB(s) /\ Excl(s, op.b) = {}
      [] op.k \in {"borrow", "flood"} -> op.b \in LiveB(s) /\ Excl(s, op.b) = {}
      [] op.k \in {"borrowmut", "drop", "wipe"} -> op.b \in LiveB(s) /\ Of(s, op.b) = {}
      [] op.k \in {"eq"} -> op.b \in LiveB(s) /\ op.c \in LiveB(s) /\ Excl(s, op.b) = {} /\ Excl(s, op.c) = {}
      [] op.k = "refclone" -> op.r \in LiveR(s) /\ s.brs[op.r].k = "r"
      [] op.k = "dropref" -> op.r \in LiveR(s)
      [] op.k = "write" -> op.r \in LiveR(s) /\ s.brs[op.r].k = "w"
      [] op.k = "refeq" -> op.r \in LiveR(s) /\ op.q \in LiveR(s)
                           /\ ~(s.brs[op.r].k = "w" /\ s.brs[op.q].k = "w")

Apply(s, op) ==
    CASE op.k \in {"alloc", "from"} -> AR(NewBuf(s, op.val, op.len), OkV(Len(s.bufs) + 1))
      [] op.k = "zero" -> AR(NewBuf(s, "zero", op.len), OkV(Len(s.bufs) + 1))
      [] op.k = "random" -> AR(NewBuf(s, "rnd" \o ToString(Len(s.bufs) + 1), op.len), OkV(Len(s.bufs) + 1))
      [] op.k \in {"clone", "serde"} -> AR(NewBuf(s, s.bufs[op.b].val, s.bufs[op.b].len), OkV(Len(s.bufs) + 1))
      [] op.k = "debug" -> AR(s, Ok)
      [] op.k = "borrow" -> AR(NewBr(s, op.b, "r"), OkV(Len(s.brs) + 1))
      [] op.k = "borrowmut" -> AR(NewBr(s, op.b, "w"), OkV(Len(s.brs) + 1))
      [] op.k = "refclone" -> AR(NewBr(s, s.brs[op.r].b, "r"), OkV(Len(s.brs) + 1))
      [] op.k = "dropref" -> AR([s EXCEPT !.brs[op.r].live = FALSE], Ok)
      [] op.k = "write" -> AR([s EXCEPT !.bufs[s.brs[op.r].b].val = op.val], Ok)
      [] op.k = "eq" -> AR(s, OkV(Same(s.bufs[op.b], s.bufs[op.c])))
      [] op.k = "refeq" -> AR(s, OkV(Same(s.bufs[s.brs[op.r].b], s.bufs[s.brs[op.q].b])))
      \* takes shared borrows until one is refused, then gives them back: how many were granted
      [] op.k = "flood" -> AR(s, OkV(MaxRefs - Cardinality(Shared(s, op.b))))
      [] op.k = "wipe" -> AR([s EXCEPT !.bufs[op.b].len = 0], Ok)
      [] op.k = "drop" -> AR([s EXCEPT !.bufs[op.b].live = FALSE], Ok)

Proj(s) ==
    [bufs |-> [b \in DOMAIN s.bufs |-> [val |-> s.bufs[b].val, len |-> s.bufs[b].len, live |-> s.bufs[b].live, prot |-> Prot(s, b)]],
     brs |-> s.brs]

\* the property as an invariant of the specification
Guarded(s) ==
    /\ \A b \in DOMAIN s.bufs : Excl(s, b) # {} => Cardinality(Of(s, b)) = 1
    /\ \A r \in LiveR(s) : s.bufs[s.brs[r].b].live
=============================================================================
