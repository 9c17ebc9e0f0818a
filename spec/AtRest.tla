------------------------------- MODULE AtRest -------------------------------
(***************************************************************************)
(* What somebody without keys learns from snapshot files and exported      *)
(* states (property C23), in the manner of Dolev and Yao.                  *)
(*                                                                         *)
(* st.atoms   what the session holds: [kind, shape, id], kind being that   *)
(*            of a secret, a store key or value, a path, a vault key       *)
(* st.outs    everything written so far: [kind, key, eph, atoms]; under    *)
(*            whose or which key, with which ephemeral key, holding what   *)
(* st.files   file name -> index into outs of what it holds now            *)
(* st.stored  the snapshot key deposited in the session                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
EmptyFn == [x \in {} |-> 0]
NoKey == "none"
Init0 == [atoms |-> {}, outs |-> <<>>, files |-> EmptyFn, stored |-> NoKey, n |-> 0]

\* the atoms that putting something of a kind at a client leaves in the session
New(st, op) ==
    {[kind |-> "path", shape |-> "text", id |-> op.p]} \cup
    CASE op.what \in {"secret", "generated"} ->
            {[kind |-> "path", shape |-> "text", id |-> op.v], [kind |-> "path", shape |-> "text", id |-> op.r],
             [kind |-> "vaultkey", shape |-> "random", id |-> op.p \o op.v],
             [kind |-> op.what, shape |-> op.shape, id |-> ToString(st.n + 1)]}
      [] op.what = "store" -> {[kind |-> "key", shape |-> "text", id |-> ToString(st.n + 1)], [kind |-> "value", shape |-> op.shape, id |-> ToString(st.n + 1)]}

\* every output is made with an ephemeral key of its own
Emit(st, kind, key, atoms) == [st EXCEPT !.outs = Append(@, [kind |-> kind, key |-> key, eph |-> st.n + 1, atoms |-> atoms]), !.n = @ + 1]
Records(st) == {a \in st.atoms : a.kind \in {"secret", "generated"}}

Admitted(st, op) ==
    CASE op.k = "stored" -> st.stored # NoKey
      [] op.k \in {"export", "load"} -> op.f \in DOMAIN st.files
      [] OTHER -> TRUE
Apply(st, op) ==
    CASE op.k = "put" -> [st EXCEPT !.atoms = @ \cup New(st, op), !.n = @ + 1]
      [] op.k = "setkey" -> [st EXCEPT !.stored = op.key]
      [] op.k = "commit" -> LET s == Emit(st, "file", op.key, st.atoms) IN [s EXCEPT !.files = (op.f :> Len(s.outs)) @@ @]
      [] op.k = "stored" -> LET s == Emit(st, "file", st.stored, st.atoms) IN [s EXCEPT !.files = (op.f :> Len(s.outs)) @@ @]
      \* the snapshot in file f, exported for the owner of a key
      [] op.k = "export" -> Emit(st, "export", op.to, {a \in st.outs[st.files[op.f]].atoms : a.kind \in {"secret", "generated"}})
      \* a new session that starts from file f
      [] op.k = "load" -> [st EXCEPT !.atoms = st.outs[st.files[op.f]].atoms, !.stored = NoKey]

(* What can be read by who knows keys, and has all outputs.                *)
Readable(st, known) == UNION {st.outs[i].atoms : i \in {i \in DOMAIN st.outs : st.outs[i].key \in known}}
\* the contents of two outputs have something to do with each other if key stream or ciphertext come again
Related(st, i, j) == st.outs[i].key = st.outs[j].key /\ st.outs[i].eph = st.outs[j].eph

Opaque(st) == Readable(st, {}) = {}
Fresh(st) == \A i, j \in DOMAIN st.outs : i # j => ~Related(st, i, j)
\* outputs under other keys stay closed
Closed(st, keys) == \A k \in keys : Readable(st, {k}) = UNION {st.outs[i].atoms : i \in {i \in DOMAIN st.outs : st.outs[i].key = k}}
=============================================================================
