-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Where snapshot keys come from.  A passphrase is a sequence of bytes,    *)
(* n times the byte 1 but for byte d (0: none), which is v.  A scheme      *)
(* turns a passphrase (and a salt) into a key, a term: hashes are          *)
(* injective, truncation keeps 32 bytes and fills up with zeros.  Files    *)
(* open with exactly the key they were written with.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Bytes(p) == [i \in 1..p.n |-> IF i = p.d THEN p.v ELSE 1]
First32(b) == [i \in 1..32 |-> IF i <= Len(b) THEN b[i] ELSE 0]
Refused == <<>>
Key(f, p, s) ==
    LET b == Bytes(p) IN
    CASE f = "raw" -> IF p.n = 32 THEN <<"bytes", b>> ELSE Refused
      [] f = "truncated" -> <<"bytes", First32(b)>>
      [] f = "blake2b" -> <<"blake2b", b>>
      [] f = "sha256" -> <<"sha256", b>>
      [] f = "sha512" -> Refused           \* 64 bytes are no key
      [] f = "argon2" -> IF s.n < 8 THEN Refused ELSE <<"argon2", b, Bytes(s)>>

\* slot: providers; file: the key each file was written with; stored: the key commits without a key use
Empty(slots, files) == [slot |-> [i \in slots |-> Refused], file |-> [f \in files |-> Refused], stored |-> Refused]
Has(x) == x # Refused
Can(st, op) == CASE op.k = "provide" -> TRUE [] op.k \in {"commit0"} -> TRUE [] op.k = "same" -> Has(st.slot[op.i]) /\ Has(st.slot[op.j]) [] OTHER -> Has(st.slot[op.i])
Ok(st, op) ==
    CASE op.k = "provide" -> Has(Key(op.f, op.p, op.s))
      [] op.k = "load" -> st.file[op.to] = st.slot[op.i]          \* slots are never refused here, files may not exist
      [] op.k = "commit0" -> Has(st.stored)
      [] op.k = "same" -> st.slot[op.i] = st.slot[op.j]
      [] OTHER -> TRUE
Apply(st, op) ==
    CASE op.k = "provide" -> [st EXCEPT !.slot[op.i] = Key(op.f, op.p, op.s)]
      [] op.k = "commit" -> [st EXCEPT !.file[op.to] = st.slot[op.i]]
      [] op.k = "keep" -> [st EXCEPT !.stored = st.slot[op.i]]
      [] op.k = "commit0" -> IF Has(st.stored) THEN [st EXCEPT !.file[op.to] = st.stored] ELSE st
      [] OTHER -> st
-----------------------------------------------------------------------------
\* Two providers agree exactly when the terms do; what that means for passphrases:
Agree(f, p, s, q, t) ==
    LET x == Key(f, p, s) y == Key(f, q, t) IN
    Has(x) /\ Has(y) =>
        (x = y <=> CASE f = "truncated" -> First32(Bytes(p)) = First32(Bytes(q))
                     [] f = "argon2" -> Bytes(p) = Bytes(q) /\ Bytes(s) = Bytes(t)
                     [] OTHER -> Bytes(p) = Bytes(q))
=============================================================================
