------------------------------ MODULE SnapFile ------------------------------
(***************************************************************************)
(* A snapshot file that is altered, and who can still open it (C06).       *)
(*                                                                         *)
(* A file is a sequence of pieces [f, i, fl]: piece i of the snapshot f,   *)
(* with the bits fl of it inverted.  The first Hdr pieces are the same in  *)
(* every snapshot; the others make up the ephemeral key, the tag and the   *)
(* ciphertext.  Junk is a piece that belongs to none.  The file opens with *)
(* the key of f, as f, exactly if it is the whole of f.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Snaps,    \* names of snapshots
          KeyOf,    \* the key each was committed under
          N, Hdr    \* how many pieces a snapshot has, and how many of them are the header
Piece(f, i) == [f |-> IF i <= Hdr THEN "header" ELSE f, i |-> i, fl |-> {}]
Whole(f) == [i \in 1..N |-> Piece(f, i)]
Junk == [f |-> "junk", i |-> 0, fl |-> {}]
\* what is at the path: a file, or something that is no regular file
Init0 == [kind |-> "file", c |-> Whole("f1")]
File(c) == [kind |-> "file", c |-> c]
Flip(s, b) == IF b \in s THEN s \ {b} ELSE s \cup {b}

Apply(st, op) ==
    LET c == st.c IN
    CASE op.k = "flip" -> File([c EXCEPT ![op.i].fl = Flip(@, op.b)])
      [] op.k = "cut" -> File(SubSeq(c, 1, op.i))
      [] op.k = "behead" -> File(SubSeq(c, op.i, Len(c)))
      [] op.k = "extend" -> File(Append(c, Junk))
      [] op.k = "prepend" -> File(<<Junk>> \o c)
      [] op.k = "insert" -> File(SubSeq(c, 1, op.i) \o <<Junk>> \o SubSeq(c, op.i + 1, Len(c)))
      [] op.k = "remove" -> File(SubSeq(c, 1, op.i - 1) \o SubSeq(c, op.i + 1, Len(c)))
      [] op.k = "twice" -> File(SubSeq(c, 1, op.i) \o SubSeq(c, op.i, Len(c)))
      [] op.k = "swap" -> File([c EXCEPT ![op.i] = c[op.j], ![op.j] = c[op.i]])
      \* the first i pieces as they are, the rest of another snapshot
      [] op.k = "splice" -> File(SubSeq(c, 1, op.i) \o SubSeq(Whole(op.f), op.i + 1, N))
      [] op.k = "graft" -> File([c EXCEPT ![op.i] = Piece(op.f, op.i)])
      [] op.k = "append" -> File(c \o Whole(op.f))
      [] op.k = "restore" -> File(Whole(op.f))
      \* every single bit, every length and every key that differs in a bit is tried, and the file left as it was
      [] op.k = "sweep" -> st
      [] op.k \in {"empty", "dir", "text", "null", "zero", "loop", "gone"} -> [kind |-> op.k, c |-> c]
Positions(st, op) ==
    CASE op.k \in {"flip", "remove", "twice", "behead", "graft"} -> op.i \in DOMAIN st.c
      [] op.k \in {"cut", "insert", "splice"} -> op.i \in 0..Len(st.c)
      [] op.k = "swap" -> op.i < op.j /\ op.j \in DOMAIN st.c
      [] OTHER -> TRUE
Admitted(st, op) == (st.kind = "file" \/ op.k = "restore") /\ Positions(st, op) /\ (op.k = "sweep" => \E f \in Snaps : st.c = Whole(f)) /\ (op.k = "append" => Len(st.c) <= 2 * N)

\* what key k opens the file as
Opens(st, k) == IF st.kind = "file" /\ \E f \in Snaps : KeyOf[f] = k /\ st.c = Whole(f) THEN CHOOSE f \in Snaps : KeyOf[f] = k /\ st.c = Whole(f) ELSE "none"

(* Authentic: whatever opens is a snapshot as it was committed, under its key. *)
Authentic(st, keys) == \A k \in keys : Opens(st, k) # "none" => KeyOf[Opens(st, k)] = k /\ st.c = Whole(Opens(st, k))
\* one alteration of any piece of a snapshot keeps it from being opened as that snapshot
Sensitive(st, keys) == st.kind = "file" => \A i \in DOMAIN st.c : st.c[i].fl # {} => \A k \in keys : Opens(st, k) = "none"
=============================================================================
