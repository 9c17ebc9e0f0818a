------------------------------- MODULE Lz4Alg -------------------------------
(***************************************************************************)
(* The format is sound: for every short sequence of items over a small     *)
(* alphabet, the byte-wise decoder yields what the items stand for, and    *)
(* for every cut of the block exactly what Cut says.                       *)
(***************************************************************************)
EXTENDS Lz4
CONSTANTS MaxItems, MaxLit, MaxCopy, Letters
VARIABLES its, lits
vars == <<its, lits>>
Words(n) == [1..n -> Letters]
Init == its = <<>> /\ lits = <<>>
Add == /\ Len(its) < MaxItems
       /\ its # <<>> => HasCopy(its[Len(its)])
       /\ \E l \in 0..MaxLit : \E len \in {0} \cup (Min..MaxCopy) : \E off \in IF len = 0 THEN {0} ELSE 0..Low(MaxOff, 1 + l + OutLen(its, Len(its))) : \E w \in Words(l) :
              its' = Append(its, [lit |-> l, off |-> off, len |-> len]) /\ lits' = Append(lits, w)
Spec == Init /\ [][Add]_vars
N == Len(its)
All == Encode(its, lits, N)
RoundTrip == Valid(its) => Decode(All) = [ok |-> TRUE, out |-> Expand(its, lits, N)]
Prefix(c) == LET r == Cut(its, 1, c) IN
             IF ~r.ok THEN Fail
             ELSE [ok |-> TRUE, out |-> Expand(its, lits, r.items) \o (IF r.lits THEN lits[r.items + 1] ELSE <<>>)]
Cuts == \A c \in 0..Len(All) : Decode(SubSeq(All, 1, c)) = Prefix(c)
Length == Sizes(its, N) = Len(All)
=============================================================================
