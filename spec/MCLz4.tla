------------------------------ MODULE MCLz4 ------------------------------
(***************************************************************************)
(* Blocks with lengths and distances around everything the format counts   *)
(* with, what each stands for, and what is left of it when it is cut.      *)
(***************************************************************************)
EXTENDS Json, IOUtils, CSV, Naturals, Integers, Sequences, FiniteSets, TLC
P == JsonDeserialize(IOEnv.VP_PARAMS)
VARIABLES its, todo, hist
vars == <<its, todo, hist>>
INSTANCE Lz4 WITH Nibble <- 15, Byte <- 255, Min <- 4
Rng(q) == {q[i] : i \in DOMAIN q}
R(S, x) == RandomElement(S)
Lits == Rng(P.lits)
Copies == Rng(P.copies)
Offs == Rng(P.offs)

Here == OutLen(its, Len(its))
Item(l, o, n) == [lit |-> l, off |-> o, len |-> n]
Lay(it) == [lit |-> it.lit, off |-> it.off, len |-> it.len,
            h |-> IF Writable(it) THEN Head1(it) ELSE <<>>, t |-> IF Writable(it) THEN Tail1(it) ELSE <<>>]
\* cuts next to every boundary of the layout
Cuts == LET n == Sizes(its, Len(its))
            starts == {Sizes(its, i) : i \in 0..(Len(its) - 1)}
            ends == {Sizes(its, i - 1) + Len(Head1(its[i])) : i \in DOMAIN its} \cup {Sizes(its, i - 1) + Len(Head1(its[i])) + its[i].lit : i \in DOMAIN its}
            around == UNION {{s - 1, s, s + 1, s + 2, s + 3} : s \in starts \cup ends \cup {n}} IN
        {[c |-> c, r |-> Cut(its, 1, c)] : c \in around \cap 0..n}
Steps == [i \in DOMAIN its |-> [op |-> [k |-> "item"] @@ Lay(its[i])]]
Plain == \A i \in DOMAIN its : its[i].off = 0 \/ its[i].off <= OutLen(its, i - 1) + its[i].lit
Written == \A i \in DOMAIN its : Writable(its[i])
Emit == CSVWrite("%1$s", <<ToJson([steps |-> Steps, valid |-> Valid(its), plain |-> Plain /\ \A i \in DOMAIN its : HasCopy(its[i]) => its[i].off > 0, written |-> Written,
                                   cuts |-> IF Written THEN Cuts ELSE {}])>>, P.out)
Init == its = <<>> /\ todo = 0 /\ hist = <<>>
\* every pair of a literal length and a copy, small distances
InitAll == Init
Finish == /\ todo = 0 /\ its # <<>> /\ todo' = 1 /\ hist' = hist /\ its' = its /\ Emit
NextAll == \/ Finish
           \/ /\ todo = 0 /\ Len(its) < P.depth
              /\ (its # <<>> => HasCopy(its[Len(its)]))
              /\ \E l \in Lits : \E n \in Copies \cup {0} : \E o \in IF n = 0 THEN {0} ELSE Offs : its' = Append(its, Item(l, o, n))
              /\ UNCHANGED <<todo, hist>>
SpecAll == InitAll /\ [][NextAll]_vars

Pos(S) == {x \in S : x > 0}
\* a distance that reaches, most of the time, and is interesting
RandOff(l, x) ==
    LET t == Here + l k == R(1..20, x) IN
    IF k <= 8 THEN LET near == {o \in Offs : o <= t} IN IF near = {} THEN 1 ELSE R(near, x)
    ELSE IF k <= 12 THEN LET far == {o \in {65533, 65534, 65535, 65536, 65537, 131071} : o <= t} IN IF far = {} THEN 1 ELSE R(far, x)
    ELSE IF k <= 14 THEN t
    ELSE IF k = 15 THEN (IF t > 1 THEN t - 1 ELSE 1)
    ELSE IF k <= 18 THEN (IF t > 0 THEN R(1..t, x) ELSE 1)
    ELSE IF k = 19 /\ P.bad THEN t + 1
    ELSE IF k = 20 /\ P.bad THEN 0
    ELSE 1
RandLit(x) == IF R(1..4, x) = 1 THEN R(0..40, x) ELSE R(Lits, x)
RandLen(x) == IF R(1..4, x) = 1 THEN 4 + R(0..40, x) ELSE R(Copies, x)
NextSim ==
    IF todo = 0 THEN /\ todo' = R(1..P.depth, 1) /\ UNCHANGED <<its, hist>>
    ELSE IF todo = 1 THEN
        /\ todo' = -1 /\ UNCHANGED hist
        /\ \E l \in {RandLit(1)} : its' = IF R(1..4, 2) > 1 THEN Append(its, Item(l, 0, 0)) ELSE its
    ELSE IF todo = -1 THEN /\ todo' = -2 /\ UNCHANGED <<its, hist>> /\ (its # <<>> => Emit)
    ELSE /\ todo > 1
         /\ todo' = todo - 1 /\ UNCHANGED hist
         /\ \E l \in {RandLit(todo)} : \E o \in {RandOff(l, todo)} : \E n \in {RandLen(todo)} :
                its' = IF Here + l = 0 /\ ~P.bad THEN Append(its, Item(8, 1, n)) ELSE IF Here > 8000000 THEN its ELSE Append(its, Item(l, o, n))
SpecSim == Init /\ [][NextSim]_vars
Inv == \A i \in DOMAIN its : i < Len(its) => HasCopy(its[i])
View == <<its, todo>>
=============================================================================
