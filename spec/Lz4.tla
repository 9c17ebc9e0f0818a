-------------------------------- MODULE Lz4 --------------------------------
(***************************************************************************)
(* The block format in which a snapshot is compressed (LZ4).               *)
(*                                                                         *)
(* A block is a sequence of items: a run of literals followed by a copy of *)
(* len bytes that begin off bytes back; the last item has no copy          *)
(* (off = 0).  An item is laid out as token, further bytes of the literal  *)
(* length, literals, offset, further bytes of the copied length.           *)
(*                                                                         *)
(* Nibble, Byte, Min are 15, 255 and 4 in the real format; smaller values  *)
(* let TLC look at every block.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Nibble, Byte, Min

Low(a, b) == IF a < b THEN a ELSE b
\* n as a sum: as many full bytes as fit, then the rest
Ext(n) == [i \in 1..(n \div Byte + 1) |-> IF i <= n \div Byte THEN Byte ELSE n % Byte]

\* off is the distance as it appears in the block, most significant part last; at most this much fits
Base == Byte + 1
MaxOff == Base * Base - 1
HasCopy(it) == it.len > 0
Token(it) == Low(it.lit, Nibble) * (Nibble + 1) + (IF HasCopy(it) THEN Low(it.len - Min, Nibble) ELSE 0)
LitExt(it) == IF it.lit >= Nibble THEN Ext(it.lit - Nibble) ELSE <<>>
CopyExt(it) == IF HasCopy(it) /\ it.len - Min >= Nibble THEN Ext(it.len - Min - Nibble) ELSE <<>>
OffBytes(it) == IF HasCopy(it) THEN <<it.off % Base, it.off \div Base>> ELSE <<>>
Head1(it) == <<Token(it)>> \o LitExt(it)
Tail1(it) == OffBytes(it) \o CopyExt(it)
Size(it) == Len(Head1(it)) + it.lit + Len(Tail1(it))
RECURSIVE Sizes(_, _)
Sizes(its, n) == IF n = 0 THEN 0 ELSE Size(its[n]) + Sizes(its, n - 1)
\* the length of what the first n items stand for
RECURSIVE OutLen(_, _)
OutLen(its, n) == IF n = 0 THEN 0 ELSE its[n].lit + its[n].len + OutLen(its, n - 1)

\* An item can be written down if its copy is long enough and the distance fits; it means something only if the copy
\* begins inside of what there is already.
Writable(it) == HasCopy(it) => it.len >= Min /\ it.off \in 0..MaxOff
Reaches(its, n) == HasCopy(its[n]) => its[n].off \in 1..(OutLen(its, n - 1) + its[n].lit)
Valid(its) == /\ \A n \in DOMAIN its : Writable(its[n]) /\ Reaches(its, n)

(***************************************************************************)
(* What a block cut after its first c bytes stands for: the items and, of  *)
(* the last, the literals (0 or 1), or nothing at all (FALSE).             *)
(***************************************************************************)
RECURSIVE Cut(_, _, _)
Cut(its, n, c) ==
    IF c = 0 \/ n > Len(its) THEN [ok |-> TRUE, items |-> n - 1, lits |-> FALSE]
    ELSE LET it == its[n] IN
         IF c = Len(Head1(it)) + it.lit THEN [ok |-> TRUE, items |-> n - 1, lits |-> TRUE]
         ELSE IF c < Size(it) THEN [ok |-> FALSE, items |-> 0, lits |-> FALSE]
         ELSE IF ~Reaches(its, n) THEN [ok |-> FALSE, items |-> 0, lits |-> FALSE]
         ELSE Cut(its, n + 1, c - Size(it))

(***************************************************************************)
(* Bytes: literals are bytes of their own.                                 *)
(***************************************************************************)
\* what items stand for, lits[i] the literals of item i
RECURSIVE Copy(_, _, _)
Copy(out, off, len) == IF len = 0 THEN out ELSE Copy(Append(out, out[Len(out) - off + 1]), off, len - 1)
RECURSIVE Expand(_, _, _)
Expand(its, lits, n) == IF n = 0 THEN <<>> ELSE Copy(Expand(its, lits, n - 1) \o lits[n], its[n].off, its[n].len)
RECURSIVE Encode(_, _, _)
Encode(its, lits, n) == IF n = 0 THEN <<>> ELSE Encode(its, lits, n - 1) \o Head1(its[n]) \o lits[n] \o Tail1(its[n])

\* a decoder that looks at one byte after the other
Fail == [ok |-> FALSE, out |-> <<>>]
RECURSIVE ReadExt(_, _, _)
ReadExt(b, i, acc) == IF i > Len(b) THEN [ok |-> FALSE, n |-> 0, i |-> i]
                      ELSE IF b[i] = Byte THEN ReadExt(b, i + 1, acc + Byte) ELSE [ok |-> TRUE, n |-> acc + b[i], i |-> i + 1]
RECURSIVE Dec(_, _, _)
Dec(b, i, out) ==
    IF i > Len(b) THEN [ok |-> TRUE, out |-> out]
    ELSE LET tok == b[i]
             l0 == tok \div (Nibble + 1)
             l == IF l0 = Nibble THEN ReadExt(b, i + 1, Nibble) ELSE [ok |-> TRUE, n |-> l0, i |-> i + 1] IN
         IF ~l.ok \/ l.i + l.n - 1 > Len(b) THEN Fail
         ELSE LET o2 == out \o SubSeq(b, l.i, l.i + l.n - 1) j == l.i + l.n IN
              IF j > Len(b) THEN [ok |-> TRUE, out |-> o2]
              ELSE IF j + 1 > Len(b) THEN Fail
              ELSE LET off == b[j] + Base * b[j + 1]
                       m0 == tok % (Nibble + 1)
                       m == IF m0 = Nibble THEN ReadExt(b, j + 2, Nibble) ELSE [ok |-> TRUE, n |-> m0, i |-> j + 2] IN
                   IF ~m.ok \/ off = 0 \/ off > Len(o2) THEN Fail
                   ELSE Dec(b, m.i, Copy(o2, off, m.n + Min))
Decode(b) == Dec(b, 1, <<>>)
=============================================================================
