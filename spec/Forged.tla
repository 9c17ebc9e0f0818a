------------------------------- MODULE Forged -------------------------------
(***************************************************************************)
(* Content that was sealed under the right key but is no state (C06, C11). *)
(*                                                                         *)
(* A state travels in three layers: it is serialised to a stream, the      *)
(* stream is packed, the packed bytes are sealed.  Whoever holds the key   *)
(* (a peer needs only the public key of the recipient) can seal anything.  *)
(* A stream has N places; what was changed in it, and in which layer, is   *)
(* remembered.  A reader consumes the whole stream, so one that was cut    *)
(* anywhere is refused; of other changes nobody can say in general whether *)
(* what remains is a state: the reader may take or refuse it, but it       *)
(* answers, and refusing leaves everything as it was.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Doors
\* [layer, k, i]: layer "stream" or "packed", what was done, at which place
Good == <<>>
Cuts == {"cut", "empty"}
\* an empty packed block stands for an empty stream
Verdict(ch) ==
    IF ch = Good THEN "taken"
    ELSE IF \E i \in DOMAIN ch : ch[i].k = "junk" /\ ch[i].layer = "stream" THEN "either"
    ELSE IF ch[Len(ch)].k \in Cuts /\ ch[Len(ch)].layer = "stream" /\ Len(ch) = 1 THEN "refused"
    ELSE "either"

(* What a reader holds: the live client, one it captured, and what came in last. *)
Init0 == [live |-> 0, captured |-> 0, in |-> "nothing", ch |-> Good]
Apply(st, op) ==
    CASE op.k = "alter" -> [st EXCEPT !.ch = Append(@, op.c)]
      [] op.k = "fresh" -> [st EXCEPT !.ch = Good]
      \* clients in use are never touched by what comes in
      [] op.k = "write" -> [st EXCEPT !.live = @ + 1]
      [] op.k = "capture" -> [st EXCEPT !.captured = st.live]
      [] OTHER -> st
\* what is demanded of the door's answer
Demand(st, op) == IF op.k = "enter" THEN Verdict(st.ch) ELSE "none"
=============================================================================
