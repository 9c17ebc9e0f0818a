------------------------------ MODULE TL2Solo ------------------------------
(***************************************************************************)
(* C19: at any moment all threads but one may stop.  The one that goes on  *)
(* releases what it holds, and it commits if the others hold no lock.      *)
(* (Two transactions that lock the same variables in opposite orders may   *)
(* in principle give up in turns for ever; random delays exclude that.)    *)
(***************************************************************************)
EXTENDS MCTL2
VARIABLE solo
SoloInit == Init /\ solo = 0
SoloNext ==
    \/ solo = 0 /\ Next /\ UNCHANGED solo
    \/ solo = 0 /\ (\E t \in Threads : solo' = t) /\ UNCHANGED vars
    \/ solo # 0 /\ Step(solo) /\ UNCHANGED solo
SoloSpec == SoloInit /\ [][SoloNext]_<<vars, solo>> /\ WF_<<vars, solo>>(solo # 0 /\ Step(solo) /\ UNCHANGED solo)
OthersHoldNothing(t) == \A u \in Threads \ {t} : th[u].held = {}
Releases == \A t \in Threads : (solo = t) ~> (th[t].held = {})
Commits == \A t \in Threads : (solo = t /\ OthersHoldNothing(t)) ~> (th[t].pc = "done")
=============================================================================
