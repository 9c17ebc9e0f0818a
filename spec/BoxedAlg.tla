------------------------------ MODULE BoxedAlg ------------------------------
(***************************************************************************)
(* The algorithm by which several threads share a guarded buffer (retain   *)
(* and release of engine/runtime/src/boxed.rs), one action per step: the   *)
(* borrow count, the noted and the real protection of the pages, changed   *)
(* under one lock.  With Locked = FALSE, the algorithm as it was before    *)
(* its repair: the count is read and written without the lock.             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Rounds, Locked
VARIABLES refs, prot, page, holder, pc, left, tmp, count
vars == <<refs, prot, page, holder, pc, left, tmp, count>>
None == 0
Init == /\ refs = 0 /\ prot = "none" /\ page = "none" /\ holder = None /\ count = 0
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Rounds] /\ tmp = [t \in Threads |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Lock(t) == IF Locked THEN holder = None /\ holder' = t ELSE UNCHANGED holder
Unlock(t) == IF Locked THEN holder' = None ELSE UNCHANGED holder
\* retain
Retain(t) == pc[t] = "idle" /\ left[t] > 0 /\ Lock(t) /\ Go(t, "r1") /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<refs, prot, page, tmp, count>>
R1(t) == /\ pc[t] = "r1" /\ tmp' = [tmp EXCEPT ![t] = refs]
         /\ IF refs = 0 THEN prot' = "r" /\ Go(t, "r2") ELSE Go(t, IF prot = "r" THEN "r3" ELSE "failed") /\ UNCHANGED prot
         /\ UNCHANGED <<refs, page, holder, left, count>>
R2(t) == pc[t] = "r2" /\ page' = "r" /\ Go(t, "r3") /\ UNCHANGED <<refs, prot, holder, left, tmp, count>>
R3(t) == pc[t] = "r3" /\ refs' = tmp[t] + 1 /\ count' = count + 1 /\ Go(t, "r4") /\ UNCHANGED <<prot, page, holder, left, tmp>>
R4(t) == pc[t] = "r4" /\ Unlock(t) /\ Go(t, "using") /\ UNCHANGED <<refs, prot, page, left, tmp, count>>
\* release
Release(t) == pc[t] = "using" /\ Lock(t) /\ Go(t, "d1") /\ UNCHANGED <<refs, prot, page, left, tmp, count>>
D1(t) == /\ pc[t] = "d1" /\ Go(t, IF refs = 0 \/ prot = "none" THEN "failed" ELSE "d2") /\ tmp' = [tmp EXCEPT ![t] = refs]
         /\ UNCHANGED <<refs, prot, page, holder, left, count>>
D2(t) == /\ pc[t] = "d2" /\ refs' = tmp[t] - 1 /\ count' = count - 1 /\ Go(t, IF tmp[t] = 1 THEN "d3" ELSE "d5")
         /\ UNCHANGED <<prot, page, holder, left, tmp>>
D3(t) == pc[t] = "d3" /\ page' = "none" /\ Go(t, "d4") /\ UNCHANGED <<refs, prot, holder, left, tmp, count>>
D4(t) == pc[t] = "d4" /\ prot' = "none" /\ Go(t, "d5") /\ UNCHANGED <<refs, page, holder, left, tmp, count>>
D5(t) == pc[t] = "d5" /\ Unlock(t) /\ Go(t, "idle") /\ UNCHANGED <<refs, prot, page, left, tmp, count>>
Step(t) == Retain(t) \/ R1(t) \/ R2(t) \/ R3(t) \/ R4(t) \/ Release(t) \/ D1(t) \/ D2(t) \/ D3(t) \/ D4(t) \/ D5(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Users == {t \in Threads : pc[t] = "using"}
Quiet == \A t \in Threads : pc[t] \in {"idle", "using"}
Readable == Users # {} => page = "r"
NotWritable == page # "rw"
Exact == Quiet => page = (IF Users = {} THEN "none" ELSE "r") /\ refs = Cardinality(Users) /\ prot = page
NoFailure == \A t \in Threads : pc[t] # "failed"
Done == <>Finished
=============================================================================
