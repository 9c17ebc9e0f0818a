----------------------------- MODULE CommitRace -----------------------------
(***************************************************************************)
(* Processes that commit to the same path at the same time, each with the  *)
(* file operations recorded from the real code, interleaved in every way,  *)
(* and killed at any moment (property C07).                                *)
(***************************************************************************)
EXTENDS FileSys, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VP_TRACES)   \* recorded sequences of file operations of a commit: [ev]
CONSTANT N
VARIABLES tr, at, fs, good
vars == <<tr, at, fs, good>>
Procs == 1..N
Init == /\ tr \in {f \in [Procs -> DOMAIN T] : \A p \in Procs \ {N} : f[p] < f[p + 1]} /\ at = [p \in Procs |-> 0] /\ good = TRUE
        /\ \E has \in BOOLEAN : fs = Fs0(has)
Ops(p) == T[tr[p]].ev
Stopped == 99999
Step(p) ==
    /\ at[p] < Len(Ops(p))
    /\ LET e == Ops(p)[at[p] + 1] IN
       IF Fails(fs, e) THEN at' = [at EXCEPT ![p] = Stopped] /\ UNCHANGED <<fs, good>>
       ELSE /\ at' = [at EXCEPT ![p] = @ + 1]
            /\ fs' = Apply(fs, p, p, e)
            /\ good' = Good(fs, fs')
    /\ UNCHANGED tr
\* (a process that is killed is one that never goes on)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars
Atomic == good
=============================================================================
