-------------------------------- MODULE TL2 --------------------------------
(***************************************************************************)
(* The algorithm of the software transactional memory (transactional       *)
(* locking II as in stm/src/stm), one action per step that other threads   *)
(* can see: the global clock, versioned variables with try-locks, the      *)
(* speculative execution with a version check per read, locking of all     *)
(* variables used in any order with bounded waiting, the two steps of      *)
(* incrementing the clock, validation, and releasing variable by variable. *)
(*                                                                         *)
(* hist is a ghost: the states of the variables between transactions.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Vars, Programs   \* Programs: set of functions thread -> [ro, ops]
VARIABLES prog, clock, mem, lock, th, hist
vars == <<prog, clock, mem, lock, th, hist>>
EmptyFn == [x \in {} |-> 0]
Free == 0

T0 == [pc |-> "start", rv |-> 0, wv |-> 0, i |-> 1, rd |-> EmptyFn, wr |-> EmptyFn, used |-> {}, tmp |-> 0, held |-> {},
       since |-> 1, tries |-> 0]
Init ==
    /\ prog \in Programs
    /\ clock = 0
    /\ mem = [x \in Vars |-> [val |-> <<0, x>>, ver |-> 0]]
    /\ lock = [x \in Vars |-> Free]
    /\ th = [t \in Threads |-> T0]
    /\ hist = <<[x \in Vars |-> <<0, x>>]>>

State == [x \in Vars |-> mem[x].val]
Retry(t) == [T0 EXCEPT !.since = Len(hist), !.tries = IF th[t].tries < 2 THEN th[t].tries + 1 ELSE 2]
Set(t, r) == th' = [th EXCEPT ![t] = r]
Op(t) == prog[t].ops[th[t].i]
AtEnd(t) == th[t].i > Len(prog[t].ops)

Start(t) ==
    /\ th[t].pc = "start"
    /\ Set(t, [th[t] EXCEPT !.pc = "run", !.rv = clock, !.since = Len(hist)])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>
Write(t) ==
    /\ th[t].pc = "run" /\ ~AtEnd(t) /\ Op(t)[1] = "w"
    /\ Set(t, [th[t] EXCEPT !.i = @ + 1, !.wr = (Op(t)[2] :> <<t, th[t].i>>) @@ @, !.used = @ \cup {Op(t)[2]}])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>
ReadOwn(t) ==
    /\ th[t].pc = "run" /\ ~AtEnd(t) /\ Op(t)[1] = "r" /\ Op(t)[2] \in DOMAIN th[t].wr
    /\ Set(t, [th[t] EXCEPT !.i = @ + 1])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>
\* first the value, then the version; a locked variable makes the attempt fail
ReadValue(t) ==
    /\ th[t].pc = "run" /\ ~AtEnd(t) /\ Op(t)[1] = "r" /\ Op(t)[2] \notin DOMAIN th[t].wr
    /\ IF lock[Op(t)[2]] # Free THEN Set(t, Retry(t))
       ELSE Set(t, [th[t] EXCEPT !.pc = "version", !.tmp = mem[Op(t)[2]].val, !.used = @ \cup {Op(t)[2]}])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>
ReadVersion(t) ==
    /\ th[t].pc = "version"
    /\ IF lock[Op(t)[2]] # Free \/ mem[Op(t)[2]].ver > th[t].rv THEN Set(t, Retry(t))
       ELSE Set(t, [th[t] EXCEPT !.pc = "run", !.i = @ + 1, !.rd = (Op(t)[2] :> th[t].tmp) @@ @])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>
Lock(t) ==
    /\ th[t].pc = "run" /\ AtEnd(t) /\ th[t].used \ th[t].held # {}
    /\ \E x \in th[t].used \ th[t].held :
         /\ lock[x] = Free
         /\ lock' = [lock EXCEPT ![x] = t]
         /\ Set(t, [th[t] EXCEPT !.held = @ \cup {x}])
    /\ UNCHANGED <<prog, clock, mem, hist>>
\* waiting for a lock is bounded
GiveUp(t) ==
    /\ th[t].pc = "run" /\ AtEnd(t) /\ \E x \in th[t].used \ th[t].held : lock[x] # Free
    /\ lock' = [x \in Vars |-> IF lock[x] = t THEN Free ELSE lock[x]]
    /\ Set(t, Retry(t))
    /\ UNCHANGED <<prog, clock, mem, hist>>
Locked(t) == th[t].pc = "run" /\ AtEnd(t) /\ th[t].used \subseteq th[t].held
Valid(t) == \A x \in th[t].held : mem[x].ver <= th[t].rv
Drop(t) == lock' = [x \in Vars |-> IF lock[x] = t THEN Free ELSE lock[x]]
ReadOnly(t) ==
    /\ Locked(t) /\ prog[t].ro
    /\ IF clock = th[t].rv /\ ~Valid(t) THEN Set(t, Retry(t)) ELSE Set(t, [th[t] EXCEPT !.pc = "done", !.held = {}])
    /\ Drop(t) /\ UNCHANGED <<prog, clock, mem, hist>>
Increment(t) ==
    /\ Locked(t) /\ ~prog[t].ro
    /\ clock' = clock + 1 /\ Set(t, [th[t] EXCEPT !.pc = "sample"])
    /\ UNCHANGED <<prog, mem, lock, hist>>
Sample(t) ==
    /\ th[t].pc = "sample"
    /\ IF clock > th[t].rv + 1 /\ ~Valid(t)
       THEN Set(t, Retry(t)) /\ Drop(t) /\ UNCHANGED hist
       ELSE /\ Set(t, [th[t] EXCEPT !.pc = "commit", !.wv = clock]) /\ UNCHANGED lock
            /\ hist' = Append(hist, th[t].wr @@ hist[Len(hist)])
    /\ UNCHANGED <<prog, clock, mem>>
Release(t) ==
    /\ th[t].pc = "commit" /\ th[t].held # {}
    /\ \E x \in th[t].held :
         /\ mem' = IF x \in DOMAIN th[t].wr THEN [mem EXCEPT ![x] = [val |-> th[t].wr[x], ver |-> th[t].wv]] ELSE mem
         /\ lock' = [lock EXCEPT ![x] = Free]
         /\ Set(t, [th[t] EXCEPT !.held = @ \ {x}])
    /\ UNCHANGED <<prog, clock, hist>>
Done(t) ==
    /\ th[t].pc = "commit" /\ th[t].held = {} /\ Set(t, [th[t] EXCEPT !.pc = "done"])
    /\ UNCHANGED <<prog, clock, mem, lock, hist>>

Step(t) == Start(t) \/ Write(t) \/ ReadOwn(t) \/ ReadValue(t) \/ ReadVersion(t) \/ Lock(t) \/ GiveUp(t) \/ ReadOnly(t)
           \/ Increment(t) \/ Sample(t) \/ Release(t) \/ Done(t)
AllDone == \A t \in Threads : th[t].pc = "done"
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(***************************************************************************)
(* C18: what an attempt has read existed together between transactions     *)
(* since the attempt began.                                                *)
(***************************************************************************)
Opaque == \A t \in Threads : th[t].pc # "done" =>
              \E k \in th[t].since..Len(hist) : \A x \in DOMAIN th[t].rd : hist[k][x] = th[t].rd[x]
\* what a committing transaction read is still so when it commits
Serializable ==
    [][\A t \in Threads : th[t].pc = "sample" /\ th'[t].pc = "commit" =>
            \A x \in DOMAIN th[t].rd : hist[Len(hist)][x] = th[t].rd[x]]_vars
\* the variables are what the committed transactions made them; read-only transactions and given-up attempts leave no trace
Memory == \A x \in Vars : (\A t \in Threads : ~(th[t].pc = "commit" /\ x \in th[t].held)) => mem[x].val = hist[Len(hist)][x]
OnlyHolders == \A x \in Vars : lock[x] # Free => x \in th[lock[x]].held
VersionsBehind == \A x \in Vars : mem[x].ver <= clock
(***************************************************************************)
(* C19: no lock outlives its transaction, nobody is stuck, and without     *)
(* conflict the first attempt succeeds.                                    *)
(***************************************************************************)
NoLockLeft == AllDone => \A x \in Vars : lock[x] = Free
Used(t) == {prog[t].ops[i][2] : i \in DOMAIN prog[t].ops}
FirstTry == \A t \in Threads : (\A u \in Threads \ {t} : Used(t) \cap Used(u) = {}) => th[t].tries = 0
=============================================================================
