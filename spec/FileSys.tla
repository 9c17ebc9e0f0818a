------------------------------ MODULE FileSys ------------------------------
(***************************************************************************)
(* The part of a file system that commits use, with what a kill and a loss *)
(* of power leave behind, and the rule of property C07.                    *)
(*                                                                         *)
(* Names denote inodes.  An inode remembers the version of the commit that *)
(* last wrote to it, and whether it has content that was not synced.  The  *)
(* name "P" is the snapshot path.  Directory entries are durable at an     *)
(* unknown time: after a loss of power the path may denote whatever it     *)
(* denoted since the directory was synced (past; 0: nothing).              *)
(*                                                                         *)
(* Good: the path is only made to denote files that are complete (never    *)
(* written to afterwards) and synced, and it never denotes nothing after   *)
(* it denoted a snapshot.  So a kill leaves a complete snapshot of the     *)
(* names as they are, a loss of power one of past; both are complete.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFn == [x \in {} |-> 0]
Fs0(has) == [ino |-> IF has THEN (1 :> [v |-> 0, dirty |-> FALSE]) ELSE EmptyFn,
             names |-> IF has THEN ("P" :> 1) ELSE EmptyFn,
             fds |-> EmptyFn,
             past |-> {IF has THEN 1 ELSE 0}]
Entry(fs, n) == IF n \in DOMAIN fs.names THEN fs.names[n] ELSE 0
Fresh(fs) == Cardinality(DOMAIN fs.ino) + 1
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Wrote(fs, i, v) == [fs EXCEPT !.ino = Put(@, i, [v |-> v, dirty |-> TRUE])]
\* the path's entry changed
Noted(fs) == [fs EXCEPT !.past = @ \cup {Entry(fs, "P")}]

\* an exclusive creation of something that exists fails
Fails(fs, e) == e.k = "open" /\ e.creat /\ e.excl /\ e.name \in DOMAIN fs.names

\* Effect of a successful call of process p, whose commit writes version v
Apply(fs, p, v, e) ==
    CASE e.k = "open" ->
           LET i == IF e.name \in DOMAIN fs.names THEN fs.names[e.name] ELSE Fresh(fs)
               made == IF e.name \in DOMAIN fs.names
                       THEN IF e.trunc THEN Wrote(fs, i, v) ELSE fs
                       ELSE [Wrote(fs, i, v) EXCEPT !.names = Put(@, e.name, i)] IN
           Noted([made EXCEPT !.fds = Put(@, <<p, e.fd>>, i)])
      [] e.k \in {"write", "truncfd"} -> Wrote(fs, fs.fds[<<p, e.fd>>], v)
      [] e.k = "trunc" -> IF e.name \in DOMAIN fs.names THEN Wrote(fs, fs.names[e.name], v) ELSE fs
      [] e.k = "sync" -> IF <<p, e.fd>> \in DOMAIN fs.fds THEN [fs EXCEPT !.ino[fs.fds[<<p, e.fd>>]].dirty = FALSE] ELSE fs
      [] e.k = "syncall" -> [fs EXCEPT !.ino = [i \in DOMAIN @ |-> [@[i] EXCEPT !.dirty = FALSE]], !.past = {Entry(fs, "P")}]
      [] e.k = "syncdir" -> [fs EXCEPT !.past = {Entry(fs, "P")}]
      [] e.k = "rename" -> IF e.a \in DOMAIN fs.names
                           THEN Noted([fs EXCEPT !.names = Put(Del(@, e.a), e.b, fs.names[e.a])]) ELSE fs
      [] e.k = "link" -> IF e.a \in DOMAIN fs.names THEN Noted([fs EXCEPT !.names = Put(@, e.b, fs.names[e.a])]) ELSE fs
      [] e.k = "unlink" -> Noted([fs EXCEPT !.names = Del(@, e.name)])
      [] e.k = "close" -> [fs EXCEPT !.fds = Del(@, <<p, e.fd>>)]
      [] OTHER -> fs
FsKinds == {"open", "write", "truncfd", "trunc", "sync", "syncall", "syncdir", "rename", "link", "unlink", "close"}

Reachable(fs) == fs.past \cup {Entry(fs, "P")}
\* after the step every snapshot the path may turn out to denote is complete, and its content is as it was
Good(fs, new) ==
    /\ \A i \in Reachable(new) : i # 0 => ~new.ino[i].dirty
    /\ \A i \in Reachable(fs) : i # 0 => new.ino[i] = fs.ino[i]
    /\ 0 \in Reachable(new) => 0 \in fs.past
    /\ Entry(new, "P") = 0 => Entry(fs, "P") = 0
=============================================================================
