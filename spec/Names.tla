------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Which object a client path, vault path, record path or counter denotes. *)
(*                                                                         *)
(* A path is a sequence of pairs <<byte, count>>: so many times this byte. *)
(* The pairs <<"sha", 0>>, <<"id", 0>> and <<"dbg", n>> in front stand for *)
(* the SHA-512 digest, the identifier derived from, and the text that the  *)
(* code makes of, the rest (see the harness).  tab is a table of different *)
(* paths; operations name them by index.                                   *)
(*                                                                         *)
(* cells maps an object to its value: <<"rec", client, vault, path>>,      *)
(* <<"ctr", client, vault, counter>> and <<"st", client, key>>, everything *)
(* a path.  One state is one where every location is an object of its own  *)
(* (property C22).  norm is one where record paths are told apart only as  *)
(* far as HMAC tells its keys apart: the known finding.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
EmptyFn == [x \in {} |-> 0]

RECURSIVE Length(_)
Length(p) == IF p = <<>> THEN 0 ELSE Head(p)[2] + Length(Tail(p))
Derived(p) == p # <<>> /\ p[1][1] \in {"sha", "id", "dbg"}
\* the key that HMAC makes of a path
HmacKey(p) ==
    IF Derived(p) THEN p
    ELSE IF Length(p) > 128 THEN <<<<"sha", 0>>>> \o p
    ELSE IF p # <<>> /\ p[Len(p)][1] = "00" THEN SubSeq(p, 1, Len(p) - 1)
    ELSE p

\* The object that location l = [c, v, s, i] denotes.  The paths of a table are different, so that an index stands
\* for its path; al maps the index of a record path to that of the first path which HMAC takes for the same key.
Obj(al, l, hmac) ==
    CASE l.s = "rec" -> <<"rec", <<l.c, l.v, IF hmac THEN al[l.i] ELSE l.i>>>>
      [] l.s = "ctr" -> <<"ctr", <<l.c, l.v, l.i>>>>
      [] l.s = "st" -> <<"st", <<l.c, l.i, 0>>>>

Put(f, x, v) == (x :> v) @@ f
Rem(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* a revoked record stays in the way until its vault is collected
Rev == 0
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Blocked(f, x) == x \in DOMAIN f /\ f[x] = Rev
Collect(f, x) == [y \in {y \in DOMAIN f : ~(y[1] \in {"rec", "ctr"} /\ y[2][1] = x[2][1] /\ y[2][2] = x[2][2] /\ f[y] = Rev)} |-> f[y]]

Different(tab) == \A i, j \in DOMAIN tab : i # j => tab[i] # tab[j]
Aliases(tab) == LET keys == [i \in DOMAIN tab |-> HmacKey(tab[i])] IN
                [i \in DOMAIN tab |-> CHOOSE j \in 1..i : keys[j] = keys[i] /\ \A k \in 1..(j - 1) : keys[k] # keys[i]]
Init0(tab) == [tab |-> tab, al |-> Aliases(tab), cells |-> EmptyFn, norm |-> EmptyFn, n |-> 0]
\* every location of the table; counters are named by index as well
Locs(st, nc) ==
    {[c |-> c, v |-> v, s |-> "rec", i |-> r] : c, v, r \in DOMAIN st.tab}
    \cup {[c |-> c, v |-> v, s |-> "ctr", i |-> n] : c, v \in DOMAIN st.tab, n \in 1..nc}
    \cup {[c |-> c, v |-> 1, s |-> "st", i |-> k] : c, k \in DOMAIN st.tab}

Ap(f, op, al, hmac, n) ==
    LET o(l) == Obj(al, l, hmac) IN
    CASE op.k = "write" -> IF Blocked(f, o(op.l)) THEN f ELSE Put(f, o(op.l), n + 1)
      [] op.k = "copy" -> IF Get(f, o(op.l)) = 0 \/ Blocked(f, o(op.d)) THEN f ELSE Put(f, o(op.d), f[o(op.l)])
      [] op.k \in {"revoke", "delete"} /\ op.l.s = "st" -> Rem(f, o(op.l))
      [] op.k = "revoke" -> IF o(op.l) \in DOMAIN f THEN Put(f, o(op.l), Rev) ELSE f
      [] op.k = "delete" -> Collect(IF o(op.l) \in DOMAIN f THEN Put(f, o(op.l), Rev) ELSE f, o(op.l))
      [] OTHER -> f
Apply(st, op) == [st EXCEPT !.cells = Ap(@, op, st.al, FALSE, st.n), !.norm = Ap(@, op, st.al, TRUE, st.n),
                            !.n = IF op.k = "write" THEN @ + 1 ELSE @]
\* the values found at all locations, in the order of the tuple ls
Reads(st, ls, hmac) == [i \in DOMAIN ls |-> Get(IF hmac THEN st.norm ELSE st.cells, Obj(st.al, ls[i], hmac))]

(* The properties. *)
\* an operation changes what is found at the location it names and nowhere else
Separate(s1, op, s2, nc) ==
    \A l \in Locs(s1, nc) :
        (op.k = "restart" \/ l # (IF op.k = "copy" THEN op.d ELSE op.l)) =>
        Get(s2.cells, Obj(s2.al, l, FALSE)) = Get(s1.cells, Obj(s1.al, l, FALSE))
Aliased(st) == \E i \in DOMAIN st.al : st.al[i] # i
\* only aliased record paths show a difference between the two
OnlyAliases(st) == ~Aliased(st) => st.cells = st.norm
=============================================================================
