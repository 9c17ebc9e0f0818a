------------------------------- MODULE Vault -------------------------------
(***************************************************************************)
(* The state of one client (its vaults and its store) and the meaning of   *)
(* every operation on it, as functions from states to results.  All other  *)
(* modules (session, concurrency, procedures) are built on these           *)
(* operators: there is one source of truth for what an operation does.     *)
(*                                                                         *)
(* Secrets are terms.  <<"pay", p>> is the byte string payload p, and      *)
(* e.g. <<"cat", s, t>> the concatenation of two secrets; the conformance  *)
(* harness evaluates terms to bytes with code of its own.                  *)
(*                                                                         *)
(* A location is <<vault, record>>.  Records keep the identity they were   *)
(* first written under when they are copied into another vault by a sync   *)
(* (record ids are derived from the vault path), so a vault maps record    *)
(* identities <<origin vault, record>> to entries; Location <<v, r>>       *)
(* addresses identity <<v, r>> in vault v.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT PLen      \* payload name -> length in bytes

NoVault == "none"
EmptyFn == [x \in {} |-> 0]
Restrict(f, S) == [x \in S |-> f[x]]
Remove(f, S) == Restrict(f, DOMAIN f \ S)

NoExp == 0                        \* no deadline

(* A client: vaults is a partial function from vault names to partial      *)
(* functions from record identities to entries [rev, t].                   *)
EmptyClient == [vaults |-> EmptyFn, store |-> EmptyFn]

HasVault(c, v) == v \in DOMAIN c.vaults
Has(c, v, id) == HasVault(c, v) /\ id \in DOMAIN c.vaults[v]
IsLive(c, v, id) == Has(c, v, id) /\ ~c.vaults[v][id].rev
IsRevoked(c, v, id) == Has(c, v, id) /\ c.vaults[v][id].rev
Live(c, l) == IsLive(c, l[1], l)
Revoked(c, l) == IsRevoked(c, l[1], l)
Secret(c, l) == c.vaults[l[1]][l].t
LiveIds(c, v) == IF HasVault(c, v) THEN {id \in DOMAIN c.vaults[v] : ~c.vaults[v][id].rev} ELSE {}

WithVault(c, v) ==
    IF HasVault(c, v) THEN c ELSE [c EXCEPT !.vaults = (v :> EmptyFn) @@ @]
PutId(c, v, id, t) ==
    [c EXCEPT !.vaults = (v :> ((id :> [rev |-> FALSE, t |-> t]) @@ c.vaults[v])) @@ @]
Put(c, l, t) == PutId(WithVault(c, l[1]), l[1], l, t)

(***************************************************************************)
(* Lengths of secrets, as far as procedures depend on them.                *)
(***************************************************************************)
HashLen == [h256 |-> 32, h384 |-> 48, h512 |-> 64]
GenLen == [ed |-> 32, x |-> 32, seed64 |-> 64, seed16 |-> 16, bip39 |-> 64]
CkdfLen == [k16 |-> 16, k32 |-> 32, k100 |-> 100]

RECURSIVE Len_(_)
Len_(t) ==
    CASE t[1] = "pay"   -> PLen[t[2]]
      [] t[1] = "cat"   -> Len_(t[2]) + Len_(t[3])
      [] t[1] = "rnd"   -> GenLen[t[3]]
      [] t[1] = "bip39" -> 64
      [] t[1] = "pbkdf" -> HashLen[t[2]]
      [] t[1] = "hkdf"  -> HashLen[t[2]]
      [] t[1] = "ckdf"  -> CkdfLen[t[2]]
      [] t[1] = "dh"    -> 32
      [] t[1] = "s10"   -> 64
      [] t[1] = "wrap"  -> Len_(t[3]) + 8

RECURSIVE Size(_)
Size(t) == CASE t[1] = "cat"  -> 1 + Size(t[2]) + Size(t[3])
             [] t[1] = "s10"  -> 1 + Size(t[4])
             [] t[1] = "hkdf" -> 1 + Size(t[3])
             [] t[1] = "ckdf" -> 1 + Size(t[3])
             [] t[1] = "dh"   -> 1 + Size(t[3])
             [] OTHER -> 1

(***************************************************************************)
(* Procedures.  A step is a record: p kind, s source locations, d target   *)
(* location (or <<>>), a argument.                                         *)
(***************************************************************************)
Generators == {"write", "gen", "bip39", "pbkdf"}
Derivers == {"copy", "concat", "hkdf", "ckdf", "dh", "s10seed", "s10key", "unwrap"}
Users == {"pub_ed", "pub_x", "sign", "hmac", "aeadenc", "aeaddec", "wrap", "cmp"}
Producers == Generators \cup Derivers

Wrappable(t) == Len_(t) % 8 = 0

(* Is the procedure applicable to these source secrets?                    *)
Applicable(st, ts) ==
    CASE st.p \in {"write", "gen", "bip39", "pbkdf", "copy", "concat", "hkdf", "ckdf", "hmac", "cmp"} -> TRUE
      [] st.p \in {"pub_ed", "sign"} -> Len_(ts[1]) >= 32
      [] st.p \in {"pub_x", "dh"} -> Len_(ts[1]) = 32
      [] st.p = "s10seed" -> st.a # "soft"
      [] st.p = "s10key" -> Len_(ts[1]) = 64 /\ st.a # "soft"
      \* argument: <<cipher, "ok" or "badnonce">>
      [] st.p = "aeadenc" -> Len_(ts[1]) = 32 /\ st.a[2] = "ok"
      \* argument: <<cipher, key term the ciphertext was made with, what was spoiled>>
      [] st.p = "aeaddec" -> Len_(ts[1]) = 32 /\ st.a[2] = ts[1] /\ st.a[3] = "intact"
      [] st.p = "wrap" -> Len_(ts[1]) = 32 /\ Wrappable(ts[2])
      \* argument: <<key term, wrapped term, what was spoiled>>
      [] st.p = "unwrap" -> Len_(ts[1]) = 32 /\ st.a[1] = ts[1] /\ st.a[3] = "intact" /\ Wrappable(st.a[2])

(* The secret a producing procedure stores.                                *)
Product(st, ts, n) ==
    CASE st.p = "write" -> <<"pay", st.a>>
      [] st.p = "gen" -> <<"rnd", n, st.a>>
      [] st.p = "bip39" -> <<"bip39", st.a>>
      [] st.p = "pbkdf" -> <<"pbkdf", st.a>>
      [] st.p = "copy" -> ts[1]
      [] st.p = "concat" -> <<"cat", ts[1], ts[2]>>
      [] st.p = "hkdf" -> <<"hkdf", st.a, ts[1]>>
      [] st.p = "ckdf" -> <<"ckdf", st.a, ts[1]>>
      [] st.p = "dh" -> <<"dh", st.a, ts[1]>>
      [] st.p \in {"s10seed", "s10key"} -> <<"s10", st.p, st.a, ts[1]>>
      [] st.p = "unwrap" -> st.a[2]

(* What a procedure returns to its caller.                                 *)
Output(st, ts, n) ==
    CASE st.p \in {"s10seed", "s10key"} -> <<"o_cc", <<"s10", st.p, st.a, ts[1]>> >>
      [] st.p = "gen" /\ st.a = "bip39" -> <<"o_mnemonic", n>>
      [] st.p \in {"pub_ed", "pub_x", "sign", "hmac", "aeadenc"} -> <<"o_use", st.p, st.a, ts[1]>>
      [] st.p = "aeaddec" -> <<"o_plain", st.p>>
      [] st.p = "wrap" -> <<"o_wrap", ts[1], ts[2]>>
      [] st.p = "cmp" -> <<"o_cmp", <<"pay", st.a>>, ts[1]>>
      [] OTHER -> <<"o_unit">>

(***************************************************************************)
(* Vault operations.  Each returns [c, ok, out, n]: the client afterwards, *)
(* success, output, and the fresh-secret counter.                          *)
(***************************************************************************)
R(c, ok, out, n) == [c |-> c, ok |-> ok, out |-> out, n |-> n]
Unit == <<"o_unit">>
Fail == <<"fail">>

(* Writing to a revoked record that was not collected yet is refused.      *)
DoWrite(c, l, t, out, n) ==
    LET c1 == WithVault(c, l[1]) IN
    IF Revoked(c, l) THEN R(c1, FALSE, Fail, n) ELSE R(Put(c, l, t), TRUE, out, n)

DoRevoke(c, l) ==
    IF Live(c, l)
    THEN [c EXCEPT !.vaults = (l[1] :> ((l :> [rev |-> TRUE, t |-> Secret(c, l)]) @@ c.vaults[l[1]])) @@ @]
    ELSE c

DoCollect(c, v) ==
    IF HasVault(c, v)
    THEN [c EXCEPT !.vaults = (v :> Restrict(c.vaults[v], LiveIds(c, v))) @@ @]
    ELSE c

ExecStep(c, st, n) ==
    CASE st.p \in Generators ->
            DoWrite(c, st.d, Product(st, <<>>, n + 1), Output(st, <<>>, n + 1), n + 1)
      [] st.p \in Derivers ->
            \* source vaults are looked up first, then the target vault is created,
            \* then the secrets are read and the product computed and written
            IF \E i \in DOMAIN st.s : ~HasVault(c, st.s[i][1]) THEN R(c, FALSE, Fail, n)
            ELSE LET c1 == WithVault(c, st.d[1]) IN
                 IF \E i \in DOMAIN st.s : ~Live(c, st.s[i]) THEN R(c1, FALSE, Fail, n)
                 ELSE LET ts == [i \in DOMAIN st.s |-> Secret(c, st.s[i])] IN
                      IF ~Applicable(st, ts) THEN R(c1, FALSE, Fail, n)
                      ELSE DoWrite(c1, st.d, Product(st, ts, n), Output(st, ts, n), n)
      [] st.p \in Users ->
            IF \E i \in DOMAIN st.s : ~Live(c, st.s[i]) THEN R(c, FALSE, Fail, n)
            ELSE LET ts == [i \in DOMAIN st.s |-> Secret(c, st.s[i])] IN
                 IF ~Applicable(st, ts) THEN R(c, FALSE, Fail, n)
                 ELSE R(c, TRUE, Output(st, ts, n), n)
      [] st.p = "revoke" ->
            LET c1 == DoRevoke(c, st.d) IN
            R(IF st.a = "gc" THEN DoCollect(c1, st.d[1]) ELSE c1, TRUE, Unit, n)
      [] st.p = "gc" -> R(DoCollect(c, st.a), TRUE, Unit, n)

RECURSIVE RevokeAll(_, _)
RevokeAll(c, log) == IF log = <<>> THEN c ELSE RevokeAll(DoRevoke(c, Head(log)), Tail(log))

(* A chain stops at the first failing step and revokes what the executed   *)
(* steps produced.                                                         *)
RECURSIVE Chain(_, _, _, _, _)
Chain(c, steps, log, outs, n) ==
    IF steps = <<>> THEN R(c, TRUE, outs, n)
    ELSE LET st == Head(steps)
             r == ExecStep(c, st, n) IN
         IF ~r.ok THEN R(RevokeAll(r.c, log), FALSE, Fail, r.n)
         ELSE Chain(r.c, Tail(steps),
                    IF st.p \in Producers THEN Append(log, st.d) ELSE log,
                    Append(outs, r.out), r.n)

(***************************************************************************)
(* Synchronisation.  cfg: all or the vaults sv are selected; sr partial      *)
(* function vault -> selected record identities; mp partial function       *)
(* vault -> vault; pol "keep" or "replace".                                *)
(***************************************************************************)
Mapped(cfg, v) == IF v \in DOMAIN cfg.mp THEN cfg.mp[v] ELSE v
SelVaults(src, cfg) == IF cfg.all THEN DOMAIN src.vaults ELSE {v \in cfg.sv : HasVault(src, v)}
SelIds(src, cfg, v) ==
    LET l == LiveIds(src, v) IN IF v \in DOMAIN cfg.sr THEN l \cap cfg.sr[v] ELSE l

(* No two source records compete for one place in the target.              *)
ConflictFree(src, cfg) ==
    \A v, w \in SelVaults(src, cfg) :
        v # w /\ Mapped(cfg, v) = Mapped(cfg, w) =>
            SelIds(src, cfg, v) \cap SelIds(src, cfg, w) = {}

SyncInto(src, dst, cfg) ==
    LET sel == SelVaults(src, cfg)
        tv(v) == {w \in sel : Mapped(cfg, w) = v}
        targets == {Mapped(cfg, v) : v \in sel}
        old(v) == IF HasVault(dst, v) THEN dst.vaults[v] ELSE EmptyFn
        copied(w) == {id \in SelIds(src, cfg, w) :
                        ~(cfg.pol = "keep" /\ IsLive(dst, Mapped(cfg, w), id))}
        new(v) == LET ids == UNION {copied(w) : w \in tv(v)} IN
                  [id \in ids |-> LET w == CHOOSE w \in tv(v) : id \in copied(w) IN src.vaults[w][id]]
    IN [dst EXCEPT !.vaults = [v \in targets |-> new(v) @@ old(v)] @@ @]

(***************************************************************************)
(* The store.  Entries are [val, dl]; dl is a deadline or NoExp.           *)
(***************************************************************************)
NoLife == 1000                    \* inserted without a lifetime
HugeLife == 1001                  \* with a lifetime beyond what the clock can represent
Deadline(now, life) == IF life \in {NoLife, HugeLife} THEN NoExp ELSE now + life
Expired(e, now) == e.dl # NoExp /\ now >= e.dl
SGet(s, k, now) == IF k \in DOMAIN s /\ ~Expired(s[k], now) THEN s[k].val ELSE "absent"
SPut(s, k, val, life, now) == (k :> [val |-> val, dl |-> Deadline(now, life)]) @@ s
SDel(s, k) == Remove(s, {k})
SLive(s, now) == {k \in DOMAIN s : ~Expired(s[k], now)}
=============================================================================
