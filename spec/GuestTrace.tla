----------------------------- MODULE GuestTrace -----------------------------
(* Conformance of the guest's input reader (C10-C13): it accepts exactly   *)
(* the inputs the specification accepts, and what it then says about the   *)
(* chain is what the specification derives from the proven data.           *)
EXTENDS Guest, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Input(r) ==
  [cs |-> CS(Cp(r.gcs[1][1], r.gcs[1][2]), Cp(r.gcs[2][1], r.gcs[2][2])),
   block |-> r.block, state |-> r.state, vlist |-> r.vlist, keys |-> r.keys, sproofs |-> r.sproofs,
   patches |-> r.patches, spe |-> r.spe, look |-> r.maxlook,
   forkv |-> r.forkv, versions |-> r.versions, minact |-> r.minact,
   minchurn |-> r.minchurn, churnq |-> r.churnq, incr |-> r.incr, incrq |-> r.incrq]

Facts(r, g, vs, raw) ==
  LET got == r.got
      N == 1..Len(vs)
      Info(x) == [i |-> x[1], key |-> x[2], bal |-> x[3], slashed |-> x[4], aee |-> x[5], act |-> x[6], exit |-> x[7]]
      Seen == {Info(x) : x \in Range(got.infos)}
      Ever == UNION {ActiveSet(g, vs, a[1]) : a \in Range(got.active)}
      Diff(a) == LET S == ActiveSet(g, vs, a[1]) T == Range(a[2]) IN (S \ T) \cup (T \ S)
  IN
  (IF got.gvr # Gvr(g) THEN {<<"C10", "another genesis validators root">>} ELSE {}) \cup
  UNION {LET S == {v \in Range(vs) : v.i = x.i} IN
         IF S = {} THEN {<<"C11", "a validator that is not in the registry">>}
         ELSE LET v == CHOOSE v \in S : TRUE IN
           (IF [x EXCEPT !.aee = UZero, !.act = UZero] # [v EXCEPT !.aee = UZero, !.act = UZero]
            THEN {<<"C11", "a wrong validator record">>, <<"C10", "a wrong validator record">>} ELSE {}) \cup
           (IF x.aee # v.aee \/ x.act # v.act THEN {<<"C12", "a wrong activation">>} \cup
              (IF v \in Range(raw) THEN {<<"C11", "a wrong validator record">>} ELSE {}) ELSE {})
         : x \in Seen} \cup
  UNION {UNION {(IF \E n \in 1..Len(g.patches) : ExitIn(g.patches[n], i) # {}
                 THEN {<<"C13", "wrong effect of a patched exit">>} ELSE {}) \cup
                (IF Leaves(g, a[1], i) # {} THEN {} ELSE {<<"C12", "wrong set of active validators">>} \cup
                     (IF \E v \in Range(raw) : v.i = i /\ v.act # Far THEN {<<"C11", "wrong set of active validators">>} ELSE {}))
                : i \in Diff(a)} : a \in Range(got.active)} \cup
  (IF \E m \in Range(got.mixes) : MixAt(g, m[1], m[2]) # (IF m[3] = -1 THEN {} ELSE {m[3]})
   THEN {<<"C13", "wrong randomness">>, <<"C14", "wrong randomness">>} ELSE {}) \cup
  (IF \E s \in Range(got.slots) : SlotOf(g, s[1]) # (IF s[2] THEN {s[3]} ELSE {})
   THEN {<<"C10", "a block slot that is not proven">>} ELSE {}) \cup
  (IF \E f \in Range(got.forks) : ForkAt(g, f[1]) # <<f[2], f[3], f[4]>>
   THEN {<<"C10", "a wrong fork">>} ELSE {})

Judge(r) ==
  LET g == Input(r)
      v == Verdict(g)
      exits == \E n \in 1..Len(g.patches) : g.patches[n].exits # <<>>
  IN
  IF r.ok THEN
    IF v.fails # {} THEN {<<p, "accepted an input it must refuse">> : p \in v.fails}
    ELSE IF r.got.odd # "" THEN {<<p, r.got.odd>> : p \in {"C10", "C11", "C12", "C13"}}
    ELSE Facts(r, g, v.regs, Registry(g).recs)
  ELSE IF v.fails # {} \/ v.grey = "vast" THEN {}
  ELSE IF v.grey = "two-queues" THEN {<<"C13", "[two-queues] refused exits of two independent queues">>}
  ELSE {<<p, "refused a valid input">> : p \in {r.focus} \cup (IF exits THEN {"C13"} ELSE {"C10", "C11"})}
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A x \in Judge(Trace[l]) : PrintT(<<"BAD", l, x[1], x[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
