------------------------------ MODULE ProgTrace ------------------------------
(* Conformance of the shipped guest programs (C15, C06): on every recorded *)
(* input they end without error and publish exactly one journal if input   *)
(* and votes are valid, and fail without publishing anything otherwise.    *)
EXTENDS Prog, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
J2Cp(c) == Cp(c[1], c[2])
Input(r) == OnNetwork(r.net,
  [cs |-> CS(J2Cp(r.gcs[1]), J2Cp(r.gcs[2])),
   block |-> r.block, state |-> r.state, vlist |-> r.vlist, keys |-> r.keys, sproofs |-> r.sproofs,
   patches |-> r.patches, spe |-> 0, look |-> 0, forkv |-> <<>>, versions |-> <<>>, minact |-> 0,
   minchurn |-> 0, churnq |-> <<>>, incr |-> 0, incrq |-> <<>>])
J2Msg(m) == [slot |-> m[1], index |-> m[2], bbr |-> m[3], src |-> J2Cp(m[4]), tgt |-> J2Cp(m[5]),
             ver |-> m[6], gvr |-> m[7], dom |-> m[8]]
Chosen(S, else) == IF S = {} THEN else ELSE CHOOSE x \in S : TRUE
World(r, g, regs) ==
  LET msgs == [i \in 1..Len(r.msgs) |-> J2Msg(r.msgs[i])]
      Name(t) == Chosen({n[1] : n \in {n \in Range(r.names) : n[2] = t}}, -1)
      Key(c) == Chosen({k[2] : k \in {k \in Range(r.pk) : k[1] = c}}, -1)
      atts == [i \in 1..Len(r.atts) |-> LET a == r.atts[i] IN
             [slot |-> a.s, index |-> a.i, bbr |-> a.b, src |-> J2Cp(a.src), tgt |-> J2Cp(a.tgt),
              comm |-> a.c, n |-> a.n, on |-> Range(a.on), base |-> a.base,
              sig |-> {<<a.sig[k][1], msgs[a.sig[k][2]], a.sig[k][3]>> : k \in 1..Len(a.sig)}]]
  IN Proven(r.net, g, regs, CS(J2Cp(r.cs[1]), J2Cp(r.cs[2])), Name(Gvr(g)), Key, atts, Range(r.shuf), Name)

Word(r, k) == r.words[k]
IsNumber(r, k, n) == Word(r, k)[2] /\ Word(r, k)[3] = n
IsRoot(r, k, name) == \E n \in Range(r.names) : n[1] = name /\ n[2] = Word(r, k)[1]
Says(r, k, cs) == IsNumber(r, k, cs.j.e) /\ IsRoot(r, k + 1, cs.j.r) /\ IsNumber(r, k + 2, cs.f.e) /\ IsRoot(r, k + 3, cs.f.r)
Published(r, w, v) ==
  /\ r.len = 288
  /\ Says(r, 1, w.cs) /\ Says(r, 5, v.cs)
  /\ \E s \in SlotsIn(w, v.cs.f.r) : IsNumber(r, 9, s)

Judge(r) ==
  LET g == Input(r)
      gv == Verdict(g)
      w == World(r, g, gv.regs)
      v == V!Verdict(w)
      fails == IF gv.fails # {} THEN gv.fails ELSE v.fails
  IN
  IF gv.fails = {} /\ v.fails = {} /\ ~Assert(Covered(w), <<"oracle", l>>) THEN {}
  ELSE IF r.exit = 0 THEN
    IF fails # {} THEN {<<p, "a journal for an input that is not verified">> : p \in fails \cup {"C15"} \cup
                      (IF "C04" \in fails THEN {"C06"} ELSE {})}   \* the threshold is the network's
    ELSE IF ~Published(r, w, v) THEN {<<"C15", "not the journal of what was verified">>} ELSE {}
  ELSE (IF r.len # 0 THEN {<<"C15", "published before it failed">>} ELSE {}) \cup
       (IF fails # {} \/ gv.grey # "" \/ V!Huge(w) THEN {}
        ELSE {<<p, "refused a valid input">> : p \in {r.focus, "C15"}})
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A x \in Judge(Trace[l]) : PrintT(<<"BAD", l, x[1], x[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
