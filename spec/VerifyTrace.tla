----------------------------- MODULE VerifyTrace -----------------------------
(* Conformance of the implementation's verify on recorded worlds (C03-C07,  *)
(* C14): it accepts exactly what the specification accepts, with the same  *)
(* result, and what it accepts is accountably safe.                        *)
EXTENDS FFG, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

J2Cp(c) == Cp(c[1], c[2])
J2Cs(s) == CS(J2Cp(s[1]), J2Cp(s[2]))
Set(q) == {q[i] : i \in 1..Len(q)}
MixOf(w, e, i) == {x[3] : x \in {x \in w.mixes : x[1] = e /\ x[2] = i}}
ShuffleOf(w, e, m) == (CHOOSE x \in w.shuf : x.e = e /\ x.m = m).list
SlotsOf(w, r) == {x[2] : x \in {x \in w.slots : x[1] = r}}
ActiveOf(w, e) == {i \in 1..Len(w.vals) : ULe(w.vals[i].act, e) /\ ULt(e, w.vals[i].exit)}
V == INSTANCE Verify WITH Active <- ActiveOf, Mix <- MixOf, Shuffle <- ShuffleOf, Slots <- SlotsOf

J2Msg(m) == [slot |-> m[1], index |-> m[2], bbr |-> m[3], src |-> J2Cp(m[4]), tgt |-> J2Cp(m[5]),
             ver |-> m[6], gvr |-> m[7], dom |-> m[8]]
World(r) ==
  LET msgs == [i \in 1..Len(r.msgs) |-> J2Msg(r.msgs[i])] IN
  [spe |-> r.spe, maxc |-> r.maxc, tcs |-> r.tcs, ephv |-> r.ephv, forks |-> r.forks,
   min |-> r.min, max |-> r.max, look |-> r.look, fac |-> r.fac, quo |-> r.quo,
   gvr |-> r.gvr, incr |-> r.incr, cs |-> J2Cs(r.cs),
   vals |-> [i \in 1..Len(r.vals) |-> [key |-> r.vals[i][1], bal |-> r.vals[i][2],
             slashed |-> r.vals[i][3], act |-> r.vals[i][4], exit |-> r.vals[i][5]]],
   mixes |-> Set(r.mixes), shuf |-> Set(r.shuf), slots |-> Set(r.slots),
   atts |-> [i \in 1..Len(r.atts) |-> LET a == r.atts[i] IN
             [slot |-> a.s, index |-> a.i, bbr |-> a.b, src |-> J2Cp(a.src), tgt |-> J2Cp(a.tgt),
              comm |-> a.c, n |-> a.n, on |-> Set(a.on), base |-> a.base,
              sig |-> {<<a.sig[k][1], msgs[a.sig[k][2]], a.sig[k][3]>> : k \in 1..Len(a.sig)}]]]

(* The oracle's shuffling is a permutation of the active validators.       *)
Sane(w) == \A x \in w.shuf : /\ Set(x.list) = ActiveOf(w, x.e)
                             /\ Len(x.list) = Cardinality(Set(x.list))

(* Set of <<property, message>> violated by one verification.              *)
Judge(r, w) ==
  LET v == V!Verdict(w) IN
  IF r.ok THEN
    {<<p, "accepted a batch it must refuse">> :
        p \in v.fails \cup (IF r.focus = "C14" /\ "C05" \in v.fails THEN {"C14"} ELSE {})} \cup
    (IF v.fails = {} /\ (J2Cs(r.res) # v.cs \/ SlotsOf(w, v.cs.f.r) # {r.slot})
     THEN {<<"C03", "accepted with the wrong result">>} ELSE {})
  ELSE IF v.fails = {} /\ ~V!Huge(w) THEN {<<r.focus, "refused a valid batch">>} ELSE {}

(* Accountable safety of two accepted batches from the same state.         *)
Chain(w) == {w.cs.j, w.cs.f} \cup {w.atts[i].tgt : i \in 1..Len(w.atts)}
Votes(w, v) == {s[2] : s \in {s \in UNION {w.atts[i].sig : i \in 1..Len(w.atts)} : s[1] = w.vals[v].key}}
Good(w, v) == {m \in Votes(w, v) : m.dom = 1 /\ m.gvr = w.gvr}
Slashable(m, n) ==
  \/ m.tgt.e = n.tgt.e /\ m # n
  \/ ULt(m.src.e, n.src.e) /\ ULt(n.tgt.e, m.tgt.e)
  \/ ULt(n.src.e, m.src.e) /\ ULt(m.tgt.e, n.tgt.e)
Culprits(a, b) ==
  {v \in 1..Len(a.vals) : \E m, n \in Good(a, v) \cup Good(b, v) : Slashable(m, n)}
Conflict(a, b, fa, fb) == fa # fb /\ fa \notin Chain(b) /\ fb \notin Chain(a)
JudgePair(r) ==
  LET a == World(r.a)  b == World(r.b) IN
  IF ~(r.a.ok /\ r.b.ok) THEN {}
  ELSE IF ~Conflict(a, b, J2Cs(r.a.res).f, J2Cs(r.b.res).f) THEN {}
  ELSE LET all == 1..Len(a.vals)
       IN IF WLe(WMul(V!Balance(a, all), 2 * a.fac - a.quo), WMul(V!Balance(a, Culprits(a, b)), a.quo))
          THEN {} ELSE {<<"C07", "two conflicting finalizations without enough slashable weight">>}

Report(r) ==
  IF r.k = "pair" THEN JudgePair(r)
  ELSE LET w == World(r) IN IF Assert(Sane(w), <<"oracle", l>>) THEN Judge(r, w) ELSE {}
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A x \in Report(Trace[l]) : PrintT(<<"BAD", l, x[1], x[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
