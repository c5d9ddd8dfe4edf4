------------------------------- MODULE Follow -------------------------------
(* What the guest can follow of a chain: the records an honest host makes  *)
(* of it (registry and randomness at every target), and where the guest's  *)
(* derivation (module Guest) and the chain itself part ways.               *)
(* A chain r: the registry vals the trusted state proves; at, the registry *)
(* at the start of every later epoch; pre, the consensus state; slot, fin, *)
(* ee, ce of the trusted state; links, mixes and the chain's constants.    *)
EXTENDS Guest
K(c) == Cp(c[1], c[2])
J2Cs(s) == CS(K(s[1]), K(s[2]))
Rec(i, v) == [i |-> i - 1, key |-> v[1], bal |-> v[2], slashed |-> v[3], aee |-> v[4], act |-> v[5], exit |-> v[6]]
RegAt(r, e) == LET k == CHOOSE k \in 1..Len(r.at) : r.at[k][1] = e IN r.at[k][2]
HasReg(r, e) == \E k \in 1..Len(r.at) : r.at[k][1] = e
ActiveAt(r, e) == LET v == RegAt(r, e) IN {i - 1 : i \in {i \in 1..Len(v) : IsActive(Rec(i, v[i]), e)}}

Targets(r) == {r.links[i][2][1] : i \in 1..Len(r.links)}
SeedIndex(r, e) == UAdd(e, U(65536 - r.minlook - 1))[4]            \* modulo 65536
MixOf(r, i) == LET S == {m \in Range(r.mixes) : m[1] = i} IN
               IF S = {} THEN 0 ELSE (CHOOSE m \in S : TRUE)[2]
Changed(r, e) == LET v == RegAt(r, e) IN
  {<<i - 1, v[i][6]>> : i \in {i \in 1..Len(r.vals) : v[i][6] # r.vals[i][6]}}
RECURSIVE SetSeq(_), Ascending(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : ULe(x, y) IN <<x>> \o Ascending(S \ {x})
(* What an honest host records.                                            *)
Patches(r) == LET ts == Ascending(Targets(r)) IN
  [k \in 1..Len(ts) |-> [e |-> ts[k], mixes |-> <<<<SeedIndex(r, ts[k]), MixOf(r, SeedIndex(r, ts[k]))>>>>,
                         exits |-> SetSeq(Changed(r, ts[k]))]]
G(r) == [cs |-> J2Cs(r.pre),
         state |-> [vals |-> [k \in 1..9 |-> CASE k = 2 -> <<0, 0, r.slot>> [] k = 7 -> <<0, 0, r.fin>>
                                             [] k = 8 -> <<0, 0, r.ee>> [] k = 9 -> <<0, 0, r.ce>>
                                             [] OTHER -> <<0, 0, UZero>>]],
         patches |-> Patches(r), spe |-> r.spe, look |-> r.maxlook, forkv |-> r.forkv, versions |-> r.versions,
         minact |-> r.minact, minchurn |-> r.minchurn, churnq |-> r.churnq, incr |-> r.incr, incrq |-> r.incrq]

Recs(r) == SelectSeq([i \in 1..Len(r.vals) |-> Rec(i, r.vals[i])], LAMBDA v : ULt(K(r.trusted).e, v.exit))

(* Why the guest cannot follow an honest chain, if so.                     *)
Skipped(r, g) == ULt(StateEpoch(g), g.cs.f.e)
Obstacle(r, g) ==
  LET recs == Recs(r)
      vs == Rolled(g, recs)
      Off(e) == LET S == ActiveSet(g, vs, e)  T == ActiveAt(r, e) IN (S \ T) \cup (T \ S)
      early == {x \in UNION {New(g, vs, n) : n \in 1..Len(g.patches)} : ULt(x[2], Base(g))}
  IN IF \E e \in Targets(r) : Off(e) # {}
     THEN IF ULt(U(4), U(r.look)) /\ \A e \in Targets(r) : ULt(e, Base(g)) => Off(e) = {} THEN "far"
          ELSE IF Skipped(r, g) /\ \A e \in Targets(r) : \A i \in Off(e) :
               \* activated by the processing of the empty slots before the trusted epoch
               LET v == RegAt(r, e)[i + 1] IN
               /\ i < Len(r.vals) /\ r.vals[i + 1][5] = Far
               /\ ULe(ActivationExit(g, StateEpoch(g)), v[5]) /\ ULt(v[5], ActivationExit(g, g.cs.f.e))
          THEN "skipped-activation" ELSE "?active"
     ELSE IF ~(Timely(g) /\ Known(g, vs) /\ Once(g, vs)) THEN "?patches"
     ELSE IF early # {}
     THEN IF Skipped(r, g) /\ \A x \in early : ULe(ActivationExit(g, StateEpoch(g)), x[2])
          THEN "skipped-ejection" ELSE "?early"
     ELSE IF Monotone(g, vs) THEN (IF WithinChurn(g, vs) THEN "" ELSE "?churn")
     ELSE "two-queues"
=============================================================================
