-------------------------------- MODULE Prog ---------------------------------
(***************************************************************************)
(* The shipped guest programs: a complete input is one of module Guest     *)
(* with attestations; the facts it proves are the world in which module    *)
(* Verify judges them.  If both accept, the program publishes one journal. *)
(***************************************************************************)
EXTENDS Guest, SequencesExt

(* The networks as published; versions are four bytes, as two words.       *)
Gwei(n) == UMulSmall5(U(1000000000), n)
Networks == [
  mainnet |-> [forks |-> <<<<0, 0>>, <<1, 74240>>, <<2, 144896>>, <<3, 194048>>, <<4, 269568>>, <<5, 364032>>, <<6, 411392>>>>,
               versions |-> [k \in 1..7 |-> <<0, k - 1>>], fac |-> 85],
  sepolia |-> [forks |-> <<<<0, 0>>, <<1, 50>>, <<2, 100>>, <<3, 56832>>, <<4, 132608>>, <<5, 222464>>, <<6, 272640>>>>,
               versions |-> [k \in 1..7 |-> <<(IF k = 1 THEN 105 ELSE 110 + k) * 256, 144>>], fac |-> 70]]
Forks(net) == [k \in 1..7 |-> <<Networks[net].forks[k][1], U(Networks[net].forks[k][2])>>]
Low(p) == <<p[2], p[3], p[4], p[5]>>

(* The input g with the parameters of its network.                         *)
OnNetwork(net, g) ==
  [g EXCEPT !.spe = 32, !.look = 4,
     !.forkv = [k \in 1..7 |-> <<k - 1, Forks(net)[k][2], Networks[net].versions[k]>>],
     !.versions = Networks[net].versions,
     !.minact = Low(Gwei(32)), !.minchurn = Low(Gwei(128)), !.churnq = <<256, 256>>,
     !.incr = U(1000000000), !.incrq = <<1000, 1000, 1000>>]

(* The world an input proves, for a registry regs; validators are numbered *)
(* from 1, those left out are never active.                                *)
Missing == [key |-> 0, bal |-> UZero, slashed |-> FALSE]
Proven(net, g, regs, cs, gvr, KeyNo(_), atts, shuf, Name(_)) ==
  LET n == IF regs = <<>> THEN 0 ELSE regs[Len(regs)].i + 1
      at == [i \in {regs[k].i + 1 : k \in 1..Len(regs)} |-> CHOOSE k \in 1..Len(regs) : regs[k].i + 1 = i]
  IN [spe |-> 32, maxc |-> 64, tcs |-> 128, ephv |-> 65536, forks |-> Forks(net),
      min |-> 5, max |-> 6, look |-> U(4), fac |-> Networks[net].fac, quo |-> 100,
      gvr |-> gvr, incr |-> U(1000000000), cs |-> cs,
      vals |-> [i \in 1..n |-> IF i \notin DOMAIN at THEN Missing
                ELSE [key |-> KeyNo(regs[at[i]].key), bal |-> regs[at[i]].bal, slashed |-> regs[at[i]].slashed]],
      atts |-> atts, shuf |-> shuf, g |-> g, regs |-> regs,
      slots |-> {<<Name(p.root), p.vals[1][3]>> : p \in {p \in Range(g.sproofs) : p.root # -1 /\ Len(p.vals) > 0}}]
ActiveIn(w, e) == {i + 1 : i \in ActiveSet(w.g, w.regs, e)}
MixIn(w, e, i) == MixAt(w.g, e, i)
SlotsIn(w, r) == {x[2] : x \in {x \in w.slots : x[1] = r}}
(* The shuffling is an oracle, defined where the recorded run needs it.    *)
ShuffleIn(w, e, m) ==
  LET S == {x \in w.shuf : x.e = e /\ x.m = m /\ Range(x.list) = ActiveIn(w, e) /\ Len(x.list) = Cardinality(ActiveIn(w, e))}
  IN IF S = {} THEN SetToSeq(ActiveIn(w, e)) ELSE (CHOOSE x \in S : TRUE).list
V == INSTANCE Verify WITH Active <- ActiveIn, Mix <- MixIn, Shuffle <- ShuffleIn, Slots <- SlotsIn

(* Does the oracle cover every target epoch the program may look at?       *)
Covered(w) ==
  \A i \in 1..Len(w.atts) :
    LET e == w.atts[i].tgt.e
        m == V!Seed(w, e)
    IN (~V!WithinLookahead(w, e) \/ ULe(e, w.cs.f.e) \/ m = {} \/ ActiveIn(w, e) = {}) \/
       \E x \in w.shuf : x.e = e /\ m = {x.m} /\ Range(x.list) = ActiveIn(w, e)
=============================================================================
