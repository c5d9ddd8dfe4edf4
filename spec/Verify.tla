------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* Verification of a batch of attestations: which batches a light client   *)
(* may accept from a consensus state, and what the result is.              *)
(*                                                                         *)
(* A world w is a record                                                   *)
(*   spe, maxc, tcs, ephv   slots per epoch, committees per slot at most,  *)
(*                          target committee size, randomness vector size  *)
(*   forks                  sequence of <<fork, first epoch>>              *)
(*   min, max, look, fac, quo   configuration                              *)
(*   gvr, incr              genesis validators root, balance increment     *)
(*   cs                     trusted consensus state (module FFG)           *)
(*   vals                   registry: sequence of [key, bal, slashed, ..]  *)
(*   Active(w, e)           the validators active in epoch e               *)
(*   Mix(e, i)              set holding the mix at index i, seen from e    *)
(*   Shuffle(e, m)          the active validators of e shuffled by mix m   *)
(*   atts                   sequence of attestations                       *)
(*   Slots(r)               set holding the slot proven for block root r   *)
(* Signatures are symbolic: an aggregate is a bag of (key, message).       *)
(***************************************************************************)
EXTENDS FFG, FiniteSets
CONSTANTS Active(_, _), Mix(_, _, _), Shuffle(_, _, _), Slots(_, _)

Fork(w, e) ==
  LET S == {i \in 1..Len(w.forks) : ULe(w.forks[i][2], e)}
  IN IF S = {} THEN 0 ELSE w.forks[CHOOSE i \in S : \A j \in S : w.forks[j][1] <= w.forks[i][1]][1]
ForkSupported(w, e) == w.min <= Fork(w, e) /\ Fork(w, e) <= w.max
WithinLookahead(w, e) == ULe(USatSub(e, w.cs.f.e), w.look)

(* Effective balance of a set of validators, at least one increment.       *)
Balance(w, S) ==
  LET D(k) == SumOver([i \in S |-> w.vals[i].bal[k]], S)
  IN WMax(WNorm(<<0, 0, D(1), D(2), D(3), D(4)>>), W(w.incr))

(* The randomness of an epoch is the mix of the epoch two before it.       *)
MixIndex(w, e) == UModSmall(UAdd(e, U(w.ephv - 2)), w.ephv)
Seed(w, e) == IF UAddOk(e, U(w.ephv)) THEN Mix(w, e, MixIndex(w, e)) ELSE {}

CommitteesPerSlot(w, n) ==
  LET c == (n \div w.spe) \div w.tcs
  IN IF c < 1 THEN 1 ELSE IF c > w.maxc THEN w.maxc ELSE c
(* Committee c of the s-th slot of an epoch whose shuffled validators are o *)
Committee(w, o, s, c) ==
  LET n == Len(o)
      cps == CommitteesPerSlot(w, n)
      total == cps * w.spe
      k == s * cps + c
  IN SubSeq(o, (n * k) \div total + 1, (n * (k + 1)) \div total)

(* The validators selected by an attestation; Bad if it is malformed.      *)
RECURSIVE Offset(_, _, _, _, _)
Offset(w, o, s, c, n) ==     \* members of the first n of the committees c
  IF n = 0 THEN 0 ELSE Len(Committee(w, o, s, c[n])) + Offset(w, o, s, c, n - 1)
Selected(w, o, a, j) ==      \* voters of the j-th committee named by a
  LET s == UModSmall(a.slot, w.spe)
      m == Committee(w, o, s, a.comm[j])
      off == Offset(w, o, s, a.comm, j - 1)
  IN {m[i] : i \in {i \in 1..Len(m) : off + i \in a.on}}
WellFormed(w, o, a) ==
  LET s == UModSmall(a.slot, w.spe) IN
  /\ ~a.base
  /\ UDivSmall(a.slot, w.spe) = a.tgt.e
  /\ a.index = UZero
  /\ \A j \in 1..Len(a.comm) : a.comm[j] < CommitteesPerSlot(w, Len(o))
  /\ Offset(w, o, s, a.comm, Len(a.comm)) = a.n
  /\ Len(a.comm) > 0
  /\ \A j \in 1..Len(a.comm) : Selected(w, o, a, j) # {}
Voters(w, o, a) == UNION {Selected(w, o, a, j) : j \in 1..Len(a.comm)}

Message(w, a) == [slot |-> a.slot, index |-> a.index, bbr |-> a.bbr, src |-> a.src, tgt |-> a.tgt,
                  ver |-> Fork(w, a.tgt.e), gvr |-> w.gvr, dom |-> 1]
(* The aggregate consists of exactly one signature per voter over the      *)
(* attestation's own message.                                              *)
Signed(w, V, a) ==
  LET Keys == {w.vals[v].key : v \in V}
  IN a.sig = {<<k, Message(w, a), Cardinality({v \in V : w.vals[v].key = k})>> : k \in Keys}

(* One link with its consecutive attestations g (indices into w.atts): the  *)
(* requirements it fails, each named by the property it belongs to.        *)
LinkFails(w, g) ==
  LET a1 == w.atts[CHOOSE i \in g : TRUE]
      e == a1.tgt.e
      act == Active(w, e)
      mix == Seed(w, e)
      limits == IF ForkSupported(w, e) /\ WithinLookahead(w, e) THEN {} ELSE {"C06"}
  IN IF mix = {} \/ act = {} THEN limits \cup {"C14"}
     ELSE LET o == Shuffle(w, e, CHOOSE m \in mix : TRUE)
              formed == \A i \in g : WellFormed(w, o, w.atts[i])
              authentic == \A i \in g : Signed(w, Voters(w, o, w.atts[i]), w.atts[i])
              voters == UNION {Voters(w, o, w.atts[i]) : i \in g}
              sup == Balance(w, {v \in voters : ~w.vals[v].slashed})
              tot == Balance(w, act)
          IN IF ~formed THEN limits \cup {"C05"}
             ELSE limits \cup (IF authentic THEN {} ELSE {"C05"})
                  \cup (IF WLe(WMul(tot, w.fac), WMul(sup, w.quo)) /\ WLe(WMul(tot, 2), WMul(sup, 3))
                        THEN {} ELSE {"C04"})
(* Sums or triples that do not fit in 64 bits may be refused.              *)
Huge(w) == \E e \in {w.atts[i].tgt.e : i \in 1..Len(w.atts)} : ~WFits(WMul(Balance(w, Active(w, e)), 3))

(* Consecutive attestations with the same source and target form a link.   *)
Starts(w) == {i \in 1..Len(w.atts) :
                i = 1 \/ w.atts[i].src # w.atts[i-1].src \/ w.atts[i].tgt # w.atts[i-1].tgt}
Group(w, i) == {j \in i..Len(w.atts) : \A k \in (i+1)..j : k \notin Starts(w)}

(* The whole batch: the state after it and the requirements it fails.      *)
RECURSIVE Run(_, _, _)
Run(w, i, cs) ==
  IF i > Len(w.atts) THEN
    IF cs.f = w.cs.f THEN [cs |-> cs, fails |-> {"C03"}]       \* nothing finalized
    ELSE IF Slots(w, cs.f.r) = {} THEN [cs |-> cs, fails |-> {"C03"}]
    ELSE [cs |-> cs, fails |-> {}]
  ELSE LET g == Group(w, i)
           a == w.atts[i]
           ok == StepOk(cs, a.src, a.tgt) /\ cs.f = w.cs.f
           rest == Run(w, i + Cardinality(g), IF ok THEN Step(cs, a.src, a.tgt) ELSE cs)
       IN [cs |-> rest.cs, fails |-> rest.fails \cup LinkFails(w, g) \cup (IF ok THEN {} ELSE {"C03"})]
Verdict(w) == Run(w, 1, w.cs)
=============================================================================
