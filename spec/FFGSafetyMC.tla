---------------------------- MODULE FFGSafetyMC -----------------------------
(***************************************************************************)
(* Accountable safety of the acceptance rule: two light clients start from *)
(* the same state and are each shown supermajority links of their own,     *)
(* by validators who vote as they please. If they finalize conflicting     *)
(* checkpoints, validators of enough weight have signed a slashable pair.  *)
(* Voters of a link are a least quorum: further voters only add culprits.  *)
(***************************************************************************)
EXTENDS FFG, FiniteSets, TLC
CONSTANTS Vals, Quorum, MaxEpoch, Roots
VARIABLES a, b, turn, votes   \* clients: [cs, chain, finals]; votes: set of <<validator, source, target>>

J0 == Cp(U(1), 1)
F0 == Cp(U(0), 2)
Start == [cs |-> CS(J0, F0), chain |-> {J0, F0}, finals |-> {}]
Targets == {Cp(U(e), r) : e \in 1..MaxEpoch, r \in Roots}
Quorums == {Q \in SUBSET Vals : Cardinality(Q) = Quorum}

Init == a = Start /\ b = Start /\ turn = "a" /\ votes = {}
Extend(c, t) ==
  LET n == Step(c.cs, c.cs.j, t)
  IN [cs |-> n, chain |-> c.chain \cup {t}, finals |-> c.finals \cup ({n.f} \ {c.cs.f})]
NextA == \E t \in Targets, Q \in Quorums :
  /\ turn = "a" /\ StepOk(a.cs, a.cs.j, t)
  /\ a' = Extend(a, t) /\ b' = b /\ turn' = turn
  /\ votes' = votes \cup {<<v, a.cs.j, t>> : v \in Q}
(* The second client moves once the first is done (their order is moot).   *)
Turn == turn = "a" /\ a.finals # {} /\ turn' = "b" /\ UNCHANGED <<a, b, votes>>
NextB == \E t \in Targets, Q \in Quorums :
  /\ turn = "b" /\ StepOk(b.cs, b.cs.j, t)
  /\ b' = Extend(b, t) /\ a' = a /\ turn' = turn
  /\ votes' = votes \cup {<<v, b.cs.j, t>> : v \in Q}
Perms == Permutations(Vals)
Next == NextA \/ Turn \/ NextB
Spec == Init /\ [][Next]_<<a, b, turn, votes>>

Slashable(x, y) ==
  \/ x[3].e = y[3].e /\ x # y
  \/ ULt(x[2].e, y[2].e) /\ ULt(y[3].e, x[3].e)
Culprits == {v \in Vals : \E x, y \in {z \in votes : z[1] = v} : Slashable(x, y)}
Conflict == \E x \in a.finals, y \in b.finals : x # y /\ x \notin b.chain /\ y \notin a.chain
Accountable == Conflict => Cardinality(Culprits) >= 2 * Quorum - Cardinality(Vals)
Consistent == Valid(a.cs) /\ Valid(b.cs)
=============================================================================
