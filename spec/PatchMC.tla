------------------------------ MODULE PatchMC -------------------------------
(* Every short sequence of unproven patches an adversary may hand in with  *)
(* a small registry: what can the accepted ones achieve?                   *)
EXTENDS Guest, TLC
CONSTANTS Patches, Movers                  \* how many patches, of how many validators
T == 20                                    \* the trusted epoch
Look == 4
PerEpoch == 2                              \* churn limit; the guest allows twice that
N(n) == IF n = 0 THEN Far ELSE U(n)
Bal == <<4, 3, 1, 9>>
VARIABLES ee, ce, sched, ps
vars == <<ee, ce, sched, ps>>
V(i) == [i |-> i - 1, key |-> i, bal |-> U(Bal[i]), slashed |-> FALSE, aee |-> UZero,
         act |-> IF i = 4 THEN U(T + 3) ELSE UZero, exit |-> IF i = 3 THEN N(sched) ELSE Far]
Vs == [i \in 1..4 |-> V(i)]
GP(q) ==
  [cs |-> CS(Cp(U(T + 1), 2), Cp(U(T), 1)), patches |-> q, look |-> Look,
   state |-> [vals |-> [k \in 1..9 |-> CASE k = 8 -> <<0, 0, U(ee)>> [] k = 9 -> <<0, 0, U(ce)>> [] OTHER -> <<0, 0, UZero>>]],
   minchurn |-> U(PerEpoch), churnq |-> <<9999, 9999>>, incr |-> U(1), incrq |-> <<1>>]
G == GP(ps)

Init == /\ ee \in {0, T + 6, T + 7} /\ ce \in {0, T + 6} /\ sched \in {0, T + 2}
        /\ ps = <<>>
(* Exits somebody may claim: none, one too early, ones in order, never.    *)
Claims == {-1, T + 2, T + 4, T + 5, T + 6, T + 7, T + 8, 0}
Epochs == {T - 1, T, T + 3, T + 6}
RECURSIVE ExitSeq(_, _)
ExitSeq(f, i) == IF i > Movers THEN <<>>
                 ELSE (IF f[i] = -1 THEN <<>> ELSE << <<i - 1, N(f[i])>> >>) \o ExitSeq(f, i + 1)
Next == /\ Len(ps) < Patches
        /\ \E n \in Epochs, f \in [1..Movers -> Claims] :
             /\ ps # <<>> => ULt(ps[Len(ps)].e, U(n))
             /\ ps' = Append(ps, [e |-> U(n), mixes |-> <<>>, exits |-> ExitSeq(f, 1)])
        /\ PatchVerdict(G, Vs).ok          \* a prefix of an accepted sequence is accepted
        /\ UNCHANGED <<ee, ce, sched>>
Spec == Init /\ [][Next]_vars

Verd == PatchVerdict(G, Vs)
Accepted == Verd.ok
(* Within the lookahead the patches change nobody's activity: the earliest *)
(* exit they can claim is beyond it. The limit of the lookahead and the    *)
(* check of the earliest exit protect the committees only together.        *)
Harmless == Accepted => \A k \in 0..Look : ActiveSet(G, Vs, U(T + k)) = ActiveSet(GP(<<>>), Vs, U(T + k))
(* At any distance they can only take validators away,                     *)
OnlyExits == Accepted => \A k \in 0..10 : ActiveSet(G, Vs, U(T + k)) \subseteq ActiveSet(GP(<<>>), Vs, U(T + k))
(* never before what is scheduled, and once.                               *)
Final == Accepted => \A n \in 1..Len(ps) : \A x \in Range(ps[n].exits) :
           /\ \A k \in Pos(Vs, x[1]) : Vs[k].exit # Far => x[2] = Vs[k].exit
           /\ x[2] # Far => \A m \in n..Len(ps) : \A y \in ExitIn(ps[m], x[1]) : y = x[2]
(* The balance gone by an epoch is bounded by the churn of the epochs that *)
(* an exit can be in, and one epoch's more for every further patch.        *)
Gone(x) == Sum(Vs, {k \in 1..4 : \E n \in 1..Len(ps) : \E y \in New(G, Vs, n) : y[1] = Vs[k].i /\ ULe(y[2], x)})
Exits == {y[2] : y \in UNION {New(G, Vs, n) : n \in 1..Len(ps)}}
Bounded == Accepted => \A x \in Exits :
  IF Verd.grey = "two-queues" THEN WLe(Gone(Far), WMul(W(Churn(G, Vs)), Len(ps)))
  ELSE WLe(Gone(x), WMul(W(Churn(G, Vs)), USub(x, FirstExit(G))[4] + Len(ps)))
(* Two queues are needed only when exits and consolidations have queues    *)
(* that are apart, or an exit falls behind another patch's.                *)
GreyOnlyOutOfOrder == Verd.grey = "two-queues" => ~Monotone(G, Vs)
(* Not vacuous: these are violated.                                        *)
NoneAccepted == ~(Accepted /\ Exits # {} /\ Len(ps) = Patches)
NoGrey == Verd.grey = ""
NoReturn == Accepted => \A n \in 1..Len(ps) : \A x \in Range(ps[n].exits) : \A m \in (n + 1)..Len(ps) :
              ULe(x[2], ps[m].e) => x[1] \notin ActiveSet(G, Vs, ps[m].e)
=============================================================================
