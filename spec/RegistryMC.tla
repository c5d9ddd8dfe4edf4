----------------------------- MODULE RegistryMC -----------------------------
(* Every short history of the validator registry after a trusted           *)
(* checkpoint: exits and consolidations in their two queues, ejections,    *)
(* activations, deposits, changes of balance, every pace of finality, with *)
(* and without empty slots at the checkpoint. Can the guest follow?        *)
EXTENDS Follow, TLC
CONSTANTS Ops, Ahead, Wide                 \* operations, epochs ahead, more choices
T == 20                                    \* the trusted epoch
Spe == 2
Look == 4
FarE == 999999                             \* stands for the far future
MinAct == 4   EjectAt == 2   PerA == 2   PerB == 2
VARIABLES lag, e, reg, qa, qb, fin, first, at, ops, j
vars == <<lag, e, reg, qa, qb, fin, first, at, ops, j>>
V(k, bal, aee, act, exit) == [k |-> k, bal |-> bal, aee |-> aee, act |-> act, exit |-> exit]
Max(a, b) == IF a < b THEN b ELSE a
Active(v, n) == v.act <= n /\ n < v.exit

(* A queue of exits: the epoch it has reached and what is left of it.      *)
Slot(q, per, now, bal) ==
  LET a == Max(q[1], now + 1 + Look)
      have == IF q[1] < a THEN per ELSE q[2]
      more == IF bal > have THEN (bal - have - 1) \div per + 1 ELSE 0
  IN <<a + more, have + more * per - bal>>

Init ==
  /\ lag \in {0, 1} /\ e = T - lag /\ ops = 0 /\ j \in {T + 1, T + 2}
  /\ \E p \in {<<T - 2, 4>>, <<T - 1, 4>>, <<FarE, 3>>} \cup (IF Wide THEN {<<T, 4>>, <<FarE, 4>>} ELSE {}), b \in {2, 4} :
       reg = << V(1, b, 0, 0, FarE), V(2, 5, 0, 0, FarE), V(3, 4, 0, 0, T + 2), V(4, p[2], p[1], FarE, FarE) >>
  /\ qa \in {<<0, 0>>, <<T + 6, 0>>} \cup (IF Wide THEN {<<T + 5 - lag, 1>>} ELSE {})
  /\ qb \in {<<T + 5, 1>>} \cup (IF Wide THEN {<<0, 0>>} ELSE {})
  /\ fin \in {T - 3, T - 2}
  /\ first = [reg |-> reg, ee |-> qa[1], ce |-> qb[1], fin |-> fin]
  /\ at = <<>>

Block == e >= T /\ e < T + Ahead /\ ops < Ops /\ ops' = ops + 1
Exit(i) ==
  /\ Block /\ reg[i].exit = FarE /\ Active(reg[i], e)
  /\ LET q == Slot(qa, PerA, e, reg[i].bal) IN qa' = q /\ reg' = [reg EXCEPT ![i].exit = q[1]]
  /\ UNCHANGED <<lag, e, qb, fin, first, at, j>>
Consolidate(i) ==
  /\ Block /\ reg[i].exit = FarE /\ Active(reg[i], e)
  /\ LET q == Slot(qb, PerB, e, reg[i].bal) IN qb' = q /\ reg' = [reg EXCEPT ![i].exit = q[1]]
  /\ UNCHANGED <<lag, e, qa, fin, first, at, j>>
Deposit ==
  /\ Block /\ Len(reg) < 5 /\ Wide
  /\ reg' = Append(reg, V(5, 4, FarE, FarE, FarE))
  /\ UNCHANGED <<lag, e, qa, qb, fin, first, at, j>>

(* The end of an epoch: finality, the registry, then the balances.         *)
RECURSIVE Updates(_, _, _, _)
Updates(vs, q, f, i) ==
  IF i > Len(vs) THEN <<vs, q>>
  ELSE LET v == vs[i] IN
    IF v.aee = FarE /\ v.bal >= MinAct THEN Updates([vs EXCEPT ![i].aee = e + 1], q, f, i + 1)
    ELSE IF Active(v, e) /\ v.bal <= EjectAt /\ v.exit = FarE
    THEN LET r == Slot(q, PerA, e, v.bal) IN Updates([vs EXCEPT ![i].exit = r[1]], r, f, i + 1)
    ELSE IF v.aee <= f /\ v.act = FarE THEN Updates([vs EXCEPT ![i].act = e + 1 + Look], q, f, i + 1)
    ELSE Updates(vs, q, f, i + 1)
Pace(f) == /\ fin <= f /\ f <= e - 1
           /\ e < j => f <= T
           /\ e >= j + 1 => f >= T
EndEpoch ==
  /\ e < T + Ahead
  /\ \E f \in IF Wide THEN fin..(e - 1) ELSE {fin, T, e - 1}, drop, rise \in BOOLEAN :
       /\ Pace(f)
       /\ (drop \/ rise) => ops < Ops
       /\ ~(drop /\ rise)
       /\ drop => reg[1].bal = 4
       /\ rise => reg[4].bal = 3
       /\ ops' = IF drop \/ rise THEN ops + 1 ELSE ops
       /\ fin' = f
       /\ LET u == Updates(reg, qa, f, 1)
              b == IF drop THEN [u[1] EXCEPT ![1].bal = 2]
                   ELSE IF rise THEN [u[1] EXCEPT ![4].bal = 4] ELSE u[1]
          IN reg' = b /\ qa' = u[2] /\ at' = IF e + 1 > T THEN Append(at, b) ELSE at
  /\ e' = e + 1
  /\ UNCHANGED <<lag, qb, first, j>>
Next ==
  \/ EndEpoch
  \/ Deposit
  \/ \E i \in 1..Len(reg) : (Wide \/ i = 1) /\ Exit(i)
  \/ \E i \in 1..Len(reg) : (Wide \/ i = 2) /\ Consolidate(i)
Spec == Init /\ [][Next]_vars
(* at the end only what the guest and the chain know matters *)
View == IF e = T + Ahead THEN <<lag, j, first, at>> ELSE <<vars>>

-----------------------------------------------------------------------------
N(n) == IF n = FarE THEN Far ELSE U(n)
Vals(vs) == [i \in 1..Len(vs) |-> <<vs[i].k, U(vs[i].bal), FALSE, N(vs[i].aee), N(vs[i].act), N(vs[i].exit)>>]
Root(n) == IF n = T THEN 1 ELSE n
R(ts) == [pre |-> << <<U(j), 2>>, <<U(T), 1>> >>, trusted |-> <<U(T), 1>>,
          slot |-> U((T - lag) * Spe + 1), fin |-> U(first.fin), ee |-> U(first.ee), ce |-> U(first.ce),
          vals |-> Vals(first.reg), at |-> [k \in 1..Len(at) |-> <<U(T + k), Vals(at[k])>>],
          links |-> LET q == Ascending({U(n) : n \in ts})
                    IN [k \in 1..Len(q) |-> << <<U(T), 1>>, <<q[k], 3>> >>],
          mixes |-> <<>>, minlook |-> 1, maxlook |-> Look, look |-> Ahead, spe |-> Spe,
          forkv |-> << <<0, UZero, 0>> >>, versions |-> <<0>>,
          minact |-> U(MinAct), minchurn |-> U(PerA + PerB), churnq |-> <<9999, 9999>>, incr |-> U(1), incrq |-> <<1>>]
(* Choices of targets, once the history is complete.                       *)
Choices == IF Wide THEN {ts \in SUBSET ((j + 1)..(T + Ahead)) : ts # {}}
           ELSE {{T + Ahead}, {T + Ahead - 1}, {T + Ahead - 2, T + Ahead - 1}, (j + 1)..(T + Ahead)}
Cases == IF e = T + Ahead THEN {<<ts, Obstacle(R(ts), G(R(ts)))>> : ts \in Choices} ELSE {}

(* Nothing stands in the way of following the chain but what is known.     *)
Followed == \A c \in Cases :
  /\ c[2] \in {"", "far", "skipped-activation", "skipped-ejection", "two-queues"}
  /\ c[2] \in {"skipped-activation", "skipped-ejection"} => lag = 1
  /\ c[2] = "far" => \E n \in c[1] : n > T + Look
  /\ c[2] = "two-queues" =>                                  \* both queues in use
       \E a, b \in 1..Len(first.reg) : /\ a # b /\ reg[a].exit # first.reg[a].exit
                                       /\ reg[b].exit # first.reg[b].exit
(* Up to the limit of the lookahead the committees are determined by the   *)
(* trusted state alone: what the limit is for.                             *)
Determined == lag = 0 =>
  \A k \in 1..Len(at) : k <= Look =>
    {i \in 1..Len(at[k]) : Active(at[k][i], T + k)} = {i \in 1..Len(first.reg) : Active(first.reg[i], T + k)}
Seen(x) == ~\E c \in Cases : c[2] = x
NoFar == Seen("far")
NoSkippedActivation == Seen("skipped-activation")
NoSkippedEjection == Seen("skipped-ejection")
NoTwoQueues == Seen("two-queues")
NoRefusal == \A c \in Cases : c[2] = ""
=============================================================================
