------------------------------- MODULE Guest --------------------------------
(***************************************************************************)
(* The guest input: which inputs a light client may work on, and the facts *)
(* about the chain it may then use.                                        *)
(*                                                                         *)
(* An input g is a record                                                  *)
(*   cs                    trusted consensus state (module FFG)            *)
(*   block, state, vlist   proofs [root, vals]: the root they prove (-1 if *)
(*                         malformed) and the marked nodes in proof order, *)
(*                         each <<gindex, chunk, first eight bytes>>       *)
(*   keys                  public keys, each <<chunk, chunk>>              *)
(*   sproofs               proofs of the slots of other blocks             *)
(*   patches               [e, mixes, exits] in ascending order of e;      *)
(*                         mixes of <<index, mix>>, exits of <<i, epoch>>  *)
(*   spe, look             slots per epoch, seed lookahead                 *)
(*   forkv                 schedule: <<fork, first epoch, version>>        *)
(*   versions              the version of every fork                       *)
(*   minact                balance that makes eligible for activation      *)
(*   minchurn, churnq, incr, incrq   churn parameters, divisors as factors *)
(* Chunks are numbered; 0 and 1 are the chunks of these numbers.           *)
(***************************************************************************)
EXTENDS FFG, Integers, FiniteSets

Far == UMax
Range(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Binding to the trusted root: block -> state -> validator list.          *)
BlockStateRoot == U(11)
BlockSlot == U(8)
StateFields == <<U(65), U(66), U(268), U(269), U(270), U(75), U(168), U(95), U(97)>>
Shows(p, gs) == Len(p.vals) = Len(gs) /\ \A i \in 1..Len(gs) : p.vals[i][1] = gs[i]
Bound(g) ==
  /\ g.block.root # -1 /\ g.block.root = g.cs.f.r
  /\ Shows(g.block, <<BlockStateRoot>>)
  /\ g.state.root = g.block.vals[1][2]
  /\ Shows(g.state, StateFields)
  /\ g.vlist.root = g.state.vals[6][2]
Chunk(g, i) == g.state.vals[i][2]
Num(g, i) == g.state.vals[i][3]
Gvr(g) == Chunk(g, 1)
StateEpoch(g) == UDivSmall(Num(g, 2), g.spe)

ForkAt(g, e) ==
  LET S == {i \in 1..Len(g.forkv) : ULe(g.forkv[i][2], e)}
      f == g.forkv[CHOOSE i \in S : \A j \in S : g.forkv[j][1] <= g.forkv[i][1]]
  IN <<IF f[2] = UZero THEN f[3] ELSE g.versions[f[1]], f[3], f[2]>>   \* previous, current, epoch
Version(n) == <<n[3], n[4]>>                           \* first four bytes of a chunk
RightFork(g) == <<Version(Num(g, 3)), Version(Num(g, 4)), Num(g, 5)>> = ForkAt(g, StateEpoch(g))

-----------------------------------------------------------------------------
(* The validator list: every index in order, either a full record with its *)
(* public key or, for the exited, only the exit epoch; then the length.    *)
At(i, k) == <<0, 4096, (8 * i) \div B, (8 * i + k) % B>>          \* field k of validator i
KeyAt(i, h) == <<0, 8192, (16 * i) \div B, (16 * i + h) % B>>     \* half h of its public key
Record(i) == <<KeyAt(i, 0), KeyAt(i, 1), At(i, 2), At(i, 3), At(i, 4), At(i, 5), At(i, 6)>>
RECURSIVE Walk(_, _, _, _, _)
Walk(g, p, i, k, recs) ==     \* position p, validator i, key k
  LET v == g.vlist.vals
      n == Len(v) - p + 1
      No == [ok |-> FALSE, recs |-> <<>>]
  IN IF n = 0 THEN No
     ELSE IF v[p][1] = U(3) THEN [ok |-> n = 1 /\ v[p][3] = U(i), recs |-> recs]
     ELSE IF v[p][1] = At(i, 6) THEN
       IF ULe(v[p][3], g.cs.f.e) THEN Walk(g, p + 1, i + 1, k, recs) ELSE No
     ELSE IF n < 7 THEN No
     ELSE IF /\ \A q \in 1..7 : v[p + q - 1][1] = Record(i)[q]
             /\ k <= Len(g.keys)
             /\ g.keys[k] = <<v[p][2], v[p+1][2]>>
             /\ v[p+3][2] \in {0, 1}
     THEN Walk(g, p + 7, i + 1, k + 1, Append(recs,
            [i |-> i, key |-> g.keys[k], bal |-> v[p+2][3], slashed |-> v[p+3][2] = 1,
             aee |-> v[p+4][3], act |-> v[p+5][3], exit |-> v[p+6][3]]))
     ELSE No
Registry(g) == Walk(g, 1, 0, 1, <<>>)

-----------------------------------------------------------------------------
(* Registry updates at the end of every epoch from the state's own to the  *)
(* justified one.                                                          *)
ActivationExit(g, e) == UAdd(e, U(1 + g.look))
Update(g, v, e, fin) ==
  LET q == IF v.aee = Far /\ ULe(g.minact, v.bal) THEN [v EXCEPT !.aee = UAdd(e, One)] ELSE v
  IN IF ULe(q.aee, fin) /\ q.act = Far THEN [q EXCEPT !.act = ActivationExit(g, e)] ELSE q
RECURSIVE Roll(_, _, _)
Roll(g, v, e) ==
  IF ULt(g.cs.j.e, e) THEN v
  ELSE Roll(g, Update(g, v, e, IF e = g.cs.j.e THEN g.cs.f.e ELSE Num(g, 7)), UAdd(e, One))
Rolled(g, recs) == [k \in 1..Len(recs) |-> Roll(g, recs[k], StateEpoch(g))]

IsActive(v, e) == ULe(v.act, e) /\ ULt(e, v.exit)

-----------------------------------------------------------------------------
(* Patches: exits that are not proven, limited by the churn.               *)
RECURSIVE DivAll(_, _), MulAll(_, _)
DivAll(a, ks) == IF ks = <<>> THEN a ELSE DivAll(UDivSmall(a, Head(ks)), Tail(ks))
MulAll(a, ks) == IF ks = <<>> THEN a
                 ELSE MulAll(LET p == UMulSmall5(a, Head(ks)) IN <<p[2], p[3], p[4], p[5]>>, Tail(ks))
Sum(vs, S) ==                  \* of the balances of a set of positions
  LET D(k) == SumOver([i \in S |-> vs[i].bal[k]], S)
  IN WNorm(<<0, 0, D(1), D(2), D(3), D(4)>>)
UMax2(a, b) == IF ULt(a, b) THEN b ELSE a
UMin2(a, b) == IF ULt(a, b) THEN a ELSE b
Total(g, vs) == WMax(Sum(vs, {k \in 1..Len(vs) : IsActive(vs[k], g.cs.f.e)}), W(g.incr))
Churn(g, vs) ==                \* whole increments, for exits and consolidations, twice
  LET c == UMax2(g.minchurn, DivAll(WU(Total(g, vs)), g.churnq))
  IN UAdd(MulAll(DivAll(c, g.incrq), g.incrq), MulAll(DivAll(c, g.incrq), g.incrq))
Base(g) == ActivationExit(g, g.cs.f.e)
FirstExit(g) == UMax2(UMin2(Num(g, 8), Num(g, 9)), Base(g))

Pos(vs, i) == {k \in 1..Len(vs) : vs[k].i = i}
ExitIn(p, i) == {x[2] : x \in {x \in Range(p.exits) : x[1] = i}}
Before(g, n, i) ==             \* exit epoch of validator i known before patch n
  LET S == {m \in 1..(n-1) : ExitIn(g.patches[m], i) # {}}
  IN IF S = {} THEN {} ELSE ExitIn(g.patches[CHOOSE m \in S : \A o \in S : o <= m], i)
Prev(g, vs, n, i) ==
  LET b == Before(g, n, i) IN
  CHOOSE x \in (IF b # {} THEN b ELSE {vs[k].exit : k \in Pos(vs, i)}) : TRUE
Known(g, vs) == \A n \in 1..Len(g.patches) : \A x \in Range(g.patches[n].exits) : Pos(vs, x[1]) # {}
New(g, vs, n) == {x \in Range(g.patches[n].exits) : Prev(g, vs, n, x[1]) # x[2]}
Timely(g) == \A n \in 1..Len(g.patches) : ULe(g.cs.f.e, g.patches[n].e)
Once(g, vs) == \A n \in 1..Len(g.patches) : \A x \in New(g, vs, n) : Prev(g, vs, n, x[1]) = Far

(* One queue: exits never before an earlier patch's, and in every patch    *)
(* the balance leaving by an epoch fits the churn of the epochs so far.    *)
Last(S, e) == LET m == {x[2] : x \in S} IN
  IF m = {} THEN e ELSE UMax2(e, CHOOSE y \in m : \A z \in m : ULe(z, y))
RECURSIVE HeadBefore(_, _, _)
HeadBefore(g, vs, n) == IF n = 1 THEN FirstExit(g) ELSE Last(New(g, vs, n - 1), HeadBefore(g, vs, n - 1))
Monotone(g, vs) ==
  \A n \in 1..Len(g.patches) : \A x \in New(g, vs, n) : ULe(HeadBefore(g, vs, n), x[2])
Leaving(g, vs, n, e) ==
  Sum(vs, {k \in 1..Len(vs) : \E x \in New(g, vs, n) : x[1] = vs[k].i /\ ULe(x[2], e)})
Limit == U(16000)              \* beyond this many epochs the churn is not computed
Vast(g, vs) == \E n \in 1..Len(g.patches) : \E x \in New(g, vs, n) : ULt(UAdd(FirstExit(g), Limit), x[2])
WithinChurn(g, vs) ==
  \A n \in 1..Len(g.patches) : \A x \in New(g, vs, n) :
    WLe(Leaving(g, vs, n, x[2]), WMul(W(Churn(g, vs)), USub(x[2], HeadBefore(g, vs, n))[4] + 1))

(* Exits and consolidations have a queue each.  Some assignment keeps both *)
(* in order, with at most one epoch's churn in every patch.                *)
RECURSIVE Sorted(_)
Sorted(S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : ULt(x[2], y[2]) \/ (x[2] = y[2] /\ x[1] <= y[1])
       IN <<x[2]>> \o Sorted(S \ {x})
RECURSIVE Heads(_, _), AllExits(_, _, _)
Heads(H, q) ==
  IF q = <<>> THEN H
  ELSE Heads({<<Head(q), h[2]>> : h \in {h \in H : ULe(h[1], Head(q))}} \cup
             {<<h[1], Head(q)>> : h \in {h \in H : ULe(h[2], Head(q))}}, Tail(q))
AllExits(g, vs, n) ==
  IF n > Len(g.patches) THEN <<>> ELSE Sorted(New(g, vs, n)) \o AllExits(g, vs, n + 1)
TwoQueues(g, vs) ==
  /\ Heads({<<UMax2(Num(g, 8), Base(g)), UMax2(Num(g, 9), Base(g))>>}, AllExits(g, vs, 1)) # {}
  /\ \A n \in 1..Len(g.patches) : WLe(Leaving(g, vs, n, Far), W(Churn(g, vs)))

(* Are the patches acceptable, and are they in one of the grey areas?      *)
PatchVerdict(g, vs) ==
  LET ok == Timely(g) /\ Known(g, vs) /\ Once(g, vs)
      vast == ok /\ Vast(g, vs)
      mono == ok /\ Monotone(g, vs)
      fits == mono /\ ~vast /\ WithinChurn(g, vs)
      two == ok /\ ~vast /\ ~mono /\ TwoQueues(g, vs)
  IN [ok |-> fits \/ two \/ (vast /\ mono), grey |-> IF two THEN "two-queues" ELSE IF vast THEN "vast" ELSE ""]

-----------------------------------------------------------------------------
SlotProofOk(p) == p.root # -1 /\ Len(p.vals) > 0 /\ p.vals[1][1] = BlockSlot

(* The requirements an input fails, named by property, whether it lies in  *)
(* the grey area of two queues or astronomic epochs, and its facts.        *)
Verdict(g) ==
  IF ~Bound(g) THEN [fails |-> {"C10"}, grey |-> "", regs |-> <<>>]
  ELSE
  LET w == Registry(g)
      binding == (IF RightFork(g) THEN {} ELSE {"C10"}) \cup
                 (IF \A i \in 1..Len(g.sproofs) : SlotProofOk(g.sproofs[i]) THEN {} ELSE {"C10"})
  IN IF ~w.ok THEN [fails |-> binding \cup {"C11"}, grey |-> "", regs |-> <<>>]
     ELSE
     LET vs == Rolled(g, w.recs)
         p == PatchVerdict(g, vs)
     IN [fails |-> binding \cup (IF p.ok THEN {} ELSE {"C13"}), grey |-> p.grey, regs |-> vs]

(* What the guest takes for granted at an epoch.                           *)
PatchAt(g, e) == {n \in 1..Len(g.patches) : g.patches[n].e = e}
Leaves(g, e, i) == UNION {ExitIn(g.patches[n], i) : n \in PatchAt(g, e)}
ActiveSet(g, vs, e) ==
  {vs[k].i : k \in {k \in 1..Len(vs) : IsActive(vs[k], e) /\ \A x \in Leaves(g, e, vs[k].i) : ULt(e, x)}}
MixAt(g, e, i) == {x[2] : x \in {x \in UNION {Range(g.patches[n].mixes) : n \in PatchAt(g, e)} : x[1] = i}}
SlotOf(g, r) == {p.vals[1][3] : p \in {p \in Range(g.sproofs) : p.root = r}}
=============================================================================
