----------------------------- MODULE CliTrace ------------------------------
(* The command-line program along a chain (C23). A line: the history of    *)
(* the chain (as in SearchTrace, from epoch base on), what the program was *)
(* asked to do, the files it left, what the network's guest program made   *)
(* of every input file, and what it logged.                                *)
(*                                                                         *)
(* weak: epochs whose votes may be too few; fault: a request went wrong;   *)
(* grow: the node's head moves on while the program waits.                 *)
EXTENDS Chain, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
K(c) == Cp(U(c[1]), c[2])
Range(f) == {f[i] : i \in DOMAIN f}
RootOf(r, e) == r.roots[e - r.base + 3][1]
SlotOf(r, e) == r.roots[e - r.base + 3][2]
LastEpoch(r) == r.base + Len(r.states) - 1

RECURSIVE States(_, _, _, _)
States(r, n, s, acc) ==
  IF n >= LastEpoch(r) THEN acc
  ELSE LET root(e) == RootOf(r, e)
           b == r.bits[n - r.base + 1]
           t == EndEpoch(s, n, b[1], b[2], root)
       IN States(r, n + 1, t, Append(acc, View(t)))
First(r) == [j |-> K(r.start.j), pj |-> K(r.start.pj), f |-> K(r.start.f), b |-> r.start.b]

(* The step from a finalized epoch f: [ok, pre, post, slot, sure]. sure:   *)
(* the chain has all the votes for it, within what is looked at, and the   *)
(* node has the state and the block of f.                                  *)
Lookahead == 4
None == [ok |-> FALSE, sure |-> FALSE]
Advance(r, cs, f) ==
  IF f < r.base - 1 \/ f > LastEpoch(r) THEN None
  ELSE LET s == Search(cs, Cp(U(f), RootOf(r, f)), f - r.base + 1)
       IN IF s.k # "ok" THEN None
          ELSE LET ts == {x[2].e : x \in Range(s.links)}
                   post == cs[s.to + 1]
                   fin == CHOOSE e \in r.base - 2..LastEpoch(r) : U(e) = post.f.e
               IN [ok |-> TRUE, pre |-> cs[s.from + 1], post |-> post, slot |-> SlotOf(r, fin), next |-> fin,
                   near |-> \A t \in ts : ULe(t, U(f + Lookahead)),
                   sure |-> /\ f > r.base
                            /\ \A t \in ts : \E e \in r.base..f + Lookahead :
                                  /\ U(e) = t /\ e \notin Range(r.weak) /\ (e + 2) * r.spe - 1 <= r.head
                            /\ ULe(U(f + 1), cs[Len(cs)].f.e)]

(* The epochs a continuous run goes through, at most and for certain.      *)
RECURSIVE Walk(_, _, _, _)
Walk(r, cs, f, sure) ==
  LET s == Advance(r, cs, f)
  IN IF ~s.ok \/ ~(s.sure \/ ~sure) THEN <<>>
     ELSE IF ~s.near THEN <<>> ELSE <<f>> \o Walk(r, cs, s.next, sure)

IsNumber(w, e) == w[1] >= 0 /\ U(w[1]) = e
IsCs(ws, k, c) == IsNumber(ws[k], c.j.e) /\ ws[k + 1][2] = c.j.r /\ IsNumber(ws[k + 2], c.f.e) /\ ws[k + 3][2] = c.f.r
Pair(r, cs, p) ==
  LET s == Advance(r, cs, p.e) IN
  IF ~s.ok \/ ~s.near THEN "files for an epoch without a provable step"
  ELSE IF p.exit # 0 THEN "an input the guest program refuses"
  ELSE IF p.out # p.journal THEN "not the journal the guest program commits"
  ELSE IF ~(/\ Len(p.words) = 9 /\ IsCs(p.words, 1, s.pre) /\ IsCs(p.words, 5, s.post)
            /\ p.words[9][1] = s.slot)
       THEN "a journal that is not the chain's step" ELSE ""

Epochs(r) == {r.pairs[i].e : i \in 1..Len(r.pairs)}
(* sync starts where the state at the given epoch says                     *)
FinalIn(r, c) == CHOOSE e \in r.base - 2..LastEpoch(r) : U(e) = c.f.e
Logged(r, cs) ==
  IF r.sync > LastEpoch(r) THEN IF r.log = <<>> THEN "" ELSE "sync: from a state the chain does not have yet" ELSE
  LET w == Walk(r, cs, FinalIn(r, cs[r.sync - r.base + 1]), FALSE) IN
  IF \E i \in 1..Len(r.log) : ~r.log[i].ok THEN "sync: a step is not confirmed"
  ELSE IF Len(r.log) > Len(w) THEN "sync: steps the chain does not have"
  ELSE IF \E i \in 1..Len(r.log) : CS(K(r.log[i].to[1]), K(r.log[i].to[2])) # Advance(r, cs, w[i]).post
  THEN "sync: a step to another state"
  ELSE IF ~r.fault /\ Len(r.log) < Len(Walk(r, cs, FinalIn(r, cs[r.sync - r.base + 1]), TRUE))
  THEN "sync: a step was not made" ELSE ""

Judge(r) ==
  LET cs == States(r, r.base, First(r), <<View(First(r))>>)
      step == Advance(r, cs, r.f0)
      walk == Walk(r, cs, r.f0, FALSE)
      sure == Walk(r, cs, r.f0, TRUE)
      may == IF r.mode = "continuous" THEN Range(walk)
             ELSE IF r.mode = "build" /\ walk # <<>> THEN {r.f0} ELSE {}
      must == IF r.fault \/ r.grow THEN {}
              ELSE IF r.mode = "continuous" THEN Range(sure)
              ELSE IF r.mode = "build" /\ sure # <<>> THEN {r.f0} ELSE {}
      done == step.ok /\ step.sure /\ step.near
      E == Epochs(r)
  IN IF Assert(\A i \in 1..Len(cs) : CS(K(r.states[i][1]), K(r.states[i][2])) = cs[i], <<"bad simulation", l>>)
     THEN {Pair(r, cs, r.pairs[i]) : i \in 1..Len(r.pairs)}
       \cup (IF \E i \in 1..Len(r.pairs) : r.pairs[i].journal = "" THEN {"an input without a journal"} ELSE {})
       \cup (IF r.alone # <<>> THEN {"a journal without an input"} ELSE {})
       \cup (IF E \ may # {} THEN {"files for an epoch that was not asked for"} ELSE {})
       \cup (IF must \ E # {} THEN {"no files although the chain has the next step"} ELSE {})
       \cup (IF r.mode = "continuous" /\ \E i \in 1..Len(walk) : walk[i] \in E /\ \E j \in 1..i - 1 : walk[j] \notin E
             THEN {"a step was left out"} ELSE {})
       \cup (IF r.mode = "build" /\ (r.exit = 0) # (r.f0 \in E) THEN {"the exit status does not tell whether there are files"} ELSE {})
       \cup (IF r.mode = "verify" /\ r.exit = 0 /\ ~(step.ok /\ step.near) THEN {"verified a step the chain does not have"} ELSE {})
       \cup (IF r.mode = "verify" /\ r.exit # 0 /\ done /\ ~r.fault THEN {"refused a step of the chain"} ELSE {})
       \cup (IF r.mode = "sync" THEN {Logged(r, cs)} ELSE {})
     ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A j \in Judge(Trace[l]) \ {""} : PrintT(<<"BAD", l, "C23", j>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
