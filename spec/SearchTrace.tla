---------------------------- MODULE SearchTrace ----------------------------
(* Conformance of the host's search along the chain (C17) and of its       *)
(* collection of votes (C18).                                              *)
(*                                                                         *)
(* A line: the history (bits[n] = did the votes of epochs n-1 and n reach  *)
(* two thirds at the end of epoch n), the boundary blocks (roots[e]), the  *)
(* blocks with their votes [slot, [[id, source, target]..]], the trusted   *)
(* checkpoint, and what the host returned: an error, or the start state    *)
(* and the votes in order (0: not a vote of the chain). Checkpoints are    *)
(* [epoch, root].                                                          *)
EXTENDS Chain, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
K(c) == Cp(U(c[1]), c[2])
Range(f) == {f[i] : i \in DOMAIN f}

RECURSIVE States(_, _, _, _)
States(r, n, s, acc) ==                    \* acc: the states at the starts of 0..n
  IF n >= Len(r.states) - 1 THEN acc
  ELSE LET root(e) == r.roots[e + 1]
           t == EndEpoch(s, n, r.bits[n + 1][1], r.bits[n + 1][2], root)
       IN States(r, n + 1, t, Append(acc, View(t)))

(* the votes for a link in the blocks of its window, up to the end of the  *)
(* epoch after the target                                                  *)
Votes(r, link) ==
  {v[1] : v \in UNION {{w \in Range(b[2]) : K(w[2]) = link[1] /\ K(w[3]) = link[2]
                                             /\ b[1] < (w[3][1] + 2) * r.spe} : b \in Range(r.blocks)}}

RECURSIVE Groups(_, _)
Groups(atts, want) ==                      \* are atts the groups want, in that order?
  IF want = <<>> THEN atts = <<>>
  ELSE LET k == Cardinality(want[1])
       IN /\ Len(atts) >= k
          /\ {atts[i] : i \in 1..k} = want[1]
          /\ Groups(SubSeq(atts, k + 1, Len(atts)), Tail(want))

Judge(r) ==
  LET cs == States(r, 0, Start, <<View(Start)>>)
      t == K(r.trusted)
      s == Search(cs, t, r.trusted[1] + 1)
      want == [i \in 1..Len(s.links) |-> Votes(r, s.links[i])]
      all == UNION Range(want)
      got == Range(r.out.atts)
      given == [j |-> K(r.out.cs[1]), f |-> K(r.out.cs[2])]
  IN IF Assert(\A i \in 1..Len(cs) : CS(K(r.states[i][1]), K(r.states[i][2])) = cs[i], <<"bad simulation", l>>)
     THEN IF r.out.ever THEN {<<"C17", "searched beyond all bounds">>}
     ELSE IF s.k # "ok"
          THEN IF r.out.ok THEN {<<"C17", "returned a step although the chain has none: " \o s.k>>} ELSE {}
     ELSE IF ~r.out.ok
          THEN IF r.fault THEN {} ELSE {<<"C17", "no step found although the chain has one">>}
     ELSE (IF given # cs[s.from + 1] THEN {<<"C17", "wrong start state">>} ELSE {})
          \cup (IF all \ got # {} THEN {<<"C18", "lost votes for the links">>} ELSE {})
          \cup (IF \E i \in 1..Len(want) : want[i] # {} /\ want[i] \cap got = {}
                THEN {<<"C17", "a link of the step is missing">>} ELSE {})
          \cup (IF got \ all # {} THEN {<<"C18", "votes for other links">>, <<"C17", "links outside the step">>} ELSE {})
          \cup (IF all = got /\ ~Groups(r.out.atts, want)
                THEN {<<"C17", "links out of order">>, <<"C18", "votes repeated or out of order">>} ELSE {})
     ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A j \in Judge(Trace[l]) : PrintT(<<"BAD", l, j[1], j[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
