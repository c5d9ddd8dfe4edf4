------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* The beacon chain's own justification and finalization (consensus-specs, *)
(* weigh_justification_and_finalization), epoch by epoch, and the host's   *)
(* search along it for the next provable step of the light client.         *)
(*                                                                         *)
(* A history gives, for every epoch n, whether the votes of epoch n - 1    *)
(* (p) and of epoch n (c) had reached two thirds at the end of epoch n.    *)
(* The state during epoch n carries the justification bits of the epochs   *)
(* n-1, n-2, n-3, n-4.                                                     *)
(***************************************************************************)
EXTENDS FFG, Sequences

Start == [j |-> ZeroCp, pj |-> ZeroCp, f |-> ZeroCp, b |-> <<FALSE, FALSE, FALSE, FALSE>>]

(* s: state during epoch n (a number); root(e): name of epoch e's boundary block *)
EndEpoch(s, n, p, c, root(_)) ==
  IF n <= 1 THEN s
  ELSE LET b0 == c
           b1 == p \/ s.b[1]
           b2 == s.b[2]
           b3 == s.b[3]
           j == IF c THEN Cp(U(n), root(n))
                ELSE IF p THEN Cp(U(n - 1), root(n - 1)) ELSE s.j
           at(k, cp) == UAdd(cp.e, U(k)) = U(n)
           f == IF b0 /\ b1 /\ at(1, s.j) THEN s.j
                ELSE IF b0 /\ b1 /\ b2 /\ at(2, s.j) THEN s.j
                ELSE IF b1 /\ b2 /\ at(2, s.pj) THEN s.pj
                ELSE IF b1 /\ b2 /\ b3 /\ at(3, s.pj) THEN s.pj
                ELSE s.f
       IN [j |-> j, pj |-> s.j, f |-> f, b |-> <<b0, b1, b2, b3>>]

(* The links whose votes reached two thirds at the end of epoch n: a block *)
(* accepts votes for epoch n with the justified checkpoint as source, and  *)
(* votes for epoch n - 1 with the previous epoch's one.                    *)
Voted(s, n, p, c, root(_)) ==
  (IF c THEN {<<s.j, Cp(U(n), root(n))>>} ELSE {})
  \cup (IF p /\ n > 0 THEN {<<s.pj, Cp(U(n - 1), root(n - 1))>>} ELSE {})

View(s) == CS(s.j, s.f)

(* The search. cs: sequence, cs[e + 1] the consensus state at the start of *)
(* epoch e, as far as the chain goes. Its result: where the trusted        *)
(* checkpoint is first seen finalized, where finality moves on, the links  *)
(* in between; or why there is none.                                       *)
Fail(why) == [k |-> why]
RECURSIVE FindStart(_, _, _)
FindStart(cs, e, t) ==
  IF e >= Len(cs) THEN Fail("beyond")
  ELSE IF cs[e + 1].f = t THEN [k |-> "at", e |-> e]
  ELSE IF ULe(t.e, cs[e + 1].f.e) THEN Fail("untrusted")
  ELSE FindStart(cs, e + 1, t)

RECURSIVE Collect(_, _, _)
Collect(cs, e, links) ==                   \* e: the epoch whose state was reached
  IF e + 1 >= Len(cs) THEN Fail("beyond")
  ELSE LET a == cs[e + 1]  b == cs[e + 2]  c == Connect(a, b)
       IN IF c.k \in {"two", "invalid"} THEN Fail(c.k)
          ELSE LET ls == IF c.k = "link" THEN Append(links, <<c.s, c.t>>) ELSE links
               IN IF b.f # a.f THEN [k |-> "ok", to |-> e + 1, links |-> ls]
                  ELSE Collect(cs, e + 1, ls)

(* first: the epoch after the trusted one, as a number *)
Search(cs, t, first) ==
  LET s == FindStart(cs, first, t)
  IN IF s.k # "at" THEN s
     ELSE LET r == Collect(cs, s.e, <<>>)
          IN IF r.k # "ok" THEN r
             ELSE [k |-> "ok", from |-> s.e, to |-> r.to, links |-> r.links]
=============================================================================
