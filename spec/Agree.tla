------------------------------- MODULE Agree --------------------------------
(* The cross-checking reader: two readers are asked the same, the first    *)
(* one's answer is passed on if the second one's is the same. A single     *)
(* answer is <<value>>, or <<>> if there is none; a sequence is [ok,       *)
(* items], ok being false if it cannot be had (or broke off after items).  *)
(* An active validator is <<index, key, balance, slashed, eligibility      *)
(* epoch, activation epoch, exit epoch>>.                                  *)
EXTENDS Naturals, Sequences
(* The second reader's balances and exits may be those of an older state.  *)
SameValidator(x, y) == \A k \in {1, 2, 4, 5, 6} : x[k] = y[k]
SameItem(x, y) == x = y
Agree1(a, b) == IF a # <<>> /\ a = b THEN a ELSE <<>>

Min(a, b) == IF a < b THEN a ELSE b
(* How far two sequences go together.                                      *)
Together(a, b, Same(_, _)) ==
  LET n == Min(Len(a), Len(b))
      S == {k \in 0..n : \A i \in 1..k : Same(a[i], b[i])}
  IN CHOOSE k \in S : \A m \in S : m <= k
AgreeMany(a, b, Same(_, _)) ==
  IF ~a.ok \/ ~b.ok THEN [ok |-> FALSE, items |-> <<>>]
  ELSE LET k == Together(a.items, b.items, Same)
       IN [ok |-> k = Len(a.items) /\ k = Len(b.items), items |-> SubSeq(a.items, 1, k)]
=============================================================================
