------------------------------ MODULE Builder -------------------------------
(***************************************************************************)
(* What a multiproof for a set of requested nodes must consist of.         *)
(*                                                                         *)
(* Requested nodes are paths (see Multiproof).  Below, Tour lists in       *)
(* preorder the leaves of the smallest binary tree that contains every     *)
(* requested node as a leaf: the requested nodes themselves and the        *)
(* siblings that the ways to the root lack.                                *)
(***************************************************************************)
EXTENDS Multiproof, FiniteSets

Prefixes(R) == UNION {{SubSeq(p, 1, k) : k \in 0..Len(p)} : p \in R}
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
IsAntichain(R) == \A p, q \in R : p # q => ~IsPrefix(p, q)
(* the same, via the strict prefixes (for large sets)                      *)
StrictPrefixes(R) == UNION {{SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)} : p \in R}

RECURSIVE Tour(_, _, _)
Tour(p, R, SP) ==
  IF p \in SP THEN Tour(Append(p, 0), R, SP) \o Tour(Append(p, 1), R, SP)
  ELSE <<p>>
ProofNodes(R) == Tour(<<>>, R, StrictPrefixes(R))

(* The descriptor of that tree.                                            *)
RECURSIVE Desc(_, _)
Desc(p, SP) == IF p \in SP THEN <<0>> \o Desc(Append(p, 0), SP) \o Desc(Append(p, 1), SP) ELSE <<1>>
Descriptor(R) == Desc(<<>>, StrictPrefixes(R))
Mask(R) == LET ns == ProofNodes(R) IN [i \in 1..Len(ns) |-> IF ns[i] \in R THEN 1 ELSE 0]

(* The requested nodes in proof order.                                     *)
Requested(R) == SelectSeq(ProofNodes(R), LAMBDA p : p \in R)

(* Requests the builder answers.                                           *)
Answerable(R) == R # {} /\ <<>> \notin R /\ IsAntichain(R)

(* Root of the proof tree over the strict prefixes SP when its leaves in    *)
(* preorder have the tokens ts: <<root, tokens used>>.                     *)
RECURSIVE RootFrom(_, _, _, _, _)
RootFrom(H, p, SP, ts, k) ==
  IF p \notin SP THEN <<ts[k], k + 1>>
  ELSE LET a == RootFrom(H, Append(p, 0), SP, ts, k)
           b == RootFrom(H, Append(p, 1), SP, ts, a[2])
       IN <<Hash(H, a[1], b[1]), b[2]>>
RootOf(H, R, ts) == RootFrom(H, <<>>, StrictPrefixes(R), ts, 1)[1]
=============================================================================
