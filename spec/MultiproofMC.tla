---------------------------- MODULE MultiproofMC ----------------------------
(***************************************************************************)
(* Soundness of the verification rule, exhaustively over every descriptor  *)
(* up to MaxBits bits and every assignment of supplied tokens, against the *)
(* complete binary tree of depth D: whatever a proof that may verify       *)
(* vouches for is what the tree holds at that path.  The machine builds    *)
(* the proof bit by bit.                                                   *)
(***************************************************************************)
EXTENDS Multiproof, TLC
CONSTANTS D, MaxBits
VARIABLES desc, data

(* Token of the tree node at heap position n: n itself, except that some   *)
(* leaves share one token (equal chunks have equal hashes).                *)
Leaf == 2^D
TokOf(n) == IF n >= Leaf /\ n % 3 = 0 THEN Leaf ELSE n
H == [k \in {TokOf(2*n) * HB + TokOf(2*n+1) : n \in 1..(Leaf - 1)} |->
        CHOOSE n \in 1..(Leaf - 1) : TokOf(2*n) * HB + TokOf(2*n+1) = k]
RECURSIVE Heap(_, _)
Heap(p, n) == IF p = <<>> THEN n ELSE Heap(Tail(p), 2 * n + Head(p))
TokAt(p) == IF Len(p) > D THEN Fresh ELSE TokOf(Heap(p, 1))
Toks == {TokOf(n) : n \in 1..(2 * Leaf - 1)}

Init == desc = <<>> /\ data = <<>>
W == Parse(desc)
Next ==
  /\ Len(desc) < MaxBits
  /\ (desc = <<>> \/ W.need > 0)
  /\ \/ desc' = Append(desc, 0) /\ data' = data
     \/ \E t \in Toks : desc' = Append(desc, 1) /\ data' = Append(data, t)
Spec == Init /\ [][Next]_<<desc, data>>

Sound ==
  MayVerify(H, [desc |-> desc, data |-> data], 1) =>
    \A i \in 1..Len(data) : TokAt(W.out[i]) = data[i]
(* and nothing honest is refused *)
Complete ==
  (WellFormed(W) /\ \A i \in 1..Len(data) : TokAt(W.out[i]) = data[i])
    => MayVerify(H, [desc |-> desc, data |-> data], 1)
(* the supplied nodes of a complete shape tile the tree *)
Antichain ==
  W.ok => \A i, j \in 1..Len(W.out) : i # j =>
     ~ (Len(W.out[i]) <= Len(W.out[j]) /\ SubSeq(W.out[j], 1, Len(W.out[i])) = W.out[i])
=============================================================================
