----------------------------- MODULE Multiproof -----------------------------
(***************************************************************************)
(* SSZ multiproofs in the compact "descriptor" form.                       *)
(*                                                                         *)
(* A descriptor is the preorder walk of the proof's binary tree: 0 is an   *)
(* internal node (go left), 1 is a node whose hash is supplied.  Hashing   *)
(* is symbolic: a chunk is a token (a positive number), H maps a pair of   *)
(* tokens (coded a*HB+b) to the token of their parent; a pair outside H    *)
(* hashes to Fresh, a value different from every token (collision          *)
(* resistance).  A generalized index is the path from the root: a sequence *)
(* of 0/1, <<>> being the root (index 1).                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

HB == 32768
Fresh == 0
MaxDepth == 63          \* deepest path a 64-bit generalized index can name

Hash(H, a, b) == LET k == a * HB + b IN IF k \in DOMAIN H THEN H[k] ELSE Fresh

(* The path to visit after a supplied node: back up over completed right   *)
(* branches, then from left to right.                                      *)
RECURSIVE Backtrack(_)
Backtrack(p) ==
  IF p = <<>> THEN <<>>
  ELSE IF p[Len(p)] = 1 THEN Backtrack(SubSeq(p, 1, Len(p) - 1))
  ELSE [p EXCEPT ![Len(p)] = 1]

(* Walk state: need = subtrees still to come, path = current position,     *)
(* out = paths of supplied nodes in order, deep = a node too deep to name. *)
RECURSIVE Walk(_, _, _)
Walk(d, i, w) ==
  IF i > Len(d) THEN [w EXCEPT !.ok = @ /\ w.need = 0]
  ELSE IF w.need = 0 THEN [w EXCEPT !.ok = FALSE]
  ELSE IF d[i] = 0
       THEN Walk(d, i + 1, [w EXCEPT !.need = @ + 1, !.path = Append(@, 0),
                                     !.deep = @ \/ Len(w.path) >= MaxDepth])
       ELSE Walk(d, i + 1, [w EXCEPT !.need = @ - 1, !.out = Append(@, w.path),
                                     !.path = Backtrack(@)])
Parse(d) == Walk(d, 1, [need |-> 1, path |-> <<>>, out |-> <<>>, ok |-> TRUE, deep |-> FALSE])

(* Shape that carries a proof: complete, at least one internal node, and   *)
(* every node nameable.                                                    *)
WellFormed(w) == w.ok /\ ~w.deep /\ Len(w.out) >= 2

(* Root token: fold of the preorder stack; 'I' marks an internal node.     *)
INode == 0 - 1
RECURSIVE Reduce(_, _)
Reduce(H, s) ==
  LET n == Len(s) IN
  IF n >= 3 /\ s[n] # INode /\ s[n-1] # INode /\ s[n-2] = INode
  THEN Reduce(H, Append(SubSeq(s, 1, n - 3), Hash(H, s[n-1], s[n])))
  ELSE s
RECURSIVE RootFold(_, _, _, _, _, _)
RootFold(H, d, i, data, k, s) ==
  IF i > Len(d) THEN s
  ELSE IF d[i] = 0 THEN RootFold(H, d, i + 1, data, k, Append(s, INode))
  ELSE RootFold(H, d, i + 1, data, k + 1, Reduce(H, Append(s, data[k])))
Root(H, d, data) == RootFold(H, d, 1, data, 1, <<>>)[1]

(* The nodes a proof vouches for, in order.                                *)
Nodes(w, data) == [i \in 1..Len(w.out) |-> <<w.out[i], data[i]>>]
RECURSIVE Pick(_, _, _)
Pick(nodes, mask, i) ==
  IF i > Len(nodes) \/ i > Len(mask) THEN <<>>
  ELSE (IF mask[i] = 1 THEN <<nodes[i]>> ELSE <<>>) \o Pick(nodes, mask, i + 1)
Values(w, data, mask) == Pick(Nodes(w, data), mask, 1)
FirstAt(vals, g) ==
  LET S == {i \in 1..Len(vals) : vals[i][1] = g}
  IN IF S = {} THEN 0 ELSE vals[CHOOSE i \in S : \A j \in S : i <= j][2]

(* Accepting a proof against a root is sound exactly in this case.         *)
MayVerify(H, p, root) ==
  LET w == Parse(p.desc) IN
  /\ WellFormed(w)
  /\ Len(p.data) >= Len(w.out)
  /\ Root(H, p.desc, p.data) = root
  /\ root # Fresh

(* A proof in canonical form: nothing missing and nothing superfluous.     *)
Canonical(p) ==
  LET w == Parse(p.desc) IN
  WellFormed(w) /\ Len(p.data) = Len(w.out) /\ Len(p.mask) = Len(w.out) /\ p.tail = 0
=============================================================================
