----------------------------- MODULE BuilderMC ------------------------------
(***************************************************************************)
(* Every antichain of requested nodes of the complete tree of depth D:     *)
(* the proof tree of Builder is a well-formed proof, it verifies with the  *)
(* true tokens, reports exactly the request, stops verifying when any      *)
(* supplied token is replaced, and no other proof tree that contains the   *)
(* request is as small.  The machine grows the request node by node.       *)
(***************************************************************************)
EXTENDS Builder, TLC
CONSTANTS D, MaxReq, Compare
VARIABLES req
Leaf == 2^D
H == [k \in {(2*n) * HB + (2*n+1) : n \in 1..(Leaf - 1)} |-> (k \div HB) \div 2]
RECURSIVE Heap(_, _)
Heap(p, n) == IF p = <<>> THEN n ELSE Heap(Tail(p), 2 * n + Head(p))
TokAt(p) == Heap(p, 1)
Paths == UNION {[1..k -> {0, 1}] : k \in 1..D}
RECURSIVE Shapes(_, _)
(* all descriptors of trees of depth at most d, as sets of their leaves    *)
Shapes(p, d) ==
  {{p}} \union (IF d = 0 THEN {} ELSE
     {a \union b : a \in Shapes(Append(p, 0), d - 1), b \in Shapes(Append(p, 1), d - 1)})
AllShapes == Shapes(<<>>, D)

Init == req = {}
Next == Cardinality(req) < MaxReq /\ \E p \in Paths : (\A q \in req : ~IsPrefix(p, q) /\ ~IsPrefix(q, p) /\ Heap(q, 1) < Heap(p, 1)) /\ req' = req \union {p}
Spec == Init /\ [][Next]_req

N == ProofNodes(req)
Dt == [i \in 1..Len(N) |-> TokAt(N[i])]
Valid ==
  Answerable(req) =>
    LET w == Parse(Descriptor(req)) IN
    /\ WellFormed(w) /\ w.out = N
    /\ MayVerify(H, [desc |-> Descriptor(req), data |-> Dt], 1)
    /\ Canonical([desc |-> Descriptor(req), data |-> Dt, mask |-> Mask(req), tail |-> 0])
    /\ Values(w, Dt, Mask(req)) = [i \in 1..Len(Requested(req)) |-> <<Requested(req)[i], TokAt(Requested(req)[i])>>]
    /\ RootOf(H, req, Dt) = 1
Reported == Answerable(req) => {Requested(req)[i] : i \in 1..Len(Requested(req))} = req
Minimal ==
  (Compare /\ Answerable(req)) =>
    \A S \in AllShapes : req \subseteq S => (Cardinality(S) > Len(N) \/ S = {N[i] : i \in 1..Len(N)})
(* replacing any one supplied token breaks it *)
Needed ==
  Answerable(req) => \A i \in 1..Len(N) : \A t \in {0, 1, TokAt(N[i]) + 1} :
     t # TokAt(N[i]) => ~MayVerify(H, [desc |-> Descriptor(req), data |-> [Dt EXCEPT ![i] = t]], 1)
=============================================================================
