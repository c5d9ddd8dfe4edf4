-------------------------- MODULE MultiproofTrace ---------------------------
(***************************************************************************)
(* Conformance of the implementation's multiproofs: each trace line is one *)
(* proof handed to the real code and everything the code said about it.    *)
(***************************************************************************)
EXTENDS Multiproof, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr == ndJsonDeserialize(IOEnv.TREES)
VARIABLES l, acc
vars == <<l, acc>>

MkTree(r) == [k \in {r.keys[i] : i \in 1..Len(r.keys)} |->
                r.vals[CHOOSE i \in 1..Len(r.keys) : r.keys[i] = k]]
Trees == [t \in 1..Len(Hdr) |-> MkTree(Hdr[t])]

(* r.calc: -1 refused, 0 a root outside the tree, else the root's token.   *)
Judge(r) ==
  LET H == Trees[r.tree]
      w == Parse(r.desc)
      enough == Len(r.data) >= Len(w.out)
      root == IF WellFormed(w) /\ enough THEN Root(H, r.desc, r.data) ELSE Fresh
      may == WellFormed(w) /\ enough /\ root = r.root
      spoke == r.verify \/ r.calc >= 0
  IN
  IF r.verify /\ ~may THEN "accepted a proof that does not prove the root"
  ELSE IF r.calc >= 0 /\ ~(WellFormed(w) /\ enough) THEN "computed a root for a malformed proof"
  ELSE IF r.calc >= 0 /\ r.calc # root THEN "computed a wrong root"
  ELSE IF ~r.verify /\ may /\ Canonical(r) THEN "refused a valid proof"
  ELSE IF ~spoke THEN ""
  ELSE IF r.nodes # Nodes(w, r.data) THEN "nodes reported at wrong places"
  ELSE IF r.values # Values(w, r.data, r.mask) THEN "values differ from the marked nodes"
  ELSE IF \E i \in 1..Len(r.gets) : r.gets[i][2] # FirstAt(Values(w, r.data, r.mask), r.gets[i][1])
       THEN "lookup by index returned the wrong node"
  ELSE IF r.asserts # "" THEN r.asserts
  ELSE ""

Init == l = 1 /\ acc = 0
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ acc' = acc + (IF Trace[l].verify THEN 1 ELSE 0)
        /\ LET j == Judge(Trace[l]) IN j = "" \/ PrintT(<<"BAD", l, "C08", j>>)
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
