--------------------------- MODULE BuilderTrace -----------------------------
(***************************************************************************)
(* Conformance of the multiproof builder: each trace line is one request   *)
(* for one object, with the true tokens of the requested nodes, and the    *)
(* proof the real builder made of it.                                      *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr == ndJsonDeserialize(IOEnv.TREES)
VARIABLE l
MkTree(r) == [k \in {r.keys[i] : i \in 1..Len(r.keys)} |->
                r.vals[CHOOSE i \in 1..Len(r.keys) : r.keys[i] = k]]
Trees == [t \in 1..Len(Hdr) |-> MkTree(Hdr[t])]

(* r.req: the requested nodes with their true tokens, in proof order.      *)
(* Same as ProofNodes, for an ordered antichain q: q[lo..hi] are the       *)
(* requested nodes at or below p.                                          *)
RECURSIVE Split(_, _, _, _)
Split(q, d, lo, hi) ==   \* first index in lo..hi+1 whose path turns right at depth d
  IF lo > hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF q[m][1][d] = 1 THEN Split(q, d, lo, m - 1) ELSE Split(q, d, m + 1, hi)
RECURSIVE TourSeq(_, _, _, _)
TourSeq(p, q, lo, hi) ==
  IF lo > hi THEN <<p>>
  ELSE IF lo = hi /\ q[lo][1] = p THEN <<p>>
  ELSE LET m == Split(q, Len(p) + 1, lo, hi)
       IN TourSeq(Append(p, 0), q, lo, m - 1) \o TourSeq(Append(p, 1), q, m, hi)

Answered(r) ==
  LET N == TourSeq(<<>>, r.req, 1, Len(r.req))
      R == {r.req[i][1] : i \in 1..Len(r.req)}
      sp == StrictPrefixes(R)
  IN
  IF ~r.verify THEN "a built proof does not verify against the object's root"
  ELSE IF Len(r.nodes) # Len(N) THEN "the proof is not the minimal one"
  ELSE IF \E i \in 1..Len(N) : r.nodes[i][1] # N[i] THEN "nodes of a built proof are not the requested ones and their missing siblings"
  ELSE IF Len(r.values) # Len(r.req) \/ \E i \in 1..Len(r.req) : r.values[i][1] # r.req[i][1]
       THEN "a built proof reports other nodes than requested"
  ELSE IF r.values # r.req THEN "a built proof reports a wrong value"
  ELSE IF r.extra # 0 THEN "a built proof carries data that belongs to no node"
  ELSE IF r.big THEN ""
  ELSE IF Assert(N = Tour(<<>>, R, sp), "the two definitions of the proof tree differ")
          /\ RootFrom(Trees[r.tree], <<>>, sp, [i \in 1..Len(N) |-> r.nodes[i][2]], 1)[1] # r.root
       THEN "a built proof does not lead to the object's root"
  ELSE ""

Judge(r) ==
  IF r.invalid THEN (IF r.ok THEN "answered a request for a node the object does not have" ELSE "")
  ELSE IF ~r.big /\ ~Answerable({r.req[i][1] : i \in 1..Len(r.req)}) THEN ""
  ELSE IF ~r.ok THEN "refused a valid request"
  ELSE Answered(r)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET j == Judge(Trace[l]) IN j = "" \/ PrintT(<<"BAD", l, "C09", j>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
