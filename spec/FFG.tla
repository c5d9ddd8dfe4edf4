-------------------------------- MODULE FFG ---------------------------------
(***************************************************************************)
(* The light client's Casper FFG consensus state: the pair of its current  *)
(* justified and finalized checkpoints, advanced by supermajority links.   *)
(* Epochs are 64-bit (module U64); roots are names, 0 being the zero root. *)
(***************************************************************************)
EXTENDS U64

Cp(e, r) == [e |-> e, r |-> r]
CS(j, f) == [j |-> j, f |-> f]
ZeroCp == Cp(UZero, 0)
Genesis == CS(ZeroCp, ZeroCp)
One == U(1)

Valid(cs) == ULt(cs.f.e, cs.j.e) \/ cs = Genesis

(* A link can only continue from the current justified checkpoint and must *)
(* move forward; it finalizes its source exactly if it is consecutive.     *)
StepOk(cs, src, tgt) == src = cs.j /\ ULt(src.e, tgt.e)
Step(cs, src, tgt) ==
  CS(tgt, IF tgt.e = UAdd(src.e, One) THEN src ELSE cs.f)

(* Links in the domain of the machine (a 65-bit successor does not exist). *)
Links(cs, Cps) == {<<cs.j, t>> : t \in {t \in Cps : ULt(cs.j.e, t.e)}}

CpLe(a, b) == ULt(a.e, b.e) \/ a = b
CsLe(a, b) == CpLe(a.f, b.f) /\ CpLe(a.j, b.j)

(* What connects state a to state b: nothing, one link, a link pattern     *)
(* that finalizes across two epochs (not representable), or no link.       *)
Connect(a, b) ==
  IF ~Valid(b) \/ ~CsLe(a, b) THEN [k |-> "invalid"]
  ELSE IF a.j = b.j THEN (IF a.f = b.f THEN [k |-> "same"] ELSE [k |-> "invalid"])
  ELSE IF StepOk(a, a.j, b.j) /\ Step(a, a.j, b.j) = b
       THEN [k |-> "link", s |-> a.j, t |-> b.j]
  ELSE IF a.f # b.f /\ b.j.e = UAdd(b.f.e, U(2)) /\ ~ULt(b.j.e, b.f.e)
       THEN [k |-> "two"]
  ELSE [k |-> "invalid"]
=============================================================================
