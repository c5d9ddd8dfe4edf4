------------------------------ MODULE FFGTrace ------------------------------
(* Conformance of the implementation's step and link reconstruction.       *)
EXTENDS FFG, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
J2Cp(c) == Cp(c[1], c[2])
J2Cs(s) == CS(J2Cp(s[1]), J2Cp(s[2]))

(* {"k":"step","cs","src","tgt","ok","res"}: one application of a link     *)
JudgeStep(r) ==
  LET cs == J2Cs(r.cs)  src == J2Cp(r.src)  tgt == J2Cp(r.tgt)
  IN IF ~Valid(cs) THEN (IF r.ok THEN "stepped from an invalid state" ELSE "")
     ELSE IF StepOk(cs, src, tgt) THEN
        IF ~r.ok THEN "refused a valid link"
        ELSE IF J2Cs(r.res) # Step(cs, src, tgt) THEN "wrong state after a valid link" ELSE ""
     ELSE IF r.ok THEN "accepted an invalid link" ELSE ""

(* {"k":"link","a","b","out":"link|same|two|invalid","s","t"}              *)
JudgeLink(r) ==
  LET a == J2Cs(r.a)  b == J2Cs(r.b)  c == Connect(a, b)
  IN IF ~Valid(a) THEN (IF r.out \in {"link", "same"} THEN "connected from an invalid state" ELSE "")
     ELSE IF c.k \in {"link", "same"} /\ r.out # c.k THEN "expected " \o c.k \o ", got " \o r.out
     ELSE IF c.k \in {"two", "invalid"} /\ r.out \in {"link", "same"} THEN "expected no link, got " \o r.out
     ELSE IF c.k = "link" /\ (J2Cp(r.s) # c.s \/ J2Cp(r.t) # c.t) THEN "wrong link" ELSE ""

(* {"k":"chain","cs","links":[[src,tgt]...],"oks":[..],"res":[..],"valid"} *)
RECURSIVE Chain(_, _, _)
Chain(cs, r, i) ==
  IF i > Len(r.links) THEN ""
  ELSE LET s == J2Cp(r.links[i][1])  t == J2Cp(r.links[i][2]) IN
    IF StepOk(cs, s, t) # r.oks[i] THEN "chain: wrong verdict on a link"
    ELSE IF ~r.oks[i] THEN Chain(cs, r, i + 1)
    ELSE IF J2Cs(r.res[i]) # Step(cs, s, t) THEN "chain: wrong state"
    ELSE Chain(Step(cs, s, t), r, i + 1)

(* {"k":"new","cs","ok"}: construction                                     *)
Judge(r) ==
  CASE r.k = "step" -> JudgeStep(r)
    [] r.k = "link" -> JudgeLink(r)
    [] r.k = "chain" -> Chain(J2Cs(r.cs), r, 1)
    [] r.k = "new" -> IF r.ok # Valid(J2Cs(r.cs)) THEN "construction admits the wrong states" ELSE ""

(* The property a line bears on.                                           *)
Prop(r) == IF r.k = "link" THEN "C02" ELSE "C01"

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET j == Judge(Trace[l]) IN j = "" \/ PrintT(<<"BAD", l, Prop(Trace[l]), j>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
