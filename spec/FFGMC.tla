-------------------------------- MODULE FFGMC -------------------------------
(* Exhaustive: every behaviour of the consensus state over a few epochs    *)
(* (small ones and ones next to 2^64) and roots.                           *)
EXTENDS FFG, TLC
CONSTANTS LowEpochs, Roots
VARIABLES cs, prev, fins
vars == <<cs, prev, fins>>
Epochs == {U(n) : n \in 0..LowEpochs} \cup {USub(UMax, U(1)), UMax}
Cps == {Cp(e, r) : e \in Epochs, r \in Roots}
States == {CS(j, f) : j \in Cps, f \in Cps}

Init == cs \in {s \in States : Valid(s)} /\ prev = cs /\ fins = 0
Next == \E t \in Cps :
          /\ StepOk(cs, cs.j, t)
          /\ cs' = Step(cs, cs.j, t)
          /\ prev' = cs
          /\ fins' = IF cs'.f = cs.f THEN 0 ELSE 1
Spec == Init /\ [][Next]_vars

AlwaysValid == Valid(cs)
Monotone == prev # cs => ULt(prev.j.e, cs.j.e) /\ CpLe(prev.f, cs.f)
FinalizedWasJustified == (fins = 1) => cs.f = prev.j
(* reconstruction inverts the step, on every state and link *)
Inverse == prev # cs => Connect(prev, cs) = [k |-> "link", s |-> prev.j, t |-> cs.j]
SameOnly == Connect(cs, cs) = [k |-> "same"]
(* and never invents a link the step would not take *)
NoInvention ==
  \A b \in States : LET c == Connect(cs, b) IN
     c.k = "link" => StepOk(cs, c.s, c.t) /\ Step(cs, c.s, c.t) = b
=============================================================================
