----------------------------- MODULE CommitteeMC -----------------------------
(* Committees of an epoch partition its active validators evenly, for every *)
(* number of validators and shape.                                         *)
EXTENDS FFG, FiniteSets
CONSTANTS MaxN, Spes, MaxCs, Tcss
VARIABLES n, spe, maxc, tcs
None(w, e, i) == {}
NoShuffle(w, e, m) == <<>>
NoSlots(w, r) == {}
Nobody(w, e) == {}
V == INSTANCE Verify WITH Active <- Nobody, Mix <- None, Shuffle <- NoShuffle, Slots <- NoSlots
Init == n = 1 /\ spe \in Spes /\ maxc \in MaxCs /\ tcs \in Tcss
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED <<spe, maxc, tcs>>
Spec == Init /\ [][Next]_<<n, spe, maxc, tcs>>
w == [spe |-> spe, maxc |-> maxc, tcs |-> tcs]
o == [i \in 1..n |-> i]
cps == V!CommitteesPerSlot(w, n)
Com == [k \in 0..(spe * cps - 1) |-> V!Committee(w, o, k \div cps, k % cps)]
RECURSIVE Joined(_, _)
Joined(C, k) == IF k < 0 THEN <<>> ELSE Joined(C, k - 1) \o C[k]
Partition == LET C == Com IN Joined(C, spe * cps - 1) = o        \* every validator exactly once
Even == LET C == Com IN \A i, j \in DOMAIN C : Len(C[i]) <= Len(C[j]) + 1
Bounded == 1 <= cps /\ cps <= maxc /\ (cps > 1 => n >= cps * spe * tcs)
=============================================================================
