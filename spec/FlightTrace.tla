---------------------------- MODULE FlightTrace ----------------------------
(* From the chain to the guest (C19) and the host's view of the chain (C22)*)
(*                                                                         *)
(* A line: the registry the trusted state proves (vals), the registry at   *)
(* the start of every later epoch (at), randomness, forks, block slots;    *)
(* what the host's verification said, what it recorded, and what the       *)
(* guest's reader and verification make of the recorded bytes. Module      *)
(* Guest says what the guest can derive from an honest record: where that  *)
(* differs from what the chain does, the design itself cannot follow the   *)
(* chain (known findings).                                                 *)
EXTENDS Follow, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Sent(r) ==
  LET s == r.sent IN
  UNION {LET p == s.patches[k] IN
     (IF p.e \notin Targets(r) THEN {"a patch of an epoch the verification did not use"}
      ELSE (IF \E m \in Range(p.mixes) : m # <<SeedIndex(r, p.e), MixOf(r, SeedIndex(r, p.e))>>
            THEN {"randomness the verification did not use"} ELSE {})
           \cup (IF \E x \in Range(p.exits) : ~(x[1] < Len(r.vals) /\ RegAt(r, p.e)[x[1] + 1][6] = x[2])
                 THEN {"a patch with a wrong exit"} ELSE {}))
     : k \in 1..Len(s.patches)}
  \* (keys of validators that have left may be sent too: the guest accepts full proofs of them)
  \cup (LET need == [k \in 1..Len(Recs(r)) |-> Recs(r)[k].key]
            all == [k \in 1..Len(r.vals) |-> Rec(k, r.vals[k]).key]
        IN IF SelectSeq(s.keys, LAMBDA x : x \in Range(need)) # need
              \/ SelectSeq(all, LAMBDA x : x \in Range(s.keys)) # s.keys
           THEN {"wrong public keys"} ELSE {})
  \cup (IF \E x \in Range(s.slots) : x # r.host.cs[2][2] THEN {"a block the verification did not use"} ELSE {})
  \cup (IF J2Cs(s.cs) # J2Cs(r.pre) THEN {"another start state"} ELSE {})

SlotAt(r, tok) == {x[3] : x \in {x \in Range(r.roots) : x[2] = tok}}
Fact(r, g, f) ==
  CASE f.k = "active" ->
         IF ~f.ok THEN "no validators"
         ELSE LET v == RegAt(r, f.e)
                  want == SelectSeq([i \in 1..Len(v) |-> Rec(i, v[i])], LAMBDA x : IsActive(x, f.e))
                  got == [i \in 1..Len(f.vals) |-> LET x == f.vals[i] IN
                            [i |-> x[1], key |-> x[2], bal |-> x[3], slashed |-> x[4], aee |-> x[5], act |-> x[6], exit |-> x[7]]]
              IN IF got = want THEN "" ELSE "wrong validators"
    [] f.k = "mix" -> IF f.m = (IF f.i < 65536 THEN MixOf(r, f.i) ELSE 0 - 1) THEN "" ELSE "wrong randomness"
    [] f.k = "fork" -> IF f.ok /\ ForkAt(g, f.e) = <<f.f[1], f.f[2], f.f[3]>> /\ f.gvr = r.gvr THEN "" ELSE "wrong fork or genesis"
    [] f.k = "slot" -> LET s == SlotAt(r, f.root) IN
         IF s = {} THEN (IF f.ok THEN "the slot of a block that is not there" ELSE "")
         ELSE IF f.ok /\ f.slot \in s THEN "" ELSE "wrong block slot"

Judge(r) ==
  LET g == G(r) IN
  {<<"C22", x>> : x \in {Fact(r, g, r.facts[k]) : k \in 1..Len(r.facts)} \ {""}} \cup
  (IF ~r.host.ok THEN {}
   ELSE LET o == Obstacle(r, g) IN
     (IF Assert(o = "" \/ SubSeq(o, 1, 1) # "?", <<"not an honest chain", l, o>>) THEN {} ELSE {}) \cup
     (IF \E e \in Targets(r) : ~HasReg(r, e) THEN {<<"C19", "votes for an epoch out of range">>} ELSE {}) \cup
     (IF {r.host.slot} # SlotAt(r, r.host.cs[2][2]) THEN {<<"C22", "wrong finalized slot">>} ELSE {}) \cup
     (IF r.guest.ok
      THEN IF r.guest.cs # r.host.cs \/ r.guest.slot # r.host.slot THEN {<<"C19", "the guest comes to another result">>} ELSE {}
      ELSE IF o = "far" THEN {}     \* further ahead than the registry is determined
      ELSE IF o = "" THEN {<<"C19", "the guest refuses what the host accepts">>}
      ELSE {<<"C19", "[" \o o \o "] the guest cannot follow the chain">>}) \cup
     (IF \E k \in 1..Len(r.faulty) : LET f == r.faulty[k] IN f.ok /\ (f.cs # r.host.cs \/ f.slot # r.host.slot)
      THEN {<<"C22", "another result for want of a state">>} ELSE {}) \cup
     (IF r.twice.same THEN {} ELSE {<<"C19", "another input when it is built again">>}) \cup
     (IF r.sent.natt = 0 THEN {} ELSE {<<"C19", x>> : x \in Sent(r)}))

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A j \in Judge(Trace[l]) : PrintT(<<"BAD", l, j[1], j[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
