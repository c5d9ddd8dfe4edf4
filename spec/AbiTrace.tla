------------------------------ MODULE AbiTrace ------------------------------
EXTENDS Abi, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Judge(r) ==
  CASE r.k = "enc" ->
      IF r.bytes # StateBytes(r.a) \/ r.size # StateLen THEN "a state is not encoded as its four words"
      ELSE IF r.journal # JournalBytes(r.a, r.b, r.slot) \/ r.jsize # JournalLen
           THEN "the journal is not pre-state, post-state, slot"
      ELSE IF r.back # r.a THEN "decoding an encoded state gives something else" ELSE ""
    [] r.k = "dec" ->
      IF r.out = "panic" THEN "decoding crashes"
      ELSE IF r.out = "ok" /\ ~Decodable(r.bytes, r.len) THEN "decoded bytes that hold no valid state"
      ELSE IF r.out = "ok" /\ r.st # ReadState(r.bytes) THEN "decoded the wrong state"
      ELSE IF r.out = "err" /\ Decodable(r.bytes, r.len) /\ Strict(r.bytes, r.len) THEN "refused a valid state"
      ELSE ""
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET j == Judge(Trace[l]) IN j = "" \/ PrintT(<<"BAD", l, "C16", j>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
