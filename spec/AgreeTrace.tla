----------------------------- MODULE AgreeTrace -----------------------------
EXTENDS Agree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Answer(r) == CASE r.k = "active" -> AgreeMany(r.a, r.b, SameValidator)
               [] r.k = "atts" -> AgreeMany(r.a, r.b, SameItem)
               [] OTHER -> Agree1(r.a, r.b)
Whole(r, x) == IF r.k \in {"active", "atts"} THEN x.ok ELSE x # <<>>
Judge(r) ==
  LET w == Answer(r) IN
  IF r.out = w THEN ""
  ELSE IF Whole(r, w) /\ ~Whole(r, r.out) THEN "no answer although both readers agree: " \o r.k
  ELSE IF ~Whole(r, w) /\ Whole(r, r.out) THEN "an answer although the readers differ: " \o r.k
  ELSE IF Whole(r, w) THEN "not the first reader's answer: " \o r.k
  \* what is passed on of a sequence before it breaks off is never more than both agree on
  ELSE IF r.out.items # SubSeq(w.items, 1, Min(Len(r.out.items), Len(w.items)))
       THEN "passed on what the readers do not agree on: " \o r.k ELSE ""
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET j == Judge(Trace[l]) IN j = "" \/ PrintT(<<"BAD", l, "C24", j>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
