------------------------------ MODULE ChainMC -------------------------------
(* Every history of a chain over a few epochs, with epochs whose boundary  *)
(* block is that of the epoch before (no block in between), and every      *)
(* trusted checkpoint along it.                                            *)
EXTENDS Chain, TLC, FiniteSets
CONSTANT N                                 \* epochs
VARIABLES n, s, cs, voted, roots
vars == <<n, s, cs, voted, roots>>
RootOf(rs, e) == rs[e + 1]
Init == /\ n = 0 /\ s = Start /\ cs = <<View(Start)>> /\ voted = <<>> /\ roots = <<1>>
Next == /\ n < N
        /\ \E p, c, skip \in BOOLEAN :
             LET root(e) == RootOf(roots, e)
                 t == EndEpoch(s, n, p, c, root)
             IN /\ p \/ ~s.b[1]            \* what was reached stays reached
                /\ n = 0 => ~p
                /\ s' = t
                /\ cs' = Append(cs, View(t))
                /\ voted' = Append(voted, Voted(s, n, p, c, root))
                /\ roots' = Append(roots, IF skip THEN roots[n + 1] ELSE n + 2)
                /\ n' = n + 1
Spec == Init /\ [][Next]_vars

StatesValid == \A i \in 1..Len(cs) : Valid(cs[i])
Monotone == \A i \in 1..(Len(cs) - 1) : CsLe(cs[i], cs[i + 1])

RECURSIVE Run(_, _)
Run(c, ls) == IF ls = <<>> THEN c
              ELSE IF ~StepOk(c, ls[1][1], ls[1][2]) THEN CS(ZeroCp, Cp(UMax, 0))
              ELSE Run(Step(c, ls[1][1], ls[1][2]), Tail(ls))
UNat(u, m) == CHOOSE k \in 0..m : U(k) = u
Trusted == {cs[i].f : i \in 1..Len(cs)}
(* boundaries at which justification of an epoch came a full epoch late     *)
Found(t) == Search(cs, t, UNat(t.e, N) + 1)
Sound == \A t \in Trusted : LET r == Found(t) IN
   r.k = "ok" =>
     /\ cs[r.from + 1].f = t /\ \A e \in (UNat(t.e, N) + 1)..(r.from - 1) : cs[e + 1].f # t
     /\ Run(cs[r.from + 1], r.links) = cs[r.to + 1]       \* the chain's own next state
     /\ cs[r.to + 1].f # t /\ \A e \in r.from..(r.to - 1) : cs[e + 1].f = t
     /\ cs[r.to + 1].f = r.links[Len(r.links)][1]         \* finalized by the last link
     /\ \A i \in 1..Len(r.links) :                        \* every link had the votes
          \E e \in r.from..(r.to - 1) : r.links[i] \in voted[e + 1]
(* It fails only for the lack of a next finalization, or where the chain    *)
(* itself took a step that no single link makes: finality over two epochs,  *)
(* or the late justification of two epochs in a row.                        *)
Complete == \A t \in Trusted : LET r == Found(t) IN
   /\ r.k # "untrusted"
   /\ r.k = "beyond" => \A i \in 1..Len(cs) : ULe(cs[i].f.e, t.e)
   /\ r.k \in {"two", "invalid"} =>
        \E e \in 1..(Len(cs) - 1) :
           /\ ULe(t.e, U(e)) /\ cs[e].j # cs[e + 1].j
           /\ <<cs[e].j, cs[e + 1].j>> \notin voted[e]
              \/ (cs[e + 1].f # cs[e].f /\ cs[e + 1].j.e = UAdd(cs[e + 1].f.e, U(2)))
(* where every epoch reaches its votes in time the search always succeeds   *)
Healthy == (\A i \in 4..Len(cs) : cs[i].j.e = U(i - 2))
   => \A t \in Trusted : Found(t).k \in {"ok", "beyond"}
=============================================================================
