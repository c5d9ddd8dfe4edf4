------------------------------ MODULE StoreTrace ------------------------------
(* Histories of the state store and its layers against what a store must   *)
(* be (C20), and the states of epoch boundaries and checkpoints (C21).     *)
(*                                                                         *)
(* A state is <<slot, variant>>; the chain's own are variant 1 (2 stands   *)
(* for another state of the same slot). The specification follows, for     *)
(* every slot, the set of what the directory may hold: 0 (nothing) or a    *)
(* variant; after an interrupted save both are possible until a read       *)
(* shows which. cached: what a caching layer may have kept since its start.*)
EXTENDS FileStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Range(s) == {s[i] : i \in 1..Len(s)}
Slots(r) == Range(r.slots)
Start(r) == [store |-> [s \in Slots(r) |-> {0}], cached |-> [s \in Slots(r) |-> {}], bad |-> {}]
Bad(w, p, m) == [w EXCEPT !.bad = w.bad \cup {<<p, m>>}]
When(c, w, p, m) == IF c THEN Bad(w, p, m) ELSE w

Caches(via) == via \in {"cache", "both"}
Fetches(via) == via \in {"api", "both"}
Kept(w, s, via) == IF Caches(via) THEN w.cached[s] ELSE {}

(* ---- the save's own operations, for a crash of the machine ------------ *)
(* files: what every number of an opened file stands for.                  *)
Op(x, o) ==
  LET fs == x.fs
      i == IF o.f \in DOMAIN x.of THEN x.of[o.f] ELSE 0
      have == o.name \in Names(fs)
  IN IF o.k = "other" THEN [x EXCEPT !.known = FALSE]
     ELSE IF ~o.ok THEN x
     ELSE CASE o.k \in {"open", "create", "trunc"} ->
            IF have THEN [x EXCEPT !.of = Put(x.of, o.f, fs.dir[o.name]),
                                   !.fs = IF o.k = "trunc" THEN Cut(fs, fs.dir[o.name], 0) ELSE fs]
            ELSE [x EXCEPT !.of = Put(x.of, o.f, 1000 + o.f), !.fs = Create(fs, o.name, 1000 + o.f)]
       [] o.k = "write" -> [x EXCEPT !.fs = Write(fs, i, o.at, o.done)]
       [] o.k = "cut" -> [x EXCEPT !.fs = Cut(fs, i, o.len)]
       [] o.k = "sync" -> [x EXCEPT !.fs = Sync(fs, i)]
       [] o.k = "rename" -> IF have THEN [x EXCEPT !.fs = Rename(fs, o.name, o.to)] ELSE [x EXCEPT !.known = FALSE]
       [] o.k = "link" -> IF have THEN [x EXCEPT !.fs = Link(fs, o.name, o.to)] ELSE [x EXCEPT !.known = FALSE]
       [] o.k = "unlink" -> IF have THEN [x EXCEPT !.fs = Unlink(fs, o.name)] ELSE [x EXCEPT !.known = FALSE]
RECURSIVE Ops(_, _, _, _, _)
Ops(x, ops, k, name, n) ==   \* the states after every operation
  IF k > Len(ops) THEN x
  ELSE LET y == Op(x, ops[k]) IN
       Ops([y EXCEPT !.unsafe = y.unsafe \/ ~Durable(y.fs, name, n)], ops, k + 1, name, n)
Disk(e) ==    \* what was there before is complete and on the disk
  LET b == e.before IN
  [dir |-> [nm \in {b[k][1] : k \in 1..Len(b)} |-> CHOOSE k \in 1..Len(b) : b[k][1] = nm],
   size |-> [k \in 1..Len(b) |-> IF b[k][1] = e.name THEN e.n ELSE b[k][2]], clean |-> 1..Len(b)]
Unsafe(e) ==
  LET x == Ops([fs |-> Disk(e), of |-> <<>>, known |-> TRUE, unsafe |-> FALSE], e.ops, 1, e.name, e.n)
      want == {<<e.ls[k][1], e.ls[k][2]>> : k \in 1..Len(e.ls)}
      here == {<<nm, x.fs.size[x.fs.dir[nm]]>> : nm \in Names(x.fs)}
  IN  \* only if the recorded operations explain what is there
     /\ Len(e.met) = 0 /\ x.known /\ {p \in here : p[1] # e.name} = {p \in want : p[1] # e.name}
     /\ (e.name \in Names(x.fs)) = (\E p \in want : p[1] = e.name)
     /\ x.unsafe

(* ---- events ------------------------------------------------------------ *)
MayRead(g, s, S) == \* an answer of a directory that may hold S
  \/ g[1] = s /\ g[2] > 0 /\ g[2] \in S
  \/ g[2] \in {0, -1} /\ 0 \in S
Wrong(g, s) == IF g[2] = -2 THEN "a state that was never saved is read"
               ELSE IF g[2] = -3 THEN "reading panics"
               ELSE IF g[2] > 0 /\ g[1] # s THEN "the state of another slot is read"
               ELSE IF g[2] > 0 THEN "a state that is not in the store is read"
               ELSE "a saved state cannot be read"

Met(w, e, m) ==
  LET prev == w.store[e.s] IN
  CASE m.k = "read" -> When(~MayRead(m.got, e.s, prev \cup {e.v}), w, "C20", "during a save: " \o Wrong(m.got, e.s))
    [] m.k = "save" -> [w EXCEPT !.store[e.s] = prev \cup {m.v}]
    [] m.k = "clear" -> [w EXCEPT !.store = [s \in DOMAIN w.store |-> IF s < m.upto THEN w.store[s] \cup {0} ELSE w.store[s]]]
Save(w0, e) ==
  LET w == IF Len(e.met) = 0 THEN w0 ELSE Met(w0, e, e.met[1])
      prev == w.store[e.s]
      others == Len(e.met) > 0 /\ e.met[1].k # "read"
      clash == {v \in prev : v > 0} # {}
      w1 == [w EXCEPT !.store[e.s] = IF e.ok /\ ~others THEN {e.v}
                                     ELSE IF e.ok \/ e.fault THEN prev \cup {e.v}
                                     ELSE prev]
      w2 == When(~e.ok /\ ~e.fault /\ ~others /\ ~clash, w1, "C20", "a state cannot be saved")
  IN When(Unsafe(e), w2, "C20", "a crash of the machine leaves a partial state")

Read(w, e) ==
  LET S == w.store[e.s]
      K == Kept(w, e.s, e.via)
      fetch == Fetches(e.via) /\ 0 \in S
      ok == \/ MayRead(e.got, e.s, S \cup K) /\ ~(fetch /\ e.node /\ ~e.fault /\ e.got[2] <= 0)
            \/ fetch /\ e.node /\ e.got = <<e.s, 1>>
            \/ e.fault /\ e.got[2] = -1
      T == IF e.got[2] <= 0 \/ e.got[1] # e.s THEN S
           ELSE IF fetch THEN (IF e.got[2] # 1 THEN S ELSE IF e.fault \/ K # {} THEN S \cup {1} ELSE {1})
           ELSE IF K = {} /\ e.got[2] \in S THEN {e.got[2]} ELSE S
      \* an interrupted read through the API may have saved the state all the same
      T1 == IF fetch /\ e.fault THEN T \cup {1} ELSE T
      w1 == [w EXCEPT !.store[e.s] = IF ~fetch /\ e.via = "file" /\ e.got[2] = 0 /\ ~e.fault THEN {0} ELSE T1,
                      !.cached[e.s] = IF Caches(e.via) /\ e.got[2] > 0 THEN @ \cup {e.got[2]} ELSE @]
      msg == IF fetch /\ e.node /\ e.got[2] \in {0, -1} THEN "a state that the node has cannot be had" ELSE Wrong(e.got, e.s)
  IN When(~ok, w1, "C20", msg)

(* Both slots a boundary query may touch.                                  *)
Touch(w, e) ==
  LET S == {e.e, e.b}
      U(s) == IF Fetches(e.via) /\ 0 \in w.store[s] THEN w.store[s] \cup {1} ELSE w.store[s]
      st == [s \in DOMAIN w.store |-> IF s \in S THEN U(s) ELSE w.store[s]]
  IN [w EXCEPT !.store = st,
               !.cached = [s \in DOMAIN w.cached |-> IF s \in S /\ Caches(e.via) THEN w.cached[s] \cup (st[s] \ {0}) ELSE w.cached[s]]]
(* Whether an answer must be there: everything it needs is.                *)
Sure(w, e) == \A s \in {e.e, e.b} : 0 \notin w.store[s] \/ (Fetches(e.via) /\ e.node) 
Boundary(w, e) ==
  LET may == (w.store[e.b] \cup Kept(w, e.b, e.via) \cup (IF Fetches(e.via) /\ e.node THEN {1} ELSE {})) \ {0}
      w1 == When(e.got[2] > 0 /\ ~(e.got[1] = e.b /\ e.got[2] \in may), w, "C21", "not the state of the last block at or before the boundary")
      w2 == When(e.got[2] < -1, w1, "C21", "no answer")
      w3 == When(e.got[2] \in {0, -1} /\ Sure(w, e), w2, "C21", "the boundary's state is not found")
  IN Touch(w3, e)
Checkpoint(w, e) ==
  LET one == w.store[e.e] \ {0} \subseteq {1} /\ w.store[e.b] \ {0} \subseteq {1} /\ Kept(w, e.e, e.via) \subseteq {1} /\ Kept(w, e.b, e.via) \subseteq {1}
      w1 == When(e.got[2] > 0 /\ ~e.good, w, "C21", "a state for a checkpoint of another block")
      w2 == When(e.got[2] > 0 /\ e.good /\ e.got # <<e.b, 1>>, w1, "C21", "not the checkpoint's state")
      w3 == When(e.good /\ e.got[2] <= 0 /\ one /\ Sure(w, e), w2, "C21", "the checkpoint's state is not found")
  IN Touch(w3, e)

Clear(w, e) ==
  [w EXCEPT !.store = [s \in DOMAIN w.store |->
     IF s >= e.upto THEN w.store[s] ELSE IF e.ok /\ ~e.fault THEN {0} ELSE w.store[s] \cup {0}]]
Genesis(w, e) ==
  LET t == [e |-> 0, b |-> 0, via |-> e.via, node |-> e.node] IN
  Touch(When(e.ok /\ ~e.right, w, "C21", "another chain's genesis"), t)

Step(w, e) ==
  CASE e.k = "save" -> Save(w, e)
    [] e.k = "read" -> Read(w, e)
    [] e.k = "boundary" -> Boundary(w, e)
    [] e.k = "checkpoint" -> Checkpoint(w, e)
    [] e.k = "clear" -> Clear(w, e)
    [] e.k = "genesis" -> Genesis(w, e)
    [] e.k = "restart" -> [w EXCEPT !.cached = [s \in DOMAIN w.cached |-> {}]]
RECURSIVE Run(_, _, _)
Run(w, ev, k) == IF k > Len(ev) \/ w.bad # {} THEN w.bad ELSE Run(Step(w, ev[k]), ev, k + 1)
Judge(r) == Run(Start(r), r.ev, 1)

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \A j \in Judge(Trace[l]) : PrintT(<<"BAD", l, j[1], j[2]>>)
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
