----------------------------- MODULE FileStoreMC -----------------------------
(* The way states are saved, as a program over the file system (C20):      *)
(* several savers, restarts, crashes of the process and of the machine at  *)
(* every point. PROTOCOL "atomic" is what the code does; the others are    *)
(* the ways that go wrong and must be found wrong.                         *)
EXTENDS FileStore, TLC
CONSTANTS PROTOCOL, SAVERS, CHUNKS, CRASHES
VARIABLES fs, pc, tmp, done, next, crashes, ghost
vars == <<fs, pc, tmp, done, next, crashes, ghost>>
Final == 0
Prog ==
  CASE PROTOCOL = "atomic" -> <<"check", "create", "write", "sync", "rename", "end">>
    [] PROTOCOL = "nosync" -> <<"check", "create", "write", "rename", "end">>
    [] PROTOCOL = "latesync" -> <<"check", "create", "write", "rename", "sync", "end">>
    [] PROTOCOL = "direct" -> <<"check", "create", "write", "sync", "end">>
    [] PROTOCOL = "shared" -> <<"check", "create", "write", "sync", "rename", "end">>
Name(s) == CASE PROTOCOL = "direct" -> Final
             [] PROTOCOL = "shared" -> 99
             [] OTHER -> tmp[s]
Init == /\ fs = Empty /\ pc = [s \in SAVERS |-> 0] /\ tmp = [s \in SAVERS |-> 0]
        /\ done = [s \in SAVERS |-> 0] /\ next = 1 /\ crashes = 0 /\ ghost = FALSE
(* the open file of a saver: created under its name, even if renamed since *)
VARIABLE open
allv == <<vars, open>>
At(s, what) == pc[s] > 0 /\ Prog[pc[s]] = what
Go(s) == pc' = [pc EXCEPT ![s] = @ + 1]
Stop(s) == pc' = [pc EXCEPT ![s] = 0]
Begin(s) == /\ pc[s] = 0 /\ next <= 3
            /\ pc' = [pc EXCEPT ![s] = 1] /\ tmp' = [tmp EXCEPT ![s] = next] /\ next' = next + 1
            /\ done' = [done EXCEPT ![s] = 0] /\ UNCHANGED <<fs, crashes, ghost, open>>
Check(s) == /\ At(s, "check") /\ IF Final \in Names(fs) THEN Stop(s) ELSE Go(s)
            /\ UNCHANGED <<fs, tmp, done, next, crashes, ghost, open>>
DoCreate(s) ==
  /\ At(s, "create") /\ Go(s)
  /\ LET n == Name(s) IN
     IF n \in Names(fs) THEN fs' = Cut(fs, fs.dir[n], 0) /\ open' = [open EXCEPT ![s] = fs.dir[n]]
     ELSE fs' = Create(fs, n, tmp[s]) /\ open' = [open EXCEPT ![s] = tmp[s]]
  /\ UNCHANGED <<tmp, done, next, crashes, ghost>>
DoWrite(s) == /\ At(s, "write")
              /\ fs' = Write(fs, open[s], done[s], 1)
              /\ done' = [done EXCEPT ![s] = @ + 1]
              /\ (IF done[s] + 1 = CHUNKS THEN Go(s) ELSE UNCHANGED pc)
              /\ UNCHANGED <<tmp, next, crashes, ghost, open>>
DoSync(s) == At(s, "sync") /\ Go(s) /\ fs' = Sync(fs, open[s]) /\ UNCHANGED <<tmp, done, next, crashes, ghost, open>>
DoRename(s) == /\ At(s, "rename")
               /\ IF Name(s) \in Names(fs) THEN Go(s) /\ fs' = Rename(fs, Name(s), Final) ELSE Stop(s) /\ fs' = fs
               /\ UNCHANGED <<tmp, done, next, crashes, ghost, open>>
End(s) == At(s, "end") /\ Stop(s) /\ UNCHANGED <<fs, tmp, done, next, crashes, ghost, open>>
(* A failing operation: the saver removes what it wrote and gives up.      *)
Fail(s) == /\ pc[s] > 2 /\ ~At(s, "end") /\ Stop(s)
           /\ fs' = IF Name(s) \in Names(fs) THEN Unlink(fs, Name(s)) ELSE fs
           /\ UNCHANGED <<tmp, done, next, crashes, ghost, open>>
(* Everything stops; the names stay. Of files that are not clean any part  *)
(* is left when the machine goes down.                                     *)
Crash(machine) ==
  /\ crashes < CRASHES /\ crashes' = crashes + 1
  /\ pc' = [s \in SAVERS |-> 0]
  /\ IF ~machine THEN fs' = fs
     ELSE \E loss \in SUBSET (DOMAIN fs.size \ fs.clean) :
            fs' = [fs EXCEPT !.size = [i \in DOMAIN fs.size |-> IF i \in loss THEN 0 ELSE fs.size[i]], !.clean = DOMAIN fs.size]
  /\ UNCHANGED <<tmp, done, next, ghost, open>>
Next == \/ \E s \in SAVERS : Begin(s) \/ Check(s) \/ DoCreate(s) \/ DoWrite(s) \/ DoSync(s) \/ DoRename(s) \/ End(s) \/ Fail(s)
        \/ \E m \in BOOLEAN : Crash(m)
Spec == (Init /\ open = [s \in SAVERS |-> 0]) /\ [][Next]_allv
AlwaysWhole == Whole(fs, Final, CHUNKS)
AlwaysDurable == Durable(fs, Final, CHUNKS)
=============================================================================
