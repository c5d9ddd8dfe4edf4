------------------------------ MODULE FileStore ------------------------------
(* A directory of files under crashes (C20). A file system state:          *)
(*   dir    name -> file (a function on the names in use)                  *)
(*   size   file -> number of bytes written                                *)
(*   clean  files all of whose bytes are known to be on the disk           *)
(* A crash of the process keeps everything done so far. A crash of the     *)
(* machine also keeps every name (the worst case for a name that came too  *)
(* early) but of a file that is not clean any part of its bytes.           *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [dir |-> <<>>, size |-> <<>>, clean |-> {}]     \* <<>>: the empty function
Names(fs) == DOMAIN fs.dir
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max2(a, b) == IF a < b THEN b ELSE a

Create(fs, n, i) == [fs EXCEPT !.dir = Put(fs.dir, n, i), !.size = Put(fs.size, i, 0)]
Cut(fs, i, len) == [fs EXCEPT !.size = Put(fs.size, i, len), !.clean = fs.clean \ {i}]
Write(fs, i, at, len) ==
  IF len <= 0 THEN fs
  ELSE [fs EXCEPT !.size = Put(fs.size, i, Max2(fs.size[i], at + len)), !.clean = fs.clean \ {i}]
Sync(fs, i) == [fs EXCEPT !.clean = fs.clean \cup {i}]
Rename(fs, a, b) == [fs EXCEPT !.dir = Put(Del(fs.dir, a), b, fs.dir[a])]
Link(fs, a, b) == [fs EXCEPT !.dir = Put(fs.dir, b, fs.dir[a])]
Unlink(fs, a) == [fs EXCEPT !.dir = Del(fs.dir, a)]

(* Nothing under this name, or all n bytes: for a crash of the process,    *)
(* and for one of the machine.                                             *)
Whole(fs, name, n) == name \notin Names(fs) \/ fs.size[fs.dir[name]] = n
Durable(fs, name, n) == name \notin Names(fs) \/ (fs.size[fs.dir[name]] = n /\ fs.dir[name] \in fs.clean)
=============================================================================
