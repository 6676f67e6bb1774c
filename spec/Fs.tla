--------------------------------- MODULE Fs ---------------------------------
(* A file system: what programs see of it now, and what may be left of it     *)
(* after a loss of power.  Directory changes reach the disk in their order;   *)
(* syncing a file makes its contents and all earlier directory changes        *)
(* durable; of a file not synced any earlier contents may be left.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* files: name -> contents
FsInit(files) ==
  LET names == DOMAIN files
      num == CHOOSE f \in [names -> 1..Cardinality(names)] : \A a, b \in names : a # b => f[a] # f[b]
      inodes == {num[x] : x \in names}
      cont == [i \in inodes |-> files[CHOOSE x \in names : num[x] = i]]
  IN [dir |-> num, pdirs |-> {num}, cont |-> cont, kept |-> [i \in inodes |-> {cont[i]}], fds |-> << >>, next |-> Cardinality(names) + 1]
Drop(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f
SetDir(s, d) == [s EXCEPT !.dir = d, !.pdirs = @ \cup {d}]
SetCont(s, i, b) == [s EXCEPT !.cont = Put(@, i, b), !.kept = Put(@, i, (IF i \in DOMAIN @ THEN @[i] ELSE {}) \cup {b})]
Zeros(n) == [i \in 1..n |-> 0]
Cut(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))
Splice(b, at, x) == Cut(b, at) \o x \o SubSeq(b, at + Len(x) + 1, Len(b))
\* o: what a program asked for and got
FsDo(s, o) ==
  CASE o.op = "open" ->
         IF o.path \in DOMAIN s.dir
         THEN LET i == s.dir[o.path]
                  m == IF o.trunc = 1 THEN SetCont(s, i, << >>) ELSE s
              IN [m EXCEPT !.fds = Put(@, o.fd, [ino |-> i, pos |-> 0, app |-> o.app])]
         ELSE IF o.creat = 1
         THEN LET m == SetDir(SetCont(s, s.next, << >>), Put(s.dir, o.path, s.next))
              IN [m EXCEPT !.next = @ + 1, !.fds = Put(@, o.fd, [ino |-> s.next, pos |-> 0, app |-> o.app])]
         ELSE [s EXCEPT !.fds = Put(@, o.fd, [ino |-> 0, pos |-> 0, app |-> 0])]         \* a directory
    [] o.op = "write" ->
         LET f == s.fds[o.fd]
             at == IF o.at >= 0 THEN o.at ELSE IF f.app = 1 THEN Len(s.cont[f.ino]) ELSE f.pos
             m == SetCont(s, f.ino, Splice(s.cont[f.ino], at, o.b))
         IN IF o.at >= 0 THEN m ELSE [m EXCEPT !.fds[o.fd].pos = at + Len(o.b)]
    [] o.op = "fsync" -> LET i == s.fds[o.fd].ino
                         IN [s EXCEPT !.pdirs = {s.dir}, !.kept = IF i = 0 THEN @ ELSE Put(@, i, {s.cont[i]})]
    [] o.op = "sync" -> [s EXCEPT !.pdirs = {s.dir}, !.kept = [i \in DOMAIN @ |-> {s.cont[i]}]]
    [] o.op = "close" -> [s EXCEPT !.fds = Drop(@, o.fd)]
    [] o.op = "rename" -> IF o.path \in DOMAIN s.dir THEN SetDir(s, Put(Drop(s.dir, o.path), o.to, s.dir[o.path])) ELSE s
    [] o.op = "link" -> IF o.path \in DOMAIN s.dir THEN SetDir(s, Put(s.dir, o.to, s.dir[o.path])) ELSE s
    [] o.op = "unlink" -> SetDir(s, Drop(s.dir, o.path))
    [] o.op = "ftruncate" -> LET i == s.fds[o.fd].ino IN SetCont(s, i, Cut(s.cont[i], o.n))
    [] o.op = "truncate" -> IF o.path \notin DOMAIN s.dir THEN s ELSE LET i == s.dir[o.path] IN SetCont(s, i, Cut(s.cont[i], o.n))
\* contents of a file seen now; Gone where there is none
Gone == << -1 >>
Seen(s, name) == IF name \in DOMAIN s.dir THEN s.cont[s.dir[name]] ELSE Gone
\* contents it may have after a loss of power
MayKeep(s, name) == UNION {IF name \in DOMAIN d THEN s.kept[d[name]] ELSE {Gone} : d \in s.pdirs}
\* the file systems a loss of power may leave
RECURSIVE Choices(_, _)
Choices(f, S) == IF S = {} THEN {<< >>} ELSE LET x == CHOOSE y \in S : TRUE IN {Put(g, x, v) : g \in Choices(f, S \ {x}), v \in f[x]}
AfterLoss(s) == UNION {{[s EXCEPT !.dir = d, !.pdirs = {d}, !.cont = c @@ s.cont, !.kept = [i \in DOMAIN @ |-> IF i \in DOMAIN c THEN {c[i]} ELSE @[i]], !.fds = << >>]
                        : c \in Choices(s.kept, {d[x] : x \in DOMAIN d})} : d \in s.pdirs}
=============================================================================
