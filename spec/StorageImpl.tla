---------------------------- MODULE StorageImpl -----------------------------
(***************************************************************************)
(* The mechanism of the storage on a file of cells: slot tables (two cells *)
(* each) followed by their packets (one cell or two).  An insert is a      *)
(* sequence of writes; each of them may fail or be the last one before the *)
(* process dies.  A write which extends the file or replaces bytes behind  *)
(* the last stored packet may take effect in part; replacing a table in    *)
(* place happens at once or not at all.  Readers look at any moment.       *)
(*                                                                         *)
(* Abstractly (Storage.tla) there is just the list of packets.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
Cap == atoi(IOEnv.CAP)
MaxIns == atoi(IOEnv.MAXINS)
MaxFault == atoi(IOEnv.MAXFAULT)
Sizes == {1, 2}
VARIABLES file,    \* cells
          mem,     \* slot tables as the writer knows them
          pc, job, \* what the writer does next; the packet being inserted
          follow,  \* an empty table was put behind the packet
          list,    \* ghost: the packets of the storage
          faults, ids,
          rd, seen, told   \* a reader: known tables; ghost: the list at its last (re)load; what reload reported was right
vars == << file, mem, pc, job, follow, list, faults, ids, rd, seen, told >>

Empty == [i \in 1..Cap |-> 0]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Full(t) == t[Cap] > 0
Width(t) == Sum(t)
Used(t) == Cardinality({i \in 1..Cap : t[i] > 0})
Table(t) == << [t |-> "T", k |-> 1, id |-> 0, lens |-> t], [t |-> "T", k |-> 2, id |-> 0, lens |-> t] >>
Packet(id, n) == [k \in 1..n |-> [t |-> "P", k |-> k, id |-> id, lens |-> << n >>]]

\* reading a table at an offset
TryTable(f, off) ==
  IF Len(f) <= off THEN [r |-> "short", t |-> Empty]
  ELSE IF f[off + 1].t # "T" \/ f[off + 1].k # 1 THEN [r |-> "damaged", t |-> Empty]
  ELSE IF Len(f) = off + 1 THEN [r |-> "short", t |-> Empty]
  ELSE IF f[off + 2].t # "T" \/ f[off + 2].k # 2 \/ f[off + 2].lens # f[off + 1].lens THEN [r |-> "damaged", t |-> Empty]
  ELSE [r |-> "ok", t |-> f[off + 1].lens]
RECURSIVE Tables(_, _)
Tables(f, off) == LET x == TryTable(f, off) IN
  IF x.r # "ok" THEN [r |-> x.r, s |-> <<>>]
  ELSE IF ~Full(x.t) THEN [r |-> "short", s |-> << x.t >>]
  ELSE LET rest == Tables(f, off + 2 + Width(x.t)) IN [r |-> rest.r, s |-> << x.t >> \o rest.s]
Load(f) == LET x == Tables(f, 0) IN [ok |-> x.r = "short", s |-> x.s]
\* offset of the i-th table
Offset(s, i) == Sum([j \in 1..(i - 1) |-> 2 + Width(s[j])])
\* the packet at an offset; 0: not a complete packet
At(f, off, n) == IF /\ off + n <= Len(f)
                    /\ \A k \in 1..n : f[off + k].t = "P" /\ f[off + k].k = k /\ f[off + k].lens = << n >> /\ f[off + k].id = f[off + 1].id
                 THEN f[off + 1].id ELSE 0
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Content(f, s) == Cat([i \in 1..Len(s) |->
  [j \in 1..Used(s[i]) |-> At(f, Offset(s, i) + 2 + Sum(SubSeq(s[i], 1, j - 1)), s[i][j])]])

Put(f, off, cells) == [i \in 1..(IF Len(f) > off + Len(cells) THEN Len(f) ELSE off + Len(cells)) |->
  IF i > off /\ i <= off + Len(cells) THEN cells[i - off] ELSE f[i]]

Init == /\ file = <<>> /\ mem = <<>> /\ pc = "idle" /\ job = [id |-> 0, n |-> 0] /\ follow = FALSE
        /\ list = <<>> /\ faults = 0 /\ ids = 0 /\ rd = <<>> /\ seen = <<>> /\ told = TRUE

\* the writer
Cur == IF mem # <<>> /\ ~Full(mem[Len(mem)]) THEN Len(mem) ELSE Len(mem) + 1
Slot == mem[Cur]
Begin == /\ pc = "idle" /\ ids < MaxIns
         /\ \E n \in Sizes : job' = [id |-> ids + 1, n |-> n]
         /\ ids' = ids + 1 /\ follow' = FALSE
         /\ pc' = IF Cur > Len(mem) THEN "new" ELSE "pkt"
         /\ UNCHANGED << file, mem, list, faults, rd, seen, told >>
PacketAt == Offset(mem, Cur) + 2 + Width(Slot)
Updated == [Slot EXCEPT ![Used(Slot) + 1] = job.n]
\* the write of each step: where, what, may it take effect in part
Op == CASE pc = "new"    -> [off |-> Offset(mem, Cur), cells |-> Table(Empty), torn |-> TRUE]
        [] pc = "pkt"    -> [off |-> PacketAt, cells |-> Packet(job.id, job.n), torn |-> TRUE]
        [] pc = "follow" -> [off |-> PacketAt + job.n, cells |-> Table(Empty), torn |-> TRUE]
        [] OTHER         -> [off |-> Offset(mem, Cur), cells |-> Table(Updated), torn |-> FALSE]
Busy == pc \in {"new", "pkt", "follow", "table"}
Work == /\ Busy
        /\ file' = Put(file, Op.off, Op.cells)
        /\ CASE pc = "new" -> mem' = Append(mem, Empty) /\ pc' = "pkt" /\ UNCHANGED << follow, list >>
             [] pc = "pkt" -> /\ pc' = (IF Full(Updated) /\ Len(file') > PacketAt + job.n THEN "follow" ELSE "table")
                              /\ UNCHANGED << mem, follow, list >>
             [] pc = "follow" -> pc' = "table" /\ follow' = TRUE /\ UNCHANGED << mem, list >>
             [] OTHER -> /\ mem' = [mem EXCEPT ![Cur] = Updated] \o (IF follow THEN << Empty >> ELSE <<>>)
                         /\ list' = Append(list, job.id) /\ pc' = "idle" /\ UNCHANGED follow
        /\ UNCHANGED << job, faults, ids, rd, seen, told >>
\* a write fails, or the process dies; k cells have been written nevertheless
Fault == /\ Busy /\ faults < MaxFault /\ faults' = faults + 1
         /\ \E k \in (IF Op.torn THEN 0..(Len(Op.cells) - 1) ELSE {0}) :
              file' = IF k = 0 THEN file ELSE Put(file, Op.off, SubSeq(Op.cells, 1, k))
         /\ pc' \in {"idle", "dead"}
         /\ UNCHANGED << mem, job, follow, list, ids, rd, seen, told >>
Die == pc = "idle" /\ faults < MaxFault /\ faults' = faults + 1 /\ pc' = "dead"
       /\ UNCHANGED << file, mem, job, follow, list, ids, rd, seen, told >>
Recover == /\ pc = "dead" /\ Load(file).ok
           /\ mem' = Load(file).s /\ pc' = "idle"
           /\ UNCHANGED << file, job, follow, list, faults, ids, rd, seen, told >>
\* a reader
Open == /\ Load(file).ok /\ rd' = Load(file).s /\ seen' = list
        /\ UNCHANGED << file, mem, pc, job, follow, list, faults, ids, told >>
Known == Len(Content(file, rd))
Reload == LET keep == IF rd # <<>> /\ ~Full(rd[Len(rd)]) THEN Len(rd) - 1 ELSE Len(rd)
              x == Tables(file, Offset(rd, keep + 1))
              s == SubSeq(rd, 1, keep) \o x.s
          IN /\ rd' = s /\ seen' = list
             /\ told' = (x.r = "short" /\ (keep = Len(rd) \/ x.s # <<>>) /\ Len(Content(file, s)) - Known = Len(list) - Len(seen))
             /\ UNCHANGED << file, mem, pc, job, follow, list, faults, ids >>
Next == Begin \/ Work \/ Fault \/ Die \/ Recover \/ Open \/ Reload
Spec == Init /\ [][Next]_vars

\* P09/P11: whoever opens the storage at any moment sees exactly the list
Opens == Load(file).ok
Sees == Content(file, Load(file).s) = list
\* P10: a reader continues to see what it saw; reloading reports what was added
Keeps == Content(file, rd) = seen
Tells == told
\* the writer's tables are those of the file, apart from an empty one behind the last
WriterAgrees == pc = "idle" => Content(file, mem) = list
=============================================================================
