----------------------------- MODULE BufferImpl -----------------------------
(***************************************************************************)
(* The mechanism of the adapter: an inner buffering reader with a limited  *)
(* buffer over a source that gives a few bytes at a time or fails, and a   *)
(* preload area in front of it.  Every step must be one that Buffer.tla    *)
(* allows.  The histories are also replayed on the real adapter.           *)
(***************************************************************************)
EXTENDS Buffer, TLC, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Src == << 10, 11, 12, 13, 14, 15 >>
Plans == { << "1" >>, << "2", "1" >>, << "9" >>, << "f", "1" >>, << "2", "f" >>, << "3", "f", "f", "1" >> }
Ops == { [op |-> "look", n |-> 0], [op |-> "len", n |-> 0], [op |-> "blen", n |-> 0], [op |-> "empty", n |-> 0],
         [op |-> "refill", n |-> 0], [op |-> "read", n |-> 1], [op |-> "read", n |-> 4],
         [op |-> "eat", n |-> 1], [op |-> "eat", n |-> 99] }
VARIABLES plan, cap, at, sp, inner, pre, count, abs, ok, hist
vars == << plan, cap, at, sp, inner, pre, count, abs, ok, hist >>
Init == /\ plan \in Plans /\ cap \in {1, 3, 8}
        /\ at = 0 /\ sp = 0 /\ inner = <<>> /\ pre = <<>> /\ count = 0 /\ abs = Start /\ ok = TRUE /\ hist = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Give == plan[(at % Len(plan)) + 1]
Num(g) == CASE g = "1" -> 1 [] g = "2" -> 2 [] g = "3" -> 3 [] OTHER -> 9
\* one call of the source with room for k bytes: [r, b]
Pull(k) == IF Give = "f" THEN [r |-> "err", b |-> <<>>]
           ELSE LET n == Min(Num(Give), Min(k, Len(Src) - sp)) IN [r |-> "ok", b |-> Part(Src, sp, n)]
\* the inner reader makes sure that something is buffered: result and its new content
Filled == IF inner # <<>> THEN [r |-> "ok", b |-> inner, called |-> FALSE, got |-> 0]
          ELSE LET p == Pull(cap) IN [r |-> p.r, b |-> p.b, called |-> TRUE, got |-> Len(p.b)]
Called(f) == at' = (IF f.called THEN at + 1 ELSE at) /\ sp' = sp + f.got
Note(o) == hist' = Append(hist, o) /\ UNCHANGED << plan, cap >>
Peek(o) == LET f == Filled IN
  /\ Note(o) /\ Called(f)
  /\ inner' = f.b /\ UNCHANGED << pre, count >>
  /\ IF f.r = "err" THEN UNCHANGED << abs, ok >>
     ELSE IF o.op = "look" THEN /\ ok' = MayShow(Src, abs, pre \o f.b) /\ abs' = Shown(abs, Len(pre \o f.b))
     ELSE /\ UNCHANGED abs
          /\ ok' = IF o.op = "blen" THEN Len(f.b) <= Left(Src, abs) ELSE MayCount(Src, abs, Len(pre) + Len(f.b))
Refill(o) == LET f == Filled IN
  /\ Note(o) /\ Called(f)
  /\ UNCHANGED << count, ok >>
  /\ IF f.r = "err" THEN inner' = f.b /\ UNCHANGED << pre, abs >>
     ELSE inner' = <<>> /\ pre' = pre \o f.b /\ abs' = [abs EXCEPT !.more = TRUE]
Read(o) ==
  LET k == Min(Len(pre), o.n) front == Part(pre, 0, k) want == o.n - k
      direct == inner = <<>> /\ want >= cap
      f == IF want = 0 THEN [r |-> "ok", b |-> inner, called |-> FALSE, got |-> 0]
           ELSE IF direct THEN LET p == Pull(want) IN [r |-> p.r, b |-> p.b, called |-> TRUE, got |-> Len(p.b)]
           ELSE Filled
      m == IF want = 0 \/ f.r = "err" THEN 0 ELSE Min(Len(f.b), want)
      b == front \o Part(f.b, 0, m)
  IN /\ Note(o) /\ Called(f)
     /\ pre' = SubSeq(pre, k + 1, Len(pre))
     /\ inner' = IF direct /\ want > 0 THEN <<>> ELSE SubSeq(f.b, m + 1, Len(f.b))
     /\ IF f.r = "err" /\ b = <<>> THEN UNCHANGED << count, abs, ok >>
        ELSE count' = count + Len(b) /\ ok' = MayRead(Src, abs, o.n, b) /\ abs' = Handed(abs, Len(b))
Eat(o) == LET n == Min(o.n, abs.seen) k == Min(n, Len(pre)) IN
  /\ Note(o)
  /\ ok' = MayEat(abs, n)
  /\ pre' = SubSeq(pre, k + 1, Len(pre)) /\ inner' = SubSeq(inner, n - k + 1, Len(inner))
  /\ count' = count + n /\ abs' = Handed(abs, n) /\ UNCHANGED << at, sp >>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : CASE o.op = "refill" -> Refill(o) [] o.op = "read" -> Read(o) [] o.op = "eat" -> Eat(o) [] OTHER -> Peek(o)
Spec == Init /\ [][Next]_vars
Allowed == ok
Counts == count = abs.pos
\* nothing is lost or repeated inside: position, preload, inner buffer and source follow each other
Intact == Part(Src, abs.pos, Len(pre) + Len(inner)) = pre \o inner /\ sp = abs.pos + Len(pre) + Len(inner)
\* histories of any length: the state apart from the history
View == << plan, cap, at % Len(plan), sp, inner, pre, count, abs, ok >>
Emit == Len(hist) < MaxOps \/ PrintT("@@" \o ToJson([plan |-> plan, cap |-> cap, o |-> hist]))
=============================================================================
