---------------------------- MODULE BufferTrace -----------------------------
(* Recorded sessions with the real adapter, checked call by call.          *)
EXTENDS Buffer, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLE l
N == Len(Trace)
Init == l \in {i \in 1..Chains : i <= N}
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

\* an error is passed on only if the source failed, and costs nothing
After(src, s, e) ==
  IF e.r = "err" THEN IF e.failed > 0 /\ e.op # "eat" THEN {s} ELSE {}
  ELSE IF e.r # "ok" THEN {}
  ELSE (CASE e.op = "look"   -> IF MayShow(src, s, e.b) THEN {Shown(s, Len(e.b))} ELSE {}
          [] e.op = "len"    -> IF MayCount(src, s, e.k) THEN {s} ELSE {}
          [] e.op = "blen"   -> IF e.k <= Left(src, s) THEN {s} ELSE {}
          [] e.op = "empty"  -> IF (e.k = 1) = (Left(src, s) = 0) THEN {s} ELSE {}
          [] e.op = "refill" -> {[s EXCEPT !.more = TRUE]}
          [] e.op = "read"   -> IF MayRead(src, s, e.n, e.b) THEN {Handed(s, Len(e.b))} ELSE {}
          [] e.op = "eat"    -> IF MayEat(s, e.n) THEN {Handed(s, e.n)} ELSE {}
          [] OTHER -> {})
Step(src, s, e) == {t \in After(src, s, e) : e.c = t.pos}
Conforms == LET e == Trace[l]
                end == FoldLeft(LAMBDA st, x : UNION {Step(e.src, s, x) : s \in st}, {Start}, e.o)
            IN \E s \in end : s.pos = Len(e.src)       \* the harness reads everything in the end
=============================================================================
