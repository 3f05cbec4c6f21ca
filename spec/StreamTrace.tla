----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Checks executions of the real stream reader against Stream, with the    *)
(* real wire format.  One line is one session: the bytes b of the source   *)
(* and the calls o of read(), each with the bytes ig handed to the         *)
(* ignored-data callback during the call and the outcome k:                *)
(*   found v | err | io (the source failed) | idle | end | stall           *)
(* (stall: the source is at its end, and calling again changes nothing);   *)
(* lost (the source failed, but the call did not say so), panic and        *)
(* endless are never allowed.  Consecutive idle calls are merged.          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

(* What begins where in the bytes b, worked out once per session *)
Info(b) ==
  LET at == {p \in 1..Len(b) : b[p] = 236 /\ DecHdr(b, p).k = "ok"}
      n == TLCEval([p \in at |-> HdrLen + LimbsNat(DecHdr(b, p).v.size)])
      whole == {p \in at : p + n[p] - 1 <= Len(b)}
  IN TLCEval([b |-> b, at |-> at, n |-> n, body |-> [p \in whole |-> DecPacket(b, p)]])
HeadReal(I, p) == IF p \in I.at THEN [k |-> "hdr", n |-> I.n[p]] ELSE [k |-> "none"]
BodyReal(I, p) == I.body[p]
BytesReal(I) == I.b
S == INSTANCE Stream WITH HeadAt <- HeadReal, BodyAt <- BodyReal, Bytes <- BytesReal

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLE l
N == Len(Trace)
Init == l \in {i \in 1..Chains : i <= N}
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

\* a signature followed by an invalid header: foreign bytes, but it may be mentioned, once
BadHead(I, p) == p + HdrLen - 1 <= Len(I.b) /\ Cut(I.b, p, 8) = PktSig /\ ~S!IsPkt(I, p)

\* a state: p bytes accounted for, e the last damaged header mentioned
Step(I, states, c) ==
  UNION { LET starts == S!Drops(I, s.p)
              igs == {q \in starts : S!Ignore(I, q, c.ig, q + Len(c.ig))}
              ps == IF c.ig = <<>> THEN starts ELSE UNION {S!Drops(I, q + Len(c.ig)) : q \in igs}
          IN CASE c.k = "idle"  -> {[p |-> q, e |-> s.e] : q \in (IF c.ig = <<>> THEN {s.p} ELSE {q + Len(c.ig) : q \in igs})}
               [] c.k = "found" -> {[p |-> S!After(I, q + 1), e |-> s.e] : q \in {q \in ps : S!Found(I, q, c.v, S!After(I, q + 1))}}
               [] c.k = "err"   -> {[p |-> S!After(I, q + 1), e |-> s.e] : q \in {q \in ps : S!Damaged(I, q + 1)}}
                                   \cup {[p |-> q, e |-> m] : q \in ps,
                                          m \in {m \in (s.p + 1)..Len(I.b) : m > s.e /\ I.b[m] = 236 /\ BadHead(I, m)}}
               [] c.k = "io"    -> {[p |-> q, e |-> s.e] : q \in ps}
               [] c.k \in {"end", "stall"} -> {[p |-> q, e |-> s.e] : q \in {q \in ps : S!Exhausted(I, q)}}
               [] OTHER -> {}
        : s \in states }
Accept(ev) == LET I == Info(ev.b)
              IN FoldLeft(LAMBDA st, c : Step(I, st, c), {[p |-> 0, e |-> 0]}, ev.o) # {}
Finished(ev) == Len(ev.o) > 0 /\ ev.o[Len(ev.o)].k \in {"end", "stall"}
Conforms == LET ev == Trace[l] IN Finished(ev) /\ Accept(ev)
=============================================================================
