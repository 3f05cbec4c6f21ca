----------------------------- MODULE StreamImpl -----------------------------
(***************************************************************************)
(* The mechanism of PacketBufReaderDef (brec/src/packet/reader.rs) on a    *)
(* scaled-down format: a source read through a refillable buffer, the      *)
(* states Empty / Refill / Ready, bytes carried between calls.  Each call  *)
(* of read() is one step; it has to be an allowed step of Stream, for      *)
(* every input, every chunking and every pattern of source failures.       *)
(*                                                                         *)
(* Scaled format: signature <<1, 1>> (like the real one, its halves are    *)
(* equal), then the body size, then a check symbol = (size + 1) % 3; the   *)
(* body follows.  A body containing 2 is damaged.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
MaxLen   == atoi(IOEnv.MAXLEN)      \* length of the input
MaxChunk == atoi(IOEnv.MAXCHUNK)    \* bytes per successful source read
MaxFail  == atoi(IOEnv.MAXFAIL)     \* transient source failures
BufCap   == 6                       \* capacity of the internal buffer

Sym == 0..2
SigLen == 2
HdrLen == 4
Sig == << 1, 1 >>
Check(n) == (n + 1) % 3
ValidAt(B, p) == /\ p + HdrLen - 1 <= Len(B)
                 /\ SubSeq(B, p, p + 1) = Sig
                 /\ B[p + 3] = Check(B[p + 2])
HeadOf(B, p) == IF ValidAt(B, p) THEN [k |-> "hdr", n |-> HdrLen + B[p + 2]] ELSE [k |-> "none"]
BodyOf(B, p) == LET v == SubSeq(B, p + HdrLen, p + HdrLen + B[p + 2] - 1)
                IN IF \E i \in 1..Len(v) : v[i] = 2 THEN [k |-> "err"] ELSE [k |-> "ok", v |-> v]
Same(x) == x
S == INSTANCE Stream WITH HeadAt <- HeadOf, BodyAt <- BodyOf, Bytes <- Same

VARIABLES B, src, buf, st, held, fails, pos, good, done
vars == << B, src, buf, st, held, fails, pos, good, done >>
\* st: [k |-> "Empty"] | [k |-> "Refill", b |-> bytes, need |-> n] | [k |-> "Ready", n |-> body size]

Inputs == UNION {[1..n -> Sym] : n \in 0..MaxLen}
Init == /\ B \in Inputs
        /\ src = 0 /\ buf = <<>> /\ st = [k |-> "Empty"] /\ held = <<>>
        /\ fails = 0 /\ pos = 0 /\ good = TRUE /\ done = FALSE

Take(s, n) == SubSeq(s, n + 1, Len(s))
\* the first position in s where a signature with a valid header begins, or where one may begin but is incomplete
SigAt(s, p) == p + SigLen - 1 <= Len(s) /\ SubSeq(s, p, p + SigLen - 1) = Sig
Scan(s) ==
  LET hits == {p \in 1..Len(s) : SigAt(s, p) /\ (p + HdrLen - 1 > Len(s) \/ ValidAt(s, p))} IN
  IF hits = {} THEN [k |-> "none"]
  ELSE LET p == CHOOSE p \in hits : \A q \in hits : p <= q IN
       IF p + HdrLen - 1 > Len(s) THEN [k |-> "short", from |-> p - 1, need |-> p + HdrLen - 1 - Len(s)]
       ELSE [k |-> "found", from |-> p - 1, n |-> s[p + 2], end |-> p + HdrLen - 1]

\* judges a call: ignored bytes first, then the outcome
Judge(ig, kind, v) ==
  LET p1 == pos + Len(ig)
      igok == S!Ignore(B, pos, ig, p1)
  IN CASE kind = "idle" -> [ok |-> igok, pos |-> p1, done |-> FALSE]
       [] kind = "end"  -> [ok |-> igok /\ S!Exhausted(B, p1), pos |-> p1, done |-> TRUE]
       [] kind = "pkt"  -> IF igok /\ S!Whole(B, p1 + 1)
                           THEN LET r == BodyOf(B, p1 + 1) IN
                                [ok |-> IF r.k = "ok" THEN v.k = "ok" /\ v.v = r.v ELSE v.k = "err",
                                 pos |-> S!After(B, p1 + 1), done |-> FALSE]
                           ELSE [ok |-> FALSE, pos |-> p1, done |-> TRUE]
Return(ig, kind, v) == LET j == Judge(ig, kind, v) IN good' = j.ok /\ pos' = j.pos /\ done' = j.done
Verdict(body) == IF \E i \in 1..Len(body) : body[i] = 2 THEN [k |-> "err"] ELSE [k |-> "ok", v |-> body]
None == [k |-> "none"]

\* fill_buf: hands over what is buffered, or reads once; W is what the call sees, srcN the new source position
Call(W, srcN) ==
  /\ src' = srcN
  /\ UNCHANGED << B, fails >>
  /\ CASE st.k = "Empty" ->
            IF W = <<>> THEN buf' = W /\ st' = st /\ held' = <<>> /\ Return(<<>>, "end", None)
            ELSE IF Len(W) < HdrLen
            THEN buf' = <<>> /\ held' = <<>> /\ st' = [k |-> "Refill", b |-> W, need |-> HdrLen - Len(W)] /\ Return(<<>>, "idle", None)
            ELSE LET h == Scan(W) IN
              (CASE h.k = "none" ->
                     LET lit == Len(W) - (SigLen - 1) IN
                     /\ buf' = <<>> /\ held' = <<>>
                     /\ st' = [k |-> "Refill", b |-> Take(W, lit), need |-> HdrLen - (SigLen - 1)]
                     /\ Return(SubSeq(W, 1, lit), "idle", None)
                [] h.k = "short" ->
                     /\ buf' = <<>> /\ held' = <<>>
                     /\ st' = [k |-> "Refill", b |-> Take(W, h.from), need |-> h.need]
                     /\ Return(SubSeq(W, 1, h.from), "idle", None)
                [] h.k = "found" ->
                     IF h.end + h.n > Len(W)
                     THEN /\ buf' = <<>> /\ held' = Take(W, h.end)
                          /\ st' = [k |-> "Ready", n |-> h.n]
                          /\ Return(SubSeq(W, 1, h.from), "idle", None)
                     ELSE /\ buf' = Take(W, h.end + h.n) /\ held' = <<>>
                          /\ st' = [k |-> "Empty"]
                          /\ Return(SubSeq(W, 1, h.from), "pkt", Verdict(SubSeq(W, h.end + 1, h.end + h.n))))
       [] st.k = "Refill" ->
            IF W = <<>> THEN buf' = W /\ held' = held /\ st' = [k |-> "Empty"] /\ Return(st.b, "end", None)
            ELSE IF Len(W) < st.need
            THEN buf' = <<>> /\ held' = held /\ st' = [k |-> "Refill", b |-> st.b \o W, need |-> st.need - Len(W)] /\ Return(<<>>, "idle", None)
            ELSE LET s1 == st.b \o SubSeq(W, 1, st.need)
                     h1 == Scan(s1)
                     s2 == st.b \o W
                     g == IF h1.k = "found" THEN h1 ELSE Scan(s2)
                 IN
              (CASE g.k = "found" ->
                     /\ buf' = Take(W, g.end - Len(st.b)) /\ held' = held
                     /\ st' = [k |-> "Ready", n |-> g.n]
                     /\ Return(SubSeq(s2, 1, g.from), "idle", None)
                [] g.k = "short" ->
                     /\ buf' = <<>> /\ held' = held
                     /\ st' = [k |-> "Refill", b |-> Take(s2, g.from), need |-> g.need]
                     /\ Return(SubSeq(s2, 1, g.from), "idle", None)
                [] g.k = "none" ->
                     LET lit == Len(s2) - (SigLen - 1) IN
                     /\ buf' = <<>> /\ held' = held
                     /\ st' = [k |-> "Refill", b |-> Take(s2, lit), need |-> HdrLen - (SigLen - 1)]
                     /\ Return(SubSeq(s2, 1, lit), "idle", None))
       [] st.k = "Ready" ->
            IF st.n > Len(held) + Len(W)
            THEN IF W = <<>>
                 THEN buf' = W /\ held' = held /\ st' = st /\ Return(<<>>, "end", None)   \* never completed: stays here
                 ELSE buf' = <<>> /\ held' = held \o W /\ st' = st /\ Return(<<>>, "idle", None)
            ELSE LET rest == st.n - Len(held) IN
                 /\ buf' = Take(W, rest) /\ held' = <<>>
                 /\ st' = [k |-> "Empty"]
                 /\ Return(<<>>, "pkt", Verdict(held \o SubSeq(W, 1, rest)))

Read == /\ ~done /\ good
        /\ IF buf # <<>> \/ src = Len(B)
           THEN Call(buf, src)
           ELSE \E n \in 1..MaxChunk : /\ n <= Len(B) - src /\ n <= BufCap
                                       /\ Call(SubSeq(B, src + 1, src + n), src + n)
\* the source fails: the call returns the error, everything stays as it was
Fail == /\ ~done /\ good /\ buf = <<>> /\ fails < MaxFail
        /\ fails' = fails + 1
        /\ UNCHANGED << B, src, buf, st, held, pos, good, done >>
Next == Read \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

Refines == good
\* nothing gets lost inside: what is not accounted for is still in the source, in the buffer or carried along
Carried == CASE st.k = "Refill" -> Len(st.b) [] st.k = "Ready" -> HdrLen + Len(held) [] OTHER -> 0
Conserved == done \/ pos + Carried + Len(buf) = src
Ends == <>done
=============================================================================
