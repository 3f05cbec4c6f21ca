------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The buffering reader adapter, as its user sees it: a position in the    *)
(* source and the number of bytes behind it that have been shown.          *)
(* Whatever is shown or handed out is what stands in the source there.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Part(src, from, n) == SubSeq(src, from + 1, from + n)
\* state: pos - bytes handed out; seen - bytes shown beyond pos; more - the source was refilled since they were shown
Start == [pos |-> 0, seen |-> 0, more |-> FALSE]
Left(src, s) == Len(src) - s.pos
\* looking ahead shows b
MayShow(src, s, b) == /\ Len(b) <= Left(src, s)
                      /\ b = Part(src, s.pos, Len(b))
                      /\ (Len(b) = 0 => Left(src, s) = 0)
                      /\ Len(b) >= s.seen                            \* what was seen remains visible
                      /\ (s.more /\ Left(src, s) > s.seen => Len(b) > s.seen)  \* refilling makes more visible
Shown(s, n) == [s EXCEPT !.seen = n, !.more = FALSE]
\* n bytes could be seen now
MayCount(src, s, n) == /\ n <= Left(src, s) /\ n >= s.seen /\ (n = 0 => Left(src, s) = 0)
\* reading at most n bytes hands out b
MayRead(src, s, n, b) == /\ Len(b) <= n /\ Len(b) <= Left(src, s) /\ b = Part(src, s.pos, Len(b))
                         /\ (Len(b) = 0 => n = 0 \/ Left(src, s) = 0)
Handed(s, n) == [pos |-> s.pos + n, seen |-> IF s.seen > n THEN s.seen - n ELSE 0, more |-> FALSE]
\* consuming n bytes which were seen
MayEat(s, n) == n <= s.seen
=============================================================================
