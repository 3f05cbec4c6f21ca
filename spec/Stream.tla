------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a stream reader has to do, independent of how it does it.          *)
(*                                                                         *)
(* B is everything the source will ever deliver.  The reader accounts for  *)
(* B from left to right: pos bytes have been accounted for, either handed  *)
(* to the ignored-data callback or as part of a packet that was delivered, *)
(* skipped by a rule, or reported as damaged.                              *)
(*                                                                         *)
(* B is given as anything from which Bytes(B) makes the sequence of bytes.  *)
(* The format is a parameter: HeadAt(B, p) tells what begins at p:           *)
(*   [k |-> "none"] no packet,  [k |-> "hdr", n |-> total length] a packet *)
(*   with a valid header (which might not be complete);                    *)
(* BodyAt(B, p) judges the complete packet at p:                             *)
(*   [k |-> "ok", v |-> packet] or [k |-> "err"].                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS HeadAt(_, _), BodyAt(_, _), Bytes(_)

IsPkt(B, p)  == HeadAt(B, p).k = "hdr"
Whole(B, p)  == IsPkt(B, p) /\ p + HeadAt(B, p).n - 1 <= Len(Bytes(B))
After(B, p)  == p + HeadAt(B, p).n - 1            \* bytes accounted for when the packet at p is done
Damaged(B, p) == Whole(B, p) /\ BodyAt(B, p).k # "ok"

\* bytes pos+1 .. pos+n are foreign: no packet begins in them
Foreign(B, pos, n) == /\ pos + n <= Len(Bytes(B))
                      /\ \A q \in (pos + 1)..(pos + n) : ~IsPkt(B, q)
\* a damaged packet might be dropped without an error report ("at most once")
RECURSIVE Drops(_, _)
Drops(B, pos) == {pos} \cup (IF Damaged(B, pos + 1) THEN Drops(B, After(B, pos + 1)) ELSE {})

(* Outcomes of one call, as relations between the bytes accounted for before and after it *)
Ignore(B, pos, bytes, pos2) ==
  /\ Foreign(B, pos, Len(bytes))
  /\ bytes = SubSeq(Bytes(B), pos + 1, pos + Len(bytes))
  /\ pos2 = pos + Len(bytes)
Found(B, pos, v, pos2) ==
  /\ Whole(B, pos + 1)
  /\ LET r == BodyAt(B, pos + 1) IN r.k = "ok" /\ r.v = v
  /\ pos2 = After(B, pos + 1)
Report(B, pos, pos2) ==
  /\ Damaged(B, pos + 1)
  /\ pos2 = After(B, pos + 1)
\* nothing left to hand over: the end, or a packet the source will never complete
Exhausted(B, pos) == \/ pos = Len(Bytes(B))
                     \/ IsPkt(B, pos + 1) /\ ~Whole(B, pos + 1)
=============================================================================
