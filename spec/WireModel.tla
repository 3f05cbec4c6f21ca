------------------------------ MODULE WireModel ------------------------------
(***************************************************************************)
(* Model checking of the format itself, and generation of test sessions.   *)
(*                                                                         *)
(* A session picks an item (its shape) and grows: the bytes of the item    *)
(* arrive in an input one after another, and one of them may be altered.   *)
(* In each state the specified reading (Wire!Dec) has to give the answers  *)
(* the listed properties promise.                                          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

MaxB   == atoi(IOEnv.MAXB)       \* blocks per packet in generated shapes
EmitOn == IOEnv.EMIT = "1"

Bytes1 == << 17, 0, 255 >>
NumVal(w) == [i \in 1..(w \div 2) |-> IF i = 1 THEN 4660 ELSE 65535 - i]
FieldVal(f) == CASE f.k = "byte" -> << 200 >>
                 [] f.k = "num"  -> NumVal(f.w)
                 [] f.k = "blob" -> [i \in 1..f.w |-> 236 - i]
                 [] f.k = "bool" -> << 1 >>
                 [] f.k = "enum" -> << 2 >>
BlockVal(t) == [t |-> t, f |-> [i \in 1..Len(Schema[t]) |-> FieldVal(Schema[t][i])]]
PlVal(t) == CASE t = "PlB" -> [t |-> t, f |-> << NumVal(4), << 65, 66 >>, Bytes1 >>]
              [] t = "PlN" -> [t |-> t, f |-> << NumVal(4), Bytes1 >>]
              [] t = "String" -> [t |-> t, f |-> << << 104, 105 >> >>]
              [] OTHER -> [t |-> t, f |-> << Bytes1 >>]
BlockSeqs(n) == UNION {[1..k -> BlockTypes] : k \in 0..n}
PlChoice == {<<>>} \cup {<< t >> : t \in PayloadTypes}

PktReaders == {"plain", "try", "buf", "filt", "slow"}
BlkReaders == {"e.read", "e.block", "e.try", "e.buf", "e.slice", "s.block", "s.skip", "s.try", "s.buf", "s.slice",
               "s.sliceskip", "e.slow", "s.slow"}
PlReaders == {"e.read", "e.try", "e.buf", "s.read", "s.try", "s.buf", "e.slow"}
HdrReaders == {"read", "try", "buf", "slice", "slow"}
PlHdrReaders == {"read", "try", "buf", "slow"}

Shapes == {[cls |-> "pkt", b |-> b, p |-> p] : b \in BlockSeqs(MaxB), p \in PlChoice}
  \cup {[cls |-> "blk", b |-> << t >>, p |-> <<>>] : t \in BlockTypes}
  \cup {[cls |-> "pl", b |-> <<>>, p |-> << t >>] : t \in PayloadTypes}
  \cup {[cls |-> "hdr", b |-> b, p |-> p] : b \in BlockSeqs(1), p \in PlChoice}
  \cup {[cls |-> "plhdr", b |-> <<>>, p |-> << t >>] : t \in PayloadTypes}
PktVal(s) == [b |-> [i \in 1..Len(s.b) |-> BlockVal(s.b[i])], p |-> [i \in 1..Len(s.p) |-> PlVal(s.p[i])]]
Val(s) == CASE s.cls = "pkt"   -> PktVal(s)
            [] s.cls = "blk"   -> BlockVal(s.b[1])
            [] s.cls = "pl"    -> PlVal(s.p[1])
            [] s.cls = "hdr"   -> HdrOf(PktVal(s))
            [] s.cls = "plhdr" -> PlHdrOf(PlVal(s.p[1]))

VARIABLES shape, bytes, cut, alt
vars == << shape, bytes, cut, alt >>
Init == /\ shape \in Shapes
        /\ bytes = Enc(shape.cls, Val(shape))
        /\ cut = 0
        /\ alt = <<>>
\* one more byte arrives
Grow == cut < Len(bytes) /\ alt = <<>> /\ cut' = cut + 1 /\ UNCHANGED << shape, bytes, alt >>
\* a byte of the complete item is altered
Small == Len(shape.b) <= 1
Alter == /\ cut = Len(bytes) /\ alt = <<>> /\ Small /\ shape.cls # "plhdr"
         /\ \E i \in 1..Len(bytes), m \in {1, 8, 128, 255} : alt' = << i, bytes[i] ^^ m >>
         /\ UNCHANGED << shape, bytes, cut >>
Next == Grow \/ Alter
Spec == Init /\ [][Next]_vars

Input == IF alt = <<>> THEN SubSeq(bytes, 1, cut) ELSE [bytes EXCEPT ![alt[1]] = alt[2]]
Answer == Dec(shape.cls, Input, 1)

\* P01: complete input is read back, using exactly its bytes, whatever follows
RoundTrip == (alt = <<>> /\ cut = Len(bytes)) =>
   /\ Answer.k = "ok" /\ Answer.v = Val(shape) /\ Answer.n = Len(bytes)
   /\ LET more == Dec(shape.cls, Input \o PktSig, 1) IN more = Answer
\* P04: a proper prefix asks for at least one and at most the missing bytes
Prefix == (alt = <<>> /\ cut < Len(bytes)) =>
   Answer.k = "more" /\ Answer.n \in 1..(Len(bytes) - cut)
\* P03: an altered byte is noticed, or carries no information, or belongs to content without checksum
Loose == \/ \E i \in 1..Len(shape.b) : shape.b[i] \in NoCrcBlocks
         \/ \E i \in 1..Len(shape.p) : shape.p[i] \in NoCrcPayloads
Damage == (alt # <<>> /\ ~Loose) => \/ Answer.k \in {"err", "more"}
                                    \/ Answer.v = Val(shape)
\* P02: sizes in headers are the sizes of what follows
Sizes == shape.cls = "pkt" => LET h == HdrOf(PktVal(shape)) IN LimbsNat(h.size) = Len(bytes) - HdrLen

-----------------------------------------------------------------------------
\* sessions for the harness: the item, and the readers used for it and for the next one
ReadersOf(c) == CASE c = "pkt" -> PktReaders [] c = "blk" -> BlkReaders [] c = "pl" -> PlReaders
                  [] c = "hdr" -> HdrReaders [] c = "plhdr" -> PlHdrReaders
TypeName == IF shape.cls = "blk" THEN shape.b[1] ELSE IF shape.cls \in {"pl", "plhdr"} THEN shape.p[1] ELSE ""
Emit == (EmitOn /\ cut = 0) =>
  \A r1 \in ReadersOf(shape.cls), r2 \in ReadersOf(shape.cls) :
     PrintT("@@" \o ToJson([cls |-> shape.cls, shape |-> [b |-> shape.b, p |-> shape.p], t |-> TypeName, rd |-> << r1, r2 >>]))
=============================================================================
