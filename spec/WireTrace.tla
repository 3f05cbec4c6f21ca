------------------------------ MODULE WireTrace ------------------------------
(***************************************************************************)
(* Checks executions of the real readers and writers, recorded by the      *)
(* harness, against Wire.  One line of the trace is one recorded episode;  *)
(* the state is the line being examined (several chains run in parallel).  *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Chains == 8
VARIABLE l
N == Len(Trace)
Init == l \in {i \in 1..Chains : i <= N}
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

SumTo(ns, i) == SumSeq(SubSeq(ns, 1, i))

-----------------------------------------------------------------------------
(* P01: items written back to back are read back one after another, each   *)
(* by the reader named, each consuming exactly its own bytes               *)
RtOK(e) ==
  /\ Len(e.o) = Len(e.items)
  /\ \A i \in 1..Len(e.items) :
       /\ e.o[i].k = "ok"
       /\ e.o[i].v = e.items[i]
       /\ e.o[i].pos = e.start + SumTo(e.lens, i)
(* the stream reader delivers the same packets in the same order *)
StreamRtOK(e) ==
  /\ Len(e.o) = Len(e.items)
  /\ \A i \in 1..Len(e.items) : e.o[i].k = "ok" /\ e.o[i].v = e.items[i]

-----------------------------------------------------------------------------
(* P02 *)
SizeOf(class, v, what) ==
  CASE what = "total"   -> Len(Enc(class, v))
    [] what = "body"    -> Len(EncPacket(v)) - HdrLen
    [] what = "blocks"  -> Len(EncBlocks(v))
    [] what = "payload" -> Len(EncPl(v))
    [] what = "plbody"  -> Len(PlBody(v))
    [] what = "plhdr"   -> Len(EncPayload(v)) - Len(PlBody(v))
    [] what = "hdr"     -> HdrLen
EncOK(e) ==
  LET want == Enc(e.cls, e.v) IN
  /\ \A i \in 1..Len(e.outs) : e.outs[i].bytes = want
  /\ \A i \in 1..Len(e.sizes) : e.sizes[i].n = SizeOf(e.cls, e.v, e.sizes[i].what)
(* a storage file: full tables of 500 lengths, each followed by its packets *)
Table(lens) ==
  LET rest == LE(500, 8) \o [i \in 1..4000 |->
                 LET k == (i - 1) \div 8 + 1 o == (i - 1) % 8 IN
                 IF k > Len(lens) THEN 0
                 ELSE CASE o = 0 -> lens[k] % 256 [] o = 1 -> (lens[k] \div 256) % 256
                        [] o = 2 -> (lens[k] \div 65536) % 256 [] o = 3 -> lens[k] \div 16777216
                        [] OTHER -> 0]
  IN SlotSig \o rest \o Crc(rest)
LayoutOK(e) ==   \* e.file: the bytes; e.pk: the packets in order of insertion
  LET encs == [i \in 1..Len(e.pk) |-> EncPacket(e.pk[i])]
      nslots == (Len(e.pk) + 499) \div 500
      upto(s) == Min2(500 * s, Len(e.pk))
      RECURSIVE image(_)
      image(s) == IF s = 0 THEN <<>>
                  ELSE image(s - 1) \o Table([i \in 1..(upto(s) - 500 * (s - 1)) |-> Len(encs[500 * (s - 1) + i])])
                       \o Flat(SubSeq(encs, 500 * (s - 1) + 1, upto(s)))
  IN e.file = image(nslots)

-----------------------------------------------------------------------------
(* P03: bytes first..last of the item have been altered.  Anything else    *)
(* than an error has to be the original; exempt is only the content of     *)
(* blocks and payloads without checksum, where the damage is.              *)
Touches(first, last, from, n) == n > 0 /\ first <= from + n - 1 /\ last >= from
\* offsets (from 1) of block i in packet p, and of its payload
BlockAt(p, i) == 1 + HdrLen + SumSeq([j \in 1..(i - 1) |-> BlockWidth[p.b[j].t]])
PlAt(p) == BlockAt(p, Len(p.b) + 1)
PlBodyAt(pl, at) == at + Len(EncPayload(pl)) - Len(PlBody(pl))
BlockLoose(b, at, first, last) == b.t \in NoCrcBlocks /\ Touches(first, last, at + 4, BodyWidth[b.t])
PlLoose(pl, at, first, last) == pl.t \in NoCrcPayloads /\ Touches(first, last, PlBodyAt(pl, at), Len(PlBody(pl)))
SameBlock(a, b, loose) == a.t = b.t /\ (loose \/ a.f = b.f)
SamePl(a, b, loose) == a.t = b.t /\ (loose \/ a.f = b.f)
Harmless(class, v, got, first, last) ==
  CASE class = "pkt" ->
         /\ Len(got.b) = Len(v.b) /\ Len(got.p) = Len(v.p)
         /\ \A i \in 1..Len(v.b) : SameBlock(v.b[i], got.b[i], BlockLoose(v.b[i], BlockAt(v, i), first, last))
         /\ v.p # <<>> => SamePl(v.p[1], got.p[1], PlLoose(v.p[1], PlAt(v), first, last))
    [] class = "blk" -> SameBlock(v, got, BlockLoose(v, 1, first, last))
    [] class = "pl"  -> SamePl(v, got, PlLoose(v, 1, first, last))
    [] class = "hdr" -> got = v
DmgOK(e) ==
  /\ e.tried > 0
  /\ e.tried = e.errs + Len(e.oks)
  /\ \A i \in 1..Len(e.oks) :
       LET o == e.oks[i] IN
       /\ o.k = "ok"
       /\ Harmless(e.cls, e.v, o.v, o.first, o.last)

-----------------------------------------------------------------------------
(* P04: every cut c of an item of e.len bytes, placed at e.start *)
PreOK(e) ==
  /\ Len(e.cuts) = e.len
  /\ \A c \in 0..(e.len - 1) :
       LET o == e.cuts[c + 1] IN
       /\ o.k = "more"
       /\ o.n >= 1
       /\ o.n <= e.len - c
       /\ o.pos = e.start
(* a caller supplies exactly what is asked for until the item is complete  *)
GrowOK(e) ==
  /\ \A i \in 1..Len(e.steps) :
       LET st == e.steps[i] IN
       IF st.have < e.len
       THEN /\ st.k = "more"
            /\ i < Len(e.steps)
            /\ e.steps[i + 1].have = st.have + st.n
            /\ st.n >= 1
            /\ st.pos = e.start
       ELSE st.have = e.len /\ st.k = "ok" /\ st.v = e.v /\ i = Len(e.steps)
(* a rejected item leaves a seekable input where it was *)
RejOK(e) == \A i \in 1..Len(e.outs) : e.outs[i].k \in {"err", "more"} => e.outs[i].pos = e.start

-----------------------------------------------------------------------------
(* P18 *)
LimOK(e) ==
  IF e.n <= MaxBlocks
  THEN e.o.k = "ok" /\ e.o.n = e.n /\ e.o.same
  ELSE e.o.k = "err" /\ e.o.e = "MaxBlocksCount"
LimStreamOK(e) ==   \* before, the packet in question, after
  IF e.n <= MaxBlocks
  THEN e.o = << "before", "it", "after" >>
  ELSE e.o = << "before", "MaxBlocksCount", "after" >>

-----------------------------------------------------------------------------
EventOK(e) ==
  CASE e.ev = "rt"     -> RtOK(e)
    [] e.ev = "srt"    -> StreamRtOK(e)
    [] e.ev = "enc"    -> EncOK(e)
    [] e.ev = "layout" -> LayoutOK(e)
    [] e.ev = "dmg"    -> DmgOK(e)
    [] e.ev = "pre"    -> PreOK(e)
    [] e.ev = "grow"   -> GrowOK(e)
    [] e.ev = "rej"    -> RejOK(e)
    [] e.ev = "lim"    -> LimOK(e)
    [] e.ev = "limstream" -> LimStreamOK(e)

Conforms == EventOK(Trace[l])
=============================================================================
