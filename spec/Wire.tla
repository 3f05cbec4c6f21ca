-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format of brec: what a packet, a block, a payload, a packet    *)
(* header, a payload header and a slot table look like as bytes, written   *)
(* from the documentation (README, site/docs/specification.md) and not     *)
(* from the code that implements it.                                       *)
(*                                                                         *)
(* Bytes are numbers 0..255 in sequences.  Integers of a message are       *)
(* sequences of 16-bit limbs, least significant first (TLC's integers have *)
(* 32 bits); one-byte values are <<v>>, blobs and strings are bytes.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

Zeros(n) == [i \in 1..n |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
SumSeq(ns) == FoldLeft(LAMBDA acc, n : acc + n, 0, ns)

-----------------------------------------------------------------------------
(* CRC-32 (IEEE), on two 16-bit halves *)
Shr1(c) == << c[1] \div 2, (c[2] \div 2) + (c[1] % 2) * 32768 >>
Step1(c) == IF c[2] % 2 = 1
            THEN LET s == Shr1(c) IN << s[1] ^^ 60856, s[2] ^^ 33568 >>
            ELSE Shr1(c)
CrcTable == [b \in 0..255 |->
               LET c1 == Step1(<<0, b>>) c2 == Step1(c1) c3 == Step1(c2) c4 == Step1(c3)
                   c5 == Step1(c4) c6 == Step1(c5) c7 == Step1(c6)
               IN Step1(c7)]
CrcUpd(c, b) == LET t == CrcTable[(c[2] % 256) ^^ b]
                    s == << c[1] \div 256, (c[2] \div 256) + (c[1] % 256) * 256 >>
                IN << s[1] ^^ t[1], s[2] ^^ t[2] >>
Crc(bytes) ==  \* four bytes, little endian
  LET c == FoldLeft(CrcUpd, <<65535, 65535>>, bytes)
      h == 65535 - c[1]
      l == 65535 - c[2]
  IN << l % 256, l \div 256, h % 256, h \div 256 >>

-----------------------------------------------------------------------------
(* little-endian numbers *)
LimbBytes(limbs) == Flat([i \in 1..Len(limbs) |-> << limbs[i] % 256, limbs[i] \div 256 >>])
BytesLimbs(bs) == [i \in 1..(Len(bs) \div 2) |-> bs[2 * i - 1] + 256 * bs[2 * i]]
NatLimbs(n, k) == [i \in 1..k |-> IF i = 1 THEN n % 65536 ELSE IF i = 2 THEN n \div 65536 ELSE 0]
LE(n, bytes) == LimbBytes(NatLimbs(n, bytes \div 2))
Huge == 1073741824
LimbsNat(ls) ==    \* the number, or Huge if it is not below 2^30
  IF (\E i \in 3..Len(ls) : ls[i] # 0) \/ (Len(ls) >= 2 /\ ls[2] >= 16384)
  THEN Huge
  ELSE ls[1] + (IF Len(ls) >= 2 THEN 65536 * ls[2] ELSE 0)
NatAt(B, s, w) == LimbsNat(BytesLimbs(SubSeq(B, s, s + w - 1)))

-----------------------------------------------------------------------------
(* text as bytes, for the derivation of signatures from declarations *)
Chars == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz[];:<>"
CharCode(i) == CASE i \in 1..10  -> 47 + i
                 [] i \in 11..36 -> 54 + i
                 [] i = 37       -> 95
                 [] i \in 38..63 -> 59 + i
                 [] i = 64 -> 91 [] i = 65 -> 93 [] i = 66 -> 59 [] i = 67 -> 58
                 [] i = 68 -> 60 [] i = 69 -> 62
CodeOf == [c \in {SubSeq(Chars, i, i) : i \in 1..Len(Chars)} |->
             CharCode(CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c)]
Text(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

-----------------------------------------------------------------------------
(* declared blocks: field name, type as written, kind and width in bytes *)
F(n, t, k, w) == [n |-> n, t |-> t, k |-> k, w |-> w]
Schema == [
  BkU |-> << F("a","u8","byte",1), F("b","u16","num",2), F("c","u32","num",4), F("d","u64","num",8), F("e","u128","num",16) >>,
  BkI |-> << F("a","i8","byte",1), F("b","i16","num",2), F("c","i32","num",4), F("d","i64","num",8), F("e","i128","num",16) >>,
  BkF |-> << F("x","f32","num",4), F("y","f64","num",8), F("p","bool","bool",1), F("q","bool","bool",1) >>,
  BkM |-> << F("head","[u8;5]","blob",5), F("tag","u32","num",4), F("mid","[u8;3]","blob",3), F("tail","[u8;9]","blob",9),
             F("kind","Kind","enum",1), F("fin","u16","num",2) >>,
  BkN |-> << F("v","u32","num",4), F("w","[u8;2]","blob",2) >>,
  BkT |-> << F("id","u32","num",4), F("tag","u8","byte",1) >> ]
BlockTypes == DOMAIN Schema
NoCrcBlocks == {"BkN"}
EnumMax == 2

SchemaText(t) ==
  LET fs == Schema[t]
      one(i) == ";" \o fs[i].n \o ":" \o fs[i].t
      RECURSIVE all(_)
      all(i) == IF i > Len(fs) THEN "" ELSE one(i) \o all(i + 1)
  IN t \o ";__sig:[u8;4]" \o all(1) \o ";__crc:[u8;4]"
BlockSig == [t \in BlockTypes |-> Crc(Text(SchemaText(t)))]
BodyWidth == [t \in BlockTypes |-> SumSeq([i \in 1..Len(Schema[t]) |-> Schema[t][i].w])]
BlockWidth == [t \in BlockTypes |-> 4 + BodyWidth[t] + 4]

FieldBytes(f, v) == IF f.k = "num" THEN LimbBytes(v) ELSE v
BlockBody(b) == Flat([i \in 1..Len(b.f) |-> FieldBytes(Schema[b.t][i], b.f[i])])
BlockCrc(t, body) == IF t \in NoCrcBlocks THEN Zeros(4) ELSE Crc(body)
EncBlock(b) == LET body == BlockBody(b) IN BlockSig[b.t] \o body \o BlockCrc(b.t, body)

-----------------------------------------------------------------------------
(* payloads *)
PayloadTypes == {"Bytes", "String", "PlB", "PlN", "PlC"}
NoCrcPayloads == {"PlN"}
PlSig == [t \in PayloadTypes |->
            CASE t = "Bytes"  -> Crc(Text("Vec<u8>"))
              [] t = "String" -> Crc(Text("String"))
              [] t = "PlC"    -> << 1, 2, 3, 4, 5, 6, 7, 8 >>
              [] OTHER        -> Crc(Text(t))]
Prefixed(bs) == LE(Len(bs), 8) \o bs
PlBody(p) == CASE p.t = "PlB" -> LimbBytes(p.f[1]) \o Prefixed(p.f[2]) \o Prefixed(p.f[3])
               [] p.t = "PlN" -> LimbBytes(p.f[1]) \o Prefixed(p.f[2])
               [] OTHER       -> p.f[1]
PlCrc(t, body) == CASE t = "PlN" -> Zeros(4)
                    [] t = "PlC" -> Crc(body) \o LE(Len(body), 4)
                    [] OTHER     -> Crc(body)
EncPlHdrOf(sig, crc, len) == << Len(sig) >> \o sig \o << Len(crc) >> \o crc \o len
EncPayload(p) == LET body == PlBody(p)
                 IN EncPlHdrOf(PlSig[p.t], PlCrc(p.t, body), LE(Len(body), 4)) \o body
PlHdrOf(p) == LET body == PlBody(p)
              IN [sig |-> PlSig[p.t], crc |-> PlCrc(p.t, body), len |-> NatLimbs(Len(body), 2)]
EncPlHdr(h) == EncPlHdrOf(h.sig, h.crc, LimbBytes(h.len))

-----------------------------------------------------------------------------
(* packets *)
PktSig == << 236, 37, 94, 136, 236, 37, 94, 136 >>
HdrLen == 29
MaxBlocks == 255
EncHdr(h) == LET rest == LimbBytes(h.size) \o LimbBytes(h.bl) \o << h.pl >>
             IN PktSig \o rest \o Crc(rest)
EncBlocks(p) == Flat([i \in 1..Len(p.b) |-> EncBlock(p.b[i])])
EncPl(p) == IF p.p = <<>> THEN <<>> ELSE EncPayload(p.p[1])
HdrOf(p) == LET bl == Len(EncBlocks(p))
            IN [size |-> NatLimbs(bl + Len(EncPl(p)), 4), bl |-> NatLimbs(bl, 4),
                pl |-> IF p.p = <<>> THEN 0 ELSE 1]
EncPacket(p) == LET bs == EncBlocks(p)
                    pl == EncPl(p)
                    h == [size |-> NatLimbs(Len(bs) + Len(pl), 4), bl |-> NatLimbs(Len(bs), 4),
                          pl |-> IF p.p = <<>> THEN 0 ELSE 1]
                IN EncHdr(h) \o bs \o pl

Enc(class, v) == CASE class = "pkt"   -> EncPacket(v)
                   [] class = "blk"   -> EncBlock(v)
                   [] class = "pl"    -> EncPayload(v)
                   [] class = "hdr"   -> EncHdr(v)
                   [] class = "plhdr" -> EncPlHdr(v)

-----------------------------------------------------------------------------
(* storage *)
SlotSig == << 166, 177, 188, 199, 199, 188, 177, 166 >>
EncSlot(cap, lens) ==   \* lens: the lengths in use
  LET rest == LE(cap, 8) \o Flat([i \in 1..cap |-> IF i <= Len(lens) THEN LE(lens[i], 8) ELSE Zeros(8)])
  IN SlotSig \o rest \o Crc(rest)
SlotLen(cap) == 8 + 8 + 8 * cap + 4

-----------------------------------------------------------------------------
(* Reading.  The answer about the bytes B[s..] is a record:                *)
(*   [k |-> "ok", v |-> value, n |-> bytes used]                           *)
(*   [k |-> "more", n |-> how many bytes are known to be missing]          *)
(*   [k |-> "err"]                                                         *)
Ok(v, n) == [k |-> "ok", v |-> v, n |-> n]
More(n)  == [k |-> "more", n |-> n]
Bad      == [k |-> "err"]
Cut(B, s, n) == SubSeq(B, s, s + n - 1)
Left(B, s) == Len(B) - s + 1

DecField(f, bs) == CASE f.k = "num"  -> BytesLimbs(bs)
                     [] f.k = "bool" -> << IF bs[1] = 0 THEN 0 ELSE 1 >>
                     [] OTHER        -> bs
DecBlock(B, s) ==
  IF Left(B, s) < 4 THEN More(4 - Left(B, s))
  ELSE LET sig == Cut(B, s, 4)
           ts  == {t \in BlockTypes : BlockSig[t] = sig}
       IN IF ts = {} THEN Bad
          ELSE LET t == CHOOSE t \in ts : TRUE IN
               IF Left(B, s) < BlockWidth[t] THEN More(BlockWidth[t] - Left(B, s))
               ELSE LET body == Cut(B, s + 4, BodyWidth[t])
                        fs == Schema[t]
                        at == [i \in 1..Len(fs) |-> SumSeq([j \in 1..(i - 1) |-> fs[j].w])]
                        raw == [i \in 1..Len(fs) |-> Cut(body, 1 + at[i], fs[i].w)]
                        crcok == t \in NoCrcBlocks \/ Cut(B, s + 4 + BodyWidth[t], 4) = Crc(body)
                        enumok == \A i \in 1..Len(fs) : fs[i].k = "enum" => raw[i][1] <= EnumMax
                    IN IF crcok /\ enumok
                       THEN Ok([t |-> t, f |-> [i \in 1..Len(fs) |-> DecField(fs[i], raw[i])]], BlockWidth[t])
                       ELSE Bad

ByteBlockLens == {4, 8, 16, 32, 64, 128}
DecPlHdr(B, s) ==
  IF Left(B, s) < 1 THEN More(1)
  ELSE LET sl == B[s] IN
    IF sl \notin ByteBlockLens THEN Bad
    ELSE IF Left(B, s) < 1 + sl + 1 THEN More(1 + sl + 1 - Left(B, s))
    ELSE LET cl == B[s + 1 + sl] IN
      IF cl \notin ByteBlockLens THEN Bad
      ELSE IF Left(B, s) < 2 + sl + cl + 4 THEN More(2 + sl + cl + 4 - Left(B, s))
      ELSE Ok([sig |-> Cut(B, s + 1, sl), crc |-> Cut(B, s + 2 + sl, cl),
               len |-> BytesLimbs(Cut(B, s + 2 + sl + cl, 4))], 2 + sl + cl + 4)

\* a length-prefixed piece of a payload body
DecPrefixed(B, s) == IF Left(B, s) < 8 THEN Bad
                     ELSE LET n == NatAt(B, s, 8)
                          IN IF n > Left(B, s) - 8 THEN Bad ELSE Ok(Cut(B, s + 8, n), 8 + n)
DecPlBody(t, body) ==
  CASE t = "PlB" -> IF Len(body) < 4 THEN Bad
                    ELSE LET a == DecPrefixed(body, 5) IN
                         IF a.k # "ok" THEN Bad
                         ELSE LET b == DecPrefixed(body, 5 + a.n) IN
                              IF b.k # "ok" THEN Bad
                              ELSE Ok([t |-> t, f |-> << BytesLimbs(Cut(body, 1, 4)), a.v, b.v >>], 0)
    [] t = "PlN" -> IF Len(body) < 4 THEN Bad
                    ELSE LET a == DecPrefixed(body, 5) IN
                         IF a.k # "ok" THEN Bad ELSE Ok([t |-> t, f |-> << BytesLimbs(Cut(body, 1, 4)), a.v >>], 0)
    [] OTHER     -> Ok([t |-> t, f |-> << body >>], 0)
DecPayload(B, s) ==
  LET h == DecPlHdr(B, s) IN
  IF h.k # "ok" THEN h
  ELSE LET ts == {t \in PayloadTypes : PlSig[t] = h.v.sig}
           n == LimbsNat(h.v.len)
       IN IF ts = {} THEN Bad
          ELSE LET t == CHOOSE t \in ts : TRUE IN
               IF Left(B, s) - h.n < n THEN More(n - (Left(B, s) - h.n))
               ELSE LET d == DecPlBody(t, Cut(B, s + h.n, n)) IN
                    IF d.k # "ok" THEN Bad
                    ELSE IF PlCrc(t, PlBody(d.v)) # h.v.crc THEN Bad ELSE Ok(d.v, h.n + n)

DecHdr(B, s) ==
  IF Left(B, s) < HdrLen THEN More(HdrLen - Left(B, s))
  ELSE IF Cut(B, s, 8) # PktSig THEN Bad
  ELSE LET size == BytesLimbs(Cut(B, s + 8, 8))
           bl   == BytesLimbs(Cut(B, s + 16, 8))
           pl   == IF B[s + 24] = 1 THEN 1 ELSE 0
       IN IF Crc(LimbBytes(size) \o LimbBytes(bl) \o << pl >>) # Cut(B, s + 25, 4) THEN Bad
          ELSE Ok([size |-> size, bl |-> bl, pl |-> pl], HdrLen)

\* the blocks in B[s..e], exactly
RECURSIVE DecBlocks(_, _, _, _)
DecBlocks(B, s, e, acc) ==
  IF s = e + 1 THEN Ok(acc, 0)
  ELSE IF Len(acc) = MaxBlocks THEN Bad
  ELSE LET b == DecBlock(B, s) IN
       IF b.k # "ok" \/ s + b.n > e + 1 THEN Bad ELSE DecBlocks(B, s + b.n, e, Append(acc, b.v))
DecPacket(B, s) ==
  LET h == DecHdr(B, s) IN
  IF h.k # "ok" THEN h
  ELSE LET size == LimbsNat(h.v.size)
           bl == LimbsNat(h.v.bl)
       IN IF Left(B, s) - HdrLen < size THEN More(size - (Left(B, s) - HdrLen))
          ELSE IF bl > size THEN Bad
          ELSE LET P == Cut(B, s + HdrLen, size)
                   bs == DecBlocks(P, 1, bl, <<>>)
               IN IF bs.k # "ok" THEN Bad
                  ELSE IF h.v.pl = 0 THEN Ok([b |-> bs.v, p |-> <<>>], HdrLen + size)
                  ELSE LET p == DecPayload(P, bl + 1) IN
                       IF p.k # "ok" THEN Bad ELSE Ok([b |-> bs.v, p |-> << p.v >>], HdrLen + size)

Dec(class, B, s) == CASE class = "pkt"   -> DecPacket(B, s)
                      [] class = "blk"   -> DecBlock(B, s)
                      [] class = "pl"    -> DecPayload(B, s)
                      [] class = "hdr"   -> DecHdr(B, s)
                      [] class = "plhdr" -> DecPlHdr(B, s)
=============================================================================
