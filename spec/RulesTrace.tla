----------------------------- MODULE RulesTrace -----------------------------
(***************************************************************************)
(* Recorded sessions of readers with rules: adding, removing and batches   *)
(* of packets.  The rules installed by the harness answer from what they   *)
(* are shown: bits of the tag of a BkT block, or of the first byte of the  *)
(* payload.                                                                *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils
R == INSTANCE Rules
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLE l
N == Len(Trace)
Init == l \in {i \in 1..Chains : i <= N}
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

Bit(n, b) == (n \div b) % 2 = 1
Tags(v) == {v.b[i].f[2][1] : i \in {i \in 1..Len(v.b) : v.b[i].t = "BkT"}}
Tag(v) == IF Tags(v) = {} THEN 255 ELSE CHOOSE t \in Tags(v) : TRUE
Raw(v) == PlBody(v.p[1])
Answer(v, k) == CASE k = "blocks"  -> Bit(Tag(v), 1)
                  [] k = "payload" -> Raw(v) = <<>> \/ Bit(Raw(v)[1], 2)
                  [] k = "packet"  -> Bit(Tag(v), 4)
Shown(v, k) == CASE k = "blocks" -> v.b [] k = "payload" -> Raw(v) [] k = "packet" -> v
Handled(active, v) == R!Ask(active, v.p # <<>>, LAMBDA k : Answer(v, k))
Calls(active, v) == LET h == Handled(active, v) IN
  [i \in 1..Len(h.asked) |-> [kind |-> h.asked[i], id |-> active[h.asked[i]], arg |-> Shown(v, h.asked[i])]]
\* asking again about the same is of no interest
Dedup(s) == LET keep == {i \in 1..Len(s) : i = 1 \/ s[i] # s[i - 1]}
            IN [j \in 1..Cardinality(keep) |-> s[CHOOSE i \in keep : Cardinality({m \in keep : m <= i}) = j]]
BatchOK(active, e) ==
  LET hs == [i \in 1..Len(e.pk) |-> Handled(active, e.pk[i])]
      out == SelectSeq([i \in 1..Len(e.pk) |-> i], LAMBDA i : hs[i].out)
      undecoded == {i \in 1..Len(e.pk) : ~hs[i].decoded}
  IN /\ ~e.bad
     /\ e.got = [i \in 1..Len(out) |-> e.pk[out[i]]]
     /\ Dedup(e.calls) = Dedup(Flat([i \in 1..Len(e.pk) |-> Calls(active, e.pk[i])]))
     \* payloads of packets rejected early are not decoded
     /\ \A i \in undecoded : e.pk[i].p # <<>> /\ e.pk[i].p[1].t = "PlC" => \A j \in 1..Len(e.dec) : e.dec[j] # Raw(e.pk[i])
     /\ IF active["ignored"] = 0 THEN e.ig = <<>>
        ELSE IF e.foreign = <<>> THEN e.ig = <<>> ELSE e.ig = << [id |-> active["ignored"], b |-> e.foreign] >>
\* fold over the session; {} means: not allowed
Step(active, e) ==
  CASE e.op = "add" -> IF (e.r = "ok") = R!CanAdd(active, e.kind) /\ e.r \in {"ok", "dup"}
                       THEN {R!Added(active, e.kind, e.id)} ELSE {}
    [] e.op = "rem" -> {R!Removed(active, e.kind)}
    [] e.op = "batch" -> IF BatchOK(active, e) THEN {active} ELSE {}
    [] OTHER -> {}
Conforms == FoldLeft(LAMBDA st, e : UNION {Step(a, e) : a \in st}, {R!None}, Trace[l].o) # {}
=============================================================================
