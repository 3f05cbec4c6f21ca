----------------------------- MODULE RulesModel -----------------------------
(***************************************************************************)
(* All histories of adding and removing rules, with a packet of any        *)
(* character handled at any time; also the generator of these histories    *)
(* for the replay.                                                         *)
(***************************************************************************)
EXTENDS Rules, TLC, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES active, hist, added
vars == << active, hist, added >>
Init == active = None /\ hist = <<>> /\ added = [k \in Kinds |-> {}]
Id == Len(hist) + 1
Add(k) == /\ active' = Added(active, k, Id)
          /\ added' = [added EXCEPT ![k] = @ \cup {Id}]
          /\ hist' = Append(hist, [op |-> "add", kind |-> k])
Rem(k) == /\ active' = Removed(active, k)
          /\ hist' = Append(hist, [op |-> "rem", kind |-> k])
          /\ UNCHANGED added
Next == Len(hist) < MaxOps /\ \E k \in Kinds : Add(k) \/ Rem(k)
Spec == Init /\ [][Next]_vars

\* the rule in force is the first one added since the last removal
Since(k) == {i \in 1..Len(hist) : hist[i].kind = k /\ hist[i].op = "add"
                                  /\ \A j \in i..Len(hist) : hist[j].kind = k => hist[j].op = "add"}
InForce == \A k \in Kinds : active[k] = (IF Since(k) = {} THEN 0 ELSE CHOOSE i \in Since(k) : \A j \in Since(k) : i <= j)
\* delivered iff every rule in force (that applies) accepts; never asked before the earlier ones accepted
Delivers == \A has \in BOOLEAN, b \in BOOLEAN, p \in BOOLEAN, f \in BOOLEAN :
  LET ok(k) == CASE k = "blocks" -> b [] k = "payload" -> p [] OTHER -> f
      r == Ask(active, has, ok)
  IN /\ r.out <=> /\ (active["blocks"] = 0 \/ b)
                  /\ (active["payload"] = 0 \/ ~has \/ p)
                  /\ (active["packet"] = 0 \/ f)
     /\ r.out => r.decoded
     /\ (active["blocks"] # 0 /\ ~b) => r.asked = << "blocks" >> /\ ~r.decoded
Emit == hist = <<>> \/ PrintT("@@" \o ToJson(hist))
=============================================================================
