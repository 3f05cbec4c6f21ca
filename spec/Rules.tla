------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* Rules of a reader.  active[k] is the id of the rule of kind k in force  *)
(* (0: none).  Handling a packet means calling filters in the order        *)
(* blocks, payload, packet, as far as the earlier ones accept it.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Kinds == {"ignored", "blocks", "payload", "packet"}
None == [k \in Kinds |-> 0]
CanAdd(active, k) == active[k] = 0
Added(active, k, id) == IF CanAdd(active, k) THEN [active EXCEPT ![k] = id] ELSE active
Removed(active, k) == [active EXCEPT ![k] = 0]

(* v: a packet; ok(k): what the rule of kind k would answer about it;      *)
(* has: it has a payload.  The kinds asked, in order, and the verdict.     *)
Ask(active, has, ok(_)) ==
  LET b  == active["blocks"] # 0
      bo == ~b \/ ok("blocks")
      p  == bo /\ has /\ active["payload"] # 0
      po == bo /\ (~p \/ ok("payload"))
      f  == po /\ active["packet"] # 0
      fo == po /\ (~f \/ ok("packet"))
  IN [asked |-> (IF b THEN << "blocks" >> ELSE <<>>) \o (IF p THEN << "payload" >> ELSE <<>>)
                \o (IF f THEN << "packet" >> ELSE <<>>),
      decoded |-> po, out |-> fo]
=============================================================================
