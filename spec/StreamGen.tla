------------------------------ MODULE StreamGen ------------------------------
(***************************************************************************)
(* The scenarios for the stream reader: what follows what in the source,   *)
(* and how the source splits it.  Each reachable state is one scenario;    *)
(* the harness fills in the bytes.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json
MaxSegs == atoi(IOEnv.MAXSEGS)
Good    == {"hdr", "small", "mid", "full", "big", "nested"}
Foreign == {"lit1", "lit7", "lit", "biglit", "half", "sig7", "sigjunk", "sigshort", "sigsig"}
Broken  == {"badhdr", "badblk", "unkblk", "badpl", "unkpl", "blover", "over", "plover", "plhdr", "plcap", "rnddmg"}
Open    == {"cut"}                                  \* a packet the source never completes
Kinds   == Good \cup Foreign \cup Broken \cup Open
Large   == {"big", "biglit", "full", "over"}
Plans   == {"1", "2", "7", "8", "28", "29", "30", "64", "all", "rnd"}
Coarse  == {"64", "all", "rnd", "4096", "8192"}

VARIABLES segs, plan
vars == << segs, plan >>
Init == segs = <<>> /\ plan \in (IF IOEnv.PLANS = "any" THEN {"any"} ELSE Plans \cup Coarse)
Next == /\ Len(segs) < MaxSegs
        /\ (IF segs = <<>> THEN TRUE ELSE segs[Len(segs)] \notin Open)
        /\ \E k \in Kinds : segs' = Append(segs, k)
        /\ plan' = plan
Spec == Init /\ [][Next]_vars
HasLarge == \E i \in 1..Len(segs) : segs[i] \in Large
HasBroken == \E i \in 1..Len(segs) : segs[i] \in Broken
Sensible == plan = "any" \/ IF HasLarge THEN plan \in Coarse ELSE plan \in Plans
Emit == ~Sensible \/ segs = <<>> \/ PrintT("@@" \o ToJson([segs |-> segs, plan |-> plan, broken |-> HasBroken, large |-> HasLarge]))
=============================================================================
