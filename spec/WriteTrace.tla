----------------------------- MODULE WriteTrace -----------------------------
(***************************************************************************)
(* Recorded writes of the real writers to outputs with a prescribed        *)
(* behaviour.  e.v: what is written (class e.cls); e.runs: for each output *)
(* and writer the bytes that arrived, how the call ended (n: what a single *)
(* write returned), and how often the output failed (fail), interrupted    *)
(* (intr) or accepted nothing (zero).                                      *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLE l
N == Len(Trace)
Init == l \in {i \in 1..Chains : i <= N}
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

IsPrefix2(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Blame(r) == r.fail + r.intr + r.zero > 0      \* the output failed or accepted nothing
RunOK(want, r) ==
  /\ r.k \in {"ok", "err"}
  /\ IsPrefix2(r.got, want)
  /\ r.k = "err" => Blame(r)
  /\ (r.all /\ r.fail > 0) => r.k = "err"
  /\ (r.all /\ r.k = "ok") => Len(r.got) = Len(want)
  /\ (~r.all /\ r.k = "ok") => r.n = Len(r.got)
WriteOK(e) == LET want == Enc(e.cls, e.v) IN \A i \in 1..Len(e.runs) : RunOK(want, e.runs[i])
Conforms == WriteOK(Trace[l])
=============================================================================
