----------------------------- MODULE ShortWrite -----------------------------
(***************************************************************************)
(* Writing to an output that accepts as much as it likes per call.         *)
(* A complete write offers the remaining pieces again and again until      *)
(* everything is accepted, the output fails, or it accepts nothing.        *)
(* The output's behaviour is the sequence plan; the states in which no     *)
(* write has begun are also the generator of outputs for the replay.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
MaxPlan == atoi(IOEnv.MAXPLAN)
Answers == {"1", "2", "5", "0", "i", "f", "a"}   \* bytes accepted; i: interrupted, f: fails, a: accepts everything
Shapes == { << 3, 2 >>, << 4, 0, 3 >>, << 1, 1, 1 >>, << 0, 6 >>, << 7 >> }
VARIABLES plan, cycle, pieces, at, written, got, st
vars == << plan, cycle, pieces, at, written, got, st >>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Total == Sum(pieces)
Init == /\ plan = <<>> /\ cycle \in BOOLEAN /\ pieces \in Shapes
        /\ at = 0 /\ written = 0 /\ got = <<>> /\ st = "plan"
Plan == /\ st = "plan" /\ Len(plan) < MaxPlan
        /\ \E a \in Answers : plan' = Append(plan, a)
        /\ UNCHANGED << cycle, pieces, at, written, got, st >>
Start == /\ st = "plan" /\ plan # <<>> /\ st' = "writing"
         /\ UNCHANGED << plan, cycle, pieces, at, written, got >>
Answer == IF at < Len(plan) THEN plan[at + 1] ELSE IF cycle THEN plan[(at % Len(plan)) + 1] ELSE "a"
\* the bytes offered: of each piece what is not written yet (bytes are numbered 1..Total)
Begin(i) == Sum(SubSeq(pieces, 1, i - 1))
Rest(i) == LET b == Begin(i) e == b + pieces[i] IN
           IF written >= e THEN <<>> ELSE [j \in 1..(e - (IF written > b THEN written ELSE b)) |-> (IF written > b THEN written ELSE b) + j]
RECURSIVE Offer(_)
Offer(i) == IF i > Len(pieces) THEN <<>> ELSE Rest(i) \o Offer(i + 1)
Num(a, n) == LET k == CASE a = "1" -> 1 [] a = "2" -> 2 [] a = "5" -> 5 [] a = "0" -> 0 [] OTHER -> n IN IF k < n THEN k ELSE n
Write == /\ st = "writing"
         /\ UNCHANGED << plan, cycle, pieces >>
         /\ IF Offer(1) = <<>> THEN st' = "ok" /\ UNCHANGED << at, written, got >>
            ELSE LET a == Answer o == Offer(1) IN
                 IF a \in {"i", "f"} THEN st' = "err" /\ at' = at + 1 /\ UNCHANGED << written, got >>
                 ELSE LET n == Num(a, Len(o)) IN
                      /\ at' = at + 1
                      /\ written' = written + n
                      /\ got' = got \o SubSeq(o, 1, n)
                      /\ st' = IF n = 0 THEN "err" ELSE "writing"
Next == Plan \/ Start \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Start)
Prefix == got = [i \in 1..Len(got) |-> i]
Complete == st = "ok" => Len(got) = Total
Stops == (st = "writing") ~> (st \in {"ok", "err"})
Emit == st # "writing" \/ at # 0 \/ pieces # << 7 >> \/ PrintT("@@" \o ToJson([plan |-> plan, cycle |-> cycle]))
=============================================================================
