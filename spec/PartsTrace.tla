----------------------------- MODULE PartsTrace -----------------------------
(* Judges recorded answers of the parts of the library (module Parts).      *)
EXTENDS Parts, Json, IOUtils

Data  == JsonDeserialize(IOEnv.TRACE_FILE)
Watch == { Data.watch[i] : i \in 1 .. Len(Data.watch) }
Traces == Data.traces

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>

RECURSIVE RunTrace(_, _)
RunTrace(tr, k) ==
    IF k > Len(tr.steps) THEN [at |-> k, verdict |-> "ok"]
    ELSE LET s == tr.steps[k]
             a == TLCEval(Wrong(s))
         IN IF a # {} /\ ~PrintT(<<"REJECT", tr.id, k, s.op, a>>) THEN [at |-> k, verdict |-> "violation"]
            ELSE IF a \cap Watch # {} THEN [at |-> k, verdict |-> "violation"]
            ELSE RunTrace(tr, k + 1)

Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ verdict = "new"
Next == /\ verdict = "new"
        /\ LET r == TLCEval(RunTrace(Traces[tid], 1)) IN l' = r.at /\ verdict' = r.verdict
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
NoViolation == verdict # "violation"
=============================================================================
