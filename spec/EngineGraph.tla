---------------------------- MODULE EngineGraph ----------------------------
(***************************************************************************)
(* The state graph of small engines under a small alphabet of operations,  *)
(* explored exhaustively to a depth.  Every transition is printed as the   *)
(* history that leads to it; the harness replays those histories on the    *)
(* real library and checks what it recorded with module EngineTrace, so    *)
(* that every transition of the graph is exercised.  Meanwhile the         *)
(* properties that the specification itself promises are checked here.     *)
(***************************************************************************)
EXTENDS EngineOps, Json, IOUtils, TLC

Data  == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == Data.cases            \* [eng, pre, ops]: pre is done before exploring
Depth == Data.depth

VARIABLES k, st, hist
vars == <<k, st, hist>>
View == <<k, st, IF Len(hist) = Depth THEN 1 ELSE 0>>

\* successors of a state by one operation: set of [e, st]
Succ(s, op) == IF op.op = "process" THEN Process(s)
               ELSE LET f == Effect(s, op) IN { [e |-> f.e, st |-> f.st] }

\* does the rule that the operation addresses exist?
Possible(s, op) ==
    "r" \notin DOMAIN op \/ op.r <= Len(s.blocks[op.i].rules) + IF op.op = "insrule" THEN 1 ELSE 0

RECURSIVE Prepare(_, _, _)
Prepare(s, ops, i) == IF i > Len(ops) THEN s
                      ELSE Prepare((CHOOSE r \in Succ(s, ops[i]) : TRUE).st, ops, i + 1)

Init == /\ k \in 1 .. Len(Cases) /\ st = Prepare(Cases[k].eng, Cases[k].pre, 1) /\ hist = << >>

Next == /\ Len(hist) < Depth
        /\ \E i \in { j \in 1 .. Len(Cases[k].ops) : Possible(st, Cases[k].ops[j]) } :
              \E r \in Succ(st, Cases[k].ops[i]) :
                 /\ st' = r.st
                 /\ hist' = Append(hist, i)
                 /\ PrintT(<<"T", k, hist'>>)
        /\ k' = k
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the specification promises *)

\* a locked value is inside its range (or not a number)
InRange(v, x) == IsNaN(x) \/ (Ge(x, v.lo) /\ Le(x, v.hi))

\* a disabled output keeps its value and collects nothing; a disabled block and
\* its rules are left alone; evaluation changes neither inputs nor configuration
ProcessFrame ==
    \A r \in Process(st) :
        /\ r.st.ins = st.ins /\ r.st.lits = st.lits
        /\ \A o \in 1 .. Len(st.outs) :
              ~st.outs[o].en => /\ r.st.outs[o].val = st.outs[o].val
                                /\ r.st.outs[o].prev = st.outs[o].prev
                                /\ r.st.outs[o].fz = << >>
        /\ \A b \in 1 .. Len(st.blocks) :
              /\ ~st.blocks[b].en => r.st.blocks[b] = st.blocks[b]
              /\ \A i \in 1 .. Len(st.blocks[b].rules) :
                    /\ r.st.blocks[b].rules[i].en = st.blocks[b].rules[i].en
                    /\ r.st.blocks[b].rules[i].w = st.blocks[b].rules[i].w
                    /\ r.st.blocks[b].rules[i].loaded = st.blocks[b].rules[i].loaded

\* locked outputs are committed inside their range
ProcessLocks ==
    \A r \in Process(st) : ~r.e =>
        \A o \in 1 .. Len(st.outs) :
           (st.outs[o].en /\ st.outs[o].lock) => InRange(st.outs[o], r.st.outs[o].val)

\* a triggered rule is loaded, enabled and has a positive degree
TriggeredRules ==
    \A r \in Process(st) : ~r.e =>
        \A b \in 1 .. Len(st.blocks) : st.blocks[b].en =>
           \A i \in 1 .. Len(st.blocks[b].rules) :
              LET u == r.st.blocks[b].rules[i]
              IN u.trig => u.loaded /\ u.en /\ Gt(u.deg, Zero)

\* evaluation has no residue: leftovers of earlier evaluations (fuzzy outputs,
\* degrees, triggers) do not influence it
Strip(s) == [s EXCEPT
    !.outs = [o \in 1 .. Len(s.outs) |-> [s.outs[o] EXCEPT !.fz = << >>]],
    !.blocks = [b \in 1 .. Len(s.blocks) |-> [s.blocks[b] EXCEPT !.rules =
        [i \in 1 .. Len(s.blocks[b].rules) |-> [s.blocks[b].rules[i] EXCEPT !.deg = Zero, !.trig = FALSE]]]]]
\* (what a user sees of an outcome)
Seen(S) == { [e |-> r.e, outs |-> r.st.outs] : r \in S }
NoResidue == Seen(Process(st)) = Seen(Process(Strip(st)))

\* restart is idempotent, forgets every value, and leaves the configuration alone
RestartForgets ==
    LET r == Restart(st) IN
    /\ Restart(r) = r
    /\ \A i \in 1 .. Len(r.ins) : IsNaN(r.ins[i].val)
    /\ \A o \in 1 .. Len(r.outs) : IsNaN(r.outs[o].val) /\ IsNaN(r.outs[o].prev) /\ r.outs[o].fz = << >>
    /\ r.blocks = st.blocks

\* a copy evaluates like its source
CopyAgrees == Seen(Process(CopyOf(st))) = Seen(Process(st))

\* loading decides exactly by the grammar, and a rule that did not load is inert
LoadDecides ==
    \A b \in 1 .. Len(st.blocks) : \A i \in 1 .. Len(st.blocks[b].rules) :
        LET u == st.blocks[b].rules[i]  r == LoadR(VocOf(st), u, u.toks)
        IN /\ r.loaded = LoadRule(VocOf(st), u.toks).ok
           /\ ~r.loaded => r.ante = << >> /\ r.cons = << >>
           /\ UnloadR(UnloadR(u)) = UnloadR(u)

Promises == ProcessFrame /\ ProcessLocks /\ TriggeredRules /\ NoResidue /\ RestartForgets /\ CopyAgrees
            /\ LoadDecides
=============================================================================
