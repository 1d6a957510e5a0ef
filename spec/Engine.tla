------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The fuzzy engine as a state machine.                                    *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   ins    : sequence of [name, en, lock, lo, hi, val, terms]             *)
(*   outs   : sequence of [name, en, lock, lo, hi, val, prev, def, lockp,  *)
(*                         agg, df, terms, fz]                             *)
(*   blocks : sequence of [name, en, conj, disj, impl, act, rules]         *)
(*   rules  : sequence of [toks, en, w, loaded, ante, cons, deg, trig]     *)
(*   lits   : numeric literals (token -> number)                           *)
(*   carry  : do hedges carry over between conclusions (see AddConclusions)*)
(* act = [k, n, th, cmp]; df = [k, res, type]; absent operators are "none".*)
(*                                                                         *)
(* Each public operation is one operator from a state to its successor(s). *)
(***************************************************************************)
EXTENDS Fuzzy, RuleSyntax

VocOf(st) == TLCEval([ ins |-> [i \in 1 .. Len(st.ins) |->
                 [name |-> st.ins[i].name,
                  terms |-> [t \in 1 .. Len(st.ins[i].terms) |-> st.ins[i].terms[t].name]]],
               outs |-> [i \in 1 .. Len(st.outs) |->
                 [name |-> st.outs[i].name,
                  terms |-> [t \in 1 .. Len(st.outs[i].terms) |-> st.outs[i].terms[t].name]]],
               hedges |-> HedgeNames,
               nums |-> st.lits ])

EnvOf(st) == TLCEval([ ins |-> [i \in 1 .. Len(st.ins) |-> st.ins[i].val],
               vars |-> [n \in { st.ins[i].name : i \in 1 .. Len(st.ins) } \cup
                               { st.outs[i].name : i \in 1 .. Len(st.outs) } |->
                            LET o == IndexOf(st.outs, n, 1) IN
                            IF o > 0 THEN st.outs[o].val ELSE st.ins[IndexOf(st.ins, n, 1)].val],
               lits |-> st.lits ])

-----------------------------------------------------------------------------
(* values *)
Clamp(v, x) == IF v.lock THEN Bound(x, v.lo, v.hi) ELSE x

SetInput(st, i, x)  == [st EXCEPT !.ins[i].val = Clamp(st.ins[i], x)]
SetOutput(st, o, x) == [st EXCEPT !.outs[o].val = Clamp(st.outs[o], x)]

-----------------------------------------------------------------------------
(* rule activation degrees *)

\* one proposition, given the current state
PropDegree(st, p) ==
    LET var == IF p.v[1] = "in" THEN st.ins[p.v[2]] ELSE st.outs[p.v[2]] IN
    IF ~var.en THEN Zero
    ELSE IF p.hs # << >> /\ p.hs[Len(p.hs)] = "any"
    THEN ApplyHedges(p.hs, NaN)
    ELSE ApplyHedges(p.hs,
            IF p.v[1] = "in" THEN Membership(var.terms[p.term], var.val, EnvOf(st))
            ELSE DegreeOf(var.agg, var.fz, p.term, Zero))

\* the antecedent is kept in postfix order; evaluation with a stack
RECURSIVE AntDegree(_, _, _, _, _)
AntDegree(st, blk, items, i, stack) ==
    IF i > Len(items) THEN OkV(stack[1])
    ELSE LET it == items[i]  n == Len(stack) IN
        IF it.op = "prop" THEN AntDegree(st, blk, items, i + 1, Append(stack, PropDegree(st, it)))
        ELSE IF it.op = "and" /\ blk.conj = "none" THEN ErrV
        ELSE IF it.op = "or" /\ blk.disj = "none" THEN ErrV
        ELSE AntDegree(st, blk, items, i + 1,
                Append(SubSeq(stack, 1, n - 2),
                       IF it.op = "and" THEN TNorm(blk.conj, stack[n - 1], stack[n])
                       ELSE SNorm(blk.disj, stack[n - 1], stack[n])))

RuleDegree(st, blk, r) ==
    IF ~r.loaded THEN OkV(Zero)
    ELSE LET a == AntDegree(st, blk, r.ante, 1, << >>)
         IN IF a.e THEN ErrV ELSE OkV(Mul(r.w, a.v))

\* all the degrees that floating point may give where norms jump
RECURSIVE DegreeOfAll(_, _, _, _)
DegreeOfAll(agg, fz, t, accs) ==
    IF fz = << >> THEN accs
    ELSE DegreeOfAll(agg, Tail(fz), t,
            IF Head(fz).t # t THEN accs
            ELSE UNION { IF agg = "none" THEN {Add(a, Head(fz).d)} ELSE SNormAll(agg, a, Head(fz).d) : a \in accs })
PropDegreeAll(st, p) ==
    IF p.v[1] = "in" \/ ~st.outs[p.v[2]].en \/ (p.hs # << >> /\ p.hs[Len(p.hs)] = "any") THEN {PropDegree(st, p)}
    ELSE LET var == st.outs[p.v[2]]
         IN { ApplyHedges(p.hs, d) : d \in DegreeOfAll(var.agg, var.fz, p.term, {Zero}) }
RECURSIVE AntDegreeAll(_, _, _, _, _)
AntDegreeAll(st, blk, items, i, stack) ==
    IF i > Len(items) THEN stack[1]
    ELSE LET it == items[i]  n == Len(stack) IN
        IF it.op = "prop" THEN AntDegreeAll(st, blk, items, i + 1, Append(stack, PropDegreeAll(st, it)))
        ELSE AntDegreeAll(st, blk, items, i + 1,
                Append(SubSeq(stack, 1, n - 2),
                       UNION { IF it.op = "and" THEN TNormAll(blk.conj, ab[1], ab[2])
                               ELSE SNormAll(blk.disj, ab[1], ab[2]) : ab \in stack[n - 1] \X stack[n] }))
\* (only for rules whose degree does not raise)
RuleDegreeAll(st, blk, r) ==
    IF ~r.loaded THEN {Zero} ELSE { Mul(r.w, a) : a \in AntDegreeAll(st, blk, r.ante, 1, << >>) }

\* degrees of all rules of a block (unloaded rules: 0)
RawDegrees(st, blk) == Eager([i \in 1 .. Len(blk.rules) |-> RuleDegree(st, blk, blk.rules[i])])

-----------------------------------------------------------------------------
(* activation methods: which rules are selected, in which order             *)
LoadedIdx(blk) == { i \in 1 .. Len(blk.rules) : blk.rules[i].loaded }

\* degrees after the method's own adjustment (only Proportional changes them)
Adjusted(blk, ds) ==
    IF blk.act.k # "Proportional" THEN ds
    ELSE LET total == SumSeq([i \in 1 .. Len(ds) |-> IF i \in LoadedIdx(blk) THEN ds[i] ELSE Zero])
         IN Eager([i \in 1 .. Len(ds) |->
                IF i \notin LoadedIdx(blk) THEN ds[i]
                ELSE LET q == Div(ds[i], total) IN IF IsNaN(q) THEN Zero ELSE q])

CmpHolds(c, a, b) ==
    CASE c = "<"  -> Lt(a, b)
      [] c = "<=" -> FLe(a, b)
      [] c = "==" -> FEq(a, b)
      [] c = "!=" -> ~FEq(a, b)
      [] c = ">=" -> FGe(a, b)
      [] c = ">"  -> Gt(a, b)

RECURSIVE UpSeq(_)
UpSeq(S) == IF S = {} THEN << >> ELSE LET m == SetMin(S) IN << m >> \o UpSeq(S \ {m})
RECURSIVE DownSeq(_)
DownSeq(S) == IF S = {} THEN << >> ELSE LET m == SetMax(S) IN << m >> \o DownSeq(S \ {m})

FirstK(s, k) == IF k <= 0 THEN << >> ELSE SubSeq(s, 1, IMin(k, Len(s)))

\* all orders in which up to k rules of S can be taken best-first
RECURSIVE BestSeqs(_, _, _, _)
BestSeqs(S, ds, k, high) ==
    IF k <= 0 \/ S = {} THEN { << >> }
    ELSE LET best == { i \in S : \A j \in S : IF high THEN Ge(ds[i], ds[j]) ELSE Le(ds[i], ds[j]) }
         IN UNION { { << i >> \o s : s \in BestSeqs(S \ {i}, ds, k - 1, high) } : i \in best }

\* Two families of methods.  The eager ones decide rule by rule: a rule's degree
\* is computed after the rules before it have fired (it may read their
\* conclusions).  The deferred ones first compute all degrees.
EagerKinds    == {"General", "none", "First", "Last", "Threshold"}
DeferredKinds == {"Highest", "Lowest", "Proportional"}

\* is a rule of degree d selected by an eager method, c rules having been selected before?
EagerSelects(act, d, c) ==
    CASE act.k \in {"General", "none"} -> TRUE
      [] act.k \in {"First", "Last"} -> c < act.n /\ Gt(d, Zero) /\ FGe(d, act.th)
      [] act.k = "Threshold" -> CmpHolds(act.cmp, d, act.th)

\* the sets of rules a deferred method may select, in firing order
Selections(blk, ds) ==
    LET L == LoadedIdx(blk)
        pos == { i \in L : Gt(ds[i], Zero) }
    IN
    CASE blk.act.k = "Proportional" -> { UpSeq(L) }
      [] blk.act.k = "Highest" -> BestSeqs(pos, ds, blk.act.n, TRUE)
      [] blk.act.k = "Lowest"  -> BestSeqs(pos, ds, blk.act.n, FALSE)

\* a selected rule fires when it is enabled and its degree is positive
Fires(r, d) == r.en /\ Gt(d, Zero)
Firing(blk, ds, sel) == SelectSeq(sel, LAMBDA i : Fires(blk.rules[i], ds[i]))

-----------------------------------------------------------------------------
(* consequents: what a firing rule adds to each output's fuzzy value.       *)
(* Each conclusion should start from the rule's own degree.  The library    *)
(* deviates (known finding F-HEDGE): the hedges of a conclusion carry over  *)
(* to the conclusions after it.  A state says which with its field carry.   *)
RECURSIVE AddConclusions(_, _, _, _, _, _)
AddConclusions(outs, cons, i, d, impl, carry) ==
    IF i > Len(cons) THEN outs
    ELSE LET c == cons[i]  o == c.v[2]  h == ApplyHedges(c.hs, d) IN
         IF ~outs[o].en THEN AddConclusions(outs, cons, i + 1, d, impl, carry)
         ELSE AddConclusions(
                [outs EXCEPT ![o].fz = Append(@, [t |-> c.term, d |-> h, impl |-> impl])],
                cons, i + 1, IF carry THEN h ELSE d, impl, carry)

RECURSIVE FireAll(_, _, _, _, _)
FireAll(outs, blk, ds, seq, carry) ==
    IF seq = << >> THEN outs
    ELSE FireAll(AddConclusions(outs, blk.rules[Head(seq)].cons, 1, ds[Head(seq)], blk.impl, carry),
                 blk, ds, Tail(seq), carry)

(* One eager pass over block b.  An oracle may stand in for the degrees and  *)
(* firings computed here (trace checking: the observed ones, so that every   *)
(* step is judged on its own); asp collects where it differs.                *)
NoOracle == [use |-> FALSE]
DegClose(m, o) == Close(m, o)

RECURSIVE EagerRun(_, _, _, _, _, _, _)
EagerRun(st, b, order, k, c, orc, asp) ==
    IF k > Len(order) THEN [e |-> FALSE, st |-> st, asp |-> asp]
    ELSE
    LET i   == order[k]
        blk == st.blocks[b]
        r   == blk.rules[i]
        dg  == RuleDegree(st, blk, r)
    IN IF dg.e THEN [e |-> TRUE, st |-> st, asp |-> asp]
       ELSE
       LET d    == IF orc.use THEN orc.deg[i] ELSE dg.v
           sel  == r.loaded /\ EagerSelects(blk.act, d, c)
           must == sel /\ Fires(r, d)
           fire == IF orc.use THEN orc.trig[i] /\ r.loaded ELSE must
           a    == (IF orc.use /\ ~DegClose(dg.v, d) /\ ~\E x \in RuleDegreeAll(st, blk, r) : DegClose(x, d) THEN {"deg"} ELSE {})
                   \cup (IF orc.use /\ orc.trig[i] # must THEN {"trig"} ELSE {})
           st1  == [st EXCEPT !.blocks[b].rules[i].deg = d, !.blocks[b].rules[i].trig = fire]
           st2  == IF fire THEN [st1 EXCEPT !.outs = AddConclusions(@, r.cons, 1, d, blk.impl, st.carry)] ELSE st1
       IN EagerRun(st2, b, order, k + 1, IF sel THEN c + 1 ELSE c, orc, asp \cup a)

EagerOrder(blk) == LET all == 1 .. Len(blk.rules)
                   IN IF blk.act.k = "Last" THEN DownSeq(all) ELSE UpSeq(all)

\* deferred pass
MarkBlock(blk, ds, fs) ==
    [blk EXCEPT !.rules = [i \in 1 .. Len(blk.rules) |->
        [blk.rules[i] EXCEPT !.deg = ds[i],
                             !.trig = \E k \in 1 .. Len(fs) : fs[k] = i]]]

\* evaluation of block b: set of [e, st]
ActivateBlock(st, b) ==
    LET blk == st.blocks[b] IN
    IF blk.act.k \in EagerKinds
    THEN LET st0 == [st EXCEPT !.blocks[b].act.k = IF @ = "none" THEN "General" ELSE @]
             r == EagerRun(st0, b, EagerOrder(blk), 1, 0, NoOracle, {})
         IN { [e |-> r.e, st |-> r.st] }
    ELSE LET raw == RawDegrees(st, blk) IN
         IF \E i \in 1 .. Len(raw) : raw[i].e THEN { [e |-> TRUE, st |-> st] }
         ELSE LET ds == Adjusted(blk, [i \in 1 .. Len(raw) |-> raw[i].v])
              IN { LET fs == Firing(blk, ds, sel) IN
                   [e |-> FALSE,
                    st |-> [st EXCEPT !.outs = FireAll(st.outs, blk, ds, fs, st.carry),
                                      !.blocks[b] = MarkBlock(blk, ds, fs)]]
                   : sel \in Selections(blk, ds) }

-----------------------------------------------------------------------------
(* output values *)

\* commit a defuzzified number v: fall back, remember, clamp
Commit(out, v) ==
    LET v1 == IF out.lockp /\ IsNaN(v) THEN out.prev ELSE v
        v2 == IF IsNaN(v1) THEN out.def ELSE v1
    IN [out EXCEPT !.prev = out.val, !.val = Clamp(out, v2)]

\* set of [e, st]
DefuzzifyOut(st, o) ==
    LET out == st.outs[o] IN
    IF ~out.en THEN { [e |-> FALSE, st |-> st] }
    ELSE IF out.df.k = "none" THEN { [e |-> TRUE, st |-> st] }
    ELSE LET r == Defuzz(out.df, out.lo, out.hi, out.terms, out.agg, out.fz, EnvOf(st), TRUE)
         IN IF r.e THEN { [e |-> TRUE, st |-> st] }
            ELSE { [e |-> FALSE, st |-> [st EXCEPT !.outs[o] = Commit(out, v)]] : v \in r.vs }

-----------------------------------------------------------------------------
(* evaluation of the engine: outcomes are [e, st]; after a raise the outcome
   stops where it was raised *)
ClearFuzzy(st) == [st EXCEPT !.outs = [o \in 1 .. Len(st.outs) |-> [st.outs[o] EXCEPT !.fz = << >>]]]

RECURSIVE RunBlocks(_, _)
RunBlocks(S, b) ==            \* S: set of [e, st]
    IF S = {} \/ b > Len((CHOOSE s \in S : TRUE).st.blocks) THEN S
    ELSE RunBlocks(UNION { IF s.e \/ ~s.st.blocks[b].en THEN {s} ELSE ActivateBlock(s.st, b) : s \in S },
                   b + 1)
RECURSIVE RunOuts(_, _)
RunOuts(S, o) ==
    IF S = {} \/ o > Len((CHOOSE s \in S : TRUE).st.outs) THEN S
    ELSE RunOuts(UNION { IF s.e THEN {s} ELSE DefuzzifyOut(s.st, o) : s \in S }, o + 1)

Process(st) == RunOuts(RunBlocks({ [e |-> FALSE, st |-> ClearFuzzy(st)] }, 1), 1)

ClearOut(out) == [out EXCEPT !.fz = << >>, !.val = Clamp(out, NaN), !.prev = NaN]
Restart(st) == [st EXCEPT
    !.ins  = [i \in 1 .. Len(st.ins)  |-> [st.ins[i] EXCEPT !.val = Clamp(st.ins[i], NaN)]],
    !.outs = [o \in 1 .. Len(st.outs) |-> ClearOut(st.outs[o])]]

-----------------------------------------------------------------------------
(* rules: loading and unloading *)
UnloadR(r) == [r EXCEPT !.loaded = FALSE, !.ante = << >>, !.cons = << >>, !.deg = Zero, !.trig = FALSE]

LoadR(voc, r, toks) ==
    LET p == LoadRule(voc, toks)
        base == [r EXCEPT !.toks = toks, !.en = TRUE, !.deg = Zero, !.trig = FALSE]
    IN IF p.ok THEN [base EXCEPT !.loaded = TRUE, !.ante = p.ante, !.cons = p.cons, !.w = p.w]
       ELSE UnloadR(base)

NewRule(toks) == [toks |-> toks, en |-> TRUE, w |-> One, loaded |-> FALSE, ante |-> << >>,
                  cons |-> << >>, deg |-> Zero, trig |-> FALSE]

LoadBlock(voc, blk) == TLCEval([blk EXCEPT !.rules = [i \in 1 .. Len(blk.rules) |->
                            LoadR(voc, blk.rules[i], blk.rules[i].toks)]])
UnloadBlock(blk) == [blk EXCEPT !.rules = [i \in 1 .. Len(blk.rules) |-> UnloadR(blk.rules[i])]]
BlockLoads(blk) == \A i \in 1 .. Len(blk.rules) : blk.rules[i].loaded

InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o << x >> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* a copy is equal to its source, except that its rules start inactive *)
CopyOf(st) == [st EXCEPT !.blocks = [b \in 1 .. Len(st.blocks) |->
    [st.blocks[b] EXCEPT !.rules = [i \in 1 .. Len(st.blocks[b].rules) |->
        [st.blocks[b].rules[i] EXCEPT !.deg = Zero, !.trig = FALSE]]]]]

(* an engine put together from copies of the components of another: copies
   of rules are not loaded until they are loaded in the new engine           *)
Assembled(st, load, fuzzy) ==
    [st EXCEPT !.blocks = [b \in 1 .. Len(st.blocks) |->
                  IF load THEN LoadBlock(VocOf(st), st.blocks[b]) ELSE UnloadBlock(st.blocks[b])],
               !.outs = [o \in 1 .. Len(st.outs) |-> IF fuzzy THEN st.outs[o] ELSE [st.outs[o] EXCEPT !.fz = << >>]]]
AllLoad(st) == \A b \in 1 .. Len(st.blocks) : BlockLoads(st.blocks[b])
=============================================================================
