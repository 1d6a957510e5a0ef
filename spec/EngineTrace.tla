---------------------------- MODULE EngineTrace ----------------------------
(***************************************************************************)
(* Trace checking for the engine: each recorded step is one operation of   *)
(* module Engine on one slot of a small world of engines, together with    *)
(* what the real library shows afterwards in every slot.  A step is        *)
(* accepted when the model, from the state reached so far, allows what was *)
(* observed.  The difference between the two is reported as a set of       *)
(* aspects, and the run alarms on the watched ones:                        *)
(*   set in load restart copy  the effect of that kind of operation        *)
(*   deg adj trig fz           stages of rule-block evaluation             *)
(*   ival wval mem             defuzzified and committed output values     *)
(*   err                       raised although it must not, or vice versa  *)
(*   frame                     state that the operation must not touch     *)
(*   iso                       engines of other slots, foreign references  *)
(*   dump text import roundtrip  texts (modules Config, Fll, ...)          *)
(*   compiled rscript          engines and tables as programs (Code)         *)
(*   ready type                what the configuration amounts to (Infer)   *)
(*   dataset prepare run errors results   tables of values (Dataset)       *)
(* After each stage the model continues from the observed state, so every  *)
(* stage is judged on its own.                                             *)
(***************************************************************************)
EXTENDS EngineOps, Fll, Fcl, Code, Infer, Dataset, Json, IOUtils

Data  == JsonDeserialize(IOEnv.TRACE_FILE)
Watch == { Data.watch[i] : i \in 1 .. Len(Data.watch) }
Traces == Data.traces

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>

None == [none |-> TRUE]
IsNone(x) == "none" \in DOMAIN x

-----------------------------------------------------------------------------
(* comparing and adopting observations *)

\* (a root of a degree that the arithmetic cannot tell from 0 or 1 is imprecise)
CloseDegree(a, b) == \/ Close(a, b)
                     \/ Gt(a, Zero) /\ Lt(a, <<1, 100>>) /\ Gt(b, Zero) /\ Lt(b, <<1, 100>>)
                     \/ Gt(a, <<99, 100>>) /\ Lt(a, One) /\ Gt(b, <<99, 100>>) /\ Lt(b, One)
SameEntry(m, o) == m.t = o.t /\ CloseDegree(m.d, o.d) /\ (o.impl = "?" \/ m.impl = o.impl)
RECURSIVE SameBag(_, _)
SameBag(ms, os) ==
    IF ms = << >> THEN os = << >>
    ELSE \E k \in 1 .. Len(os) : SameEntry(Head(ms), os[k]) /\ SameBag(Tail(ms), RemoveAt(os, k))

SameFz(ms, os) == Len(ms) = Len(os) /\ ((\A i \in 1 .. Len(ms) : SameEntry(ms[i], os[i])) \/ SameBag(ms, os))

\* observed entries with the implication the model knows of
AdoptFz(ms, os, impls) ==
    [i \in 1 .. Len(os) |->
        [t |-> os[i].t, d |-> os[i].d,
         impl |-> IF os[i].impl # "?" THEN os[i].impl
                  ELSE IF i <= Len(ms) THEN ms[i].impl ELSE impls]]

SameShape(st, ob) ==
    /\ Len(st.ins) = Len(ob.ins) /\ Len(st.outs) = Len(ob.outs) /\ Len(st.blocks) = Len(ob.blocks)
    /\ \A b \in 1 .. Len(st.blocks) : Len(st.blocks[b].rules) = Len(ob.blocks[b].rules)
    /\ \A i \in 1 .. Len(st.ins) : st.ins[i].name = ob.ins[i].nm
    /\ \A i \in 1 .. Len(st.outs) : st.outs[i].name = ob.outs[i].nm
    /\ \A i \in 1 .. Len(st.blocks) : st.blocks[i].name = ob.blocks[i].nm

SameInputs(st, ob) == \A i \in 1 .. Len(st.ins) : Close(st.ins[i].val, ob.ins[i].val)
SameOutputs(st, ob) == \A o \in 1 .. Len(st.outs) :
                          /\ Close(st.outs[o].val, ob.outs[o].val)
                          /\ Close(st.outs[o].prev, ob.outs[o].prev)
SameFuzzy(st, ob) == \A o \in 1 .. Len(st.outs) : SameFz(st.outs[o].fz, ob.outs[o].fz)
SameFlags(st, ob) ==
    /\ \A i \in 1 .. Len(st.ins) : st.ins[i].en = ob.ins[i].en
    /\ \A o \in 1 .. Len(st.outs) : st.outs[o].en = ob.outs[o].en
    /\ \A b \in 1 .. Len(st.blocks) :
          /\ st.blocks[b].en = ob.blocks[b].en
          /\ \A r \in 1 .. Len(st.blocks[b].rules) :
                LET m == st.blocks[b].rules[r]  q == ob.blocks[b].rules[r]
                IN m.en = q.en /\ m.loaded = q.loaded /\ Close(m.w, q.w)
SameRuleState(st, ob) ==
    \A b \in 1 .. Len(st.blocks) : \A r \in 1 .. Len(st.blocks[b].rules) :
        LET m == st.blocks[b].rules[r]  q == ob.blocks[b].rules[r]
        IN Close(m.deg, q.deg) /\ m.trig = q.trig
OwnRefs(ob) == /\ \A b \in 1 .. Len(ob.blocks) : \A r \in 1 .. Len(ob.blocks[b].rules) :
                     ob.blocks[b].rules[r].own
               /\ \A o \in 1 .. Len(ob.outs) : \A k \in 1 .. Len(ob.outs[o].fz) :
                     ob.outs[o].fz[k].t > 0

Same(st, ob) == SameShape(st, ob) /\ SameInputs(st, ob) /\ SameOutputs(st, ob) /\ SameFuzzy(st, ob)
                /\ SameFlags(st, ob) /\ SameRuleState(st, ob)

\* the model state with the observed numbers put in
Adopt(st, ob) ==
    [st EXCEPT
      !.ins  = Eager([i \in 1 .. Len(st.ins) |-> [st.ins[i] EXCEPT !.val = ob.ins[i].val]]),
      !.outs = Eager([o \in 1 .. Len(st.outs) |->
                  [st.outs[o] EXCEPT !.val = ob.outs[o].val, !.prev = ob.outs[o].prev,
                                     !.fz = Eager(AdoptFz(st.outs[o].fz, ob.outs[o].fz, "none"))]]),
      !.blocks = Eager([b \in 1 .. Len(st.blocks) |->
                  [st.blocks[b] EXCEPT !.rules = Eager([r \in 1 .. Len(st.blocks[b].rules) |->
                      [st.blocks[b].rules[r] EXCEPT !.deg = ob.blocks[b].rules[r].deg,
                                                    !.trig = ob.blocks[b].rules[r].trig]])]])]

-----------------------------------------------------------------------------
(* evaluation of a block against an observation                            *)
(* result: [e: must raise, st, asp: aspects that differ]                    *)

IsPrefixBag(ms, os) == Len(ms) <= Len(os) /\ SameFz(ms, SubSeq(os, 1, Len(ms)))

PrefixOK(outs, ob) == \A o \in 1 .. Len(outs) : IsPrefixBag(outs[o].fz, ob.outs[o].fz)
AdoptPrefix(outs, ob, impl) ==
    [o \in 1 .. Len(outs) |->
        [outs[o] EXCEPT !.fz = AdoptFz(@, SubSeq(ob.outs[o].fz, 1, Len(@)), impl)]]

StageEager(st, b, ob) ==
    LET n   == Len(st.blocks[b].rules)
        orc == [use |-> TRUE, deg |-> [i \in 1 .. n |-> ob.blocks[b].rules[i].deg],
                trig |-> [i \in 1 .. n |-> ob.blocks[b].rules[i].trig]]
        st0 == [st EXCEPT !.blocks[b].act.k = IF @ = "none" THEN "General" ELSE @]
        r   == EagerRun(st0, b, EagerOrder(st.blocks[b]), 1, 0, orc, {})
    IN IF r.e THEN r
       ELSE IF PrefixOK(r.st.outs, ob)
       THEN [r EXCEPT !.st.outs = AdoptPrefix(@, ob, st.blocks[b].impl)]
       ELSE [r EXCEPT !.asp = @ \cup {"fz"}]

StageDeferred(st, b, ob) ==
    LET blk == st.blocks[b]
        raw == RawDegrees(st, blk)
        n   == Len(blk.rules)
    IN
    IF \E i \in 1 .. n : raw[i].e THEN [e |-> TRUE, st |-> st, asp |-> {}]
    ELSE
    LET ds  == Adjusted(blk, [i \in 1 .. n |-> raw[i].v])
        od  == [i \in 1 .. n |-> ob.blocks[b].rules[i].deg]
        raws == SumSeq([i \in 1 .. n |-> IF i \in LoadedIdx(blk) THEN raw[i].v ELSE Zero])
        a1  == IF \A i \in 1 .. n : Close(ds[i], od[i]) THEN {}
               ELSE IF \A i \in 1 .. n : \/ Close(ds[i], od[i])
                                        \/ \E x \in RuleDegreeAll(st, blk, blk.rules[i]) :
                                              blk.act.k # "Proportional" /\ Close(x, od[i]) THEN {}
               ELSE IF blk.act.k = "Proportional" /\ Lt(raws, <<1, 500>>) THEN {"tiny"}
               ELSE IF blk.act.k = "Proportional" THEN {"adj"} ELSE {"deg"}
        tr  == { i \in 1 .. n : ob.blocks[b].rules[i].trig }
        all == { Firing(blk, od, sel) : sel \in Selections(blk, od) }
        good == { fs \in all : { fs[k] : k \in 1 .. Len(fs) } = tr }
        a2  == IF good = {} THEN {"trig"} ELSE {}
        cands == IF good = {} THEN { UpSeq(tr \cap LoadedIdx(blk)) } ELSE good
        outsOf(fs) == FireAll(st.outs, blk, od, fs, st.carry)
        fs0 == CHOOSE fs \in cands : TRUE
        outs1 == outsOf(fs0)
        a3  == IF PrefixOK(outs1, ob) THEN {} ELSE {"fz"}
        outs2 == IF a3 = {} THEN AdoptPrefix(outs1, ob, blk.impl) ELSE outs1
        blk2 == [MarkBlock(blk, od, fs0) EXCEPT !.rules = [i \in 1 .. n |->
                    [@[i] EXCEPT !.trig = i \in tr]]]
    IN [e |-> FALSE, st |-> [st EXCEPT !.outs = outs2, !.blocks[b] = blk2], asp |-> a1 \cup a2 \cup a3]

StageBlock(st, b, ob) == IF st.blocks[b].act.k \in EagerKinds THEN StageEager(st, b, ob)
                         ELSE StageDeferred(st, b, ob)

RECURSIVE StageBlocks(_, _, _, _)
StageBlocks(st, b, ob, asp) ==
    IF b > Len(st.blocks) THEN
        [e |-> FALSE, st |-> st,
         asp |-> asp \cup IF \E o \in 1 .. Len(st.outs) : Len(st.outs[o].fz) # Len(ob.outs[o].fz)
                         THEN {"fz"} ELSE {}]
    ELSE IF ~st.blocks[b].en THEN StageBlocks(st, b + 1, ob, asp)
    ELSE LET r == StageBlock(st, b, ob) IN
         IF r.e \/ "fz" \in r.asp THEN [r EXCEPT !.asp = @ \cup asp]
         ELSE StageBlocks(r.st, b + 1, ob, asp \cup r.asp)

StageOut(st, o, ob) ==
    LET out == st.outs[o] q == ob.outs[o] IN
    IF ~out.en THEN [e |-> FALSE, st |-> [st EXCEPT !.outs[o].val = q.val, !.outs[o].prev = q.prev],
                     asp |-> IF Close(out.val, q.val) /\ Close(out.prev, q.prev) THEN {} ELSE {"mem"}]
    ELSE IF out.df.k = "none" THEN [e |-> TRUE, st |-> st, asp |-> {}]
    ELSE LET r == Defuzz(out.df, out.lo, out.hi, out.terms, out.agg, out.fz, EnvOf(st), q.exact)
             cs == { Commit(out, v) : v \in r.vs }
             ok(c) == CloseValue(c.val, q.val)
             kind == IF \A v \in r.vs : IsNaN(v) THEN (IF r.any THEN {} ELSE {"mem"})
                     ELSE IF out.df.k \in WeightedKinds THEN {"wval"} ELSE {"ival"}
             \* (tiny: a contribution too small for the model's arithmetic took part)
             \* a value outside a locked range is also a matter of committing it
             lockbad == out.lock /\ (Lt(q.val, Sub(out.lo, <<1, 10000>>)) \/ Gt(q.val, Add(out.hi, <<1, 10000>>)))
         IN IF r.e THEN [e |-> TRUE, st |-> st, asp |-> {}]
            ELSE [e |-> FALSE,
                  st |-> [st EXCEPT !.outs[o].val = q.val, !.outs[o].prev = q.prev],
                  asp |-> (IF r.any \/ q.tiny \/ \E c \in cs : ok(c) THEN {} ELSE kind \cup IF lockbad THEN {"mem"} ELSE {})
                          \cup (IF \E c \in cs : Close(c.prev, q.prev) THEN {} ELSE {"mem"})]

RECURSIVE StageOuts(_, _, _, _)
StageOuts(st, o, ob, asp) ==
    IF o > Len(st.outs) THEN [e |-> FALSE, st |-> st, asp |-> asp]
    ELSE LET r == StageOut(st, o, ob) IN
         IF r.e THEN [r EXCEPT !.asp = asp \cup @]
         ELSE StageOuts(r.st, o + 1, ob, asp \cup r.asp)

\* whole evaluation; when the block stage already differs in what reaches the
\* outputs, the outputs are judged on what was observed
StageProcess(st, ob) ==
    LET r1 == StageBlocks(ClearFuzzy(st), 1, ob, {}) IN
    IF r1.e \/ "fz" \in r1.asp THEN r1
    ELSE StageOuts(r1.st, 1, ob, r1.asp)

-----------------------------------------------------------------------------
(* one step of slot s: [e: must raise / FALSE, st, asp] *)

Plain(st, ob, name) == [e |-> FALSE, st |-> st, asp |-> IF Same(st, ob) THEN {} ELSE {name}]

SetBlk(st, b, f, v) == [st EXCEPT !.blocks[b] = [@ EXCEPT ![f] = v]]

StagedOps == {"process", "activate", "defuzzify", "ruledeg", "trigger"}

\* one rule by hand, as an activation method of one's own does: its degree, its conclusions
StageDegree(st, b, i, ob) ==
    LET blk == st.blocks[b]
        dg == RuleDegree(st, blk, blk.rules[i])
        q  == ob.blocks[b].rules[i].deg
    IN IF ~blk.rules[i].loaded \/ dg.e THEN [e |-> TRUE, st |-> st, asp |-> {}]
       ELSE [e |-> FALSE, st |-> [st EXCEPT !.blocks[b].rules[i].deg = q],
             asp |-> IF Close(dg.v, q) \/ \E x \in RuleDegreeAll(st, blk, blk.rules[i]) : Close(x, q) THEN {} ELSE {"deg"}]
StageTrigger(st, b, i, ob) ==
    LET blk == st.blocks[b]
        r == blk.rules[i]
        x == [st EXCEPT !.blocks[b].rules[i].trig = TRUE, !.outs = AddConclusions(@, r.cons, 1, r.deg, blk.impl, st.carry)]
        y == IF Fires(r, r.deg) THEN x ELSE st
    IN IF ~r.loaded THEN [e |-> TRUE, st |-> st, asp |-> {}]
       ELSE [e |-> FALSE, st |-> y,
             asp |-> (IF ob.blocks[b].rules[i].trig = y.blocks[b].rules[i].trig THEN {} ELSE {"trig"})
                     \cup (IF SameFuzzy(y, ob) THEN {} ELSE {"fz"})]

Staged(st, s, ob) ==
    CASE s.op = "process"   -> StageProcess(st, ob)
      [] s.op = "activate"  ->
            LET r == StageBlock(st, s.i, ob)
            IN IF r.e THEN r
               ELSE [r EXCEPT !.asp = @ \cup IF \E o \in 1 .. Len(r.st.outs) :
                         Len(r.st.outs[o].fz) # Len(ob.outs[o].fz) THEN {"fz"} ELSE {}]
      [] s.op = "defuzzify" -> StageOut(st, s.i, ob)
      [] s.op = "ruledeg"   -> StageDegree(st, s.i, s.r, ob)
      [] s.op = "trigger"   -> StageTrigger(st, s.i, s.r, ob)

\* what must be left alone by an evaluation
FrameOK(old, st, ob) == SameInputs(old, ob) /\ SameFlags(old, ob)

\* degrees took part that the arithmetic of the model is too coarse for: no verdict
Tiny(ob) == \/ \E o \in 1 .. Len(ob.outs) : ob.outs[o].tiny
            \/ \E b \in 1 .. Len(ob.blocks) : \E r \in 1 .. Len(ob.blocks[b].rules) : ob.blocks[b].rules[r].tiny

\* judge one step on its own slot
Judge(st, s, ob) ==
    IF ~SameShape(st, ob) /\ s.op \in StagedOps THEN [st |-> st, asp |-> {"frame"}, halt |-> TRUE]
    ELSE IF s.op \in StagedOps THEN
        LET r == Staged(st, s, ob) IN
        IF r.asp # {} /\ Tiny(ob) THEN [st |-> st, asp |-> {"tiny"}, halt |-> TRUE]
        ELSE IF r.e # s.e THEN [st |-> st, asp |-> r.asp \cup {"err"}, halt |-> TRUE]
        ELSE [st |-> Adopt(r.st, ob),
              asp |-> r.asp \cup (IF FrameOK(st, r.st, ob) THEN {} ELSE {"frame"})
                      \cup (IF ~r.e /\ r.asp = {} /\ ~Same(r.st, ob) THEN {"frame"} ELSE {}),
              halt |-> r.asp # {}]
    ELSE LET f == Effect(st, s) IN
        IF f.e # s.e \/ ~SameShape(f.st, ob)
        THEN [st |-> f.st, asp |-> {f.a}, halt |-> TRUE]
        ELSE [st |-> Adopt(f.st, ob), asp |-> IF Same(f.st, ob) THEN {} ELSE {f.a},
              halt |-> ~Same(f.st, ob)]

\* the text formats: lines of a configuration, configuration of lines, and what
\* of a configuration survives writing and reading
Written(s, st) == CASE s.fmt = "fll" -> FllLines(s.dump, s.d, s.ind)
                    [] s.fmt = "fis" -> FisLines(s.dump, st, s.d, s.lib)
                    [] s.fmt = "fcl" -> FclLines(s.dump, s.d, s.ind, s.lib)
                    [] s.fmt = "cpp" -> CodeLines(Cpp(s.ns), s.dump, s.own, s.d, s.lib[1])
                    [] s.fmt = "java" -> CodeLines(JavaCode, s.dump, s.own, s.d, s.lib[1])
Refused(s, st)  == CASE s.fmt = "fis" -> FisRefused(st) [] OTHER -> FALSE
\* (the text is not specified for what the format has no place for)
Sayable(s, st)  == CASE s.fmt = "fis" -> SaidOnce(st) [] OTHER -> TRUE
ReadAs(fmt, lines) == CASE fmt = "fll" -> FllRead(lines)
                        [] fmt = "fis" -> FisRead(lines)
                        [] fmt = "fcl" -> FclRead(lines)
Fits(s, st)     == CASE s.fmt = "fis" -> FisFits(s.from, st) [] s.fmt = "fcl" -> FclFits(s.from) [] OTHER -> TRUE
Kept(s, st)     == CASE s.fmt = "fll" -> FllKept(s.from, s.d)
                     [] s.fmt = "fis" -> FisKept(s.from, st, s.d)
                     [] s.fmt = "fcl" -> FclKept(s.from, s.d)

\* a script for R: the engine, the table in quotes, how it is read and plotted
ScriptWrong(st, s) ==
    LET ls == Lines(s.out)
        opens == { i \in 1 .. Len(ls) : Starts(ls[i], "engine.fld = \"") }
        k == CHOOSE i \in opens : TRUE
        ends == { i \in k + 1 .. Len(ls) : ls[i] = "\"" }
        m == CHOOSE i \in ends : \A j \in ends : i <= j
        nm(i) == st.ins[i].name
        body == Join(<< After(ls[k], Len("engine.fld = \"")) >> \o SubSeq(ls, k + 1, m - 1), "\n") \o "\n"
        plots == RPlots(nm(s.a), nm(s.b), [o \in 1 .. Len(s.zs) |-> st.outs[s.zs[o]].name], s.colors)
        table == [s EXCEPT !.out = body]
    IN IF s.e THEN DatasetWrong(st, s)
       ELSE IF ~s.usual THEN {"rscript"}
       ELSE IF s.file # "" THEN
            IF ls = RHead(s.dump, s.d, s.lib[1]) \o RReadingFile(s.file) \o plots THEN {} ELSE {"rscript"}
       ELSE IF opens = {} THEN {"rscript"}
       ELSE IF ends = {} THEN {"rscript"}
       ELSE IF /\ SubSeq(ls, 1, k - 1) = RHead(s.dump, s.d, s.lib[1])
               /\ SubSeq(ls, m + 1, Len(ls)) = RReading \o plots
               /\ DatasetWrong(st, table) = {}
            THEN {} ELSE {"rscript"}

\* a slot that the step does not address
Untouched(x, ob) == IF IsNone(x) THEN IsNone(ob) ELSE ~IsNone(ob) /\ Same(x, ob)

\* (numerals that later rules may have)
Knowing(x, y) == [x EXCEPT !.lits = @ @@ y.lits]

PutSlot(ws, i, x) == [k \in 1 .. IMax(i, Len(ws)) |->
                        IF k = i THEN x ELSE IF k <= Len(ws) THEN ws[k] ELSE None]

\* an engine that is ready can be evaluated (if its weighted defuzzifiers can tell what to make of its terms)
Unready(st, s) ==
    IF s.op = "process" /\ s.e /\ Ready(st)
       /\ \A o \in 1 .. Len(st.outs) : st.outs[o].df.k \in WeightedDfs =>
              \E ty \in {"TakagiSugeno", "Tsukamoto"} :
                 /\ st.outs[o].df.type \in {"Automatic", ty}
                 /\ \A t \in 1 .. Len(st.outs[o].terms) : InferTerm(st.outs[o].terms[t].k) = ty
    THEN {"ready"} ELSE {}

WorldStep(ws, s) ==
    LET ob(i) == IF i <= Len(s.obs) THEN s.obs[i] ELSE None
        others(skip, ws1) == IF \A k \in 1 .. Len(ws1) : k = skip \/ Untouched(ws1[k], ob(k))
                        THEN {} ELSE {"iso"}
        refs(i) == IF IsNone(ob(i)) \/ OwnRefs(ob(i)) THEN {} ELSE {"iso"}
    IN
    IF s.op = "make" THEN
        LET x == PutSlot(ws, s.s, s.eng) IN
        [ws |-> x, asp |-> IF Untouched(s.eng, ob(s.s)) THEN others(s.s, x) ELSE {"set"},
         halt |-> ~Untouched(s.eng, ob(s.s))]
    ELSE IF s.op = "del" THEN
        LET x == PutSlot(ws, s.s, None) IN
        [ws |-> x, asp |-> others(0, x), halt |-> others(0, x) # {}]
    ELSE IF s.op \in {"clone", "copy", "assign"} THEN
        LET c == CopyOf(ws[s.s])
            x == PutSlot(ws, s.t, c)
            good == ~s.e /\ Untouched(c, ob(s.t))
            a == (IF good THEN {} ELSE {"copy"}) \cup refs(s.t) \cup others(s.t, x)
        IN [ws |-> x, asp |-> a, halt |-> a # {}]
    ELSE IF s.op = "assemble" THEN
        LET c == Assembled(ws[s.s], s.f, s.i # 5)
            \* (the degree of a rule that is not loaded means nothing)
            m == IF IsNone(ob(s.t)) \/ ~SameShape(c, ob(s.t)) THEN c ELSE
                   [c EXCEPT !.blocks = Eager([b \in 1 .. Len(c.blocks) |->
                      [c.blocks[b] EXCEPT !.rules = Eager([r \in 1 .. Len(c.blocks[b].rules) |->
                          LET x == c.blocks[b].rules[r] q == ob(s.t).blocks[b].rules[r] IN
                          IF x.loaded THEN x ELSE [x EXCEPT !.deg = q.deg, !.trig = q.trig]])]])]
            x == PutSlot(ws, s.t, m)
            good == ~s.e /\ s.bad = (s.f /\ ~AllLoad(c)) /\ Untouched(m, ob(s.t))
            a == (IF good THEN {} ELSE {"copy"}) \cup refs(s.t) \cup others(s.t, x)
        IN [ws |-> x, asp |-> a, halt |-> a # {}]
    ELSE IF s.op = "export" THEN
        LET a == (IF CfgMatches(ws[s.s], s.dump) THEN {} ELSE {"dump"})
                 \cup (IF s.e # Refused(s, ws[s.s]) THEN {"text"}
                       ELSE IF s.e \/ ~Sayable(s, ws[s.s]) \/ s.lines = Written(s, ws[s.s]) THEN {} ELSE {"text"})
                 \cup others(0, ws)
        IN [ws |-> ws, asp |-> a, halt |-> a # {}]
    ELSE IF s.op = "import" THEN
        LET r == ReadAs(s.fmt, s.lines)
            x == PutSlot(ws, s.s, IF s.e THEN None ELSE IF s.src = 0 THEN StateOf(r.c, s.carry)
                                                 ELSE Knowing(StateOf(r.c, s.carry), ws[s.src]))
            a == IF r.e # s.e THEN {"import"}
                 ELSE IF r.e THEN others(0, ws)
                 ELSE (IF SameCfg(r.c, s.dump) THEN {} ELSE {"import"})
                      \cup (IF "from" \notin DOMAIN s THEN {}
                            ELSE IF ~Fits(s, ws[s.src]) \/ SameCfg(Kept(s, ws[s.src]), s.dump) THEN {} ELSE {"roundtrip"})
                      \cup (IF Untouched(x[s.s], ob(s.s)) THEN {} ELSE {"import"})
                      \cup others(s.s, x) \cup refs(s.s)
        IN [ws |-> x, asp |-> a, halt |-> a # {}]
    \* the program written for slot src has been compiled and run
    ELSE IF s.op = "compiled" THEN
        LET c == CodeKept(s.from, s.d)
            x == PutSlot(ws, s.s, IF s.e THEN None ELSE Knowing(StateOf(c, s.carry), ws[s.src]))
            a == IF s.e THEN {"compiled"}
                 ELSE (IF SameCfg(c, s.dump) /\ Untouched(x[s.s], ob(s.s)) THEN {} ELSE {"compiled"})
                      \cup others(s.s, x) \cup refs(s.s)
        IN [ws |-> x, asp |-> a, halt |-> a # {}]
    ELSE IF s.op = "ready" THEN
        LET a == (IF ~s.e /\ s.r = Ready(ws[s.s]) /\ { s.m[i] : i \in 1 .. Len(s.m) } = Missing(ws[s.s]) THEN {} ELSE {"ready"})
                 \cup others(0, ws)
        IN [ws |-> ws, asp |-> a, halt |-> a # {}]
    ELSE IF s.op = "type" THEN
        LET a == (IF ~s.e /\ s.n = EngineType(ws[s.s]) THEN {} ELSE {"type"}) \cup others(0, ws)
        IN [ws |-> ws, asp |-> a, halt |-> a # {}]
    \* a rule says what it was understood as
    ELSE IF s.op = "say" THEN
        LET r == ws[s.s].blocks[s.i].rules[s.r]
            voc == VocOf(ws[s.s])
            good == IF ~r.loaded THEN s.raised ELSE
                      LET o == Orders(voc, r.ante, << >>) IN
                      ~s.raised /\ s.pre = o.pre /\ s.inf = o.inf /\ s.post = o.post /\ s.con = ConsWords(voc, r.cons)
            a == (IF ~s.e /\ good THEN {} ELSE {"say"}) \cup others(0, ws)
        IN [ws |-> ws, asp |-> a, halt |-> a # {}]
    \* tables of slot s: slot t has been evaluated on the planned rows
    ELSE IF s.op \in {"dataset", "rscript", "bprep", "brun", "berr", "bres"} THEN
        LET a1 == CASE s.op = "dataset" -> DatasetWrong(ws[s.s], s)
                    [] s.op = "rscript" -> ScriptWrong(ws[s.s], s)
                    [] s.op = "bprep" -> PrepareWrong(ws[s.s], s)
                    [] s.op = "brun" -> RunWrong(ws[s.s], s)
                    [] s.op = "berr" -> ErrorsWrong(ws[s.s], s)
                    [] s.op = "bres" -> ResultsWrong(ws[s.s], s)
            moved == s.op \in {"dataset", "rscript", "brun"}
            x == IF moved THEN PutSlot(ws, s.s, ws[s.t]) ELSE ws
            a == a1 \cup (IF ~moved \/ Untouched(x[s.s], ob(s.s)) THEN {} ELSE {IF s.op = "brun" THEN "run" ELSE s.op})
                 \cup others(IF moved THEN s.s ELSE 0, x)
        IN [ws |-> x, asp |-> a, halt |-> a # {}]
    ELSE IF s.op \in {"bhead", "bfmt"} THEN
        LET a == IF s.op = "bhead" THEN HeadWrong(s) ELSE TableWrong(s) IN [ws |-> ws, asp |-> a, halt |-> a # {}]
    ELSE LET j == Judge(ws[s.s], s, ob(s.s))
             x == PutSlot(ws, s.s, j.st)
             a == j.asp \cup Unready(ws[s.s], s) \cup (IF j.halt THEN {} ELSE others(s.s, x) \cup refs(s.s))
         IN [ws |-> x, asp |-> a, halt |-> a # {}]

\* what the model itself computes, printed on request
Debug(st, s) ==
    LET D == CASE s.op = "process" -> Process(st)
               [] s.op = "activate" -> ActivateBlock(st, s.i)
               [] s.op = "defuzzify" -> DefuzzifyOut(st, s.i)
               [] OTHER -> { [e |-> FALSE, st |-> st] }
    IN \A d \in D :
       PrintT([e |-> d.e,
               rules |-> [b \in 1 .. Len(d.st.blocks) |-> [r \in 1 .. Len(d.st.blocks[b].rules) |->
                            <<d.st.blocks[b].rules[r].deg, d.st.blocks[b].rules[r].trig>>]],
               outs |-> [o \in 1 .. Len(d.st.outs) |->
                            [val |-> d.st.outs[o].val, prev |-> d.st.outs[o].prev, fz |-> d.st.outs[o].fz]]])

-----------------------------------------------------------------------------
\* A trace is judged by running the model along it.  (The world is passed on
\* as an argument, not as a variable: TLC compares states whenever it reuses
\* a value, which is slow for large ones.)
Report(id, k, ws, s, r) ==
    /\ PrintT(<<"REJECT", id, k, s.op, r.asp>>)
    /\ "debug" \in DOMAIN Data =>
         /\ "text" \in r.asp /\ ~s.e => LET x == Written(s, ws[s.s]) IN
              \A i \in 1 .. Len(x) : IF i <= Len(s.lines) /\ x[i] = s.lines[i] THEN TRUE ELSE PrintT(<<"WANT", i, x[i]>>)
         /\ {"import", "roundtrip"} \cap r.asp # {} => PrintT(<<"READ", ReadAs(s.fmt, s.lines)>>)
         /\ s.op \in StagedOps => Debug(ws[s.s], s)

RECURSIVE RunTrace(_, _, _)
RunTrace(tr, k, ws) ==
    IF k > Len(tr.steps) THEN [at |-> k, verdict |-> "ok"]
    ELSE LET s == tr.steps[k]
             r == TLCEval(WorldStep(ws, s))
         IN IF r.asp # {} /\ ~Report(tr.id, k, ws, s, r) THEN [at |-> k, verdict |-> "violation"]
            ELSE IF r.asp \cap Watch # {} THEN [at |-> k, verdict |-> "violation"]
            ELSE IF r.halt THEN [at |-> k, verdict |-> "diverged"]
            ELSE RunTrace(tr, k + 1, r.ws)

Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ verdict = "new"
Next == /\ verdict = "new"
        /\ LET r == TLCEval(RunTrace(Traces[tid], 1, << >>)) IN l' = r.at /\ verdict' = r.verdict
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
NoViolation == verdict # "violation"
=============================================================================
