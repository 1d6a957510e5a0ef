--------------------------------- MODULE Fis ---------------------------------
(* The FIS format: writing a configuration and reading one.  The format has  *)
(* one block of rules, each given by one code per variable, and one operator *)
(* of each sort for the whole system.                                        *)
EXTENDS Infer

FisTNorm(k) == CASE k = "Minimum" -> "min" [] k = "AlgebraicProduct" -> "prod" [] k = "BoundedDifference" -> "bounded_difference"
                 [] k = "DrasticProduct" -> "drastic_product" [] k = "EinsteinProduct" -> "einstein_product"
                 [] k = "HamacherProduct" -> "hamacher_product" [] k = "NilpotentMinimum" -> "nilpotent_minimum"
FisSNorm(k) == CASE k = "Maximum" -> "max" [] k = "AlgebraicSum" -> "probor" [] k = "BoundedSum" -> "bounded_sum"
                 [] k = "NormalizedSum" -> "normalized_sum" [] k = "DrasticSum" -> "drastic_sum" [] k = "EinsteinSum" -> "einstein_sum"
                 [] k = "HamacherSum" -> "hamacher_sum" [] k = "NilpotentMaximum" -> "nilpotent_maximum" [] k = "UnboundedSum" -> "sum"
FisDf(k) == CASE k = "Centroid" -> "centroid" [] k = "Bisector" -> "bisector" [] k = "LargestOfMaximum" -> "lom"
              [] k = "MeanOfMaximum" -> "mom" [] k = "SmallestOfMaximum" -> "som" [] k = "WeightedAverage" -> "wtaver"
              [] k = "WeightedSum" -> "wtsum" [] k = "none" -> ""
FisType(k) == CASE k \in {"Mamdani", "Larsen"} -> "mamdani" [] k = "Takagi-Sugeno" -> "sugeno" [] k = "Tsukamoto" -> "tsukamoto"
                [] k = "Inverse Tsukamoto" -> "inverse tsukamoto" [] k = "Hybrid" -> "hybrid" [] OTHER -> "unknown"
FisClasses == [Bell |-> "gbellmf", Binary |-> "binarymf", Concave |-> "concavemf", Constant |-> "constant", Cosine |-> "cosinemf",
               Discrete |-> "discretemf", Function |-> "function", Gaussian |-> "gaussmf", GaussianProduct |-> "gauss2mf",
               Linear |-> "linear", PiShape |-> "pimf", Ramp |-> "rampmf", Rectangle |-> "rectmf",
               SigmoidDifference |-> "dsigmf", Sigmoid |-> "sigmf", SigmoidProduct |-> "psigmf", SShape |-> "smf",
               Spike |-> "spikemf", Trapezoid |-> "trapmf", Triangle |-> "trimf", ZShape |-> "zmf"]
FisToFl(n) == IF \E k \in DOMAIN FisClasses : FisClasses[k] = n THEN CHOOSE k \in DOMAIN FisClasses : FisClasses[k] = n ELSE n
Inverse(f(_), S, n) == IF \E k \in S : f(k) = n THEN CHOOSE k \in S : f(k) = n ELSE n

\* the order the format has parameters in: position i there holds FisOrder[i] here
FisOrder(k) == CASE k = "Bell" -> <<2, 3, 1>> [] k \in {"Gaussian", "Sigmoid"} -> <<2, 1>>
                 [] k = "GaussianProduct" -> <<2, 1, 4, 3>> [] k \in {"SigmoidDifference", "SigmoidProduct"} -> <<2, 1, 3, 4>>
                 [] OTHER -> << >>
Permute(p, ord) == [i \in 1 .. Len(p) |-> p[IF i <= Len(ord) THEN ord[i] ELSE i]]
Back(p, ord) == [i \in 1 .. Len(p) |-> p[IF i <= Len(ord) THEN (CHOOSE j \in 1 .. Len(ord) : ord[j] = i) ELSE i]]

-----------------------------------------------------------------------------
FisTerm(t, d) == "'" \o ValidName(t.name) \o "':'" \o FisClasses[t.k] \o "',[" \o
                 (IF t.k = "Function" THEN t.text
                  ELSE LET p == Permute(t.p, FisOrder(t.k)) IN Join([i \in 1 .. Len(p) |-> FmtNum(p[i], d)], " ")) \o "]"
FisVar(kind, i, v, d) ==
    << "[" \o kind \o ToString(i) \o "]", "Name='" \o ValidName(v.name) \o "'",
       "Range=[" \o FmtNum(v.lo, d) \o " " \o FmtNum(v.hi, d) \o "]", "NumMFs=" \o ToString(Len(v.terms)) >> \o
    [t \in 1 .. Len(v.terms) |-> "MF" \o ToString(t) \o "=" \o FisTerm(v.terms[t], d)] \o << "" >>

HedgeCode(h) == CASE h = "extremely" -> <<3, 10>> [] h = "very" -> <<1, 5>> [] h = "somewhat" -> <<1, 20>>
                  [] h = "seldom" -> <<1, 100>> [] h = "any" -> <<99, 100>> [] OTHER -> Zero
RECURSIVE HedgeSum(_)
HedgeSum(hs) == IF hs = << >> THEN Zero ELSE Add(HedgeCode(Head(hs)), HedgeSum(Tail(hs)))
Negated(hs) == Cardinality({ i \in 1 .. Len(hs) : hs[i] = "not" }) % 2 = 1

\* the code of variable ref among the propositions ps (each variable at most once)
FisCode(ps, ref, d) ==
    LET s == SelectSeq(ps, LAMBDA p : p.v = ref) IN
    IF s = << >> THEN FmtNum(Zero, d) \o " "
    ELSE (IF Negated(s[1].hs) THEN "-" ELSE "") \o FmtNum(Add(<<s[1].term, 1>>, HedgeSum(s[1].hs)), d) \o " "
RECURSIVE FisCodes(_, _, _, _, _)
FisCodes(ps, side, i, n, d) == IF i > n THEN "" ELSE FisCode(ps, <<side, i>>, d) \o FisCodes(ps, side, i + 1, n, d)

Connectors(r) == { r.ante[i].op : i \in 1 .. Len(r.ante) } \ {"prop"}
FisRule(st, r, d) ==
    FisCodes(SelectSeq(r.ante, LAMBDA p : p.op = "prop"), "in", 1, Len(st.ins), d) \o ", " \o
    FisCodes(r.cons, "out", 1, Len(st.outs), d) \o
    "(" \o FmtNum(r.w, d) \o ") : " \o (IF Connectors(r) = {"or"} THEN "2" ELSE "1")

RECURSIVE FlatL(_)
FlatL(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o FlatL(Tail(ss))
FirstOf(s, alt) == LET u == SelectSeq(s, LAMBDA x : x # "none") IN IF u = << >> THEN alt ELSE u[1]
RECURSIVE SumLen(_)
SumLen(bs) == IF bs = << >> THEN 0 ELSE Len(Head(bs).rules) + SumLen(Tail(bs))

Loaded(b) == SelectSeq(b.rules, LAMBDA r : r.loaded)
FisRefused(st) == \E b \in 1 .. Len(st.blocks) : \E r \in 1 .. Len(st.blocks[b].rules) :
                     st.blocks[b].rules[r].loaded /\ Cardinality(Connectors(st.blocks[b].rules[r])) > 1

FisLines(c, st, d, lib) ==
    LET bs == c.blocks
        norms(f) == [i \in 1 .. Len(bs) |-> bs[i][f]] IN
    << "#Code automatically generated with " \o lib[1] \o ".", "", "[System]", "Name='" \o c.name \o "'",
       "Type='" \o FisType(EngineType(c)) \o "'", "Version=" \o lib[2],
       "NumInputs=" \o ToString(Len(c.ins)), "NumOutputs=" \o ToString(Len(c.outs)), "NumRules=" \o ToString(SumLen(bs)),
       "AndMethod='" \o FisTNorm(FirstOf(norms("conj"), "Minimum")) \o "'",
       "OrMethod='" \o FisSNorm(FirstOf(norms("disj"), "Maximum")) \o "'",
       "ImpMethod='" \o FisTNorm(FirstOf(norms("impl"), "Minimum")) \o "'",
       "AggMethod='" \o FisSNorm(FirstOf([i \in 1 .. Len(c.outs) |-> c.outs[i].agg], "Maximum")) \o "'",
       "DefuzzMethod='" \o FisDf(FirstOf([i \in 1 .. Len(c.outs) |-> c.outs[i].df.k], "none")) \o "'", "" >> \o
    FlatL([i \in 1 .. Len(c.ins) |-> FisVar("Input", i, c.ins[i], d)]) \o
    FlatL([i \in 1 .. Len(c.outs) |-> FisVar("Output", i, c.outs[i], d)]) \o
    << "[Rules]" >> \o
    FlatL([b \in 1 .. Len(st.blocks) |->
              (IF Len(st.blocks) > 1 THEN << "# RuleBlock " \o st.blocks[b].name >> ELSE << >>) \o
              [r \in 1 .. Len(Loaded(st.blocks[b])) |-> FisRule(st, Loaded(st.blocks[b])[r], d)]]) \o << "" >>

-----------------------------------------------------------------------------
(* reading *)
FisClean(raw) == LET line == Trim(Upto(UptoStr(raw, "//"), {"#"}))
                 IN IF line = "" THEN "" ELSE IF Ch(line, 1) = "%" THEN "" ELSE Drop(line, {"'"}, 1)
IsHeading(s) == Starts(s, "[System]") \/ Starts(s, "[Input") \/ Starts(s, "[Output") \/ Starts(s, "[Rules]")

\* sections: sequences of lines, the first one being the heading; [e, s]
RECURSIVE Sections(_, _, _)
Sections(lines, i, acc) ==
    IF i > Len(lines) THEN [e |-> FALSE, s |-> acc]
    ELSE LET t == FisClean(lines[i]) IN
         IF t = "" THEN Sections(lines, i + 1, acc)
         ELSE IF IsHeading(t) THEN Sections(lines, i + 1, Append(acc, << t >>))
         ELSE IF acc = << >> THEN [e |-> TRUE, s |-> acc]
         ELSE Sections(lines, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, t)])

NoMethods == [and |-> "", or |-> "", imp |-> "", agg |-> "", df |-> ""]
FAcc(e, c, m) == [e |-> e, c |-> c, m |-> m]

FisSystem(acc, line) ==
    LET i == Find(line, {"="}, 1)
        key == Trim(IF i = 0 THEN line ELSE Before(line, i))
        v == IF i = 0 THEN "" ELSE Trim(After(line, i)) IN
    CASE key = "Name" -> [acc EXCEPT !.c.name = v]
      [] key = "AndMethod" -> [acc EXCEPT !.m.and = v]
      [] key = "OrMethod" -> [acc EXCEPT !.m.or = v]
      [] key = "ImpMethod" -> [acc EXCEPT !.m.imp = v]
      [] key = "AggMethod" -> [acc EXCEPT !.m.agg = v]
      [] key = "DefuzzMethod" -> [acc EXCEPT !.m.df = v]
      [] key \in {"Type", "Version", "NumInputs", "NumOutputs", "NumRules", "NumMFs"} -> acc
      [] OTHER -> [acc EXCEPT !.e = TRUE]

SplitC(s, c) == SplitBy(s, c)
FisRange(s) ==
    LET p == SplitC(s, " ")
        bad == [e |-> TRUE, lo |-> NaN, hi |-> NaN] IN
    IF Len(p) # 2 THEN bad
    ELSE IF Ch(p[1], 1) # "[" \/ Ch(p[2], Len(p[2])) # "]" THEN bad
    ELSE LET a == Num(After(p[1], 1))  b == Num(Before(p[2], Len(p[2])))
         IN [e |-> ~a.ok \/ ~b.ok, lo |-> a.v, hi |-> b.v]

FisReadTerm(s, names) ==
    LET line == Drop(s, {"[", "]"}, 1)  nt == SplitC(line, ":") IN
    IF Len(nt) # 2 THEN BadTerm
    ELSE LET tp == SplitC(nt[2], ",") IN
         IF Len(tp) # 2 THEN BadTerm
         ELSE LET k == FisToFl(Trim(tp[1]))
                  ps0 == SplitC(tp[2], " ")
                  ps == [i \in 1 .. Len(ps0) |-> Trim(ps0[i])]
                  ord == IF Trim(tp[1]) \in { FisClasses[x] : x \in DOMAIN FisClasses } THEN FisOrder(k) ELSE << >>
                  ws == IF Len(ps) >= Len(ord) THEN Back(ps, ord) ELSE ps
              IN ConfiguredTerm(ValidName(Trim(nt[1])), k, ws, Join(ws, ""), names)

FisFlag(s) == [e |-> ~Num(s).ok, v |-> IF Num(s).ok THEN FEq(Num(s).v, One) ELSE FALSE]

\* a property of a variable: [e, v]
FisVarKey(v, key, val, names, out) ==
    CASE key = "Name" -> [e |-> FALSE, v |-> [v EXCEPT !.name = ValidName(val)]]
      [] key = "Enabled" -> [e |-> FisFlag(val).e, v |-> [v EXCEPT !.en = FisFlag(val).v]]
      [] key = "Range" -> LET r == FisRange(val) IN [e |-> r.e, v |-> [v EXCEPT !.lo = r.lo, !.hi = r.hi]]
      [] Starts(key, "MF") -> LET r == FisReadTerm(val, names) IN [e |-> r.e, v |-> IF r.e THEN v ELSE [v EXCEPT !.terms = Append(@, r.t)]]
      [] key = "NumMFs" -> [e |-> FALSE, v |-> v]
      [] out /\ key = "Default" -> [e |-> ~Num(val).ok, v |-> [v EXCEPT !.def = Num(val).v]]
      [] out /\ key = "LockPrevious" -> [e |-> FisFlag(val).e, v |-> [v EXCEPT !.lockp = FisFlag(val).v]]
      [] out /\ key = "LockRange" -> [e |-> FisFlag(val).e, v |-> [v EXCEPT !.lock = FisFlag(val).v]]
      [] OTHER -> [e |-> TRUE, v |-> v]
AllNames(c) == { c.ins[i].name : i \in 1 .. Len(c.ins) } \cup { c.outs[i].name : i \in 1 .. Len(c.outs) }

FisVarLine(acc, line, out) ==
    LET kv == SplitC(line, "=")
        n == IF out THEN Len(acc.c.outs) ELSE Len(acc.c.ins) IN
    IF Len(kv) # 2 THEN [acc EXCEPT !.e = TRUE]
    ELSE LET r == FisVarKey(IF out THEN acc.c.outs[n] ELSE acc.c.ins[n], Trim(kv[1]), Trim(kv[2]), AllNames(acc.c), out) IN
         IF r.e THEN [acc EXCEPT !.e = TRUE]
         ELSE IF out THEN [acc EXCEPT !.c.outs[n] = r.v] ELSE [acc EXCEPT !.c.ins[n] = r.v]

\* what a code says of a variable: [e, skip, text]
CodeHedge(f) == CASE FEq(f, Zero) -> "" [] FEq(f, <<1, 100>>) -> "seldom " [] FEq(f, <<1, 20>>) -> "somewhat "
                  [] FEq(f, <<1, 5>>) -> "very " [] FEq(f, <<3, 10>>) -> "extremely " [] FEq(f, <<2, 5>>) -> "very very "
                  [] FEq(f, <<99, 100>>) -> "any " [] OTHER -> "?"
ReadCode(word, v) ==
    LET x == Num(word)  a == Abs(x.v)  i == a[1] \div a[2]  h == CodeHedge(Sub(a, <<i, 1>>)) IN
    IF ~x.ok THEN [e |-> TRUE, skip |-> TRUE, text |-> ""]
    ELSE IF FEq(a, Zero) THEN [e |-> FALSE, skip |-> TRUE, text |-> ""]
    ELSE [e |-> i > Len(v.terms) \/ h = "?", skip |-> FALSE,
          text |-> v.name \o " is " \o (IF x.v[1] < 0 THEN "not " ELSE "") \o h \o
                   (IF i >= 1 /\ i <= Len(v.terms) THEN v.terms[i].name ELSE "")]

FisRuleLine(acc, line) ==
    LET bad == [acc EXCEPT !.e = TRUE]
        io == SplitC(line, ",")
        oc == IF Len(io) = 2 THEN SplitC(io[2], ":") ELSE << >> IN
    IF Len(io) # 2 \/ Len(oc) # 2 THEN bad
    ELSE LET is == SplitC(io[1], " ")  os == SplitC(oc[1], " ")  conn == Trim(oc[2]) IN
    IF os = << >> \/ Len(is) # Len(acc.c.ins) \/ Len(os) # Len(acc.c.outs) + 1 THEN bad
    ELSE LET a == [i \in 1 .. Len(is) |-> ReadCode(is[i], acc.c.ins[i])]
             b == [i \in 1 .. Len(acc.c.outs) |-> ReadCode(os[i], acc.c.outs[i])]
             texts(s) == LET u == SelectSeq(s, LAMBDA x : ~x.skip) IN [i \in 1 .. Len(u) |-> u[i].text]
             w == Num(Drop(os[Len(os)], {"(", ")", " "}, 1))
         IN IF \/ \E i \in 1 .. Len(a) : a[i].e
               \/ \E i \in 1 .. Len(b) : b[i].e
               \/ Len(texts(a)) > 1 /\ conn \notin {"1", "2"}
               \/ ~w.ok THEN bad
            ELSE LET t == "if " \o Join(texts(a), IF conn = "1" THEN " and " ELSE " or ") \o " then " \o Join(texts(b), " and ") \o
                          (IF FEq(w.v, One) THEN "" ELSE " with " \o FmtNum(w.v, 3))
                 IN [acc EXCEPT !.c.blocks[Len(acc.c.blocks)].rules = Append(@, t)]

RECURSIVE FisLinesOf(_, _, _, _)
FisLinesOf(acc, sec, i, kind) ==
    IF i > Len(sec) \/ acc.e THEN acc
    ELSE FisLinesOf(TLCEval(CASE kind = "system" -> FisSystem(acc, sec[i])
                              [] kind = "in" -> FisVarLine(acc, sec[i], FALSE)
                              [] kind = "out" -> FisVarLine(acc, sec[i], TRUE)
                              [] kind = "rules" -> FisRuleLine(acc, sec[i])), sec, i + 1, kind)
RECURSIVE FisSections(_, _, _)
FisSections(acc, secs, i) ==
    IF i > Len(secs) \/ acc.e THEN acc
    ELSE LET h == secs[i][1]
             a1 == IF Starts(h, "[System]") THEN FisLinesOf(acc, secs[i], 2, "system")
                   ELSE IF Starts(h, "[Input") THEN FisLinesOf([acc EXCEPT !.c.ins = Append(@, NewIn(""))], secs[i], 2, "in")
                   ELSE IF Starts(h, "[Output") THEN FisLinesOf([acc EXCEPT !.c.outs = Append(@, NewOut(""))], secs[i], 2, "out")
                   ELSE FisLinesOf([acc EXCEPT !.c.blocks = Append(@, NewBlk("", Len(acc.c.ins), Len(acc.c.outs)))], secs[i], 2, "rules")
         IN FisSections(a1, secs, i + 1)

\* a component by its name in the format or by its own: "?" if there is none
Component(f(_), S, n) == IF n = "" THEN "none" ELSE LET k == Inverse(f, S, n) IN IF k \in S THEN k ELSE "?"
Configured(c, conj, disj, impl, agg, df) ==
    [c EXCEPT !.blocks = [b \in 1 .. Len(c.blocks) |->
                  [c.blocks[b] EXCEPT !.conj = conj, !.disj = disj, !.impl = impl, !.act = [NoAct EXCEPT !.k = "General"]]],
              !.outs = [o \in 1 .. Len(c.outs) |->
                  [c.outs[o] EXCEPT !.agg = agg, !.df = IF df = "none" THEN NoDf ELSE [k |-> df, res |-> DefaultRes, type |-> "Automatic"]]]]

FisRead(lines) ==
    LET s == Sections(lines, 1, << >>) IN
    IF s.e THEN [e |-> TRUE, c |-> EmptyCfg]
    ELSE LET a == FisSections(FAcc(FALSE, EmptyCfg, NoMethods), s.s, 1)
             conj == Component(FisTNorm, TNorms, a.m.and)  disj == Component(FisSNorm, SNorms, a.m.or)
             impl == Component(FisTNorm, TNorms, a.m.imp)  agg == Component(FisSNorm, SNorms, a.m.agg)
             df == Component(FisDf, Integrals \cup WeightedDfs, a.m.df)
         IN [e |-> a.e \/ "?" \in {conj, disj, impl, agg, df}, c |-> Configured(a.c, conj, disj, impl, agg, df)]

-----------------------------------------------------------------------------
(* what is left after writing and reading *)
\* a rule the format can express: it says each thing once, in the one order codes have
Expressible(hs) == LET u == IF hs # << >> /\ hs[1] = "not" THEN Tail(hs) ELSE hs IN
                   Len(u) = 0 \/ (Len(u) = 1 /\ u[1] # "not") \/ u = <<"very", "very">>
RuleExpressible(r) ==
    LET ps == SelectSeq(r.ante, LAMBDA p : p.op = "prop") IN
    /\ \A i \in 1 .. Len(ps) : ps[i].v[1] = "in" /\ Expressible(ps[i].hs)
    /\ \A i \in 1 .. Len(r.cons) : Expressible(r.cons[i].hs)
    /\ \A i, j \in 1 .. Len(ps) : i # j => ps[i].v # ps[j].v
    /\ \A i, j \in 1 .. Len(r.cons) : i # j => r.cons[i].v # r.cons[j].v
    /\ Cardinality(Connectors(r)) <= 1

\* the format has one place for each variable
SaidOnce(st) == \A b \in 1 .. Len(st.blocks) : \A r \in 1 .. Len(st.blocks[b].rules) :
    LET q == st.blocks[b].rules[r]  ps == SelectSeq(q.ante, LAMBDA p : p.op = "prop")
        once(s) == \A i, j \in 1 .. Len(s) : i # j => s[i].v # s[j].v
    IN q.loaded => once(ps) /\ once(q.cons)

\* functions without what the format uses for itself
FunctionsFit(c) == \A v \in { c.ins[i] : i \in 1 .. Len(c.ins) } \cup { c.outs[i] : i \in 1 .. Len(c.outs) } :
                      \A t \in 1 .. Len(v.terms) : v.terms[t].k = "Function" => Find(v.terms[t].text, {",", "=", "%"}, 1) = 0
FisFits(c, st) == /\ \A b \in 1 .. Len(st.blocks) : \A r \in 1 .. Len(st.blocks[b].rules) :
                        st.blocks[b].rules[r].loaded => RuleExpressible(st.blocks[b].rules[r])
                  /\ FunctionsFit(c)

PropText(c, p) == LET v == IF p.v[1] = "in" THEN c.ins[p.v[2]] ELSE c.outs[p.v[2]] IN
    v.name \o " is " \o Join([i \in 1 .. Len(p.hs) |-> p.hs[i] \o " "], "") \o (IF p.term = 0 THEN "" ELSE v.terms[p.term].name)
\* propositions in the order of the variables
Sorted(ps, side, n) == FlatL([i \in 1 .. n |-> SelectSeq(ps, LAMBDA p : p.v = <<side, i>>)])
KeptRule(c, r, d) ==
    LET ps == Sorted(SelectSeq(r.ante, LAMBDA p : p.op = "prop"), "in", Len(c.ins))
        cs == Sorted(r.cons, "out", Len(c.outs))
        w == Rounded(r.w, d) IN
    "if " \o Join([i \in 1 .. Len(ps) |-> PropText(c, ps[i])], IF Connectors(r) = {"or"} THEN " or " ELSE " and ")
    \o " then " \o Join([i \in 1 .. Len(cs) |-> PropText(c, cs[i])], " and ")
    \o (IF FEq(w, One) THEN "" ELSE " with " \o FmtNum(w, 3))

Glued(s) == Drop(s, {" "}, 1)
PlainTerm(t) == [t EXCEPT !.h = One, !.text = Glued(@)]
PlainVar(v) == [v EXCEPT !.desc = "", !.en = TRUE, !.lock = FALSE, !.terms = [i \in 1 .. Len(v.terms) |-> PlainTerm(v.terms[i])]]
FisKept(c, st, d) ==
    LET r == RoundCfg(c, d)
        norm(f, alt) == FirstOf([i \in 1 .. Len(c.blocks) |-> c.blocks[i][f]], alt)
        rules == FlatL([b \in 1 .. Len(st.blocks) |->
                     [i \in 1 .. Len(Loaded(st.blocks[b])) |-> KeptRule(r, Loaded(st.blocks[b])[i], d)]])
    IN Configured([r EXCEPT !.desc = "",
                      !.ins = [i \in 1 .. Len(r.ins) |-> PlainVar(r.ins[i])],
                      !.outs = [i \in 1 .. Len(r.outs) |-> [PlainVar(r.outs[i]) EXCEPT !.def = NaN, !.lockp = FALSE]],
                      !.blocks = << [NewBlk("", Len(c.ins), Len(c.outs)) EXCEPT !.rules = rules] >>],
                  norm("conj", "Minimum"), norm("disj", "Maximum"), norm("impl", "Minimum"),
                  FirstOf([i \in 1 .. Len(c.outs) |-> c.outs[i].agg], "Maximum"),
                  FirstOf([i \in 1 .. Len(c.outs) |-> c.outs[i].df.k], "none"))
=============================================================================
