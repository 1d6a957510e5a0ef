--------------------------------- MODULE Fll ---------------------------------
(* The FuzzyLite Language: writing a configuration and reading one.         *)
EXTENDS Config

BoolText(b) == IF b THEN "true" ELSE "false"
DfText(f) == IF f.k = "none" THEN "none"
             ELSE IF f.k \in Integrals THEN (IF f.res = DefaultRes THEN f.k ELSE f.k \o " " \o ToString(f.res))
             ELSE IF f.type = "Automatic" THEN f.k ELSE f.k \o " " \o f.type
ActText(a, d) ==
    CASE a.k \in {"First", "Last"} -> a.k \o " " \o ToString(a.n) \o " " \o FmtNum(a.th, d)
      [] a.k \in {"Highest", "Lowest"} -> a.k \o " " \o ToString(a.n)
      [] a.k = "Threshold" -> a.k \o " " \o a.cmp \o " " \o FmtNum(a.th, d)
      [] OTHER -> a.k
TermText(t, d) == LET p == ParamText(t, d) IN
    "term: " \o ValidName(t.name) \o " " \o t.k \o (IF p = "" THEN "" ELSE " " \o p)

DescLines(x, ind) == IF x = "" THEN << >> ELSE << ind \o "description: " \o x >>
TermLines(ts, d, ind) == [i \in 1 .. Len(ts) |-> ind \o TermText(ts[i], d)]
VarLines(kind, v, extra, d, ind) ==
    << kind \o ": " \o ValidName(v.name) >> \o DescLines(v.desc, ind) \o
    << ind \o "enabled: " \o BoolText(v.en),
       ind \o "range: " \o FmtNum(v.lo, d) \o " " \o FmtNum(v.hi, d),
       ind \o "lock-range: " \o BoolText(v.lock) >> \o extra \o TermLines(v.terms, d, ind)
InLines(v, d, ind) == VarLines("InputVariable", v, << >>, d, ind)
OutLines(v, d, ind) == VarLines("OutputVariable", v,
    << ind \o "aggregation: " \o v.agg, ind \o "defuzzifier: " \o DfText(v.df),
       ind \o "default: " \o FmtNum(v.def, d), ind \o "lock-previous: " \o BoolText(v.lockp) >>, d, ind)
BlkLines(b, d, ind) ==
    << "RuleBlock: " \o b.name >> \o DescLines(b.desc, ind) \o
    << ind \o "enabled: " \o BoolText(b.en), ind \o "conjunction: " \o b.conj,
       ind \o "disjunction: " \o b.disj, ind \o "implication: " \o b.impl,
       ind \o "activation: " \o ActText(b.act, d) >> \o
    [r \in 1 .. Len(b.rules) |-> ind \o "rule: " \o b.rules[r]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

FllLines(c, d, ind) ==
    << "Engine: " \o c.name >> \o DescLines(c.desc, "") \o
    Flat([i \in 1 .. Len(c.ins) |-> InLines(c.ins[i], d, ind)]) \o
    Flat([i \in 1 .. Len(c.outs) |-> OutLines(c.outs[i], d, ind)]) \o
    Flat([i \in 1 .. Len(c.blocks) |-> BlkLines(c.blocks[i], d, ind)])

-----------------------------------------------------------------------------
(* reading: acc = [e: raised, tag: kind of the block being read, c: so far] *)
FllErr(acc) == [acc EXCEPT !.e = TRUE]

ReadBool(s) == [ok |-> s \in {"true", "false"}, v |-> s = "true"]
IntOf(x) == IF IsFinite(x) THEN (IF x[1] < 0 THEN -((-x[1]) \div x[2]) ELSE x[1] \div x[2]) ELSE 0

\* the words of a term: name class parameters
NamesOf(c) == { c.ins[i].name : i \in 1 .. Len(c.ins) } \cup { c.outs[i].name : i \in 1 .. Len(c.outs) }
ReadTerm(s, names) == LET ws == SplitBy(s, " ") IN
    IF Len(ws) < 2 THEN BadTerm
    ELSE ConfiguredTerm(ValidName(ws[1]), ws[2], SubSeq(ws, 3, Len(ws)), Join(SubSeq(ws, 3, Len(ws)), " "), names)

ReadDf(s) == LET ws == SplitBy(s, " ") IN
    IF ws = << >> THEN [e |-> TRUE, v |-> NoDf]
    ELSE IF ws[1] \in {"none", ""} THEN [e |-> FALSE, v |-> NoDf]
    ELSE IF ws[1] \in Integrals THEN
         IF Len(ws) = 1 THEN [e |-> FALSE, v |-> [k |-> ws[1], res |-> DefaultRes, type |-> "Automatic"]]
         ELSE [e |-> ~Num(ws[2]).ok, v |-> [k |-> ws[1], res |-> IntOf(Num(ws[2]).v), type |-> "Automatic"]]
    ELSE IF ws[1] \in {"WeightedAverage", "WeightedSum"} THEN
         LET ty == IF Len(ws) = 1 THEN "Automatic" ELSE ws[2] IN
         [e |-> ty \notin {"Automatic", "TakagiSugeno", "Tsukamoto"}, v |-> [k |-> ws[1], res |-> 1, type |-> ty]]
    ELSE [e |-> TRUE, v |-> NoDf]

ReadAct(s) == LET ws == SplitBy(s, " ")  k == ws[1]  n == Len(ws) - 1
                  base == [NoAct EXCEPT !.k = k] IN
    IF s = "none" THEN [e |-> FALSE, v |-> NoAct]
    ELSE IF k \notin Activations THEN [e |-> TRUE, v |-> NoAct]
    ELSE IF n = 0 \/ k \in {"General", "Proportional"} THEN [e |-> FALSE, v |-> base]
    ELSE LET x == Num(ws[2]) IN
         IF k \in {"Highest", "Lowest"} THEN [e |-> ~x.ok, v |-> [base EXCEPT !.n = IntOf(x.v)]]
         ELSE IF n < 2 THEN [e |-> TRUE, v |-> NoAct]
         ELSE LET y == Num(ws[3]) IN
              IF k = "Threshold"
              THEN [e |-> ~y.ok \/ ws[2] \notin {"<", "<=", "==", "!=", ">=", ">"},
                    v |-> [base EXCEPT !.cmp = ws[2], !.th = y.v]]
              ELSE [e |-> ~x.ok \/ ~y.ok, v |-> [base EXCEPT !.n = IntOf(x.v), !.th = y.v]]

ReadRange(s) == LET i == Find(s, {" "}, 1)
                    a == Num(Before(s, i))  b == Num(After(s, i))
                IN IF i = 0 THEN [e |-> TRUE, lo |-> NaN, hi |-> NaN]
                   ELSE [e |-> ~a.ok \/ ~b.ok, lo |-> a.v, hi |-> b.v]

\* keys that inputs and outputs have in common: [e, known, v]
VarKey(v, key, s, names) ==
    CASE key = "description" -> [e |-> FALSE, known |-> TRUE, v |-> [v EXCEPT !.desc = s]]
      [] key = "enabled" -> [e |-> ~ReadBool(s).ok, known |-> TRUE, v |-> [v EXCEPT !.en = ReadBool(s).v]]
      [] key = "lock-range" -> [e |-> ~ReadBool(s).ok, known |-> TRUE, v |-> [v EXCEPT !.lock = ReadBool(s).v]]
      [] key = "range" -> LET r == ReadRange(s) IN
                          [e |-> r.e, known |-> TRUE, v |-> [v EXCEPT !.lo = r.lo, !.hi = r.hi]]
      [] key = "term" -> LET r == ReadTerm(s, names) IN
                         [e |-> r.e, known |-> TRUE, v |-> IF r.e THEN v ELSE [v EXCEPT !.terms = Append(@, r.t)]]
      [] OTHER -> [e |-> TRUE, known |-> FALSE, v |-> v]
OutKey(v, key, s, names) ==
    CASE key = "default" -> [e |-> ~Num(s).ok, v |-> [v EXCEPT !.def = Num(s).v]]
      [] key \in {"lock-previous", "lock-valid"} -> [e |-> ~ReadBool(s).ok, v |-> [v EXCEPT !.lockp = ReadBool(s).v]]
      [] key \in {"aggregation", "accumulation"} ->
            [e |-> s \notin SNorms \cup {"none", ""}, v |-> [v EXCEPT !.agg = IF s = "" THEN "none" ELSE s]]
      [] key = "defuzzifier" -> [e |-> ReadDf(s).e, v |-> [v EXCEPT !.df = ReadDf(s).v]]
      [] OTHER -> LET r == VarKey(v, key, s, names) IN [e |-> r.e, v |-> r.v]
InKey(v, key, s, names) == LET r == VarKey(v, key, s, names) IN [e |-> r.e, v |-> r.v]
BlkKey(b, key, s) ==
    LET n == IF s = "" THEN "none" ELSE s  tn == s \in TNorms \cup {"none", ""}  sn == s \in SNorms \cup {"none", ""} IN
    CASE key = "description" -> [e |-> FALSE, v |-> [b EXCEPT !.desc = s]]
      [] key = "enabled" -> [e |-> ~ReadBool(s).ok, v |-> [b EXCEPT !.en = ReadBool(s).v]]
      [] key = "conjunction" -> [e |-> ~tn, v |-> [b EXCEPT !.conj = n]]
      [] key = "disjunction" -> [e |-> ~sn, v |-> [b EXCEPT !.disj = n]]
      [] key = "implication" -> [e |-> ~tn, v |-> [b EXCEPT !.impl = n]]
      [] key = "activation" -> IF s \in TNorms \cup {""} THEN [e |-> FALSE, v |-> [b EXCEPT !.impl = n]]
                               ELSE [e |-> ReadAct(s).e, v |-> [b EXCEPT !.act = ReadAct(s).v]]
      [] key = "rule" -> [e |-> FALSE, v |-> [b EXCEPT !.rules = Append(@, s)]]
      [] OTHER -> [e |-> TRUE, v |-> b]

FllStep(acc, raw) ==
    LET line == Trim(Upto(raw, {"#"}))
        colon == Find(line, {":"}, 1)
        key == Trim(Before(line, colon))
        val == Trim(After(line, colon))
        c == acc.c
        last(s) == s[Len(s)]
    IN
    IF line = "" THEN acc
    ELSE IF colon = 0 THEN FllErr(acc)
    ELSE IF key = "Engine" THEN [acc EXCEPT !.c.name = val]
    ELSE IF key = "description" /\ acc.tag = "" THEN [acc EXCEPT !.c.desc = val]
    ELSE IF key = "InputVariable" THEN [acc EXCEPT !.tag = key, !.c.ins = Append(@, NewIn(ValidName(val)))]
    ELSE IF key = "OutputVariable" THEN [acc EXCEPT !.tag = key, !.c.outs = Append(@, NewOut(ValidName(val)))]
    ELSE IF key = "RuleBlock" THEN
         [acc EXCEPT !.tag = key, !.c.blocks = Append(@, NewBlk(val, Len(c.ins), Len(c.outs)))]
    ELSE IF acc.tag = "" THEN FllErr(acc)
    ELSE IF acc.tag = "InputVariable" THEN
         LET r == InKey(last(c.ins), key, val, NamesOf(c)) IN [acc EXCEPT !.e = @ \/ r.e, !.c.ins[Len(c.ins)] = r.v]
    ELSE IF acc.tag = "OutputVariable" THEN
         LET r == OutKey(last(c.outs), key, val, NamesOf(c)) IN [acc EXCEPT !.e = @ \/ r.e, !.c.outs[Len(c.outs)] = r.v]
    ELSE LET r == BlkKey(last(c.blocks), key, val) IN [acc EXCEPT !.e = @ \/ r.e, !.c.blocks[Len(c.blocks)] = r.v]

RECURSIVE FllRun(_, _, _)
FllRun(acc, lines, i) == IF i > Len(lines) \/ acc.e THEN acc ELSE FllRun(TLCEval(FllStep(acc, lines[i])), lines, i + 1)

GeneralIfNone(c) == [c EXCEPT !.blocks = [b \in 1 .. Len(c.blocks) |->
                        [c.blocks[b] EXCEPT !.act = IF @.k = "none" THEN [@ EXCEPT !.k = "General"] ELSE @]]]

\* what the lines describe: [e, c]
FllRead(lines) == LET a == FllRun([e |-> FALSE, tag |-> "", c |-> EmptyCfg], lines, 1)
                  IN [e |-> a.e, c |-> GeneralIfNone(a.c)]

\* what is left of a configuration after writing and reading it
FllKept(c, d) == LET r == GeneralIfNone(RoundCfg(c, d)) IN
                 [r EXCEPT !.blocks = [b \in 1 .. Len(r.blocks) |->
                                          [r.blocks[b] EXCEPT !.nin = Len(c.ins), !.nout = Len(c.outs)]]]
=============================================================================
