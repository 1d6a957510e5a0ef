--------------------------------- MODULE Fcl ---------------------------------
(* The FCL format (IEC 61131-7): writing a configuration and reading one.    *)
EXTENDS Fis

FclTNorm(k) == CASE k = "Minimum" -> "MIN" [] k = "AlgebraicProduct" -> "PROD" [] k = "BoundedDifference" -> "BDIF"
                 [] k = "DrasticProduct" -> "DPROD" [] k = "EinsteinProduct" -> "EPROD" [] k = "HamacherProduct" -> "HPROD"
                 [] k = "NilpotentMinimum" -> "NMIN" [] k = "none" -> "NONE"
FclSNorm(k) == CASE k = "Maximum" -> "MAX" [] k = "AlgebraicSum" -> "ASUM" [] k = "BoundedSum" -> "BSUM" [] k = "NormalizedSum" -> "NSUM"
                 [] k = "DrasticSum" -> "DSUM" [] k = "EinsteinSum" -> "ESUM" [] k = "HamacherSum" -> "HSUM"
                 [] k = "NilpotentMaximum" -> "NMAX" [] k = "UnboundedSum" -> "UnboundedSum" [] k = "none" -> "NONE"
FclDf(k) == CASE k = "Centroid" -> "COG" [] k = "Bisector" -> "COA" [] k = "SmallestOfMaximum" -> "LM" [] k = "LargestOfMaximum" -> "RM"
              [] k = "MeanOfMaximum" -> "MM" [] k = "WeightedAverage" -> "COGS" [] k = "WeightedSum" -> "COGSS" [] k = "none" -> "NONE"

FclTerm(t, d) ==
    IF t.k = "Discrete" THEN Join([i \in 1 .. Len(t.p) \div 2 |->
            "(" \o FmtNum(t.p[2 * i - 1], d) \o ", " \o FmtNum(t.p[2 * i], d) \o ")"], " ")
    ELSE IF t.k = "Constant" THEN FmtNum(t.p[1], d)
    ELSE t.k \o " " \o ParamText(t, d)
FclTerms(ts, d, ind) == [i \in 1 .. Len(ts) |-> ind \o "TERM " \o ValidName(ts[i].name) \o " := " \o FclTerm(ts[i], d) \o ";"]
FclVars(kind, vs, ind) == << kind >> \o [i \in 1 .. Len(vs) |-> ind \o ValidName(vs[i].name) \o ": REAL;"] \o << "END_VAR", "" >>
FclRangeText(v, d, ind) == ind \o "RANGE := (" \o FmtNum(v.lo, d) \o " .. " \o FmtNum(v.hi, d) \o ");"
FclIn(v, d, ind) == << "FUZZIFY " \o ValidName(v.name), FclRangeText(v, d, ind) >> \o FclTerms(v.terms, d, ind) \o << "END_FUZZIFY", "" >>
If(c, s) == IF c THEN << s >> ELSE << >>
FclOut(v, d, ind) ==
    << "DEFUZZIFY " \o ValidName(v.name), FclRangeText(v, d, ind) >> \o FclTerms(v.terms, d, ind) \o
    If(v.df.k # "none", ind \o "METHOD : " \o FclDf(v.df.k) \o ";") \o
    If(v.agg # "none", ind \o "ACCU : " \o FclSNorm(v.agg) \o ";") \o
    << ind \o "DEFAULT := " \o FmtNum(v.def, d) \o (IF v.lockp THEN " | NC" ELSE "") \o ";", "END_DEFUZZIFY", "" >>
FclBlk(b, d, ind) ==
    << "RULEBLOCK " \o b.name >> \o If(b.conj # "none", ind \o "AND : " \o FclTNorm(b.conj) \o ";") \o
    If(b.disj # "none", ind \o "OR : " \o FclSNorm(b.disj) \o ";") \o If(b.impl # "none", ind \o "ACT : " \o FclTNorm(b.impl) \o ";") \o
    [r \in 1 .. Len(b.rules) |-> ind \o "RULE " \o ToString(r) \o " : " \o b.rules[r]] \o << "END_RULEBLOCK", "" >>
FclLines(c, d, ind, lib) ==
    << "//Code automatically generated with " \o lib[1] \o ".", "", "FUNCTION_BLOCK " \o c.name, "" >> \o
    FclVars("VAR_INPUT", c.ins, ind) \o FclVars("VAR_OUTPUT", c.outs, ind) \o
    FlatL([i \in 1 .. Len(c.ins) |-> FclIn(c.ins[i], d, ind)]) \o
    FlatL([i \in 1 .. Len(c.outs) |-> FclOut(c.outs[i], d, ind)]) \o
    FlatL([i \in 1 .. Len(c.blocks) |-> FclBlk(c.blocks[i], d, ind)]) \o << "END_FUNCTION_BLOCK", "" >>

-----------------------------------------------------------------------------
(* reading *)
FclClean(raw) == LET s == Trim(Drop(Upto(UptoStr(raw, "//"), {"#"}), {";"}, 1))
                 IN IF s = "" THEN "" ELSE IF Ch(s, 1) = "%" THEN "" ELSE s
Closing(t) == CASE t \in {"VAR_INPUT", "VAR_OUTPUT"} -> "END_VAR" [] t = "FUZZIFY" -> "END_FUZZIFY"
                [] t = "DEFUZZIFY" -> "END_DEFUZZIFY" [] t = "RULEBLOCK" -> "END_RULEBLOCK"
BlockTags == {"VAR_INPUT", "VAR_OUTPUT", "FUZZIFY", "DEFUZZIFY", "RULEBLOCK"}

AfterColon(line) == LET p == SplitC(line, ":") IN [ok |-> Len(p) = 2, v |-> IF Len(p) = 2 THEN Trim(p[2]) ELSE ""]
AfterAssign(line) == LET p == NonEmpty(PiecesStr(line, ":=")) IN [ok |-> Len(p) = 2, v |-> IF Len(p) = 2 THEN p[2] ELSE ""]
FclComponent(f(_), S, n) == IF n = "NONE" THEN "none" ELSE Component(f, S, n)

FclEnabled(line) == LET v == AfterColon(line) IN [e |-> ~v.ok \/ v.v \notin {"TRUE", "FALSE"}, v |-> v.v = "TRUE"]
FclRange(line) ==
    LET a == AfterAssign(line)
        p == NonEmpty(PiecesStr(Drop(a.v, {"(", ")", " "}, 1), ".."))
    IN IF ~a.ok \/ Len(p) # 2 THEN [e |-> TRUE, lo |-> NaN, hi |-> NaN]
       ELSE [e |-> ~Num(p[1]).ok \/ ~Num(p[2]).ok, lo |-> Num(p[1]).v, hi |-> Num(p[2]).v]
FclDefault(line) ==
    LET a == AfterAssign(line)
        p == SplitC(a.v, "|")
        nc == IF Len(p) = 2 THEN Trim(p[2]) ELSE ""
    IN IF ~a.ok \/ p = << >> THEN [e |-> TRUE, v |-> NaN, nc |-> FALSE]
       ELSE [e |-> ~Num(Trim(p[1])).ok \/ nc \notin {"NC", ""}, v |-> Num(Trim(p[1])).v, nc |-> nc = "NC"]
FclLocks(line) ==
    LET i == Find(line, {":"}, 1)
        p == SplitC(After(line, i), "|")
        f == [k \in 1 .. Len(p) |-> Trim(p[k])]
        has(w) == \E k \in 1 .. Len(f) : f[k] = w
    IN [e |-> \/ i = 0 \/ Len(p) \notin {1, 2}
              \/ (Len(p) = 1 /\ ~(has("PREVIOUS") \/ has("RANGE")))
              \/ (Len(p) = 2 /\ ~(has("PREVIOUS") /\ has("RANGE"))),
        prev |-> has("PREVIOUS"), range |-> has("RANGE")]

FclSpaced(s) == LET RECURSIVE Go(_)
                    Go(i) == IF i > Len(s) THEN ""
                             ELSE LET c == Ch(s, i) IN
                                  (IF c \in {"(", ")", ","} THEN " " \o c \o " " ELSE IF c = ":" THEN " :"
                                   ELSE IF c = "=" THEN "= " ELSE c) \o Go(i + 1)
                IN Go(1)
RECURSIVE FirstIx(_, _, _)
FirstIx(ws, x, i) == IF i > Len(ws) THEN 0 ELSE IF ws[i] = x THEN i ELSE FirstIx(ws, x, i + 1)
FclReadTerm(line, names) ==
    LET ws == Words(FclSpaced(line))             \* TERM name ... := class parameters
        a == FirstIx(ws, ":=", 3)
    IN IF Len(ws) < 2 \/ a = 0 \/ a = Len(ws) THEN BadTerm
       ELSE LET c == ws[a + 1]
                rest == SubSeq(ws, a + 2, Len(ws))
                plain == SelectSeq(rest, LAMBDA x : x \notin {"(", ")", ","})
                n == ValidName(ws[2])
            IN IF Num(c).ok THEN ConfiguredTerm(n, "Constant", << c >> \o plain, "", names)
               ELSE IF c = "(" THEN ConfiguredTerm(n, "Discrete", plain, "", names)
               ELSE IF c = "Function" THEN ConfiguredTerm(n, c, rest, Join(rest, ""), names)
               ELSE ConfiguredTerm(n, c, plain, "", names)

\* blocks: acc = [e, c]; lines of a block with the heading first
IxNamed(vs, n) == IF \E i \in 1 .. Len(vs) : vs[i].name = n THEN CHOOSE i \in 1 .. Len(vs) : vs[i].name = n /\ \A j \in 1 .. i - 1 : vs[j].name # n ELSE 0
HeadName(line) == LET i == Find(line, {" "}, 1) IN [ok |-> i > 0, v |-> ValidName(After(line, i))]

FclVarLine(acc, line, out) ==
    LET p == SplitC(line, ":") IN
    IF Len(p) # 2 THEN [acc EXCEPT !.e = TRUE]
    ELSE IF out THEN [acc EXCEPT !.c.outs = Append(@, NewOut(ValidName(p[1])))]
    ELSE [acc EXCEPT !.c.ins = Append(@, NewIn(ValidName(p[1])))]

FclVarKey(v, line, names) ==
    LET k == Words(line)[1] IN
    CASE k = "RANGE" -> LET r == FclRange(line) IN [e |-> r.e, v |-> [v EXCEPT !.lo = r.lo, !.hi = r.hi]]
      [] k = "ENABLED" -> LET r == FclEnabled(line) IN [e |-> r.e, v |-> [v EXCEPT !.en = r.v]]
      [] k = "TERM" -> LET r == FclReadTerm(line, names) IN [e |-> r.e, v |-> IF r.e THEN v ELSE [v EXCEPT !.terms = Append(@, r.t)]]
      [] OTHER -> [e |-> TRUE, v |-> v]
FclOutKey(v, line, names) ==
    LET k == Words(line)[1] IN
    CASE k = "METHOD" -> LET a == AfterColon(line)  n == FclComponent(FclDf, Integrals \cup WeightedDfs, a.v) IN
            [e |-> ~a.ok \/ n = "?", v |-> [v EXCEPT !.df = IF n = "none" THEN NoDf ELSE [k |-> n, res |-> DefaultRes, type |-> "Automatic"]]]
      [] k = "ACCU" -> LET a == AfterColon(line)  n == FclComponent(FclSNorm, SNorms, a.v) IN
            [e |-> ~a.ok \/ n = "?", v |-> [v EXCEPT !.agg = n]]
      [] k = "DEFAULT" -> LET r == FclDefault(line) IN [e |-> r.e, v |-> [v EXCEPT !.def = r.v, !.lockp = @ \/ r.nc]]
      [] k = "LOCK" -> LET r == FclLocks(line) IN [e |-> r.e, v |-> [v EXCEPT !.lockp = r.prev, !.lock = r.range]]
      [] OTHER -> FclVarKey(v, line, names)
FclBlkKey(b, line) ==
    LET k == Upto(line, {" "})  a == AfterColon(line)  t == FclComponent(FclTNorm, TNorms, a.v)  s == FclComponent(FclSNorm, SNorms, a.v) IN
    CASE k = "AND" -> [e |-> ~a.ok \/ t = "?", v |-> [b EXCEPT !.conj = t]]
      [] k = "OR" -> [e |-> ~a.ok \/ s = "?", v |-> [b EXCEPT !.disj = s]]
      [] k = "ACT" -> [e |-> ~a.ok \/ t = "?", v |-> [b EXCEPT !.impl = t]]
      [] k = "ENABLED" -> LET r == FclEnabled(line) IN [e |-> r.e, v |-> [b EXCEPT !.en = r.v]]
      [] k = "RULE" -> LET i == Find(line, {":"}, 1) IN
            [e |-> FALSE, v |-> [b EXCEPT !.rules = Append(@, Trim(After(line, IF i = 0 THEN 5 ELSE i)))]]
      [] OTHER -> [e |-> TRUE, v |-> b]

RECURSIVE FclKeys(_, _, _, _, _)
FclKeys(acc, kind, n, blk, i) ==
    IF i > Len(blk) \/ acc.e THEN acc
    ELSE FclKeys(TLCEval(
            CASE kind \in {"VAR_INPUT", "VAR_OUTPUT"} -> FclVarLine(acc, blk[i], kind = "VAR_OUTPUT")
              [] kind = "FUZZIFY" -> LET r == FclVarKey(acc.c.ins[n], blk[i], AllNames(acc.c)) IN [acc EXCEPT !.e = r.e, !.c.ins[n] = r.v]
              [] kind = "DEFUZZIFY" -> LET r == FclOutKey(acc.c.outs[n], blk[i], AllNames(acc.c)) IN [acc EXCEPT !.e = r.e, !.c.outs[n] = r.v]
              [] kind = "RULEBLOCK" -> LET r == FclBlkKey(acc.c.blocks[n], blk[i]) IN [acc EXCEPT !.e = r.e, !.c.blocks[n] = r.v]),
         kind, n, blk, i + 1)
LastWord(line) == LET ps == Pieces(line, {" "}) IN IF Len(ps) = 1 THEN "" ELSE ps[Len(ps)]
FclBlock(acc, kind, blk) ==
    LET h == HeadName(blk[1])
        n == IF kind = "FUZZIFY" THEN IxNamed(acc.c.ins, h.v) ELSE IxNamed(acc.c.outs, h.v)
    IN CASE kind \in {"VAR_INPUT", "VAR_OUTPUT"} -> FclKeys(acc, kind, 0, blk, 2)
         [] kind \in {"FUZZIFY", "DEFUZZIFY"} -> IF ~h.ok \/ n = 0 THEN [acc EXCEPT !.e = TRUE] ELSE FclKeys(acc, kind, n, blk, 2)
         [] kind = "RULEBLOCK" ->
              FclKeys([acc EXCEPT !.c.blocks = Append(@, [NewBlk(LastWord(blk[1]), Len(acc.c.ins), Len(acc.c.outs)) EXCEPT !.act.k = "General"])],
                      kind, Len(acc.c.blocks) + 1, blk, 2)

RECURSIVE FclRun(_, _, _, _)
FclRun(acc, lines, i, blk) ==         \* blk: << >> or the lines of the open block
    IF acc.e THEN acc
    ELSE IF i > Len(lines) THEN [acc EXCEPT !.e = blk # << >>]
    ELSE LET line == FclClean(lines[i])  w == IF line = "" THEN << >> ELSE Words(line)  k == IF blk = << >> THEN "" ELSE Words(blk[1])[1] IN
         IF line = "" THEN FclRun(acc, lines, i + 1, blk)
         ELSE IF w[1] = "FUNCTION_BLOCK" THEN
              FclRun(IF Len(w) = 1 THEN acc ELSE [acc EXCEPT !.c.name = Join(Tail(w), " ")], lines, i + 1, blk)
         ELSE IF w[1] = "END_FUNCTION_BLOCK" THEN [acc EXCEPT !.e = blk # << >>]
         ELSE IF blk = << >> THEN
              IF w[1] \in BlockTags THEN FclRun(acc, lines, i + 1, << line >>) ELSE [acc EXCEPT !.e = TRUE]
         ELSE IF w[1] = Closing(k) THEN FclRun(TLCEval(FclBlock(acc, k, blk)), lines, i + 1, << >>)
         ELSE IF w[1] \in BlockTags THEN [acc EXCEPT !.e = TRUE]
         ELSE FclRun(acc, lines, i + 1, Append(blk, line))
FclRead(lines) == LET a == FclRun([e |-> FALSE, c |-> EmptyCfg], lines, 1, << >>) IN [e |-> a.e, c |-> a.c]

-----------------------------------------------------------------------------
(* what is left after writing and reading *)
FclFits(c) == \A v \in { c.ins[i] : i \in 1 .. Len(c.ins) } \cup { c.outs[i] : i \in 1 .. Len(c.outs) } :
                 \A t \in 1 .. Len(v.terms) : v.terms[t].k = "Function" => FTokens(Glued(v.terms[t].text)) = FTokens(v.terms[t].text)
FclVar(v) == [v EXCEPT !.desc = "", !.en = TRUE, !.lock = FALSE,
                       !.terms = [i \in 1 .. Len(v.terms) |-> [v.terms[i] EXCEPT !.h = IF v.terms[i].k = "Discrete" THEN One ELSE @, !.text = Glued(@)]]]
FclKept(c, d) == LET r == RoundCfg(c, d) IN
    [r EXCEPT !.desc = "", !.name = Join(Words(@), " "),
              !.ins = [i \in 1 .. Len(r.ins) |-> FclVar(r.ins[i])],
              !.outs = [i \in 1 .. Len(r.outs) |->
                  [FclVar(r.outs[i]) EXCEPT !.df = IF @.k = "none" THEN NoDf ELSE [k |-> @.k, res |-> DefaultRes, type |-> "Automatic"]]],
              !.blocks = [b \in 1 .. Len(r.blocks) |-> [r.blocks[b] EXCEPT !.desc = "", !.en = TRUE, !.act = [NoAct EXCEPT !.k = "General"]]]]
=============================================================================
