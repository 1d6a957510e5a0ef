--------------------------------- MODULE Code ---------------------------------
(* Engines written as programs: the statements that build the engine of a   *)
(* configuration, in C++ and in Java, and the script for R.                 *)
EXTENDS Fll

Quoted(s) == LET RECURSIVE Go(_)
                 Go(i) == IF i > Len(s) THEN ""
                          ELSE (IF Ch(s, i) = "\\" THEN "\\\\" ELSE IF Ch(s, i) = "\"" THEN "\\\""
                                ELSE IF Ch(s, i) = "\n" THEN "\\n" ELSE Ch(s, i)) \o Go(i + 1)
             IN "\"" \o Go(1) \o "\""

(* a language: how it names classes, numbers that are not finite, members   *)
Cpp(ns)  == [k |-> "cpp", fl |-> IF ns THEN "fl::" ELSE "", ptr |-> "* ", arrow |-> "->", nil |-> "fl::null", unit |-> "",
             nan |-> "fl::nan", inf |-> "fl::inf", ninf |-> "-fl::inf", scope |-> "::"]
JavaCode == [k |-> "java", fl |-> "", ptr |-> " ", arrow |-> ".", nil |-> "null", unit |-> "()",
             nan |-> "Double.NaN", inf |-> "Double.POSITIVE_INFINITY", ninf |-> "Double.NEGATIVE_INFINITY", scope |-> "."]

CodeNum(L, x, d) == IF IsNaN(x) THEN L.nan ELSE IF IsInf(x) THEN (IF x[1] > 0 THEN L.inf ELSE L.ninf) ELSE FmtNum(x, d)
CodeNums(L, xs, d) == [i \in 1 .. Len(xs) |-> CodeNum(L, xs[i], d)]
Heighted(t) == t.k \notin {"Constant", "Linear", "Function"} /\ t.h # One
CodeArgs(ws) == "(" \o Join(ws, ", ") \o ")"

\* the expression that makes a term of an engine with n inputs
\* (in C++, linear terms are created with exactly a coefficient per input and a constant)
CodeTerm(L, t, n, d) ==
    CASE t.k = "Discrete" ->
            LET xs == IF L.k = "cpp" /\ Heighted(t) THEN Append(t.p, t.h) ELSE t.p IN
            L.fl \o "Discrete" \o L.scope \o "create" \o
            CodeArgs(<< Quoted(t.name) >> \o (IF L.k = "cpp" THEN << ToString(Len(xs)) >> ELSE << >>) \o CodeNums(L, xs, d))
      [] t.k = "Function" -> L.fl \o "Function" \o L.scope \o "create" \o CodeArgs(<< Quoted(t.name), Quoted(t.text), "engine" >>)
      [] t.k = "Linear" /\ L.k = "cpp" /\ Len(t.p) # n + 1 ->
            "new " \o L.fl \o "Linear" \o
            CodeArgs(<< Quoted(t.name), L.fl \o "Op" \o L.scope \o "toScalars(" \o Quoted(ParamText(t, d)) \o ")", "engine" >>)
      [] t.k = "Linear" -> L.fl \o "Linear" \o L.scope \o "create" \o CodeArgs(<< Quoted(t.name), "engine" >> \o CodeNums(L, t.p, d))
      [] OTHER -> "new " \o L.fl \o t.k \o
            CodeArgs(<< Quoted(t.name) >> \o CodeNums(L, IF Heighted(t) THEN Append(t.p, t.h) ELSE t.p, d))
CodeNew(L, k) == IF k = "none" THEN L.nil ELSE "new " \o L.fl \o k \o L.unit
CodeDf(L, f) == IF f.k \in Integrals THEN "new " \o L.fl \o f.k \o CodeArgs(<< ToString(f.res) >>)
                ELSE IF f.k \in {"WeightedAverage", "WeightedSum"} THEN "new " \o L.fl \o f.k \o CodeArgs(<< Quoted(f.type) >>)
                ELSE CodeNew(L, f.k)
CodeAct(L, a, d) ==
    CASE a.k \in {"First", "Last"} -> "new " \o L.fl \o a.k \o CodeArgs(<< ToString(a.n), CodeNum(L, a.th, d) >>)
      [] a.k \in {"Highest", "Lowest"} -> "new " \o L.fl \o a.k \o CodeArgs(<< ToString(a.n) >>)
      [] a.k = "Threshold" -> "new " \o L.fl \o a.k \o CodeArgs(<< Quoted(a.cmp), CodeNum(L, a.th, d) >>)
      [] OTHER -> CodeNew(L, a.k)

\* the identifier of the i-th of n components
CodeId(own, name, base, i, n) == IF own THEN ValidName(name) ELSE base \o (IF n > 1 THEN ToString(i) ELSE "")
Declared(L, class, id) == L.fl \o class \o L.ptr \o id \o " = new " \o L.fl \o class \o L.unit \o ";"
Call(L, id, m, arg) == id \o L.arrow \o m \o "(" \o arg \o ");"
Named(L, id, x) == << Call(L, id, "setName", Quoted(x.name)), Call(L, id, "setDescription", Quoted(x.desc)) >>

CodeVar(L, class, v, id, extra, n, d) ==
    << Declared(L, class, id) >> \o Named(L, id, v) \o
    << Call(L, id, "setEnabled", BoolText(v.en)),
       Call(L, id, "setRange", CodeNum(L, v.lo, d) \o ", " \o CodeNum(L, v.hi, d)),
       Call(L, id, "setLockValueInRange", BoolText(v.lock)) >> \o extra \o
    [t \in 1 .. Len(v.terms) |-> Call(L, id, "addTerm", CodeTerm(L, v.terms[t], n, d))] \o
    << Call(L, "engine", "add" \o class, id), "" >>
CodeIn(L, v, id, n, d) == CodeVar(L, "InputVariable", v, id, << >>, n, d)
CodeOut(L, v, id, n, d) == CodeVar(L, "OutputVariable", v, id,
    << Call(L, id, "setAggregation", CodeNew(L, v.agg)), Call(L, id, "setDefuzzifier", CodeDf(L, v.df)),
       Call(L, id, "setDefaultValue", CodeNum(L, v.def, d)), Call(L, id, "setLockPreviousValue", BoolText(v.lockp)) >>, n, d)
CodeBlk(L, b, id, d) ==
    << Declared(L, "RuleBlock", id) >> \o Named(L, id, b) \o
    << Call(L, id, "setEnabled", BoolText(b.en)), Call(L, id, "setConjunction", CodeNew(L, b.conj)),
       Call(L, id, "setDisjunction", CodeNew(L, b.disj)), Call(L, id, "setImplication", CodeNew(L, b.impl)),
       Call(L, id, "setActivation", CodeAct(L, b.act, d)) >> \o
    [r \in 1 .. Len(b.rules) |-> Call(L, id, "addRule", L.fl \o "Rule" \o L.scope \o "parse" \o CodeArgs(<< Quoted(b.rules[r]), "engine" >>))] \o
    << Call(L, "engine", "addRuleBlock", id), "" >>

\* own: components are called by their names
CodeLines(L, c, own, d, lib) ==
    << "//Code automatically generated with " \o lib \o ".", "" >> \o
    (IF L.k = "cpp" /\ L.fl = "" THEN << "using namespace fuzzylite;", "" >> ELSE << >>) \o
    << Declared(L, "Engine", "engine") >> \o Named(L, "engine", c) \o << "" >> \o
    Flat([i \in 1 .. Len(c.ins) |-> CodeIn(L, c.ins[i], CodeId(own, c.ins[i].name, "inputVariable", i, Len(c.ins)), Len(c.ins), d)]) \o
    Flat([i \in 1 .. Len(c.outs) |-> CodeOut(L, c.outs[i], CodeId(own, c.outs[i].name, "outputVariable", i, Len(c.outs)), Len(c.ins), d)]) \o
    Flat([i \in 1 .. Len(c.blocks) |-> CodeBlk(L, c.blocks[i], CodeId(own /\ c.blocks[i].name # "", c.blocks[i].name, "ruleBlock", i, Len(c.blocks)), d)]) \o
    << "" >>

\* the engine that the program builds: the rules are parsed when all variables are there, and names are kept as they are
CodeKept(c, d) ==
    LET term(t) == [t EXCEPT !.p = [i \in 1 .. Len(t.p) |-> Rounded(t.p[i], d)], !.h = Rounded(@, d)]
        var(v) == [v EXCEPT !.lo = Rounded(@, d), !.hi = Rounded(@, d),
                            !.terms = [i \in 1 .. Len(v.terms) |-> term(v.terms[i])]]
    IN TLCEval([c EXCEPT
        !.ins = [i \in 1 .. Len(c.ins) |-> var(c.ins[i])],
        !.outs = [i \in 1 .. Len(c.outs) |-> [var(c.outs[i]) EXCEPT !.def = Rounded(@, d)]],
        !.blocks = [i \in 1 .. Len(c.blocks) |->
                        [c.blocks[i] EXCEPT !.act = RoundAct(@, d), !.nin = Len(c.ins), !.nout = Len(c.outs)]]])

-----------------------------------------------------------------------------
(* the script for R: the engine in the FuzzyLite Language, its dataset, and *)
(* a pair of plots per output                                               *)
RText(s) == "\"" \o s \o "\""
\* (texts of several lines start and end within quotes)
QuotedLines(ls) == [i \in 1 .. Len(ls) |-> (IF i = 1 THEN "\"" ELSE "") \o ls[i] \o (IF i = Len(ls) THEN "\"" ELSE "")]
Prefixed(p, ls) == [i \in 1 .. Len(ls) |-> IF i = 1 THEN p \o ls[i] ELSE ls[i]]
RHead(c, d, lib) ==
    << "#Code automatically generated with " \o lib \o ".", "", "library(ggplot2);", "",
       "engine.name = " \o RText(c.name) >> \o
    (IF c.desc = "" THEN << >> ELSE << "engine.description = " \o RText(c.desc) >>) \o
    Prefixed("engine.fll = ", QuotedLines(FllLines(c, d, "  "))) \o << "" >>
RColors == << "yellow", "red", "black" >>
RSurface(x, y, z, id, cs) ==
    << "engine.plot." \o id \o " = ggplot(engine.df, aes(" \o x \o ", " \o y \o ")) + ",
       "    geom_tile(aes(fill=" \o z \o ")) + ",
       "    scale_fill_gradient(low=" \o RText(cs[1]) \o ", high=" \o RText(cs[2]) \o ") + ",
       "    stat_contour(aes(x=" \o x \o ", y=" \o y \o ", z=" \o z \o "), color=" \o RText(cs[3]) \o ") + ",
       "    ggtitle(" \o RText("(" \o x \o ", " \o y \o ") = " \o z) \o ")", "" >>
RLine(x, z, id, title, flip, cs) ==
    << "engine.plot." \o id \o " = ggplot(engine.df, aes(" \o x \o ", " \o z \o ")) + ",
       "    geom_line(aes(color=" \o z \o "), size=3, lineend=\"round\", linejoin=\"mitre\") + ",
       "    scale_color_gradient(low=" \o RText(cs[1]) \o ", high=" \o RText(cs[2]) \o ") + " >> \o
    (IF flip THEN << "    coord_flip() + " >> ELSE << >>) \o
    << "    ggtitle(" \o RText(title) \o ")", "" >>
RIds(same, i) == IF same THEN << "i1_o" \o ToString(i), "o" \o ToString(i) \o "_i1" >>
                 ELSE << "i1i2_o" \o ToString(i), "i2i1_o" \o ToString(i) >>
RPlots(a, b, zs, cs) ==
    LET same == a = b IN
    Flat([i \in 1 .. Len(zs) |->
            LET z == zs[i]  ids == RIds(same, i) IN
            IF same THEN RLine(a, z, ids[1], a \o " vs " \o z, FALSE, cs) \o RLine(a, z, ids[2], z \o " vs " \o a, TRUE, cs)
            ELSE RSurface(a, b, z, ids[1], cs) \o RSurface(b, a, z, ids[2], cs)]) \o
    << "if (require(gridExtra)) {",
       "    engine.plots = arrangeGrob(" \o
            Join([k \in 1 .. 2 * Len(zs) |-> "engine.plot." \o RIds(same, (k + 1) \div 2)[2 - (k % 2)]] \o << "ncol=2", "top=engine.name" >>, ", ") \o ")",
       "    ggsave(paste0(engine.name, \".pdf\"), engine.plots)", "    if (require(grid)) {",
       "        grid.newpage()", "        grid.draw(engine.plots)", "    }", "}", "" >>
RReading == << "", "engine.df = read.delim(textConnection(engine.fld), header=TRUE, sep=\" \", strip.white=TRUE)", "" >>
RReadingFile(path) ==
    << "engine.fldFile = " \o RText(path), "if (require(data.table)) {",
       "    engine.df = data.table::fread(engine.fldFile, sep=\"auto\", header=\"auto\")", "} else {",
       "    engine.df = read.table(engine.fldFile, header=TRUE)", "}", "" >>
=============================================================================
