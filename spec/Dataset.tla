------------------------------- MODULE Dataset -------------------------------
(* Tables of values of an engine: the FLD format and benchmarks.  A plan says *)
(* which values the inputs take, row by row; the engine is evaluated for each *)
(* row in turn, keeping what it remembers in between.                         *)
EXTENDS Config

-----------------------------------------------------------------------------
(* equally distributed values *)
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
\* how many values each variable takes: values of each, or as many as fit into values for all
PerVariable(values, n, scope) ==
    IF scope = "each" THEN IMax(1, values)
    ELSE CHOOSE k \in 1 .. IMax(1, values) : /\ IPow(k, n) <= values \/ k = 1
                                             /\ k = IMax(1, values) \/ IPow(k + 1, n) > values
\* what becomes of a value that an input is given
Given(v, x) == IF v.lock THEN Bound(x, v.lo, v.hi) ELSE x
\* all combinations, the last variable changing fastest; inactive variables keep their values
\* (they are given them in every row)
Grid(ins, active, per) ==
    LET act == { i \in 1 .. Len(ins) : active[i] }
        rows == IPow(per, Cardinality(act))
        after(i) == Cardinality({ j \in act : j > i })
        digit(r, i) == ((r - 1) \div IPow(per, after(i))) % per
        val(r, i) == IF ~active[i] THEN (IF r = 1 THEN ins[i].val ELSE Given(ins[i], ins[i].val))
                     ELSE IF digit(r, i) = 0 THEN (IF IsFinite(ins[i].hi) THEN ins[i].lo ELSE NaN)
                     ELSE Add(ins[i].lo, Mul(Sub(ins[i].hi, ins[i].lo), R(digit(r, i), IMax(1, per - 1))))
    IN TLCEval([r \in 1 .. rows |-> [blank |-> FALSE, x |-> [i \in 1 .. Len(ins) |-> val(r, i)]]])

-----------------------------------------------------------------------------
(* values read from a text: [e, rows]; rows before an error are evaluated *)
LinesOf(s) == LET p == Lines(s) IN IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Numbers(s) == LET ws == Words(s)
                  ns == TLCEval([i \in 1 .. Len(ws) |-> Num(ws[i])])
              IN [ok |-> \A i \in 1 .. Len(ws) : ns[i].ok, v |-> [i \in 1 .. Len(ws) |-> ns[i].v]]
RECURSIVE ReadRows(_, _, _, _, _)
ReadRows(ls, k, n, keepblank, acc) ==
    IF k > Len(ls) THEN [e |-> FALSE, rows |-> acc]
    ELSE LET t == Trim(ls[k]) IN
         IF Starts(t, "#") \/ (t = "" /\ ~keepblank) THEN ReadRows(ls, k + 1, n, keepblank, acc)
         ELSE IF t = "" THEN ReadRows(ls, k + 1, n, keepblank, Append(acc, [blank |-> TRUE, x |-> << >>]))
         ELSE LET r == Numbers(t) IN
              \* (the first line may be a header)
              IF ~r.ok THEN IF k = 1 THEN ReadRows(ls, 2, n, keepblank, acc) ELSE [e |-> TRUE, rows |-> acc]
              ELSE IF Len(r.v) < n THEN [e |-> TRUE, rows |-> acc]
              ELSE ReadRows(ls, k + 1, n, keepblank, Append(acc, [blank |-> FALSE, x |-> r.v]))

-----------------------------------------------------------------------------
(* numbers as text, up to the arithmetic of the model *)
Fixed(t, d) == LET u == IF Starts(t, "-") THEN After(t, 1) ELSE t
                   dot == Find(u, {"."}, 1)
               IN \/ t \in {"nan", "inf", "-inf"}
                  \/ IF d = 0 THEN u # "" /\ AllIn(u, DigitChars)
                     ELSE dot > 1 /\ AllIn(Before(u, dot), DigitChars) /\ Len(After(u, dot)) = d /\ AllIn(After(u, dot), DigitChars)
Says(t, v, d) == t = FmtNum(v, d) \/
    /\ Fixed(t, d)
    /\ LET p == ParseNum(t).v IN
       IF IsFinite(v) /\ IsFinite(p)
       THEN Le(Abs(Sub(p, v)), Add(Mk(102, 100 * Pow10(IMin(d, 4))), Add(<<1, 2000>>, Mul(Abs(v), <<1, 1000>>))))
       ELSE p = v
Close2(a, b) == a = b \/ Close(a, b)

\* ---- the text of a dataset
RowSays(line, x, row, n, s) ==
    IF row.blank THEN line = ""
    ELSE LET want == (IF s.oi THEN [i \in 1 .. n |-> x[i]] ELSE << >>) \o (IF s.oo THEN row.o ELSE << >>)
             cols == IF line = "" /\ want = << >> THEN << >> ELSE PiecesStr(line, s.sep)
         IN Len(cols) = Len(want) /\ \A i \in 1 .. Len(want) : Says(cols[i], want[i], s.d)
Header(st, s) == Join((IF s.oi THEN [i \in 1 .. Len(st.ins) |-> st.ins[i].name] ELSE << >>)
                      \o (IF s.oo THEN [o \in 1 .. Len(st.outs) |-> st.outs[o].name] ELSE << >>), s.sep)
Plan(st, s) ==
    CASE s.mode = "grid" -> IF Len(s.active) # Len(st.ins) THEN [e |-> TRUE, rows |-> << >>]
                            ELSE [e |-> FALSE, rows |-> Grid(st.ins, s.active, PerVariable(s.n, Len(st.ins), s.scope))]
      [] s.mode = "read" -> ReadRows(LinesOf(s.text), 1, Len(st.ins), TRUE, << >>)
      [] s.mode = "row"  ->
            IF s.x = << >> THEN [e |-> FALSE, rows |-> << [blank |-> TRUE, x |-> << >>] >>]
            ELSE IF Len(s.x) < Len(st.ins) \/ Len(s.active) # Len(st.ins) THEN [e |-> TRUE, rows |-> << >>]
            ELSE [e |-> FALSE, rows |-> << [blank |-> FALSE, x |-> [i \in 1 .. Len(st.ins) |-> IF s.active[i] THEN s.x[i] ELSE st.ins[i].val]] >>]

\* the rows evaluated on the copy are the planned ones
Planned(p, s, ins) == /\ Len(p.rows) = Len(s.rows)
                    /\ \A k \in 1 .. Len(s.rows) : /\ p.rows[k].blank = s.rows[k].blank
                                                   /\ p.rows[k].blank \/ \A i \in 1 .. Len(ins) : Close2(Given(ins[i], p.rows[k].x[i]), s.rows[k].x[i])
DatasetWrong(st, s) ==
    LET p == Plan(st, s)
        h == IF s.hd /\ s.mode # "row" THEN 1 ELSE 0
        ls == LinesOf(s.out)
    IN IF s.e # p.e \/ ~Planned(p, s, st.ins) THEN {"dataset"}
       ELSE IF s.e THEN {}
       ELSE IF /\ Len(ls) = h + Len(s.rows)
               /\ h = 1 => ls[1] = Header(st, s)
               /\ \A k \in 1 .. Len(s.rows) : RowSays(ls[h + k], p.rows[k].x, s.rows[k], Len(st.ins), s)
            THEN {} ELSE {"dataset"}

-----------------------------------------------------------------------------
(* benchmarks: expected rows, rows obtained by running, errors between them *)
BenchPlan(st, s) ==
    CASE s.mode = "grid" -> [e |-> FALSE, rows |-> Grid(st.ins, [i \in 1 .. Len(st.ins) |-> TRUE], PerVariable(s.n, Len(st.ins), s.scope))]
      [] s.mode = "read" -> LET ls == LinesOf(s.text) IN
                            ReadRows(IF s.nl >= 0 /\ s.nl < Len(ls) THEN SubSeq(ls, 1, s.nl) ELSE ls, 1, 0, FALSE, << >>)
SameRow(x, y) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : Close2(x[i], y[i])
PrepareWrong(st, s) ==
    LET p == BenchPlan(st, s) IN
    IF s.e = p.e /\ (s.e \/ (Len(s.expected) = Len(p.rows) /\ \A k \in 1 .. Len(p.rows) : SameRow(p.rows[k].x, s.expected[k])))
    THEN {} ELSE {"prepare"}
\* s.rows: inputs and outputs of a copy evaluated on the expected rows after restarting
RunWrong(st, s) ==
    LET n == Len(st.ins)
        short == \E k \in 1 .. Len(s.expected) : Len(s.expected[k]) < n
    IN IF s.e # short THEN {"run"}
       ELSE IF s.e THEN {}
       ELSE IF /\ s.times = s.runs /\ s.total = s.before + s.runs
               /\ Len(s.obtained) = Len(s.expected) /\ Len(s.rows) = Len(s.expected)
               /\ \A k \in 1 .. Len(s.expected) :
                     /\ SameRow(SubSeq(s.obtained[k], 1, n), SubSeq(s.expected[k], 1, n))
                     /\ SameRow(SubSeq(s.obtained[k], n + 1, Len(s.obtained[k])), s.rows[k])
            THEN {} ELSE {"run"}

\* ---- errors
Diff(s, k, i) == Sub(s.expected[k][i], s.obtained[k][i])
NanV(v) == IsNaN(v)
Agrees(a, b, tol) == (NanV(a) /\ NanV(b)) \/ a = b \/ (IsFinite(a) /\ IsFinite(b) /\ Lt(Abs(Sub(a, b)), tol))
\* a difference too close to the tolerance for the arithmetic of the model
Vague(s, n) == \E k \in 1 .. Len(s.expected) : \E i \in n + 1 .. Len(s.expected[k]) :
                 LET d == Diff(s, k, i) IN IsFinite(d) /\ d # Zero /\ Lt(Abs(Sub(Abs(d), s.tol)), <<1, 300>>)
Computable(st, s) == /\ s.expected # << >> /\ s.obtained # << >> /\ Len(s.expected) = Len(s.obtained)
                     /\ Len(s.expected[1]) = Len(s.obtained[1]) /\ Len(s.expected[1]) = Len(st.ins) + Len(st.outs)
\* (rows of different lengths have no errors that are specified)
Ragged(s) == \E k \in 2 .. Len(s.expected) : Len(s.expected[k]) # Len(s.expected[1])
Cells(st, s, o) == { c \in (1 .. Len(s.expected)) \X (1 .. Len(st.outs)) : o = 0 \/ c[2] = o }
Errors(st, s, o, kind) ==
    LET n == Len(st.ins)
        bad(c) == ~Agrees(s.expected[c[1]][n + c[2]], s.obtained[c[1]][n + c[2]], s.tol)
        fin(c) == IsFinite(Diff(s, c[1], n + c[2]))
    IN Cardinality({ c \in Cells(st, s, o) : bad(c) /\ (kind = "all" \/ fin(c) = (kind = "acc")) })
RECURSIVE SquaresOf(_, _, _)
SquaresOf(s, n, S) == IF S = {} THEN Zero
                      ELSE LET c == CHOOSE c \in S : TRUE
                               d == Diff(s, c[1], n + c[2])
                           IN Add(Mul(d, d), SquaresOf(s, n, S \ {c}))
Mse(st, s, o) ==
    LET n == Len(st.ins)
        d(c) == Diff(s, c[1], n + c[2])
        S == { c \in Cells(st, s, o) : IsFinite(d(c)) /\ ~Lt(Abs(d(c)), s.tol) /\ d(c) # Zero }
    IN IF S = {} THEN Zero ELSE Div(SquaresOf(s, n, S), Int2R(Cardinality(S)))
ErrorsWrong(st, s) ==
    LET n == Len(st.ins)  m == Len(st.outs) IN
    IF Computable(st, s) /\ Ragged(s) THEN {}
    ELSE IF s.e THEN {"errors"}
    ELSE IF ~Computable(st, s)
    THEN IF ~s.can /\ \A o \in 1 .. m + 1 : s.all[o] = -1 /\ s.acc[o] = -1 /\ s.nf[o] = -1 /\ IsNaN(s.mse[o]) THEN {} ELSE {"errors"}
    ELSE IF Vague(s, n) THEN {}
    ELSE IF s.can /\ \A o \in 0 .. m :
               /\ s.all[o + 1] = Errors(st, s, o, "all")
               /\ s.acc[o + 1] = Errors(st, s, o, "acc")
               /\ s.nf[o + 1] = Errors(st, s, o, "nf")
               /\ CloseTo(Mse(st, s, o), s.mse[o + 1], 800)
         THEN {} ELSE {"errors"}

\* ---- results: a sequence of pairs of names and values
Nat2S(n) == ToString(n)
Units == << "nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours" >>
Steps == << 1000, 1000, 1000, 60, 60 >>
UnitIdx(u) == CHOOSE i \in 1 .. Len(Units) : Units[i] = u
\* what an amount of one unit is in another
RECURSIVE Convert(_, _, _)
Convert(x, i, j) == IF i = j THEN x ELSE IF i < j THEN Convert(Div(x, Int2R(Steps[i])), i + 1, j)
                    ELSE Convert(Mul(x, Int2R(Steps[i - 1])), i - 1, j)
Mean(xs) == Div(SumSeq(xs), Int2R(Len(xs)))
Deviation(xs) == IF xs = << >> THEN NaN ELSE IF Len(xs) = 1 THEN Zero
                 ELSE LET m == Mean(xs) IN
                      Sqrt(Div(SumSeq([i \in 1 .. Len(xs) |-> Mul(Sub(xs[i], m), Sub(xs[i], m))]), Int2R(Len(xs) - 1)))

RECURSIVE CountRules(_, _)
CountRules(bs, i) == IF i > Len(bs) THEN 0 ELSE Len(bs[i].rules) + CountRules(bs, i + 1)
ResultNames(can, times, k) ==
    << "library", "name", "inputs", "outputs", "ruleBlocks", "rules", "runs", "evaluations" >>
    \o (IF can THEN << "outputVariable", "range", "tolerance", "errors", "nfErrors", "accErrors", "rmse", "nrmse" >> ELSE << >>)
    \o << "units", "sum(t)", "mean(t)", "sd(t)" >>
    \o (IF times THEN [i \in 1 .. k |-> "t" \o ToString(i)] ELSE << >>)
Pick(o, f(_), m) == IF o = 0 THEN [i \in 1 .. m |-> f(i)] ELSE << f(o) >>
MeanRange(st, o) == LET r(i) == Sub(st.outs[i].hi, st.outs[i].lo) IN Mean(Pick(o, r, Len(st.outs)))
Nrmse(st, s, o) ==
    LET w(i) == Div(One, Sub(st.outs[i].hi, st.outs[i].lo))
        v(i) == Mul(Sqrt(Mse(st, s, i)), w(i))
    IN Div(SumSeq(Pick(o, v, Len(st.outs))), SumSeq(Pick(o, w, Len(st.outs))))
SaysTime(t, v, unit) == Says(t, v, IF unit = "nanoseconds" THEN 0 ELSE 3)
\* s.o: an output or 0 for all; s.given: the times, in s.gunit
ResultsWrong(st, s) ==
    LET can == Computable(st, s)
        k == Len(s.given)
        ts == TLCEval([i \in 1 .. k |-> Convert(s.given[i], UnitIdx(s.gunit), UnitIdx(s.unit))])
        names == ResultNames(can, s.times, k)
        get(n) == s.results[CHOOSE i \in 1 .. Len(s.results) : s.results[i][1] = n][2]
        m == Len(st.outs)
        nm(i) == st.outs[i].name
    IN IF can /\ Ragged(s) THEN {}
       ELSE IF s.e \/ Len(s.results) # Len(names) \/ \E i \in 1 .. Len(names) : s.results[i][1] # names[i] THEN {"results"}
       ELSE IF /\ get("name") = s.name /\ get("inputs") = Nat2S(Len(st.ins)) /\ get("outputs") = Nat2S(m)
               /\ get("ruleBlocks") = Nat2S(Len(st.blocks)) /\ get("rules") = Nat2S(CountRules(st.blocks, 1))
               /\ get("runs") = Nat2S(k) /\ get("evaluations") = Nat2S(Len(s.expected))
               /\ get("units") = s.unit
               /\ SaysTime(get("sum(t)"), SumSeq(ts), s.unit)
               /\ k > 0 => Says(get("mean(t)"), Mean(ts), 3) /\ Says(get("sd(t)"), Convert(Deviation(s.given), UnitIdx(s.gunit), UnitIdx(s.unit)), 3)
               /\ s.times => \A i \in 1 .. k : SaysTime(get("t" \o ToString(i)), ts[i], s.unit)
               /\ can => /\ get("outputVariable") = Join(Pick(s.o, nm, m), ",")
                         /\ Says(get("range"), MeanRange(st, s.o), 3)
                         /\ ParseNum(get("tolerance")).v = s.tol
                         /\ Vague(s, Len(st.ins)) \/
                            /\ get("errors") = Nat2S(Errors(st, s, s.o, "all"))
                            /\ get("nfErrors") = Nat2S(Errors(st, s, s.o, "nf"))
                            /\ get("accErrors") = Nat2S(Errors(st, s, s.o, "acc"))
                            /\ CloseTo(Sqrt(Mse(st, s, s.o)), ParseNum(get("rmse")).v, 2500)
                            /\ CloseTo(Nrmse(st, s, s.o), ParseNum(get("nrmse")).v, 2500)
            THEN {} ELSE {"results"}
HeadWrong(s) == IF s.names = ResultNames(s.f, TRUE, s.n) THEN {} ELSE {"results"}
\* the results as a table
TableOf(rs, shape, contents, dl) ==
    LET hs == [i \in 1 .. Len(rs) |-> rs[i][1]]
        bs == [i \in 1 .. Len(rs) |-> rs[i][2]]
    IN IF shape = "vertical"
       THEN Join([i \in 1 .. Len(rs) |-> (IF contents # "body" THEN hs[i] ELSE "") \o (IF contents = "both" THEN dl ELSE "")
                                         \o (IF contents # "header" THEN bs[i] ELSE "")], "\n")
       ELSE (IF contents # "body" THEN Join(hs, dl) ELSE "") \o (IF contents = "both" THEN "\n" ELSE "")
            \o (IF contents # "header" THEN Join(bs, dl) ELSE "")
TableWrong(s) == IF s.e THEN (IF Ragged(s) THEN {} ELSE {"results"}) ELSE IF s.table = TableOf(s.results, s.shape, s.contents, s.dl) THEN {} ELSE {"results"}
=============================================================================
