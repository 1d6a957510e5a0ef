------------------------------ MODULE Utilities ------------------------------
(* Utilities: the operations on numbers, counters, samples and texts that the *)
(* rest of the library is written with.                                       *)
EXTENDS Text

Unless(p, a) == IF p THEN {} ELSE {a}

-----------------------------------------------------------------------------
(* comparisons within a tolerance: numbers are s.a, s.b = [k, i] with k one of  *)
(* "fin" (i units), "nan", "inf", "-inf"; the tolerance is s.n / s.d units      *)
SameNum(s) == \/ s.a.k = s.b.k /\ (s.a.k # "fin" \/ s.a.i = s.b.i)
              \/ s.a.k = "fin" /\ s.b.k = "fin" /\ IAbs(s.a.i - s.b.i) * s.d < s.n
Order(x) == IF x.k = "inf" THEN 2 ELSE IF x.k = "-inf" THEN 0 ELSE 1
Less(x, y) == x.k # "nan" /\ y.k # "nan"
              /\ (Order(x) < Order(y) \/ (x.k = "fin" /\ y.k = "fin" /\ x.i < y.i))
CompareWrong(s) ==
    LET eq == SameNum(s)
        lt == ~eq /\ Less(s.a, s.b)
        gt == ~eq /\ Less(s.b, s.a)
        b(p) == IF p THEN 1 ELSE 0
    IN Unless(~s.e /\ s.lt = lt /\ s.gt = gt /\ s.le = (lt \/ eq) /\ s.ge = (gt \/ eq) /\ s.eq = eq /\ s.close = eq, "compare")
       \cup Unless(~s.e /\ s.flt = b(lt) /\ s.fgt = b(gt) /\ s.fle = b(lt \/ eq) /\ s.fge = b(gt \/ eq) /\ s.feq = b(eq)
                   /\ s.fneq = b(~eq), "compare")
\* x within [a, b], with or without the ends
InWrong(s) ==
    LET cmp(x, y) == [a |-> x, b |-> y, n |-> s.n, d |-> s.d]
        le(x, y) == SameNum(cmp(x, y)) \/ Less(x, y)
        lt(x, y) == ~SameNum(cmp(x, y)) /\ Less(x, y)
    IN Unless(~s.e /\ \A g \in 1 .. 2 : \A l \in 1 .. 2 :
                s.v[2 * (g - 1) + l] = ((IF g = 1 THEN le(s.a, s.x) ELSE lt(s.a, s.x))
                                        /\ (IF l = 1 THEN le(s.x, s.b) ELSE lt(s.x, s.b))), "interval")

-----------------------------------------------------------------------------
(* arithmetic *)
IsTrue(x) == x = One
B2R(p) == IF p THEN One ELSE Zero
Modulo(x, y) == IF ~IsFinite(x) \/ IsNaN(y) \/ y = Zero THEN NaN ELSE IF IsInf(y) THEN x
                ELSE Sub(x, Mul(y, Trunc(Div(x, y))))
\* (x - fromMin) moved from one range to another
Scaled(x, a, b, c, d) == Add(Mul(Div(Sub(d, c), Sub(b, a)), Sub(x, a)), c)
ArithWrong(s) ==
    LET x == s.x  y == s.y  z == s.z
        ok(v, w) == \/ Close(v, w) \/ (IsNaN(v) /\ IsNaN(w))
    IN Unless(~s.e /\ ok(Min(x, y), s.min) /\ ok(Max(x, y), s.max) /\ ok(Bound(x, y, z), s.bound), "bounds")
       \cup Unless(~s.e /\ ok(Add(x, y), s.add) /\ ok(Sub(x, y), s.sub) /\ ok(Mul(x, y), s.mul) /\ ok(Neg(x), s.neg)
                   \* (the sign of a zero divisor is not modelled)
                   /\ (y = Zero \/ ok(Div(x, y), s.div)) /\ ok(Modulo(x, y), s.mod) /\ ok(Round(x), s.round), "arithmetic")
       \cup Unless(~s.e /\ s.land = B2R(IsTrue(x) /\ IsTrue(y)) /\ s.lor = B2R(IsTrue(x) \/ IsTrue(y)) /\ s.lnot = B2R(~IsTrue(x)), "logic")
       \cup Unless(~s.e /\ s.isnan = IsNaN(x) /\ s.isinf = IsInf(x) /\ s.isfinite = IsFinite(x), "finite")
ScaleWrong(s) ==
    LET v == Scaled(s.x, s.a, s.b, s.c, s.d) IN
    Unless(~s.e /\ CloseTo(v, s.plain, 1000) /\ CloseTo(v, s.unbounded, 1000) /\ CloseTo(Bound(v, s.c, s.d), s.bounded, 1000), "scale")
MidWrong(s) ==
    Unless(~s.e /\ Len(s.v) = s.n
           /\ \A i \in 1 .. s.n : Close(Add(s.a, Mul(Div(Sub(s.b, s.a), <<s.n, 1>>), R(2 * i - 1, 2))), s.v[i]), "midpoints")

-----------------------------------------------------------------------------
(* counters: the last place counts fastest; TRUE while there was a next value *)
RECURSIVE Tick(_, _, _, _)
Tick(x, p, lo, hi) ==
    IF p = 0 THEN [x |-> x, more |-> FALSE]
    ELSE IF x[p] < hi[p] THEN [x |-> [x EXCEPT ![p] = @ + 1], more |-> TRUE]
    ELSE Tick([x EXCEPT ![p] = lo[p]], p - 1, lo, hi)
CounterWrong(s) ==
    LET t == Tick(s.x, s.p, s.lo, s.hi) IN Unless(~s.e /\ s.after = t.x /\ s.more = t.more, "counter")

-----------------------------------------------------------------------------
(* samples *)
Mean(v) == IF v = << >> THEN NaN ELSE Div(SumSeq(v), <<Len(v), 1>>)
Variance(v, m) == IF v = << >> THEN NaN ELSE IF Len(v) = 1 THEN Zero
                  ELSE Div(SumSeq([i \in 1 .. Len(v) |-> Mul(Sub(v[i], m), Sub(v[i], m))]), <<Len(v) - 1, 1>>)
StatWrong(s) ==
    LET v == s.v
        dev(m, x) == LET w == Variance(v, m) IN IF IsNaN(w) THEN IsNaN(x) ELSE IF IsInf(w) THEN x = Inf
                                                ELSE Ge(x, Zero) /\ CloseTo(w, Mul(x, x), 2000)
    IN Unless(~s.e /\ CloseTo(SumSeq(v), s.sum, 1000) /\ CloseTo(Mean(v), s.mean, 1000)
              /\ CloseTo(Variance(v, Mean(v)), s.var, 1000) /\ CloseTo(Variance(v, s.m), s.varm, 1000)
              /\ dev(Mean(v), s.sd) /\ dev(s.m, s.sdm), "statistics")

-----------------------------------------------------------------------------
(* texts *)
RECURSIVE Kept(_, _, _)
Kept(s, cs, r) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in cs THEN Ch(s, 1) ELSE r) \o Kept(After(s, 1), cs, r)
CharClass(c) == CASE c = "digit" -> DigitChars [] c = "alpha" -> Lower \cup Upper [] c = "alnum" -> DigitChars \cup Lower \cup Upper
                  [] c = "space" -> {" ", "\t", "\n", "\r"} [] c = "upper" -> Upper [] c = "lower" -> Lower
ReplaceWrong(s) ==
    Unless(~s.e /\ s.all = ReplaceStr(s.text, s.find, s.with) /\ s.first = ReplaceOne(s.text, s.find, s.with)
           /\ s.fall = s.all /\ s.ffirst = s.first, "replace")
SplitStr(t, d, drop) == IF t = "" \/ d = "" THEN << t >> ELSE IF drop THEN NonEmpty(PiecesStr(t, d)) ELSE PiecesStr(t, d)
SplitWrong(s) ==
    Unless(~s.e /\ s.dropped = SplitStr(s.text, s.by, TRUE) /\ s.kept = SplitStr(s.text, s.by, FALSE)
           \* joining what was kept is the text again
           /\ s.joined = s.text, "split")
TextWrong(s) ==
    Unless(~s.e /\ s.trim = Trim(s.text), "trim") \cup Unless(~s.e /\ s.name = ValidName(s.text), "name")
    \cup Unless(~s.e /\ s.format = Kept(s.text, CharClass(s.class), s.with), "format")
    \cup Unless(~s.e /\ s.str = s.text, "string")
\* a text as a number: of the whole text, after leading space
ToNumWrong(s) ==
    LET r == Num(s.text) IN
    Unless(s.raised = ~r.ok /\ (s.raised \/ Close(r.v, s.v)) /\ s.isnum = r.ok /\ s.ok = r.ok
           /\ Close(IF r.ok THEN r.v ELSE s.alt, s.w) /\ Close(IF r.ok THEN r.v ELSE s.alt, s.w2), "number")
ToNumsWrong(s) ==
    LET ws == Words(s.text)
        rs == [i \in 1 .. Len(ws) |-> ParseNum(ws[i])]
        good == \A i \in 1 .. Len(ws) : rs[i].ok
    IN Unless(s.raised = ~good /\ (s.raised \/ (Len(s.v) = Len(ws) /\ \A i \in 1 .. Len(ws) : Close(rs[i].v, s.v[i])))
              /\ s.ok = good /\ Len(s.w) = Len(ws)
              /\ \A i \in 1 .. Len(ws) : Close(IF rs[i].ok THEN rs[i].v ELSE s.alt, s.w[i]), "numbers")
\* a number right between two printable ones
NoTie(x, d) == ~IsFinite(x) \/ d > 4 \/ LET y == Mul(Abs(x), <<2 * Pow10(d), 1>>) IN ~(y[2] = 1 /\ y[1] % 2 = 1) \/ x[2] \in {1, 2, 4, 8, 16}
ToStrWrong(s) ==
    Unless(~s.e /\ \A i \in 1 .. Len(s.xs) : ~NoTie(s.xs[i], s.d) \/ s.strs[i] = FmtNum(s.xs[i], s.d), "string")
    \cup Unless(~s.e /\ s.join = Join(s.strs, s.sep), "join")
JoinWrong(s) ==
    Unless(~s.e /\ s.join = Join(s.words, s.sep) /\ (Len(s.words) # 3 \/ s.joinv = s.join)
           /\ s.ints = Join([i \in 1 .. Len(s.ns) |-> ToString(s.ns[i])], s.sep) /\ (Len(s.ns) # 3 \/ s.intsv = s.ints), "join")

UtilityWrong(s) ==
    CASE s.op = "compare" -> CompareWrong(s)
      [] s.op = "within" -> InWrong(s)
      [] s.op = "arith" -> ArithWrong(s)
      [] s.op = "scale" -> ScaleWrong(s)
      [] s.op = "midpoints" -> MidWrong(s)
      [] s.op = "counter" -> CounterWrong(s)
      [] s.op = "stats" -> StatWrong(s)
      [] s.op = "replace" -> ReplaceWrong(s)
      [] s.op = "split" -> SplitWrong(s)
      [] s.op = "textop" -> TextWrong(s)
      [] s.op = "tonum" -> ToNumWrong(s)
      [] s.op = "tonums" -> ToNumsWrong(s)
      [] s.op = "tostr" -> ToStrWrong(s)
      [] s.op = "joins" -> JoinWrong(s)
=============================================================================
