------------------------------ MODULE Formula ------------------------------
(* The infix formula language: shunting-yard to postfix, postfix to tree,   *)
(* evaluation over an environment of named values.  The same postfix        *)
(* conversion orders the connectives of rule antecedents.                   *)
EXTENDS Norms, FiniteSets

\* ---- vocabulary
Ops == {"!", "~", "^", "*", "/", "%", "+", "-", "and", "or"}
Funs1 == {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs",
          "floor", "log", "log10", "round", "sin", "sinh", "sqrt", "tan", "tanh",
          "acosh", "asinh", "atanh", "log1p"}
Funs2 == {"atan2", "eq", "fmod", "ge", "gt", "le", "lt", "max", "min", "neq", "pow"}
Funs  == Funs1 \cup Funs2
Elements == Ops \cup Funs
Puncts == {"(", ")", ","}

Prec(t) == CASE t \in {"!", "~"} -> 100
             [] t = "^" -> 90
             [] t \in {"*", "/", "%"} -> 80
             [] t \in {"+", "-"} -> 70
             [] t = "and" -> 60
             [] t = "or" -> 50
             [] OTHER -> 0
RightAssoc(t) == t \in {"!", "~", "^"}
Arity(t) == IF t \in {"!", "~"} \cup Funs1 THEN 1 ELSE 2

\* ---- shunting-yard; "ERR" in first position marks an error
Err == <<"ERR">>
IsErr(s) == s = Err

RECURSIVE PopTo(_, _)      \* move operators from stack to output down to "("
PopTo(out, st) ==
    IF st = << >> THEN <<out, st, FALSE>>
    ELSE IF st[Len(st)] = "(" THEN <<out, st, TRUE>>
    ELSE PopTo(Append(out, st[Len(st)]), SubSeq(st, 1, Len(st) - 1))

RECURSIVE PopOps(_, _, _)
PopOps(op, out, st) ==
    IF st = << >> \/ st[Len(st)] \notin Elements THEN <<out, st>>
    ELSE LET t == st[Len(st)]
         IN IF (~RightAssoc(op) /\ Prec(op) = Prec(t)) \/ Prec(op) < Prec(t)
            THEN PopOps(op, Append(out, t), SubSeq(st, 1, Len(st) - 1))
            ELSE <<out, st>>

RECURSIVE Yard(_, _, _)
Yard(toks, out, st) ==
    IF toks = << >> THEN
        IF st = << >> THEN out
        ELSE IF st[Len(st)] = "(" THEN Err
        ELSE Yard(toks, Append(out, st[Len(st)]), SubSeq(st, 1, Len(st) - 1))
    ELSE LET t == Head(toks)  rest == Tail(toks) IN
        IF t \in Funs \/ t = "(" THEN Yard(rest, out, Append(st, t))
        ELSE IF t = "," THEN
            LET r == PopTo(out, st) IN IF r[3] THEN Yard(rest, r[1], r[2]) ELSE Err
        ELSE IF t = ")" THEN
            LET r == PopTo(out, st) IN
            IF ~r[3] THEN Err
            ELSE LET s1 == SubSeq(r[2], 1, Len(r[2]) - 1)
                 IN IF s1 # << >> /\ s1[Len(s1)] \in Funs
                    THEN Yard(rest, Append(r[1], s1[Len(s1)]), SubSeq(s1, 1, Len(s1) - 1))
                    ELSE Yard(rest, r[1], s1)
        ELSE IF t \in Ops THEN
            LET r == PopOps(t, out, st) IN Yard(rest, r[1], Append(r[2], t))
        ELSE Yard(rest, Append(out, t), st)

Postfix(toks) == Yard(toks, << >>, << >>)

\* ---- postfix is well formed when every element finds its operands
RECURSIVE ArityOK(_, _)
ArityOK(pf, n) ==
    IF pf = << >> THEN n = 1
    ELSE IF Head(pf) \in Elements
         THEN n >= Arity(Head(pf)) /\ ArityOK(Tail(pf), n - Arity(Head(pf)) + 1)
         ELSE ArityOK(Tail(pf), n + 1)

Parses(toks) == toks # << >> /\ LET p == Postfix(toks) IN ~IsErr(p) /\ ArityOK(p, 0)

\* ---- values
LogicalAnd(a, b) == IF FEq(a, One) /\ FEq(b, One) THEN One ELSE Zero
LogicalOr(a, b)  == IF FEq(a, One) \/ FEq(b, One) THEN One ELSE Zero
LogicalNot(a)    == IF FEq(a, One) THEN Zero ELSE One
B01(p) == IF p THEN One ELSE Zero

FMod(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) \/ ~IsFinite(a) \/ (IsFinite(b) /\ b[1] = 0) THEN NaN
    ELSE IF ~IsFinite(b) THEN a
    ELSE Sub(a, Mul(b, Trunc(Div(a, b))))

Pow(a, b) ==
    IF (IsFinite(b) /\ b[1] = 0) \/ a = One THEN One
    ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsFinite(b) /\ b[2] = 1 THEN PowInt(a, b[1])
    ELSE IF b = Half THEN Sqrt(a)
    ELSE NaN

\* e^x: halve until small, series, square back
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(x, k, t, acc) == IF k > 8 THEN acc
                           ELSE LET u == Div(Mul(t, x), Int2R(k))
                                IN ExpSeries(x, k + 1, u, Add(acc, u))
RECURSIVE ExpNeg(_)          \* x <= 0
ExpNeg(x) == IF Lt(x, <<-14, 1>>) THEN Zero
             ELSE IF Lt(x, <<-1, 2>>) THEN LET h == ExpNeg(Mul(Half, x)) IN Mul(h, h)
             ELSE ExpSeries(x, 1, One, One)
Exp(x) == IF IsNaN(x) THEN NaN
          ELSE IF x = Inf THEN Inf ELSE IF x = NegInf THEN Zero
          ELSE IF x[1] <= 0 THEN ExpNeg(x) ELSE Div(One, ExpNeg(Neg(x)))

\* 1 / (1 + e^-z)
Logistic(z) == IF IsNaN(z) THEN NaN
               ELSE IF z[1] >= 0 THEN Div(One, Add(One, Exp(Neg(z))))
               ELSE LET e == Exp(z) IN Div(e, Add(One, e))

\* cosine on [-pi, pi] by its series
Pi == <<355, 113>>
RECURSIVE CosSeries(_, _, _, _)
CosSeries(x2, k, t, acc) == IF k > 8 THEN acc
                            ELSE LET u == Neg(Div(Mul(t, x2), Int2R((2*k - 1) * (2*k))))
                                 IN CosSeries(x2, k + 1, u, Add(acc, u))
CosPi(x) == CosSeries(Mul(x, x), 1, One, One)

\* ---- the other elementary functions
Sq1(a) == Mul(a, a)
Ln2  == <<18419, 26573>>
Ln10 == <<28681, 12456>>
HalfPi == <<31939, 20333>>
QuarterPi == <<25022, 31859>>

\* 2 (t + t^3/3 + t^5/5 ...)
RECURSIVE LogSeries(_, _, _, _)
LogSeries(t2, k, p, acc) == IF k > 15 THEN Mul(Two, acc)
                            ELSE LogSeries(t2, k + 2, Mul(p, t2), Add(acc, Div(p, Int2R(k))))
RECURSIVE LogPos(_)
LogPos(x) == IF Gt(x, <<4, 3>>) THEN Add(Ln2, LogPos(Mul(Half, x)))
             ELSE IF Lt(x, <<2, 3>>) THEN Sub(LogPos(Mul(Two, x)), Ln2)
             ELSE LET t == Div(Sub(x, One), Add(x, One)) IN LogSeries(Mul(t, t), 1, t, Zero)
Log(x) == IF IsNaN(x) \/ x[1] < 0 THEN NaN ELSE IF x = Inf THEN Inf ELSE IF x[1] = 0 THEN NegInf ELSE LogPos(x)

RECURSIVE SinSeries(_, _, _, _)
SinSeries(x2, k, t, acc) == IF k > 8 THEN acc
                            ELSE LET u == Neg(Div(Mul(t, x2), Int2R((2 * k) * (2 * k + 1))))
                                 IN SinSeries(x2, k + 1, u, Add(acc, u))
\* into [-pi, pi]
Turn(x) == LET k == Round(Div(x, Mul(Two, Pi))) IN Sub(x, Mul(k, Mul(Two, Pi)))
Sin(x) == IF ~IsFinite(x) THEN NaN ELSE LET y == Turn(x) IN SinSeries(Mul(y, y), 1, y, y)
Cos(x) == IF ~IsFinite(x) THEN NaN ELSE CosPi(Turn(x))

\* t - t^3/3 + t^5/5 ...  for |t| < 1/2
RECURSIVE AtanSeries(_, _, _, _)
AtanSeries(t2, k, p, acc) == IF k > 17 THEN acc
                             ELSE AtanSeries(t2, k + 2, Neg(Mul(p, t2)), Add(acc, Div(p, Int2R(k))))
RECURSIVE AtanPos(_)
AtanPos(x) == IF x = Inf THEN HalfPi
              ELSE IF Gt(x, One) THEN Sub(HalfPi, AtanPos(Div(One, x)))
              ELSE IF Gt(x, <<2, 5>>) THEN Add(QuarterPi, AtanSeries(Sq1(Div(Sub(x, One), Add(x, One))), 1, Div(Sub(x, One), Add(x, One)), Zero))
              ELSE AtanSeries(Mul(x, x), 1, x, Zero)
Atan(x) == IF IsNaN(x) THEN NaN ELSE IF x[1] < 0 THEN Neg(AtanPos(Neg(x))) ELSE AtanPos(x)
Asin(x) == IF IsNaN(x) \/ Gt(Abs(x), One) THEN NaN
           ELSE IF x = One THEN HalfPi ELSE IF x = Neg(One) THEN Neg(HalfPi)
           ELSE Atan(Div(x, Sqrt(Sub(One, Mul(x, x)))))
Acos(x) == Sub(HalfPi, Asin(x))
Atan2(y, x) == IF IsNaN(y) \/ IsNaN(x) THEN NaN
               ELSE IF Gt(x, Zero) THEN Atan(Div(y, x))
               ELSE IF x = Zero THEN (IF y = Zero THEN Zero ELSE IF Gt(y, Zero) THEN HalfPi ELSE Neg(HalfPi))
               ELSE IF Ge(y, Zero) THEN Add(Atan(Div(y, x)), Pi) ELSE Sub(Atan(Div(y, x)), Pi)
Sinh(x) == Mul(Half, Sub(Exp(x), Exp(Neg(x))))
Cosh(x) == Mul(Half, Add(Exp(x), Exp(Neg(x))))
Tanh(x) == Sub(Mul(Two, Logistic(Mul(Two, x))), One)
Asinh(x) == IF IsNaN(x) THEN NaN
            ELSE IF x[1] < 0 THEN Neg(Log(Add(Neg(x), Sqrt(Add(Mul(x, x), One))))) ELSE Log(Add(x, Sqrt(Add(Mul(x, x), One))))
Acosh(x) == IF IsNaN(x) \/ Lt(x, One) THEN NaN ELSE Log(Add(x, Sqrt(Sub(Mul(x, x), One))))
Atanh(x) == IF IsNaN(x) \/ Gt(Abs(x), One) THEN NaN ELSE Mul(Half, Log(Div(Add(One, x), Sub(One, x))))

Apply1(t, a) ==
    CASE t = "!" -> LogicalNot(a)
      [] t = "~" -> Neg(a)
      [] t \in {"abs", "fabs"} -> Abs(a)
      [] t = "ceil"  -> Ceil(a)
      [] t = "floor" -> Floor(a)
      [] t = "round" -> Round(a)
      [] t = "sqrt"  -> Sqrt(a)
      [] t = "exp"   -> Exp(a)
      [] t = "log"   -> Log(a)
      [] t = "log10" -> Div(Log(a), Ln10)
      [] t = "log1p" -> Log(Add(One, a))
      [] t = "sin"   -> Sin(a)
      [] t = "cos"   -> Cos(a)
      [] t = "tan"   -> Div(Sin(a), Cos(a))
      [] t = "asin"  -> Asin(a)
      [] t = "acos"  -> Acos(a)
      [] t = "atan"  -> Atan(a)
      [] t = "sinh"  -> Sinh(a)
      [] t = "cosh"  -> Cosh(a)
      [] t = "tanh"  -> Tanh(a)
      [] t = "asinh" -> Asinh(a)
      [] t = "acosh" -> Acosh(a)
      [] t = "atanh" -> Atanh(a)

Apply2(t, a, b) ==
    CASE t = "^" -> Pow(a, b)
      [] t = "pow" -> Pow(a, b)
      [] t = "*" -> Mul(a, b)
      [] t = "/" -> Div(a, b)
      [] t = "%" -> FMod(a, b)
      [] t = "fmod" -> FMod(a, b)
      [] t = "atan2" -> Atan2(a, b)
      [] t = "+" -> Add(a, b)
      [] t = "-" -> Sub(a, b)
      [] t = "and" -> LogicalAnd(a, b)
      [] t = "or" -> LogicalOr(a, b)
      [] t = "max" -> Max(a, b)
      [] t = "min" -> Min(a, b)
      [] t = "eq" -> B01(FEq(a, b))
      [] t = "neq" -> B01(~FEq(a, b))
      [] t = "lt" -> B01(Lt(a, b))
      [] t = "gt" -> B01(Gt(a, b))
      [] t = "le" -> B01(FLe(a, b))
      [] t = "ge" -> B01(FGe(a, b))

\* evaluate a postfix over env (a function from names to numbers); a token that
\* is neither an element nor a name of env is looked up in lits (numeric
\* literals); "UNKNOWN" when it is in neither
Unknown == "UNKNOWN"
RECURSIVE EvalPF(_, _, _, _)
EvalPF(pf, env, lits, st) ==
    IF pf = << >> THEN (IF Len(st) = 1 THEN st[1] ELSE Unknown)
    ELSE LET t == Head(pf)  n == Len(st) IN
        IF t \in Elements THEN
            IF Arity(t) = 1
            THEN EvalPF(Tail(pf), env, lits, Append(SubSeq(st, 1, n - 1), Apply1(t, st[n])))
            ELSE EvalPF(Tail(pf), env, lits,
                        Append(SubSeq(st, 1, n - 2), Apply2(t, st[n - 1], st[n])))
        ELSE IF t \in DOMAIN lits THEN EvalPF(Tail(pf), env, lits, Append(st, lits[t]))
        ELSE IF t \in DOMAIN env THEN EvalPF(Tail(pf), env, lits, Append(st, env[t]))
        ELSE Unknown

\* the words of a postfix that stand for values
Operands(pf) == { pf[i] : i \in { k \in 1 .. Len(pf) : pf[k] \notin Elements } }

EvalFormula(toks, env, lits) == EvalPF(Postfix(toks), env, lits, << >>)

=============================================================================
