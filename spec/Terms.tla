------------------------------- MODULE Terms -------------------------------
(* Linguistic terms.  A term is a record                                    *)
(*   [name, k (class), p (sequence of parameters), h (height), f (formula)] *)
(* with f a token sequence used by Function terms only.                     *)
EXTENDS Formula

\* env: [ins: sequence of input values, vars: name -> value, lits: literal -> value]
RECURSIVE Dot(_, _, _)
Dot(cs, xs, i) == IF i > Len(cs) \/ i > Len(xs) THEN Zero
                  ELSE Add(Mul(cs[i], xs[i]), Dot(cs, xs, i + 1))

RECURSIVE DiscreteAt(_, _, _)
DiscreteAt(p, x, i) ==          \* p[i], p[i+1] is a pair; first pair with abscissa >= x
    IF Ge(p[i], x) THEN
        IF p[i] = x THEN p[i + 1]
        ELSE Add(Mul(Div(Sub(p[i + 1], p[i - 1]), Sub(p[i], p[i - 2])), Sub(x, p[i - 2])), p[i - 1])
    ELSE DiscreteAt(p, x, i + 2)

Sq(a) == Mul(a, a)

SCurve(x, s, e) ==              \* smooth step up from s to e
    IF FLe(x, s) THEN Zero
    ELSE IF FLe(x, Mul(Half, Add(s, e))) THEN Mul(Two, Sq(Div(Sub(x, s), Sub(e, s))))
    ELSE IF Lt(x, e) THEN Sub(One, Mul(Two, Sq(Div(Sub(x, e), Sub(e, s)))))
    ELSE One
ZCurve(x, s, e) ==              \* smooth step down from s to e
    IF FLe(x, s) THEN One
    ELSE IF FLe(x, Mul(Half, Add(s, e))) THEN Sub(One, Mul(Two, Sq(Div(Sub(x, s), Sub(e, s)))))
    ELSE IF Lt(x, e) THEN Mul(Two, Sq(Div(Sub(x, e), Sub(e, s))))
    ELSE Zero

\* the unit-height shape of the terms that are a function of x only
Shape(k, p, x) ==
    CASE k = "Triangle" ->
            IF Lt(x, p[1]) \/ Gt(x, p[3]) THEN Zero
            ELSE IF x = p[2] THEN One
            ELSE IF Lt(x, p[2]) THEN
                 (IF p[1] = NegInf THEN One ELSE Div(Sub(x, p[1]), Sub(p[2], p[1])))
            ELSE (IF p[3] = Inf THEN One ELSE Div(Sub(p[3], x), Sub(p[3], p[2])))
      [] k = "Trapezoid" ->
            IF Lt(x, p[1]) \/ Gt(x, p[4]) THEN Zero
            ELSE IF Lt(x, p[2]) THEN
                 (IF p[1] = NegInf THEN One
                  ELSE Min(One, Div(Sub(x, p[1]), Sub(p[2], p[1]))))
            ELSE IF FLe(x, p[3]) THEN One
            ELSE IF Lt(x, p[4]) THEN
                 (IF p[4] = Inf THEN One ELSE Div(Sub(p[4], x), Sub(p[4], p[3])))
            ELSE IF p[4] = Inf THEN One ELSE Zero
      [] k = "Rectangle" -> IF FGe(x, p[1]) /\ FLe(x, p[2]) THEN One ELSE Zero
      [] k = "Ramp" ->
            IF p[1] = p[2] THEN NaN
            ELSE IF Lt(p[1], p[2]) THEN
                 (IF FLe(x, p[1]) THEN Zero ELSE IF FGe(x, p[2]) THEN One
                  ELSE Div(Sub(x, p[1]), Sub(p[2], p[1])))
            ELSE (IF FGe(x, p[1]) THEN Zero ELSE IF FLe(x, p[2]) THEN One
                  ELSE Div(Sub(p[1], x), Sub(p[1], p[2])))
      [] k = "Binary" ->
            IF Gt(p[2], p[1]) /\ FGe(x, p[1]) THEN One
            ELSE IF Lt(p[2], p[1]) /\ FLe(x, p[1]) THEN One ELSE Zero
      [] k = "Concave" ->
            IF FLe(p[1], p[2]) THEN
                 (IF Lt(x, p[2]) THEN Div(Sub(p[2], p[1]), Sub(Sub(Mul(Two, p[2]), p[1]), x))
                  ELSE One)
            ELSE (IF Gt(x, p[2]) THEN Div(Sub(p[1], p[2]), Add(Sub(p[1], Mul(Two, p[2])), x))
                  ELSE One)
      [] k = "SShape" -> SCurve(x, p[1], p[2])
      [] k = "ZShape" -> ZCurve(x, p[1], p[2])
      [] k = "PiShape" -> Mul(SCurve(x, p[1], p[2]), ZCurve(x, p[3], p[4]))
      [] k = "Discrete" ->
            LET n == Len(p) IN
            IF FLe(x, p[1]) THEN p[2]
            ELSE IF FGe(x, p[n - 1]) THEN p[n]
            ELSE DiscreteAt(p, x, 1)
      [] k = "Bell" ->           \* 2 * slope is an integer in the model
            LET t == Abs(Div(Sub(x, p[1]), p[2]))
            IN Div(One, Add(One, Pow(t, Mul(Two, p[3]))))
      [] k = "Gaussian" ->
            Exp(Neg(Div(Sq(Div(Sub(x, p[1]), p[2])), Two)))
      [] k = "GaussianProduct" ->
            Mul(IF Lt(x, p[1]) THEN Exp(Neg(Div(Sq(Div(Sub(x, p[1]), p[2])), Two))) ELSE One,
                IF Gt(x, p[3]) THEN Exp(Neg(Div(Sq(Div(Sub(x, p[3]), p[4])), Two))) ELSE One)
      [] k = "Sigmoid" -> Logistic(Mul(p[2], Sub(x, p[1])))
      [] k = "SigmoidDifference" ->    \* left, rising, falling, right
            Abs(Sub(Logistic(Mul(p[2], Sub(x, p[1]))), Logistic(Mul(p[3], Sub(x, p[4])))))
      [] k = "SigmoidProduct" ->
            Mul(Logistic(Mul(p[2], Sub(x, p[1]))), Logistic(Mul(p[3], Sub(x, p[4]))))
      [] k = "Spike" -> Exp(Neg(Abs(Mul(Div(<<10, 1>>, p[2]), Sub(x, p[1])))))
      [] k = "Cosine" ->               \* center, width
            IF Lt(x, Sub(p[1], Mul(Half, p[2]))) \/ Gt(x, Add(p[1], Mul(Half, p[2]))) THEN Zero
            ELSE Mul(Half, Add(One, CosPi(Mul(Div(Mul(Two, Pi), p[2]), Sub(x, p[1])))))

ShapeKinds == {"Triangle", "Trapezoid", "Rectangle", "Ramp", "Binary", "Concave", "SShape",
               "ZShape", "PiShape", "Discrete", "Bell", "Gaussian", "GaussianProduct",
               "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Cosine"}

MonotonicKinds == {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"}
IsMonotonic(t) == t.k \in MonotonicKinds

Membership(t, x, env) ==
    CASE t.k \in ShapeKinds -> IF IsNaN(x) THEN NaN ELSE Mul(t.h, Shape(t.k, t.p, x))
      [] t.k = "Constant" -> t.p[1]
      [] t.k = "Linear" ->
            LET s == Dot(t.p, env.ins, 1)
            IN IF Len(t.p) > Len(env.ins) THEN Add(s, t.p[Len(t.p)]) ELSE s
      [] t.k = "Function" ->
            EvalFormula(t.f, [v \in (DOMAIN env.vars) \cup {"x"} |->
                                IF v = "x" THEN x ELSE env.vars[v]], env.lits)

\* inverse of the monotonic terms that have one in closed rational form
Tsukamoto(t, y) ==
    CASE t.k = "Ramp" -> Add(t.p[1], Div(Mul(Sub(t.p[2], t.p[1]), y), t.h))
      [] t.k = "Sigmoid" -> Add(t.p[1], Div(Log(Sub(Div(t.h, y), One)), Neg(t.p[2])))
      [] t.k = "Concave" -> Sub(Add(Div(Mul(t.h, Sub(t.p[1], t.p[2])), y), Mul(Two, t.p[2])), t.p[1])
      [] t.k = "SShape" ->
            IF FLe(y, Mul(Half, t.h))
            THEN Add(t.p[1], Mul(Sub(t.p[2], t.p[1]), Sqrt(Div(y, Mul(Two, t.h)))))
            ELSE Sub(t.p[2], Mul(Sub(t.p[2], t.p[1]), Sqrt(Div(Sub(t.h, y), Mul(Two, t.h)))))
      [] t.k = "ZShape" ->
            IF FLe(y, Mul(Half, t.h))
            THEN Sub(t.p[2], Mul(Sub(t.p[2], t.p[1]), Sqrt(Div(y, Mul(Two, t.h)))))
            ELSE Add(t.p[1], Mul(Sub(t.p[2], t.p[1]), Sqrt(Div(Sub(t.h, y), Mul(Two, t.h)))))
=============================================================================
