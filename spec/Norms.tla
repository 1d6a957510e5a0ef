------------------------------- MODULE Norms -------------------------------
(* The fuzzy operators of the library: T-norms, S-norms and hedges, as      *)
(* functions on the extended rationals.                                     *)
EXTENDS Rat

TNormNames == {"AlgebraicProduct", "BoundedDifference", "DrasticProduct",
               "EinsteinProduct", "HamacherProduct", "Minimum", "NilpotentMinimum"}
SNormNames == {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum",
               "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum",
               "UnboundedSum"}

InUnit(a) == Ge(a, Zero) /\ Le(a, One)
\* ab / (a + b - ab) for degrees, written so that no small product is rounded away
HamacherP(a, b) == IF a = Zero \/ b = Zero THEN Zero
                   ELSE LET x == Max(a, b)  y == Min(a, b)
                        IN Div(y, Add(Sub(One, y), Div(y, x)))

TNorm(k, a, b) ==
    CASE k = "Minimum"           -> Min(a, b)
      [] k = "AlgebraicProduct"  -> Mul(a, b)
      [] k = "BoundedDifference" -> Max(Zero, Sub(Add(a, b), One))
      [] k = "DrasticProduct"    -> IF FEq(Max(a, b), One) THEN Min(a, b) ELSE Zero
      [] k = "EinsteinProduct"   -> Div(Mul(a, b), Sub(Two, Sub(Add(a, b), Mul(a, b))))
      [] k = "HamacherProduct"   -> IF FEq(Add(a, b), Zero) THEN Zero
                                    ELSE IF InUnit(a) /\ InUnit(b) THEN HamacherP(a, b)
                                    ELSE Div(Mul(a, b), Sub(Add(a, b), Mul(a, b)))
      [] k = "NilpotentMinimum"  -> IF Gt(Add(a, b), One) THEN Min(a, b) ELSE Zero

SNorm(k, a, b) ==
    CASE k = "Maximum"          -> Max(a, b)
      [] k = "AlgebraicSum"     -> Sub(Add(a, b), Mul(a, b))
      [] k = "BoundedSum"       -> Min(One, Add(a, b))
      [] k = "DrasticSum"       -> IF FEq(Min(a, b), Zero) THEN Max(a, b) ELSE One
      [] k = "EinsteinSum"      -> Div(Add(a, b), Add(One, Mul(a, b)))
      [] k = "HamacherSum"      -> IF FEq(Mul(a, b), One) THEN One
                                   ELSE IF InUnit(a) /\ InUnit(b)
                                   THEN Sub(One, HamacherP(Sub(One, a), Sub(One, b)))
                                   ELSE Div(Sub(Add(a, b), Mul(Two, Mul(a, b))),
                                            Sub(One, Mul(a, b)))
      [] k = "NilpotentMaximum" -> IF Lt(Add(a, b), One) THEN Max(a, b) ELSE One
      [] k = "NormalizedSum"    -> Div(Add(a, b), Max(One, Add(a, b)))
      [] k = "UnboundedSum"     -> Add(a, b)

\* Four norms jump.  Next to a jump the bounded arithmetic of the model cannot tell
\* the sides apart: all the answers that floating point may give there.
Jump == <<1, 2000>>
Near(a, b) == IsFinite(a) /\ IsFinite(b) /\ Lt(Abs(Sub(a, b)), Jump)
TNormAll(k, a, b) ==
    {TNorm(k, a, b)} \cup
    CASE k = "DrasticProduct"   -> IF Near(Max(a, b), One) THEN {Min(a, b), Zero} ELSE {}
      [] k = "NilpotentMinimum" -> IF Near(Add(a, b), One) THEN {Min(a, b), Zero} ELSE {}
      [] OTHER -> {}
SNormAll(k, a, b) ==
    {SNorm(k, a, b)} \cup
    CASE k = "DrasticSum"       -> IF Near(Min(a, b), Zero) THEN {Max(a, b), One} ELSE {}
      [] k = "NilpotentMaximum" -> IF Near(Add(a, b), One) THEN {Max(a, b), One} ELSE {}
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* square root by Newton iteration, to the precision of the number system   *)
RECURSIVE Newton(_, _, _)
Newton(x, y, k) == IF k = 0 \/ y[1] = 0 THEN y
                   ELSE Newton(x, Mul(Half, Add(y, Div(x, y))), k - 1)

\* exact root of a perfect square of integers, or -1
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k = n THEN k ELSE IF k * k > n THEN -1 ELSE ISqrt(n, k + 1)

Sqrt(x) ==
    IF IsNaN(x) \/ x[1] < 0 THEN NaN
    ELSE IF x[2] = 0 \/ x[1] = 0 THEN x
    ELSE LET p == ISqrt(x[1], 0)  q == ISqrt(x[2], 1)
         IN IF p >= 0 /\ q >= 0 THEN <<p, q>>
            ELSE Newton(x, Mul(Half, Add(One, x)), 14)

-----------------------------------------------------------------------------
HedgeNames == {"any", "extremely", "not", "seldom", "somewhat", "very"}

HedgeOf(k, x) ==
    CASE k = "any"       -> One
      [] k = "not"       -> Sub(One, x)
      [] k = "very"      -> Mul(x, x)
      [] k = "extremely" -> IF FLe(x, Half) THEN Mul(Two, Mul(x, x))
                            ELSE Sub(One, Mul(Two, Mul(Sub(One, x), Sub(One, x))))
      [] k = "somewhat"  -> Sqrt(x)
      [] k = "seldom"    -> IF FLe(x, Half) THEN Sqrt(Mul(Half, x))
                            ELSE Sub(One, Sqrt(Mul(Half, Sub(One, x))))

\* hedges are written outermost first: the last one applies first
RECURSIVE ApplyHedges(_, _)
ApplyHedges(hs, x) == IF hs = << >> THEN x
                      ELSE HedgeOf(Head(hs), ApplyHedges(Tail(hs), x))
=============================================================================
