----------------------------- MODULE HedgeLaws -----------------------------
(* What hedges do to degrees, on a grid.                                    *)
EXTENDS Norms
Grid == { Mk(i, 32) : i \in 0 .. 32 }
VARIABLES k, a, b
vars == <<k, a, b>>
Init == k \in HedgeNames /\ a \in Grid /\ b \in Grid
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same(x, y) == CloseTo(x, y, 10)
InRange == Ge(HedgeOf(k, a), Zero) /\ Le(HedgeOf(k, a), One)
Monotone == Lt(a, b) => IF k = "not" THEN Gt(HedgeOf(k, a), HedgeOf(k, b)) ELSE Le(HedgeOf(k, a), HedgeOf(k, b))
Ends == k \notin {"not", "any"} => HedgeOf(k, Zero) = Zero /\ HedgeOf(k, One) = One
Involution == k = "not" => HedgeOf(k, HedgeOf(k, a)) = a
\* concentration and dilation, and pairs that undo one another
Concentrates == k = "very" => Le(HedgeOf(k, a), a)
Dilates == k = "somewhat" => Ge(HedgeOf(k, a), a) \/ Same(HedgeOf(k, a), a)
Undone == /\ k = "very" => Same(HedgeOf("somewhat", HedgeOf(k, a)), a)
          /\ k = "extremely" => Same(HedgeOf("seldom", HedgeOf(k, a)), a)
Halves == k \in {"extremely", "seldom"} => HedgeOf(k, Half) = Half
=============================================================================
