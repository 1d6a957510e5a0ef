------------------------------ MODULE NormLaws ------------------------------
(* What makes a T-norm a T-norm and an S-norm an S-norm, on a grid of exact *)
(* degrees; and De Morgan duality of the pairs.                             *)
EXTENDS Norms
Grid == { Mk(i, 8) : i \in 0 .. 8 }
Duals == { <<"AlgebraicProduct", "AlgebraicSum">>, <<"BoundedDifference", "BoundedSum">>, <<"DrasticProduct", "DrasticSum">>,
           <<"EinsteinProduct", "EinsteinSum">>, <<"HamacherProduct", "HamacherSum">>, <<"Minimum", "Maximum">>,
           <<"NilpotentMinimum", "NilpotentMaximum">> }
VARIABLES k, a, b, c
vars == <<k, a, b, c>>
Init == k \in TNormNames \cup SNormNames /\ a \in Grid /\ b \in Grid /\ c \in Grid
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

f(x, y) == IF k \in TNormNames THEN TNorm(k, x, y) ELSE SNorm(k, x, y)
Same(x, y) == CloseTo(x, y, 10)
Unit == IF k \in TNormNames THEN One ELSE Zero
Bottom == IF k \in TNormNames THEN Zero ELSE One
Commutative == f(a, b) = f(b, a)
Associative == k # "UnboundedSum" => Same(f(a, f(b, c)), f(f(a, b), c))
Monotone == Le(b, c) => Le(f(a, b), f(a, c)) \/ Same(f(a, b), f(a, c))
Neutral == f(a, Unit) = a
Absorbing == k # "UnboundedSum" => f(a, Bottom) = Bottom
InRange == k # "UnboundedSum" => Ge(f(a, b), Zero) /\ Le(f(a, b), One)
\* every T-norm lies between the drastic product and the minimum, every S-norm above the maximum
Between == IF k \in TNormNames THEN Le(f(a, b), Min(a, b)) /\ Ge(f(a, b), TNorm("DrasticProduct", a, b))
           ELSE Ge(f(a, b), Max(a, b)) /\ (k # "UnboundedSum" => Le(f(a, b), SNorm("DrasticSum", a, b)))
Dual == \A d \in Duals : d[1] = k => Same(Sub(One, TNorm(k, Sub(One, a), Sub(One, b))), SNorm(d[2], a, b))
=============================================================================
