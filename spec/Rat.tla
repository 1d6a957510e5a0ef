-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Extended rational arithmetic: the number system of the model.           *)
(*                                                                         *)
(* A number is a pair <<n, d>>.  d > 0 is the rational n/d in lowest       *)
(* terms; d = 0 are the three IEEE specials: <<0,0>> = NaN, <<1,0>> = +inf,*)
(* <<-1,0>> = -inf.  Sign of zero is not modelled.                         *)
(*                                                                         *)
(* TLC integers have 32 bits.  Every value is kept with |n|, d <= B, so no *)
(* intermediate product or cross sum can overflow; a result that does not  *)
(* fit is replaced by a best approximation that does (continued fraction), *)
(* whose error is below 1/(d*B).  Values with small denominators (all the  *)
(* ones the discrete decisions of the model depend on) are exact.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

B == 32000

NaN    == <<0, 0>>
Inf    == <<1, 0>>
NegInf == <<-1, 0>>
Zero   == <<0, 1>>
One    == <<1, 1>>
Half   == <<1, 2>>
Two    == <<2, 1>>

IAbs(x) == IF x < 0 THEN -x ELSE x
IMax(a, b) == IF a >= b THEN a ELSE b
IMin(a, b) == IF a <= b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* best approximation of n/d (n >= 0, d > 0) with both parts <= B: the last convergent
\* that fits, or the semiconvergent after it when that is nearer
RECURSIVE Conv(_, _, _, _, _, _)
Conv(n, d, h1, k1, h2, k2) ==
    IF d = 0 THEN <<h1, k1>>
    ELSE LET q == n \div d
             tooBig == \/ (h1 > 0 /\ q > (B - h2) \div h1)
                       \/ (k1 > 0 /\ q > (B - k2) \div k1)
         IN IF tooBig /\ k1 > 0
            THEN LET m == IMin(IF h1 = 0 THEN B ELSE (B - h2) \div h1, (B - k2) \div k1)
                 IN IF m > q - m THEN <<m * h1 + h2, m * k1 + k2>> ELSE <<h1, k1>>
            ELSE Conv(d, n % d, q * h1 + h2, q * k1 + k2, h1, k1)

\* normal form of n/d for integers n and d > 0 (any 32-bit magnitude)
Mk(n, d) ==
    IF n = 0 THEN Zero
    ELSE LET g == Gcd(IAbs(n), d)
             p == n \div g
             q == d \div g
         IN IF IAbs(p) <= B /\ q <= B THEN <<p, q>>
            ELSE IF IAbs(p) \div q >= B THEN <<IF p < 0 THEN -B ELSE B, 1>>   \* saturated
            ELSE LET c == Conv(IAbs(p), q, 1, 0, 0, 1)
                 IN IF c[1] = 0 THEN Zero
                    ELSE IF p < 0 THEN <<-c[1], c[2]>> ELSE c

Int2R(i) == <<i, 1>>
R(n, d) == Mk(n, d)

IsNaN(a)    == a[2] = 0 /\ a[1] = 0
IsInf(a)    == a[2] = 0 /\ a[1] # 0
IsFinite(a) == a[2] # 0

Neg(a) == <<-a[1], a[2]>>

Add(a, b) ==
    IF a[2] # 0 /\ b[2] # 0
    THEN IF b[1] = 0 THEN a ELSE IF a[1] = 0 THEN b
         ELSE IF a[2] = b[2] THEN Mk(a[1] + b[1], a[2])
         ELSE Mk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF a[2] = 0 /\ b[2] = 0 THEN (IF a[1] = b[1] THEN a ELSE NaN)
    ELSE IF a[2] = 0 THEN a ELSE b

Sub(a, b) == Add(a, Neg(b))

Sgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

Mul(a, b) ==
    IF a[2] # 0 /\ b[2] # 0
    THEN IF a[1] = 0 \/ b[1] = 0 THEN Zero
         ELSE IF a = One THEN b ELSE IF b = One THEN a
         ELSE Mk(a[1] * b[1], a[2] * b[2])
    ELSE IF IsNaN(a) \/ IsNaN(b) \/ a[1] = 0 \/ b[1] = 0 THEN NaN
    ELSE <<Sgn(a) * Sgn(b), 0>>

\* division; x/0 follows IEEE for a positive zero
Div(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF b[2] = 0 THEN (IF a[2] = 0 THEN NaN ELSE Zero)
    ELSE IF b[1] = 0 THEN (IF a[1] = 0 THEN NaN ELSE <<Sgn(a), 0>>)
    ELSE IF a[2] = 0 THEN <<Sgn(a) * Sgn(b), 0>>
    ELSE IF b[1] > 0 THEN Mk(a[1] * b[2], a[2] * b[1])
    ELSE Mk(-(a[1] * b[2]), a[2] * (-b[1]))

\* exact comparison of two numbers that are not NaN: -1, 0, 1
Cmp(a, b) ==
    IF a = b THEN 0
    ELSE IF a[2] = 0 THEN Sgn(a)
    ELSE IF b[2] = 0 THEN -Sgn(b)
    ELSE LET l == a[1] * b[2]
             r == b[1] * a[2]
         IN IF l < r THEN -1 ELSE IF l > r THEN 1 ELSE 0

\* IEEE comparisons: false whenever a NaN takes part
Lt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) < 0
Gt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) > 0
Le(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) <= 0
Ge(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) >= 0
Eq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a = b
\* library comparisons: NaN equals NaN
FEq(a, b) == a = b
FLe(a, b) == FEq(a, b) \/ Lt(a, b)
FGe(a, b) == FEq(a, b) \/ Gt(a, b)

Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a

\* the library's min and max: a NaN operand makes the result NaN
Min(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Lt(a, b) THEN a ELSE b
Max(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Gt(a, b) THEN a ELSE b

\* the library's bound: NaN stays NaN
Bound(x, lo, hi) == IF Gt(x, hi) THEN hi ELSE IF Lt(x, lo) THEN lo ELSE x

RECURSIVE PowNat(_, _)
PowNat(a, k) == IF k = 0 THEN One ELSE Mul(a, PowNat(a, k - 1))
PowInt(a, k) == IF k >= 0 THEN PowNat(a, k) ELSE Div(One, PowNat(a, -k))

Floor(a) == IF a[2] = 0 THEN a ELSE <<a[1] \div a[2], 1>>
Ceil(a)  == Neg(Floor(Neg(a)))
Trunc(a) == IF a[1] < 0 THEN Ceil(a) ELSE Floor(a)
\* std::round: halves away from zero
Round(a) == IF a[2] = 0 THEN a
            ELSE IF a[1] < 0 THEN Neg(Floor(Add(Neg(a), Half))) ELSE Floor(Add(a, Half))

-----------------------------------------------------------------------------
(* closeness: the only way computed and observed numbers are compared      *)

\* k decimal digits of r/d (0 <= r < d)
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) ==
    IF k = 0 THEN acc
    ELSE Digits((10 * r) % d, d, k - 1, 10 * acc + (10 * r) \div d)

IntPart(a) == a[1] \div a[2]
Micro(a)   == Digits(a[1] % a[2], a[2], 6, 0)

\* |a - b| <= tol millionths (plus a relative part for large magnitudes)
CloseTo(a, b, tol) ==
    \/ a = b
    \/ /\ a[2] # 0 /\ b[2] # 0
       /\ LET di == IntPart(a) - IntPart(b)
          IN /\ IAbs(di) <= 1000
             /\ IAbs(di * 1000000 + Micro(a) - Micro(b)) <=
                    tol + (tol * IMin(IAbs(IntPart(a)), 30000)) \div 2

Close(a, b) == CloseTo(a, b, 150)
\* for results of long sums and quotients
CloseValue(a, b) == CloseTo(a, b, 1000)

\* sequences of numbers
\* (the same sequence, every element computed once)
Eager(s) == TLCEval(s)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

=============================================================================
