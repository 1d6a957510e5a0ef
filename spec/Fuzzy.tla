------------------------------- MODULE Fuzzy -------------------------------
(* Fuzzy outputs: collections of activated terms, their aggregation, and    *)
(* the conversion of a fuzzy output into a number.                          *)
(*   entry : [t: index into the output's terms, d: degree, impl: T-norm]    *)
(*   results that may raise are records [e: raised?, v: number]             *)
EXTENDS Terms

OkV(v) == [e |-> FALSE, v |-> v]
ErrV   == [e |-> TRUE, v |-> NaN]

IntegralKinds == {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}
WeightedKinds == {"WeightedAverage", "WeightedSum"}

\* ---- membership of the aggregate at x
Contribution(terms, e, x, env) == TNorm(e.impl, Membership(terms[e.t], x, env), e.d)

\* contributions joined by the aggregation, left to right
RECURSIVE FoldC(_, _, _)
FoldC(agg, cs, mu) == IF cs = << >> THEN mu ELSE FoldC(agg, Tail(cs), SNorm(agg, mu, Head(cs)))

AggMembership(terms, agg, fz, x, env) ==
    IF IsNaN(x) THEN OkV(NaN)
    ELSE IF fz # << >> /\ agg = "none" THEN ErrV
    ELSE IF \E i \in 1 .. Len(fz) : fz[i].impl = "none" THEN ErrV
    ELSE OkV(FoldC(agg, Eager([e \in 1 .. Len(fz) |-> Contribution(terms, fz[e], x, env)]), Zero))

\* ---- degree accumulated by one term
RECURSIVE DegreeOf(_, _, _, _)
DegreeOf(agg, fz, t, acc) ==
    IF fz = << >> THEN acc
    ELSE DegreeOf(agg, Tail(fz), t,
                  IF Head(fz).t # t THEN acc
                  ELSE IF agg = "none" THEN Add(acc, Head(fz).d) ELSE SNorm(agg, acc, Head(fz).d))

\* ---- grouping by term name, in order of first appearance: <<t, degree>> pairs
RECURSIVE GroupInto(_, _, _, _)
GroupInto(terms, agg, acc, e) ==      \* acc: sequence of [t, d]
    IF acc = << >> THEN << [t |-> e.t, d |-> e.d] >>
    ELSE IF terms[Head(acc).t].name = terms[e.t].name
    THEN << [t |-> Head(acc).t, d |-> SNorm(IF agg = "none" THEN "UnboundedSum" ELSE agg,
                                            Head(acc).d, e.d)] >> \o Tail(acc)
    ELSE << Head(acc) >> \o GroupInto(terms, agg, Tail(acc), e)
RECURSIVE GroupAll(_, _, _, _)
GroupAll(terms, agg, fz, acc) ==
    IF fz = << >> THEN acc ELSE GroupAll(terms, agg, Tail(fz), GroupInto(terms, agg, acc, Head(fz)))
Grouped(terms, agg, fz) == GroupAll(terms, agg, fz, << >>)

\* ---- maximally activated entries (positions), in order
MaxDegree(fz) == IF \E i \in 1 .. Len(fz) : Gt(fz[i].d, Zero)
                 THEN LET S == { fz[i].d : i \in { j \in 1 .. Len(fz) : Gt(fz[j].d, Zero) } }
                      IN CHOOSE m \in S : \A s \in S : Ge(m, s)
                 ELSE Zero
MaxPositions(fz) == LET m == MaxDegree(fz) IN
                    SelectSeq([i \in 1 .. Len(fz) |-> i], LAMBDA i : m # Zero /\ fz[i].d = m)

-----------------------------------------------------------------------------
(* integral defuzzification on r midpoints of [lo, hi]; the result is the   *)
(* set of admissible answers (a bisector may break exact ties either way)   *)
Midpoint(lo, hi, r, i) == Add(lo, Mul(Sub(hi, lo), R(2 * i - 1, 2 * r)))

\* ys: sequence of memberships at the midpoints
MaxOf(ys) == LET S == { ys[i] : i \in { j \in 1 .. Len(ys) : ~IsNaN(ys[j]) } }
             IN IF S = {} THEN NaN ELSE CHOOSE m \in S : \A s \in S : Ge(m, s)
RECURSIVE SumPos(_, _)
SumPos(xs, S) == IF S = {} THEN Zero
                 ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
                      IN Add(xs[i], SumPos(xs, S \ {i}))
SetMin(S) == CHOOSE i \in S : \A j \in S : i <= j
SetMax(S) == CHOOSE i \in S : \A j \in S : i >= j

RECURSIVE CumSums(_, _, _)
CumSums(ys, i, acc) == IF i > Len(ys) THEN << >>
                       ELSE LET a == IF IsFinite(ys[i]) THEN Add(acc, ys[i]) ELSE acc
                            IN << a >> \o CumSums(ys, i + 1, a)

Integral(k, lo, hi, r, ys) ==
    LET xs == Eager([i \in 1 .. r |-> Midpoint(lo, hi, r, i)])
        m  == MaxOf(ys)
        P  == { i \in 1 .. r : ~IsNaN(ys[i]) /\ ys[i] = m }
    IN
    CASE k = "Centroid" -> { Div(SumSeq([i \in 1 .. r |-> Mul(ys[i], xs[i])]), SumSeq(ys)) }
      [] k = "SmallestOfMaximum" -> { IF P = {} THEN NaN ELSE xs[SetMin(P)] }
      [] k = "LargestOfMaximum"  -> { IF P = {} THEN NaN ELSE xs[SetMax(P)] }
      [] k = "MeanOfMaximum"     -> { IF P = {} THEN NaN
                                      ELSE Div(SumPos(xs, P), Int2R(Cardinality(P))) }
      [] k = "Bisector" ->
            LET cs == CumSums(ys, 1, Zero)
                s  == cs[r]
            IN IF s = Zero THEN { NaN }
               ELSE LET off == Eager([i \in 1 .. r |-> Abs(Sub(Div(cs[i], s), Half))])
                        Q   == { i \in 1 .. r : \A j \in 1 .. r : Le(off[i], off[j]) }
                    IN { Div(SumPos(xs, Q), Int2R(Cardinality(Q))) } \cup
                       (IF \E i, j \in Q : cs[i] # cs[j]
                        THEN { Div(SumPos(xs, { j \in Q : cs[j] = cs[i] }),
                                   Int2R(Cardinality({ j \in Q : cs[j] = cs[i] }))) : i \in Q }
                        ELSE {})

\* Where an answer hangs on a difference that the bounded arithmetic of the model
\* cannot tell (two memberships closer than NearTie that do not stem from the
\* same contributions, two candidate bisectors), any answer is admitted.
CurvedKinds == {"Bell", "Gaussian", "GaussianProduct", "Sigmoid", "SigmoidDifference", "SigmoidProduct",
                "Spike", "Cosine", "Concave"}
NearTie == <<1, 10000>>

\* A tie that floating point cannot spoil: the contribution of entry e at x is a
\* plain zero, or the degree itself cut off well below the membership, or everything
\* is a small binary fraction (ex: so are the degrees of the real code, exactly).
RECURSIVE PowerOf2(_)
PowerOf2(n) == n = 1 \/ (n % 2 = 0 /\ PowerOf2(n \div 2))
Dyadic(q) == q[2] > 0 /\ q[2] <= 4096 /\ PowerOf2(q[2])
Settled(terms, e, x, c, env, ex) ==
    \/ c = Zero
    \/ e.impl = "Minimum" /\ c = e.d /\ Gt(Membership(terms[e.t], x, env), Add(e.d, NearTie))
    \/ ex /\ Dyadic(c) /\ Dyadic(x) /\ Dyadic(e.d) /\ Dyadic(Membership(terms[e.t], x, env))

Undecided(k, agg, curved, r, ys, cs, settled(_)) ==
    CASE k \in {"LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"} ->
            LET m    == MaxOf(ys)
                near == { i \in 1 .. r : IsFinite(ys[i]) /\ IsFinite(m) /\ Lt(Sub(m, ys[i]), NearTie) }
            IN \/ IsFinite(m) /\ (m # Zero \/ curved) /\ Lt(m, <<1, 500>>)
               \/ \E i \in near : ys[i] # m
               \/ Cardinality(near) > 1 /\ (curved \/ \E i \in near : ~settled(i))
               \/ agg # "Maximum" /\ Cardinality({ cs[i] : i \in near }) > 1
      [] k = "Bisector" ->
            LET c   == Eager(CumSums(ys, 1, Zero))
                off == Eager([i \in 1 .. r |-> Abs(Sub(Div(c[i], c[r]), Half))])
                m   == CHOOSE o \in { off[i] : i \in 1 .. r } : \A j \in 1 .. r : Le(o, off[j])
            IN /\ (c[r] # Zero \/ curved) /\ IsFinite(c[r])
               /\ \/ Lt(c[r], <<1, 16>>)
                  \/ \E i \in 1 .. r : off[i] # m /\ Lt(Sub(off[i], m), NearTie)
                  \* (a curve may be zero to the model only)
                  \/ curved /\ Cardinality({ i \in 1 .. r : off[i] = m }) > 1
      [] k = "Centroid" -> LET s == SumSeq(ys) IN IsFinite(s) /\ (s # Zero \/ curved) /\ Lt(s, <<1, 16>>)
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* weighted defuzzification *)
TermType(t) == IF t.k \in {"Constant", "Linear", "Function"} THEN "TakagiSugeno"
               ELSE IF IsMonotonic(t) THEN "Tsukamoto" ELSE "Automatic"

\* inverse at the very height of a term (other than one): on the edge of its domain,
\* where the last bit of a degree decides between a number and NaN
OnEdge(terms, agg, fz) == LET gs == Grouped(terms, agg, fz) IN
    \E i \in 1 .. Len(gs) : /\ TermType(terms[gs[i].t]) = "Tsukamoto"
                            /\ \/ terms[gs[i].t].h # One /\ Close(gs[i].d, terms[gs[i].t].h)
                               \* (roots amplify rounding of aggregated degrees next to both ends)
                               \/ /\ terms[gs[i].t].k \in {"SShape", "ZShape"}
                                  /\ Cardinality({ e \in 1 .. Len(fz) : fz[e].t = gs[i].t }) > 1
                                  /\ \/ Gt(gs[i].d, Zero) /\ Lt(gs[i].d, <<1, 200>>)
                                     \/ LET gap == Sub(terms[gs[i].t].h, gs[i].d)
                                        IN Gt(gap, <<-1, 200>>) /\ Lt(gap, <<1, 200>>)

Weighted(k, type, terms, agg, fz, env) ==
    IF fz = << >> THEN OkV(NaN)
    ELSE LET kinds == { TermType(terms[fz[i].t]) : i \in 1 .. Len(fz) }
             ty == IF type # "Automatic" THEN type
                   ELSE IF Cardinality(kinds) > 1 THEN "mixed"
                   ELSE CHOOSE x \in kinds : TRUE
             gs == Grouped(terms, agg, fz)
         IN IF ty \notin {"TakagiSugeno", "Tsukamoto"} THEN ErrV
            ELSE IF ty = "Tsukamoto" /\ \E i \in 1 .. Len(gs) : ~IsMonotonic(terms[gs[i].t])
            THEN ErrV
            ELSE LET z(i) == IF ty = "TakagiSugeno"
                             THEN Membership(terms[gs[i].t], gs[i].d, env)
                             ELSE Tsukamoto(terms[gs[i].t], gs[i].d)
                     \* (small degrees are brought to the same scale first, which leaves averages as they are)
                     top == MaxOf([i \in 1 .. Len(gs) |-> gs[i].d])
                     small == /\ k = "WeightedAverage" /\ \A i \in 1 .. Len(gs) : IsFinite(gs[i].d) /\ Ge(gs[i].d, Zero)
                              /\ Gt(top, Zero) /\ Lt(top, <<1, 16>>)
                     wt(i) == IF small THEN Div(gs[i].d, top) ELSE gs[i].d
                     num == SumSeq([i \in 1 .. Len(gs) |-> Mul(wt(i), z(i))])
                     den == SumSeq([i \in 1 .. Len(gs) |-> wt(i)])
                 IN OkV(IF k = "WeightedSum" THEN num ELSE Div(num, den))

\* ---- the defuzzifier of an output: df = [k, res, type]
\* result: [e, vs: set of admissible numbers, any: undecided]
Defuzz(df, lo, hi, terms, agg, fz, env, ex) ==
    IF df.k \in WeightedKinds
    THEN LET r == Weighted(df.k, df.type, terms, agg, fz, env) IN [e |-> r.e, vs |-> {r.v}, any |-> ~r.e /\ OnEdge(terms, agg, fz)]
    ELSE IF ~IsFinite(Add(lo, hi)) THEN [e |-> FALSE, vs |-> {NaN}, any |-> FALSE]
    ELSE IF AggMembership(terms, agg, fz, lo, env).e THEN [e |-> TRUE, vs |-> {NaN}, any |-> FALSE]
    ELSE LET cs == Eager([i \in 1 .. df.res |->
                      Eager([e \in 1 .. Len(fz) |->
                          Contribution(terms, fz[e], Midpoint(lo, hi, df.res, i), env)])])
             ys == Eager([i \in 1 .. df.res |-> FoldC(agg, cs[i], Zero)])
         IN [e |-> FALSE, vs |-> Integral(df.k, lo, hi, df.res, ys),
             any |-> Undecided(df.k, agg, \E e \in 1 .. Len(fz) : terms[fz[e].t].k \in CurvedKinds,
                              df.res, ys, cs,
                              LAMBDA i : \A e \in 1 .. Len(fz) :
                                  Settled(terms, fz[e], Midpoint(lo, hi, df.res, i), cs[i][e], env, ex))]
=============================================================================
