-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The parts an engine is made of, one by one: what each public operation  *)
(* of a norm, hedge, term or formula answers.  A step is a record of the   *)
(* operation, its arguments and the answers observed; Wrong(s) is the set  *)
(* of aspects in which they differ from what is specified.                 *)
(***************************************************************************)
EXTENDS Values, FormulaText, Collections

Utl == INSTANCE Utilities
Con == INSTANCE Console

If(p, a) == IF p THEN {} ELSE {a}

\* v is one of the admissible values vs
OneOf(vs, v) == \E x \in vs : Close(x, v)
\* small binary fractions: floating point is exact on these
Exactly(a, b) == Dyadic(a) /\ Dyadic(b)

\* ---- norms: s.k, s.a and s.b the arguments, s.v the values
NormAt(s, i) ==
    LET a == s.a[i]  b == s.b[i] IN
    IF s.op = "tnorm" THEN IF Exactly(a, b) THEN {TNorm(s.k, a, b)} ELSE TNormAll(s.k, a, b)
    ELSE IF Exactly(a, b) THEN {SNorm(s.k, a, b)} ELSE SNormAll(s.k, a, b)
NormWrong(s) == If(~s.e /\ Len(s.v) = Len(s.a) /\ \A i \in 1 .. Len(s.a) : OneOf(NormAt(s, i), s.v[i]), "norm")

\* norms and hedges given as formulas of a and b, or of x
FunctionNormWrong(s) ==
    If(~s.e /\ Len(s.v) = Len(s.a)
       /\ \A i \in 1 .. Len(s.a) : Close(EvalFormula(s.toks, [w \in {"a", "b"} |-> IF w = "a" THEN s.a[i] ELSE s.b[i]], s.lits), s.v[i]),
       IF s.op = "hedgef" THEN "hedge" ELSE "norm")

HedgeWrong(s) ==
    If(~s.e /\ Len(s.v) = Len(s.a) /\ \A i \in 1 .. Len(s.a) : Close(HedgeOf(s.k, s.a[i]), s.v[i]), "hedge")
HedgeFunctionWrong(s) ==
    If(~s.e /\ Len(s.v) = Len(s.a)
       /\ \A i \in 1 .. Len(s.a) : Close(EvalFormula(s.toks, [w \in {"x"} |-> s.a[i]], s.lits), s.v[i]), "hedge")

\* ---- terms: s.t the term, s.xs, s.v
\* where a term jumps, only small binary fractions are on a definite side of the jump
Clear(t, x) == \/ t.k \notin {"Rectangle", "Binary", "Triangle", "Trapezoid", "Ramp", "Discrete"}
               \/ \A i \in 1 .. Len(t.p) : x = t.p[i] \/ ~Near(x, t.p[i])
MemberWrong(s) ==
    If(~s.e /\ Len(s.v) = Len(s.xs)
       /\ \A i \in 1 .. Len(s.xs) : \/ ~Clear(s.t, s.xs[i])
                                    \/ CloseTo(Membership(s.t, s.xs[i], s.env), s.v[i], s.tol), "member")
\* what an inverse of a monotonic term answers: [e, vs]
TsukamotoWrong(s) ==
    (If(s.mono = IsMonotonic(s.t), "monotonic"))
    \cup (IF ~IsMonotonic(s.t) THEN If(s.e, "inverse")
          ELSE If(~s.e /\ Len(s.v) = Len(s.ys)
                  /\ \A i \in 1 .. Len(s.ys) : CloseTo(Tsukamoto(s.t, s.ys[i]), s.v[i], s.tol), "inverse")
               \* where it is a membership, the membership of the inverse is the degree again
               \cup If(s.e \/ \A i \in 1 .. Len(s.ys) : ~s.back[i] \/ CloseTo(s.ys[i], s.w[i], s.tol), "inverse"))

\* where a term grows, of those that have a direction
Direction(t) ==
    LET d == CASE t.k = "Ramp" -> Sub(t.p[2], t.p[1]) [] t.k = "Sigmoid" -> t.p[2] [] OTHER -> Zero IN
    IF t.k = "Binary" THEN (IF Gt(t.p[2], t.p[1]) THEN "up" ELSE IF Lt(t.p[2], t.p[1]) THEN "down" ELSE "none")
    ELSE IF t.k \in {"Ramp", "Sigmoid"}
    THEN (IF ~IsFinite(d) \/ d = Zero THEN "none" ELSE IF Gt(d, Zero) THEN "up" ELSE "down")
    ELSE "?"
DirectionWrong(s) == If(~s.e /\ s.d = Direction(s.t), "member")

\* a term sampled at equal steps
SampleWrong(s) ==
    LET x(i) == Add(s.lo, Mul(Sub(s.hi, s.lo), R(i, s.n)))
        y(i) == LET m == Membership(s.t, x(i), s.env) IN IF s.bounded THEN Bound(m, Zero, One) ELSE m
    IN If(~s.e /\ Len(s.x) = s.n + 1 /\ Len(s.y) = s.n + 1
          /\ \A i \in 0 .. s.n : Close(x(i), s.x[i + 1]) /\ (~Clear(s.t, x(i)) \/ Close(y(i), s.y[i + 1])), "sample")

\* ---- parameters of a term as text, read by a fresh term of the class
ParamWrong(s) ==
    IF s.text # ParamText(s.t, s.d) THEN {"params"}
    ELSE LET ws == IF s.text = "" THEN << >> ELSE IF s.t.k \in {"Linear"} THEN Words(s.text) ELSE SplitBy(s.text, " ")
             c == ConfiguredTerm(s.t.name, s.t.k, ws, s.text, {})
         IN If(s.e = c.e /\ (s.e \/ SameTerm(c.t, s.c)), "params")
ConfigureWrong(s) ==
    LET ws == IF s.text = "" THEN << >> ELSE IF s.k \in {"Linear"} THEN Words(s.text) ELSE SplitBy(s.text, " ")
        c == ConfiguredTerm("t", s.k, ws, s.text, {})
    IN If(s.e = c.e /\ (s.e \/ SameTerm(c.t, s.c)), "params")

\* ---- formulas
FormulaTextWrong(s) ==
    LET toks == FTokens(s.text)
        pf == Postfix(toks)
        bad == toks # << >> /\ IsErr(pf)
    IN If(s.pe = bad /\ (bad \/ s.post = Join(pf, " ")), "postfix")
       \cup If(s.te = (s.text = "" \/ ~Parses(toks)), "parse")
       \cup (IF s.te \/ ~Parses(toks) THEN {}
             ELSE LET n == TreeOf(toks) IN
                  If(s.tree.pre = n.pre /\ s.tree.inf = n.inf /\ s.tree.post = n.post, "notation")
                  \cup If(s.tree.ops = n.ops /\ s.tree.funs = n.funs, "parse"))
\* values of a formula over variables; ok says which samples the arithmetic of the model can judge
FormulaWrong(s) ==
    LET toks == FTokens(s.text)
        good == Parses(toks) /\ \A w \in Operands(Postfix(toks)) : w \in DOMAIN s.lits \/ w \in {"x"} \cup { s.names[i] : i \in 1 .. Len(s.names) }
        env(i) == [w \in {"x"} \cup { s.names[j] : j \in 1 .. Len(s.names) } |->
                      IF w = "x" THEN s.xs[i] ELSE s.vals[i][CHOOSE j \in 1 .. Len(s.names) : s.names[j] = w]]
    IN If(s.e = ~good, "parse")
       \cup If(s.e \/ ~good \/ \A i \in 1 .. Len(s.xs) : ~s.ok[i] \/ CloseTo(EvalFormula(toks, env(i), s.lits), s.v[i], s.tol), "value")

\* the scopes of a formula in a term: x is the point, then the outputs and the inputs of the
\* engine, then the variables of the term
ScopeWrong(s) ==
    LET toks == FTokens(s.text)
        at(names, w) == CHOOSE j \in 1 .. Len(names) : names[j] = w
        has(names, w) == \E j \in 1 .. Len(names) : names[j] = w
        known == {"x"} \cup { n \in Operands(Postfix(toks)) : has(s.outs, n) \/ has(s.ins, n) \/ has(s.own, n) }
        env(i) == [w \in known |-> IF w = "x" THEN s.xs[i]
                                   ELSE IF has(s.outs, w) THEN s.ovals[at(s.outs, w)]
                                   ELSE IF has(s.ins, w) THEN s.ivals[at(s.ins, w)]
                                   ELSE s.vals[at(s.own, w)]]
        good == \A w \in Operands(Postfix(toks)) : w \in DOMAIN s.lits \/ w \in known
    IN If(s.e = ~good, "scope")
       \cup If(s.e \/ ~good \/ \A i \in 1 .. Len(s.xs) : ~s.ok[i] \/ CloseTo(EvalFormula(toks, env(i), s.lits), s.v[i], s.tol), "scope")

\* ---- points of discrete terms, as numbers and as pairs
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Close(a[i], b[i])
Sorted(v, w) ==       \* w has the pairs of v by the first number
    LET k == Len(v) \div 2
        same(i, j) == Close(v[2 * i - 1], w[2 * j - 1]) /\ Close(v[2 * i], w[2 * j])
        times(i) == Cardinality({ j \in 1 .. k : same(i, j) })
        self(i)  == Cardinality({ j \in 1 .. k : Close(v[2 * i - 1], v[2 * j - 1]) /\ Close(v[2 * i], v[2 * j]) })
    IN /\ Len(w) = Len(v) /\ \A j \in 1 .. k - 1 : Le(w[2 * j - 1], w[2 * j + 1])
       /\ \A i \in 1 .. k : times(i) = self(i)
PointsWrong(s) ==
    LET n == Len(s.n)
        v == IF n % 2 = 0 THEN s.n ELSE Append(s.n, s.m)
        k == Len(v) \div 2
        text(pre, inner, suf, outer) == Join([i \in 1 .. k |-> pre \o FmtNum(v[2 * i - 1], s.d) \o inner \o FmtNum(v[2 * i], s.d) \o suf], outer)
    IN If(/\ ~s.e /\ s.pe = (n % 2 = 1)
          /\ SameNums(v, s.vec) /\ SameNums(v, s.vec2) /\ SameNums(v, s.one)
          /\ SameNums([i \in 1 .. k |-> v[2 * i - 1]], s.x) /\ SameNums([i \in 1 .. k |-> v[2 * i]], s.y)
          /\ SameNums([i \in 1 .. 2 * k |-> IF i % 2 = 1 THEN v[i + 1] ELSE v[i - 1]], s.two)
          /\ Sorted(v, s.s1) /\ Sorted(v, s.s2)
          /\ s.plain = text("(", ",", ")", " ") /\ s.text = text(s.q[1], s.q[2], s.q[3], s.q[4]), "params")

Wrong(s) ==
    CASE s.op \in {"tnorm", "snorm"} -> NormWrong(s)
      [] s.op \in {"tnormf", "snormf"} -> FunctionNormWrong(s)
      [] s.op = "hedge" -> HedgeWrong(s)
      [] s.op = "hedgef" -> HedgeFunctionWrong(s)
      [] s.op = "member" -> MemberWrong(s)
      [] s.op = "tsukamoto" -> TsukamotoWrong(s)
      [] s.op = "direction" -> DirectionWrong(s)
      [] s.op = "sample" -> SampleWrong(s)
      [] s.op = "params" -> ParamWrong(s)
      [] s.op = "configureterm" -> ConfigureWrong(s)
      [] s.op = "points" -> PointsWrong(s)
      [] s.op = "ftext" -> FormulaTextWrong(s)
      [] s.op = "feval" -> FormulaWrong(s)
      [] s.op = "fscope" -> ScopeWrong(s)
      [] s.op = "fuzz" -> FuzzWrong(s)
      [] s.op = "coll" -> CollWrong(s)
      [] s.op = "collset" -> SetWrong(s)
      [] s.op = "collget" -> GetWrong(s)
      [] s.op = "fact" -> FactWrong(s)
      [] s.op = "factmanager" -> ManagerWrong(s)
      [] s.op = "factswap" -> SwapWrong(s)
      [] s.op = "defuzzmake" -> DefuzzMakeWrong(s)
      [] s.op = "func" -> FuncWrong(s)
      [] s.op = "sortterms" -> SortWrong(s)
      [] s.op = "aggr" -> AggrWrong(s)
      [] s.op \in {"tool", "table", "examples"} -> Con!ConsoleWrong(s)
      [] OTHER -> Utl!UtilityWrong(s)
=============================================================================
