------------------------------- MODULE Config -------------------------------
(* Configurations: what an engine is made of, as read from its getters or   *)
(* from a text.                                                             *)
(*   cfg    = [name, desc, ins, outs, blocks]                               *)
(*   ins    : [name, desc, en, lock, lo, hi, terms]                         *)
(*   outs   : the same and [agg, df, def, lockp]                            *)
(*   blocks : [name, desc, en, conj, disj, impl, act, rules, nin, nout]     *)
(*            rules are texts; nin and nout say how many variables there    *)
(*            were when the rules were loaded                               *)
(*   terms  : [name, k, p, h, text], text being the formula of a Function   *)
EXTENDS Engine, Text

EmptyCfg == [name |-> "", desc |-> "", ins |-> << >>, outs |-> << >>, blocks |-> << >>]
NewIn(n) == [name |-> n, desc |-> "", en |-> TRUE, lock |-> FALSE, lo |-> NegInf, hi |-> Inf, terms |-> << >>]
DefaultRes == 1000
NoDf == [k |-> "none", res |-> 1, type |-> "Automatic"]
NoAct == [k |-> "none", n |-> 1, th |-> Zero, cmp |-> ">="]
NewOut(n) == [name |-> n, desc |-> "", en |-> TRUE, lock |-> FALSE, lo |-> NegInf, hi |-> Inf, terms |-> << >>,
              agg |-> "none", df |-> NoDf, def |-> NaN, lockp |-> FALSE]
NewBlk(n, i, o) == [name |-> n, desc |-> "", en |-> TRUE, conj |-> "none", disj |-> "none", impl |-> "none",
                    act |-> NoAct, rules |-> << >>, nin |-> i, nout |-> o]

TNorms == {"AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct",
           "Minimum", "NilpotentMinimum"}
SNorms == {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum",
           "NilpotentMaximum", "NormalizedSum", "UnboundedSum"}
Activations == {"First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"}
Integrals == {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}

\* how many parameters a term of a class needs (before the height)
Needs(k) ==
    CASE k \in {"Binary", "Concave", "Cosine", "Gaussian", "Ramp", "Rectangle", "SShape", "Sigmoid", "Spike",
                "ZShape"} -> 2
      [] k \in {"Bell", "Triangle"} -> 3
      [] k \in {"GaussianProduct", "PiShape", "SigmoidDifference", "SigmoidProduct", "Trapezoid"} -> 4
      [] OTHER -> 0
PlainClasses == {"Binary", "Concave", "Cosine", "Gaussian", "Ramp", "Rectangle", "SShape", "Sigmoid", "Spike",
                 "ZShape", "Bell", "Triangle", "GaussianProduct", "PiShape", "SigmoidDifference",
                 "SigmoidProduct", "Trapezoid"}
TermClasses == PlainClasses \cup {"Constant", "Discrete", "Function", "Linear"}

\* a term of class k after reading the words ws as its parameters: [e, t]
BadTerm == [e |-> TRUE, t |-> [name |-> "", k |-> "", p |-> << >>, h |-> One, text |-> ""]]
\* (names: what a formula may refer to)
FormulaOK(toks, names) == Parses(toks) /\ \A w \in Operands(Postfix(toks)) : w = "x" \/ w \in names \/ ParseNum(w).ok
ConfiguredTerm(name, k, ws, text, names) ==
    LET nums == TLCEval([i \in 1 .. Len(ws) |-> Num(ws[i])])
        n == Needs(k)
        t(p, h) == [e |-> FALSE, t |-> [name |-> name, k |-> k, p |-> p, h |-> h, text |-> ""]]
        vals(m) == [i \in 1 .. m |-> nums[i].v]
        used == IMin(Len(ws), n + 1)
    IN
    IF k \notin TermClasses THEN BadTerm
    ELSE IF k = "Function" THEN
         IF FormulaOK(FTokens(text), names) THEN [e |-> FALSE, t |-> [name |-> name, k |-> k, p |-> << >>, h |-> One, text |-> text]]
         ELSE BadTerm
    ELSE IF ws = << >> THEN
         t(IF k = "Constant" THEN << NaN >> ELSE [i \in 1 .. n |-> NaN], One)
    ELSE IF k = "Constant" THEN IF nums[1].ok THEN t(<< nums[1].v >>, One) ELSE BadTerm
    ELSE IF k \in {"Linear", "Discrete"} THEN
         IF \E i \in 1 .. Len(ws) : ~nums[i].ok THEN BadTerm
         ELSE IF k = "Linear" THEN t(vals(Len(ws)), One)
         ELSE IF Len(ws) % 2 = 0 THEN t(vals(Len(ws)), One)
         ELSE t(vals(Len(ws) - 1), nums[Len(ws)].v)
    ELSE IF Len(ws) < n \/ \E i \in 1 .. used : ~nums[i].ok THEN BadTerm
    ELSE t(vals(n), IF Len(ws) > n THEN nums[n + 1].v ELSE One)

\* parameters of a term as text
ParamText(t, d) ==
    IF t.k = "Function" THEN t.text
    ELSE Join([i \in 1 .. Len(t.p) |-> FmtNum(t.p[i], d)] \o
              IF t.k \in {"Constant", "Linear"} \/ t.h = One THEN << >> ELSE << FmtNum(t.h, d) >>, " ")

-----------------------------------------------------------------------------
(* comparing two configurations (the second one as observed) *)
SameTerm(a, b) == /\ a.name = b.name /\ a.k = b.k /\ Len(a.p) = Len(b.p)
                  /\ \A i \in 1 .. Len(a.p) : Close(a.p[i], b.p[i])
                  /\ (a.k \notin {"Constant", "Linear", "Function"} => Close(a.h, b.h))
                  /\ a.text = b.text
SameTerms(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : SameTerm(s[i], t[i])
SameVar(a, b) == /\ a.name = b.name /\ a.desc = b.desc /\ a.en = b.en /\ a.lock = b.lock
                 /\ Close(a.lo, b.lo) /\ Close(a.hi, b.hi) /\ SameTerms(a.terms, b.terms)
SameDf(a, b) == a.k = b.k /\ (a.k \in Integrals => a.res = b.res)
                /\ (a.k \in {"WeightedAverage", "WeightedSum"} => a.type = b.type)
SameAct(a, b) == /\ a.k = b.k
                 /\ (a.k \in {"First", "Last", "Highest", "Lowest"} => a.n = b.n)
                 /\ (a.k \in {"First", "Last", "Threshold"} => Close(a.th, b.th))
                 /\ (a.k = "Threshold" => a.cmp = b.cmp)
SameOut(a, b) == SameVar(a, b) /\ a.agg = b.agg /\ SameDf(a.df, b.df) /\ Close(a.def, b.def) /\ a.lockp = b.lockp
SameBlk(a, b) == /\ a.name = b.name /\ a.desc = b.desc /\ a.en = b.en /\ a.conj = b.conj /\ a.disj = b.disj
                 /\ a.impl = b.impl /\ SameAct(a.act, b.act) /\ a.rules = b.rules
SameCfg(a, b) ==
    /\ a.name = b.name /\ a.desc = b.desc
    /\ Len(a.ins) = Len(b.ins) /\ \A i \in 1 .. Len(a.ins) : SameVar(a.ins[i], b.ins[i])
    /\ Len(a.outs) = Len(b.outs) /\ \A i \in 1 .. Len(a.outs) : SameOut(a.outs[i], b.outs[i])
    /\ Len(a.blocks) = Len(b.blocks) /\ \A i \in 1 .. Len(a.blocks) : SameBlk(a.blocks[i], b.blocks[i])

\* the configuration an engine of the model has (rule texts are compared by words)
CfgMatches(st, c) ==
    LET ts(vs) == [i \in 1 .. Len(vs) |-> vs[i].terms]
        term(m, o) == /\ m.name = o.name /\ m.k = o.k /\ Len(m.p) = Len(o.p)
                      /\ \A i \in 1 .. Len(m.p) : Close(m.p[i], o.p[i])
                      /\ (m.k \notin {"Constant", "Linear", "Function"} => Close(m.h, o.h))
                      /\ (m.k = "Function" => m.f = FTokens(o.text))
        var(m, o) == /\ m.name = o.name /\ m.en = o.en /\ m.lock = o.lock /\ Close(m.lo, o.lo) /\ Close(m.hi, o.hi)
                     /\ Len(m.terms) = Len(o.terms) /\ \A i \in 1 .. Len(m.terms) : term(m.terms[i], o.terms[i])
    IN
    /\ Len(st.ins) = Len(c.ins) /\ \A i \in 1 .. Len(st.ins) : var(st.ins[i], c.ins[i])
    /\ Len(st.outs) = Len(c.outs)
    /\ \A i \in 1 .. Len(st.outs) :
          LET m == st.outs[i] o == c.outs[i] IN
          /\ var(m, o) /\ m.agg = o.agg /\ SameDf(m.df, o.df) /\ Close(m.def, o.def) /\ m.lockp = o.lockp
    /\ Len(st.blocks) = Len(c.blocks)
    /\ \A i \in 1 .. Len(st.blocks) :
          LET m == st.blocks[i] o == c.blocks[i] IN
          /\ m.name = o.name /\ m.en = o.en /\ m.conj = o.conj /\ m.disj = o.disj /\ m.impl = o.impl
          /\ SameAct(m.act, o.act) /\ Len(m.rules) = Len(o.rules)
          /\ \A r \in 1 .. Len(m.rules) : m.rules[r].toks = Tokens(o.rules[r])

-----------------------------------------------------------------------------
(* the engine of a configuration, fresh *)
Numerals(toks) == { toks[i] : i \in { k \in 1 .. Len(toks) : ParseNum(toks[k]).ok } }
TermOf(t) == [name |-> t.name, k |-> t.k, p |-> t.p, h |-> t.h, f |-> IF t.k = "Function" THEN FTokens(t.text) ELSE << >>]
TermsIn(ts) == [i \in 1 .. Len(ts) |-> TermOf(ts[i])]

StateOf(c, carry) ==
    LET words == UNION { Numerals(Tokens(c.blocks[b].rules[r])) :
                            <<b, r>> \in { <<x, y>> \in (1 .. Len(c.blocks)) \X (1 .. 50) : y <= Len(c.blocks[x].rules) } }
        fw(vs) == UNION { UNION { Numerals(FTokens(vs[i].terms[t].text)) : t \in 1 .. Len(vs[i].terms) } : i \in 1 .. Len(vs) }
        all == words \cup fw(c.ins) \cup fw(c.outs)
        st0 == TLCEval([ ins |-> [i \in 1 .. Len(c.ins) |->
                    [name |-> c.ins[i].name, en |-> c.ins[i].en, lock |-> c.ins[i].lock, lo |-> c.ins[i].lo,
                     hi |-> c.ins[i].hi, val |-> NaN, terms |-> TermsIn(c.ins[i].terms)]],
                 outs |-> [i \in 1 .. Len(c.outs) |->
                    [name |-> c.outs[i].name, en |-> c.outs[i].en, lock |-> c.outs[i].lock, lo |-> c.outs[i].lo,
                     hi |-> c.outs[i].hi, val |-> NaN, prev |-> NaN, def |-> c.outs[i].def,
                     lockp |-> c.outs[i].lockp, agg |-> c.outs[i].agg, df |-> c.outs[i].df, fz |-> << >>,
                     terms |-> TermsIn(c.outs[i].terms)]],
                 blocks |-> << >>,
                 lits |-> [w \in all |-> ParseNum(w).v],
                 carry |-> carry ])
        blk(b) == LET k == c.blocks[b]
                      voc == VocOf([st0 EXCEPT !.ins = SubSeq(@, 1, k.nin), !.outs = SubSeq(@, 1, k.nout)])
                  IN [name |-> k.name, en |-> k.en, conj |-> k.conj, disj |-> k.disj, impl |-> k.impl, act |-> k.act,
                      rules |-> [r \in 1 .. Len(k.rules) |->
                                    LET ts == Tokens(k.rules[r]) IN LoadR(voc, NewRule(ts), ts)]]
    IN TLCEval([st0 EXCEPT !.blocks = [b \in 1 .. Len(c.blocks) |-> blk(b)]])

-----------------------------------------------------------------------------
(* a configuration with its numbers as they are after printing and reading *)
RoundTerm(t, d) == [t EXCEPT !.name = ValidName(@), !.p = [i \in 1 .. Len(t.p) |-> Rounded(t.p[i], d)], !.h = Rounded(@, d)]
RoundVar(v, d) == [v EXCEPT !.name = ValidName(@), !.lo = Rounded(@, d), !.hi = Rounded(@, d),
                            !.terms = [i \in 1 .. Len(v.terms) |-> RoundTerm(v.terms[i], d)]]
RoundAct(a, d) == [a EXCEPT !.th = Rounded(@, d)]
RoundCfg(c, d) == TLCEval([c EXCEPT
    !.ins = [i \in 1 .. Len(c.ins) |-> RoundVar(c.ins[i], d)],
    !.outs = [i \in 1 .. Len(c.outs) |-> [RoundVar(c.outs[i], d) EXCEPT !.def = Rounded(@, d)]],
    !.blocks = [i \in 1 .. Len(c.blocks) |-> [c.blocks[i] EXCEPT !.act = RoundAct(@, d)]]])
=============================================================================
