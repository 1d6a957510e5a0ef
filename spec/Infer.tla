-------------------------------- MODULE Infer --------------------------------
(* What a configuration amounts to: the kind of its inference, and whether   *)
(* it has all the components an evaluation needs.                            *)
EXTENDS Config

WeightedDfs == {"WeightedAverage", "WeightedSum"}
SugenoTerms == {"Constant", "Linear", "Function"}
MonotonicTerms == {"Concave", "Ramp", "SShape", "Sigmoid", "ZShape"}

\* what a weighted defuzzifier makes of a term
InferTerm(k) == IF k \in SugenoTerms THEN "TakagiSugeno" ELSE IF k \in MonotonicTerms THEN "Tsukamoto" ELSE "Automatic"

EngineType(c) ==
    LET outs == { c.outs[i] : i \in 1 .. Len(c.outs) }
        blocks == { c.blocks[i] : i \in 1 .. Len(c.blocks) }
        kinds(o) == { o.terms[i].k : i \in 1 .. Len(o.terms) }
        weighted(type, ks) == \A o \in outs : /\ o.df.k \in WeightedDfs /\ o.df.type \in {"Automatic", type}
                                              /\ kinds(o) \subseteq ks
    IN
    IF outs = {} THEN "Unknown"
    ELSE IF \A o \in outs : o.df.k \in Integrals
    THEN IF blocks # {} /\ \A b \in blocks : b.impl = "AlgebraicProduct" THEN "Larsen" ELSE "Mamdani"
    ELSE IF weighted("TakagiSugeno", SugenoTerms) THEN "Takagi-Sugeno"
    ELSE IF weighted("Tsukamoto", MonotonicTerms) THEN "Tsukamoto"
    ELSE IF \A o \in outs : o.df.k \in WeightedDfs THEN "Inverse Tsukamoto"
    ELSE IF \A o \in outs : o.df.k # "none" THEN "Hybrid" ELSE "Unknown"

-----------------------------------------------------------------------------
(* readiness: st is the engine, whose rules know whether they are loaded      *)
AntecedentWords(toks) == LET i == IndexOfName(toks, "then", 1) IN
                         { toks[k] : k \in 1 .. (IF i = 0 THEN Len(toks) ELSE i - 1) }

\* what is missing: a set of <<kind, index, number of rules that need it>>
Missing(st) ==
    LET outs == 1 .. Len(st.outs)  blks == 1 .. Len(st.blocks)
        rules(b) == 1 .. Len(st.blocks[b].rules)
        need(b, w) == Cardinality({ r \in rules(b) : w \in AntecedentWords(st.blocks[b].rules[r].toks) })
        implied(b) == Cardinality({ r \in rules(b) :
                         /\ st.blocks[b].rules[r].loaded
                         /\ \E k \in 1 .. Len(st.blocks[b].rules[r].cons) :
                               st.outs[st.blocks[b].rules[r].cons[k].v[2]].df.k \in Integrals })
    IN (IF st.ins = << >> THEN {<<"inputs", 0, 0>>} ELSE {})
       \cup (IF st.outs = << >> THEN {<<"outputs", 0, 0>>} ELSE {})
       \cup (IF st.blocks = << >> THEN {<<"blocks", 0, 0>>} ELSE {})
       \cup { <<"terms", x, 0>> : x \in { o \in outs : st.outs[o].terms = << >> } }
       \cup { <<"defuzzifier", x, 0>> : x \in { o \in outs : st.outs[o].df.k = "none" } }
       \cup { <<"aggregation", x, 0>> : x \in { o \in outs : st.outs[o].df.k \in Integrals /\ st.outs[o].agg = "none" } }
       \cup { <<"rules", x, 0>> : x \in { b \in blks : st.blocks[b].rules = << >> } }
       \cup { <<"conjunction", x, need(x, "and")>> : x \in { b \in blks : st.blocks[b].conj = "none" /\ need(b, "and") > 0 } }
       \cup { <<"disjunction", x, need(x, "or")>> : x \in { b \in blks : st.blocks[b].disj = "none" /\ need(b, "or") > 0 } }
       \cup { <<"implication", x, implied(x)>> : x \in { b \in blks : st.blocks[b].impl = "none" /\ implied(b) > 0 } }
Ready(st) == Missing(st) = {}
=============================================================================
