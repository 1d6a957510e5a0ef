------------------------------- MODULE Values -------------------------------
(* Fuzzy values: what a variable answers about the terms that a value        *)
(* belongs to, and what a fuzzy output answers about the terms it collected. *)
(* Names are s.names; degrees are printed with s.d decimals.                 *)
EXTENDS Fuzzy, Config

Iff(p, a) == IF p THEN {} ELSE {a}

\* +0.500/low, -0.250/high
EntryText(names, a, d) == FmtNum(Abs(a.d), d) \o "/" \o names[a.t]
Minus(a) == ~IsNaN(a.d) /\ Lt(a.d, Zero)
RECURSIVE MoreText(_, _, _)
MoreText(names, as, d) ==
    IF as = << >> THEN ""
    ELSE (IF Minus(Head(as)) THEN " - " ELSE " + ") \o EntryText(names, Head(as), d) \o MoreText(names, Tail(as), d)
FuzzyText(names, as, d) ==
    IF as = << >> THEN ""
    ELSE (IF Minus(Head(as)) THEN "-" ELSE "") \o EntryText(names, Head(as), d) \o MoreText(names, Tail(as), d)

\* a number right between two printable ones (computed degrees may be a bit off it)
Tie(x, d) == IsFinite(x) /\ LET y == Mul(Abs(x), <<2 * Pow10(IMin(d, 4)), 1>>) IN d <= 4 /\ y[2] = 1 /\ y[1] % 2 = 1

SameActs(as, bs) == Len(as) = Len(bs) /\ \A i \in 1 .. Len(as) : as[i].t = bs[i].t /\ Close(as[i].d, bs[i].d)
SameActsI(as, bs) == SameActs(as, bs) /\ \A i \in 1 .. Len(as) : as[i].impl = bs[i].impl
Pick(as, ps) == [i \in 1 .. Len(ps) |-> as[ps[i]]]

\* ---- a value and the terms of a variable; s.bad: terms that cannot compute
FuzzWrong(s) ==
    LET n  == Len(s.terms)
        as == TLCEval([i \in 1 .. n |-> [t |-> i, d |-> IF s.bad[i] THEN NaN ELSE Membership(s.terms[i], s.x, s.env)]])
        mp == MaxPositions(as)
        ms == Pick(as, mp)
        tx == FuzzyText(s.names, as, s.d)
    IN IF s.e THEN {"fuzzify"}
       ELSE Iff(SameActs(as, s.acts), "fuzzify")
            \cup Iff(s.text = s.itext /\ (s.text = tx \/ \E i \in 1 .. n : Tie(as[i].d, s.d)), "fuzzytext")
            \cup Iff(SameActs(ms, s.max), "highest")
            \cup Iff(s.hi = s.hi2 /\ (IF ms = << >> THEN s.hi = 0 /\ IsNaN(s.hd)
                                      ELSE s.hi = ms[1].t /\ Close(s.hd, ms[1].d)), "highest")

\* ---- terms in order of their centroids
CentroidOf(s, i) ==
    LET t == s.terms[i] IN
    IF s.bad[i] THEN Inf
    ELSE IF t.k \in {"Constant"} THEN Membership(t, Zero, s.env)
    ELSE IF ~IsFinite(Add(s.lo, s.hi)) THEN NaN
    ELSE LET ys == Eager([j \in 1 .. s.r |-> Membership(t, Midpoint(s.lo, s.hi, s.r, j), s.env)])
         IN CHOOSE c \in Integral("Centroid", s.lo, s.hi, s.r, ys) : TRUE
SortWrong(s) ==
    LET n  == Len(s.terms)
        cs == Eager([i \in 1 .. n |-> CentroidOf(s, i)])
    IN Iff(/\ ~s.e /\ Len(s.order) = n /\ { s.order[i] : i \in 1 .. n } = 1 .. n
           /\ \/ \E i \in 1 .. n : IsNaN(cs[i])
              \/ \A i \in 1 .. n - 1 : Le(cs[s.order[i]], cs[s.order[i + 1]]) \/ Close(cs[s.order[i]], cs[s.order[i + 1]]), "sort")

\* ---- aggregated terms: s.fz the entries put in
NormText(k) == k
EntryStr(names, a, d) == IF a.impl = "none" THEN "(" \o FmtNum(a.d, d) \o "*" \o names[a.t] \o ")"
                         ELSE a.impl \o "(" \o FmtNum(a.d, d) \o "," \o names[a.t] \o ")"
AggStr(s) ==
    LET es == [i \in 1 .. Len(s.fz) |-> EntryStr(s.names, s.fz[i], s.d)]
    IN s.name \o ": Aggregated " \o (IF s.agg = "none" THEN "[" \o Join(es, "+") \o "]" ELSE s.agg \o "[" \o Join(es, ",") \o "]")
TermText(s, t) == LET p == ParamText(s.terms[t], s.d) IN
                  "term: " \o ValidName(s.names[t]) \o " " \o s.terms[t].k \o (IF p = "" THEN "" ELSE " " \o p)
EntryPar(s, a) == FmtNum(a.d, s.d) \o " " \o a.impl \o " " \o TermText(s, a.t)
AggPar(s) == s.agg \o " " \o FmtNum(s.lo, s.d) \o " " \o FmtNum(s.hi, s.d) \o
             Join([i \in 1 .. Len(s.fz) + 1 |-> IF i = 1 THEN "" ELSE
                     " term: " \o ValidName(s.names[s.fz[i - 1].t]) \o " Activated " \o EntryPar(s, s.fz[i - 1])], "")

\* entries of the same name come together; the first lends its term and implication
ImplOf(fz, t) == fz[CHOOSE i \in 1 .. Len(fz) : fz[i].t = t /\ \A j \in 1 .. i - 1 : fz[j].t # t].impl
AggrWrong(s) ==
    LET n  == Len(s.fz)
        ms == Pick(s.fz, MaxPositions(s.fz))
        g0 == TLCEval(Grouped(s.terms, s.agg, s.fz))
        gs == [i \in 1 .. Len(g0) |-> [t |-> g0[i].t, d |-> g0[i].d, impl |-> ImplOf(s.fz, g0[i].t)]]
        zs == [i \in 1 .. Len(s.terms) |-> [t |-> i, d |-> Zero, impl |-> "none"]] \o gs
        os == TLCEval(Grouped(s.terms, "none", zs))
        r  == s.rm + 1
    IN IF s.e THEN {"aggregate"}
       ELSE Iff(SameActsI(s.fz, s.entries) /\ SameActsI(s.fz, s.after) /\ s.n = n /\ s.empty = (n = 0) /\ s.cleared, "entries")
            \cup Iff(s.text = FuzzyText(s.names, s.fz, s.d), "fuzzytext")
            \cup Iff(~s.exact \/ s.otext = FuzzyText(s.names, os, s.d), "outtext")
            \cup Iff(s.str = AggStr(s) /\ s.first = (IF n = 0 THEN "" ELSE EntryStr(s.names, s.fz[1], s.d)), "string")
            \cup Iff(s.params = AggPar(s) /\ s.fpar = (IF n = 0 THEN "" ELSE EntryPar(s, s.fz[n])), "string")
            \cup Iff(Len(s.degs) = Len(s.terms)
                     /\ \A t \in 1 .. Len(s.terms) : Close(DegreeOf(s.agg, s.fz, t, Zero), s.degs[t]), "degree")
            \cup Iff(SameActsI(ms, s.max) /\ (IF ms = << >> THEN s.top = 0 /\ s.topd = Zero
                                              ELSE s.top = ms[1].t /\ Close(s.topd, ms[1].d)), "highest")
            \cup Iff(SameActsI(gs, s.groups) /\ SameActsI(gs, s.groups2) /\ s.gagg = s.agg /\ s.gname = s.name
                     /\ Close(s.glo, s.lo) /\ Close(s.ghi, s.hi), "groups")
            \cup Iff(n = 0 \/ (SameActsI(<< s.fz[r] >>, s.gone)
                               /\ SameActsI(SubSeq(s.fz, 1, r - 1) \o SubSeq(s.fz, r + 1, n), s.rest)), "remove")
=============================================================================
