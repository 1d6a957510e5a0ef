----------------------------- MODULE RuleSyntax -----------------------------
(* The fuzzy-rule language:                                                 *)
(*    if <antecedent> then <consequent> [with <weight>]                     *)
(* A vocabulary voc says what the words mean:                               *)
(*    voc.ins, voc.outs : sequences of [name, terms: sequence of names]     *)
(*    voc.hedges        : set of hedge names                                *)
(*    voc.nums          : function from numeric literals to numbers         *)
(* Two descriptions of the antecedent language are given: the recogniser    *)
(* over postfix order that the library runs (LoadAnt), and the grammar a    *)
(* user writes by (AntG).  RuleSyntaxMC checks that they agree.             *)
EXTENDS Formula

RECURSIVE IndexOf(_, _, _)
IndexOf(s, n, i) == IF i > Len(s) THEN 0 ELSE IF s[i].name = n THEN i ELSE IndexOf(s, n, i + 1)
RECURSIVE IndexOfName(_, _, _)
IndexOfName(s, n, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = n THEN i ELSE IndexOfName(s, n, i + 1)

\* a variable reference: <<"in", i>>, <<"out", i>> or <<"none", 0>>
VarOf(voc, n) == LET i == IndexOf(voc.ins, n, 1) IN
                 IF i > 0 THEN <<"in", i>>
                 ELSE LET o == IndexOf(voc.outs, n, 1) IN
                      IF o > 0 THEN <<"out", o>> ELSE <<"none", 0>>
TermsOf(voc, ref) == IF ref[1] = "in" THEN voc.ins[ref[2]].terms ELSE voc.outs[ref[2]].terms

Prop(ref, hs, t) == [op |-> "prop", v |-> ref, hs |-> hs, term |-> t]
OpItem(o) == [op |-> o, v |-> <<"none", 0>>, hs |-> << >>, term |-> 0]
Bad == [ok |-> FALSE, items |-> << >>]

\* ---- the recogniser: tokens in postfix order, states as in the library
\* states: "var", "is", "hedgeterm", "varop"
RECURSIVE AntRun(_, _, _, _, _, _)
AntRun(voc, toks, st, items, cur, depth) ==
    IF toks = << >> THEN
        IF (st = "var" \/ st = "varop") /\ depth = 1
        THEN [ok |-> TRUE, items |-> items] ELSE Bad
    ELSE LET t == Head(toks)  rest == Tail(toks) IN
      IF st \in {"var", "varop"} /\ VarOf(voc, t)[1] # "none"
      THEN AntRun(voc, rest, "is", items, Prop(VarOf(voc, t), << >>, 0), depth + 1)
      ELSE IF st = "is" /\ t = "is" THEN AntRun(voc, rest, "hedgeterm", items, cur, depth)
      ELSE IF st = "hedgeterm" /\ t \in voc.hedges
      THEN LET c == [cur EXCEPT !.hs = Append(@, t)] IN
           IF t = "any" THEN AntRun(voc, rest, "varop", Append(items, c), c, depth)
           ELSE AntRun(voc, rest, "hedgeterm", items, c, depth)
      ELSE IF st = "hedgeterm" /\ IndexOfName(TermsOf(voc, cur.v), t, 1) > 0
      THEN LET c == [cur EXCEPT !.term = IndexOfName(TermsOf(voc, cur.v), t, 1)]
           IN AntRun(voc, rest, "varop", Append(items, c), c, depth)
      ELSE IF st = "varop" /\ t \in {"and", "or"} /\ depth >= 2
      THEN AntRun(voc, rest, "varop", Append(items, OpItem(t)), cur, depth - 1)
      ELSE Bad

LoadAnt(voc, toks) ==
    IF toks = << >> THEN Bad
    ELSE LET pf == Postfix(toks) IN
         IF IsErr(pf) THEN Bad ELSE AntRun(voc, pf, "var", << >>, Prop(<<"none", 0>>, << >>, 0), 0)

\* ---- consequent
RECURSIVE ConRun(_, _, _, _, _)
ConRun(voc, toks, st, items, cur) ==
    IF toks = << >> THEN IF st = "and" THEN [ok |-> TRUE, items |-> items] ELSE Bad
    ELSE LET t == Head(toks)  rest == Tail(toks) IN
      IF st = "var" /\ IndexOf(voc.outs, t, 1) > 0
      THEN ConRun(voc, rest, "is", items, Prop(<<"out", IndexOf(voc.outs, t, 1)>>, << >>, 0))
      ELSE IF st = "is" /\ t = "is" THEN ConRun(voc, rest, "hedgeterm", items, cur)
      ELSE IF st = "hedgeterm" /\ t \in voc.hedges
      THEN ConRun(voc, rest, "hedgeterm", items, [cur EXCEPT !.hs = Append(@, t)])
      ELSE IF st = "hedgeterm" /\ IndexOfName(TermsOf(voc, cur.v), t, 1) > 0
      THEN LET c == [cur EXCEPT !.term = IndexOfName(TermsOf(voc, cur.v), t, 1)]
           IN ConRun(voc, rest, "and", Append(items, c), c)
      ELSE IF st = "and" /\ t = "and" THEN ConRun(voc, rest, "var", items, cur)
      ELSE Bad

LoadCon(voc, toks) == IF toks = << >> THEN Bad
                      ELSE ConRun(voc, toks, "var", << >>, Prop(<<"none", 0>>, << >>, 0))

\* ---- whole rules
RECURSIVE FindTok(_, _, _)
FindTok(toks, t, i) == IF i > Len(toks) THEN 0 ELSE IF toks[i] = t THEN i ELSE FindTok(toks, t, i + 1)

BadRule == [ok |-> FALSE, ante |-> << >>, cons |-> << >>, w |-> One]

LoadRule(voc, toks0) ==
    LET hash == FindTok(toks0, "#", 1)
        toks == IF hash = 0 THEN toks0 ELSE SubSeq(toks0, 1, hash - 1)
    IN
    IF toks = << >> \/ toks[1] # "if" THEN BadRule
    ELSE LET th == FindTok(toks, "then", 2) IN
    IF th = 0 THEN BadRule
    ELSE LET wi == FindTok(toks, "with", th + 1)
             ce == IF wi = 0 THEN Len(toks) ELSE wi - 1
             a == LoadAnt(voc, SubSeq(toks, 2, th - 1))
             c == LoadCon(voc, SubSeq(toks, th + 1, ce))
             wok == \/ wi = 0
                    \/ wi = Len(toks) - 1 /\ toks[Len(toks)] \in DOMAIN voc.nums
         IN IF a.ok /\ c.ok /\ wok
            THEN [ok |-> TRUE, ante |-> a.items, cons |-> c.items,
                  w |-> IF wi = 0 THEN One ELSE voc.nums[toks[Len(toks)]]]
            ELSE BadRule

-----------------------------------------------------------------------------
(* what a loaded rule says of itself: words of the antecedent in prefix, infix *)
(* and postfix order, and words of the consequent                             *)
PropWords(voc, p) == <<IF p.v[1] = "in" THEN voc.ins[p.v[2]].name ELSE voc.outs[p.v[2]].name, "is">> \o p.hs
                     \o (IF p.term = 0 THEN << >> ELSE << TermsOf(voc, p.v)[p.term] >>)
RECURSIVE Orders(_, _, _)
Orders(voc, items, stack) ==
    IF items = << >> THEN stack[1]
    ELSE LET x == Head(items) n == Len(stack) IN
         IF x.op = "prop" THEN LET w == PropWords(voc, x) IN Orders(voc, Tail(items), Append(stack, [pre |-> w, inf |-> w, post |-> w]))
         ELSE LET l == stack[n - 1] r == stack[n] IN
              Orders(voc, Tail(items), Append(SubSeq(stack, 1, n - 2),
                     [pre |-> << x.op >> \o l.pre \o r.pre, inf |-> l.inf \o << x.op >> \o r.inf, post |-> l.post \o r.post \o << x.op >>]))
RECURSIVE ConsWords(_, _)
ConsWords(voc, items) == IF items = << >> THEN << >>
                         ELSE PropWords(voc, Head(items)) \o (IF Len(items) = 1 THEN << >> ELSE << "and" >> \o ConsWords(voc, Tail(items)))

-----------------------------------------------------------------------------
(* the grammar:  ant  ::= conj { or conj }      conj ::= prim { and prim }  *)
(*               prim ::= ( ant ) | prop                                    *)
(*               prop ::= var is {hedge} term | var is {hedge} any          *)
(* Derives(i, j, N) over token positions i..j, and the postfix of the tree. *)

IsProp(voc, toks, i, j) ==
    /\ j >= i + 2
    /\ VarOf(voc, toks[i])[1] # "none"
    /\ toks[i + 1] = "is"
    /\ \A k \in (i + 2) .. (j - 1) : toks[k] \in voc.hedges \ {"any"}
    /\ \/ toks[j] = "any" /\ "any" \in voc.hedges
       \/ /\ toks[j] \notin voc.hedges
          /\ IndexOfName(TermsOf(voc, VarOf(voc, toks[i])), toks[j], 1) > 0

PropItems(voc, toks, i, j) ==
    LET ref == VarOf(voc, toks[i]) IN
    IF toks[j] = "any"
    THEN << Prop(ref, SubSeq(toks, i + 2, j), 0) >>
    ELSE << Prop(ref, SubSeq(toks, i + 2, j - 1),
                 IndexOfName(TermsOf(voc, ref), toks[j], 1)) >>

\* the set of item sequences the grammar derives for toks[i..j]: at most one
RECURSIVE GAnt(_, _, _, _), GConj(_, _, _, _), GPrim(_, _, _, _)
GPrim(voc, toks, i, j) ==
    (IF IsProp(voc, toks, i, j) THEN { PropItems(voc, toks, i, j) } ELSE {})
    \cup (IF j >= i + 2 /\ toks[i] = "(" /\ toks[j] = ")" THEN GAnt(voc, toks, i + 1, j - 1) ELSE {})
GConj(voc, toks, i, j) ==
    GPrim(voc, toks, i, j) \cup
    UNION { { l \o r \o <<OpItem("and")>> : l \in GConj(voc, toks, i, k - 1),
                                            r \in GPrim(voc, toks, k + 1, j) }
            : k \in { m \in (i + 1) .. (j - 1) : toks[m] = "and" } }
GAnt(voc, toks, i, j) ==
    GConj(voc, toks, i, j) \cup
    UNION { { l \o r \o <<OpItem("or")>> : l \in GAnt(voc, toks, i, k - 1),
                                           r \in GConj(voc, toks, k + 1, j) }
            : k \in { m \in (i + 1) .. (j - 1) : toks[m] = "or" } }

AntG(voc, toks) == IF toks = << >> THEN {} ELSE GAnt(voc, toks, 1, Len(toks))
=============================================================================
