----------------------------- MODULE FormulaText -----------------------------
(* The expression tree of a formula, written in three notations.             *)
EXTENDS Formula, Text

RECURSIVE SumI(_)
SumI(s) == IF s = << >> THEN 0 ELSE Head(s) + SumI(Tail(s))

\* a node: [pre, inf, post, size]
LeafText(w) == IF ParseNum(w).ok THEN FmtNum(ParseNum(w).v, 3) ELSE w
LeafNode(w) == LET t == LeafText(w) IN [pre |-> t, inf |-> t, post |-> t, ops |-> 0, funs |-> 0]
NodeOver(t, kids) ==
    [pre  |-> Join(<< t >> \o [i \in 1 .. Len(kids) |-> kids[i].pre], " "),
     inf  |-> LET ks == [i \in 1 .. Len(kids) |-> kids[i].inf] IN
              IF t \in Funs THEN t \o " ( " \o Join(ks, " ") \o " )"
              ELSE IF Len(kids) = 1 THEN t \o " " \o ks[1] ELSE Join(ks, " " \o t \o " "),
     post |-> Join([i \in 1 .. Len(kids) |-> kids[i].post] \o << t >>, " "),
     ops  |-> SumI([i \in 1 .. Len(kids) |-> kids[i].ops]) + (IF t \in Ops THEN 1 ELSE 0),
     funs |-> SumI([i \in 1 .. Len(kids) |-> kids[i].funs]) + (IF t \in Funs THEN 1 ELSE 0)]
RECURSIVE TreePF(_, _)
TreePF(pf, st) ==
    IF pf = << >> THEN st[1]
    ELSE LET t == Head(pf)  n == Len(st) IN
         IF t \notin Elements THEN TreePF(Tail(pf), Append(st, LeafNode(t)))
         ELSE IF Arity(t) = 1 THEN TreePF(Tail(pf), Append(SubSeq(st, 1, n - 1), NodeOver(t, << st[n] >>)))
         ELSE TreePF(Tail(pf), Append(SubSeq(st, 1, n - 2), NodeOver(t, << st[n - 1], st[n] >>)))
TreeOf(toks) == TreePF(Postfix(toks), << >>)
=============================================================================
