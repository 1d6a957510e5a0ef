---------------------------- MODULE Collections ----------------------------
(* The collections of an engine (input variables, output variables, rule     *)
(* blocks), of a variable (terms) and of a rule block (rules): sequences of  *)
(* elements [id, name], where names may repeat and lookups take the first.   *)
(* And the factories: maps from keys to what they construct.                 *)
EXTENDS Config, Formula

Inserted(q, i, x) == SubSeq(q, 1, i) \o << x >> \o SubSeq(q, i + 1, Len(q))       \* i from 0
Without(q, i)     == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
FirstNamed(q, n)  == IF \E i \in 1 .. Len(q) : q[i].name = n
                     THEN CHOOSE i \in 1 .. Len(q) : q[i].name = n /\ \A j \in 1 .. i - 1 : q[j].name # n
                     ELSE 0

\* outcome of an action on the sequence q: [e: raised?, q, ans: id answered or 0];
\* elements made get the ids from o.id on
Coll(q, o) ==
    LET new(n, k) == [id |-> o.id + k, name |-> n]
        ok(r, a) == [e |-> FALSE, q |-> r, ans |-> a]
        bad == [e |-> TRUE, q |-> q, ans |-> 0]
    IN
    CASE o.do = "add" -> ok(Append(q, new(o.name, 0)), 0)
      [] o.do = "insert" -> ok(Inserted(q, o.i, new(o.name, 0)), 0)
      [] o.do = "set" -> IF o.i < Len(q) THEN ok([q EXCEPT ![o.i + 1] = new(o.name, 0)], q[o.i + 1].id) ELSE bad
      [] o.do = "removeat" -> IF o.i < Len(q) THEN ok(Without(q, o.i), q[o.i + 1].id) ELSE bad
      [] o.do = "removename" -> LET k == FirstNamed(q, o.name) IN IF k = 0 THEN bad ELSE ok(Without(q, k - 1), q[k].id)
      [] o.do = "rename" -> IF o.i < Len(q) THEN ok([q EXCEPT ![o.i + 1].name = o.name], 0) ELSE ok(q, 0)
      [] o.do = "assign" -> ok([k \in 1 .. Len(o.names) |-> new(o.names[k], k - 1)], 0)
      [] OTHER -> ok(q, 0)

Ifc(p, a) == IF p THEN {} ELSE {a}
CollWrong(s) ==
    LET r == TLCEval(Coll(s.before, s.o))
        q == r.q
    IN IF s.e THEN {"collection"}
       ELSE Ifc(s.raised = r.e /\ s.ans = r.ans, "answer")
            \cup Ifc(s.seq = q, "collection")
            \cup Ifc(/\ s.count = Len(q) /\ s.at = [i \in 1 .. Len(q) |-> q[i].id] /\ s.beyond /\ s.vars, "lookup")
            \cup Ifc(\A k \in 1 .. Len(s.found) :
                        LET f == s.found[k]  i == FirstNamed(q, f.name) IN
                        f.has = (i > 0) /\ f.id = (IF i = 0 THEN 0 ELSE q[i].id), "lookup")
\* values through the engine: the first variable of that name takes it, or answers
SetWrong(s) == LET i == FirstNamed(s.before, s.name) IN
               Ifc(~s.e /\ s.raised = (i = 0) /\ Len(s.vals) = Len(s.before)
                   /\ \A k \in 1 .. Len(s.vals) : Close(IF k = i THEN s.v ELSE NaN, s.vals[k]), "value")
GetWrong(s) == LET i == FirstNamed(s.before, s.name) IN
               Ifc(~s.e /\ s.raised = (i = 0) /\ (i = 0 \/ Close(Int2R(i - 1), s.val)), "value")

-----------------------------------------------------------------------------
(* factories *)
Registry(k) ==
    LET R0 == CASE k = "tnorm" -> TNorms [] k = "snorm" -> SNorms [] k = "activation" -> Activations
                [] k = "defuzzifier" -> Integrals \cup {"WeightedAverage", "WeightedSum"}
                [] k = "term" -> TermClasses [] k = "hedge" -> HedgeNames
    IN [x \in R0 \cup {""} |-> IF x = "" THEN "null" ELSE x]
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Minus1(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

RECURSIVE RegistryAfter(_, _, _)
RegistryAfter(f, h, i) ==
    IF i > Len(h) THEN f
    ELSE RegistryAfter(CASE h[i].do = "put" -> Upd(f, h[i].key, IF h[i].from \in DOMAIN f THEN f[h[i].from] ELSE "null")
                         [] h[i].do = "drop" -> Minus1(f, h[i].key)
                         [] OTHER -> f, h, i + 1)

\* keys are listed in the order of their characters
CharOrder == "!%*+-/0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_abcdefghijklmnopqrstuvwxyz~"
Ranks == [c \in { Ch(CharOrder, i) : i \in 1 .. Len(CharOrder) } |-> FindStr(CharOrder, c, 1)]
Rank(c) == Ranks[c]
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(After(a, 1), After(b, 1)) ELSE Rank(Ch(a, 1)) < Rank(Ch(b, 1))
Lists(q, S) == { q[i] : i \in 1 .. Len(q) } = S /\ \A i \in 1 .. Len(q) - 1 : StrLess(q[i], q[i + 1])

FactWrong(s) ==
    LET f == TLCEval(RegistryAfter(Registry(s.k), s.hist, 1)) IN
    IF s.e THEN {"factory"}
    ELSE Ifc(s.has = (s.key \in DOMAIN f) /\ Lists(s.av, DOMAIN f) /\ s.ctor = (s.key \in DOMAIN f /\ f[s.key] # "null"), "factory")
         \cup Ifc(s.do # "make" \/ s.made = (IF s.key \in DOMAIN f THEN f[s.key] ELSE "error"), "construct")
ManagerWrong(s) ==
    Ifc(~s.e /\ Lists(s.av, IF s.k = "function" THEN Ops \cup Funs1 \cup Funs2 ELSE DOMAIN Registry(s.k)), "factory")
\* an engine whose text names a component is read with what the manager's factory has registered then
SwapWrong(s) ==
    LET f == TLCEval(RegistryAfter(Registry(s.k), << [do |-> s.do, key |-> s.key, from |-> s.from] >>, 1))
        built(g) == IF s.use \in DOMAIN g THEN g[s.use] ELSE "error"
    IN Ifc(~s.e /\ s.during = built(f) /\ s.after = built(Registry(s.k)), "construct")
DefuzzMakeWrong(s) ==
    LET f == Registry("defuzzifier")
        m == IF s.key \in DOMAIN f THEN f[s.key] ELSE "error"
    IN Ifc(~s.e /\ s.made = m
           /\ s.res = (IF m \in Integrals THEN (IF s.mode = 2 THEN 0 ELSE s.n) ELSE 0)
           /\ s.type = (IF m \in {"WeightedAverage", "WeightedSum"} THEN (IF s.mode = 1 THEN "Automatic" ELSE s.ty) ELSE ""), "construct")

Functions == [x \in Ops \cup Funs1 \cup Funs2 |->
                 [isop |-> x \in Ops, arity |-> IF x \in Funs1 \cup {"!", "~"} THEN 1 ELSE 2]]
RECURSIVE FunctionsAfter(_, _, _)
FunctionsAfter(f, h, i) ==
    IF i > Len(h) THEN f
    ELSE FunctionsAfter(CASE h[i].do = "put" -> IF h[i].from \in DOMAIN f THEN Upd(f, h[i].key, f[h[i].from]) ELSE f
                          [] h[i].do = "drop" -> Minus1(f, h[i].key)
                          [] OTHER -> f, h, i + 1)
FuncWrong(s) ==
    LET f == TLCEval(FunctionsAfter(Functions, s.hist, 1)) IN
    IF s.e THEN {"factory"}
    ELSE Ifc(s.has = (s.key \in DOMAIN f) /\ Lists(s.av, DOMAIN f) /\ Lists(s.ops, { x \in DOMAIN f : f[x].isop })
             /\ Lists(s.funs, { x \in DOMAIN f : ~f[x].isop }), "factory")
         \cup Ifc(s.do # "make" \/ (IF s.key \in DOMAIN f
                                    THEN s.made = s.key /\ s.arity = f[s.key].arity /\ s.isop = f[s.key].isop /\ s.own
                                    ELSE s.made = "error"), "construct")
=============================================================================
