----------------------------- MODULE CollGraph -----------------------------
(* All collections of up to Most elements of two names, and every action on   *)
(* each of them; the histories that lead there are printed and replayed.     *)
EXTENDS Collections, TLC
Most == 3
VARIABLES q, hist
View == [i \in 1 .. Len(q) |-> q[i].name]

Names2 == {"a", "b"}
Acts == { [do |-> "add", name |-> n, i |-> 0] : n \in Names2 }
        \cup { [do |-> d, name |-> n, i |-> i] : d \in {"insert"}, n \in Names2, i \in 0 .. Len(q) }
        \cup { [do |-> d, name |-> n, i |-> i] : d \in {"set"}, n \in Names2, i \in 0 .. Len(q) }
        \cup { [do |-> "removeat", name |-> "", i |-> i] : i \in 0 .. Len(q) + 1 }
        \cup { [do |-> "removename", name |-> n, i |-> 0] : n \in Names2 \cup {"c"} }
        \cup { [do |-> "rename", name |-> n, i |-> i] : n \in Names2, i \in 0 .. Len(q) - 1 }
        \cup { [do |-> "assign", name |-> n, i |-> 0] : n \in {"", "a b", "b b a"} }
Full(a) == [do |-> a.do, name |-> a.name, i |-> a.i, id |-> 1 + Len(hist) * 4, names |-> Words(a.name)]
Init == q = << >> /\ hist = << >>
Next == \E a \in Acts :
           LET r == Coll(q, Full(a)) IN
           /\ Len(r.q) <= Most
           /\ q' = r.q
           /\ hist' = Append(hist, <<a.do, a.name, a.i>>)
           /\ PrintT(<<"H", hist'>>)
Spec == Init /\ [][Next]_<<q, hist>>

\* what is promised
Laws ==
    /\ \A i \in 0 .. Len(q) : LET o == [do |-> "insert", name |-> "z", i |-> i, id |-> 99, names |-> << >>]
                                  r == Coll(q, o) IN
           /\ ~r.e /\ Len(r.q) = Len(q) + 1 /\ r.q[i + 1].id = 99
           /\ Coll(r.q, [o EXCEPT !.do = "removeat"]).q = q            \* removing undoes inserting
           /\ Coll(r.q, [o EXCEPT !.do = "removename"]).q = q
    /\ \A n \in Names2 : LET r == Coll(q, [do |-> "removename", name |-> n, i |-> 0, id |-> 99, names |-> << >>]) IN
           /\ r.e = (FirstNamed(q, n) = 0)
           /\ r.e => r.q = q
           /\ ~r.e => r.ans = q[FirstNamed(q, n)].id /\ ~\E k \in 1 .. Len(r.q) : r.q[k].id = r.ans
    /\ \A i, j \in 1 .. Len(q) : i # j => q[i].id # q[j].id
=============================================================================
