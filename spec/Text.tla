-------------------------------- MODULE Text --------------------------------
(* Text: TLC treats a string as a sequence of characters under Len, SubSeq  *)
(* and \o.  Numbers are written with a fixed count of decimals and read     *)
(* back, as the library does.                                               *)
EXTENDS Rat

Ch(s, i) == SubSeq(s, i, i)
IsSpace(c) == c \in {" ", "\t", "\n", "\r"}

RECURSIVE SkipL(_, _), SkipR(_, _)
SkipL(s, i) == IF i <= Len(s) /\ IsSpace(Ch(s, i)) THEN SkipL(s, i + 1) ELSE i
SkipR(s, i) == IF i >= 1 /\ IsSpace(Ch(s, i)) THEN SkipR(s, i - 1) ELSE i
Trim(s) == SubSeq(s, SkipL(s, 1), SkipR(s, Len(s)))

\* position of the first character of the set cs from i on, or 0
RECURSIVE Find(_, _, _)
Find(s, cs, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in cs THEN i ELSE Find(s, cs, i + 1)

\* position of the first occurrence of the string t from i on, or 0
RECURSIVE FindStr(_, _, _)
FindStr(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE FindStr(s, t, i + 1)
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
UptoStr(s, t) == LET i == FindStr(s, t, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
HasStr(s, t) == FindStr(s, t, 1) > 0

Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i)  == SubSeq(s, i + 1, Len(s))

\* the part of s before the first c (all of it if there is none)
Upto(s, cs) == LET i == Find(s, cs, 1) IN IF i = 0 THEN s ELSE Before(s, i)

\* pieces between the characters of cs; empty ones dropped or kept
RECURSIVE Pieces(_, _)
Pieces(s, cs) == LET i == Find(s, cs, 1) IN
                 IF i = 0 THEN << s >> ELSE << Before(s, i) >> \o Pieces(After(s, i), cs)
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # "")
SplitBy(s, c) == IF s = "" THEN << "" >> ELSE NonEmpty(Pieces(s, {c}))
Words(s) == NonEmpty(Pieces(s, {" ", "\t", "\n", "\r"}))
Lines(s) == Pieces(s, {"\n"})

\* pieces between occurrences of the string t (empty ones kept)
RECURSIVE PiecesStr(_, _)
PiecesStr(s, t) == LET i == FindStr(s, t, 1) IN
                   IF i = 0 THEN << s >>
                   ELSE << Before(s, i) >> \o PiecesStr(SubSeq(s, i + Len(t), Len(s)), t)

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = << >> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE ReplaceStr(_, _, _)
ReplaceStr(s, t, u) == IF t = "" THEN s ELSE Join(PiecesStr(s, t), u)
ReplaceOne(s, t, u) == LET i == IF t = "" THEN 0 ELSE FindStr(s, t, 1) IN
                       IF i = 0 THEN s ELSE Before(s, i) \o u \o SubSeq(s, i + Len(t), Len(s))

RECURSIVE Filter(_, _, _)
Filter(s, cs, i) == IF i > Len(s) THEN ""
                    ELSE (IF Ch(s, i) \in cs THEN Ch(s, i) ELSE "") \o Filter(s, cs, i + 1)
RECURSIVE Drop(_, _, _)
Drop(s, cs, i) == IF i > Len(s) THEN ""
                  ELSE (IF Ch(s, i) \in cs THEN "" ELSE Ch(s, i)) \o Drop(s, cs, i + 1)

DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u",
          "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U",
          "V", "W", "X", "Y", "Z"}
NameChars == DigitChars \cup Lower \cup Upper \cup {"_", "."}
ValidName(s) == LET n == Filter(s, NameChars, 1) IN IF n = "" THEN "_" ELSE n

-----------------------------------------------------------------------------
(* numbers as text *)
RECURSIVE Zeros(_), Pow10(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Pad(n, k) == LET t == ToString(n) IN Zeros(k - Len(t)) \o t

\* long division: [k digits of r/q, the remainder]
RECURSIVE DigitsRem(_, _, _, _)
DigitsRem(r, q, k, acc) ==
    IF k = 0 THEN <<acc, r>> ELSE DigitsRem((10 * r) % q, q, k - 1, 10 * acc + (10 * r) \div q)

\* x with d decimals: to the nearest, ties to even; what is below a unit of the
\* last decimal is zero
FmtNum(x, d) ==
    IF IsNaN(x) THEN "nan" ELSE IF IsInf(x) THEN (IF x[1] > 0 THEN "inf" ELSE "-inf")
    ELSE LET a == Abs(x)
             t == DigitsRem(a[1] % a[2], a[2], d, 0)
             up == 2 * t[2] > a[2] \/ (2 * t[2] = a[2] /\ (IF d = 0 THEN a[1] \div a[2] ELSE t[1]) % 2 = 1)
             f == t[1] + (IF up THEN 1 ELSE 0)
             carry == f = Pow10(d)
             i == a[1] \div a[2] + (IF carry THEN 1 ELSE 0)
             small == a[1] \div a[2] = 0 /\ t[1] = 0
         IN IF d = 0 THEN (IF a[1] < a[2] THEN "0" ELSE (IF x[1] < 0 THEN "-" ELSE "") \o ToString(i))
            ELSE IF small THEN "0." \o Zeros(d)
            ELSE (IF x[1] < 0 THEN "-" ELSE "") \o ToString(i) \o "." \o Pad(IF carry THEN 0 ELSE f, d)

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9

AllIn(s, cs) == \A i \in 1 .. Len(s) : Ch(s, i) \in cs
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc
                 ELSE NatOf(After(s, 1), IF acc > 100000000 THEN acc ELSE 10 * acc + DigitVal(Ch(s, 1)))

NoNum == [ok |-> FALSE, v |-> NaN]
\* decimal numbers: [sign] digits [. digits] [e [sign] digits]; nan, inf, -inf
ParseNum(s) ==
    IF s = "nan" \/ s = "-nan" THEN [ok |-> s = "nan", v |-> NaN]
    ELSE IF s = "inf" THEN [ok |-> TRUE, v |-> Inf]
    ELSE IF s = "-inf" THEN [ok |-> TRUE, v |-> NegInf]
    ELSE LET sg == s # "" /\ Ch(s, 1) \in {"+", "-"}
             u == IF sg THEN After(s, 1) ELSE s
             ex == Find(u, {"e", "E"}, 1)
             m == IF ex = 0 THEN u ELSE Before(u, ex)
             es == IF ex = 0 THEN "0" ELSE After(u, ex)
             esg == es # "" /\ Ch(es, 1) \in {"+", "-"}
             eu == IF esg THEN After(es, 1) ELSE es
             dot == Find(m, {"."}, 1)
             ip == IF dot = 0 THEN m ELSE Before(m, dot)
             fp == IF dot = 0 THEN "" ELSE After(m, dot)
             fs == SubSeq(fp, 1, IMin(8, Len(fp)))
             good == /\ ip \o fp # "" /\ AllIn(ip, DigitChars) /\ AllIn(fp, DigitChars)
                     /\ eu # "" /\ AllIn(eu, DigitChars)
         IN IF ~good THEN NoNum
            ELSE LET n == NatOf(ip, 0)
                     v0 == Add(IF n > 32000 THEN <<32000, 1>> ELSE <<n, 1>>, Mk(NatOf(fs, 0), Pow10(Len(fs))))
                     k == NatOf(eu, 0)
                     v1 == IF k = 0 THEN v0
                           ELSE IF esg /\ Ch(es, 1) = "-" THEN Div(v0, <<Pow10(IMin(k, 4)), 1>>)
                           ELSE Mul(v0, <<Pow10(IMin(k, 4)), 1>>)
                 IN [ok |-> TRUE, v |-> IF sg /\ Ch(s, 1) = "-" THEN Neg(v1) ELSE v1]

\* text to number, leading space allowed
Num(s) == LET r == ParseNum(s) IN
          IF r.ok THEN r
          ELSE LET t == SubSeq(s, SkipL(s, 1), Len(s)) IN
               IF t # s /\ t \notin {"nan", "inf", "-inf"} THEN ParseNum(t) ELSE NoNum

\* Rounded to d decimals, the way a number is after printing and reading
Rounded(x, d) == IF IsFinite(x) THEN ParseNum(FmtNum(x, d)).v ELSE x

\* words, with parentheses and commas words of their own
RECURSIVE Spaced(_, _)
Spaced(s, i) == IF i > Len(s) THEN ""
                ELSE (IF Ch(s, i) \in {"(", ")", ","} THEN " " \o Ch(s, i) \o " " ELSE Ch(s, i)) \o Spaced(s, i + 1)
SpacedBy(s, cs) == LET RECURSIVE Go(_)
                       Go(i) == IF i > Len(s) THEN ""
                                ELSE (IF Ch(s, i) \in cs THEN " " \o Ch(s, i) \o " " ELSE Ch(s, i)) \o Go(i + 1)
                   IN Go(1)
\* formulas: so are the operators
Signs == {"(", ")", ",", "!", "~", "^", "*", "/", "%", "+", "-"}
FTokens(s) == Words(IF Find(s, Signs, 1) = 0 THEN s ELSE SpacedBy(s, Signs))
Tokens(s) == Words(IF Find(s, {"(", ")", ","}, 1) = 0 THEN s ELSE Spaced(s, 1))
=============================================================================
