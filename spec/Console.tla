------------------------------- MODULE Console -------------------------------
(* The command-line tool: what its parameters ask for, what it writes, what  *)
(* it answers to its caller, and the interactive console as a machine over   *)
(* the keys typed.  A step records a run: parameters, files, keys, exit and  *)
(* outputs, next to what the library yields for what was asked for.          *)
EXTENDS Text, FiniteSets, TLC

CIf(p, a) == IF p THEN {} ELSE {a}
Options == {"-i", "-if", "-o", "-of", "-example", "-decimals", "-d", "-values", "-scope", "-dheader", "-dinputs"}
Failed == [e |-> TRUE]

\* keys and values of the parameters; the last value given to a key is the one
Given(args, k) == LET at == { i \in 1 .. Len(args) : i % 2 = 1 /\ args[i] = k } IN
                  IF at = {} THEN [has |-> FALSE, v |-> ""]
                  ELSE [has |-> TRUE, v |-> args[(CHOOSE i \in at : \A j \in at : j <= i) + 1]]
KeysOf(args) == { args[i] : i \in { j \in 1 .. Len(args) : j % 2 = 1 } }
\* one pair without option: the files to read and to write
Asked(args) == IF Len(args) = 2 /\ ~Starts(args[1], "-") THEN << "-i", args[1], "-o", args[2] >> ELSE args

RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
FormatOf(given, name) == IF given.has THEN [ok |-> TRUE, v |-> given.v]
                         ELSE LET i == LastDot(name, Len(name)) IN
                              IF i = 0 THEN [ok |-> FALSE, v |-> ""] ELSE [ok |-> TRUE, v |-> After(name, i)]
IsFile(s, n) == \E i \in 1 .. Len(s.files) : s.files[i].name = n
TextOf(s, n) == s.files[CHOOSE i \in 1 .. Len(s.files) : s.files[i].name = n].text
ExampleOf(n) == IF n \in {"m", "mamdani"} THEN "mamdani" ELSE IF n \in {"t", "ts", "takagi-sugeno"} THEN "takagi" ELSE ""
Count(t) == LET n == ParseNum(t) IN IF n.ok /\ IsFinite(n.v) THEN [ok |-> TRUE, v |-> n.v[1] \div n.v[2]] ELSE [ok |-> FALSE, v |-> 0]

\* what a run is to do: an error, or a conversion of a text
Task(s) ==
    LET a    == Asked(s.args)
        G(k) == Given(a, k)
        ex   == G("-example")
        inn  == G("-i")
        out  == G("-o")
        inf  == IF ex.has THEN [ok |-> TRUE, v |-> "fll"] ELSE FormatOf(G("-if"), inn.v)
        outf == FormatOf(G("-of"), out.v)
        dec  == IF G("-decimals").has THEN Count(G("-decimals").v) ELSE [ok |-> TRUE, v |-> 3]
        dat  == G("-d")
        vals == IF G("-values").has THEN Count(G("-values").v) ELSE [ok |-> TRUE, v |-> 0]
        scp  == IF G("-scope").has THEN G("-scope").v ELSE "EachVariable"
        mode == IF outf.v # "fld" THEN "text" ELSE IF dat.has THEN "data" ELSE IF G("-values").has THEN "values" ELSE "keys"
    IN IF \/ Len(s.args) % 2 = 1 \/ ~(KeysOf(a) \subseteq Options)
          \/ ~dec.ok
          \/ IF ex.has THEN ExampleOf(ex.v) = "" ELSE ~inn.has \/ ~IsFile(s, inn.v)
          \/ HasStr(out.v, "/")     \* (folders that are not there)
          \/ ~inf.ok \/ ~outf.ok \/ inf.v \notin {"fll", "fis", "fcl"}
          \/ outf.v \notin {"fll", "fld", "fcl", "fis", "cpp", "java"}
          \/ mode = "data" /\ ~IsFile(s, dat.v)
          \/ mode = "values" /\ (~vals.ok \/ scp \notin {"EachVariable", "AllVariables"})
       THEN Failed
       ELSE [e |-> FALSE,
             out |-> out.v,
             key |-> [text |-> IF ex.has THEN s.examples[ExampleOf(ex.v)] ELSE TextOf(s, inn.v),
                      inf |-> inf.v, outf |-> outf.v, d |-> dec.v, mode |-> mode,
                      hd  |-> ~G("-dheader").has \/ G("-dheader").v = "true" \/ mode \notin {"data", "values"},
                      oi  |-> ~G("-dinputs").has \/ G("-dinputs").v = "true" \/ mode = "text",
                      data |-> IF mode = "data" THEN TextOf(s, dat.v) ELSE "",
                      n   |-> IF mode = "values" THEN vals.v ELSE 0,
                      scope |-> IF mode = "values" THEN scp ELSE ""]]

-----------------------------------------------------------------------------
(* the interactive console *)
Help == "#Special Keys\n#=============\n#\tR\tRestart engine and discard current inputs\n#\tD\tDiscard current inputs\n"
        \o "#\tP\tProcess engine\n#\tQ\tQuit interactive console\n#\tH\tShow this help\n#=============\n"
\* m: what has been typed of a number, the numbers given so far ("" where the input keeps its value), how
\* many evaluations there have been, the values of the inputs, what has been shown, how it ended
Machine == [typed |-> "", given |-> << >>, k |-> 0, cur |-> << >>, shown |-> ">", end |-> "no"]
Show(m, t) == [m EXCEPT !.shown = @ \o t]
\* the engine is given the numbers and evaluated: what the library does next must be that
Evaluated(s, m) ==
    LET v == m.k + 1
        missing == SubSeq(m.cur, Len(m.given) + 1, Len(m.cur))
        t == Join(missing, "\t") \o (IF missing = << >> THEN "" ELSE "\t") \o "=\t"
    IN IF v > Len(s.evals) \/ s.evals[v].op # "process" \/ s.evals[v].x # m.given THEN [m EXCEPT !.end = "unlike"]
       ELSE IF s.evals[v].e THEN [Show(m, t) EXCEPT !.end = "error"]
       ELSE [Show(m, t \o Join(s.evals[v].o, "\t") \o "\n>") EXCEPT
             !.typed = "", !.given = << >>, !.k = v, !.cur = s.evals[v].ins]
Printable == DigitChars \cup Lower \cup Upper \cup {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
              ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
Key(s, m, c) ==
    IF c \in {" ", "\t", "\n", "\r"}
    THEN LET ok == Num(m.typed).ok
             i  == Len(m.given) + 1
             g  == Show([m EXCEPT !.given = Append(@, IF ok THEN m.typed ELSE ""), !.typed = ""],
                        (IF ok THEN "" ELSE "[" \o m.cur[i] \o "]") \o "\t")
         IN IF i = Len(m.cur) THEN Evaluated(s, g) ELSE g
    ELSE CASE c \in {"p", "P"} -> Evaluated(s, m)
           [] c \in {"r", "R"} -> IF m.k + 1 > Len(s.evals) \/ s.evals[m.k + 1].op # "restart" THEN [m EXCEPT !.end = "unlike"]
                                  ELSE Show([m EXCEPT !.typed = "", !.given = << >>, !.k = @ + 1, !.cur = s.evals[m.k + 1].ins],
                                            "#[Restart]#[Discard]\n>")
           [] c \in {"d", "D"} -> Show([m EXCEPT !.typed = "", !.given = << >>], "#[Discard]\n>")
           [] c \in {"h", "H"} -> Show([m EXCEPT !.typed = ""], "\n>" \o Help \o "\n>")
           [] c \in {"q", "Q"} -> [m EXCEPT !.end = "quit"]
           [] c \in Printable -> Show([m EXCEPT !.typed = @ \o c], c)
           [] OTHER -> m
RECURSIVE Typed(_, _, _)
Typed(s, m, i) == IF i > Len(s.keys) \/ m.end # "no" THEN m ELSE Typed(s, TLCEval(Key(s, m, Ch(s.keys, i))), i + 1)
Banner == "#FuzzyLite Interactive Console (press H for help)\n"
Session(s) ==
    LET m == Typed(s, [Machine EXCEPT !.cur = s.start], 1)
        t == Banner \o s.header \o "\n" \o m.shown
    IN IF m.end = "unlike" THEN {"keys"}
       ELSE IF m.end = "error" THEN CIf(Starts(s.written, t), "keys")
       \* (after the key to quit, what is said of it)
       ELSE IF m.end = "quit" THEN CIf(m.k = Len(s.evals) /\ Starts(s.written, t), "keys")
       ELSE CIf(m.k = Len(s.evals) /\ s.written = t \o "\n", "keys")

-----------------------------------------------------------------------------
\* s.key what the library was asked for, s.lib its text, s.le whether it refused
ConvertWrong(s) ==
    LET t == TLCEval(Task(s)) IN
    IF Len(s.args) < 2 THEN CIf(s.exit = 0 /\ HasStr(s.stdout, "usage:"), "exit")
    ELSE IF t.e THEN CIf(s.exit = 1, "exit")
    ELSE IF ~Assert(t.key = s.key, <<"the library was asked for something else", t.key, s.key>>) THEN {}
    ELSE IF s.le THEN CIf(s.exit = 1, "exit")
    ELSE CIf(s.exit = 0, "exit")
         \cup (IF s.exit # 0 THEN {}
               ELSE IF t.key.mode = "keys" THEN Session(s)
               ELSE IF t.out = "" THEN CIf(HasStr(s.stdout, s.lib), "output")
               ELSE CIf(s.written = s.lib, "output"))
         \cup CIf(s.kept, "files")

\* tables of benchmarks: a header and a row per benchmark, times aside
Untimed(n) == ~(n \in {"sum(t)", "mean(t)", "sd(t)"} \/ (Len(n) > 1 /\ Ch(n, 1) = "t" /\ AllIn(After(n, 1), DigitChars)))
TableWrong(s) ==
    IF s.bad THEN CIf(s.exit = 1, "exit")
    ELSE LET ls == Lines(s.written)
             h == s.columns
             cells(i) == PiecesStr(ls[i + 1], "\t")
         IN CIf(s.exit = 0, "exit")
            \cup CIf(/\ Len(ls) = Len(s.rows) + 2 /\ ls[Len(ls)] = ""
                     /\ ls[1] = Join(h, "\t")
                     /\ \A i \in 1 .. Len(s.rows) :
                           LET c == cells(i) IN
                           /\ Len(c) = Len(h) /\ Len(s.rows[i]) = Len(h)
                           /\ \A j \in 1 .. Len(h) : Untimed(h[j]) => c[j] = s.rows[i][j], "table")
(* the examples, each written in every format *)
Examples == << <<"mamdani/", "AllTerms">>, <<"mamdani/", "SimpleDimmer">>, <<"mamdani/", "Laundry">>,
    <<"mamdani/", "ObstacleAvoidance">>, <<"mamdani/", "SimpleDimmerChained">>, <<"mamdani/", "SimpleDimmerInverse">>,
    <<"mamdani/matlab/", "mam21">>, <<"mamdani/matlab/", "mam22">>, <<"mamdani/matlab/", "shower">>,
    <<"mamdani/matlab/", "tank">>, <<"mamdani/matlab/", "tank2">>, <<"mamdani/matlab/", "tipper">>,
    <<"mamdani/matlab/", "tipper1">>, <<"mamdani/octave/", "investment_portfolio">>,
    <<"mamdani/octave/", "mamdani_tip_calculator">>, <<"takagi-sugeno/", "approximation">>,
    <<"takagi-sugeno/", "ObstacleAvoidance">>, <<"takagi-sugeno/", "SimpleDimmer">>,
    <<"takagi-sugeno/matlab/", "fpeaks">>, <<"takagi-sugeno/matlab/", "invkine1">>,
    <<"takagi-sugeno/matlab/", "invkine2">>, <<"takagi-sugeno/matlab/", "juggler">>,
    <<"takagi-sugeno/matlab/", "membrn1">>, <<"takagi-sugeno/matlab/", "membrn2">>,
    <<"takagi-sugeno/matlab/", "slbb">>, <<"takagi-sugeno/matlab/", "slcp">>, <<"takagi-sugeno/matlab/", "slcp1">>,
    <<"takagi-sugeno/matlab/", "slcpp1">>, <<"takagi-sugeno/matlab/", "sltbu_fl">>,
    <<"takagi-sugeno/matlab/", "sugeno1">>, <<"takagi-sugeno/matlab/", "tanksg">>,
    <<"takagi-sugeno/matlab/", "tippersg">>, <<"takagi-sugeno/octave/", "cubic_approximator">>,
    <<"takagi-sugeno/octave/", "heart_disease_risk">>, <<"takagi-sugeno/octave/", "linear_tip_calculator">>,
    <<"takagi-sugeno/octave/", "sugeno_tip_calculator">>, <<"tsukamoto/", "tsukamoto">>, <<"hybrid/", "tipper">>,
    <<"hybrid/", "ObstacleAvoidance">> >>
JavaImports == "import com.fuzzylite.*;\nimport com.fuzzylite.activation.*\nimport com.fuzzylite.defuzzifier.*;\n"
    \o "import com.fuzzylite.factory.*;\nimport com.fuzzylite.hedge.*;\nimport com.fuzzylite.imex.*;\n"
    \o "import com.fuzzylite.norm.*;\nimport com.fuzzylite.norm.s.*;\nimport com.fuzzylite.norm.t.*;\n"
    \o "import com.fuzzylite.rule.*;\nimport com.fuzzylite.term.*;\nimport com.fuzzylite.variable.*;\n\n"
\* what is written of an example, from what the library exports
Wrapped(format, class, lib) ==
    CASE format = "cpp"  -> "#include <fl/Headers.h>\n\nint main(int argc, char** argv){\n" \o lib \o "\n}\n"
      [] format = "java" -> JavaImports \o "public class " \o class \o "{\npublic static void main(String[] args){\n" \o lib \o "\n}\n}\n"
      [] OTHER -> lib
\* s.n: the names of the examples there were (in the order of the tool), s.made: per format and example, the
\* name of the file, whether there is one, its text, and what the library exports
SetWrong(s) ==
    IF s.bad THEN CIf(s.exit = 1, "exit")
    ELSE CIf(s.exit = 0, "exit")
         \cup CIf(/\ Len(s.made) = 7
                  /\ \A f \in 1 .. Len(s.made) :
                        /\ s.made[f].format = << "fll", "fcl", "fis", "cpp", "java", "R", "fld" >>[f]
                        /\ Len(s.made[f].files) = Len(Examples)
                        /\ \A i \in 1 .. Len(Examples) :
                              LET x == s.made[f].files[i] IN
                              /\ x.name = Examples[i][1] \o Examples[i][2] \o "." \o s.made[f].format
                              /\ x.there
                              /\ x.text = Wrapped(s.made[f].format, Examples[i][2], x.lib), "output")
         \cup CIf(s.kept, "files")
ConsoleWrong(s) == IF s.op = "examples" THEN SetWrong(s) ELSE IF s.op = "tool" THEN ConvertWrong(s) ELSE IF s.op = "table" THEN TableWrong(s) ELSE {}
=============================================================================
