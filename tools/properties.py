ENG = ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp",
       "src/variable/OutputVariable.cpp", "src/variable/Variable.cpp"]

prop("E01", "An evaluation depends only on configuration, inputs and remembered outputs",
     "Evaluating an engine yields, for every enabled output, the value obtained by composing rule activation, "
     "implication, aggregation and defuzzification of its current configuration on its current inputs. Nothing else "
     "of the history leaks in: fuzzy outputs, activation degrees and triggers of earlier evaluations leave no "
     "residue. Evaluation changes neither inputs nor configuration.",
     ["inputs", "configurations", "histories"],
     "all engines (terms, rules, operators, activation methods, defuzzifiers), all inputs incl. NaN and infinities, "
     "all interleavings of evaluations with changes of inputs, outputs, operators, weights and enablement",
     "The tests evaluate a few fixed engines once, mostly on the shipped examples; residue needs a particular sequence "
     "of evaluations and reconfigurations, and composition errors need particular combinations of components.",
     ENG, [("evaluation of an engine", "src/Engine.cpp: Engine::process"),
           ("activation of a rule block", "src/rule/RuleBlock.cpp: RuleBlock::activate"),
           ("defuzzification of an output", "src/variable/OutputVariable.cpp: OutputVariable::defuzzify")],
     ["values, previous values and fuzzy outputs of output variables after each evaluation", "activation degree and "
      "trigger of every rule"], "Engine, EngineOps, EngineTrace, EngineGraph",
     "All histories to depth 4 (quick) or 5 (thorough) of small engines under small operation alphabets, plus random "
     "engines with random histories.",
     [("fuzzy output", "terms activated in the current evaluation", "OutputVariable::_fuzzyOutput"),
      ("activation degree, triggered", "per rule, of the latest evaluation", "Rule::_activationDegree, _triggered")])

prop("E02", "A rule's activation degree is its antecedent's value times its weight",
     "The activation degree of a loaded rule equals its weight times the value of its antecedent expression, where "
     "conjunction binds tighter than disjunction, operators associate to the left, parentheses group, hedges apply "
     "from the innermost to the outermost, propositions over inputs take memberships and propositions over outputs "
     "take degrees accumulated so far. Disabled variables count as zero. A missing operator that is needed raises an error. "
     "This holds whether an activation method asks for the degree or a program does.",
     ["inputs", "configurations", "programs"],
     "all antecedents (depth, parentheses, hedges, mixed operators, inputs and outputs), all norms, weights and inputs",
     "Tests parse and evaluate a handful of antecedents; precedence, hedge order and output propositions only show on "
     "particular nestings and values.",
     ["src/rule/Antecedent.cpp", "src/rule/Rule.cpp", "src/Function.cpp",
      "src/term/Aggregated.cpp"],
     [("evaluation of antecedents", "src/rule/Antecedent.cpp: Antecedent::activationDegree"),
      ("parsing of antecedents", "src/rule/Antecedent.cpp: Antecedent::load"),
      ("degree of a rule", "src/rule/Rule.cpp: Rule::activateWith")],
     ["activation degree of every rule after each evaluation"], "Engine.RuleDegree, RuleSyntax, Norms, Terms",
     "Random rule bases over all exactly computable terms, curved terms through a tabulated exponential.")

prop("E03", "Each activation method fires exactly the rules it promises",
     "Given the activation degrees, the rules that fire are those the block's activation method selects: all; the "
     "first or last so many above a threshold; the so many highest or lowest; those comparing true against a "
     "threshold; or all with degrees normalised to sum to one. Rules fire only if loaded, enabled and of positive "
     "degree, and ties may be broken only among equal degrees. The same holds of a rule that a program activates and "
     "triggers by itself.",
     ["inputs", "configurations", "histories"],
     "all activation methods with all parameters, all vectors of degrees incl. ties, zeros and unloaded or disabled rules",
     "Tests construct the methods and check text round trips; selection under ties, zero degrees, disabled rules and "
     "borderline thresholds is sampled in a few cases only.",
     ["src/activation"], [(k, "src/activation/%s.cpp: %s::activate" % (k, k)) for k in
      ("General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold")],
     ["activation degree and trigger of every rule after an evaluation"], "Engine.Selections, Engine.EagerRun",
     "All histories to depth 4 or 5 of small blocks of 3-4 rules with changing weights, enablement and methods; random "
     "blocks of up to 7 rules.")

prop("E04", "A firing rule adds exactly its conclusions to the fuzzy outputs",
     "Each rule that fires adds to the fuzzy output of every enabled output it concludes on one term per conclusion, "
     "with the hedged activation degree and the block's implication, in the order of blocks, firing and conclusions; "
     "nothing else is added and disabled outputs receive nothing, each time a rule fires, also when a program triggers it.",
     ["inputs", "configurations", "histories"],
     "all consequents (several conclusions, repeated outputs, hedges), all degrees, all combinations of disabled outputs",
     "Tests look at single conclusions of fixed rules; multiplicity, hedging and disabled outputs interact.",
     ["src/rule/Consequent.cpp", "src/rule/Rule.cpp", "src/term/Aggregated.cpp"],
     [("modifying outputs", "src/rule/Consequent.cpp: Consequent::modify"),
      ("triggering a rule", "src/rule/Rule.cpp: Rule::trigger")],
     ["terms, degrees and implications in each output's fuzzy output"], "Engine.AddConclusions, Engine.FireAll",
     "Random rule bases with up to three conclusions over up to three outputs.")

prop("E05", "Integral defuzzifiers compute the stated point of the aggregated set",
     "For every aggregated set and resolution, the centroid, bisector and smallest, mean and largest of maximum "
     "equal the value of their definition on the midpoints of the equal subdivisions of the output's range. The result "
     "is not a number exactly when the range is not finite or the definition has no value.",
     ["inputs", "configurations"],
     "all sets of activated terms, aggregations, implications, ranges and resolutions",
     "Tests compare a few sets at the default resolution; ties, plateaus, empty sets, resolution one and odd "
     "resolutions are not covered.",
     ["src/defuzzifier", "src/term/Aggregated.cpp", "src/term/Activated.cpp"],
     [(k, "src/defuzzifier/%s.cpp: %s::defuzzify" % (k, k)) for k in
      ("Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum")],
     ["value of an output after defuzzification"], "Fuzzy.Integral",
     "Random sets, resolutions 1 to 32; answers that hang on the last bit of floating point are not judged.")

prop("E06", "Weighted defuzzifiers combine the conclusions with their degrees",
     "The weighted average and sum of a fuzzy output equal the combination, over its distinct terms with degrees "
     "accumulated by the aggregation, of degree times the term's output: its value for functional conclusions, its "
     "inverse for monotonic ones. Mixed or unsuitable conclusions raise an error, and an empty set yields no number.",
     ["inputs", "configurations"],
     "all sets of constant, linear, function and monotonic conclusions, aggregations or none, types and inputs",
     "Tests use a few Sugeno and Tsukamoto examples; repeated terms, missing aggregation and mixed types are not swept.",
     ["src/defuzzifier/WeightedAverage.cpp", "src/defuzzifier/WeightedSum.cpp",
      "src/defuzzifier/WeightedDefuzzifier.cpp", "src/term/Aggregated.cpp"],
     [("weighted average", "src/defuzzifier/WeightedAverage.cpp: WeightedAverage::defuzzify"),
      ("weighted sum", "src/defuzzifier/WeightedSum.cpp: WeightedSum::defuzzify"),
      ("grouping of repeated terms", "src/term/Aggregated.cpp: Aggregated::groupedTerms")],
     ["value of an output after defuzzification"], "Fuzzy.Weighted, Fuzzy.Grouped",
     "Random Takagi-Sugeno, Tsukamoto and mixed engines.")

prop("E07", "Outputs fall back, remember and stay in range as configured",
     "Whenever an output has no result it takes, if so configured, its remembered previous value, and otherwise or "
     "failing that its default value; every evaluation moves the value it replaces into the memory. A variable locked "
     "to its range never holds a number outside it, whichever way its value is set.",
     ["histories", "configurations", "inputs"],
     "all histories of evaluations with and without results, and of changes to values, memory, defaults, ranges and locks",
     "Tests drive one output through one short scripted sequence; memory is a matter of histories.",
     ["src/variable/OutputVariable.cpp", "src/variable/Variable.cpp"],
     [("committing a value", "src/variable/OutputVariable.cpp: OutputVariable::defuzzify"),
      ("range lock", "src/variable/Variable.cpp: Variable::setValue")],
     ["value and previous value of every output after every operation"], "Engine.Commit, EngineOps",
     "All histories to depth 4 or 6 of small engines under alphabets of memory operations; random histories of up to 20 "
     "operations.",
     [("value", "current value", "Variable::_value"), ("previous value", "value it replaced",
       "OutputVariable::_previousValue")])

prop("E08", "Restarting an engine forgets all values and nothing else",
     "After a restart every input and output value, previous value and fuzzy output is empty and the engine behaves "
     "exactly as a freshly configured one with the same configuration, for all later histories. Restarting changes no "
     "configuration, and restarting twice is the same as once.",
     ["histories", "configurations"],
     "all histories before and after a restart, all locks, enablements and rule states",
     "Only the immediate effect on an example is tested, not what later evaluations see.",
     ["src/Engine.cpp", "src/variable/OutputVariable.cpp"],
     [("restart", "src/Engine.cpp: Engine::restart"),
      ("clearing an output", "src/variable/OutputVariable.cpp: OutputVariable::clear")],
     ["all values after restart and after later evaluations"], "Engine.Restart, EngineGraph.RestartForgets",
     "All histories to depth 4 or 5 of small engines; random histories with several restarts.")

prop("E09", "Copies of an engine equal it and share nothing with it",
     "A copy, clone or assigned engine equals its source in configuration and values and evaluates like it. From then "
     "on each evolves on its own: no operation on one, including its destruction, changes or invalidates the other.",
     ["histories", "configurations"],
     "all engines and states, all interleavings of operations over an engine and its copies, incl. destruction",
     "Tests compare the text of a copy with its source right after copying; sharing shows only in later histories.",
     ["src/Engine.cpp", "src/rule", "src/term", "src/variable"],
     [("copying an engine", "src/Engine.cpp: Engine::copyFrom"),
      ("references of terms", "src/Engine.cpp: Engine::updateReferences"),
      ("copying rules", "src/rule/Rule.cpp: Rule::Rule(const Rule&)")],
     ["state of all engines after every operation on any of them", "whether rules and fuzzy outputs refer to the "
      "engine's own variables and terms"], "EngineTrace (world of engines), Engine.CopyOf",
     "Random worlds of up to three engines; freed memory is overwritten so that use after destruction shows.")

prop("E10", "Disabled components take no part in an evaluation",
     "A disabled block is not evaluated and its rules keep their state; a disabled rule never fires; a disabled "
     "variable contributes nothing to antecedents, and a disabled output collects nothing and keeps its value. "
     "Enabling again restores full participation, and toggling one component affects no other.",
     ["histories", "configurations"],
     "all subsets of disabled variables, blocks and rules and all orders of toggling and evaluating",
     "Tests toggle single components and look at the flag, not at all effects over later evaluations.",
     ENG + ["src/rule/Antecedent.cpp", "src/rule/Consequent.cpp"],
     [("blocks", "src/Engine.cpp: Engine::process"),
      ("rules", "src/rule/Rule.cpp: Rule::trigger"),
      ("variables in antecedents", "src/rule/Antecedent.cpp: Antecedent::activationDegree"),
      ("variables in consequents", "src/rule/Consequent.cpp: Consequent::modify"),
      ("outputs", "src/variable/OutputVariable.cpp: OutputVariable::defuzzify")],
     ["all state after every operation"], "Engine, EngineGraph.ProcessFrame",
     "All histories to depth 4 or 5 of small engines under toggles; random histories.")

prop("E11", "Rules load completely or not at all, and unloaded rules are inert",
     "Loading a rule either succeeds, and the rule then has the antecedent, consequent and weight its text says, or "
     "raises an error and leaves the rule unloaded, without parts, and never firing. Loading, unloading, reloading, "
     "adding and removing rules affect the addressed rules only, and loading all rules of a block attempts every one.",
     ["histories", "programs"],
     "all rule texts, well formed or not, and all orders of loading, unloading, adding, removing and evaluating",
     "Tests load fixed rules; partial failure inside a block and reloading after failure are histories.",
     ["src/rule/Rule.cpp", "src/rule/RuleBlock.cpp", "src/rule/Antecedent.cpp",
      "src/rule/Consequent.cpp"],
     [("loading a rule", "src/rule/Rule.cpp: Rule::load"),
      ("unloading a rule", "src/rule/Rule.cpp: Rule::unload"),
      ("loading a block", "src/rule/RuleBlock.cpp: RuleBlock::loadRules")],
     ["loaded state, weight, enablement and effect of each rule after every operation", "raised errors"],
     "RuleSyntax, EngineOps, EngineGraph.LoadDecides",
     "All histories to depth 4 or 5 of small rule bases under loading operations; random histories with malformed texts.")


prop("X01", "An engine written as FLL and read back is the same engine",
     "Exporting an engine as FuzzyLite Language lists its whole configuration in a fixed order, numbers with the "
     "configured decimals. Importing that text gives an engine with the same variables, terms, operators, rule blocks, "
     "rules and settings (numbers as printed, names reduced to valid characters, descriptions kept), which evaluates "
     "like the original, and exporting it again reproduces the text, whatever indent and separator are used.",
     ["inputs", "configurations", "histories"],
     "all engines (term classes, norms, activation methods, defuzzifiers, flags, limits incl. infinities, descriptions, "
     "malformed rules), all states they are in, all decimals, indents and separators",
     "Tests round trip the shipped examples only, compare texts with each other (an omission on both sides cancels out) "
     "and do not evaluate what was read.",
     ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp", "src/term", "fuzzylite/Operation.h"],
     [("writing", "src/imex/FllExporter.cpp: FllExporter::toString"),
      ("reading", "src/imex/FllImporter.cpp: FllImporter::fromString"),
      ("parameters of terms", "src/term/*.cpp: parameters, configure"),
      ("numbers as text", "fuzzylite/Operation.h: Operation::str, toScalar")],
     ["exported text line by line", "configuration of the imported engine through its getters", "values of both engines "
      "in later evaluations"], "Config, Text, Fll, EngineTrace",
     "Random engines after random histories; texts are compared with the model's line by line.")

prop("X02", "FLL text is read as written or rejected as a whole",
     "Reading FLL text either raises an error and yields no engine, or yields the engine the text describes: later keys "
     "override earlier ones, blanks, comments and empty lines do not matter, omitted keys leave defaults, "
     "and unknown keys, components, malformed numbers, booleans, ranges and terms raise errors. Rules that "
     "cannot be loaded are kept as text and never fire.",
     ["inputs", "programs"],
     "all texts: any order of sections and keys, spacing, comments, notations of numbers, omissions, repetitions, "
     "and single faults of all sorts anywhere",
     "Tests read well-formed examples in the exporter's own layout and a few faulty lines.",
     ["src/imex/FllImporter.cpp", "fuzzylite/Operation.h", "src/term", "src/factory"],
     [("sections", "src/imex/FllImporter.cpp: FllImporter::process"),
      ("keys of variables and blocks", "src/imex/FllImporter.cpp: processInputVariable, processOutputVariable, processRuleBlock"),
      ("components", "src/imex/FllImporter.cpp: parseTerm, parseActivation, parseDefuzzifier, parseRange")],
     ["error or configuration of the imported engine through its getters", "exported text of what was read"],
     "Config, Text, Fll, EngineTrace",
     "Random texts written by a generator of its own, half of them with a fault put in.")

prop("X03", "Writing and reading FIS keeps what the format can say",
     "Exporting an engine as FIS writes its sections, memberships and rules as the format prescribes, or raises an error "
     "when a rule mixes conjunctions and disjunctions. Importing FIS text raises an error and yields no engine, or "
     "yields the engine described: functions, ranges, norms and defuzzifiers by their FIS names, rules by the indices "
     "(negative: not; decimals: any, hedges) of their terms. What is written and read again is the same engine up to "
     "what FIS cannot say, and evaluates alike.",
     ["inputs", "configurations", "histories"],
     "all engines the format can say, in all states and decimals; all FIS texts, in any order, spacing and notation, "
     "with single faults anywhere",
     "Tests read two fixed systems and compare exports of the shipped examples with each other.",
     ["src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp"],
     [("writing rules", "src/imex/FisExporter.cpp: exportRule, translate"),
      ("writing systems", "src/imex/FisExporter.cpp: exportSystem, exportInputs, exportOutputs"),
      ("reading rules", "src/imex/FisImporter.cpp: importRules, translateProposition"),
      ("reading terms", "src/imex/FisImporter.cpp: parseTerm, createInstance")],
     ["exported text line by line", "error or configuration of the imported engine through its getters",
      "values of both engines in later evaluations"], "Config, Text, Infer, Fis, EngineTrace",
     "Random engines after random histories, written and read; random FIS texts, half of them with a fault put in.")

prop("X04", "Writing and reading FCL keeps what the format can say",
     "Exporting an engine as Fuzzy Control Language writes one block of declarations, one block per variable and rule "
     "block, with operators by their FCL names. Importing FCL text raises an error and yields no engine (unknown "
     "blocks, unterminated blocks, undeclared variables, malformed terms, ranges, methods, and numbers), or yields the "
     "engine described. What is written and read again is the same engine up to what FCL cannot say, and evaluates "
     "alike.",
     ["inputs", "configurations", "histories"],
     "all engines, in all states, decimals and indents; all FCL texts in any order, spacing and notation, with single "
     "faults anywhere",
     "Tests read one fixed controller and compare exports of the shipped examples with each other.",
     ["src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp"],
     [("writing", "src/imex/FclExporter.cpp: FclExporter::toString"),
      ("reading blocks", "src/imex/FclImporter.cpp: processBlock, processVar, processFuzzify, processDefuzzify"),
      ("reading rules", "src/imex/FclImporter.cpp: processRuleBlock"),
      ("reading terms and methods", "src/imex/FclImporter.cpp: parseTerm, parseDefuzzifier, parseDefaultValue, parseRange")],
     ["exported text line by line", "error or configuration of the imported engine through its getters",
      "values of both engines in later evaluations"], "Config, Text, Fcl, EngineTrace",
     "Random engines after random histories, written and read; random FCL texts, half of them with a fault put in.")

prop("N01", "Norms are norms",
     "Every T-norm and S-norm computes its definition for all degrees: commutative, associative, monotone, with its "
     "neutral and absorbing element, within the unit interval (unbounded sum excepted), dual in pairs; a missing (nan) "
     "degree behaves as the definition says. Norms given by a formula compute the one given last. Copies compute the same.",
     ["inputs"],
     "all classes of norms, all pairs of degrees (including ends, complements, and nan), all formulas of two degrees",
     "Tests compute norms on a few dozen pairs; laws hold for all.",
     ["src/norm"],
     [("T-norms", "src/norm/t/*.cpp: compute"), ("S-norms", "src/norm/s/*.cpp: compute")],
     ["TNorm::compute, SNorm::compute"], "Norms, NormLaws, Parts",
     "The laws are model-checked on a grid of exact degrees (NormLaws); the code is compared with the model on a grid and at "
     "random degrees. At the jumps of discontinuous norms either side is admitted unless the degrees are small binary fractions.")

prop("N02", "Hedges modify degrees as defined",
     "Every hedge computes its definition for all degrees: within the unit interval, monotone (not: antitone), with their "
     "fixed points, and inverse in pairs; hedges given by a formula compute the one given last. Copies compute the same.",
     ["inputs"], "all hedges, all degrees, all formulas of a degree",
     "Tests compute hedges on a few values.", ["src/hedge"],
     [("hedges", "src/hedge/*.cpp: hedge")], ["Hedge::hedge"], "Norms, HedgeLaws, Parts",
     "The laws are model-checked on a grid of exact degrees (HedgeLaws); the code is compared with the model at random degrees.")

prop("T01", "Terms compute their membership functions",
     "The membership of a value in a term is the term's function of its parameters, scaled by its height: nan for nan, "
     "the limits at infinities, parameters at infinity as open shoulders, the vertices and degenerate parameters as "
     "documented. Terms over the engine's inputs (Linear, Function) use the inputs' current values. Sampling a term "
     "answers its memberships at equal steps. Ramps, sigmoids and binary terms tell where they grow. Copies compute the same.",
     ["inputs", "configurations"],
     "all classes of terms, all valid parameters and heights, all values (vertices, midpoints, infinities, nan)",
     "Tests pick some parameters and ten values per class.", ["src/term"],
     [("membership", "src/term/*.cpp: membership"), ("sampling", "src/term/Discrete.cpp: discretize"),
      ("terms of inputs", "src/term/Linear.cpp, src/term/Function.cpp")],
     ["Term::membership, Discrete::discretize"], "Rat, Terms, Parts",
     "Random parameters of every class; values at and around the parameters. Curves are compared to about three digits.")

prop("T02", "Parameters of terms are written and read",
     "Configuring a term from text takes the parameters in their order and an optional height, or raises an error when "
     "there are too few or a number is malformed; the text of a term's parameters, read by another term of its class, "
     "yields the same term to the configured decimals. Setting parameters one by one makes the same term. The points of a "
     "discrete term are the numbers in pairs, kept, sorted and printed so; a missing last number raises an error or is "
     "the one given.",
     ["inputs"], "all classes of terms, parameters, heights and decimals; all texts with malformed, missing and extra numbers",
     "Tests configure one text per class.", ["src/term"],
     [("reading", "src/term/*.cpp: configure"), ("writing", "src/term/*.cpp: parameters")],
     ["Term::configure, Term::parameters and the parameters afterwards"], "Config, Text, Parts",
     "Random terms and texts of every class.")

prop("T03", "Inverses of monotonic terms",
     "Exactly the monotonic classes of terms say so and answer Term::tsukamoto; for every degree up to the height the value "
     "answered is the inverse of the membership function: its membership is the degree again. The others raise an error.",
     ["inputs"], "all classes of terms, all parameters, heights and degrees",
     "Tests compare a few inverses with fixed numbers.", ["src/term"],
     [("inverse", "src/term/{Ramp,Sigmoid,SShape,ZShape,Concave}.cpp: tsukamoto")],
     ["Term::isMonotonic, Term::tsukamoto, membership of the answer"], "Terms, Parts",
     "Random parameters; each inverse is compared with the model's and by the membership it leads back to.")

prop("F01", "Formulas mean what they say",
     "A formula text is parsed by the precedence and associativity of its operators, or raises an error when it is "
     "malformed; its postfix form, its tree in prefix, infix and postfix notation, and its value over all "
     "variables are those of the formula. In a term, x is the point asked for, and the other variables "
     "are those of the engine (outputs before inputs) and then the term's own. Unknown variables raise errors. Copies compute the same, and a term given another formula, engine or variables computes with the last ones.",
     ["programs", "inputs"], "all formulas over the registered operators and functions, in all spacings; all values of their "
     "variables; single faults anywhere", "Tests evaluate some twenty formulas.",
     ["src/term/Function.cpp", "src/factory/FunctionFactory.cpp"],
     [("parsing", "src/term/Function.cpp: toPostfix, parse"), ("evaluation", "src/term/Function.cpp: Node::evaluate"),
      ("notations", "src/term/Function.cpp: Node::toPrefix, toInfix, toPostfix"),
      ("operators and functions", "src/factory/FunctionFactory.cpp")],
     ["Function::toPostfix, parse, evaluate, membership"], "Formula, FormulaText, Parts",
     "Random formulas (arithmetic, comparisons, logic, elementary functions) and spoilt ones; values exact on binary fractions.")

prop("E12", "Readiness tells whether an engine can be evaluated",
     "An engine says it is ready exactly when it has input variables, output variables with terms and defuzzifiers, "
     "rule blocks with rules, and every operator its rules and defuzzifiers need; otherwise its status names exactly what is "
     "missing, with the number of rules that need it. Evaluating an engine that is ready raises no error. Asking changes nothing.",
     ["configurations", "histories"],
     "all engines with any parts missing, after all histories of changing operators, defuzzifiers, rules and flags",
     "Tests ask a handful of engines.", ["src/Engine.cpp"],
     [("readiness", "src/Engine.cpp: Engine::isReady")], ["Engine::isReady and its status; Engine::process"], "Infer, EngineTrace",
     "Random engines with missing parts and operators, asked after random histories.")

prop("E13", "The kind of inference follows from the configuration",
     "Engine::type answers Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, inverse Tsukamoto, hybrid or unknown as the "
     "defuzzifiers, their types, the terms of the outputs and the implications of the rule blocks imply. Asking changes "
     "nothing.", ["configurations", "histories"],
     "all engines with any mix of defuzzifiers, terms and implications, after all histories of changing them",
     "Tests ask the shipped examples.", ["src/Engine.cpp", "src/defuzzifier"],
     [("kind of inference", "src/Engine.cpp: Engine::type"), ("kind of terms", "src/defuzzifier/WeightedDefuzzifier.cpp: inferType")],
     ["Engine::type"], "Infer, EngineTrace",
     "Random engines whose defuzzifiers, types and implications change at random.")

prop("E14", "Copies of components make up an equal engine of their own",
     "Copies of all variables and rule blocks of an engine (cloned, copied, assigned over other components, or rebuilt "
     "through setters from copies of terms, operators and rules), put into a new engine, are an engine with the same "
     "configuration, values, previous values and fuzzy outputs. Copies of rules keep text, weight and flag and are not "
     "loaded; loading them binds them to the new engine. The copies keep nothing of what they replaced, share nothing with "
     "their source, and outlive it.",
     ["histories", "configurations"],
     "all engines and states, all ways of copying their components and adding, inserting or setting them, all histories "
     "of both engines afterwards, incl. destruction",
     "Tests construct most components once and never copy or assign single ones in an evaluated engine.",
     ["src/variable", "src/rule", "src/term", "src/Engine.cpp"],
     [("copying outputs", "src/variable/OutputVariable.cpp: OutputVariable::operator="),
      ("copying variables", "src/variable/Variable.cpp: Variable::operator="),
      ("copying blocks", "src/rule/RuleBlock.cpp: RuleBlock::operator="),
      ("copying rules", "src/rule/Rule.cpp: Rule::operator="), ("constructing an engine", "src/Engine.cpp: Engine::Engine")],
     ["state of all engines after every operation on any of them", "exported text and configuration of the new engine"],
     "EngineTrace (world of engines), Engine.Assembled",
     "Five ways to copy and to put together; random worlds of up to three engines.")

prop("X05", "Datasets tabulate the engine over the inputs asked for",
     "A FuzzyLite Dataset has a line per combination of equally distributed values of the active inputs (as many per "
     "variable as asked for, or as many as fit into the number for all), or per row of values read, in order, with the values "
     "of the inputs and those an evaluation yields for the outputs. Comments and a header are skipped, blank lines kept; "
     "malformed or too few values, or a wrong number of active variables, raise an error. The engine is left as those "
     "evaluations leave it. Writing as text, to a stream or to a file agrees.",
     ["inputs", "configurations", "histories"],
     "all engines in all states, numbers of values, scopes, sets of active variables, texts of values, separators, decimals, "
     "and which columns are written",
     "Tests count lines of a few datasets, and compare two ways to write one.",
     ["src/imex/FldExporter.cpp", "fuzzylite/Operation.h"],
     [("values of the inputs", "src/imex/FldExporter.cpp: write(Engine*, std::ostream&, int, ScopeOfValues, ...)"),
      ("values read", "src/imex/FldExporter.cpp: toString, toFile, write(Engine*, std::ostream&, std::istream&), parse"),
      ("a row", "src/imex/FldExporter.cpp: write(Engine*, std::ostream&, const std::vector<scalar>&, ...)")],
     ["the dataset's text", "error", "state of the engine afterwards, compared with a copy evaluated row by row"],
     "Dataset, EngineTrace",
     "Random engines; a copy is evaluated on the planned rows under the model of evaluation, and the table has to say what the copy yields.")

prop("X06", "Exported programs build the engine they were written from",
     "The C++ and Java code of an engine consists of the documented statements, in order, for each of its components, with "
     "identifiers by position or name, qualified on request, texts quoted, and numbers to the configured decimals. The C++ "
     "code compiles, and builds an engine with the same configuration (up to those decimals) that behaves alike. The R "
     "script holds the engine in FLL, a dataset over the two inputs as the engine evaluates, and plots of the outputs asked for.",
     ["inputs", "configurations", "histories"],
     "all engines whose rules are well formed (for compiling; linear terms in outputs), "
     "all options of the exporters, decimals, and texts with quotes, backslashes and line breaks (C++ and Java)",
     "Tests compare the code of a single engine; no exported program is ever compiled.",
     ["src/imex/CppExporter.cpp", "src/imex/JavaExporter.cpp", "src/imex/RScriptExporter.cpp"],
     [("statements", "src/imex/CppExporter.cpp, src/imex/JavaExporter.cpp: toString"),
      ("scripts", "src/imex/RScriptExporter.cpp: toString, toFile, writeScriptHeader, writeScriptPlots, writeScriptImportingDataFrame")],
     ["text of the code", "configuration and evaluations of the engine that the compiled code builds", "text of the script"],
     "Code, EngineTrace",
     "Programs of random engines are compiled and linked to the driver; the engines they build are compared and evaluated beside their sources.")

prop("B01", "Benchmarks measure what they say",
     "Preparing a benchmark yields the combinations of equally distributed inputs, or the rows read (up to the number of "
     "lines). Running restarts the engine and yields the inputs and the outputs of each row, one time per run; rows with too few "
     "values raise an error. Errors, by kind and in total or per output, are those that differ by at least the tolerance; the "
     "mean squared error is over those. Results list counts, errors, and times in the requested unit under their "
     "names, and tables lay them out.",
     ["inputs", "configurations", "histories"],
     "all engines in all states, expected rows, tolerances, numbers of runs, units, outputs, and layouts of the table",
     "Tests check a few formats and one controller whose errors are zero.",
     ["src/Benchmark.cpp", "fuzzylite/Operation.h"],
     [("preparing", "src/Benchmark.cpp: Benchmark::prepare"), ("running", "src/Benchmark.cpp: Benchmark::run"),
      ("errors", "src/Benchmark.cpp: meanSquaredError, numberOfErrors"),
      ("results", "src/Benchmark.cpp: results, header, format, convert, stringOf")],
     ["expected and obtained values", "numbers of errors, mean squared errors", "names and values of results, tables",
      "state of the engine afterwards, compared with a copy evaluated row by row"], "Dataset, EngineTrace",
     "Random engines, rows and deviations; a copy is evaluated on the rows under the model of evaluation.")

prop("V01", "Fuzzy values list the terms with their degrees",
     "Fuzzifying lists every term of a variable, in order, with its membership of the value (nan where not computable), as "
     "activations and as text; the highest membership is the first largest positive one, or none. The fuzzy value of an output lists all "
     "its terms with their accumulated degrees. The activations of an aggregated output, its degrees per term, groups, maxima and text "
     "are those of what was added; removing answers the activation removed. Sorting orders terms by their centroids.",
     ["inputs", "configurations"],
     "all variables, terms, values, and sequences of activations with any degrees, implications and aggregations",
     "Tests compare the texts of a few variables.",
     ["src/variable/Variable.cpp", "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp", "src/term/Activated.cpp"],
     [("fuzzifying", "src/variable/Variable.cpp: fuzzify, highestMemberships, highestMembership, sort"),
      ("fuzzy output", "src/variable/OutputVariable.cpp: fuzzyOutputValue"),
      ("aggregation", "src/term/Aggregated.cpp: activationDegree, groupTerms, maximallyActivatedTerm, removeTerm, toString"),
      ("activation", "src/term/Activated.cpp: toString, fuzzyValue")],
     ["Variable::fuzzify, highestMembership(s), sort", "OutputVariable::fuzzyOutputValue", "Aggregated, Activated"],
     "Values, Parts",
     "Random variables, values and activations; texts of sums of degrees judged where floating point is exact.")

prop("C01", "Collections of variables, terms and rules behave as sequences",
     "Inputs, outputs and rule blocks of an engine, terms of a variable and rules of a block are sequences: adding, inserting, "
     "setting, removing and assigning have their usual effects on order and count and answer what was removed. Lookups by index or name answer the "
     "element, the first of that name; unknown names raise an error and change nothing. Setting a value by name goes to the first "
     "input of that name. The variables of an engine are its inputs, then its outputs.",
     ["histories", "inputs"],
     "all histories of adding, inserting, setting, removing, assigning and looking up elements with any, also repeated, names",
     "Tests add and remove a few elements.",
     ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp"],
     [("variables and blocks", "src/Engine.cpp: add*, insert*, set*, get*, has*, remove*, numberOf*, variables"),
      ("terms", "src/variable/Variable.cpp: addTerm, insertTerm, getTerm, hasTerm, removeTerm, setTerms"),
      ("rules", "src/rule/RuleBlock.cpp: addRule, insertRule, getRule, removeRule, setRules")],
     ["Engine, Variable and RuleBlock after every action"], "Collections, CollGraph",
     "All short histories on a small collection (TLC enumerates them) and random long ones.")

prop("C02", "Factories construct exactly what is registered",
     "A factory constructs an object of the class registered under a key, none for the empty key when registered, and "
     "raises an error for keys that are not registered. It lists its keys in order; registering and deregistering change only that key; copies "
     "of factories are independent; importers construct what the factories of the manager have then. Defuzzifiers take the resolution or type asked for. Operators and functions of formulas are "
     "cloned with their arity, precedence and associativity.",
     ["histories", "inputs"],
     "all factories after all histories of registering, deregistering, constructing and copying",
     "Tests construct the shipped classes.",
     ["src/factory", "fuzzylite/factory"],
     [("constructing", "fuzzylite/factory/ConstructionFactory.h: constructObject, registerConstructor, deregisterConstructor, available"),
      ("cloning", "fuzzylite/factory/CloningFactory.h"), ("defuzzifiers", "src/factory/DefuzzifierFactory.cpp: constructDefuzzifier"),
      ("functions", "src/factory/FunctionFactory.cpp"), ("all", "src/factory/FactoryManager.cpp")],
     ["the factories' keys and what they construct after every action"], "Collections",
     "Every shipped class of every factory, and random histories of registering on copies.")

prop("K01", "The command-line tool does what its parameters ask for",
     "A run converts the input file, or built-in example, into the output in the formats given by options or file extensions, exactly as "
     "the library would: the engine as text, or its dataset with the decimals, columns, header, data file, values and scope asked "
     "for. Unusable parameters, files or texts make it fail, so its exit status says. The interactive console evaluates the inputs "
     "typed, keeping those left out, shows the outputs and obeys its keys as its help says. Benchmarks have a row per engine. "
     "Exporting the examples writes each of them in every format.",
     ["inputs", "histories"],
     "all parameters (in any order, repeated, malformed), files, engines in all formats, and sequences of keys typed",
     "No test runs the tool.",
     ["src/Console.cpp", "src/main.cpp"],
     [("parameters", "src/Console.cpp: parse, process, main"), ("interactive", "src/Console.cpp: interactive, readCharacter"),
      ("benchmarks", "src/Console.cpp: benchmark, benchmarks"), ("examples", "src/Console.cpp: mamdani, takagiSugeno"),
      ("exit status", "src/main.cpp: main")],
     ["exit status", "files and standard output written by the built tool"], "Console",
     "Random command lines with single faults, and random sequences of keys; run as a process in a folder of its own.")

prop("O01", "Operations on numbers and texts do what they document",
     "Comparisons are consistent with each other, within the tolerance, also for nan and infinities; min, max, bound, rounding, "
     "remainders, scaling, midpoints, counters and statistics yield the values defined. Splitting, joining, trimming, replacing and "
     "formatting texts are exact; valid names keep only valid characters. Numbers are read from whole texts only, else an error, or the "
     "alternative; numbers are written with the decimals asked for.",
     ["inputs"],
     "all numbers (also nan and infinities), tolerances, samples, counters, texts, delimiters, replacements and decimals",
     "Tests sample a few texts and numbers.",
     ["fuzzylite/Operation.h"],
     [("comparisons", "fuzzylite/Operation.h: isLt, isLE, isEq, isGt, isGE, isClose, in, lt, le, eq, neq, gt, ge"),
      ("numbers", "fuzzylite/Operation.h: min, max, bound, scale, midpoints, modulo, round, increment"),
      ("samples", "fuzzylite/Operation.h: sum, mean, variance, standardDeviation"),
      ("texts", "fuzzylite/Operation.h: split, join, trim, format, findReplace, validName, str, toScalar, toScalars")],
     ["what each operation answers"], "Utilities",
     "Random numbers near tolerances and texts over small alphabets; ties of rounding only where floating point is exact.")
