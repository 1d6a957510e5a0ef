From 9c99613fd779aa657bb2712da12904425882d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 01/18] fix: copy the loaded state, enablement and weight of
 rules when copying an engine

---
 src/Engine.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..e716bcb 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -93,11 +93,21 @@ namespace fuzzylite {
         updateReferences();
 
         for (std::size_t i = 0; i < other._ruleBlocks.size(); ++i) {
-            RuleBlock* ruleBlock = new RuleBlock(*other._ruleBlocks.at(i));
-            try {
-                ruleBlock->loadRules(this);
-            } catch (...) {
-                // ignore
+            const RuleBlock* source = other._ruleBlocks.at(i);
+            RuleBlock* ruleBlock = new RuleBlock(*source);
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* sourceRule = source->getRule(r);
+                if (not sourceRule->isLoaded())
+                    continue;
+                Rule* rule = ruleBlock->getRule(r);
+                try {
+                    rule->load(this);
+                } catch (...) {
+                    // ignore
+                }
+                // loading enables the rule and sets the weight in its text
+                rule->setEnabled(sourceRule->isEnabled());
+                rule->setWeight(sourceRule->getWeight());
             }
             _ruleBlocks.push_back(ruleBlock);
         }
-- 
2.43.0


From 3868c7ed9ed2b861027ae8c23dce682b8c558530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 02/18] fix: let the fuzzy output of a copied engine refer to
 the copy's own terms and operators

---
 src/Engine.cpp                  | 11 +++++++++++
 src/variable/OutputVariable.cpp | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index e716bcb..e0266f1 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -110,6 +110,17 @@ namespace fuzzylite {
                 rule->setWeight(sourceRule->getWeight());
             }
             _ruleBlocks.push_back(ruleBlock);
+
+            // the activated terms of the copy refer to the implication operators of the copy
+            if (not source->getImplication())
+                continue;
+            for (std::size_t o = 0; o < _outputVariables.size(); ++o) {
+                std::vector<Activated>& activated = _outputVariables.at(o)->fuzzyOutput()->terms();
+                for (std::size_t t = 0; t < activated.size(); ++t) {
+                    if (activated.at(t).getImplication() == source->getImplication())
+                        activated.at(t).setImplication(ruleBlock->getImplication());
+                }
+            }
         }
     }
 
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..3654f8b 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,16 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms of the copy refer to the terms of the copy
+        for (std::size_t i = 0; i < _fuzzyOutput->numberOfTerms(); ++i) {
+            Activated& activated = _fuzzyOutput->terms().at(i);
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t) {
+                if (activated.getTerm() == other.getTerm(t)) {
+                    activated.setTerm(getTerm(t));
+                    break;
+                }
+            }
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From 1c7547a4ddd8ec540ff9c06a52c472a52f046a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 03/18] fix: keep the text after the first replacement in
 Op::findReplace, and do not loop on an empty string to find

---
 fuzzylite/Operation.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..cea9acd 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,15 +844,16 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
-        std::size_t fromIndex = 0, nextIndex;
-        do {
-            nextIndex = str.find(find, fromIndex);
-            result << str.substr(fromIndex, nextIndex - fromIndex);
-            if (nextIndex != std::string::npos)
-                result << replace;
+        std::size_t fromIndex = 0, nextIndex = str.find(find);
+        while (nextIndex != std::string::npos) {
+            result << str.substr(fromIndex, nextIndex - fromIndex) << replace;
             fromIndex = nextIndex + find.size();
-        } while (replaceAll and nextIndex != std::string::npos);
+            nextIndex = replaceAll ? str.find(find, fromIndex) : std::string::npos;
+        }
+        result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 9c3861097b2fa520514d3ccb460f8a4bfc781bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 04/18] fix: let Op::validName return a name even if no
 character of the given name is valid

---
 fuzzylite/Operation.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index cea9acd..4104c98 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -830,15 +830,13 @@ namespace fuzzylite {
     // Text Operations:
 
     inline std::string Operation::validName(const std::string& name) {
-        if (trim(name).empty())
-            return "_";
-        std::ostringstream ss;
+        std::string result;
         for (std::size_t i = 0; i < name.length(); ++i) {
             char c = name[i];
             if (c == '_' or c == '.' or isalnum(c))
-                ss << c;
+                result += c;
         }
-        return ss.str();
+        return result.empty() ? "_" : result;
     }
 
     inline std::string Operation::findReplace(
-- 
2.43.0


From a0798bb9acfc6917686eb581ea717b82b11f2bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 05/18] fix: close the quotation of the class of Binary terms
 in FIS

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 711c9af..5ce2e52 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -337,7 +337,7 @@ namespace fuzzylite {
         }
 
         if (const Binary* x = dynamic_cast<const Binary*>(term)) {
-            ss << "'binarymf,[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
+            ss << "'binarymf',[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
             return ss.str();
         }
 
-- 
2.43.0


From dc78e1bc40b0201f4460097228a60509a27c1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 06/18] fix: keep equals signs in the values of the system
 section when importing FIS

---
 src/imex/FisImporter.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..b49978a 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -99,13 +99,12 @@ namespace fuzzylite {
         std::string line;
         std::getline(reader, line);  // ignore first line [System]
         while (std::getline(reader, line)) {
-            std::vector<std::string> keyValue = Op::split(line, "=");
+            std::size_t equals = line.find('=');
 
-            std::string key = Op::trim(keyValue.at(0));
+            std::string key = Op::trim(line.substr(0, equals));
             std::string value;
-            for (std::size_t i = 1; i < keyValue.size(); ++i)
-                value += keyValue.at(i);
-            value = Op::trim(value);
+            if (equals != std::string::npos)
+                value = Op::trim(line.substr(equals + 1));
             if (key == "Name")
                 engine->setName(value);
             else if (key == "AndMethod")
-- 
2.43.0


From 7eb6e7ab15d800a378518258ddf5d58c2613c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 07/18] fix: see conjunctions and disjunctions next to
 parentheses when checking whether an engine is ready

---
 src/Engine.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index e0266f1..7333a90 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -258,12 +258,16 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        bool hasAnd = false, hasOr = false;
+                        std::istringstream tokenizer(Function().space(rule->getText()));
+                        std::string token;
+                        while (tokenizer >> token and token != Rule::thenKeyword()) {
+                            hasAnd = hasAnd or token == Rule::andKeyword();
+                            hasOr = hasOr or token == Rule::orKeyword();
+                        }
+                        if (hasAnd)
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (hasOr)
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From a68b9761494f08b9c24789ac4e965ab23be66627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 08/18] fix: generate as many values for all variables as
 requested when their root is an integer

---
 src/Benchmark.cpp        | 7 +++++--
 src/imex/FldExporter.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..b7efc41 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -91,9 +91,12 @@ namespace fuzzylite {
         if (not _engine)
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
-        if (scope == FldExporter::AllVariables)
+        if (scope == FldExporter::AllVariables) {
             resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+            // the root may fall just short of an integer (eg, the cube root of 64)
+            if (std::pow(resolution + 2.0, 1.0 * _engine->numberOfInputVariables()) <= values)
+                ++resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..cc34273 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,9 +209,12 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
+        if (scope == AllVariables) {
             resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+            // the root may fall just short of an integer (eg, the cube root of 64)
+            if (std::pow(resolution + 2.0, 1.0 * engine->numberOfInputVariables()) <= values)
+                ++resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 528aeed0842e6a70bb43dbc56a3f72541c50e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 09/18] fix: convert the times of the runs to the requested
 unit in the results of a benchmark

---
 src/Benchmark.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index b7efc41..a9b2cc3 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -416,9 +416,10 @@ namespace fuzzylite {
 
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
-                result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
-                );
+                result.push_back(Result(
+                    "t" + Op::str(i + 1),
+                    Op::str(convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals())
+                ));
             }
         }
         return result;
-- 
2.43.0


From 4921375a6b076ea7367d7d3584c6e22095f7ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 10/18] fix: Aggregated::removeTerm returned a reference to the
 removed element

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From 7c4a99dd79f2294406c5cdb63d4adde0f592ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 11/18] fix: qualify weighted defuzzifiers and non-finite
 numbers in C++ code exported with namespace prefix

---
 src/imex/CppExporter.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..b3c0941 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -176,6 +176,13 @@ namespace fuzzylite {
         return Op::str(value);
     }
 
+    // qualifies the numbers that are not finite
+    static std::string numbers(const std::string& values, bool isUsingNamespace) {
+        if (not isUsingNamespace)
+            return values;
+        return Op::replaceAll(Op::replaceAll(values, "nan", "fl::nan"), "inf", "fl::inf");
+    }
+
     std::string CppExporter::toString(const Term* term) const {
         if (not term)
             return "fl::null";
@@ -184,7 +191,7 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << ", " << numbers(Op::join(Discrete::toVector(discrete->xy()), ", "), isUsingNamespace()) << ")";
             return ss.str();
         }
 
@@ -198,13 +205,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << numbers(Op::join(linear->coefficients(), ", "), isUsingNamespace()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << numbers(Op::findReplace(term->parameters(), " ", ", "), isUsingNamespace()) << ")";
         return ss.str();
     }
 
@@ -238,7 +245,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From c91b34253da9a74e000668ec2b43aa33f186179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 12/18] fix: name non-finite parameters of terms as Java does
 in exported Java code

---
 src/imex/JavaExporter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..fe5236c 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -150,6 +150,13 @@ namespace fuzzylite {
         return ss.str();
     }
 
+    // names the numbers that are not finite
+    static std::string numbers(const std::string& values) {
+        std::string result = Op::replaceAll(values, "nan", "Double.NaN");
+        result = Op::replaceAll(result, "-inf", "Double.NEGATIVE_INFINITY");
+        return Op::replaceAll(result, "inf", "Double.POSITIVE_INFINITY");
+    }
+
     std::string JavaExporter::toString(const Term* term) const {
         if (not term)
             return "null";
@@ -158,7 +165,7 @@ namespace fuzzylite {
             std::ostringstream ss;
             std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << numbers(Op::join(Discrete::toVector(discrete->xy()), ", ")) << ")";
             return ss.str();
         }
 
@@ -172,13 +179,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << numbers(Op::join(linear->coefficients(), ", ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << term->className() << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << numbers(Op::findReplace(term->parameters(), " ", ", ")) << ")";
         return ss.str();
     }
 
-- 
2.43.0


From 1fdda8d0b598867357640d4c812df7a75618c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 13/18] fix: escape texts in exported C++ and Java code

---
 src/imex/CppExporter.cpp  | 33 ++++++++++++++++++++-------------
 src/imex/JavaExporter.cpp | 33 ++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index b3c0941..b860e94 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -52,14 +52,21 @@ namespace fuzzylite {
         return this->_usingVariableNames;
     }
 
+    // the text as written between quotes
+    static std::string escaped(const std::string& text) {
+        std::string result = Op::replaceAll(text, "\\", "\\\\");
+        result = Op::replaceAll(result, "\"", "\\\"");
+        return Op::replaceAll(result, "\n", "\\n");
+    }
+
     std::string CppExporter::toString(const Engine* engine) const {
         std::ostringstream cpp;
         cpp << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(\"" << escaped(engine->getName()) << "\");\n";
+        cpp << "engine->setDescription(\"" << escaped(engine->getDescription()) << "\");\n";
 
         cpp << "\n";
 
@@ -91,8 +98,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(\"" << escaped(inputVariable->getName()) << "\");\n";
+        ss << name << "->setDescription(\"" << escaped(inputVariable->getDescription()) << "\");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -119,8 +126,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(\"" << escaped(outputVariable->getName()) << "\");\n";
+        ss << name << "->setDescription(\"" << escaped(outputVariable->getDescription()) << "\");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -153,15 +160,15 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(\"" << escaped(ruleBlock->getName()) << "\");\n";
+        ss << name << "->setDescription(\"" << escaped(ruleBlock->getDescription()) << "\");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
+            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << escaped(ruleBlock->getRule(r)->getText())
                << "\", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
@@ -190,27 +197,27 @@ namespace fuzzylite {
         // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
+            ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << (discrete->xy().size() * 2)
                << ", " << numbers(Op::join(Discrete::toVector(discrete->xy()), ", "), isUsingNamespace()) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
+            ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << "\"" << escaped(function->getFormula())
                << "\", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << "engine, "
                << numbers(Op::join(linear->coefficients(), ", "), isUsingNamespace()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
+        ss << "new " << fl(term->className()) << "(\"" << escaped(term->getName()) << "\", "
            << numbers(Op::findReplace(term->parameters(), " ", ", "), isUsingNamespace()) << ")";
         return ss.str();
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index fe5236c..624bdcb 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -37,12 +37,19 @@ namespace fuzzylite {
         return this->_usingVariableNames;
     }
 
+    // the text as written between quotes
+    static std::string escaped(const std::string& text) {
+        std::string result = Op::replaceAll(text, "\\", "\\\\");
+        result = Op::replaceAll(result, "\"", "\\\"");
+        return Op::replaceAll(result, "\n", "\\n");
+    }
+
     std::string JavaExporter::toString(const Engine* engine) const {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(\"" << escaped(engine->getName()) << "\");\n";
+        ss << "engine.setDescription(\"" << escaped(engine->getDescription()) << "\");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -73,8 +80,8 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(\"" << escaped(inputVariable->getName()) << "\");\n";
+        ss << name << ".setDescription(\"" << escaped(inputVariable->getDescription()) << "\");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -101,8 +108,8 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(\"" << escaped(outputVariable->getName()) << "\");\n";
+        ss << name << ".setDescription(\"" << escaped(outputVariable->getDescription()) << "\");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -135,8 +142,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(\"" << escaped(ruleBlock->getName()) << "\");\n";
+        ss << name << ".setDescription(\"" << escaped(ruleBlock->getDescription()) << "\");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -144,7 +151,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(\"" << escaped(rule->getText()) << "\", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -164,27 +171,27 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             std::vector<scalar> xy;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
+            ss << term->className() << ".create(\"" << escaped(term->getName()) << "\", "
                << numbers(Op::join(Discrete::toVector(discrete->xy()), ", ")) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
+            ss << term->className() << ".create(\"" << escaped(term->getName()) << "\", " << "\"" << escaped(function->getFormula())
                << "\", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(\"" << escaped(term->getName()) << "\", " << "engine, "
                << numbers(Op::join(linear->coefficients(), ", ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
+        ss << "new " << term->className() << "(\"" << escaped(term->getName()) << "\", "
            << numbers(Op::findReplace(term->parameters(), " ", ", ")) << ")";
         return ss.str();
     }
-- 
2.43.0


From efe4fd3fc66be1ba2516d125ea13b00da2250918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 14/18] fix: export heights of discrete terms in C++ and
 non-finite numbers of terms and activation methods

---
 src/imex/CppExporter.cpp  | 18 +++++++++---------
 src/imex/JavaExporter.cpp |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index b860e94..b53b34c 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -184,9 +184,7 @@ namespace fuzzylite {
     }
 
     // qualifies the numbers that are not finite
-    static std::string numbers(const std::string& values, bool isUsingNamespace) {
-        if (not isUsingNamespace)
-            return values;
+    static std::string numbers(const std::string& values) {
         return Op::replaceAll(Op::replaceAll(values, "nan", "fl::nan"), "inf", "fl::inf");
     }
 
@@ -194,11 +192,13 @@ namespace fuzzylite {
         if (not term)
             return "fl::null";
 
-        // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+            std::vector<scalar> xy = Discrete::toVector(discrete->xy());
+            if (not Op::isEq(discrete->getHeight(), 1.0))
+                xy.push_back(discrete->getHeight());
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << (discrete->xy().size() * 2)
-               << ", " << numbers(Op::join(Discrete::toVector(discrete->xy()), ", "), isUsingNamespace()) << ")";
+            ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << xy.size() << ", "
+               << numbers(Op::join(xy, ", ")) << ")";
             return ss.str();
         }
 
@@ -212,13 +212,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << "engine, "
-               << numbers(Op::join(linear->coefficients(), ", "), isUsingNamespace()) << ")";
+               << numbers(Op::join(linear->coefficients(), ", ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << fl(term->className()) << "(\"" << escaped(term->getName()) << "\", "
-           << numbers(Op::findReplace(term->parameters(), " ", ", "), isUsingNamespace()) << ")";
+           << numbers(Op::findReplace(term->parameters(), " ", ", ")) << ")";
         return ss.str();
     }
 
@@ -266,7 +266,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? numbers(parameter) : ("\"" + parameter + "\""));
         }
         return "new " + fl(activation->className()) + "(" + Op::join(values, ", ") + ")";
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 624bdcb..15ff97e 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -225,7 +225,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? numbers(parameter) : ("\"" + parameter + "\""));
         }
         return "new " + activation->className() + "(" + Op::join(values, ", ") + ")";
     }
-- 
2.43.0


From 92904c25f3a9a34e4ee502e308a637cb925674e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 15/18] fix: the command-line tool exits with failure when it
 fails

Console::main answers whether it succeeded, which main() ignored.
---
 src/main.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index d93fa6a..5cfdf92 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,10 +34,9 @@ int main(int argc, const char* argv[]) {
     fl::fuzzylite::setDebugging(false);
 
     try {
-        fl::Console::main(argc, argv);
+        return fl::Console::main(argc, argv);
     } catch (std::exception& ex) {
         std::cout << ex.what() << "\nBACKTRACE:\n" << fl::Exception::btCallStack() << std::endl;
         return EXIT_FAILURE;
     }
-    return EXIT_SUCCESS;
 }
-- 
2.43.0


From aaa631d309949b91007e3546450b12eb6e6ea183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 16/18] fix: restarting in the interactive console discards
 current inputs

as its help says; the inputs typed before were kept and used.
---
 src/Console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..d9e75ff 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -398,7 +398,7 @@ namespace fuzzylite {
                 case 'R':
                     engine->restart();
                     buffer << "#[Restart]";
-                    continue;  // fall through
+                    // fall through
                 case 'd':
                 case 'D':
                     inputValues.clear();
-- 
2.43.0


From 41915b376fbbeb47494ab6958878292553de42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 17/18] fix: the interactive console defuzzifies outputs once

Engine::process defuzzifies them; doing it again changes values of outputs
that refer to outputs, and previous values.
---
 src/Console.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index d9e75ff..e37af3a 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -429,7 +429,6 @@ namespace fuzzylite {
                         std::vector<scalar> outputValues;
                         for (std::size_t i = 0; i < engine->outputVariables().size(); ++i) {
                             OutputVariable* outputVariable = engine->outputVariables().at(i);
-                            outputVariable->defuzzify();
                             outputValues.push_back(outputVariable->getValue());
                         }
                         buffer << Op::join(outputValues, space) << "\n>";
-- 
2.43.0


From a714541f3c6d082159a11cd0d2cca5e365d4049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 18/18] fix: export linear terms with any number of
 coefficients as code that compiles

---
 src/imex/CppExporter.cpp  | 7 +++++++
 src/imex/JavaExporter.cpp | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index b53b34c..7cdbde7 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -211,6 +211,13 @@ namespace fuzzylite {
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
+            // Linear::create takes exactly one coefficient per input variable and the constant
+            if (linear->getEngine()
+                and linear->coefficients().size() != linear->getEngine()->numberOfInputVariables() + 1) {
+                ss << "new " << fl(term->className()) << "(\"" << escaped(term->getName()) << "\", " << fl("Op")
+                   << "::toScalars(\"" << Op::join(linear->coefficients(), " ") << "\"), engine)";
+                return ss.str();
+            }
             ss << fl(term->className()) << "::create(\"" << escaped(term->getName()) << "\", " << "engine, "
                << numbers(Op::join(linear->coefficients(), ", ")) << ")";
             return ss.str();
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 15ff97e..9525233 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -185,8 +185,10 @@ namespace fuzzylite {
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << escaped(term->getName()) << "\", " << "engine, "
-               << numbers(Op::join(linear->coefficients(), ", ")) << ")";
+            ss << term->className() << ".create(\"" << escaped(term->getName()) << "\", " << "engine";
+            if (not linear->coefficients().empty())
+                ss << ", " << numbers(Op::join(linear->coefficients(), ", "));
+            ss << ")";
             return ss.str();
         }
 
-- 
2.43.0

