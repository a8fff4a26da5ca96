#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": m.strip()} for m in mechanism.split(";")]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing any text is total and memory-safe",
 "Handing any byte string to the parser ends either with a task or with a reported rejection: it never crashes, hangs, throws, or reads or writes memory it does not own or has not initialised, whatever the length of its tokens and the number of its parts. The task it returns can be printed, inspected and released with the same safety.",
 ["inputs"], "all byte strings: valid Narsese, mutated Narsese, token soup, raw bytes, long tokens, wide and deep terms, numbers of any magnitude",
 "The existing tests parse the well-formed examples once, without instrumentation; they reach no malformed text, no long token, no deep nesting and would not notice an out-of-bounds read.",
 ["Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.h", "Narsese/Parser/Parser.cpp", "Narsese/Parser/NarseseParser.cpp"],
 "table-driven LALR automaton with a growing lookahead buffer and parse stack; semantic actions over void* arguments",
 [("lookahead buffer", "characters read but not yet shifted"), ("parse stack", "open productions and their syntax nodes")])
prop("C02", "Everything a parse allocates is released again",
 "Once the task of an accepted text is dropped, or after a text is rejected, the parser and the term registry hold no more memory than before, and destroying the parser releases all it held. Memory in use is therefore bounded by the live tasks, not by the number of texts processed.",
 ["inputs", "histories"], "all accepted and rejected texts, all orders of keeping and dropping tasks, fresh and long-lived parsers",
 "No test measures memory, and leaks of single syntax nodes or argument values change no output.",
 ["Narsese/Parser/Parser.cpp", "Narsese/Parser/NarseseParser.cpp", "Narsese/Parser/narsese.cpp", "Narsese/include/Term.inl", "Interpreter/include/Interpreter.hpp"],
 "semantic actions own and pass on heap-allocated values; syntax trees are freed after transformation; reference-counted term handles",
 [("live heap blocks", "allocated and not yet freed")])
prop("C03", "A text is accepted exactly when it is grammatical, with its structure",
 "The parser accepts a text if and only if the Narsese grammar derives it (terminals taken by longest match among those valid at that point, blanks only between terminals), and the task it returns has the sentence type, term structure, tense, truth and budget the text denotes. Abbreviations (instance, property and instance-property copulas, infix and new-notation compounds, operations) denote the terms they abbreviate.",
 ["inputs"], "all texts: derivations of every production in every nesting, with any legal spacing, and near misses of them",
 "The tests only run the parser over example files and never look at the result or at what must be rejected.",
 ["Narsese/Parser/narsese.par", "Narsese/Parser/narsese.h", "Narsese/Parser/narsese.cpp", "Narsese/Parser/NarseseParser.cpp"],
 "LALR tables generated from the grammar; one semantic action per production")
prop("C04", "The meaning of a text does not depend on what was parsed before",
 "What a text is parsed to (acceptance, structure, variable numbering, values) depends only on the text: not on texts parsed before, accepted or rejected, not on the parser instance used, not on which tasks are still alive.",
 ["histories", "inputs"], "all sequences of accepted and rejected texts over several parser instances, with tasks kept alive or dropped at any point",
 "Each test parses from a fixed state; leftovers of a failed parse show only in particular sequences.",
 ["Narsese/Parser/NarseseParser.h", "Narsese/Parser/narsese.cpp", "Narsese/Parser/Parser.cpp"],
 "per-parse reset of automaton, buffers and variable name tables", [("variable name tables", "name to index, per kind and per parse")])
prop("C05", "A name denotes one atom for as long as the atom is in use",
 "While any handle or term using it is alive, a name denotes one and the same atomic term of its interpreter, and different names (a word and an operation of that word, too) denote different atoms; each atom is printed under its own name. When the last use goes, the name is forgotten, so the registry holds exactly the names in use; interpreters do not influence one another, and printing changes no registry. An entry put several times is released when it has been erased as often, or removed by key or name.",
 ["histories"], "all interleavings of creating, parsing, combining, copying, assigning, dropping and printing terms over any names, in the global and in local interpreters",
 "The tests never inspect the registry, and premature or missing release shows only for particular orders of handle destruction.",
 ["Interpreter/include/Interpreter.hpp", "Narsese/src/Term.cpp", "Narsese/include/Term.h", "Narsese/include/Term.inl", "Narsese/Parser/NarseseParser.cpp"],
 "registry from names to reference-counted handles; the last outside handle removes the entry",
 [("registry", "name, key and handle of every atom in use")])
prop("C06", "Compounds are built in normal form and lose or invent nothing",
 "Building a compound flattens nested compounds of the same reducible connector, treats the components of commutative connectors as a set, and merges extensional or intensional sets inside intersections by the corresponding set operation (keeping them when that would leave nothing); all other components stay, as a whole, and non-commutative ones in order. The result does not depend on the order, repetition or grouping in which commutative components are given.",
 ["inputs", "programs"], "all connectors, all component lists (with repetitions, nesting, sets of both kinds and variables), through the parser and the term constructors",
 "The tests build a handful of compounds and do not compare component sets; the order of components depends on heap addresses.",
 ["Narsese/src/Compound.cpp", "Narsese/include/Compound.h", "Narsese/include/Term.h", "Narsese/include/Connector.h"],
 "categorisation of components by connector, merging, and re-wrapping", [("component collection", "ordered list or set of components")])
prop("C07", "Printing a term, sentence or task and parsing it yields the same again",
 "The printed form of any parsed task (its budget, term, punctuation, tense and truth) is accepted by the parser and denotes a structurally identical task, to the precision printed; printing again gives the same form. Printing a term or sentence leaves it and the registry unchanged.",
 ["inputs"], "all printable tasks: every production, name, operation, interval, variable, tense, truth and budget, nested arbitrarily",
 "The tests print tasks but never read them back.",
 ["Interpreter/src/Interpreter.cpp", "Narsese/Parser/NarseseParser.cpp"],
 "recursive interpretation of terms; variables printed by prefix and index")
prop("C08", "Colored output is the plain output plus color",
 "For every term and sentence, the colored form with its terminal escape sequences removed equals the plain form character by character; a colored task shows the same budget numbers and the same sentence. Every color switched on is switched off again, and text from names is never interpreted as formatting.",
 ["inputs"], "all terms, sentences and tasks, with names made of any characters a name may contain",
 "The tests print colored output without looking at it, and for ordinary names only.",
 ["Interpreter/src/Interpreter.cpp"], "separate colored and plain branches of the interpreter")
prop("C09", "Term equality is structural and the term order is a strict weak order",
 "Two terms are equal exactly if they have the same structure (atoms by identity, variables by kind and number, commutative components in any order); the order used in term sets is irreflexive, asymmetric and transitive, and leaves two terms unordered only if they are equal. Term collections and their union, intersection and difference therefore behave as mathematical sets, and ordered collections as sequences; a set operation on nothing or on a sequence raises.",
 ["inputs"], "all pairs and triples of terms, including deep terms that differ in one place and terms with variables; all sequences of insertions",
 "The tests compare a few fixed terms; antisymmetry and transitivity quantify over pairs and triples.",
 ["Narsese/include/Term.inl", "Narsese/include/Term.h"], "hash comparison followed by structural comparison")
prop("C10", "Equal terms have equal, stable hashes that tell terms apart",
 "Terms that are equal have the same hash however they were made (parsed, constructed, cloned, components in another order), and the hash of a term does not change while it lives. Different structures get different hashes but for rare coincidences; connectors, copulas, order, kind of variable and every component count.",
 ["inputs", "histories"], "all terms and ways of building them; large populations of different terms",
 "A wrong hash shows as an occasional lost or duplicated set element, not in a fixed example.",
 ["utils/hash.h", "Narsese/include/Term.h", "Narsese/include/Statement.h", "Narsese/include/Compound.h", "Narsese/include/Variable.h", "Narsese/include/Interval.h"],
 "bottom-up hash combination, cached in the term")
prop("C11", "A term's derived attributes agree with its structure",
 "Each term's attributes (complexity; presence of each kind of variable; being a variable, an interval, an operation or higher order; commutativity) are those that follow from its structure: an atom counts one, a statement one more than its parts, a compound the sum of its components. This holds for parsed, constructed, merged and cloned terms alike.",
 ["inputs"], "all terms, however built",
 "The tests check no attribute of a nested term.",
 ["Narsese/include/Term.h", "Narsese/include/Statement.inl", "Narsese/src/Compound.cpp", "Narsese/include/Compound.inl", "Narsese/include/Variable.inl"],
 "attributes computed at construction and copied on cloning")
prop("C12", "Variables keep their identity and their positions within a term",
 "Within one task, occurrences of the same kind and name of variable are the same variable and different names or kinds are different ones, numbered from zero per kind in order of appearance. For every term and kind, the term's variable table lists exactly the occurrences of variables of that kind in it, each with its number and with the position that leads to it, and its normal form keeps the same occurrences together and apart.",
 ["inputs"], "all terms with any number of variables of the three kinds at any depth, shared or not",
 "The tests look at one or two variables; positions and kinds can be mixed up only with several kinds at different depths.",
 ["utils/IndexVar.h", "utils/IndexVar.cpp", "Narsese/include/Term.inl", "Narsese/Parser/NarseseParser.cpp"],
 "tree of index tables parallel to the term tree", [("variable table", "numbers and positions per kind")])
prop("C13", "A cloned term is equal to and independent of its original",
 "Cloning a term gives a term with the same structure, attributes, hash, variable tables and printed form. Renumbering variables in the clone, or dropping either of the two, leaves the other as it was.",
 ["inputs", "histories"], "all terms; all later changes and drops on either side",
 "One test clones one term; sharing of mutable variable numbers or dangling parts appears only for nested mixed terms and after later operations.",
 ["Narsese/include/Term.inl", "Narsese/include/Statement.inl", "Narsese/include/Compound.inl", "Narsese/include/Variable.inl", "utils/IndexVar.h"],
 "recursive copying of parts that contain variables, sharing of the rest")
prop("C14", "Truth, desire and budget of a task are the given or default values",
 "A parsed task carries exactly the truth or desire and budget values written in the text; a truth or budget not written at all takes the general configured defaults, a part of one not written the configured default for its sentence type, and the quality of a written budget follows from the truth if not given. All values lie in their range, and questions and quests carry no truth.",
 ["inputs", "configurations"], "all four sentence types, all combinations of given and missing values, all values in range, all default configurations",
 "The tests do not look at values; each default has its own branch per sentence type.",
 ["Narsese/Parser/NarseseParser.cpp", "Narsese/include/Budget.h", "Narsese/include/Truth.h", "Config.cpp"],
 "sentinels for missing values replaced by configured defaults")
prop("C15", "Stamps carry the tense, times and evidence of their sentence",
 "A sentence without tense is eternal; one with tense occurs at the time its tense denotes and is classified past, present or future by its distance from the current time in terms of the configured duration. Every parsed sentence has evidence of its own that no earlier sentence had, and is created at the current time, which is one clock for the whole system.",
 ["inputs", "histories"], "all tenses and time offsets, all current times and durations, all histories of stamps",
 "The tests do not look at stamps; classification boundaries depend on unsigned arithmetic around them.",
 ["Narsese/include/Sentence.h", "Narsese/Parser/NarseseParser.cpp", "Global.h", "Narsese/include/Tense.h"],
 "stamp construction and comparison with a global clock", [("clock and input counter", "current time; next evidence id")])
prop("C16", "Evidential bases merge without loss and detect overlap",
 "Two evidential bases overlap exactly if they share evidence, whichever is asked. Merging two bases yields exactly their union as long as it fits the configured maximum and otherwise a part of it of at most that size with evidence from both; it terminates, leaves its other inputs unchanged, and equal bases have equal hashes after any change.",
 ["inputs", "histories", "configurations"], "all pairs of bases of any size, disjoint or overlapping, all maximum lengths, all sequences of additions and merges",
 "No test touches evidential bases.",
 ["Narsese/include/Evidence.h", "Narsese/include/Sentence.h", "utils/hash.h"],
 "interleaving of sorted sets up to a maximum length")
prop("C17", "Truth functions compute valid truth values and conserve evidence",
 "For truth values in range, every truth function returns the value its definition gives: frequency in [0,1] and confidence in [0,1), below 1 however much evidence there is. Revision adds up the evidence of its premises, in any order, and never loses confidence; deduction, induction and comparison never gain any; temporal projection keeps the frequency and only discounts confidence, more for more distant times; conversion to evidence amounts and back returns the same truth.",
 ["inputs"], "all truth values, evidential horizons, time triples and argument orders",
 "No test calls the truth functions; they are not even part of the default build.",
 ["NAL/Functions/include/TruthFunctions.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/include/ExtendedBooleanFunction.h", "NAL/Functions/include/TemporalFunctions.h", "Narsese/include/Truth.h", "Narsese/include/Budget.h"],
 "closed formulas over frequency, confidence and evidential horizon")
prop("C18", "The Python module shows the same terms and reports errors as exceptions",
 "Through the Python module, parsing, building and printing give the same terms, attributes and texts as the underlying system; every enumerator denotes its own symbol. Invalid text or arguments raise an ordinary Python exception and leave the module usable, and objects obtained from others stay valid for as long as Python holds them, in whatever order things are released, and cost no memory afterwards. All of this holds also when several Python threads use the module at once.",
 ["inputs", "histories"], "all texts and constructor calls; all orders of keeping and releasing Python objects",
 "The existing tests never import the module.",
 ["Narsese.cpp", "Narsese/src/Term.cpp", "Narsese/src/Statement.cpp", "Narsese/src/Compound.cpp", "Narsese/src/Sentence.cpp", "Narsese/src/Task.cpp", "Narsese/src/Truth.cpp", "Narsese/src/Budget.cpp", "Narsese/src/Copula.cpp", "Narsese/src/Connector.cpp", "Narsese/Parser/NarseseParser.cpp"],
 "pybind11 classes over reference-counted handles")
prop("C19", "Every copula and connector means the same in all places",
 "For every copula, connector, tense and punctuation, the symbol read, the value it denotes, the symbol printed and its properties (commutative, higher order, temporal, reducible, number of components, symmetric and reverse counterpart) belong together as Narsese defines them; reversing a temporal copula twice gives it back. Validity of a number of components is decided by those properties alone.",
 ["inputs"], "all symbols, all values, all component counts, combined with any components",
 "The tables are parallel arrays indexed by position; no test reads them all, and an entry matters only for terms using it.",
 ["Narsese/include/Copula.h", "Narsese/include/Connector.h", "Narsese/include/Tense.h", "Narsese/include/Sentence.h", "Narsese/Parser/NarseseParser.cpp"],
 "parallel constant tables indexed by enumerators")
prop("C20", "Results do not depend on compiler, optimisation, locale or memory contents",
 "The same sequence of operations gives the same results (acceptance, structure, attributes, printed forms up to the order of commutative components) in every build configuration and every run, whatever the initial contents of memory, the addresses the allocator returns and the locale of the process.",
 ["configurations", "inputs"], "all operation sequences under different compilers, optimisation levels, locales, allocators' fill patterns and address layouts",
 "Tests run in one build; uninitialised members, evaluation order and address-dependent decisions show only when the configuration changes.",
 ["Narsese/Parser/narsese.cpp", "Narsese/Parser/Parser.h", "Narsese/include/Term.h", "utils/hash.h", "utils/IndexVar.h"],
 "plain members initialised in constructors; address-based hashes")
prop("C21", "Size does not change meaning: long names, wide and deep terms",
 "Names of any length, components in any number and nesting of any depth the machine's memory and stack allow are parsed, built, printed and read back with exactly the meaning small ones have. In particular no result changes when an internal buffer or stack has to grow.",
 ["inputs"], "all sizes, in particular those around multiples of the internal allocation step, and thousands of tokens, components and levels",
 "The examples are short; growth paths run only beyond about a hundred pending characters or open productions.",
 ["Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.h", "Narsese/src/Compound.cpp", "Interpreter/src/Interpreter.cpp"],
 "buffers and stacks grown in steps; recursive transformation, printing and release",
 [("lookahead buffer", "grows in steps of 128 characters"), ("parse stack", "grows in steps of 128 entries")])
prop("C22", "A syntax error is reported once, where the text stops making sense",
 "Parsing an ungrammatical text writes exactly one report to standard error, which names the line and column of the first token that cannot continue the text before it, and quotes what stands there: everything before that column is the beginning of some grammatical text. Parsing a grammatical text reports nothing, and parsing never writes to standard output, whatever the parser met before.",
 ["inputs", "histories"], "all ungrammatical texts with the fault at any place, in any order with grammatical ones",
 "No test looks at the reports; a wrong position shows only for faults behind tokens of certain kinds, blanks or buffer limits.",
 ["Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.h", "Narsese/Parser/Parser.cpp"],
 "line and column counters of the parser, advanced as tokens are consumed",
 [("column counter", "starts over with each parse and counts the characters consumed")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
