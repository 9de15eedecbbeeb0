#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

prop("S01", "Theorem/Unsatisfiable is only answered for valid/unsatisfiable problems",
     "Whenever the prover answers Theorem (or Unsatisfiable, or VALID) on a first-order problem without equality, the conjecture really is a consequence of the axioms (the axioms really are unsatisfiable): no interpretation satisfies the axioms and falsifies the conjecture. "
     "This holds with every Skolemization option (default, -inner, -preinner), destructive or not (-nodmt default, -completeness), -flatten, and with any reintroduction limit.",
     ["inputs", "configurations", "schedules"],
     "every FOF problem without equality, every combination of the proof-search options that leaves the logic alone, every goroutine schedule",
     "The tests run a fixed list of problems in one configuration and mostly check theorems; unsoundness shows only on non-theorems close to theorems, in specific configurations.",
     ["src/Search/rules.go", "src/Search/destructive.go", "src/Search/child_management.go", "src/Core/instanciation.go", "src/Core/skolemisation.go", "src/Core/Sko", "src/Unif", "src/AST/formsDef.go", "src/AST/quantifiers.go"],
     [("tableau expansion rules", "src/Search/rules.go"), ("agreement of sibling branches on one substitution", "src/Search/destructive.go, child_management.go"), ("fresh Skolem symbols with the right dependencies", "src/Core/Sko"), ("unification of complementary literals", "src/Unif")],
     ["% RES / % SZS status line"])
prop("S02", "Verdicts stay sound when equality reasoning is used",
     "Whenever the prover answers Theorem (or Unsatisfiable) on a problem with equality, no interpretation in which = is identity satisfies the axioms and falsifies the conjecture. This holds for the default rigid-superposition reasoner, its eager and incremental variants (-eagereq, -increq), the SAT-based reasoner (-sateq) and for -noeq.",
     ["inputs", "configurations", "schedules"],
     "every FOF problem with =/!= atoms, each equality option combined with each Skolemization option and -dmt",
     "The tests contain a handful of equality theorems; an equality step that proves too much is invisible on theorems.",
     ["src/Mods/equality/bse", "src/Mods/equality/eqStruct", "src/Mods/equality/sateq", "src/Search/rules.go"],
     [("constraints + LPO guarding rewriting steps", "src/Mods/equality/bse"), ("solution filtering before closing", "src/Mods/equality/bse/equality.go"), ("SAT encoding of congruence", "src/Mods/equality/sateq")],
     ["% RES / % SZS status line"])
prop("S03", "Deduction modulo theory does not change what is provable-soundly",
     "With -dmt (and -polarized, -presko, -dmt_before_eq) axioms are turned into rewrite rules, yet an answer Theorem (or Unsatisfiable) still implies that no interpretation satisfies the axioms and falsifies the conjecture. In particular every axiom is used only as the implication or equivalence it states, for atoms that are really instances of its atomic side.",
     ["inputs", "configurations"],
     "every FOF problem, axioms of every orientable shape (quantified atoms, negated atoms, equivalences, implications), with every DMT option",
     "The DMT tests check registration and rewriting of a few axioms each with one candidate; soundness needs every axiom shape against every literal.",
     ["src/Mods/dmt", "src/Search/destructive.go"],
     [("axiom orientation and registration", "src/Mods/dmt/axiom_registration.go"), ("rewriting by most general unifier", "src/Mods/dmt/rewrite.go"), ("backtracking over rewrites", "src/Search/destructive.go")],
     ["% RES / % SZS status line"])
prop("C01", "CounterSatisfiable/Satisfiable is exact when nothing needs instantiating twice",
     "On problems whose refutation never needs a universally quantified formula to be instantiated (propositional problems, and problems where only existential strength quantifiers occur), one round of the search (-one_step; without that option when the problem has no quantifier at all) terminates and its verdict is exact: Theorem (Unsatisfiable without a conjecture) exactly for theorems, CounterSatisfiable (Satisfiable) exactly for the others.",
     ["inputs", "schedules"],
     "every problem without equality whose clausal strength has no gamma-formula, however deeply nested, in every destructive/Skolemization option",
     "The test problems with a negative verdict are a handful; dropping a branch, a rule or a literal changes the verdict only for particular shapes.",
     ["src/Search/rules.go", "src/Search/search.go", "src/Search/destructive.go", "src/Search/state.go"],
     [("alpha/beta/delta decomposition", "src/Search/rules.go"), ("bound-driven outer loop", "src/Search/destructive.go"), ("branch closure test", "src/Search/rules.go")],
     ["% RES / % SZS status line"])
prop("C02", "Theorems are found: the search does not lose proofs",
     "For every theorem of first-order logic without equality that has a short free-variable tableau proof, the default search (and its Skolemization variants) answers Theorem, whatever the order in which branches, substitutions and backtracking are explored; an instantiation rejected by a sibling branch is retried with other instantiations and universally quantified formulas are reintroduced fairly.",
     ["inputs", "schedules", "configurations"],
     "theorems with tableau proofs up to a few instantiations per formula, all Skolemization options, DMT, polarized DMT",
     "The tests sample a few dozen theorems; lost proofs need particular backtracking patterns (a first unifier that closes one branch only).",
     ["src/Search/destructive.go", "src/Search/nonDestructive.go", "src/Search/child_management.go", "src/Search/rules.go", "src/Search/state.go"],
     [("forbidden-substitution backtracking", "src/Search/destructive.go"), ("gamma reintroduction queue", "src/Search/rules.go"), ("children agreement", "src/Search/child_management.go")],
     ["% RES / % SZS status line"])
prop("Q01", "The verdict does not depend on schedule, naming, order or output options",
     "For a given problem and logic options the definite verdict (Theorem versus CounterSatisfiable) is the same in every run, on any number of cores, whatever consistent renaming of symbols, variables and formula names is applied, and whether or not a proof output, -chrono, -context, -pretty or debug logging is requested.",
     ["schedules", "inputs", "configurations"],
     "pairs of runs on one problem: repeated, GOMAXPROCS/-core_limit varied, alpha-renamed, symbol-renamed, with each output option",
     "Each test problem is run once under one schedule and one naming.",
     ["src/Search", "src/Lib", "src/AST/maker.go", "src/main.go", "src/options.go"],
     [("deterministic collections", "src/Lib"), ("branch protocol independent of arrival order", "src/Search/child_management.go"), ("identifier interning", "src/AST/maker.go")],
     ["% RES / % SZS status line"])
prop("P01", "The internal proof is a closed tableau of the problem, legal at every step",
     "Whenever the prover concludes Theorem and a proof is requested, the proof it holds starts from exactly the problem's axioms and negated conjecture; each step applies an expansion rule to a formula present on its branch and adds exactly that rule's results to exactly its branches; each witness introduced for an existential is fresh for the branch; and every branch ends with complementary literals, a contradiction or an equational contradiction under one common instantiation of the free variables.",
     ["inputs", "configurations", "schedules"],
     "every proof produced, all logic options except those without proofs",
     "Only four problems have their proofs checked (by Rocq, not installed here); tests never look at the steps.",
     ["src/Search/proof.go", "src/Search/rules.go", "src/Search/destructive.go", "src/Search/child_management.go", "src/Core/Sko", "src/main.go"],
     [("proof construction along branches", "src/Search/destructive.go"), ("retrieving the child proofs in beta order", "src/Search/child_management.go"), ("final substitution applied to the whole proof", "src/Search/proof.go")],
     ["-proof output", "the proof structure passed to the proof printers"])
prop("P02", "Printed TPTP and SC-TPTP proofs are correct sequent derivations",
     "With -otptp or -osctptp on a proved problem without equality and without type arguments, the printed derivation is well-formed TPTP in which every line follows from the lines it cites by the inference it names, the leaves are axioms of the sequent calculus, fresh symbols satisfy the eigenvariable condition, and the last sequent states the conjecture from the input axioms.",
     ["inputs", "configurations"],
     "every proof found with the three Skolemization options",
     "No test reads the TPTP output.",
     ["src/Mods/tptp", "src/Mods/gs3", "src/AST/printers.go"],
     [("tableau to GS3 with delta reordering", "src/Mods/gs3"), ("sequent printing and weakening", "src/Mods/tptp/proof.go")],
     ["-otptp/-osctptp output"])
prop("P03", "Printed Rocq and Lambdapi proofs prove the stated problem",
     "With -orocq on a proved problem without equality, the printed script states the problem's own axioms and conjecture over declared symbols, and its proof, read with the standard meaning of the lemmas it applies, closes every branch using only hypotheses that are in scope.",
     ["inputs", "configurations"],
     "every proof found with the three Skolemization options",
     "The existing test compiles four proofs and only where Rocq is available.",
     ["src/Mods/rocq", "src/Mods/gs3"],
     [("tableau to GS3", "src/Mods/gs3"), ("context and tactic printing", "src/Mods/rocq")],
     ["-orocq output"])
prop("U01", "Unification returns exactly the most general unifiers",
     "Looking a literal or term up against stored ones succeeds exactly when the two are unifiable (occurs check included), and each substitution returned is idempotent, acyclic, makes the two sides equal and is at least as general as every other unifier. Merging two substitutions yields their most general common extension, or reports failure exactly when none exists.",
     ["inputs"],
     "all pairs of atoms/terms over a signature with constants, functions, shared and repeated metavariables; all pairs of substitutions",
     "Unit tests sample some forty pairs; errors need repeated variables, nesting and particular positions.",
     ["src/Unif/matching.go", "src/Unif/machine.go", "src/Unif/substitutions_type.go", "src/Unif/substitutions.go", "src/Unif/unify_matching.go"],
     [("unification machine", "src/Unif/machine.go, matching.go"), ("substitution merge and eliminations", "src/Unif/substitutions.go")],
     ["results of the unification API"])
prop("U02", "The literal index returns every unifiable stored formula and no other",
     "After any sequence of insertions into the index, a lookup returns precisely the stored formulas that unify with the query - each with its own unifier, whatever other formulas are stored, in whatever order they were inserted, and without being changed by lookups or by copying the index and inserting into the copy.",
     ["histories", "inputs"],
     "all insertion histories of atoms sharing prefixes, metavariables and arities, interleaved with copies and lookups",
     "Unit tests build a few small trees; sharing and splitting of prefixes is history dependent.",
     ["src/Unif/code-trees.go", "src/Unif/parsing.go", "src/Unif/matching.go", "src/Unif/data_structure.go"],
     [("code tree insertion with prefix splitting", "src/Unif/code-trees.go"), ("compilation of terms to instructions", "src/Unif/parsing.go"), ("stack machine execution with backtracking", "src/Unif/matching.go")],
     ["results of the index API"])
prop("U03", "Substitution and renaming respect binding and leave the original alone",
     "Applying a substitution to a formula or term replaces exactly the free occurrences of the substituted variables everywhere, captures no variable and leaves the original object and everything sharing structure with it unchanged; renaming bound variables, copying and simplifying double negations give the same formula up to bound names (and pairs of negations); comparison is symmetric, holds between identical formulas and only between formulas that are the same up to names of bound variables; and the reported metavariables and (closed) subterms are exactly those that occur.",
     ["inputs", "histories"],
     "all formulas over every connective and quantifier nesting, all substitutions, followed by inspection of the original and of copies",
     "Unit tests cover single replacements on small terms.",
     ["src/AST/formsDef.go", "src/AST/termsDef.go", "src/AST/quantifiers.go", "src/AST/formula.go", "src/Core/form_and_terms.go", "src/Core/substitutions_search.go"],
     [("ReplaceTermByTerm / SubstituteVarByMeta / ReplaceMetaByTerm", "src/AST"), ("cached meta sets", "src/AST/formsDef.go"), ("alpha renaming", "src/AST/quantifiers.go")],
     ["results of the AST API"])
prop("K01", "Each Skolem term is sound for the existential it replaces",
     "Expanding an existential formula replaces its bound variable by a term whose head symbol is new (or is reserved for that very formula and no other) and whose arguments include every free variable the formula depends on, so that the expansion preserves satisfiability whatever values the free variables take later. Likewise, instantiating a universal formula replaces its bound variable by a metavariable that occurs nowhere else and is reported. This holds for outer, inner and pre-inner Skolemization and for formulas with leading (TF1) type quantifiers, across any sequence of expansions in parallel branches.",
     ["inputs", "histories", "schedules"],
     "any sequence of delta expansions on formulas with shared and nested quantifiers and any metavariable sets, including concurrent expansions",
     "Unit tests of Skolemization check a few single expansions.",
     ["src/Core/skolemisation.go", "src/Core/Sko", "src/Core/meta_gen.go", "src/AST/maker.go"],
     [("outer/inner/preinner selection of arguments", "src/Core/Sko"), ("symbol generation", "src/AST/maker.go"), ("formula-keyed symbol table of pre-inner", "src/Core/Sko/preinner-skolemization.go")],
     ["results of the Skolemization API", "Skolem terms in proofs"])
prop("D01", "A DMT rewrite step replaces an atom by what the theory says it equals",
     "Each axiom accepted as a rewrite rule is accepted only if it has the shape atom <=> formula (or, when polarized, an implication usable in that polarity), and rewriting a literal with the registered rules returns only pairs of a substitution and a formula such that the rule implies the instantiated literal's replacement; a literal no rule matches is left unchanged, rules with Skolemized or renamed variables are instantiated consistently, and rules are unchanged by being used.",
     ["inputs", "histories"],
     "all sequences of axiom registrations and rewritings, every option",
     "Unit tests use single rules and few candidates.",
     ["src/Mods/dmt"],
     [("axiom shape analysis", "src/Mods/dmt/axiom_registration.go"), ("rewriting", "src/Mods/dmt/rewrite.go")],
     ["results of the DMT API"])
prop("E01", "Equality reasoning returns only real equational unifiers",
     "For any set of equations, disequations and literals on a branch, every substitution the equality reasoners return really makes the branch contradictory modulo the equations read as rigid equations. The term ordering that guides them is a strict, total-on-ground simplification order stable under substitution, and ground problems are decided the way congruence closure decides them whenever an answer is given positively.",
     ["inputs", "configurations"],
     "all small rigid E-unification problems over a signature with constants, functions and metavariables; all pairs of terms for the ordering",
     "Unit tests cover one dozen problems and orderings.",
     ["src/Mods/equality/bse", "src/Mods/equality/eqStruct", "src/Mods/equality/sateq"],
     [("right/left rigid basic superposition with constraints", "src/Mods/equality/bse"), ("LPO", "src/Mods/equality/eqStruct"), ("SAT-based congruence", "src/Mods/equality/sateq")],
     ["results of the equality API"])
prop("T01", "Well-typed problems are accepted and ill-typed ones rejected",
     "A typed (TFF) problem is accepted exactly when every symbol is used at its declared type, arities and type arguments included, quantified variables have existing types and quantified type variables range over types; undeclared symbols get the default individual/boolean types. Acceptance does not depend on where in the formula the ill-typed subterm stands nor on the order of checking.",
     ["inputs", "schedules"],
     "all typed problems over a small signature with base types, arithmetic types, products and polymorphic symbols",
     "The tests sample some ill-typed problems; each position and connective is a different case.",
     ["src/Typing", "src/Engine", "src/AST/ty-syntax.go", "src/AST/tptp-native-types.go"],
     [("typing rules", "src/Typing/rules.go"), ("pretyper and elaboration", "src/Engine/pretyper.go, syntax-translation.go"), ("parallel checking", "src/Lib/par.go")],
     ["exit status and typing error message", "verdict"])
prop("N01", "Parsing gives TPTP text its standard meaning",
     "The formula the prover works on is the formula the TPTP text denotes: connective precedence and associativity, quantifier scope, shadowing, all connectives (~, &, |, =>, <=, <=>, <~>, ~&, ~|, =, !=), quoted names, $true/$false, comments and layout; text outside the grammar is rejected rather than misread.",
     ["inputs"],
     "every FOF text generated from the grammar, with varying bracketing, layout and quoting",
     "The parser is tested on few texts; precedence and scoping errors show only for particular nestings.",
     ["src/Parser/tptp_parse.y", "src/Parser/tptp_lex.go", "src/Engine/syntax-translation.go"],
     [("lexer", "src/Parser/tptp_lex.go"), ("grammar", "src/Parser/tptp_parse.y"), ("translation to the internal syntax", "src/Engine/syntax-translation.go")],
     ["root formula of the proof", "verdict"])
prop("N02", "Roles, includes and verdict names follow the SZS conventions",
     "The formula refuted is the conjunction of all axiom-like statements (of the file and of everything it includes, relative to the including file) with the negated conjecture; with a conjecture the status is Theorem or CounterSatisfiable, without one Unsatisfiable or Satisfiable, exactly one verdict is printed and it agrees with the RES line, and the exit status tells success from an input error.",
     ["inputs", "configurations"],
     "every assignment of roles (axiom, hypothesis, lemma, definition, negated_conjecture, conjecture...), every include layout",
     "The tests use single-file problems with two roles.",
     ["src/main.go", "src/Search/search.go", "src/Core/statement.go"],
     [("statement assembly", "src/main.go"), ("result printing", "src/Search/print_proof.go, search.go")],
     ["% RES / % SZS status line", "exit status"])
prop("X01", "Parallel branches always agree: one substitution closes the whole tableau",
     "Under every interleaving of the parallel branch searches, the parent reports success only if all branches are closed by one common substitution, each branch gets exactly one final answer before it ends, no branch search outlives or waits forever for another, and a parent reports failure only after every substitution its branches offered has been tried.",
     ["schedules", "histories"],
     "all interleavings of parent, children and their answers over all families of closing substitutions",
     "Tests run each problem once under one schedule; the protocol has many interleavings.",
     ["src/Search/destructive.go", "src/Search/child_management.go", "src/Search/children.go"],
     [("wait/select over children", "src/Search/child_management.go"), ("forbidden-substitution choice", "src/Search/destructive.go")],
     ["messages between branch searches", "verdict"],
     hook="events at the sends/receives of the branch protocol (build tag verif)")
prop("L01", "Collections behave as the mathematical lists, sets and maps they model",
     "Every operation of the shared list, set, option and cache types returns the result of the corresponding mathematical operation and leaves its arguments (and every copy made earlier) unchanged unless it is documented as modifying its receiver.",
     ["histories", "inputs"],
     "all operation histories over small element domains, with copies taken at any point",
     "Unit tests exercise each operation once on one or two values.",
     ["src/Lib"],
     [("lists", "src/Lib/list.go, comparable_list.go"), ("sets as balanced trees", "src/Lib/sets.go"), ("caches", "src/Lib/cache.go")],
     ["results of the collection API"])
prop("R01", "Every well-formed problem gets an orderly run: one verdict, no crash or hang",
     "On every well-formed problem and every documented option combination, the process never panics, deadlocks or reports an internal anomaly; in a single round with a reintroduction limit (-one_step -l N) on a problem without equality it terminates, printing exactly one verdict.",
     ["inputs", "configurations", "schedules"],
     "every generated problem (with and without equality) with every documented combination of options",
     "The tests use default options nearly always; crashes appear in option combinations on particular shapes.",
     ["src/Search", "src/Mods", "src/main.go", "src/options.go"],
     [("search driver", "src/Search/search.go"), ("plugin hooks", "src/Mods, src/options.go")],
     ["exit status", "stderr", "% RES / % SZS status line"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
