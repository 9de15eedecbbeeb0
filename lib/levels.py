"""property -> (level, technique, level_note)"""
MC = "model_checking"
V = "TLC judges every recorded run against Verdict.tla, whose truth state comes from an interpretation TLC evaluates; the problems are generated, so unsound answers outside the sampled space are not seen"
U = "every answer is judged exactly against Robinson's algorithm in Unif.tla; the inputs are exhaustive up to a small term size and random beyond"
A = "every operation is judged exactly against Syntax.tla, on random histories over all connectives and quantifiers"
LEVELS = {
 "L01": (MC, "trace validation: TLC replays recorded histories of collection operations against Collections.tla", "every answer and the contents of every collection after every operation are judged exactly; every insertion order of five elements is enumerated, longer histories are random"),
 "C01": (MC, "TLA+ session spec (Verdict.tla): TLC computes the status over all valuations and judges the recorded runs", "exact on every problem run; the problems are random and have at most 8 atoms"),
 "C02": (MC, "TLC replays a stored derivation of each theorem (Tableau.tla), then judges the recorded runs (Verdict.tla)", "the theorems come from a stored corpus, run in random variants, options and schedules"),
 "Q01": (MC, "TLA+ session spec (Verdict.tla): TLC judges that the runs of all variants of a problem agree with its status", "sampled variants, output options and schedules of stored theorems and of problems whose status TLC computes"),
 "D01": (MC, "trace validation: TLC replays recorded rule registrations and rewritings against Rewrite.tla", "every registration and rewriting is judged exactly against Rewrite.tla; the axioms and literals are random"),
 "X01": (MC, "Channels.tla model-checked with TLC over all interleavings of small families of branches, and trace validation of the messages recorded (build tag verif) in real searches",
         "the protocol is explored exhaustively up to three leaves (two levels, pairs of substitutions); real searches are recorded under a few schedules each"),
 "E01": (MC, "trace validation: TLC judges recorded equality answers and term comparisons against Equality.tla (congruence closure, order axioms)",
         "every answer is judged exactly by congruence closure; branches are random and small; the ordering is checked on subterm-closed sets of terms"),
 "U03": (MC, "trace validation: TLC replays recorded histories of formula operations against Syntax.tla", A),
 "K01": (MC, "trace validation: TLC replays recorded histories of instantiations and Skolemizations against Syntax.tla", A),
 "U01": (MC, "trace validation: TLC replays operations recorded on the unification engine against Unif.tla", U),
 "U02": (MC, "trace validation: TLC replays histories recorded on the literal index against Unif.tla", U),
 "S01": (MC, "TLA+ session spec (Verdict.tla) checked with TLC against recorded runs of the prover", V),
 "S02": (MC, "TLA+ session spec (Verdict.tla) checked with TLC against recorded runs of the prover", V),
 "S03": (MC, "TLA+ session spec (Verdict.tla) checked with TLC against recorded runs of the prover", V),
 "P01": (MC, "trace validation: TLC replays every recorded proof as a behaviour of the tableau specification (Tableau.tla)",
         "every step of every recorded proof is checked exactly; the proofs come from generated problems in nine option combinations"),
 "N01": (MC, "trace validation: TLC reads the same texts with the reader specification (Reader.tla) and compares the problem they denote with the formula handed to the search",
         "random and damaged texts; FOF, and TFF without declarations; what the specification leaves open is counted in the evidence as spec_beyond"),
 "N02": (MC, "trace validation: TLC reads the same trees of files with Reader.tla and judges the formula refuted and what complete runs print",
         "random trees of up to five files; two option combinations per problem"),
 "T01": (MC, "TLC enumerates typed formulas (TypingGen.tla), which are replayed into the prover, and judges what runs did with them and with random problems against the type system of Typing.tla",
         "exact on every problem run; every formula of two quantified variables and one atom over a polymorphic signature in the thorough tier, sampled in the quick one; larger problems are random"),
}
