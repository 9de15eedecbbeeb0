From 2481573411f547249551c0152bd8f17425b7c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 01/56] fix: substitute every occurrence of a metavariable in a
 term

Pred.ReplaceMetaByTerm and ApplySubstitutionsOnTerm went through
ReplaceSubTermBy, which only replaces the first occurrence found among the
arguments of a function: {X -> a} applied to q(f(X,X)) gave q(f(a,X)).
Deduction modulo theory instantiated its rewrite rules that way and reported
non-theorems as theorems.
---
 src/AST/formsDef.go              |  3 ++-
 src/AST/term-list.go             | 10 +++++++++-
 src/Core/substitutions_search.go |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/AST/formsDef.go b/src/AST/formsDef.go
index ed4183d..1ace133 100644
--- a/src/AST/formsDef.go
+++ b/src/AST/formsDef.go
@@ -986,11 +986,12 @@ func (p Pred) GetChildFormulas() Lib.List[Form] {
 }
 
 func (p Pred) ReplaceMetaByTerm(meta Meta, term Term) Form {
+	args, _ := ReplaceOccurrence(p.args, meta, term)
 	return MakePred(
 		p.GetIndex(),
 		p.id,
 		p.tys,
-		Lib.ListMap(p.args, func(t Term) Term { return t.ReplaceSubTermBy(meta, term) }),
+		args,
 	)
 }
 
diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..5d97179 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -93,7 +93,7 @@ func ReplaceOccurrence(
 
 	for i := range tl.GetSlice() {
 		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		trm := tl.At(i).ReplaceSubTermBy(replaceThis, withThis)
+		trm := replaceAllSubTerm(tl.At(i), replaceThis, withThis)
 		if !trm.Equals(tl.At(i)) {
 			hasUpdated = true
 		}
@@ -103,6 +103,14 @@ func ReplaceOccurrence(
 	return res, hasUpdated
 }
 
+/* Replace all occurrences of a term by another in a term, at any depth */
+func replaceAllSubTerm(t, replaceThis, withThis Term) Term {
+	if fun, ok := t.(Fun); ok {
+		return fun.ReplaceAllSubTerm(replaceThis, withThis)
+	}
+	return t.ReplaceSubTermBy(replaceThis, withThis)
+}
+
 func EqualsWithoutOrder(tl, other Lib.List[Term]) bool {
 	if tl.Len() != other.Len() {
 		return false
diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..97b6d3a 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -272,7 +272,7 @@ func ApplySubstitutionsOnTerm(substs Lib.List[Unif.MixedSubstitution], t AST.Ter
 			t = t.SubstTy(meta, ty)
 		case Lib.Right[Unif.TySubstitution, Unif.Substitution]:
 			meta, term := s.Val.Get()
-			t = t.ReplaceSubTermBy(meta, term)
+			t = ApplySubstitutionOnTerm(meta, term, t)
 		}
 	}
 
-- 
2.43.0


From 0df7065f70e907fb6a65338fa97b663490eaa4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 02/56] fix: never capture a variable when renaming bound
 variables

renameVariables turned X into X<counter> and reused an already existing
variable of that name: in ! [X5] : ? [X] : r(X,X5) the renamed X became the
user's X5, i.e. the axiom was read as ! [X5] : r(X5,X5).
---
 src/AST/maker.go       | 14 ++++++++++++++
 src/AST/quantifiers.go |  3 +--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..d25a4a3 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -37,6 +37,7 @@
 package AST
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
@@ -128,6 +129,19 @@ func MakerNewVar(s string) Var {
 	return vr
 }
 
+/* Returns a variable built from the given prefix, whose name isn't used by any other variable */
+func MakerFreshVar(prefix string) Var {
+	for {
+		name := fmt.Sprintf("%s%d", prefix, MakerNewVar(prefix).GetIndex())
+		lock_term.Lock()
+		_, used := idVar[name]
+		lock_term.Unlock()
+		if !used {
+			return MakerNewVar(name)
+		}
+	}
+}
+
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index a7e8a95..4df4c1d 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -157,8 +157,7 @@ func (q quantifier) renameVariables() quantifier {
 
 	newTyBv := Lib.NewList[Lib.Pair[TyBound, Ty]]()
 	for _, v := range q.GetVarList().GetSlice() {
-		newVar := MakerNewVar(v.GetName())
-		newVar = MakerVar(fmt.Sprintf("%s%d", newVar.GetName(), newVar.GetIndex()))
+		newVar := MakerFreshVar(v.GetName())
 		newVarList.Append(MkTypedVar(newVar.name, newVar.index, v.ty))
 		f, replaced := newForm.ReplaceTermByTerm(v.ToBoundVar(), newVar)
 		if !replaced {
-- 
2.43.0


From b8f37bdb2fb06cf0ccaf3bcf459a1e7146d3ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 03/56] fix: answer under the right node id when backtracking
 on a DMT rewrite

The child launched for the next rewriting alternative answered with its
father's original node id, which the father does not know in its child
ordering: index out of range [-1] in selectChildren.
---
 src/Search/child_management.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 90afaee..a71c6a1 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -343,7 +343,7 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
-	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, args.originalNodeId, args.toReintroduce, false)
+	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
 	debug(Lib.MkLazy(func() string { return "GO !" }))
 	Glob.IncrGoRoutine(1)
 
-- 
2.43.0


From 37ac82596f5fe6d17944ee375a610949eceacd4c Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 04/56] fix: do not crash on polarized axioms whose side is the
 negation of a non-atom

---
 src/Mods/dmt/axiom_registration.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 9bcbc09..a813b2b 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -188,8 +188,11 @@ func neitherAreAtomics(f1, f2 AST.Form) bool {
 }
 
 func isEqualityPred(f AST.Form) bool {
-	return (Glob.Is[AST.Pred](f) && isEquality(f.(AST.Pred))) ||
-		(Glob.Is[AST.Not](f) && isEquality(predFromNegatedAtom(f)))
+	if not, isNot := f.(AST.Not); isNot {
+		f = not.GetForm()
+	}
+	pred, isPred := f.(AST.Pred)
+	return isPred && isEquality(pred)
 }
 
 func addEquRewriteRuleIfNotEquality(f1, f2 AST.Form) bool {
-- 
2.43.0


From c35d872ee800c6a9034ddeea773716f5b380d881 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 05/56] fix: print proofs whose branches are closed by equality
 reasoning

The closure formula of such a branch is the equality predicate without
arguments, on which the printer raised an anomaly: -proof crashed on every
proof using equality.
---
 src/AST/modular-printing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index edef719..b71e181 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -191,7 +191,8 @@ func (p Printer) OnFunctionalArgs(i Id, tys, con string, args Lib.List[Term]) st
 	// It'd maybe be useful to have an [Infix] generic action but I don't see how to do
 	// that for now.
 	infix := Lib.MkListV(Id_eq)
-	is_infix := Lib.ListMem(i, infix)
+	// The equality without arguments marks a branch closed by equality reasoning.
+	is_infix := Lib.ListMem(i, infix) && !args.Empty()
 	arguments := Lib.ListToString(args, Lib.WithSep(p.StrConn(SepArgs)), Lib.WithEmpty(""))
 
 	if is_infix {
-- 
2.43.0


From 9ce1125f9d4175aee977e622fa960c410187d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 06/56] fix: keep the untouched side when equality reasoning
 rewrites the second term

When the rewritten side is the second one, the rule holds the pair swapped, so
the untouched side is rs.getT(). Using rs.getS() turned the goal s = t into
t = t', which is trivially provable: any goal with a rewritable right-hand side
was closed.
---
 src/Mods/equality/bse/equality_rules_apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index 40d6e8a..d69088b 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -80,7 +80,7 @@ func applyLeftRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP,
 		if rs.getIsSModified() {
 			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(new_term.Copy(), rs.getT())
 		} else {
-			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getS(), new_term.Copy())
+			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getT(), new_term.Copy())
 		}
 		debug(
 			Lib.MkLazy(func() string { return fmt.Sprintf("New EQ list : %v", new_eq_list.ToString()) }),
@@ -110,7 +110,7 @@ func applyRightRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP
 		if rs.getIsSModified() {
 			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), new_term.Copy(), rs.getT(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		} else {
-			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getS(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
+			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getT(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		}
 	} else {
 		debug(
-- 
2.43.0


From 7be58027a67a93e81217bc6e3c97d4a566e6c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 07/56] fix: TermForm.ToString recursed forever (stack overflow
 with -debug)

---
 src/Unif/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..52e6d8e 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -42,7 +42,7 @@ type TermForm struct {
 	t     AST.Term
 }
 
-func (t TermForm) ToString() string          { return t.ToString() }
+func (t TermForm) ToString() string          { return t.t.ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-- 
2.43.0


From 388e7b9188bda09cc0e051b289303ab851eaae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 08/56] fix: type metavariables shared their indices with term
 metavariables

Type and term metavariables are unified together and compared by index, but drew
their indices from two counters: a type metavariable could be equal to an
unrelated term metavariable, which was then substituted by a type.
---
 src/AST/tptp-native-types.go |  2 --
 src/AST/ty-syntax.go         | 13 +++++--------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/AST/tptp-native-types.go b/src/AST/tptp-native-types.go
index 320cf3b..3b4b821 100644
--- a/src/AST/tptp-native-types.go
+++ b/src/AST/tptp-native-types.go
@@ -60,8 +60,6 @@ func initTPTPNativeTypes() {
 
 	tIndividual = MkTyConst("$i")
 	tProp = MkTyConst("$o")
-
-	count_meta = 0
 }
 
 func TType() Ty {
diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 5ea889c..a1b3ba5 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -39,15 +39,11 @@ package AST
 
 import (
 	"fmt"
-	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
-var meta_mut sync.Mutex
-var count_meta int
-
 type TyGenVar interface {
 	isGenVar()
 }
@@ -297,10 +293,11 @@ func MkTyBV(name string, index int) Ty {
 }
 
 func MkTyMeta(name string, formula int) Ty {
-	meta_mut.Lock()
-	meta := TyMeta{name, count_meta, formula}
-	count_meta += 1
-	meta_mut.Unlock()
+	// Type metas are unified as term metas (see [ToTermMeta]), hence they have to share their index space.
+	lock_term.Lock()
+	meta := TyMeta{name, cpt_term, formula}
+	cpt_term += 1
+	lock_term.Unlock()
 	return meta
 }
 
-- 
2.43.0


From e8961525d6b7587f227dc36de98f5dbf0d3b2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 09/56] fix: do not conflate distinct metavariables in the
 equality map

The rewriting partners of a term were looked up by its printed form, which does
not show the index of the metavariables: an instance of an equality could be
rewritten with the other side of another instance.
---
 src/Mods/equality/bse/equality_problem.go     | 26 +++++++++++++++++--
 .../equality/bse/equality_rules_try_apply.go  |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 803d84e..3e7ff77 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -38,6 +38,7 @@ package equality
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core"
@@ -143,13 +144,34 @@ func makeDataStructFromEqualities(eq Equalities) Unif.DataStructure {
 	return Unif.NewNode().MakeDataStruct(Lib.ListCpy(formList), true)
 }
 
+/**
+* Key of a term in the associative map. The printed form is not enough: two different metavariables
+* generated from the same bound variable are printed the same way, only their index distinguishes them.
+**/
+func eqMapKey(t AST.Term) string {
+	key := t.ToString()
+	var addMetas func(AST.Term)
+	addMetas = func(t AST.Term) {
+		switch trm := t.(type) {
+		case AST.Meta:
+			key += "#" + strconv.Itoa(trm.GetIndex())
+		case AST.Fun:
+			for _, arg := range trm.GetArgs().GetSlice() {
+				addMetas(arg)
+			}
+		}
+	}
+	addMetas(Unif.MakerTermForm(t).GetTerm())
+	return key
+}
+
 /* Take a list of equalities and build the corresponding assocative map */
 func makeEQMapFromEqualities(eq Equalities) map[string]Lib.List[AST.Term] {
 	map_res := make(map[string]Lib.List[AST.Term])
 
 	for _, e := range eq {
-		key1 := e.GetT1().ToString()
-		key2 := e.GetT2().ToString()
+		key1 := eqMapKey(e.GetT1())
+		key2 := eqMapKey(e.GetT2())
 
 		if _, found := map_res[key1]; !found {
 			map_res[key1] = Lib.NewList[AST.Term]()
diff --git a/src/Mods/equality/bse/equality_rules_try_apply.go b/src/Mods/equality/bse/equality_rules_try_apply.go
index cfc5a35..a82e7ce 100644
--- a/src/Mods/equality/bse/equality_rules_try_apply.go
+++ b/src/Mods/equality/bse/equality_rules_try_apply.go
@@ -141,7 +141,7 @@ func connectLAndR(list_l_prime_l []eqStruct.TermPair, ep EqualityProblem, s AST.
 			}),
 		)
 
-		for _, r := range ep.getEMap()[l_prime_l_pair.GetT2().ToString()].GetSlice() {
+		for _, r := range ep.getEMap()[eqMapKey(l_prime_l_pair.GetT2())].GetSlice() {
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
-- 
2.43.0


From d34f53e4d74ce621f1fb260f18ca2c3c4d878910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 10/56] fix: substituting a metavariable should not modify the
 original formula

LsSubstByTerm updated the list of subformulas of And and Or in place. The list is
shared by every copy of the formula: after the first rewriting under -dmt, the
rule p(X) <=> (q(X) & s) itself became p(X) <=> (q(a) & s).
---
 src/AST/form-list.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..ff21467 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,8 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
-	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
-	}
-	return formulas
+	// The list is shared with the original formula: it should not be updated in place.
+	return Lib.ListMap(formulas, func(f Form) Form { return f.ReplaceMetaByTerm(meta, term) })
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From 7bf03441790dcba22cec906aa8f7cfd25eea0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 11/56] fix: propositional variables raise no equality problem
 (index out of range)

---
 src/Mods/equality/bse/equality_problem_list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index fce9874..c977b11 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -232,7 +232,11 @@ func buildEqualityProblemMultiListFromPredList(pred AST.Pred, tn Unif.DataStruct
 
 	if found {
 		for _, s := range complementaryPredList {
-			res = append(res, buildEqualityProblemListFrom2Pred(pred.Copy().(AST.Pred), s.GetForm().(AST.Pred), equs.copy()))
+			// Propositional variables don't raise any equality problem.
+			epl := buildEqualityProblemListFrom2Pred(pred.Copy().(AST.Pred), s.GetForm().(AST.Pred), equs.copy())
+			if len(epl) > 0 {
+				res = append(res, epl)
+			}
 		}
 	}
 
-- 
2.43.0


From 96545a4f79dfc396ab7bb84281f23307c70575e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 12/56] fix: backtrack on a DMT rewriting without substitution
 (anomaly in waitChildren)

---
 src/Search/child_management.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index a71c6a1..55e363b 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -341,6 +341,11 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	// The last formula of getLF is the previous formula choosen among rewritten. So, discard it and add the new one
 	args.st.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
 
+	// As for the first rewriting: without substitution, there is nothing to give to the child.
+	if nextSaF.GetSaf().GetSubst().Empty() {
+		nextSaF = Core.MakeEmptyIntSubstAndFormAndTerms()
+	}
+
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
 	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
-- 
2.43.0


From 247b415ce0f26bc91d6df7c7fe6d6196837701aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 13/56] fix: sat-based equality merged classes through
 congruent terms of unrelated classes

The congruence constraint has to relate a term of the first class to a term of the
second one. Any term with the same symbol was accepted, which closed branches that
are satisfiable.
---
 src/Mods/equality/sateq/satbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 2a12c85..90c6b4f 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -199,7 +199,7 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
 			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if !tr1.eqClass.congruent(tr2.eqClass) {
+				if tr2.eqClass.congruent(ec2) {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
-- 
2.43.0


From f98db84ae6b1996bd2ce69978491167c6a24c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 14/56] fix: solve the substitutions found by the sat-based
 equality reasoning

A metavariable mapped to a class represented by another substituted metavariable
gave a triangular substitution {X -> Y, Y -> a}, on which the search stops with an
anomaly.
---
 src/Mods/equality/sateq/subsgatherer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Mods/equality/sateq/subsgatherer.go b/src/Mods/equality/sateq/subsgatherer.go
index 41b30cf..b8d2a33 100644
--- a/src/Mods/equality/sateq/subsgatherer.go
+++ b/src/Mods/equality/sateq/subsgatherer.go
@@ -95,6 +95,10 @@ func translateSub(sub map[*termRecord]*eqClass, correspondence map[*eqClass]*ter
 		subs.Set(*x.meta, translate(r, correspondence))
 	}
 
+	// A metavariable may be mapped to a class represented by another substituted metavariable
+	Unif.EliminateMeta(&subs)
+	Unif.Eliminate(&subs)
+
 	result = append(result, subs)
 	return result
 }
-- 
2.43.0


From ff8afa6e4ac1df7b5270d3bfd1e0594dbeb18e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 15/56] fix: rewrite again under the substitution received from
 the parent (DMT)

---
 src/Search/destructive.go | 13 ++++++++++++-
 src/Search/state.go       |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 1ef43a2..cff9dc2 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -598,7 +598,17 @@ func (ds *destructiveSearch) waitFather(father_id uint64, st State, c Communicat
 			// Thus, we always need to put the rewrite rule in first, so apply subst on it + no overwrite
 			is_rewrite := st.GetCurrentProof().Rule == "Rewrite"
 
-			if is_rewrite {
+			// The rewriting was done under a substitution of the metavariables of the literal. The one received may be
+			// different: it has to be rewritten again under that one.
+			if len(st.rewritten_from) > 0 && !st.rewritten_from[0].GetForm().GetMetas().IsEmpty() {
+				st.SetLF(append(st.GetLF()[:len(st.GetLF())-1].Copy(), st.rewritten_from...))
+				st.rewritten_from = nil
+				st.SetBTOnFormulas(false)
+				if proof := st.GetProof(); is_rewrite && len(proof) > 0 {
+					proof[len(proof)-1].Rule = ""
+					st.SetProof(proof)
+				}
+			} else if is_rewrite {
 				prf := st.GetCurrentProof()
 				prf.Formula = Core.MakeFormAndTerm(
 					Core.ApplySubstitutionsOnFormula(father_subst, prf.Formula.GetForm()),
@@ -1019,6 +1029,7 @@ func (ds *destructiveSearch) tryRewrite(rewritten []Core.IntSubstAndForm, f Core
 		// all atomics but not the chosen one
 		state.SetLF(append(remainingAtomics.Copy(), choosenRewrittenForm.Copy()))
 		state.SetBTOnFormulas(true) // I need to know that I can bt on form and my child needs to know it to to don't loop
+		state.rewritten_from = Core.MakeSingleElementFormAndTermList(f.Copy())
 
 		// Proof
 		state.SetCurrentProofFormula(f)
diff --git a/src/Search/state.go b/src/Search/state.go
index 8c3a6f8..49b32e2 100644
--- a/src/Search/state.go
+++ b/src/Search/state.go
@@ -64,6 +64,7 @@ type State struct {
 	proof                                 []ProofStruct
 	current_proof                         ProofStruct
 	bt_on_formulas                        bool
+	rewritten_from                        Core.FormAndTermsList // DMT: the literal this node rewrote into the last formula of lf, if any
 	forbidden                             Lib.List[Lib.List[Unif.MixedSubstitution]]
 	unifier                               Core.Unifier
 	eqStruct                              eqStruct.EqualityStruct
@@ -285,6 +286,7 @@ func MakeState(limit int, tp, tn Unif.DataStructure, f AST.Form) State {
 		[]ProofStruct{},
 		current_proof,
 		false,
+		nil,
 		Lib.NewList[Lib.List[Unif.MixedSubstitution]](),
 		Core.MakeUnifier(),
 		eqStruct.NewEqStruct()}
-- 
2.43.0


From 2885c98578fcbde250218412b1191b8a73a71b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 16/56] fix: a substitution common to only some of the children
 does not close them all

---
 src/Search/destructive.go | 41 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index cff9dc2..01f645c 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -786,27 +786,30 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 						// Children sent the same substitution, eventually with new forms
 						new_current_subst = current_subst.AddFormulas(res.subst_list_for_father[0].GetForm())
 					} else {
-						// Reset at each step
-						common_substs = []Core.SubstAndForm{}
-
-						// Check if there is common substitutions
-						for _, current_subst_from_children := range res.subst_list_for_father {
-							for i := range result_subst {
-								if Lib.ListEquals(
-									current_subst_from_children.GetSubst(),
-									result_subst[i].GetSubst(),
-								) {
-									debug(
-										Lib.MkLazy(func() string {
-											return fmt.Sprintf(
-												"Subst in common found : %s !",
-												Lib.ListToString(current_subst_from_children.GetSubst()),
-											)
-										}),
-									)
-									common_substs = append(common_substs, result_subst[i].AddFormulas(current_subst_from_children.GetForm()))
+						// Keep the substitutions in common to all the children seen so far
+						if cpt_children_returning_subst == 0 {
+							common_substs = Core.CopySubstAndFormList(res.subst_list_for_father)
+						} else {
+							still_common_substs := []Core.SubstAndForm{}
+							for i := range common_substs {
+								for _, current_subst_from_children := range res.subst_list_for_father {
+									if Lib.ListEquals(
+										current_subst_from_children.GetSubst(),
+										common_substs[i].GetSubst(),
+									) {
+										debug(
+											Lib.MkLazy(func() string {
+												return fmt.Sprintf(
+													"Subst in common found : %s !",
+													Lib.ListToString(current_subst_from_children.GetSubst()),
+												)
+											}),
+										)
+										still_common_substs = append(still_common_substs, common_substs[i].AddFormulas(current_subst_from_children.GetForm()))
+									}
 								}
 							}
+							common_substs = still_common_substs
 						}
 
 						// Add new subst to result subst
-- 
2.43.0


From ed4e9ccef1efee1f71be24222ea5ce4a0908460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 17/56] fix: keep the proof and the unifier of the children
 that closed in a previous round

---
 src/Search/child_management.go |  4 +++-
 src/Search/destructive.go      | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 55e363b..a776798 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -57,6 +57,7 @@ type wcdArgs struct {
 	overwrite      bool
 	childOrdering  []int
 	toReintroduce  []int
+	closedAlone    []Result // Results of the children that died in a previous round
 }
 
 func MakeWcdArgs(
@@ -74,7 +75,7 @@ func MakeWcdArgs(
 	childOrdering []int,
 	toReintroduce []int,
 ) wcdArgs {
-	return wcdArgs{fatherId, st, c, children, givenSubsts, currentSubst, substsBT, formsBT, nodeId, originalNodeId, overwrite, childOrdering, toReintroduce}
+	return wcdArgs{fatherId, st, c, children, givenSubsts, currentSubst, substsBT, formsBT, nodeId, originalNodeId, overwrite, childOrdering, toReintroduce, []Result{}}
 }
 
 func (args wcdArgs) printDebugMessages() {
@@ -353,6 +354,7 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	Glob.IncrGoRoutine(1)
 
 	args.children = []Communication{communicationChild}
+	args.closedAlone = []Result{}
 	args.overwrite = false
 	args.childOrdering = []int{childNode}
 	args.currentSubst = nextSaF.GetSaf().ToSubstAndForm()
diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 01f645c..9423a90 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -450,7 +450,7 @@ func (ds *destructiveSearch) waitChildren(args wcdArgs) {
 				)
 			}),
 		)
-		status, substs, proofs, unifiers := ds.selectChildren(args.c, &args.children, args.currentSubst, args.childOrdering)
+		status, substs, proofs, unifiers := ds.selectChildren(args.c, &args.children, &args.closedAlone, args.currentSubst, args.childOrdering)
 		debug(
 			Lib.MkLazy(func() string {
 				return fmt.Sprintf(
@@ -672,6 +672,7 @@ Datas :
 
 	father : father's id (debug)
 	children : slice of communication
+	closed_alone : results of the children that closed by themselves during the previous calls
 	current_subst : the substitution previously applied
 
 Result :
@@ -686,7 +687,7 @@ Result :
 
 []Core.SubstAndForm : substitutions list
 */
-func (ds *destructiveSearch) selectChildren(father Communication, children *[]Communication, current_subst Core.SubstAndForm, child_order []int) (int, []Core.SubstAndForm, [][]ProofStruct, []Core.Unifier) {
+func (ds *destructiveSearch) selectChildren(father Communication, children *[]Communication, closed_alone *[]Result, current_subst Core.SubstAndForm, child_order []int) (int, []Core.SubstAndForm, [][]ProofStruct, []Core.Unifier) {
 
 	proof_tab := make([][]ProofStruct, len(child_order))
 
@@ -706,6 +707,17 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 	common_substs := []Core.SubstAndForm{}
 	unifiers := []Core.Unifier{}
 
+	// The children that closed by themselves in a previous round do not answer anymore
+	for _, res := range *closed_alone {
+		for i, children_node_id := range child_order {
+			if children_node_id == res.getOriginalNodeId() {
+				proof_tab[i] = res.getProof()
+				unifiers = append(unifiers, res.getUnifier())
+				break
+			}
+		}
+	}
+
 	// Counters
 	cpt_children_returning_subst := 0
 	cpt_remaining_children := len(*children)
@@ -762,6 +774,9 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 			if res.closed {
 				unif := res.getUnifier()
 				unifiers = append(unifiers, unif)
+				if !res.need_answer {
+					*closed_alone = append(*closed_alone, res)
+				}
 
 				if len(res.subst_list_for_father) != 0 {
 					debug(
-- 
2.43.0


From 20fa3244255a78b5af6bfcb55fb08874024b919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 18/56] fix: restricting a substitution forgot that two
 metavariables are equal through a local one

---
 src/Core/substitutions_search.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index 97b6d3a..43c03f5 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -102,7 +102,6 @@ func RemoveElementWithoutMM(
 				case AST.Meta:
 					if relevantMetas.Contains(meta) &&
 						relevantMetas.Contains(typedTerm) {
-						subst_to_reorganize.Set(meta, typedTerm)
 						res.Set(meta, typedTerm)
 					}
 
@@ -121,6 +120,19 @@ func RemoveElementWithoutMM(
 		}
 	}
 
+	// Metavariables mapped to the same irrelevant metavariable have to be equal: it should not be forgotten.
+	for _, singleSubs := range subs.GetSlice() {
+		switch single_subst := singleSubs.Substitution().(type) {
+		case Lib.Some[Unif.Substitution]:
+			meta, term := single_subst.Val.Get()
+			if typedTerm, isMeta := term.(AST.Meta); isMeta &&
+				relevantMetas.Contains(meta) &&
+				!relevantMetas.Contains(typedTerm) {
+				subst_to_reorganize.Set(meta, typedTerm)
+			}
+		}
+	}
+
 	debug(
 		Lib.MkLazy(func() string {
 			return fmt.Sprintf(
-- 
2.43.0


From a4a75f207f4eeef8291f9c8e92e95a3a6df4068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 19/56] fix: the literal index lost bindings when a stored
 metavariable was bound twice

Matching r(X1,X3,c) with r(X3,X0,X1) forgot X0 -> c, and cycles of three
metavariables made a unifiable literal be missed.
---
 src/Unif/substitutions_tree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..6b85120 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -87,11 +87,15 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		)
 
 		if !currentMeta.Equals(currentValue) {
+			// currentMeta may already be bound in treeSubs, directly or through other metas: both values have to agree
+			treeSubs = AddUnification(currentMeta.Copy(), currentValue.Copy(), treeSubs.Copy())
+			if treeSubs.Equals(Failure()) {
+				return Failure()
+			}
 			// Si current_meta a déjà une association dans metas
 			metaGet, index := metasToSubs.Get(currentMeta)
 			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
 				// On cherche a unifier les deux valeurs
-				treeSubs.Set(currentMeta, currentValue)
 				new_unif := AddUnification(currentValue.Copy(), metaGet.Copy(), treeSubs.Copy())
 				if new_unif.Equals(Failure()) {
 					return Failure()
@@ -99,8 +103,6 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 					treeSubs = new_unif
 					metasToSubs.Remove(index) // Remove from meta
 				}
-			} else { // Ne pas ajouter la susbtitution égalité
-				treeSubs.Set(currentMeta, currentValue)
 			}
 		}
 	}
-- 
2.43.0


From 17dead876a6476cddec292af0f01794c4e0cdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 20/56] fix: every type-Skolemization returned the same type
 constant

MakerId("skoTy") is a lookup: from the second call on it returned the first
symbol, so ! [A: $tType, B: $tType] : (p(A,c) => p(B,c)) was 'proved'.
---
 src/Core/skolemisation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..2524988 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -128,7 +128,7 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
+		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
-- 
2.43.0


From d5e017580d1268d11d7758606ea2538cac7dca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 21/56] fix: DMT rules introduced metavariables shared by all
 their uses

---
 src/Mods/dmt/axiom_registration.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index a813b2b..8ef8eea 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -196,13 +196,27 @@ func isEqualityPred(f AST.Form) bool {
 }
 
 func addEquRewriteRuleIfNotEquality(f1, f2 AST.Form) bool {
-	if isEqualityPred(f1) {
+	if isEqualityPred(f1) || introducesMetas(f1, f2) {
 		return false
 	}
 	addEquivalenceRewriteRule(f1, f2)
 	return true
 }
 
+/**
+ * A rule atom ---> form is only usable if the instantiation of atom determines the one of form: a metavariable of
+ * form that does not occur in atom would be introduced in the proof-search, and shared by all the uses of the rule.
+ **/
+func introducesMetas(atom, form AST.Form) bool {
+	metas := atom.GetMetas()
+	for _, m := range form.GetMetas().Elements().GetSlice() {
+		if !metas.Contains(m) {
+			return true
+		}
+	}
+	return false
+}
+
 func addEquivalenceRewriteRule(axiom, cons AST.Form) {
 	if Glob.Is[AST.Not](axiom) {
 		addPosRewriteRule(axiom, AST.MakerNot(cons))
@@ -232,7 +246,10 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		return false
 	}
 
-	if isAtomic(phi1) {
+	registered := false
+
+	if isAtomic(phi1) && !introducesMetas(phi1, phi2) {
+		registered = true
 		if Glob.Is[AST.Pred](phi1) {
 			addPosRewriteRule(phi1, phi2)
 		} else {
@@ -242,7 +259,8 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 
 	// This line currently blocks the generation of a rewrite rule if there is
 	// an equality atom on the right-side of the formula.
-	if isAtomic(phi2) && !isEqualityPred(phi2) {
+	if isAtomic(phi2) && !isEqualityPred(phi2) && !introducesMetas(phi2, phi1) {
+		registered = true
 		if Glob.Is[AST.Pred](phi2) {
 			addNegRewriteRule(phi2, AST.MakerNot(phi1))
 		} else {
@@ -250,7 +268,7 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		}
 	}
 
-	return true
+	return registered
 }
 
 // End rewrite rule from implicated formula.
-- 
2.43.0


From 08326be88160bfc5023935311eb66d8f6484496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 22/56] fix: DMT used polymorphic axioms as if they were
 monomorphic rules

---
 src/Mods/dmt/axiom_registration.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 8ef8eea..f8bfbdb 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -52,6 +52,11 @@ func InitDebugger() {
 }
 
 func RegisterAxiom(axiom AST.Form) bool {
+	// Rules are instantiated on terms only, hence a polymorphic axiom cannot be used as a rule.
+	if quantifiesTypes(axiom) {
+		return false
+	}
+
 	axiomFT := instanciateForalls(axiom)
 
 	if isRegisterableAsEqu(axiomFT) {
@@ -65,6 +70,15 @@ func RegisterAxiom(axiom AST.Form) bool {
 	return false
 }
 
+func quantifiesTypes(axiom AST.Form) bool {
+	all, isAll := axiom.(AST.All)
+	if !isAll {
+		return false
+	}
+	return all.GetVarList().Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) ||
+		quantifiesTypes(all.GetForm())
+}
+
 func instanciateForalls(axiom AST.Form) AST.Form {
 	axiomFT := Core.MakeFormAndTerm(axiom.Copy(), Lib.NewList[AST.Term]())
 	for Glob.Is[AST.All](axiomFT.GetForm()) {
-- 
2.43.0


From 4c93b3b0a5990b8dafe1b70ec63a712106953e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 23/56] fix: DMT took $true and $false for literals to rewrite
 (crash on implications)

---
 src/Mods/dmt/axiom_registration.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index f8bfbdb..f86a9ad 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -193,6 +193,14 @@ func isAtomic(f AST.Form) bool {
 	return Core.ShowKindOfRule(f) == Core.Atomic
 }
 
+// Top and Bot are atomic, but there is nothing to rewrite in them.
+func isLiteral(f AST.Form) bool {
+	if not, isNot := f.(AST.Not); isNot {
+		f = not.GetForm()
+	}
+	return Glob.Is[AST.Pred](f)
+}
+
 func areBothAtomics(f1, f2 AST.Form) bool {
 	return isAtomic(f1) && isAtomic(f2)
 }
@@ -210,7 +218,7 @@ func isEqualityPred(f AST.Form) bool {
 }
 
 func addEquRewriteRuleIfNotEquality(f1, f2 AST.Form) bool {
-	if isEqualityPred(f1) || introducesMetas(f1, f2) {
+	if !isLiteral(f1) || isEqualityPred(f1) || introducesMetas(f1, f2) {
 		return false
 	}
 	addEquivalenceRewriteRule(f1, f2)
@@ -262,7 +270,7 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 
 	registered := false
 
-	if isAtomic(phi1) && !introducesMetas(phi1, phi2) {
+	if isLiteral(phi1) && !introducesMetas(phi1, phi2) {
 		registered = true
 		if Glob.Is[AST.Pred](phi1) {
 			addPosRewriteRule(phi1, phi2)
@@ -273,7 +281,7 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 
 	// This line currently blocks the generation of a rewrite rule if there is
 	// an equality atom on the right-side of the formula.
-	if isAtomic(phi2) && !isEqualityPred(phi2) && !introducesMetas(phi2, phi1) {
+	if isLiteral(phi2) && !isEqualityPred(phi2) && !introducesMetas(phi2, phi1) {
 		registered = true
 		if Glob.Is[AST.Pred](phi2) {
 			addNegRewriteRule(phi2, AST.MakerNot(phi1))
-- 
2.43.0


From ed4408f31646cd95a4101e203289ac0cab507440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 24/56] fix: operations on sets modified the sets they were
 applied to

---
 src/Lib/sets.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index be86e7d..46c0d50 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -77,6 +77,12 @@ func mkNode[T Ordered](x T) *Node[T] {
 	return n
 }
 
+// Trees are shared between sets: a node is duplicated before being modified.
+func dupNode[T Ordered](node *Node[T]) *Node[T] {
+	n := *node
+	return &n
+}
+
 func balance[T Ordered](node *Node[T]) int {
 	if node == nil {
 		return 0
@@ -89,7 +95,8 @@ func newHeight[T Ordered](node *Node[T]) int {
 }
 
 func rotateLeft[T Ordered](w *Node[T]) *Node[T] {
-	n := w.left
+	w = dupNode(w)
+	n := dupNode(w.left)
 	w.left = n.right
 	n.right = w
 	w.height = newHeight(w)
@@ -98,7 +105,8 @@ func rotateLeft[T Ordered](w *Node[T]) *Node[T] {
 }
 
 func rotateRight[T Ordered](w *Node[T]) *Node[T] {
-	n := w.right
+	w = dupNode(w)
+	n := dupNode(w.right)
 	w.right = n.left
 	n.left = w
 	w.height = newHeight(w)
@@ -141,6 +149,7 @@ func insert[T Ordered](node *Node[T], x T) *Node[T] {
 		return node
 	}
 
+	node = dupNode(node)
 	if x.Less(node.value) {
 		node.left = insert(node.left, x)
 	} else {
@@ -163,6 +172,7 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 		return node
 	}
 
+	node = dupNode(node)
 	if x.Less(node.value) {
 		node.left = remove(node.left, x)
 	} else if node.value.Less(x) {
@@ -176,7 +186,7 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 			if n == nil {
 				return nil
 			} else {
-				node = n
+				node = dupNode(n)
 			}
 		} else {
 			newVal := minValue(node.right)
-- 
2.43.0


From c214130a97f9175491e52638630051cffc9424ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 25/56] fix: filtering a set always returned the empty set

---
 src/Lib/sets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 46c0d50..3c591d6 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -332,7 +332,7 @@ func (s Set[T]) Filter(pred Func[T, bool]) Set[T] {
 	res := EmptySet[T]()
 	for _, x := range s.Elements().GetSlice() {
 		if pred(x) {
-			res.Add(x)
+			res = res.Add(x)
 		}
 	}
 	return res
-- 
2.43.0


From 3c47e0e8e4d3c95eb51340d6020750b9edf32d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 26/56] fix: sets lost their balance after copies and removals

---
 src/Lib/sets.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 3c591d6..7405820 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -118,7 +118,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 	nodeBalance := balance(node)
 
 	if nodeBalance > 1 {
-		if balance(node.left) > 0 {
+		if balance(node.left) >= 0 {
 			// Unbalanced by left child of left child
 			return rotateLeft(node)
 		} else {
@@ -128,7 +128,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 		}
 	}
 	if nodeBalance < -1 {
-		if balance(node.right) < 0 {
+		if balance(node.right) <= 0 {
 			// Unbalanced by right child of right child
 			return rotateRight(node)
 		} else {
@@ -244,6 +244,7 @@ func nodeCpy[T Ordered](node *Node[T]) *Node[T] {
 	}
 
 	newNode := mkNode(node.value)
+	newNode.height = node.height
 	newNode.left = nodeCpy(node.left)
 	newNode.right = nodeCpy(node.right)
 
-- 
2.43.0


From f1d4e0fab965d6820968b33f649db3fca27f555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 27/56] fix: extending a list or a slice of it could overwrite
 another list

---
 src/Lib/list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Lib/list.go b/src/Lib/list.go
index 7ff93f3..ed13012 100644
--- a/src/Lib/list.go
+++ b/src/Lib/list.go
@@ -33,6 +33,7 @@
 package Lib
 
 import (
+	"slices"
 	"strings"
 )
 
@@ -89,7 +90,7 @@ func (l List[T]) At(i int) T {
 }
 
 func (l List[T]) Slice(st, ed int) List[T] {
-	return List[T]{values: l.values[st:ed]}
+	return List[T]{values: slices.Clip(l.values[st:ed])}
 }
 
 func (l List[T]) Equals(cmp Func2[T, T, bool], ls0, ls1 List[T]) bool {
@@ -204,6 +205,7 @@ func (l *List[T]) Add(cmpFunc Func2[T, T, bool], x ...T) {
 
 func ListAdd[T Comparable](l List[T], x ...T) List[T] {
 	cmp := func(x, y T) bool { return x.Equals(y) }
+	l.values = slices.Clip(l.values)
 	l.Add(cmp, x...)
 	return l
 }
-- 
2.43.0


From 3f5a8b342449df18f52c225098c298a3fded624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 28/56] fix: the branches of an abandoned DMT rewriting waited
 for ever

---
 src/Search/child_management.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index a776798..934ba3a 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -326,6 +326,9 @@ func (ds *destructiveSearch) manageOpenedChild(args wcdArgs) {
 
 func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	// Let's try to launch ourselves again with another formula, kept in the backtrack formulas.
+	// The children of the previous rewriting are waiting for an order, and will not get another one.
+	closeChildren(&args.children, true)
+
 	nextSaF := args.formsBT[0].Copy()
 	nextForm := nextSaF.GetSaf().GetForm()[0].Copy()
 	args.formsBT = args.formsBT[1:]
-- 
2.43.0


From 5b75ddf4a3646e0aac79862d66c7a4786f6e9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 29/56] verif: observation points of the protocol between
 branches (no effect without the tag verif)

---
 src/Search/children.go    |   7 +
 src/Search/destructive.go |  12 ++
 src/Search/hook_noop.go   |  52 ++++++++
 src/Search/hook_verif.go  | 267 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 338 insertions(+)
 create mode 100644 src/Search/hook_noop.go
 create mode 100644 src/Search/hook_verif.go

diff --git a/src/Search/children.go b/src/Search/children.go
index c83a284..9622b90 100644
--- a/src/Search/children.go
+++ b/src/Search/children.go
@@ -130,8 +130,10 @@ func closeChildren(children *[]Communication, kill bool) {
 	for i, v := range *children {
 		select {
 		case v.quit <- kill:
+			hookStop(v, kill)
 			debug(Lib.MkLazy(func() string { return "Send close order" }))
 		case res := <-v.result:
+			hookReceived(v, res)
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
@@ -141,6 +143,7 @@ func closeChildren(children *[]Communication, kill bool) {
 			)
 			if res.need_answer {
 				v.quit <- kill
+				hookStop(v, kill)
 			} else {
 				debug(
 					Lib.MkLazy(func() string { return "Not send, child already dead" }),
@@ -172,6 +175,7 @@ func sendSubToChildren(children []Communication, s Core.SubstAndForm) {
 			[]Core.SubstAndForm{},
 			Lib.NewList[Lib.List[Unif.MixedSubstitution]](),
 			nil, -1, -1, Core.MakeUnifier()}
+		hookTell(v, s)
 	}
 }
 
@@ -185,6 +189,7 @@ func sendForbiddenToChildren(children []Communication, s Lib.List[Lib.List[Unif.
 			Lib.MkLazy(func() string { return fmt.Sprintf("children : %v/%v", i+1, len(children)) }),
 		)
 		v.result <- Result{Glob.GetGID(), true, true, Core.MakeEmptySubstAndForm(), []Core.SubstAndForm{}, s, nil, -1, -1, Core.MakeUnifier()}
+		hookTell(v, Core.MakeEmptySubstAndForm())
 	}
 }
 
@@ -234,12 +239,14 @@ func (ds *destructiveSearch) sendSubToFather(c Communication, closed, need_answe
 		Core.CopySubstAndFormList(subst_for_father),
 		Lib.NewList[Lib.List[Unif.MixedSubstitution]](),
 		st.GetProof(), node_id, original_node_id, st.GetGlobUnifier()}:
+		hookAnswered(c)
 		if need_answer {
 			ds.waitFather(father_id, st, c, Core.FusionSubstAndFormListWithoutDouble(subst_for_father, given_substs), node_id, original_node_id, []int{}, meta_to_reintroduce)
 		} else {
 			debug(Lib.MkLazy(func() string { return "Die" }))
 		}
 	case quit := <-c.quit:
+		hookStopped(c, quit)
 		ds.manageQuitOrder(quit, c, father_id, st, []Communication{}, given_substs, node_id, original_node_id, []int{}, meta_to_reintroduce)
 	}
 }
diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 9423a90..e20bd00 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -123,6 +123,7 @@ func (ds *destructiveSearch) doOneStep(limit int, formula AST.Form) (bool, int)
 	}
 
 	nodeId := Glob.IncrCptNode()
+	hookRoot(c)
 	go ds.ProofSearch(Glob.GetGID(), state, c, Core.MakeEmptySubstAndForm(), nodeId, nodeId, []int{}, false)
 	Glob.IncrGoRoutine(1)
 
@@ -136,6 +137,7 @@ func (ds *destructiveSearch) doOneStep(limit int, formula AST.Form) (bool, int)
 	)
 
 	unifier, finalProof, result := ds.manageResult(c)
+	hookEnd()
 
 	if result {
 		if Glob.GetProof() {
@@ -289,6 +291,7 @@ func (ds *destructiveSearch) ProofSearch(father_id uint64, st State, cha Communi
 	// Select to check kill order
 	select {
 	case quit := <-cha.quit:
+		hookStopped(cha, quit)
 		ds.manageQuitOrder(quit, cha, father_id, st, nil, st.GetSubstsFound(), node_id, original_node_id, nil, meta_to_reintroduce)
 	default:
 		// Apply subst if needed
@@ -435,9 +438,11 @@ func (ds *destructiveSearch) getAtomicsForDMT(new_atomics Core.FormAndTermsList,
 /** Waits for its children to end, and manages their return status. */
 func (ds *destructiveSearch) waitChildren(args wcdArgs) {
 	args.printDebugMessages()
+	hookWaiting(args)
 
 	select {
 	case quit := <-args.c.quit:
+		hookStopped(args.c, quit)
 		WriteExchanges(args.fatherId, args.st, args.givenSubsts, args.currentSubst, "WaitChildren - Die")
 		ds.manageQuitOrder(quit, args.c, args.fatherId, args.st, args.children, args.givenSubsts, args.nodeId, args.originalNodeId, args.childOrdering, args.toReintroduce)
 		return
@@ -458,6 +463,7 @@ func (ds *destructiveSearch) waitChildren(args wcdArgs) {
 					Core.SubstAndFormListToString(substs))
 			}),
 		)
+		hookRound(args, status, substs)
 		if status == CLOSE_BY_ITSELF || status == SUBST_FOR_PARENT {
 			// Updates the Glob unifier using the children's. Every substitution is compatible.
 			args.st.SetGlobUnifier(Core.MergeUnifierList(unifiers))
@@ -508,11 +514,13 @@ func (ds *destructiveSearch) waitFather(father_id uint64, st State, c Communicat
 
 	select {
 	case quit := <-c.quit:
+		hookStopped(c, quit)
 		WriteExchanges(father_id, st, given_substs, Core.MakeEmptySubstAndForm(), "WaitFather - Die")
 		ds.manageQuitOrder(quit, c, father_id, st, []Communication{}, given_substs, node_id, original_node_id, child_order, meta_to_reintroduce)
 		return
 
 	case answer_father := <-c.result:
+		hookTold(c, answer_father, st)
 		subst := answer_father.getSubstForChildren()
 
 		// Update to prune everything that shouldn't happen.
@@ -740,6 +748,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 
 		// Manage quit order
 		if index == index_quit {
+			hookStopped(father, value.Interface().(bool))
 			debug(Lib.MkLazy(func() string { return "Quit order" }))
 			if !value.Interface().(bool) {
 				debug(Lib.MkLazy(func() string { return "Quit order says to wait father" }))
@@ -750,6 +759,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 		} else {
 			cpt_remaining_children--
 			res := value.Interface().(Result)
+			hookReceived((*children)[index], res)
 
 			index_children := -1
 			for i, children_node_id := range child_order {
@@ -1440,6 +1450,7 @@ func (ds *destructiveSearch) manageReintroductionRules(fatherId uint64, state St
 
 func (ds *destructiveSearch) manageResult(c Communication) (Core.Unifier, []ProofStruct, bool) {
 	result := <-c.getResult()
+	hookReceived(c, result)
 
 	debug(
 		Lib.MkLazy(func() string { return fmt.Sprintf("Proof : %v", ProofStructListToString(result.getProof())) }),
@@ -1447,6 +1458,7 @@ func (ds *destructiveSearch) manageResult(c Communication) (Core.Unifier, []Proo
 
 	if result.needsAnswer() {
 		c.getQuit() <- true
+		hookStop(c, true)
 		debug(Lib.MkLazy(func() string { return "Close order sent" }))
 	} else {
 		debug(Lib.MkLazy(func() string { return "Close order not sent" }))
diff --git a/src/Search/hook_noop.go b/src/Search/hook_noop.go
new file mode 100644
index 0000000..2dfb2cb
--- /dev/null
+++ b/src/Search/hook_noop.go
@@ -0,0 +1,52 @@
+//go:build !verif
+
+/**
+* Copyright 2022 by the authors (see AUTHORS).
+*
+* Goéland is an automated theorem prover for first order logic.
+*
+* This software is governed by the CeCILL license under French law and
+* abiding by the rules of distribution of free software.  You can  use,
+* modify and/ or redistribute the software under the terms of the CeCILL
+* license as circulated by CEA, CNRS and INRIA at the following URL
+* "http://www.cecill.info".
+*
+* As a counterpart to the access to the source code and  rights to copy,
+* modify and redistribute granted by the license, users are provided only
+* with a limited warranty  and the software's author,  the holder of the
+* economic rights,  and the successive licensors  have only  limited
+* liability.
+*
+* In this respect, the user's attention is drawn to the risks associated
+* with loading,  using,  modifying and/or developing or reproducing the
+* software by the user in light of its specific status of free software,
+* that may mean  that it is complicated to manipulate,  and  that  also
+* therefore means  that it is reserved for developers  and  experienced
+* professionals having in-depth computer knowledge. Users are therefore
+* encouraged to load and test the software's suitability as regards their
+* requirements in conditions enabling the security of their systems and/or
+* data to be ensured and,  more generally, to use and operate it in the
+* same conditions as regards security.
+*
+* The fact that you are presently reading this means that you have had
+* knowledge of the CeCILL license and that you accept its terms.
+**/
+
+/**
+* Observation points of the protocol between branches. They do nothing unless built with the tag verif (see hook_verif.go).
+**/
+
+package Search
+
+import "github.com/GoelandProver/Goeland/Core"
+
+func hookRoot(_ Communication)                          {}
+func hookEnd()                                          {}
+func hookWaiting(_ wcdArgs)                             {}
+func hookAnswered(_ Communication)                      {}
+func hookReceived(_ Communication, _ Result)            {}
+func hookStopped(_ Communication, _ bool)               {}
+func hookStop(_ Communication, _ bool)                  {}
+func hookTell(_ Communication, _ Core.SubstAndForm)     {}
+func hookTold(_ Communication, _ Result, _ State)       {}
+func hookRound(_ wcdArgs, _ int, _ []Core.SubstAndForm) {}
diff --git a/src/Search/hook_verif.go b/src/Search/hook_verif.go
new file mode 100644
index 0000000..62b0ad2
--- /dev/null
+++ b/src/Search/hook_verif.go
@@ -0,0 +1,267 @@
+//go:build verif
+
+/**
+* Copyright 2022 by the authors (see AUTHORS).
+*
+* Goéland is an automated theorem prover for first order logic.
+*
+* This software is governed by the CeCILL license under French law and
+* abiding by the rules of distribution of free software.  You can  use,
+* modify and/ or redistribute the software under the terms of the CeCILL
+* license as circulated by CEA, CNRS and INRIA at the following URL
+* "http://www.cecill.info".
+*
+* As a counterpart to the access to the source code and  rights to copy,
+* modify and redistribute granted by the license, users are provided only
+* with a limited warranty  and the software's author,  the holder of the
+* economic rights,  and the successive licensors  have only  limited
+* liability.
+*
+* In this respect, the user's attention is drawn to the risks associated
+* with loading,  using,  modifying and/or developing or reproducing the
+* software by the user in light of its specific status of free software,
+* that may mean  that it is complicated to manipulate,  and  that  also
+* therefore means  that it is reserved for developers  and  experienced
+* professionals having in-depth computer knowledge. Users are therefore
+* encouraged to load and test the software's suitability as regards their
+* requirements in conditions enabling the security of their systems and/or
+* data to be ensured and,  more generally, to use and operate it in the
+* same conditions as regards security.
+*
+* The fact that you are presently reading this means that you have had
+* knowledge of the CeCILL license and that you accept its terms.
+**/
+
+/**
+* Observation points of the protocol between branches: with the tag verif, and if GV_TRACE names a file, each of them
+* writes a line to it. A branch search is named after the channel it shares with its parent. GV_SCHED (a number) makes
+* the searches pause at these points, to vary the schedules.
+**/
+
+package Search
+
+import (
+	"encoding/json"
+	"math/rand"
+	"os"
+	"runtime"
+	"strconv"
+	"strings"
+	"sync"
+	"time"
+
+	"github.com/GoelandProver/Goeland/AST"
+	"github.com/GoelandProver/Goeland/Core"
+	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Unif"
+)
+
+type hookObj map[string]any
+
+var hookStatus = map[int]string{CLOSE_BY_ITSELF: "close", SUBST_FOR_PARENT: "parent", SUBST_FOR_CHILDREN: "children",
+	QUIT: "quit", WAIT: "wait", OPENED: "opened"}
+
+var hookMutex sync.Mutex
+var hookNames = map[chan Result]int{}
+var hookFile *os.File
+var hookCount = 0
+var hookRand *rand.Rand
+
+func init() {
+	if name := os.Getenv("GV_TRACE"); name != "" {
+		hookFile, _ = os.Create(name)
+	}
+	if seed, err := strconv.Atoi(os.Getenv("GV_SCHED")); err == nil {
+		hookRand = rand.New(rand.NewSource(int64(seed)))
+	}
+}
+
+func hookPause() {
+	if hookRand == nil {
+		return
+	}
+	hookMutex.Lock()
+	n := hookRand.Intn(8)
+	d := hookRand.Intn(400)
+	hookMutex.Unlock()
+	if n < 3 {
+		time.Sleep(time.Duration(d) * time.Microsecond)
+	} else if n < 6 {
+		runtime.Gosched()
+	}
+}
+
+func hookName(c Communication) int {
+	if n, ok := hookNames[c.result]; ok {
+		return n
+	}
+	hookNames[c.result] = len(hookNames) + 1
+	return len(hookNames)
+}
+
+func hookEmit(c Communication, o hookObj) {
+	if hookFile == nil {
+		return
+	}
+	hookMutex.Lock()
+	defer hookMutex.Unlock()
+	hookCount++
+	if hookCount > 20000 {
+		return
+	}
+	if c.result != nil {
+		o["c"] = hookName(c)
+	}
+	if cs, ok := o["ks"].([]Communication); ok {
+		ks := []int{}
+		for _, k := range cs {
+			ks = append(ks, hookName(k))
+		}
+		o["ks"] = ks
+	}
+	line, _ := json.Marshal(o)
+	hookFile.Write(append(line, 10))
+}
+
+func hookTy(t AST.Ty) hookObj {
+	switch ty := t.(type) {
+	case AST.TyMeta:
+		m := AST.TyToTerm(ty).(AST.Meta)
+		return hookObj{"k": "m", "n": "$T" + m.GetName() + "_" + strconv.Itoa(m.GetIndex()), "a": []hookObj{}}
+	case AST.TyConstr:
+		args := []hookObj{}
+		for _, a := range ty.Args().GetSlice() {
+			args = append(args, hookTy(a))
+		}
+		return hookObj{"k": "f", "n": "$ty:" + ty.Symbol(), "a": args}
+	}
+	return hookObj{"k": "f", "n": "$ty:" + t.ToString(), "a": []hookObj{}}
+}
+
+func hookTerm(t AST.Term) hookObj {
+	args := []hookObj{}
+	switch x := t.(type) {
+	case AST.Meta:
+		return hookObj{"k": "m", "n": x.GetName() + "_" + strconv.Itoa(x.GetIndex()), "a": args}
+	case AST.Fun:
+		for _, ty := range x.GetTyArgs().GetSlice() {
+			args = append(args, hookTy(ty))
+		}
+		for _, u := range x.GetArgs().GetSlice() {
+			args = append(args, hookTerm(u))
+		}
+		return hookObj{"k": "f", "n": x.GetID().ToString(), "a": args}
+	}
+	return hookObj{"k": "f", "n": "?" + t.ToString(), "a": args}
+}
+
+func hookSubst(s Lib.List[Unif.MixedSubstitution]) [][]hookObj {
+	res := [][]hookObj{}
+	for _, m := range s.GetSlice() {
+		switch x := m.Substitution().(type) {
+		case Lib.Some[Unif.Substitution]:
+			k, v := x.Val.Get()
+			res = append(res, []hookObj{hookTerm(k), hookTerm(v)})
+		}
+		switch x := m.TySubstitution().(type) {
+		case Lib.Some[Unif.TySubstitution]:
+			k, v := x.Val.Get()
+			res = append(res, []hookObj{hookTy(k), hookTy(v)})
+		}
+	}
+	return res
+}
+
+func hookSubsts(l []Core.SubstAndForm) [][][]hookObj {
+	res := [][][]hookObj{}
+	for _, s := range l {
+		res = append(res, hookSubst(s.GetSubst()))
+	}
+	return res
+}
+
+func hookMetas(s Lib.Set[AST.Meta]) []hookObj {
+	res := []hookObj{}
+	for _, m := range s.Elements().GetSlice() {
+		o := hookTerm(m)
+		if AST.IsTType(m.GetTy()) {
+			o["n"] = "$T" + o["n"].(string)
+		}
+		res = append(res, o)
+	}
+	return res
+}
+
+// A search starts, c is the channel of its first branch.
+func hookRoot(c Communication) { hookEmit(c, hookObj{"op": "root"}) }
+
+// A search has its answer: its branches have to stop.
+func hookEnd() {
+	if hookFile == nil {
+		return
+	}
+	alive := 0
+	for i := 0; i < 400; i++ {
+		buf := make([]byte, 1<<20)
+		stacks := strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n")
+		alive = 0
+		for _, s := range stacks[1:] {
+			if strings.Contains(s, "/Search.") && !strings.Contains(s, "main.main()") {
+				alive++
+			}
+		}
+		if alive == 0 {
+			break
+		}
+		time.Sleep(5 * time.Millisecond)
+	}
+	hookEmit(Communication{}, hookObj{"op": "end", "alive": alive})
+}
+
+// The owner of args.c starts to wait for args.children.
+func hookWaiting(args wcdArgs) {
+	hookEmit(args.c, hookObj{"op": "kids", "ks": args.children, "cur": hookSubst(args.currentSubst.GetSubst())})
+	hookPause()
+}
+
+// The owner of c has given its answer.
+func hookAnswered(c Communication) {
+	hookEmit(c, hookObj{"op": "answered"})
+	hookPause()
+}
+
+// The parent of c has received its answer.
+func hookReceived(c Communication, r Result) {
+	hookEmit(c, hookObj{"op": "received", "closed": r.closed, "need": r.need_answer, "ss": hookSubsts(r.subst_list_for_father), "gid": r.original_node_id})
+	hookPause()
+}
+
+// The owner of c has received an order to quit, or to wait.
+func hookStopped(c Communication, quit bool) {
+	hookEmit(c, hookObj{"op": "stopped", "kill": quit})
+	hookPause()
+}
+
+// The parent of c has given it this order.
+func hookStop(c Communication, quit bool) {
+	hookEmit(c, hookObj{"op": "stop", "kill": quit})
+	hookPause()
+}
+
+// The parent of c has sent it a substitution to apply.
+func hookTell(c Communication, s Core.SubstAndForm) {
+	hookEmit(c, hookObj{"op": "tell", "s": hookSubst(s.GetSubst())})
+	hookPause()
+}
+
+// The owner of c has received a substitution to apply.
+func hookTold(c Communication, r Result, st State) {
+	hookEmit(c, hookObj{"op": "told", "s": hookSubst(r.subst_for_children.GetSubst()), "mc": hookMetas(st.GetMC())})
+	hookPause()
+}
+
+// The owner of args.c has decided what the answers of its children amount to.
+func hookRound(args wcdArgs, status int, ss []Core.SubstAndForm) {
+	hookEmit(args.c, hookObj{"op": "round", "st": hookStatus[status], "ss": hookSubsts(ss), "ap": hookSubst(args.st.GetAppliedSubst().GetSubst()), "mm": hookMetas(args.st.GetMM())})
+	hookPause()
+}
-- 
2.43.0


From eda8dae167de1186ce20c2869ea986fb3441d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 30/56] fix: a quantifier without a space before its variables
 was rejected

---
 src/Parser/tptp_lex.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..15ebeb1 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -235,18 +235,13 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 			word += ">"
 			quantifiersCounter += 1
 		} else {
-			if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
-				quantifiersCounter += 1
-			} else {
+			if lexer.pos < len(lexer.s) && lexer.checkNext('=') { // !=
 				return FAILURE_TOKEN, false
 			}
-		}
-	case '?':
-		if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
 			quantifiersCounter += 1
-		} else {
-			return FAILURE_TOKEN, false
 		}
+	case '?':
+		quantifiersCounter += 1
 	case '<':
 		if lexer.checkAdvance('=') { // <=> or <=
 			word += "="
-- 
2.43.0


From 191fb52d7e0ac328ef89219896cfccba7dc9f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 31/56] fix: an unknown character silently ended the problem

---
 src/Parser/tptp_lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 15ebeb1..d383f90 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -820,6 +820,8 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	// FAILURE_TOKEN means EOF for the parser, which would then ignore the rest of the file.
+	lexer.Error(fmt.Sprintf("unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
-- 
2.43.0


From 21f0108ed1df15a4320c5220ab004e78c79448d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 32/56] fix: a line comment ended at a tab or a non-ASCII
 character

---
 src/Parser/tptp_lex.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index d383f90..3558cb1 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -94,13 +94,13 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 // ----------------------------------------------------------------------------
 
 // <comment>              ::- <comment_line>|<comment_block>
-// <comment_line>         ::- [%]<printable_char>*
+// <comment_line>         ::- [%]<printable_char>* (any character up to the end of the line is accepted)
 // <comment_block>        ::: [/][*]<not_star_slash>[*][*]*[/]
 // Returns false if the next char is EOF
 func (lexer *TPTPLex) filterComments() bool {
 	if lexer.c == '%' { // Comment line
 		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.isPrintableChar() {
+		for lexer.pos < len(lexer.s) && lexer.c != '\n' {
 			lexer.advance()
 		}
 		return lexer.pos < len(lexer.s)
@@ -140,14 +140,6 @@ func (lexer *TPTPLex) filterSpaces() bool {
 	return lexer.pos < len(lexer.s)
 }
 
-// <printable_char>       ::: .
-// %----<printable_char> is any printable ASCII character, codes 32 (space) to 126
-// %----(tilde). <printable_char> does not include tabs, newlines, bells, etc. The
-// %----use of . does not not exclude tab, so this is a bit loose.
-func (lexer *TPTPLex) isPrintableChar() bool {
-	return int(lexer.c) >= 32 && int(lexer.c) <= 126
-}
-
 // <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
 func (lexer *TPTPLex) notStarSlash() bool {
 	return lexer.c != '*' || !lexer.checkAdvance('/')
-- 
2.43.0


From 9a62a680a5a036c70407fd940a2fa54c8072bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 33/56] fix: a problem whose last character is its final dot
 was rejected

---
 src/Parser/tptp_lex.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 3558cb1..2b39980 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -99,15 +99,18 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 // Returns false if the next char is EOF
 func (lexer *TPTPLex) filterComments() bool {
 	if lexer.c == '%' { // Comment line
-		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.c != '\n' {
+		for lexer.c != '\n' {
+			if lexer.pos == len(lexer.s) {
+				return false
+			}
 			lexer.advance()
 		}
-		return lexer.pos < len(lexer.s)
 	} else if lexer.c == '/' {
 		if lexer.checkAdvance('*') {
-			lexer.advance()
-			for lexer.pos < len(lexer.s) && lexer.notStarSlash() {
+			for first := true; first || lexer.notStarSlash(); first = false {
+				if lexer.pos == len(lexer.s) {
+					lexer.Error("Multi-line comment started but never ended.")
+				}
 				if lexer.c == '\n' {
 					yylineno += 1
 				}
@@ -115,29 +118,27 @@ func (lexer *TPTPLex) filterComments() bool {
 			}
 
 			if lexer.pos == len(lexer.s) {
-				lexer.Error("Multi-line comment started but never ended.")
-			}
-
-			// Finishes by */
-			if lexer.s[lexer.pos-2] == '*' {
-				lexer.advance()
+				return false
 			}
+			lexer.advance()
 		}
-		return lexer.pos < len(lexer.s)
 	}
 
 	return true
 }
 
 func (lexer *TPTPLex) filterSpaces() bool {
-	for lexer.pos < len(lexer.s) && (lexer.c == ' ' || lexer.c == '\n' || lexer.c == '\r' || lexer.c == '\t') {
+	for lexer.c == ' ' || lexer.c == '\n' || lexer.c == '\r' || lexer.c == '\t' {
+		if lexer.pos == len(lexer.s) {
+			return false
+		}
 		if lexer.c == '\n' {
 			yylineno += 1
 		}
 		lexer.advance()
 	}
 
-	return lexer.pos < len(lexer.s)
+	return true
 }
 
 // <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
@@ -775,6 +776,9 @@ func (lexer TPTPLex) Error(s string) {
 }
 
 func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
+	if lexer.pos == len(lexer.s) {
+		return FAILURE_TOKEN
+	}
 	lexer.advance()
 
 	// Filter out comments and spaces at the lexical level
-- 
2.43.0


From 5e1d3081be159d12cae237462f55cdc50680595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 34/56] fix: quoted words were confused with variables, numbers
 and defined symbols

---
 src/Mods/rocq/output.go |  2 +-
 src/Parser/tptp_lex.go  | 44 ++++++++++++++++++++++++++++++++++++-----
 src/Parser/tptp_parse.y |  2 +-
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/Mods/rocq/output.go b/src/Mods/rocq/output.go
index 1b75f8f..21cc320 100644
--- a/src/Mods/rocq/output.go
+++ b/src/Mods/rocq/output.go
@@ -122,7 +122,7 @@ func RocqPrinterAction() AST.PrinterAction {
 			return fmt.Sprintf("(%s : %s)", typed_var.Fst, sanitize_type(typed_var.Snd.ToString()))
 		},
 	)
-	rocq_action = rocq_action.Compose(AST.SanitizerAction(connectives, []string{"@"}))
+	rocq_action = rocq_action.Compose(AST.SanitizerAction(connectives, []string{"@", "'"}))
 	return rocq_action.Compose(AST.RemoveSuperfluousParenthesesAction(connectives))
 }
 
diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 2b39980..d989620 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -350,20 +350,54 @@ func (lexer *TPTPLex) quotedWords(yylval *TPTPSymType) int {
 	return FAILURE_TOKEN
 }
 
+// A quoted word that is not a lower_word keeps its quotes (and its escapes): 'X' is not X, '1' is not 1 and '=' is not =.
 func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
 	word := ""
 	for lexer.isSqChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '\'' {
-				word += string('\\' + lexer.c)
+			if lexer.c != '\\' && lexer.c != '\'' {
+				lexer.Error("illegal escape in a quoted word")
 			}
-		} else {
-			word += string(lexer.c)
+			word += "\\"
 		}
+		word += string(lexer.c)
 		lexer.advance()
 	}
-	yylval.str = word
+	if lexer.c != '\'' || word == "" {
+		lexer.Error("malformed quoted word")
+	}
+	if isLowerWord(word) {
+		yylval.str = word
+	} else {
+		yylval.str = "'" + word + "'"
+	}
+}
+
+func isLowerWord(word string) bool {
+	for i, c := range word {
+		isLower := c >= 'a' && c <= 'z'
+		isOther := c == '_' || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
+		if !isLower && (i == 0 || !isOther) {
+			return false
+		}
+	}
+	return word != ""
+}
+
+// The text denoted by a word given by [singleQuoted].
+func unquote(word string) string {
+	if len(word) < 2 || word[0] != '\'' {
+		return word
+	}
+	text := ""
+	for i := 1; i < len(word)-1; i++ {
+		if word[i] == '\\' {
+			i++
+		}
+		text += string(word[i])
+	}
+	return text
 }
 
 func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 17ec036..2c102e9 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -573,7 +573,7 @@ number: INTEGER { $$ = Lib.MkPair($1, MkTypeConst("$int").(PTypeFun)) }
   | REAL        { $$ = Lib.MkPair($1, MkTypeConst("$real").(PTypeFun)) }
   ;
 
-file_name: SINGLE_QUOTED { $$ = $1 }
+file_name: SINGLE_QUOTED { $$ = unquote($1) }
   ;
 %%
 
-- 
2.43.0


From df81d5b1e436091fc0a907f7d2f0189744a34023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 35/56] fix: a distinct object was confused with the constant
 of the same name

---
 src/Mods/rocq/output.go |  2 +-
 src/Parser/tptp_lex.go  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Mods/rocq/output.go b/src/Mods/rocq/output.go
index 21cc320..62b0e83 100644
--- a/src/Mods/rocq/output.go
+++ b/src/Mods/rocq/output.go
@@ -122,7 +122,7 @@ func RocqPrinterAction() AST.PrinterAction {
 			return fmt.Sprintf("(%s : %s)", typed_var.Fst, sanitize_type(typed_var.Snd.ToString()))
 		},
 	)
-	rocq_action = rocq_action.Compose(AST.SanitizerAction(connectives, []string{"@", "'"}))
+	rocq_action = rocq_action.Compose(AST.SanitizerAction(connectives, []string{"@", "'", "\""}))
 	return rocq_action.Compose(AST.RemoveSuperfluousParenthesesAction(connectives))
 }
 
diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index d989620..f680510 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -400,20 +400,24 @@ func unquote(word string) string {
 	return text
 }
 
+// A distinct object keeps its quotes: "cat" is not cat.
 func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 	word := ""
 	for lexer.isDoChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '"' {
-				word += string('\\' + lexer.c)
+			if lexer.c != '\\' && lexer.c != '"' {
+				lexer.Error("illegal escape in a distinct object")
 			}
-		} else {
-			word += string(lexer.c)
+			word += "\\"
 		}
+		word += string(lexer.c)
 		lexer.advance()
 	}
-	yylval.str = word
+	if lexer.c != '"' {
+		lexer.Error("malformed distinct object")
+	}
+	yylval.str = "\"" + word + "\""
 }
 
 // %---Space and visible characters upto ~, except ' and \
-- 
2.43.0


From 82a7c93234bc2f1416b39cbc8549534d905a1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 36/56] fix: corollaries were not accepted

---
 src/Parser/psyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 24c4bf1..f1c1f99 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -387,7 +387,7 @@ A function to get a FormulaRole from a String
 */
 func PFormulaRoleFromStr(role string) PFormulaRole {
 	switch role {
-	case "axiom", "hypothesis", "definition", "assumption", "lemma", "theorem":
+	case "axiom", "hypothesis", "definition", "assumption", "lemma", "theorem", "corollary":
 		return Axiom
 	case "conjecture":
 		return Conjecture
-- 
2.43.0


From 9f4edfbcad963820d233f9a83f56db21233f1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 37/56] fix: the formula selection of an include directive was
 ignored

---
 src/Core/statement.go            | 14 ++++++++++----
 src/Engine/syntax-translation.go |  2 +-
 src/Parser/psyntax.go            |  3 +++
 src/Parser/tptp_parse.y          | 18 ++++++++++--------
 src/main.go                      | 12 ++++++++++++
 5 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/Core/statement.go b/src/Core/statement.go
index 5598b74..45b13ee 100644
--- a/src/Core/statement.go
+++ b/src/Core/statement.go
@@ -59,6 +59,7 @@ type Statement struct {
 	role       FormulaRole
 	form       Lib.Option[AST.Form]
 	atomTyping Lib.Option[TFFAtomTyping]
+	selection  []string
 }
 
 func (s Statement) GetName() string {
@@ -74,16 +75,21 @@ func (s Statement) GetAtomTyping() Lib.Option[TFFAtomTyping] {
 	return s.atomTyping
 }
 
+// For an include, the names of the statements to keep, nil for all of them
+func (s Statement) GetSelection() []string {
+	return s.selection
+}
+
 func MakeFormStatement(s string, r FormulaRole, f AST.Form) Statement {
-	return Statement{s, r, Lib.MkSome(f), Lib.MkNone[TFFAtomTyping]()}
+	return Statement{s, r, Lib.MkSome(f), Lib.MkNone[TFFAtomTyping](), nil}
 }
 
 func MakeTypingStatement(s string, r FormulaRole, ty TFFAtomTyping) Statement {
-	return Statement{s, r, Lib.MkNone[AST.Form](), Lib.MkSome(ty)}
+	return Statement{s, r, Lib.MkNone[AST.Form](), Lib.MkSome(ty), nil}
 }
 
-func MakeIncludeStatement(s string) Statement {
-	return Statement{s, Include, Lib.MkNone[AST.Form](), Lib.MkNone[TFFAtomTyping]()}
+func MakeIncludeStatement(s string, selection []string) Statement {
+	return Statement{s, Include, Lib.MkNone[AST.Form](), Lib.MkNone[TFFAtomTyping](), selection}
 }
 
 // Formula roles (enumerate type)
diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..7cc550f 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -115,7 +115,7 @@ func elaborateParsingStatement(
 				Glob.Anomaly(elab_label, fmt.Sprintf(
 					"Statement %s is neither a formula nor a type nor an include", statement.ToString()))
 			} else {
-				core_statement = Core.MakeIncludeStatement(statement.Name())
+				core_statement = Core.MakeIncludeStatement(statement.Name(), statement.Selection())
 			}
 		}
 	}
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index f1c1f99..7395e99 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -362,12 +362,15 @@ type PStatement struct {
 	role PFormulaRole
 	form Lib.Option[PForm]
 	ty   Lib.Option[Lib.Pair[string, PType]]
+	// For an include: the names of the statements to keep, nil for all of them
+	selection []string
 }
 
 func (s PStatement) Name() string                                    { return s.name }
 func (s PStatement) Role() PFormulaRole                              { return s.role }
 func (s PStatement) Form() Lib.Option[PForm]                         { return s.form }
 func (s PStatement) TypedConst() Lib.Option[Lib.Pair[string, PType]] { return s.ty }
+func (s PStatement) Selection() []string                             { return s.selection }
 
 /*
 A function to get a FormulaRole from a String
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 2c102e9..d60ecef 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -56,6 +56,7 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 // Semantic union
 %union{
     str string
+    strs []string
     atom PAtomicType
     atoms []PAtomicType
     typ PType
@@ -98,6 +99,7 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 %type <lstm> tptp_file tptp_input_list
 %type <stm> tff_annotated
 %type <stm>  tptp_input annotated_formula include fof_annotated tpi_annotated
+%type <strs> formula_selection name_list
 %type <str>  name atomic_word atomic_defined_word file_name type_constant type_functor defined_type variable constant defined_constant functor defined_functor untyped_atom
 %type <strty> number
 %type <fr>   formula_role 
@@ -139,15 +141,15 @@ annotated_formula: fof_annotated    { $$ = $1 }
   ;
 
 tff_annotated: TFF LEFT_PAREN name COMMA formula_role COMMA tff_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, $7.form, $7.typ} }
+  { $$ = PStatement{$3, $5, $7.form, $7.typ, nil} }
   ;
 
 fof_annotated: FOF LEFT_PAREN name COMMA formula_role COMMA fof_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), nil} }
   ;
 
 tpi_annotated: TPI LEFT_PAREN name COMMA formula_role COMMA tpi_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), nil} }
   ;
 
 tpi_formula: fof_formula { $$ = $1 }
@@ -507,15 +509,15 @@ variable: UPPER_WORD { $$ = $1 }
   ;
 
 include: INCLUDE LEFT_PAREN file_name formula_selection RIGHT_PAREN DOT
-{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]]()} }
+{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]](), $4} }
   ;
 
-formula_selection:
-  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET
+formula_selection: { $$ = nil }
+  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET { $$ = $3 }
   ;
 
-name_list: name
-  | name COMMA name_list
+name_list: name { $$ = []string{$1} }
+  | name COMMA name_list { $$ = append([]string{$1}, $3...) }
   ;
 
 source: general_term
diff --git a/src/main.go b/src/main.go
index 4f51ef7..5b46901 100644
--- a/src/main.go
+++ b/src/main.go
@@ -43,6 +43,7 @@ import (
 	"path"
 	"runtime"
 	"runtime/pprof"
+	"slices"
 	"time"
 
 	_ "net/http/pprof"
@@ -257,6 +258,7 @@ func StatementListToFormula(
 			}
 
 			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
+			new_lstm = selectStatements(new_lstm, statement.GetSelection())
 			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
 			containsEquality = containsEquality || contEq
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
@@ -335,6 +337,16 @@ func StatementListToFormula(
 	return nil, -1, false, false
 }
 
+// Keeps the statements an include directive asks for: all of them if it names none.
+func selectStatements(statements []Parser.PStatement, selection []string) []Parser.PStatement {
+	if selection == nil {
+		return statements
+	}
+	return slices.DeleteFunc(statements, func(statement Parser.PStatement) bool {
+		return statement.Role() != Parser.Include && !slices.Contains(selection, statement.Name())
+	})
+}
+
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
 	newForm := f.RenameVariables()
 
-- 
2.43.0


From f3300a2f765b223bb6314d96a91afc35976d9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 38/56] fix: a problem whose typed statements are all in an
 included file was not type-checked

---
 src/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.go b/src/main.go
index 5b46901..2c50cb4 100644
--- a/src/main.go
+++ b/src/main.go
@@ -261,6 +261,7 @@ func StatementListToFormula(
 			new_lstm = selectStatements(new_lstm, statement.GetSelection())
 			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
 			containsEquality = containsEquality || contEq
+			is_typed_problem = is_typed_problem || is_typed
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
 				actual_new_lstm,
 				bound_tmp,
-- 
2.43.0


From ad05905f23ea711a64daefbcbbeeb86a1b2678c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 39/56] fix: an include directive cancelled the limit given
 with -l

---
 src/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.go b/src/main.go
index 2c50cb4..f669bd3 100644
--- a/src/main.go
+++ b/src/main.go
@@ -154,10 +154,6 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	if Glob.GetLimit() != -1 {
-		bound = Glob.GetLimit()
-	}
-
 	form, bound, contEq, is_typed_include := StatementListToFormula(
 		actual_statements,
 		bound,
@@ -165,6 +161,10 @@ func presearchLoader() (AST.Form, int) {
 	)
 	containsEquality = containsEquality || contEq
 
+	if Glob.GetLimit() != -1 {
+		bound = Glob.GetLimit()
+	}
+
 	if !containsEquality {
 		Glob.SetPlugin("equality", false)
 		Glob.PrintInfo("EQU", "Plugin Equality disabled")
-- 
2.43.0


From 5496225d99780ffd49817a52100f49d9fd2120e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 40/56] fix: an include directive preferred the working
 directory to the directory of the including file

---
 src/main.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.go b/src/main.go
index f669bd3..9453868 100644
--- a/src/main.go
+++ b/src/main.go
@@ -265,7 +265,7 @@ func StatementListToFormula(
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
 				actual_new_lstm,
 				bound_tmp,
-				path.Join(problemDir, path.Dir(file_name)),
+				path.Dir(realname),
 			)
 			containsEquality = containsEquality || contEq
 			is_typed_problem = is_typed_problem || is_typed
@@ -391,19 +391,19 @@ func getFile(filename string, dir string) (string, error) {
 	fileExists := func(err error) bool {
 		return err == nil && !errors.Is(err, os.ErrNotExist)
 	}
-	// Check in Goéland's path
-	_, err := os.Stat(filename)
-	if fileExists(err) {
-		return filename, err
-	}
-
 	// Check in the dir's path
 	otherFilename := path.Join(dir, filename)
-	_, err = os.Stat(otherFilename)
+	_, err := os.Stat(otherFilename)
 	if fileExists(err) {
 		return otherFilename, err
 	}
 
+	// Check in Goéland's path
+	_, err = os.Stat(filename)
+	if fileExists(err) {
+		return filename, err
+	}
+
 	// Check in the environment variable
 	directory := os.Getenv("TPTP")
 	otherFilename = path.Join(directory, filename)
-- 
2.43.0


From 9c7c51d9f9fde9f3a1149e01efdd4986642ec396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 41/56] fix: a number followed by a block comment was rejected

---
 src/Parser/tptp_lex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index f680510..512e7f9 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -775,7 +775,12 @@ func (lexer *TPTPLex) unsignedRational(yylval *TPTPSymType) bool {
 
 	yylval.str += "/"
 	lexer.advance()
-	return lexer.positiveDecimal(yylval)
+	if !lexer.positiveDecimal(yylval) {
+		lexer.remove(len(yylval.str) - pos)
+		yylval.str = yylval.str[:pos]
+		return false
+	}
+	return true
 }
 
 // %----Character classes
-- 
2.43.0


From a084fa7241c732aa7a891e8ee7fc4da44620a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 42/56] fix: conjectures of different files were accepted and
 proved disjunctively

---
 src/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index 9453868..7a21cc5 100644
--- a/src/main.go
+++ b/src/main.go
@@ -237,7 +237,8 @@ func StatementListToFormula(
 	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
-		if _, is_some := negated_conjecture.(Lib.Some[AST.Form]); is_some {
+		// The other one may be in another file
+		if Glob.IsConjectureFound() {
 			Glob.Fatal(main_label, "multiple conjectures found in the problem file")
 		}
 	}
-- 
2.43.0


From 899b1e1a5633ba8199d8ba12dc44d06bb1cea73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 43/56] fix: equality reasoning replaced terms of one type by
 terms of another

---
 src/Core/Sko/interface.go                     |  2 +
 src/Mods/equality/bse/equality_rules_apply.go |  5 ++
 src/Typing/env-and-context.go                 | 51 ++++++++++++++++++-
 src/Typing/init.go                            |  6 ++-
 src/main.go                                   |  1 +
 5 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/Core/Sko/interface.go b/src/Core/Sko/interface.go
index 8ef1458..2c89921 100644
--- a/src/Core/Sko/interface.go
+++ b/src/Core/Sko/interface.go
@@ -37,6 +37,7 @@ import (
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Typing"
 )
 
 /** This file provides the generic [Skolemization] interface that is exported
@@ -65,6 +66,7 @@ func genFreshSymbol(existingSymbols *Lib.Set[AST.Id], x AST.TypedVar) AST.Id {
 		fmt.Sprintf("skolem@%v@%d", x.GetName(), existingSymbols.Cardinal()),
 	)
 	*existingSymbols = existingSymbols.Add(symbol)
+	Typing.AddSkolemSymbol(symbol, x.GetTy())
 
 	return symbol
 }
diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index d69088b..d825820 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -42,6 +42,7 @@ import (
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
 	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
+	"github.com/GoelandProver/Goeland/Typing"
 )
 
 /* apply a rule */
@@ -138,6 +139,10 @@ func applyEQRule(l, r, sub_term_of_s, s, t AST.Term, cs ConstraintStruct) (bool,
 				"Replace %v by %v in %v", sub_term_of_s.ToString(), r.ToString(), s.ToString())
 		}),
 	)
+	// A metavariable unifies with any term, but stands only for those of its type.
+	if Typing.IsTypedProblem() && l.IsMeta() && !Typing.TypeOf(l).Equals(Typing.TypeOf(sub_term_of_s)) {
+		return false, nil, makeEmptyConstraintStruct()
+	}
 	new_s := s.Copy().ReplaceSubTermBy(sub_term_of_s, r)
 	debug(
 		Lib.MkLazy(func() string { return fmt.Sprintf("s = %v, new_s = %v", s.ToString(), new_s.ToString()) }),
diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index d46d261..527144b 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -42,6 +42,7 @@ import (
 
 	"fmt"
 	"github.com/GoelandProver/Goeland/AST"
+	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -102,8 +103,9 @@ func (con Con) toString() string {
 
 // We could use [Con] to do environments, but as we need to query by name it's faster to use a map.
 type Env struct {
-	con map[string]AST.Ty
-	mut sync.Mutex
+	con     map[string]AST.Ty
+	skolems map[int]AST.Ty
+	mut     sync.Mutex
 }
 
 func (env *Env) toString() string {
@@ -143,6 +145,51 @@ func QueryGlobalEnv(name string) Lib.Option[AST.Ty] {
 	return safeGlobalOperation(func() Lib.Option[AST.Ty] { return unsafeQuery(name) })
 }
 
+// Skolem symbols are not part of the signature: their types are recorded by the index of the symbol, as their
+// name alone does not identify them.
+func AddSkolemSymbol(symbol AST.Id, ty AST.Ty) {
+	safeGlobalOperation(
+		func() any {
+			global_env.skolems[symbol.GetIndex()] = ty
+			return nil
+		},
+	)
+}
+
+// An untyped problem may apply its symbols to anything, numbers included.
+func SetTypedProblem() {
+	typed_problem = true
+}
+
+func IsTypedProblem() bool {
+	return typed_problem
+}
+
+// The type of a term made of functions and metavariables. Symbols that have not been declared are in $i.
+func TypeOf(term AST.Term) AST.Ty {
+	switch trm := term.(type) {
+	case AST.Meta:
+		return trm.GetTy()
+	case AST.Fun:
+		return safeGlobalOperation(func() AST.Ty {
+			if ty, ok := global_env.skolems[trm.GetID().GetIndex()]; ok {
+				return ty
+			}
+			ty, ok := global_env.con[trm.GetName()]
+			if !ok {
+				return AST.TIndividual()
+			}
+			ty = AST.InstantiateTy(ty, trm.GetTyArgs())
+			if fun, is_fun := ty.(AST.TyFunc); is_fun {
+				return AST.GetOutTy(fun)
+			}
+			return ty
+		})
+	}
+	Glob.Anomaly(label, fmt.Sprintf("Asking the type of %s", term.ToString()))
+	return nil
+}
+
 // Queries the environment and, if found, instantiate the definition with the given types.
 // Guaranteed to not return a Pi-type.
 func QueryEnvInstance(name string, instance Lib.List[AST.Ty]) Lib.Option[AST.Ty] {
diff --git a/src/Typing/init.go b/src/Typing/init.go
index ccbccbc..d76f74d 100644
--- a/src/Typing/init.go
+++ b/src/Typing/init.go
@@ -44,13 +44,15 @@ import (
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
-var global_env Env
+var global_env Env = Env{con: make(map[string]AST.Ty), skolems: make(map[int]AST.Ty)}
+var typed_problem = false
 var ari_var string
 var debug Glob.Debugger
 var debug_low_level Glob.Debugger
 
 func Init() {
-	global_env = Env{make(map[string]AST.Ty), sync.Mutex{}}
+	global_env = Env{make(map[string]AST.Ty), make(map[int]AST.Ty), sync.Mutex{}}
+	typed_problem = false
 	ari_var = "number"
 
 	initTPTPNativeTypes()
diff --git a/src/main.go b/src/main.go
index 7a21cc5..e2d8fc9 100644
--- a/src/main.go
+++ b/src/main.go
@@ -417,6 +417,7 @@ func getFile(filename string, dir string) (string, error) {
 }
 
 func checkForTypedProof(form AST.Form) {
+	Typing.SetTypedProblem()
 	if !Glob.NoTypeCheck() && !Typing.TypeCheck(form) {
 		Glob.Fatal(main_label, fmt.Sprintf("Formula %s is not well typed", form.ToString()))
 	}
-- 
2.43.0


From 144072fc756a42a8b22ffc82a2c0cc5c530f1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 44/56] fix: equality reasoning and the unification of terms
 ignored type arguments

---
 src/Mods/equality/bse/equality.go              | 2 +-
 src/Mods/equality/bse/equality_problem.go      | 1 +
 src/Mods/equality/bse/equality_problem_list.go | 9 +++++++++
 src/Mods/equality/bse/equality_types.go        | 9 +++++++++
 src/Typing/env-and-context.go                  | 9 +++++++--
 src/Unif/matching_substitutions.go             | 7 ++++---
 src/Unif/parsing.go                            | 9 +++++++--
 src/Unif/substitutions_tree.go                 | 1 +
 8 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/Mods/equality/bse/equality.go b/src/Mods/equality/bse/equality.go
index d0c1b2f..08fd1b9 100644
--- a/src/Mods/equality/bse/equality.go
+++ b/src/Mods/equality/bse/equality.go
@@ -73,7 +73,7 @@ func TryEquality(atomics_for_dmt Core.FormAndTermsList, st Search.State, new_ato
 			for _, substs := range subst_eq {
 				local_list := Lib.NewList[Unif.MixedSubstitution]()
 				for _, subst := range substs {
-					local_list.Append(Unif.MkMixedFromSubst(subst))
+					local_list.Append(Unif.MixedFromSubst(subst))
 				}
 				send_to_proof_search.Append(local_list)
 			}
diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 3e7ff77..18702ae 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -132,6 +132,7 @@ func makeEqualityProblemList(E Equalities, goal []eqStruct.TermPair) EqualityPro
 }
 
 func makeEqualityProblem(E Equalities, s AST.Term, t AST.Term, c ConstraintStruct) EqualityProblem {
+	E, s, t = E.typesAsTerms(), Unif.TypesAsTerms(s), Unif.TypesAsTerms(t)
 	return EqualityProblem{makeDataStructFromEqualities(E.copy()), makeEQMapFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
 }
 
diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index c977b11..41f7bf5 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -191,6 +191,15 @@ func buildEqualityProblemMultiListFromNEQ(neq Inequalities, eq Equalities) Equal
 /* Build an equality problem list from a predicat and its negation */
 func buildEqualityProblemListFrom2Pred(p1 AST.Pred, p2 AST.Pred, eq Equalities) EqualityProblemList {
 	res := makeEmptyEqualityProblemList()
+	// The type arguments have to agree as well, hence they are part of the problem.
+	if !p1.GetTyArgs().Empty() {
+		return append(res, makeEqualityProblem(
+			eq.copy(),
+			AST.MakerFun(p1.GetID(), p1.GetTyArgs(), p1.GetArgs()),
+			AST.MakerFun(p2.GetID(), p2.GetTyArgs(), p2.GetArgs()),
+			makeEmptyConstraintStruct()),
+		)
+	}
 	for i := range p1.GetArgs().GetSlice() {
 		res = append(res, makeEqualityProblem(
 			eq.copy(),
diff --git a/src/Mods/equality/bse/equality_types.go b/src/Mods/equality/bse/equality_types.go
index 482e272..5d5f04b 100644
--- a/src/Mods/equality/bse/equality_types.go
+++ b/src/Mods/equality/bse/equality_types.go
@@ -103,6 +103,15 @@ func (e Equalities) applySubstitution(old_symbol AST.Meta, new_symbol AST.Term)
 	return res
 }
 
+/* As in the unification algorithm, so that the two sides of an equality are unified with their type arguments */
+func (equs Equalities) typesAsTerms() Equalities {
+	res := Equalities{}
+	for _, equ := range equs {
+		res = append(res, eqStruct.MakeTermPair(Unif.TypesAsTerms(equ.GetT1()), Unif.TypesAsTerms(equ.GetT2())))
+	}
+	return res
+}
+
 func (equs Equalities) getMetas() Lib.Set[AST.Meta] {
 	metas := Lib.EmptySet[AST.Meta]()
 
diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index 527144b..7ed42e1 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -165,7 +165,8 @@ func IsTypedProblem() bool {
 	return typed_problem
 }
 
-// The type of a term made of functions and metavariables. Symbols that have not been declared are in $i.
+// The type of a term made of functions and metavariables. The type arguments may be given as terms. Symbols that have
+// not been declared are in $i.
 func TypeOf(term AST.Term) AST.Ty {
 	switch trm := term.(type) {
 	case AST.Meta:
@@ -179,7 +180,11 @@ func TypeOf(term AST.Term) AST.Ty {
 			if !ok {
 				return AST.TIndividual()
 			}
-			ty = AST.InstantiateTy(ty, trm.GetTyArgs())
+			ty_args := trm.GetTyArgs()
+			if pi, is_pi := ty.(AST.TyPi); is_pi && ty_args.Empty() {
+				ty_args = Lib.ListMap(trm.GetArgs().Slice(0, pi.VarsLen()), AST.TermToTy)
+			}
+			ty = AST.InstantiateTy(ty, ty_args)
 			if fun, is_fun := ty.(AST.TyFunc); is_fun {
 				return AST.GetOutTy(fun)
 			}
diff --git a/src/Unif/matching_substitutions.go b/src/Unif/matching_substitutions.go
index 7ed91cb..c3cdce9 100644
--- a/src/Unif/matching_substitutions.go
+++ b/src/Unif/matching_substitutions.go
@@ -77,7 +77,8 @@ type MixedSubstitution struct {
 	s Lib.Either[TySubstitution, Substitution]
 }
 
-func translateFromSubst(subst Substitution) MixedSubstitution {
+// Substitutions found by unification bind the type metavariables as if they were terms.
+func MixedFromSubst(subst Substitution) MixedSubstitution {
 	if AST.IsTType(subst.k.GetTy()) {
 		return MixedSubstitution{Lib.MkLeft[TySubstitution, Substitution](
 			MkTySubstitution(
@@ -255,7 +256,7 @@ func (m MatchingSubstitutions) Print() {
 func (m MatchingSubstitutions) toMixed() MixedSubstitutions {
 	substs := []MixedSubstitution{}
 	for _, subst := range m.subst {
-		substs = append(substs, translateFromSubst(subst))
+		substs = append(substs, MixedFromSubst(subst))
 	}
 	return MixedSubstitutions{m.form, substs}
 }
@@ -293,7 +294,7 @@ func MergeMixedSubstitutions(substs1, substs2 Lib.List[MixedSubstitution]) (Lib.
 
 	merged := Lib.MkList[MixedSubstitution](len(merged_tmp))
 	for i, subst := range merged_tmp {
-		merged.Upd(i, translateFromSubst(subst))
+		merged.Upd(i, MixedFromSubst(subst))
 	}
 	return merged, success
 }
diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index 52e6d8e..caedc3f 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -97,12 +97,17 @@ func (t TermForm) ReplaceMetaByTerm(meta AST.Meta, term AST.Term) AST.Form {
 }
 
 func MakerTermForm(t AST.Term) TermForm {
+	return makeTermForm(AST.MakerIndexFormula(), TypesAsTerms(t).Copy())
+}
+
+// The unification algorithm knows terms only: the type arguments become the first arguments.
+func TypesAsTerms(t AST.Term) AST.Term {
 	switch trm := t.(type) {
 	case AST.Fun:
 		args := getFunctionalArguments(trm.GetTyArgs(), trm.GetArgs())
-		t = AST.MakerFun(trm.GetID(), Lib.NewList[AST.Ty](), args)
+		return AST.MakerFun(trm.GetID(), Lib.NewList[AST.Ty](), args)
 	}
-	return makeTermForm(AST.MakerIndexFormula(), t.Copy())
+	return t
 }
 
 func makeTermForm(i int, t AST.Term) TermForm {
diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 6b85120..8871aab 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -174,6 +174,7 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
+	term1, term2 = TypesAsTerms(term1), TypesAsTerms(term2)
 	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
 	t1v, _ := subst.Get(term1.ToMeta())
 	t2v, _ := subst.Get(term2.ToMeta())
-- 
2.43.0


From 8409141234858519f6a9197938dccc668a1626f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 45/56] fix: the SAT-based equality reasoning replaced terms of
 one type by terms of another

---
 src/Mods/equality/sateq/satbuilder.go   | 19 +++++++++++++++++++
 src/Mods/equality/sateq/subsgatherer.go | 25 ++++++++++++++++++++++++-
 src/Mods/equality/sateq/termrep.go      | 22 ++++++++++++++++++++++
 3 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 90c6b4f..a2d2d49 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -33,6 +33,7 @@ package sateq
 
 import (
 	"github.com/GoelandProver/Goeland/Glob"
+	"github.com/GoelandProver/Goeland/Typing"
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/z"
 )
@@ -119,7 +120,25 @@ func (sb *SatBuilder) buildMappingConstraints() {
 				sb.addClause(sb.getVarFromSMapping(meta, eci).Not(), sb.getVarFromSMapping(meta, ecj).Not())
 			}
 		}
+		for _, ec := range sb.eqClasses.Slice() {
+			if !sb.mayBeMapped(meta, ec) {
+				sb.addClause(sb.getVarFromSMapping(meta, ec).Not())
+			}
+		}
+	}
+}
+
+// In a typed problem, a metavariable stands only for terms of its type.
+func (sb *SatBuilder) mayBeMapped(meta *termRecord, ec *eqClass) bool {
+	if !Typing.IsTypedProblem() {
+		return true
+	}
+	for _, t := range sb.problem.TermsInClass(ec).Slice() {
+		if !compatibleTypes(meta.ty, t.ty) {
+			return false
+		}
 	}
+	return true
 }
 
 func (sb *SatBuilder) buildSubsConstraints() {
diff --git a/src/Mods/equality/sateq/subsgatherer.go b/src/Mods/equality/sateq/subsgatherer.go
index b8d2a33..eadbf59 100644
--- a/src/Mods/equality/sateq/subsgatherer.go
+++ b/src/Mods/equality/sateq/subsgatherer.go
@@ -35,6 +35,7 @@ import (
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Typing"
 	"github.com/GoelandProver/Goeland/Unif"
 )
 
@@ -42,7 +43,29 @@ func gatherSubs(truthValues map[Lit]bool, sMapping map[Glob.Pair[*termRecord, *e
 	sub := getSubstitution(truthValues, sMapping)
 	correspondence := getTranslation(truthValues, rMapping)
 
-	return translateSub(sub, correspondence), true
+	subs = translateSub(sub, correspondence)
+	if Typing.IsTypedProblem() && !respectsTypes(subs[0]) {
+		return []Unif.Substitutions{}, false
+	}
+	return subs, true
+}
+
+func respectsTypes(subs Unif.Substitutions) bool {
+	instantiate := func(ty AST.Ty) AST.Term {
+		term := AST.TyToTerm(ty)
+		for _, sub := range subs {
+			meta, by := sub.Get()
+			term = term.ReplaceSubTermBy(meta, by)
+		}
+		return term
+	}
+	for _, sub := range subs {
+		meta, by := sub.Get()
+		if !instantiate(Typing.TypeOf(meta)).Equals(instantiate(Typing.TypeOf(by))) {
+			return false
+		}
+	}
+	return true
 }
 
 func getSubstitution(truthValue map[Lit]bool, sMapping map[Glob.Pair[*termRecord, *eqClass]]Lit) map[*termRecord]*eqClass {
diff --git a/src/Mods/equality/sateq/termrep.go b/src/Mods/equality/sateq/termrep.go
index 244a577..2de02bc 100644
--- a/src/Mods/equality/sateq/termrep.go
+++ b/src/Mods/equality/sateq/termrep.go
@@ -37,6 +37,7 @@ import (
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Typing"
 )
 
 type Ordered[T any] interface {
@@ -121,6 +122,7 @@ func metaTermRecord(m AST.Meta) *termRecord {
 		index:   m.GetIndex(),
 		eqClass: makeEqClass(),
 		meta:    &m,
+		ty:      Typing.TypeOf(m),
 	}
 }
 
@@ -131,6 +133,7 @@ func funTermRecord(t AST.Fun, args []*eqClass) *termRecord {
 		meta:     nil,
 		symbolId: t.GetID(),
 		args:     args,
+		ty:       Typing.TypeOf(t),
 	}
 }
 
@@ -141,6 +144,25 @@ type termRecord struct {
 	symbolId AST.Id
 	tyArgs   Lib.List[AST.Ty]
 	args     []*eqClass
+	ty       AST.Ty
+}
+
+// Whether two types may be the same once their metavariables are instantiated.
+func compatibleTypes(ty1, ty2 AST.Ty) bool {
+	constr1, ok1 := ty1.(AST.TyConstr)
+	constr2, ok2 := ty2.(AST.TyConstr)
+	if !ok1 || !ok2 {
+		return true
+	}
+	if constr1.Symbol() != constr2.Symbol() || constr1.Args().Len() != constr2.Args().Len() {
+		return false
+	}
+	for i, arg := range constr1.Args().GetSlice() {
+		if !compatibleTypes(arg, constr2.Args().At(i)) {
+			return false
+		}
+	}
+	return true
 }
 
 func (t *termRecord) isMeta() bool {
-- 
2.43.0


From 6c40d0fbdeabaf14e068d85ed56cf9052349aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 46/56] fix: variables quantified along with their type kept
 the bound type once it was instantiated

---
 src/Core/instanciation.go |  8 ++++++--
 src/Core/skolemisation.go | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Core/instanciation.go b/src/Core/instanciation.go
index 4b1373b..f6ec4fb 100644
--- a/src/Core/instanciation.go
+++ b/src/Core/instanciation.go
@@ -79,11 +79,15 @@ func RealInstantiate(
 	terms Lib.List[AST.Term],
 ) (FormAndTerms, Lib.Option[AST.Meta]) {
 	v := varList.At(0)
+	remainingVars := varList.Slice(1, varList.Len())
 	var m Lib.Option[AST.Meta]
 
 	if AST.IsTType(v.GetTy()) {
 		meta := AST.MkTyMeta(strings.ToUpper(v.GetName()), index)
 		subForm = subForm.SubstTy(v.ToTyBoundVar(), meta)
+		remainingVars = Lib.ListMap(remainingVars, func(w AST.TypedVar) AST.TypedVar {
+			return w.SubstTy(v.ToTyBoundVar(), meta)
+		})
 		m = Lib.MkNone[AST.Meta]()
 	} else {
 		meta := AST.MakerMeta(strings.ToUpper(v.GetName()), index, v.GetTy())
@@ -98,10 +102,10 @@ func RealInstantiate(
 
 	if varList.Len() > 1 {
 		if status == is_exists {
-			ex := AST.MakerEx(varList.Slice(1, varList.Len()), subForm)
+			ex := AST.MakerEx(remainingVars, subForm)
 			subForm = AST.MakerNot(ex)
 		} else {
-			subForm = AST.MakerAll(varList.Slice(1, varList.Len()), subForm)
+			subForm = AST.MakerAll(remainingVars, subForm)
 		}
 	} else {
 		if status == is_exists {
diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index 2524988..813fc06 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -126,11 +126,16 @@ func realSkolemize(
 	typ int,
 ) AST.Form {
 	var res AST.Form
+	remainingVars := allVars.Slice(1, allVars.Len())
 
 	if AST.IsTType(x.GetTy()) {
 		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
-		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
+		ty := AST.MkTyConst(id.ToString())
+		res = deltaForm.SubstTy(x.ToTyBoundVar(), ty)
+		remainingVars = Lib.ListMap(remainingVars, func(v AST.TypedVar) AST.TypedVar {
+			return v.SubstTy(x.ToTyBoundVar(), ty)
+		})
 	} else {
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
 			initialForm,
@@ -143,12 +148,12 @@ func realSkolemize(
 	switch typ {
 	case isNegAll:
 		if allVars.Len() > 1 {
-			res = AST.MakerAll(allVars.Slice(1, allVars.Len()), res)
+			res = AST.MakerAll(remainingVars, res)
 		}
 		res = AST.MakerNot(res)
 	case isExists:
 		if allVars.Len() > 1 {
-			res = AST.MakerEx(allVars.Slice(1, allVars.Len()), res)
+			res = AST.MakerEx(remainingVars, res)
 		}
 	default:
 		Glob.Anomaly("Skolemization", "impossible reconstruction case")
-- 
2.43.0


From d8e2bc30e628f8080434dc6e37e03f58e908407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 47/56] fix: type-checking ignored the types of the functions
 given as arguments

---
 src/AST/ty-syntax.go          |  8 ++++----
 src/Typing/env-and-context.go |  6 +-----
 src/Typing/rules.go           | 31 ++++++++++++++++++++++++++++---
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index a1b3ba5..799157c 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -418,11 +418,11 @@ func instantiateTyRec(ty, source Ty, instance map[string]Ty) Ty {
 
 func GetArgsTy(ty Ty) Lib.List[Ty] {
 	switch rty := ty.(type) {
-	case TyConstr:
+	case TyConstr, TyBound, TyMeta:
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
-		case TyBound, TyConstr:
+		case TyBound, TyMeta, TyConstr:
 			return Lib.MkListV(rty.in)
 		case TyProd:
 			return nty.args
@@ -437,8 +437,8 @@ func GetArgsTy(ty Ty) Lib.List[Ty] {
 
 func GetOutTy(ty Ty) Ty {
 	switch rty := ty.(type) {
-	case TyConstr:
-		return tType
+	case TyConstr, TyBound, TyMeta:
+		return ty
 	case TyFunc:
 		return rty.out
 	}
diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index 7ed42e1..c9e6621 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -184,11 +184,7 @@ func TypeOf(term AST.Term) AST.Ty {
 			if pi, is_pi := ty.(AST.TyPi); is_pi && ty_args.Empty() {
 				ty_args = Lib.ListMap(trm.GetArgs().Slice(0, pi.VarsLen()), AST.TermToTy)
 			}
-			ty = AST.InstantiateTy(ty, ty_args)
-			if fun, is_fun := ty.(AST.TyFunc); is_fun {
-				return AST.GetOutTy(fun)
-			}
-			return ty
+			return AST.GetOutTy(AST.InstantiateTy(ty, ty_args))
 		})
 	}
 	Glob.Anomaly(label, fmt.Sprintf("Asking the type of %s", term.ToString()))
diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 96c0e16..4c1bb81 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -66,6 +66,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			f.GetID().GetName(),
 			f.GetTyArgs(),
 			f.GetArgs(),
+			AST.TProp(),
 			Lib.MkLazy(func() string { return form.ToString() }),
 		)
 
@@ -133,6 +134,7 @@ func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 			t.GetID().GetName(),
 			t.GetTyArgs(),
 			t.GetArgs(),
+			ty,
 			Lib.MkLazy(func() string { return t.ToString() }),
 		)
 	}
@@ -171,6 +173,11 @@ func typecheckType(con Con, ty AST.Ty) bool {
 
 		switch rty := oty.(type) {
 		case Lib.Some[AST.Ty]:
+			if !AST.IsTType(AST.GetOutTy(rty.Val)) {
+				Glob.Fatal(label, fmt.Sprintf("%s is not a type", nty.Symbol()))
+				return false
+			}
+
 			args := AST.GetArgsTy(rty.Val)
 			if args.Len() != nty.Args().Len() {
 				Glob.Fatal(
@@ -197,10 +204,11 @@ func typecheckType(con Con, ty AST.Ty) bool {
 			)
 
 		case Lib.None[AST.Ty]:
-			Glob.Anomaly(
+			Glob.Fatal(
 				label,
 				fmt.Sprintf("Unknown type %s", nty.ToString()),
 			)
+			return false
 		}
 	}
 
@@ -216,6 +224,7 @@ func checkFunctional(
 	name string,
 	tys Lib.List[AST.Ty],
 	args Lib.List[AST.Term],
+	expected_ty AST.Ty,
 	debug_str Lib.Lazy[string],
 ) bool {
 	oty := QueryEnvInstance(name, tys)
@@ -237,9 +246,25 @@ func checkFunctional(
 			args,
 			instantiated_ty,
 		)
-		tys.Append(AST.GetOutTy(ty.Val))
 
-		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, tys)
+		out_ty := AST.GetOutTy(ty.Val)
+		if !out_ty.Equals(expected_ty) {
+			Glob.Fatal(
+				label,
+				fmt.Sprintf(
+					"%s has type %s but is used with type %s",
+					debug_str.Run(),
+					out_ty.ToString(),
+					expected_ty.ToString(),
+				),
+			)
+			return false
+		}
+
+		types_checker := tys.Copy(AST.Ty.Copy)
+		types_checker.Append(out_ty)
+
+		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, types_checker)
 
 	case Lib.None[AST.Ty]:
 		Glob.Fatal(
-- 
2.43.0


From 8df71c7f7f8d5f0a3576fc8366da33e75628044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 48/56] fix: type-checking confused the variables that share a
 name and ignored the types they are given

---
 src/Typing/env-and-context.go | 11 +++--------
 src/Typing/rules.go           | 25 +++++++++++++------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index c9e6621..73ea3a4 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -79,21 +79,16 @@ func (con Con) Copy() Con {
 	return Con{con.defs.Copy()}
 }
 
+// The innermost variable of a name hides the others.
 func (con Con) add(name string, ty AST.Ty) Con {
-	return Con{con.defs.Add(definedType{name, ty})}
+	visible := con.defs.Filter(func(def definedType) bool { return def.name != name })
+	return Con{visible.Add(definedType{name, ty})}
 }
 
 func (con Con) contains(name string, ty AST.Ty) bool {
 	return con.defs.Contains(definedType{name, ty})
 }
 
-func (con Con) addTypedVars(typed_vars Lib.List[AST.TypedVar]) Con {
-	for _, tv := range typed_vars.GetSlice() {
-		con = con.add(tv.GetName(), tv.GetTy())
-	}
-	return con
-}
-
 func (con Con) toString() string {
 	to_string := func(def definedType) string {
 		return fmt.Sprintf("%s: %s", def.name, def.ty.ToString())
diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 4c1bb81..26a51b3 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -79,20 +79,10 @@ func typecheckForm(con Con, form AST.Form) bool {
 		)
 
 	case AST.All:
-		return typecheckRec(
-			con.addTypedVars(f.GetVarList()),
-			Lib.MkListV(f.GetForm()),
-			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
-		)
+		return typecheckQuantified(con, f.GetVarList(), f.GetForm())
 
 	case AST.Ex:
-		return typecheckRec(
-			con.addTypedVars(f.GetVarList()),
-			Lib.MkListV(f.GetForm()),
-			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
-		)
+		return typecheckQuantified(con, f.GetVarList(), f.GetForm())
 	}
 
 	Glob.Anomaly(
@@ -102,6 +92,17 @@ func typecheckForm(con Con, form AST.Form) bool {
 	return false
 }
 
+// The type of a variable may only mention the variables that precede it.
+func typecheckQuantified(con Con, vars Lib.List[AST.TypedVar], form AST.Form) bool {
+	for _, v := range vars.GetSlice() {
+		if !AST.IsTType(v.GetTy()) && !typecheckType(con, v.GetTy()) {
+			return false
+		}
+		con = con.add(v.GetName(), v.GetTy())
+	}
+	return typecheckForm(con, form)
+}
+
 func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 	debug(Lib.MkLazy(func() string {
 		return fmt.Sprintf("Trying to type-check: %s |- %s : %s", con.toString(), term.ToString(), ty.ToString())
-- 
2.43.0


From 8fff646702b9ee7884371fd6f22c939119de52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 49/56] fix: the type of a variable was used outside of the
 formula it is quantified in

---
 src/Engine/syntax-translation.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 7cc550f..685aa73 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -231,11 +231,12 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			// The quantified variables are only known in the quantified formula.
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -250,11 +251,12 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			// The quantified variables are only known in the quantified formula.
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 		}
 	}
 	Glob.Anomaly(
-- 
2.43.0


From 55f1689415554efb2070815269c296fd6badb14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 50/56] fix: the arguments of the type arguments of an equation
 were dropped

---
 src/Engine/syntax-translation.go | 22 ++++++++++++----------
 src/Parser/psyntax.go            |  6 +++++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 685aa73..f13bd55 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -493,6 +493,17 @@ func flattenProd(ty AST.Ty) []AST.Ty {
 	return []AST.Ty{ty}
 }
 
+func typeToParserTerm(ty AST.Ty) Parser.PTerm {
+	switch t := ty.(type) {
+	case AST.TyConstr:
+		return Parser.MkFun(t.Symbol(), Lib.ListMap(t.Args(), typeToParserTerm).GetSlice())
+	case AST.TyBound:
+		return Parser.MkVar(t.GetName())
+	}
+	Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
+	return nil
+}
+
 func elaborateDefinedFunctionals(
 	con Context,
 	name string,
@@ -519,16 +530,7 @@ func elaborateDefinedFunctionals(
 		switch term := arg.(type) {
 		case AST.Fun:
 			ty = lookupInContext(con, term.GetName())
-			for _, ty := range term.GetTyArgs().GetSlice() {
-				switch t := ty.(type) {
-				case AST.TyConstr:
-					ty_args.Append(Parser.MkFunConst(t.Symbol()))
-				case AST.TyBound:
-					ty_args.Append(Parser.MkVar(t.GetName()))
-				default:
-					Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
-				}
-			}
+			ty_args.Append(Lib.ListMap(term.GetTyArgs(), typeToParserTerm).GetSlice()...)
 		case AST.Var:
 			ty = lookupInContext(con, term.GetName())
 		default:
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 7395e99..83cc659 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -204,7 +204,11 @@ func (PFun) isPTerm() {}
 func (PVar) isPTerm() {}
 
 func MkFunConst(symbol string) PTerm {
-	return PFun{symbol, []PTerm{}, Lib.MkNone[PTypeFun]()}
+	return MkFun(symbol, []PTerm{})
+}
+
+func MkFun(symbol string, args []PTerm) PTerm {
+	return PFun{symbol, args, Lib.MkNone[PTypeFun]()}
 }
 
 func MkDefinedConst(symbol string, definedType PTypeFun) PTerm {
-- 
2.43.0


From d2a1178088da634f3a0127634fbdf363718bea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 51/56] fix: typed formulas were not type-checked in the
 absence of declarations

---
 src/Engine/syntax-translation.go | 10 ++++++----
 src/Typing/rules.go              |  9 +++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index f13bd55..eebaed3 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -185,7 +185,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 				func(p Lib.Pair[Parser.PTerm, Parser.PType]) Parser.PType { return p.Snd })
 			typed_args = elaborateDefinedFunctionals(con, pform.Symbol(), tys, args)
 		} else {
-			is_typed = !typed_args.Empty()
+			is_typed = is_typed || !typed_args.Empty()
 		}
 
 		return con, AST.MakerPred(
@@ -223,6 +223,8 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 
 	case Parser.PQuant:
 		vars := pretypeVars(pform.Vars())
+		// Formulas may be typed even if they use no declared symbol
+		is_typed := vars.Any(func(v AST.TypedVar) bool { return !v.GetTy().Equals(AST.TIndividual()) })
 		switch pform.PQuantifier {
 		case Parser.PQuantAll:
 			actualVars := Lib.ListMap(
@@ -236,7 +238,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return con, form, b
+			return con, form, is_typed || b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -256,7 +258,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return con, form, b
+			return con, form, is_typed || b
 		}
 	}
 	Glob.Anomaly(
@@ -352,7 +354,7 @@ func elaborateTerm(con Context, t, source_term Parser.PTerm) (Context, AST.Term,
 				func(p Lib.Pair[Parser.PTerm, Parser.PType]) Parser.PType { return p.Snd })
 			typed_args = elaborateDefinedFunctionals(con, pterm.Symbol(), tys, args)
 		} else {
-			is_typed = !typed_args.Empty()
+			is_typed = is_typed || !typed_args.Empty()
 		}
 
 		fun := AST.MakerFun(
diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 26a51b3..3350e40 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -229,6 +229,15 @@ func checkFunctional(
 	debug_str Lib.Lazy[string],
 ) bool {
 	oty := QueryEnvInstance(name, tys)
+	if Glob.Is[Lib.None[AST.Ty]](oty) && tys.Empty() {
+		// A symbol without a declaration has the default type
+		if AST.TProp().Equals(expected_ty) {
+			oty = Lib.MkSome(AST.MkDefaultPredType(args.Len()))
+		} else {
+			oty = Lib.MkSome(AST.MkDefaultFunctionType(args.Len()))
+		}
+	}
+
 	switch ty := oty.(type) {
 	case Lib.Some[AST.Ty]:
 		debug_low_level(Lib.MkLazy(func() string {
-- 
2.43.0


From 71c6afa2ee6b5558f49d8d0c026e452d793e35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 52/56] fix: misplaced type arguments were accepted and missing
 ones crashed

---
 src/Engine/pretyper.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Engine/pretyper.go b/src/Engine/pretyper.go
index 16386a8..3d86831 100644
--- a/src/Engine/pretyper.go
+++ b/src/Engine/pretyper.go
@@ -120,6 +120,12 @@ func splitTypes(
 	others := Lib.NewList[Parser.PTerm]()
 	for _, ty := range tys {
 		if isTyConstr(ty.Snd) {
+			if !others.Empty() {
+				Glob.Fatal(
+					elab_label,
+					fmt.Sprintf("Type argument %s found after an argument that is not a type", ty.Fst.ToString()),
+				)
+			}
 			actualTys.Append(parserTermToType(ty.Fst))
 		} else {
 			others.Append(ty.Fst)
@@ -191,6 +197,13 @@ func instantiateType(ty Parser.PType, lookupName string, args []Parser.PTerm) Pa
 		return nty.Right()
 
 	case Parser.PTypeQuant:
+		if len(args) < len(nty.Vars()) {
+			Glob.Fatal(
+				elab_label,
+				fmt.Sprintf("%s expects %d type arguments, got %d arguments", lookupName, len(nty.Vars()), len(args)),
+			)
+		}
+
 		type_args := map[string]Parser.PType{}
 		for i, v := range nty.Vars() {
 			type_args[v.Fst] = parserTermToType(args[i])
-- 
2.43.0


From 75f1df2ea52ffd7693f8967b68798d2993bdce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 53/56] fix: the declarations of an included file were unknown
 to the formulas of the including file

---
 src/main.go | 95 ++++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 49 deletions(-)

diff --git a/src/main.go b/src/main.go
index e2d8fc9..3be0050 100644
--- a/src/main.go
+++ b/src/main.go
@@ -144,7 +144,7 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	statements, bound, containsEquality := Parser.ParseTPTPFile(problem)
+	statements, bound, containsEquality := parseProblem(problem, nil)
 	actual_statements, is_typed_problem := Engine.ToInternalSyntax(statements)
 
 	debug(
@@ -154,12 +154,7 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	form, bound, contEq, is_typed_include := StatementListToFormula(
-		actual_statements,
-		bound,
-		path.Dir(problem),
-	)
-	containsEquality = containsEquality || contEq
+	form := StatementListToFormula(actual_statements)
 
 	if Glob.GetLimit() != -1 {
 		bound = Glob.GetLimit()
@@ -174,7 +169,7 @@ func presearchLoader() (AST.Form, int) {
 		Glob.Fatal(main_label, "Problem not found")
 	}
 
-	if is_typed_problem || is_typed_include {
+	if is_typed_problem {
 		checkForTypedProof(form)
 	}
 
@@ -228,13 +223,9 @@ func initDebuggers() {
 // FIXME: eventually, we would want to add an "interpretation" layer between elab and internal representation that does this
 func StatementListToFormula(
 	statements []Core.Statement,
-	old_bound int,
-	problemDir string,
-) (form AST.Form, bound int, containsEquality bool, is_typed_problem bool) {
+) AST.Form {
 	and_list := Lib.NewList[AST.Form]()
-	is_typed_problem = false
 	negated_conjecture := Lib.MkNone[AST.Form]()
-	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
 		// The other one may be in another file
@@ -245,37 +236,6 @@ func StatementListToFormula(
 
 	for _, statement := range statements {
 		switch statement.GetRole() {
-		case Core.Include:
-			file_name := statement.GetName()
-
-			realname, err := getFile(file_name, problemDir)
-			debug(
-				Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
-			)
-
-			if err != nil {
-				Glob.Fatal(main_label, err.Error())
-				return nil, -1, false, false
-			}
-
-			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
-			new_lstm = selectStatements(new_lstm, statement.GetSelection())
-			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
-			containsEquality = containsEquality || contEq
-			is_typed_problem = is_typed_problem || is_typed
-			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
-				actual_new_lstm,
-				bound_tmp,
-				path.Dir(realname),
-			)
-			containsEquality = containsEquality || contEq
-			is_typed_problem = is_typed_problem || is_typed
-
-			if new_form_list != nil {
-				bound = new_bound
-				and_list.Append(new_form_list)
-			}
-
 		case Core.Axiom:
 			switch f := statement.GetForm().(type) {
 			case Lib.Some[AST.Form]:
@@ -321,22 +281,59 @@ func StatementListToFormula(
 	switch conj := negated_conjecture.(type) {
 	case Lib.None[AST.Form]:
 		if and_list.Empty() {
-			return nil, bound, containsEquality, is_typed_problem
+			return nil
 		} else {
-			return AST.MakerAnd(and_list), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(and_list)
 		}
 	case Lib.Some[AST.Form]:
 		if and_list.Empty() {
-			return conj.Val, bound, containsEquality, is_typed_problem
+			return conj.Val
 		} else {
 			flattened := AST.FlattenAnd(and_list)
 			flattened.Append(conj.Val)
-			return AST.MakerAnd(flattened), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(flattened)
 		}
 	}
 
 	Glob.Anomaly(main_label, "reached an unreachable state")
-	return nil, -1, false, false
+	return nil
+}
+
+// Parses the selected statements of a file, where those of the files it includes replace the include directives.
+func parseProblem(
+	file string,
+	selection []string,
+) (statements []Parser.PStatement, bound int, containsEquality bool) {
+	parsed, bound, containsEquality := Parser.ParseTPTPFile(file)
+
+	for _, statement := range selectStatements(parsed, selection) {
+		if statement.Role() != Parser.Include {
+			statements = append(statements, statement)
+			continue
+		}
+
+		realname, err := getFile(statement.Name(), path.Dir(file))
+		debug(
+			Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
+		)
+
+		if err != nil {
+			Glob.Fatal(main_label, err.Error())
+		}
+
+		included, new_bound, contEq := parseProblem(realname, statement.Selection())
+		containsEquality = containsEquality || contEq
+		if slices.ContainsFunc(included, hasFormula) {
+			bound = new_bound
+		}
+		statements = append(statements, included...)
+	}
+
+	return statements, bound, containsEquality
+}
+
+func hasFormula(statement Parser.PStatement) bool {
+	return Glob.Is[Lib.Some[Parser.PForm]](statement.Form())
 }
 
 // Keeps the statements an include directive asks for: all of them if it names none.
-- 
2.43.0


From db5899bc17098d831d78bd28ecb18f80eedad614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 54/56] fix: the axioms turned into rewrite rules were not
 type-checked

---
 src/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.go b/src/main.go
index 3be0050..b0b07cd 100644
--- a/src/main.go
+++ b/src/main.go
@@ -170,7 +170,7 @@ func presearchLoader() (AST.Form, int) {
 	}
 
 	if is_typed_problem {
-		checkForTypedProof(form)
+		checkForTypedProof(actual_statements)
 	}
 
 	return form, bound
@@ -413,10 +413,15 @@ func getFile(filename string, dir string) (string, error) {
 	return "", fmt.Errorf("file %s not found", filename)
 }
 
-func checkForTypedProof(form AST.Form) {
+func checkForTypedProof(statements []Core.Statement) {
 	Typing.SetTypedProblem()
-	if !Glob.NoTypeCheck() && !Typing.TypeCheck(form) {
-		Glob.Fatal(main_label, fmt.Sprintf("Formula %s is not well typed", form.ToString()))
+	for _, statement := range statements {
+		// Some formulas do not reach the proof search as such, e.g., the rewrite rules
+		if form, ok := statement.GetForm().(Lib.Some[AST.Form]); ok {
+			if !Glob.NoTypeCheck() && !Typing.TypeCheck(form.Val) {
+				Glob.Fatal(main_label, fmt.Sprintf("Formula %s is not well typed", form.Val.ToString()))
+			}
+		}
 	}
 	Glob.PrintInfo(main_label, "Problem is well typed")
 }
-- 
2.43.0


From ac17ec40b5495f823f1be0210e40a9474acb2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 55/56] fix: integer constants were refused among rationals

---
 src/Typing/rules.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 3350e40..722b610 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -42,6 +42,7 @@ import (
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
+	"strings"
 )
 
 var label = "typing"
@@ -244,7 +245,7 @@ func checkFunctional(
 			return fmt.Sprintf("%s has a functional scheme instantiated to %s", debug_str.Run(), ty.Val.ToString())
 		}))
 
-		instantiated_ty := AST.GetArgsTy(ty.Val)
+		instantiated_ty := integersAmongRationals(name, args, AST.GetArgsTy(ty.Val))
 		debug_low_level(Lib.MkLazy(func() string {
 			return fmt.Sprintf("Arguments will be typechecked against: [%s]",
 				Lib.ListToString(instantiated_ty, Lib.WithEmpty("")))
@@ -285,6 +286,25 @@ func checkFunctional(
 	return false
 }
 
+// The arithmetic symbols accept integer constants among rationals.
+func integersAmongRationals(name string, args Lib.List[AST.Term], tys Lib.List[AST.Ty]) Lib.List[AST.Ty] {
+	if !strings.HasPrefix(name, "$") || args.Len() != tys.Len() {
+		return tys
+	}
+
+	accepted := tys.Copy(AST.Ty.Copy)
+	for i, arg := range args.GetSlice() {
+		constant, is_fun := arg.(AST.Fun)
+		if !is_fun || !constant.GetArgs().Empty() || !tys.At(i).Equals(AST.TRat()) {
+			continue
+		}
+		if ty, known := QueryEnvInstance(constant.GetName(), constant.GetTyArgs()).(Lib.Some[AST.Ty]); known && ty.Val.Equals(AST.TInt()) {
+			accepted.Upd(i, AST.TInt())
+		}
+	}
+	return accepted
+}
+
 func typecheckRec(
 	con Con,
 	forms Lib.List[AST.Form],
-- 
2.43.0


From 6d147fe97b4f1a0e9ebddc98fb84af73cd70f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:08 +0000
Subject: [PATCH 56/56] fix: a variable quantified twice at once was given the
 type of its first occurrence

---
 src/AST/quantifiers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index 4df4c1d..ffcbb50 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -159,6 +159,11 @@ func (q quantifier) renameVariables() quantifier {
 	for _, v := range q.GetVarList().GetSlice() {
 		newVar := MakerFreshVar(v.GetName())
 		newVarList.Append(MkTypedVar(newVar.name, newVar.index, v.ty))
+	}
+
+	// A variable hides those of the same name that are quantified before it.
+	for i := q.GetVarList().Len() - 1; i >= 0; i-- {
+		v, newVar := q.GetVarList().At(i), newVarList.At(i).ToBoundVar()
 		f, replaced := newForm.ReplaceTermByTerm(v.ToBoundVar(), newVar)
 		if !replaced {
 			newBv := MkTyBV(newVar.name, newVar.index)
-- 
2.43.0

