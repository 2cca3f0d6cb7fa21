From 806fb1abea488a021f55208389b2f2be3cdfe447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:26 +0000
Subject: [PATCH 01/17] fix: recognizer missed ends of repetitions with a
 minimum

reachRep stopped as soon as a step introduced no position it had already
seen, including positions seen below the minimum count, and capped the
iteration count at len(input)+2. IsValid thus rejected derivable inputs
such as "xyzw" for 3*("xyz" / "x" / "y" / "z" / "w") and the empty
input for 3["x"].
---
 recognize.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..1fd7dae 100644
--- a/recognize.go
+++ b/recognize.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"maps"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -76,20 +77,14 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
 
-	cap := len(r.input) + 2
-	for c := 1; c <= cap; c++ {
-		if rep.Max != inf && c > rep.Max {
-			break
-		}
+	// Ends only grow, so once a step at or above the minimum adds no new end
+	// position, no later repetition can: each further level stays within the
+	// levels already collected. Breaking there keeps an unbounded repetition
+	// over an element with large reach-sets (e.g. *(1*ALPHA)) at O(n^2). Only
+	// the levels that satisfy the minimum count: a position reached below it may
+	// come back as an end with more occurrences.
+	for c := 1; rep.Max == inf || c <= rep.Max; c++ {
 		next := map[int]bool{}
 		for p := range level {
 			for e := range r.reachElem(rep.Element, p) {
@@ -99,23 +94,26 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
-			for e := range next {
-				ends[e] = true
+		if c < rep.Min {
+			// A nullable element can reach its fixpoint before the minimum is
+			// met; every later level is then the same set, so skip right to it.
+			if maps.Equal(next, level) {
+				c = rep.Min - 1
 			}
+			level = next
+			continue
 		}
 		grew := false
 		for e := range next {
-			if !seen[e] {
-				seen[e] = true
+			if !ends[e] {
+				ends[e] = true
 				grew = true
 			}
 		}
-		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
+		if !grew {
 			break
 		}
+		level = next
 	}
 	return ends
 }
-- 
2.43.0


From a151ba32b271e83945ce01f4306e7fa2a8c63f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:04 +0000
Subject: [PATCH 02/17] fix: recognizer memoized provisional results of
 left-recursive rules

Groups and options evaluated while a left-recursive rule is growing read
its seed: caching them froze the first seed, and the in-progress guard cut
a group re-entered through the growing rule. IsValid thus rejected
derivable inputs such as "xyy" for a = (a / "x") "y".
---
 recognize.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/recognize.go b/recognize.go
index 1fd7dae..ac09cf7 100644
--- a/recognize.go
+++ b/recognize.go
@@ -32,6 +32,10 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+
+	// seedReads counts the seeds handed out while still growing. A result whose
+	// computation read one is only provisional, hence must not be memoized.
+	seedReads int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -132,21 +136,28 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
-	if r.inProgress[key] {
+	// Only a rulename can close a recursion: a group or an option may re-enter
+	// itself at the same position while a left-recursive rule is growing, which
+	// is cut by the seed.
+	_, isRule := elem.(ElemRulename)
+	if isRule && r.inProgress[key] {
 		// Re-entry at the same position == non-progressing recursion in a rule
 		// not flagged left-recursive. Return empty (defense-in-depth) instead of
 		// looping forever.
 		return map[int]bool{}
 	}
 	r.inProgress[key] = true
+	seedReads := r.seedReads
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
-	// Safe to cache: a rule reached here either is independent of any actively
-	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
-	// via r.growing, not this path). A lower left-corner SCC cannot reference
-	// the SCC growing above it -- they would be one SCC -- so its result is
-	// stable. Caching nested SCCs is what keeps left recursion polynomial.
-	r.memo[key] = cloneSet(out)
+	// Safe to cache unless it read a seed that is still growing (e.g. a group of
+	// the growing rule): such a result is stale at the next growth step. A lower
+	// left-corner SCC cannot reference the SCC growing above it -- they would be
+	// one SCC -- so its result is stable. Caching nested SCCs is what keeps left
+	// recursion polynomial.
+	if r.seedReads == seedReads {
+		r.memo[key] = cloneSet(out)
+	}
 	return out
 }
 
@@ -163,6 +174,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		return cached
 	}
 	if seed, ok := r.growing[key]; ok {
+		r.seedReads++
 		return seed // re-entrant: return the current seed
 	}
 
-- 
2.43.0


From 474d125c78ee03a0679aba3666436daf181f9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 03/17] fix: print case-sensitive char-vals with their %s
 prefix

ElemCharVal.String dropped the RFC 7405 prefix, so a grammar did not
survive a String/ParseABNF round trip, and the recognizer and slot-grammar
keys built from it conflated %s"a" with "a" (e.g. IsValid rejected "Ac" for
r = %s"a" "b" / "a" "c").
---
 abnf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..9cff5cc 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,10 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		// RFC 7405 case-sensitive string.
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From 443d6dc9b9e53b9c05a3280ea51fe915d018ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 04/17] fix: IsDAG overlooked rules depending on themselves

A self-loop is a strongly connected component of size 1, so IsDAG reported
a = "x" a as acyclic while RuleContainsCycle reported it cyclic.
---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 4d004e4..99c6393 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,10 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A size-1 SCC is still a cycle when the rule depends on itself.
+		if slices.Contains(sccs[0].Dependencies, strings.ToLower(sccs[0].Rulename)) {
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From ec5148da4ad970dbc4f2c1f8df45b0823504f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:05 +0000
Subject: [PATCH 05/17] fix: incremental alternatives leaked into the shared
 core rules

With WithRedefineCoreRules(true), ALPHA =/ "0" appended to the package-wide
core rule, changing every other grammar of the process.
---
 grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..aa769e5 100644
--- a/grammar.go
+++ b/grammar.go
@@ -186,8 +186,13 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
-			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
-			mp[rule.Name] = rule
+			// Never extend in place: the rule could be a (shared) core rule.
+			mp[rule.Name] = &Rule{
+				Name: rule.Name,
+				Alternation: Alternation{
+					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
+				},
+			}
 		}
 	}
 	return &Grammar{Rulemap: mp}, nil
-- 
2.43.0


From e935491022b5e32280ef317c0da85b54322018c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 06/17] fix: reject a core rule redefined twice

With WithRedefineCoreRules(true), ALPHA = "x" followed by alpha = "y" kept
both rules although rule names are case insensitive, so which one GetRule
returned depended on the map iteration order.
---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index aa769e5..d39d488 100644
--- a/grammar.go
+++ b/grammar.go
@@ -169,11 +169,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if isCoreRule && !e.o.redefineCore {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From dd1d294dfe351e62b57cb80abbdaf35ad16851e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 07/17] fix: a comment before the operator could turn = into =/

The operator was searched for in the whole defined-as span, comments
included, so a rule such as "a ;x =/ y CRLF = %x61" was evaluated as an
incremental alternative.
---
 grammar.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index d39d488..1f13e07 100644
--- a/grammar.go
+++ b/grammar.go
@@ -204,9 +204,11 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
+	// The operator is the only terminal, the rest are c-wsp that could contain
+	// anything as part of a comment.
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	if op := ptFirst(defNode, ""); op != nil {
+		definedAs = e.span(op)
 	}
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
-- 
2.43.0


From 71991edd55f92dddcc1a1f2e1800ead23886b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:01 +0000
Subject: [PATCH 08/17] fix: generated parser did not compile for terminals
 that never match

A prose-val, or a num-val series with a value that is not a Unicode scalar,
emitted a bare return followed by code using an undeclared j.
---
 codegen.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..3cd5b45 100644
--- a/codegen.go
+++ b/codegen.go
@@ -208,14 +208,17 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It reports whether the terminal can match at all: when it cannot, the
+// emitted code only returns (and sets no j).
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
@@ -230,13 +233,16 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
 		case StatSeries:
-			c.emitSeries(b, v)
+			return c.emitSeries(b, v)
 		default:
 			b.WriteString("\t\t\treturn\n")
+			return false
 		}
 	default: // prose-val: never matches
 		b.WriteString("\t\t\treturn\n")
+		return false
 	}
+	return true
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +282,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From ed453f553219303dcdb0d765aa434100dd74c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:13 +0000
Subject: [PATCH 09/17] fix: generated parser returned a truncated result
 without error

When MaxElements was reached while processing the last descriptor, Parse
left the loop before checking the abort flag and returned an incomplete
BSR set with a nil error.
---
 codegen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 3cd5b45..bd01c92 100644
--- a/codegen.go
+++ b/codegen.go
@@ -884,14 +884,14 @@ func Parse(input []byte) (*Result, error) {
 	}
 	p.u0 = &gnode{ret: -1, edgeSet: map[*gnode]bool{}}
 	p.seed()
-	for len(p.work) > 0 {
-		if p.aborted {
-			return nil, ErrTooLarge
-		}
+	for len(p.work) > 0 && !p.aborted {
 		d := p.work[len(p.work)-1]
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From cb6d58b1333dee60b614937df4747d67b224aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:03 +0000
Subject: [PATCH 10/17] fix: Generate panicked when a minimum exceeds the
 repetition cap

For an unbounded repetition whose minimum is above WithRepMax (16 by
default), the modulus became zero or negative: 17*"a" divided by zero.
---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 179db93..9c37186 100644
--- a/generate.go
+++ b/generate.go
@@ -50,7 +50,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
-- 
2.43.0


From dc4fd07cba339f68afe54a2940425ac2c201df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:16 +0000
Subject: [PATCH 11/17] fix: generators emitted U+FFFD for surrogates of a
 num-val range

Code points U+D800-DFFF have no UTF-8 encoding, hence a range covering them
(e.g. %x80-10FFFF) could be generated as U+FFFD, or %xD7FF-E000 as a word
the grammar rejects.
---
 ast.go              |  4 +++-
 fuzz.go             |  3 +++
 generate.go         |  4 +++-
 transition_graph.go |  5 ++++-
 utils.go            | 16 ++++++++++++++++
 5 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..3489834 100644
--- a/ast.go
+++ b/ast.go
@@ -275,7 +275,9 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if span < 1 {
 				span = 1
 			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			if r, ok := scalarInRange(min+rune(src.intn(span)), min, max); ok {
+				*out = append(*out, []byte(string(r))...)
+			}
 		}
 
 	case ElemProseVal:
diff --git a/fuzz.go b/fuzz.go
index e8d79ff..0e7aee7 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -650,6 +650,9 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			}
 			byLen := map[int]*emission{}
 			for r := min; r <= max; r++ {
+				if !utf8.ValidRune(r) {
+					continue // surrogates have no UTF-8 encoding
+				}
 				bs := []byte(string(rune(r)))
 				e := byLen[len(bs)]
 				if e == nil {
diff --git a/generate.go b/generate.go
index 9c37186..85e67a6 100644
--- a/generate.go
+++ b/generate.go
@@ -79,7 +79,9 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 					}
 					if min <= utf8.MaxRune && min <= max {
 						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
-						appendPtr(out, r)
+						if r, ok := scalarInRange(r, min, max); ok {
+							appendPtr(out, r)
+						}
 					}
 
 				case StatSeries:
diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..3b7855c 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -930,7 +930,10 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			if min > utf8.MaxRune || min > max {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
+			r, ok := scalarInRange(rune(min+tpos), min, max)
+			if !ok {
+				return nil, 1 // no representable character in this range
+			}
 			return []byte(string(r)), max - min + 1
 		}
 	}
diff --git a/utils.go b/utils.go
index dcc9e6d..fee43d2 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +76,21 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// scalarInRange moves r, drawn from [lo, hi], off the surrogate block: those code
+// points have no UTF-8 encoding, so they would be emitted as U+FFFD, which may not
+// belong to the range. ok is false when the range only contains surrogates.
+func scalarInRange(r, lo, hi rune) (scalar rune, ok bool) {
+	switch {
+	case utf8.ValidRune(r):
+		return r, true
+	case hi > 0xDFFF:
+		return 0xE000, true
+	case lo < 0xD800:
+		return 0xD7FF, true
+	}
+	return r, false
+}
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From 1ed14cd2769104ca732317c31918164d1c8ec75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:28 +0000
Subject: [PATCH 12/17] fix: Regex rendered a lone surrogate as U+FFFD

%xD800-D800 matches nothing, but its regular expression matched U+FFFD.
---
 regex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex.go b/regex.go
index b3d49b2..b67aa92 100644
--- a/regex.go
+++ b/regex.go
@@ -177,6 +177,9 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 			if lo > utf8.MaxRune || lo > hi {
 				return reNeverV
 			}
+			if lo >= 0xD800 && hi <= 0xDFFF {
+				return reNeverV // only surrogates, that no UTF-8 input contains
+			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
 		default: // StatSeries is a CONCATENATION of values (a fixed sequence).
 			parts := make([]reNode, 0, len(v.Elems))
-- 
2.43.0


From db41cf906c73679c4c21db2ad25146c156e5bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:58 +0000
Subject: [PATCH 13/17] fix: deflated num-val series became an alternation

WithDeflateNumVals turned a series such as %x61.62 into two independent
entrypoints instead of a chain, so the graph produced "a" and "b" but never
"ab". Surrogates of a deflated range no longer get a node either, as they
can only be emitted as U+FFFD.
---
 transition_graph.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 3b7855c..8611bc7 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1372,6 +1372,9 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 				return nil, nil, err
 			}
 			for i := min; i <= max; i++ {
+				if !utf8.ValidRune(i) {
+					continue // surrogates have no UTF-8 encoding
+				}
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
@@ -1385,14 +1388,20 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
-			for _, s := range v.Elems {
+			// A series is a concatenation: chain its values.
+			for i, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if i == 0 {
+					entrypoints = append(entrypoints, n)
+				}
+				for _, prev := range endpoints {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				endpoints = []*Node{n}
 			}
 		}
 		return
-- 
2.43.0


From 39d09f523238a77d3592b6adf463248caf0c1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:07 +0000
Subject: [PATCH 14/17] fix: forest merged identical children of distinct
 alternates

A packed node was identified by its children only, so a = "a" / "a" counted
one tree in the SPPF and two in the BSR.
---
 sppf.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..84f3d7a 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,12 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from (parallel to packs)
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for pi, p := range n.packs {
+		if n.packAlts[pi] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +267,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +418,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From 597792e570f597d7d074da4e00e4893f37bc840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 15/17] fix: trees of counted repetitions mixed chains of
 different counts

The forest and the BSR set keyed a repetition's intermediate node by its
extent alone, so chains of different iteration counts over the same extent
were merged: a = 2*3("a" / "aa") on "aaaa" reported 5 trees where 4 exist.
Key the intermediate nodes by the iteration count too.
---
 bsr.go     | 131 +++++++++++++++++++++++++++----------------------
 codegen.go | 140 ++++++++++++++++++++++++++++++-----------------------
 sppf.go    |  20 ++++----
 3 files changed, 163 insertions(+), 128 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..628ba30 100644
--- a/bsr.go
+++ b/bsr.go
@@ -30,6 +30,7 @@ import (
 type bsrElem struct {
 	slot    slot
 	l, k, r int
+	rc      int // repetition count of the production (0 outside a counted repetition)
 }
 
 // bsrGNode is a GSS node for the BSR engine. Unlike the SPPF GSS, its edges are
@@ -89,14 +90,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -106,7 +107,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +123,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -240,7 +241,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, u.pos, i, j, rc)
 		i = j
 		L = next
 	}
@@ -257,7 +258,7 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,l,r,rc) -> pivots k
 	start    int
 	n        int
 }
@@ -265,12 +266,13 @@ type BSRForest struct {
 type bsrKey struct {
 	slot slot
 	l, r int
+	rc   int
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +282,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, f.n, 0}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +293,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, f.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -307,6 +309,17 @@ type bsrNodeID struct {
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
 	l, r  int
+	rc    int
+}
+
+// childRC returns the repetition count at which a production of nonterminal nt at
+// count rc derives its symbol s: the self-reference of a counted repetition
+// continues the chain, any other symbol starts afresh (see process).
+func (f *BSRForest) childRC(nt, rc int, s ssym) int {
+	if s.kind == symNonterm && s.nt == nt && f.sg.nts[nt].isRep {
+		return capRC(rc, f.sg.nts[nt])
+	}
+	return 0
 }
 
 // NumTrees returns the number of distinct parse trees represented, or -1 for
@@ -320,35 +333,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(s ssym, a, b, rc int) *big.Int
+	var countSym func(nt, l, r, rc int) *big.Int
+	var countInter func(sl slot, l, r, rc int) *big.Int
+	var countElem func(sl slot, l, k, r, rc int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(s ssym, a, b, rc int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, l, k, r, rc int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1]))
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]))
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, l, r, rc int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +371,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+			total.Add(total, countElem(sl, l, k, r, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, l, r, rc int) *big.Int {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +392,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				total.Add(total, countElem(sl, l, k, r, rc))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +401,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, f.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +415,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, l, r, rc int) bool
+	var interAmb func(sl slot, l, r, rc int) bool
+	var elemAmb func(sl slot, l, k, r, rc int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(s ssym, a, b, rc int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, l, k, r, rc int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1])) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]))
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, l, r, rc int) bool {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, l, r, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, l, k, r, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, l, r, rc int) bool {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +465,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, l, r, rc}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +473,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				if elemAmb(sl, l, k, r, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, f.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +503,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, l, k, r, 0, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -499,27 +512,27 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 	return &ParseTree{Rule: info.ruleName, Start: l, End: r, Children: kids}
 }
 
-// collectElem appends the children of element (sl,l,k,r) into out, flattening
+// collectElem appends the children of element (sl,l,k,r,rc) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, l, k, r, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]), out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, l, k, rc}]; len(ks) > 0 {
+			f.collectElem(isl, l, ks[0], k, rc, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1]), out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, a, b, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +540,7 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	id := bsrNodeID{nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
@@ -535,15 +548,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, a, b, rc}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/codegen.go b/codegen.go
index bd01c92..78435ed 100644
--- a/codegen.go
+++ b/codegen.go
@@ -204,14 +204,14 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i, rc)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	if !c.emitMatch(b, sym) { // sets j or returns on failure
 		return
 	}
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -347,7 +347,7 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, isRep: %v, repMin: %d, repMax: %d, alts: ", nt.isRule, nt.ruleName, nt.isRep, nt.repMin, nt.repMax)
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -481,12 +481,16 @@ type qSym struct{ kind, nt int }
 type qNT struct {
 	isRule   bool
 	ruleName string
+	isRep    bool
+	repMin   int
+	repMax   int
 	alts     [][]qSym
 }
 
 type bsrElem struct {
 	sl      int
 	l, k, r int
+	rc      int // repetition count of the production (0 outside a counted repetition)
 }
 
 type gssKey struct {
@@ -566,14 +570,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -583,7 +587,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -599,7 +603,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -619,12 +623,28 @@ type ParseTree struct {
 type bsrKey struct {
 	sl   int
 	l, r int
+	rc   int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
 	l, r int
+	rc   int
+}
+
+// childRC returns the repetition count at which a production of nonterminal nt at
+// count rc derives its symbol s: the self-reference of a counted repetition
+// continues the chain, any other symbol starts afresh.
+func childRC(nt, rc int, s qSym) int {
+	if s.kind != kNT || s.nt != nt || !qNTs[nt].isRep {
+		return 0
+	}
+	next := rc + 1
+	if qNTs[nt].repMax == inf && next > qNTs[nt].repMin {
+		next = qNTs[nt].repMin
+	}
+	return next
 }
 
 // Result holds the BSR set for a parse and answers queries over it.
@@ -641,7 +661,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -650,7 +670,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, r.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -669,34 +689,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(s qSym, a, b, rc int) *big.Int
+	var countSym func(nt, l, rr, rc int) *big.Int
+	var countInter func(sl, l, rr, rc int) *big.Int
+	var countElem func(sl, l, k, rr, rc int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(s qSym, a, b, rc int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, l, k, rr, rc int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1]))
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, childRC(si.nt, rc, prod[0]))
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, l, rr, rc int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -706,15 +726,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+			total.Add(total, countElem(sl, l, k, rr, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, l, rr, rc int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -725,15 +745,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				total.Add(total, countElem(sl, l, k, rr, rc))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, r.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -746,71 +766,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, l, rr, rc int) bool
+	var interAmb func(sl, l, rr, rc int) bool
+	var elemAmb func(sl, l, k, rr, rc int) bool
+	var symOf func(s qSym, a, b, rc int) bool
+	symOf = func(s qSym, a, b, rc int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, l, k, rr, rc int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1])) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, childRC(si.nt, rc, prod[0]))
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, l, k, rc)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, l, rr, rc int) bool {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, l, rr, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, l, k, rr, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, l, rr, rc int) bool {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, l, rr, rc}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				if elemAmb(sl, l, k, rr, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, r.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -820,31 +840,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, r.n, 0}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, ks[0], r.n, 0, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, l, k, rr, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], l, k, childRC(si.nt, rc, prod[0]), out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, l, k, rc}]; len(ks) > 0 {
+			r.collectElem(sl-1, l, ks[0], k, rc, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1]), out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, a, b, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -852,19 +872,19 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	id := nodeID{sl: -1, nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, a, b, rc}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index 84f3d7a..7074707 100644
--- a/sppf.go
+++ b/sppf.go
@@ -321,13 +321,14 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,start,end,rc); intermediate nodes on
+// (kind,L,start,end,rc); terminal nodes on (kind,start,end).
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
 	L          slot
 	start, end int
+	rc         int // repetition count, so a shorter or longer chain is not mixed in
 }
 
 type gssKey struct {
@@ -362,7 +363,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -378,7 +379,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -399,8 +400,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L
+// at repetition count rc.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -412,9 +414,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	var k nodeKey
 	if betaEmpty {
-		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End, rc: rc}
 	} else {
-		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
+		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End, rc: rc}
 	}
 	y := p.findNode(k)
 	if w != nil {
@@ -547,7 +549,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
-- 
2.43.0


From 2851f9d4c6fa74bcdf5ecad1c894416943810d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:15 +0000
Subject: [PATCH 16/17] fix: Tarjan re-visited its first node as if it were
 unvisited

Index 0 stands for unvisited, but was also given to the first visited node.
Reaching it again restarted it, so a left-recursive component could be split
and the recognizer paniced, depending on the map iteration order.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 99c6393..6779822 100644
--- a/dag.go
+++ b/dag.go
@@ -198,10 +198,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index, from 1 as 0 stands
+	// for a node that has not been visited yet
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From d6792174513986d3f9e5321b0e6b15b32aed1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:11 +0000
Subject: [PATCH 17/17] fix: generated parser did not compile when a called
 nonterminal has no alternates

A repetition whose bounds exclude every count (2*1"a") lowers to a
nonterminal without alternates; the call site then declared v unused.
---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 78435ed..fd78741 100644
--- a/codegen.go
+++ b/codegen.go
@@ -170,6 +170,7 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
+	b.WriteString("\t\t\t_ = v\n") // a callee without alternates never uses it
 	ci := c.sg.nts[callee]
 	if ci.isRep {
 		if callee == s.nt {
-- 
2.43.0

