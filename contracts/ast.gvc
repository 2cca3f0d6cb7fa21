//@ types ElemCharVal ElemNumVal
//@ func isASCIILetter(r) (b)
//@   ensures b <==> (0x41 <= r <= 0x5A || 0x61 <= r <= 0x7A)
//@ func flipASCIICase(r) (c)
//@   ensures ascii_lower(c) == ascii_lower(r)
//@   ensures is_scalar(r) ==> is_scalar(c)
//@ func addClamp(a, b) (r) checked
//@   requires a >= 0 && b >= 0
//@   ensures r == go_min(a + b, 1073741824)
//@ func mulClamp(n, c) (r)
//@   requires n >= 0 && c >= 0
//@   ensures r == (if n == 0 { 0 } else { go_min(n * c, 1073741824) })
//@   ghost entry : assert(n * c >= 0) by (nonlinear_arith) requires n >= 0, c >= 0; if n >= 1 && c >= 1073741824 { assert(n * c >= 1073741824) by (nonlinear_arith) requires n >= 1, c >= 1073741824; }
//@ func ASTGenerator.over(nn ag, nn out, depth) (b)
//@   ensures b <==> depth >= ag.maxDepth || out.len() >= ag.maxLen
//@ func ASTGenerator.costElem(nn ag, elem) (r)
//@   requires ag.g is Some && wf_map(ag.g->Some_0.Rulemap) && wf_map(g_coreRules()) && wf_el(elem) && costs_ok(ag.minCost)
//@   ensures r >= 0
//@   loop 1 invariant n >= 0
//@ func ASTGenerator.costConcat(nn ag, concat) (r)
//@   requires ag.g is Some && wf_map(ag.g->Some_0.Rulemap) && wf_map(g_coreRules()) && wf_cat(concat) && costs_ok(ag.minCost)
//@   ensures 0 <= r <= 1073741824
//@   loop 1 invariant 0 <= total <= 1073741824
//@   loop 1 head assert(wf_rep(concat.Repetitions[$i]));
//@ func ASTGenerator.costAlt(nn ag, alt) (r)
//@   requires ag.g is Some && wf_map(ag.g->Some_0.Rulemap) && wf_map(g_coreRules()) && wf_alt(alt) && costs_ok(ag.minCost)
//@   ensures 0 <= r <= 1073741824
//@   loop 1 invariant 0 <= best <= 1073741824
//@   loop 1 head wf_cat_of(alt, $i);
//@ func ASTGenerator.cheapestConcat(nn ag, cs) (r)
//@   requires ag.g is Some && wf_map(ag.g->Some_0.Rulemap) && wf_map(g_coreRules()) && cs.len() > 0 && (forall|i: int| 0 <= i < cs.len() ==> wf_cat(#[trigger] cs[i])) && costs_ok(ag.minCost)
//@   ensures 0 <= r < cs.len()
//@   loop 1 invariant 0 <= best < cs.len() && 1 <= i
//@ func ASTGenerator.genAlt(nn ag, src, inout out, alt, depth)
//@   requires gen_ag(ag) && sat_alt(ag.g->Some_0.Rulemap, alt) && wf_alt(alt)
//@   ensures grows_alt(ag.g->Some_0.Rulemap, alt, out, new_out)
//@   ghost entry : wf_cats(alt);
//@   | assert forall|i: int| 0 <= i < alt.Concatenations.len() implies sat_cat(ag.g->Some_0.Rulemap, #[trigger] alt.Concatenations[i]) by { sat_cat_of(ag.g->Some_0.Rulemap, alt, i); }
//@   | assert forall|i: int, n: Seq<int>| 0 <= i < alt.Concatenations.len() && #[trigger] grows_cat(ag.g->Some_0.Rulemap, alt.Concatenations[i], alt.Concatenations[i].Repetitions.len() as int, out, n) implies grows_alt(ag.g->Some_0.Rulemap, alt, out, n) by { grow_alt_of_cat(ag.g->Some_0.Rulemap, alt, i, out, n); }
//@ func ASTGenerator.genConcat(nn ag, src, inout out, concat, depth)
//@   requires gen_ag(ag) && sat_cat(ag.g->Some_0.Rulemap, concat) && wf_cat(concat)
//@   ensures grows_cat(ag.g->Some_0.Rulemap, concat, concat.Repetitions.len() as int, out, new_out)
//@   ghost entry : grow_cat_start(ag.g->Some_0.Rulemap, concat, out);
//@   loop 1 invariant grows_cat(ag.g->Some_0.Rulemap, concat, $i, out0, out)
//@   loop 1 head assert(sat_rep(ag.g->Some_0.Rulemap, concat.Repetitions[$i])); assert(wf_rep(concat.Repetitions[$i])); let pre_ = out;
//@   loop 1 end grow_cat_step(ag.g->Some_0.Rulemap, concat, $i - 1, out0, pre_, out);
//@ func ASTGenerator.genRep(nn ag, src, inout out, rep, depth)
//@   requires gen_ag(ag) && sat_rep(ag.g->Some_0.Rulemap, rep) && wf_rep(rep)
//@   ensures grows_rep(ag.g->Some_0.Rulemap, rep, out, new_out)
//@   ghost entry : grow_pow_start(ag.g->Some_0.Rulemap, rep.Element, out);
//@   loop 1 invariant 0 <= i && (i <= n || n < lo) && lo == rep.Min && n >= lo && (rep.Max == -1 || n <= rep.Max) && grows_pow(ag.g->Some_0.Rulemap, rep.Element, i, out0, out)
//@   loop 1 head let pre_ = out; let ip_ = i;
//@   | assert forall|x: Seq<int>| #[trigger] grows_el(ag.g->Some_0.Rulemap, rep.Element, out, x) implies grows_pow(ag.g->Some_0.Rulemap, rep.Element, i + 1, out0, x) by { grow_pow_step(ag.g->Some_0.Rulemap, rep.Element, i, out0, out, x); }
//@   loop 1 exit if brk_1 { grow_rep_of_pow(ag.g->Some_0.Rulemap, rep, i + 1, out0, out); } else { grow_rep_of_pow(ag.g->Some_0.Rulemap, rep, i, out0, out); }
//@ func ASTGenerator.genElem(nn ag, src, inout out, elem, depth)
//@   requires gen_ag(ag) && sat_el(ag.g->Some_0.Rulemap, elem) && wf_el(elem)
//@   ensures grows_el(ag.g->Some_0.Rulemap, elem, out, new_out)
//@   ghost entry : grow_el_of_alt(ag.g->Some_0.Rulemap, elem, out);
//@   | if is_term(elem) { grow_chars_start(elem, out); if nchars(elem) > 0 { grow_chars_any(elem, 0, out, out); } range_grow(ag.g->Some_0.Rulemap, elem, out); }
//@   loop 1 invariant grows_chars(elem, $i, out0, out)
//@   loop 1 head grow_chars_any(elem, $i, out0, out); assert(is_scalar(e.Values[$i]));
//@   loop 1 exit grow_chars_done(ag.g->Some_0.Rulemap, elem, $i, out0, out);
//@   loop 2 invariant grows_chars(elem, $i, out0, out)
//@   loop 2 head grow_chars_any(elem, $i, out0, out); assert(nv_ok(e.Elems[$i], e.Base)); assert(is_scalar(nval(e.Elems[$i], e.Base)));
//@   loop 2 exit grow_chars_done(ag.g->Some_0.Rulemap, elem, $i, out0, out);
//@ func ASTGenerator.walk(nn ag, src) (w)
//@   requires gen_ag(ag) && ag.start is Some && sat_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation) && wf_alt(ag.start->Some_0.Alternation)
//@   ensures d_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation, w)
//@   ghost entry : assert forall|x: Seq<int>| tail(Seq::<int>::empty(), x) =~= x by {}
//@ func ASTGenerator.Generate(nn ag, tape) (w)
//@   requires gen_ag(ag) && ag.start is Some && sat_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation) && wf_alt(ag.start->Some_0.Alternation)
//@   ensures d_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation, w)
//@ func ASTGenerator.GenerateRand(nn ag, r) (w)
//@   requires gen_ag(ag) && ag.start is Some && sat_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation) && wf_alt(ag.start->Some_0.Alternation)
//@   ensures d_alt(ag.g->Some_0.Rulemap, ag.start->Some_0.Alternation, w)
