//@ func generateKeepGoing(i, torep, minrep, lenout, threshold) (b)
//@   ensures b ==> i < torep
//@   ensures !b ==> i >= torep || (i == 0 && minrep == 0)
//@ func appendPtr(inout slc, v)
//@   ensures new_slc =~= slc + utf8_strs(v)
//@ func generateAlt(rand, nn g, inout out, alt, nn options)
//@   requires gen_rm(g.Rulemap) && sat_alt(g.Rulemap, alt) && wf_alt(alt)
//@   ensures grows_alt(g.Rulemap, alt, out, new_out)
//@   ghost entry : wf_cats(alt); strs_one();
//@   | assert forall|a: int, b: int| a >= 0 && b > 0 implies 0 <= #[trigger] go_mod(a, b) < b by { go_mod_bound(a, b); }
//@   | assert forall|a: int| a >= 0 implies 0 <= #[trigger] bit_and(a, 15) <= 15 by { and_bound(a, 15); }
//@   | assert forall|i: int| 0 <= i < alt.Concatenations.len() implies sat_cat(g.Rulemap, #[trigger] alt.Concatenations[i]) by { sat_cat_of(g.Rulemap, alt, i); }
//@   | assert forall|i: int, n: Seq<int>| 0 <= i < alt.Concatenations.len() && #[trigger] grows_cat(g.Rulemap, alt.Concatenations[i], alt.Concatenations[i].Repetitions.len() as int, out, n) implies grows_alt(g.Rulemap, alt, out, n) by { grow_alt_of_cat(g.Rulemap, alt, i, out, n); }
//@   loop 1 pre grow_cat_start(g.Rulemap, cnt, out0); assert(sat_cat(g.Rulemap, cnt)); assert(wf_cat(cnt));
//@   loop 1 invariant grows_cat(g.Rulemap, cnt, $i, out0, out)
//@   loop 1 head assert(sat_rep(g.Rulemap, cnt.Repetitions[$i])); assert(wf_rep(cnt.Repetitions[$i])); let m_ = out; grow_pow_start(g.Rulemap, rep.Element, m_);
//@   loop 1 end grow_cat_step(g.Rulemap, cnt, $i - 1, out0, m_, out);
//@   loop 2 invariant 0 <= i && (i <= torep) && torep >= rep.Min && (rep.Max == -1 || torep <= rep.Max) && grows_pow(g.Rulemap, rep.Element, i, m_, out)
//@   loop 2 head let e_ = rep.Element; let b_ = out; let ip_ = i; grow_el_of_alt(g.Rulemap, e_, b_);
//@   | if is_term(e_) { grow_chars_start(e_, b_); range_grow(g.Rulemap, e_, b_); }
//@   loop 2 end grow_pow_step(g.Rulemap, rep.Element, ip_, m_, b_, out);
//@   loop 2 exit grow_rep_of_pow(g.Rulemap, rep, i, m_, out);
//@   loop 3 invariant grows_chars(e_, $i, b_, out)
//@   loop 3 head grow_chars_any(e_, $i, b_, out); assert(nv_ok(elem.Elems[$i], elem.Base)); assert(is_scalar(nval(elem.Elems[$i], elem.Base)));
//@   loop 3 exit grow_chars_done(g.Rulemap, e_, $i, b_, out);
//@   loop 4 invariant grows_chars(e_, $i, b_, out)
//@   loop 4 head grow_chars_any(e_, $i, b_, out); assert(is_scalar(elem.Values[$i]));
//@   loop 4 exit grow_chars_done(g.Rulemap, e_, $i, b_, out);
//@ opaque GenerateOption
//@ sentinel ErrHandlingProseVal
//@ trusted GenerateOption.apply(o, inout opts)
//@ trusted rand.NewSource(seed) (s)
//@ pure duplicateMap(m) = m
//@ trusted errors.Join(errs) (r)
//@   ensures r is Nil <==> (forall|i: int| 0 <= i < errs.len() ==> #[trigger] errs[i] is Nil)
//@ func checkCanGenerateSafelyConcat(nn g, knownRules, concat) (err)
//@   requires csat_rm(g.Rulemap) && csat_cat(g.Rulemap, concat) && wf_cat(concat) && known_ascii(knownRules)
//@   ensures err is Nil ==> prod_cat(g.Rulemap, concat, concat.Repetitions.len() as int)
//@   ghost entry : prod_start(g.Rulemap, concat);
//@   loop 1 invariant prod_cat(g.Rulemap, concat, $i)
//@   loop 1 head assert(csat_rep(g.Rulemap, concat.Repetitions[$i])); assert(wf_rep(concat.Repetitions[$i])); prod_terms(g.Rulemap, rep.Element); prod_up(g.Rulemap, rep.Element);
//@   loop 1 end if rep.Min == 0 || prod_el(g.Rulemap, rep.Element) { prod_step(g.Rulemap, concat, $i - 1); }
//@ func checkCanGenerateSafelyAlt(nn g, knownRules, alt) (err)
//@   requires csat_rm(g.Rulemap) && csat_alt(g.Rulemap, alt) && wf_alt(alt) && known_ascii(knownRules)
//@   ensures err is Nil ==> prod_alt(g.Rulemap, alt)
//@   ghost entry : wf_cats(alt);
//@   | assert forall|i: int| 0 <= i < alt.Concatenations.len() implies csat_cat(g.Rulemap, #[trigger] alt.Concatenations[i]) by { csat_cat_of(g.Rulemap, alt, i); }
//@   | assert forall|i: int| 0 <= i < alt.Concatenations.len() && #[trigger] prod_cat(g.Rulemap, alt.Concatenations[i], alt.Concatenations[i].Repetitions.len() as int) implies prod_alt(g.Rulemap, alt) by { prod_alt_of(g.Rulemap, alt, i); }
//@   loop 1 invariant errs.len() == alt.Concatenations.len() && (forall|k: int| 0 <= k < $i && #[trigger] errs[k] is Nil ==> prod_cat(g.Rulemap, alt.Concatenations[k], alt.Concatenations[k].Repetitions.len() as int))
//@   loop 2 invariant errs.len() == alt.Concatenations.len() && 0 <= i <= errs.len() && (allErrors ==> (forall|k: int| 0 <= k < i ==> !(#[trigger] errs[k] is Nil))) && (!allErrors ==> (exists|k: int| 0 <= k < i && #[trigger] errs[k] is Nil))
//@   loop 2 exit assert(allErrors && i == errs.len() ==> !(errs[0] is Nil));
//@ func checkCanGenerateSafely(nn g, rulename) (err)
//@   requires csat_rm(g.Rulemap) && ascii(rulename)
//@   ensures err is Nil ==> resolve(g.Rulemap, rulename) is Some && prod_alt(g.Rulemap, resolve(g.Rulemap, rulename)->Some_0.Alternation)
//@   ensures resolve(g.Rulemap, rulename) is None <==> err is ErrRuleNotFound
//@ func Grammar.Generate(nn g, seed, rulename, opts) (out, err)
//@   requires gen_rm(g.Rulemap) && csat_rm(g.Rulemap) && ascii(rulename)
//@   ensures err is Nil ==> d_rule(g.Rulemap, rulename, out)
//@   ensures resolve(g.Rulemap, rulename) is None <==> err is ErrRuleNotFound
//@   ghost entry : assert forall|x: Seq<int>| tail(Seq::<int>::empty(), x) =~= x by {}
//@   loop 1 invariant options is Some
