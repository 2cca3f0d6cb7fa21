//@ func altNullable(nn g, null, alt) (r)
//@   requires wf_alt(alt)
//@   ensures r == nl_alt(null, alt)
//@   hide nl_alt nl_el
//@   loop 1 invariant forall|p: int| 0 <= p < $i ==> #[trigger] stuck(null, alt, p)
//@   loop 1 exit nl_none(null, alt);
//@   loop 2 invariant nullable && forall|q: int| 0 <= q < $i ==> nl_rep(null, #[trigger] alt.Concatenations[ri_1].Repetitions[q])
//@   loop 2 head assert(in_alt_ix(alt, ri_1, ri_2));
//@   loop 2 exit if !brk_2 { nl_alt_of(null, alt, ri_1); } else { assert(!nl_rep(null, alt.Concatenations[ri_1].Repetitions[ri_2])); assert(stuck(null, alt, ri_1)); }
//@ func repNullable(nn g, null, rep) (r)
//@   requires wf_el(rep.Element)
//@   ensures r == nl_rep(null, rep)
//@ func elemNullable(nn g, null, elem) (r)
//@   requires wf_el(elem)
//@   ensures r == nl_el(null, elem)
//@ func Grammar.nullableRules(nn g) (r)
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules())
//@   ensures nclosed(g.Rulemap, r)
//@   hide nl_alt nl_el resolve
//@   loop 1 invariant rules_in(g.Rulemap, rules) && named(rules, $done)
//@   loop 1 head rule_named(g.Rulemap, rk_1);
//@   loop 2 invariant rules_in(g.Rulemap, rules) && named(rules, g.Rulemap.dom()) && named(rules, $done)
//@   loop 2 head rule_named(g.Rulemap, rk_2);
//@   loop 2 exit all_named(g.Rulemap, rules);
//@   loop 3 invariant !changed ==> fixed(rules, null, rules.dom())
//@   loop 4 invariant !changed ==> fixed(rules, null, $done)
//@   loop 3 exit fix_closed(g.Rulemap, rules, null, rules.dom());
//@ func leftCornerDeps(nn g, null, alt) (r)
//@   requires wf_alt(alt) && wf_map(g.Rulemap) && wf_map(g_coreRules()) && nclosed(g.Rulemap, null)
//@   ensures has_lcs(g.Rulemap, alt, r)
//@ func leftCornerDeps$addElem(e; nn g, null, inout deps)
//@   requires wf_el(e) && wf_map(g.Rulemap) && wf_map(g_coreRules()) && nclosed(g.Rulemap, null)
//@   ensures (forall|y: Seq<int>| #[trigger] lc_el(g.Rulemap, e, y) ==> new_deps.contains(y)) && (forall|y: Seq<int>| #[trigger] deps.contains(y) ==> new_deps.contains(y))
//@   ghost entry : one_in(); lc_up(g.Rulemap, e);
//@   hide lc_el lc_alt
//@ func leftCornerDeps$addAlt(a; nn g, null, inout deps)
//@   requires wf_alt(a) && wf_map(g.Rulemap) && wf_map(g_coreRules()) && nclosed(g.Rulemap, null)
//@   ensures has_lcs(g.Rulemap, a, new_deps) && (forall|y: Seq<int>| #[trigger] deps.contains(y) ==> new_deps.contains(y))
//@   hide lc_el lc_alt nl_el d_rep
//@   loop 1 invariant (forall|p: int, y: Seq<int>| 0 <= p < $i && #[trigger] lc_cat(g.Rulemap, a.Concatenations[p], y) ==> deps.contains(y)) && (forall|y: Seq<int>| #[trigger] deps0.contains(y) ==> deps.contains(y))
//@   loop 1 head let d1_ = deps; wf_cats(a);
//@   loop 1 exit lcs_done(g.Rulemap, a, deps);
//@   loop 2 invariant (forall|q: int, y: Seq<int>| 0 <= q < $i && #[trigger] lc_el(g.Rulemap, c.Repetitions[q].Element, y) ==> deps.contains(y)) && (forall|y: Seq<int>| #[trigger] d1_.contains(y) ==> deps.contains(y))
//@   loop 2 head assert(in_alt_ix(a, ri_1, ri_2)); ne_stop(g.Rulemap, null, c.Repetitions[ri_2]);
//@   loop 2 exit lcs_cat(g.Rulemap, c, if brk_2 { ri_2 + 1 } else { c.Repetitions.len() as int }, deps);
//@ func Grammar.leftRecursiveSCCs$add(nn r; nn g, null, inout lc)
//@   modifies node
//@   requires lc_ok(H_node, lc) && name_ok(r.Name) && wf_alt(r.Alternation) && wf_map(g.Rulemap) && wf_map(g_coreRules()) && nclosed(g.Rulemap, null) && lc_deps(g.Rulemap, H_node, lc) && resolve(g.Rulemap, r.Name) == Some(r)
//@   ensures lc_ok(new_H_node, new_lc) && lc_deps(g.Rulemap, new_H_node, new_lc) && new_lc.contains_key(lower_all(r.Name)) && (forall|k: Seq<int>| #[trigger] lc.contains_key(k) ==> new_lc.contains_key(k))
//@   hide lc_alt resolve
//@   ghost entry : lower_twice(r.Name); resolve_fold(g.Rulemap, r.Name, lower_all(r.Name));
//@ func Grammar.leftRecursiveSCCs(nn g) (r)
//@   modifies node
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules())
//@   ensures lr_ok(r) && lr_exact(g.Rulemap, r) && lr_lists(r)
//@   hide lc_alt resolve reaches cyc edge path has_lcs
//@   loop 1 invariant lc_ok(H_node, lc) && lc_deps(g.Rulemap, H_node, lc) && named(lc, $done)
//@   loop 1 head rule_named(g.Rulemap, rk_1);
//@   loop 2 invariant lc_ok(H_node, lc) && lc_deps(g.Rulemap, H_node, lc) && named(lc, g.Rulemap.dom()) && named(lc, $done)
//@   loop 2 head rule_named(g.Rulemap, rk_2);
//@   loop 2 exit all_named(g.Rulemap, lc);
//@   ghost before cycle.find : let Hb_ = H_node;
//@   ghost after cycle.find : let dg_ = finder->Some_0.dg; let sc_ = finder->Some_0.sccs; same_deps(g.Rulemap, Hb_, H_node, dg_);
//@   loop 3 invariant lr_part(H_node, sc_, $i, 0, out) && all_lr(H_node, sc_, $i, out)
//@   loop 3 head assert(sc_[$i].len() > 0); assert(scc == sc_[$i]); let o_ = out;
//@   loop 4 invariant members.len() == scc.len() && (forall|q: int| 0 <= q < $i ==> #[trigger] members[q] =~= nm(H_node, scc[q]))
//@   loop 4 head assert(at2(sc_, ri_3, $i)); assert(is_node(H_node, dg_, sc_[ri_3][$i]));
//@   loop 4 exit assert(members =~= low_names(H_node, scc)); assert(at2(sc_, ri_3, 0)); assert(is_node(H_node, dg_, sc_[ri_3][0]));
//@   loop 5 invariant lr_part(H_node, sc_, ri_3, $i, out) && (forall|k: Seq<int>| #[trigger] o_.contains_key(k) ==> out.contains_key(k))
//@   loop 5 head assert(at2(sc_, ri_3, $i)); lr_put(H_node, dg_, sc_, ri_3, $i, out); assert(members[$i] == nm(H_node, scc[$i]));
//@   loop 5 exit all_lr_row(H_node, sc_, ri_3, o_, out); lr_row(H_node, dg_, sc_, ri_3, sc_[ri_3].len() as int, out);
//@   loop 3 end if !leftRecursive { lr_row(H_node, dg_, sc_, ri_3 - 1, 0, out); all_lr_skip(H_node, sc_, ri_3 - 1, out); }
//@   loop 3 exit lr_all(g.Rulemap, H_node, dg_, sc_, out);
