//@ heap node
//@ types node cycle
//@ func cycle.strongconnect(inout c, v)
//@   modifies node
//@   requires can_visit(H_node, c, v)
//@   ensures done(H_node, c, v, new_H_node, new_c)
//@   loop 1 pre assert(H_node =~= H_node0.insert(v, node { index: c0.index + 1, lowlink: c0.index + 1, onStack: true, ..H_node0[v] })); vis_start(H_node0, c0, v, H_node, c);
//@   loop 1 invariant vis(H_node0, c0, v, H_node, c, $i)
//@   loop 1 head if !c.dg.contains_key(dep) { vis_skip(H_node0, c0, v, H_node, c, $i); } else if H_node[c.dg[dep]].index == 0 { vis_can(H_node0, c0, v, H_node, c, $i); } else { vis_back(H_node0, c0, v, H_node, c, $i); }
//@   | let H_ = H_node; let c_ = c;
//@   ghost after cycle.strongconnect : vis_call(H_node0, c0, v, H_, c_, ri_1, H_node, c);
//@   loop 1 exit if H_node[v].lowlink == H_node[v].index { pop_start(H_node0, c0, v, H_node, c); } else { not_root(H_node0, c0, v, H_node, c); }
//@   loop 2 invariant popping(H_node0, c0, v, H_node, c, scc, w)
//@   loop 2 head pop_step(H_node0, c0, v, H_node, c, scc, w);
//@   loop 2 exit pop_done(H_node0, c0, v, H_node, c, scc);
//@ func cycle.find(inout c)
//@   modifies node
//@   requires dg_ok(H_node, c.dg) && unvisited(H_node, c.dg) && c.index == 0 && c.stack.len() == 0 && c.sccs.len() == 0
//@   ensures new_c.dg == c.dg && same_graph(H_node, new_H_node) && comps(new_H_node, c.dg, new_c.sccs)
//@   ghost entry : find_start(H_node, c);
//@   loop 1 invariant c.dg == c0.dg && same_graph(H_node0, H_node) && found_all(H_node, c.dg, c, $done)
//@   loop 1 head same_adj(H_node0, H_node, c.dg); assert(is_node(H_node, c.dg, v)); let H_ = H_node;
//@   ghost after cycle.strongconnect : assert forall|k: Seq<int>| c.dg.contains_key(k) && H_[c.dg[k]].index > 0 implies H_node[#[trigger] c.dg[k]].index > 0 by { assert(is_node(H_, c.dg, c.dg[k])); }
//@   loop 1 exit find_end(H_node, c);
//@ func Grammar.DependencyGraph(nn g) (r)
//@   modifies node
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules())
//@   ensures dep_graph(new_H_node, r, g.Rulemap)
//@   loop 1 invariant dg_part(H_node, graph, g.Rulemap, $done, Set::empty())
//@   loop 1 head def_by_add(g_coreRules(), $done, rk_1);
//@   loop 2 invariant dg_part(H_node, graph, g.Rulemap, g_coreRules().dom(), $done)
//@   loop 2 head def_by_add(g.Rulemap, $done, rk_2);
//@   loop 2 exit dg_done(H_node, graph, g.Rulemap, g_coreRules().dom(), $done);
//@ func Grammar.IsDAG(nn g) (r)
//@   modifies node
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules())
//@   ensures r <==> !has_cycle(g.Rulemap)
//@   hide cyc rcyc edge reaches path rref rpath rreaches wf_map has_cycle sccs_ok in_sccs resolve adj
//@   ghost after Grammar.DependencyGraph : dep_ok(H_node, $r0, g.Rulemap); let D_ = H_node;
//@   ghost after cycle.find : same_adj(D_, H_node, scc->Some_0.dg); acyclic_iff(H_node, scc->Some_0.dg, scc->Some_0.sccs); has_cycle_iff(H_node, scc->Some_0.dg, g.Rulemap);
//@   loop 1 invariant forall|i: int| 0 <= i < $i ==> trivial(H_node, #[trigger] scc->Some_0.sccs[i])
//@   loop 1 head scc_first(H_node, scc->Some_0.dg, scc->Some_0.sccs, $i); assert(trivial(H_node, scc->Some_0.sccs[$i]) || !trivial(H_node, scc->Some_0.sccs[$i]));
//@ func ruleCycleVisit(key, nodeOf, inCycle, inout visited) (r)
//@   reads node
//@   requires flags_ok(H_node, nodeOf, inCycle) && ascii(key) && is_low(key)
//@   ensures r ==> gnear(adj(H_node, nodeOf), key)
//@   ensures !r ==> mb(new_visited, key) && grown_all(H_node, nodeOf, visited, new_visited)
//@   ghost entry : if nodeOf.contains_key(key) { assert(adj(H_node, nodeOf)[key] == H_node[nodeOf[key]].Dependencies); if cyc(adj(H_node, nodeOf), key) { near_self(adj(H_node, nodeOf), key); } }
//@   loop 1 invariant forall|q: int| 0 <= q < $i ==> H_node[nd].Dependencies[q] != key
//@   loop 1 head assert(ascii(H_node[nodeOf[key]].Dependencies[$i])); assert(H_node[nd].Dependencies.contains(H_node[nd].Dependencies[$i]));
//@   loop 1 exit if !brk_1 { assert(!H_node[nd].Dependencies.contains(key)); }
//@   loop 2 pre assert forall|x: Seq<int>| #[trigger] mb(visited0, x) implies mb(visited, x) by {} assert forall|x: Seq<int>| #[trigger] mb(visited, x) && !mb(visited0, x) implies x == key by {}
//@   loop 2 invariant mb(visited, key) && grown(H_node, nodeOf, visited0, visited, key) && (forall|q: int| 0 <= q < $i ==> mb(visited, #[trigger] H_node[nd].Dependencies[q]))
//@   loop 2 head let v_ = visited; assert(ascii(H_node[nodeOf[key]].Dependencies[$i])); assert(lower_all(H_node[nd].Dependencies[$i]) == H_node[nd].Dependencies[$i]); assert(H_node[nd].Dependencies.contains(H_node[nd].Dependencies[$i]));
//@   | if nodeOf.contains_key(H_node[nd].Dependencies[$i]) { assert(edge(adj(H_node, nodeOf), key, H_node[nd].Dependencies[$i])); } else { near_out(adj(H_node, nodeOf), H_node[nd].Dependencies[$i]); }
//@   ghost after ruleCycleVisit : if $r0 { near_step(adj(H_node, nodeOf), key, H_node[nd].Dependencies[ri_2]); } else { grow_trans(H_node, nodeOf, visited0, v_, key, visited); }
//@   loop 2 exit if !brk_2 { assert(clean(H_node, nodeOf, visited, key)); }
//@ func ruleContainsCycle(sccs, rulename) (r)
//@   reads node
//@   requires ascii(rulename) && exists|dg: Map<Seq<int>, int>| comps(H_node, dg, sccs) && deps_low(H_node, dg)
//@   ensures forall|dg: Map<Seq<int>, int>| #[trigger] comps(H_node, dg, sccs) && deps_low(H_node, dg) ==> (r <==> gnear(adj(H_node, dg), lower_all(rulename)))
//@   ghost entry : let dg_ = choose|dg: Map<Seq<int>, int>| comps(H_node, dg, sccs) && deps_low(H_node, dg); lower_twice(rulename); assert(ascii(lower_all(rulename))) by { assert forall|i: int| 0 <= i < rulename.len() implies 0 <= #[trigger] lower_all(rulename)[i] <= 127 by { assert(0 <= rulename[i] <= 127); } }
//@   loop 1 invariant indexed(H_node, sccs, $i, 0, nodeOf, inCycle)
//@   loop 2 invariant indexed(H_node, sccs, ri_1, $i, nodeOf, inCycle)
//@   loop 2 head assert(at2(sccs, ri_1, $i)); assert(is_node(H_node, dg_, sccs[ri_1][$i])); index_step(H_node, dg_, sccs, ri_1, $i, nodeOf, inCycle);
//@   loop 2 exit index_row(H_node, sccs, ri_1, nodeOf, inCycle);
//@   loop 1 exit index_done(H_node, dg_, sccs, nodeOf, inCycle); assert forall|dg: Map<Seq<int>, int>| comps(H_node, dg, sccs) && deps_low(H_node, dg) implies dg == nodeOf by { index_done(H_node, dg, sccs, nodeOf, inCycle); }
//@   ghost after ruleCycleVisit : if !$r0 { not_near(H_node, nodeOf, $a3, lower_all(rulename)); }
//@ func Grammar.RuleContainsCycle(nn g, rulename) (r, err)
//@   modifies node
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules()) && ascii(rulename)
//@   ensures err is ErrRuleNotFound <==> resolve(g.Rulemap, rulename) is None
//@   ensures err is Nil || (err is ErrRuleNotFound && err->ErrRuleNotFound_0.Rulename == rulename)
//@   ensures err is Nil ==> (r <==> near_cycle(g.Rulemap, rulename))
//@   ghost after Grammar.DependencyGraph : dep_ok(H_node, $r0, g.Rulemap); dep_low(H_node, $r0, g.Rulemap); let D_ = H_node;
//@   ghost after cycle.find : same_adj(D_, H_node, scc->Some_0.dg); near_iff(adj(H_node, scc->Some_0.dg), g.Rulemap, rulename); low_keep(D_, H_node, scc->Some_0.dg);
