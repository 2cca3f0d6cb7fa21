//@ heap Node
//@ func nodeEmit(node, tpos) (prod, vtotal)
//@   reads Node
//@   requires tnode(H_Node, node) && npos_ok(H_Node, node, tpos)
//@   ensures vtotal >= 1
//@   ensures forall|t: int| 0 <= t < vtotal ==> npos_ok(H_Node, node, t)
//@   ensures emits(H_Node, node, prod)
//@   ghost entry : let e_ = H_Node[node].Elem; let z_ = Seq::<int>::empty(); if node != 0 { grow_chars_start(e_, z_); if e_ is ElemNumVal && e_->ElemNumVal_0.Status == 1 { one_emit(H_Node, node); } }
//@   | assert forall|k: int| #[trigger] pow2(k) >= 1 by { pow2_pos(k); }
//@   loop 1 invariant grows_chars(e_, $i, z_, prod)
//@   loop 1 head grow_chars_any(e_, $i, z_, prod); assert(is_scalar(v.Values[$i]));
//@   loop 1 exit chars_emit(H_Node, node, $i, prod);
//@   loop 2 invariant numVar >= 0 && prod.len() == 0
//@   loop 3 invariant bit >= 0 && grows_chars(e_, $i, z_, prod)
//@   loop 3 head grow_chars_any(e_, $i, z_, prod); assert(is_scalar(v.Values[$i]));
//@   loop 3 exit chars_emit(H_Node, node, $i, prod);
//@   loop 4 invariant grows_chars(e_, $i, z_, prod)
//@   loop 4 head grow_chars_any(e_, $i, z_, prod); assert(nv_ok(v.Elems[$i], v.Base)); assert(is_scalar(nval(v.Elems[$i], v.Base)));
//@   loop 4 exit chars_emit(H_Node, node, $i, prod);
//@ func tgNodeID(n) (r)
//@   reads Node
//@   ensures r == tgid(H_Node, n)
//@ func producing(n) (r)
//@   reads Node
//@   ensures r <==> n == 0 || is_term(H_Node[n].Elem)
//@ func Generator.nearestToEnd(nn g, cands) (r)
//@   reads Node
//@   requires cands.len() > 0
//@   ensures cands.contains(r)
//@   loop 1 invariant cands.contains(best)
//@   loop 1 head assert(cands[$i + 1] == c);
//@ func Generator.walk(nn g, src, out trace) (out)
//@   reads Node
//@   requires gen_ok(H_Node, g)
//@   ensures g.entries.len() == 0 ==> out.len() == 0
//@   ensures g.entries.len() > 0 ==> spelled(H_Node, g.tg->Some_0, out)
//@   ghost entry : let s_ = choose|s: Set<int>| gen_in(H_Node, g, s); let t_ = g.tg->Some_0;
//@   hide walked walked_any sat_el in_term spelled
//@   loop 1 pre assert(g.entries.contains(node));
//@   loop 1 invariant to_walk(H_Node, t_.Entrypoints, node, out) && (node == 0 || s_.contains(node)) && flag(g.canReach, tgid(H_Node, node))
//@   loop 1 head walk_emit(H_Node, t_.Entrypoints, node, out); assert(sat_term(H_Node[node].Elem) || node == 0); if node != 0 { assert(goes_on(H_Node, g.canReach, g.endSet, node)); }
//@   loop 2 invariant (forall|x: int| #[trigger] liveAll.contains(x) ==> H_Node[node].Nexts.contains(x) && live(H_Node, g.canReach, x)) && (forall|x: int| #[trigger] liveCapped.contains(x) ==> H_Node[node].Nexts.contains(x) && live(H_Node, g.canReach, x))
//@   | && (liveAll.len() == 0 ==> forall|j: int| 0 <= j < $i ==> !live(H_Node, g.canReach, #[trigger] H_Node[node].Nexts[j]))
//@   loop 2 head assert(H_Node[node].Nexts.contains(sc)); let la_ = liveAll; let lc_ = liveCapped; assert forall|x: int, y: int| #[trigger] la_.push(y).contains(x) implies la_.contains(x) || x == y by {} assert forall|x: int, y: int| #[trigger] lc_.push(y).contains(x) implies lc_.contains(x) || x == y by {}
//@   loop 2 exit assert forall|i: int| 0 <= i < liveCapped.len() implies liveCapped.contains(#[trigger] liveCapped[i]) by {}
//@   | assert forall|x: int| #[trigger] H_Node[node].Nexts.contains(x) && x != 0 implies s_.contains(x) && to_walk(H_Node, t_.Entrypoints, x, out) by { let j_ = choose|j: int| 0 <= j < H_Node[node].Nexts.len() && H_Node[node].Nexts[j] == x; assert(s_.contains(H_Node[node].Nexts[j_])); }
//@   | assert(liveAll.len() == 0 ==> flag(g.endSet, H_Node[node].ID));
//@   loop 1 exit if t_.Endpoints.contains(node) { spelled_of(H_Node, t_, node, out); }
//@ func Generator.Generate(nn g, tape) (out)
//@   reads Node
//@   requires gen_ok(H_Node, g)
//@   ensures g.entries.len() == 0 ==> out.len() == 0
//@   ensures g.entries.len() > 0 ==> spelled(H_Node, g.tg->Some_0, out)
//@ func Generator.GenerateRand(nn g, r) (out)
//@   reads Node
//@   requires gen_ok(H_Node, g)
//@   ensures g.entries.len() == 0 ==> out.len() == 0
//@   ensures g.entries.len() > 0 ==> spelled(H_Node, g.tg->Some_0, out)
//@ opaque GenOption
//@ trusted GenOption.apply(o, inout g)
//@   ensures new_g.tg == g.tg && new_g.entries == g.entries
//@ func NewGenerator(tg, opts) (r, err)
//@   reads Node
//@   requires tg is Some && graph_ok(H_Node, tg->Some_0)
//@   ensures err is Nil ==> r is Some && r->Some_0.tg == tg && gen_ok(H_Node, r->Some_0)
//@   ghost entry : let s_ = choose|s: Set<int>| graph_in(H_Node, tg->Some_0, s); let t_ = tg->Some_0;
//@   loop 1 invariant g is Some && g->Some_0.tg == tg && g->Some_0.entries.len() == 0
//@   loop 2 invariant (forall|i: int| 0 <= i < $i ==> #[trigger] t_.Entrypoints[i] == 0 || stack.contains(t_.Entrypoints[i])) && (forall|i: int| 0 <= i < stack.len() ==> s_.contains(#[trigger] stack[i]))
//@   loop 2 head let st_ = stack; assert(st_.push(e)[st_.len() as int] == e); assert forall|x: int| #[trigger] st_.contains(x) implies st_.push(e).contains(x) by { let j = choose|j: int| 0 <= j < st_.len() && st_[j] == x; assert(st_.push(e)[j] == x); }
//@   loop 3 pre assert forall|i: int| 0 <= i < t_.Entrypoints.len() implies queued(H_Node, nodes, stack, #[trigger] t_.Entrypoints[i]) by {}
//@   loop 3 invariant swept(H_Node, s_, nodes, stack, 0, 0) && ents_in(H_Node, nodes, stack, t_.Entrypoints) && rev_ok(H_Node, s_, revAdj)
//@   loop 3 head let st_ = stack; let ns_ = nodes; assert(s_.contains(stack[stack.len() - 1])); if seen(H_Node, nodes, stack.last()) { sweep_pop(H_Node, s_, nodes, stack, t_.Entrypoints); }
//@   loop 4 pre sweep_visit(H_Node, t_, s_, ns_, st_, t_.Entrypoints);
//@   loop 4 invariant swept(H_Node, s_, nodes, stack, n, $i) && ents_in(H_Node, nodes, stack, t_.Entrypoints) && rev_ok(H_Node, s_, revAdj)
//@   loop 4 head sweep_next(H_Node, s_, nodes, stack, t_.Entrypoints, n, $i, revAdj);
//@   loop 4 exit assert(swept(H_Node, s_, nodes, stack, 0, 0));
//@   loop 3 exit assert(stack =~= Seq::empty()); let nd_ = nodes;
//@   loop 5 invariant g is Some && g->Some_0.tg == tg && g->Some_0.entries.len() == 0 && ends_ok(H_Node, g->Some_0.endSet, t_.Endpoints) && reach_ok(H_Node, s_, g->Some_0.canReach, g->Some_0.endSet, q)
//@   loop 5 head reach_end(H_Node, s_, g->Some_0.canReach, g->Some_0.endSet, q, tgid(H_Node, e)); ends_more(H_Node, g->Some_0.endSet, t_.Endpoints, $i);
//@   loop 6 invariant g is Some && g->Some_0.tg == tg && g->Some_0.entries.len() == 0 && ends_ok(H_Node, g->Some_0.endSet, t_.Endpoints) && reach_ok(H_Node, s_, g->Some_0.canReach, g->Some_0.endSet, q)
//@   loop 6 head assert(flag(g->Some_0.canReach, q[0]));
//@   loop 7 invariant g is Some && g->Some_0.tg == tg && g->Some_0.entries.len() == 0 && ends_ok(H_Node, g->Some_0.endSet, t_.Endpoints) && reach_ok(H_Node, s_, g->Some_0.canReach, g->Some_0.endSet, q) && flag(g->Some_0.canReach, id)
//@   loop 7 head assert(pred_of(H_Node, s_, revAdj[id][$i], id)); reach_more(H_Node, t_, s_, g->Some_0.canReach, g->Some_0.endSet, q, p, id);
//@   loop 6 exit assert(q =~= Seq::empty());
//@   loop 8 invariant g is Some && g->Some_0.tg == tg && ends_ok(H_Node, g->Some_0.endSet, t_.Endpoints) && reach_ok(H_Node, s_, g->Some_0.canReach, g->Some_0.endSet, Seq::empty())
//@   | && (forall|i: int| 0 <= i < g->Some_0.entries.len() ==> t_.Entrypoints.contains(#[trigger] g->Some_0.entries[i]) && flag(g->Some_0.canReach, tgid(H_Node, g->Some_0.entries[i])))
//@   loop 8 head assert(t_.Entrypoints.contains(e));
//@   loop 8 exit gen_done(H_Node, g->Some_0, s_, nodes);
//@   hide sat_el
//@ func Generator.nearMissCandidates(nn g, src, base, trace) (cs)
//@ func Generator.NearMiss(nn g, tape) (production, label, ok)
//@   modifies node
//@   reads Node
//@   requires gen_ok(H_Node, g) && g.tg->Some_0.grammar is Some && wf_map(g.tg->Some_0.grammar->Some_0.Rulemap) && wf_map(g_coreRules()) && ascii(g.tg->Some_0.rulename)
//@   ensures ok ==> !d_rule(g.tg->Some_0.grammar->Some_0.Rulemap, g.tg->Some_0.rulename, production)
//@   ensures !ok ==> production.len() == 0 && label.len() == 0
