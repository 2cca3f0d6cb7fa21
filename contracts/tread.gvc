//@ func edgeStr(from, to) (r)
//@   reads Node
//@   ensures r == ekey(H_Node, from, to)
//@ func TransitionGraphReader.allowedAt(nn tgr, d) (r)
//@   reads Node
//@   requires d == tgr.stack.len() && exists|s: Set<int>| rd_walk(H_Node, tgr, s)
//@   ensures forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> kids(H_Node, tgr.tg->Some_0, s, tgr.stack, d, r)
//@   loop 1 invariant forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> kids(H_Node, tgr.tg->Some_0, s, tgr.stack, d, out)
//@   loop 1 head let o_ = out; assert forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) && flag(tgr.canReach, tgid(H_Node, sc)) && cnt_of(tgr.usedEdges, ekey(H_Node, parent, sc)) <= 0 implies kids(H_Node, tgr.tg->Some_0, s, tgr.stack, d, o_.push(sc)) by { kid_more(H_Node, tgr, s, o_, $i); }
//@ func TransitionGraphReader.pushFirst(inout tgr, d) (b)
//@   reads Node
//@   requires d == tgr.stack.len() && exists|s: Set<int>| rd_walk(H_Node, tgr, s)
//@   ensures forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> rd_walk(H_Node, new_tgr, s)
//@   ensures same_base(tgr, new_tgr) && (b ==> new_tgr.stack.len() == d + 1) && (!b ==> new_tgr == tgr) && tgr.length == new_tgr.length
//@   ghost after TransitionGraphReader.allowedAt : let al_ = $r0; if al_.len() > 0 { assert forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) implies kids(H_Node, tgr0.tg->Some_0, s, tgr0.stack, d, al_) by {} }
//@   ghost return : if b { assert forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) implies rd_walk(H_Node, tgr, s) by { top_on(H_Node, tgr0.tg->Some_0, s, tgr0.stack, tgr0.usedEdges, al_); } }
//@ func TransitionGraphReader.bump(inout tgr) (b)
//@   reads Node
//@   requires exists|s: Set<int>| rd_walk(H_Node, tgr, s)
//@   ensures forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> rd_walk(H_Node, new_tgr, s)
//@   ensures same_base(tgr, new_tgr) && tgr.length == new_tgr.length && new_tgr.stack.len() <= tgr.stack.len() && (b ==> new_tgr.stack.len() > 0)
//@   loop 1 invariant (forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) ==> rd_walk(H_Node, tgr, s)) && same_base(tgr0, tgr) && tgr.stack.len() <= tgr0.stack.len() && tgr.length == tgr0.length
//@   loop 1 head let st_ = tgr.stack; let us_ = tgr.usedEdges; let g_ = tgr; let w_ = choose|s: Set<int>| rd_walk(H_Node, tgr0, s); assert(rd_walk(H_Node, tgr, w_)); assert(frame_ok(H_Node, tgr.tg->Some_0, w_, st_, st_.len() - 1));
//@   loop 1 end assert forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) implies rd_walk(H_Node, tgr, s) by { assert(rd_walk(H_Node, g_, s)); top_off(H_Node, g_.tg->Some_0, s, st_, us_); }
//@   ghost return 1 : assert forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) implies rd_walk(H_Node, tgr, s) by { assert(rd_walk(H_Node, g_, s)); top_off(H_Node, g_.tg->Some_0, s, st_, us_); let e_ = st_.len() - 1; let f_ = tgr.stack[e_]; let vs_ = if e_ >= 1 { us_.insert(fkey(H_Node, st_, e_), cnt_of(us_, fkey(H_Node, st_, e_)) - 1) } else { us_ };
//@   | assert(frame_ok(H_Node, g_.tg->Some_0, s, st_, e_)); top_swap(H_Node, g_.tg->Some_0, s, st_, vs_, f_); assert(tgr.stack =~= st_.update(e_, f_)); }
//@ func TransitionGraphReader.nextLeaf(inout tgr) (b)
//@   reads Node
//@   requires tgr.length >= 1 && exists|s: Set<int>| rd_walk(H_Node, tgr, s)
//@   ensures forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> rd_walk(H_Node, new_tgr, s)
//@   ensures same_base(tgr, new_tgr) && tgr.length == new_tgr.length && (b ==> new_tgr.stack.len() == tgr.length)
//@   loop 1 invariant (forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) ==> rd_walk(H_Node, tgr, s)) && same_base(tgr0, tgr) && tgr.length == tgr0.length
//@   loop 1 head let w_ = choose|s: Set<int>| rd_walk(H_Node, tgr0, s); assert(rd_walk(H_Node, tgr, w_)); let g_ = tgr;
//@ func TransitionGraphReader.resetLevel(inout tgr)
//@   ensures same_base(tgr, new_tgr) && tgr.length == new_tgr.length && new_tgr.stack.len() == 0 && (forall|k: Seq<int>| #[trigger] cnt_of(new_tgr.usedEdges, k) >= 0)
//@   requires forall|k: Seq<int>| #[trigger] cnt_of(tgr.usedEdges, k) >= 0
//@   loop 1 invariant same_base(tgr0, tgr) && tgr.length == tgr0.length && tgr.stack.len() == 0 && (forall|k: Seq<int>| #[trigger] cnt_of(tgr.usedEdges, k) >= 0)
//@   loop 1 head let u_ = tgr.usedEdges; assert forall|k: Seq<int>, x: Seq<int>| #[trigger] cnt_of(u_.remove(x), k) >= 0 by { assert(cnt_of(u_, k) >= 0); }
//@ func TransitionGraphReader.advancePath(inout tgr) (b)
//@   reads Node
//@   requires tgr.length >= 0 && exists|s: Set<int>| rd_walk(H_Node, tgr, s)
//@   ensures forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr, s) ==> rd_walk(H_Node, new_tgr, s)
//@   ensures same_base(tgr, new_tgr) && new_tgr.length >= 0 && (b ==> trail(H_Node, tgr.tg->Some_0, nodes_of(new_tgr.stack)) && (forall|i: int| 0 <= i < new_tgr.stack.len() ==> tnode(H_Node, #[trigger] new_tgr.stack[i].node)))
//@   loop 1 invariant (forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) ==> rd_walk(H_Node, tgr, s)) && same_base(tgr0, tgr) && tgr.length >= 0
//@   loop 1 head let w_ = choose|s: Set<int>| rd_walk(H_Node, tgr0, s); assert(rd_walk(H_Node, tgr, w_));
//@   loop 2 invariant (forall|s: Set<int>| #[trigger] rd_walk(H_Node, tgr0, s) ==> rd_walk(H_Node, tgr, s)) && same_base(tgr0, tgr) && tgr.length >= 1
//@   loop 2 head assert(rd_walk(H_Node, tgr, w_));
//@   ghost after TransitionGraphReader.nextLeaf : assert(rd_walk(H_Node, tgr, w_)); if $r0 && flag(tgr.endSet, tgid(H_Node, tgr.stack.last().node)) { top_node(H_Node, tgr, w_); }
//@ func TransitionGraphReader.ensureStaged(inout tgr)
//@   reads Node
//@   requires rd_ok(H_Node, tgr)
//@   ensures rd_ok(H_Node, new_tgr) && new_tgr.tg == tgr.tg && new_tgr.mode == tgr.mode && new_tgr.prodIdx == tgr.prodIdx && (new_tgr.hasStaged || new_tgr.exhausted)
//@   ghost entry : let w_ = choose|s: Set<int>| rd_in(H_Node, tgr, s); let t_ = tgr.tg->Some_0; assert(rd_in(H_Node, tgr, w_));
//@   ghost after TransitionGraphReader.advancePath : assert(rd_walk(H_Node, tgr, w_));
//@   loop 1 pre let k1_ = tgr.stack;
//@   loop 1 invariant tgr.stack == k1_ && rd_walk(H_Node, tgr, w_) && same_opts(tgr0, tgr) && !tgr.hasStaged && tgr.havePath && trail_here(H_Node, tgr) && vars_in(H_Node, tgr, $i) && tgr.varIdx.len() == $i
//@   loop 1 head assert(tnode(H_Node, tgr.stack[$i].node));
//@   loop 2 pre let k2_ = tgr.stack; let p_ = nodes_of(tgr.stack);
//@   loop 2 invariant tgr.stack == k2_ && rd_walk(H_Node, tgr, w_) && same_opts(tgr0, tgr) && !tgr.hasStaged && tgr.havePath && trail_here(H_Node, tgr) && vars_in(H_Node, tgr, tgr.stack.len() as int) && p_ == nodes_of(tgr.stack) && spells(H_Node, p_, $i, tgr.staged)
//@   loop 2 head assert(tnode(H_Node, tgr.stack[$i].node)); spells_more(H_Node, p_, $i, tgr.staged); assert(p_[$i] == tgr.stack[$i].node); assert(npos_ok(H_Node, tgr.stack[$i].node, tgr.varIdx[$i]));
//@   ghost return : if !(tgr0.hasStaged || tgr0.exhausted) { assert(rd_in(H_Node, tgr, w_)); }
//@ func TransitionGraphReader.consumeStaged(inout tgr)
//@   reads Node
//@   requires rd_ok(H_Node, tgr) && tgr.hasStaged
//@   ensures rd_ok(H_Node, new_tgr) && new_tgr.tg == tgr.tg && new_tgr.mode == tgr.mode && new_tgr.prodIdx == tgr.prodIdx && new_tgr.exhausted == tgr.exhausted
//@   ghost entry : let w_ = choose|s: Set<int>| rd_in(H_Node, tgr, s); assert(rd_in(H_Node, tgr, w_));
//@   loop 1 invariant tgr.prodIdx == tgr0.prodIdx && i < tgr.varIdx.len() && i >= -1 && rd_in(H_Node, tgr, w_) && tgr.tg == tgr0.tg && tgr.mode == tgr0.mode && tgr.exhausted == tgr0.exhausted && tgr.havePath == tgr0.havePath && !tgr.hasStaged
//@   loop 1 head let v_ = tgr;
//@   loop 1 exit if brk_1 { assert(vars_in(H_Node, tgr, tgr.stack.len() as int)); } else { assert(rd_in(H_Node, tgr, w_)); }
//@   ghost return : assert(rd_in(H_Node, tgr, w_));
//@ func TransitionGraphReader.buildCompact$viable(n; nn tgr) (out)
//@   reads Node
//@   ensures forall|s: Set<int>| #[trigger] rd_base2(H_Node, tgr, s) && okn(H_Node, s, n) ==> vnexts(H_Node, s, n, out)
//@   loop 1 invariant forall|s: Set<int>| #[trigger] rd_base2(H_Node, tgr, s) && okn(H_Node, s, n) ==> vnexts(H_Node, s, n, out)
//@   loop 1 head assert(sc == H_Node[n].Nexts[$i]); assert(H_Node[n].Nexts.contains(sc));
//@ func TransitionGraphReader.buildCompact$see(n; inout predEntry, inout nodeByID, inout discOrder, inout disc, inout queue)
//@   reads Node
//@   ensures forall|s: Set<int>, en: Seq<int>| preds(H_Node, s, en, predEntry) && okn(H_Node, s, n) && en.contains(n) ==> #[trigger] preds(H_Node, s, en, new_predEntry)
//@   ensures forall|s: Set<int>| known(H_Node, s, predEntry, disc) && okn(H_Node, s, n) ==> #[trigger] known(H_Node, s, new_predEntry, new_disc)
//@   ensures forall|s: Set<int>| known(H_Node, s, predEntry, queue) && okn(H_Node, s, n) ==> #[trigger] known(H_Node, s, new_predEntry, new_queue)
//@ func TransitionGraphReader.buildCompact$entryPath(u; predEntry) (rev)
//@   reads Node
//@   requires exists|s: Set<int>, en: Seq<int>| path_pre(H_Node, s, en, predEntry, u)
//@   ensures forall|s: Set<int>, en: Seq<int>| #[trigger] path_pre(H_Node, s, en, predEntry, u) ==> gwalk(H_Node, s, rev) && en.contains(rev[0]) && rev.last() == u
//@   loop 1 invariant forall|s: Set<int>, en: Seq<int>| #[trigger] path_pre(H_Node, s, en, predEntry, u) ==> path_pre(H_Node, s, en, predEntry, cur) && back_walk(H_Node, s, rev, u, cur)
//@   loop 1 head let rv_ = rev; let cu_ = cur; let (ws_, we_) = choose|s: Set<int>, en: Seq<int>| path_pre(H_Node, s, en, predEntry, u); assert(path_pre(H_Node, ws_, we_, predEntry, cur)); assert forall|s: Set<int>, en: Seq<int>| #[trigger] path_pre(H_Node, s, en, predEntry, u) implies bfacts(H_Node, s, en, predEntry, u, rv_, cu_) by { back_one(H_Node, s, en, predEntry, u, rv_, cu_); }
//@   loop 2 pre let r0_ = rev; let c_ = cur;
//@   loop 2 invariant 0 <= i && j == rev.len() - 1 - i && i <= rev.len() && j >= -1 && rev.len() == r0_.len() && (forall|k: int| 0 <= k < rev.len() ==> #[trigger] rev[k] == if k < i || k > j { r0_[r0_.len() - 1 - k] } else { r0_[k] })
//@   loop 2 exit assert(rev =~= Seq::new(r0_.len(), |k: int| r0_[r0_.len() - 1 - k]));
//@   | assert forall|s: Set<int>, en: Seq<int>| #[trigger] path_pre(H_Node, s, en, predEntry, u) implies gwalk(H_Node, s, rev) && en.contains(rev[0]) && rev.last() == u by { flip(H_Node, s, r0_, u, c_); }
//@ func TransitionGraphReader.buildCompact$endPath(w; succEnd) (out)
//@   reads Node
//@   requires exists|s: Set<int>, es: Map<Seq<int>, bool>| path_post(H_Node, s, es, succEnd, w)
//@   ensures forall|s: Set<int>, es: Map<Seq<int>, bool>| #[trigger] path_post(H_Node, s, es, succEnd, w) ==> gwalk(H_Node, s, out) && out[0] == w && flag(es, tgid(H_Node, out.last()))
//@   loop 1 invariant forall|s: Set<int>, es: Map<Seq<int>, bool>| #[trigger] path_post(H_Node, s, es, succEnd, w) ==> path_post(H_Node, s, es, succEnd, cur) && fwd_walk(H_Node, s, out, w, cur)
//@   loop 1 head let rv_ = out; let cu_ = cur; let (ws_, we_) = choose|s: Set<int>, es: Map<Seq<int>, bool>| path_post(H_Node, s, es, succEnd, w); assert(path_post(H_Node, ws_, we_, succEnd, cur)); assert forall|s: Set<int>, es: Map<Seq<int>, bool>| #[trigger] path_post(H_Node, s, es, succEnd, w) implies ffacts(H_Node, s, es, succEnd, w, rv_, cu_) by { fwd_one(H_Node, s, es, succEnd, w, rv_, cu_); }
//@ func TransitionGraphReader.buildCompact$markWalk(w; inout coveredV, inout coveredE)
//@   reads Node
//@ func TransitionGraphReader.buildCompact$emit(w, force; inout tgr, inout nextVal) (b)
//@   reads Node
//@   requires vals_in(nextVal) && (exists|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && cwalk(H_Node, t, s, w))
//@   ensures vals_in(new_nextVal) && but_prods(tgr, new_tgr) && new_tgr.builtCompact == tgr.builtCompact
//@   ensures forall|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && #[trigger] cwalk(H_Node, t, s, w) && prods_ok(H_Node, t, tgr.prods) ==> prods_ok(H_Node, t, new_tgr.prods)
//@   ghost entry : let (gt_, gs_) = choose|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && cwalk(H_Node, t, s, w);
//@   loop 1 invariant vals_in2(nextVal, claimed) && va.len() == w.len() && newCount >= 0 && (forall|i: int| 0 <= i < $i ==> npos_ok(H_Node, w[i], #[trigger] va[i]))
//@   loop 1 pre assert forall|x: Seq<int>| #[trigger] vgood(nextVal, claimed, x) by { assert(c32(nextVal, x) >= 0); }
//@   loop 1 head assert(okn(H_Node, gs_, w[$i])); assert(tnode(H_Node, w[$i])); let cl_ = claimed; assert(vgood(nextVal, claimed, tgid(H_Node, w[$i])));
//@   loop 1 end assert forall|x: Seq<int>| #[trigger] vgood(nextVal, claimed, x) by { assert(vgood(nextVal, cl_, x)); }
//@   loop 2 pre assert forall|x: Seq<int>| 0 <= #[trigger] c32(nextVal, x) <= 0x7FFF_FFFF by { assert(vgood(nextVal, claimed, x)); }
//@   loop 2 invariant vals_in(nextVal) && (forall|x: Seq<int>| !$done.contains(x) ==> #[trigger] vgood(nextVal, claimed, x))
//@   loop 2 head let nv_ = nextVal; assert(vgood(nextVal, claimed, rk_2));
//@   loop 2 end assert forall|x: Seq<int>| 0 <= #[trigger] c32(nextVal, x) <= 0x7FFF_FFFF by { assert(c32(nv_, x) >= 0); } assert forall|x: Seq<int>| !$done.contains(x) implies #[trigger] vgood(nextVal, claimed, x) by { assert(vgood(nv_, claimed, x)); }
//@   loop 3 invariant spells(H_Node, w, $i, bs)
//@   loop 3 head assert(okn(H_Node, gs_, w[$i])); assert(tnode(H_Node, w[$i])); spells_more(H_Node, w, $i, bs);
//@ func TransitionGraphReader.buildCompact(inout tgr)
//@   reads Node
//@   requires exists|s: Set<int>| rd_base(H_Node, tgr, s) && prods_ok(H_Node, tgr.tg->Some_0, tgr.prods)
//@   ensures but_prods(tgr, new_tgr) && prods_ok(H_Node, tgr.tg->Some_0, new_tgr.prods)
//@   ghost entry : let w_ = choose|s: Set<int>| rd_base(H_Node, tgr, s); let t_ = tgr.tg->Some_0; let q_ = tgr; uniq_of(H_Node, t_, w_); assert(rd_base2(H_Node, tgr, w_));
//@   loop 1 invariant preds(H_Node, w_, q_.entries, predEntry) && known(H_Node, w_, predEntry, disc) && known(H_Node, w_, predEntry, queue)
//@   loop 1 pre assert(rd_base2(H_Node, tgr, w_));
//@   loop 1 head assert(q_.entries.contains(e)); assert(kid(H_Node, t_, w_, None, e));
//@   loop 2 invariant preds(H_Node, w_, q_.entries, predEntry) && known(H_Node, w_, predEntry, disc) && known(H_Node, w_, predEntry, queue) && edges_in(H_Node, w_, predEntry, allEdges)
//@   loop 3 invariant preds(H_Node, w_, q_.entries, predEntry) && known(H_Node, w_, predEntry, disc) && known(H_Node, w_, predEntry, queue) && edges_in(H_Node, w_, predEntry, allEdges) && okn(H_Node, w_, n) && predEntry.contains_key(tgid(H_Node, n)) && vnexts(H_Node, w_, n, $s)
//@   loop 3 head let pe_ = predEntry; let sc_ = $s[$i]; assert(okn(H_Node, w_, sc_)); if !pe_.contains_key(tgid(H_Node, sc_)) { pred_more(H_Node, w_, q_.entries, pe_, n, sc_); }
//@   loop 4 invariant back_in(H_Node, w_, revAdj)
//@   loop 4 head assert(okn(H_Node, w_, disc[$i]));
//@   loop 5 invariant back_in(H_Node, w_, revAdj) && okn(H_Node, w_, n) && vnexts(H_Node, w_, n, $s)
//@   loop 5 head back_more(H_Node, w_, revAdj, n, $s[$i]);
//@   loop 6 invariant succs(H_Node, w_, q_.endSet, succEnd) && (forall|i: int| 0 <= i < q2.len() ==> okn(H_Node, w_, #[trigger] q2[i]) && succEnd.contains_key(tgid(H_Node, q2[i])))
//@   loop 7 invariant succs(H_Node, w_, q_.endSet, succEnd) && (forall|i: int| 0 <= i < q2.len() ==> okn(H_Node, w_, #[trigger] q2[i]) && succEnd.contains_key(tgid(H_Node, q2[i])))
//@   loop 8 invariant succs(H_Node, w_, q_.endSet, succEnd) && (forall|i: int| 0 <= i < q2.len() ==> okn(H_Node, w_, #[trigger] q2[i]) && succEnd.contains_key(tgid(H_Node, q2[i]))) && okn(H_Node, w_, n) && succEnd.contains_key(tgid(H_Node, n))
//@   loop 9 invariant but_prods(q_, tgr) && prods_ok(H_Node, t_, tgr.prods) && vals_in(nextVal) && (forall|i: int| 0 <= i < walks.len() ==> cwalk(H_Node, t_, w_, #[trigger] walks[i]))
//@   loop 9 head assert(edge_in(H_Node, w_, predEntry, e));
//@   ghost before TransitionGraphReader.buildCompact$entryPath : assert(path_pre(H_Node, w_, q_.entries, predEntry, $a0));
//@   ghost after TransitionGraphReader.buildCompact$entryPath : join_all(H_Node, q_, w_, $r0);
//@   ghost before TransitionGraphReader.buildCompact$endPath : assert(path_post(H_Node, w_, q_.endSet, succEnd, $a0));
//@   ghost before TransitionGraphReader.buildCompact$emit : assert(cwalk(H_Node, t_, w_, $a0));
//@   loop 10 invariant but_prods(q_, tgr) && prods_ok(H_Node, t_, tgr.prods) && vals_in(nextVal) && (forall|i: int| 0 <= i < walks.len() ==> cwalk(H_Node, t_, w_, #[trigger] walks[i]))
//@   loop 11 invariant but_prods(q_, tgr) && prods_ok(H_Node, t_, tgr.prods) && vals_in(nextVal)
//@   loop 12 invariant but_prods(q_, tgr) && prods_ok(H_Node, t_, tgr.prods) && vals_in(nextVal)
//@ func TransitionGraphReader.Scan(inout tgr) (out)
//@   reads Node
//@   requires rd_ready(H_Node, tgr)
//@   ensures rd_ok(H_Node, new_tgr) && new_tgr.tg == tgr.tg && new_tgr.mode == tgr.mode
//@   ensures out.len() > 0 || (tgr.mode != 1 && !new_tgr.exhausted) || new_tgr.prodIdx != tgr.prodIdx ==> walk_word(H_Node, tgr.tg->Some_0, out) && (tgr.mode != 1 ==> trail_word(H_Node, tgr.tg->Some_0, out))
//@   ghost after TransitionGraphReader.prepare : let g_ = tgr; rd_idx(H_Node, tgr);
//@   ghost after TransitionGraphReader.buildCompact : rd_keep(H_Node, g_, tgr); rd_idx(H_Node, tgr);
//@   ghost after TransitionGraphReader.ensureStaged : rd_idx(H_Node, tgr);
//@   ghost before TransitionGraphReader.consumeStaged : assert(out =~= tgr.staged);
//@ func TransitionGraphReader.Next(inout tgr) (b)
//@   reads Node
//@   requires rd_ready(H_Node, tgr)
//@   ensures rd_ok(H_Node, new_tgr) && new_tgr.tg == tgr.tg && new_tgr.mode == tgr.mode
//@   ensures b ==> (tgr.mode != 1 ==> new_tgr.hasStaged) && (tgr.mode == 1 ==> new_tgr.prodIdx < new_tgr.prods.len())
//@   ensures !b ==> (tgr.mode != 1 ==> new_tgr.exhausted) && (tgr.mode == 1 ==> new_tgr.prodIdx >= new_tgr.prods.len())
//@   ghost after TransitionGraphReader.prepare : let g_ = tgr; rd_idx(H_Node, tgr);
//@   ghost after TransitionGraphReader.buildCompact : rd_keep(H_Node, g_, tgr); rd_idx(H_Node, tgr);
//@ func TransitionGraphReader.prepare$collect(n; inout all)
//@   reads Node
//@   ensures forall|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && (n == 0 || s.contains(n)) && all_in(H_Node, all, s) ==> #[trigger] all_in2(H_Node, new_all, t, s)
//@   ghost entry : let a0_ = all;
//@   loop 1 invariant forall|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && (n == 0 || s.contains(n)) && all_in(H_Node, a0_, s) ==> #[trigger] all_in2(H_Node, all, t, s)
//@   loop 1 head assert(s == H_Node[n].Nexts[$i]);
//@   ghost before TransitionGraphReader.prepare$collect : let al_ = all; let sc_ = $a0;
//@   ghost after TransitionGraphReader.prepare$collect : assert forall|t: TransitionGraph, s: Set<int>| graph_in(H_Node, t, s) && (n == 0 || s.contains(n)) && all_in(H_Node, a0_, s) implies #[trigger] all_in2(H_Node, all, t, s) by { assert(all_in2(H_Node, al_, t, s)); assert(sc_ == 0 || s.contains(sc_)); }
//@ func TransitionGraphReader.prepare(inout tgr)
//@   reads Node
//@   requires rd_ready(H_Node, tgr)
//@   ensures rd_ok(H_Node, new_tgr) && new_tgr.prodIdx == tgr.prodIdx && new_tgr.tg == tgr.tg && new_tgr.mode == tgr.mode
//@   ghost entry : let w_ = choose|s: Set<int>| graph_in(H_Node, tgr.tg->Some_0, s); let t_ = tgr.tg->Some_0; let q_ = tgr; if tgr.prepared { assert(rd_ok(H_Node, tgr)); } else { assert forall|s: Set<int>| !rd_in(H_Node, tgr, s) by { if rd_in(H_Node, tgr, s) { assert(tgr.prepared); } } }
//@   loop 1 invariant fresh_as(q_, tgr) && ends_ok(H_Node, tgr.endSet, t_.Endpoints)
//@   loop 1 head ends_more(H_Node, tgr.endSet, t_.Endpoints, $i);
//@   loop 2 invariant all_in(H_Node, all, w_)
//@   loop 2 head assert(t_.Entrypoints[$i] == 0 || w_.contains(t_.Entrypoints[$i]));
//@   ghost after TransitionGraphReader.prepare$collect : assert(all_in2(H_Node, all, t_, w_));
//@   loop 3 invariant fresh_as(q_, tgr) && ends_ok(H_Node, tgr.endSet, t_.Endpoints) && tgr.usedEdges =~= Map::empty() && all_in(H_Node, all, w_) && reach_term(H_Node, w_, tgr.canReach)
//@   loop 4 invariant fresh_as(q_, tgr) && ends_ok(H_Node, tgr.endSet, t_.Endpoints) && tgr.usedEdges =~= Map::empty() && all_in(H_Node, all, w_) && reach_term(H_Node, w_, tgr.canReach)
//@   loop 6 invariant all_in(H_Node, all, w_) && tgr.prepared && tgr.prods.len() == 0 && tgr.prodIdx == 0 && tgr.tg == q_.tg && tgr.mode == q_.mode && tgr.stack.len() == 0 && tgr.length == 0 && !tgr.havePath && !tgr.hasStaged && !tgr.exhausted && ends_ok(H_Node, tgr.endSet, t_.Endpoints) && tgr.usedEdges =~= Map::empty() && reach_term(H_Node, w_, tgr.canReach)
//@   | && (forall|i: int| 0 <= i < tgr.entries.len() ==> kid(H_Node, t_, w_, None, #[trigger] tgr.entries[i]))
//@   loop 6 head assert(t_.Entrypoints[$i] == 0 || w_.contains(t_.Entrypoints[$i])); assert(t_.Entrypoints.contains(e));
//@   ghost return 2 : assert(rd_in(H_Node, tgr, w_));
