//@ heap bsrGNode
//@ types slotGrammar sgNT bsrParser bsrElem bsrGNode bsrDesc gssKey slot
//@ func capRC(rc, nn nt) (r)
//@   ensures r == cap_rc(rc, nt)
//@ func bsrParser.add(inout p, L, u, i, rc)
//@   reads bsrGNode
//@   requires bsr_ok0(p, H_bsrGNode) && desc_ok(p, H_bsrGNode, ds(L, u, i, rc))
//@   ensures bsr_ok0(new_p, H_bsrGNode) && ext(p, H_bsrGNode, new_p, H_bsrGNode) && new_p.seen.contains_key(ds(L, u, i, rc))
//@   ensures new_p.gss == p.gss && new_p.popped == p.popped && new_p.set_ == p.set_ && new_p.aborted == p.aborted
//@   ghost entry : let d_ = ds(L, u, i, rc); let q_ = bsrParser { seen: p.seen.insert(d_, true), work: p.work.push(d_), ..p }; add_step(p, H_bsrGNode, d_, q_); ext_refl(p, H_bsrGNode);
//@ func bsrParser.record(inout p, L, l, k, r, rc)
//@   reads bsrGNode
//@   requires bsr_ok0(p, H_bsrGNode) && elem_ok(p.sg->Some_0, p.input, bsrElem { slot: L, l: l, k: k, r: r, rc: rc })
//@   ensures bsr_ok0(new_p, H_bsrGNode) && ext(p, H_bsrGNode, new_p, H_bsrGNode) && rec(new_p, L, l, k, r, rc)
//@   ensures new_p.gss == p.gss && new_p.popped == p.popped && new_p.seen == p.seen && new_p.work == p.work
//@   ghost return : record_step(p0, H_bsrGNode, p);
//@ func bsrParser.gssNodeFor(inout p, ret, pos, rc) (v)
//@   modifies bsrGNode
//@   requires bsr_ok(p, H_bsrGNode) && ret_ok(p.sg->Some_0, p.input, ret, pos, rc)
//@   ensures bsr_ok(new_p, new_H_bsrGNode) && ext(p, H_bsrGNode, new_p, new_H_bsrGNode)
//@   ensures bn(new_p, new_H_bsrGNode, v) && v != p.u0 && key_of(new_H_bsrGNode[v]) == gssKey { ret: ret, pos: pos, rc: rc }
//@   ensures new_p.popped == p.popped && new_p.seen == p.seen && new_p.work == p.work && new_p.set_ == p.set_ && new_p.aborted == p.aborted
//@   ghost entry : ext_refl(p, H_bsrGNode); let k_ = gssKey { ret: ret, pos: pos, rc: rc };
//@   ghost return : if !p0.gss.contains_key(k_) { gss_step(p0, H_bsrGNode0, k_, v, H_bsrGNode[v], p, H_bsrGNode); }
//@ func bsrParser.create(inout p, ret, u, i, rc) (v)
//@   modifies bsrGNode
//@   requires bsr_ok(p, H_bsrGNode) && ret_ok(p.sg->Some_0, p.input, ret, i, rc) && bn(p, H_bsrGNode, u)
//@   requires cal_nt(p.sg->Some_0, H_bsrGNode[u]) == ret.nt && cal_rc(p.sg->Some_0, H_bsrGNode[u]) == rc && H_bsrGNode[u].pos <= i
//@   requires DP(p.sg->Some_0, p.input, ret.nt, ret.alt, rc, ret.dot - 1, H_bsrGNode[u].pos, i)
//@   ensures bsr_ok(new_p, new_H_bsrGNode) && ext(p, H_bsrGNode, new_p, new_H_bsrGNode)
//@   ensures bn(new_p, new_H_bsrGNode, v) && v != p.u0 && key_of(new_H_bsrGNode[v]) == gssKey { ret: ret, pos: i, rc: rc } && new_H_bsrGNode[v].edges.contains(u)
//@   ghost after bsrParser.gssNodeFor : let q1_ = p; let H1_ = H_bsrGNode; ext_bn(p0, H_bsrGNode0, q1_, H1_); ext_refl(q1_, H1_);
//@   loop 1 pre assert(H_bsrGNode =~= H1_.insert(v, bsrGNode { edges: H1_[v].edges.push(u), edgeSet: H1_[v].edgeSet.insert(u, true), ..H1_[v] })); edge_step(q1_, H1_, v, u, H_bsrGNode); let m_ = H1_[v].edges.len() as int; ext_trans(p0, H_bsrGNode0, p, H1_, p, H_bsrGNode);
//@   loop 1 invariant bsr_ok0(p, H_bsrGNode) && ext(p0, H_bsrGNode0, p, H_bsrGNode) && c2_edge(p, H_bsrGNode, v, m_, $done) && p.popped == q1_.popped && p.gss == q1_.gss
//@   loop 1 head let q2_ = p; let q2d_ = $done; same_graph(q1_, p, H_bsrGNode); assert(edge_ok(p, H_bsrGNode, v, H_bsrGNode[v].edges[m_])); assert(popd(p, v, j)); follow_ok(p, H_bsrGNode, v, u, j);
//@   loop 1 end ext_trans(p0, H_bsrGNode0, q2_, H_bsrGNode, p, H_bsrGNode); assert(H_bsrGNode[v].edges[m_] == u); c2_edge_step(q2_, H_bsrGNode, v, m_, q2d_, p, j);
//@   loop 1 exit assert(bsr_ok(p, H_bsrGNode)) by { assert forall|w: int, e: int, j: int| bn(p, H_bsrGNode, w) && 0 <= e < H_bsrGNode[w].edges.len() && #[trigger] popd(p, w, j) implies followed(p, H_bsrGNode, w, #[trigger] H_bsrGNode[w].edges[e], j) by { } }
//@ func bsrParser.pop(inout p, u, j)
//@   reads bsrGNode
//@   requires bsr_ok(p, H_bsrGNode) && pop_ok(p, H_bsrGNode, u, j)
//@   ensures bsr_ok(new_p, H_bsrGNode) && ext(p, H_bsrGNode, new_p, H_bsrGNode)
//@   ensures u == p.u0 || popd(new_p, u, j)
//@   ghost entry : ext_refl(p, H_bsrGNode);
//@   loop 1 pre assert(p.popped =~= p0.popped.insert(u, (if p0.popped.contains_key(u) { p0.popped[u] } else { Map::empty() }).insert(j, true))); pop_step(p0, H_bsrGNode, u, j, p); let q0_ = p;
//@   loop 1 invariant bsr_ok0(p, H_bsrGNode) && ext(p0, H_bsrGNode, p, H_bsrGNode) && c2_pop(p, H_bsrGNode, u, j, $i) && popd(p, u, j) && p.popped == q0_.popped && p.gss == q0_.gss
//@   loop 1 head let q1_ = p; same_graph(p0, p, H_bsrGNode); assert(edge_ok(p, H_bsrGNode, u, H_bsrGNode[u].edges[$i])); follow_ok(p, H_bsrGNode, u, H_bsrGNode[u].edges[$i], j);
//@   loop 1 end ext_trans(p0, H_bsrGNode, q1_, H_bsrGNode, p, H_bsrGNode); c2_pop_step(q1_, H_bsrGNode, u, j, $i - 1, p);
//@ func bsrParser.addRepAlts(inout p, ntID, v, i, rc)
//@   reads bsrGNode
//@   requires bsr_ok(p, H_bsrGNode) && bn(p, H_bsrGNode, v) && sg_has(p.sg->Some_0, ntID) && sg_nt(p.sg->Some_0, ntID).isRep && cal_nt(p.sg->Some_0, H_bsrGNode[v]) == ntID && cal_rc(p.sg->Some_0, H_bsrGNode[v]) == rc && H_bsrGNode[v].pos == i && 0 <= i <= p.input.len()
//@   ensures bsr_ok(new_p, H_bsrGNode) && ext(p, H_bsrGNode, new_p, H_bsrGNode) && started(new_p, ntID, rc, v, i)
//@   ensures new_p.gss == p.gss && new_p.popped == p.popped
//@   ghost entry : ext_refl(p, H_bsrGNode); assert(sg_nt(p.sg->Some_0, ntID).alts.len() == 2); if allowed(p.sg->Some_0, ntID, rc, 0) { fresh_ok(p, H_bsrGNode, ntID, 0, v, i, rc); } if allowed(p.sg->Some_0, ntID, rc, 1) { fresh_ok(p, H_bsrGNode, ntID, 1, v, i, rc); }
//@   ghost before bsrParser.add : same_graph(p0, p, H_bsrGNode);
//@   ghost return : assert(ext(p0, H_bsrGNode, p, H_bsrGNode)); ok_keep(p0, H_bsrGNode, p);
//@ func bsrParser.process(inout p, d)
//@   modifies bsrGNode
//@   requires bsr_ok(p, H_bsrGNode) && desc_ok(p, H_bsrGNode, d)
//@   ensures bsr_ok(new_p, new_H_bsrGNode) && ext(p, H_bsrGNode, new_p, new_H_bsrGNode)
//@   ensures done(new_p, new_H_bsrGNode, d.L, d.u, d.i, d.rc)
//@   ghost entry : ext_refl(p, H_bsrGNode);
//@   loop 1 invariant bsr_ok(p, H_bsrGNode) && ext(p0, H_bsrGNode0, p, H_bsrGNode) && H_bsrGNode == H_bsrGNode0 && u == d.u && rc == d.rc && desc_ok(p, H_bsrGNode, ds(L, u, i, rc)) && backs(p, H_bsrGNode, L, i, d)
//@   loop 1 head let q1_ = p; let H1_ = H_bsrGNode; let lL_ = L; let li_ = i; ext_refl(p, H_bsrGNode); assert(bn(p, H_bsrGNode, u)); if L.dot == sprod(p.sg->Some_0, L.nt, L.alt).len() { DS_of(p.sg->Some_0, p.input, L.nt, L.alt, rc, H_bsrGNode[u].pos, i); }
//@   ghost after bsrParser.create : let q2_ = p; let H2_ = H_bsrGNode; ext_bn(q1_, H1_, p, H_bsrGNode);
//@   loop 2 pre ext_refl(p, H_bsrGNode);
//@   loop 2 invariant bsr_ok(p, H_bsrGNode) && ext(q2_, H2_, p, H_bsrGNode) && p.gss == q2_.gss && p.popped == q2_.popped && (forall|a: int| 0 <= a < $i ==> p.seen.contains_key(ds(#[trigger] sl(s.nt, a, 0), v, i, 0)))
//@   loop 2 head let q3_ = p; same_graph(q2_, p, H_bsrGNode); fresh_ok(p, H_bsrGNode, s.nt, $i, v, i, 0);
//@   loop 2 end ext_trans(q2_, H2_, q3_, H2_, p, H2_); ok_keep(q3_, H2_, p);
//@   ghost after bsrParser.pop : ext_trans(p0, H_bsrGNode0, q1_, H1_, p, H_bsrGNode);
//@   ghost before bsrParser.record : leaf_ok(p, H_bsrGNode, L, u, i, rc, j);
//@   loop 1 end ext_trans(p0, H_bsrGNode0, q1_, H1_, p, H_bsrGNode); ok_keep(q1_, H1_, p); same_graph(q1_, p, H1_); backs_leaf(q1_, H1_, p, lL_, li_, d, i);
//@   ghost return : assert(done(p, H_bsrGNode, L, u, i, rc));
//@ func bsrParser.parse(inout p)
//@   modifies bsrGNode
//@   requires bsr_start(p)
//@   ensures bsr_ok(new_p, new_H_bsrGNode) && new_p.sg == p.sg && new_p.input == p.input && new_p.maxElems == p.maxElems && (!new_p.aborted ==> bsr_end(new_p, new_H_bsrGNode))
//@   loop 1 pre assert(p.set_ =~= Map::<bsrElem, bool>::empty()); start_ok(p, H_bsrGNode); let q0_ = p; ext_refl(p, H_bsrGNode);
//@   ghost entry : let sg_ = p.sg->Some_0;
//@   loop 1 invariant bsr_ok(p, H_bsrGNode) && ext(q0_, H_bsrGNode, p, H_bsrGNode) && p.gss == q0_.gss && p.popped == q0_.popped && !p.aborted && (forall|a: int| 0 <= a < $i ==> p.seen.contains_key(ds(#[trigger] sl(sg_.start, a, 0), p.u0, 0, 0)))
//@   loop 1 head let q1_ = p; fresh_ok(p, H_bsrGNode, sg_.start, $i, p.u0, 0, 0);
//@   loop 1 end ext_trans(q0_, H_bsrGNode, q1_, H_bsrGNode, p, H_bsrGNode); ok_keep(q1_, H_bsrGNode, p);
//@   loop 2 pre assert(started(p, sg_.start, 0, p.u0, 0)); let h0_ = H_bsrGNode;
//@   loop 2 invariant bsr_ok(p, H_bsrGNode) && c1(p, H_bsrGNode) && started(p, sg_.start, 0, p.u0, 0) && p.sg == p0.sg && p.input == p0.input && p.maxElems == p0.maxElems
//@   loop 2 head let q1_ = p; let H1_ = H_bsrGNode; assert(p.work.subrange(0, p.work.len() - 1) =~= p.work.drop_last()); let q2_ = bsrParser { work: p.work.drop_last(), ..p }; take_ok(p, H_bsrGNode, q2_); assert(extd(q1_, H1_, q2_, H1_)); started_mono(q1_, H1_, q2_, H1_, sg_.start, 0, p.u0, 0);
//@   loop 2 end c1_step(q2_, H1_, d, p, H_bsrGNode); started_mono(q2_, H1_, p, H_bsrGNode, sg_.start, 0, p.u0, 0);
