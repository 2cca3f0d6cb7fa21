//@ heap gssNode gnode
//@ types slotGrammar sgNT gllParser gssNode gnode descriptor gssKey nodeKey gssEdge slot
//@ func gnode.addPack(n, alt, children)
//@   modifies gnode
//@   requires n != 0 && H_gnode.contains_key(n) && H_gnode[n].packs.len() == H_gnode[n].packAlts.len()
//@   ensures new_H_gnode == H_gnode.insert(n, new_H_gnode[n]) && packed(H_gnode[n], alt, children, new_H_gnode[n])
//@   loop 1 invariant H_gnode == H_gnode0 && (forall|i: int| 0 <= i < $i ==> !(#[trigger] H_gnode[n].packs[i] == children && H_gnode[n].packAlts[i] == alt))
//@   loop 2 invariant same && (forall|i: int| 0 <= i < $i ==> p[i] == children[i])
//@   ghost return 1 : assert(p =~= children); assert(H_gnode =~= H_gnode0.insert(n, H_gnode[n]));
//@   ghost return 2 : assert(H_gnode =~= H_gnode0.insert(n, H_gnode[n]));
//@ func gllParser.findNode(inout p, k) (v)
//@   modifies gnode
//@   requires nodes_in(p, H_gnode)
//@   ensures found(p, H_gnode, k, new_p, new_H_gnode, v)
//@ func gllParser.getNodeT(inout p, start, end) (v)
//@   modifies gnode
//@   reads gssNode
//@   requires gll_ok0(p, H_gssNode, H_gnode)
//@   ensures gll_ok0(new_p, H_gssNode, new_H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, new_H_gnode)
//@   ensures new_p == (gllParser { nodes: new_p.nodes, aborted: new_p.aborted, ..p })
//@   ensures new_p.nodes.contains_key(tmk(start, end)) && v == new_p.nodes[tmk(start, end)]
//@   ghost return : found_in(p0, H_gnode0, tmk(start, end), p, H_gnode, v); node_step(p0, H_gssNode, H_gnode0, p, H_gnode);
//@ func gllParser.getNodeP(inout p, L, w, z, rc) (y)
//@   modifies gnode
//@   reads gssNode
//@   requires gll_ok0(p, H_gssNode, H_gnode) && gp_ok(p, H_gnode, L, w, z, rc)
//@   ensures gll_ok0(new_p, H_gssNode, new_H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, new_H_gnode)
//@   ensures new_p == (gllParser { nodes: new_p.nodes, aborted: new_p.aborted, ..p })
//@   ensures y == nd(new_p, L, gp_l(H_gnode, w, z), H_gnode[z].End, rc) && rec(new_p, new_H_gnode, L, gp_l(H_gnode, w, z), H_gnode[z].Start, H_gnode[z].End, rc)
//@   ghost entry : ext_refl(p, H_gssNode, H_gnode); assert(prev(L).dot == L.dot - 1);
//@   ghost return 2 : pack_step(p0, H_gnode0, L, w, z, rc, p, M1_, y, H_gnode); node_step(p0, H_gssNode, H_gnode0, p, H_gnode);
//@   ghost after gllParser.findNode : let M1_ = H_gnode; found_in(p0, H_gnode0, k, p, H_gnode, $r0); assert(node_is(p, H_gnode, k));
//@ func gllParser.noteFail(inout p, i, s)
//@   reads gssNode gnode
//@   requires gll_ok0(p, H_gssNode, H_gnode) && wf_el(s.term) && vfail(p.sg->Some_0, p.input, i, stext(s)) && i >= 0
//@   ensures gll_ok0(new_p, H_gssNode, H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, H_gnode) && noted(new_p, i, s)
//@   ensures new_p == (gllParser { maxPos: new_p.maxPos, expected: new_p.expected, expectedSeen: new_p.expectedSeen, ..p })
//@   ghost return : note_step(p0, H_gssNode, H_gnode, i, stext(s), p);
//@ func gllParser.add(inout p, L, u, i, w, rc)
//@   reads gssNode gnode
//@   requires gll_ok0(p, H_gssNode, H_gnode) && desc_ok(p, H_gssNode, descriptor { L: L, u: u, i: i, w: w, rc: rc })
//@   ensures gll_ok0(new_p, H_gssNode, H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, H_gnode) && new_p.seen.contains_key(descriptor { L: L, u: u, i: i, w: w, rc: rc })
//@   ensures new_p == (gllParser { seen: new_p.seen, work: new_p.work, ..p })
//@   ghost entry : let d_ = descriptor { L: L, u: u, i: i, w: w, rc: rc }; let q_ = gllParser { seen: p.seen.insert(d_, true), work: p.work.push(d_), ..p }; add_step(p, H_gssNode, H_gnode, d_, q_); ext_refl(p, H_gssNode, H_gnode);
//@ func gllParser.gssNodeFor(inout p, ret, pos, rc) (v)
//@   modifies gssNode
//@   reads gnode
//@   requires gll_ok(p, H_gssNode, H_gnode) && ret_ok(p.sg->Some_0, p.input, ret, pos, rc)
//@   ensures gll_ok(new_p, new_H_gssNode, H_gnode) && ext(p, H_gssNode, H_gnode, new_p, new_H_gssNode, H_gnode)
//@   ensures bn(new_p, new_H_gssNode, v) && v != p.u0 && key_of(new_H_gssNode[v]) == gssKey { ret: ret, pos: pos, rc: rc }
//@   ensures new_p == (gllParser { gss: new_p.gss, ..p })
//@   ghost entry : ext_refl(p, H_gssNode, H_gnode); let k_ = gssKey { ret: ret, pos: pos, rc: rc };
//@   ghost return : if !p0.gss.contains_key(k_) { gss_step(p0, H_gssNode0, H_gnode, k_, v, H_gssNode[v], p, H_gssNode); }
//@ func gllParser.create(inout p, L, u, i, w, rc) (v)
//@   modifies gssNode gnode
//@   requires gll_ok(p, H_gssNode, H_gnode) && ret_ok(p.sg->Some_0, p.input, L, i, rc) && bn(p, H_gssNode, u)
//@   requires cal_nt(p.sg->Some_0, H_gssNode[u]) == L.nt && cal_rc(p.sg->Some_0, H_gssNode[u]) == rc && H_gssNode[u].pos <= i
//@   requires DP(p.sg->Some_0, p.input, L.nt, L.alt, rc, L.dot - 1, H_gssNode[u].pos, i) && hn(p, prev(L), H_gssNode[u].pos, i, rc) && w == nd(p, prev(L), H_gssNode[u].pos, i, rc)
//@   ensures gll_ok(new_p, new_H_gssNode, new_H_gnode) && ext(p, H_gssNode, H_gnode, new_p, new_H_gssNode, new_H_gnode)
//@   ensures bn(new_p, new_H_gssNode, v) && v != p.u0 && key_of(new_H_gssNode[v]) == gssKey { ret: L, pos: i, rc: rc } && has_edge(new_H_gssNode, v, u)
//@   ghost after gllParser.gssNodeFor : let q1_ = p; let H1_ = H_gssNode; let N1_ = H_gnode; mono_bn(p0, H_gssNode0, H_gnode0, q1_, H1_, N1_); ext_refl(q1_, H1_, N1_); let e_ = gssEdge { w: w, to: u }; assert(bn(q1_, H1_, u)); assert(H_gssNode0.contains_key(u)); assert(edge_ok(q1_, H1_, $r0, e_));
//@   loop 1 pre assert(H_gssNode =~= H1_.insert(v, gssNode { edges: H1_[v].edges.push(e), edgeSet: H1_[v].edgeSet.insert(e, true), ..H1_[v] })); edge_step(q1_, H1_, N1_, v, e, H_gssNode); let m_ = H1_[v].edges.len() as int; let H2_ = H_gssNode; ext_trans(p0, H_gssNode0, H_gnode0, p, H1_, N1_, p, H_gssNode, H_gnode); assert(H2_[v].edges[m_] == e);
//@   loop 1 invariant gll_ok0(p, H_gssNode, H_gnode) && ext(p0, H_gssNode0, H_gnode0, p, H_gssNode, H_gnode) && c2_edge(p, H_gssNode, H_gnode, v, m_, $done) && p.popped == q1_.popped && p.gss == q1_.gss && H_gssNode == H2_
//@   loop 1 head let q2_ = p; let N2_ = H_gnode; let q2d_ = $done; assert(edge_ok(p, H_gssNode, v, H_gssNode[v].edges[m_])); assert(popd(p, v, z)); follow_ok(p, H_gssNode, H_gnode, v, e, z);
//@   ghost after gllParser.getNodeP : followed_desc(q2_, H2_, N2_, v, e, z, p, H_gnode, $r0); carry(q2_, H2_, N2_, p, H2_, H_gnode); let q3_ = p; let N3_ = H_gnode;
//@   loop 1 end ext_trans(q2_, H2_, N2_, q3_, H2_, N3_, p, H2_, N3_); mono_rec(q3_, N3_, p, N3_, L, H2_[u].pos, H2_[v].pos, N2_[z].End, rc); ext_trans(p0, H_gssNode0, H_gnode0, q2_, H_gssNode, N2_, p, H_gssNode, H_gnode); c2_edge_step(q2_, H_gssNode, N2_, v, m_, q2d_, p, H_gnode, z);
//@   loop 1 exit assert(gll_ok(p, H_gssNode, H_gnode)) by { assert forall|w: int, e: int, z: int| bn(p, H_gssNode, w) && 0 <= e < H_gssNode[w].edges.len() && #[trigger] popd(p, w, z) implies followed(p, H_gssNode, H_gnode, w, (#[trigger] H_gssNode[w].edges[e]).to, H_gnode[z].End) by { } }
//@ func gllParser.pop(inout p, u, i, z)
//@   reads gssNode
//@   modifies gnode
//@   requires gll_ok(p, H_gssNode, H_gnode) && pop_ok(p, H_gssNode, H_gnode, u, z) && i == H_gnode[z].End
//@   ensures gll_ok(new_p, H_gssNode, new_H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, new_H_gnode)
//@   ensures u == p.u0 || popd(new_p, u, z)
//@   ghost entry : ext_refl(p, H_gssNode, H_gnode);
//@   loop 1 pre assert(p.popped =~= p0.popped.insert(u, (if p0.popped.contains_key(u) { p0.popped[u] } else { Map::empty() }).insert(z, true))); pop_step(p0, H_gssNode, H_gnode, u, z, p); let q0_ = p;
//@   loop 1 invariant gll_ok0(p, H_gssNode, H_gnode) && ext(p0, H_gssNode, H_gnode0, p, H_gssNode, H_gnode) && c2_pop(p, H_gssNode, H_gnode, u, z, $i) && popd(p, u, z) && p.popped == q0_.popped && p.gss == q0_.gss
//@   loop 1 head let q2_ = p; let N2_ = H_gnode; assert(edge_ok(p, H_gssNode, u, H_gssNode[u].edges[$i])); mono_pop(p0, H_gssNode, H_gnode0, p, H_gssNode, H_gnode, u, z); follow_ok(p, H_gssNode, H_gnode, u, H_gssNode[u].edges[$i], z);
//@   ghost after gllParser.getNodeP : followed_desc(q2_, H_gssNode, N2_, u, e, z, p, H_gnode, $r0); let q3_ = p; let N3_ = H_gnode;
//@   loop 1 end carry(q2_, H_gssNode, N2_, q3_, H_gssNode, N3_); ext_trans(q2_, H_gssNode, N2_, q3_, H_gssNode, N3_, p, H_gssNode, N3_); mono_rec(q3_, N3_, p, N3_, H_gssNode[u].ret, H_gssNode[e.to].pos, H_gssNode[u].pos, N2_[z].End, H_gssNode[u].rc); ext_trans(p0, H_gssNode, H_gnode0, q2_, H_gssNode, N2_, p, H_gssNode, H_gnode); c2_pop_step(q2_, H_gssNode, N2_, u, z, $i - 1, p, H_gnode);
//@ func gllParser.addRepAlts(inout p, ntID, v, i, rc)
//@   reads gssNode gnode
//@   requires gll_ok(p, H_gssNode, H_gnode) && bn(p, H_gssNode, v) && sg_has(p.sg->Some_0, ntID) && sg_nt(p.sg->Some_0, ntID).isRep && cal_nt(p.sg->Some_0, H_gssNode[v]) == ntID && cal_rc(p.sg->Some_0, H_gssNode[v]) == rc && H_gssNode[v].pos == i && 0 <= i <= p.input.len()
//@   ensures gll_ok(new_p, H_gssNode, H_gnode) && ext(p, H_gssNode, H_gnode, new_p, H_gssNode, H_gnode) && started(new_p, ntID, rc, v, i)
//@   ensures new_p == (gllParser { seen: new_p.seen, work: new_p.work, ..p })
//@   ghost entry : ext_refl(p, H_gssNode, H_gnode); assert(sg_nt(p.sg->Some_0, ntID).alts.len() == 2);
//@   ghost before gllParser.add : mono_bn(p0, H_gssNode, H_gnode, p, H_gssNode, H_gnode); if allowed(p.sg->Some_0, ntID, rc, 0) { fresh_ok(p, H_gssNode, ntID, 0, v, i, rc); } if allowed(p.sg->Some_0, ntID, rc, 1) { fresh_ok(p, H_gssNode, ntID, 1, v, i, rc); }
//@   ghost return : assert(ext(p0, H_gssNode, H_gnode, p, H_gssNode, H_gnode)); ok_keep(p0, H_gssNode, H_gnode, p, H_gnode);
//@ func gllParser.process(inout p, d)
//@   modifies gssNode gnode
//@   requires gll_ok(p, H_gssNode, H_gnode) && desc_ok(p, H_gssNode, d)
//@   ensures gll_ok(new_p, new_H_gssNode, new_H_gnode) && ext(p, H_gssNode, H_gnode, new_p, new_H_gssNode, new_H_gnode)
//@   ensures done(new_p, new_H_gssNode, new_H_gnode, d.L, d.u, d.i, d.rc)
//@   ghost entry : ext_refl(p, H_gssNode, H_gnode);
//@   loop 1 invariant gll_ok(p, H_gssNode, H_gnode) && ext(p0, H_gssNode0, H_gnode0, p, H_gssNode, H_gnode) && H_gssNode == H_gssNode0 && u == d.u && rc == d.rc && desc_ok(p, H_gssNode, descriptor { L: L, u: u, i: i, w: w, rc: rc }) && backs(p, H_gssNode, H_gnode, L, i, d)
//@   loop 1 head let q1_ = p; let H1_ = H_gssNode; let N1_ = H_gnode; let lL_ = L; let li_ = i; let d1_ = descriptor { L: L, u: u, i: i, w: w, rc: rc }; ext_refl(p, H_gssNode, H_gnode); assert(bn(p, H_gssNode, u)); if L.dot == sprod(p.sg->Some_0, L.nt, L.alt).len() { DS_of(p.sg->Some_0, p.input, L.nt, L.alt, rc, H_gssNode[u].pos, i); assert(sg_nt(p.sg->Some_0, L.nt).alts[L.alt].len() >= 1); let k1_ = nkey(p.sg->Some_0, L, H_gssNode[u].pos, i, rc); assert(node_is(p, H_gnode, k1_)); assert(k1_ == pkey(p, H_gssNode, u, i)); }
//@   ghost before gllParser.create : bn_cx(p, H_gssNode, u); assert(cstep(p.sg->Some_0, p.input, L.nt, L.alt, rc, L.dot, H_gssNode[u].pos, s.nt, crc(p.sg->Some_0, L.nt, rc, s), i)); CX_step(p.sg->Some_0, p.input, L.nt, L.alt, rc, L.dot, H_gssNode[u].pos, s.nt, crc(p.sg->Some_0, L.nt, rc, s), i); assert(prev(sl(L.nt, L.alt, L.dot + 1)) == L);
//@   ghost after gllParser.create : let q2_ = p; let H2_ = H_gssNode; let N2_ = H_gnode; mono_bn(q1_, H1_, N1_, p, H_gssNode, H_gnode);
//@   loop 2 pre ext_refl(p, H_gssNode, H_gnode);
//@   loop 2 invariant gll_ok(p, H_gssNode, H_gnode) && ext(q2_, H2_, N2_, p, H_gssNode, H_gnode) && p.gss == q2_.gss && p.popped == q2_.popped && (forall|a: int| 0 <= a < $i ==> p.seen.contains_key(descriptor { L: #[trigger] sl(s.nt, a, 0), u: v, i: i, w: 0, rc: 0 }))
//@   loop 2 head let q3_ = p; mono_bn(q2_, H2_, N2_, p, H_gssNode, H_gnode); fresh_ok(p, H_gssNode, s.nt, $i, v, i, 0);
//@   loop 2 end ext_trans(q2_, H2_, N2_, q3_, H2_, N2_, p, H2_, N2_); ok_keep(q3_, H2_, N2_, p, N2_);
//@   ghost after gllParser.pop : ext_trans(p0, H_gssNode0, H_gnode0, q1_, H1_, N1_, p, H_gssNode, H_gnode);
//@   ghost before gllParser.noteFail : assert(nomatch(s, p.input, i)); fail_ok(p, H_gssNode, H_gnode, d1_); assert(sym_ok(p.sg->Some_0, s));
//@   ghost after gllParser.noteFail : ok_keep(q1_, H1_, N1_, p, N1_);
//@   ghost before gllParser.getNodeP : let q4_ = p; let N4_ = H_gnode; mono_desc(q1_, H1_, N1_, p, H_gssNode, H_gnode, d1_); leaf_ok(p, H_gssNode, H_gnode, d1_, j, cR);
//@   loop 1 end ext_trans(q1_, H1_, N1_, q4_, H1_, N4_, p, H1_, H_gnode); ext_trans(p0, H_gssNode0, H_gnode0, q1_, H1_, N1_, p, H_gssNode, H_gnode); ok_keep(q1_, H1_, N1_, p, H_gnode); mono_bn(q1_, H1_, N1_, p, H1_, H_gnode); backs_leaf(q1_, H1_, N1_, p, H_gnode, lL_, li_, d, i);
//@   ghost return : assert(done(p, H_gssNode, H_gnode, L, u, i, rc));
//@ func gllParser.parse(inout p) (r)
//@   modifies gssNode gnode
//@   requires gll_start(p)
//@   ensures gll_ok(new_p, new_H_gssNode, new_H_gnode) && new_p.sg == p.sg && new_p.input == p.input && new_p.maxNodes == p.maxNodes && (!new_p.aborted ==> gll_end(new_p, new_H_gssNode, new_H_gnode) && r == root_of(new_p))
//@   loop 1 pre assert(p.nodes =~= Map::<nodeKey, int>::empty()); start_ok(p, H_gssNode, H_gnode); let q0_ = p; ext_refl(p, H_gssNode, H_gnode);
//@   ghost entry : let sg_ = p.sg->Some_0;
//@   loop 1 invariant gll_ok(p, H_gssNode, H_gnode) && ext(q0_, H_gssNode, H_gnode, p, H_gssNode, H_gnode) && p.gss == q0_.gss && p.popped == q0_.popped && !p.aborted && (forall|a: int| 0 <= a < $i ==> p.seen.contains_key(descriptor { L: #[trigger] sl(sg_.start, a, 0), u: p.u0, i: 0, w: 0, rc: 0 }))
//@   loop 1 head let q1_ = p; fresh_ok(p, H_gssNode, sg_.start, $i, p.u0, 0, 0);
//@   loop 1 end ext_trans(q0_, H_gssNode, H_gnode, q1_, H_gssNode, H_gnode, p, H_gssNode, H_gnode); ok_keep(q1_, H_gssNode, H_gnode, p, H_gnode);
//@   loop 2 pre assert(started(p, sg_.start, 0, p.u0, 0));
//@   loop 2 invariant gll_ok(p, H_gssNode, H_gnode) && c1(p, H_gssNode, H_gnode) && started(p, sg_.start, 0, p.u0, 0) && p.sg == p0.sg && p.input == p0.input && p.maxNodes == p0.maxNodes
//@   loop 2 head let q1_ = p; let H1_ = H_gssNode; let N1_ = H_gnode; assert(p.work.subrange(0, p.work.len() - 1) =~= p.work.drop_last()); let q2_ = gllParser { work: p.work.drop_last(), ..p }; take_ok(p, H_gssNode, H_gnode, q2_); mono_started(q1_, q2_, sg_.start, 0, p.u0, 0);
//@   loop 2 end c1_step(q2_, H1_, N1_, d, p, H_gssNode, H_gnode); mono_started(q2_, p, sg_.start, 0, p.u0, 0);
//@ types Forest
//@ func ParseForest(input, nn grammar, rootRulename, opts) (f, err)
//@   modifies gssNode gnode
//@   requires wf_map(grammar.Rulemap) && wf_map(g_coreRules()) && ascii(rootRulename)
//@   ensures err is ErrRuleNotFound <==> resolve(grammar.Rulemap, rootRulename) is None
//@   ensures err is Nil || err is ErrRuleNotFound || err is ErrGrammarTooLarge || err is ErrForestTooLarge
//@   ensures err is Nil ==> f is Some && lowered(f->Some_0.sg->Some_0, grammar.Rulemap, rootRulename)
//@   ensures err is Nil ==> f is Some && fo_ok(f->Some_0, new_H_gnode) && f->Some_0.input == input && (f->Some_0.root != 0 <==> d_rule(grammar.Rulemap, rootRulename, input)) && furthest(f->Some_0.sg->Some_0, input, f->Some_0.maxPos, f->Some_0.expected)
//@   ghost after gllParser.parse : let pe_ = p->Some_0; let He_ = H_gssNode;
//@   ghost return 3 : root_exact(pe_, He_, H_gnode); furthest_exact(pe_, He_, H_gnode); assert(fo_of(f->Some_0, pe_, He_, H_gnode));
//@ func Forest.Valid(nn f) (ok)
//@   ensures ok <==> f.root != 0
