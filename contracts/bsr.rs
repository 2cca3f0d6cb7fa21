// ---- bsr.rs: the binary-subtree engine ----
pub type HB = Map<int, bsrGNode>;
// the nonterminal a stack node was created for, and its count
pub open spec fn cal_nt(sg: slotGrammar, x: bsrGNode) -> int { if x.ret.nt == -1 { sg.start } else { sprod(sg, x.ret.nt, x.ret.alt)[x.ret.dot - 1].nt } }
pub open spec fn cal_rc(sg: slotGrammar, x: bsrGNode) -> int { if x.ret.nt == -1 { 0 } else { crc(sg, x.ret.nt, x.rc, sprod(sg, x.ret.nt, x.ret.alt)[x.ret.dot - 1]) } }
pub open spec fn key_of(x: bsrGNode) -> gssKey { gssKey { ret: x.ret, pos: x.pos, rc: x.rc } }
pub open spec fn ret_ok(sg: slotGrammar, inp: Seq<int>, ret: slot, pos: int, rc: int) -> bool {
  slot_ok(sg, ret) && ret.dot >= 1 && sprod(sg, ret.nt, ret.alt)[ret.dot - 1].kind == 0 && 0 <= pos <= inp.len() && allowed(sg, ret.nt, rc, ret.alt)
}
pub open spec fn bn(p: bsrParser, H: HB, v: int) -> bool {
  v != 0 && H.contains_key(v) && (if v == p.u0 { H[v].ret.nt == -1 && H[v].pos == 0 && H[v].edges.len() == 0 }
    else { p.gss.contains_key(key_of(H[v])) && p.gss[key_of(H[v])] == v && ret_ok(p.sg->Some_0, p.input, H[v].ret, H[v].pos, H[v].rc) })
}
pub open spec fn edge_ok(p: bsrParser, H: HB, v: int, u: int) -> bool {
  let sg = p.sg->Some_0; let x = H[v];
  bn(p, H, u) && cal_nt(sg, H[u]) == x.ret.nt && cal_rc(sg, H[u]) == x.rc && H[u].pos <= x.pos && DP(sg, p.input, x.ret.nt, x.ret.alt, x.rc, x.ret.dot - 1, H[u].pos, x.pos)
}
pub open spec fn desc_ok(p: bsrParser, H: HB, d: bsrDesc) -> bool {
  let sg = p.sg->Some_0;
  bn(p, H, d.u) && slot_ok(sg, d.L) && d.L.nt == cal_nt(sg, H[d.u]) && d.rc == cal_rc(sg, H[d.u]) && allowed(sg, d.L.nt, d.rc, d.L.alt)
  && H[d.u].pos <= d.i <= p.input.len() && DP(sg, p.input, d.L.nt, d.L.alt, d.rc, d.L.dot, H[d.u].pos, d.i)
}
pub open spec fn pop_ok(p: bsrParser, H: HB, v: int, j: int) -> bool { bn(p, H, v) && H[v].pos <= j <= p.input.len() && DS(p.sg->Some_0, p.input, cal_nt(p.sg->Some_0, H[v]), cal_rc(p.sg->Some_0, H[v]), H[v].pos, j) }
pub open spec fn elem_ok(sg: slotGrammar, inp: Seq<int>, e: bsrElem) -> bool {
  slot_ok(sg, e.slot) && e.slot.dot >= 1 && allowed(sg, e.slot.nt, e.rc, e.slot.alt) && 0 <= e.l <= e.k <= e.r <= inp.len()
  && DP(sg, inp, e.slot.nt, e.slot.alt, e.rc, e.slot.dot - 1, e.l, e.k)
  && DY(sg, inp, sprod(sg, e.slot.nt, e.slot.alt)[e.slot.dot - 1], crc(sg, e.slot.nt, e.rc, sprod(sg, e.slot.nt, e.slot.alt)[e.slot.dot - 1]), e.k, e.r)
}
pub open spec fn keeps(sg: slotGrammar, L: slot) -> bool { L.dot >= 2 || L.dot == sprod(sg, L.nt, L.alt).len() }
// the element is recorded (or the budget stopped the run)
pub open spec fn rec(p: bsrParser, L: slot, l: int, k: int, r: int, rc: int) -> bool { p.aborted || !keeps(p.sg->Some_0, L) || p.set_.contains_key(bsrElem { slot: L, l: l, k: k, r: r, rc: rc }) }
pub open spec fn ds(L: slot, u: int, i: int, rc: int) -> bsrDesc { bsrDesc { L: L, u: u, i: i, rc: rc } }
pub open spec fn sl(nt: int, alt: int, dot: int) -> slot { slot { nt: nt, alt: alt, dot: dot } }
pub open spec fn started(p: bsrParser, nt: int, rc: int, v: int, i: int) -> bool {
  forall|ai: int| 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len() && allowed(p.sg->Some_0, nt, rc, ai) ==> p.seen.contains_key(ds(#[trigger] sl(nt, ai, 0), v, i, rc))
}
pub open spec fn popd(p: bsrParser, v: int, j: int) -> bool { p.popped.contains_key(v) && p.popped[v].contains_key(j) }
// a returning edge was followed
pub open spec fn followed(p: bsrParser, H: HB, v: int, u: int, j: int) -> bool { rec(p, H[v].ret, H[u].pos, H[v].pos, j, H[v].rc) && p.seen.contains_key(ds(H[v].ret, u, j, H[v].rc)) }
pub open spec fn bsr_ok0(p: bsrParser, H: HB) -> bool {
  p.sg is Some && sg_ok(p.sg->Some_0) && bn(p, H, p.u0) && H[p.u0].ret.nt == -1
  && (forall|k: gssKey| #[trigger] p.gss.contains_key(k) ==> bn(p, H, p.gss[k]) && p.gss[k] != p.u0 && key_of(H[p.gss[k]]) == k)
  && (forall|v: int, e: int| bn(p, H, v) && 0 <= e < H[v].edges.len() ==> edge_ok(p, H, v, #[trigger] H[v].edges[e]))
  && (forall|v: int, u: int| bn(p, H, v) && #[trigger] H[v].edgeSet.contains_key(u) ==> H[v].edgeSet[u] && H[v].edges.contains(u))
  && (forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) ==> p.seen[d] && desc_ok(p, H, d))
  && (forall|q: int| 0 <= q < p.work.len() ==> p.seen.contains_key(#[trigger] p.work[q]))
  && (forall|v: int, j: int| #[trigger] popd(p, v, j) ==> pop_ok(p, H, v, j))
  && (forall|e: bsrElem| #[trigger] p.set_.contains_key(e) ==> elem_ok(p.sg->Some_0, p.input, e) && keeps(p.sg->Some_0, e.slot))
  && (forall|v: int| #[trigger] p.popped.contains_key(v) ==> bn(p, H, v))
  && (p.maxElems > 0 ==> p.set_.len() <= p.maxElems)
}
pub open spec fn bsr_ok(p: bsrParser, H: HB) -> bool {
  bsr_ok0(p, H)
  && (forall|v: int, e: int, j: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, j) ==> followed(p, H, v, #[trigger] H[v].edges[e], j))
}
// the state only grows
pub open spec fn ext(p: bsrParser, H: HB, q: bsrParser, G: HB) -> bool {
  extd(p, H, q, G)
  && (forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) ==> p.seen.contains_key(d) || q.work.contains(d))
  && (forall|d: bsrDesc| #[trigger] p.work.contains(d) ==> q.work.contains(d))
}
pub open spec fn extd(p: bsrParser, H: HB, q: bsrParser, G: HB) -> bool {
  q.sg == p.sg && q.input == p.input && q.u0 == p.u0 && q.maxElems == p.maxElems && (p.aborted ==> q.aborted)
  && (forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) ==> q.seen.contains_key(d))
  && (forall|e: bsrElem| #[trigger] p.set_.contains_key(e) ==> q.set_.contains_key(e))
  && (forall|k: gssKey| #[trigger] p.gss.contains_key(k) ==> q.gss.contains_key(k) && q.gss[k] == p.gss[k])
  && (forall|v: int, j: int| #[trigger] popd(p, v, j) ==> popd(q, v, j))
  && (forall|v: int| #[trigger] H.contains_key(v) ==> G.contains_key(v) && G[v].ret == H[v].ret && G[v].pos == H[v].pos && G[v].rc == H[v].rc && (v == p.u0 ==> G[v].edges == H[v].edges)
       && (forall|u: int| #[trigger] H[v].edges.contains(u) ==> G[v].edges.contains(u)))
}
pub proof fn ext_trans(p: bsrParser, H: HB, q: bsrParser, G: HB, r: bsrParser, F: HB)
  requires ext(p, H, q, G), ext(q, G, r, F), ensures ext(p, H, r, F),
{}
pub proof fn ext_refl(p: bsrParser, H: HB) ensures ext(p, H, p, H) {}
pub proof fn ext_bn(p: bsrParser, H: HB, q: bsrParser, G: HB)
  requires ext(p, H, q, G), ensures forall|v: int| #[trigger] bn(p, H, v) ==> bn(q, G, v),
{ assert forall|v: int| #[trigger] bn(p, H, v) implies bn(q, G, v) by { if v != p.u0 { assert(p.gss.contains_key(key_of(H[v]))); } } }
// the consequences of a descriptor were drawn
pub open spec fn done(p: bsrParser, H: HB, L: slot, u: int, i: int, rc: int) -> bool decreases sprod(p.sg->Some_0, L.nt, L.alt).len() - L.dot {
  let sg = p.sg->Some_0; let pr = sprod(sg, L.nt, L.alt);
  if L.dot >= pr.len() { u == p.u0 || popd(p, u, i) }
  else if pr[L.dot].kind == 0 {
    let k = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: i, rc: rc };
    p.gss.contains_key(k) && H[p.gss[k]].edges.contains(u) && started(p, pr[L.dot].nt, crc(sg, L.nt, rc, pr[L.dot]), p.gss[k], i)
  } else { forall|j: int| #[trigger] sleaf(pr[L.dot], p.input, i, j) ==> rec(p, sl(L.nt, L.alt, L.dot + 1), H[u].pos, i, j, rc) && done(p, H, sl(L.nt, L.alt, L.dot + 1), u, j, rc) }
}
pub proof fn done_mono(p: bsrParser, H: HB, q: bsrParser, G: HB, L: slot, u: int, i: int, rc: int)
  requires extd(p, H, q, G), done(p, H, L, u, i, rc), bn(p, H, u), bsr_ok0(p, H), slot_ok(p.sg->Some_0, L),
  ensures done(q, G, L, u, i, rc),
  decreases sprod(p.sg->Some_0, L.nt, L.alt).len() - L.dot,
{
  let sg = p.sg->Some_0; let pr = sprod(sg, L.nt, L.alt);
  if L.dot >= pr.len() {}
  else if pr[L.dot].kind == 0 {
    let k = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: i, rc: rc };
    assert(bn(p, H, p.gss[k]));
    assert(H.contains_key(p.gss[k]));
    let c = crc(sg, L.nt, rc, pr[L.dot]); let v = p.gss[k];
    assert forall|ai: int| 0 <= ai < sg_nt(q.sg->Some_0, pr[L.dot].nt).alts.len() && allowed(q.sg->Some_0, pr[L.dot].nt, c, ai) implies q.seen.contains_key(ds(#[trigger] sl(pr[L.dot].nt, ai, 0), v, i, c)) by { assert(p.seen.contains_key(ds(sl(pr[L.dot].nt, ai, 0), v, i, c))); }
  } else {
    assert forall|j: int| #[trigger] sleaf(pr[L.dot], q.input, i, j) implies rec(q, sl(L.nt, L.alt, L.dot + 1), G[u].pos, i, j, rc) && done(q, G, sl(L.nt, L.alt, L.dot + 1), u, j, rc) by {
      assert(rec(p, sl(L.nt, L.alt, L.dot + 1), H[u].pos, i, j, rc));
      done_mono(p, H, q, G, sl(L.nt, L.alt, L.dot + 1), u, j, rc);
    }
  }
}
pub open spec fn c2_edge(p: bsrParser, H: HB, v0: int, m: int, D: Set<int>) -> bool {
  forall|v: int, e: int, j: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, j) && !(v == v0 && e == m && !D.contains(j)) ==> followed(p, H, v, #[trigger] H[v].edges[e], j)
}
pub open spec fn c2_pop(p: bsrParser, H: HB, u0: int, j0: int, n: int) -> bool {
  forall|v: int, e: int, j: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, j) && !(v == u0 && j == j0 && e >= n) ==> followed(p, H, v, #[trigger] H[v].edges[e], j)
}
// everything that does not touch the stack graph keeps the node facts
pub proof fn same_graph(p: bsrParser, q: bsrParser, H: HB)
  requires q.sg == p.sg, q.input == p.input, q.u0 == p.u0, q.gss == p.gss,
  ensures forall|v: int| #[trigger] bn(q, H, v) == bn(p, H, v), forall|v: int, u: int| #[trigger] edge_ok(q, H, v, u) == edge_ok(p, H, v, u),
    forall|d: bsrDesc| #[trigger] desc_ok(q, H, d) == desc_ok(p, H, d), forall|v: int, j: int| #[trigger] pop_ok(q, H, v, j) == pop_ok(p, H, v, j),
{
  assert forall|v: int| #[trigger] bn(q, H, v) == bn(p, H, v) by {}
}
pub proof fn add_step(p: bsrParser, H: HB, d: bsrDesc, q: bsrParser)
  requires bsr_ok0(p, H), desc_ok(p, H, d), q == (bsrParser { seen: p.seen.insert(d, true), work: p.work.push(d), ..p }),
  ensures bsr_ok0(q, H), ext(p, H, q, H),
{
  same_graph(p, q, H);
  let w = q.work;
  assert(w[w.len() - 1] == d); assert(w.contains(d));
  assert forall|x: bsrDesc| #[trigger] p.work.contains(x) implies w.contains(x) by { let i = choose|i: int| 0 <= i < p.work.len() && p.work[i] == x; assert(w[i] == x); }
  assert forall|i: int| 0 <= i < w.len() implies q.seen.contains_key(#[trigger] w[i]) by { if i < p.work.len() { assert(w[i] == p.work[i]); } }
  assert forall|v: int, j: int| #[trigger] popd(q, v, j) implies pop_ok(q, H, v, j) by { assert(popd(p, v, j)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, u: int| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(u) implies H[v].edgeSet[u] && H[v].edges.contains(u) by { assert(bn(p, H, v)); }
  assert forall|k: gssKey| #[trigger] q.gss.contains_key(k) implies bn(q, H, q.gss[k]) && q.gss[k] != q.u0 && key_of(H[q.gss[k]]) == k by { assert(p.gss.contains_key(k)); }
  assert forall|v: int| #[trigger] q.popped.contains_key(v) implies bn(q, H, v) by { assert(p.popped.contains_key(v)); }
}
pub proof fn record_step(p: bsrParser, H: HB, q: bsrParser)
  requires bsr_ok0(p, H), q == (bsrParser { set_: q.set_, aborted: q.aborted, ..p }), p.aborted ==> q.aborted,
    forall|e: bsrElem| #[trigger] p.set_.contains_key(e) ==> q.set_.contains_key(e),
    forall|e: bsrElem| #[trigger] q.set_.contains_key(e) ==> p.set_.contains_key(e) || (elem_ok(p.sg->Some_0, p.input, e) && keeps(p.sg->Some_0, e.slot)),
    p.maxElems > 0 ==> q.set_.len() <= p.maxElems,
  ensures bsr_ok0(q, H), ext(p, H, q, H),
{
  same_graph(p, q, H);
  assert forall|v: int, j: int| #[trigger] popd(q, v, j) implies pop_ok(q, H, v, j) by { assert(popd(p, v, j)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, u: int| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(u) implies H[v].edgeSet[u] && H[v].edges.contains(u) by { assert(bn(p, H, v)); }
  assert forall|k: gssKey| #[trigger] q.gss.contains_key(k) implies bn(q, H, q.gss[k]) && q.gss[k] != q.u0 && key_of(H[q.gss[k]]) == k by { assert(p.gss.contains_key(k)); }
  assert forall|v: int| #[trigger] q.popped.contains_key(v) implies bn(q, H, v) by { assert(p.popped.contains_key(v)); }
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies q.seen[d] && desc_ok(q, H, d) by { assert(p.seen.contains_key(d)); }
  assert forall|i: int| 0 <= i < q.work.len() implies q.seen.contains_key(#[trigger] q.work[i]) by { assert(p.seen.contains_key(p.work[i])); }
}
pub proof fn gss_step(p: bsrParser, H: HB, k: gssKey, v: int, x: bsrGNode, q: bsrParser, G: HB)
  requires bsr_ok(p, H), !p.gss.contains_key(k), ret_ok(p.sg->Some_0, p.input, k.ret, k.pos, k.rc), v != 0, !H.contains_key(v),
    key_of(x) == k, x.edges.len() == 0, x.edgeSet =~= Map::<int, bool>::empty(), q == (bsrParser { gss: p.gss.insert(k, v), ..p }), G == H.insert(v, x),
  ensures bsr_ok(q, G), ext(p, H, q, G), bn(q, G, v), v != p.u0,
{
  assert(H.contains_key(p.u0));
  assert forall|w: int| H.contains_key(w) implies #[trigger] G[w] == H[w] && G.contains_key(w) by {}
  assert forall|w: int| #[trigger] bn(p, H, w) implies bn(q, G, w) by { if w != p.u0 { assert(p.gss.contains_key(key_of(H[w]))); } }
  assert forall|w: int| #[trigger] bn(q, G, w) && w != v implies bn(p, H, w) by { assert(G[w] == H[w]); if w != p.u0 { assert(key_of(G[w]) != k); } }
  assert(bn(q, G, v));
  assert forall|l: gssKey| #[trigger] q.gss.contains_key(l) implies bn(q, G, q.gss[l]) && q.gss[l] != q.u0 && key_of(G[q.gss[l]]) == l by { if l != k { assert(p.gss.contains_key(l)); assert(bn(p, H, p.gss[l])); } }
  assert forall|w: int, e: int| bn(q, G, w) && 0 <= e < G[w].edges.len() implies edge_ok(q, G, w, #[trigger] G[w].edges[e]) by { if w != v { assert(bn(p, H, w)); assert(edge_ok(p, H, w, H[w].edges[e])); } }
  assert forall|w: int, u: int| bn(q, G, w) && #[trigger] G[w].edgeSet.contains_key(u) implies G[w].edgeSet[u] && G[w].edges.contains(u) by { if w != v { assert(bn(p, H, w)); assert(H[w].edgeSet.contains_key(u)); } }
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies q.seen[d] && desc_ok(q, G, d) by { assert(p.seen.contains_key(d)); assert(desc_ok(p, H, d)); assert(bn(p, H, d.u)); }
  assert forall|i: int| 0 <= i < q.work.len() implies q.seen.contains_key(#[trigger] q.work[i]) by { assert(p.seen.contains_key(p.work[i])); }
  assert forall|w: int, j: int| #[trigger] popd(q, w, j) implies pop_ok(q, G, w, j) by { assert(popd(p, w, j)); assert(pop_ok(p, H, w, j)); assert(bn(p, H, w)); }
  assert forall|w: int| #[trigger] q.popped.contains_key(w) implies bn(q, G, w) by { assert(p.popped.contains_key(w)); assert(bn(p, H, w)); }
  assert forall|w: int, e: int, j: int| bn(q, G, w) && 0 <= e < G[w].edges.len() && #[trigger] popd(q, w, j) implies followed(q, G, w, #[trigger] G[w].edges[e], j) by {
    assert(popd(p, w, j)); assert(p.popped.contains_key(w)); assert(bn(p, H, w)); assert(w != v);
    assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, w, H[w].edges[e], j));
  }
}
pub proof fn edge_step(p: bsrParser, H: HB, v: int, u: int, G: HB)
  requires bsr_ok(p, H), bn(p, H, v), v != p.u0, edge_ok(p, H, v, u), G == H.insert(v, bsrGNode { edges: H[v].edges.push(u), edgeSet: H[v].edgeSet.insert(u, true), ..H[v] }),
  ensures bsr_ok0(p, G), ext(p, H, p, G), c2_edge(p, G, v, H[v].edges.len() as int, Set::empty()), bn(p, G, v), bn(p, G, u), edge_ok(p, G, v, u), G[v].edges.contains(u),
{
  assert forall|w: int| H.contains_key(w) implies G.contains_key(w) && #[trigger] G[w].ret == H[w].ret && G[w].pos == H[w].pos && G[w].rc == H[w].rc && (w != v ==> G[w] == H[w]) by {}
  let es = G[v].edges; let n = H[v].edges.len() as int;
  assert(es[n] == u); assert(es.contains(u));
  assert forall|x: int| #[trigger] H[v].edges.contains(x) implies es.contains(x) by { let i = choose|i: int| 0 <= i < n && H[v].edges[i] == x; assert(es[i] == x); }
  assert forall|w: int| #[trigger] bn(p, H, w) == bn(p, G, w) by {}
  assert forall|w: int, x: int| #[trigger] edge_ok(p, H, w, x) implies edge_ok(p, G, w, x) by { assert(bn(p, G, x)); }
  assert forall|w: int, e: int| bn(p, G, w) && 0 <= e < G[w].edges.len() implies edge_ok(p, G, w, #[trigger] G[w].edges[e]) by { assert(bn(p, H, w)); if w == v && e == n {} else { assert(G[w].edges[e] == H[w].edges[e]); assert(edge_ok(p, H, w, H[w].edges[e])); } }
  assert forall|w: int, x: int| bn(p, G, w) && #[trigger] G[w].edgeSet.contains_key(x) implies G[w].edgeSet[x] && G[w].edges.contains(x) by { assert(bn(p, H, w)); if w == v { if x != u { assert(H[v].edgeSet.contains_key(x)); } } else { assert(H[w].edgeSet.contains_key(x)); } }
  assert forall|k: gssKey| #[trigger] p.gss.contains_key(k) implies bn(p, G, p.gss[k]) && p.gss[k] != p.u0 && key_of(G[p.gss[k]]) == k by { assert(bn(p, H, p.gss[k])); }
  assert forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) implies p.seen[d] && desc_ok(p, G, d) by { assert(desc_ok(p, H, d)); assert(bn(p, H, d.u)); }
  assert forall|w: int, j: int| #[trigger] popd(p, w, j) implies pop_ok(p, G, w, j) by { assert(pop_ok(p, H, w, j)); assert(bn(p, H, w)); }
  assert forall|w: int| #[trigger] p.popped.contains_key(w) implies bn(p, G, w) by { assert(bn(p, H, w)); }
  assert forall|w: int, e: int, j: int| bn(p, G, w) && 0 <= e < G[w].edges.len() && #[trigger] popd(p, w, j) && !(w == v && e == n && !Set::<int>::empty().contains(j)) implies followed(p, G, w, #[trigger] G[w].edges[e], j) by {
    assert(bn(p, H, w)); assert(G[w].edges[e] == H[w].edges[e]); assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, w, H[w].edges[e], j));
  }
}
pub proof fn c2_edge_step(p: bsrParser, H: HB, v: int, m: int, D: Set<int>, q: bsrParser, j0: int)
  requires bsr_ok0(p, H), bsr_ok0(q, H), ext(p, H, q, H), c2_edge(p, H, v, m, D), q.popped == p.popped, q.gss == p.gss, 0 <= m < H[v].edges.len(), followed(q, H, v, H[v].edges[m], j0),
  ensures c2_edge(q, H, v, m, D.insert(j0)),
{
  same_graph(p, q, H);
  assert forall|w: int, e: int, j: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, j) && !(w == v && e == m && !D.insert(j0).contains(j)) implies followed(q, H, w, #[trigger] H[w].edges[e], j) by {
    assert(popd(p, w, j)); assert(bn(p, H, w));
    if w == v && e == m && j == j0 {} else { assert(followed(p, H, w, H[w].edges[e], j)); }
  }
}
pub proof fn c2_pop_step(p: bsrParser, H: HB, u: int, j0: int, n: int, q: bsrParser)
  requires bsr_ok0(p, H), bsr_ok0(q, H), ext(p, H, q, H), c2_pop(p, H, u, j0, n), q.popped == p.popped, q.gss == p.gss, 0 <= n < H[u].edges.len(), followed(q, H, u, H[u].edges[n], j0),
  ensures c2_pop(q, H, u, j0, n + 1),
{
  same_graph(p, q, H);
  assert forall|w: int, e: int, j: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, j) && !(w == u && j == j0 && e >= n + 1) implies followed(q, H, w, #[trigger] H[w].edges[e], j) by {
    assert(popd(p, w, j)); assert(bn(p, H, w));
    if w == u && j == j0 && e == n {} else { assert(followed(p, H, w, H[w].edges[e], j)); }
  }
}
pub proof fn pop_step(p: bsrParser, H: HB, u: int, j: int, q: bsrParser)
  requires bsr_ok(p, H), pop_ok(p, H, u, j), u != p.u0,
    q == (bsrParser { popped: q.popped, ..p }), q.popped == p.popped.insert(u, (if p.popped.contains_key(u) { p.popped[u] } else { Map::empty() }).insert(j, true)),
  ensures bsr_ok0(q, H), ext(p, H, q, H), popd(q, u, j), c2_pop(q, H, u, j, 0),
{
  same_graph(p, q, H);
  assert forall|v: int, i: int| #[trigger] popd(q, v, i) implies pop_ok(q, H, v, i) && (popd(p, v, i) || (v == u && i == j)) by { if v == u && i == j {} else { assert(popd(p, v, i)); } }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, x: int| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(x) implies H[v].edgeSet[x] && H[v].edges.contains(x) by { assert(bn(p, H, v)); }
  assert forall|k: gssKey| #[trigger] q.gss.contains_key(k) implies bn(q, H, q.gss[k]) && q.gss[k] != q.u0 && key_of(H[q.gss[k]]) == k by { assert(p.gss.contains_key(k)); }
  assert forall|v: int| #[trigger] q.popped.contains_key(v) implies bn(q, H, v) by { if v != u { assert(p.popped.contains_key(v)); } }
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies q.seen[d] && desc_ok(q, H, d) by { assert(p.seen.contains_key(d)); }
  assert forall|i: int| 0 <= i < q.work.len() implies q.seen.contains_key(#[trigger] q.work[i]) by { assert(p.seen.contains_key(p.work[i])); }
  assert forall|v: int, i: int| #[trigger] popd(p, v, i) implies popd(q, v, i) by {}
  assert forall|w: int, e: int, i: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, i) && !(w == u && i == j && e >= 0) implies followed(q, H, w, #[trigger] H[w].edges[e], i) by {
    assert(popd(p, w, i)); assert(bn(p, H, w)); assert(followed(p, H, w, H[w].edges[e], i));
  }
}
// following one edge for one end position
pub proof fn follow_ok(p: bsrParser, H: HB, v: int, u: int, j: int)
  requires bsr_ok0(p, H), bn(p, H, v), v != p.u0, edge_ok(p, H, v, u), pop_ok(p, H, v, j),
  ensures elem_ok(p.sg->Some_0, p.input, bsrElem { slot: H[v].ret, l: H[u].pos, k: H[v].pos, r: j, rc: H[v].rc }), desc_ok(p, H, ds(H[v].ret, u, j, H[v].rc)),
{
  let sg = p.sg->Some_0; let x = H[v]; let s = sprod(sg, x.ret.nt, x.ret.alt)[x.ret.dot - 1];
  assert(s.kind == 0);
  DY_nt(sg, p.input, s, crc(sg, x.ret.nt, x.rc, s), x.pos, j);
  DP_step(sg, p.input, x.ret.nt, x.ret.alt, x.rc, x.ret.dot, H[u].pos, x.pos, j);
}
pub proof fn ok_keep(p: bsrParser, H: HB, q: bsrParser)
  requires bsr_ok(p, H), bsr_ok0(q, H), ext(p, H, q, H), q.popped == p.popped, q.gss == p.gss,
  ensures bsr_ok(q, H),
{
  same_graph(p, q, H);
  assert forall|w: int, e: int, j: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, j) implies followed(q, H, w, #[trigger] H[w].edges[e], j) by {
    assert(popd(p, w, j)); assert(bn(p, H, w)); assert(followed(p, H, w, H[w].edges[e], j));
  }
}
// a fresh production of the nonterminal the node stands for
pub proof fn fresh_ok(p: bsrParser, H: HB, nt: int, ai: int, v: int, i: int, rc: int)
  requires bsr_ok0(p, H), bn(p, H, v), sg_has(p.sg->Some_0, nt), 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, allowed(p.sg->Some_0, nt, rc, ai), H[v].pos == i, 0 <= i <= p.input.len(),
  ensures desc_ok(p, H, ds(sl(nt, ai, 0), v, i, rc)),
{ DP_start(p.sg->Some_0, p.input, nt, ai, rc, i); }
pub proof fn leaf_ok(p: bsrParser, H: HB, L: slot, u: int, i: int, rc: int, j: int)
  requires bsr_ok0(p, H), desc_ok(p, H, ds(L, u, i, rc)), L.dot < sprod(p.sg->Some_0, L.nt, L.alt).len(), sprod(p.sg->Some_0, L.nt, L.alt)[L.dot].kind != 0,
    sleaf(sprod(p.sg->Some_0, L.nt, L.alt)[L.dot], p.input, i, j), i <= j <= p.input.len(), 0 <= H[u].pos,
  ensures desc_ok(p, H, ds(sl(L.nt, L.alt, L.dot + 1), u, j, rc)),
    elem_ok(p.sg->Some_0, p.input, bsrElem { slot: sl(L.nt, L.alt, L.dot + 1), l: H[u].pos, k: i, r: j, rc: rc }),
{
  let sg = p.sg->Some_0; let s = sprod(sg, L.nt, L.alt)[L.dot];
  assert(crc(sg, L.nt, rc, s) == 0);
  DY_leaf(sg, p.input, s, 0, i, j);
  DP_step(sg, p.input, L.nt, L.alt, rc, L.dot + 1, H[u].pos, i, j);
}
pub open spec fn backs(p: bsrParser, H: HB, L: slot, i: int, d: bsrDesc) -> bool {
  forall|q: bsrParser, G: HB| ext(p, H, q, G) && #[trigger] done(q, G, L, d.u, i, d.rc) ==> done(q, G, d.L, d.u, d.i, d.rc)
}
pub proof fn backs_leaf(p: bsrParser, H: HB, p1: bsrParser, L: slot, i: int, d: bsrDesc, j: int)
  requires backs(p, H, L, i, d), ext(p, H, p1, H), H.contains_key(d.u), 0 <= L.dot < sprod(p.sg->Some_0, L.nt, L.alt).len(), sprod(p.sg->Some_0, L.nt, L.alt)[L.dot].kind != 0,
    forall|q: int| #[trigger] sleaf(sprod(p.sg->Some_0, L.nt, L.alt)[L.dot], p.input, i, q) ==> q == j, rec(p1, sl(L.nt, L.alt, L.dot + 1), H[d.u].pos, i, j, d.rc),
  ensures backs(p1, H, sl(L.nt, L.alt, L.dot + 1), j, d),
{
  let nx = sl(L.nt, L.alt, L.dot + 1);
  assert forall|q: bsrParser, G: HB| ext(p1, H, q, G) && #[trigger] done(q, G, nx, d.u, j, d.rc) implies done(q, G, d.L, d.u, d.i, d.rc) by {
    ext_trans(p, H, p1, H, q, G);
    assert(done(q, G, L, d.u, i, d.rc));
  }
}
pub open spec fn dn(p: bsrParser, H: HB, d: bsrDesc) -> bool { done(p, H, d.L, d.u, d.i, d.rc) }
// every descriptor is waiting or worked off
pub open spec fn c1(p: bsrParser, H: HB) -> bool { forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) ==> p.work.contains(d) || dn(p, H, d) }
pub open spec fn c1x(p: bsrParser, H: HB, x: bsrDesc) -> bool { forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) ==> p.work.contains(d) || d == x || dn(p, H, d) }
pub open spec fn bsr_start(p: bsrParser) -> bool {
  p.sg is Some && sg_ok(p.sg->Some_0) && (forall|k: gssKey| !#[trigger] p.gss.contains_key(k)) && (forall|d: bsrDesc| !#[trigger] p.seen.contains_key(d))
  && p.work.len() == 0 && (forall|v: int| !#[trigger] p.popped.contains_key(v)) && (forall|e: bsrElem| !#[trigger] p.set_.contains_key(e)) && !p.aborted
}
pub open spec fn bsr_end(p: bsrParser, H: HB) -> bool { bsr_ok(p, H) && !p.aborted && started(p, p.sg->Some_0.start, 0, p.u0, 0) && (forall|d: bsrDesc| #[trigger] p.seen.contains_key(d) ==> dn(p, H, d)) }
pub proof fn start_ok(p: bsrParser, H: HB)
  requires bsr_start(p), p.u0 != 0, H.contains_key(p.u0), H[p.u0].ret == sl(-1, -1, -1), H[p.u0].pos == 0, H[p.u0].edges.len() == 0, H[p.u0].edgeSet =~= Map::<int, bool>::empty(), p.set_ =~= Map::<bsrElem, bool>::empty(),
  ensures bsr_ok(p, H),
{
  assert(p.set_.len() == 0);
  assert forall|v: int| #[trigger] bn(p, H, v) implies v == p.u0 by {}
  assert forall|v: int, j: int| #[trigger] popd(p, v, j) implies false by {}
}
pub proof fn take_ok(p: bsrParser, H: HB, q: bsrParser)
  requires bsr_ok(p, H), c1(p, H), p.work.len() > 0, q == (bsrParser { work: p.work.drop_last(), ..p }),
  ensures bsr_ok(q, H), c1x(q, H, p.work.last()), desc_ok(q, H, p.work.last()),
{
  same_graph(p, q, H);
  let w = q.work;
  assert forall|i: int| 0 <= i < w.len() implies q.seen.contains_key(#[trigger] w[i]) by { assert(w[i] == p.work[i]); }
  assert(p.seen.contains_key(p.work[p.work.len() - 1]));
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies w.contains(d) || d == p.work.last() || dn(q, H, d) by {
    assert(p.seen.contains_key(d));
    if p.work.contains(d) { let i = choose|i: int| 0 <= i < p.work.len() && p.work[i] == d; if i < w.len() { assert(w[i] == d); } }
    else { assert(extd(p, H, q, H)); done_mono(p, H, q, H, d.L, d.u, d.i, d.rc); }
  }
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies q.seen[d] && desc_ok(q, H, d) by { assert(p.seen.contains_key(d)); assert(desc_ok(p, H, d)); }
  assert forall|v: int, j: int| #[trigger] popd(q, v, j) implies pop_ok(q, H, v, j) by { assert(popd(p, v, j)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, u: int| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(u) implies H[v].edgeSet[u] && H[v].edges.contains(u) by { assert(bn(p, H, v)); }
  assert forall|k: gssKey| #[trigger] q.gss.contains_key(k) implies bn(q, H, q.gss[k]) && q.gss[k] != q.u0 && key_of(H[q.gss[k]]) == k by { assert(p.gss.contains_key(k)); }
  assert forall|v: int| #[trigger] q.popped.contains_key(v) implies bn(q, H, v) by { assert(p.popped.contains_key(v)); }
  assert forall|v: int, e: int, j: int| bn(q, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(q, v, j) implies followed(q, H, v, #[trigger] H[v].edges[e], j) by { assert(bn(p, H, v)); assert(popd(p, v, j)); assert(followed(p, H, v, H[v].edges[e], j)); }
}
pub proof fn c1_step(p: bsrParser, H: HB, x: bsrDesc, q: bsrParser, G: HB)
  requires bsr_ok(p, H), c1x(p, H, x), ext(p, H, q, G), dn(q, G, x),
  ensures c1(q, G),
{
  assert forall|d: bsrDesc| #[trigger] q.seen.contains_key(d) implies q.work.contains(d) || dn(q, G, d) by {
    if p.seen.contains_key(d) && !p.work.contains(d) && d != x { assert(desc_ok(p, H, d)); done_mono(p, H, q, G, d.L, d.u, d.i, d.rc); }
  }
}
pub proof fn started_mono(p: bsrParser, H: HB, q: bsrParser, G: HB, nt: int, rc: int, v: int, i: int)
  requires extd(p, H, q, G), started(p, nt, rc, v, i), ensures started(q, nt, rc, v, i),
{
  assert forall|ai: int| 0 <= ai < sg_nt(q.sg->Some_0, nt).alts.len() && allowed(q.sg->Some_0, nt, rc, ai) implies q.seen.contains_key(ds(#[trigger] sl(nt, ai, 0), v, i, rc)) by { assert(p.seen.contains_key(ds(sl(nt, ai, 0), v, i, rc))); }
}
// ---- completeness: a context that was entered records every derivation ----
pub open spec fn reached(p: bsrParser, H: HB, nt: int, rc: int, l: int) -> bool { exists|v: int| #[trigger] bn(p, H, v) && H[v].pos == l && cal_nt(p.sg->Some_0, H[v]) == nt && cal_rc(p.sg->Some_0, H[v]) == rc && started(p, nt, rc, v, l) }
pub proof fn comp_nt(p: bsrParser, H: HB, v: int, nt: int, rc: int, l: int, r: int, h: nat)
  requires bsr_end(p, H), bn(p, H, v), H[v].pos == l, started(p, nt, rc, v, l), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, sder(p.sg->Some_0, p.input, nt, rc, l, r, h),
  ensures v == p.u0 || popd(p, v, r),
  decreases h, 0int, 0int,
{
  let sg = p.sg->Some_0;
  let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, nt).alts.len() && allowed(sg, nt, rc, ai) && spre(sg, p.input, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
  comp_pre(p, H, v, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
}
pub proof fn comp_pre(p: bsrParser, H: HB, v: int, nt: int, ai: int, rc: int, dot: int, l: int, r: int, h: nat)
  requires bsr_end(p, H), bn(p, H, v), H[v].pos == l, started(p, nt, rc, v, l), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), allowed(p.sg->Some_0, nt, rc, ai), 0 <= dot <= sprod(p.sg->Some_0, nt, ai).len(), spre(p.sg->Some_0, p.input, nt, ai, rc, dot, l, r, h),
  ensures done(p, H, sl(nt, ai, dot), v, r, rc),
  decreases h, 2int, dot,
{
  let sg = p.sg->Some_0;
  if dot == 0 { assert(p.seen.contains_key(ds(sl(nt, ai, 0), v, l, rc))); }
  else {
    let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s);
    let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, p.input, nt, ai, rc, dot - 1, l, k, h) && ssy(sg, p.input, s, c, k, r, h);
    comp_pre(p, H, v, nt, ai, rc, dot - 1, l, k, h);
    comp_sy(p, H, v, nt, ai, rc, dot, l, k, r, h);
  }
}
// one more symbol: the split is recorded and the next position is worked off
pub proof fn comp_sy(p: bsrParser, H: HB, v: int, nt: int, ai: int, rc: int, dot: int, l: int, k: int, r: int, h: nat)
  requires bsr_end(p, H), bn(p, H, v), H[v].pos == l, cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), 1 <= dot <= sprod(p.sg->Some_0, nt, ai).len(),
    done(p, H, sl(nt, ai, dot - 1), v, k, rc), ssy(p.sg->Some_0, p.input, sprod(p.sg->Some_0, nt, ai)[dot - 1], crc(p.sg->Some_0, nt, rc, sprod(p.sg->Some_0, nt, ai)[dot - 1]), k, r, h),
  ensures rec(p, sl(nt, ai, dot), l, k, r, rc), done(p, H, sl(nt, ai, dot), v, r, rc),
    sprod(p.sg->Some_0, nt, ai)[dot - 1].kind == 0 ==> reached(p, H, sprod(p.sg->Some_0, nt, ai)[dot - 1].nt, crc(p.sg->Some_0, nt, rc, sprod(p.sg->Some_0, nt, ai)[dot - 1]), k),
  decreases h, 1int, 0int,
{
  let sg = p.sg->Some_0; let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s); let pr = sprod(sg, nt, ai);
  let L = sl(nt, ai, dot - 1);
  assert(pr[L.dot] == s);
  if s.kind == 0 {
    let key = gssKey { ret: sl(nt, ai, dot), pos: k, rc: rc };
    assert(sl(L.nt, L.alt, L.dot + 1) == sl(nt, ai, dot));
    assert(p.gss.contains_key(key)); let w = p.gss[key];
    assert(bn(p, H, w)); assert(key_of(H[w]) == key);
    assert(started(p, s.nt, c, w, k));
    comp_nt(p, H, w, s.nt, c, k, r, h);
    assert(popd(p, w, r));
    let e = choose|e: int| 0 <= e < H[w].edges.len() && H[w].edges[e] == v;
    assert(followed(p, H, w, H[w].edges[e], r));
    let d = ds(sl(nt, ai, dot), v, r, rc);
    assert(p.seen.contains_key(d)); assert(dn(p, H, d));
  } else { assert(sleaf(s, p.input, k, r)); }
}
