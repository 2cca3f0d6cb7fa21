// ---- sppf.rs: the shared-forest engine ----
pub type HB = Map<int, gssNode>;
pub type NB = Map<int, gnode>;
pub open spec fn sl(nt: int, alt: int, dot: int) -> slot { slot { nt: nt, alt: alt, dot: dot } }
// a terminal expected at i that the input does not have there
pub open spec fn nomatch(s: ssym, inp: Seq<int>, i: int) -> bool { s.kind != 0 && (forall|j: int| !#[trigger] sleaf(s, inp, i, j)) }
pub open spec fn vslot(sg: slotGrammar, inp: Seq<int>, L: slot, rc: int, l: int, i: int) -> bool {
  slot_ok(sg, L) && allowed(sg, L.nt, rc, L.alt) && CX(sg, inp, L.nt, rc, l) && 0 <= l <= i <= inp.len() && DP(sg, inp, L.nt, L.alt, rc, L.dot, l, i)
}
pub open spec fn vf(sg: slotGrammar, inp: Seq<int>, L: slot, rc: int, l: int, i: int) -> bool { vslot(sg, inp, L, rc, l, i) && L.dot < sprod(sg, L.nt, L.alt).len() && nomatch(sprod(sg, L.nt, L.alt)[L.dot], inp, i) }
pub open spec fn stext(s: ssym) -> Seq<int> { estr(s.term) }
pub open spec fn vfail(sg: slotGrammar, inp: Seq<int>, i: int, x: Seq<int>) -> bool { exists|L: slot, rc: int, l: int| #[trigger] vf(sg, inp, L, rc, l, i) && x == stext(sprod(sg, L.nt, L.alt)[L.dot]) }
// ---- stack nodes ----
pub open spec fn cal_nt(sg: slotGrammar, x: gssNode) -> int { if x.ret.nt == -1 { sg.start } else { sprod(sg, x.ret.nt, x.ret.alt)[x.ret.dot - 1].nt } }
pub open spec fn cal_rc(sg: slotGrammar, x: gssNode) -> int { if x.ret.nt == -1 { 0 } else { crc(sg, x.ret.nt, x.rc, sprod(sg, x.ret.nt, x.ret.alt)[x.ret.dot - 1]) } }
pub open spec fn key_of(x: gssNode) -> gssKey { gssKey { ret: x.ret, pos: x.pos, rc: x.rc } }
pub open spec fn ret_ok(sg: slotGrammar, inp: Seq<int>, ret: slot, pos: int, rc: int) -> bool {
  slot_ok(sg, ret) && ret.dot >= 1 && sprod(sg, ret.nt, ret.alt)[ret.dot - 1].kind == 0 && 0 <= pos <= inp.len() && allowed(sg, ret.nt, rc, ret.alt)
  && CX(sg, inp, sprod(sg, ret.nt, ret.alt)[ret.dot - 1].nt, crc(sg, ret.nt, rc, sprod(sg, ret.nt, ret.alt)[ret.dot - 1]), pos)
}
pub open spec fn bn(p: gllParser, H: HB, v: int) -> bool {
  v != 0 && H.contains_key(v) && (if v == p.u0 { H[v].ret.nt == -1 && H[v].pos == 0 && H[v].edges.len() == 0 }
    else { p.gss.contains_key(key_of(H[v])) && p.gss[key_of(H[v])] == v && ret_ok(p.sg->Some_0, p.input, H[v].ret, H[v].pos, H[v].rc) })
}
// ---- forest nodes: the key of a prefix and of a symbol ----
pub open spec fn zs() -> slot { sl(0, 0, 0) }
pub open spec fn syk(nt: int, l: int, r: int, rc: int) -> nodeKey { nodeKey { kind: 0, nt: nt, L: zs(), start: l, end: r, rc: rc } }
pub open spec fn tmk(l: int, r: int) -> nodeKey { nodeKey { kind: 2, nt: -1, L: zs(), start: l, end: r, rc: 0 } }
pub open spec fn ink(L: slot, l: int, r: int, rc: int) -> nodeKey { nodeKey { kind: 1, nt: -1, L: L, start: l, end: r, rc: rc } }
pub open spec fn skey(s: ssym, c: int, l: int, r: int) -> nodeKey { if s.kind == 0 { syk(s.nt, l, r, c) } else { tmk(l, r) } }
pub open spec fn lsym(sg: slotGrammar, L: slot) -> ssym { sprod(sg, L.nt, L.alt)[L.dot - 1] }
pub open spec fn lrc(sg: slotGrammar, L: slot, rc: int) -> int { crc(sg, L.nt, rc, lsym(sg, L)) }
pub open spec fn nkey(sg: slotGrammar, L: slot, l: int, r: int, rc: int) -> nodeKey {
  if L.dot == sprod(sg, L.nt, L.alt).len() { syk(L.nt, l, r, rc) } else if L.dot == 1 { skey(lsym(sg, L), lrc(sg, L, rc), l, r) } else { ink(L, l, r, rc) }
}
pub open spec fn prev(L: slot) -> slot { sl(L.nt, L.alt, L.dot - 1) }
pub open spec fn hn(p: gllParser, L: slot, l: int, r: int, rc: int) -> bool { L.dot == 0 || p.nodes.contains_key(nkey(p.sg->Some_0, L, l, r, rc)) }
pub open spec fn nd(p: gllParser, L: slot, l: int, r: int, rc: int) -> int { if L.dot == 0 { 0 } else { p.nodes[nkey(p.sg->Some_0, L, l, r, rc)] } }
pub open spec fn keeps(sg: slotGrammar, L: slot) -> bool { L.dot >= 2 || L.dot == sprod(sg, L.nt, L.alt).len() }
// a split of the slot's prefix: [l,k] before the last symbol, [k,r] the last symbol
pub open spec fn split_ok(sg: slotGrammar, inp: Seq<int>, L: slot, rc: int, l: int, k: int, r: int) -> bool {
  slot_ok(sg, L) && L.dot >= 1 && allowed(sg, L.nt, rc, L.alt) && 0 <= l <= k <= r <= inp.len()
  && DP(sg, inp, L.nt, L.alt, rc, L.dot - 1, l, k) && DY(sg, inp, lsym(sg, L), lrc(sg, L, rc), k, r)
}
pub open spec fn hkids(p: gllParser, L: slot, rc: int, l: int, k: int, r: int) -> bool { hn(p, prev(L), l, k, rc) && p.nodes.contains_key(skey(lsym(p.sg->Some_0, L), lrc(p.sg->Some_0, L, rc), k, r)) }
pub open spec fn kids(p: gllParser, L: slot, rc: int, l: int, k: int, r: int) -> Seq<int> {
  let z = p.nodes[skey(lsym(p.sg->Some_0, L), lrc(p.sg->Some_0, L, rc), k, r)];
  if L.dot == 1 { seq![z] } else { seq![nd(p, prev(L), l, k, rc), z] }
}
pub open spec fn kslot(sg: slotGrammar, k: nodeKey, alt: int) -> slot { if k.kind == 0 { sl(k.nt, alt, sprod(sg, k.nt, alt).len() as int) } else { k.L } }
// a pack of the node with key k stands for the split at m
pub open spec fn pack_is(p: gllParser, k: nodeKey, alt: int, c: Seq<int>, m: int) -> bool {
  let L = kslot(p.sg->Some_0, k, alt);
  split_ok(p.sg->Some_0, p.input, L, k.rc, k.start, m, k.end) && L.alt == alt && nkey(p.sg->Some_0, L, k.start, k.end, k.rc) == k && keeps(p.sg->Some_0, L) && hkids(p, L, k.rc, k.start, m, k.end) && c == kids(p, L, k.rc, k.start, m, k.end)
}
pub open spec fn pack_ok(p: gllParser, k: nodeKey, alt: int, c: Seq<int>) -> bool { k.kind != 2 && exists|m: int| #[trigger] pack_is(p, k, alt, c, m) }
pub open spec fn pks_ok(x: gnode) -> bool { x.packs.len() == x.packAlts.len() && (forall|i: int, j: int| 0 <= i < j < x.packs.len() ==> !(#[trigger] x.packs[i] == #[trigger] x.packs[j] && x.packAlts[i] == x.packAlts[j])) }
pub open spec fn node_is(p: gllParser, N: NB, k: nodeKey) -> bool {
  let v = p.nodes[k]; v != 0 && N.contains_key(v) && N[v].kind == k.kind && N[v].nt == k.nt && N[v].Start == k.start && N[v].End == k.end && pks_ok(N[v])
}
pub open spec fn nodes_in(p: gllParser, N: NB) -> bool {
  (forall|k: nodeKey| #[trigger] p.nodes.contains_key(k) ==> node_is(p, N, k))
  && (forall|k: nodeKey, q: nodeKey| #[trigger] p.nodes.contains_key(k) && #[trigger] p.nodes.contains_key(q) && p.nodes[k] == p.nodes[q] ==> k == q)
}
pub open spec fn nodes_ok(p: gllParser, N: NB) -> bool {
  nodes_in(p, N)
  && (forall|k: nodeKey, i: int| #[trigger] p.nodes.contains_key(k) && 0 <= i < N[p.nodes[k]].packs.len() ==> pack_ok(p, k, N[p.nodes[k]].packAlts[i], #[trigger] N[p.nodes[k]].packs[i]))
  && (forall|k: nodeKey| #[trigger] p.nodes.contains_key(k) && k.kind != 2 ==> N[p.nodes[k]].packs.len() > 0)
}
pub open spec fn has_pack(x: gnode, alt: int, c: Seq<int>) -> bool { exists|i: int| 0 <= i < x.packs.len() && #[trigger] x.packs[i] == c && x.packAlts[i] == alt }
// the split is in the forest
pub open spec fn rec(p: gllParser, N: NB, L: slot, l: int, k: int, r: int, rc: int) -> bool {
  hn(p, L, l, r, rc) && (keeps(p.sg->Some_0, L) ==> hkids(p, L, rc, l, k, r) && has_pack(N[nd(p, L, l, r, rc)], L.alt, kids(p, L, rc, l, k, r)))
}
// ---- edges, descriptors, pops ----
pub open spec fn ge(p: gllParser, H: HB, v: int, u: int) -> gssEdge { gssEdge { w: nd(p, prev(H[v].ret), H[u].pos, H[v].pos, H[v].rc), to: u } }
pub open spec fn edge_ok(p: gllParser, H: HB, v: int, e: gssEdge) -> bool {
  let sg = p.sg->Some_0; let x = H[v]; let u = e.to;
  bn(p, H, u) && cal_nt(sg, H[u]) == x.ret.nt && cal_rc(sg, H[u]) == x.rc && H[u].pos <= x.pos && DP(sg, p.input, x.ret.nt, x.ret.alt, x.rc, x.ret.dot - 1, H[u].pos, x.pos)
  && hn(p, prev(x.ret), H[u].pos, x.pos, x.rc) && e == ge(p, H, v, u)
}
pub open spec fn ds(p: gllParser, H: HB, L: slot, u: int, i: int, rc: int) -> descriptor { descriptor { L: L, u: u, i: i, w: nd(p, L, H[u].pos, i, rc), rc: rc } }
pub open spec fn desc_ok(p: gllParser, H: HB, d: descriptor) -> bool {
  let sg = p.sg->Some_0;
  bn(p, H, d.u) && slot_ok(sg, d.L) && d.L.nt == cal_nt(sg, H[d.u]) && d.rc == cal_rc(sg, H[d.u]) && allowed(sg, d.L.nt, d.rc, d.L.alt)
  && H[d.u].pos <= d.i <= p.input.len() && DP(sg, p.input, d.L.nt, d.L.alt, d.rc, d.L.dot, H[d.u].pos, d.i)
  && hn(p, d.L, H[d.u].pos, d.i, d.rc) && d == ds(p, H, d.L, d.u, d.i, d.rc)
}
pub open spec fn pkey(p: gllParser, H: HB, v: int, j: int) -> nodeKey { syk(cal_nt(p.sg->Some_0, H[v]), H[v].pos, j, cal_rc(p.sg->Some_0, H[v])) }
pub open spec fn pop_ok(p: gllParser, H: HB, N: NB, v: int, z: int) -> bool {
  bn(p, H, v) && H[v].pos <= N[z].End <= p.input.len() && p.nodes.contains_key(pkey(p, H, v, N[z].End)) && p.nodes[pkey(p, H, v, N[z].End)] == z
  && DS(p.sg->Some_0, p.input, cal_nt(p.sg->Some_0, H[v]), cal_rc(p.sg->Some_0, H[v]), H[v].pos, N[z].End)
}
pub open spec fn started(p: gllParser, nt: int, rc: int, v: int, i: int) -> bool {
  forall|ai: int| 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len() && allowed(p.sg->Some_0, nt, rc, ai) ==> p.seen.contains_key(descriptor { L: #[trigger] sl(nt, ai, 0), u: v, i: i, w: 0, rc: rc })
}
pub open spec fn popd(p: gllParser, v: int, z: int) -> bool { p.popped.contains_key(v) && p.popped[v].contains_key(z) }
// a returning edge was followed
pub open spec fn followed(p: gllParser, H: HB, N: NB, v: int, u: int, j: int) -> bool { rec(p, N, H[v].ret, H[u].pos, H[v].pos, j, H[v].rc) && p.seen.contains_key(ds(p, H, H[v].ret, u, j, H[v].rc)) }
pub open spec fn noted(p: gllParser, i: int, s: ssym) -> bool { i < p.maxPos || (i == p.maxPos && p.expected.contains(stext(s))) }
pub open spec fn exp_ok(p: gllParser) -> bool {
  0 <= p.maxPos && (forall|i: int| 0 <= i < p.expected.len() ==> vfail(p.sg->Some_0, p.input, p.maxPos, #[trigger] p.expected[i]))
  && (p.maxPos > 0 ==> p.expected.len() > 0) && p.expected.no_duplicates()
  && (forall|x: Seq<int>| #[trigger] p.expectedSeen.contains_key(x) ==> p.expectedSeen[x]) && (forall|x: Seq<int>| #[trigger] p.expectedSeen.contains_key(x) <==> p.expected.contains(x))
}
pub open spec fn gll_ok0(p: gllParser, H: HB, N: NB) -> bool {
  p.sg is Some && sg_ok(p.sg->Some_0) && bn(p, H, p.u0) && H[p.u0].ret.nt == -1
  && (forall|k: gssKey| #[trigger] p.gss.contains_key(k) ==> bn(p, H, p.gss[k]) && p.gss[k] != p.u0 && key_of(H[p.gss[k]]) == k)
  && (forall|v: int, e: int| bn(p, H, v) && 0 <= e < H[v].edges.len() ==> edge_ok(p, H, v, #[trigger] H[v].edges[e]))
  && (forall|v: int, e: gssEdge| bn(p, H, v) && #[trigger] H[v].edgeSet.contains_key(e) ==> H[v].edgeSet[e] && H[v].edges.contains(e))
  && (forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> p.seen[d] && desc_ok(p, H, d))
  && (forall|q: int| 0 <= q < p.work.len() ==> p.seen.contains_key(#[trigger] p.work[q]))
  && (forall|v: int, z: int| #[trigger] popd(p, v, z) ==> pop_ok(p, H, N, v, z))
  && (forall|v: int| #[trigger] p.popped.contains_key(v) ==> bn(p, H, v))
  && nodes_ok(p, N) && exp_ok(p)
  && (p.maxNodes > 0 && !p.aborted ==> p.nodes.len() <= p.maxNodes)
}
pub open spec fn gll_ok(p: gllParser, H: HB, N: NB) -> bool {
  gll_ok0(p, H, N)
  && (forall|v: int, e: int, z: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, z) ==> followed(p, H, N, v, (#[trigger] H[v].edges[e]).to, N[z].End))
}
// ---- the state only grows ----
pub open spec fn extN(N: NB, M: NB) -> bool {
  forall|v: int| #[trigger] N.contains_key(v) ==> M.contains_key(v) && M[v].kind == N[v].kind && M[v].nt == N[v].nt && M[v].Start == N[v].Start && M[v].End == N[v].End
    && N[v].packs.len() <= M[v].packs.len() && (forall|i: int| 0 <= i < N[v].packs.len() ==> #[trigger] M[v].packs[i] == N[v].packs[i]) && N[v].packAlts.len() <= M[v].packAlts.len() && (forall|i: int| 0 <= i < N[v].packAlts.len() ==> #[trigger] M[v].packAlts[i] == N[v].packAlts[i])
}
pub open spec fn extH(u0: int, H: HB, G: HB) -> bool {
  forall|v: int| #[trigger] H.contains_key(v) ==> G.contains_key(v) && G[v].ret == H[v].ret && G[v].pos == H[v].pos && G[v].rc == H[v].rc && (v == u0 ==> G[v].edges == H[v].edges)
    && H[v].edges.len() <= G[v].edges.len() && (forall|i: int| 0 <= i < H[v].edges.len() ==> #[trigger] G[v].edges[i] == H[v].edges[i])
}
pub open spec fn extp(p: gllParser, q: gllParser) -> bool {
  q.sg == p.sg && q.input == p.input && q.u0 == p.u0 && q.maxNodes == p.maxNodes && (p.aborted ==> q.aborted)
  && (forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> q.seen.contains_key(d))
  && (forall|k: nodeKey| #[trigger] p.nodes.contains_key(k) ==> q.nodes.contains_key(k) && q.nodes[k] == p.nodes[k])
  && (forall|k: gssKey| #[trigger] p.gss.contains_key(k) ==> q.gss.contains_key(k) && q.gss[k] == p.gss[k])
  && (forall|v: int, j: int| #[trigger] popd(p, v, j) ==> popd(q, v, j))
  && p.maxPos <= q.maxPos && (p.maxPos == q.maxPos ==> forall|x: Seq<int>| #[trigger] p.expected.contains(x) ==> q.expected.contains(x))
}
pub open spec fn extw(p: gllParser, q: gllParser) -> bool {
  (forall|d: descriptor| #[trigger] q.seen.contains_key(d) ==> p.seen.contains_key(d) || q.work.contains(d))
  && (forall|d: descriptor| #[trigger] p.work.contains(d) ==> q.work.contains(d))
}
pub open spec fn extd(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB) -> bool { extp(p, q) && extH(p.u0, H, G) && extN(N, M) }
pub open spec fn ext(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB) -> bool { extd(p, H, N, q, G, M) && extw(p, q) }
pub proof fn ext_refl(p: gllParser, H: HB, N: NB) ensures ext(p, H, N, p, H, N) {}
pub proof fn ext_trans(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, r: gllParser, F: HB, L: NB)
  requires ext(p, H, N, q, G, M), ext(q, G, M, r, F, L), ensures ext(p, H, N, r, F, L),
{
  extN_trans(N, M, L); extH_trans(p.u0, H, G, F);
}
pub proof fn extN_trans(N: NB, M: NB, L: NB) requires extN(N, M), extN(M, L), ensures extN(N, L)
{
  assert forall|v: int| #[trigger] N.contains_key(v) implies L.contains_key(v) && L[v].kind == N[v].kind && L[v].nt == N[v].nt && L[v].Start == N[v].Start && L[v].End == N[v].End
    && N[v].packs.len() <= L[v].packs.len() && (forall|i: int| 0 <= i < N[v].packs.len() ==> #[trigger] L[v].packs[i] == N[v].packs[i]) && N[v].packAlts.len() <= L[v].packAlts.len() && (forall|i: int| 0 <= i < N[v].packAlts.len() ==> #[trigger] L[v].packAlts[i] == N[v].packAlts[i]) by {
    assert(M.contains_key(v));
  }
}
pub proof fn extH_trans(u0: int, H: HB, G: HB, F: HB) requires extH(u0, H, G), extH(u0, G, F), ensures extH(u0, H, F) {
  assert forall|v: int| #[trigger] H.contains_key(v) implies F.contains_key(v) && F[v].ret == H[v].ret && F[v].pos == H[v].pos && F[v].rc == H[v].rc && (v == u0 ==> F[v].edges == H[v].edges)
    && H[v].edges.len() <= F[v].edges.len() && (forall|i: int| 0 <= i < H[v].edges.len() ==> #[trigger] F[v].edges[i] == H[v].edges[i]) by { assert(G.contains_key(v)); }
}
// facts about old items survive growth
pub proof fn mono_bn(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB)
  requires extd(p, H, N, q, G, M), ensures forall|v: int| #[trigger] bn(p, H, v) ==> bn(q, G, v),
{ assert forall|v: int| #[trigger] bn(p, H, v) implies bn(q, G, v) by { assert(H.contains_key(v)); if v != p.u0 { assert(p.gss.contains_key(key_of(H[v]))); } } }
pub proof fn mono_edge(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, v: int, e: gssEdge)
  requires extd(p, H, N, q, G, M), bn(p, H, v), edge_ok(p, H, v, e), ensures edge_ok(q, G, v, e),
{ mono_bn(p, H, N, q, G, M); assert(H.contains_key(v)); assert(H.contains_key(e.to)); assert(bn(q, G, e.to)); }
pub proof fn mono_desc(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, d: descriptor)
  requires extd(p, H, N, q, G, M), desc_ok(p, H, d), ensures desc_ok(q, G, d), ds(p, H, d.L, d.u, d.i, d.rc) == ds(q, G, d.L, d.u, d.i, d.rc),
{ mono_bn(p, H, N, q, G, M); assert(H.contains_key(d.u)); assert(bn(q, G, d.u)); }
pub proof fn mono_pop(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, v: int, z: int)
  requires extd(p, H, N, q, G, M), nodes_in(p, N), pop_ok(p, H, N, v, z), ensures pop_ok(q, G, M, v, z), M[z].End == N[z].End,
{ mono_bn(p, H, N, q, G, M); assert(H.contains_key(v)); assert(bn(q, G, v)); assert(node_is(p, N, pkey(p, H, v, N[z].End))); assert(N.contains_key(z)); }
pub proof fn mono_pack(p: gllParser, N: NB, q: gllParser, k: nodeKey, alt: int, c: Seq<int>)
  requires extp(p, q), pack_ok(p, k, alt, c), ensures pack_ok(q, k, alt, c),
{ let m = choose|m: int| #[trigger] pack_is(p, k, alt, c, m); assert(pack_is(q, k, alt, c, m)); }
pub proof fn mono_rec(p: gllParser, N: NB, q: gllParser, M: NB, L: slot, l: int, k: int, r: int, rc: int)
  requires extp(p, q), extN(N, M), nodes_in(p, N), rec(p, N, L, l, k, r, rc), L.dot >= 1, ensures rec(q, M, L, l, k, r, rc),
{
  if keeps(p.sg->Some_0, L) {
    let y = nd(p, L, l, r, rc); assert(node_is(p, N, nkey(p.sg->Some_0, L, l, r, rc)));
    let c = kids(p, L, rc, l, k, r); let i = choose|i: int| 0 <= i < N[y].packs.len() && #[trigger] N[y].packs[i] == c && N[y].packAlts[i] == L.alt;
    assert(N.contains_key(y)); assert(M[y].packs[i] == N[y].packs[i]); assert(kids(q, L, rc, l, k, r) == c);
    assert(has_pack(M[y], L.alt, c));
  }
}
pub proof fn mono_fol(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, v: int, u: int, j: int)
  requires extd(p, H, N, q, G, M), nodes_in(p, N), bn(p, H, v), bn(p, H, u), v != p.u0, followed(p, H, N, v, u, j), forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> desc_ok(p, H, d), ensures followed(q, G, M, v, u, j),
{
  assert(H.contains_key(v)); assert(H.contains_key(u));
  mono_rec(p, N, q, M, H[v].ret, H[u].pos, H[v].pos, j, H[v].rc);
  let d = ds(p, H, H[v].ret, u, j, H[v].rc); assert(p.seen.contains_key(d)); mono_desc(p, H, N, q, G, M, d);
}
pub proof fn mono_started(p: gllParser, q: gllParser, nt: int, rc: int, v: int, i: int)
  requires extp(p, q), started(p, nt, rc, v, i), ensures started(q, nt, rc, v, i),
{
  assert forall|ai: int| 0 <= ai < sg_nt(q.sg->Some_0, nt).alts.len() && allowed(q.sg->Some_0, nt, rc, ai) implies q.seen.contains_key(descriptor { L: #[trigger] sl(nt, ai, 0), u: v, i: i, w: 0, rc: rc }) by { assert(p.seen.contains_key(descriptor { L: sl(nt, ai, 0), u: v, i: i, w: 0, rc: rc })); }
}
// all the parts of ok0 that concern old items
pub proof fn carry(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB)
  requires gll_ok0(p, H, N), extd(p, H, N, q, G, M),
  ensures bn(q, G, q.u0), G[q.u0].ret.nt == -1,
    forall|v: int| #[trigger] bn(p, H, v) ==> bn(q, G, v),
    forall|k: gssKey| #[trigger] p.gss.contains_key(k) ==> bn(q, G, p.gss[k]) && p.gss[k] != q.u0 && key_of(G[p.gss[k]]) == k,
    forall|v: int, e: int| bn(p, H, v) && 0 <= e < H[v].edges.len() ==> edge_ok(q, G, v, #[trigger] H[v].edges[e]),
    forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> p.seen[d] && desc_ok(q, G, d),
    forall|v: int, z: int| #[trigger] popd(p, v, z) ==> pop_ok(q, G, M, v, z) && M[z].End == N[z].End,
    forall|v: int| #[trigger] p.popped.contains_key(v) ==> bn(q, G, v),
    forall|k: nodeKey, i: int| #[trigger] p.nodes.contains_key(k) && 0 <= i < N[p.nodes[k]].packs.len() ==> pack_ok(q, k, N[p.nodes[k]].packAlts[i], #[trigger] N[p.nodes[k]].packs[i]),
    forall|k: nodeKey| #[trigger] p.nodes.contains_key(k) && k.kind != 2 ==> M[p.nodes[k]].packs.len() > 0,
{
  mono_bn(p, H, N, q, G, M);
  assert(bn(p, H, p.u0)); assert(H.contains_key(p.u0));
  assert forall|k: gssKey| #[trigger] p.gss.contains_key(k) implies bn(q, G, p.gss[k]) && p.gss[k] != q.u0 && key_of(G[p.gss[k]]) == k by { assert(bn(p, H, p.gss[k])); assert(H.contains_key(p.gss[k])); }
  assert forall|v: int, e: int| bn(p, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, G, v, #[trigger] H[v].edges[e]) by { mono_edge(p, H, N, q, G, M, v, H[v].edges[e]); }
  assert forall|d: descriptor| #[trigger] p.seen.contains_key(d) implies p.seen[d] && desc_ok(q, G, d) by { mono_desc(p, H, N, q, G, M, d); }
  assert forall|v: int, z: int| #[trigger] popd(p, v, z) implies pop_ok(q, G, M, v, z) && M[z].End == N[z].End by { mono_pop(p, H, N, q, G, M, v, z); }
  assert forall|v: int| #[trigger] p.popped.contains_key(v) implies bn(q, G, v) by { assert(bn(p, H, v)); }
  assert forall|k: nodeKey, i: int| #[trigger] p.nodes.contains_key(k) && 0 <= i < N[p.nodes[k]].packs.len() implies pack_ok(q, k, N[p.nodes[k]].packAlts[i], #[trigger] N[p.nodes[k]].packs[i]) by { mono_pack(p, N, q, k, N[p.nodes[k]].packAlts[i], N[p.nodes[k]].packs[i]); }
  assert forall|k: nodeKey| #[trigger] p.nodes.contains_key(k) && k.kind != 2 implies M[p.nodes[k]].packs.len() > 0 by { assert(node_is(p, N, k)); assert(N.contains_key(p.nodes[k])); }
}
// the returning edges stay followed
pub proof fn carry_fol(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB)
  requires gll_ok0(p, H, N), extd(p, H, N, q, G, M),
  ensures forall|v: int, u: int, j: int| bn(p, H, v) && v != p.u0 && bn(p, H, u) && #[trigger] followed(p, H, N, v, u, j) ==> followed(q, G, M, v, u, j),
{
  assert forall|v: int, u: int, j: int| bn(p, H, v) && v != p.u0 && bn(p, H, u) && #[trigger] followed(p, H, N, v, u, j) implies followed(q, G, M, v, u, j) by { mono_fol(p, H, N, q, G, M, v, u, j); }
}
pub proof fn add_step(p: gllParser, H: HB, N: NB, d: descriptor, q: gllParser)
  requires gll_ok0(p, H, N), desc_ok(p, H, d), q == (gllParser { seen: p.seen.insert(d, true), work: p.work.push(d), ..p }),
  ensures gll_ok0(q, H, N), ext(p, H, N, q, H, N),
{
  let w = q.work;
  assert(w[w.len() - 1] == d); assert(w.contains(d));
  assert forall|x: descriptor| #[trigger] p.work.contains(x) implies w.contains(x) by { let i = choose|i: int| 0 <= i < p.work.len() && p.work[i] == x; assert(w[i] == x); }
  assert(extN(N, N)); assert(extH(p.u0, H, H)); assert(extp(p, q));
  carry(p, H, N, q, H, N); mono_desc(p, H, N, q, H, N, d);
  assert forall|i: int| 0 <= i < w.len() implies q.seen.contains_key(#[trigger] w[i]) by { if i < p.work.len() { assert(w[i] == p.work[i]); } }
  assert forall|v: int, z: int| #[trigger] popd(q, v, z) implies pop_ok(q, H, N, v, z) by { assert(popd(p, v, z)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, e: gssEdge| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(e) implies H[v].edgeSet[e] && H[v].edges.contains(e) by { assert(bn(p, H, v)); }
  assert(nodes_in(q, N)) by { assert forall|k: nodeKey| #[trigger] q.nodes.contains_key(k) implies node_is(q, N, k) by { assert(node_is(p, N, k)); } }
}
// the forest part alone changed
pub proof fn node_step(p: gllParser, H: HB, N: NB, q: gllParser, M: NB)
  requires gll_ok0(p, H, N), extp(p, q), extN(N, M), q == (gllParser { nodes: q.nodes, aborted: q.aborted, ..p }), nodes_ok(q, M), q.maxNodes > 0 && !q.aborted ==> q.nodes.len() <= q.maxNodes,
  ensures gll_ok0(q, H, M), ext(p, H, N, q, H, M),
{
  assert(extH(p.u0, H, H));
  carry(p, H, N, q, H, M);
  assert forall|v: int, z: int| #[trigger] popd(q, v, z) implies pop_ok(q, H, M, v, z) by { assert(popd(p, v, z)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, e: gssEdge| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(e) implies H[v].edgeSet[e] && H[v].edges.contains(e) by { assert(bn(p, H, v)); }
}
// what findNode leaves: key k is there, everything else as before
pub open spec fn found(p: gllParser, N: NB, k: nodeKey, q: gllParser, M: NB, v: int) -> bool {
  q == (gllParser { nodes: q.nodes, aborted: q.aborted, ..p })
  && (if p.nodes.contains_key(k) { q.nodes == p.nodes && q.aborted == p.aborted && M == N && v == p.nodes[k] }
      else { v != 0 && !N.contains_key(v) && q.nodes == p.nodes.insert(k, v) && q.aborted == (p.aborted || (p.maxNodes > 0 && p.nodes.len() >= p.maxNodes))
        && M == N.insert(v, gnode { kind: k.kind, nt: k.nt, Start: k.start, End: k.end, packs: Seq::empty(), packAlts: Seq::empty() }) })
}
pub proof fn found_in(p: gllParser, N: NB, k: nodeKey, q: gllParser, M: NB, v: int)
  requires nodes_ok(p, N), found(p, N, k, q, M, v), p.maxNodes > 0 && !p.aborted ==> p.nodes.len() <= p.maxNodes,
  ensures extp(p, q), extN(N, M), nodes_in(q, M), q.nodes.contains_key(k), q.nodes[k] == v, q.maxNodes > 0 && !q.aborted ==> q.nodes.len() <= q.maxNodes,
    forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) && o != k ==> p.nodes.contains_key(o) && M[q.nodes[o]] == N[p.nodes[o]],
    p.nodes.contains_key(k) ==> nodes_ok(q, M), (!p.nodes.contains_key(k) && k.kind == 2 ==> nodes_ok(q, M)),
    p.nodes.contains_key(k) ==> M[v] == N[v],
    !p.nodes.contains_key(k) ==> M[v].packs.len() == 0,
{
  assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) implies node_is(q, M, o) by { if o != k || p.nodes.contains_key(k) { assert(node_is(p, N, o)); } }
  assert forall|a: nodeKey, b: nodeKey| #[trigger] q.nodes.contains_key(a) && #[trigger] q.nodes.contains_key(b) && q.nodes[a] == q.nodes[b] implies a == b by {
    if a != k || p.nodes.contains_key(k) { assert(p.nodes.contains_key(a)); assert(node_is(p, N, a)); }
    if b != k || p.nodes.contains_key(k) { assert(p.nodes.contains_key(b)); assert(node_is(p, N, b)); }
  }
  assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) && o != k implies p.nodes.contains_key(o) && M[q.nodes[o]] == N[p.nodes[o]] by { assert(p.nodes.contains_key(o)); assert(node_is(p, N, o)); }
  assert(extp(p, q));
  if p.nodes.contains_key(k) || k.kind == 2 {
    assert forall|o: nodeKey, i: int| #[trigger] q.nodes.contains_key(o) && 0 <= i < M[q.nodes[o]].packs.len() implies pack_ok(q, o, M[q.nodes[o]].packAlts[i], #[trigger] M[q.nodes[o]].packs[i]) by {
      assert(o != k || p.nodes.contains_key(k)); assert(p.nodes.contains_key(o)); assert(node_is(p, N, o)); assert(M[q.nodes[o]] == N[p.nodes[o]]);
      mono_pack(p, N, q, o, N[p.nodes[o]].packAlts[i], N[p.nodes[o]].packs[i]);
    }
    assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) && o.kind != 2 implies M[q.nodes[o]].packs.len() > 0 by { assert(p.nodes.contains_key(o)); assert(node_is(p, N, o)); }
  }
}
// what addPack leaves
pub open spec fn packed(x: gnode, alt: int, c: Seq<int>, y: gnode) -> bool {
  if has_pack(x, alt, c) { y == x } else { y == (gnode { packs: x.packs.push(c), packAlts: x.packAlts.push(alt), ..x }) }
}
pub open spec fn gp_l(N: NB, w: int, z: int) -> int { if w == 0 { N[z].Start } else { N[w].Start } }
pub open spec fn gp_ok(p: gllParser, N: NB, L: slot, w: int, z: int, rc: int) -> bool {
  let l = gp_l(N, w, z); let k = N[z].Start; let r = N[z].End; let sg = p.sg->Some_0;
  split_ok(sg, p.input, L, rc, l, k, r) && hkids(p, L, rc, l, k, r) && w == nd(p, prev(L), l, k, rc) && z == p.nodes[skey(lsym(sg, L), lrc(sg, L, rc), k, r)] && (L.dot == 1 ==> l == k)
}
pub proof fn pack_step(p: gllParser, N: NB, L: slot, w: int, z: int, rc: int, q: gllParser, M1: NB, y: int, M: NB)
  requires nodes_ok(p, N), p.sg is Some, gp_ok(p, N, L, w, z, rc), keeps(p.sg->Some_0, L), found(p, N, nkey(p.sg->Some_0, L, gp_l(N, w, z), N[z].End, rc), q, M1, y), p.maxNodes > 0 && !p.aborted ==> p.nodes.len() <= p.maxNodes,
    M == M1.insert(y, M[y]), packed(M1[y], L.alt, if w == 0 { seq![z] } else { seq![w, z] }, M[y]),
  ensures extp(p, q), extN(N, M), nodes_ok(q, M), q.maxNodes > 0 && !q.aborted ==> q.nodes.len() <= q.maxNodes, rec(q, M, L, gp_l(N, w, z), N[z].Start, N[z].End, rc), y == nd(q, L, gp_l(N, w, z), N[z].End, rc),
{
  let sg = p.sg->Some_0; let l = gp_l(N, w, z); let k = N[z].Start; let r = N[z].End; let key = nkey(sg, L, l, r, rc);
  let c = if w == 0 { seq![z] } else { seq![w, z] };
  found_in(p, N, key, q, M1, y);
  let X = M1[y]; let Y = M[y];
  assert(node_is(q, M1, key));
  if L.dot >= 2 { assert(p.nodes.contains_key(nkey(sg, prev(L), l, k, rc))); assert(node_is(p, N, nkey(sg, prev(L), l, k, rc))); assert(w != 0); }
  assert(prev(L).dot == L.dot - 1);
  assert(c == kids(q, L, rc, l, k, r)) by { assert(kids(q, L, rc, l, k, r) =~= c); }
  assert(kslot(sg, key, L.alt) == L);
  assert(pack_is(q, key, L.alt, c, k)); assert(pack_ok(q, key, L.alt, c));
  assert(pks_ok(Y)) by { if !has_pack(X, L.alt, c) { assert forall|i: int, j: int| 0 <= i < j < Y.packs.len() implies !(#[trigger] Y.packs[i] == #[trigger] Y.packs[j] && Y.packAlts[i] == Y.packAlts[j]) by { if j < X.packs.len() { assert(X.packs[i] == Y.packs[i] && X.packs[j] == Y.packs[j]); } else { assert(X.packs[i] == Y.packs[i]); } } } }
  assert(has_pack(Y, L.alt, c)) by { if !has_pack(X, L.alt, c) { let n = X.packs.len() as int; assert(Y.packs[n] == c && Y.packAlts[n] == L.alt); } }
  assert(extN(M1, M)); extN_trans(N, M1, M);
  assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) implies node_is(q, M, o) by { assert(node_is(q, M1, o)); if o != key { assert(q.nodes[o] != y); } }
  assert forall|o: nodeKey, i: int| #[trigger] q.nodes.contains_key(o) && 0 <= i < M[q.nodes[o]].packs.len() implies pack_ok(q, o, M[q.nodes[o]].packAlts[i], #[trigger] M[q.nodes[o]].packs[i]) by {
    if o != key { assert(q.nodes[o] != y); assert(p.nodes.contains_key(o)); assert(M[q.nodes[o]] == N[p.nodes[o]]); mono_pack(p, N, q, o, N[p.nodes[o]].packAlts[i], N[p.nodes[o]].packs[i]); }
    else if i < X.packs.len() { assert(p.nodes.contains_key(o)); assert(X == N[p.nodes[o]]); assert(Y.packs[i] == X.packs[i] && Y.packAlts[i] == X.packAlts[i]); mono_pack(p, N, q, o, N[p.nodes[o]].packAlts[i], N[p.nodes[o]].packs[i]); }
  }
  assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) && o.kind != 2 implies M[q.nodes[o]].packs.len() > 0 by { if o != key { assert(q.nodes[o] != y); assert(p.nodes.contains_key(o)); } }
}
pub proof fn gss_step(p: gllParser, H: HB, N: NB, k: gssKey, v: int, x: gssNode, q: gllParser, G: HB)
  requires gll_ok(p, H, N), !p.gss.contains_key(k), ret_ok(p.sg->Some_0, p.input, k.ret, k.pos, k.rc), v != 0, !H.contains_key(v),
    key_of(x) == k, x.edges.len() == 0, x.edgeSet =~= Map::<gssEdge, bool>::empty(), q == (gllParser { gss: p.gss.insert(k, v), ..p }), G == H.insert(v, x),
  ensures gll_ok(q, G, N), ext(p, H, N, q, G, N), bn(q, G, v), v != p.u0,
{
  assert(H.contains_key(p.u0));
  assert(extN(N, N)); assert(extp(p, q)); assert(extH(p.u0, H, G)); 
  carry(p, H, N, q, G, N); carry_fol(p, H, N, q, G, N);
  assert forall|w: int| #[trigger] bn(q, G, w) && w != v implies bn(p, H, w) && G[w] == H[w] by { assert(G[w] == H[w]); if w != p.u0 { assert(key_of(G[w]) != k); } }
  assert(bn(q, G, v));
  assert forall|l: gssKey| #[trigger] q.gss.contains_key(l) implies bn(q, G, q.gss[l]) && q.gss[l] != q.u0 && key_of(G[q.gss[l]]) == l by { if l != k { assert(p.gss.contains_key(l)); } }
  assert forall|w: int, e: int| bn(q, G, w) && 0 <= e < G[w].edges.len() implies edge_ok(q, G, w, #[trigger] G[w].edges[e]) by { assert(w != v); assert(bn(p, H, w)); assert(H[w].edges[e] == G[w].edges[e]); }
  assert forall|w: int, u: gssEdge| bn(q, G, w) && #[trigger] G[w].edgeSet.contains_key(u) implies G[w].edgeSet[u] && G[w].edges.contains(u) by { assert(w != v); assert(bn(p, H, w)); assert(H[w].edgeSet.contains_key(u)); }
  assert forall|i: int| 0 <= i < q.work.len() implies q.seen.contains_key(#[trigger] q.work[i]) by { assert(p.seen.contains_key(p.work[i])); }
  assert forall|w: int, j: int| #[trigger] popd(q, w, j) implies pop_ok(q, G, N, w, j) by { assert(popd(p, w, j)); }
  assert(nodes_ok(q, N)) by { assert(nodes_in(q, N)) by { assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) implies node_is(q, N, o) by { assert(node_is(p, N, o)); } } }
  assert forall|w: int, e: int, z: int| bn(q, G, w) && 0 <= e < G[w].edges.len() && #[trigger] popd(q, w, z) implies followed(q, G, N, w, (#[trigger] G[w].edges[e]).to, N[z].End) by {
    assert(w != v); assert(bn(p, H, w)); assert(popd(p, w, z)); assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, N, w, H[w].edges[e].to, N[z].End));
  }
}
// all edges are followed for all pops, except edge m of v0 for the nodes outside D
pub open spec fn c2_edge(p: gllParser, H: HB, N: NB, v0: int, m: int, D: Set<int>) -> bool {
  forall|v: int, e: int, z: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, z) && !(v == v0 && e == m && !D.contains(z)) ==> followed(p, H, N, v, (#[trigger] H[v].edges[e]).to, N[z].End)
}
pub open spec fn c2_pop(p: gllParser, H: HB, N: NB, u0: int, z0: int, n: int) -> bool {
  forall|v: int, e: int, z: int| bn(p, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(p, v, z) && !(v == u0 && z == z0 && e >= n) ==> followed(p, H, N, v, (#[trigger] H[v].edges[e]).to, N[z].End)
}
pub proof fn edge_step(p: gllParser, H: HB, N: NB, v: int, e: gssEdge, G: HB)
  requires gll_ok(p, H, N), bn(p, H, v), v != p.u0, edge_ok(p, H, v, e), G == H.insert(v, gssNode { edges: H[v].edges.push(e), edgeSet: H[v].edgeSet.insert(e, true), ..H[v] }),
  ensures gll_ok0(p, G, N), ext(p, H, N, p, G, N), c2_edge(p, G, N, v, H[v].edges.len() as int, Set::empty()), bn(p, G, v), edge_ok(p, G, v, e), G[v].edges.contains(e),
{
  let es = G[v].edges; let n = H[v].edges.len() as int;
  assert(es[n] == e); assert(es.contains(e));
  assert(extN(N, N)); assert(extp(p, p)); assert(extH(p.u0, H, G));
  carry(p, H, N, p, G, N); carry_fol(p, H, N, p, G, N); mono_edge(p, H, N, p, G, N, v, e);
  assert forall|w: int| #[trigger] bn(p, H, w) == bn(p, G, w) by {}
  assert forall|w: int, i: int| bn(p, G, w) && 0 <= i < G[w].edges.len() implies edge_ok(p, G, w, #[trigger] G[w].edges[i]) by { assert(bn(p, H, w)); if w == v && i == n {} else { assert(G[w].edges[i] == H[w].edges[i]); } }
  assert forall|w: int, x: gssEdge| bn(p, G, w) && #[trigger] G[w].edgeSet.contains_key(x) implies G[w].edgeSet[x] && G[w].edges.contains(x) by {
    assert(bn(p, H, w));
    if w == v { if x != e { assert(H[v].edgeSet.contains_key(x)); let i = choose|i: int| 0 <= i < n && H[v].edges[i] == x; assert(es[i] == x); } } else { assert(H[w].edgeSet.contains_key(x)); }
  }
  assert forall|k: gssKey| #[trigger] p.gss.contains_key(k) implies bn(p, G, p.gss[k]) && p.gss[k] != p.u0 && key_of(G[p.gss[k]]) == k by { }
  assert forall|w: int, i: int, z: int| bn(p, G, w) && 0 <= i < G[w].edges.len() && #[trigger] popd(p, w, z) && !(w == v && i == n && !Set::<int>::empty().contains(z)) implies followed(p, G, N, w, (#[trigger] G[w].edges[i]).to, N[z].End) by {
    assert(bn(p, H, w)); assert(G[w].edges[i] == H[w].edges[i]); assert(edge_ok(p, H, w, H[w].edges[i])); assert(followed(p, H, N, w, H[w].edges[i].to, N[z].End));
  }
}
pub proof fn c2_edge_step(p: gllParser, H: HB, N: NB, v: int, m: int, D: Set<int>, q: gllParser, M: NB, z0: int)
  requires gll_ok0(p, H, N), gll_ok0(q, H, M), ext(p, H, N, q, H, M), c2_edge(p, H, N, v, m, D), q.popped == p.popped, q.gss == p.gss, 0 <= m < H[v].edges.len(), followed(q, H, M, v, H[v].edges[m].to, M[z0].End),
  ensures c2_edge(q, H, M, v, m, D.insert(z0)),
{
  carry(p, H, N, q, H, M); carry_fol(p, H, N, q, H, M);
  assert forall|w: int, e: int, z: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, z) && !(w == v && e == m && !D.insert(z0).contains(z)) implies followed(q, H, M, w, (#[trigger] H[w].edges[e]).to, M[z].End) by {
    assert(popd(p, w, z)); assert(bn(p, H, w));
    if w == v && e == m && z == z0 {} else { assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, N, w, H[w].edges[e].to, N[z].End)); }
  }
}
pub proof fn c2_pop_step(p: gllParser, H: HB, N: NB, u: int, z0: int, n: int, q: gllParser, M: NB)
  requires gll_ok0(p, H, N), gll_ok0(q, H, M), ext(p, H, N, q, H, M), c2_pop(p, H, N, u, z0, n), q.popped == p.popped, q.gss == p.gss, 0 <= n < H[u].edges.len(), followed(q, H, M, u, H[u].edges[n].to, M[z0].End),
  ensures c2_pop(q, H, M, u, z0, n + 1),
{
  carry(p, H, N, q, H, M); carry_fol(p, H, N, q, H, M);
  assert forall|w: int, e: int, z: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, z) && !(w == u && z == z0 && e >= n + 1) implies followed(q, H, M, w, (#[trigger] H[w].edges[e]).to, M[z].End) by {
    assert(popd(p, w, z)); assert(bn(p, H, w));
    if w == u && z == z0 && e == n {} else { assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, N, w, H[w].edges[e].to, N[z].End)); }
  }
}
pub proof fn ok_keep(p: gllParser, H: HB, N: NB, q: gllParser, M: NB)
  requires gll_ok(p, H, N), gll_ok0(q, H, M), ext(p, H, N, q, H, M), q.popped == p.popped, q.gss == p.gss,
  ensures gll_ok(q, H, M),
{
  carry(p, H, N, q, H, M); carry_fol(p, H, N, q, H, M);
  assert forall|w: int, e: int, z: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, z) implies followed(q, H, M, w, (#[trigger] H[w].edges[e]).to, M[z].End) by {
    assert(popd(p, w, z)); assert(bn(p, H, w)); assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, N, w, H[w].edges[e].to, N[z].End));
  }
}
pub proof fn pop_step(p: gllParser, H: HB, N: NB, u: int, z: int, q: gllParser)
  requires gll_ok(p, H, N), pop_ok(p, H, N, u, z), u != p.u0,
    q == (gllParser { popped: q.popped, ..p }), q.popped == p.popped.insert(u, (if p.popped.contains_key(u) { p.popped[u] } else { Map::empty() }).insert(z, true)),
  ensures gll_ok0(q, H, N), ext(p, H, N, q, H, N), popd(q, u, z), c2_pop(q, H, N, u, z, 0),
{
  assert forall|v: int, i: int| #[trigger] popd(p, v, i) implies popd(q, v, i) by {}
  assert(extN(N, N)); assert(extp(p, q)); assert(extH(p.u0, H, H));
  carry(p, H, N, q, H, N); carry_fol(p, H, N, q, H, N); mono_pop(p, H, N, q, H, N, u, z);
  assert forall|v: int, i: int| #[trigger] popd(q, v, i) implies pop_ok(q, H, N, v, i) && (popd(p, v, i) || (v == u && i == z)) by { if v == u && i == z {} else { assert(popd(p, v, i)); } }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, x: gssEdge| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(x) implies H[v].edgeSet[x] && H[v].edges.contains(x) by { assert(bn(p, H, v)); }
  assert forall|v: int| #[trigger] q.popped.contains_key(v) implies bn(q, H, v) by { if v != u { assert(p.popped.contains_key(v)); } }
  assert forall|i: int| 0 <= i < q.work.len() implies q.seen.contains_key(#[trigger] q.work[i]) by { assert(p.seen.contains_key(p.work[i])); }
  assert(nodes_in(q, N)) by { assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) implies node_is(q, N, o) by { assert(node_is(p, N, o)); } }
  assert forall|w: int, e: int, i: int| bn(q, H, w) && 0 <= e < H[w].edges.len() && #[trigger] popd(q, w, i) && !(w == u && i == z && e >= 0) implies followed(q, H, N, w, (#[trigger] H[w].edges[e]).to, N[i].End) by {
    assert(popd(p, w, i)); assert(bn(p, H, w)); assert(edge_ok(p, H, w, H[w].edges[e])); assert(followed(p, H, N, w, H[w].edges[e].to, N[i].End));
  }
}
// following one edge for one popped node
pub proof fn follow_ok(p: gllParser, H: HB, N: NB, v: int, e: gssEdge, z: int)
  requires gll_ok0(p, H, N), bn(p, H, v), v != p.u0, edge_ok(p, H, v, e), pop_ok(p, H, N, v, z),
  ensures gp_ok(p, N, H[v].ret, e.w, z, H[v].rc), N[z].Start == H[v].pos, gp_l(N, e.w, z) == H[e.to].pos,
{
  let sg = p.sg->Some_0; let x = H[v]; let s = lsym(sg, x.ret); let j = N[z].End; let u = e.to;
  assert(s.kind == 0); assert(prev(x.ret).dot == x.ret.dot - 1);
  DY_nt(sg, p.input, s, crc(sg, x.ret.nt, x.rc, s), x.pos, j);
  assert(node_is(p, N, pkey(p, H, v, j)));
  if x.ret.dot == 1 { assert(e.w == 0); let h = choose|h: nat| #[trigger] spre(sg, p.input, x.ret.nt, x.ret.alt, x.rc, 0, H[u].pos, x.pos, h); }
  else { let k1 = nkey(sg, prev(x.ret), H[u].pos, x.pos, x.rc); assert(p.nodes.contains_key(k1)); assert(node_is(p, N, k1)); assert(e.w == p.nodes[k1]); assert(k1.start == H[u].pos); }
  assert(0 <= H[u].pos);
}
pub proof fn followed_desc(p: gllParser, H: HB, N: NB, v: int, e: gssEdge, z: int, q: gllParser, M: NB, y: int)
  requires gll_ok0(p, H, N), bn(p, H, v), v != p.u0, edge_ok(p, H, v, e), pop_ok(p, H, N, v, z), gll_ok0(q, H, M), ext(p, H, N, q, H, M), q == (gllParser { nodes: q.nodes, aborted: q.aborted, ..p }),
    y == nd(q, H[v].ret, H[e.to].pos, N[z].End, H[v].rc), rec(q, M, H[v].ret, H[e.to].pos, H[v].pos, N[z].End, H[v].rc),
  ensures desc_ok(q, H, descriptor { L: H[v].ret, u: e.to, i: N[z].End, w: y, rc: H[v].rc }), (descriptor { L: H[v].ret, u: e.to, i: N[z].End, w: y, rc: H[v].rc }) == ds(q, H, H[v].ret, e.to, N[z].End, H[v].rc),
{
  let sg = p.sg->Some_0; let x = H[v]; let s = lsym(sg, x.ret); let j = N[z].End; let u = e.to;
  mono_bn(p, H, N, q, H, M);
  DY_nt(sg, p.input, s, crc(sg, x.ret.nt, x.rc, s), x.pos, j);
  DP_step(sg, p.input, x.ret.nt, x.ret.alt, x.rc, x.ret.dot, H[u].pos, x.pos, j);
}
// a fresh production of the nonterminal the node stands for
pub proof fn fresh_ok(p: gllParser, H: HB, nt: int, ai: int, v: int, i: int, rc: int)
  requires p.sg is Some, sg_ok(p.sg->Some_0), bn(p, H, v), sg_has(p.sg->Some_0, nt), 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, allowed(p.sg->Some_0, nt, rc, ai), H[v].pos == i, 0 <= i <= p.input.len(),
  ensures desc_ok(p, H, descriptor { L: sl(nt, ai, 0), u: v, i: i, w: 0, rc: rc }),
{ DP_start(p.sg->Some_0, p.input, nt, ai, rc, i); }
pub proof fn bn_cx(p: gllParser, H: HB, v: int)
  requires bn(p, H, v), ensures CX(p.sg->Some_0, p.input, cal_nt(p.sg->Some_0, H[v]), cal_rc(p.sg->Some_0, H[v]), H[v].pos),
{ if v == p.u0 { assert(ctx(p.sg->Some_0, p.input, p.sg->Some_0.start, 0, 0, 0)); } else { assert(sg_has(p.sg->Some_0, H[v].ret.nt)); } }
// one terminal further
pub proof fn leaf_ok(p: gllParser, H: HB, N: NB, d: descriptor, j: int, cr: int)
  requires gll_ok0(p, H, N), desc_ok(p, H, d), d.L.dot < sprod(p.sg->Some_0, d.L.nt, d.L.alt).len(), sprod(p.sg->Some_0, d.L.nt, d.L.alt)[d.L.dot].kind != 0,
    sleaf(sprod(p.sg->Some_0, d.L.nt, d.L.alt)[d.L.dot], p.input, d.i, j), d.i <= j <= p.input.len(), p.nodes.contains_key(tmk(d.i, j)), cr == p.nodes[tmk(d.i, j)],
  ensures gp_ok(p, N, sl(d.L.nt, d.L.alt, d.L.dot + 1), d.w, cr, d.rc), N[cr].Start == d.i, N[cr].End == j, gp_l(N, d.w, cr) == H[d.u].pos,
    DP(p.sg->Some_0, p.input, d.L.nt, d.L.alt, d.rc, d.L.dot + 1, H[d.u].pos, j),
{
  let sg = p.sg->Some_0; let L = d.L; let s = sprod(sg, L.nt, L.alt)[L.dot]; let nx = sl(L.nt, L.alt, L.dot + 1);
  assert(crc(sg, L.nt, d.rc, s) == 0); assert(prev(nx) == L); assert(lsym(sg, nx) == s);
  DY_leaf(sg, p.input, s, 0, d.i, j);
  assert(0 <= H[d.u].pos);
  DP_step(sg, p.input, L.nt, L.alt, d.rc, L.dot + 1, H[d.u].pos, d.i, j);
  assert(node_is(p, N, tmk(d.i, j)));
  if L.dot == 0 { let h = choose|h: nat| #[trigger] spre(sg, p.input, L.nt, L.alt, d.rc, 0, H[d.u].pos, d.i, h); }
  else { let k1 = nkey(sg, L, H[d.u].pos, d.i, d.rc); assert(p.nodes.contains_key(k1)); assert(node_is(p, N, k1)); assert(k1.start == H[d.u].pos); }
}
pub proof fn fail_ok(p: gllParser, H: HB, N: NB, d: descriptor)
  requires gll_ok0(p, H, N), desc_ok(p, H, d), d.L.dot < sprod(p.sg->Some_0, d.L.nt, d.L.alt).len(), nomatch(sprod(p.sg->Some_0, d.L.nt, d.L.alt)[d.L.dot], p.input, d.i),
  ensures vfail(p.sg->Some_0, p.input, d.i, stext(sprod(p.sg->Some_0, d.L.nt, d.L.alt)[d.L.dot])), d.i >= 0,
{ bn_cx(p, H, d.u); assert(0 <= H[d.u].pos); assert(vf(p.sg->Some_0, p.input, d.L, d.rc, H[d.u].pos, d.i)); }
pub proof fn note_step(p: gllParser, H: HB, N: NB, i: int, x: Seq<int>, q: gllParser)
  requires gll_ok0(p, H, N), vfail(p.sg->Some_0, p.input, i, x), i >= 0, q == (gllParser { maxPos: q.maxPos, expected: q.expected, expectedSeen: q.expectedSeen, ..p }),
    i < p.maxPos ==> q == p,
    i > p.maxPos ==> q.maxPos == i && q.expected =~= seq![x] && q.expectedSeen =~= Map::empty().insert(x, true),
    i == p.maxPos ==> q.maxPos == i && (if p.expectedSeen.contains_key(x) { q.expected == p.expected && q.expectedSeen == p.expectedSeen } else { q.expected == p.expected.push(x) && q.expectedSeen == p.expectedSeen.insert(x, true) }),
  ensures gll_ok0(q, H, N), ext(p, H, N, q, H, N), i < q.maxPos || (i == q.maxPos && q.expected.contains(x)),
{
  assert(extN(N, N)); assert(extH(p.u0, H, H));
  let E = p.expected; let F = q.expected;
  if i > p.maxPos { assert(F[0] == x); }
  if i == p.maxPos && !p.expectedSeen.contains_key(x) {
    assert(F[E.len() as int] == x);
    assert forall|y: Seq<int>| #[trigger] E.contains(y) implies F.contains(y) by { let a = choose|a: int| 0 <= a < E.len() && E[a] == y; assert(F[a] == y); }
    assert forall|y: Seq<int>| #[trigger] F.contains(y) implies E.contains(y) || y == x by { let a = choose|a: int| 0 <= a < F.len() && F[a] == y; if a < E.len() { assert(E[a] == y); } }
    assert(!E.contains(x));
    assert forall|a: int, b: int| 0 <= a < F.len() && 0 <= b < F.len() && a != b implies F[a] != F[b] by { if a < E.len() { assert(E.contains(E[a])); } if b < E.len() { assert(E.contains(E[b])); } }
    assert forall|a: int| 0 <= a < F.len() implies vfail(q.sg->Some_0, q.input, q.maxPos, #[trigger] F[a]) by { if a < E.len() { assert(F[a] == E[a]); } }
  }
  assert(exp_ok(q)) by {
    if i > p.maxPos { assert forall|y: Seq<int>| #[trigger] q.expectedSeen.contains_key(y) <==> F.contains(y) by { assert(F[0] == x); } }
  }
  assert(extp(p, q));
  carry(p, H, N, q, H, N);
  assert forall|v: int, z: int| #[trigger] popd(q, v, z) implies pop_ok(q, H, N, v, z) by { assert(popd(p, v, z)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, e: gssEdge| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(e) implies H[v].edgeSet[e] && H[v].edges.contains(e) by { assert(bn(p, H, v)); }
  assert(nodes_in(q, N)) by { assert forall|k: nodeKey| #[trigger] q.nodes.contains_key(k) implies node_is(q, N, k) by { assert(node_is(p, N, k)); } }
}
// the consequences of a descriptor were drawn
pub open spec fn done(p: gllParser, H: HB, N: NB, L: slot, u: int, i: int, rc: int) -> bool decreases sprod(p.sg->Some_0, L.nt, L.alt).len() - L.dot {
  let sg = p.sg->Some_0; let pr = sprod(sg, L.nt, L.alt);
  if L.dot >= pr.len() { u == p.u0 || (p.nodes.contains_key(pkey(p, H, u, i)) && popd(p, u, p.nodes[pkey(p, H, u, i)])) }
  else if pr[L.dot].kind == 0 {
    let k = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: i, rc: rc };
    p.gss.contains_key(k) && has_edge(H, p.gss[k], u) && started(p, pr[L.dot].nt, crc(sg, L.nt, rc, pr[L.dot]), p.gss[k], i)
  } else {
    (forall|j: int| #[trigger] sleaf(pr[L.dot], p.input, i, j) ==> rec(p, N, sl(L.nt, L.alt, L.dot + 1), H[u].pos, i, j, rc) && done(p, H, N, sl(L.nt, L.alt, L.dot + 1), u, j, rc))
    && (nomatch(pr[L.dot], p.input, i) ==> noted(p, i, pr[L.dot]))
  }
}
pub open spec fn has_edge(H: HB, v: int, u: int) -> bool { exists|e: int| 0 <= e < H[v].edges.len() && (#[trigger] H[v].edges[e]).to == u }
pub proof fn done_mono(p: gllParser, H: HB, N: NB, q: gllParser, G: HB, M: NB, L: slot, u: int, i: int, rc: int)
  requires extd(p, H, N, q, G, M), done(p, H, N, L, u, i, rc), bn(p, H, u), gll_ok0(p, H, N), slot_ok(p.sg->Some_0, L),
  ensures done(q, G, M, L, u, i, rc),
  decreases sprod(p.sg->Some_0, L.nt, L.alt).len() - L.dot,
{
  let sg = p.sg->Some_0; let pr = sprod(sg, L.nt, L.alt);
  assert(H.contains_key(u));
  if L.dot >= pr.len() {}
  else if pr[L.dot].kind == 0 {
    let k = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: i, rc: rc };
    let v = p.gss[k];
    assert(bn(p, H, v)); assert(H.contains_key(v));
    let e = choose|e: int| 0 <= e < H[v].edges.len() && (#[trigger] H[v].edges[e]).to == u; assert(G[v].edges[e] == H[v].edges[e]);
    mono_started(p, q, pr[L.dot].nt, crc(sg, L.nt, rc, pr[L.dot]), v, i);
  } else {
    assert forall|j: int| #[trigger] sleaf(pr[L.dot], q.input, i, j) implies rec(q, M, sl(L.nt, L.alt, L.dot + 1), G[u].pos, i, j, rc) && done(q, G, M, sl(L.nt, L.alt, L.dot + 1), u, j, rc) by {
      mono_rec(p, N, q, M, sl(L.nt, L.alt, L.dot + 1), H[u].pos, i, j, rc);
      done_mono(p, H, N, q, G, M, sl(L.nt, L.alt, L.dot + 1), u, j, rc);
    }
  }
}
pub open spec fn dn(p: gllParser, H: HB, N: NB, d: descriptor) -> bool { done(p, H, N, d.L, d.u, d.i, d.rc) }
pub open spec fn backs(p: gllParser, H: HB, N: NB, L: slot, i: int, d: descriptor) -> bool {
  forall|q: gllParser, G: HB, M: NB| ext(p, H, N, q, G, M) && #[trigger] done(q, G, M, L, d.u, i, d.rc) ==> done(q, G, M, d.L, d.u, d.i, d.rc)
}
pub proof fn backs_leaf(p: gllParser, H: HB, N: NB, p1: gllParser, M1: NB, L: slot, i: int, d: descriptor, j: int)
  requires backs(p, H, N, L, i, d), ext(p, H, N, p1, H, M1), H.contains_key(d.u), 0 <= L.dot < sprod(p.sg->Some_0, L.nt, L.alt).len(), sprod(p.sg->Some_0, L.nt, L.alt)[L.dot].kind != 0, nodes_in(p1, M1),
    forall|q: int| #[trigger] sleaf(sprod(p.sg->Some_0, L.nt, L.alt)[L.dot], p.input, i, q) ==> q == j, sleaf(sprod(p.sg->Some_0, L.nt, L.alt)[L.dot], p.input, i, j), rec(p1, M1, sl(L.nt, L.alt, L.dot + 1), H[d.u].pos, i, j, d.rc),
  ensures backs(p1, H, M1, sl(L.nt, L.alt, L.dot + 1), j, d),
{
  let nx = sl(L.nt, L.alt, L.dot + 1);
  assert forall|q: gllParser, G: HB, M: NB| ext(p1, H, M1, q, G, M) && #[trigger] done(q, G, M, nx, d.u, j, d.rc) implies done(q, G, M, d.L, d.u, d.i, d.rc) by {
    ext_trans(p, H, N, p1, H, M1, q, G, M);
    mono_rec(p1, M1, q, M, nx, H[d.u].pos, i, j, d.rc);
    assert(done(q, G, M, L, d.u, i, d.rc));
  }
}
// every descriptor is waiting or worked off
pub open spec fn c1(p: gllParser, H: HB, N: NB) -> bool { forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> p.work.contains(d) || dn(p, H, N, d) }
pub open spec fn c1x(p: gllParser, H: HB, N: NB, x: descriptor) -> bool { forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> p.work.contains(d) || d == x || dn(p, H, N, d) }
pub open spec fn gll_start(p: gllParser) -> bool {
  p.sg is Some && sg_ok(p.sg->Some_0) && (forall|k: gssKey| !#[trigger] p.gss.contains_key(k)) && (forall|d: descriptor| !#[trigger] p.seen.contains_key(d))
  && p.work.len() == 0 && (forall|v: int| !#[trigger] p.popped.contains_key(v)) && (forall|e: nodeKey| !#[trigger] p.nodes.contains_key(e)) && !p.aborted
  && p.maxPos == 0 && p.expected.len() == 0 && (forall|x: Seq<int>| !#[trigger] p.expectedSeen.contains_key(x))
}
pub open spec fn gll_end(p: gllParser, H: HB, N: NB) -> bool { gll_ok(p, H, N) && !p.aborted && started(p, p.sg->Some_0.start, 0, p.u0, 0) && (forall|d: descriptor| #[trigger] p.seen.contains_key(d) ==> dn(p, H, N, d)) }
pub proof fn start_ok(p: gllParser, H: HB, N: NB)
  requires gll_start(p), p.u0 != 0, H.contains_key(p.u0), H[p.u0].ret == sl(-1, -1, -1), H[p.u0].pos == 0, H[p.u0].edges.len() == 0, H[p.u0].edgeSet =~= Map::<gssEdge, bool>::empty(), p.nodes =~= Map::<nodeKey, int>::empty(),
  ensures gll_ok(p, H, N),
{
  assert(p.nodes.len() == 0);
  assert forall|v: int| #[trigger] bn(p, H, v) implies v == p.u0 by {}
  assert forall|v: int, j: int| #[trigger] popd(p, v, j) implies false by {}
}
pub proof fn take_ok(p: gllParser, H: HB, N: NB, q: gllParser)
  requires gll_ok(p, H, N), c1(p, H, N), p.work.len() > 0, q == (gllParser { work: p.work.drop_last(), ..p }),
  ensures gll_ok(q, H, N), c1x(q, H, N, p.work.last()), desc_ok(q, H, p.work.last()), extd(p, H, N, q, H, N),
{
  let w = q.work;
  assert(extN(N, N)); assert(extp(p, q)); assert(extH(p.u0, H, H));
  carry(p, H, N, q, H, N); carry_fol(p, H, N, q, H, N);
  assert forall|i: int| 0 <= i < w.len() implies q.seen.contains_key(#[trigger] w[i]) by { assert(w[i] == p.work[i]); }
  assert(p.seen.contains_key(p.work[p.work.len() - 1]));
  assert forall|d: descriptor| #[trigger] q.seen.contains_key(d) implies w.contains(d) || d == p.work.last() || dn(q, H, N, d) by {
    assert(p.seen.contains_key(d));
    if p.work.contains(d) { let i = choose|i: int| 0 <= i < p.work.len() && p.work[i] == d; if i < w.len() { assert(w[i] == d); } }
    else { assert(desc_ok(p, H, d)); done_mono(p, H, N, q, H, N, d.L, d.u, d.i, d.rc); }
  }
  assert forall|v: int, j: int| #[trigger] popd(q, v, j) implies pop_ok(q, H, N, v, j) by { assert(popd(p, v, j)); }
  assert forall|v: int, e: int| bn(q, H, v) && 0 <= e < H[v].edges.len() implies edge_ok(q, H, v, #[trigger] H[v].edges[e]) by { assert(bn(p, H, v)); }
  assert forall|v: int, u: gssEdge| bn(q, H, v) && #[trigger] H[v].edgeSet.contains_key(u) implies H[v].edgeSet[u] && H[v].edges.contains(u) by { assert(bn(p, H, v)); }
  assert(nodes_in(q, N)) by { assert forall|o: nodeKey| #[trigger] q.nodes.contains_key(o) implies node_is(q, N, o) by { assert(node_is(p, N, o)); } }
  assert forall|v: int, e: int, z: int| bn(q, H, v) && 0 <= e < H[v].edges.len() && #[trigger] popd(q, v, z) implies followed(q, H, N, v, (#[trigger] H[v].edges[e]).to, N[z].End) by { assert(bn(p, H, v)); assert(popd(p, v, z)); assert(edge_ok(p, H, v, H[v].edges[e])); assert(followed(p, H, N, v, H[v].edges[e].to, N[z].End)); }
}
pub proof fn c1_step(p: gllParser, H: HB, N: NB, x: descriptor, q: gllParser, G: HB, M: NB)
  requires gll_ok(p, H, N), c1x(p, H, N, x), ext(p, H, N, q, G, M), dn(q, G, M, x),
  ensures c1(q, G, M),
{
  assert forall|d: descriptor| #[trigger] q.seen.contains_key(d) implies q.work.contains(d) || dn(q, G, M, d) by {
    if p.seen.contains_key(d) && !p.work.contains(d) && d != x { assert(desc_ok(p, H, d)); done_mono(p, H, N, q, G, M, d.L, d.u, d.i, d.rc); }
  }
}
// ---- completeness: a context that was entered derives everything it can ----
pub open spec fn reached(p: gllParser, H: HB, nt: int, rc: int, l: int) -> bool { exists|v: int| #[trigger] bn(p, H, v) && H[v].pos == l && cal_nt(p.sg->Some_0, H[v]) == nt && cal_rc(p.sg->Some_0, H[v]) == rc && started(p, nt, rc, v, l) }
pub proof fn comp_nt(p: gllParser, H: HB, N: NB, v: int, nt: int, rc: int, l: int, r: int, h: nat)
  requires gll_end(p, H, N), bn(p, H, v), H[v].pos == l, started(p, nt, rc, v, l), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, sder(p.sg->Some_0, p.input, nt, rc, l, r, h),
  ensures v == p.u0 || (p.nodes.contains_key(syk(nt, l, r, rc)) && popd(p, v, p.nodes[syk(nt, l, r, rc)])),
  decreases h, 0int, 0int,
{
  let sg = p.sg->Some_0;
  let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, nt).alts.len() && allowed(sg, nt, rc, ai) && spre(sg, p.input, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
  comp_pre(p, H, N, v, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
}
pub proof fn comp_pre(p: gllParser, H: HB, N: NB, v: int, nt: int, ai: int, rc: int, dot: int, l: int, r: int, h: nat)
  requires gll_end(p, H, N), bn(p, H, v), H[v].pos == l, started(p, nt, rc, v, l), cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), allowed(p.sg->Some_0, nt, rc, ai), 0 <= dot <= sprod(p.sg->Some_0, nt, ai).len(), spre(p.sg->Some_0, p.input, nt, ai, rc, dot, l, r, h),
  ensures done(p, H, N, sl(nt, ai, dot), v, r, rc),
  decreases h, 2int, dot,
{
  let sg = p.sg->Some_0;
  if dot == 0 { assert(p.seen.contains_key(descriptor { L: sl(nt, ai, 0), u: v, i: l, w: 0, rc: rc })); let d = descriptor { L: sl(nt, ai, 0), u: v, i: l, w: 0, rc: rc }; assert(dn(p, H, N, d)); }
  else {
    let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s);
    let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, p.input, nt, ai, rc, dot - 1, l, k, h) && ssy(sg, p.input, s, c, k, r, h);
    comp_pre(p, H, N, v, nt, ai, rc, dot - 1, l, k, h);
    comp_sy(p, H, N, v, nt, ai, rc, dot, l, k, r, h);
  }
}
pub proof fn comp_in(p: gllParser, H: HB, N: NB, v: int, nt: int, ai: int, rc: int, dot: int, k: int)
  requires gll_end(p, H, N), bn(p, H, v), 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), 0 <= dot < sprod(p.sg->Some_0, nt, ai).len(), done(p, H, N, sl(nt, ai, dot), v, k, rc), sprod(p.sg->Some_0, nt, ai)[dot].kind == 0,
  ensures reached(p, H, sprod(p.sg->Some_0, nt, ai)[dot].nt, crc(p.sg->Some_0, nt, rc, sprod(p.sg->Some_0, nt, ai)[dot]), k),
{
  let sg = p.sg->Some_0; let s = sprod(sg, nt, ai)[dot]; let L = sl(nt, ai, dot);
  let key = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: k, rc: rc }; let w = p.gss[key];
  assert(p.gss.contains_key(key)); assert(bn(p, H, w)); assert(key_of(H[w]) == key); assert(started(p, s.nt, crc(sg, nt, rc, s), w, k));
}
// one more symbol: the split is recorded and the next position is worked off
pub proof fn comp_sy(p: gllParser, H: HB, N: NB, v: int, nt: int, ai: int, rc: int, dot: int, l: int, k: int, r: int, h: nat)
  requires gll_end(p, H, N), bn(p, H, v), H[v].pos == l, cal_nt(p.sg->Some_0, H[v]) == nt, cal_rc(p.sg->Some_0, H[v]) == rc, 0 <= ai < sg_nt(p.sg->Some_0, nt).alts.len(), 1 <= dot <= sprod(p.sg->Some_0, nt, ai).len(),
    done(p, H, N, sl(nt, ai, dot - 1), v, k, rc), ssy(p.sg->Some_0, p.input, sprod(p.sg->Some_0, nt, ai)[dot - 1], crc(p.sg->Some_0, nt, rc, sprod(p.sg->Some_0, nt, ai)[dot - 1]), k, r, h),
  ensures rec(p, N, sl(nt, ai, dot), l, k, r, rc), done(p, H, N, sl(nt, ai, dot), v, r, rc),
  decreases h, 1int, 0int,
{
  let sg = p.sg->Some_0; let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s); let pr = sprod(sg, nt, ai);
  let L = sl(nt, ai, dot - 1);
  assert(pr[L.dot] == s);
  assert(sl(L.nt, L.alt, L.dot + 1) == sl(nt, ai, dot));
  if s.kind == 0 {
    let key = gssKey { ret: sl(nt, ai, dot), pos: k, rc: rc };
    assert(p.gss.contains_key(key)); let w = p.gss[key];
    assert(bn(p, H, w)); assert(key_of(H[w]) == key);
    assert(started(p, s.nt, c, w, k));
    comp_nt(p, H, N, w, s.nt, c, k, r, h);
    let z = p.nodes[syk(s.nt, k, r, c)];
    assert(popd(p, w, z)); assert(node_is(p, N, syk(s.nt, k, r, c))); assert(N[z].End == r);
    let e = choose|e: int| 0 <= e < H[w].edges.len() && (#[trigger] H[w].edges[e]).to == v;
    assert(followed(p, H, N, w, H[w].edges[e].to, N[z].End));
    let d = ds(p, H, sl(nt, ai, dot), v, r, rc);
    assert(p.seen.contains_key(d)); assert(dn(p, H, N, d));
  } else { assert(sleaf(s, p.input, k, r)); }
}
pub open spec fn rkey(p: gllParser) -> nodeKey { syk(p.sg->Some_0.start, 0, p.input.len() as int, 0) }
pub open spec fn root_of(p: gllParser) -> int { if p.nodes.contains_key(rkey(p)) { p.nodes[rkey(p)] } else { 0 } }
// the forest of a finished run
pub open spec fn fo_of(f: Forest, p: gllParser, H: HB, N: NB) -> bool { gll_end(p, H, N) && f.sg == p.sg && f.input == p.input && f.root == root_of(p) && f.maxPos == p.maxPos && f.expected == p.expected && f.built == p.nodes.len() }
pub open spec fn fo_ok(f: Forest, N: NB) -> bool { exists|p: gllParser, H: HB| #[trigger] fo_of(f, p, H, N) }
pub proof fn root_exact(p: gllParser, H: HB, N: NB)
  requires gll_end(p, H, N), ensures root_of(p) != 0 <==> DS(p.sg->Some_0, p.input, p.sg->Some_0.start, 0, 0, p.input.len() as int),
{
  let sg = p.sg->Some_0; let st = sg.start; let n = p.input.len() as int; let k = rkey(p);
  if p.nodes.contains_key(k) {
    assert(node_is(p, N, k)); let x = N[p.nodes[k]];
    assert(x.packs.len() > 0);
    assert(pack_ok(p, k, x.packAlts[0], x.packs[0]));
    let m = choose|m: int| #[trigger] pack_is(p, k, x.packAlts[0], x.packs[0], m); let ai = x.packAlts[0];
    DP_step(sg, p.input, st, ai, 0, sprod(sg, st, ai).len() as int, 0, m, n);
    DS_of(sg, p.input, st, ai, 0, 0, n);
  }
  if DS(sg, p.input, st, 0, 0, n) {
    let h = choose|h: nat| #[trigger] sder(sg, p.input, st, 0, 0, n, h);
    let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, st).alts.len() && allowed(sg, st, 0, ai) && spre(sg, p.input, st, ai, 0, sprod(sg, st, ai).len() as int, 0, n, (h - 1) as nat);
    let dot = sprod(sg, st, ai).len() as int; let s = sprod(sg, st, ai)[dot - 1]; let c = crc(sg, st, 0, s);
    assert(sg_nt(sg, st).alts[ai].len() >= 1);
    let q = choose|q: int| #[trigger] pk(q) && 0 <= q <= n && spre(sg, p.input, st, ai, 0, dot - 1, 0, q, (h - 1) as nat) && ssy(sg, p.input, s, c, q, n, (h - 1) as nat);
    comp_pre(p, H, N, p.u0, st, ai, 0, dot - 1, 0, q, (h - 1) as nat);
    comp_sy(p, H, N, p.u0, st, ai, 0, dot, 0, q, n, (h - 1) as nat);
    assert(p.nodes.contains_key(k)); assert(node_is(p, N, k));
  }
}
// every context of the grammar on this input was entered
pub proof fn ctx_reached(p: gllParser, H: HB, N: NB, nt: int, rc: int, l: int, h: nat)
  requires gll_end(p, H, N), ctx(p.sg->Some_0, p.input, nt, rc, l, h), ensures reached(p, H, nt, rc, l), decreases h,
{
  let sg = p.sg->Some_0;
  if nt == sg.start && rc == 0 && l == 0 { assert(bn(p, H, p.u0)); }
  else {
    let (nt1, ai, rc1, dot, l1) = choose|nt1: int, ai: int, rc1: int, dot: int, l1: int| #[trigger] cstep(sg, p.input, nt1, ai, rc1, dot, l1, nt, rc, l) && ctx(sg, p.input, nt1, rc1, l1, (h - 1) as nat);
    ctx_reached(p, H, N, nt1, rc1, l1, (h - 1) as nat);
    let v = choose|v: int| #[trigger] bn(p, H, v) && H[v].pos == l1 && cal_nt(sg, H[v]) == nt1 && cal_rc(sg, H[v]) == rc1 && started(p, nt1, rc1, v, l1);
    let g = choose|g: nat| #[trigger] spre(sg, p.input, nt1, ai, rc1, dot, l1, l, g);
    comp_pre(p, H, N, v, nt1, ai, rc1, dot, l1, l, g);
    comp_in(p, H, N, v, nt1, ai, rc1, dot, l);
  }
}
// the furthest failure: the reported offset is the deepest at which a terminal was expected and missing, and exactly those terminals are listed
pub open spec fn furthest(sg: slotGrammar, inp: Seq<int>, at: int, exp: Seq<Seq<int>>) -> bool {
  (forall|i: int, x: Seq<int>| #[trigger] vfail(sg, inp, i, x) ==> i < at || (i == at && exp.contains(x)))
  && (forall|i: int| 0 <= i < exp.len() ==> vfail(sg, inp, at, #[trigger] exp[i]))
  && exp.no_duplicates() && 0 <= at <= inp.len() && (at > 0 ==> exp.len() > 0)
}
pub proof fn furthest_exact(p: gllParser, H: HB, N: NB)
  requires gll_end(p, H, N), ensures furthest(p.sg->Some_0, p.input, p.maxPos, p.expected),
{
  let sg = p.sg->Some_0;
  if p.expected.len() > 0 { assert(vfail(sg, p.input, p.maxPos, p.expected[0])); }
  assert forall|i: int, x: Seq<int>| #[trigger] vfail(sg, p.input, i, x) implies i < p.maxPos || (i == p.maxPos && p.expected.contains(x)) by {
    let (L, rc, l) = choose|L: slot, rc: int, l: int| #[trigger] vf(sg, p.input, L, rc, l, i) && x == stext(sprod(sg, L.nt, L.alt)[L.dot]);
    let h = choose|h: nat| #[trigger] ctx(sg, p.input, L.nt, rc, l, h);
    ctx_reached(p, H, N, L.nt, rc, l, h);
    let v = choose|v: int| #[trigger] bn(p, H, v) && H[v].pos == l && cal_nt(sg, H[v]) == L.nt && cal_rc(sg, H[v]) == rc && started(p, L.nt, rc, v, l);
    let g = choose|g: nat| #[trigger] spre(sg, p.input, L.nt, L.alt, rc, L.dot, l, i, g);
    comp_pre(p, H, N, v, L.nt, L.alt, rc, L.dot, l, i, g);
    assert(done(p, H, N, sl(L.nt, L.alt, L.dot), v, i, rc));
    assert(noted(p, i, sprod(sg, L.nt, L.alt)[L.dot]));
  }
}
