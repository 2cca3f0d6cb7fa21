// ---- sppfq.rs: counting over the shared forest ----
pub open spec fn on<K>(m: Map<K, bool>, k: K) -> bool { m.contains_key(k) && m[k] }
pub open spec fn hkid(N: NB, a: int, i: int, j: int, b: int) -> bool { 0 <= i < N[a].packs.len() && 0 <= j < N[a].packs[i].len() && N[a].packs[i][j] == b }
pub open spec fn hstep(N: NB, a: int, b: int) -> bool { exists|i: int, j: int| #[trigger] hkid(N, a, i, j, b) }
pub open spec fn hpath(N: NB, a: int, b: int, d: nat) -> bool decreases d { if d == 0 { a == b } else { exists|x: int| #[trigger] hstep(N, x, b) && hpath(N, a, x, (d - 1) as nat) } }
pub open spec fn hto(N: NB, a: int, b: int) -> bool { exists|d: nat| #[trigger] hpath(N, a, b, d) }
pub open spec fn hplus(N: NB, a: int, b: int) -> bool { exists|x: int| #[trigger] hstep(N, x, b) && hto(N, a, x) }
pub open spec fn hin(N: NB, n: int) -> bool { forall|b: int| #[trigger] hto(N, n, b) ==> b != 0 && N.contains_key(b) }
pub proof fn hto_refl(N: NB, a: int) ensures hto(N, a, a) { assert(hpath(N, a, a, 0)); }
pub proof fn hto_step(N: NB, a: int, b: int, c: int) requires hto(N, a, b), hstep(N, b, c), ensures hto(N, a, c), { let d = choose|d: nat| #[trigger] hpath(N, a, b, d); assert(hpath(N, a, c, d + 1)); }
pub proof fn hpath_join(N: NB, a: int, b: int, c: int, d: nat, e: nat) requires hpath(N, a, b, d), hpath(N, b, c, e), ensures hto(N, a, c), decreases e,
{ if e > 0 { let x = choose|x: int| #[trigger] hstep(N, x, c) && hpath(N, b, x, (e - 1) as nat); hpath_join(N, a, b, x, d, (e - 1) as nat); hto_step(N, a, x, c); } }
pub proof fn hto_trans(N: NB, a: int, b: int, c: int) requires hto(N, a, b), hto(N, b, c), ensures hto(N, a, c),
{ let d = choose|d: nat| #[trigger] hpath(N, a, b, d); let e = choose|e: nat| #[trigger] hpath(N, b, c, e); hpath_join(N, a, b, c, d, e); }
pub proof fn hin_kid(N: NB, n: int, i: int, j: int) requires hin(N, n), 0 <= i < N[n].packs.len(), 0 <= j < N[n].packs[i].len(), ensures hin(N, N[n].packs[i][j]), hstep(N, n, N[n].packs[i][j]), hto(N, n, N[n].packs[i][j]), n != 0, N.contains_key(n),
{
  let c = N[n].packs[i][j]; assert(hkid(N, n, i, j, c)); hto_refl(N, n); hto_step(N, n, n, c);
  assert forall|b: int| #[trigger] hto(N, c, b) implies b != 0 && N.contains_key(b) by { hto_trans(N, n, c, b); }
}
// ---- ambiguity ----
pub open spec fn hmany(N: NB, n: int) -> bool { exists|x: int| #[trigger] hto(N, n, x) && N[x].packs.len() > 1 }
pub open spec fn hclean(N: NB, S: Map<int, bool>, x: int) -> bool { N[x].packs.len() <= 1 && (forall|b: int| #[trigger] hstep(N, x, b) ==> on(S, b)) }
pub open spec fn hgrow(N: NB, S: Map<int, bool>, T: Map<int, bool>) -> bool { (forall|x: int| #[trigger] on(S, x) ==> on(T, x)) && (forall|x: int| #[trigger] on(T, x) ==> on(S, x) || hclean(N, T, x)) }
pub proof fn hgrow_trans(N: NB, S: Map<int, bool>, T: Map<int, bool>, U: Map<int, bool>) requires hgrow(N, S, T), hgrow(N, T, U), ensures hgrow(N, S, U), {}
pub proof fn hmany_kid(N: NB, n: int, c: int) requires hto(N, n, c), hmany(N, c), ensures hmany(N, n), { let x = choose|x: int| #[trigger] hto(N, c, x) && N[x].packs.len() > 1; hto_trans(N, n, c, x); }
pub proof fn hclosed(N: NB, S: Map<int, bool>, a: int, b: int, d: nat) requires forall|x: int| #[trigger] on(S, x) ==> hclean(N, S, x), on(S, a), hpath(N, a, b, d), ensures on(S, b), hclean(N, S, b), decreases d,
{ if d > 0 { let x = choose|x: int| #[trigger] hstep(N, x, b) && hpath(N, a, x, (d - 1) as nat); hclosed(N, S, a, x, (d - 1) as nat); assert(hclean(N, S, x)); } }
pub proof fn hnone(N: NB, S: Map<int, bool>, a: int) requires hgrow(N, Map::empty(), S), on(S, a), ensures !hmany(N, a),
{
  assert forall|x: int| #[trigger] on(S, x) implies hclean(N, S, x) by { assert(!on(Map::<int, bool>::empty(), x)); }
  if hmany(N, a) { let x = choose|x: int| #[trigger] hto(N, a, x) && N[x].packs.len() > 1; let d = choose|d: nat| #[trigger] hpath(N, a, x, d); hclosed(N, S, a, x, d); }
}
// ---- counts over the forest, by height ----
pub open spec fn hc(N: NB, n: int, h: nat) -> int decreases h, 0int, 0int { if h == 0 { 0 } else if N[n].packs.len() == 0 { 1 } else { hsum(N, N[n].packs, (h - 1) as nat) } }
pub open spec fn hsum(N: NB, ps: Seq<Seq<int>>, h: nat) -> int decreases h, 2int, ps.len() { if ps.len() == 0 { 0 } else { hsum(N, ps.drop_last(), h) + hprod(N, ps.last(), h) } }
pub open spec fn hprod(N: NB, c: Seq<int>, h: nat) -> int decreases h, 1int, c.len() { if c.len() == 0 { 1 } else { hprod(N, c.drop_last(), h) * hc(N, c.last(), h) } }
pub open spec fn hset(N: NB, n: int, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] hc(N, n, h) == v }
pub open spec fn hex(N: NB, n: int, v: int) -> bool { exists|H: nat| #[trigger] hset(N, n, v, H) }
pub open spec fn hsset(N: NB, ps: Seq<Seq<int>>, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] hsum(N, ps, h) == v }
pub open spec fn hsx(N: NB, ps: Seq<Seq<int>>, v: int) -> bool { exists|H: nat| #[trigger] hsset(N, ps, v, H) }
pub open spec fn hpset(N: NB, c: Seq<int>, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] hprod(N, c, h) == v }
pub open spec fn hpx(N: NB, c: Seq<int>, v: int) -> bool { exists|H: nat| #[trigger] hpset(N, c, v, H) }
pub proof fn hpx_0(N: NB, c: Seq<int>) requires c.len() == 0, ensures hpx(N, c, 1) { assert(hpset(N, c, 1, 0)); }
pub proof fn hsx_0(N: NB, c: Seq<Seq<int>>) requires c.len() == 0, ensures hsx(N, c, 0) { assert(hsset(N, c, 0, 0)); }
pub proof fn hpx_1(N: NB, c: Seq<int>, i: int, v: int, x: int) requires 0 <= i < c.len(), hpx(N, c.subrange(0, i), v), hex(N, c[i], x), ensures hpx(N, c.subrange(0, i + 1), v * x),
{
  let a = c.subrange(0, i); let b = c.subrange(0, i + 1);
  let F = choose|H: nat| #[trigger] hpset(N, a, v, H); let G = choose|H: nat| #[trigger] hset(N, c[i], x, H); let H = if F >= G { F } else { G };
  assert(b.drop_last() =~= a); assert(b.last() == c[i]);
  assert forall|h: nat| h >= H implies #[trigger] hprod(N, b, h) == v * x by { assert(hprod(N, a, h) == v); assert(hc(N, c[i], h) == x); }
  assert(hpset(N, b, v * x, H));
}
pub proof fn hsx_1(N: NB, c: Seq<Seq<int>>, i: int, v: int, x: int) requires 0 <= i < c.len(), hsx(N, c.subrange(0, i), v), hpx(N, c[i], x), ensures hsx(N, c.subrange(0, i + 1), v + x),
{
  let a = c.subrange(0, i); let b = c.subrange(0, i + 1);
  let F = choose|H: nat| #[trigger] hsset(N, a, v, H); let G = choose|H: nat| #[trigger] hpset(N, c[i], x, H); let H = if F >= G { F } else { G };
  assert(b.drop_last() =~= a); assert(b.last() == c[i]);
  assert forall|h: nat| h >= H implies #[trigger] hsum(N, b, h) == v + x by { assert(hsum(N, a, h) == v); assert(hprod(N, c[i], h) == x); }
  assert(hsset(N, b, v + x, H));
}
pub proof fn hex_leaf(N: NB, n: int) requires N[n].packs.len() == 0, ensures hex(N, n, 1) { assert(hset(N, n, 1, 1)); }
pub proof fn hex_node(N: NB, n: int, v: int) requires N[n].packs.len() > 0, hsx(N, N[n].packs, v), ensures hex(N, n, v),
{
  let F = choose|H: nat| #[trigger] hsset(N, N[n].packs, v, H);
  assert forall|h: nat| h >= F + 1 implies #[trigger] hc(N, n, h) == v by { assert(hsum(N, N[n].packs, (h - 1) as nat) == v); }
  assert(hset(N, n, v, F + 1));
}
// the counter's tables: memo gives finished nodes, the flag says a cycle was met
pub open spec fn hcyc(N: NB, n: int) -> bool { exists|c: int| #[trigger] hto(N, n, c) && hplus(N, c, c) }
pub open spec fn mem_ok(N: NB, M: Map<int, int>, B: Map<int, int>, inf: bool) -> bool { forall|n: int| #[trigger] M.contains_key(n) ==> M[n] != 0 && B.contains_key(M[n]) && (!inf ==> hex(N, n, B[M[n]])) }
pub open spec fn mem_ext(M: Map<int, int>, B: Map<int, int>, M1: Map<int, int>, B1: Map<int, int>) -> bool {
  (forall|r: int| #[trigger] B.contains_key(r) ==> B1.contains_key(r) && B1[r] == B[r])
  && (forall|n: int| #[trigger] M1.contains_key(n) ==> (M.contains_key(n) && M[n] == M1[n]) || !B.contains_key(M1[n]))
}
pub open spec fn stk_same(S: Map<int, bool>, T: Map<int, bool>) -> bool { (forall|s: int| #[trigger] on(S, s) ==> on(T, s)) && (forall|s: int| #[trigger] on(T, s) ==> on(S, s)) }
pub open spec fn stk_ok(N: NB, S: Map<int, bool>, n: int) -> bool { forall|s: int| #[trigger] on(S, s) ==> hplus(N, s, n) }
pub open spec fn stk_in(N: NB, S: Map<int, bool>, n: int) -> bool { forall|s: int| #[trigger] on(S, s) ==> hto(N, s, n) }
pub proof fn stk_kid(N: NB, S: Map<int, bool>, n: int, c: int) requires stk_in(N, S, n), hstep(N, n, c), ensures stk_ok(N, S, c), { assert forall|s: int| #[trigger] on(S, s) implies hplus(N, s, c) by { assert(hto(N, s, n)); } }
pub proof fn hplus_to(N: NB, a: int, b: int) requires hplus(N, a, b), ensures hto(N, a, b) { let x = choose|x: int| #[trigger] hstep(N, x, b) && hto(N, a, x); hto_step(N, a, x, b); }
pub proof fn hcyc_kid(N: NB, n: int, c: int) requires hto(N, n, c), hcyc(N, c), ensures hcyc(N, n), { let x = choose|x: int| #[trigger] hto(N, c, x) && hplus(N, x, x); hto_trans(N, n, c, x); }
// ---- the forest against the derivations ----
pub open spec fn dk(k: nodeKey) -> DK { if k.kind == 0 { dsy(k.nt, k.start, k.end, k.rc) } else if k.kind == 1 { din(k.L, k.start, k.end, k.rc) } else { dlf(k.start, k.end) } }
pub open spec fn knorm(k: nodeKey) -> bool { k == syk(k.nt, k.start, k.end, k.rc) || k == tmk(k.start, k.end) || k == ink(k.L, k.start, k.end, k.rc) }
pub open spec fn live(sg: slotGrammar, inp: Seq<int>, k: nodeKey) -> bool { knorm(k) && (k.kind == 0 ==> CX(sg, inp, k.nt, k.rc, k.start)) && (k.kind == 1 ==> CX(sg, inp, k.L.nt, k.rc, k.start)) }
pub open spec fn lk(p: gllParser, k: nodeKey) -> bool { p.nodes.contains_key(k) && live(p.sg->Some_0, p.input, k) && good(p.sg->Some_0, p.input, dk(k)) }
pub open spec fn pmid(p: gllParser, k: nodeKey, alt: int, c: Seq<int>) -> int { choose|m: int| #[trigger] pack_is(p, k, alt, c, m) }
pub open spec fn plof(p: gllParser, N: NB, k: nodeKey) -> Seq<(int, int)> { let x = N[p.nodes[k]]; Seq::new(x.packs.len(), |i: int| (x.packAlts[i], pmid(p, k, x.packAlts[i], x.packs[i]))) }
pub open spec fn kk(p: gllParser, k: nodeKey, L: slot, m: int, j: int) -> nodeKey { let sg = p.sg->Some_0; if j == 0 && L.dot >= 2 { nkey(sg, prev(L), k.start, m, k.rc) } else { skey(lsym(sg, L), lrc(sg, L, k.rc), m, k.end) } }
pub proof fn split_rec(p: gllParser, H: HB, N: NB, k: nodeKey, ai: int, m: int)
  requires gll_end(p, H, N), lk(p, k), nsp(p.sg->Some_0, p.input, dk(k), ai, m),
  ensures rec(p, N, kslot(p.sg->Some_0, k, ai), k.start, m, k.end, k.rc), kslot(p.sg->Some_0, k, ai) == nslot(p.sg->Some_0, dk(k), ai), keeps(p.sg->Some_0, kslot(p.sg->Some_0, k, ai)), nkey(p.sg->Some_0, kslot(p.sg->Some_0, k, ai), k.start, k.end, k.rc) == k,
    lsym(p.sg->Some_0, kslot(p.sg->Some_0, k, ai)).kind == 0 ==> CX(p.sg->Some_0, p.input, lsym(p.sg->Some_0, kslot(p.sg->Some_0, k, ai)).nt, lrc(p.sg->Some_0, kslot(p.sg->Some_0, k, ai), k.rc), m),
{
  let sg = p.sg->Some_0; let L = kslot(sg, k, ai); let inp = p.input;
  let h = choose|h: nat| #[trigger] ctx(sg, inp, L.nt, k.rc, k.start, h);
  assert(CX(sg, inp, L.nt, k.rc, k.start));
  ctx_reached(p, H, N, L.nt, k.rc, k.start, h);
  let v = choose|v: int| #[trigger] bn(p, H, v) && H[v].pos == k.start && cal_nt(sg, H[v]) == L.nt && cal_rc(sg, H[v]) == k.rc && started(p, L.nt, k.rc, v, k.start);
  let g = choose|g: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.start, m, g);
  let e = choose|e: nat| #[trigger] ssy(sg, inp, lsym(sg, L), lrc(sg, L, k.rc), m, k.end, e);
  comp_pre(p, H, N, v, L.nt, ai, k.rc, L.dot - 1, k.start, m, g);
  comp_sy(p, H, N, v, L.nt, ai, k.rc, L.dot, k.start, m, k.end, e);
  assert(L == sl(L.nt, ai, L.dot));
  if lsym(sg, L).kind == 0 { assert(cstep(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.start, lsym(sg, L).nt, lrc(sg, L, k.rc), m)); CX_step(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.start, lsym(sg, L).nt, lrc(sg, L, k.rc), m); }
}
// the children of a split: nodes of the forest standing for the parts
pub proof fn split_kids(p: gllParser, H: HB, N: NB, k: nodeKey, ai: int, m: int)
  requires gll_end(p, H, N), lk(p, k), nsp(p.sg->Some_0, p.input, dk(k), ai, m),
  ensures hkids(p, kslot(p.sg->Some_0, k, ai), k.rc, k.start, m, k.end), kids(p, kslot(p.sg->Some_0, k, ai), k.rc, k.start, m, k.end).len() == nkids(p.sg->Some_0, dk(k), ai, m).len(),
    forall|j: int| 0 <= j < nkids(p.sg->Some_0, dk(k), ai, m).len() ==> { let q = #[trigger] kk(p, k, kslot(p.sg->Some_0, k, ai), m, j); lk(p, q) && p.nodes[q] == kids(p, kslot(p.sg->Some_0, k, ai), k.rc, k.start, m, k.end)[j] && dk(q) == nkids(p.sg->Some_0, dk(k), ai, m)[j] },
{
  let sg = p.sg->Some_0; let L = kslot(sg, k, ai); let inp = p.input; let ks = nkids(sg, dk(k), ai, m); let c = kids(p, L, k.rc, k.start, m, k.end);
  split_rec(p, H, N, k, ai, m);
  assert(prev(L).dot == L.dot - 1);
  assert forall|j: int| 0 <= j < ks.len() implies { let q = #[trigger] kk(p, k, L, m, j); lk(p, q) && p.nodes[q] == c[j] && dk(q) == ks[j] } by {
    let q = kk(p, k, L, m, j);
    good_kid(sg, inp, dk(k), ai, m, j);
    if j == 0 && L.dot == 2 {
      let P = prev(L); let s0 = lsym(sg, P);
      if s0.kind == 0 { DP_start(sg, inp, L.nt, ai, k.rc, k.start); assert(cstep(sg, inp, L.nt, ai, k.rc, 0, k.start, s0.nt, lrc(sg, P, k.rc), k.start)); CX_step(sg, inp, L.nt, ai, k.rc, 0, k.start, s0.nt, lrc(sg, P, k.rc), k.start); }
    }
  }
}
pub proof fn packs_list(p: gllParser, H: HB, N: NB, k: nodeKey)
  requires gll_end(p, H, N), lk(p, k), k.kind != 2,
  ensures plist(p.sg->Some_0, p.input, dk(k), plof(p, N, k)), plof(p, N, k).len() == N[p.nodes[k]].packs.len(),
    forall|i: int| 0 <= i < N[p.nodes[k]].packs.len() ==> { let x = #[trigger] plof(p, N, k)[i]; N[p.nodes[k]].packs[i] == kids(p, kslot(p.sg->Some_0, k, x.0), k.rc, k.start, x.1, k.end) && N[p.nodes[k]].packs[i].len() == nkids(p.sg->Some_0, dk(k), x.0, x.1).len() },
{
  let sg = p.sg->Some_0; let inp = p.input; let n = N[p.nodes[k]]; let c = plof(p, N, k);
  assert(node_is(p, N, k));
  assert forall|i: int| 0 <= i < n.packs.len() implies { let x = #[trigger] c[i]; pack_is(p, k, x.0, n.packs[i], x.1) && nsp(sg, inp, dk(k), x.0, x.1) && n.packs[i].len() == nkids(sg, dk(k), x.0, x.1).len() } by {
    assert(pack_ok(p, k, n.packAlts[i], n.packs[i])); let x = c[i]; assert(pack_is(p, k, x.0, n.packs[i], x.1));
    let L = kslot(sg, k, x.0); assert(split_ok(sg, inp, L, k.rc, k.start, x.1, k.end)); assert(nslot(sg, dk(k), x.0) == L);
    assert(DP(sg, inp, L.nt, L.alt, k.rc, L.dot - 1, k.start, x.1));
  }
  assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
    if c[i] == c[j] { assert(n.packs[i] == n.packs[j]); assert(n.packAlts[i] == c[i].0 && n.packAlts[j] == c[j].0); if i < j { assert(!(n.packs[i] == n.packs[j] && n.packAlts[i] == n.packAlts[j])); } else { assert(!(n.packs[j] == n.packs[i] && n.packAlts[j] == n.packAlts[i])); } }
  }
  assert forall|ai: int, m: int| #[trigger] nsp(sg, inp, dk(k), ai, m) implies c.contains((ai, m)) by {
    split_rec(p, H, N, k, ai, m);
    let L = kslot(sg, k, ai); let ch = kids(p, L, k.rc, k.start, m, k.end);
    assert(has_pack(n, ai, ch)); let i = choose|i: int| 0 <= i < n.packs.len() && #[trigger] n.packs[i] == ch && n.packAlts[i] == ai;
    let x = c[i]; assert(x.0 == ai); assert(pack_is(p, k, ai, ch, x.1));
    let q = skey(lsym(sg, L), lrc(sg, L, k.rc), m, k.end); let q2 = skey(lsym(sg, L), lrc(sg, L, k.rc), x.1, k.end);
    assert(p.nodes.contains_key(q)); assert(p.nodes.contains_key(q2));
    assert(ch[ch.len() - 1] == p.nodes[q]); assert(kids(p, L, k.rc, k.start, x.1, k.end)[ch.len() - 1] == p.nodes[q2]);
    assert(q == q2); assert(x.1 == m);
    assert(c[i] == (ai, m));
  }
}
// both count alike
pub proof fn hc_is(p: gllParser, H: HB, N: NB, k: nodeKey, h: nat)
  requires gll_end(p, H, N), lk(p, k), ensures hc(N, p.nodes[k], h) == w(p.sg->Some_0, p.input, dk(k), h), decreases h, 0int, 0int,
{
  let sg = p.sg->Some_0; let inp = p.input; let n = N[p.nodes[k]];
  assert(node_is(p, N, k));
  if h > 0 {
    if k.kind == 2 {
      if n.packs.len() > 0 { assert(pack_ok(p, k, n.packAlts[0], n.packs[0])); }
    } else {
      packs_list(p, H, N, k); let c = plof(p, N, k); let g = (h - 1) as nat;
      w_list(sg, inp, dk(k), c, g);
      assert(n.packs.len() > 0);
      assert(n.packs.subrange(0, n.packs.len() as int) =~= n.packs); assert(c.subrange(0, n.packs.len() as int) =~= c);
      hsum_is(p, H, N, k, n.packs.len() as int, g);
    }
  }
}
pub proof fn hsum_is(p: gllParser, H: HB, N: NB, k: nodeKey, i: int, g: nat)
  requires gll_end(p, H, N), lk(p, k), k.kind != 2, 0 <= i <= N[p.nodes[k]].packs.len(), plof(p, N, k).len() == N[p.nodes[k]].packs.len(),
  ensures hsum(N, N[p.nodes[k]].packs.subrange(0, i), g) == wsum(p.sg->Some_0, p.input, dk(k), plof(p, N, k).subrange(0, i), g), decreases g, 2int, i,
{
  let sg = p.sg->Some_0; let inp = p.input; let n = N[p.nodes[k]]; let c = plof(p, N, k);
  if i > 0 {
    hsum_is(p, H, N, k, i - 1, g); packs_list(p, H, N, k);
    let a = n.packs.subrange(0, i); let b = c.subrange(0, i); assert(a.drop_last() =~= n.packs.subrange(0, i - 1)); assert(b.drop_last() =~= c.subrange(0, i - 1));
    let x = c[i - 1]; assert(b.last() == x); let ch = n.packs[i - 1]; assert(a.last() == ch); let ks = nkids(sg, dk(k), x.0, x.1); let L = kslot(sg, k, x.0);
    assert(nsp(sg, inp, dk(k), x.0, x.1));
    split_kids(p, H, N, k, x.0, x.1);
    assert(ch == kids(p, L, k.rc, k.start, x.1, k.end));
    hc_is(p, H, N, kk(p, k, L, x.1, 0), g);
    if ks.len() == 2 {
      hc_is(p, H, N, kk(p, k, L, x.1, 1), g);
      let d = ch.drop_last(); assert(d.last() == ch[0] && d.len() == 1); assert(d.drop_last().len() == 0); assert(hprod(N, d.drop_last(), g) == 1); assert(hprod(N, d, g) == hc(N, ch[0], g));
    } else { let d = ch.drop_last(); assert(d.len() == 0); assert(hprod(N, d, g) == 1); }
    assert(hprod(N, ch, g) == wprod(sg, inp, ks, g));
    assert(wone(sg, inp, dk(k), x, g) == wprod(sg, inp, ks, g));
  }
}
// a step in the forest is a step in the derivations
pub proof fn hstep_is(p: gllParser, H: HB, N: NB, k: nodeKey, b: int) -> (q: nodeKey)
  requires gll_end(p, H, N), lk(p, k), hstep(N, p.nodes[k], b), ensures lk(p, q), p.nodes[q] == b, gstep(p.sg->Some_0, p.input, dk(k), dk(q)),
{
  let sg = p.sg->Some_0; let inp = p.input; let n = N[p.nodes[k]];
  let (i, j) = choose|i: int, j: int| #[trigger] hkid(N, p.nodes[k], i, j, b);
  assert(pack_ok(p, k, n.packAlts[i], n.packs[i]));
  packs_list(p, H, N, k); let x = plof(p, N, k)[i]; assert(nsp(sg, inp, dk(k), x.0, x.1)); split_kids(p, H, N, k, x.0, x.1);
  let q = kk(p, k, kslot(sg, k, x.0), x.1, j); gstep_of(sg, inp, dk(k), x.0, x.1, j);
  q
}
pub proof fn hpath_is(p: gllParser, H: HB, N: NB, k: nodeKey, b: int, d: nat) -> (q: nodeKey)
  requires gll_end(p, H, N), lk(p, k), hpath(N, p.nodes[k], b, d), ensures lk(p, q), p.nodes[q] == b, gto(p.sg->Some_0, p.input, dk(k), dk(q)), decreases d,
{
  if d == 0 { gto_refl(p.sg->Some_0, p.input, dk(k)); k } else {
    let x = choose|x: int| #[trigger] hstep(N, x, b) && hpath(N, p.nodes[k], x, (d - 1) as nat);
    let r = hpath_is(p, H, N, k, x, (d - 1) as nat); let q = hstep_is(p, H, N, r, b); gto_step(p.sg->Some_0, p.input, dk(k), dk(r), dk(q)); q
  }
}
pub proof fn gto_hto(p: gllParser, H: HB, N: NB, k: nodeKey, c: DK, d: nat) -> (q: nodeKey)
  requires gll_end(p, H, N), lk(p, k), gpath(p.sg->Some_0, p.input, dk(k), c, d), ensures lk(p, q), dk(q) == c, hto(N, p.nodes[k], p.nodes[q]), decreases d,
{
  let sg = p.sg->Some_0; let inp = p.input;
  if d == 0 { hto_refl(N, p.nodes[k]); k } else {
    let b = choose|b: DK| #[trigger] gstep(sg, inp, b, c) && gpath(sg, inp, dk(k), b, (d - 1) as nat);
    let r = gto_hto(p, H, N, k, b, (d - 1) as nat);
    let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, b, ai, m) && nkids(sg, b, ai, m).contains(c); let ks = nkids(sg, b, ai, m); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == c;
    packs_list(p, H, N, r); let l = plof(p, N, r); assert(l.contains((ai, m))); let i = choose|i: int| 0 <= i < l.len() && l[i] == (ai, m);
    split_kids(p, H, N, r, ai, m); let q = kk(p, r, kslot(sg, r, ai), m, j); assert(hkid(N, p.nodes[r], i, j, p.nodes[q])); assert(hstep(N, p.nodes[r], p.nodes[q])); hto_step(N, p.nodes[k], p.nodes[r], p.nodes[q]);
    q
  }
}
pub proof fn root_lk(f: Forest, p: gllParser, H: HB, N: NB)
  requires fo_of(f, p, H, N), f.root != 0, ensures lk(p, rkey(p)), p.nodes[rkey(p)] == f.root, dk(rkey(p)) == fkey(f), hin(N, f.root),
{
  let k = rkey(p); root_exact(p, H, N); assert(ctx(p.sg->Some_0, p.input, p.sg->Some_0.start, 0, 0, 0)); assert(node_is(p, N, k));
  assert forall|b: int| #[trigger] hto(N, f.root, b) implies b != 0 && N.contains_key(b) by { let d = choose|d: nat| #[trigger] hpath(N, f.root, b, d); let q = hpath_is(p, H, N, k, b, d); assert(node_is(p, N, q)); }
}
pub open spec fn fkey(f: Forest) -> DK { dsy(f.sg->Some_0.start, 0, f.input.len() as int, 0) }
pub proof fn many_is(f: Forest, p: gllParser, H: HB, N: NB)
  requires fo_of(f, p, H, N), f.root != 0, ensures hmany(N, f.root) ==> atleast(f.sg->Some_0, f.input, fkey(f), 2), !hmany(N, f.root) ==> exactly(f.sg->Some_0, f.input, fkey(f), 1),
{
  let sg = p.sg->Some_0; let inp = p.input; let k = rkey(p); root_lk(f, p, H, N);
  if hmany(N, f.root) {
    let x = choose|x: int| #[trigger] hto(N, f.root, x) && N[x].packs.len() > 1; let d = choose|d: nat| #[trigger] hpath(N, f.root, x, d);
    let q = hpath_is(p, H, N, k, x, d); assert(pack_ok(p, q, N[x].packAlts[0], N[x].packs[0])); packs_list(p, H, N, q); let l = plof(p, N, q);
    assert(nsp(sg, inp, dk(q), l[0].0, l[0].1)); assert(nsp(sg, inp, dk(q), l[1].0, l[1].1)); assert(l[0] != l[1]);
    two_splits(sg, inp, dk(q), l[0], l[1]);
    let e = choose|e: nat| #[trigger] gpath(sg, inp, dk(k), dk(q), e); path_le(sg, inp, dk(k), dk(q), e, 2);
  } else {
    assert(single_below(sg, inp, dk(k))) by {
      assert forall|c: DK| #[trigger] gto(sg, inp, dk(k), c) implies single(sg, inp, c) by {
        let d = choose|d: nat| #[trigger] gpath(sg, inp, dk(k), c, d); let q = gto_hto(p, H, N, k, c, d);
        assert(N[p.nodes[q]].packs.len() <= 1);
        assert forall|a: int, s: int, b: int, r: int| #[trigger] nsp(sg, inp, c, a, s) && #[trigger] nsp(sg, inp, c, b, r) implies a == b && s == r by { packs_list(p, H, N, q); let l = plof(p, N, q); assert(l.contains((a, s))); assert(l.contains((b, r))); let i = choose|i: int| 0 <= i < l.len() && l[i] == (a, s); let j = choose|j: int| 0 <= j < l.len() && l[j] == (b, r); assert(i == 0 && j == 0); }
      }
    }
    one_exact(sg, inp, dk(k));
  }
}
pub proof fn count_is(f: Forest, p: gllParser, H: HB, N: NB)
  requires fo_of(f, p, H, N), f.root != 0, ensures hcyc(N, f.root) ==> infinitely(f.sg->Some_0, f.input, fkey(f)), forall|v: int| #[trigger] hex(N, f.root, v) ==> exactly(f.sg->Some_0, f.input, fkey(f), v),
{
  let sg = p.sg->Some_0; let inp = p.input; let k = rkey(p); root_lk(f, p, H, N);
  if hcyc(N, f.root) {
    let c = choose|c: int| #[trigger] hto(N, f.root, c) && hplus(N, c, c); let d = choose|d: nat| #[trigger] hpath(N, f.root, c, d); let q = hpath_is(p, H, N, k, c, d);
    let x = choose|x: int| #[trigger] hstep(N, x, c) && hto(N, c, x); let e = choose|e: nat| #[trigger] hpath(N, c, x, e); let r = hpath_is(p, H, N, q, x, e); let q2 = hstep_is(p, H, N, r, c);
    assert(q == q2); assert(gcyc(sg, inp, dk(q)));
    cyc_inf(sg, inp, dk(k), dk(q));
  }
  assert forall|v: int| #[trigger] hex(N, f.root, v) implies exactly(f.sg->Some_0, f.input, fkey(f), v) by {
    let G = choose|G: nat| #[trigger] hset(N, f.root, v, G);
    assert forall|h: nat| h >= G implies #[trigger] w(sg, inp, dk(k), h) == v by { hc_is(p, H, N, k, h); assert(hc(N, f.root, h) == v); }
    assert(settled(sg, inp, dk(k), v, G));
  }
}
