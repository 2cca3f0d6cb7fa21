// ---- treef.rs: trees of the shared forest ----
pub open spec fn leaft(ts: Seq<Option<ParseTree>>, l: int, r: int) -> bool { leafs(ts, l, r) && (l == r ==> ts.len() == 0) }
pub open spec fn hl(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 0int, 0int {
  h > 0 && (if N[n].packs.len() == 0 { leaft(ts, N[n].Start, N[n].End) } else { exists|i: int| 0 <= i < N[n].packs.len() && #[trigger] pk(i) && hls(sg, N, N[n].packs[i], N[n].packs[i].len() as int, ts, (h - 1) as nat) })
}
pub open spec fn hls(sg: slotGrammar, N: NB, c: Seq<int>, m: int, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 2int, m {
  if m <= 0 { ts.len() == 0 } else { exists|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && hls(sg, N, c, m - 1, ts.subrange(0, q), h) && hv(sg, N, c[m - 1], ts.subrange(q, ts.len() as int), h) }
}
pub open spec fn hv(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 1int, 0int {
  if N[n].kind == 0 && shows(sg, N[n].nt) { ts.len() == 1 && rule_t(sg, ts[0], N[n].nt, N[n].Start, N[n].End) && hl(sg, N, n, ts[0]->Some_0.Children, h) } else { hl(sg, N, n, ts, h) }
}
pub proof fn hl_mono(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, hl(sg, N, n, ts, h), ensures hl(sg, N, n, ts, g), decreases h, 0int, 0int,
{ if N[n].packs.len() > 0 { let i = choose|i: int| 0 <= i < N[n].packs.len() && #[trigger] pk(i) && hls(sg, N, N[n].packs[i], N[n].packs[i].len() as int, ts, (h - 1) as nat); hls_mono(sg, N, N[n].packs[i], N[n].packs[i].len() as int, ts, (h - 1) as nat, (g - 1) as nat); assert(pk(i)); } }
pub proof fn hls_mono(sg: slotGrammar, N: NB, c: Seq<int>, m: int, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, hls(sg, N, c, m, ts, h), ensures hls(sg, N, c, m, ts, g), decreases h, 2int, m,
{ if m > 0 { let q = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && hls(sg, N, c, m - 1, ts.subrange(0, q), h) && hv(sg, N, c[m - 1], ts.subrange(q, ts.len() as int), h); hls_mono(sg, N, c, m - 1, ts.subrange(0, q), h, g); hv_mono(sg, N, c[m - 1], ts.subrange(q, ts.len() as int), h, g); assert(tcut(ts, q)); } }
pub proof fn hv_mono(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, hv(sg, N, n, ts, h), ensures hv(sg, N, n, ts, g), decreases h, 1int, 0int,
{ if N[n].kind == 0 && shows(sg, N[n].nt) { hl_mono(sg, N, n, ts[0]->Some_0.Children, h, g); } else { hl_mono(sg, N, n, ts, h, g); } }
pub open spec fn HL(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] hl(sg, N, n, ts, h) }
pub open spec fn HLS(sg: slotGrammar, N: NB, c: Seq<int>, m: int, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] hls(sg, N, c, m, ts, h) }
pub open spec fn HV(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] hv(sg, N, n, ts, h) }
pub proof fn HLS_next(sg: slotGrammar, N: NB, c: Seq<int>, m: int, a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>, d: Seq<Option<ParseTree>>)
  requires 0 <= m < c.len(), grew(a, b), grew(b, d), HLS(sg, N, c, m, tail(a, b)), HV(sg, N, c[m], tail(b, d)), ensures grew(a, d), HLS(sg, N, c, m + 1, tail(a, d)),
{
  grew_more(a, b, d);
  let h = choose|h: nat| #[trigger] hls(sg, N, c, m, tail(a, b), h); let g = choose|g: nat| #[trigger] hv(sg, N, c[m], tail(b, d), g); let z = if h >= g { h } else { g };
  hls_mono(sg, N, c, m, tail(a, b), h, z); hv_mono(sg, N, c[m], tail(b, d), g, z);
  assert(tcut(tail(a, d), tail(a, b).len() as int)); assert(hls(sg, N, c, m + 1, tail(a, d), z));
}
pub proof fn HL_pack(sg: slotGrammar, N: NB, n: int, i: int, ts: Seq<Option<ParseTree>>) requires 0 <= i < N[n].packs.len(), HLS(sg, N, N[n].packs[i], N[n].packs[i].len() as int, ts), ensures HL(sg, N, n, ts),
{ let h = choose|h: nat| #[trigger] hls(sg, N, N[n].packs[i], N[n].packs[i].len() as int, ts, h); assert(pk(i)); assert(hl(sg, N, n, ts, h + 1)); }
pub proof fn HL_leaf(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>) requires N[n].packs.len() == 0, leaft(ts, N[n].Start, N[n].End), ensures HL(sg, N, n, ts) { assert(hl(sg, N, n, ts, 1)); }
pub proof fn HV_hide(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>) requires !(N[n].kind == 0 && shows(sg, N[n].nt)), HL(sg, N, n, ts), ensures HV(sg, N, n, ts) { let h = choose|h: nat| #[trigger] hl(sg, N, n, ts, h); assert(hv(sg, N, n, ts, h)); }
pub proof fn HV_show(sg: slotGrammar, N: NB, n: int, ts: Seq<Option<ParseTree>>)
  requires N[n].kind == 0 && shows(sg, N[n].nt), ts.len() == 1, rule_t(sg, ts[0], N[n].nt, N[n].Start, N[n].End), HL(sg, N, n, ts[0]->Some_0.Children), ensures HV(sg, N, n, ts),
{ let h = choose|h: nat| #[trigger] hl(sg, N, n, ts[0]->Some_0.Children, h); assert(hv(sg, N, n, ts, h)); }
// the nodes below n are what the engine makes
pub open spec fn htyped(sg: slotGrammar, N: NB, n: int) -> bool { hin(N, n) && (forall|b: int| #[trigger] hto(N, n, b) ==> (N[b].kind == 2 ==> N[b].packs.len() == 0) && (N[b].kind != 2 ==> N[b].packs.len() > 0) && N[b].Start <= N[b].End && N[b].nt < sg.nts.len() && (N[b].nt >= 0 ==> sg.nts[N[b].nt] is Some)) }
pub proof fn htyped_kid(sg: slotGrammar, N: NB, n: int, i: int, j: int) requires htyped(sg, N, n), 0 <= i < N[n].packs.len(), 0 <= j < N[n].packs[i].len(), ensures htyped(sg, N, N[n].packs[i][j]), hstep(N, n, N[n].packs[i][j]), hto(N, n, N[n].packs[i][j]),
{ hin_kid(N, n, i, j); let c = N[n].packs[i][j]; assert forall|b: int| #[trigger] hto(N, c, b) implies (N[b].kind == 2 ==> N[b].packs.len() == 0) && (N[b].kind != 2 ==> N[b].packs.len() > 0) && N[b].Start <= N[b].End && N[b].nt < sg.nts.len() && (N[b].nt >= 0 ==> sg.nts[N[b].nt] is Some) by { hto_trans(N, n, c, b); } }
pub proof fn root_typed(f: Forest, p: gllParser, H: HB, N: NB) requires fo_of(f, p, H, N), f.root != 0, ensures htyped(f.sg->Some_0, N, f.root),
{
  root_lk(f, p, H, N); let k = rkey(p); let sg = p.sg->Some_0;
  assert forall|b: int| #[trigger] hto(N, f.root, b) implies (N[b].kind == 2 ==> N[b].packs.len() == 0) && (N[b].kind != 2 ==> N[b].packs.len() > 0) && N[b].Start <= N[b].End && N[b].nt < sg.nts.len() && (N[b].nt >= 0 ==> sg.nts[N[b].nt] is Some) by {
    let d = choose|d: nat| #[trigger] hpath(N, f.root, b, d); let q = hpath_is(p, H, N, k, b, d); assert(node_is(p, N, q));
    if q.kind == 2 && N[b].packs.len() > 0 { assert(pack_ok(p, q, N[b].packAlts[0], N[b].packs[0])); }
  }
}
// forest trees are derivation trees
pub proof fn hl_is(p: gllParser, H: HB, N: NB, k: nodeKey, ts: Seq<Option<ParseTree>>, h: nat)
  requires gll_end(p, H, N), lk(p, k), hl(p.sg->Some_0, N, p.nodes[k], ts, h), ensures lst(p.sg->Some_0, p.input, dk(k), ts, h), decreases h, 0int,
{
  let sg = p.sg->Some_0; let inp = p.input; let n = N[p.nodes[k]]; assert(node_is(p, N, k));
  if k.kind == 2 { if n.packs.len() > 0 { assert(pack_ok(p, k, n.packAlts[0], n.packs[0])); } }
  else {
    assert(n.packs.len() > 0);
    let i = choose|i: int| 0 <= i < n.packs.len() && #[trigger] pk(i) && hls(sg, N, n.packs[i], n.packs[i].len() as int, ts, (h - 1) as nat); let g = (h - 1) as nat;
    packs_list(p, H, N, k); let x = plof(p, N, k)[i]; assert(nsp(sg, inp, dk(k), x.0, x.1)); split_kids(p, H, N, k, x.0, x.1);
    let L = kslot(sg, k, x.0); let ks = nkids(sg, dk(k), x.0, x.1); let c = n.packs[i]; assert(c == kids(p, L, k.rc, k.start, x.1, k.end)); let m = c.len() as int;
    let q = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && hls(sg, N, c, m - 1, ts.subrange(0, q), g) && hv(sg, N, c[m - 1], ts.subrange(q, ts.len() as int), g);
    let k0 = kk(p, k, L, x.1, 0); eps_span(sg, inp, dk(k), x.0, x.1);
    if m == 1 { assert(q == 0); assert(ts.subrange(0, ts.len() as int) =~= ts); hv_is(p, H, N, k0, ts, g); }
    else {
      let k1 = kk(p, k, L, x.1, 1); let u = ts.subrange(0, q);
      let e = choose|e: int| 0 <= e <= u.len() && #[trigger] tcut(u, e) && hls(sg, N, c, 0, u.subrange(0, e), g) && hv(sg, N, c[0], u.subrange(e, u.len() as int), g);
      assert(e == 0); assert(u.subrange(0, u.len() as int) =~= u);
      hv_is(p, H, N, k0, u, g); hv_is(p, H, N, k1, ts.subrange(q, ts.len() as int), g); assert(tcut(ts, q));
    }
    assert(parts(sg, inp, dk(k), x.0, x.1, ts, g)); assert(nsp(sg, inp, dk(k), x.0, x.1));
  }
}
pub proof fn hv_is(p: gllParser, H: HB, N: NB, k: nodeKey, ts: Seq<Option<ParseTree>>, h: nat)
  requires gll_end(p, H, N), lk(p, k), hv(p.sg->Some_0, N, p.nodes[k], ts, h), ensures vis(p.sg->Some_0, p.input, dk(k), ts, h), decreases h, 1int,
{
  let n = N[p.nodes[k]]; assert(node_is(p, N, k));
  if n.kind == 0 && shows(p.sg->Some_0, n.nt) { hl_is(p, H, N, k, ts[0]->Some_0.Children, h); } else { hl_is(p, H, N, k, ts, h); }
}
pub proof fn tree_is(f: Forest, p: gllParser, H: HB, N: NB, t: Option<ParseTree>)
  requires fo_of(f, p, H, N), f.root != 0, t is Some, rooted(f.sg->Some_0, N, f.root, t->Some_0), ensures tree_of(f.sg->Some_0, f.input, fkey(f), t), chain(t->Some_0.Children, 0, f.input.len() as int),
{
  let sg = f.sg->Some_0; root_lk(f, p, H, N); let k = rkey(p); assert(node_is(p, N, k)); let ts = t->Some_0.Children; let h = choose|h: nat| #[trigger] hl(sg, N, f.root, ts, h);
  hl_is(p, H, N, k, ts, h); lst_chain(sg, f.input, dk(k), ts, h);
}
pub open spec fn rooted(sg: slotGrammar, N: NB, n: int, t: ParseTree) -> bool { t.Start == N[n].Start && t.End == N[n].End && (if N[n].kind == 0 && shows(sg, N[n].nt) { t.Rule == sg_nt(sg, N[n].nt).ruleName } else { t.Rule.len() == 0 }) && HL(sg, N, n, t.Children) }
pub proof fn stk_push(N: NB, S: Map<int, bool>, n: int) requires stk_ok(N, S, n), ensures stk_in(N, S.insert(n, true), n), stk_in(N, S, n),
{ hto_refl(N, n); assert forall|s: int| #[trigger] on(S.insert(n, true), s) implies hto(N, s, n) by { if s != n { assert(on(S, s)); hplus_to(N, s, n); } } assert forall|s: int| #[trigger] on(S, s) implies hto(N, s, n) by { hplus_to(N, s, n); } }
pub proof fn stk_pop(S: Map<int, bool>, T: Map<int, bool>, n: int) requires !on(S, n), stk_same(S.insert(n, true), T), ensures stk_same(S, T.remove(n)),
{ let S1 = S.insert(n, true); assert forall|s: int| #[trigger] on(S, s) implies on(T.remove(n), s) by { assert(on(S1, s)); assert(on(T, s)); } assert forall|s: int| #[trigger] on(T.remove(n), s) implies on(S, s) by { assert(on(T, s)); assert(on(S1, s)); } }
pub proof fn cyc_on(N: NB, S: Map<int, bool>, n: int) requires stk_ok(N, S, n), on(S, n), ensures hcyc(N, n) { hto_refl(N, n); assert(hplus(N, n, n)); }
