// ---- tree.rs: the trees that one derivation shows ----
// Only rules and terminals show; groups, options, repetitions and prefixes are spliced into their parent.
pub open spec fn shows(sg: slotGrammar, nt: int) -> bool { nt >= 0 && sg_nt(sg, nt).isRule }
pub open spec fn rule_t(sg: slotGrammar, t: Option<ParseTree>, nt: int, l: int, r: int) -> bool { t is Some && t->Some_0.Rule == sg_nt(sg, nt).ruleName && t->Some_0.Start == l && t->Some_0.End == r }
pub open spec fn tcut(ts: Seq<Option<ParseTree>>, q: int) -> bool { true }
// ts: what one derivation of k of height at most h shows below k
pub open spec fn lst(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 0int {
  h > 0 && (if k.kind == 2 { leafs(ts, k.l, k.r) } else { exists|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && parts(sg, inp, k, ai, m, ts, (h - 1) as nat) })
}
// epsilon shows nothing
pub open spec fn elast(sg: slotGrammar, k: DK, ai: int) -> bool { nlast(sg, nslot(sg, k, ai)).kind == 2 }
pub open spec fn efirst(sg: slotGrammar, k: DK, ai: int) -> bool { nslot(sg, k, ai).dot == 2 && sprod(sg, nslot(sg, k, ai).nt, ai)[0].kind == 2 }
// what the one or two parts of a split show
pub open spec fn parts(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 2int {
  let ks = nkids(sg, k, ai, m);
  if ks.len() == 1 { (elast(sg, k, ai) ==> ts.len() == 0) && vis(sg, inp, ks[0], ts, h) }
  else { exists|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && (efirst(sg, k, ai) ==> q == 0) && (elast(sg, k, ai) ==> q == ts.len()) && vis(sg, inp, ks[0], ts.subrange(0, q), h) && vis(sg, inp, ks[1], ts.subrange(q, ts.len() as int), h) }
}
// what k itself shows in its parent
pub open spec fn vis(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat) -> bool decreases h, 1int {
  if k.kind == 0 && shows(sg, k.nt) { ts.len() == 1 && rule_t(sg, ts[0], k.nt, k.l, k.r) && lst(sg, inp, k, ts[0]->Some_0.Children, h) } else { lst(sg, inp, k, ts, h) }
}
// the tree of a derivation of k
pub open spec fn tree_of(sg: slotGrammar, inp: Seq<int>, k: DK, t: Option<ParseTree>) -> bool {
  t is Some && t->Some_0.Start == k.l && t->Some_0.End == k.r && (if shows(sg, k.nt) { t->Some_0.Rule == sg_nt(sg, k.nt).ruleName } else { t->Some_0.Rule.len() == 0 }) && (exists|h: nat| #[trigger] lst(sg, inp, k, t->Some_0.Children, h))
}
pub proof fn lst_mono(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, lst(sg, inp, k, ts, h), ensures lst(sg, inp, k, ts, g), decreases h, 0int,
{ if k.kind != 2 { let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && parts(sg, inp, k, ai, m, ts, (h - 1) as nat); parts_mono(sg, inp, k, ai, m, ts, (h - 1) as nat, (g - 1) as nat); assert(nsp(sg, inp, k, ai, m)); } }
pub proof fn parts_mono(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, parts(sg, inp, k, ai, m, ts, h), ensures parts(sg, inp, k, ai, m, ts, g), decreases h, 2int,
{
  let ks = nkids(sg, k, ai, m);
  if ks.len() == 1 { vis_mono(sg, inp, ks[0], ts, h, g); }
  else { let q = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && (efirst(sg, k, ai) ==> q == 0) && (elast(sg, k, ai) ==> q == ts.len()) && vis(sg, inp, ks[0], ts.subrange(0, q), h) && vis(sg, inp, ks[1], ts.subrange(q, ts.len() as int), h); vis_mono(sg, inp, ks[0], ts.subrange(0, q), h, g); vis_mono(sg, inp, ks[1], ts.subrange(q, ts.len() as int), h, g); assert(tcut(ts, q)); }
}
pub proof fn vis_mono(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat, g: nat) requires h <= g, vis(sg, inp, k, ts, h), ensures vis(sg, inp, k, ts, g), decreases h, 1int,
{ if k.kind == 0 && shows(sg, k.nt) { lst_mono(sg, inp, k, ts[0]->Some_0.Children, h, g); } else { lst_mono(sg, inp, k, ts, h, g); } }
pub open spec fn LST(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] lst(sg, inp, k, ts, h) }
pub open spec fn VIS(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] vis(sg, inp, k, ts, h) }
pub open spec fn PARTS(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, ts: Seq<Option<ParseTree>>) -> bool { exists|h: nat| #[trigger] parts(sg, inp, k, ai, m, ts, h) }
// children are in order, adjacent, and cover their parent
pub open spec fn chain(ts: Seq<Option<ParseTree>>, l: int, r: int) -> bool decreases ts.len() {
  if ts.len() == 0 { l == r } else { ts.last() is Some && ts.last()->Some_0.End == r && l <= ts.last()->Some_0.Start <= r && chain(ts.drop_last(), l, ts.last()->Some_0.Start) }
}
pub proof fn chain_join(a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>, l: int, m: int, r: int) requires chain(a, l, m), chain(b, m, r), l <= m, ensures chain(a + b, l, r), decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { chain_join(a, b.drop_last(), l, m, b.last()->Some_0.Start); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn lst_chain(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat) requires lst(sg, inp, k, ts, h), k.l <= k.r, ensures chain(ts, k.l, k.r), decreases h, 0int,
{
  reveal_with_fuel(chain, 3);
  if k.kind == 2 { if ts.len() == 1 { assert(ts.drop_last().len() == 0); } }
  else {
    let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && parts(sg, inp, k, ai, m, ts, (h - 1) as nat);
    let ks = nkids(sg, k, ai, m); let g = (h - 1) as nat; let L = nslot(sg, k, ai);
    if ks.len() == 1 { assert(DP(sg, inp, L.nt, ai, k.rc, 0, k.l, m)); let e = choose|e: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, 0, k.l, m, e); assert(k.l == m); vis_chain(sg, inp, ks[0], ts, g); }
    else {
      let q = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && (efirst(sg, k, ai) ==> q == 0) && (elast(sg, k, ai) ==> q == ts.len()) && vis(sg, inp, ks[0], ts.subrange(0, q), g) && vis(sg, inp, ks[1], ts.subrange(q, ts.len() as int), g);
      vis_chain(sg, inp, ks[0], ts.subrange(0, q), g); vis_chain(sg, inp, ks[1], ts.subrange(q, ts.len() as int), g);
      chain_join(ts.subrange(0, q), ts.subrange(q, ts.len() as int), k.l, m, k.r); assert(ts.subrange(0, q) + ts.subrange(q, ts.len() as int) =~= ts);
    }
  }
}
pub proof fn vis_chain(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>, h: nat) requires vis(sg, inp, k, ts, h), k.l <= k.r, ensures chain(ts, k.l, k.r), decreases h, 1int,
{ reveal_with_fuel(chain, 3); if k.kind == 0 && shows(sg, k.nt) { assert(ts.drop_last().len() == 0); } else { lst_chain(sg, inp, k, ts, h); } }
// what was appended
pub open spec fn tail(a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>) -> Seq<Option<ParseTree>> { b.subrange(a.len() as int, b.len() as int) }
pub open spec fn grew(a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
pub proof fn grew_refl(a: Seq<Option<ParseTree>>) ensures grew(a, a), tail(a, a).len() == 0 { assert(a.subrange(0, a.len() as int) =~= a); }
pub proof fn grew_push(a: Seq<Option<ParseTree>>, x: Option<ParseTree>) ensures grew(a, a.push(x)), tail(a, a.push(x)).len() == 1, tail(a, a.push(x))[0] == x { assert(a.push(x).subrange(0, a.len() as int) =~= a); }
pub proof fn grew_more(a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>, c: Seq<Option<ParseTree>>)
  requires grew(a, b), grew(b, c), ensures grew(a, c), tail(a, c).subrange(0, tail(a, b).len() as int) =~= tail(a, b), tail(a, c).subrange(tail(a, b).len() as int, tail(a, c).len() as int) =~= tail(b, c), tail(a, b).len() <= tail(a, c).len(),
{
  assert forall|i: int| 0 <= i < b.len() implies c[i] == b[i] by { assert(c.subrange(0, b.len() as int)[i] == c[i]); }
  assert(c.subrange(0, a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies c.subrange(0, a.len() as int)[i] == a[i] by { assert(b.subrange(0, a.len() as int)[i] == b[i]); } }
}
pub proof fn some_split(sg: slotGrammar, inp: Seq<int>, k: DK) -> (x: (int, int)) requires sg_ok(sg), good(sg, inp, k), k.kind != 2, ensures nsp(sg, inp, k, x.0, x.1), k.kind == 0 ==> 0 <= x.0 < sg_nt(sg, k.nt).alts.len(),
{
  if k.kind == 0 {
    let h = choose|h: nat| #[trigger] sder(sg, inp, k.nt, k.rc, k.l, k.r, h);
    let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, k.nt).alts.len() && allowed(sg, k.nt, k.rc, ai) && spre(sg, inp, k.nt, ai, k.rc, sprod(sg, k.nt, ai).len() as int, k.l, k.r, (h - 1) as nat);
    assert(sg_nt(sg, k.nt).alts[ai].len() >= 1); some_split_at(sg, inp, k, ai, (h - 1) as nat)
  } else { let h = choose|h: nat| #[trigger] spre(sg, inp, k.L.nt, k.L.alt, k.rc, k.L.dot, k.l, k.r, h); some_split_at(sg, inp, k, k.L.alt, h) }
}
pub proof fn some_split_at(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, h: nat) -> (x: (int, int))
  requires sg_ok(sg), k.kind != 2, slot_ok(sg, nslot(sg, k, ai)), nslot(sg, k, ai).alt == ai, nslot(sg, k, ai).dot >= 1, allowed(sg, nslot(sg, k, ai).nt, k.rc, ai), 0 <= k.l <= k.r <= inp.len(), spre(sg, inp, nslot(sg, k, ai).nt, ai, k.rc, nslot(sg, k, ai).dot, k.l, k.r, h),
  ensures x.0 == ai, nsp(sg, inp, k, x.0, x.1),
{
  let L = nslot(sg, k, ai); let s = nlast(sg, L); let c = nlrc(sg, L, k.rc);
  let m = choose|m: int| #[trigger] pk(m) && k.l <= m <= k.r && spre(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, m, h) && ssy(sg, inp, s, c, m, k.r, h);
  assert(nsp(sg, inp, k, ai, m)); (ai, m)
}
pub proof fn LST_node(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, ts: Seq<Option<ParseTree>>) requires nsp(sg, inp, k, ai, m), PARTS(sg, inp, k, ai, m, ts), ensures LST(sg, inp, k, ts),
{ let h = choose|h: nat| #[trigger] parts(sg, inp, k, ai, m, ts, h); assert(lst(sg, inp, k, ts, h + 1)); }
pub proof fn LST_leaf(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>) requires k.kind == 2, leafs(ts, k.l, k.r), ensures VIS(sg, inp, k, ts), { assert(lst(sg, inp, k, ts, 1)); assert(vis(sg, inp, k, ts, 1)); }
pub proof fn VIS_hide(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>) requires !(k.kind == 0 && shows(sg, k.nt)), LST(sg, inp, k, ts), ensures VIS(sg, inp, k, ts), { let h = choose|h: nat| #[trigger] lst(sg, inp, k, ts, h); assert(vis(sg, inp, k, ts, h)); }
pub proof fn VIS_show(sg: slotGrammar, inp: Seq<int>, k: DK, ts: Seq<Option<ParseTree>>) requires k.kind == 0 && shows(sg, k.nt), ts.len() == 1, rule_t(sg, ts[0], k.nt, k.l, k.r), LST(sg, inp, k, ts[0]->Some_0.Children), ensures VIS(sg, inp, k, ts),
{ let h = choose|h: nat| #[trigger] lst(sg, inp, k, ts[0]->Some_0.Children, h); assert(vis(sg, inp, k, ts, h)); }
pub proof fn PARTS_1(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, ts: Seq<Option<ParseTree>>) requires nkids(sg, k, ai, m).len() == 1, VIS(sg, inp, nkids(sg, k, ai, m)[0], ts), elast(sg, k, ai) ==> ts.len() == 0, ensures PARTS(sg, inp, k, ai, m, ts),
{ let h = choose|h: nat| #[trigger] vis(sg, inp, nkids(sg, k, ai, m)[0], ts, h); assert(parts(sg, inp, k, ai, m, ts, h)); }
pub proof fn PARTS_2(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, a: Seq<Option<ParseTree>>, b: Seq<Option<ParseTree>>, d: Seq<Option<ParseTree>>)
  requires nkids(sg, k, ai, m).len() == 2, grew(a, b), grew(b, d), VIS(sg, inp, nkids(sg, k, ai, m)[0], tail(a, b)), VIS(sg, inp, nkids(sg, k, ai, m)[1], tail(b, d)), efirst(sg, k, ai) ==> tail(a, b).len() == 0, elast(sg, k, ai) ==> tail(b, d).len() == 0, ensures PARTS(sg, inp, k, ai, m, tail(a, d)),
{
  let ks = nkids(sg, k, ai, m);
  grew_more(a, b, d); let ts = tail(a, d); let q = tail(a, b).len() as int;
  let h = choose|h: nat| #[trigger] vis(sg, inp, ks[0], tail(a, b), h); let g = choose|g: nat| #[trigger] vis(sg, inp, ks[1], tail(b, d), g); let z = if h >= g { h } else { g };
  vis_mono(sg, inp, ks[0], tail(a, b), h, z); vis_mono(sg, inp, ks[1], tail(b, d), g, z); assert(tcut(ts, q)); assert(parts(sg, inp, k, ai, m, ts, z));
}
// the last symbol of a split, and its first when only one precedes it: epsilon spans nothing
pub proof fn eps_span(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int) requires nsp(sg, inp, k, ai, m),
  ensures nlast(sg, nslot(sg, k, ai)).kind == 2 ==> m == k.r, nslot(sg, k, ai).dot == 2 && sprod(sg, nslot(sg, k, ai).nt, ai)[0].kind == 2 ==> k.l == m, nslot(sg, k, ai).dot == 1 ==> k.l == m,
{
  let L = nslot(sg, k, ai); let h = choose|h: nat| #[trigger] ssy(sg, inp, nlast(sg, L), nlrc(sg, L, k.rc), m, k.r, h);
  let g = choose|g: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, m, g);
  if L.dot == 2 { let s0 = sprod(sg, L.nt, ai)[0]; let q = choose|q: int| #[trigger] pk(q) && k.l <= q <= m && spre(sg, inp, L.nt, ai, k.rc, 0, k.l, q, g) && ssy(sg, inp, s0, crc(sg, L.nt, k.rc, s0), q, m, g); }
}
