// ---- cnt.rs: how many derivations there are ----
// A node of the derivation graph: a nonterminal over [l,r) (kind 0), a production prefix over [l,r) (kind 1), a terminal leaf (kind 2).
pub struct DK { pub kind: int, pub L: slot, pub nt: int, pub l: int, pub r: int, pub rc: int }
pub open spec fn nsl(nt: int, alt: int, dot: int) -> slot { slot { nt: nt, alt: alt, dot: dot } }
pub open spec fn dsy(nt: int, l: int, r: int, rc: int) -> DK { DK { kind: 0, L: nsl(0, 0, 0), nt: nt, l: l, r: r, rc: rc } }
pub open spec fn din(L: slot, l: int, r: int, rc: int) -> DK { DK { kind: 1, L: L, nt: 0, l: l, r: r, rc: rc } }
pub open spec fn dlf(l: int, r: int) -> DK { DK { kind: 2, L: nsl(0, 0, 0), nt: 0, l: l, r: r, rc: 0 } }
pub open spec fn dsym(s: ssym, c: int, l: int, r: int) -> DK { if s.kind == 0 { dsy(s.nt, l, r, c) } else { dlf(l, r) } }
pub open spec fn nslot(sg: slotGrammar, k: DK, ai: int) -> slot { if k.kind == 0 { nsl(k.nt, ai, sprod(sg, k.nt, ai).len() as int) } else { k.L } }
pub open spec fn nlast(sg: slotGrammar, L: slot) -> ssym { sprod(sg, L.nt, L.alt)[L.dot - 1] }
pub open spec fn nlrc(sg: slotGrammar, L: slot, rc: int) -> int { crc(sg, L.nt, rc, nlast(sg, L)) }
// the node derives with alternative ai, its last symbol starting at m
pub open spec fn nsp(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int) -> bool {
  let L = nslot(sg, k, ai);
  k.kind != 2 && slot_ok(sg, L) && L.alt == ai && L.dot >= 1 && allowed(sg, L.nt, k.rc, ai) && 0 <= k.l <= m <= k.r <= inp.len()
  && DP(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, m) && DY(sg, inp, nlast(sg, L), nlrc(sg, L, k.rc), m, k.r)
}
pub open spec fn npre(sg: slotGrammar, L: slot, l: int, r: int, rc: int) -> DK { if L.dot == 1 { dsym(nlast(sg, L), nlrc(sg, L, rc), l, r) } else { din(L, l, r, rc) } }
pub open spec fn nkids(sg: slotGrammar, k: DK, ai: int, m: int) -> Seq<DK> {
  let L = nslot(sg, k, ai); let z = dsym(nlast(sg, L), nlrc(sg, L, k.rc), m, k.r);
  if L.dot == 1 { seq![z] } else { seq![npre(sg, nsl(L.nt, L.alt, L.dot - 1), k.l, m, k.rc), z] }
}
// candidates for (alternative, start of the last symbol)
pub open spec fn row(ai: int, l: int, r: int) -> Seq<(int, int)> decreases r - l + 1 { if r < l { Seq::empty() } else { row(ai, l, r - 1).push((ai, r)) } }
pub open spec fn rows(n: int, l: int, r: int) -> Seq<(int, int)> decreases n { if n <= 0 { Seq::empty() } else { rows(n - 1, l, r) + row(n - 1, l, r) } }
pub open spec fn cands(sg: slotGrammar, k: DK) -> Seq<(int, int)> { if k.kind == 0 { rows(sg_nt(sg, k.nt).alts.len() as int, k.l, k.r) } else { row(k.L.alt, k.l, k.r) } }
// the number of derivations of height at most h of a node; over a list of splits; of a list of nodes
pub open spec fn w(sg: slotGrammar, inp: Seq<int>, k: DK, h: nat) -> int decreases h, 0int, 0int { if h == 0 { 0 } else if k.kind == 2 { 1 } else { wsum(sg, inp, k, cands(sg, k), (h - 1) as nat) } }
pub open spec fn wsum(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, h: nat) -> int decreases h, 2int, c.len() {
  if c.len() == 0 { 0 } else { wsum(sg, inp, k, c.drop_last(), h) + wone(sg, inp, k, c.last(), h) }
}
pub open spec fn wone(sg: slotGrammar, inp: Seq<int>, k: DK, x: (int, int), h: nat) -> int decreases h, 1int, 1int + 2 { if nsp(sg, inp, k, x.0, x.1) { wprod(sg, inp, nkids(sg, k, x.0, x.1), h) } else { 0 } }
pub open spec fn wprod(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, h: nat) -> int decreases h, 1int, 0int {
  if ks.len() == 1 { w(sg, inp, ks[0], h) } else { w(sg, inp, ks[0], h) * w(sg, inp, ks[1], h) }
}
pub proof fn row_has(ai: int, l: int, r: int)
  ensures row(ai, l, r).no_duplicates(), forall|x: (int, int)| #[trigger] row(ai, l, r).contains(x) <==> x.0 == ai && l <= x.1 <= r, decreases r - l + 1,
{
  if l <= r {
    row_has(ai, l, r - 1); let a = row(ai, l, r - 1); let b = row(ai, l, r);
    assert forall|x: (int, int)| #[trigger] b.contains(x) <==> x.0 == ai && l <= x.1 <= r by {
      if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); assert(a.contains(x)); } }
      if x.0 == ai && l <= x.1 <= r { if x.1 == r { assert(b[a.len() as int] == x); } else { assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i < a.len() { assert(a.contains(a[i])); } if j < a.len() { assert(a.contains(a[j])); } }
  }
}
pub proof fn rows_has(n: int, l: int, r: int)
  ensures rows(n, l, r).no_duplicates(), forall|x: (int, int)| #[trigger] rows(n, l, r).contains(x) <==> 0 <= x.0 < n && l <= x.1 <= r, decreases n,
{
  if n > 0 {
    rows_has(n - 1, l, r); row_has(n - 1, l, r); let a = rows(n - 1, l, r); let c = row(n - 1, l, r); let b = a + c;
    assert forall|x: (int, int)| #[trigger] b.contains(x) <==> 0 <= x.0 < n && l <= x.1 <= r by {
      if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); assert(a.contains(x)); } else { assert(c[i - a.len()] == x); assert(c.contains(x)); } }
      if 0 <= x.0 < n && l <= x.1 <= r { if x.0 == n - 1 { assert(c.contains(x)); let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(b[a.len() + i] == x); } else { assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
      if i < a.len() { assert(a.contains(a[i])); assert(b[i].0 < n - 1); } else { assert(c.contains(c[i - a.len()])); assert(b[i].0 == n - 1); }
      if j < a.len() { assert(a.contains(a[j])); assert(b[j].0 < n - 1); } else { assert(c.contains(c[j - a.len()])); assert(b[j].0 == n - 1); }
    }
  }
}
pub proof fn cands_has(sg: slotGrammar, inp: Seq<int>, k: DK)
  ensures cands(sg, k).no_duplicates(), forall|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) ==> cands(sg, k).contains((ai, m)),
{ rows_has(sg_nt(sg, k.nt).alts.len() as int, k.l, k.r); row_has(k.L.alt, k.l, k.r); }
// a list of exactly the splits of a node, each once
pub open spec fn plist(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>) -> bool {
  c.no_duplicates() && (forall|i: int| 0 <= i < c.len() ==> nsp(sg, inp, k, (#[trigger] c[i]).0, c[i].1)) && (forall|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) ==> c.contains((ai, m)))
}
pub proof fn wsum_del(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, i: int, h: nat)
  requires 0 <= i < c.len(), ensures wsum(sg, inp, k, c, h) == wsum(sg, inp, k, c.remove(i), h) + wone(sg, inp, k, c[i], h), decreases c.len(),
{
  let d = c.remove(i);
  if i == c.len() - 1 { assert(d =~= c.drop_last()); }
  else { wsum_del(sg, inp, k, c.drop_last(), i, h); assert(d.drop_last() =~= c.drop_last().remove(i)); assert(d.last() == c.last()); }
}
// equal sums over two lists with the same splits
pub proof fn wsum_same(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, d: Seq<(int, int)>, h: nat)
  requires c.no_duplicates(), d.no_duplicates(), forall|x: (int, int)| nsp(sg, inp, k, x.0, x.1) ==> (#[trigger] c.contains(x) <==> d.contains(x)),
  ensures wsum(sg, inp, k, c, h) == wsum(sg, inp, k, d, h), decreases c.len(),
{
  if c.len() == 0 { wsum_zero(sg, inp, k, c, d, h); }
  else {
    let x = c.last(); let e = c.drop_last();
    assert(c.contains(x));
    assert(!e.contains(x));
    assert forall|y: (int, int)| #[trigger] c.contains(y) <==> e.contains(y) || y == x by {
      if c.contains(y) { let i = choose|i: int| 0 <= i < c.len() && c[i] == y; if i < e.len() { assert(e[i] == y); } }
      if e.contains(y) { let i = choose|i: int| 0 <= i < e.len() && e[i] == y; assert(c[i] == y); }
    }
    if nsp(sg, inp, k, x.0, x.1) {
      assert(d.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; let f = d.remove(i);
      wsum_del(sg, inp, k, d, i, h);
      assert forall|y: (int, int)| #[trigger] d.contains(y) <==> f.contains(y) || y == x by {
        if d.contains(y) { let j = choose|j: int| 0 <= j < d.len() && d[j] == y; if j < i { assert(f[j] == y); } else if j > i { assert(f[j - 1] == y); } }
        if f.contains(y) { let j = choose|j: int| 0 <= j < f.len() && f[j] == y; if j < i { assert(d[j] == y); } else { assert(d[j + 1] == y); } }
      }
      assert(!f.contains(x)) by { if f.contains(x) { let j = choose|j: int| 0 <= j < f.len() && f[j] == x; if j < i { assert(d[j] == x); } else { assert(d[j + 1] == x); } } }
      assert(f.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < f.len() && 0 <= b < f.len() && a != b implies f[a] != f[b] by { let a2 = if a < i { a } else { a + 1 }; let b2 = if b < i { b } else { b + 1 }; assert(f[a] == d[a2] && f[b] == d[b2]); } }
      assert forall|y: (int, int)| nsp(sg, inp, k, y.0, y.1) implies (#[trigger] e.contains(y) <==> f.contains(y)) by { assert(c.contains(y) <==> d.contains(y)); }
      wsum_same(sg, inp, k, e, f, h);
    } else {
      assert forall|y: (int, int)| nsp(sg, inp, k, y.0, y.1) implies (#[trigger] e.contains(y) <==> d.contains(y)) by { assert(c.contains(y) <==> d.contains(y)); }
      wsum_same(sg, inp, k, e, d, h); assert(wone(sg, inp, k, x, h) == 0);
    }
  }
}
pub proof fn wsum_zero(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, d: Seq<(int, int)>, h: nat)
  requires c.len() == 0, forall|x: (int, int)| nsp(sg, inp, k, x.0, x.1) ==> (#[trigger] c.contains(x) <==> d.contains(x)), ensures wsum(sg, inp, k, d, h) == 0, decreases d.len(),
{
  if d.len() > 0 {
    let x = d.last(); let e = d.drop_last(); assert(d.contains(x)); assert(!c.contains(x));
    assert forall|y: (int, int)| nsp(sg, inp, k, y.0, y.1) implies (#[trigger] c.contains(y) <==> e.contains(y)) by { assert(!c.contains(y)); if e.contains(y) { let i = choose|i: int| 0 <= i < e.len() && e[i] == y; assert(d[i] == y); assert(d.contains(y)); } }
    wsum_zero(sg, inp, k, c, e, h); assert(wone(sg, inp, k, x, h) == 0);
  }
}
pub proof fn w_list(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, h: nat)
  requires k.kind != 2, plist(sg, inp, k, c), ensures w(sg, inp, k, h + 1) == wsum(sg, inp, k, c, h),
{
  cands_has(sg, inp, k);
  assert forall|x: (int, int)| nsp(sg, inp, k, x.0, x.1) implies (#[trigger] cands(sg, k).contains(x) <==> c.contains(x)) by { assert(cands(sg, k).contains((x.0, x.1))); assert(c.contains((x.0, x.1))); }
  wsum_same(sg, inp, k, cands(sg, k), c, h);
}
// ---- monotone in the height ----
pub proof fn w_mono(sg: slotGrammar, inp: Seq<int>, k: DK, h: nat, g: nat)
  requires h <= g, ensures 0 <= w(sg, inp, k, h) <= w(sg, inp, k, g), decreases h, 0int, 0int,
{ if h > 0 { if k.kind != 2 { wsum_mono(sg, inp, k, cands(sg, k), (h - 1) as nat, (g - 1) as nat); } } else { w_nonneg(sg, inp, k, g); } }
pub proof fn w_nonneg(sg: slotGrammar, inp: Seq<int>, k: DK, h: nat) ensures 0 <= w(sg, inp, k, h), decreases h, 0int, 0int,
{ if h > 0 && k.kind != 2 { wsum_nonneg(sg, inp, k, cands(sg, k), (h - 1) as nat); } }
pub proof fn wsum_nonneg(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, h: nat) ensures 0 <= wsum(sg, inp, k, c, h), decreases h, 2int, c.len(),
{ if c.len() > 0 { wsum_nonneg(sg, inp, k, c.drop_last(), h); let x = c.last(); if nsp(sg, inp, k, x.0, x.1) { let ks = nkids(sg, k, x.0, x.1); w_nonneg(sg, inp, ks[0], h); w_nonneg(sg, inp, ks[1], h); mul_nn(w(sg, inp, ks[0], h), w(sg, inp, ks[1], h)); assert(wprod(sg, inp, ks, h) >= 0); } assert(wone(sg, inp, k, x, h) >= 0); } }
pub proof fn mul_nn(a: int, b: int) by (nonlinear_arith) requires a >= 0, b >= 0, ensures a * b >= 0, a >= 1 ==> a * b >= b, b >= 1 ==> a * b >= a, a == 0 || b == 0 ==> a * b == 0, {}
pub proof fn mul_le(a: int, b: int, c: int, d: int) by (nonlinear_arith) requires 0 <= a <= c, 0 <= b <= d, ensures 0 <= a * b <= c * d, {}
pub proof fn wsum_mono(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, h: nat, g: nat)
  requires h <= g, ensures 0 <= wsum(sg, inp, k, c, h) <= wsum(sg, inp, k, c, g), decreases h, 2int, c.len(),
{ if c.len() > 0 { wsum_mono(sg, inp, k, c.drop_last(), h, g); wone_mono(sg, inp, k, c.last(), h, g); } }
pub proof fn wone_mono(sg: slotGrammar, inp: Seq<int>, k: DK, x: (int, int), h: nat, g: nat)
  requires h <= g, ensures 0 <= wone(sg, inp, k, x, h) <= wone(sg, inp, k, x, g), decreases h, 1int, 3int,
{ if nsp(sg, inp, k, x.0, x.1) { wprod_mono(sg, inp, nkids(sg, k, x.0, x.1), h, g); } }
pub proof fn wprod_mono(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, h: nat, g: nat)
  requires h <= g, ensures 0 <= wprod(sg, inp, ks, h) <= wprod(sg, inp, ks, g), decreases h, 1int, 0int,
{ w_mono(sg, inp, ks[0], h, g); w_mono(sg, inp, ks[1], h, g); mul_le(w(sg, inp, ks[0], h), w(sg, inp, ks[1], h), w(sg, inp, ks[0], g), w(sg, inp, ks[1], g)); }
// ---- nodes that derive something: their number is positive ----
pub open spec fn good(sg: slotGrammar, inp: Seq<int>, k: DK) -> bool {
  if k.kind == 0 { k == dsy(k.nt, k.l, k.r, k.rc) && sg_has(sg, k.nt) && 0 <= k.l <= k.r <= inp.len() && DS(sg, inp, k.nt, k.rc, k.l, k.r) }
  else if k.kind == 1 { k == din(k.L, k.l, k.r, k.rc) && slot_ok(sg, k.L) && 2 <= k.L.dot < sprod(sg, k.L.nt, k.L.alt).len() && allowed(sg, k.L.nt, k.rc, k.L.alt) && 0 <= k.l <= k.r <= inp.len() && DP(sg, inp, k.L.nt, k.L.alt, k.rc, k.L.dot, k.l, k.r) }
  else { k == dlf(k.l, k.r) }
}
pub open spec fn pos(sg: slotGrammar, inp: Seq<int>, k: DK) -> bool { exists|h: nat| #[trigger] w(sg, inp, k, h) >= 1 }
pub proof fn good_kid(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, j: int)
  requires sg_ok(sg), good(sg, inp, k), nsp(sg, inp, k, ai, m), 0 <= j < nkids(sg, k, ai, m).len(), ensures good(sg, inp, nkids(sg, k, ai, m)[j]),
{
  let L = nslot(sg, k, ai); let ks = nkids(sg, k, ai, m); let s = nlast(sg, L); let c = nlrc(sg, L, k.rc);
  let z = dsym(s, c, m, k.r);
  assert(sym_ok(sg, sg_nt(sg, L.nt).alts[L.alt][L.dot - 1]));
  if s.kind == 0 { let h = choose|h: nat| #[trigger] ssy(sg, inp, s, c, m, k.r, h); assert(sder(sg, inp, s.nt, c, m, k.r, h)); }
  assert(good(sg, inp, z));
  if L.dot == 2 {
    let P = nsl(L.nt, L.alt, 1); let s0 = nlast(sg, P); let c0 = nlrc(sg, P, k.rc);
    let h = choose|h: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, 1, k.l, m, h);
    let q = choose|q: int| #[trigger] pk(q) && k.l <= q <= m && spre(sg, inp, L.nt, ai, k.rc, 0, k.l, q, h) && ssy(sg, inp, s0, c0, q, m, h);
    assert(sym_ok(sg, sg_nt(sg, L.nt).alts[L.alt][0]));
    if s0.kind == 0 { assert(sder(sg, inp, s0.nt, c0, k.l, m, h)); }
  }
}
pub proof fn pos_node(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, h: nat)
  requires nsp(sg, inp, k, ai, m), wprod(sg, inp, nkids(sg, k, ai, m), h) >= 1, ensures w(sg, inp, k, h + 1) >= 1,
{
  cands_has(sg, inp, k); let c = cands(sg, k); assert(c.contains((ai, m)));
  let i = choose|i: int| 0 <= i < c.len() && c[i] == (ai, m); wsum_del(sg, inp, k, c, i, h); wsum_nonneg(sg, inp, k, c.remove(i), h);
}
pub proof fn pos_two(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>) -> (h: nat)
  requires 1 <= ks.len() <= 2, forall|j: int| 0 <= j < ks.len() ==> pos(sg, inp, #[trigger] ks[j]), ensures wprod(sg, inp, ks, h) >= 1,
{
  assert(pos(sg, inp, ks[0]));
  let f = choose|f: nat| #[trigger] w(sg, inp, ks[0], f) >= 1;
  if ks.len() == 1 { f } else {
    assert(pos(sg, inp, ks[1]));
    let g = choose|g: nat| #[trigger] w(sg, inp, ks[1], g) >= 1; let h = if f >= g { f } else { g };
    w_mono(sg, inp, ks[0], f, h); w_mono(sg, inp, ks[1], g, h); mul_nn(w(sg, inp, ks[0], h), w(sg, inp, ks[1], h));
    h
  }
}
pub proof fn pos_sder(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int, r: int, h: nat)
  requires sg_ok(sg), sg_has(sg, nt), 0 <= l <= r <= inp.len(), sder(sg, inp, nt, rc, l, r, h), ensures pos(sg, inp, dsy(nt, l, r, rc)), decreases h, 0int, 0int,
{
  let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, nt).alts.len() && allowed(sg, nt, rc, ai) && spre(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
  assert(sg_nt(sg, nt).alts[ai].len() >= 1);
  pos_split(sg, inp, dsy(nt, l, r, rc), ai, (h - 1) as nat);
}
// a node whose prefix derives has a positive number
pub proof fn pos_split(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, h: nat)
  requires sg_ok(sg), k.kind != 2, slot_ok(sg, nslot(sg, k, ai)), nslot(sg, k, ai).alt == ai, nslot(sg, k, ai).dot >= 1, allowed(sg, nslot(sg, k, ai).nt, k.rc, ai), 0 <= k.l <= k.r <= inp.len(), k.kind == 1 ==> k == din(k.L, k.l, k.r, k.rc),
    spre(sg, inp, nslot(sg, k, ai).nt, ai, k.rc, nslot(sg, k, ai).dot, k.l, k.r, h),
  ensures pos(sg, inp, k), decreases h, 3int, nslot(sg, k, ai).dot,
{
  let L = nslot(sg, k, ai); let s = nlast(sg, L); let c = nlrc(sg, L, k.rc);
  let m = choose|m: int| #[trigger] pk(m) && k.l <= m <= k.r && spre(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, m, h) && ssy(sg, inp, s, c, m, k.r, h);
  assert(nsp(sg, inp, k, ai, m));
  let ks = nkids(sg, k, ai, m);
  pos_sym(sg, inp, L.nt, ai, L.dot - 1, c, m, k.r, h);
  assert(pos(sg, inp, ks[ks.len() - 1]));
  if L.dot == 2 {
    let P = nsl(L.nt, L.alt, 1);
    let q = choose|q: int| #[trigger] pk(q) && k.l <= q <= m && spre(sg, inp, L.nt, ai, k.rc, 0, k.l, q, h) && ssy(sg, inp, nlast(sg, P), nlrc(sg, P, k.rc), q, m, h);
    pos_sym(sg, inp, L.nt, ai, 0, nlrc(sg, P, k.rc), k.l, m, h);
  } else if L.dot > 2 {
    let P = nsl(L.nt, L.alt, L.dot - 1);
    pos_split(sg, inp, din(P, k.l, m, k.rc), ai, h);
  }
  assert forall|j: int| 0 <= j < ks.len() implies pos(sg, inp, #[trigger] ks[j]) by {}
  let g = pos_two(sg, inp, ks);
  pos_node(sg, inp, k, ai, m, g);
}
pub proof fn pos_sym(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, d: int, c: int, l: int, r: int, h: nat)
  requires sg_ok(sg), sg_has(sg, nt), 0 <= ai < sg_nt(sg, nt).alts.len(), 0 <= d < sprod(sg, nt, ai).len(), 0 <= l <= r <= inp.len(), ssy(sg, inp, sprod(sg, nt, ai)[d], c, l, r, h),
  ensures pos(sg, inp, dsym(sprod(sg, nt, ai)[d], c, l, r)), decreases h, 1int, 0int,
{
  let s = sprod(sg, nt, ai)[d]; assert(sym_ok(sg, sg_nt(sg, nt).alts[ai][d]));
  if s.kind == 0 { pos_sder(sg, inp, s.nt, c, l, r, h); } else { assert(w(sg, inp, dlf(l, r), 1) >= 1); }
}
pub proof fn good_pos(sg: slotGrammar, inp: Seq<int>, k: DK)
  requires sg_ok(sg), good(sg, inp, k), ensures pos(sg, inp, k),
{
  if k.kind == 0 { let h = choose|h: nat| #[trigger] sder(sg, inp, k.nt, k.rc, k.l, k.r, h); pos_sder(sg, inp, k.nt, k.rc, k.l, k.r, h); }
  else if k.kind == 1 { let h = choose|h: nat| #[trigger] spre(sg, inp, k.L.nt, k.L.alt, k.rc, k.L.dot, k.l, k.r, h); pos_split(sg, inp, k, k.L.alt, h); }
  else { assert(w(sg, inp, k, 1) >= 1); }
}
// ---- the derivation graph: steps and paths ----
pub open spec fn gstep(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK) -> bool { exists|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && nkids(sg, k, ai, m).contains(c) }
pub open spec fn gpath(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK, d: nat) -> bool decreases d { if d == 0 { k == c } else { exists|b: DK| #[trigger] gstep(sg, inp, b, c) && gpath(sg, inp, k, b, (d - 1) as nat) } }
pub open spec fn gto(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK) -> bool { exists|d: nat| #[trigger] gpath(sg, inp, k, c, d) }
pub open spec fn gcyc(sg: slotGrammar, inp: Seq<int>, c: DK) -> bool { exists|b: DK| #[trigger] gstep(sg, inp, b, c) && gto(sg, inp, c, b) }
pub proof fn gto_refl(sg: slotGrammar, inp: Seq<int>, k: DK) ensures gto(sg, inp, k, k) { assert(gpath(sg, inp, k, k, 0)); }
pub proof fn gto_step(sg: slotGrammar, inp: Seq<int>, k: DK, b: DK, c: DK) requires gto(sg, inp, k, b), gstep(sg, inp, b, c), ensures gto(sg, inp, k, c),
{ let d = choose|d: nat| #[trigger] gpath(sg, inp, k, b, d); assert(gpath(sg, inp, k, c, d + 1)); }
pub proof fn gstep_of(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, j: int) requires nsp(sg, inp, k, ai, m), 0 <= j < nkids(sg, k, ai, m).len(), ensures gstep(sg, inp, k, nkids(sg, k, ai, m)[j]),
{ assert(nkids(sg, k, ai, m).contains(nkids(sg, k, ai, m)[j])); }
pub proof fn gstep_good(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK) requires sg_ok(sg), good(sg, inp, k), gstep(sg, inp, k, c), ensures good(sg, inp, c),
{ let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && nkids(sg, k, ai, m).contains(c); let ks = nkids(sg, k, ai, m); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == c; good_kid(sg, inp, k, ai, m, j); }
pub proof fn gpath_good(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK, d: nat) requires sg_ok(sg), good(sg, inp, k), gpath(sg, inp, k, c, d), ensures good(sg, inp, c), decreases d,
{ if d > 0 { let b = choose|b: DK| #[trigger] gstep(sg, inp, b, c) && gpath(sg, inp, k, b, (d - 1) as nat); gpath_good(sg, inp, k, b, (d - 1) as nat); gstep_good(sg, inp, b, c); } }
pub proof fn gpath_join(sg: slotGrammar, inp: Seq<int>, a: DK, b: DK, c: DK, d: nat, e: nat) requires gpath(sg, inp, a, b, d), gpath(sg, inp, b, c, e), ensures gto(sg, inp, a, c), decreases e,
{ if e == 0 {} else { let x = choose|x: DK| #[trigger] gstep(sg, inp, x, c) && gpath(sg, inp, b, x, (e - 1) as nat); gpath_join(sg, inp, a, b, x, d, (e - 1) as nat); gto_step(sg, inp, a, x, c); } }
pub proof fn gto_trans(sg: slotGrammar, inp: Seq<int>, a: DK, b: DK, c: DK) requires gto(sg, inp, a, b), gto(sg, inp, b, c), ensures gto(sg, inp, a, c),
{ let d = choose|d: nat| #[trigger] gpath(sg, inp, a, b, d); let e = choose|e: nat| #[trigger] gpath(sg, inp, b, c, e); gpath_join(sg, inp, a, b, c, d, e); }
// a split counts at least as much as each of its parts, once the others are positive
pub proof fn kid_le(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, j: int) -> (H: nat)
  requires sg_ok(sg), good(sg, inp, k), nsp(sg, inp, k, ai, m), 0 <= j < nkids(sg, k, ai, m).len(),
  ensures forall|h: nat| h >= H ==> wprod(sg, inp, nkids(sg, k, ai, m), h) >= #[trigger] w(sg, inp, nkids(sg, k, ai, m)[j], h),
{
  let ks = nkids(sg, k, ai, m); let o = if j == 0 { 1int } else { 0int };
  if ks.len() == 1 { 0 } else {
    good_kid(sg, inp, k, ai, m, o); good_pos(sg, inp, ks[o]);
    let H = choose|h: nat| #[trigger] w(sg, inp, ks[o], h) >= 1;
    assert forall|h: nat| h >= H implies wprod(sg, inp, ks, h) >= #[trigger] w(sg, inp, ks[j], h) by { w_mono(sg, inp, ks[o], H, h); w_nonneg(sg, inp, ks[j], h); mul_nn(w(sg, inp, ks[0], h), w(sg, inp, ks[1], h)); }
    H
  }
}
// the number of derivations is at least b, from some height on
pub open spec fn atleast(sg: slotGrammar, inp: Seq<int>, k: DK, b: int) -> bool { exists|h: nat| #[trigger] w(sg, inp, k, h) >= b }
// exactly v derivations
pub open spec fn exactly(sg: slotGrammar, inp: Seq<int>, k: DK, v: int) -> bool { exists|H: nat| #[trigger] settled(sg, inp, k, v, H) }
pub open spec fn settled(sg: slotGrammar, inp: Seq<int>, k: DK, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] w(sg, inp, k, h) == v }
pub open spec fn infinitely(sg: slotGrammar, inp: Seq<int>, k: DK) -> bool { forall|b: int| #[trigger] atleast(sg, inp, k, b) }
pub proof fn step_le(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK, b: int)
  requires sg_ok(sg), good(sg, inp, k), gstep(sg, inp, k, c), atleast(sg, inp, c, b), ensures atleast(sg, inp, k, b),
{
  let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && nkids(sg, k, ai, m).contains(c); let ks = nkids(sg, k, ai, m); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == c;
  let H = kid_le(sg, inp, k, ai, m, j); let f = choose|h: nat| #[trigger] w(sg, inp, c, h) >= b; let h = if f >= H { f } else { H };
  w_mono(sg, inp, c, f, h); assert(wprod(sg, inp, ks, h) >= w(sg, inp, ks[j], h));
  let cs = cands(sg, k); cands_has(sg, inp, k); assert(cs.contains((ai, m))); let i = choose|i: int| 0 <= i < cs.len() && cs[i] == (ai, m); wsum_del(sg, inp, k, cs, i, h); wsum_nonneg(sg, inp, k, cs.remove(i), h);
  assert(w(sg, inp, k, h + 1) >= b);
}
pub proof fn path_le(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK, d: nat, b: int)
  requires sg_ok(sg), good(sg, inp, k), gpath(sg, inp, k, c, d), atleast(sg, inp, c, b), ensures atleast(sg, inp, k, b), decreases d,
{ if d > 0 { let x = choose|x: DK| #[trigger] gstep(sg, inp, x, c) && gpath(sg, inp, k, x, (d - 1) as nat); gpath_good(sg, inp, k, x, (d - 1) as nat); step_le(sg, inp, x, c, b); path_le(sg, inp, k, x, (d - 1) as nat, b); } }
// two splits of one node: at least two derivations
pub proof fn two_splits(sg: slotGrammar, inp: Seq<int>, k: DK, x: (int, int), y: (int, int))
  requires sg_ok(sg), good(sg, inp, k), nsp(sg, inp, k, x.0, x.1), nsp(sg, inp, k, y.0, y.1), x != y, ensures atleast(sg, inp, k, 2),
{ let b = more_splits(sg, inp, k, x, y, 1); }
// a node with another split beside one that counts b counts more than b
pub proof fn more_splits(sg: slotGrammar, inp: Seq<int>, k: DK, x: (int, int), y: (int, int), b: int) -> (r: nat)
  requires sg_ok(sg), good(sg, inp, k), nsp(sg, inp, k, x.0, x.1), nsp(sg, inp, k, y.0, y.1), x != y, b == 1 || exists|h: nat| #[trigger] wprod(sg, inp, nkids(sg, k, x.0, x.1), h) >= b,
  ensures atleast(sg, inp, k, b + 1),
{
  let kx = nkids(sg, k, x.0, x.1); let ky = nkids(sg, k, y.0, y.1);
  assert forall|j: int| 0 <= j < kx.len() implies pos(sg, inp, #[trigger] kx[j]) by { good_kid(sg, inp, k, x.0, x.1, j); good_pos(sg, inp, kx[j]); }
  assert forall|j: int| 0 <= j < ky.len() implies pos(sg, inp, #[trigger] ky[j]) by { good_kid(sg, inp, k, y.0, y.1, j); good_pos(sg, inp, ky[j]); }
  let f0 = pos_two(sg, inp, kx); let g = pos_two(sg, inp, ky);
  let f = if b == 1 { f0 } else { choose|h: nat| #[trigger] wprod(sg, inp, kx, h) >= b };
  let h = if f >= g { f } else { g }; wprod_mono(sg, inp, kx, f, h); wprod_mono(sg, inp, ky, g, h);
  let cs = cands(sg, k); cands_has(sg, inp, k); assert(cs.contains((x.0, x.1))); assert(cs.contains((y.0, y.1)));
  let i = choose|i: int| 0 <= i < cs.len() && cs[i] == x; wsum_del(sg, inp, k, cs, i, h); let ds = cs.remove(i);
  let j = choose|j: int| 0 <= j < cs.len() && cs[j] == y; let j2 = if j < i { j } else { j - 1 }; assert(ds[j2] == y);
  wsum_del(sg, inp, k, ds, j2, h); wsum_nonneg(sg, inp, k, ds.remove(j2), h);
  assert(w(sg, inp, k, h + 1) >= b + 1);
  h + 1
}
// a cycle: infinitely many derivations
pub proof fn cyc_zero(sg: slotGrammar, inp: Seq<int>, c: DK, x: DK, h: nat)
  requires sg_ok(sg), good(sg, inp, c), gcyc(sg, inp, c), gto(sg, inp, c, x), gto(sg, inp, x, c), single_all(sg, inp, c), ensures w(sg, inp, x, h) == 0, decreases h,
{
  if h > 0 {
    cyc_next(sg, inp, c, x);
    let (ai, m, j) = choose|ai: int, m: int, j: int| #[trigger] cnext(sg, inp, c, x, ai, m, j); let ks = nkids(sg, x, ai, m); let y = ks[j];
    cyc_zero(sg, inp, c, y, (h - 1) as nat);
    assert(x.kind != 2);
    let cs = seq![(ai, m)];
    assert(plist(sg, inp, x, cs)) by { assert forall|a: int, q: int| #[trigger] nsp(sg, inp, x, a, q) implies cs.contains((a, q)) by { assert(cs[0] == (ai, m)); } }
    w_list(sg, inp, x, cs, (h - 1) as nat);
    assert(cs.drop_last() =~= Seq::<(int, int)>::empty()); assert(wsum(sg, inp, x, cs.drop_last(), (h - 1) as nat) == 0);
    let g = (h - 1) as nat; w_nonneg(sg, inp, ks[0], g); w_nonneg(sg, inp, ks[1], g); mul_nn(w(sg, inp, ks[0], g), w(sg, inp, ks[1], g));
    assert(wprod(sg, inp, ks, g) == 0) by { if ks.len() == 2 { assert(j == 0 || j == 1); } }
    assert(cs.last() == (ai, m)); assert(wone(sg, inp, x, cs.last(), g) == 0); assert(wsum(sg, inp, x, cs, g) == 0);
  }
}
// every node on a cycle through c has at most one split
pub open spec fn single(sg: slotGrammar, inp: Seq<int>, x: DK) -> bool { forall|a: int, q: int, b: int, r: int| #[trigger] nsp(sg, inp, x, a, q) && #[trigger] nsp(sg, inp, x, b, r) ==> a == b && q == r }
pub open spec fn single_all(sg: slotGrammar, inp: Seq<int>, c: DK) -> bool { forall|x: DK| #[trigger] gto(sg, inp, c, x) && gto(sg, inp, x, c) ==> single(sg, inp, x) }
pub open spec fn cnext(sg: slotGrammar, inp: Seq<int>, c: DK, x: DK, ai: int, m: int, j: int) -> bool { nsp(sg, inp, x, ai, m) && 0 <= j < nkids(sg, x, ai, m).len() && gto(sg, inp, nkids(sg, x, ai, m)[j], c) && gto(sg, inp, c, nkids(sg, x, ai, m)[j]) }
pub proof fn gpath_first(sg: slotGrammar, inp: Seq<int>, a: DK, c: DK, d: nat) -> (b: DK)
  requires d > 0, gpath(sg, inp, a, c, d), ensures gstep(sg, inp, a, b), gpath(sg, inp, b, c, (d - 1) as nat), decreases d,
{
  let x = choose|x: DK| #[trigger] gstep(sg, inp, x, c) && gpath(sg, inp, a, x, (d - 1) as nat);
  if d == 1 { assert(a == x); c } else { let b = gpath_first(sg, inp, a, x, (d - 1) as nat); assert(gpath(sg, inp, b, c, (d - 1) as nat)); b }
}
pub proof fn cyc_next(sg: slotGrammar, inp: Seq<int>, c: DK, x: DK)
  requires gcyc(sg, inp, c), gto(sg, inp, c, x), gto(sg, inp, x, c), ensures exists|ai: int, m: int, j: int| #[trigger] cnext(sg, inp, c, x, ai, m, j),
{
  let d = choose|d: nat| #[trigger] gpath(sg, inp, x, c, d);
  let e = choose|b: DK| #[trigger] gstep(sg, inp, b, c) && gto(sg, inp, c, b); let f = choose|f: nat| #[trigger] gpath(sg, inp, c, e, f);
  let g = if d == 0 { (f + 1) as nat } else { d };
  if d == 0 { assert(gpath(sg, inp, x, c, g)); }
  let y = gpath_first(sg, inp, x, c, g); assert(gto(sg, inp, y, c)); gto_step(sg, inp, c, x, y);
  let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, x, ai, m) && nkids(sg, x, ai, m).contains(y); let ks = nkids(sg, x, ai, m); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == y;
  assert(cnext(sg, inp, c, x, ai, m, j));
}
// on a cycle, the bound can be raised by one
pub proof fn cyc_more(sg: slotGrammar, inp: Seq<int>, c: DK, b: int)
  requires sg_ok(sg), good(sg, inp, c), gcyc(sg, inp, c), b >= 1, atleast(sg, inp, c, b), ensures atleast(sg, inp, c, b + 1),
{
  if single_all(sg, inp, c) { good_pos(sg, inp, c); let h = choose|h: nat| #[trigger] w(sg, inp, c, h) >= 1; gto_refl(sg, inp, c); cyc_zero(sg, inp, c, c, h); }
  let x = choose|x: DK| #[trigger] gto(sg, inp, c, x) && gto(sg, inp, x, c) && !single(sg, inp, x);
  let dx = choose|d: nat| #[trigger] gpath(sg, inp, c, x, d); gpath_good(sg, inp, c, x, dx);
  cyc_next(sg, inp, c, x);
  let (ai, m, j) = choose|ai: int, m: int, j: int| #[trigger] cnext(sg, inp, c, x, ai, m, j); let ks = nkids(sg, x, ai, m); let y = ks[j];
  good_kid(sg, inp, x, ai, m, j);
  let dy = choose|d: nat| #[trigger] gpath(sg, inp, y, c, d); path_le(sg, inp, y, c, dy, b);
  let H = kid_le(sg, inp, x, ai, m, j); let f = choose|h: nat| #[trigger] w(sg, inp, y, h) >= b; let h = if f >= H { f } else { H }; w_mono(sg, inp, y, f, h); assert(wprod(sg, inp, ks, h) >= w(sg, inp, ks[j], h));
  let (a1, q1, a2, q2) = choose|a1: int, q1: int, a2: int, q2: int| #[trigger] nsp(sg, inp, x, a1, q1) && #[trigger] nsp(sg, inp, x, a2, q2) && !(a1 == a2 && q1 == q2);
  let o = if a1 == ai && q1 == m { (a2, q2) } else { (a1, q1) };
  let r = more_splits(sg, inp, x, (ai, m), o, b);
  path_le(sg, inp, c, x, dx, b + 1);
}
pub proof fn cyc_inf(sg: slotGrammar, inp: Seq<int>, k: DK, c: DK)
  requires sg_ok(sg), good(sg, inp, k), gto(sg, inp, k, c), gcyc(sg, inp, c), ensures infinitely(sg, inp, k),
{
  let d = choose|d: nat| #[trigger] gpath(sg, inp, k, c, d); gpath_good(sg, inp, k, c, d);
  assert forall|b: int| #[trigger] atleast(sg, inp, k, b) by { if b >= 1 { cyc_all(sg, inp, c, b); path_le(sg, inp, k, c, d, b); } else { w_nonneg(sg, inp, k, 0); assert(w(sg, inp, k, 0) >= b); } }
}
pub proof fn cyc_all(sg: slotGrammar, inp: Seq<int>, c: DK, b: int)
  requires sg_ok(sg), good(sg, inp, c), gcyc(sg, inp, c), b >= 1, ensures atleast(sg, inp, c, b), decreases b,
{ if b == 1 { good_pos(sg, inp, c); } else { cyc_all(sg, inp, c, b - 1); cyc_more(sg, inp, c, b - 1); } }
// ---- one split everywhere: one derivation ----
pub open spec fn single_below(sg: slotGrammar, inp: Seq<int>, k: DK) -> bool { forall|x: DK| #[trigger] gto(sg, inp, k, x) ==> single(sg, inp, x) }
pub proof fn one_max(sg: slotGrammar, inp: Seq<int>, k: DK, x: DK, h: nat)
  requires single_below(sg, inp, k), gto(sg, inp, k, x), ensures w(sg, inp, x, h) <= 1, decreases h,
{
  if h > 0 && x.kind != 2 {
    let g = (h - 1) as nat;
    if exists|ai: int, m: int| #[trigger] nsp(sg, inp, x, ai, m) {
      let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, x, ai, m); let ks = nkids(sg, x, ai, m); let cs = seq![(ai, m)];
      assert(plist(sg, inp, x, cs)) by { assert forall|a: int, q: int| #[trigger] nsp(sg, inp, x, a, q) implies cs.contains((a, q)) by { assert(cs[0] == (ai, m)); } }
      w_list(sg, inp, x, cs, g);
      assert(cs.drop_last() =~= Seq::<(int, int)>::empty()); assert(wsum(sg, inp, x, cs.drop_last(), g) == 0);
      gstep_of(sg, inp, x, ai, m, 0); gto_step(sg, inp, k, x, ks[0]); one_max(sg, inp, k, ks[0], g); w_nonneg(sg, inp, ks[0], g);
      if ks.len() == 2 { gstep_of(sg, inp, x, ai, m, 1); gto_step(sg, inp, k, x, ks[1]); one_max(sg, inp, k, ks[1], g); w_nonneg(sg, inp, ks[1], g); mul_le(w(sg, inp, ks[0], g), w(sg, inp, ks[1], g), 1, 1); }
      assert(wprod(sg, inp, ks, g) <= 1); assert(cs.last() == (ai, m)); assert(wone(sg, inp, x, cs.last(), g) <= 1); assert(wsum(sg, inp, x, cs, g) <= 1);
    } else {
      let cs = Seq::<(int, int)>::empty(); assert(plist(sg, inp, x, cs)); w_list(sg, inp, x, cs, g);
    }
  }
}
pub proof fn one_exact(sg: slotGrammar, inp: Seq<int>, k: DK)
  requires sg_ok(sg), good(sg, inp, k), single_below(sg, inp, k), ensures exactly(sg, inp, k, 1),
{
  good_pos(sg, inp, k); let H = choose|h: nat| #[trigger] w(sg, inp, k, h) >= 1; gto_refl(sg, inp, k);
  assert forall|h: nat| h >= H implies #[trigger] w(sg, inp, k, h) == 1 by { w_mono(sg, inp, k, H, h); one_max(sg, inp, k, k, h); }
  assert(settled(sg, inp, k, 1, H));
}
