// ---- forest.rs: queries over the binary subtree set ----
pub open spec fn el(k: bsrKey, p: int) -> bsrElem { bsrElem { slot: k.slot, l: k.l, k: p, r: k.r, rc: k.rc } }
pub open spec fn bk(s: slot, l: int, r: int, rc: int) -> bsrKey { bsrKey { slot: s, l: l, r: r, rc: rc } }
pub open spec fn bkey(e: bsrElem) -> bsrKey { bsrKey { slot: e.slot, l: e.l, r: e.r, rc: e.rc } }
pub open spec fn piv(ix: Map<bsrKey, Seq<int>>, k: bsrKey) -> Seq<int> { if ix.contains_key(k) { ix[k] } else { Seq::empty() } }
// the index holds exactly the elements of D, each once
pub open spec fn idx_ok(ix: Map<bsrKey, Seq<int>>, D: Set<bsrElem>) -> bool {
  (forall|k: bsrKey, i: int| #[trigger] ix.contains_key(k) && 0 <= i < ix[k].len() ==> D.contains(el(k, #[trigger] ix[k][i])))
  && (forall|e: bsrElem| #[trigger] D.contains(e) ==> piv(ix, bkey(e)).contains(e.k))
  && (forall|k: bsrKey| #[trigger] ix.contains_key(k) ==> ix[k].no_duplicates())
}
pub proof fn idx_add(ix: Map<bsrKey, Seq<int>>, D: Set<bsrElem>, e: bsrElem, iy: Map<bsrKey, Seq<int>>)
  requires idx_ok(ix, D), !D.contains(e), iy == ix.insert(bkey(e), piv(ix, bkey(e)).push(e.k)),
  ensures idx_ok(iy, D.insert(e)),
{
  let b = bkey(e); let s = piv(ix, b); let t = s.push(e.k); let E = D.insert(e);
  assert(el(b, e.k) == e);
  assert(!s.contains(e.k)) by { if s.contains(e.k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e.k; assert(D.contains(el(b, ix[b][i]))); } }
  assert forall|k: bsrKey, i: int| #[trigger] iy.contains_key(k) && 0 <= i < iy[k].len() implies E.contains(el(k, #[trigger] iy[k][i])) by {
    if k == b { if i < s.len() { assert(D.contains(el(b, ix[b][i]))); } } else { assert(ix.contains_key(k)); assert(D.contains(el(k, ix[k][i]))); }
  }
  assert forall|x: bsrElem| #[trigger] E.contains(x) implies piv(iy, bkey(x)).contains(x.k) by {
    if bkey(x) == b {
      if x == e { assert(t[s.len() as int] == e.k); } else { assert(D.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x.k; assert(t[i] == x.k); }
    } else { assert(D.contains(x)); }
  }
  assert forall|k: bsrKey| #[trigger] iy.contains_key(k) implies iy[k].no_duplicates() by {
    if k == b { assert(s.no_duplicates()); assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < s.len() && j < s.len() {} else if i < s.len() { assert(s.contains(s[i])); } else { assert(s.contains(s[j])); } } }
    else { assert(ix.contains_key(k)); }
  }
}
pub open spec fn fin(sg: slotGrammar, nt: int, ai: int) -> slot { sl(nt, ai, sprod(sg, nt, ai).len() as int) }
pub open spec fn bf_ok(f: BSRForest) -> bool { f.sg is Some && sg_ok(f.sg->Some_0) && f.start == f.sg->Some_0.start && f.n == f.input.len() && idx_ok(f.index, f.set_.dom()) }
// the element set is what the engine left
pub open spec fn bf_of(f: BSRForest, p: bsrParser, H: HB) -> bool { bsr_end(p, H) && f.sg == p.sg && f.input == p.input && f.set_ == p.set_ }
pub open spec fn bf_has(f: BSRForest, s: slot, l: int, k: int, r: int, rc: int) -> bool { f.set_.contains_key(bsrElem { slot: s, l: l, k: k, r: r, rc: rc }) }
pub open spec fn bf_valid(f: BSRForest) -> bool { exists|ai: int, k: int| 0 <= ai < sg_nt(f.sg->Some_0, f.start).alts.len() && #[trigger] bf_has(f, fin(f.sg->Some_0, f.start, ai), 0, k, f.n, 0) }
pub proof fn piv_has(f: BSRForest, key: bsrKey)
  requires bf_ok(f), ensures piv(f.index, key).len() > 0 <==> (exists|k: int| #[trigger] bf_has(f, key.slot, key.l, k, key.r, key.rc)), forall|k: int| #[trigger] bf_has(f, key.slot, key.l, k, key.r, key.rc) <==> piv(f.index, key).contains(k),
{
  let s = piv(f.index, key);
  assert forall|k: int| #[trigger] bf_has(f, key.slot, key.l, k, key.r, key.rc) <==> s.contains(k) by {
    if bf_has(f, key.slot, key.l, k, key.r, key.rc) { assert(f.set_.dom().contains(el(key, k))); assert(bkey(el(key, k)) == key); }
    if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(f.set_.dom().contains(el(key, f.index[key][i]))); }
  }
  if s.len() > 0 { assert(s.contains(s[0])); assert(bf_has(f, key.slot, key.l, s[0], key.r, key.rc)); }
}
// the whole input is derived exactly when the index says so
pub proof fn bf_exact(f: BSRForest, p: bsrParser, H: HB)
  requires bf_of(f, p, H), f.start == p.sg->Some_0.start, f.n == p.input.len(), ensures bf_valid(f) <==> DS(p.sg->Some_0, p.input, f.start, 0, 0, f.n),
{
  let sg = p.sg->Some_0; let st = f.start;
  if bf_valid(f) {
    let (ai, k) = choose|ai: int, k: int| 0 <= ai < sg_nt(sg, st).alts.len() && #[trigger] bf_has(f, fin(sg, st, ai), 0, k, f.n, 0);
    let e = bsrElem { slot: fin(sg, st, ai), l: 0, k: k, r: f.n, rc: 0 };
    assert(elem_ok(sg, p.input, e));
    DP_step(sg, p.input, st, ai, 0, sprod(sg, st, ai).len() as int, 0, k, f.n);
    DS_of(sg, p.input, st, ai, 0, 0, f.n);
  }
  if DS(sg, p.input, st, 0, 0, f.n) {
    let h = choose|h: nat| #[trigger] sder(sg, p.input, st, 0, 0, f.n, h);
    let n = f.n;
    let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, st).alts.len() && allowed(sg, st, 0, ai) && spre(sg, p.input, st, ai, 0, sprod(sg, st, ai).len() as int, 0, n, (h - 1) as nat);
    let dot = sprod(sg, st, ai).len() as int; let s = sprod(sg, st, ai)[dot - 1]; let c = crc(sg, st, 0, s);
    assert(sg_nt(sg, st).alts[ai].len() >= 1);
    let k = choose|k: int| #[trigger] pk(k) && 0 <= k <= n && spre(sg, p.input, st, ai, 0, dot - 1, 0, k, (h - 1) as nat) && ssy(sg, p.input, s, c, k, n, (h - 1) as nat);
    comp_pre(p, H, p.u0, st, ai, 0, dot - 1, 0, k, (h - 1) as nat);
    comp_sy(p, H, p.u0, st, ai, 0, dot, 0, k, n, (h - 1) as nat);
    assert(bf_has(f, fin(sg, st, ai), 0, k, n, 0));
  }
}
pub open spec fn bx(f: BSRForest) -> bool { bf_ok(f) && exists|p: bsrParser, H: HB| #[trigger] bf_of(f, p, H) }
