// ---- forestq.rs: counting over the binary subtree set ----
pub open spec fn on<K>(m: Map<K, bool>, k: K) -> bool { m.contains_key(k) && m[k] }
pub proof fn ctx_reached(p: bsrParser, H: HB, nt: int, rc: int, l: int, h: nat)
  requires bsr_end(p, H), ctx(p.sg->Some_0, p.input, nt, rc, l, h), ensures reached(p, H, nt, rc, l), decreases h,
{
  let sg = p.sg->Some_0;
  if nt == sg.start && rc == 0 && l == 0 { assert(bn(p, H, p.u0)); }
  else {
    let (nt1, ai, rc1, dot, l1) = choose|nt1: int, ai: int, rc1: int, dot: int, l1: int| #[trigger] cstep(sg, p.input, nt1, ai, rc1, dot, l1, nt, rc, l) && ctx(sg, p.input, nt1, rc1, l1, (h - 1) as nat);
    ctx_reached(p, H, nt1, rc1, l1, (h - 1) as nat);
    let v = choose|v: int| #[trigger] bn(p, H, v) && H[v].pos == l1 && cal_nt(sg, H[v]) == nt1 && cal_rc(sg, H[v]) == rc1 && started(p, nt1, rc1, v, l1);
    let g = choose|g: nat| #[trigger] spre(sg, p.input, nt1, ai, rc1, dot, l1, l, g);
    comp_pre(p, H, v, nt1, ai, rc1, dot, l1, l, g);
    let L = sl(nt1, ai, dot); let key = gssKey { ret: sl(L.nt, L.alt, L.dot + 1), pos: l, rc: rc1 }; let w = p.gss[key];
    assert(done(p, H, L, v, l, rc1)); assert(p.gss.contains_key(key)); assert(bn(p, H, w)); assert(key_of(H[w]) == key); assert(started(p, nt, rc, w, l));
  }
}
pub open spec fn bsg(f: BSRForest) -> slotGrammar { f.sg->Some_0 }
pub open spec fn klive(sg: slotGrammar, inp: Seq<int>, k: DK) -> bool { good(sg, inp, k) && (k.kind == 0 ==> CX(sg, inp, k.nt, k.rc, k.l)) && (k.kind == 1 ==> CX(sg, inp, k.L.nt, k.rc, k.l)) }
pub open spec fn kl(f: BSRForest, k: DK) -> bool { klive(bsg(f), f.input, k) }
// the recorded elements of a live node are its splits
pub proof fn elems_are(f: BSRForest, k: DK)
  requires bx(f), kl(f, k), k.kind != 2,
  ensures forall|ai: int, m: int| k.kind == 1 || 0 <= ai < sg_nt(bsg(f), k.nt).alts.len() ==> (#[trigger] nsp(bsg(f), f.input, k, ai, m) <==> nslot(bsg(f), k, ai).alt == ai && bf_has(f, nslot(bsg(f), k, ai), k.l, m, k.r, k.rc)),
{
  let (p, H) = choose|p: bsrParser, H: HB| #[trigger] bf_of(f, p, H); let sg = bsg(f); let inp = f.input;
  assert forall|ai: int, m: int| k.kind == 1 || 0 <= ai < sg_nt(sg, k.nt).alts.len() implies (#[trigger] nsp(sg, inp, k, ai, m) <==> nslot(sg, k, ai).alt == ai && bf_has(f, nslot(sg, k, ai), k.l, m, k.r, k.rc)) by {
    let L = nslot(sg, k, ai); let e = bsrElem { slot: L, l: k.l, k: m, r: k.r, rc: k.rc };
    if p.set_.contains_key(e) && L.alt == ai { assert(elem_ok(sg, inp, e)); assert(nsp(sg, inp, k, ai, m)); }
    if nsp(sg, inp, k, ai, m) {
      assert(CX(sg, inp, L.nt, k.rc, k.l)); let h = choose|h: nat| #[trigger] ctx(sg, inp, L.nt, k.rc, k.l, h); ctx_reached(p, H, L.nt, k.rc, k.l, h);
      let v = choose|v: int| #[trigger] bn(p, H, v) && H[v].pos == k.l && cal_nt(sg, H[v]) == L.nt && cal_rc(sg, H[v]) == k.rc && started(p, L.nt, k.rc, v, k.l);
      let g = choose|g: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, m, g); let q = choose|q: nat| #[trigger] ssy(sg, inp, nlast(sg, L), nlrc(sg, L, k.rc), m, k.r, q);
      comp_pre(p, H, v, L.nt, ai, k.rc, L.dot - 1, k.l, m, g); comp_sy(p, H, v, L.nt, ai, k.rc, L.dot, k.l, m, k.r, q);
      assert(sl(L.nt, ai, L.dot) == L); assert(rec(p, L, k.l, m, k.r, k.rc));
    }
  }
}
pub open spec fn kbk(f: BSRForest, k: DK, ai: int) -> bsrKey { bk(nslot(bsg(f), k, ai), k.l, k.r, k.rc) }
pub open spec fn pairs(ai: int, ks: Seq<int>) -> Seq<(int, int)> { Seq::new(ks.len(), |i: int| (ai, ks[i])) }
pub open spec fn brow(f: BSRForest, k: DK, ai: int) -> Seq<(int, int)> { pairs(ai, piv(f.index, kbk(f, k, ai))) }
pub open spec fn brows(f: BSRForest, k: DK, n: int) -> Seq<(int, int)> decreases n { if n <= 0 { Seq::empty() } else { brows(f, k, n - 1) + brow(f, k, n - 1) } }
pub open spec fn blist(f: BSRForest, k: DK) -> Seq<(int, int)> { if k.kind == 0 { brows(f, k, sg_nt(bsg(f), k.nt).alts.len() as int) } else { brow(f, k, k.L.alt) } }
pub proof fn brow_has(f: BSRForest, k: DK, ai: int)
  requires bx(f), kl(f, k), k.kind != 2, k.kind == 1 ==> ai == k.L.alt, k.kind == 0 ==> 0 <= ai < sg_nt(bsg(f), k.nt).alts.len(),
  ensures brow(f, k, ai).no_duplicates(), forall|x: (int, int)| #[trigger] brow(f, k, ai).contains(x) <==> x.0 == ai && nsp(bsg(f), f.input, k, ai, x.1),
{
  let key = kbk(f, k, ai); let ks = piv(f.index, key); let r = brow(f, k, ai);
  elems_are(f, k); piv_has(f, key);
  if f.index.contains_key(key) { assert(f.index[key].no_duplicates()); }
  assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(ks[i] != ks[j]); }
  assert forall|x: (int, int)| #[trigger] r.contains(x) <==> x.0 == ai && nsp(bsg(f), f.input, k, ai, x.1) by {
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(ks.contains(ks[i])); assert(bf_has(f, key.slot, key.l, x.1, key.r, key.rc)); }
    if x.0 == ai && nsp(bsg(f), f.input, k, ai, x.1) { assert(bf_has(f, key.slot, key.l, x.1, key.r, key.rc)); assert(ks.contains(x.1)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x.1; assert(r[i] == x); }
  }
}
pub proof fn brows_has(f: BSRForest, k: DK, n: int)
  requires bx(f), kl(f, k), k.kind == 0, n <= sg_nt(bsg(f), k.nt).alts.len(),
  ensures brows(f, k, n).no_duplicates(), forall|x: (int, int)| #[trigger] brows(f, k, n).contains(x) <==> 0 <= x.0 < n && nsp(bsg(f), f.input, k, x.0, x.1), decreases n,
{
  if n > 0 {
    brows_has(f, k, n - 1); brow_has(f, k, n - 1); let a = brows(f, k, n - 1); let c = brow(f, k, n - 1); let b = a + c;
    assert forall|x: (int, int)| #[trigger] b.contains(x) <==> 0 <= x.0 < n && nsp(bsg(f), f.input, k, x.0, x.1) by {
      if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); assert(a.contains(x)); } else { assert(c[i - a.len()] == x); assert(c.contains(x)); } }
      if 0 <= x.0 < n && nsp(bsg(f), f.input, k, x.0, x.1) { if x.0 == n - 1 { assert(c.contains(x)); let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(b[a.len() + i] == x); } else { assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
      if i < a.len() { assert(a.contains(a[i])); assert(b[i].0 < n - 1); } else { assert(c.contains(c[i - a.len()])); assert(b[i].0 == n - 1); }
      if j < a.len() { assert(a.contains(a[j])); assert(b[j].0 < n - 1); } else { assert(c.contains(c[j - a.len()])); assert(b[j].0 == n - 1); }
    }
  }
}
pub proof fn blist_is(f: BSRForest, k: DK)
  requires bx(f), kl(f, k), k.kind != 2, ensures plist(bsg(f), f.input, k, blist(f, k)),
{
  let c = blist(f, k);
  if k.kind == 0 { brows_has(f, k, sg_nt(bsg(f), k.nt).alts.len() as int); } else { brow_has(f, k, k.L.alt); }
  assert forall|i: int| 0 <= i < c.len() implies nsp(bsg(f), f.input, k, (#[trigger] c[i]).0, c[i].1) by { assert(c.contains(c[i])); }
  assert forall|ai: int, m: int| #[trigger] nsp(bsg(f), f.input, k, ai, m) implies c.contains((ai, m)) by { }
}
// one pivot of one key is a split
pub proof fn piv_split(f: BSRForest, k: DK, ai: int, i: int)
  requires bx(f), kl(f, k), k.kind != 2, k.kind == 1 ==> ai == k.L.alt, k.kind == 0 ==> 0 <= ai < sg_nt(bsg(f), k.nt).alts.len(), 0 <= i < piv(f.index, kbk(f, k, ai)).len(),
  ensures nsp(bsg(f), f.input, k, ai, piv(f.index, kbk(f, k, ai))[i]),
{ brow_has(f, k, ai); let r = brow(f, k, ai); assert(r.contains(r[i])); }
// the parts of a split are live
pub proof fn kid_live(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, m: int, j: int)
  requires sg_ok(sg), klive(sg, inp, k), nsp(sg, inp, k, ai, m), 0 <= j < nkids(sg, k, ai, m).len(), ensures klive(sg, inp, nkids(sg, k, ai, m)[j]), gstep(sg, inp, k, nkids(sg, k, ai, m)[j]),
{
  let L = nslot(sg, k, ai); let ks = nkids(sg, k, ai, m); let s = nlast(sg, L);
  good_kid(sg, inp, k, ai, m, j); gstep_of(sg, inp, k, ai, m, j);
  if j == ks.len() - 1 {
    if s.kind == 0 { assert(cstep(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, s.nt, nlrc(sg, L, k.rc), m)); CX_step(sg, inp, L.nt, ai, k.rc, L.dot - 1, k.l, s.nt, nlrc(sg, L, k.rc), m); }
  } else if L.dot == 2 {
    let P = nsl(L.nt, L.alt, 1); let s0 = nlast(sg, P);
    if s0.kind == 0 { DP_start(sg, inp, L.nt, ai, k.rc, k.l); assert(cstep(sg, inp, L.nt, ai, k.rc, 0, k.l, s0.nt, nlrc(sg, P, k.rc), k.l)); CX_step(sg, inp, L.nt, ai, k.rc, 0, k.l, s0.nt, nlrc(sg, P, k.rc), k.l); }
  }
}
// ---- eventual values ----
pub open spec fn wsset(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] wsum(sg, inp, k, c, h) == v }
pub open spec fn wsx(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, v: int) -> bool { exists|H: nat| #[trigger] wsset(sg, inp, k, c, v, H) }
pub open spec fn wpset(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, v: int, H: nat) -> bool { forall|h: nat| h >= H ==> #[trigger] wprod(sg, inp, ks, h) == v }
pub open spec fn wpx(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, v: int) -> bool { exists|H: nat| #[trigger] wpset(sg, inp, ks, v, H) }
pub proof fn wsx_0(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>) requires c.len() == 0, ensures wsx(sg, inp, k, c, 0) { assert(wsset(sg, inp, k, c, 0, 0)); }
pub proof fn wsx_1(sg: slotGrammar, inp: Seq<int>, k: DK, c: Seq<(int, int)>, x: (int, int), d: Seq<(int, int)>, v: int, y: int)
  requires wsx(sg, inp, k, c, v), nsp(sg, inp, k, x.0, x.1), wpx(sg, inp, nkids(sg, k, x.0, x.1), y), d =~= c.push(x), ensures wsx(sg, inp, k, d, v + y),
{
  let F = choose|H: nat| #[trigger] wsset(sg, inp, k, c, v, H); let ks = nkids(sg, k, x.0, x.1); let G = choose|H: nat| #[trigger] wpset(sg, inp, ks, y, H); let H = if F >= G { F } else { G };
  assert(d.drop_last() =~= c); assert(d.last() == x);
  assert forall|h: nat| h >= H implies #[trigger] wsum(sg, inp, k, d, h) == v + y by { assert(wsum(sg, inp, k, c, h) == v); assert(wprod(sg, inp, ks, h) == y); assert(wone(sg, inp, k, x, h) == y); }
  assert(wsset(sg, inp, k, d, v + y, H));
}
pub proof fn wpx_1(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, a: int) requires ks.len() == 1, exactly(sg, inp, ks[0], a), ensures wpx(sg, inp, ks, a),
{ let F = choose|H: nat| #[trigger] settled(sg, inp, ks[0], a, H); assert forall|h: nat| h >= F implies #[trigger] wprod(sg, inp, ks, h) == a by { assert(w(sg, inp, ks[0], h) == a); } assert(wpset(sg, inp, ks, a, F)); }
pub proof fn wpx_2(sg: slotGrammar, inp: Seq<int>, ks: Seq<DK>, a: int, b: int) requires ks.len() == 2, exactly(sg, inp, ks[0], a), exactly(sg, inp, ks[1], b), ensures wpx(sg, inp, ks, a * b),
{
  let F = choose|H: nat| #[trigger] settled(sg, inp, ks[0], a, H); let G = choose|H: nat| #[trigger] settled(sg, inp, ks[1], b, H); let H = if F >= G { F } else { G };
  assert forall|h: nat| h >= H implies #[trigger] wprod(sg, inp, ks, h) == a * b by { assert(w(sg, inp, ks[0], h) == a); assert(w(sg, inp, ks[1], h) == b); }
  assert(wpset(sg, inp, ks, a * b, H));
}
pub proof fn node_exact(f: BSRForest, k: DK, v: int) requires bx(f), kl(f, k), k.kind != 2, wsx(bsg(f), f.input, k, blist(f, k), v), ensures exactly(bsg(f), f.input, k, v),
{
  let sg = bsg(f); let inp = f.input; let c = blist(f, k); blist_is(f, k);
  let F = choose|H: nat| #[trigger] wsset(sg, inp, k, c, v, H);
  assert forall|h: nat| h >= F + 1 implies #[trigger] w(sg, inp, k, h) == v by { w_list(sg, inp, k, c, (h - 1) as nat); assert(wsum(sg, inp, k, c, (h - 1) as nat) == v); }
  assert(settled(sg, inp, k, v, F + 1));
}
pub proof fn leaf_exact(sg: slotGrammar, inp: Seq<int>, k: DK) requires k.kind == 2, ensures exactly(sg, inp, k, 1) { assert(settled(sg, inp, k, 1, 1)); }
// ---- the counter's tables ----
pub open spec fn did(x: bsrNodeID) -> DK { if x.inter { din(x.slot, x.l, x.r, x.rc) } else { dsy(x.nt, x.l, x.r, x.rc) } }
pub open spec fn ekey(sg: slotGrammar, s: slot, l: int, r: int, rc: int) -> DK { if s.dot == sprod(sg, s.nt, s.alt).len() { dsy(s.nt, l, r, rc) } else { din(s, l, r, rc) } }
pub open spec fn bcyc(f: BSRForest, k: DK) -> bool { exists|c: DK| #[trigger] gto(bsg(f), f.input, k, c) && gcyc(bsg(f), f.input, c) }
pub open spec fn bplus(f: BSRForest, a: DK, b: DK) -> bool { exists|x: DK| #[trigger] gstep(bsg(f), f.input, x, b) && gto(bsg(f), f.input, a, x) }
pub open spec fn mem_ok(f: BSRForest, M: Map<bsrNodeID, int>, B: Map<int, int>, inf: bool) -> bool { forall|n: bsrNodeID| #[trigger] M.contains_key(n) ==> M[n] != 0 && B.contains_key(M[n]) && (!inf ==> exactly(bsg(f), f.input, did(n), B[M[n]])) }
pub open spec fn mem_ext(M: Map<bsrNodeID, int>, B: Map<int, int>, M1: Map<bsrNodeID, int>, B1: Map<int, int>) -> bool {
  (forall|r: int| #[trigger] B.contains_key(r) ==> B1.contains_key(r) && B1[r] == B[r])
  && (forall|n: bsrNodeID| #[trigger] M1.contains_key(n) ==> (M.contains_key(n) && M[n] == M1[n]) || !B.contains_key(M1[n]))
}
pub open spec fn stk_same(S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>) -> bool { (forall|s: bsrNodeID| #[trigger] on(S, s) ==> on(T, s)) && (forall|s: bsrNodeID| #[trigger] on(T, s) ==> on(S, s)) }
pub open spec fn stk_ok(f: BSRForest, S: Map<bsrNodeID, bool>, n: DK) -> bool { forall|s: bsrNodeID| #[trigger] on(S, s) ==> bplus(f, did(s), n) }
pub open spec fn stk_in(f: BSRForest, S: Map<bsrNodeID, bool>, n: DK) -> bool { forall|s: bsrNodeID| #[trigger] on(S, s) ==> gto(bsg(f), f.input, did(s), n) }
pub proof fn stk_kid(f: BSRForest, S: Map<bsrNodeID, bool>, n: DK, c: DK) requires stk_in(f, S, n), gstep(bsg(f), f.input, n, c), ensures stk_ok(f, S, c), { assert forall|s: bsrNodeID| #[trigger] on(S, s) implies bplus(f, did(s), c) by { assert(gto(bsg(f), f.input, did(s), n)); } }
pub proof fn bplus_to(f: BSRForest, a: DK, b: DK) requires bplus(f, a, b), ensures gto(bsg(f), f.input, a, b) { let x = choose|x: DK| #[trigger] gstep(bsg(f), f.input, x, b) && gto(bsg(f), f.input, a, x); gto_step(bsg(f), f.input, a, x, b); }
pub proof fn bcyc_kid(f: BSRForest, n: DK, c: DK) requires gstep(bsg(f), f.input, n, c), bcyc(f, c), ensures bcyc(f, n), { let sg = bsg(f); let x = choose|x: DK| #[trigger] gto(sg, f.input, c, x) && gcyc(sg, f.input, x); gto_refl(sg, f.input, n); gto_step(sg, f.input, n, n, c); gto_trans(sg, f.input, n, c, x); }
pub proof fn stk_enter(f: BSRForest, S: Map<bsrNodeID, bool>, x: bsrNodeID, T: Map<bsrNodeID, bool>) requires stk_ok(f, S, did(x)), T == S.insert(x, true), ensures stk_in(f, T, did(x)),
{ assert forall|s: bsrNodeID| #[trigger] on(T, s) implies gto(bsg(f), f.input, did(s), did(x)) by { gto_refl(bsg(f), f.input, did(x)); if s != x { assert(on(S, s)); bplus_to(f, did(s), did(x)); } } }
pub proof fn stk_leave(S: Map<bsrNodeID, bool>, x: bsrNodeID, T: Map<bsrNodeID, bool>, U: Map<bsrNodeID, bool>) requires !on(S, x), stk_same(S.insert(x, true), T), U == T.insert(x, false), ensures stk_same(S, U),
{
  let R = S.insert(x, true);
  assert forall|s: bsrNodeID| #[trigger] on(U, s) implies on(S, s) by { assert(on(T, s)); assert(on(R, s)); }
  assert forall|s: bsrNodeID| #[trigger] on(S, s) implies on(U, s) by { assert(on(R, s)); assert(on(T, s)); }
}
pub proof fn bcyc_self(f: BSRForest, k: DK) requires bplus(f, k, k), ensures bcyc(f, k) { gto_refl(bsg(f), f.input, k); assert(gcyc(bsg(f), f.input, k)); }
pub open spec fn bkey0(f: BSRForest) -> DK { dsy(f.start, 0, f.n, 0) }
pub proof fn start_live(f: BSRForest) requires bx(f), bf_valid(f), ensures kl(f, bkey0(f)),
{ let (p, H) = choose|p: bsrParser, H: HB| #[trigger] bf_of(f, p, H); bf_exact(f, p, H); assert(ctx(bsg(f), f.input, f.start, 0, 0, 0)); }
// ---- ambiguity ----
pub open spec fn bmany(f: BSRForest, n: DK) -> bool { exists|x: DK| #[trigger] gto(bsg(f), f.input, n, x) && !single(bsg(f), f.input, x) }
pub open spec fn bclean(f: BSRForest, S: Map<bsrNodeID, bool>, x: bsrNodeID) -> bool { single(bsg(f), f.input, did(x)) && (forall|b: DK| #[trigger] gstep(bsg(f), f.input, did(x), b) ==> seenk(S, b)) }
pub open spec fn seenk(S: Map<bsrNodeID, bool>, b: DK) -> bool { b.kind != 2 ==> exists|y: bsrNodeID| #[trigger] on(S, y) && did(y) == b }
pub open spec fn bgrow(f: BSRForest, S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>) -> bool { (forall|x: bsrNodeID| #[trigger] on(S, x) ==> on(T, x)) && (forall|x: bsrNodeID| #[trigger] on(T, x) ==> on(S, x) || bclean(f, T, x)) }
pub proof fn seenk_mono(f: BSRForest, S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>, b: DK) requires bgrow(f, S, T), seenk(S, b), ensures seenk(T, b), { if b.kind != 2 { let y = choose|y: bsrNodeID| #[trigger] on(S, y) && did(y) == b; assert(on(T, y)); } }
pub proof fn bgrow_trans(f: BSRForest, S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>, U: Map<bsrNodeID, bool>) requires bgrow(f, S, T), bgrow(f, T, U), ensures bgrow(f, S, U),
{ assert forall|x: bsrNodeID| #[trigger] on(U, x) implies on(S, x) || bclean(f, U, x) by { if on(T, x) && !on(S, x) { assert(bclean(f, T, x)); assert forall|b: DK| #[trigger] gstep(bsg(f), f.input, did(x), b) implies seenk(U, b) by { seenk_mono(f, T, U, b); } } } }
pub proof fn bmany_kid(f: BSRForest, n: DK, c: DK) requires gstep(bsg(f), f.input, n, c), bmany(f, c), ensures bmany(f, n), { let sg = bsg(f); let x = choose|x: DK| #[trigger] gto(sg, f.input, c, x) && !single(sg, f.input, x); gto_refl(sg, f.input, n); gto_step(sg, f.input, n, n, c); gto_trans(sg, f.input, n, c, x); }
pub proof fn bclosed(f: BSRForest, S: Map<bsrNodeID, bool>, a: DK, b: DK, d: nat) requires forall|x: bsrNodeID| #[trigger] on(S, x) ==> bclean(f, S, x), seenk(S, a), gpath(bsg(f), f.input, a, b, d), ensures seenk(S, b), single(bsg(f), f.input, b), decreases d,
{
  if d > 0 {
    let x = choose|x: DK| #[trigger] gstep(bsg(f), f.input, x, b) && gpath(bsg(f), f.input, a, x, (d - 1) as nat); bclosed(f, S, a, x, (d - 1) as nat);
    let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(bsg(f), f.input, x, ai, m) && nkids(bsg(f), x, ai, m).contains(b); assert(x.kind != 2);
    let y = choose|y: bsrNodeID| #[trigger] on(S, y) && did(y) == x; assert(bclean(f, S, y));
  }
  if b.kind != 2 { let y = choose|y: bsrNodeID| #[trigger] on(S, y) && did(y) == b; assert(bclean(f, S, y)); }
}
pub proof fn bnone(f: BSRForest, S: Map<bsrNodeID, bool>, a: DK) requires bgrow(f, Map::empty(), S), seenk(S, a), ensures !bmany(f, a), single_below(bsg(f), f.input, a),
{
  assert forall|x: bsrNodeID| #[trigger] on(S, x) implies bclean(f, S, x) by { assert(!on(Map::<bsrNodeID, bool>::empty(), x)); }
  assert forall|c: DK| #[trigger] gto(bsg(f), f.input, a, c) implies single(bsg(f), f.input, c) by { let d = choose|d: nat| #[trigger] gpath(bsg(f), f.input, a, c, d); bclosed(f, S, a, c, d); }
}
pub proof fn bmany_two(f: BSRForest, a: DK) requires bx(f), kl(f, a), bmany(f, a), ensures atleast(bsg(f), f.input, a, 2),
{
  let sg = bsg(f); let inp = f.input; let x = choose|x: DK| #[trigger] gto(sg, inp, a, x) && !single(sg, inp, x); let d = choose|d: nat| #[trigger] gpath(sg, inp, a, x, d);
  gpath_good(sg, inp, a, x, d);
  let (a1, q1, a2, q2) = choose|a1: int, q1: int, a2: int, q2: int| #[trigger] nsp(sg, inp, x, a1, q1) && #[trigger] nsp(sg, inp, x, a2, q2) && !(a1 == a2 && q1 == q2);
  two_splits(sg, inp, x, (a1, q1), (a2, q2)); path_le(sg, inp, a, x, d, 2);
}
// how many splits a node has
pub open spec fn nsplits(f: BSRForest, k: DK, n: int) -> int decreases n { if n <= 0 { 0 } else { nsplits(f, k, n - 1) + piv(f.index, kbk(f, k, n - 1)).len() } }
pub proof fn brows_len(f: BSRForest, k: DK, n: int) ensures brows(f, k, n).len() == nsplits(f, k, n), decreases n, { if n > 0 { brows_len(f, k, n - 1); } }
pub proof fn list_single(f: BSRForest, k: DK) requires bx(f), kl(f, k), k.kind != 2, ensures blist(f, k).len() > 1 <==> !single(bsg(f), f.input, k),
{
  let sg = bsg(f); let inp = f.input; let c = blist(f, k); blist_is(f, k);
  if c.len() > 1 { assert(nsp(sg, inp, k, c[0].0, c[0].1)); assert(nsp(sg, inp, k, c[1].0, c[1].1)); assert(c[0] != c[1]); }
  if c.len() <= 1 { assert forall|a: int, s: int, b: int, r: int| #[trigger] nsp(sg, inp, k, a, s) && #[trigger] nsp(sg, inp, k, b, r) implies a == b && s == r by { assert(c.contains((a, s))); assert(c.contains((b, r))); let i = choose|i: int| 0 <= i < c.len() && c[i] == (a, s); let j = choose|j: int| 0 <= j < c.len() && c[j] == (b, r); assert(i == 0 && j == 0); } }
}
pub open spec fn kids_seen(f: BSRForest, S: Map<bsrNodeID, bool>, k: DK, ai: int, m: int) -> bool { forall|j: int| 0 <= j < nkids(bsg(f), k, ai, m).len() ==> seenk(S, #[trigger] nkids(bsg(f), k, ai, m)[j]) }
pub open spec fn rows_seen(f: BSRForest, S: Map<bsrNodeID, bool>, k: DK, n: int) -> bool { forall|a: int, m: int| 0 <= a < n && #[trigger] nsp(bsg(f), f.input, k, a, m) ==> kids_seen(f, S, k, a, m) }
pub open spec fn part_seen(f: BSRForest, S: Map<bsrNodeID, bool>, k: DK, a: int, ks: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> kids_seen(f, S, k, a, #[trigger] ks[i]) }
pub proof fn kids_seen_mono(f: BSRForest, S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>, k: DK, ai: int, m: int) requires bgrow(f, S, T), kids_seen(f, S, k, ai, m), ensures kids_seen(f, T, k, ai, m),
{ assert forall|j: int| 0 <= j < nkids(bsg(f), k, ai, m).len() implies seenk(T, #[trigger] nkids(bsg(f), k, ai, m)[j]) by { seenk_mono(f, S, T, nkids(bsg(f), k, ai, m)[j]); } }
pub proof fn seen_mono(f: BSRForest, S: Map<bsrNodeID, bool>, T: Map<bsrNodeID, bool>, k: DK, q: int, a: int, ks: Seq<int>, n: int) requires bgrow(f, S, T), ensures rows_seen(f, S, k, q) ==> rows_seen(f, T, k, q), part_seen(f, S, k, a, ks, n) ==> part_seen(f, T, k, a, ks, n),
{
  if rows_seen(f, S, k, q) { assert forall|a: int, m: int| 0 <= a < q && #[trigger] nsp(bsg(f), f.input, k, a, m) implies kids_seen(f, T, k, a, m) by { kids_seen_mono(f, S, T, k, a, m); } }
  if part_seen(f, S, k, a, ks, n) { assert forall|i: int| 0 <= i < n implies kids_seen(f, T, k, a, #[trigger] ks[i]) by { kids_seen_mono(f, S, T, k, a, ks[i]); } }
}
pub proof fn part_rows(f: BSRForest, S: Map<bsrNodeID, bool>, k: DK, a: int) requires bx(f), kl(f, k), k.kind != 2, k.kind == 1 ==> a == k.L.alt, k.kind == 0 ==> 0 <= a < sg_nt(bsg(f), k.nt).alts.len() && rows_seen(f, S, k, a), part_seen(f, S, k, a, piv(f.index, kbk(f, k, a)), piv(f.index, kbk(f, k, a)).len() as int),
  ensures forall|m: int| #[trigger] nsp(bsg(f), f.input, k, a, m) ==> kids_seen(f, S, k, a, m), k.kind == 0 ==> rows_seen(f, S, k, a + 1),
{
  brow_has(f, k, a); let ks = piv(f.index, kbk(f, k, a)); let r = brow(f, k, a);
  assert forall|m: int| #[trigger] nsp(bsg(f), f.input, k, a, m) implies kids_seen(f, S, k, a, m) by { assert(r.contains((a, m))); let i = choose|i: int| 0 <= i < r.len() && r[i] == (a, m); assert(ks[i] == m); }
}
// the node just walked is settled
pub proof fn walked(f: BSRForest, S0: Map<bsrNodeID, bool>, S1: Map<bsrNodeID, bool>, S: Map<bsrNodeID, bool>, x: bsrNodeID)
  requires S1 == S0.insert(x, true), bgrow(f, S1, S), single(bsg(f), f.input, did(x)), forall|a: int, m: int| #[trigger] nsp(bsg(f), f.input, did(x), a, m) ==> kids_seen(f, S, did(x), a, m),
  ensures bgrow(f, S0, S), seenk(S, did(x)),
{
  let k = did(x);
  assert(on(S1, x)); assert(on(S, x));
  assert forall|b: DK| #[trigger] gstep(bsg(f), f.input, k, b) implies seenk(S, b) by {
    let (ai, m) = choose|ai: int, m: int| #[trigger] nsp(bsg(f), f.input, k, ai, m) && nkids(bsg(f), k, ai, m).contains(b);
    assert(kids_seen(f, S, k, ai, m)); let ks = nkids(bsg(f), k, ai, m); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == b; assert(seenk(S, ks[j]));
  }
  assert(bclean(f, S, x));
  assert forall|y: bsrNodeID| #[trigger] on(S0, y) implies on(S, y) by { assert(on(S1, y)); }
  assert forall|y: bsrNodeID| #[trigger] on(S, y) implies on(S0, y) || bclean(f, S, y) by { if y != x && on(S1, y) { assert(on(S0, y)); } }
}
