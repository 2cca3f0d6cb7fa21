// ---- cov.rs: the recogniser misses nothing ----
// Derivations over positions of the input in which a rule whose seed is being grown is answered by the seed
pub type GS = Map<Seq<int>, Map<int, bool>>;
pub struct Cx { pub rm: RM, pub inp: Seq<int>, pub g: GS }
pub open spec fn no_seeds(x: Cx) -> Cx { Cx { rm: x.rm, inp: x.inp, g: Map::empty() } }
pub open spec fn rkey(n: Seq<int>, i: int) -> Seq<int> { skey(lower_all(n), i) }
pub open spec fn rp_alt(x: Cx, a: Alternation, i: int, j: int, f: nat) -> bool decreases f, a, 0int, 0int {
  exists|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && rp_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f)
}
pub open spec fn rp_cat(x: Cx, c: Concatenation, n: int, i: int, j: int, f: nat) -> bool decreases f, c, 0int, n {
  if n <= 0 { i == j }
  else { n <= c.Repetitions.len() && (exists|k: int| i <= k <= j && #[trigger] pk(k) && rp_cat(x, c, n - 1, i, k, f) && rp_rep(x, c.Repetitions[n - 1], k, j, f)) }
}
pub open spec fn rp_rep(x: Cx, r: Repetition, i: int, j: int, f: nat) -> bool decreases f, r, 0int, 0int {
  exists|c: int| #[trigger] pk(c) && rep_allows(r, c) && rp_pow(x, r.Element, c, i, j, f)
}
pub open spec fn rp_pow(x: Cx, e: ElemItf, c: int, i: int, j: int, f: nat) -> bool decreases f, e, 1int, c {
  if c <= 0 { i == j }
  else { exists|k: int| i <= k <= j && #[trigger] pk(k) && rp_pow(x, e, c - 1, i, k, f) && rp_el(x, e, k, j, f) }
}
pub open spec fn rp_el(x: Cx, e: ElemItf, i: int, j: int, f: nat) -> bool decreases f, e, 0int, 0int {
  span(x.inp, i, j) && match e {
    ElemItf::ElemRulename(y) => if x.g.contains_key(rkey(y.Name, i)) { x.g[rkey(y.Name, i)].contains_key(j) } else { f > 0 && resolve(x.rm, y.Name) is Some && rp_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, j, (f - 1) as nat) },
    ElemItf::ElemGroup(y) => rp_alt(x, y.Alternation, i, j, f),
    ElemItf::ElemOption(y) => i == j || rp_alt(x, y.Alternation, i, j, f),
    _ => in_term(e, x.inp.subrange(i, j)),
  }
}
pub open spec fn rd_alt(x: Cx, a: Alternation, i: int, j: int) -> bool { exists|f: nat| #[trigger] rp_alt(x, a, i, j, f) }
pub open spec fn rd_cat(x: Cx, c: Concatenation, n: int, i: int, j: int) -> bool { exists|f: nat| #[trigger] rp_cat(x, c, n, i, j, f) }
pub open spec fn rd_rep(x: Cx, r: Repetition, i: int, j: int) -> bool { exists|f: nat| #[trigger] rp_rep(x, r, i, j, f) }
pub open spec fn rd_pow(x: Cx, e: ElemItf, c: int, i: int, j: int) -> bool { exists|f: nat| #[trigger] rp_pow(x, e, c, i, j, f) }
pub open spec fn rd_el(x: Cx, e: ElemItf, i: int, j: int) -> bool { exists|f: nat| #[trigger] rp_el(x, e, i, j, f) }
// the end set leaves out nothing
pub open spec fn tt(s: Map<int, bool>, j: int) -> bool { s.contains_key(j) && s[j] }
pub open spec fn cov_alt(x: Cx, a: Alternation, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] rd_alt(x, a, i, j) ==> tt(s, j) }
pub open spec fn cov_cat(x: Cx, c: Concatenation, n: int, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] rd_cat(x, c, n, i, j) ==> tt(s, j) }
pub open spec fn cov_rep(x: Cx, r: Repetition, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] rd_rep(x, r, i, j) ==> tt(s, j) }
pub open spec fn cov_pow(x: Cx, e: ElemItf, n: int, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] rd_pow(x, e, n, i, j) ==> tt(s, j) }
pub open spec fn cov_el(x: Cx, e: ElemItf, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] rd_el(x, e, i, j) ==> tt(s, j) }

// -- every derivation of the words is one over positions, when no rule is being grown
pub proof fn up_alt(x: Cx, a: Alternation, i: int, j: int, f: nat)
  requires x.g.dom() =~= Set::empty(), span(x.inp, i, j), in_alt(x.rm, a, x.inp.subrange(i, j), f), ensures rp_alt(x, a, i, j, f), decreases f, a, 0int, 0int,
{
  let w = x.inp.subrange(i, j);
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && in_cat(x.rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f);
  up_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f); assert(pk(c));
}
pub proof fn up_cat(x: Cx, c: Concatenation, n: int, i: int, j: int, f: nat)
  requires x.g.dom() =~= Set::empty(), span(x.inp, i, j), in_cat(x.rm, c, n, x.inp.subrange(i, j), f), ensures rp_cat(x, c, n, i, j, f), decreases f, c, 0int, n,
{
  let w = x.inp.subrange(i, j);
  if n > 0 {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(x.rm, c, n - 1, w.subrange(0, k), f) && in_rep(x.rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
    assert(w.subrange(0, k) =~= x.inp.subrange(i, i + k)); assert(w.subrange(k, w.len() as int) =~= x.inp.subrange(i + k, j));
    up_cat(x, c, n - 1, i, i + k, f); up_rep(x, c.Repetitions[n - 1], i + k, j, f); assert(pk(i + k));
  }
}
pub proof fn up_rep(x: Cx, r: Repetition, i: int, j: int, f: nat)
  requires x.g.dom() =~= Set::empty(), span(x.inp, i, j), in_rep(x.rm, r, x.inp.subrange(i, j), f), ensures rp_rep(x, r, i, j, f), decreases f, r, 0int, 0int,
{
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && in_pow(x.rm, r.Element, c, x.inp.subrange(i, j), f);
  up_pow(x, r.Element, c, i, j, f); assert(pk(c));
}
pub proof fn up_pow(x: Cx, e: ElemItf, c: int, i: int, j: int, f: nat)
  requires x.g.dom() =~= Set::empty(), span(x.inp, i, j), in_pow(x.rm, e, c, x.inp.subrange(i, j), f), ensures rp_pow(x, e, c, i, j, f), decreases f, e, 1int, c,
{
  let w = x.inp.subrange(i, j);
  if c > 0 {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_pow(x.rm, e, c - 1, w.subrange(0, k), f) && in_el(x.rm, e, w.subrange(k, w.len() as int), f);
    assert(w.subrange(0, k) =~= x.inp.subrange(i, i + k)); assert(w.subrange(k, w.len() as int) =~= x.inp.subrange(i + k, j));
    up_pow(x, e, c - 1, i, i + k, f); up_el(x, e, i + k, j, f); assert(pk(i + k));
  }
}
pub proof fn up_el(x: Cx, e: ElemItf, i: int, j: int, f: nat)
  requires x.g.dom() =~= Set::empty(), span(x.inp, i, j), in_el(x.rm, e, x.inp.subrange(i, j), f), ensures rp_el(x, e, i, j, f), decreases f, e, 0int, 0int,
{
  match e {
    ElemItf::ElemRulename(y) => { up_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, j, (f - 1) as nat); assert(!x.g.dom().contains(rkey(y.Name, i))); },
    ElemItf::ElemGroup(y) => { up_alt(x, y.Alternation, i, j, f); },
    ElemItf::ElemOption(y) => { if i != j { up_alt(x, y.Alternation, i, j, f); } },
    _ => {},
  }
}
pub open spec fn cx_ok(x: Cx) -> bool { wf_map(x.rm) && wf_map(g_coreRules()) && memo_ok(x.rm, x.inp, x.g) }
// -- and conversely, seeds being sound
pub proof fn dn_alt(x: Cx, a: Alternation, i: int, j: int, f: nat)
  requires cx_ok(x), wf_alt(a), 0 <= i <= x.inp.len(), rp_alt(x, a, i, j, f), ensures at_alt(x.rm, a, x.inp, i, j), decreases f, a, 0int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && rp_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f);
  wf_cats(a); dn_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f); at_alt_of(x.rm, a, c, x.inp, i);
}
pub proof fn dn_cat(x: Cx, c: Concatenation, n: int, i: int, j: int, f: nat)
  requires cx_ok(x), wf_cat(c), 0 <= i <= x.inp.len(), 0 <= n <= c.Repetitions.len(), rp_cat(x, c, n, i, j, f), ensures at_cat(x.rm, c, n, x.inp, i, j), decreases f, c, 0int, n,
{
  if n > 0 {
    let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_cat(x, c, n - 1, i, k, f) && rp_rep(x, c.Repetitions[n - 1], k, j, f);
    dn_cat(x, c, n - 1, i, k, f); assert(wf_rep(c.Repetitions[n - 1])); dn_rep(x, c.Repetitions[n - 1], k, j, f); at_cat_step(x.rm, c, n - 1, x.inp, i, k);
  } else { at_cat_start(x.rm, c, x.inp, i); }
}
pub proof fn dn_rep(x: Cx, r: Repetition, i: int, j: int, f: nat)
  requires cx_ok(x), wf_rep(r), 0 <= i <= x.inp.len(), rp_rep(x, r, i, j, f), ensures at_rep(x.rm, r, x.inp, i, j), decreases f, r, 0int, 0int,
{
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && rp_pow(x, r.Element, c, i, j, f);
  dn_pow(x, r.Element, c, i, j, f); at_rep_of(x.rm, r, c, x.inp, i);
}
pub proof fn dn_pow(x: Cx, e: ElemItf, c: int, i: int, j: int, f: nat)
  requires cx_ok(x), wf_el(e), 0 <= i <= x.inp.len(), c >= 0, rp_pow(x, e, c, i, j, f), ensures at_pow(x.rm, e, c, x.inp, i, j), decreases f, e, 1int, c,
{
  if c > 0 {
    let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_pow(x, e, c - 1, i, k, f) && rp_el(x, e, k, j, f);
    dn_pow(x, e, c - 1, i, k, f); dn_el(x, e, k, j, f); at_pow_step(x.rm, e, c - 1, x.inp, i, k);
  } else { at_pow_start(x.rm, e, x.inp, i); }
}
pub proof fn dn_el(x: Cx, e: ElemItf, i: int, j: int, f: nat)
  requires cx_ok(x), wf_el(e), rp_el(x, e, i, j, f), ensures at_el(x.rm, e, x.inp, i, j), decreases f, e, 0int, 0int,
{
  match e {
    ElemItf::ElemRulename(y) => {
      if x.g.contains_key(rkey(y.Name, i)) {
        lower_name(x.rm, y, x.inp, i); let l = lower_all(y.Name); rule_keyed(x.rm, x.inp, l, i); let s = Map::<int, bool>::empty().insert(j, true);
        let le = ElemItf::ElemRulename(ElemRulename { Name: l });
        assert(x.g[rkey(y.Name, i)].contains_key(j)); assert(keyed(x.rm, x.inp, skey(l, i), j)); assert(at_el(x.rm, le, x.inp, i, j)); assert(ends_el(x.rm, le, x.inp, i, s)); assert(ends_el(x.rm, e, x.inp, i, s)); assert(s.contains_key(j));
      } else { rule_wf(x.rm, y.Name); dn_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, j, (f - 1) as nat); d_el_rule(x.rm, y, x.inp.subrange(i, j)); }
    },
    ElemItf::ElemGroup(y) => { dn_alt(x, y.Alternation, i, j, f); d_el_group(x.rm, y, x.inp.subrange(i, j)); },
    ElemItf::ElemOption(y) => { if i != j { dn_alt(x, y.Alternation, i, j, f); } d_el_option(x.rm, y, x.inp.subrange(i, j)); },
    _ => { d_el_term(x.rm, e, x.inp.subrange(i, j)); },
  }
}
pub proof fn no_seeds_ok(x: Cx) requires cx_ok(x), ensures cx_ok(no_seeds(x)) {}
// what is covered without seeds is covered with any
pub proof fn cov_seeds(x: Cx, e: ElemItf, i: int, s: Map<int, bool>)
  requires cx_ok(x), wf_el(e), 0 <= i <= x.inp.len(), cov_el(no_seeds(x), e, i, s), ensures cov_el(x, e, i, s),
{
  let z = no_seeds(x);
  assert forall|j: int| #[trigger] rd_el(x, e, i, j) implies tt(s, j) by {
    let f = choose|f: nat| #[trigger] rp_el(x, e, i, j, f); dn_el(x, e, i, j, f);
    let h = choose|h: nat| #[trigger] in_el(x.rm, e, x.inp.subrange(i, j), h); assert(z.g.dom() =~= Set::empty()); up_el(z, e, i, j, h); assert(rd_el(z, e, i, j));
  }
}
// -- left corners
pub open spec fn skips(rm: RM, c: Concatenation, n: int) -> bool { forall|k: int| 0 <= k < n ==> d_rep(rm, #[trigger] c.Repetitions[k], Seq::<int>::empty()) }
pub open spec fn lc_el(rm: RM, e: ElemItf, y: Seq<int>) -> bool decreases e {
  match e {
    ElemItf::ElemRulename(x) => lower_all(x.Name) =~= y,
    ElemItf::ElemGroup(x) => lc_alt(rm, x.Alternation, y),
    ElemItf::ElemOption(x) => lc_alt(rm, x.Alternation, y),
    _ => false,
  }
}
pub open spec fn lc_alt(rm: RM, a: Alternation, y: Seq<int>) -> bool decreases a {
  exists|p: int, q: int| in_alt_ix(a, p, q) && lc_el(rm, #[trigger] a.Concatenations[p].Repetitions[q].Element, y) && skips(rm, a.Concatenations[p], q)
}
pub open spec fn lc_cat(rm: RM, c: Concatenation, y: Seq<int>) -> bool { exists|q: int| 0 <= q < c.Repetitions.len() && lc_el(rm, #[trigger] c.Repetitions[q].Element, y) && skips(rm, c, q) }
pub proof fn lc_alt_cat(rm: RM, a: Alternation, p: int, y: Seq<int>)
  requires 0 <= p < a.Concatenations.len(), lc_cat(rm, a.Concatenations[p], y), ensures lc_alt(rm, a, y),
{ let c = a.Concatenations[p]; let q = choose|q: int| 0 <= q < c.Repetitions.len() && lc_el(rm, #[trigger] c.Repetitions[q].Element, y) && skips(rm, c, q); assert(in_alt_ix(a, p, q)); }
pub proof fn cat_empty(rm: RM, c: Concatenation, n: int, f: nat)
  requires 0 <= n <= c.Repetitions.len(), in_cat(rm, c, n, Seq::<int>::empty(), f), ensures skips(rm, c, n), decreases n,
{
  let w = Seq::<int>::empty();
  if n > 0 {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
    assert(w.subrange(0, k) =~= w); assert(w.subrange(k, w.len() as int) =~= w); cat_empty(rm, c, n - 1, f);
    assert forall|q: int| 0 <= q < n implies d_rep(rm, #[trigger] c.Repetitions[q], w) by {}
  }
}
pub proof fn at_cat_skips(rm: RM, c: Concatenation, n: int, inp: Seq<int>, i: int)
  requires 0 <= n <= c.Repetitions.len(), at_cat(rm, c, n, inp, i, i), ensures skips(rm, c, n),
{ let f = choose|f: nat| #[trigger] in_cat(rm, c, n, inp.subrange(i, i), f); assert(inp.subrange(i, i) =~= Seq::<int>::empty()); cat_empty(rm, c, n, f); }
// b is a left corner below a, through at least one reference
pub open spec fn lp(E: Adj, a: Seq<int>, b: Seq<int>) -> bool { exists|z: Seq<int>| #[trigger] reaches(E, a, z) && E.contains_key(z) && E[z].contains(b) }
pub open spec fn low_edges(rm: RM, E: Adj) -> bool {
  forall|n: Seq<int>, y: Seq<int>| name_ok(n) && resolve(rm, n) is Some && #[trigger] lc_alt(rm, resolve(rm, n)->Some_0.Alternation, y) ==> E.contains_key(lower_all(n)) && E[lower_all(n)].contains(y)
}
pub open spec fn lr_full(rm: RM, lr: Adj, E: Adj) -> bool {
  low_edges(rm, E)
  && (forall|n: Seq<int>| name_ok(n) && #[trigger] resolve(rm, n) is Some ==> E.contains_key(lower_all(n)))
  && (forall|n: Seq<int>| #[trigger] E.contains_key(n) && cyc(E, n) ==> lr.contains_key(n))
  && (forall|n: Seq<int>, k: int| lr.contains_key(n) && 0 <= k < lr[n].len() ==> reaches(E, n, #[trigger] lr[n][k]))
  && (forall|n: Seq<int>, y: Seq<int>| lr.contains_key(n) && #[trigger] reaches(E, n, y) && reaches(E, y, n) ==> lr[n].contains(y))
  && (forall|n: Seq<int>| #[trigger] lr.contains_key(n) ==> E.contains_key(n))
}
pub open spec fn lr_exact(rm: RM, lr: Adj) -> bool { exists|E: Adj| #[trigger] lr_full(rm, lr, E) }
pub open spec fn lcg(rm: RM, lr: Adj) -> Adj { choose|E: Adj| #[trigger] lr_full(rm, lr, E) }
pub proof fn lp_cat(E: Adj, a: Seq<int>, b: Seq<int>, c: Seq<int>) requires lp(E, a, b), E.contains_key(b), ensures reaches(E, a, b), lp(E, b, c) ==> lp(E, a, c)
{
  let z = choose|z: Seq<int>| #[trigger] reaches(E, a, z) && E.contains_key(z) && E[z].contains(b);
  assert(edge(E, z, b)); reach_edge(E, z, b); reach_cat(E, a, z, b);
  if lp(E, b, c) { let y = choose|y: Seq<int>| #[trigger] reaches(E, b, y) && E.contains_key(y) && E[y].contains(c); reach_cat(E, a, b, y); }
}
pub proof fn lp_self(E: Adj, a: Seq<int>) requires lp(E, a, a), E.contains_key(a), ensures cyc(E, a)
{
  let z = choose|z: Seq<int>| #[trigger] reaches(E, a, z) && E.contains_key(z) && E[z].contains(a);
  assert(edge(E, z, a)); reach_edge(E, z, a);
  if z == a { reach_refl(E, a); } else { cyc_of(E, a, z); }
}
// -- a completed component: seeds closed under their rules' alternations hold every derivable end
pub open spec fn ripe(x: Cx, E: Adj, name: Seq<int>, at: int) -> bool {
  low_edges(x.rm, E) && (forall|n: Seq<int>| name_ok(n) && #[trigger] resolve(x.rm, n) is Some ==> E.contains_key(lower_all(n)))
  && (forall|n: Seq<int>, p: int| p > at && p <= x.inp.len() && name_ok(n) ==> !x.g.contains_key(#[trigger] rkey(n, p)))
  && (forall|n: Seq<int>, j: int| name_ok(n) && resolve(x.rm, n) is Some && reaches(E, name, lower_all(n)) && x.g.contains_key(rkey(n, at)) && #[trigger] rd_alt(x, resolve(x.rm, n)->Some_0.Alternation, at, j) ==> x.g[rkey(n, at)].contains_key(j))
}
pub open spec fn below(E: Adj, name: Seq<int>, y: Seq<int>) -> bool { reaches(E, name, y) || lp(E, name, y) }
pub open spec fn low_alt(x: Cx, E: Adj, name: Seq<int>, a: Alternation) -> bool { forall|y: Seq<int>| #[trigger] lc_alt(x.rm, a, y) ==> below(E, name, y) }
pub open spec fn low_el(x: Cx, E: Adj, name: Seq<int>, e: ElemItf) -> bool { forall|y: Seq<int>| #[trigger] lc_el(x.rm, e, y) ==> below(E, name, y) }
pub open spec fn low_cat(x: Cx, E: Adj, name: Seq<int>, c: Concatenation) -> bool { forall|y: Seq<int>| #[trigger] lc_cat(x.rm, c, y) ==> below(E, name, y) }
pub proof fn gr_alt(x: Cx, E: Adj, name: Seq<int>, at: int, a: Alternation, i: int, j: int, f: nat)
  requires cx_ok(x), ripe(x, E, name, at), wf_alt(a), 0 <= at <= i <= x.inp.len(), i > at || low_alt(x, E, name, a), rp_alt(no_seeds(x), a, i, j, f), ensures rp_alt(x, a, i, j, f), decreases f, a, 0int, 0int,
{
  let z = no_seeds(x);
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && rp_cat(z, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f);
  wf_cats(a);
  if i == at { assert forall|y: Seq<int>| #[trigger] lc_cat(x.rm, a.Concatenations[c], y) implies below(E, name, y) by { lc_alt_cat(x.rm, a, c, y); } }
  gr_cat(x, E, name, at, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f); assert(pk(c));
}
pub proof fn gr_cat(x: Cx, E: Adj, name: Seq<int>, at: int, c: Concatenation, n: int, i: int, j: int, f: nat)
  requires cx_ok(x), ripe(x, E, name, at), wf_cat(c), 0 <= n <= c.Repetitions.len(), 0 <= at <= i <= x.inp.len(), i > at || low_cat(x, E, name, c), rp_cat(no_seeds(x), c, n, i, j, f), ensures rp_cat(x, c, n, i, j, f), decreases f, c, 0int, n,
{
  let z = no_seeds(x);
  if n > 0 {
    let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_cat(z, c, n - 1, i, k, f) && rp_rep(z, c.Repetitions[n - 1], k, j, f);
    no_seeds_ok(x); dn_cat(z, c, n - 1, i, k, f); assert(wf_rep(c.Repetitions[n - 1]));
    if k == at { at_cat_skips(x.rm, c, n - 1, x.inp, i); assert forall|y: Seq<int>| #[trigger] lc_el(x.rm, c.Repetitions[n - 1].Element, y) implies below(E, name, y) by { assert(lc_cat(x.rm, c, y)); } }
    gr_cat(x, E, name, at, c, n - 1, i, k, f); gr_rep(x, E, name, at, c.Repetitions[n - 1], k, j, f); assert(pk(k));
  }
}
pub proof fn gr_rep(x: Cx, E: Adj, name: Seq<int>, at: int, r: Repetition, i: int, j: int, f: nat)
  requires cx_ok(x), ripe(x, E, name, at), wf_rep(r), 0 <= at <= i <= x.inp.len(), i > at || low_el(x, E, name, r.Element), rp_rep(no_seeds(x), r, i, j, f), ensures rp_rep(x, r, i, j, f), decreases f, r, 0int, 0int,
{
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && rp_pow(no_seeds(x), r.Element, c, i, j, f);
  gr_pow(x, E, name, at, r.Element, c, i, j, f); assert(pk(c));
}
pub proof fn gr_pow(x: Cx, E: Adj, name: Seq<int>, at: int, e: ElemItf, c: int, i: int, j: int, f: nat)
  requires cx_ok(x), ripe(x, E, name, at), wf_el(e), 0 <= at <= i <= x.inp.len(), i > at || low_el(x, E, name, e), c >= 0, rp_pow(no_seeds(x), e, c, i, j, f), ensures rp_pow(x, e, c, i, j, f), decreases f, e, 1int, c,
{
  let z = no_seeds(x);
  if c > 0 {
    let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_pow(z, e, c - 1, i, k, f) && rp_el(z, e, k, j, f);
    gr_pow(x, E, name, at, e, c - 1, i, k, f); gr_el(x, E, name, at, e, k, j, f); assert(pk(k));
  }
}
pub proof fn gr_el(x: Cx, E: Adj, name: Seq<int>, at: int, e: ElemItf, i: int, j: int, f: nat)
  requires cx_ok(x), ripe(x, E, name, at), wf_el(e), 0 <= at <= i <= x.inp.len(), i > at || low_el(x, E, name, e), rp_el(no_seeds(x), e, i, j, f), ensures rp_el(x, e, i, j, f), decreases f, e, 0int, 0int,
{
  match e {
    ElemItf::ElemRulename(y) => {
      let a = resolve(x.rm, y.Name)->Some_0.Alternation; let l = lower_all(y.Name); rule_wf(x.rm, y.Name);
      if i == at {
        assert(lc_el(x.rm, e, l)); assert(E.contains_key(l)); if !reaches(E, name, l) { lp_cat(E, name, l, l); }
        assert forall|t: Seq<int>| #[trigger] lc_alt(x.rm, a, t) implies below(E, name, t) by { assert(E[l].contains(t)); }
      }
      gr_alt(x, E, name, at, a, i, j, (f - 1) as nat); assert(rd_alt(x, a, i, j));
      if i > at { assert(!x.g.contains_key(rkey(y.Name, i))); }
    },
    ElemItf::ElemGroup(y) => { if i == at { assert forall|t: Seq<int>| #[trigger] lc_alt(x.rm, y.Alternation, t) implies below(E, name, t) by { assert(lc_el(x.rm, e, t)); } } gr_alt(x, E, name, at, y.Alternation, i, j, f); },
    ElemItf::ElemOption(y) => { if i != j { if i == at { assert forall|t: Seq<int>| #[trigger] lc_alt(x.rm, y.Alternation, t) implies below(E, name, t) by { assert(lc_el(x.rm, e, t)); } } gr_alt(x, E, name, at, y.Alternation, i, j, f); } },
    _ => {},
  }
}

// -- the recogniser's state
pub open spec fn cx(r: recognizer) -> Cx { Cx { rm: r.g->Some_0.Rulemap, inp: r.input, g: r.growing } }
pub open spec fn cx0(r: recognizer) -> Cx { no_seeds(cx(r)) }
pub open spec fn lcg_of(r: recognizer) -> Adj { lcg(r.g->Some_0.Rulemap, r.leftRec) }
// a rule whose evaluation at position i is under way
pub open spec fn busy(r: recognizer, n: Seq<int>, i: int) -> bool { r.growing.contains_key(rkey(n, i)) || r.inProgress.contains_key(skey(n, i)) }
pub open spec fn ctx_el(r: recognizer, e: ElemItf, i: int) -> bool { forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_el(r.g->Some_0.Rulemap, e, y) ==> lp(lcg_of(r), lower_all(n), y) }
pub open spec fn ctx_alt(r: recognizer, a: Alternation, i: int) -> bool { forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_alt(r.g->Some_0.Rulemap, a, y) ==> lp(lcg_of(r), lower_all(n), y) }
pub open spec fn ctx_cat(r: recognizer, c: Concatenation, i: int) -> bool { forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_cat(r.g->Some_0.Rulemap, c, y) ==> lp(lcg_of(r), lower_all(n), y) }
// the element is being evaluated: its rule, if it is one, is under way itself
pub open spec fn ctx_in(r: recognizer, e: ElemItf, i: int) -> bool {
  match e {
    ElemItf::ElemRulename(y) => !r.growing.contains_key(rkey(y.Name, i)) && (resolve(r.g->Some_0.Rulemap, y.Name) is Some ==> ctx_alt(r, resolve(r.g->Some_0.Rulemap, y.Name)->Some_0.Alternation, i)),
    _ => ctx_el(r, e, i),
  }
}
// nothing is under way to the right
pub open spec fn idle(r: recognizer, i: int) -> bool { forall|n: Seq<int>, p: int| name_ok(n) && p > i ==> !#[trigger] busy(r, n, p) }
pub open spec fn mcov(z: Cx, m: GS) -> bool { forall|e: ElemItf, i: int| wf_el(e) && 0 <= i <= z.inp.len() && m.contains_key(#[trigger] skey(estr(e), i)) ==> cov_el(z, e, i, m[skey(estr(e), i)]) }
pub open spec fn memo_cov(r: recognizer) -> bool { mcov(cx0(r), r.memo) }
pub open spec fn all_true(m: GS) -> bool { forall|k: Seq<int>, j: int| m.contains_key(k) && #[trigger] m[k].contains_key(j) ==> m[k][j] }
pub open spec fn grow_lr(lr: Adj, g: GS) -> bool { forall|n: Seq<int>, i: int| 0 <= i && #[trigger] g.contains_key(skey(n, i)) ==> lr.contains_key(n) }
pub open spec fn lr_lists(lr: Adj) -> bool {
  (forall|n: Seq<int>, k: int| lr.contains_key(n) && 0 <= k < lr[n].len() ==> lower_all(#[trigger] lr[n][k]) == lr[n][k])
  && (forall|n: Seq<int>, k: int, l: int| lr.contains_key(n) && 0 <= k < lr[n].len() && 0 <= l < lr[n].len() && #[trigger] lr[n][k] == #[trigger] lr[n][l] ==> k == l)
}
pub open spec fn rec_full(r: recognizer) -> bool {
  rec_ok(r) && lr_exact(r.g->Some_0.Rulemap, r.leftRec) && lr_lists(r.leftRec) && memo_cov(r) && all_true(r.growing) && grow_lr(r.leftRec, r.growing)
  && (forall|k: Seq<int>| #[trigger] r.inProgress.contains_key(k) ==> r.inProgress[k])
}
pub open spec fn rec_keep(a: recognizer, b: recognizer) -> bool { rec_mild(a, b) && a.growing == b.growing }
pub open spec fn rec_mild(a: recognizer, b: recognizer) -> bool {
  a.g == b.g && a.input == b.input && a.leftRec == b.leftRec && a.seedReads <= b.seedReads
  && (forall|n: Seq<int>, i: int| name_ok(n) && 0 <= i ==> (#[trigger] busy(b, n, i) <==> busy(a, n, i)))
  && (forall|n: Seq<int>, i: int| name_ok(n) && 0 <= i ==> (#[trigger] b.inProgress.contains_key(skey(n, i)) <==> a.inProgress.contains_key(skey(n, i))))
}
pub open spec fn cov2_alt(r: recognizer, q: recognizer, a: Alternation, i: int, s: Map<int, bool>) -> bool { cov_alt(cx(r), a, i, s) && (q.seedReads == r.seedReads ==> cov_alt(cx0(r), a, i, s)) }
pub open spec fn cov2_cat(r: recognizer, q: recognizer, c: Concatenation, n: int, i: int, s: Map<int, bool>) -> bool { cov_cat(cx(r), c, n, i, s) && (q.seedReads == r.seedReads ==> cov_cat(cx0(r), c, n, i, s)) }
pub open spec fn cov2_rep(r: recognizer, q: recognizer, p: Repetition, i: int, s: Map<int, bool>) -> bool { cov_rep(cx(r), p, i, s) && (q.seedReads == r.seedReads ==> cov_rep(cx0(r), p, i, s)) }
pub open spec fn cov2_el(r: recognizer, q: recognizer, e: ElemItf, i: int, s: Map<int, bool>) -> bool { cov_el(cx(r), e, i, s) && (q.seedReads == r.seedReads ==> cov_el(cx0(r), e, i, s)) }
// -- alternations: the first n alternatives
pub open spec fn covs_alt(x: Cx, a: Alternation, n: int, i: int, s: Map<int, bool>) -> bool { forall|c: int, j: int| 0 <= c < n && #[trigger] rd_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j) ==> tt(s, j) }
pub open spec fn covs2_alt(r: recognizer, q: recognizer, a: Alternation, n: int, i: int, s: Map<int, bool>) -> bool { covs_alt(cx(r), a, n, i, s) && (q.seedReads == r.seedReads ==> covs_alt(cx0(r), a, n, i, s)) }
pub proof fn covs_done(x: Cx, a: Alternation, i: int, s: Map<int, bool>)
  requires covs_alt(x, a, a.Concatenations.len() as int, i, s), ensures cov_alt(x, a, i, s),
{
  assert forall|j: int| #[trigger] rd_alt(x, a, i, j) implies tt(s, j) by {
    let f = choose|f: nat| #[trigger] rp_alt(x, a, i, j, f);
    let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && rp_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j, f);
    assert(rd_cat(x, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, i, j));
  }
}
pub proof fn ctx_cat_of(r: recognizer, a: Alternation, k: int, i: int)
  requires ctx_alt(r, a, i), 0 <= k < a.Concatenations.len(), ensures ctx_cat(r, a.Concatenations[k], i),
{
  assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_cat(r.g->Some_0.Rulemap, a.Concatenations[k], y) implies lp(lcg_of(r), lower_all(n), y) by { lc_alt_cat(r.g->Some_0.Rulemap, a, k, y); }
}
pub proof fn ctx_keep(a: recognizer, b: recognizer, i: int)
  requires rec_mild(a, b), 0 <= i,
  ensures a.growing == b.growing ==> cx(a) == cx(b), lcg_of(a) == lcg_of(b), idle(a, i) ==> idle(b, i),
    forall|e: ElemItf| ctx_el(a, e, i) ==> #[trigger] ctx_el(b, e, i),
    forall|e: Alternation| ctx_alt(a, e, i) ==> #[trigger] ctx_alt(b, e, i),
    forall|e: Concatenation| ctx_cat(a, e, i) ==> #[trigger] ctx_cat(b, e, i),
{
  assert forall|e: ElemItf| ctx_el(a, e, i) implies #[trigger] ctx_el(b, e, i) by { assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(b, n, i) && #[trigger] lc_el(b.g->Some_0.Rulemap, e, y) implies lp(lcg_of(b), lower_all(n), y) by { assert(busy(a, n, i)); } }
  assert forall|e: Alternation| ctx_alt(a, e, i) implies #[trigger] ctx_alt(b, e, i) by { assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(b, n, i) && #[trigger] lc_alt(b.g->Some_0.Rulemap, e, y) implies lp(lcg_of(b), lower_all(n), y) by { assert(busy(a, n, i)); } }
  assert forall|e: Concatenation| ctx_cat(a, e, i) implies #[trigger] ctx_cat(b, e, i) by { assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(b, n, i) && #[trigger] lc_cat(b.g->Some_0.Rulemap, e, y) implies lp(lcg_of(b), lower_all(n), y) by { assert(busy(a, n, i)); } }
  if idle(a, i) { assert forall|n: Seq<int>, p: int| name_ok(n) && p > i implies !#[trigger] busy(b, n, p) by { assert(!busy(a, n, p)); } }
}
// -- concatenations
pub open spec fn covs_rep(x: Cx, p: Repetition, from: Set<int>, s: Map<int, bool>) -> bool { forall|i: int, j: int| from.contains(i) && #[trigger] rd_rep(x, p, i, j) ==> tt(s, j) }
pub open spec fn covs2_rep(r: recognizer, q: recognizer, p: Repetition, from: Set<int>, s: Map<int, bool>) -> bool { covs_rep(cx(r), p, from, s) && (q.seedReads == r.seedReads ==> covs_rep(cx0(r), p, from, s)) }
pub proof fn cov_cat_start(x: Cx, c: Concatenation, i: int, s: Map<int, bool>) requires tt(s, i), ensures cov_cat(x, c, 0, i, s) {}
pub proof fn cov_cat_next(x: Cx, c: Concatenation, n: int, i: int, s: Map<int, bool>, from: Set<int>, t: Map<int, bool>)
  requires cov_cat(x, c, n, i, s), 0 <= n < c.Repetitions.len(), forall|k: int| #[trigger] s.contains_key(k) ==> from.contains(k), covs_rep(x, c.Repetitions[n], from, t), ensures cov_cat(x, c, n + 1, i, t),
{
  assert forall|j: int| #[trigger] rd_cat(x, c, n + 1, i, j) implies tt(t, j) by {
    let f = choose|f: nat| #[trigger] rp_cat(x, c, n + 1, i, j, f);
    let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_cat(x, c, n, i, k, f) && rp_rep(x, c.Repetitions[n], k, j, f);
    assert(rd_cat(x, c, n, i, k)); assert(rd_rep(x, c.Repetitions[n], k, j)); assert(s.contains_key(k));
  }
}
pub proof fn cov_cat_dead(x: Cx, c: Concatenation, n: int, m: int, i: int, s: Map<int, bool>)
  requires cov_cat(x, c, n, i, s), 0 <= n <= m <= c.Repetitions.len(), forall|k: int| !#[trigger] s.contains_key(k), ensures cov_cat(x, c, m, i, s), decreases m - n,
{
  if n < m {
    assert forall|j: int| #[trigger] rd_cat(x, c, n + 1, i, j) implies tt(s, j) by {
      let f = choose|f: nat| #[trigger] rp_cat(x, c, n + 1, i, j, f);
      let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_cat(x, c, n, i, k, f) && rp_rep(x, c.Repetitions[n], k, j, f);
      assert(rd_cat(x, c, n, i, k));
    }
    cov_cat_dead(x, c, n + 1, m, i, s);
  }
}
pub proof fn ctx_step(r: recognizer, c: Concatenation, n: int, i: int, p: int)
  requires ctx_cat(r, c, i), idle(r, i), 0 <= n < c.Repetitions.len(), at_cat(r.g->Some_0.Rulemap, c, n, r.input, i, p), ensures ctx_el(r, c.Repetitions[n].Element, p), idle(r, p),
{
  let rm = r.g->Some_0.Rulemap; let e = c.Repetitions[n].Element;
  if p == i { at_cat_skips(rm, c, n, r.input, i); }
  assert forall|m: Seq<int>, y: Seq<int>| name_ok(m) && #[trigger] busy(r, m, p) && #[trigger] lc_el(rm, e, y) implies lp(lcg_of(r), lower_all(m), y) by { if p == i { assert(lc_cat(rm, c, y)); } }
  assert forall|m: Seq<int>, q: int| name_ok(m) && q > p implies !#[trigger] busy(r, m, q) by {}
}
pub proof fn ctx_same(r: recognizer, e: ElemItf, i: int, p: int)
  requires ctx_el(r, e, i), idle(r, i), i <= p, ensures ctx_el(r, e, p), idle(r, p),
{
  assert forall|m: Seq<int>, y: Seq<int>| name_ok(m) && #[trigger] busy(r, m, p) && #[trigger] lc_el(r.g->Some_0.Rulemap, e, y) implies lp(lcg_of(r), lower_all(m), y) by { if p == i { } }
  assert forall|m: Seq<int>, q: int| name_ok(m) && q > p implies !#[trigger] busy(r, m, q) by {}
}
// -- repetitions
pub open spec fn covs_el(x: Cx, e: ElemItf, from: Set<int>, s: Map<int, bool>) -> bool { forall|i: int, j: int| from.contains(i) && #[trigger] rd_el(x, e, i, j) ==> tt(s, j) }
pub open spec fn covs2_el(r: recognizer, q: recognizer, e: ElemItf, from: Set<int>, s: Map<int, bool>) -> bool { covs_el(cx(r), e, from, s) && (q.seedReads == r.seedReads ==> covs_el(cx0(r), e, from, s)) }
// before the c-th occurrence: level holds the ends of c - 1 of them, ends those of every allowed smaller number
pub open spec fn rep_inv(x: Cx, p: Repetition, c: int, i: int, level: Map<int, bool>, ends: Map<int, bool>) -> bool {
  cov_pow(x, p.Element, c - 1, i, level)
  && (forall|k: int, j: int| p.Min <= k < c && 0 <= k && #[trigger] rd_pow(x, p.Element, k, i, j) ==> tt(ends, j))
  && (forall|q: int, j: int| ends.contains_key(q) && #[trigger] rd_el(x, p.Element, q, j) ==> tt(ends, j) || level.contains_key(q))
}
pub open spec fn rep2_inv(r: recognizer, q: recognizer, p: Repetition, c: int, i: int, level: Map<int, bool>, ends: Map<int, bool>) -> bool { rep_inv(cx(r), p, c, i, level, ends) && (q.seedReads == r.seedReads ==> rep_inv(cx0(r), p, c, i, level, ends)) }
pub proof fn pow_pred(x: Cx, e: ElemItf, c: int, i: int, j: int) -> (k: int)
  requires c >= 0, rd_pow(x, e, c + 1, i, j), ensures rd_pow(x, e, c, i, k), rd_el(x, e, k, j),
{
  let f = choose|f: nat| #[trigger] rp_pow(x, e, c + 1, i, j, f);
  let k = choose|k: int| i <= k <= j && #[trigger] pk(k) && rp_pow(x, e, c, i, k, f) && rp_el(x, e, k, j, f);
  assert(rd_pow(x, e, c, i, k)); assert(rd_el(x, e, k, j)); k
}
pub proof fn cov_pow_next(x: Cx, e: ElemItf, c: int, i: int, s: Map<int, bool>, t: Map<int, bool>)
  requires c >= 0, cov_pow(x, e, c, i, s), covs_el(x, e, s.dom(), t), ensures cov_pow(x, e, c + 1, i, t),
{ assert forall|j: int| #[trigger] rd_pow(x, e, c + 1, i, j) implies tt(t, j) by { let k = pow_pred(x, e, c, i, j); assert(s.contains_key(k)); } }
pub proof fn cov_pow_skip(x: Cx, e: ElemItf, c: int, m: int, i: int, s: Map<int, bool>)
  requires 0 <= c <= m, cov_pow(x, e, c, i, s), covs_el(x, e, s.dom(), s), ensures cov_pow(x, e, m, i, s), decreases m - c,
{ if c < m { cov_pow_next(x, e, c, i, s, s); cov_pow_skip(x, e, c + 1, m, i, s); } }
pub proof fn rep_start(x: Cx, p: Repetition, i: int, level: Map<int, bool>, ends: Map<int, bool>)
  requires p.Min >= 0, level =~= Map::<int, bool>::empty().insert(i, true), ends =~= (if p.Min == 0 { level } else { Map::<int, bool>::empty() }), ensures rep_inv(x, p, 1, i, level, ends),
{}
// below the minimum nothing is collected
pub proof fn rep_low(x: Cx, p: Repetition, c: int, d: int, i: int, level: Map<int, bool>, next: Map<int, bool>, ends: Map<int, bool>)
  requires rep_inv(x, p, c, i, level, ends), 1 <= c < p.Min, covs_el(x, p.Element, level.dom(), next), forall|k: int| !#[trigger] ends.contains_key(k), d == c || (next =~= level && d == p.Min - 1),
  ensures rep_inv(x, p, d + 1, i, next, ends),
{
  if d == c { cov_pow_next(x, p.Element, c - 1, i, level, next); } else { assert(next == level); cov_pow_skip(x, p.Element, c - 1, d, i, level); }
}
pub proof fn rep_more(x: Cx, p: Repetition, c: int, i: int, level: Map<int, bool>, next: Map<int, bool>, ends: Map<int, bool>, e2: Map<int, bool>)
  requires rep_inv(x, p, c, i, level, ends), c >= 1, c >= p.Min, covs_el(x, p.Element, level.dom(), next),
    forall|k: int| #[trigger] e2.contains_key(k) <==> ends.contains_key(k) || next.contains_key(k), forall|k: int| tt(ends, k) ==> #[trigger] tt(e2, k), forall|k: int| #[trigger] next.contains_key(k) ==> tt(e2, k),
  ensures rep_inv(x, p, c + 1, i, next, e2),
{
  cov_pow_next(x, p.Element, c - 1, i, level, next);
  assert forall|k: int, j: int| p.Min <= k < c + 1 && 0 <= k && #[trigger] rd_pow(x, p.Element, k, i, j) implies tt(e2, j) by { if k == c { assert(tt(next, j)); } else { assert(tt(ends, j)); } }
  assert forall|q: int, j: int| e2.contains_key(q) && #[trigger] rd_el(x, p.Element, q, j) implies tt(e2, j) || next.contains_key(q) by {
    if !next.contains_key(q) { assert(ends.contains_key(q)); if level.contains_key(q) { assert(level.dom().contains(q)); assert(tt(next, j)); } else { assert(tt(ends, j)); } }
  }
}
// the three ways out
pub proof fn rep_dead(x: Cx, p: Repetition, c: int, i: int, level: Map<int, bool>, next: Map<int, bool>, ends: Map<int, bool>)
  requires rep_inv(x, p, c, i, level, ends), c >= 1, covs_el(x, p.Element, level.dom(), next), forall|k: int| !#[trigger] next.contains_key(k), ensures cov_rep(x, p, i, ends),
{
  cov_pow_next(x, p.Element, c - 1, i, level, next);
  assert forall|j: int| #[trigger] rd_rep(x, p, i, j) implies tt(ends, j) by {
    let f = choose|f: nat| #[trigger] rp_rep(x, p, i, j, f); let k = choose|k: int| #[trigger] pk(k) && rep_allows(p, k) && rp_pow(x, p.Element, k, i, j, f);
    assert(rd_pow(x, p.Element, k, i, j));
    if k >= c { assert forall|a: int, b: int| next.dom().contains(a) && #[trigger] rd_el(x, p.Element, a, b) implies tt(next, b) by { assert(!next.contains_key(a)); } cov_pow_skip(x, p.Element, c, k, i, next); assert(next.contains_key(j)); }
  }
}
pub proof fn rep_still(x: Cx, p: Repetition, c: int, i: int, level: Map<int, bool>, next: Map<int, bool>, ends: Map<int, bool>)
  requires rep_inv(x, p, c, i, level, ends), c >= 1, c >= p.Min, covs_el(x, p.Element, level.dom(), next), forall|k: int| #[trigger] next.contains_key(k) ==> tt(ends, k), ensures cov_rep(x, p, i, ends),
{
  cov_pow_next(x, p.Element, c - 1, i, level, next);
  assert(covs_el(x, p.Element, ends.dom(), ends)) by {
    assert forall|a: int, b: int| ends.dom().contains(a) && #[trigger] rd_el(x, p.Element, a, b) implies tt(ends, b) by { if level.contains_key(a) { assert(level.dom().contains(a)); assert(tt(next, b)); } }
  }
  assert(cov_pow(x, p.Element, c, i, ends));
  assert forall|j: int| #[trigger] rd_rep(x, p, i, j) implies tt(ends, j) by {
    let f = choose|f: nat| #[trigger] rp_rep(x, p, i, j, f); let k = choose|k: int| #[trigger] pk(k) && rep_allows(p, k) && rp_pow(x, p.Element, k, i, j, f);
    assert(rd_pow(x, p.Element, k, i, j));
    if k >= c { cov_pow_skip(x, p.Element, c, k, i, ends); }
  }
}
pub proof fn rep_max(x: Cx, p: Repetition, c: int, i: int, level: Map<int, bool>, ends: Map<int, bool>)
  requires rep_inv(x, p, c, i, level, ends), p.Max != -1, c > p.Max, ensures cov_rep(x, p, i, ends),
{
  assert forall|j: int| #[trigger] rd_rep(x, p, i, j) implies tt(ends, j) by {
    let f = choose|f: nat| #[trigger] rp_rep(x, p, i, j, f); let k = choose|k: int| #[trigger] pk(k) && rep_allows(p, k) && rp_pow(x, p.Element, k, i, j, f);
    assert(rd_pow(x, p.Element, k, i, j));
  }
}

// -- elements
pub proof fn cov_up(x: Cx, e: ElemItf, i: int)
  requires cx_ok(x), wf_el(e), 0 <= i <= x.inp.len(),
  ensures forall|s: Map<int, bool>| (match e {
      ElemItf::ElemRulename(y) => !x.g.contains_key(rkey(y.Name, i)) && (resolve(x.rm, y.Name) is Some ==> cov_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, s)),
      ElemItf::ElemGroup(y) => cov_alt(x, y.Alternation, i, s),
      ElemItf::ElemOption(y) => tt(s, i) && cov_alt(x, y.Alternation, i, s),
      _ => forall|j: int| #[trigger] term_at(e, x.inp, i, j) ==> tt(s, j),
    }) ==> #[trigger] cov_el(x, e, i, s),
{
  assert forall|s: Map<int, bool>| (match e {
      ElemItf::ElemRulename(y) => !x.g.contains_key(rkey(y.Name, i)) && (resolve(x.rm, y.Name) is Some ==> cov_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, s)),
      ElemItf::ElemGroup(y) => cov_alt(x, y.Alternation, i, s),
      ElemItf::ElemOption(y) => tt(s, i) && cov_alt(x, y.Alternation, i, s),
      _ => forall|j: int| #[trigger] term_at(e, x.inp, i, j) ==> tt(s, j),
    }) implies #[trigger] cov_el(x, e, i, s) by {
    assert forall|j: int| #[trigger] rd_el(x, e, i, j) implies tt(s, j) by {
      let f = choose|f: nat| #[trigger] rp_el(x, e, i, j, f);
      match e {
        ElemItf::ElemRulename(y) => { assert(rp_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, j, (f - 1) as nat)); assert(rd_alt(x, resolve(x.rm, y.Name)->Some_0.Alternation, i, j)); },
        ElemItf::ElemGroup(y) => { assert(rp_alt(x, y.Alternation, i, j, f)); assert(rd_alt(x, y.Alternation, i, j)); },
        ElemItf::ElemOption(y) => { if i != j { assert(rp_alt(x, y.Alternation, i, j, f)); assert(rd_alt(x, y.Alternation, i, j)); } },
        _ => { assert(term_at(e, x.inp, i, j)); },
      }
    }
  }
}
pub proof fn lower_cov(x: Cx, y: ElemRulename, i: int, s: Map<int, bool>)
  requires wf_map(x.rm), wf_map(g_coreRules()), name_ok(y.Name), cov_el(x, ElemItf::ElemRulename(ElemRulename { Name: lower_all(y.Name) }), i, s), ensures cov_el(x, ElemItf::ElemRulename(y), i, s),
{
  let l = ElemRulename { Name: lower_all(y.Name) };
  assert forall|k: int| 0 <= k < l.Name.len() implies 0 <= #[trigger] l.Name[k] <= 127 by { assert(y.Name[k] <= 127); }
  lower_twice(y.Name); resolve_fold(x.rm, y.Name, l.Name);
  assert forall|j: int| #[trigger] rd_el(x, ElemItf::ElemRulename(y), i, j) implies tt(s, j) by {
    let f = choose|f: nat| #[trigger] rp_el(x, ElemItf::ElemRulename(y), i, j, f); assert(rkey(y.Name, i) == rkey(l.Name, i)); assert(rp_el(x, ElemItf::ElemRulename(l), i, j, f)); assert(rd_el(x, ElemItf::ElemRulename(l), i, j));
  }
}
pub proof fn mcov_put(z: Cx, m: GS, e: ElemItf, i: int, s: Map<int, bool>)
  requires mcov(z, m), wf_el(e), 0 <= i <= z.inp.len(), cov_el(z, e, i, s), ensures mcov(z, m.insert(skey(estr(e), i), s)),
{
  let m2 = m.insert(skey(estr(e), i), s);
  assert forall|d: ElemItf, k: int| wf_el(d) && 0 <= k <= z.inp.len() && m2.contains_key(#[trigger] skey(estr(d), k)) implies cov_el(z, d, k, m2[skey(estr(d), k)]) by {
    if skey(estr(d), k) == skey(estr(e), i) { skey_inj(estr(d), k, estr(e), i); estr_inj(d, e); } else { assert(m.contains_key(skey(estr(d), k))); }
  }
}
pub proof fn clone_cov(z: Cx, e: ElemItf, i: int, s: Map<int, bool>)
  requires cov_el(z, e, i, s), ensures forall|t: Map<int, bool>| t.dom() =~= s.dom() && (forall|k: int| #[trigger] t.contains_key(k) ==> t[k]) ==> #[trigger] cov_el(z, e, i, t),
{
  assert forall|t: Map<int, bool>| t.dom() =~= s.dom() && (forall|k: int| #[trigger] t.contains_key(k) ==> t[k]) implies #[trigger] cov_el(z, e, i, t) by {
    assert forall|j: int| #[trigger] rd_el(z, e, i, j) implies tt(t, j) by { assert(s.dom().contains(j)); assert(t.contains_key(j)); }
  }
}
pub proof fn lp_key(E: Adj, a: Seq<int>, b: Seq<int>) requires lp(E, a, b), ensures E.contains_key(a)
{
  let z = choose|z: Seq<int>| #[trigger] reaches(E, a, z) && E.contains_key(z) && E[z].contains(b);
  let n = choose|n: nat| #[trigger] path(E, a, z, n);
  if n > 0 { let c = choose|c: Seq<int>| #[trigger] edge(E, a, c) && path(E, c, z, (n - 1) as nat); }
}
// a rule met again at the position it is being evaluated at is left recursive
pub proof fn no_reentry(r: recognizer, y: ElemRulename, i: int)
  requires rec_full(r), name_ok(y.Name), ctx_el(r, ElemItf::ElemRulename(y), i), r.inProgress.contains_key(skey(y.Name, i)), ensures r.leftRec.contains_key(lower_all(y.Name)),
{
  let l = lower_all(y.Name); let E = lcg_of(r);
  assert(busy(r, y.Name, i)); assert(lc_el(r.g->Some_0.Rulemap, ElemItf::ElemRulename(y), l)); lp_key(E, l, l); lp_self(E, l);
}
pub proof fn rule_key(e: ElemItf, i: int, n: Seq<int>, p: int)
  requires wf_el(e), name_ok(n), 0 <= i, 0 <= p, skey(n, p) == skey(estr(e), i), ensures e == ElemItf::ElemRulename(ElemRulename { Name: n }), p == i,
{ skey_inj(n, p, estr(e), i); let y = ElemItf::ElemRulename(ElemRulename { Name: n }); estr_rule(ElemRulename { Name: n }); estr_inj(e, y); }
pub proof fn enter(r: recognizer, r1: recognizer, e: ElemItf, i: int)
  requires rec_full(r), wf_el(e), 0 <= i <= r.input.len(), ctx_el(r, e, i), idle(r, i), r1 == (recognizer { inProgress: r.inProgress.insert(skey(estr(e), i), true), ..r }),
    e is ElemRulename ==> !r.leftRec.contains_key(lower_all(e->ElemRulename_0.Name)),
  ensures rec_full(r1), ctx_in(r1, e, i), idle(r1, i), cx(r1) == cx(r), cx0(r1) == cx0(r),
{
  let rm = r.g->Some_0.Rulemap; let E = lcg_of(r); let k = skey(estr(e), i);
  assert(lr_full(rm, r.leftRec, E));
  assert forall|n: Seq<int>, p: int| name_ok(n) && p > i implies !#[trigger] busy(r1, n, p) by { assert(!busy(r, n, p)); if skey(n, p) == k { rule_key(e, i, n, p); } }
  match e {
    ElemItf::ElemRulename(y) => {
      let l = lower_all(y.Name);
      assert(lc_el(rm, e, l));
      if r.growing.contains_key(rkey(y.Name, i)) { assert(r.growing.contains_key(skey(l, i))); }
      if resolve(rm, y.Name) is Some {
        let a = resolve(rm, y.Name)->Some_0.Alternation;
        assert forall|n: Seq<int>, t: Seq<int>| name_ok(n) && #[trigger] busy(r1, n, i) && #[trigger] lc_alt(rm, a, t) implies lp(lcg_of(r1), lower_all(n), t) by {
          assert(E.contains_key(l) && E[l].contains(t)); reach_refl(E, l); assert(lp(E, l, t));
          if busy(r, n, i) { assert(lp(E, lower_all(n), l)); lp_cat(E, lower_all(n), l, t); } else { rule_key(e, i, n, i); }
        }
      }
    },
    _ => {
      assert forall|n: Seq<int>, t: Seq<int>| name_ok(n) && #[trigger] busy(r1, n, i) && #[trigger] lc_el(rm, e, t) implies lp(lcg_of(r1), lower_all(n), t) by { if !busy(r, n, i) { rule_key(e, i, n, i); } }
    },
  }
}
pub proof fn leave(r: recognizer, r1: recognizer, r2: recognizer, r3: recognizer, e: ElemItf, i: int)
  requires rec_full(r), wf_el(e), 0 <= i <= r.input.len(), r1 == (recognizer { inProgress: r.inProgress.insert(skey(estr(e), i), true), ..r }), rec_full(r2), rec_keep(r1, r2),
    e is ElemRulename ==> !r.inProgress.contains_key(skey(estr(e), i)), r3 == (recognizer { inProgress: r2.inProgress.remove(skey(estr(e), i)), memo: r3.memo, ..r2 }),
  ensures rec_keep(r, r3), forall|k: Seq<int>| #[trigger] r3.inProgress.contains_key(k) ==> r3.inProgress[k],
{
  let k = skey(estr(e), i);
  assert forall|n: Seq<int>, p: int| name_ok(n) && 0 <= p implies (#[trigger] r3.inProgress.contains_key(skey(n, p)) <==> r.inProgress.contains_key(skey(n, p))) by {
    if skey(n, p) == k { rule_key(e, i, n, p); } else { assert(r2.inProgress.contains_key(skey(n, p)) <==> r1.inProgress.contains_key(skey(n, p))); }
  }
  assert forall|n: Seq<int>, p: int| name_ok(n) && 0 <= p implies (#[trigger] busy(r3, n, p) <==> busy(r, n, p)) by { assert(r3.inProgress.contains_key(skey(n, p)) <==> r.inProgress.contains_key(skey(n, p))); }
}
pub proof fn alt_ctx(r: recognizer, e: ElemItf, i: int)
  requires ctx_in(r, e, i),
  ensures e is ElemGroup ==> ctx_alt(r, e->ElemGroup_0.Alternation, i), e is ElemOption ==> ctx_alt(r, e->ElemOption_0.Alternation, i),
{
  let rm = r.g->Some_0.Rulemap;
  match e {
    ElemItf::ElemGroup(y) => { assert forall|n: Seq<int>, t: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_alt(rm, y.Alternation, t) implies lp(lcg_of(r), lower_all(n), t) by { assert(lc_el(rm, e, t)); } },
    ElemItf::ElemOption(y) => { assert forall|n: Seq<int>, t: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_alt(rm, y.Alternation, t) implies lp(lcg_of(r), lower_all(n), t) by { assert(lc_el(rm, e, t)); } },
    _ => {},
  }
}
// a left-recursive rule below those under way
pub open spec fn lr_ctx(r: recognizer, name: Seq<int>, i: int) -> bool { forall|n: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) ==> lp(lcg_of(r), lower_all(n), name) }
pub proof fn elem_lr(r: recognizer, y: ElemRulename, i: int)
  requires rec_full(r), name_ok(y.Name), ctx_el(r, ElemItf::ElemRulename(y), i),
  ensures lr_ctx(r, lower_all(y.Name), i), lower_all(lower_all(y.Name)) == lower_all(y.Name),
    forall|x: Cx, s: Map<int, bool>| x.rm == r.g->Some_0.Rulemap && #[trigger] cov_el(x, ElemItf::ElemRulename(ElemRulename { Name: lower_all(y.Name) }), i, s) ==> cov_el(x, ElemItf::ElemRulename(y), i, s),
{
  let l = lower_all(y.Name); lower_twice(y.Name); assert(lc_el(r.g->Some_0.Rulemap, ElemItf::ElemRulename(y), l));
  assert forall|n: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) implies lp(lcg_of(r), lower_all(n), l) by {}
  assert forall|x: Cx, s: Map<int, bool>| x.rm == r.g->Some_0.Rulemap && #[trigger] cov_el(x, ElemItf::ElemRulename(ElemRulename { Name: l }), i, s) implies cov_el(x, ElemItf::ElemRulename(y), i, s) by { lower_cov(x, y, i, s); }
}
pub proof fn hit(r: recognizer, e: ElemItf, i: int)
  requires rec_full(r), wf_el(e), 0 <= i <= r.input.len(), r.memo.contains_key(skey(estr(e), i)), ensures cov_el(cx(r), e, i, r.memo[skey(estr(e), i)]), cov_el(cx0(r), e, i, r.memo[skey(estr(e), i)]),
{ cov_seeds(cx(r), e, i, r.memo[skey(estr(e), i)]); }
// -- growing a component
pub open spec fn kept_seeds(a: GS, b: GS) -> bool { forall|k: Seq<int>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub open spec fn calm(a: recognizer, b: recognizer) -> bool {
  a.g == b.g && a.input == b.input && a.leftRec == b.leftRec && a.seedReads <= b.seedReads
  && (forall|n: Seq<int>, i: int| name_ok(n) && 0 <= i ==> (#[trigger] b.inProgress.contains_key(skey(n, i)) <==> a.inProgress.contains_key(skey(n, i))))
}
pub open spec fn lr_keys(r0: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>) -> bool {
  keys.len() == r0.leftRec[name].len() && (forall|q: int| 0 <= q < keys.len() ==> #[trigger] keys[q] == skey(r0.leftRec[name][q], i) && !r0.growing.contains_key(keys[q]))
}
pub open spec fn lr_pre(r: recognizer, name: Seq<int>, i: int) -> bool { rec_full(r) && name_ok(name) && lower_all(name) == name && 0 <= i <= r.input.len() && r.leftRec.contains_key(name) && lr_ctx(r, name, i) && idle(r, i) }
pub open spec fn grow_inv(r0: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>) -> bool {
  rec_full(r) && calm(r0, r) && lr_keys(r0, name, i, keys) && kept_seeds(r0.growing, r.growing) && (forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) <==> r0.growing.contains_key(k) || keys.contains(k))
}
pub open spec fn sclosed(r: recognizer, scc: Seq<Seq<int>>, keys: Seq<Seq<int>>, i: int, n: int) -> bool {
  forall|q: int| 0 <= q < n && resolve(r.g->Some_0.Rulemap, scc[q]) is Some ==> cov_alt(cx(r), resolve(r.g->Some_0.Rulemap, #[trigger] scc[q])->Some_0.Alternation, i, r.growing[keys[q]])
}
pub proof fn seed_cov(r: recognizer, name: Seq<int>, i: int)
  requires rec_full(r), lower_all(name) == name, r.growing.contains_key(skey(name, i)), ensures cov_el(cx(r), ElemItf::ElemRulename(ElemRulename { Name: name }), i, r.growing[skey(name, i)]),
{
  let e = ElemItf::ElemRulename(ElemRulename { Name: name });
  assert forall|j: int| #[trigger] rd_el(cx(r), e, i, j) implies tt(r.growing[skey(name, i)], j) by { let f = choose|f: nat| #[trigger] rp_el(cx(r), e, i, j, f); assert(cx(r).g[rkey(name, i)].contains_key(j)); }
}
pub proof fn lr_enter(r0: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>)
  requires lr_pre(r0, name, i), r.g == r0.g, r.input == r0.input, r.leftRec == r0.leftRec, r.memo == r0.memo, r.inProgress == r0.inProgress, r.seedReads == r0.seedReads,
    memo_ok(r.g->Some_0.Rulemap, r.input, r.growing), grow_ok(r.leftRec, r.growing), all_true(r.growing), kept_seeds(r0.growing, r.growing), lr_keys(r0, name, i, keys), forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) <==> r0.growing.contains_key(k) || keys.contains(k),
  ensures grow_inv(r0, r, name, i, keys),
{
  assert forall|n: Seq<int>, p: int| 0 <= p && #[trigger] r.growing.contains_key(skey(n, p)) implies r.leftRec.contains_key(n) by {
    if !r0.growing.contains_key(skey(n, p)) { let q = choose|q: int| 0 <= q < keys.len() && keys[q] == skey(n, p); skey_inj(n, p, r0.leftRec[name][q], i); }
  }
  assert(cx0(r) == cx0(r0));
}
pub proof fn lr_member(r0: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>, q: int)
  requires lr_pre(r0, name, i), grow_inv(r0, r, name, i, keys), 0 <= q < keys.len(),
  ensures idle(r, i), resolve(r.g->Some_0.Rulemap, r0.leftRec[name][q]) is Some ==> ctx_alt(r, resolve(r.g->Some_0.Rulemap, r0.leftRec[name][q])->Some_0.Alternation, i),
{
  let rm = r.g->Some_0.Rulemap; let lr = r.leftRec; let E = lcg_of(r); let x = lr[name][q];
  assert(lr_full(rm, lr, E));
  assert forall|n: Seq<int>, p: int| name_ok(n) && p > i implies !#[trigger] busy(r, n, p) by {
    assert(!busy(r0, n, p)); assert(r.inProgress.contains_key(skey(n, p)) <==> r0.inProgress.contains_key(skey(n, p)));
    if r.growing.contains_key(rkey(n, p)) { let s = choose|s: int| 0 <= s < keys.len() && keys[s] == rkey(n, p); skey_inj(lower_all(n), p, lr[name][s], i); }
  }
  if resolve(rm, x) is Some {
    let a = resolve(rm, x)->Some_0.Alternation;
    assert(name_ok(x)); assert(lower_all(x) == x);
    assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && #[trigger] busy(r, n, i) && #[trigger] lc_alt(rm, a, y) implies lp(E, lower_all(n), y) by {
      assert(E.contains_key(x) && E[x].contains(y)); let l = lower_all(n);
      assert(r.inProgress.contains_key(skey(n, i)) <==> r0.inProgress.contains_key(skey(n, i)));
      if busy(r0, n, i) { assert(lp(E, l, name)); lp_cat(E, l, name, y); assert(reaches(E, name, x)); reach_cat(E, l, name, x); }
      else { let s = choose|s: int| 0 <= s < keys.len() && keys[s] == rkey(n, i); skey_inj(l, i, lr[name][s], i); assert(lr[l] == lr[name]); assert(reaches(E, l, lr[l][q])); }
    }
  }
}
pub proof fn lr_ripe(r0: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>)
  requires lr_pre(r0, name, i), grow_inv(r0, r, name, i, keys), sclosed(r, r0.leftRec[name], keys, i, keys.len() as int),
  ensures forall|q: int| 0 <= q < keys.len() ==> cov_el(cx0(r0), ElemItf::ElemRulename(ElemRulename { Name: #[trigger] r0.leftRec[name][q] }), i, r.growing[keys[q]]),
{
  let rm = r.g->Some_0.Rulemap; let lr = r.leftRec; let E = lcg_of(r); let x = cx(r);
  assert(lr_full(rm, lr, E)); assert(cx0(r) == cx0(r0)); 
  if keys.len() > 0 { lr_member(r0, r, name, i, keys, 0); } else { assert(lr[name].contains(name)); }
  assert forall|n: Seq<int>, p: int| p > i && p <= x.inp.len() && name_ok(n) implies !x.g.contains_key(#[trigger] rkey(n, p)) by { assert(!busy(r, n, p)); }
  assert forall|n: Seq<int>, j: int| name_ok(n) && resolve(rm, n) is Some && reaches(E, name, lower_all(n)) && x.g.contains_key(rkey(n, i)) && #[trigger] rd_alt(x, resolve(rm, n)->Some_0.Alternation, i, j) implies x.g[rkey(n, i)].contains_key(j) by {
    let l = lower_all(n);
    if r0.growing.contains_key(rkey(n, i)) {
      assert(busy(r0, n, i)); assert(lp(E, l, name)); lp_cat(E, l, name, name); assert(lr[name].contains(l));
      let s = choose|s: int| 0 <= s < lr[name].len() && lr[name][s] == l; assert(keys[s] == skey(l, i));
    } else {
      let s = choose|s: int| 0 <= s < keys.len() && keys[s] == rkey(n, i); skey_inj(l, i, lr[name][s], i);
      assert forall|k: int| 0 <= k < l.len() implies 0 <= #[trigger] l[k] <= 127 by { assert(n[k] <= 127); }
      lower_twice(n); resolve_fold(rm, n, l); assert(resolve(rm, lr[name][s]) is Some); assert(cov_alt(x, resolve(rm, lr[name][s])->Some_0.Alternation, i, r.growing[keys[s]]));
    }
  }
  assert(ripe(x, E, name, i));
  assert forall|q: int| 0 <= q < keys.len() implies cov_el(cx0(r0), ElemItf::ElemRulename(ElemRulename { Name: #[trigger] lr[name][q] }), i, r.growing[keys[q]]) by {
    let m = lr[name][q]; let e = ElemItf::ElemRulename(ElemRulename { Name: m }); assert(lower_all(m) == m); assert(reaches(E, name, m)); assert(name_ok(m)); assert(keys.contains(keys[q])); assert(keys[q] == skey(m, i));
    assert forall|j: int| #[trigger] rd_el(cx0(r0), e, i, j) implies tt(r.growing[keys[q]], j) by {
      let f = choose|f: nat| #[trigger] rp_el(cx0(r0), e, i, j, f);
      assert forall|y: Seq<int>| #[trigger] lc_el(rm, e, y) implies below(E, name, y) by {}
      gr_el(x, E, name, i, e, i, j, f); assert(x.g[rkey(m, i)].contains_key(j));
    }
  }
}
// the keys are different
pub proof fn keys_apart(r0: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>)
  requires lr_lists(r0.leftRec), r0.leftRec.contains_key(name), lr_keys(r0, name, i, keys), 0 <= i, ensures forall|a: int, b: int| 0 <= a < b < keys.len() ==> #[trigger] keys[a] != #[trigger] keys[b],
{
  assert forall|a: int, b: int| 0 <= a < b < keys.len() implies #[trigger] keys[a] != #[trigger] keys[b] by { if keys[a] == keys[b] { skey_inj(r0.leftRec[name][a], i, r0.leftRec[name][b], i); } }
}
pub open spec fn stored(r0: recognizer, r5: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>, n: int) -> bool {
  r.g == r5.g && r.input == r5.input && r.leftRec == r5.leftRec && r.inProgress == r5.inProgress && r.seedReads == r5.seedReads && mcov(cx0(r0), r.memo)
  && (forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) ==> r.growing[k] == r5.growing[k])
  && (forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) <==> r0.growing.contains_key(k) || keys.subrange(n, keys.len() as int).contains(k))
}
pub proof fn store_step(r0: recognizer, r5: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>, n: int)
  requires lr_pre(r0, name, i), grow_inv(r0, r5, name, i, keys), stored(r0, r5, r, name, i, keys, n), 0 <= n < keys.len(),
    cov_el(cx0(r0), ElemItf::ElemRulename(ElemRulename { Name: r0.leftRec[name][n] }), i, r5.growing[keys[n]]),
  ensures r.growing.contains_key(keys[n]), r.growing[keys[n]] == r5.growing[keys[n]],
    forall|q: recognizer, t: Map<int, bool>| t.dom() =~= r5.growing[keys[n]].dom() && (forall|k: int| #[trigger] t.contains_key(k) ==> t[k]) && q.growing =~= r.growing.remove(keys[n]) && q.memo == #[trigger] r.memo.insert(keys[n], t) && q.g == r.g && q.input == r.input && q.leftRec == r.leftRec && q.inProgress == r.inProgress && q.seedReads == r.seedReads
      ==> #[trigger] stored(r0, r5, q, name, i, keys, n + 1),
{
  let m = r0.leftRec[name][n]; let e = ElemItf::ElemRulename(ElemRulename { Name: m }); estr_rule(ElemRulename { Name: m }); let l = keys.len() as int;
  assert(keys[n] == skey(m, i)); assert(name_ok(m)); assert(wf_el(e)); assert(keys.subrange(n, l)[0] == keys[n]); assert(keys.subrange(n, l).contains(keys[n])); sub_pop(keys, n); keys_apart(r0, name, i, keys);
  assert(!keys.subrange(n + 1, l).contains(keys[n])) by { if keys.subrange(n + 1, l).contains(keys[n]) { let kk = keys.subrange(n + 1, l); let b = choose|b: int| 0 <= b < kk.len() && kk[b] == keys[n]; assert(keys[n + 1 + b] == keys[n]); } }
  clone_cov(cx0(r0), e, i, r5.growing[keys[n]]);
  assert forall|q: recognizer, t: Map<int, bool>| t.dom() =~= r5.growing[keys[n]].dom() && (forall|k: int| #[trigger] t.contains_key(k) ==> t[k]) && q.growing =~= r.growing.remove(keys[n]) && q.memo == #[trigger] r.memo.insert(keys[n], t) && q.g == r.g && q.input == r.input && q.leftRec == r.leftRec && q.inProgress == r.inProgress && q.seedReads == r.seedReads
      implies #[trigger] stored(r0, r5, q, name, i, keys, n + 1) by {
    mcov_put(cx0(r0), r.memo, e, i, t);
    assert forall|k: Seq<int>| #[trigger] q.growing.contains_key(k) implies q.growing[k] == r5.growing[k] by { assert(r.growing.contains_key(k)); }
    assert forall|k: Seq<int>| #[trigger] q.growing.contains_key(k) <==> r0.growing.contains_key(k) || keys.subrange(n + 1, l).contains(k) by { assert(q.growing.contains_key(k) <==> r.growing.contains_key(k) && k != keys[n]); }
  }
}
pub proof fn store_done(r0: recognizer, r5: recognizer, r: recognizer, name: Seq<int>, i: int, keys: Seq<Seq<int>>)
  requires lr_pre(r0, name, i), grow_inv(r0, r5, name, i, keys), stored(r0, r5, r, name, i, keys, keys.len() as int), memo_ok(r.g->Some_0.Rulemap, r.input, r.memo),
  ensures rec_full(r), rec_keep(r0, r),
{
  assert(keys.subrange(keys.len() as int, keys.len() as int) =~= Seq::<Seq<int>>::empty());
  assert forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) <==> r0.growing.contains_key(k) by {}
  assert(r.growing =~= r0.growing);
  assert forall|n: Seq<int>, p: int| name_ok(n) && 0 <= p implies (#[trigger] busy(r, n, p) <==> busy(r0, n, p)) by { assert(r5.inProgress.contains_key(skey(n, p)) <==> r0.inProgress.contains_key(skey(n, p))); }
  assert(cx0(r) == cx0(r0));
}
// -- nullability: what the fixpoint finds includes every rule that derives the empty word
pub open spec fn nl_el(N: Map<Seq<int>, bool>, e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemOption(x) => true,
    ElemItf::ElemGroup(x) => nl_alt(N, x.Alternation),
    ElemItf::ElemRulename(x) => mb(N, lower_all(x.Name)),
    ElemItf::ElemCharVal(x) => x.Values.len() == 0,
    _ => false,
  }
}
pub open spec fn nl_alt(N: Map<Seq<int>, bool>, a: Alternation) -> bool decreases a {
  exists|p: int| 0 <= p < a.Concatenations.len() && #[trigger] pk(p) && (forall|q: int| in_alt_ix(a, p, q) ==> a.Concatenations[p].Repetitions[q].Min == 0 || nl_el(N, #[trigger] a.Concatenations[p].Repetitions[q].Element))
}
pub open spec fn nl_rep(N: Map<Seq<int>, bool>, r: Repetition) -> bool { r.Min == 0 || nl_el(N, r.Element) }
pub proof fn nl_alt_of(N: Map<Seq<int>, bool>, a: Alternation, p: int)
  requires 0 <= p < a.Concatenations.len(), forall|q: int| 0 <= q < a.Concatenations[p].Repetitions.len() ==> nl_rep(N, #[trigger] a.Concatenations[p].Repetitions[q]), ensures nl_alt(N, a),
{ assert forall|q: int| in_alt_ix(a, p, q) implies a.Concatenations[p].Repetitions[q].Min == 0 || nl_el(N, #[trigger] a.Concatenations[p].Repetitions[q].Element) by { assert(nl_rep(N, a.Concatenations[p].Repetitions[q])); } assert(pk(p)); }
pub open spec fn stuck(N: Map<Seq<int>, bool>, a: Alternation, p: int) -> bool { exists|q: int| 0 <= q < a.Concatenations[p].Repetitions.len() && !nl_rep(N, #[trigger] a.Concatenations[p].Repetitions[q]) }
pub proof fn nl_none(N: Map<Seq<int>, bool>, a: Alternation)
  requires forall|p: int| 0 <= p < a.Concatenations.len() ==> #[trigger] stuck(N, a, p), ensures !nl_alt(N, a),
{
  if nl_alt(N, a) {
    let p = choose|p: int| 0 <= p < a.Concatenations.len() && #[trigger] pk(p) && (forall|q: int| in_alt_ix(a, p, q) ==> a.Concatenations[p].Repetitions[q].Min == 0 || nl_el(N, #[trigger] a.Concatenations[p].Repetitions[q].Element));
    assert(stuck(N, a, p)); let q = choose|q: int| 0 <= q < a.Concatenations[p].Repetitions.len() && !nl_rep(N, #[trigger] a.Concatenations[p].Repetitions[q]);
    assert(in_alt_ix(a, p, q)); let r = a.Concatenations[p].Repetitions[q]; assert(nl_el(N, a.Concatenations[p].Repetitions[q].Element) == nl_el(N, r.Element));
  }
}
pub proof fn lcs_cat(rm: RM, c: Concatenation, n: int, ds: Seq<Seq<int>>)
  requires 0 <= n <= c.Repetitions.len(), n < c.Repetitions.len() ==> n > 0 && !d_rep(rm, c.Repetitions[n - 1], Seq::<int>::empty()), forall|q: int, y: Seq<int>| 0 <= q < n && #[trigger] lc_el(rm, c.Repetitions[q].Element, y) ==> ds.contains(y),
  ensures forall|y: Seq<int>| #[trigger] lc_cat(rm, c, y) ==> ds.contains(y),
{
  assert forall|y: Seq<int>| #[trigger] lc_cat(rm, c, y) implies ds.contains(y) by {
    let q = choose|q: int| 0 <= q < c.Repetitions.len() && lc_el(rm, #[trigger] c.Repetitions[q].Element, y) && skips(rm, c, q);
    if q >= n { assert(d_rep(rm, c.Repetitions[n - 1], Seq::<int>::empty())); }
  }
}
pub proof fn lcs_done(rm: RM, a: Alternation, ds: Seq<Seq<int>>)
  requires forall|p: int, y: Seq<int>| 0 <= p < a.Concatenations.len() && #[trigger] lc_cat(rm, a.Concatenations[p], y) ==> ds.contains(y), ensures has_lcs(rm, a, ds),
{
  assert forall|y: Seq<int>| #[trigger] lc_alt(rm, a, y) implies ds.contains(y) by {
    let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && lc_el(rm, #[trigger] a.Concatenations[p].Repetitions[q].Element, y) && skips(rm, a.Concatenations[p], q);
    let c = a.Concatenations[p]; assert(lc_el(rm, c.Repetitions[q].Element, y)); assert(lc_cat(rm, c, y));
  }
}
pub proof fn same_deps(rm: RM, H: Map<int, node>, K: Map<int, node>, dg: Map<Seq<int>, int>)
  requires same_graph(H, K), dg_ok(H, dg), lc_deps(rm, H, dg), ensures lc_deps(rm, K, dg),
{ assert forall|k: Seq<int>| #[trigger] dg.contains_key(k) implies lower_all(k) == k && resolve(rm, k) is Some && has_lcs(rm, resolve(rm, k)->Some_0.Alternation, K[dg[k]].Dependencies) by { assert(H.contains_key(dg[k])); assert(K.contains_key(dg[k])); } }
pub open spec fn nclosed(rm: RM, N: Map<Seq<int>, bool>) -> bool { forall|n: Seq<int>| name_ok(n) && resolve(rm, n) is Some && #[trigger] nl_alt(N, resolve(rm, n)->Some_0.Alternation) ==> mb(N, lower_all(n)) }
pub proof fn ne_alt(rm: RM, N: Map<Seq<int>, bool>, a: Alternation, f: nat)
  requires wf_map(rm), wf_map(g_coreRules()), nclosed(rm, N), wf_alt(a), in_alt(rm, a, Seq::<int>::empty(), f), ensures nl_alt(N, a), decreases f, a, 0int,
{
  let w = Seq::<int>::empty();
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && in_cat(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f);
  wf_cats(a);
  assert forall|q: int| 0 <= q < a.Concatenations[c].Repetitions.len() implies nl_rep(N, #[trigger] a.Concatenations[c].Repetitions[q]) by {
    cat_empty_f(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, q, f); assert(wf_rep(a.Concatenations[c].Repetitions[q]));
    ne_rep(rm, N, a.Concatenations[c].Repetitions[q], f);
  }
  nl_alt_of(N, a, c);
}
pub proof fn cat_empty_f(rm: RM, c: Concatenation, n: int, q: int, f: nat)
  requires 0 <= q < n <= c.Repetitions.len(), in_cat(rm, c, n, Seq::<int>::empty(), f), ensures in_rep(rm, c.Repetitions[q], Seq::<int>::empty(), f), decreases n,
{
  let w = Seq::<int>::empty();
  let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
  assert(w.subrange(0, k) =~= w); assert(w.subrange(k, w.len() as int) =~= w);
  if q < n - 1 { cat_empty_f(rm, c, n - 1, q, f); }
}
pub proof fn ne_rep(rm: RM, N: Map<Seq<int>, bool>, r: Repetition, f: nat)
  requires wf_map(rm), wf_map(g_coreRules()), nclosed(rm, N), wf_rep(r), in_rep(rm, r, Seq::<int>::empty(), f), ensures nl_rep(N, r), decreases f, r, 0int,
{
  let w = Seq::<int>::empty();
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && in_pow(rm, r.Element, c, w, f);
  if r.Min != 0 {
    assert(c > 0);
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_pow(rm, r.Element, c - 1, w.subrange(0, k), f) && in_el(rm, r.Element, w.subrange(k, w.len() as int), f);
    assert(w.subrange(k, w.len() as int) =~= w); ne_el(rm, N, r.Element, f);
  }
}
pub proof fn ne_el(rm: RM, N: Map<Seq<int>, bool>, e: ElemItf, f: nat)
  requires wf_map(rm), wf_map(g_coreRules()), nclosed(rm, N), wf_el(e), in_el(rm, e, Seq::<int>::empty(), f), ensures nl_el(N, e), decreases f, e, 0int,
{
  match e {
    ElemItf::ElemRulename(x) => { rule_wf(rm, x.Name); ne_alt(rm, N, resolve(rm, x.Name)->Some_0.Alternation, (f - 1) as nat); },
    ElemItf::ElemGroup(x) => { ne_alt(rm, N, x.Alternation, f); },
    ElemItf::ElemOption(x) => {},
    _ => {
      let cs = choose|cs: Seq<int>| scalars(cs) && fits(e, cs) && Seq::<int>::empty() =~= #[trigger] utf8_strs(cs);
      if cs.len() > 0 { assert(is_scalar(cs[cs.len() - 1])); enc_len(cs.last()); assert(utf8_strs(cs).len() == utf8_strs(cs.drop_last()).len() + enc(cs.last()).len()); }
    },
  }
}
pub proof fn ne_stop(rm: RM, N: Map<Seq<int>, bool>, r: Repetition)
  requires wf_map(rm), wf_map(g_coreRules()), nclosed(rm, N), wf_rep(r), ensures d_rep(rm, r, Seq::<int>::empty()) ==> nl_rep(N, r),
{ if d_rep(rm, r, Seq::<int>::empty()) { let f = choose|f: nat| #[trigger] in_rep(rm, r, Seq::<int>::empty(), f); ne_rep(rm, N, r, f); } }
// the rules the fixpoint ranges over
pub open spec fn rules_in(rm: RM, rs: Map<Seq<int>, Option<Rule>>) -> bool { forall|k: Seq<int>| #[trigger] rs.contains_key(k) ==> lower_all(k) == k && rs[k] is Some && resolve(rm, k) == rs[k] && wf_alt(rs[k]->Some_0.Alternation) }
pub open spec fn named<T>(rs: Map<Seq<int>, T>, d: Set<Seq<int>>) -> bool { forall|n: Seq<int>| #[trigger] d.contains(n) ==> rs.contains_key(lower_all(n)) }
pub open spec fn all_rules<T>(rm: RM, rs: Map<Seq<int>, T>) -> bool { forall|n: Seq<int>| #[trigger] resolve(rm, n) is Some ==> rs.contains_key(lower_all(n)) }
pub proof fn rule_named(rm: RM, n: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), rm.contains_key(n) || g_coreRules().contains_key(n),
  ensures resolve(rm, n) is Some, lower_all(resolve(rm, n)->Some_0.Name) == lower_all(n), resolve(rm, lower_all(n)) == resolve(rm, n), lower_all(lower_all(n)) == lower_all(n), name_ok(resolve(rm, n)->Some_0.Name), wf_alt(resolve(rm, n)->Some_0.Alternation),
    resolve(rm, resolve(rm, n)->Some_0.Name) == resolve(rm, n),
{
  if rm.contains_key(n) { assert(def_in(rm, n, n)); resolve_unique(rm, n, n); } else { assert(def_in(g_coreRules(), n, n)); resolve_unique(g_coreRules(), n, n); if defines(rm, n) { let k = choose|k: Seq<int>| #[trigger] def_in(rm, n, k); resolve_unique(rm, n, k); } }
  resolve_low(rm, n); lower_twice(n); resolve_fold(rm, n, lower_all(n)); resolve_fold(rm, n, resolve(rm, n)->Some_0.Name);
}
pub proof fn all_named<T>(rm: RM, rs: Map<Seq<int>, T>)
  requires wf_map(rm), wf_map(g_coreRules()), named(rs, rm.dom()), named(rs, g_coreRules().dom()), ensures all_rules(rm, rs),
{
  assert forall|n: Seq<int>| #[trigger] resolve(rm, n) is Some implies rs.contains_key(lower_all(n)) by {
    let m = if defines(rm, n) { rm } else { g_coreRules() };
    let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(def_in(m, n, k)); assert(m.contains_key(k)); assert(m.dom().contains(k)); assert(lower_all(k) =~= lower_all(n));
  }
}
pub proof fn fix_closed(rm: RM, rs: Map<Seq<int>, Option<Rule>>, N: Map<Seq<int>, bool>, d: Set<Seq<int>>)
  requires wf_map(rm), wf_map(g_coreRules()), rules_in(rm, rs), all_rules(rm, rs), fixed(rs, N, d), forall|k: Seq<int>| #[trigger] rs.contains_key(k) ==> d.contains(k), ensures nclosed(rm, N),
{
  assert forall|n: Seq<int>| name_ok(n) && resolve(rm, n) is Some && #[trigger] nl_alt(N, resolve(rm, n)->Some_0.Alternation) implies mb(N, lower_all(n)) by {
    let l = lower_all(n); assert(rs.contains_key(l)); lower_twice(n); resolve_fold(rm, n, l); assert(d.contains(l)); assert(nl_alt(N, rs[l]->Some_0.Alternation));
  }
}
pub open spec fn fixed(rs: Map<Seq<int>, Option<Rule>>, N: Map<Seq<int>, bool>, d: Set<Seq<int>>) -> bool { forall|k: Seq<int>| #[trigger] d.contains(k) && rs.contains_key(k) && nl_alt(N, rs[k]->Some_0.Alternation) ==> mb(N, k) }
// -- the left-corner graph and its components
pub open spec fn lc_deps(rm: RM, H: Map<int, node>, lc: Map<Seq<int>, int>) -> bool {
  forall|k: Seq<int>| #[trigger] lc.contains_key(k) ==> lower_all(k) == k && resolve(rm, k) is Some && has_lcs(rm, resolve(rm, k)->Some_0.Alternation, H[lc[k]].Dependencies)
}
pub open spec fn has_lcs(rm: RM, a: Alternation, ds: Seq<Seq<int>>) -> bool { forall|y: Seq<int>| #[trigger] lc_alt(rm, a, y) ==> ds.contains(y) }
pub open spec fn all_lr(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, out: Adj) -> bool { forall|i: int, j: int| #[trigger] before(sccs, a, 0, i, j) && !out.contains_key(nm(H, sccs[i][j])) ==> trivial(H, sccs[i]) }
pub proof fn all_lr_skip(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, out: Adj)
  requires all_lr(H, sccs, a, out), 0 <= a < sccs.len(), trivial(H, sccs[a]), ensures all_lr(H, sccs, a + 1, out),
{ assert forall|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) && !out.contains_key(nm(H, sccs[i][j])) implies trivial(H, sccs[i]) by { if i < a { assert(before(sccs, a, 0, i, j)); } } }
pub proof fn all_lr_row(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, o: Adj, out: Adj)
  requires all_lr(H, sccs, a, o), 0 <= a < sccs.len(), lr_part(H, sccs, a, sccs[a].len() as int, out), forall|k: Seq<int>| #[trigger] o.contains_key(k) ==> out.contains_key(k), ensures all_lr(H, sccs, a + 1, out),
{ assert forall|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) && !out.contains_key(nm(H, sccs[i][j])) implies trivial(H, sccs[i]) by { if i < a { assert(before(sccs, a, 0, i, j)); } else { assert(out.contains_key(nm(H, sccs[a][j]))); } } }
pub proof fn node_at(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, n: Seq<int>) -> (r: (int, int))
  requires comps(H, dg, sccs), dg.contains_key(n), ensures at2(sccs, r.0, r.1), nm(H, sccs[r.0][r.1]) == n, before(sccs, sccs.len() as int, 0, r.0, r.1), sccs[r.0][r.1] == dg[n],
{
  let (i, j) = choose|i: int, j: int| 0 <= i < sccs.len() && at2(sccs, i, j) && #[trigger] sccs[i][j] == dg[n]; assert(nm(H, dg[n]) =~= n); (i, j)
}
pub proof fn same_scc(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int, j: int, y: Seq<int>) -> (k: int)
  requires comps(H, dg, sccs), at2(sccs, i, j), reaches(adj(H, dg), nm(H, sccs[i][j]), y), reaches(adj(H, dg), y, nm(H, sccs[i][j])), ensures at2(sccs, i, k), nm(H, sccs[i][k]) == y,
{
  let g = adj(H, dg); let a = nm(H, sccs[i][j]); let v = sccs[i][j]; assert(is_node(H, dg, v)); assert(dg[a] == v);
  let n = choose|n: nat| #[trigger] path(g, a, y, n); let m = choose|m: nat| #[trigger] path(g, y, a, m);
  assert(in_sccs(sccs, i + 1, dg[a])); scc_path(H, dg, sccs, i, a, y, n);
  let (p, q) = choose|p: int, q: int| 0 <= p < i + 1 && at2(sccs, p, q) && #[trigger] sccs[p][q] == dg[y]; assert(at2(sccs, p, q) && sccs[p][q] == dg[y]);
  scc_path(H, dg, sccs, p, y, a, m);
  let (s, t) = choose|s: int, t: int| 0 <= s < p + 1 && at2(sccs, s, t) && #[trigger] sccs[s][t] == dg[a]; assert(sccs[s][t] == sccs[i][j]); assert(s == i); assert(p == i);
  assert(nm(H, dg[y]) =~= y); q
}
pub proof fn lr_all(rm: RM, H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, out: Adj)
  requires wf_map(rm), wf_map(g_coreRules()), comps(H, dg, sccs), lr_part(H, sccs, sccs.len() as int, 0, out), all_lr(H, sccs, sccs.len() as int, out), lc_deps(rm, H, dg), all_rules(rm, dg),
  ensures lr_ok(out), lr_exact(rm, out), lr_lists(out),
{
  let E = adj(H, dg); let N = sccs.len() as int;
  lr_done(H, dg, sccs, out);
  assert forall|n: Seq<int>| #[trigger] out.contains_key(n) implies dg.contains_key(n) && exists|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]) by {
    let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(is_node(H, dg, sccs[i][j]));
  }
  assert forall|n: Seq<int>, y: Seq<int>| name_ok(n) && resolve(rm, n) is Some && #[trigger] lc_alt(rm, resolve(rm, n)->Some_0.Alternation, y) implies E.contains_key(lower_all(n)) && E[lower_all(n)].contains(y) by {
    let l = lower_all(n); assert(dg.contains_key(l)); lower_twice(n); resolve_fold(rm, n, l); assert(E[l] == H[dg[l]].Dependencies);
  }
  assert forall|n: Seq<int>| name_ok(n) && #[trigger] resolve(rm, n) is Some implies E.contains_key(lower_all(n)) by { assert(dg.contains_key(lower_all(n))); }
  assert forall|n: Seq<int>| #[trigger] E.contains_key(n) && cyc(E, n) implies out.contains_key(n) by {
    let (i, j) = node_at(H, dg, sccs, n);
    if !out.contains_key(n) { scc_cyc(H, dg, sccs, i, j); assert(trivial(H, sccs[i])); assert(j == 0); }
  }
  assert forall|n: Seq<int>, k: int| out.contains_key(n) && 0 <= k < out[n].len() implies reaches(E, n, #[trigger] out[n][k]) by {
    let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(at2(sccs, i, k)); assert(out[n][k] == nm(H, sccs[i][k]));
  }
  assert forall|n: Seq<int>, y: Seq<int>| out.contains_key(n) && #[trigger] reaches(E, n, y) && reaches(E, y, n) implies out[n].contains(y) by {
    let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]);
    let k = same_scc(H, dg, sccs, i, j, y); assert(out[n][k] == y);
  }
  assert(lr_full(rm, out, E));
  assert forall|n: Seq<int>, k: int| out.contains_key(n) && 0 <= k < out[n].len() implies lower_all(#[trigger] out[n][k]) == out[n][k] by { lr_row_of(H, dg, sccs, out, n, k); }
  assert forall|n: Seq<int>, k: int, l: int| out.contains_key(n) && 0 <= k < out[n].len() && 0 <= l < out[n].len() && #[trigger] out[n][k] == #[trigger] out[n][l] implies k == l by {
    let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(at2(sccs, i, k)); assert(at2(sccs, i, l)); assert(out[n][k] == nm(H, sccs[i][k])); assert(out[n][l] == nm(H, sccs[i][l])); same_place(H, dg, sccs, i, k, i, l);
  }
}
pub proof fn lr_row_of(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, out: Adj, n: Seq<int>, k: int)
  requires comps(H, dg, sccs), lr_part(H, sccs, sccs.len() as int, 0, out), out.contains_key(n), 0 <= k < out[n].len(), ensures lower_all(out[n][k]) == out[n][k],
{
  let N = sccs.len() as int;
  let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(out[n][k] == nm(H, sccs[i][k])); lower_twice(H[sccs[i][k]].Rulename);
}
// -- the start of a recognition: nothing is under way, nothing is remembered
pub proof fn rec_start(r: recognizer, n: Seq<int>)
  requires rec_ok(r), r.growing =~= Map::<Seq<int>, Map<int, bool>>::empty(), r.memo =~= Map::<Seq<int>, Map<int, bool>>::empty(), r.inProgress =~= Map::<Seq<int>, bool>::empty(), lr_exact(r.g->Some_0.Rulemap, r.leftRec), lr_lists(r.leftRec),
  ensures rec_full(r), ctx_el(r, ElemItf::ElemRulename(ElemRulename { Name: n }), 0), idle(r, 0),
    d_el(r.g->Some_0.Rulemap, ElemItf::ElemRulename(ElemRulename { Name: n }), r.input) ==> rd_el(cx(r), ElemItf::ElemRulename(ElemRulename { Name: n }), 0, r.input.len() as int),
{
  let e = ElemItf::ElemRulename(ElemRulename { Name: n }); let rm = r.g->Some_0.Rulemap; let L = r.input.len() as int;
  assert(r.input.subrange(0, L) =~= r.input);
  if d_el(rm, e, r.input) { let f = choose|f: nat| #[trigger] in_el(rm, e, r.input, f); up_el(cx(r), e, 0, L, f); }
}
pub open spec fn fresh_rec(r: recognizer) -> bool { rec_ok(r) && r.growing =~= Map::<Seq<int>, Map<int, bool>>::empty() && r.memo =~= Map::<Seq<int>, Map<int, bool>>::empty() && r.inProgress =~= Map::<Seq<int>, bool>::empty() && lr_exact(r.g->Some_0.Rulemap, r.leftRec) && lr_lists(r.leftRec) }
pub proof fn rec_starts(n: Seq<int>)
  ensures forall|r: recognizer| fresh_rec(r) ==> #[trigger] rec_full(r) && ctx_el(r, ElemItf::ElemRulename(ElemRulename { Name: n }), 0) && idle(r, 0),
    forall|r: recognizer, q: recognizer, s: Map<int, bool>| fresh_rec(r) && #[trigger] cov2_el(r, q, ElemItf::ElemRulename(ElemRulename { Name: n }), 0, s) && d_rule(r.g->Some_0.Rulemap, n, r.input) ==> tt(s, r.input.len() as int),
{
  let e = ElemItf::ElemRulename(ElemRulename { Name: n });
  assert forall|r: recognizer| fresh_rec(r) implies #[trigger] rec_full(r) && ctx_el(r, ElemItf::ElemRulename(ElemRulename { Name: n }), 0) && idle(r, 0) by { rec_start(r, n); }
  assert forall|r: recognizer, q: recognizer, s: Map<int, bool>| fresh_rec(r) && #[trigger] cov2_el(r, q, ElemItf::ElemRulename(ElemRulename { Name: n }), 0, s) && d_rule(r.g->Some_0.Rulemap, n, r.input) implies tt(s, r.input.len() as int) by {
    d_el_rule(r.g->Some_0.Rulemap, ElemRulename { Name: n }, r.input); rec_start(r, n); assert(rd_el(cx(r), e, 0, r.input.len() as int));
  }
}
pub proof fn one_in() ensures forall|x: Seq<int>| (#[trigger] seq![x]).contains(x) { assert forall|x: Seq<int>| (#[trigger] seq![x]).contains(x) by { assert(seq![x][0] == x); } }
pub proof fn lc_up(rm: RM, e: ElemItf)
  ensures forall|y: Seq<int>| #[trigger] lc_el(rm, e, y) ==> match e { ElemItf::ElemRulename(x) => y == lower_all(x.Name), ElemItf::ElemGroup(x) => lc_alt(rm, x.Alternation, y), ElemItf::ElemOption(x) => lc_alt(rm, x.Alternation, y), _ => false },
{
  assert forall|y: Seq<int>| #[trigger] lc_el(rm, e, y) implies match e { ElemItf::ElemRulename(x) => y == lower_all(x.Name), ElemItf::ElemGroup(x) => lc_alt(rm, x.Alternation, y), ElemItf::ElemOption(x) => lc_alt(rm, x.Alternation, y), _ => false } by {
    match e { ElemItf::ElemRulename(x) => {}, ElemItf::ElemGroup(x) => { lc_grp(rm, x.Alternation, y); }, ElemItf::ElemOption(x) => { lc_grp(rm, x.Alternation, y); }, _ => {} }
  }
}
pub proof fn lc_grp(rm: RM, a: Alternation, y: Seq<int>)
  ensures lc_el(rm, ElemItf::ElemGroup(ElemGroup { Alternation: a }), y) == lc_alt(rm, a, y), lc_el(rm, ElemItf::ElemOption(ElemOption { Alternation: a }), y) == lc_alt(rm, a, y),
{}
pub open spec fn clone_of(t: Map<int, bool>, s: Map<int, bool>) -> bool { t.dom() =~= s.dom() && (forall|k: int| #[trigger] t.contains_key(k) ==> t[k]) }
pub open spec fn left_as(r2: recognizer, r3: recognizer, k: Seq<int>) -> bool { r3 == (recognizer { inProgress: r2.inProgress.remove(k), memo: r3.memo, ..r2 }) }
// whatever the element's evaluation leaves behind, once its mark is off again
pub proof fn leave_all(r: recognizer, r1: recognizer, r2: recognizer, e: ElemItf, i: int)
  requires rec_full(r), wf_el(e), 0 <= i <= r.input.len(), r1 == (recognizer { inProgress: r.inProgress.insert(skey(estr(e), i), true), ..r }), rec_full(r2), rec_keep(r1, r2),
    e is ElemRulename ==> !r.inProgress.contains_key(skey(estr(e), i)),
  ensures forall|r3: recognizer| left_as(r2, r3, skey(estr(e), i)) ==> #[trigger] rec_keep(r, r3) && cx0(r3) == cx0(r) && (forall|k: Seq<int>| #[trigger] r3.inProgress.contains_key(k) ==> r3.inProgress[k]),
    mcov(cx0(r), r2.memo),
    forall|s: Map<int, bool>, t: Map<int, bool>| cov_el(cx0(r), e, i, s) && #[trigger] clone_of(t, s) ==> mcov(cx0(r), r2.memo.insert(skey(estr(e), i), t)),
{
  assert forall|r3: recognizer| left_as(r2, r3, skey(estr(e), i)) implies #[trigger] rec_keep(r, r3) && cx0(r3) == cx0(r) && (forall|k: Seq<int>| #[trigger] r3.inProgress.contains_key(k) ==> r3.inProgress[k]) by { leave(r, r1, r2, r3, e, i); }
  assert(cx0(r2) == cx0(r));
  assert forall|s: Map<int, bool>, t: Map<int, bool>| cov_el(cx0(r), e, i, s) && #[trigger] clone_of(t, s) implies mcov(cx0(r), r2.memo.insert(skey(estr(e), i), t)) by { clone_cov(cx0(r), e, i, s); mcov_put(cx0(r), r2.memo, e, i, t); }
}
