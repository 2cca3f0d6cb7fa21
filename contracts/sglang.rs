// ---- sglang.rs: the slot grammar a rule is lowered to has the rule's language ----
pub open spec fn comp(sg: slotGrammar, rm: RM) -> bool { wf_map(rm) && wf_map(g_coreRules()) && low_ok(sg) && done_from(sg, rm, 0) }
// sg is the lowering of the rule root of rm
pub open spec fn lowered(sg: slotGrammar, rm: RM, root: Seq<int>) -> bool { comp(sg, rm) && ascii(root) && resolve(rm, root) is Some && sg_in(sg, Mean::Rule(root), sg.start) }
pub open spec fn mkind(m: Mean) -> int { match m { Mean::Rule(n) => 1, Mean::Grp(g) => 2, Mean::Opt(o) => 3, Mean::Rep(r) => 4 } }
pub open spec fn mkbody(m: Mean) -> Seq<int> { match m { Mean::Rule(n) => lower_all(n), Mean::Grp(g) => estr(ElemItf::ElemGroup(g)), Mean::Opt(o) => estr(ElemItf::ElemOption(o)), Mean::Rep(r) => rstr(r) } }
pub open spec fn kkind(k: Seq<int>) -> int { if k[0] == 103 { 2 } else if k[0] == 111 { 3 } else if k[1] == 117 { 1 } else { 4 } }
pub proof fn mkey_kind(m: Mean) ensures kkind(mkey(m)) == mkind(m),
{ hide(estr); hide(rstr); let k = mkey(m); match m { Mean::Rule(n) => { assert(k[0] == 114 && k[1] == 117); }, Mean::Grp(g) => { assert(k[0] == 103); }, Mean::Opt(o) => { assert(k[0] == 111); }, Mean::Rep(r) => { assert(k[0] == 114 && k[1] == 101); } } }
pub proof fn mkey_same(m: Mean, p: Mean)
  requires mwf(m), mwf(p), mkey(m) == mkey(p), ensures mkind(m) == mkind(p), m is Rule ==> p is Rule && feq(m->Rule_0, p->Rule_0), !(m is Rule) ==> m == p,
{
  hide(estr); hide(rstr); hide(wf_alt); hide(wf_el);
  mkey_kind(m); mkey_kind(p);
  match m {
    Mean::Rule(n) => { cancel(seq![114int, 117, 108, 101, 58], mkbody(m), mkbody(p)); },
    Mean::Grp(g) => { cancel(seq![103int, 114, 112, 58], mkbody(m), mkbody(p)); wf_grp(g); wf_grp(p->Grp_0); estr_inj(ElemItf::ElemGroup(g), ElemItf::ElemGroup(p->Grp_0)); },
    Mean::Opt(o) => { cancel(seq![111int, 112, 116, 58], mkbody(m), mkbody(p)); wf_opt(o); wf_opt(p->Opt_0); estr_inj(ElemItf::ElemOption(o), ElemItf::ElemOption(p->Opt_0)); },
    Mean::Rep(r) => { cancel(seq![114int, 101, 112, 58], mkbody(m), mkbody(p)); rstr_inj(r, p->Rep_0); },
  }
}
pub proof fn wf_grp(g: ElemGroup) ensures wf_el(ElemItf::ElemGroup(g)) <==> wf_alt(g.Alternation) {}
pub proof fn wf_opt(g: ElemOption) ensures wf_el(ElemItf::ElemOption(g)) <==> wf_alt(g.Alternation) {}
// a reference to a construct leads to a nonterminal shaped like it
pub proof fn mean_at(sg: slotGrammar, rm: RM, m: Mean, id: int)
  requires comp(sg, rm), mwf(m), sg_in(sg, m, id), ensures sg_has(sg, id), shaped(sg, rm, id, m),
{
  hide(mkey); hide(wf_map); hide(wf_alt);
  assert(sg.index.contains_key(mkey(m))); assert(sg.nts[id] is Some);
  assert(sg_complete(sg, rm, id));
  let p = choose|p: Mean| mwf(p) && sg_in(sg, p, id) && #[trigger] shaped(sg, rm, id, p);
  assert(sg.index.contains_key(mkey(p)));
  mkey_same(m, p);
  if m is Rule { resolve_fold(rm, m->Rule_0, p->Rule_0); }
}
pub proof fn el_not_rep(sg: slotGrammar, r: Repetition, e: ElemItf, s: ssym, id: int)
  requires low_ok(sg), sg_in(sg, Mean::Rep(r), id), el_of(sg, e, s), s.kind == 0, ensures s.nt != id,
{
  hide(mkey);
  let m = match e { ElemItf::ElemRulename(x) => Mean::Rule(x.Name), ElemItf::ElemGroup(x) => Mean::Grp(x), ElemItf::ElemOption(x) => Mean::Opt(x), _ => Mean::Rep(r) };
  mkey_kind(m); mkey_kind(Mean::Rep(r));
  assert(sg.index.contains_key(mkey(m))); assert(sg.index.contains_key(mkey(Mean::Rep(r))));
}
// counted powers, from the left
pub open spec fn rc_ok(r: Repetition, rc: int) -> bool { 0 <= rc && (r.Max == -1 ==> rc <= r.Min) && (r.Max != -1 ==> rc <= r.Max) }
pub open spec fn d_left(rm: RM, r: Repetition, rc: int, w: Seq<int>) -> bool { exists|n: int| #[trigger] pk(n) && n >= 0 && rc + n >= r.Min && (r.Max == -1 || rc + n <= r.Max) && d_pow(rm, r.Element, n, w) }
pub proof fn d_pow_cons(rm: RM, e: ElemItf, c: int, u: Seq<int>, v: Seq<int>)
  requires 0 <= c, d_el(rm, e, u), d_pow(rm, e, c, v), ensures d_pow(rm, e, c + 1, u + v), decreases c,
{
  let f = choose|f: nat| #[trigger] in_pow(rm, e, c, v, f);
  if c == 0 { d_pow_nil(rm, e); d_pow_snoc(rm, e, 0, Seq::<int>::empty(), u); assert(Seq::<int>::empty() + u =~= u + v); }
  else {
    let k = choose|k: int| 0 <= k <= v.len() && #[trigger] cut(v, k) && in_pow(rm, e, c - 1, v.subrange(0, k), f) && in_el(rm, e, v.subrange(k, v.len() as int), f);
    let a = v.subrange(0, k); let b = v.subrange(k, v.len() as int);
    assert(d_pow(rm, e, c - 1, a)); assert(d_el(rm, e, b));
    d_pow_cons(rm, e, c - 1, u, a); d_pow_snoc(rm, e, c, u + a, b); assert((u + a) + b =~= u + v);
  }
}
pub proof fn pow_uncons(rm: RM, e: ElemItf, c: int, w: Seq<int>, f: nat) -> (k: int)
  requires c >= 1, in_pow(rm, e, c, w, f), ensures 0 <= k <= w.len(), in_el(rm, e, w.subrange(0, k), f), in_pow(rm, e, c - 1, w.subrange(k, w.len() as int), f), decreases c,
{
  let q = choose|q: int| 0 <= q <= w.len() && #[trigger] cut(w, q) && in_pow(rm, e, c - 1, w.subrange(0, q), f) && in_el(rm, e, w.subrange(q, w.len() as int), f);
  if c == 1 { assert(q == 0); assert(w.subrange(0, w.len() as int) =~= w.subrange(q, w.len() as int)); w.len() as int }
  else {
    let a = w.subrange(0, q); let b = w.subrange(q, w.len() as int);
    let k = pow_uncons(rm, e, c - 1, a, f);
    assert(a.subrange(0, k) =~= w.subrange(0, k));
    let v = w.subrange(k, w.len() as int); assert(cut(v, q - k)); assert(v.subrange(0, q - k) =~= a.subrange(k, a.len() as int)); assert(v.subrange(q - k, v.len() as int) =~= b);
    assert(in_pow(rm, e, c - 1, v, f));
    k
  }
}
pub open spec fn dm(rm: RM, m: Mean, rc: int, w: Seq<int>) -> bool {
  match m { Mean::Rule(n) => d_rule(rm, n, w), Mean::Grp(g) => d_alt(rm, g.Alternation, w), Mean::Opt(o) => w.len() == 0 || d_alt(rm, o.Alternation, w), Mean::Rep(r) => d_left(rm, r, rc, w) }
}
// ---- soundness: what the slot grammar derives, the rule derives
pub proof fn snd_nt(sg: slotGrammar, rm: RM, inp: Seq<int>, m: Mean, id: int, rc: int, l: int, r: int, h: nat)
  requires comp(sg, rm), mwf(m), sg_in(sg, m, id), 0 <= l <= r <= inp.len(), sder(sg, inp, id, rc, l, r, h), m is Rep ==> rc_ok(m->Rep_0, rc) || m->Rep_0.Max != -1 && m->Rep_0.Max < m->Rep_0.Min,
  ensures dm(rm, m, rc, inp.subrange(l, r)), decreases h, 0int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el); hide(wf_alt);
  mean_at(sg, rm, m, id);
  let w = inp.subrange(l, r); let x = sg_nt(sg, id);
  let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < x.alts.len() && allowed(sg, id, rc, ai) && spre(sg, inp, id, ai, rc, sprod(sg, id, ai).len() as int, l, r, (h - 1) as nat);
  match m {
    Mean::Rule(n) => { rule_alt_wf(rm, n); snd_alts(sg, rm, inp, resolve(rm, n)->Some_0.Alternation, id, ai, 0, rc, l, r, (h - 1) as nat); },
    Mean::Grp(g) => { snd_alts(sg, rm, inp, g.Alternation, id, ai, 0, rc, l, r, (h - 1) as nat); },
    Mean::Opt(o) => {
      if ai == 0 { eps_pre(sg, inp, id, ai, rc, l, r, (h - 1) as nat); assert(w.len() == 0); }
      else { assert(x.alts.subrange(1, x.alts.len() as int)[ai - 1] == x.alts[ai]); snd_alts(sg, rm, inp, o.Alternation, id, ai, 1, rc, l, r, (h - 1) as nat); }
    },
    Mean::Rep(q) => {
      if ai == 0 { eps_pre(sg, inp, id, ai, rc, l, r, (h - 1) as nat); assert(w =~= Seq::<int>::empty()); d_pow_nil(rm, q.Element); assert(pk(0)); }
      else { snd_rep(sg, rm, inp, q, id, rc, l, r, (h - 1) as nat); }
    },
  }
}
pub proof fn rule_alt_wf(rm: RM, n: Seq<int>) requires wf_map(rm), wf_map(g_coreRules()), ensures resolve(rm, n) is Some ==> wf_alt(resolve(rm, n)->Some_0.Alternation),
{ hide(wf_alt); if resolve(rm, n) is Some { let m = if defines(rm, n) { rm } else { g_coreRules() }; let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(m.contains_key(k)); } }
pub proof fn eps_pre(sg: slotGrammar, inp: Seq<int>, id: int, ai: int, rc: int, l: int, r: int, h: nat)
  requires eps_prod(sprod(sg, id, ai)), spre(sg, inp, id, ai, rc, 1, l, r, h), ensures l == r,
{
  let s = sprod(sg, id, ai)[0];
  let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, inp, id, ai, rc, 0, l, k, h) && ssy(sg, inp, s, crc(sg, id, rc, s), k, r, h);
}
// one alternative of a construct; o is the index of its first one
pub proof fn snd_alts(sg: slotGrammar, rm: RM, inp: Seq<int>, a: Alternation, id: int, ai: int, o: int, rc: int, l: int, r: int, h: nat)
  requires comp(sg, rm), wf_alt(a), !sg_nt(sg, id).isRep, 0 <= o <= ai < sg_nt(sg, id).alts.len(), sg_nt(sg, id).alts.len() == a.Concatenations.len() + o, cat_of(sg, a.Concatenations[ai - o], sprod(sg, id, ai)),
    0 <= l <= r <= inp.len(), spre(sg, inp, id, ai, rc, sprod(sg, id, ai).len() as int, l, r, h),
  ensures d_alt(rm, a, inp.subrange(l, r)), decreases h, 4int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let c = a.Concatenations[ai - o]; let q = sprod(sg, id, ai);
  wf_cats(a); assert(wf_cat(c)); assert(c.Repetitions.len() >= 1);
  snd_pre(sg, rm, inp, c, id, ai, rc, q.len() as int, l, r, h);
  d_alt_intro(rm, a, ai - o, inp.subrange(l, r));
}
pub proof fn snd_pre(sg: slotGrammar, rm: RM, inp: Seq<int>, c: Concatenation, id: int, ai: int, rc: int, dot: int, l: int, r: int, h: nat)
  requires comp(sg, rm), wf_cat(c), !sg_nt(sg, id).isRep, reps_of(sg, c, sprod(sg, id, ai)), 0 <= dot <= sprod(sg, id, ai).len(), 0 <= l <= r <= inp.len(), spre(sg, inp, id, ai, rc, dot, l, r, h),
  ensures d_cat(rm, c, dot, inp.subrange(l, r)), decreases h, 3int, dot,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  if dot == 0 { d_cat_nil(rm, c); assert(inp.subrange(l, r) =~= Seq::<int>::empty()); }
  else {
    let s = sprod(sg, id, ai)[dot - 1]; let cr = crc(sg, id, rc, s);
    let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, inp, id, ai, rc, dot - 1, l, k, h) && ssy(sg, inp, s, cr, k, r, h);
    assert(cr == 0); assert(rep_of(sg, c.Repetitions[dot - 1], sprod(sg, id, ai)[dot - 1]));
    assert(wf_rep(c.Repetitions[dot - 1]));
    snd_pre(sg, rm, inp, c, id, ai, rc, dot - 1, l, k, h);
    snd_sy(sg, rm, inp, c.Repetitions[dot - 1], s, k, r, h);
    d_cat_snoc(rm, c, dot - 1, inp.subrange(l, k), inp.subrange(k, r)); assert(inp.subrange(l, k) + inp.subrange(k, r) =~= inp.subrange(l, r));
  }
}
pub proof fn snd_sy(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, s: ssym, k: int, r: int, h: nat)
  requires comp(sg, rm), wf_rep(q), rep_of(sg, q, s), 0 <= k <= r <= inp.len(), ssy(sg, inp, s, 0, k, r, h), ensures d_rep(rm, q, inp.subrange(k, r)), decreases h, 2int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let w = inp.subrange(k, r);
  if q.Min == 1 && q.Max == 1 {
    snd_el(sg, rm, inp, q.Element, s, k, r, h);
    d_pow_nil(rm, q.Element); d_pow_snoc(rm, q.Element, 0, Seq::<int>::empty(), w); assert(Seq::<int>::empty() + w =~= w); d_rep_intro(rm, q, 1, w);
  } else {
    snd_nt(sg, rm, inp, Mean::Rep(q), s.nt, 0, k, r, h);
    let n = choose|n: int| #[trigger] pk(n) && n >= 0 && 0 + n >= q.Min && (q.Max == -1 || 0 + n <= q.Max) && d_pow(rm, q.Element, n, w);
    d_rep_intro(rm, q, n, w);
  }
}
pub proof fn snd_el(sg: slotGrammar, rm: RM, inp: Seq<int>, e: ElemItf, s: ssym, k: int, r: int, h: nat)
  requires comp(sg, rm), wf_el(e), el_of(sg, e, s), 0 <= k <= r <= inp.len(), ssy(sg, inp, s, 0, k, r, h), ensures d_el(rm, e, inp.subrange(k, r)), decreases h, 1int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from);
  let w = inp.subrange(k, r);
  match e {
    ElemItf::ElemRulename(x) => { snd_nt(sg, rm, inp, Mean::Rule(x.Name), s.nt, 0, k, r, h); d_el_rule(rm, x, w); },
    ElemItf::ElemGroup(x) => { snd_nt(sg, rm, inp, Mean::Grp(x), s.nt, 0, k, r, h); d_el_group(rm, x, w); },
    ElemItf::ElemOption(x) => { snd_nt(sg, rm, inp, Mean::Opt(x), s.nt, 0, k, r, h); d_el_option(rm, x, w); },
    _ => { d_el_term(rm, e, w); },
  }
}
pub proof fn snd_rep(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, id: int, rc: int, l: int, r: int, h: nat)
  requires comp(sg, rm), mwf(Mean::Rep(q)), sg_in(sg, Mean::Rep(q), id), shaped(sg, rm, id, Mean::Rep(q)), q.Max == -1 || q.Max >= q.Min, rc_ok(q, rc), allowed(sg, id, rc, 1),
    0 <= l <= r <= inp.len(), spre(sg, inp, id, 1, rc, 2, l, r, h),
  ensures d_left(rm, q, rc, inp.subrange(l, r)), decreases h, 4int, 0int,
{
  hide(mkey); hide(wf_map); hide(done_from); hide(wf_el);
  let p = sprod(sg, id, 1); let x = sg_nt(sg, id); let c1 = crc(sg, id, rc, p[1]); let c0 = crc(sg, id, rc, p[0]);
  let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, inp, id, 1, rc, 1, l, k, h) && ssy(sg, inp, p[1], c1, k, r, h);
  let j = choose|j: int| #[trigger] pk(j) && l <= j <= k && spre(sg, inp, id, 1, rc, 0, l, j, h) && ssy(sg, inp, p[0], c0, j, k, h);
  assert(j == l);
  if p[0].kind == 0 { el_not_rep(sg, q, q.Element, p[0], id); }
  assert(c0 == 0);
  snd_el(sg, rm, inp, q.Element, p[0], l, k, h);
  let rc2 = cap_rc(rc, x); assert(c1 == rc2); assert(rc_ok(q, rc2));
  snd_nt(sg, rm, inp, Mean::Rep(q), id, rc2, k, r, h);
  let n = choose|n: int| #[trigger] pk(n) && n >= 0 && rc2 + n >= q.Min && (q.Max == -1 || rc2 + n <= q.Max) && d_pow(rm, q.Element, n, inp.subrange(k, r));
  d_pow_cons(rm, q.Element, n, inp.subrange(l, k), inp.subrange(k, r)); assert(inp.subrange(l, k) + inp.subrange(k, r) =~= inp.subrange(l, r));
  assert(pk(n + 1));
}
// ---- completeness: what the rule derives, the slot grammar derives
pub proof fn cmp_alt(sg: slotGrammar, rm: RM, inp: Seq<int>, a: Alternation, id: int, o: int, l: int, r: int, f: nat)
  requires comp(sg, rm), wf_alt(a), sg_has(sg, id), !sg_nt(sg, id).isRep, 0 <= o, sg_nt(sg, id).alts.len() == a.Concatenations.len() + o, forall|i: int| 0 <= i < a.Concatenations.len() ==> cat_of(sg, a.Concatenations[i], #[trigger] sprod(sg, id, i + o)),
    0 <= l <= r <= inp.len(), in_alt(rm, a, inp.subrange(l, r), f),
  ensures DS(sg, inp, id, 0, l, r), decreases f, a, 0int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let w = inp.subrange(l, r);
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && in_cat(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f);
  wf_cats(a); assert(wf_cat(a.Concatenations[c])); assert(a.Concatenations[c].Repetitions.len() >= 1);
  assert(cat_of(sg, a.Concatenations[c], sprod(sg, id, c + o)));
  cmp_cat(sg, rm, inp, a.Concatenations[c], id, c + o, a.Concatenations[c].Repetitions.len() as int, l, r, f);
  DS_of(sg, inp, id, c + o, 0, l, r);
}
pub proof fn cmp_cat(sg: slotGrammar, rm: RM, inp: Seq<int>, c: Concatenation, id: int, ai: int, n: int, l: int, r: int, f: nat)
  requires comp(sg, rm), wf_cat(c), !sg_nt(sg, id).isRep, sprod(sg, id, ai).len() == c.Repetitions.len(), reps_of(sg, c, sprod(sg, id, ai)), 0 <= n <= c.Repetitions.len(), 0 <= l <= r <= inp.len(), in_cat(rm, c, n, inp.subrange(l, r), f),
  ensures DP(sg, inp, id, ai, 0, n, l, r), decreases f, c, 0int, n,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let w = inp.subrange(l, r);
  if n == 0 { DP_start(sg, inp, id, ai, 0, l); }
  else {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
    assert(w.subrange(0, k) =~= inp.subrange(l, l + k)); assert(w.subrange(k, w.len() as int) =~= inp.subrange(l + k, r));
    let s = sprod(sg, id, ai)[n - 1]; assert(rep_of(sg, c.Repetitions[n - 1], sprod(sg, id, ai)[n - 1])); assert(wf_rep(c.Repetitions[n - 1]));
    cmp_cat(sg, rm, inp, c, id, ai, n - 1, l, l + k, f);
    cmp_rep(sg, rm, inp, c.Repetitions[n - 1], s, l + k, r, f);
    DP_step(sg, inp, id, ai, 0, n, l, l + k, r);
  }
}
pub proof fn cmp_rep(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, s: ssym, l: int, r: int, f: nat)
  requires comp(sg, rm), wf_rep(q), rep_of(sg, q, s), 0 <= l <= r <= inp.len(), in_rep(rm, q, inp.subrange(l, r), f), ensures DY(sg, inp, s, 0, l, r), decreases f, q, 0int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let w = inp.subrange(l, r);
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(q, c) && in_pow(rm, q.Element, c, w, f);
  if q.Min == 1 && q.Max == 1 {
    assert(c == 1); let k = pow_uncons(rm, q.Element, 1, w, f); assert(w.subrange(0, k) =~= w); 
    cmp_el(sg, rm, inp, q.Element, s, l, r, f);
  } else {
    mean_at(sg, rm, Mean::Rep(q), s.nt);
    cmp_pow(sg, rm, inp, q, s.nt, c, 0, l, r, f);
    DY_nt(sg, inp, s, 0, l, r);
  }
}
pub proof fn cmp_pow(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, id: int, c: int, rc: int, l: int, r: int, f: nat)
  requires comp(sg, rm), mwf(Mean::Rep(q)), sg_in(sg, Mean::Rep(q), id), shaped(sg, rm, id, Mean::Rep(q)), sg_has(sg, id), rc_ok(q, rc), c >= 0, rc + c >= q.Min, q.Max == -1 || rc + c <= q.Max, 0 <= l <= r <= inp.len(), in_pow(rm, q.Element, c, inp.subrange(l, r), f),
  ensures DS(sg, inp, id, rc, l, r), decreases f, q.Element, 1int, c,
{
  hide(mkey); hide(wf_map); hide(done_from); hide(wf_el);
  let w = inp.subrange(l, r); let x = sg_nt(sg, id);
  if c == 0 {
    DP_start(sg, inp, id, 0, rc, l); DY_leaf(sg, inp, sprod(sg, id, 0)[0], crc(sg, id, rc, sprod(sg, id, 0)[0]), l, l); DP_step(sg, inp, id, 0, rc, 1, l, l, l); DS_of(sg, inp, id, 0, rc, l, r);
  } else {
    let k = pow_uncons(rm, q.Element, c, w, f); let p = sprod(sg, id, 1);
    assert(w.subrange(0, k) =~= inp.subrange(l, l + k)); assert(w.subrange(k, w.len() as int) =~= inp.subrange(l + k, r));
    cmp_el(sg, rm, inp, q.Element, p[0], l, l + k, f);
    if p[0].kind == 0 { el_not_rep(sg, q, q.Element, p[0], id); }
    let rc2 = cap_rc(rc, x);
    cmp_pow(sg, rm, inp, q, id, c - 1, rc2, l + k, r, f);
    DP_start(sg, inp, id, 1, rc, l);
    assert(crc(sg, id, rc, p[0]) == 0); DP_step(sg, inp, id, 1, rc, 1, l, l, l + k);
    DY_nt(sg, inp, p[1], rc2, l + k, r); assert(crc(sg, id, rc, p[1]) == rc2); DP_step(sg, inp, id, 1, rc, 2, l, l + k, r);
    DS_of(sg, inp, id, 1, rc, l, r);
  }
}
pub proof fn cmp_el(sg: slotGrammar, rm: RM, inp: Seq<int>, e: ElemItf, s: ssym, l: int, r: int, f: nat)
  requires comp(sg, rm), wf_el(e), el_of(sg, e, s), 0 <= l <= r <= inp.len(), in_el(rm, e, inp.subrange(l, r), f), ensures DY(sg, inp, s, 0, l, r), decreases f, e, 0int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from);
  let w = inp.subrange(l, r); 
  match e {
    ElemItf::ElemRulename(x) => {
      let m = Mean::Rule(x.Name); mean_at(sg, rm, m, s.nt); rule_alt_wf(rm, x.Name); let a = resolve(rm, x.Name)->Some_0.Alternation;
      assert forall|i: int| 0 <= i < a.Concatenations.len() implies cat_of(sg, a.Concatenations[i], #[trigger] sprod(sg, s.nt, i + 0)) by { assert(cat_of(sg, a.Concatenations[i], sg_nt(sg, s.nt).alts[i])); }
      cmp_alt(sg, rm, inp, a, s.nt, 0, l, r, (f - 1) as nat); DY_nt(sg, inp, s, 0, l, r);
    },
    ElemItf::ElemGroup(x) => {
      let m = Mean::Grp(x); mean_at(sg, rm, m, s.nt); let a = x.Alternation;
      assert forall|i: int| 0 <= i < a.Concatenations.len() implies cat_of(sg, a.Concatenations[i], #[trigger] sprod(sg, s.nt, i + 0)) by { assert(cat_of(sg, a.Concatenations[i], sg_nt(sg, s.nt).alts[i])); }
      cmp_alt(sg, rm, inp, a, s.nt, 0, l, r, f); DY_nt(sg, inp, s, 0, l, r);
    },
    ElemItf::ElemOption(x) => {
      let m = Mean::Opt(x); mean_at(sg, rm, m, s.nt); let a = x.Alternation; let al = sg_nt(sg, s.nt).alts;
      if w.len() == 0 {
        DP_start(sg, inp, s.nt, 0, 0, l); let es = sprod(sg, s.nt, 0)[0]; DY_leaf(sg, inp, es, crc(sg, s.nt, 0, es), l, l); DP_step(sg, inp, s.nt, 0, 0, 1, l, l, l); DS_of(sg, inp, s.nt, 0, 0, l, r);
      } else {
        assert forall|i: int| 0 <= i < a.Concatenations.len() implies cat_of(sg, a.Concatenations[i], #[trigger] sprod(sg, s.nt, i + 1)) by { let t = al.subrange(1, al.len() as int); assert(cat_of(sg, a.Concatenations[i], t[i])); assert(t[i] == al[i + 1]); }
        cmp_alt(sg, rm, inp, a, s.nt, 1, l, r, f);
      }
      DY_nt(sg, inp, s, 0, l, r);
    },
    _ => { DY_leaf(sg, inp, s, 0, l, r); },
  }
}
// the two languages agree
pub proof fn sg_lang(sg: slotGrammar, rm: RM, inp: Seq<int>, root: Seq<int>)
  requires comp(sg, rm), name_ok(root), sg_in(sg, Mean::Rule(root), sg.start), resolve(rm, root) is Some,
  ensures DS(sg, inp, sg.start, 0, 0, inp.len() as int) <==> d_rule(rm, root, inp),
{
  let n = inp.len() as int; assert(inp.subrange(0, n) =~= inp);
  if DS(sg, inp, sg.start, 0, 0, n) { let h = choose|h: nat| #[trigger] sder(sg, inp, sg.start, 0, 0, n, h); snd_nt(sg, rm, inp, Mean::Rule(root), sg.start, 0, 0, n, h); }
  if d_rule(rm, root, inp) {
    let x = ElemRulename { Name: root }; let e = ElemItf::ElemRulename(x);
    d_el_rule(rm, x, inp); let f = choose|f: nat| #[trigger] in_el(rm, e, inp, f);
    mean_at(sg, rm, Mean::Rule(root), sg.start);
    rule_alt_wf(rm, root); let a = resolve(rm, root)->Some_0.Alternation;
    assert forall|i: int| 0 <= i < a.Concatenations.len() implies cat_of(sg, a.Concatenations[i], #[trigger] sprod(sg, sg.start, i + 0)) by { assert(cat_of(sg, a.Concatenations[i], sg_nt(sg, sg.start).alts[i])); }
    cmp_alt(sg, rm, inp, a, sg.start, 0, 0, n, (f - 1) as nat);
  }
}
// and the engines' structural requirements hold
pub proof fn el_sym_ok(sg: slotGrammar, rm: RM, e: ElemItf, s: ssym) requires comp(sg, rm), wf_el(e), el_of(sg, e, s), ensures sym_ok(sg, s),
{
  hide(mkey); hide(wf_map); hide(done_from);
  match e {
    ElemItf::ElemRulename(x) => { assert(sg.index.contains_key(mkey(Mean::Rule(x.Name)))); assert(sg.nts[s.nt] is Some); },
    ElemItf::ElemGroup(x) => { assert(sg.index.contains_key(mkey(Mean::Grp(x)))); assert(sg.nts[s.nt] is Some); },
    ElemItf::ElemOption(x) => { assert(sg.index.contains_key(mkey(Mean::Opt(x)))); assert(sg.nts[s.nt] is Some); },
    _ => {},
  }
}
pub proof fn cat_sym_ok(sg: slotGrammar, rm: RM, c: Concatenation, q: Seq<ssym>)
  requires comp(sg, rm), wf_cat(c), c.Repetitions.len() >= 1, cat_of(sg, c, q), ensures q.len() >= 1, forall|d: int| 0 <= d < q.len() ==> sym_ok(sg, #[trigger] q[d]),
{
  hide(mkey); hide(wf_map); hide(done_from); hide(wf_el);
  assert forall|d: int| 0 <= d < q.len() implies sym_ok(sg, #[trigger] q[d]) by {
    let r = c.Repetitions[d]; assert(rep_of(sg, c.Repetitions[d], q[d])); assert(wf_rep(c.Repetitions[d]));
    if r.Min == 1 && r.Max == 1 { el_sym_ok(sg, rm, r.Element, q[d]); } else { assert(sg.index.contains_key(mkey(Mean::Rep(r)))); assert(sg.nts[q[d].nt] is Some); }
  }
}
pub open spec fn prods_ok(sg: slotGrammar, q: Seq<Seq<ssym>>) -> bool { forall|a: int| 0 <= a < q.len() ==> prod_ok(sg, #[trigger] q[a]) }
pub open spec fn prod_ok(sg: slotGrammar, p: Seq<ssym>) -> bool { p.len() >= 1 && forall|d: int| 0 <= d < p.len() ==> sym_ok(sg, #[trigger] p[d]) }
pub proof fn alt_prods(sg: slotGrammar, rm: RM, a: Alternation, q: Seq<Seq<ssym>>)
  requires comp(sg, rm), wf_alt(a), alts_of(sg, a, q), ensures prods_ok(sg, q),
{ hide(mkey); hide(wf_map); hide(done_from); hide(wf_el); wf_cats(a); assert forall|i: int| 0 <= i < q.len() implies prod_ok(sg, #[trigger] q[i]) by { assert(cat_of(sg, a.Concatenations[i], q[i])); assert(wf_cat(a.Concatenations[i])); cat_sym_ok(sg, rm, a.Concatenations[i], q[i]); } }
pub proof fn nt_prods(sg: slotGrammar, rm: RM, n: int)
  requires comp(sg, rm), 0 <= n < sg.nts.len(), ensures prods_ok(sg, sg_nt(sg, n).alts), sg_nt(sg, n).isRep ==> sg_nt(sg, n).alts.len() == 2,
{
  hide(mkey); hide(wf_map); hide(wf_el); hide(wf_alt);
  assert(sg.nts[n] is Some); assert(sg_complete(sg, rm, n));
  let m = choose|m: Mean| mwf(m) && sg_in(sg, m, n) && #[trigger] shaped(sg, rm, n, m); let q = sg_nt(sg, n).alts;
  match m {
    Mean::Rule(x) => { rule_alt_wf(rm, x); if resolve(rm, x) is Some { alt_prods(sg, rm, resolve(rm, x)->Some_0.Alternation, q); } },
    Mean::Grp(g) => { alt_prods(sg, rm, g.Alternation, q); },
    Mean::Opt(o) => { let t = q.subrange(1, q.len() as int); alt_prods(sg, rm, o.Alternation, t); assert forall|a: int| 0 <= a < q.len() implies prod_ok(sg, #[trigger] q[a]) by { if a > 0 { assert(q[a] == t[a - 1]); } } },
    Mean::Rep(r) => { if q.len() > 0 { el_sym_ok(sg, rm, r.Element, q[1][0]); assert forall|a: int| 0 <= a < q.len() implies prod_ok(sg, #[trigger] q[a]) by {} } },
  }
}
pub proof fn comp_sg_ok(sg: slotGrammar, rm: RM, root: Seq<int>)
  requires comp(sg, rm), ascii(root), sg_in(sg, Mean::Rule(root), sg.start), ensures sg_ok(sg),
{
  hide(mkey); hide(wf_map); hide(done_from); hide(sym_ok);
  mean_at(sg, rm, Mean::Rule(root), sg.start);
  assert forall|n: int, a: int| 0 <= n < sg.nts.len() && 0 <= a < sg_nt(sg, n).alts.len() implies (#[trigger] sg_nt(sg, n).alts[a]).len() >= 1 by { nt_prods(sg, rm, n); assert(prod_ok(sg, sg_nt(sg, n).alts[a])); }
  assert forall|n: int, a: int, d: int| 0 <= n < sg.nts.len() && 0 <= a < sg_nt(sg, n).alts.len() && 0 <= d < sg_nt(sg, n).alts[a].len() implies sym_ok(sg, #[trigger] sg_nt(sg, n).alts[a][d]) by { nt_prods(sg, rm, n); assert(prod_ok(sg, sg_nt(sg, n).alts[a])); }
  assert forall|n: int| 0 <= n < sg.nts.len() && (#[trigger] sg_nt(sg, n)).isRep implies sg_nt(sg, n).alts.len() == 2 by { nt_prods(sg, rm, n); }
}
