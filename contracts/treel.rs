// ---- treel.rs: the trees of the lowered grammar are trees of derivations of the ABNF syntax ----
pub open spec fn S_left(rm: RM, inp: Seq<int>, x: Repetition, rc: int, l: int, r: int, ts: TS) -> bool { exists|n: int| #[trigger] pk(n) && n >= 0 && rc + n >= x.Min && (x.Max == -1 || rc + n <= x.Max) && S_pow(rm, inp, x.Element, n, l, r, ts) }
pub open spec fn SM(rm: RM, inp: Seq<int>, m: Mean, rc: int, l: int, r: int, ts: TS) -> bool {
  match m {
    Mean::Rule(n) => resolve(rm, n) is Some && S_alt(rm, inp, resolve(rm, n)->Some_0.Alternation, l, r, ts),
    Mean::Grp(g) => S_alt(rm, inp, g.Alternation, l, r, ts),
    Mean::Opt(o) => (l == r && ts.len() == 0) || S_alt(rm, inp, o.Alternation, l, r, ts),
    Mean::Rep(x) => S_left(rm, inp, x, rc, l, r, ts),
  }
}
pub proof fn t_nt(sg: slotGrammar, rm: RM, inp: Seq<int>, m: Mean, id: int, rc: int, l: int, r: int, ts: TS, h: nat)
  requires comp(sg, rm), mwf(m), sg_in(sg, m, id), 0 <= l <= r <= inp.len(), lst(sg, inp, dsy(id, l, r, rc), ts, h), m is Rep ==> rc_ok(m->Rep_0, rc) || m->Rep_0.Max != -1 && m->Rep_0.Max < m->Rep_0.Min,
  ensures SM(rm, inp, m, rc, l, r, ts), decreases h, 0int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el); hide(wf_alt);
  mean_at(sg, rm, m, id);
  let x = sg_nt(sg, id); let k = dsy(id, l, r, rc); let g = (h - 1) as nat;
  let (ai, p) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, k, ai, m) && parts(sg, inp, k, ai, m, ts, g);
  match m {
    Mean::Rule(n) => { rule_alt_wf(rm, n); t_alts(sg, rm, inp, resolve(rm, n)->Some_0.Alternation, id, ai, 0, p, rc, l, r, ts, g); },
    Mean::Grp(y) => { t_alts(sg, rm, inp, y.Alternation, id, ai, 0, p, rc, l, r, ts, g); },
    Mean::Opt(o) => {
      if ai == 0 { eps_span(sg, inp, k, ai, p); }
      else { assert(x.alts.subrange(1, x.alts.len() as int)[ai - 1] == x.alts[ai]); t_alts(sg, rm, inp, o.Alternation, id, ai, 1, p, rc, l, r, ts, g); }
    },
    Mean::Rep(q) => {
      if ai == 0 { eps_span(sg, inp, k, ai, p); S_pow_nil(rm, inp, q.Element, l, ts); assert(pk(0)); }
      else { t_rep(sg, rm, inp, q, id, p, rc, l, r, ts, g); }
    },
  }
}
pub proof fn t_alts(sg: slotGrammar, rm: RM, inp: Seq<int>, a: Alternation, id: int, ai: int, o: int, p: int, rc: int, l: int, r: int, ts: TS, h: nat)
  requires comp(sg, rm), wf_alt(a), !sg_nt(sg, id).isRep, 0 <= o <= ai < sg_nt(sg, id).alts.len(), sg_nt(sg, id).alts.len() == a.Concatenations.len() + o, cat_of(sg, a.Concatenations[ai - o], sprod(sg, id, ai)),
    nsp(sg, inp, dsy(id, l, r, rc), ai, p), parts(sg, inp, dsy(id, l, r, rc), ai, p, ts, h),
  ensures S_alt(rm, inp, a, l, r, ts), decreases h, 5int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let c = a.Concatenations[ai - o]; let q = sprod(sg, id, ai);
  wf_cats(a); assert(wf_cat(c)); assert(c.Repetitions.len() >= 1);
  t_pre(sg, rm, inp, c, dsy(id, l, r, rc), id, ai, p, q.len() as int, ts, h);
  S_alt_of(rm, inp, a, ai - o, l, r, ts);
}
// the first dot symbols of a production, as split at node k
pub proof fn t_pre(sg: slotGrammar, rm: RM, inp: Seq<int>, c: Concatenation, k: DK, id: int, ai: int, p: int, dot: int, ts: TS, h: nat)
  requires comp(sg, rm), wf_cat(c), !sg_nt(sg, id).isRep, reps_of(sg, c, sprod(sg, id, ai)), 1 <= dot <= sprod(sg, id, ai).len(), nsp(sg, inp, k, ai, p), nslot(sg, k, ai) == nsl(id, ai, dot), parts(sg, inp, k, ai, p, ts, h),
  ensures S_cat(rm, inp, c, dot, k.l, k.r, ts), decreases h, 3int, dot,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  let ks = nkids(sg, k, ai, p); let pr = sprod(sg, id, ai); let s = pr[dot - 1];
  assert(rep_of(sg, c.Repetitions[dot - 1], pr[dot - 1])); assert(wf_rep(c.Repetitions[dot - 1])); assert(crc(sg, id, k.rc, s) == 0);
  eps_span(sg, inp, k, ai, p);
  if dot == 1 {
    assert(ts.subrange(0, ts.len() as int) =~= ts);
    t_sy(sg, rm, inp, c.Repetitions[0], s, p, k.r, ts, h); S_cat_nil(rm, inp, c, k.l, ts.subrange(0, 0)); S_cat_snoc(rm, inp, c, 0, k.l, p, k.r, ts, 0);
  } else {
    let q = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && (efirst(sg, k, ai) ==> q == 0) && (elast(sg, k, ai) ==> q == ts.len()) && vis(sg, inp, ks[0], ts.subrange(0, q), h) && vis(sg, inp, ks[1], ts.subrange(q, ts.len() as int), h);
    let a = ts.subrange(0, q); let b = ts.subrange(q, ts.len() as int);
    t_sy(sg, rm, inp, c.Repetitions[dot - 1], s, p, k.r, b, h);
    if dot == 2 {
      let s0 = pr[0]; assert(rep_of(sg, c.Repetitions[0], pr[0])); assert(wf_rep(c.Repetitions[0])); assert(crc(sg, id, k.rc, s0) == 0);
      first_sym(sg, inp, k, ai, p);
      t_sy(sg, rm, inp, c.Repetitions[0], s0, k.l, p, a, h); S_cat_nil(rm, inp, c, k.l, a.subrange(0, 0)); assert(a.subrange(0, a.len() as int) =~= a); S_cat_snoc(rm, inp, c, 0, k.l, k.l, p, a, 0);
    } else {
      let P = nsl(id, ai, dot - 1); let kp = din(P, k.l, p, k.rc); assert(ks[0] == kp); assert(lst(sg, inp, kp, a, h));
      let (aj, pp) = choose|ai: int, m: int| #[trigger] nsp(sg, inp, kp, ai, m) && parts(sg, inp, kp, ai, m, a, (h - 1) as nat);
      t_pre(sg, rm, inp, c, kp, id, aj, pp, dot - 1, a, (h - 1) as nat);
    }
    S_cat_snoc(rm, inp, c, dot - 1, k.l, p, k.r, ts, q);
  }
}
// when one symbol precedes the last it derives its part
pub proof fn first_sym(sg: slotGrammar, inp: Seq<int>, k: DK, ai: int, p: int) requires nsp(sg, inp, k, ai, p), nslot(sg, k, ai).dot == 2,
  ensures DY(sg, inp, sprod(sg, nslot(sg, k, ai).nt, ai)[0], crc(sg, nslot(sg, k, ai).nt, k.rc, sprod(sg, nslot(sg, k, ai).nt, ai)[0]), k.l, p),
{
  let L = nslot(sg, k, ai); let s0 = sprod(sg, L.nt, ai)[0]; let c0 = crc(sg, L.nt, k.rc, s0); let g = choose|g: nat| #[trigger] spre(sg, inp, L.nt, ai, k.rc, 1, k.l, p, g);
  let q = choose|q: int| #[trigger] pk(q) && k.l <= q <= p && spre(sg, inp, L.nt, ai, k.rc, 0, k.l, q, g) && ssy(sg, inp, s0, c0, q, p, g);
  assert(q == k.l); assert(ssy(sg, inp, s0, c0, k.l, p, g));
}
pub proof fn t_sy(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, s: ssym, l: int, r: int, ts: TS, h: nat)
  requires comp(sg, rm), wf_rep(q), rep_of(sg, q, s), 0 <= l <= r <= inp.len(), DY(sg, inp, s, 0, l, r), vis(sg, inp, dsym(s, 0, l, r), ts, h), ensures S_rep(rm, inp, q, l, r, ts), decreases h, 2int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from); hide(wf_el);
  if q.Min == 1 && q.Max == 1 {
    t_el(sg, rm, inp, q.Element, s, l, r, ts, h); assert(ts.subrange(0, ts.len() as int) =~= ts);
    S_pow_nil(rm, inp, q.Element, r, ts.subrange(ts.len() as int, ts.len() as int)); S_pow_cons(rm, inp, q.Element, 0, l, r, r, ts, ts.len() as int); S_rep_of(rm, inp, q, 1, l, r, ts);
  } else {
    mean_at(sg, rm, Mean::Rep(q), s.nt);
    t_nt(sg, rm, inp, Mean::Rep(q), s.nt, 0, l, r, ts, h);
    let n = choose|n: int| #[trigger] pk(n) && n >= 0 && 0 + n >= q.Min && (q.Max == -1 || 0 + n <= q.Max) && S_pow(rm, inp, q.Element, n, l, r, ts);
    S_rep_of(rm, inp, q, n, l, r, ts);
  }
}
pub proof fn t_el(sg: slotGrammar, rm: RM, inp: Seq<int>, e: ElemItf, s: ssym, l: int, r: int, ts: TS, h: nat)
  requires comp(sg, rm), wf_el(e), el_of(sg, e, s), 0 <= l <= r <= inp.len(), DY(sg, inp, s, 0, l, r), vis(sg, inp, dsym(s, 0, l, r), ts, h), ensures S_el(rm, inp, e, l, r, ts), decreases h, 1int, 0int,
{
  hide(mkey); hide(wf_map); hide(low_ok); hide(done_from);
  match e {
    ElemItf::ElemRulename(x) => {
      mean_at(sg, rm, Mean::Rule(x.Name), s.nt); assert(shows(sg, s.nt)) by { if resolve(rm, x.Name) is None { let g = choose|g: nat| #[trigger] ssy(sg, inp, s, 0, l, r, g); assert(sder(sg, inp, s.nt, 0, l, r, g)); } }
      let cs = ts[0]->Some_0.Children; t_nt(sg, rm, inp, Mean::Rule(x.Name), s.nt, 0, l, r, cs, h);
      let f = choose|f: nat| #[trigger] s_alt(rm, inp, resolve(rm, x.Name)->Some_0.Alternation, l, r, cs, f); assert(s_el(rm, inp, e, l, r, ts, f + 1));
    },
    ElemItf::ElemGroup(x) => { mean_at(sg, rm, Mean::Grp(x), s.nt); t_nt(sg, rm, inp, Mean::Grp(x), s.nt, 0, l, r, ts, h); let f = choose|f: nat| #[trigger] s_alt(rm, inp, x.Alternation, l, r, ts, f); assert(s_el(rm, inp, e, l, r, ts, f)); },
    ElemItf::ElemOption(x) => { mean_at(sg, rm, Mean::Opt(x), s.nt); t_nt(sg, rm, inp, Mean::Opt(x), s.nt, 0, l, r, ts, h); if l == r && ts.len() == 0 { assert(s_el(rm, inp, e, l, r, ts, 0)); } else { let f = choose|f: nat| #[trigger] s_alt(rm, inp, x.Alternation, l, r, ts, f); assert(s_el(rm, inp, e, l, r, ts, f)); } },
    _ => { let g = choose|g: nat| #[trigger] ssy(sg, inp, s, 0, l, r, g); assert(lst(sg, inp, dlf(l, r), ts, h)); assert(s_el(rm, inp, e, l, r, ts, 0)); },
  }
}
pub proof fn t_rep(sg: slotGrammar, rm: RM, inp: Seq<int>, q: Repetition, id: int, p: int, rc: int, l: int, r: int, ts: TS, h: nat)
  requires comp(sg, rm), mwf(Mean::Rep(q)), sg_in(sg, Mean::Rep(q), id), shaped(sg, rm, id, Mean::Rep(q)), q.Max == -1 || q.Max >= q.Min, rc_ok(q, rc), nsp(sg, inp, dsy(id, l, r, rc), 1, p), parts(sg, inp, dsy(id, l, r, rc), 1, p, ts, h),
  ensures S_left(rm, inp, q, rc, l, r, ts), decreases h, 5int, 0int,
{
  hide(mkey); hide(wf_map); hide(done_from); hide(wf_el);
  let pr = sprod(sg, id, 1); let x = sg_nt(sg, id); let k = dsy(id, l, r, rc); let ks = nkids(sg, k, 1, p);
  let c = choose|q: int| 0 <= q <= ts.len() && #[trigger] tcut(ts, q) && (efirst(sg, k, 1) ==> q == 0) && (elast(sg, k, 1) ==> q == ts.len()) && vis(sg, inp, ks[0], ts.subrange(0, q), h) && vis(sg, inp, ks[1], ts.subrange(q, ts.len() as int), h);
  let a = ts.subrange(0, c); let b = ts.subrange(c, ts.len() as int);
  if pr[0].kind == 0 { el_not_rep(sg, q, q.Element, pr[0], id); }
  first_sym(sg, inp, k, 1, p);
  t_el(sg, rm, inp, q.Element, pr[0], l, p, a, h);
  let rc2 = cap_rc(rc, x); assert(crc(sg, id, rc, pr[1]) == rc2); assert(rc_ok(q, rc2)); assert(ks[1] == dsy(id, p, r, rc2));
  t_nt(sg, rm, inp, Mean::Rep(q), id, rc2, p, r, b, h);
  let n = choose|n: int| #[trigger] pk(n) && n >= 0 && rc2 + n >= q.Min && (q.Max == -1 || rc2 + n <= q.Max) && S_pow(rm, inp, q.Element, n, p, r, b);
  S_pow_cons(rm, inp, q.Element, n, l, p, r, ts, c); assert(pk(n + 1));
}
// the lowered grammar's tree is the rule's
pub proof fn t_root(sg: slotGrammar, rm: RM, root: Seq<int>, inp: Seq<int>, t: Option<ParseTree>)
  requires lowered(sg, rm, root), tree_of(sg, inp, dsy(sg.start, 0, inp.len() as int, 0), t), ensures S_tree(rm, inp, root, t),
{
  let k = dsy(sg.start, 0, inp.len() as int, 0); let ts = t->Some_0.Children; let h = choose|h: nat| #[trigger] lst(sg, inp, k, ts, h);
  mean_at(sg, rm, Mean::Rule(root), sg.start); t_nt(sg, rm, inp, Mean::Rule(root), sg.start, 0, 0, inp.len() as int, ts, h);
}
