// ---- low.rs: what lowering a grammar to slots must produce ----
pub enum Mean { Rule(Seq<int>), Grp(ElemGroup), Opt(ElemOption), Rep(Repetition) }
pub open spec fn mkey(m: Mean) -> Seq<int> {
  match m {
    Mean::Rule(n) => seq![114int, 117, 108, 101, 58] + lower_all(n),
    Mean::Grp(g) => seq![103int, 114, 112, 58] + estr(ElemItf::ElemGroup(g)),
    Mean::Opt(o) => seq![111int, 112, 116, 58] + estr(ElemItf::ElemOption(o)),
    Mean::Rep(r) => seq![114int, 101, 112, 58] + rstr(r),
  }
}
pub open spec fn mwf(m: Mean) -> bool {
  match m { Mean::Rule(n) => ascii(n), Mean::Grp(g) => wf_alt(g.Alternation), Mean::Opt(o) => wf_alt(o.Alternation), Mean::Rep(r) => wf_rep(r) && !(r.Min == 1 && r.Max == 1) }
}
pub open spec fn sg_in(sg: slotGrammar, m: Mean, id: int) -> bool { sg.index.contains_key(mkey(m)) && sg.index[mkey(m)] == id }
pub open spec fn is_eps(s: ssym) -> bool { s.kind == 2 }
pub open spec fn eps_prod(q: Seq<ssym>) -> bool { q.len() == 1 && is_eps(q[0]) }
pub open spec fn el_of(sg: slotGrammar, e: ElemItf, s: ssym) -> bool {
  match e {
    ElemItf::ElemRulename(x) => s.kind == 0 && sg_in(sg, Mean::Rule(x.Name), s.nt),
    ElemItf::ElemGroup(x) => s.kind == 0 && sg_in(sg, Mean::Grp(x), s.nt),
    ElemItf::ElemOption(x) => s.kind == 0 && sg_in(sg, Mean::Opt(x), s.nt),
    _ => s.kind == 1 && s.term == e,
  }
}
pub open spec fn rep_of(sg: slotGrammar, r: Repetition, s: ssym) -> bool { if r.Min == 1 && r.Max == 1 { el_of(sg, r.Element, s) } else { s.kind == 0 && sg_in(sg, Mean::Rep(r), s.nt) } }
pub open spec fn reps_of(sg: slotGrammar, c: Concatenation, q: Seq<ssym>) -> bool { q.len() <= c.Repetitions.len() && forall|j: int| 0 <= j < q.len() ==> rep_of(sg, c.Repetitions[j], #[trigger] q[j]) }
pub open spec fn cat_of(sg: slotGrammar, c: Concatenation, q: Seq<ssym>) -> bool {
  if c.Repetitions.len() == 0 { eps_prod(q) } else { q.len() == c.Repetitions.len() && reps_of(sg, c, q) }
}
pub open spec fn cats_of(sg: slotGrammar, a: Alternation, q: Seq<Seq<ssym>>) -> bool { q.len() <= a.Concatenations.len() && forall|i: int| 0 <= i < q.len() ==> cat_of(sg, a.Concatenations[i], #[trigger] q[i]) }
pub open spec fn alts_of(sg: slotGrammar, a: Alternation, q: Seq<Seq<ssym>>) -> bool { q.len() == a.Concatenations.len() && cats_of(sg, a, q) }
pub open spec fn shaped(sg: slotGrammar, rm: RM, id: int, m: Mean) -> bool {
  let x = sg_nt(sg, id);
  match m {
    Mean::Rule(n) => !x.isRep && (match resolve(rm, n) { Some(r) => x.isRule && x.ruleName == r.Name && alts_of(sg, r.Alternation, x.alts), None => x.alts.len() == 0 }),
    Mean::Grp(g) => !x.isRep && !x.isRule && alts_of(sg, g.Alternation, x.alts),
    Mean::Opt(o) => !x.isRep && !x.isRule && x.alts.len() > 0 && eps_prod(x.alts[0]) && alts_of(sg, o.Alternation, x.alts.subrange(1, x.alts.len() as int)),
    Mean::Rep(r) => !x.isRule && (if r.Max != -1 && r.Max < r.Min { !x.isRep && x.alts.len() == 0 } else {
      x.isRep && x.repMin == r.Min && x.repMax == r.Max && x.alts.len() == 2 && eps_prod(x.alts[0]) && x.alts[1].len() == 2 && el_of(sg, r.Element, x.alts[1][0]) && x.alts[1][1].kind == 0 && x.alts[1][1].nt == id }),
  }
}
pub open spec fn sg_complete(sg: slotGrammar, rm: RM, id: int) -> bool { exists|m: Mean| mwf(m) && sg_in(sg, m, id) && #[trigger] shaped(sg, rm, id, m) }
pub open spec fn low_ok(sg: slotGrammar) -> bool {
  (forall|n: int| 0 <= n < sg.nts.len() ==> #[trigger] sg.nts[n] is Some)
  && (forall|k: Seq<int>| #[trigger] sg.index.contains_key(k) ==> 0 <= sg.index[k] < sg.nts.len())
  && (forall|k: Seq<int>, l: Seq<int>| #[trigger] sg.index.contains_key(k) && #[trigger] sg.index.contains_key(l) && sg.index[k] == sg.index[l] ==> k == l)
}
pub open spec fn grows(a: slotGrammar, b: slotGrammar) -> bool {
  a.nts.len() <= b.nts.len() && (forall|n: int| 0 <= n < a.nts.len() ==> #[trigger] b.nts[n] == a.nts[n])
  && (forall|k: Seq<int>| #[trigger] a.index.contains_key(k) ==> b.index.contains_key(k) && b.index[k] == a.index[k])
}
pub open spec fn done_from(sg: slotGrammar, rm: RM, n: int) -> bool { forall|id: int| n <= id < sg.nts.len() ==> #[trigger] sg_complete(sg, rm, id) }
pub open spec fn lo(c: lowerer) -> bool { c.g is Some && c.sg is Some && wf_map(c.g->Some_0.Rulemap) && wf_map(g_coreRules()) && low_ok(c.sg->Some_0) }
pub open spec fn lx(c: lowerer, d: lowerer) -> bool {
  d.g == c.g && d.max == c.max && d.err == c.err && lo(d) && grows(c.sg->Some_0, d.sg->Some_0) && (c.over ==> d.over) && (!d.over ==> done_from(d.sg->Some_0, c.g->Some_0.Rulemap, c.sg->Some_0.nts.len() as int))
}
// references survive growth
pub open spec fn ixs(a: slotGrammar, b: slotGrammar) -> bool { forall|k: Seq<int>| #[trigger] a.index.contains_key(k) ==> b.index.contains_key(k) && b.index[k] == a.index[k] }
pub proof fn el_keep(a: slotGrammar, b: slotGrammar, e: ElemItf, s: ssym) requires ixs(a, b), el_of(a, e, s), ensures el_of(b, e, s) {}
pub proof fn rep_keep(a: slotGrammar, b: slotGrammar, r: Repetition, s: ssym) requires ixs(a, b), rep_of(a, r, s), ensures rep_of(b, r, s) { if r.Min == 1 && r.Max == 1 { el_keep(a, b, r.Element, s); } }
pub proof fn reps_keep(a: slotGrammar, b: slotGrammar, c: Concatenation, q: Seq<ssym>) requires ixs(a, b), reps_of(a, c, q), ensures reps_of(b, c, q)
{ assert forall|j: int| 0 <= j < q.len() implies rep_of(b, c.Repetitions[j], #[trigger] q[j]) by { rep_keep(a, b, c.Repetitions[j], q[j]); } }
pub proof fn cats_keep(a: slotGrammar, b: slotGrammar, x: Alternation, q: Seq<Seq<ssym>>) requires ixs(a, b), cats_of(a, x, q), ensures cats_of(b, x, q)
{ assert forall|i: int| 0 <= i < q.len() implies cat_of(b, x.Concatenations[i], #[trigger] q[i]) by { assert(cat_of(a, x.Concatenations[i], q[i])); if x.Concatenations[i].Repetitions.len() > 0 { reps_keep(a, b, x.Concatenations[i], q[i]); } } }
pub proof fn shaped_keep(a: slotGrammar, b: slotGrammar, rm: RM, id: int, m: Mean)
  requires ixs(a, b), a.nts[id] == b.nts[id], shaped(a, rm, id, m), ensures shaped(b, rm, id, m),
{
  let x = sg_nt(a, id);
  match m {
    Mean::Rule(n) => { if let Some(r) = resolve(rm, n) { cats_keep(a, b, r.Alternation, x.alts); } },
    Mean::Grp(g) => { cats_keep(a, b, g.Alternation, x.alts); },
    Mean::Opt(o) => { cats_keep(a, b, o.Alternation, x.alts.subrange(1, x.alts.len() as int)); },
    Mean::Rep(r) => { if !(r.Max != -1 && r.Max < r.Min) { el_keep(a, b, r.Element, x.alts[1][0]); } },
  }
}
pub proof fn complete_keep(a: slotGrammar, b: slotGrammar, rm: RM, id: int)
  requires ixs(a, b), a.nts[id] == b.nts[id], sg_complete(a, rm, id), ensures sg_complete(b, rm, id),
{ let m = choose|m: Mean| mwf(m) && sg_in(a, m, id) && #[trigger] shaped(a, rm, id, m); shaped_keep(a, b, rm, id, m); assert(mwf(m) && sg_in(b, m, id) && shaped(b, rm, id, m)); }
pub proof fn done_keep(a: slotGrammar, b: slotGrammar, rm: RM, n: int)
  requires ixs(a, b), a.nts.len() == b.nts.len(), forall|i: int| n <= i < a.nts.len() ==> #[trigger] a.nts[i] == b.nts[i], done_from(a, rm, n), ensures done_from(b, rm, n),
{ assert forall|id: int| n <= id < b.nts.len() implies #[trigger] sg_complete(b, rm, id) by { assert(a.nts[id] == b.nts[id]); assert(sg_complete(a, rm, id)); complete_keep(a, b, rm, id); } }
pub proof fn lx_refl(c: lowerer) requires lo(c), ensures lx(c, c) {}
pub proof fn lx_trans(a: lowerer, b: lowerer, c: lowerer) requires lo(a), lx(a, b), lx(b, c), ensures lx(a, c)
{
  let rm = a.g->Some_0.Rulemap; let x = b.sg->Some_0; let y = c.sg->Some_0;
  if !c.over {
    assert forall|id: int| a.sg->Some_0.nts.len() <= id < y.nts.len() implies #[trigger] sg_complete(y, rm, id) by { if id < x.nts.len() { assert(sg_complete(x, rm, id)); assert(y.nts[id] == x.nts[id]); complete_keep(x, y, rm, id); } }
  }
}
// a nonterminal reserved at the end, then filled in after whatever its body added
pub proof fn lx_fill(a: lowerer, k: Seq<int>, b: lowerer, c: lowerer, d: lowerer, m: Mean)
  requires lo(a), a.g == b.g, a.max == b.max, a.err == b.err, a.over ==> b.over, b.sg is Some,
    !a.sg->Some_0.index.contains_key(k), k == mkey(m), mwf(m),
    b.sg->Some_0.index =~= a.sg->Some_0.index.insert(k, a.sg->Some_0.nts.len() as int), b.sg->Some_0.nts.len() == a.sg->Some_0.nts.len() + 1,
    forall|i: int| 0 <= i < a.sg->Some_0.nts.len() ==> #[trigger] b.sg->Some_0.nts[i] == a.sg->Some_0.nts[i],
    lx(b, c), d.g == c.g && d.max == c.max && d.err == c.err && d.over == c.over && d.sg is Some,
    d.sg->Some_0.index == c.sg->Some_0.index, d.sg->Some_0.nts.len() == c.sg->Some_0.nts.len(),
    forall|i: int| 0 <= i < c.sg->Some_0.nts.len() && i != a.sg->Some_0.nts.len() ==> #[trigger] d.sg->Some_0.nts[i] == c.sg->Some_0.nts[i],
    d.sg->Some_0.nts[a.sg->Some_0.nts.len() as int] is Some,
    !d.over ==> shaped(d.sg->Some_0, a.g->Some_0.Rulemap, a.sg->Some_0.nts.len() as int, m),
  ensures lx(a, d), sg_in(d.sg->Some_0, m, a.sg->Some_0.nts.len() as int),
{
  let rm = a.g->Some_0.Rulemap; let n = a.sg->Some_0.nts.len() as int; let x = c.sg->Some_0; let y = d.sg->Some_0;
  assert(b.sg->Some_0.index.contains_key(k)); assert(x.index.contains_key(k) && x.index[k] == n);
  assert(sg_in(y, m, n));
  assert forall|q: Seq<int>| #[trigger] a.sg->Some_0.index.contains_key(q) implies y.index.contains_key(q) && y.index[q] == a.sg->Some_0.index[q] by { assert(b.sg->Some_0.index.contains_key(q)); }
  assert forall|i: int| 0 <= i < n implies #[trigger] y.nts[i] == a.sg->Some_0.nts[i] by { assert(x.nts[i] == b.sg->Some_0.nts[i]); }
  assert forall|i: int| 0 <= i < y.nts.len() implies #[trigger] y.nts[i] is Some by { if i != n { assert(x.nts[i] is Some); } }
  if !d.over {
    assert forall|id: int| n <= id < y.nts.len() implies #[trigger] sg_complete(y, rm, id) by {
      if id == n { assert(mwf(m) && sg_in(y, m, id) && shaped(y, rm, id, m)); } else { assert(sg_complete(x, rm, id)); assert(y.nts[id] == x.nts[id]); complete_keep(x, y, rm, id); }
    }
  }
}
pub proof fn low_push(a: slotGrammar, k: Seq<int>, b: slotGrammar)
  requires low_ok(a), !a.index.contains_key(k), b.index =~= a.index.insert(k, a.nts.len() as int), b.nts.len() == a.nts.len() + 1, forall|i: int| 0 <= i < a.nts.len() ==> #[trigger] b.nts[i] == a.nts[i], b.nts[a.nts.len() as int] is Some,
  ensures low_ok(b),
{}
