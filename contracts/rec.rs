// ---- rec.rs: the recogniser's end-position sets ----
pub open spec fn skey(s: Seq<int>, i: int) -> Seq<int> { (s + seq![64int]) + itoa(i) }
pub proof fn skey_inj(s: Seq<int>, i: int, t: Seq<int>, k: int)
  requires i >= 0, k >= 0, skey(s, i) == skey(t, k),
  ensures s == t, i == k,
{
  itoa_facts(i, k); itoa_facts(k, i);
  let a = itoa(i); let b = itoa(k); let z = skey(s, i); let n = z.len() as int;
  if a.len() < b.len() { let p = n - a.len() - 1; assert(z[p] == 64); assert(skey(t, k)[p] == b[p - (n - b.len())]); }
  if b.len() < a.len() { let p = n - b.len() - 1; assert(skey(t, k)[p] == 64); assert(z[p] == a[p - (n - a.len())]); }
  assert(a =~= b) by { assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by { assert(z[n - a.len() + q] == a[q]); assert(skey(t, k)[n - a.len() + q] == b[q]); } }
  assert(s =~= t) by { assert forall|q: int| 0 <= q < s.len() implies s[q] == t[q] by { assert(z[q] == s[q]); assert(skey(t, k)[q] == t[q]); } }
}
// elements that print alike denote the same words
pub proof fn estr_rule(x: ElemRulename) ensures estr(ElemItf::ElemRulename(x)) == x.Name {}
pub proof fn estr_lang(rm: RM, a: ElemItf, b: ElemItf, w: Seq<int>) requires wf_el(a), wf_el(b), estr(a) == estr(b), ensures d_el(rm, a, w) <==> d_el(rm, b, w) { estr_inj(a, b); }

pub open spec fn span(inp: Seq<int>, i: int, j: int) -> bool { 0 <= i <= j <= inp.len() }
pub open spec fn at_el(rm: RM, e: ElemItf, inp: Seq<int>, i: int, j: int) -> bool { span(inp, i, j) && d_el(rm, e, inp.subrange(i, j)) }
pub open spec fn at_alt(rm: RM, a: Alternation, inp: Seq<int>, i: int, j: int) -> bool { span(inp, i, j) && d_alt(rm, a, inp.subrange(i, j)) }
pub open spec fn at_cat(rm: RM, c: Concatenation, n: int, inp: Seq<int>, i: int, j: int) -> bool { span(inp, i, j) && d_cat(rm, c, n, inp.subrange(i, j)) }
pub open spec fn at_rep(rm: RM, r: Repetition, inp: Seq<int>, i: int, j: int) -> bool { span(inp, i, j) && d_rep(rm, r, inp.subrange(i, j)) }
pub open spec fn at_pow(rm: RM, e: ElemItf, n: int, inp: Seq<int>, i: int, j: int) -> bool { span(inp, i, j) && d_pow(rm, e, n, inp.subrange(i, j)) }
pub open spec fn ends_el(rm: RM, e: ElemItf, inp: Seq<int>, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> at_el(rm, e, inp, i, j) }
pub open spec fn ends_alt(rm: RM, a: Alternation, inp: Seq<int>, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> at_alt(rm, a, inp, i, j) }
pub open spec fn ends_cat(rm: RM, c: Concatenation, n: int, inp: Seq<int>, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> at_cat(rm, c, n, inp, i, j) }
pub open spec fn ends_rep(rm: RM, r: Repetition, inp: Seq<int>, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> at_rep(rm, r, inp, i, j) }
pub open spec fn ends_pow(rm: RM, e: ElemItf, n: int, inp: Seq<int>, i: int, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> at_pow(rm, e, n, inp, i, j) }
// every end was stepped to from a position of the previous level
pub open spec fn steps(rm: RM, e: ElemItf, inp: Seq<int>, from: Map<int, bool>, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> exists|p: int| #[trigger] from.contains_key(p) && at_el(rm, e, inp, p, j) }
pub open spec fn in_input(inp: Seq<int>, s: Map<int, bool>) -> bool { forall|j: int| #[trigger] s.contains_key(j) ==> 0 <= j <= inp.len() }
pub proof fn at_cat_start(rm: RM, c: Concatenation, inp: Seq<int>, i: int)
  requires 0 <= i <= inp.len(), ensures at_cat(rm, c, 0, inp, i, i),
{ d_cat_nil(rm, c); assert(inp.subrange(i, i) =~= Seq::<int>::empty()); }
pub proof fn at_cat_step(rm: RM, c: Concatenation, n: int, inp: Seq<int>, i: int, p: int)
  requires at_cat(rm, c, n, inp, i, p), 0 <= n < c.Repetitions.len(),
  ensures forall|j: int| #[trigger] at_rep(rm, c.Repetitions[n], inp, p, j) ==> at_cat(rm, c, n + 1, inp, i, j),
{
  assert forall|j: int| #[trigger] at_rep(rm, c.Repetitions[n], inp, p, j) implies at_cat(rm, c, n + 1, inp, i, j) by {
    d_cat_snoc(rm, c, n, inp.subrange(i, p), inp.subrange(p, j)); assert(inp.subrange(i, p) + inp.subrange(p, j) =~= inp.subrange(i, j));
  }
}
pub proof fn at_alt_of(rm: RM, a: Alternation, k: int, inp: Seq<int>, i: int)
  requires 0 <= k < a.Concatenations.len(),
  ensures forall|j: int| #[trigger] at_cat(rm, a.Concatenations[k], a.Concatenations[k].Repetitions.len() as int, inp, i, j) ==> at_alt(rm, a, inp, i, j),
{
  assert forall|j: int| #[trigger] at_cat(rm, a.Concatenations[k], a.Concatenations[k].Repetitions.len() as int, inp, i, j) implies at_alt(rm, a, inp, i, j) by { d_alt_intro(rm, a, k, inp.subrange(i, j)); }
}
pub proof fn at_pow_start(rm: RM, e: ElemItf, inp: Seq<int>, i: int)
  requires 0 <= i <= inp.len(), ensures at_pow(rm, e, 0, inp, i, i),
{ d_pow_nil(rm, e); assert(inp.subrange(i, i) =~= Seq::<int>::empty()); }
pub proof fn at_pow_step(rm: RM, e: ElemItf, n: int, inp: Seq<int>, i: int, p: int)
  requires at_pow(rm, e, n, inp, i, p), 0 <= n,
  ensures forall|j: int| #[trigger] at_el(rm, e, inp, p, j) ==> at_pow(rm, e, n + 1, inp, i, j),
{
  assert forall|j: int| #[trigger] at_el(rm, e, inp, p, j) implies at_pow(rm, e, n + 1, inp, i, j) by {
    d_pow_snoc(rm, e, n, inp.subrange(i, p), inp.subrange(p, j)); assert(inp.subrange(i, p) + inp.subrange(p, j) =~= inp.subrange(i, j));
  }
}
pub proof fn ends_pow_steps(rm: RM, e: ElemItf, n: int, inp: Seq<int>, i: int, lv: Map<int, bool>, nx: Map<int, bool>)
  requires ends_pow(rm, e, n, inp, i, lv), 0 <= n, steps(rm, e, inp, lv, nx),
  ensures ends_pow(rm, e, n + 1, inp, i, nx),
{
  assert forall|j: int| #[trigger] nx.contains_key(j) implies at_pow(rm, e, n + 1, inp, i, j) by {
    let p = choose|p: int| #[trigger] lv.contains_key(p) && at_el(rm, e, inp, p, j); at_pow_step(rm, e, n, inp, i, p);
  }
}
// a level mapped onto itself is reached with every larger count
pub proof fn ends_pow_skip(rm: RM, e: ElemItf, n: int, m: int, inp: Seq<int>, i: int, lv: Map<int, bool>)
  requires ends_pow(rm, e, n, inp, i, lv), 0 <= n <= m, steps(rm, e, inp, lv, lv),
  ensures ends_pow(rm, e, m, inp, i, lv),
  decreases m - n,
{ if n < m { ends_pow_steps(rm, e, n, inp, i, lv, lv); ends_pow_skip(rm, e, n + 1, m, inp, i, lv); } }
pub proof fn at_rep_of(rm: RM, r: Repetition, n: int, inp: Seq<int>, i: int)
  requires rep_allows(r, n),
  ensures forall|j: int| #[trigger] at_pow(rm, r.Element, n, inp, i, j) ==> at_rep(rm, r, inp, i, j),
{ assert forall|j: int| #[trigger] at_pow(rm, r.Element, n, inp, i, j) implies at_rep(rm, r, inp, i, j) by { d_rep_intro(rm, r, n, inp.subrange(i, j)); } }
pub proof fn at_up(rm: RM, e: ElemItf, inp: Seq<int>, i: int)
  requires 0 <= i <= inp.len(),
  ensures
    e is ElemGroup ==> (forall|j: int| #[trigger] at_alt(rm, e->ElemGroup_0.Alternation, inp, i, j) ==> at_el(rm, e, inp, i, j)),
    e is ElemOption ==> at_el(rm, e, inp, i, i) && (forall|j: int| #[trigger] at_alt(rm, e->ElemOption_0.Alternation, inp, i, j) ==> at_el(rm, e, inp, i, j)),
    e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some ==> (forall|j: int| #[trigger] at_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation, inp, i, j) ==> at_el(rm, e, inp, i, j)),
    is_term(e) ==> (forall|j: int| #[trigger] term_at(e, inp, i, j) ==> at_el(rm, e, inp, i, j)),
{
  if e is ElemGroup { assert forall|j: int| #[trigger] at_alt(rm, e->ElemGroup_0.Alternation, inp, i, j) implies at_el(rm, e, inp, i, j) by { d_el_group(rm, e->ElemGroup_0, inp.subrange(i, j)); } }
  if e is ElemOption {
    d_el_option(rm, e->ElemOption_0, inp.subrange(i, i));
    assert forall|j: int| #[trigger] at_alt(rm, e->ElemOption_0.Alternation, inp, i, j) implies at_el(rm, e, inp, i, j) by { d_el_option(rm, e->ElemOption_0, inp.subrange(i, j)); }
  }
  if e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some { assert forall|j: int| #[trigger] at_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation, inp, i, j) implies at_el(rm, e, inp, i, j) by { d_el_rule(rm, e->ElemRulename_0, inp.subrange(i, j)); } }
  if is_term(e) { assert forall|j: int| #[trigger] term_at(e, inp, i, j) implies at_el(rm, e, inp, i, j) by { d_el_term(rm, e, inp.subrange(i, j)); } }
}
// ---- memoisation: an entry is good for every element and index printing as its key
pub open spec fn keyed(rm: RM, inp: Seq<int>, k: Seq<int>, j: int) -> bool { forall|x: ElemItf, i: int| wf_el(x) && 0 <= i <= inp.len() && k == #[trigger] skey(estr(x), i) ==> at_el(rm, x, inp, i, j) }
pub open spec fn memo_ok(rm: RM, inp: Seq<int>, m: Map<Seq<int>, Map<int, bool>>) -> bool { forall|k: Seq<int>, j: int| m.contains_key(k) && #[trigger] m[k].contains_key(j) ==> keyed(rm, inp, k, j) }
pub proof fn keyed_intro(rm: RM, inp: Seq<int>, x: ElemItf, i: int, s: Map<int, bool>)
  requires wf_el(x), 0 <= i <= inp.len(), ends_el(rm, x, inp, i, s),
  ensures forall|j: int| #[trigger] s.contains_key(j) ==> keyed(rm, inp, skey(estr(x), i), j),
{
  assert forall|j: int| #[trigger] s.contains_key(j) implies keyed(rm, inp, skey(estr(x), i), j) by {
    assert forall|y: ElemItf, k: int| wf_el(y) && 0 <= k <= inp.len() && skey(estr(x), i) == #[trigger] skey(estr(y), k) implies at_el(rm, y, inp, k, j) by {
      skey_inj(estr(x), i, estr(y), k); estr_lang(rm, x, y, inp.subrange(i, j));
    }
  }
}
pub proof fn keyed_use(rm: RM, inp: Seq<int>, x: ElemItf, i: int, s: Map<int, bool>)
  requires wf_el(x), 0 <= i <= inp.len(), forall|j: int| #[trigger] s.contains_key(j) ==> keyed(rm, inp, skey(estr(x), i), j),
  ensures ends_el(rm, x, inp, i, s),
{}
// the left-corner components partition the left-recursive rules
pub open spec fn lr_ok(lr: Map<Seq<int>, Seq<Seq<int>>>) -> bool {
  (forall|n: Seq<int>| #[trigger] lr.contains_key(n) ==> lr[n].contains(n))
  && (forall|n: Seq<int>, k: int| lr.contains_key(n) && 0 <= k < lr[n].len() ==> name_ok(#[trigger] lr[n][k]) && lr.contains_key(lr[n][k]) && lr[lr[n][k]] == lr[n])
}
pub open spec fn grow_ok(lr: Map<Seq<int>, Seq<Seq<int>>>, g: Map<Seq<int>, Map<int, bool>>) -> bool {
  forall|n: Seq<int>, k: int, i: int| lr.contains_key(n) && 0 <= k < lr[n].len() && 0 <= i && #[trigger] g.contains_key(skey(lr[n][k], i)) ==> g.contains_key(skey(n, i))
}
pub open spec fn rec_ok(r: recognizer) -> bool {
  r.g is Some && wf_map(r.g->Some_0.Rulemap) && wf_map(g_coreRules()) && lr_ok(r.leftRec) && grow_ok(r.leftRec, r.growing)
  && memo_ok(r.g->Some_0.Rulemap, r.input, r.memo) && memo_ok(r.g->Some_0.Rulemap, r.input, r.growing)
}
pub open spec fn rec_same(a: recognizer, b: recognizer) -> bool { a.g == b.g && a.input == b.input && a.leftRec == b.leftRec && a.growing.dom() =~= b.growing.dom() }
pub proof fn lower_name(rm: RM, x: ElemRulename, inp: Seq<int>, i: int)
  requires wf_map(rm), wf_map(g_coreRules()), name_ok(x.Name),
  ensures name_ok(lower_all(x.Name)), forall|s: Map<int, bool>| #[trigger] ends_el(rm, ElemItf::ElemRulename(ElemRulename { Name: lower_all(x.Name) }), inp, i, s) ==> ends_el(rm, ElemItf::ElemRulename(x), inp, i, s),
{
  let y = ElemRulename { Name: lower_all(x.Name) };
  assert forall|k: int| 0 <= k < y.Name.len() implies 0 <= #[trigger] y.Name[k] <= 127 by { assert(x.Name[k] <= 127); }
  lower_twice(x.Name); resolve_fold(rm, x.Name, y.Name);
  assert forall|w: Seq<int>| #[trigger] d_el(rm, ElemItf::ElemRulename(y), w) implies d_el(rm, ElemItf::ElemRulename(x), w) by { d_el_rule_inv(rm, y, w); d_el_rule(rm, x, w); }
}
pub proof fn sub_push(s: Seq<Seq<int>>, i: int)
  requires 0 <= i < s.len(), ensures forall|k: Seq<int>| #[trigger] s.subrange(0, i + 1).contains(k) <==> s.subrange(0, i).contains(k) || k == s[i],
{
  assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i]));
  assert forall|k: Seq<int>| #[trigger] s.subrange(0, i + 1).contains(k) <==> s.subrange(0, i).contains(k) || k == s[i] by {
    let a = s.subrange(0, i); let b = s.subrange(0, i + 1);
    if a.contains(k) { let q = choose|q: int| 0 <= q < i && a[q] == k; assert(b[q] == k); }
    if k == s[i] { assert(b[i] == k); }
    if b.contains(k) { let q = choose|q: int| 0 <= q < i + 1 && b[q] == k; if q < i { assert(a[q] == k); } }
  }
}
pub proof fn estr_rules() ensures forall|x: ElemRulename| #[trigger] estr(ElemItf::ElemRulename(x)) == x.Name
{ assert forall|x: ElemRulename| #[trigger] estr(ElemItf::ElemRulename(x)) == x.Name by { estr_rule(x); } }
pub proof fn rule_wf(rm: RM, n: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), resolve(rm, n) is Some, ensures wf_alt(resolve(rm, n)->Some_0.Alternation),
{
  let m = if defines(rm, n) { rm } else { g_coreRules() };
  let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(m.contains_key(k)); 
}
pub proof fn rule_wfs(rm: RM, e: ElemItf)
  requires wf_map(rm), wf_map(g_coreRules()), ensures e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some ==> wf_alt(resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation),
{ if e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some { rule_wf(rm, e->ElemRulename_0.Name); } }
pub proof fn keys_none(lr: Map<Seq<int>, Seq<Seq<int>>>, g: Map<Seq<int>, Map<int, bool>>, n: Seq<int>, i: int)
  requires lr_ok(lr), grow_ok(lr, g), lr.contains_key(n), !g.contains_key(skey(n, i)), 0 <= i,
  ensures forall|k: int| 0 <= k < lr[n].len() ==> !g.contains_key(skey(#[trigger] lr[n][k], i)),
{}
pub proof fn grow_ok_add(lr: Map<Seq<int>, Seq<Seq<int>>>, g: Map<Seq<int>, Map<int, bool>>, h: Map<Seq<int>, Map<int, bool>>, n: Seq<int>, i: int, keys: Seq<Seq<int>>)
  requires lr_ok(lr), grow_ok(lr, g), lr.contains_key(n), 0 <= i, keys.len() == lr[n].len(),
    forall|q: int| 0 <= q < keys.len() ==> #[trigger] keys[q] == skey(lr[n][q], i),
    forall|k: Seq<int>| #[trigger] h.contains_key(k) <==> g.contains_key(k) || keys.contains(k),
  ensures grow_ok(lr, h),
{
  assert forall|m: Seq<int>, k: int, j: int| lr.contains_key(m) && 0 <= k < lr[m].len() && 0 <= j && #[trigger] h.contains_key(skey(lr[m][k], j)) implies h.contains_key(skey(m, j)) by {
    if g.contains_key(skey(lr[m][k], j)) { assert(g.contains_key(skey(m, j))); }
    else {
      let q = choose|q: int| 0 <= q < keys.len() && keys[q] == skey(lr[m][k], j);
      assert(keys[q] == skey(lr[n][q], i));
      skey_inj(lr[n][q], i, lr[m][k], j);
      assert(lr[lr[n][q]] == lr[n] && lr[lr[m][k]] == lr[m]);
      assert(lr[m].contains(m));
      let s = choose|s: int| 0 <= s < lr[n].len() && lr[n][s] == m;
      assert(keys[s] == skey(m, j)); assert(keys.contains(skey(m, j)));
    }
  }
}
pub proof fn grow_ok_dom(lr: Map<Seq<int>, Seq<Seq<int>>>, g: Map<Seq<int>, Map<int, bool>>, h: Map<Seq<int>, Map<int, bool>>)
  requires grow_ok(lr, g), forall|k: Seq<int>| #[trigger] h.contains_key(k) <==> g.contains_key(k),
  ensures grow_ok(lr, h), g.dom() =~= h.dom(),
{
  assert forall|m: Seq<int>, k: int, j: int| lr.contains_key(m) && 0 <= k < lr[m].len() && 0 <= j && #[trigger] h.contains_key(skey(lr[m][k], j)) implies h.contains_key(skey(m, j)) by { assert(g.contains_key(skey(lr[m][k], j))); }
  assert forall|k: Seq<int>| g.dom().contains(k) <==> h.dom().contains(k) by { assert(h.contains_key(k) <==> g.contains_key(k)); }
}
pub proof fn scc_keys(rm: RM, inp: Seq<int>, scc: Seq<Seq<int>>, keys: Seq<Seq<int>>, i: int)
  requires keys.len() == scc.len(), forall|q: int| 0 <= q < keys.len() ==> #[trigger] keys[q] == skey(scc[q], i),
  ensures forall|q: int| 0 <= q < keys.len() ==> keys.contains(#[trigger] keys[q]),
{}
pub proof fn scc_at(lr: Map<Seq<int>, Seq<Seq<int>>>, n: Seq<int>, k: int)
  requires lr_ok(lr), lr.contains_key(n), 0 <= k < lr[n].len(), ensures name_ok(lr[n][k]),
{}
// what holds of a rule's ends holds of its key
pub proof fn rule_keyed(rm: RM, inp: Seq<int>, x: Seq<int>, i: int)
  requires name_ok(x), 0 <= i <= inp.len(),
  ensures ({ let e = ElemItf::ElemRulename(ElemRulename { Name: x });
    (forall|j: int| #[trigger] at_el(rm, e, inp, i, j) ==> keyed(rm, inp, skey(x, i), j)) && (forall|j: int| #[trigger] keyed(rm, inp, skey(x, i), j) ==> at_el(rm, e, inp, i, j)) }),
{
  let e = ElemItf::ElemRulename(ElemRulename { Name: x }); estr_rule(ElemRulename { Name: x });
  assert forall|j: int| #[trigger] at_el(rm, e, inp, i, j) implies keyed(rm, inp, skey(x, i), j) by {
    let s = Map::<int, bool>::empty().insert(j, true); assert(ends_el(rm, e, inp, i, s)); keyed_intro(rm, inp, e, i, s); assert(s.contains_key(j));
  }
  assert forall|j: int| #[trigger] keyed(rm, inp, skey(x, i), j) implies at_el(rm, e, inp, i, j) by { assert(skey(estr(e), i) == skey(x, i)); }
}
pub proof fn sub_pop(s: Seq<Seq<int>>, i: int)
  requires 0 <= i < s.len(), ensures forall|k: Seq<int>| #[trigger] s.subrange(i, s.len() as int).contains(k) <==> s.subrange(i + 1, s.len() as int).contains(k) || k == s[i],
{
  assert forall|k: Seq<int>| #[trigger] s.subrange(i, s.len() as int).contains(k) <==> s.subrange(i + 1, s.len() as int).contains(k) || k == s[i] by {
    let a = s.subrange(i + 1, s.len() as int); let b = s.subrange(i, s.len() as int);
    if a.contains(k) { let q = choose|q: int| 0 <= q < a.len() && a[q] == k; assert(b[q + 1] == k); }
    if k == s[i] { assert(b[0] == k); }
    if b.contains(k) { let q = choose|q: int| 0 <= q < b.len() && b[q] == k; if q > 0 { assert(a[q - 1] == k); } }
  }
}
pub proof fn skey_assoc(i: int) ensures forall|s: Seq<int>| #[trigger] (s + (seq![64int] + itoa(i))) == skey(s, i)
{ assert forall|s: Seq<int>| #[trigger] (s + (seq![64int] + itoa(i))) == skey(s, i) by { assert(s + (seq![64int] + itoa(i)) =~= skey(s, i)); } }
