// ---- gen.rs: generated text only grows by words of the language ----
// grammars a generator is asked to work on: closed, coherent, every terminal satisfiable, no prose-val
pub open spec fn sat_el(rm: RM, e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemRulename(x) => ascii(x.Name) && resolve(rm, x.Name) is Some,
    ElemItf::ElemGroup(x) => sat_alt(rm, x.Alternation),
    ElemItf::ElemOption(x) => sat_alt(rm, x.Alternation),
    ElemItf::ElemCharVal(x) => scalars(x.Values),
    ElemItf::ElemNumVal(x) => (forall|k: int| 0 <= k < x.Elems.len() ==> nv_ok(#[trigger] x.Elems[k], x.Base))
      && ((x.Status == 0 && (forall|k: int| 0 <= k < x.Elems.len() ==> is_scalar(nval(#[trigger] x.Elems[k], x.Base))))
        || (x.Status == 1 && x.Elems.len() == 2 && (exists|c: int| is_scalar(c) && nval(x.Elems[0], x.Base) <= c <= nval(x.Elems[1], x.Base)))),
    _ => false,
  }
}
pub open spec fn sat_alt(rm: RM, a: Alternation) -> bool decreases a {
  a.Concatenations.len() > 0 && (forall|i: int, j: int| in_alt_ix(a, i, j) ==> { let r = #[trigger] a.Concatenations[i].Repetitions[j]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && rep_coh(r) && sat_el(rm, r.Element) })
}
pub open spec fn sat_rep(rm: RM, r: Repetition) -> bool { r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && rep_coh(r) && sat_el(rm, r.Element) }
pub open spec fn sat_cat(rm: RM, c: Concatenation) -> bool { forall|j: int| 0 <= j < c.Repetitions.len() ==> sat_rep(rm, #[trigger] c.Repetitions[j]) }
pub open spec fn gen_rm(rm: RM) -> bool {
  wf_map(rm) && wf_map(g_coreRules()) && (forall|n: Seq<int>| #[trigger] resolve(rm, n) is Some ==> sat_alt(rm, resolve(rm, n)->Some_0.Alternation))
}
// n extends o
pub open spec fn ext(o: Seq<int>, n: Seq<int>) -> bool { o.len() <= n.len() && n.subrange(0, o.len() as int) =~= o }
pub open spec fn tail(o: Seq<int>, n: Seq<int>) -> Seq<int> { n.subrange(o.len() as int, n.len() as int) }
pub open spec fn grows_alt(rm: RM, a: Alternation, o: Seq<int>, n: Seq<int>) -> bool { ext(o, n) && d_alt(rm, a, tail(o, n)) }
pub open spec fn grows_cat(rm: RM, c: Concatenation, k: int, o: Seq<int>, n: Seq<int>) -> bool { ext(o, n) && d_cat(rm, c, k, tail(o, n)) }
pub open spec fn grows_rep(rm: RM, r: Repetition, o: Seq<int>, n: Seq<int>) -> bool { ext(o, n) && d_rep(rm, r, tail(o, n)) }
pub open spec fn grows_pow(rm: RM, e: ElemItf, c: int, o: Seq<int>, n: Seq<int>) -> bool { ext(o, n) && d_pow(rm, e, c, tail(o, n)) }
pub open spec fn grows_el(rm: RM, e: ElemItf, o: Seq<int>, n: Seq<int>) -> bool { ext(o, n) && d_el(rm, e, tail(o, n)) }
// the first k characters of a terminal were appended
pub open spec fn grows_chars(e: ElemItf, k: int, o: Seq<int>, n: Seq<int>) -> bool {
  exists|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && n =~= o + #[trigger] utf8_strs(cs)
}
pub proof fn ext_trans(o: Seq<int>, m: Seq<int>, n: Seq<int>)
  requires ext(o, m), ext(m, n), ensures ext(o, n), tail(o, n) =~= tail(o, m) + tail(m, n),
{ assert forall|i: int| 0 <= i < o.len() implies n.subrange(0, o.len() as int)[i] == o[i] by { assert(n.subrange(0, m.len() as int)[i] == m[i]); assert(m.subrange(0, o.len() as int)[i] == o[i]); }
  assert forall|i: int| 0 <= i < tail(o, n).len() implies tail(o, n)[i] == (tail(o, m) + tail(m, n))[i] by { if i + o.len() < m.len() { assert(n.subrange(0, m.len() as int)[i + o.len()] == m[i + o.len()]); } } }
pub proof fn grow_cat_start(rm: RM, c: Concatenation, o: Seq<int>) ensures grows_cat(rm, c, 0, o, o) { d_cat_nil(rm, c); assert(tail(o, o) =~= Seq::<int>::empty()); assert(ext(o, o)); }
pub proof fn grow_cat_step(rm: RM, c: Concatenation, k: int, o: Seq<int>, m: Seq<int>, n: Seq<int>)
  requires 0 <= k < c.Repetitions.len(), grows_cat(rm, c, k, o, m), grows_rep(rm, c.Repetitions[k], m, n), ensures grows_cat(rm, c, k + 1, o, n),
{ ext_trans(o, m, n); d_cat_snoc(rm, c, k, tail(o, m), tail(m, n)); }
pub proof fn grow_pow_start(rm: RM, e: ElemItf, o: Seq<int>) ensures grows_pow(rm, e, 0, o, o) { d_pow_nil(rm, e); assert(tail(o, o) =~= Seq::<int>::empty()); assert(ext(o, o)); }
pub proof fn grow_pow_step(rm: RM, e: ElemItf, c: int, o: Seq<int>, m: Seq<int>, n: Seq<int>)
  requires 0 <= c, grows_pow(rm, e, c, o, m), grows_el(rm, e, m, n), ensures grows_pow(rm, e, c + 1, o, n),
{ ext_trans(o, m, n); d_pow_snoc(rm, e, c, tail(o, m), tail(m, n)); }
pub proof fn grow_chars_start(e: ElemItf, o: Seq<int>)
  requires is_term(e), ensures grows_chars(e, 0, o, o),
{ let cs = Seq::<int>::empty(); assert(scalars(cs) && fits_k(e, cs, 0) && o =~= o + utf8_strs(cs)); }
pub proof fn grow_chars_step(e: ElemItf, k: int, o: Seq<int>, m: Seq<int>, c: int)
  requires grows_chars(e, k, o, m), 0 <= k < nchars(e), is_scalar(c), takes(e, k, c), ensures grows_chars(e, k + 1, o, m + enc(c)),
{
  let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && m =~= o + #[trigger] utf8_strs(cs);
  strs_push(cs, c); let d = cs.push(c);
  assert(scalars(d) && fits_k(e, d, k + 1) && m + enc(c) =~= o + utf8_strs(d));
}
// every character the terminal's k-th position accepts may be appended
pub proof fn grow_chars_any(e: ElemItf, k: int, o: Seq<int>, m: Seq<int>)
  requires grows_chars(e, k, o, m), 0 <= k < nchars(e),
  ensures forall|c: int| is_scalar(c) && takes(e, k, c) ==> grows_chars(e, k + 1, o, m + #[trigger] utf8_str(c)),
{ assert forall|c: int| is_scalar(c) && takes(e, k, c) implies grows_chars(e, k + 1, o, m + #[trigger] utf8_str(c)) by { grow_chars_step(e, k, o, m, c); } }
pub proof fn grow_chars_done(rm: RM, e: ElemItf, k: int, o: Seq<int>, n: Seq<int>)
  requires grows_chars(e, k, o, n), k == nchars(e), is_term(e), ensures grows_el(rm, e, o, n),
{
  let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && n =~= o + #[trigger] utf8_strs(cs);
  assert(fits(e, cs)); assert(tail(o, n) =~= utf8_strs(cs)); assert(in_term(e, tail(o, n))); d_el_term(rm, e, tail(o, n)); assert(ext(o, n));
}
pub proof fn grow_el_of_alt(rm: RM, e: ElemItf, o: Seq<int>)
  ensures forall|n: Seq<int>| (e is ElemGroup && #[trigger] grows_alt(rm, e->ElemGroup_0.Alternation, o, n)) ==> grows_el(rm, e, o, n),
    forall|n: Seq<int>| (e is ElemOption && #[trigger] grows_alt(rm, e->ElemOption_0.Alternation, o, n)) ==> grows_el(rm, e, o, n),
    e is ElemOption ==> grows_el(rm, e, o, o),
    forall|n: Seq<int>| (e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some && #[trigger] grows_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation, o, n)) ==> grows_el(rm, e, o, n),
{
  if e is ElemOption { assert(tail(o, o) =~= Seq::<int>::empty()); assert(ext(o, o)); d_el_option(rm, e->ElemOption_0, tail(o, o)); }
  assert forall|n: Seq<int>| (e is ElemGroup && #[trigger] grows_alt(rm, e->ElemGroup_0.Alternation, o, n)) implies grows_el(rm, e, o, n) by { d_el_group(rm, e->ElemGroup_0, tail(o, n)); }
  assert forall|n: Seq<int>| (e is ElemOption && #[trigger] grows_alt(rm, e->ElemOption_0.Alternation, o, n)) implies grows_el(rm, e, o, n) by { d_el_option(rm, e->ElemOption_0, tail(o, n)); }
  assert forall|n: Seq<int>| (e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some && #[trigger] grows_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation, o, n)) implies grows_el(rm, e, o, n) by { d_el_rule(rm, e->ElemRulename_0, tail(o, n)); }
}
pub proof fn grow_alt_of_cat(rm: RM, a: Alternation, i: int, o: Seq<int>, n: Seq<int>)
  requires 0 <= i < a.Concatenations.len(), grows_cat(rm, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int, o, n), ensures grows_alt(rm, a, o, n),
{ d_alt_intro(rm, a, i, tail(o, n)); }
pub proof fn grow_rep_of_pow(rm: RM, r: Repetition, c: int, o: Seq<int>, n: Seq<int>)
  requires rep_allows(r, c), grows_pow(rm, r.Element, c, o, n), ensures grows_rep(rm, r, o, n),
{ d_rep_intro(rm, r, c, tail(o, n)); }
// a value range: any scalar of the range may be appended
pub proof fn range_grow(rm: RM, e: ElemItf, o: Seq<int>)
  ensures e is ElemNumVal && e->ElemNumVal_0.Status == 1 ==> (forall|c: int| is_scalar(c) && takes(e, 0, c) ==> grows_el(rm, e, o, o + #[trigger] utf8_str(c))),
{
  if e is ElemNumVal && e->ElemNumVal_0.Status == 1 {
    assert forall|c: int| is_scalar(c) && takes(e, 0, c) implies grows_el(rm, e, o, o + #[trigger] utf8_str(c)) by { grow_chars_start(e, o); grow_chars_step(e, 0, o, o, c); grow_chars_done(rm, e, 1, o, o + enc(c)); }
  }
}
pub proof fn sat_cat_of(rm: RM, a: Alternation, i: int)
  requires sat_alt(rm, a), 0 <= i < a.Concatenations.len(), ensures sat_cat(rm, a.Concatenations[i]),
{ assert forall|j: int| 0 <= j < a.Concatenations[i].Repetitions.len() implies sat_rep(rm, #[trigger] a.Concatenations[i].Repetitions[j]) by { assert(in_alt_ix(a, i, j)); } }
// grammars whose terminals are satisfiable; prose-vals may occur
pub open spec fn csat_el(rm: RM, e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemGroup(x) => csat_alt(rm, x.Alternation),
    ElemItf::ElemOption(x) => csat_alt(rm, x.Alternation),
    ElemItf::ElemProseVal(x) => true,
    _ => sat_el(rm, e),
  }
}
pub open spec fn csat_alt(rm: RM, a: Alternation) -> bool decreases a {
  a.Concatenations.len() > 0 && (forall|i: int, j: int| in_alt_ix(a, i, j) ==> { let r = #[trigger] a.Concatenations[i].Repetitions[j]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && rep_coh(r) && csat_el(rm, r.Element) })
}
pub open spec fn csat_rep(rm: RM, r: Repetition) -> bool { r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && rep_coh(r) && csat_el(rm, r.Element) }
pub open spec fn csat_cat(rm: RM, c: Concatenation) -> bool { forall|j: int| 0 <= j < c.Repetitions.len() ==> csat_rep(rm, #[trigger] c.Repetitions[j]) }
pub open spec fn csat_rm(rm: RM) -> bool {
  wf_map(rm) && wf_map(g_coreRules()) && (forall|n: Seq<int>| #[trigger] resolve(rm, n) is Some ==> csat_alt(rm, resolve(rm, n)->Some_0.Alternation))
}
// derives at least one string
pub open spec fn prod_alt(rm: RM, a: Alternation) -> bool { exists|w: Seq<int>| #[trigger] d_alt(rm, a, w) }
pub open spec fn prod_cat(rm: RM, c: Concatenation, k: int) -> bool { exists|w: Seq<int>| #[trigger] d_cat(rm, c, k, w) }
pub open spec fn prod_el(rm: RM, e: ElemItf) -> bool { exists|w: Seq<int>| #[trigger] d_el(rm, e, w) }
pub proof fn csat_cat_of(rm: RM, a: Alternation, i: int)
  requires csat_alt(rm, a), 0 <= i < a.Concatenations.len(), ensures csat_cat(rm, a.Concatenations[i]),
{ assert forall|j: int| 0 <= j < a.Concatenations[i].Repetitions.len() implies csat_rep(rm, #[trigger] a.Concatenations[i].Repetitions[j]) by { assert(in_alt_ix(a, i, j)); } }
pub proof fn prod_start(rm: RM, c: Concatenation) ensures prod_cat(rm, c, 0) { d_cat_nil(rm, c); }
pub proof fn prod_pow(rm: RM, e: ElemItf, c: int) -> (w: Seq<int>)
  requires c >= 0, c == 0 || prod_el(rm, e), ensures d_pow(rm, e, c, w), decreases c,
{
  if c == 0 { d_pow_nil(rm, e); Seq::<int>::empty() }
  else { let u = prod_pow(rm, e, c - 1); let v = choose|v: Seq<int>| #[trigger] d_el(rm, e, v); d_pow_snoc(rm, e, c - 1, u, v); u + v }
}
pub proof fn prod_step(rm: RM, c: Concatenation, k: int)
  requires 0 <= k < c.Repetitions.len(), csat_rep(rm, c.Repetitions[k]), prod_cat(rm, c, k), c.Repetitions[k].Min == 0 || prod_el(rm, c.Repetitions[k].Element),
  ensures prod_cat(rm, c, k + 1),
{
  let r = c.Repetitions[k];
  let v = prod_pow(rm, r.Element, r.Min); d_rep_intro(rm, r, r.Min, v);
  let u = choose|u: Seq<int>| #[trigger] d_cat(rm, c, k, u); d_cat_snoc(rm, c, k, u, v);
}
pub proof fn series_text(x: ElemNumVal, n: int) -> (cs: Seq<int>)
  requires 0 <= n <= x.Elems.len(), forall|k: int| 0 <= k < x.Elems.len() ==> is_scalar(nval(#[trigger] x.Elems[k], x.Base)),
  ensures cs.len() == n, scalars(cs), forall|k: int| 0 <= k < n ==> #[trigger] cs[k] == nval(x.Elems[k], x.Base),
{ Seq::new(n as nat, |k: int| nval(x.Elems[k], x.Base)) }
pub proof fn prod_terms(rm: RM, e: ElemItf)
  requires csat_el(rm, e), ensures e is ElemCharVal || e is ElemNumVal || e is ElemOption ==> prod_el(rm, e),
{
  match e {
    ElemItf::ElemCharVal(x) => { assert(fits(e, x.Values)); assert(in_term(e, utf8_strs(x.Values))); d_el_term(rm, e, utf8_strs(x.Values)); },
    ElemItf::ElemNumVal(x) => {
      if x.Status == 1 {
        let c = choose|c: int| is_scalar(c) && nval(x.Elems[0], x.Base) <= c <= nval(x.Elems[1], x.Base); let cs = seq![c];
        assert(scalars(cs) && fits(e, cs)); assert(in_term(e, utf8_strs(cs))); d_el_term(rm, e, utf8_strs(cs));
      } else { let cs = series_text(x, x.Elems.len() as int); assert(fits(e, cs)); assert(in_term(e, utf8_strs(cs))); d_el_term(rm, e, utf8_strs(cs)); }
    },
    ElemItf::ElemOption(x) => { d_el_option(rm, x, Seq::<int>::empty()); },
    _ => {},
  }
}
pub proof fn prod_up(rm: RM, e: ElemItf)
  ensures e is ElemGroup && prod_alt(rm, e->ElemGroup_0.Alternation) ==> prod_el(rm, e),
    e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some && prod_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation) ==> prod_el(rm, e),
{
  if e is ElemGroup && prod_alt(rm, e->ElemGroup_0.Alternation) { let w = choose|w: Seq<int>| #[trigger] d_alt(rm, e->ElemGroup_0.Alternation, w); d_el_group(rm, e->ElemGroup_0, w); }
  if e is ElemRulename && resolve(rm, e->ElemRulename_0.Name) is Some && prod_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation) { let w = choose|w: Seq<int>| #[trigger] d_alt(rm, resolve(rm, e->ElemRulename_0.Name)->Some_0.Alternation, w); d_el_rule(rm, e->ElemRulename_0, w); }
}
pub proof fn prod_alt_of(rm: RM, a: Alternation, i: int)
  requires 0 <= i < a.Concatenations.len(), prod_cat(rm, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int), ensures prod_alt(rm, a),
{ let n = a.Concatenations[i].Repetitions.len() as int; let w = choose|w: Seq<int>| #[trigger] d_cat(rm, a.Concatenations[i], n, w); d_alt_intro(rm, a, i, w); }
