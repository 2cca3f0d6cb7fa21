// ---- gram.rs: what a grammar refers to, when it is coherent, how names resolve ----
pub open spec fn ascii(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 127 }
pub open spec fn feq(a: Seq<int>, b: Seq<int>) -> bool { lower_all(a) =~= lower_all(b) }
pub open spec fn in_alt_ix(a: Alternation, i: int, j: int) -> bool {
  0 <= i < a.Concatenations.len() && 0 <= j < a.Concatenations[i].Repetitions.len()
}
pub open spec fn rep_at(a: Alternation, i: int, j: int) -> Repetition { a.Concatenations[i].Repetitions[j] }
// well-formed syntax trees: what the ABNF parser builds (RFC 5234 rule names, digits matching their base,
// quoted strings without a quote, prose without '>', no empty alternation or concatenation)
pub open spec fn is_alpha(c: int) -> bool { 0x41 <= c <= 0x5A || 0x61 <= c <= 0x7A }
pub open spec fn name_char(c: int) -> bool { is_alpha(c) || 0x30 <= c <= 0x39 || c == 0x2D }
pub open spec fn name_ok(s: Seq<int>) -> bool { s.len() > 0 && is_alpha(s[0]) && (forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i])) }
pub open spec fn wf_el(e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemRulename(x) => name_ok(x.Name),
    ElemItf::ElemGroup(x) => wf_alt(x.Alternation),
    ElemItf::ElemOption(x) => wf_alt(x.Alternation),
    ElemItf::ElemNumVal(x) => is_base(x.Base) && (forall|k: int| 0 <= k < x.Elems.len() ==> nv_ok(#[trigger] x.Elems[k], x.Base)) && ((x.Status == 0 && x.Elems.len() >= 1) || (x.Status == 1 && x.Elems.len() == 2)),
    ElemItf::ElemCharVal(x) => forall|k: int| 0 <= k < x.Values.len() ==> is_scalar(#[trigger] x.Values[k]) && x.Values[k] != 0x22,
    ElemItf::ElemProseVal(x) => forall|k: int| 0 <= k < x.values.len() ==> (#[trigger] x.values[k]).len() == 1 && x.values[k][0] != 0x3E,
    ElemItf::Other(x) => false,
    ElemItf::Nil => false,
  }
}
pub open spec fn wf_alt(a: Alternation) -> bool decreases a {
  a.Concatenations.len() >= 1 && (forall|i: int| 0 <= i < a.Concatenations.len() ==> (#[trigger] a.Concatenations[i]).Repetitions.len() >= 1)
  && forall|i: int, j: int| in_alt_ix(a, i, j) ==> { let r = #[trigger] a.Concatenations[i].Repetitions[j]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && wf_el(r.Element) }
}
// the (case-folded) rule names a syntax tree refers to
pub open spec fn el_refs(e: ElemItf, n: Seq<int>) -> bool decreases e {
  match e {
    ElemItf::ElemRulename(x) => lower_all(x.Name) =~= n,
    ElemItf::ElemGroup(x) => alt_refs(x.Alternation, n),
    ElemItf::ElemOption(x) => alt_refs(x.Alternation, n),
    _ => false,
  }
}
pub open spec fn alt_refs(a: Alternation, n: Seq<int>) -> bool decreases a {
  exists|i: int, j: int| in_alt_ix(a, i, j) && el_refs(#[trigger] a.Concatenations[i].Repetitions[j].Element, n)
}
// references seen before position (i, j) in reading order
pub open spec fn refs_before(a: Alternation, i: int, j: int, n: Seq<int>) -> bool {
  exists|p: int, q: int| in_alt_ix(a, p, q) && (p < i || (p == i && q < j)) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n)
}
// coherence: repetition bounds ordered, values within Unicode
pub open spec fn rep_coh(r: Repetition) -> bool { r.Max == -1 || r.Min <= r.Max }
pub open spec fn el_coh(e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemGroup(x) => alt_coh(x.Alternation),
    ElemItf::ElemOption(x) => alt_coh(x.Alternation),
    ElemItf::ElemNumVal(x) => forall|k: int| 0 <= k < x.Elems.len() ==> nval(#[trigger] x.Elems[k], x.Base) <= 0x10FFFF,
    _ => true,
  }
}
pub open spec fn alt_coh(a: Alternation) -> bool decreases a {
  forall|i: int, j: int| in_alt_ix(a, i, j) ==> { let r = #[trigger] a.Concatenations[i].Repetitions[j]; rep_coh(r) && el_coh(r.Element) }
}
// the offending construct occurs in the syntax tree
pub open spec fn el_bad_rep(e: ElemItf, r: Repetition) -> bool decreases e {
  match e { ElemItf::ElemGroup(x) => alt_bad_rep(x.Alternation, r), ElemItf::ElemOption(x) => alt_bad_rep(x.Alternation, r), _ => false }
}
pub open spec fn alt_bad_rep(a: Alternation, r: Repetition) -> bool decreases a {
  exists|i: int, j: int| in_alt_ix(a, i, j) && ((#[trigger] a.Concatenations[i].Repetitions[j] == r && !rep_coh(r)) || el_bad_rep(a.Concatenations[i].Repetitions[j].Element, r))
}
pub open spec fn el_bad_num(e: ElemItf, base: Seq<int>, v: int) -> bool decreases e {
  match e {
    ElemItf::ElemGroup(x) => alt_bad_num(x.Alternation, base, v),
    ElemItf::ElemOption(x) => alt_bad_num(x.Alternation, base, v),
    ElemItf::ElemNumVal(x) => x.Base == base && v > 0x10FFFF && (exists|k: int| 0 <= k < x.Elems.len() && nval(#[trigger] x.Elems[k], base) == v),
    _ => false,
  }
}
pub open spec fn alt_bad_num(a: Alternation, base: Seq<int>, v: int) -> bool decreases a {
  exists|i: int, j: int| in_alt_ix(a, i, j) && el_bad_num(#[trigger] a.Concatenations[i].Repetitions[j].Element, base, v)
}
// names the offender of a semantic error
pub open spec fn names_offender(err: GoErr, a: Alternation) -> bool {
  (err is ErrSemanticRepetition && alt_bad_rep(a, err->ErrSemanticRepetition_0.Repetition))
  || (err is ErrTooLargeNumeral && alt_bad_num(a, err->ErrTooLargeNumeral_0.Base, nval(err->ErrTooLargeNumeral_0.Value, err->ErrTooLargeNumeral_0.Base)))
}
// rule maps
pub open spec fn wf_map(rm: Map<Seq<int>, Option<Rule>>) -> bool {
  (forall|k: Seq<int>| #[trigger] rm.contains_key(k) ==> rm[k] is Some && ascii(k) && feq(k, rm[k]->Some_0.Name) && name_ok(rm[k]->Some_0.Name) && wf_alt(rm[k]->Some_0.Alternation))
  && (forall|k: Seq<int>, l: Seq<int>| #[trigger] rm.contains_key(k) && #[trigger] rm.contains_key(l) && feq(rm[k]->Some_0.Name, rm[l]->Some_0.Name) ==> k == l)
}
pub open spec fn def_in(rm: Map<Seq<int>, Option<Rule>>, name: Seq<int>, k: Seq<int>) -> bool {
  rm.contains_key(k) && rm[k] is Some && feq(name, rm[k]->Some_0.Name)
}
pub open spec fn defines(rm: Map<Seq<int>, Option<Rule>>, name: Seq<int>) -> bool { exists|k: Seq<int>| #[trigger] def_in(rm, name, k) }
// user's definition first, then the core rule, else nothing
pub open spec fn resolve_in(rm: Map<Seq<int>, Option<Rule>>, name: Seq<int>) -> Option<Rule> {
  if defines(rm, name) { rm[choose|k: Seq<int>| #[trigger] def_in(rm, name, k)] } else { None }
}
pub open spec fn resolve(rm: Map<Seq<int>, Option<Rule>>, name: Seq<int>) -> Option<Rule> {
  if defines(rm, name) { resolve_in(rm, name) } else { resolve_in(g_coreRules(), name) }
}
pub proof fn resolve_unique(rm: Map<Seq<int>, Option<Rule>>, name: Seq<int>, k: Seq<int>)
  requires wf_map(rm), def_in(rm, name, k),
  ensures resolve_in(rm, name) == rm[k], resolve_in(rm, name) is Some,
{ let c = choose|c: Seq<int>| #[trigger] def_in(rm, name, c); assert(def_in(rm, name, c)); assert(rm.contains_key(k) && rm.contains_key(c)); }
pub proof fn resolve_fold(rm: Map<Seq<int>, Option<Rule>>, a: Seq<int>, b: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), feq(a, b),
  ensures resolve(rm, a) == resolve(rm, b),
{
  assert forall|k: Seq<int>| def_in(rm, a, k) <==> def_in(rm, b, k) by {}
  assert forall|k: Seq<int>| def_in(g_coreRules(), a, k) <==> def_in(g_coreRules(), b, k) by {}
  if defines(rm, a) { let k = choose|k: Seq<int>| #[trigger] def_in(rm, a, k); assert(def_in(rm, b, k)); resolve_unique(rm, a, k); resolve_unique(rm, b, k); }
  else {
    if defines(rm, b) { let k = choose|k: Seq<int>| #[trigger] def_in(rm, b, k); assert(def_in(rm, a, k)); }
    if defines(g_coreRules(), a) { let k = choose|k: Seq<int>| #[trigger] def_in(g_coreRules(), a, k); assert(def_in(g_coreRules(), b, k)); resolve_unique(g_coreRules(), a, k); resolve_unique(g_coreRules(), b, k); }
    else if defines(g_coreRules(), b) { let k = choose|k: Seq<int>| #[trigger] def_in(g_coreRules(), b, k); assert(def_in(g_coreRules(), a, k)); }
  }
}
// a grammar strict validation accepts
pub open spec fn closed(rm: Map<Seq<int>, Option<Rule>>) -> bool {
  forall|k: Seq<int>, n: Seq<int>| rm.contains_key(k) && #[trigger] alt_refs(rm[k]->Some_0.Alternation, n) ==> resolve(rm, n) is Some
}
pub open spec fn coherent(rm: Map<Seq<int>, Option<Rule>>) -> bool {
  forall|k: Seq<int>| #[trigger] rm.contains_key(k) ==> alt_coh(rm[k]->Some_0.Alternation)
}
pub proof fn lower_twice(s: Seq<int>) ensures lower_all(lower_all(s)) =~= lower_all(s) {}
pub proof fn push_contains(a: Seq<Seq<int>>, b: Seq<Seq<int>>, nd: Seq<Seq<int>>, i: int)
  requires 0 <= i < nd.len(), b =~= (if a.contains(nd[i]) { a } else { a.push(nd[i]) }),
  ensures forall|n: Seq<int>| #[trigger] b.contains(n) <==> a.contains(n) || n == nd[i],
    forall|n: Seq<int>| #[trigger] nd.subrange(0, i + 1).contains(n) <==> nd.subrange(0, i).contains(n) || n == nd[i],
{
  assert forall|n: Seq<int>| #[trigger] nd.subrange(0, i + 1).contains(n) <==> nd.subrange(0, i).contains(n) || n == nd[i] by {
    if nd.subrange(0, i).contains(n) { let k = choose|k: int| 0 <= k < i && nd.subrange(0, i)[k] == n; assert(nd.subrange(0, i + 1)[k] == n); }
    if n == nd[i] { assert(nd.subrange(0, i + 1)[i] == n); }
    if nd.subrange(0, i + 1).contains(n) { let t = nd.subrange(0, i + 1); let k = choose|k: int| 0 <= k < i + 1 && t[k] == n; if k < i { assert(nd.subrange(0, i)[k] == n); } }
  }
  assert forall|n: Seq<int>| #[trigger] b.contains(n) <==> a.contains(n) || n == nd[i] by {
    if a.contains(n) { let k = choose|k: int| 0 <= k < a.len() && a[k] == n; assert(b[k] == n); }
    if n == nd[i] { if !a.contains(n) { assert(b[a.len() as int] == n); } }
    if b.contains(n) { let k = choose|k: int| 0 <= k < b.len() && b[k] == n; if k < a.len() { assert(a[k] == n); } }
  }
}
pub proof fn refs_step(a: Alternation, i: int, j: int)
  requires in_alt_ix(a, i, j),
  ensures forall|n: Seq<int>| #[trigger] refs_before(a, i, j + 1, n) <==> refs_before(a, i, j, n) || el_refs(a.Concatenations[i].Repetitions[j].Element, n),
{
  assert forall|n: Seq<int>| #[trigger] refs_before(a, i, j + 1, n) <==> refs_before(a, i, j, n) || el_refs(a.Concatenations[i].Repetitions[j].Element, n) by {
    if refs_before(a, i, j, n) { let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && (p < i || (p == i && q < j)) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n); assert(in_alt_ix(a, p, q) && (p < i || (p == i && q < j + 1)) && el_refs(a.Concatenations[p].Repetitions[q].Element, n)); }
    if refs_before(a, i, j + 1, n) { let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && (p < i || (p == i && q < j + 1)) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n); if !(p == i && q == j) { assert(in_alt_ix(a, p, q) && (p < i || (p == i && q < j)) && el_refs(a.Concatenations[p].Repetitions[q].Element, n)); } }
  }
}
pub proof fn refs_row(a: Alternation, i: int)
  requires 0 <= i < a.Concatenations.len(),
  ensures forall|n: Seq<int>| #[trigger] refs_before(a, i + 1, 0, n) <==> refs_before(a, i, a.Concatenations[i].Repetitions.len() as int, n),
{
  let m = a.Concatenations[i].Repetitions.len() as int;
  assert forall|n: Seq<int>| #[trigger] refs_before(a, i + 1, 0, n) <==> refs_before(a, i, m, n) by {
    if refs_before(a, i, m, n) { let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && (p < i || (p == i && q < m)) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n); assert(in_alt_ix(a, p, q) && (p < i + 1) && el_refs(a.Concatenations[p].Repetitions[q].Element, n)); }
    if refs_before(a, i + 1, 0, n) { let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && (p < i + 1 || (p == i + 1 && q < 0)) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n); assert(in_alt_ix(a, p, q) && (p < i || (p == i && q < m)) && el_refs(a.Concatenations[p].Repetitions[q].Element, n)); }
  }
}
pub proof fn refs_all(a: Alternation)
  ensures forall|n: Seq<int>| #[trigger] refs_before(a, a.Concatenations.len() as int, 0, n) <==> alt_refs(a, n),
{
  let m = a.Concatenations.len() as int;
  assert forall|n: Seq<int>| #[trigger] refs_before(a, m, 0, n) <==> alt_refs(a, n) by {
    if alt_refs(a, n) { let (p, q) = choose|p: int, q: int| in_alt_ix(a, p, q) && el_refs(#[trigger] a.Concatenations[p].Repetitions[q].Element, n); assert(in_alt_ix(a, p, q) && (p < m || (p == m && q < 0)) && el_refs(a.Concatenations[p].Repetitions[q].Element, n)); }
  }
}
pub proof fn single_contains()
  ensures forall|x: Seq<int>, n: Seq<int>| #[trigger] seq![x].contains(n) <==> n == x,
{ assert forall|x: Seq<int>, n: Seq<int>| #[trigger] seq![x].contains(n) <==> n == x by { assert(seq![x][0] == x); } }
pub open spec fn coh_before(a: Alternation, i: int, j: int) -> bool {
  forall|p: int, q: int| in_alt_ix(a, p, q) && (p < i || (p == i && q < j)) ==> rep_coh(#[trigger] a.Concatenations[p].Repetitions[q]) && el_coh(a.Concatenations[p].Repetitions[q].Element)
}
pub proof fn coh_step(a: Alternation, i: int, j: int)
  requires in_alt_ix(a, i, j),
  ensures coh_before(a, i, j) && rep_coh(a.Concatenations[i].Repetitions[j]) && el_coh(a.Concatenations[i].Repetitions[j].Element) ==> coh_before(a, i, j + 1),
{}
pub proof fn coh_row(a: Alternation, i: int)
  requires 0 <= i < a.Concatenations.len(),
  ensures coh_before(a, i, a.Concatenations[i].Repetitions.len() as int) ==> coh_before(a, i + 1, 0),
{}
pub proof fn coh_all(a: Alternation) ensures coh_before(a, a.Concatenations.len() as int, 0) ==> alt_coh(a) {}
// an offender of the element at (i, j) is one of the alternation, and rules coherence out
pub proof fn offender_up(a: Alternation, i: int, j: int)
  requires in_alt_ix(a, i, j),
  ensures ({ let r = a.Concatenations[i].Repetitions[j];
    (!rep_coh(r) ==> alt_bad_rep(a, r) && !alt_coh(a)) && (!el_coh(r.Element) ==> !alt_coh(a))
    && (forall|x: Repetition| #[trigger] el_bad_rep(r.Element, x) ==> alt_bad_rep(a, x))
    && (forall|b: Seq<int>, v: int| #[trigger] el_bad_num(r.Element, b, v) ==> alt_bad_num(a, b, v)) }),
{
  let r = a.Concatenations[i].Repetitions[j];
  assert forall|x: Repetition| #[trigger] el_bad_rep(r.Element, x) implies alt_bad_rep(a, x) by { assert(in_alt_ix(a, i, j) && el_bad_rep(a.Concatenations[i].Repetitions[j].Element, x)); }
  assert forall|b: Seq<int>, v: int| #[trigger] el_bad_num(r.Element, b, v) implies alt_bad_num(a, b, v) by { assert(in_alt_ix(a, i, j) && el_bad_num(a.Concatenations[i].Repetitions[j].Element, b, v)); }
}
pub proof fn bad_num_at(e: ElemItf, x: ElemNumVal, k: int)
  requires e == ElemItf::ElemNumVal(x), 0 <= k < x.Elems.len(),
  ensures nval(x.Elems[k], x.Base) > 0x10FFFF ==> el_bad_num(e, x.Base, nval(x.Elems[k], x.Base)) && !el_coh(e),
{}
pub proof fn el_refs_ascii(e: ElemItf, n: Seq<int>)
  requires wf_el(e), el_refs(e, n),
  ensures ascii(n),
  decreases e, 
{
  match e {
    ElemItf::ElemRulename(x) => { assert forall|i: int| 0 <= i < n.len() implies 0 <= #[trigger] n[i] <= 127 by { assert(lower_all(x.Name)[i] == ascii_lower(x.Name[i])); } },
    ElemItf::ElemGroup(x) => { refs_ascii(x.Alternation, n); },
    ElemItf::ElemOption(x) => { refs_ascii(x.Alternation, n); },
    _ => {},
  }
}
pub proof fn refs_ascii(a: Alternation, n: Seq<int>)
  requires wf_alt(a), alt_refs(a, n),
  ensures ascii(n),
  decreases a,
{
  let (i, j) = choose|i: int, j: int| in_alt_ix(a, i, j) && el_refs(#[trigger] a.Concatenations[i].Repetitions[j].Element, n);
  assert(wf_el(a.Concatenations[i].Repetitions[j].Element));
  el_refs_ascii(a.Concatenations[i].Repetitions[j].Element, n);
}
pub open spec fn wf_rep(r: Repetition) -> bool { r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && wf_el(r.Element) }
pub open spec fn wf_cat(c: Concatenation) -> bool { forall|j: int| 0 <= j < c.Repetitions.len() ==> wf_rep(#[trigger] c.Repetitions[j]) }
pub proof fn wf_cat_of(a: Alternation, i: int)
  requires wf_alt(a), 0 <= i < a.Concatenations.len(), ensures wf_cat(a.Concatenations[i]),
{ assert forall|j: int| 0 <= j < a.Concatenations[i].Repetitions.len() implies wf_rep(#[trigger] a.Concatenations[i].Repetitions[j]) by { assert(in_alt_ix(a, i, j)); } }
pub proof fn wf_cats(a: Alternation)
  requires wf_alt(a), ensures forall|i: int| 0 <= i < a.Concatenations.len() ==> wf_cat(#[trigger] a.Concatenations[i]),
{ assert forall|i: int| 0 <= i < a.Concatenations.len() implies wf_cat(#[trigger] a.Concatenations[i]) by { wf_cat_of(a, i); } }
pub open spec fn costs_ok(m: Map<Seq<int>, int>) -> bool { forall|k: Seq<int>| #[trigger] m.contains_key(k) ==> m[k] >= 0 }
pub open spec fn known_ascii(m: Map<Seq<int>, ()>) -> bool { forall|k: Seq<int>| #[trigger] m.contains_key(k) ==> ascii(k) }
pub proof fn resolve_name(rm: Map<Seq<int>, Option<Rule>>, n: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), ensures resolve(rm, n) is Some ==> name_ok(n),
{
  if resolve(rm, n) is Some {
    let m = if defines(rm, n) { rm } else { g_coreRules() };
    let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(def_in(m, n, k)); let a = m[k]->Some_0.Name; assert(m.contains_key(k)); assert(name_ok(a));
    assert(lower_all(n) =~= lower_all(a)); assert(lower_all(n).len() == n.len()); assert(lower_all(a).len() == a.len());
    assert forall|i: int| 0 <= i < n.len() implies name_char(#[trigger] n[i]) && (is_alpha(a[i]) ==> is_alpha(n[i])) by { assert(lower_all(n)[i] == ascii_lower(n[i])); assert(lower_all(a)[i] == ascii_lower(a[i])); assert(name_char(a[i])); }
    assert(name_char(n[0]));
  }
}
