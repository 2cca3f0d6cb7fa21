// ---- meta.rs: the rules the library is born with, and decidable facts about them ----
// Everything named k_* can be evaluated on the literals extracted from the source (assert .. by (compute_only)).
pub open spec fn k_char(c: int, kind: int) -> bool { if kind == 0 { name_char(c) } else if kind == 1 { is_scalar(c) && c != 0x22 } else { 0 <= digit(c) < kind } }
pub open spec fn k_each(s: Seq<int>, n: int, kind: int) -> bool decreases n { if n <= 0 { true } else { k_char(s[n - 1], kind) && k_each(s, n - 1, kind) } }
pub open spec fn k_name(s: Seq<int>) -> bool { s.len() > 0 && is_alpha(s[0]) && k_each(s, s.len() as int, 0) }
pub open spec fn k_radix(b: Seq<int>) -> int { if b.len() != 1 { 0 } else if b[0] == 0x62 || b[0] == 0x42 { 2 } else if b[0] == 0x78 || b[0] == 0x58 { 16 } else if b[0] == 0x64 || b[0] == 0x44 { 10 } else { 0 } }
pub open spec fn k_nums(x: Seq<Seq<int>>, n: int, r: int) -> bool decreases n { if n <= 0 { true } else { x[n - 1].len() > 0 && k_each(x[n - 1], x[n - 1].len() as int, r) && k_nums(x, n - 1, r) } }
pub open spec fn k_alt(a: Alternation, i: int) -> bool decreases a, 1int, i {
  if i <= 0 { true } else { i <= a.Concatenations.len() && k_cat(a.Concatenations[i - 1], a.Concatenations[i - 1].Repetitions.len() as int) && a.Concatenations[i - 1].Repetitions.len() >= 1 && k_alt(a, i - 1) }
}
pub open spec fn k_cat(c: Concatenation, i: int) -> bool decreases c, 0int, i {
  if i <= 0 { true } else { i <= c.Repetitions.len() && c.Repetitions[i - 1].Min >= 0 && c.Repetitions[i - 1].Max >= -1 && k_el(c.Repetitions[i - 1].Element) && k_cat(c, i - 1) }
}
pub open spec fn k_el(e: ElemItf) -> bool decreases e, 2int, 0int {
  match e {
    ElemItf::ElemRulename(x) => k_name(x.Name),
    ElemItf::ElemGroup(x) => x.Alternation.Concatenations.len() >= 1 && k_alt(x.Alternation, x.Alternation.Concatenations.len() as int),
    ElemItf::ElemOption(x) => x.Alternation.Concatenations.len() >= 1 && k_alt(x.Alternation, x.Alternation.Concatenations.len() as int),
    ElemItf::ElemCharVal(x) => k_each(x.Values, x.Values.len() as int, 1),
    ElemItf::ElemNumVal(x) => k_radix(x.Base) != 0 && k_nums(x.Elems, x.Elems.len() as int, k_radix(x.Base)) && ((x.Status == 0 && x.Elems.len() >= 1) || (x.Status == 1 && x.Elems.len() == 2)),
    _ => false,
  }
}
pub open spec fn k_rule(r: Option<Rule>) -> bool { r is Some && k_name(r->Some_0.Name) && r->Some_0.Alternation.Concatenations.len() >= 1 && k_alt(r->Some_0.Alternation, r->Some_0.Alternation.Concatenations.len() as int) }
pub open spec fn k_feq(a: Seq<int>, b: Seq<int>, n: int) -> bool decreases n { if n <= 0 { true } else { ascii_lower(a[n - 1]) == ascii_lower(b[n - 1]) && k_feq(a, b, n - 1) } }
pub open spec fn k_same(a: Seq<int>, b: Seq<int>) -> bool { a.len() == b.len() && k_feq(a, b, a.len() as int) }
pub open spec fn k_find(x: Seq<Option<Rule>>, n: Seq<int>, i: int) -> Option<Rule> decreases i { if i <= 0 { None } else if x[i - 1] is Some && k_same(n, x[i - 1]->Some_0.Name) { x[i - 1] } else { k_find(x, n, i - 1) } }
// every rule is well formed and no two share a name
pub open spec fn k_list(x: Seq<Option<Rule>>, i: int) -> bool decreases i { if i <= 0 { true } else { k_rule(x[i - 1]) && k_find(x, x[i - 1]->Some_0.Name, i - 1) is None && k_list(x, i - 1) } }
pub open spec fn as_map(x: Seq<Option<Rule>>, n: int) -> RM decreases n { if n <= 0 { Map::empty() } else { as_map(x, n - 1).insert(x[n - 1]->Some_0.Name, x[n - 1]) } }

pub proof fn k_each_is(s: Seq<int>, n: int, kind: int) requires k_each(s, n, kind), ensures forall|i: int| 0 <= i < n ==> k_char(#[trigger] s[i], kind), decreases n, { if n > 0 { k_each_is(s, n - 1, kind); } }
pub proof fn k_name_is(s: Seq<int>) requires k_name(s), ensures name_ok(s), ascii(s) { k_each_is(s, s.len() as int, 0); }
pub proof fn k_nums_is(x: Seq<Seq<int>>, n: int, r: int) requires k_nums(x, n, r), ensures forall|i: int| 0 <= i < n ==> (#[trigger] x[i]).len() > 0 && (r > 1 ==> digits_ok(x[i], r)), decreases n,
{ if n > 0 { k_nums_is(x, n - 1, r); k_each_is(x[n - 1], x[n - 1].len() as int, r); } }
pub proof fn k_radix_is(b: Seq<int>) requires k_radix(b) != 0, ensures is_base(b), radix(b) == k_radix(b),
{ assert(b =~= seq![b[0]]); assert(seq![0x62int][0] == 0x62 && seq![0x42int][0] == 0x42 && seq![0x78int][0] == 0x78 && seq![0x58int][0] == 0x58); }
pub proof fn k_alt_is(a: Alternation, i: int) requires k_alt(a, i), 0 <= i <= a.Concatenations.len(),
  ensures forall|p: int, q: int| 0 <= p < i && in_alt_ix(a, p, q) ==> { let r = #[trigger] a.Concatenations[p].Repetitions[q]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && wf_el(r.Element) }, forall|p: int| 0 <= p < i ==> (#[trigger] a.Concatenations[p]).Repetitions.len() >= 1, decreases a, 1int, i,
{ if i > 0 { k_alt_is(a, i - 1); k_cat_is(a.Concatenations[i - 1], a.Concatenations[i - 1].Repetitions.len() as int); } }
pub proof fn k_cat_is(c: Concatenation, i: int) requires k_cat(c, i), 0 <= i <= c.Repetitions.len(),
  ensures forall|q: int| 0 <= q < i ==> { let r = #[trigger] c.Repetitions[q]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && wf_el(r.Element) }, decreases c, 0int, i,
{ if i > 0 { k_cat_is(c, i - 1); k_el_is(c.Repetitions[i - 1].Element); } }
pub proof fn k_el_is(e: ElemItf) requires k_el(e), ensures wf_el(e), decreases e, 2int, 0int,
{
  match e {
    ElemItf::ElemRulename(x) => { k_name_is(x.Name); },
    ElemItf::ElemGroup(x) => { k_alt_is(x.Alternation, x.Alternation.Concatenations.len() as int); },
    ElemItf::ElemOption(x) => { k_alt_is(x.Alternation, x.Alternation.Concatenations.len() as int); },
    ElemItf::ElemCharVal(x) => { k_each_is(x.Values, x.Values.len() as int, 1); },
    ElemItf::ElemNumVal(x) => { k_radix_is(x.Base); k_nums_is(x.Elems, x.Elems.len() as int, k_radix(x.Base)); },
    _ => {},
  }
}
pub proof fn k_feq_is(a: Seq<int>, b: Seq<int>, n: int) ensures k_feq(a, b, n) <==> (forall|i: int| 0 <= i < n ==> ascii_lower(#[trigger] a[i]) == ascii_lower(b[i])), decreases n, { if n > 0 { k_feq_is(a, b, n - 1); } }
pub proof fn k_same_is(a: Seq<int>, b: Seq<int>) ensures k_same(a, b) <==> feq(a, b),
{
  k_feq_is(a, b, a.len() as int);
  if feq(a, b) { assert(lower_all(a).len() == lower_all(b).len()); assert forall|i: int| 0 <= i < a.len() implies ascii_lower(#[trigger] a[i]) == ascii_lower(b[i]) by { assert(lower_all(a)[i] == lower_all(b)[i]); } }
  if k_same(a, b) { assert(lower_all(a) =~= lower_all(b)); }
}
pub proof fn k_find_is(x: Seq<Option<Rule>>, n: Seq<int>, i: int) requires 0 <= i <= x.len(),
  ensures k_find(x, n, i) is None ==> (forall|j: int| 0 <= j < i && x[j] is Some ==> !feq(n, (#[trigger] x[j])->Some_0.Name)), k_find(x, n, i) is Some ==> (exists|j: int| 0 <= j < i && #[trigger] x[j] == k_find(x, n, i) && feq(n, x[j]->Some_0.Name)), decreases i,
{ if i > 0 { k_same_is(n, x[i - 1]->Some_0.Name); if x[i - 1] is Some && k_same(n, x[i - 1]->Some_0.Name) { assert(x[i - 1] == k_find(x, n, i)); } else { k_find_is(x, n, i - 1); } } }
pub proof fn k_list_is(x: Seq<Option<Rule>>, i: int) requires k_list(x, i), 0 <= i <= x.len(),
  ensures forall|j: int| 0 <= j < i ==> (#[trigger] x[j]) is Some && name_ok(x[j]->Some_0.Name) && ascii(x[j]->Some_0.Name) && wf_alt(x[j]->Some_0.Alternation), forall|j: int, k: int| 0 <= j < k < i ==> !feq((#[trigger] x[k])->Some_0.Name, (#[trigger] x[j])->Some_0.Name), decreases i,
{ if i > 0 { k_list_is(x, i - 1); k_name_is(x[i - 1]->Some_0.Name); let a = x[i - 1]->Some_0.Alternation; k_alt_is(a, a.Concatenations.len() as int); k_find_is(x, x[i - 1]->Some_0.Name, i - 1); } }
pub proof fn as_map_is(x: Seq<Option<Rule>>, n: int) requires k_list(x, x.len() as int), 0 <= n <= x.len(),
  ensures forall|k: Seq<int>| #[trigger] as_map(x, n).contains_key(k) ==> (exists|j: int| 0 <= j < n && (#[trigger] x[j])->Some_0.Name == k && as_map(x, n)[k] == x[j]), forall|j: int| 0 <= j < n ==> as_map(x, n).contains_key((#[trigger] x[j])->Some_0.Name) && as_map(x, n)[x[j]->Some_0.Name] == x[j], decreases n,
{
  k_list_is(x, x.len() as int);
  if n > 0 {
    as_map_is(x, n - 1);
    let p = as_map(x, n - 1); let m = as_map(x, n);
    assert forall|k: Seq<int>| #[trigger] m.contains_key(k) implies (exists|j: int| 0 <= j < n && (#[trigger] x[j])->Some_0.Name == k && m[k] == x[j]) by {
      if k == x[n - 1]->Some_0.Name { assert(x[n - 1]->Some_0.Name == k); } else { assert(p.contains_key(k)); let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] x[j])->Some_0.Name == k && p[k] == x[j]; assert(x[j]->Some_0.Name == k); }
    }
    assert forall|j: int| 0 <= j < n implies m.contains_key((#[trigger] x[j])->Some_0.Name) && m[x[j]->Some_0.Name] == x[j] by { if j < n - 1 { assert(!feq(x[n - 1]->Some_0.Name, x[j]->Some_0.Name)); assert(p.contains_key(x[j]->Some_0.Name)); } }
  }
}
pub proof fn as_map_wf(x: Seq<Option<Rule>>) requires k_list(x, x.len() as int), ensures wf_map(as_map(x, x.len() as int)),
{
  let n = x.len() as int; let m = as_map(x, n);
  k_list_is(x, n); as_map_is(x, n);
  assert forall|k: Seq<int>, l: Seq<int>| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && feq(m[k]->Some_0.Name, m[l]->Some_0.Name) implies k == l by {
    let i = choose|j: int| 0 <= j < n && (#[trigger] x[j])->Some_0.Name == k && m[k] == x[j]; let j = choose|j: int| 0 <= j < n && (#[trigger] x[j])->Some_0.Name == l && m[l] == x[j];
    if i < j { assert(!feq(x[j]->Some_0.Name, x[i]->Some_0.Name)); } else if j < i { assert(!feq(x[i]->Some_0.Name, x[j]->Some_0.Name)); }
  }
}
pub proof fn find_in(x: Seq<Option<Rule>>, n: Seq<int>) requires k_list(x, x.len() as int), ensures k_find(x, n, x.len() as int) == resolve_in(as_map(x, x.len() as int), n), k_find(x, n, x.len() as int) is Some <==> defines(as_map(x, x.len() as int), n),
{
  let l = x.len() as int; let m = as_map(x, l);
  k_list_is(x, l); as_map_is(x, l); as_map_wf(x); k_find_is(x, n, l);
  if k_find(x, n, l) is Some { let j = choose|j: int| 0 <= j < l && #[trigger] x[j] == k_find(x, n, l) && feq(n, x[j]->Some_0.Name); assert(def_in(m, n, x[j]->Some_0.Name)); resolve_unique(m, n, x[j]->Some_0.Name); }
  else if defines(m, n) { let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < l && (#[trigger] x[j])->Some_0.Name == k && m[k] == x[j]; assert(!feq(n, x[j]->Some_0.Name)); assert(false); }
}
// ---- the tables of the package ----
pub open spec fn cores() -> Seq<Option<Rule>> { seq![g_alpha(), g_bit(), g_char(), g_cr(), g_crlf(), g_ctl(), g_digit(), g_dquote(), g_hexdig(), g_htab(), g_lf(), g_lwsp(), g_octet(), g_sp(), g_vchar(), g_wsp()] }
pub open spec fn metas() -> Seq<Option<Rule>> { seq![g_abnfRulelist(), g_abnfRule(), g_abnfRulename(), g_abnfDefinedAs(), g_abnfElements(), g_abnfCWsp(), g_abnfCNl(), g_abnfComment(), g_abnfAlternation(), g_abnfConcatenation(), g_abnfRepetition(), g_abnfRepeat(), g_abnfElement(), g_abnfGroup(), g_abnfOption(), g_abnfCharVal(), g_abnfCaseInsensitiveString(), g_abnfCaseSensitiveString(), g_abnfQuotedString(), g_abnfNumVal(), g_abnfBinVal(), g_abnfDecVal(), g_abnfHexVal(), g_abnfProseVal()] }
pub open spec fn abnf_rm() -> RM { g_ABNF()->Some_0.Rulemap }
pub proof fn core_is() ensures wf_map(g_coreRules()), g_coreRules() =~= as_map(cores(), 16), cores().len() == 16, k_list(cores(), 16),
{
  assert(k_list(cores(), 16)) by (compute_only);
  reveal(g_coreRules); reveal_with_fuel(as_map, 17);
  as_map_wf(cores());
}
pub proof fn meta_is() ensures g_ABNF() is Some, wf_map(abnf_rm()), abnf_rm() =~= as_map(metas(), 24), metas().len() == 24, k_list(metas(), 24),
{
  assert(k_list(metas(), 24)) by (compute_only);
  reveal(g_ABNF); reveal_with_fuel(as_map, 25);
  as_map_wf(metas());
}
// where a name of the meta grammar leads, evaluated
pub open spec fn k_res(n: Seq<int>) -> Option<Rule> { let r = k_find(metas(), n, 24); if r is Some { r } else { k_find(cores(), n, 16) } }
pub proof fn k_res_is(n: Seq<int>) ensures resolve(abnf_rm(), n) == k_res(n) { core_is(); meta_is(); find_in(metas(), n); find_in(cores(), n); }
