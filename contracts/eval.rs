// ---- eval.rs: what the nodes of an ABNF text are worth ----
pub open spec fn go_concat<T>(x: Seq<Seq<T>>) -> Seq<T> decreases x.len() { if x.len() == 0 { Seq::empty() } else { go_concat(x.drop_last()) + x.last() } }
pub proof fn concat_two<T>(a: Seq<T>, b: Seq<T>) ensures go_concat(seq![a, b]) == a + b,
{ let x = seq![a, b]; assert(x.drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= Seq::<Seq<T>>::empty()); assert(seq![a].last() == a); assert(go_concat(seq![a].drop_last()) =~= Seq::<T>::empty()); assert(go_concat(seq![a]) =~= a); assert(x.last() == b); assert(go_concat(x) =~= a + b); }
pub open spec fn all_some(ts: TS) -> bool { forall|j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]) is Some }
pub open spec fn is_node(inp: Seq<int>, t: Option<ParseTree>, n: Seq<int>) -> bool { node_ok(inp, t) && t->Some_0.Rule == n }
pub proof fn kids_some(inp: Seq<int>, t: ParseTree) requires node_ok(inp, Some(t)), ensures kids_ok(inp, t.Children), all_some(t.Children),
{ node_kids(inp, t); assert forall|j: int| 0 <= j < t.Children.len() implies (#[trigger] t.Children[j]) is Some by { assert(kid_ok(inp, t.Children[j])); } }
pub proof fn must_kid(inp: Seq<int>, t: ParseTree, rl: Option<Rule>, x: Seq<int>) requires node_ok(inp, Some(t)), k_res(t.Rule) == rl, rl is Some, x.len() > 0, m_alt(rl->Some_0.Alternation, seq![x], rl->Some_0.Alternation.Concatenations.len() as int), ensures is_node(inp, kid(t.Children, seq![x]), x),
{ kids_some(inp, t); node_must(inp, t, rl, seq![x]); kid_shown(t.Children, seq![x]); kid_one(inp, t.Children, x); }
pub proof fn num_nonneg(s: Seq<int>) requires digits_ok(s, 10), ensures num(s, 10) >= 0, decreases s.len(), { if s.len() > 0 { assert(digits_ok(s.drop_last(), 10)) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies 0 <= digit(#[trigger] s.drop_last()[i]) < 10 by { assert(s.drop_last()[i] == s[i]); } } num_nonneg(s.drop_last()); assert(0 <= digit(s[s.len() - 1])); } }
pub proof fn digs_ok(w: Seq<int>, a: int, b: int) requires 0 <= a <= b <= w.len(), digs(w, a, b), ensures digits_ok(w.subrange(a, b), 10), num(w.subrange(a, b), 10) >= 0, at_none(w, a, b),
{ let u = w.subrange(a, b); assert forall|i: int| 0 <= i < u.len() implies 0 <= digit(#[trigger] u[i]) < 10 by { assert(k_dig(w[a + i])); } num_nonneg(u); assert forall|i: int| a <= i < b implies #[trigger] w[i] != 0x2A by { assert(k_dig(w[i])); } }
pub open spec fn at_none(w: Seq<int>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] w[i] != 0x2A }
// words
pub proof fn r_name(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_rulename()), ensures name_ok(text_of(inp, t)), ascii(text_of(inp, t)),
{ places(); words(); node_word(inp, t, g_abnfRulename(), 0, 3, seq![1int]); to_word(0, inp, t); let w = text_of(inp, t); f_name(w, w.len() as int); has_is(seq![1int], run(0, 0, w, 0, w.len() as int)); assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] <= 127 by { assert(name_char(w[i])); } }
pub open spec fn rep_word(w: Seq<int>) -> bool { let s = at_first(w, 0x2A, 0); w.len() > 0 && 0 <= s <= w.len() && digits_ok(w.subrange(0, s), 10) && (s < w.len() ==> digits_ok(w.subrange(s + 1, w.len() as int), 10)) && den_min(w) >= 0 && (den_max(w) == -1 || den_max(w) >= 0) }
pub proof fn r_repeat(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_repeat()), ensures rep_word(text_of(inp, t)),
{
  places(); words(); node_word(inp, t, g_abnfRepeat(), 1, 3, seq![1int, 2]); to_word(1, inp, t); let w = text_of(inp, t); let n = w.len() as int; f_repeat(w, n); has_is(seq![1int, 2], run(1, 0, w, 0, n)); let q = run(1, 0, w, 0, n); assert(q == 1 || q == 2);
  at_first_is(w, 0x2A, 0); let s = at_first(w, 0x2A, 0);
  if q == 1 { digs_ok(w, 0, n); if s < n { assert(w[s] == 0x2A); assert(false); } assert(w.subrange(0, n) =~= w); }
  else { let p = choose|p: int| 0 <= p < n && #[trigger] w[p] == 0x2A && digs(w, 0, p) && digs(w, p + 1, n); digs_ok(w, 0, p); digs_ok(w, p + 1, n); if s < p { assert(w[s] == 0x2A); assert(false); } if p < s { assert(w[p] != 0x2A); assert(false); } assert(s == p); }
}
pub open spec fn char_word(w: Seq<int>) -> bool { let o = cv_at(w); w.len() >= o + 2 && w[o] == 0x22 && w[w.len() - 1] == 0x22 && (w[0] != 0x25 ==> w[0] == 0x22) && (forall|i: int| o < i < w.len() - 1 ==> quoted(#[trigger] w[i])) }
pub proof fn r_char(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_char_val()), ensures char_word(text_of(inp, t)), wf_el(ElemItf::ElemCharVal(den_char(text_of(inp, t)))),
{
  places(); words(); node_word(inp, t, g_abnfCharVal(), 2, 6, seq![6int, 7]); to_word(2, inp, t); let w = text_of(inp, t); let n = w.len() as int; f_char(w, n); has_is(seq![6int, 7], run(2, 0, w, 0, n)); let q = run(2, 0, w, 0, n); assert(q == 6 || q == 7);
  let v = den_char(w).Values; assert forall|k: int| 0 <= k < v.len() implies is_scalar(#[trigger] v[k]) && v[k] != 0x22 by { assert(quoted(w[k + cv_at(w) + 1])); }
}
pub open spec fn num_word(w: Seq<int>) -> bool { w.len() >= 2 && w[0] == 0x25 && (w[1] == 0x62 || w[1] == 0x42 || w[1] == 0x78 || w[1] == 0x58 || w[1] == 0x64 || w[1] == 0x44) }
pub proof fn r_num(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_num_val()), ensures text_of(inp, t).len() >= 2, text_of(inp, t)[0] == 0x25, wf_el(ElemItf::ElemNumVal(den_num(text_of(inp, t)))),
{
  let fin = seq![201int, 203, 205, 1001, 1003, 1005, 1601, 1603, 1605];
  places(); words(); node_word(inp, t, g_abnfNumVal(), 3, 4, fin); to_word(3, inp, t); let w = text_of(inp, t); let n = w.len() as int; f_num(w, n); has_is(fin, run(3, 0, w, 0, n)); let q = run(3, 0, w, 0, n); let i = choose|i: int| 0 <= i < fin.len() && #[trigger] fin[i] == q; 
  assert(q == 201 || q == 203 || q == 205 || q == 1001 || q == 1003 || q == 1005 || q == 1601 || q == 1603 || q == 1605);
  assert(nv_facts(w, n, q)); let b = q / 100; let s = q % 100; assert(s == 1 || s == 3 || s == 5); let r = w.subrange(2, n); at_first_is(r, 0x2D, 0);
  let x = den_num(w); assert(seq![0x62int][0] == 0x62 && seq![0x42int][0] == 0x42 && seq![0x78int][0] == 0x78 && seq![0x58int][0] == 0x58 && seq![0x64int][0] == 0x64 && seq![0x44int][0] == 0x44); assert(radix(x.Base) == b);
  if s >= 4 { let j = choose|j: int| 0 <= j < r.len() && #[trigger] r[j] == 0x2D; if at_first(r, 0x2D, 0) >= r.len() { assert(r[j] != 0x2D); } assert(x.Status == 1); }
  else { if at_first(r, 0x2D, 0) < r.len() { assert(r[at_first(r, 0x2D, 0)] != 0x2D); } assert(x.Status == 0); }
  assert(all_num(x.Elems, b, false));
  assert forall|k: int| 0 <= k < x.Elems.len() implies nv_ok(#[trigger] x.Elems[k], x.Base) by { if k < x.Elems.len() - 1 { assert(x.Elems[k].len() > 0); } else { assert(x.Elems.last() == x.Elems[k]); } assert(digits_ok(x.Elems[k], b)); }
}
pub open spec fn prose_word(w: Seq<int>) -> bool { w.len() >= 2 && (forall|i: int| 1 <= i < w.len() - 1 ==> 0x20 <= #[trigger] w[i] <= 0x7E && w[i] != 0x3E) }
pub proof fn r_prose(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_prose_val()), ensures prose_word(text_of(inp, t)), wf_el(ElemItf::ElemProseVal(den_prose(text_of(inp, t)))),
{
  places(); words(); node_word(inp, t, g_abnfProseVal(), 4, 3, seq![2int]); to_word(4, inp, t); let w = text_of(inp, t); let n = w.len() as int; f_prose(w, n); has_is(seq![2int], run(4, 0, w, 0, n)); assert(run(4, 0, w, 0, n) == 2);
  let x = den_prose(w); assert forall|k: int| 0 <= k < x.values.len() implies (#[trigger] x.values[k]).len() == 1 && x.values[k][0] != 0x3E by { assert(w[k + 1] != 0x3E); }
}
// nodes
pub proof fn x_repetition(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_repetition()), ensures kids_ok(inp, t.Children), all_some(t.Children), is_node(inp, kid(t.Children, seq![n_element()]), n_element()), kid(t.Children, seq![n_repeat()]) is Some ==> is_node(inp, kid(t.Children, seq![n_repeat()]), n_repeat()),
{ places(); shapes(); kids_some(inp, t); must_kid(inp, t, g_abnfRepetition(), n_element()); if kid(t.Children, seq![n_repeat()]) is Some { kid_one(inp, t.Children, n_repeat()); } }
pub proof fn x_element(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_element()), ensures kids_ok(inp, t.Children), all_some(t.Children), kid(t.Children, n_elems()) is Some, ({ let c = kid(t.Children, n_elems())->Some_0; is_node(inp, Some(c), n_rulename()) || is_node(inp, Some(c), n_group()) || is_node(inp, Some(c), n_option()) || is_node(inp, Some(c), n_char_val()) || is_node(inp, Some(c), n_num_val()) || is_node(inp, Some(c), n_prose_val()) }),
{
  places(); shapes(); kids_some(inp, t); node_must(inp, t, g_abnfElement(), n_elems()); kid_shown(t.Children, n_elems()); let f = first(t.Children, n_elems(), 0); let c = t.Children[f]; assert(kid_ok(inp, c)); let x = n_elems(); let i = choose|i: int| 0 <= i < x.len() && x[i] == c->Some_0.Rule; assert(x.len() == 6);
  assert(x[0] == n_rulename() && x[1] == n_group() && x[2] == n_option() && x[3] == n_char_val() && x[4] == n_num_val() && x[5] == n_prose_val()); assert(c->Some_0.Rule.len() > 0);
}
pub proof fn x_sub(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_group()) || is_node(inp, Some(t), n_option()) || is_node(inp, Some(t), n_elements()), ensures all_some(t.Children), is_node(inp, kid(t.Children, seq![n_alternation()]), n_alternation()),
{ places(); shapes(); kids_some(inp, t); if t.Rule == n_group() { must_kid(inp, t, g_abnfGroup(), n_alternation()); } else if t.Rule == n_option() { must_kid(inp, t, g_abnfOption(), n_alternation()); } else { must_kid(inp, t, g_abnfElements(), n_alternation()); } }
pub open spec fn all_nodes(inp: Seq<int>, l: TS, x: Seq<int>) -> bool { forall|i: int| 0 <= i < l.len() ==> is_node(inp, #[trigger] l[i], x) }
pub proof fn x_list(inp: Seq<int>, t: ParseTree, x: Seq<int>) requires node_ok(inp, Some(t)), x.len() > 0, ensures all_some(t.Children), all_nodes(inp, named(t.Children, x, t.Children.len() as int), x),
{ kids_some(inp, t); named_is(inp, t.Children, x, t.Children.len() as int); }
pub proof fn x_alternation(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_alternation()), ensures all_some(t.Children), ({ let l = named(t.Children, n_concatenation(), t.Children.len() as int); l.len() > 0 && all_nodes(inp, l, n_concatenation()) && den_alt(inp, t).Concatenations.len() == l.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] den_alt(inp, t).Concatenations[i] == den_cat(inp, l[i]->Some_0)) }),
{ places(); shapes(); x_list(inp, t, n_concatenation()); node_must(inp, t, g_abnfAlternation(), seq![n_concatenation()]); named_must(t.Children, n_concatenation()); den_cats_is(inp, t, t.Children.len() as int); }
pub proof fn x_concatenation(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_concatenation()), ensures all_some(t.Children), ({ let l = named(t.Children, n_repetition(), t.Children.len() as int); l.len() > 0 && all_nodes(inp, l, n_repetition()) && den_cat(inp, t).Repetitions.len() == l.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] den_cat(inp, t).Repetitions[i] == den_rep(inp, l[i]->Some_0)) }),
{ places(); shapes(); x_list(inp, t, n_repetition()); node_must(inp, t, g_abnfConcatenation(), seq![n_repetition()]); named_must(t.Children, n_repetition()); den_reps_is(inp, t, t.Children.len() as int); }
pub proof fn x_rule(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_rule()), ensures all_some(t.Children), is_node(inp, kid(t.Children, seq![n_rulename()]), n_rulename()), is_node(inp, kid(t.Children, seq![n_defined_as()]), n_defined_as()), is_node(inp, kid(t.Children, seq![n_elements()]), n_elements()),
{ places(); shapes(); kids_some(inp, t); must_kid(inp, t, g_abnfRule(), n_rulename()); must_kid(inp, t, g_abnfRule(), n_defined_as()); must_kid(inp, t, g_abnfRule(), n_elements()); }
pub open spec fn e_none() -> Seq<int> { Seq::empty() }
pub proof fn x_op(inp: Seq<int>, t: ParseTree) requires is_node(inp, Some(t), n_defined_as()), ensures all_some(t.Children), kid(t.Children, seq![e_none()]) is Some, ({ let c = kid(t.Children, seq![e_none()])->Some_0; 0 <= c.Start <= c.End <= inp.len() && (text_of(inp, c) == seq![0x3Dint] || text_of(inp, c) == seq![0x3Dint, 0x2F]) }),
{
  places(); shapes(); kids_some(inp, t); let x = seq![e_none()]; assert(x == seq![Seq::<int>::empty()]); node_must(inp, t, g_abnfDefinedAs(), x); kid_shown(t.Children, x); node_leaves(inp, t, g_abnfDefinedAs(), 5, seq![1int, 2]);
  let f = first(t.Children, x, 0); let c = t.Children[f]; assert(kid_ok(inp, c)); one_name(e_none(), c->Some_0.Rule); assert(c->Some_0.Rule.len() == 0); let w = text_of(inp, c->Some_0); to_word(5, inp, c->Some_0); f_op(w, w.len() as int); let q = run(5, 0, w, 0, w.len() as int); has_is(seq![1int, 2], q); assert(q == 1 || q == 2);
  if q == 1 { assert(w =~= seq![0x3Dint]); } else { assert(w =~= seq![0x3Dint, 0x2F]); }
}
pub proof fn wf_alt_from(a: Alternation) ensures a.Concatenations.len() >= 1 && (forall|i: int| 0 <= i < a.Concatenations.len() ==> wf_cat(#[trigger] a.Concatenations[i]) && a.Concatenations[i].Repetitions.len() >= 1) ==> wf_alt(a),
{
  if a.Concatenations.len() >= 1 && (forall|i: int| 0 <= i < a.Concatenations.len() ==> wf_cat(#[trigger] a.Concatenations[i]) && a.Concatenations[i].Repetitions.len() >= 1) {
    assert forall|i: int, j: int| in_alt_ix(a, i, j) implies ({ let r = #[trigger] a.Concatenations[i].Repetitions[j]; r.Min >= 0 && (r.Max == -1 || r.Max >= 0) && wf_el(r.Element) }) by { assert(wf_cat(a.Concatenations[i])); assert(wf_rep(a.Concatenations[i].Repetitions[j])); }
    assert forall|i: int| 0 <= i < a.Concatenations.len() implies (#[trigger] a.Concatenations[i]).Repetitions.len() >= 1 by { assert(wf_cat(a.Concatenations[i])); }
  }
}
// one rule after the other
pub open spec fn keyed(m: RM) -> bool { forall|k: Seq<int>| #[trigger] m.contains_key(k) ==> m[k] is Some && m[k]->Some_0.Name == k }
pub proof fn name_ascii(n: Seq<int>) requires name_ok(n), ensures ascii(n), { assert forall|i: int| 0 <= i < n.len() implies 0 <= #[trigger] n[i] <= 127 by { assert(name_char(n[i])); } }
pub proof fn put_rule(m: RM, r: Rule) requires wf_map(m), keyed(m), name_ok(r.Name), wf_alt(r.Alternation), !defines(m, r.Name) || m.contains_key(r.Name), ensures wf_map(m.insert(r.Name, Some(r))), keyed(m.insert(r.Name, Some(r))),
{
  let z = m.insert(r.Name, Some(r)); name_ascii(r.Name);
  assert forall|k: Seq<int>| #[trigger] z.contains_key(k) implies z[k] is Some && z[k]->Some_0.Name == k && ascii(k) && feq(k, z[k]->Some_0.Name) && name_ok(z[k]->Some_0.Name) && wf_alt(z[k]->Some_0.Alternation) by { if k != r.Name { assert(m.contains_key(k)); } }
  assert forall|k: Seq<int>, l: Seq<int>| #[trigger] z.contains_key(k) && #[trigger] z.contains_key(l) && feq(z[k]->Some_0.Name, z[l]->Some_0.Name) implies k == l by {
    assert(z[k]->Some_0.Name == k && z[l]->Some_0.Name == l);
    if k != l { if k != r.Name { assert(m.contains_key(k)); if l == r.Name { assert(def_in(m, r.Name, k)); assert(m.contains_key(r.Name)); } else { assert(m.contains_key(l)); } } else { assert(m.contains_key(l)); assert(def_in(m, r.Name, l)); assert(m.contains_key(r.Name)); } }
  }
}
pub proof fn wf_join(a: Alternation, b: Alternation) requires wf_alt(a), wf_alt(b), ensures wf_alt(Alternation { Concatenations: a.Concatenations + b.Concatenations }),
{
  let z = Alternation { Concatenations: a.Concatenations + b.Concatenations }; wf_cats(a); wf_cats(b);
  assert forall|i: int| 0 <= i < z.Concatenations.len() implies wf_cat(#[trigger] z.Concatenations[i]) && z.Concatenations[i].Repetitions.len() >= 1 by { if i < a.Concatenations.len() { assert(z.Concatenations[i] == a.Concatenations[i]); assert(wf_cat(a.Concatenations[i])); } else { assert(z.Concatenations[i] == b.Concatenations[i - a.Concatenations.len()]); assert(wf_cat(b.Concatenations[i - a.Concatenations.len()])); } }
  wf_alt_from(z);
}
pub proof fn put_step(inp: Seq<int>, m: RM, c: ParseTree, redef: bool) requires wf_map(m), keyed(m), name_ok(den_rule(inp, c).Name), wf_alt(den_rule(inp, c).Alternation), ensures den_step(inp, m, c, redef) is Ok ==> wf_map(den_step(inp, m, c, redef)->Ok_0) && keyed(den_step(inp, m, c, redef)->Ok_0),
{
  let rl = den_rule(inp, c); core_is();
  if den_step(inp, m, c, redef) is Ok {
    if den_op(inp, c) =~= seq![0x3Dint] { put_rule(m, rl); }
    else {
      let x = resolve(m, rl.Name)->Some_0; let q = if defines(m, rl.Name) { m } else { g_coreRules() }; let k = choose|k: Seq<int>| #[trigger] def_in(q, rl.Name, k); resolve_unique(q, rl.Name, k); assert(q.contains_key(k)); assert(x == q[k]->Some_0);
      let y = Rule { Name: x.Name, Alternation: Alternation { Concatenations: x.Alternation.Concatenations + rl.Alternation.Concatenations } }; wf_join(x.Alternation, rl.Alternation);
      if defines(m, rl.Name) { assert(x.Name == k); } else if defines(m, x.Name) { let l = choose|l: Seq<int>| #[trigger] def_in(m, x.Name, l); assert(def_in(m, rl.Name, l)); assert(false); }
      put_rule(m, y);
    }
  }
}
pub proof fn none_defines(m: RM, n: Seq<int>) ensures !defines(Map::empty(), n), defines(g_coreRules(), n) <==> resolve(Map::empty(), n) is Some, wf_map(Map::empty()),
{ core_is(); if defines(g_coreRules(), n) { let k = choose|k: Seq<int>| #[trigger] def_in(g_coreRules(), n, k); resolve_unique(g_coreRules(), n, k); } }
