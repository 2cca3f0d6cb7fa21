// ---- den.rs: the grammar an ABNF text denotes, read off its derivation tree ----
pub open spec fn text_of(inp: Seq<int>, t: ParseTree) -> Seq<int> { inp.subrange(t.Start, t.End) }
// the first child at or after i whose name is in x (the number of children if there is none)
pub open spec fn first(ts: TS, x: Seq<Seq<int>>, i: int) -> int decreases ts.len() - i { if i < 0 || i >= ts.len() { ts.len() as int } else if ts[i] is Some && x.contains(ts[i]->Some_0.Rule) { i } else { first(ts, x, i + 1) } }
pub open spec fn kid(ts: TS, x: Seq<Seq<int>>) -> Option<ParseTree> { if first(ts, x, 0) < ts.len() { ts[first(ts, x, 0)] } else { None } }
// the children with a name, in order
pub open spec fn named(ts: TS, x: Seq<int>, n: int) -> TS decreases n { if n <= 0 { Seq::empty() } else { let p = named(ts, x, n - 1); if ts[n - 1] is Some && ts[n - 1]->Some_0.Rule == x { p.push(ts[n - 1]) } else { p } } }
// the position of the first c at or after i
pub open spec fn at_first(w: Seq<int>, c: int, i: int) -> int decreases w.len() - i { if i < 0 || i >= w.len() { w.len() as int } else if w[i] == c { i } else { at_first(w, c, i + 1) } }
// the pieces between the occurrences of c
pub open spec fn pieces(w: Seq<int>, c: int) -> Seq<Seq<int>> decreases w.len() { if w.len() == 0 { seq![Seq::<int>::empty()] } else { let p = pieces(w.drop_last(), c); if w.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(w.last())) } } }
// a decimal count, saturating at the largest int
pub open spec fn count_of(w: Seq<int>) -> int { go_min(num(w, 10), 0x7FFF_FFFF_FFFF_FFFF) }
// repeat: <n> means exactly n, <a>*<b> at least a (default 0) and at most b (default no limit, -1)
pub open spec fn den_min(w: Seq<int>) -> int { let s = at_first(w, 0x2A, 0); if s == w.len() { count_of(w) } else if s == 0 { 0 } else { count_of(w.subrange(0, s)) } }
pub open spec fn den_max(w: Seq<int>) -> int { let s = at_first(w, 0x2A, 0); if s == w.len() { count_of(w) } else if s == w.len() - 1 { -1 } else { count_of(w.subrange(s + 1, w.len() as int)) } }
// char-val: "..." and %i"..." ignore case, %s"..." does not
pub open spec fn den_char(w: Seq<int>) -> ElemCharVal { let p = w.len() > 0 && w[0] == 0x25; ElemCharVal { Sensitive: p && (w[1] == 0x73 || w[1] == 0x53), Values: w.subrange(if p { 3int } else { 1 }, w.len() - 1) } }
// num-val: base letter, then numbers separated by dots, or two of them separated by a dash
pub open spec fn den_num(w: Seq<int>) -> ElemNumVal {
  let r = w.subrange(2, w.len() as int); let range = at_first(r, 0x2D, 0) < r.len();
  ElemNumVal { Base: if w[1] == 0x62 || w[1] == 0x42 { seq![0x62int] } else if w[1] == 0x78 || w[1] == 0x58 { seq![0x78int] } else { seq![0x64int] }, Status: if range { 1 } else { 0 }, Elems: pieces(r, if range { 0x2D } else { 0x2E }) }
}
pub open spec fn den_prose(w: Seq<int>) -> ElemProseVal { ElemProseVal { values: Seq::new((w.len() - 2) as nat, |i: int| seq![w[i + 1]]) } }
pub open spec fn no_alt() -> Alternation { Alternation { Concatenations: Seq::empty() } }
pub open spec fn den_alt(inp: Seq<int>, t: ParseTree) -> Alternation decreases t, 1int, 0int { Alternation { Concatenations: den_cats(inp, t, t.Children.len() as int) } }
pub open spec fn den_cats(inp: Seq<int>, t: ParseTree, n: int) -> Seq<Concatenation> decreases t, 0int, n {
  if n <= 0 || n > t.Children.len() { Seq::empty() } else { let p = den_cats(inp, t, n - 1); let c = t.Children[n - 1]; if c is Some && c->Some_0.Rule == n_concatenation() { p.push(den_cat(inp, c->Some_0)) } else { p } }
}
pub open spec fn den_cat(inp: Seq<int>, t: ParseTree) -> Concatenation decreases t, 1int, 0int { Concatenation { Repetitions: den_reps(inp, t, t.Children.len() as int) } }
pub open spec fn den_reps(inp: Seq<int>, t: ParseTree, n: int) -> Seq<Repetition> decreases t, 0int, n {
  if n <= 0 || n > t.Children.len() { Seq::empty() } else { let p = den_reps(inp, t, n - 1); let c = t.Children[n - 1]; if c is Some && c->Some_0.Rule == n_repetition() { p.push(den_rep(inp, c->Some_0)) } else { p } }
}
pub open spec fn den_rep(inp: Seq<int>, t: ParseTree) -> Repetition decreases t, 1int, 0int {
  let k = kid(t.Children, seq![n_repeat()]); let j = first(t.Children, seq![n_element()], 0);
  Repetition { Min: if k is Some { den_min(text_of(inp, k->Some_0)) } else { 1 }, Max: if k is Some { den_max(text_of(inp, k->Some_0)) } else { 1 }, Element: if 0 <= j < t.Children.len() && t.Children[j] is Some { den_el(inp, t.Children[j]->Some_0) } else { ElemItf::Nil } }
}
pub open spec fn den_el(inp: Seq<int>, t: ParseTree) -> ElemItf decreases t, 1int, 0int {
  let j = first(t.Children, n_elems(), 0);
  if 0 <= j < t.Children.len() && t.Children[j] is Some {
    let c = t.Children[j]->Some_0; let i = first(c.Children, seq![n_alternation()], 0);
    let sub = if 0 <= i < c.Children.len() && c.Children[i] is Some { den_alt(inp, c.Children[i]->Some_0) } else { no_alt() };
    if c.Rule == n_rulename() { ElemItf::ElemRulename(ElemRulename { Name: text_of(inp, c) }) }
    else if c.Rule == n_group() { ElemItf::ElemGroup(ElemGroup { Alternation: sub }) }
    else if c.Rule == n_option() { ElemItf::ElemOption(ElemOption { Alternation: sub }) }
    else if c.Rule == n_char_val() { ElemItf::ElemCharVal(den_char(text_of(inp, c))) }
    else if c.Rule == n_num_val() { ElemItf::ElemNumVal(den_num(text_of(inp, c))) }
    else { ElemItf::ElemProseVal(den_prose(text_of(inp, c))) }
  } else { ElemItf::Nil }
}
pub open spec fn den_rule(inp: Seq<int>, t: ParseTree) -> Rule {
  let n = kid(t.Children, seq![n_rulename()])->Some_0; let e = kid(t.Children, seq![n_elements()])->Some_0;
  Rule { Name: text_of(inp, n), Alternation: den_alt(inp, kid(e.Children, seq![n_alternation()])->Some_0) }
}
pub open spec fn den_op(inp: Seq<int>, t: ParseTree) -> Seq<int> { text_of(inp, kid(kid(t.Children, seq![n_defined_as()])->Some_0.Children, seq![Seq::<int>::empty()])->Some_0) }
// ---- the rules, one after the other ----
pub enum Den { Ok(RM), Bad(GoErr) }
pub open spec fn den_step(inp: Seq<int>, m: RM, c: ParseTree, redef: bool) -> Den {
  let rl = den_rule(inp, c);
  if defines(g_coreRules(), rl.Name) && !redef { Den::Bad(GoErr::ErrCoreRuleModify(ErrCoreRuleModify { CoreRulename: rl.Name })) }
  else if den_op(inp, c) =~= seq![0x3Dint] {
    if defines(m, rl.Name) { Den::Bad(GoErr::ErrDuplicatedRule(ErrDuplicatedRule { Rulename: rl.Name })) } else { Den::Ok(m.insert(rl.Name, Some(rl))) }
  } else {
    match resolve(m, rl.Name) {
      None => Den::Bad(GoErr::ErrRuleNotFound(ErrRuleNotFound { Rulename: rl.Name })),
      Some(x) => Den::Ok(m.insert(x.Name, Some(Rule { Name: x.Name, Alternation: Alternation { Concatenations: x.Alternation.Concatenations + rl.Alternation.Concatenations } }))),
    }
  }
}
pub open spec fn den_rules(inp: Seq<int>, l: TS, n: int, redef: bool) -> Den decreases n {
  if n <= 0 { Den::Ok(Map::empty()) } else { match den_rules(inp, l, n - 1, redef) { Den::Bad(e) => Den::Bad(e), Den::Ok(m) => den_step(inp, m, l[n - 1]->Some_0, redef) } }
}
pub open spec fn den_list(inp: Seq<int>, t: ParseTree, redef: bool) -> Den { let l = named(t.Children, n_rule(), t.Children.len() as int); den_rules(inp, l, l.len() as int, redef) }
pub proof fn den_bad(inp: Seq<int>, l: TS, n: int, m: int, redef: bool) requires 0 <= n <= m, den_rules(inp, l, n, redef) is Bad, ensures den_rules(inp, l, m, redef) == den_rules(inp, l, n, redef), decreases m, { if n < m { den_bad(inp, l, n, m - 1, redef); } }
// ---- facts about first, named, pieces ----
pub proof fn first_is(ts: TS, x: Seq<Seq<int>>, i: int) requires 0 <= i <= ts.len(),
  ensures i <= first(ts, x, i) <= ts.len(), first(ts, x, i) < ts.len() ==> ts[first(ts, x, i)] is Some && x.contains(ts[first(ts, x, i)]->Some_0.Rule), forall|j: int| i <= j < first(ts, x, i) ==> !((#[trigger] ts[j]) is Some && x.contains(ts[j]->Some_0.Rule)), decreases ts.len() - i,
{ if i < ts.len() && !(ts[i] is Some && x.contains(ts[i]->Some_0.Rule)) { first_is(ts, x, i + 1); } }
pub proof fn first_at(ts: TS, x: Seq<Seq<int>>, i: int) requires 0 <= i < ts.len(), ts[i] is Some, x.contains(ts[i]->Some_0.Rule), forall|j: int| 0 <= j < i ==> !((#[trigger] ts[j]) is Some && x.contains(ts[j]->Some_0.Rule)), ensures first(ts, x, 0) == i,
{ first_is(ts, x, 0); let f = first(ts, x, 0); if f < i { assert(ts[f] is Some); } else if f > i { assert(ts[i] is Some); } }
pub proof fn kid_shown(ts: TS, x: Seq<Seq<int>>) requires shown_in(x, ts), ensures kid(ts, x) is Some, x.contains(kid(ts, x)->Some_0.Rule), 0 <= first(ts, x, 0) < ts.len(), kid(ts, x) == ts[first(ts, x, 0)],
{ first_is(ts, x, 0); let j = choose|j: int| 0 <= j < ts.len() && #[trigger] ts[j] is Some && x.contains(ts[j]->Some_0.Rule); assert(ts[j] is Some); }
pub proof fn one_name(x: Seq<int>, y: Seq<int>) ensures seq![x].contains(y) <==> x == y, { if x == y { assert(seq![x][0] == y); } }
pub proof fn kid_one(inp: Seq<int>, ts: TS, x: Seq<int>) requires kids_ok(inp, ts), x.len() > 0, kid(ts, seq![x]) is Some, ensures node_ok(inp, kid(ts, seq![x])), kid(ts, seq![x])->Some_0.Rule == x,
{ first_is(ts, seq![x], 0); let f = first(ts, seq![x], 0); one_name(x, ts[f]->Some_0.Rule); assert(kid_ok(inp, ts[f])); }
pub proof fn named_is(inp: Seq<int>, ts: TS, x: Seq<int>, n: int) requires 0 <= n <= ts.len(), x.len() > 0, kids_ok(inp, ts), ensures forall|i: int| 0 <= i < named(ts, x, n).len() ==> node_ok(inp, #[trigger] named(ts, x, n)[i]) && named(ts, x, n)[i]->Some_0.Rule == x, decreases n,
{ if n > 0 { named_is(inp, ts, x, n - 1); assert(kid_ok(inp, ts[n - 1])); } }
pub proof fn named_some(ts: TS, x: Seq<int>, n: int, j: int) requires 0 <= j < n <= ts.len(), ts[j] is Some, ts[j]->Some_0.Rule == x, ensures named(ts, x, n).len() > 0, decreases n, { if n - 1 > j { named_some(ts, x, n - 1, j); } }
pub proof fn named_must(ts: TS, x: Seq<int>) requires shown_in(seq![x], ts), ensures named(ts, x, ts.len() as int).len() > 0,
{ let j = choose|j: int| 0 <= j < ts.len() && #[trigger] ts[j] is Some && seq![x].contains(ts[j]->Some_0.Rule); one_name(x, ts[j]->Some_0.Rule); named_some(ts, x, ts.len() as int, j); }
pub proof fn den_cats_is(inp: Seq<int>, t: ParseTree, n: int) requires 0 <= n <= t.Children.len(),
  ensures den_cats(inp, t, n).len() == named(t.Children, n_concatenation(), n).len(), forall|i: int| 0 <= i < den_cats(inp, t, n).len() ==> #[trigger] den_cats(inp, t, n)[i] == den_cat(inp, named(t.Children, n_concatenation(), n)[i]->Some_0), decreases n, { if n > 0 { den_cats_is(inp, t, n - 1); } }
pub proof fn den_reps_is(inp: Seq<int>, t: ParseTree, n: int) requires 0 <= n <= t.Children.len(),
  ensures den_reps(inp, t, n).len() == named(t.Children, n_repetition(), n).len(), forall|i: int| 0 <= i < den_reps(inp, t, n).len() ==> #[trigger] den_reps(inp, t, n)[i] == den_rep(inp, named(t.Children, n_repetition(), n)[i]->Some_0), decreases n, { if n > 0 { den_reps_is(inp, t, n - 1); } }
pub proof fn at_first_is(w: Seq<int>, c: int, i: int) requires 0 <= i <= w.len(), ensures i <= at_first(w, c, i) <= w.len(), at_first(w, c, i) < w.len() ==> w[at_first(w, c, i)] == c, forall|j: int| i <= j < at_first(w, c, i) ==> #[trigger] w[j] != c, decreases w.len() - i, { if i < w.len() && w[i] != c { at_first_is(w, c, i + 1); } }
// ---- what the automata say about words ----
pub proof fn to_word(k: int, inp: Seq<int>, t: ParseTree) requires 0 <= t.Start <= t.End <= inp.len(), ensures run(k, 0, inp, t.Start, t.End) == run(k, 0, text_of(inp, t), 0, text_of(inp, t).len() as int), { run_same(k, 0, inp, t.Start, t.End, text_of(inp, t), 0); }
pub proof fn f_name(w: Seq<int>, n: int) requires 0 <= n <= w.len(), ensures run(0, 0, w, 0, n) == 0 ==> n == 0, run(0, 0, w, 0, n) == 1 ==> n > 0 && is_alpha(w[0]) && (forall|i: int| 0 <= i < n ==> name_char(#[trigger] w[i])), run(0, 0, w, 0, n) != -1, decreases n, { if n > 0 { f_name(w, n - 1); } }
pub open spec fn digs(w: Seq<int>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> k_dig(#[trigger] w[i]) }
pub proof fn f_repeat(w: Seq<int>, n: int) requires 0 <= n <= w.len(),
  ensures run(1, 0, w, 0, n) == 0 ==> n == 0, run(1, 0, w, 0, n) == 1 ==> n > 0 && digs(w, 0, n), run(1, 0, w, 0, n) == 2 ==> (exists|p: int| 0 <= p < n && #[trigger] w[p] == 0x2A && digs(w, 0, p) && digs(w, p + 1, n)), run(1, 0, w, 0, n) != -1, decreases n,
{ if n > 0 { f_repeat(w, n - 1); let q = run(1, 0, w, 0, n - 1); if run(1, 0, w, 0, n) == 2 { if q == 2 { let p = choose|p: int| 0 <= p < n - 1 && #[trigger] w[p] == 0x2A && digs(w, 0, p) && digs(w, p + 1, n - 1); assert(w[p] == 0x2A); } else { assert(w[n - 1] == 0x2A); } } } }
pub open spec fn quoted(c: int) -> bool { 0x20 <= c <= 0x7E && c != 0x22 }
pub open spec fn cv_at(w: Seq<int>) -> int { if w[0] == 0x25 { 2 } else { 0 } }
pub open spec fn cv_sens(w: Seq<int>) -> bool { w[0] == 0x25 && (w[1] == 0x73 || w[1] == 0x53) }
pub proof fn f_char(w: Seq<int>, n: int) requires 0 <= n <= w.len(),
  ensures ({ let q = run(2, 0, w, 0, n); let o = cv_at(w); q != -1 && (q == 0 ==> n == 0) && (q == 1 ==> n == 1 && w[0] == 0x25) && (q == 2 ==> n == 2 && w[0] == 0x25 && (w[1] == 0x73 || w[1] == 0x53)) && (q == 3 ==> n == 2 && w[0] == 0x25 && (w[1] == 0x69 || w[1] == 0x49))
    && (q == 4 || q == 5 ==> o < n && w[o] == 0x22 && (forall|i: int| o < i < n ==> quoted(#[trigger] w[i])) && (cv_sens(w) <==> q == 5)) && (q == 6 || q == 7 ==> o + 1 < n && w[o] == 0x22 && w[n - 1] == 0x22 && (forall|i: int| o < i < n - 1 ==> quoted(#[trigger] w[i])) && (cv_sens(w) <==> q == 7)) && (q == 2 || q == 3 || q == 5 || q == 7 ==> w[0] == 0x25) }), decreases n,
{ if n > 0 { f_char(w, n - 1); } }
pub proof fn f_prose(w: Seq<int>, n: int) requires 0 <= n <= w.len(),
  ensures run(4, 0, w, 0, n) != -1, run(4, 0, w, 0, n) == 0 ==> n == 0, run(4, 0, w, 0, n) == 1 ==> n >= 1 && w[0] == 0x3C && (forall|i: int| 1 <= i < n ==> 0x20 <= #[trigger] w[i] <= 0x7E && w[i] != 0x3E), run(4, 0, w, 0, n) == 2 ==> n >= 2 && w[0] == 0x3C && w[n - 1] == 0x3E && (forall|i: int| 1 <= i < n - 1 ==> 0x20 <= #[trigger] w[i] <= 0x7E && w[i] != 0x3E), decreases n,
{ if n > 0 { f_prose(w, n - 1); } }
pub proof fn f_op(w: Seq<int>, n: int) requires 0 <= n <= w.len(), ensures run(5, 0, w, 0, n) != -1, run(5, 0, w, 0, n) == 0 ==> n == 0, run(5, 0, w, 0, n) == 1 ==> n == 1 && w[0] == 0x3D, run(5, 0, w, 0, n) == 2 ==> n == 2 && w[0] == 0x3D && w[1] == 0x2F, decreases n, { if n > 0 { f_op(w, n - 1); } }
// the pieces seen so far are numbers, the last one possibly still empty
pub open spec fn all_num(p: Seq<Seq<int>>, b: int, open: bool) -> bool { p.len() >= 1 && (forall|i: int| 0 <= i < p.len() ==> digits_ok(#[trigger] p[i], b)) && (forall|i: int| 0 <= i < p.len() - 1 ==> (#[trigger] p[i]).len() > 0) && (open <==> p.last().len() == 0) }
pub open spec fn nv_facts(w: Seq<int>, n: int, q: int) -> bool {
  let b = q / 100; let s = q % 100; let r = w.subrange(2, n);
  n >= 2 && w[0] == 0x25 && (b == 2 || b == 10 || b == 16) && 0 <= s <= 5 && (b == 2 <==> w[1] == 0x62 || w[1] == 0x42) && (b == 16 <==> w[1] == 0x78 || w[1] == 0x58)
  && (s <= 3 ==> all_num(pieces(r, 0x2E), b, s % 2 == 0) && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] != 0x2D)) && (s <= 1 || s >= 4 ==> all_num(pieces(r, 0x2D), b, s % 2 == 0) && pieces(r, 0x2D).len() == (if s >= 4 { 2int } else { 1 })) && (s >= 4 ==> exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == 0x2D)
}
pub proof fn piece_sep(r: Seq<int>, c: int, b: int) requires all_num(pieces(r, c), b, false), ensures all_num(pieces(r.push(c), c), b, true), pieces(r.push(c), c).len() == pieces(r, c).len() + 1,
{ assert(r.push(c).drop_last() =~= r); let p = pieces(r, c); let z = pieces(r.push(c), c); assert(z == p.push(Seq::empty())); assert forall|i: int| 0 <= i < z.len() - 1 implies (#[trigger] z[i]).len() > 0 by { if i < p.len() - 1 { assert(p[i].len() > 0); } else { assert(z[i] == p.last()); } } assert forall|i: int| 0 <= i < z.len() implies digits_ok(#[trigger] z[i], b) by { if i < p.len() { assert(z[i] == p[i]); } } }
pub proof fn piece_dig(r: Seq<int>, c: int, d: int, b: int, open: bool) requires all_num(pieces(r, c), b, open), d != c, 0 <= digit(d) < b, ensures all_num(pieces(r.push(d), c), b, false), pieces(r.push(d), c).len() == pieces(r, c).len(),
{
  assert(r.push(d).drop_last() =~= r); let p = pieces(r, c); let z = pieces(r.push(d), c); assert(z == p.drop_last().push(p.last().push(d))); assert(z.last() == p.last().push(d));
  assert forall|i: int| 0 <= i < z.len() - 1 implies (#[trigger] z[i]).len() > 0 by { assert(z[i] == p[i]); } assert forall|i: int| 0 <= i < z.len() implies digits_ok(#[trigger] z[i], b) by { if i < p.len() - 1 { assert(z[i] == p[i]); } else { assert(digits_ok(p[p.len() - 1], b)); } }
}
pub proof fn f_num(w: Seq<int>, n: int) requires 0 <= n <= w.len(), ensures ({ let q = run(3, 0, w, 0, n); q != -1 && (q == 0 ==> n == 0) && (q == 1 ==> n == 1 && w[0] == 0x25) && (q >= 200 ==> nv_facts(w, n, q)) }), decreases n,
{
  if n > 0 {
    f_num(w, n - 1); let p = run(3, 0, w, 0, n - 1); let q = run(3, 0, w, 0, n); let c = w[n - 1];
    if q >= 200 {
      let r = w.subrange(2, n);
      if p == 1 {
        assert(r =~= Seq::<int>::empty()); let e = seq![Seq::<int>::empty()]; assert(pieces(r, 0x2E) == e && pieces(r, 0x2D) == e); assert(e.last().len() == 0);
      } else {
        assert(p >= 200); assert(nv_facts(w, n - 1, p)); let v = w.subrange(2, n - 1); assert(r =~= v.push(c)); let b = p / 100; let s = p % 100; assert(q / 100 == b);
        assert(forall|i: int| 0 <= i < v.len() ==> #[trigger] r[i] == v[i]); assert(r[v.len() as int] == c); assert(!k_hex(0x2E, b) && !k_hex(0x2D, b));
        if k_hex(c, b) {
          if s <= 3 { piece_dig(v, 0x2E, c, b, s % 2 == 0); } if s <= 1 || s >= 4 { piece_dig(v, 0x2D, c, b, s % 2 == 0); }
          if s >= 4 { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == 0x2D; assert(r[i] == 0x2D); }
          assert(q == p || q == p + 1); assert(q % 100 == s || q % 100 == s + 1);
        } else if c == 0x2E { assert(q == 100 * b + 2); assert(q % 100 == 2); piece_sep(v, 0x2E, b); }
        else { assert(q == 100 * b + 4); assert(q % 100 == 4); piece_sep(v, 0x2D, b); assert(r[v.len() as int] == 0x2D); }
      }
    }
  }
}
