// ---- metak.rs: the children a node of the meta grammar can have ----
pub open spec fn node_ok(inp: Seq<int>, t: Option<ParseTree>) -> bool {
  t is Some && 0 <= t->Some_0.Start <= t->Some_0.End <= inp.len() && resolve(abnf_rm(), t->Some_0.Rule) is Some && resolve(abnf_rm(), t->Some_0.Rule)->Some_0.Name == t->Some_0.Rule
  && S_alt(abnf_rm(), inp, resolve(abnf_rm(), t->Some_0.Rule)->Some_0.Alternation, t->Some_0.Start, t->Some_0.End, t->Some_0.Children)
}
pub open spec fn kid_ok(inp: Seq<int>, t: Option<ParseTree>) -> bool { t is Some && 0 <= t->Some_0.Start <= t->Some_0.End <= inp.len() && (if t->Some_0.Rule.len() == 0 { t->Some_0.Children.len() == 0 } else { node_ok(inp, t) }) }
pub open spec fn kids_ok(inp: Seq<int>, ts: TS) -> bool { forall|j: int| 0 <= j < ts.len() ==> kid_ok(inp, #[trigger] ts[j]) }
pub proof fn kids_join(inp: Seq<int>, ts: TS, q: int) requires 0 <= q <= ts.len(), kids_ok(inp, ts.subrange(0, q)), kids_ok(inp, ts.subrange(q, ts.len() as int)), ensures kids_ok(inp, ts),
{ assert forall|j: int| 0 <= j < ts.len() implies kid_ok(inp, #[trigger] ts[j]) by { if j < q { assert(ts.subrange(0, q)[j] == ts[j]); } else { assert(ts.subrange(q, ts.len() as int)[j - q] == ts[j]); } } }
pub proof fn res_name(n: Seq<int>) requires resolve(abnf_rm(), n) is Some, ensures resolve(abnf_rm(), resolve(abnf_rm(), n)->Some_0.Name) == resolve(abnf_rm(), n), resolve(abnf_rm(), n)->Some_0.Name.len() > 0,
{
  core_is(); meta_is(); let m = if defines(abnf_rm(), n) { abnf_rm() } else { g_coreRules() };
  let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); resolve_unique(m, n, k); assert(m.contains_key(k)); resolve_fold(abnf_rm(), n, m[k]->Some_0.Name);
}
pub proof fn kd_alt(inp: Seq<int>, a: Alternation, l: int, r: int, ts: TS, g: nat) requires 0 <= l <= r <= inp.len(), s_alt(abnf_rm(), inp, a, l, r, ts, g), ensures kids_ok(inp, ts), decreases g, a, 1int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g);
  kd_cat(inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g);
}
pub proof fn kd_cat(inp: Seq<int>, c: Concatenation, n: int, l: int, r: int, ts: TS, g: nat) requires 0 <= n <= c.Repetitions.len(), 0 <= l <= r <= inp.len(), s_cat(abnf_rm(), inp, c, n, l, r, ts, g), ensures kids_ok(inp, ts), decreases g, c, 0int, n,
{
  if n > 0 {
    let (m, t) = choose|m: int, t: int| l <= m <= r && 0 <= t <= ts.len() && #[trigger] tpos(m, t) && s_cat(abnf_rm(), inp, c, n - 1, l, m, ts.subrange(0, t), g) && s_rep(abnf_rm(), inp, c.Repetitions[n - 1], m, r, ts.subrange(t, ts.len() as int), g);
    kd_cat(inp, c, n - 1, l, m, ts.subrange(0, t), g);
    let x = c.Repetitions[n - 1]; let u = ts.subrange(t, ts.len() as int); let k = choose|k: int| #[trigger] pk(k) && rep_allows(x, k) && s_pow(abnf_rm(), inp, x.Element, k, m, r, u, g);
    kd_pow(inp, x.Element, k, m, r, u, g); kids_join(inp, ts, t);
  }
}
pub proof fn kd_pow(inp: Seq<int>, e: ElemItf, n: int, l: int, r: int, ts: TS, g: nat) requires 0 <= l <= r <= inp.len(), s_pow(abnf_rm(), inp, e, n, l, r, ts, g), ensures kids_ok(inp, ts), decreases g, e, 2int, n,
{
  if n > 0 {
    let (m, p) = choose|m: int, p: int| l <= m <= r && 0 <= p <= ts.len() && #[trigger] tpos(m, p) && s_el(abnf_rm(), inp, e, l, m, ts.subrange(0, p), g) && s_pow(abnf_rm(), inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g);
    kd_el(inp, e, l, m, ts.subrange(0, p), g); kd_pow(inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g); kids_join(inp, ts, p);
  }
}
pub proof fn kd_el(inp: Seq<int>, e: ElemItf, l: int, r: int, ts: TS, g: nat) requires 0 <= l <= r <= inp.len(), s_el(abnf_rm(), inp, e, l, r, ts, g), ensures kids_ok(inp, ts), decreases g, e, 1int, 0int,
{
  match e {
    ElemItf::ElemRulename(x) => { res_name(x.Name); assert(s_alt(abnf_rm(), inp, resolve(abnf_rm(), x.Name)->Some_0.Alternation, l, r, ts[0]->Some_0.Children, (g - 1) as nat)); assert(S_alt(abnf_rm(), inp, resolve(abnf_rm(), x.Name)->Some_0.Alternation, l, r, ts[0]->Some_0.Children)); assert(kid_ok(inp, ts[0])); },
    ElemItf::ElemGroup(x) => { kd_alt(inp, x.Alternation, l, r, ts, g); },
    ElemItf::ElemOption(x) => { if !(l == r && ts.len() == 0) { kd_alt(inp, x.Alternation, l, r, ts, g); } },
    _ => {},
  }
}
// every derivation shows a child with one of these names
pub open spec fn k_eqs(a: Seq<int>, b: Seq<int>, n: int) -> bool decreases n { if n <= 0 { true } else { a[n - 1] == b[n - 1] && k_eqs(a, b, n - 1) } }
pub open spec fn k_in(x: Seq<Seq<int>>, n: Seq<int>, i: int) -> bool decreases i { if i <= 0 { false } else { (x[i - 1].len() == n.len() && k_eqs(x[i - 1], n, n.len() as int)) || k_in(x, n, i - 1) } }
pub proof fn k_eqs_is(a: Seq<int>, b: Seq<int>, n: int) requires k_eqs(a, b, n), ensures forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i], decreases n, { if n > 0 { k_eqs_is(a, b, n - 1); } }
pub proof fn k_in_is(x: Seq<Seq<int>>, n: Seq<int>, i: int) requires k_in(x, n, i), 0 <= i <= x.len(), ensures x.contains(n), decreases i,
{ if x[i - 1].len() == n.len() && k_eqs(x[i - 1], n, n.len() as int) { k_eqs_is(x[i - 1], n, n.len() as int); assert(x[i - 1] =~= n); assert(x[i - 1] == n); } else { k_in_is(x, n, i - 1); } }
pub open spec fn m_alt(a: Alternation, x: Seq<Seq<int>>, i: int) -> bool decreases a, 1int, i { if i <= 0 { true } else { i <= a.Concatenations.len() && m_cat(a.Concatenations[i - 1], x, a.Concatenations[i - 1].Repetitions.len() as int) && m_alt(a, x, i - 1) } }
pub open spec fn m_cat(c: Concatenation, x: Seq<Seq<int>>, i: int) -> bool decreases c, 0int, i { if i <= 0 { false } else { i <= c.Repetitions.len() && ((c.Repetitions[i - 1].Min >= 1 && m_el(c.Repetitions[i - 1].Element, x)) || m_cat(c, x, i - 1)) } }
pub open spec fn m_el(e: ElemItf, x: Seq<Seq<int>>) -> bool decreases e, 2int, 0int {
  match e {
    ElemItf::ElemRulename(y) => match k_res(y.Name) { Some(z) => k_in(x, z.Name, x.len() as int), None => false },
    ElemItf::ElemGroup(y) => m_alt(y.Alternation, x, y.Alternation.Concatenations.len() as int),
    ElemItf::ElemOption(y) => false,
    _ => is_term(e) && nchars(e) >= 1 && k_in(x, Seq::empty(), x.len() as int),
  }
}
pub open spec fn shown_in(x: Seq<Seq<int>>, ts: TS) -> bool { exists|j: int| 0 <= j < ts.len() && #[trigger] ts[j] is Some && x.contains(ts[j]->Some_0.Rule) }
pub proof fn shown_sub(x: Seq<Seq<int>>, ts: TS, a: int, b: int) requires 0 <= a <= b <= ts.len(), shown_in(x, ts.subrange(a, b)), ensures shown_in(x, ts),
{ let u = ts.subrange(a, b); let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j] is Some && x.contains(u[j]->Some_0.Rule); assert(ts[a + j] is Some); }
pub proof fn mk_alt(inp: Seq<int>, a: Alternation, x: Seq<Seq<int>>, i: int, c: int, l: int, r: int, ts: TS, g: nat)
  requires m_alt(a, x, i), 0 <= c < i <= a.Concatenations.len(), s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g), ensures shown_in(x, ts), decreases g, a, 0int, i,
{ if c == i - 1 { mk_cat(inp, a.Concatenations[c], x, a.Concatenations[c].Repetitions.len() as int, l, r, ts, g); } else { mk_alt(inp, a, x, i - 1, c, l, r, ts, g); } }
pub proof fn mk_alts(inp: Seq<int>, a: Alternation, x: Seq<Seq<int>>, l: int, r: int, ts: TS, g: nat) requires m_alt(a, x, a.Concatenations.len() as int), s_alt(abnf_rm(), inp, a, l, r, ts, g), ensures shown_in(x, ts), decreases g, a, 1int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g);
  mk_alt(inp, a, x, a.Concatenations.len() as int, c, l, r, ts, g);
}
pub proof fn mk_cat(inp: Seq<int>, c: Concatenation, x: Seq<Seq<int>>, n: int, l: int, r: int, ts: TS, g: nat) requires m_cat(c, x, n), 0 <= n <= c.Repetitions.len(), s_cat(abnf_rm(), inp, c, n, l, r, ts, g), ensures shown_in(x, ts), decreases g, c, 0int, n,
{
  let (m, t) = choose|m: int, t: int| l <= m <= r && 0 <= t <= ts.len() && #[trigger] tpos(m, t) && s_cat(abnf_rm(), inp, c, n - 1, l, m, ts.subrange(0, t), g) && s_rep(abnf_rm(), inp, c.Repetitions[n - 1], m, r, ts.subrange(t, ts.len() as int), g);
  let y = c.Repetitions[n - 1]; let u = ts.subrange(t, ts.len() as int);
  if y.Min >= 1 && m_el(y.Element, x) {
    let k = choose|k: int| #[trigger] pk(k) && rep_allows(y, k) && s_pow(abnf_rm(), inp, y.Element, k, m, r, u, g);
    let (m2, p) = choose|m2: int, p: int| m <= m2 <= r && 0 <= p <= u.len() && #[trigger] tpos(m2, p) && s_el(abnf_rm(), inp, y.Element, m, m2, u.subrange(0, p), g) && s_pow(abnf_rm(), inp, y.Element, k - 1, m2, r, u.subrange(p, u.len() as int), g);
    mk_el(inp, y.Element, x, m, m2, u.subrange(0, p), g); shown_sub(x, u, 0, p); shown_sub(x, ts, t, ts.len() as int);
  } else { mk_cat(inp, c, x, n - 1, l, m, ts.subrange(0, t), g); shown_sub(x, ts, 0, t); }
}
pub proof fn mk_el(inp: Seq<int>, e: ElemItf, x: Seq<Seq<int>>, l: int, r: int, ts: TS, g: nat) requires m_el(e, x), s_el(abnf_rm(), inp, e, l, r, ts, g), ensures shown_in(x, ts), decreases g, e, 1int, 0int,
{
  match e {
    ElemItf::ElemRulename(y) => { k_res_is(y.Name); k_in_is(x, ts[0]->Some_0.Rule, x.len() as int); assert(ts[0] is Some); },
    ElemItf::ElemGroup(y) => { mk_alts(inp, y.Alternation, x, l, r, ts, g); },
    ElemItf::ElemOption(y) => {},
    _ => {
      let w = inp.subrange(l, r); let cs = choose|cs: Seq<int>| scalars(cs) && fits(e, cs) && w =~= #[trigger] utf8_strs(cs);
      enc_len(cs.last()); assert(utf8_strs(cs).len() >= 1); k_in_is(x, Seq::empty(), x.len() as int); assert(ts[0] is Some); assert(ts[0]->Some_0.Rule =~= Seq::empty());
    },
  }
}
// every leaf directly below takes automaton k into fin
pub open spec fn o_alt(a: Alternation, k: int, fin: Seq<int>, i: int) -> bool decreases a, 1int, i { if i <= 0 { true } else { i <= a.Concatenations.len() && o_cat(a.Concatenations[i - 1], k, fin, a.Concatenations[i - 1].Repetitions.len() as int) && o_alt(a, k, fin, i - 1) } }
pub open spec fn o_cat(c: Concatenation, k: int, fin: Seq<int>, i: int) -> bool decreases c, 0int, i { if i <= 0 { true } else { i <= c.Repetitions.len() && o_el(c.Repetitions[i - 1].Element, k, fin) && o_cat(c, k, fin, i - 1) } }
pub open spec fn o_el(e: ElemItf, k: int, fin: Seq<int>) -> bool decreases e, 2int, 0int {
  match e {
    ElemItf::ElemRulename(y) => true,
    ElemItf::ElemGroup(y) => o_alt(y.Alternation, k, fin, y.Alternation.Concatenations.len() as int),
    ElemItf::ElemOption(y) => o_alt(y.Alternation, k, fin, y.Alternation.Concatenations.len() as int),
    _ => in_all(w_term(k, seq![0int], e), fin),
  }
}
pub open spec fn leaves_in(inp: Seq<int>, ts: TS, k: int, fin: Seq<int>) -> bool { forall|j: int| 0 <= j < ts.len() && ts[j] is Some && ts[j]->Some_0.Rule.len() == 0 ==> inq(fin, run(k, 0, inp, (#[trigger] ts[j])->Some_0.Start, ts[j]->Some_0.End)) }
pub proof fn leaves_join(inp: Seq<int>, ts: TS, q: int, k: int, fin: Seq<int>) requires 0 <= q <= ts.len(), leaves_in(inp, ts.subrange(0, q), k, fin), leaves_in(inp, ts.subrange(q, ts.len() as int), k, fin), ensures leaves_in(inp, ts, k, fin),
{ assert forall|j: int| 0 <= j < ts.len() && ts[j] is Some && ts[j]->Some_0.Rule.len() == 0 implies inq(fin, run(k, 0, inp, (#[trigger] ts[j])->Some_0.Start, ts[j]->Some_0.End)) by { if j < q { assert(ts.subrange(0, q)[j] == ts[j]); } else { assert(ts.subrange(q, ts.len() as int)[j - q] == ts[j]); } } }
pub proof fn ok_alt(inp: Seq<int>, a: Alternation, i: int, c: int, l: int, r: int, ts: TS, g: nat, k: int, fin: Seq<int>)
  requires o_alt(a, k, fin, i), 0 <= c < i <= a.Concatenations.len(), s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g), ensures leaves_in(inp, ts, k, fin), decreases g, a, 0int, i,
{ if c == i - 1 { ok_cat(inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g, k, fin); } else { ok_alt(inp, a, i - 1, c, l, r, ts, g, k, fin); } }
pub proof fn ok_alts(inp: Seq<int>, a: Alternation, l: int, r: int, ts: TS, g: nat, k: int, fin: Seq<int>) requires o_alt(a, k, fin, a.Concatenations.len() as int), s_alt(abnf_rm(), inp, a, l, r, ts, g), ensures leaves_in(inp, ts, k, fin), decreases g, a, 1int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g);
  ok_alt(inp, a, a.Concatenations.len() as int, c, l, r, ts, g, k, fin);
}
pub proof fn ok_cat(inp: Seq<int>, c: Concatenation, n: int, l: int, r: int, ts: TS, g: nat, k: int, fin: Seq<int>) requires o_cat(c, k, fin, n), 0 <= n <= c.Repetitions.len(), s_cat(abnf_rm(), inp, c, n, l, r, ts, g), ensures leaves_in(inp, ts, k, fin), decreases g, c, 0int, n,
{
  if n > 0 {
    let (m, t) = choose|m: int, t: int| l <= m <= r && 0 <= t <= ts.len() && #[trigger] tpos(m, t) && s_cat(abnf_rm(), inp, c, n - 1, l, m, ts.subrange(0, t), g) && s_rep(abnf_rm(), inp, c.Repetitions[n - 1], m, r, ts.subrange(t, ts.len() as int), g);
    let y = c.Repetitions[n - 1]; let u = ts.subrange(t, ts.len() as int); let z = choose|z: int| #[trigger] pk(z) && rep_allows(y, z) && s_pow(abnf_rm(), inp, y.Element, z, m, r, u, g);
    ok_cat(inp, c, n - 1, l, m, ts.subrange(0, t), g, k, fin); ok_pow(inp, y.Element, z, m, r, u, g, k, fin); leaves_join(inp, ts, t, k, fin);
  }
}
pub proof fn ok_pow(inp: Seq<int>, e: ElemItf, n: int, l: int, r: int, ts: TS, g: nat, k: int, fin: Seq<int>) requires o_el(e, k, fin), s_pow(abnf_rm(), inp, e, n, l, r, ts, g), ensures leaves_in(inp, ts, k, fin), decreases g, e, 2int, n,
{
  if n > 0 {
    let (m, p) = choose|m: int, p: int| l <= m <= r && 0 <= p <= ts.len() && #[trigger] tpos(m, p) && s_el(abnf_rm(), inp, e, l, m, ts.subrange(0, p), g) && s_pow(abnf_rm(), inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g);
    ok_el(inp, e, l, m, ts.subrange(0, p), g, k, fin); ok_pow(inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g, k, fin); leaves_join(inp, ts, p, k, fin);
  }
}
pub proof fn ok_el(inp: Seq<int>, e: ElemItf, l: int, r: int, ts: TS, g: nat, k: int, fin: Seq<int>) requires o_el(e, k, fin), s_el(abnf_rm(), inp, e, l, r, ts, g), ensures leaves_in(inp, ts, k, fin), decreases g, e, 1int, 0int,
{
  match e {
    ElemItf::ElemRulename(y) => { res_name(y.Name); },
    ElemItf::ElemGroup(y) => { ok_alts(inp, y.Alternation, l, r, ts, g, k, fin); },
    ElemItf::ElemOption(y) => { if !(l == r && ts.len() == 0) { ok_alts(inp, y.Alternation, l, r, ts, g, k, fin); } },
    _ => { has_is(seq![0int], 0); assert(seq![0int][0] == 0); w_term_is(k, seq![0int], e, inp, l, r, 0); let w = w_term(k, seq![0int], e); k_sub_is(w, fin, w.len() as int, run(k, 0, inp, l, r)); },
  }
}
// for a node: its children, one that it must have, its leaves
pub proof fn node_kids(inp: Seq<int>, t: ParseTree) requires node_ok(inp, Some(t)), ensures kids_ok(inp, t.Children),
{ let a = resolve(abnf_rm(), t.Rule)->Some_0.Alternation; let g = choose|g: nat| #[trigger] s_alt(abnf_rm(), inp, a, t.Start, t.End, t.Children, g); kd_alt(inp, a, t.Start, t.End, t.Children, g); }
pub proof fn node_must(inp: Seq<int>, t: ParseTree, rl: Option<Rule>, x: Seq<Seq<int>>) requires node_ok(inp, Some(t)), k_res(t.Rule) == rl, rl is Some, m_alt(rl->Some_0.Alternation, x, rl->Some_0.Alternation.Concatenations.len() as int), ensures shown_in(x, t.Children),
{ k_res_is(t.Rule); let a = rl->Some_0.Alternation; let g = choose|g: nat| #[trigger] s_alt(abnf_rm(), inp, a, t.Start, t.End, t.Children, g); mk_alts(inp, a, x, t.Start, t.End, t.Children, g); }
pub proof fn node_word(inp: Seq<int>, t: ParseTree, rl: Option<Rule>, k: int, f: nat, fin: Seq<int>) requires node_ok(inp, Some(t)), k_res(t.Rule) == rl, rl is Some, in_all(w_rule(k, rl, f), fin), ensures inq(fin, run(k, 0, inp, t.Start, t.End)),
{ k_res_is(t.Rule); assert(rl == Some(rl->Some_0)); word_of(k, rl->Some_0, f, fin, inp, t.Start, t.End, t.Children); }
pub proof fn node_leaves(inp: Seq<int>, t: ParseTree, rl: Option<Rule>, k: int, fin: Seq<int>) requires node_ok(inp, Some(t)), k_res(t.Rule) == rl, rl is Some, o_alt(rl->Some_0.Alternation, k, fin, rl->Some_0.Alternation.Concatenations.len() as int), ensures leaves_in(inp, t.Children, k, fin),
{ k_res_is(t.Rule); let a = rl->Some_0.Alternation; let g = choose|g: nat| #[trigger] s_alt(abnf_rm(), inp, a, t.Start, t.End, t.Children, g); ok_alts(inp, a, t.Start, t.End, t.Children, g, k, fin); }

// names
pub open spec fn n_rulelist() -> Seq<int> { seq![114int, 117int, 108int, 101int, 108int, 105int, 115int, 116int] }
pub open spec fn n_rule() -> Seq<int> { seq![114int, 117int, 108int, 101int] }
pub open spec fn n_rulename() -> Seq<int> { seq![114int, 117int, 108int, 101int, 110int, 97int, 109int, 101int] }
pub open spec fn n_elements() -> Seq<int> { seq![101int, 108int, 101int, 109int, 101int, 110int, 116int, 115int] }
pub open spec fn n_alternation() -> Seq<int> { seq![97int, 108int, 116int, 101int, 114int, 110int, 97int, 116int, 105int, 111int, 110int] }
pub open spec fn n_concatenation() -> Seq<int> { seq![99int, 111int, 110int, 99int, 97int, 116int, 101int, 110int, 97int, 116int, 105int, 111int, 110int] }
pub open spec fn n_repetition() -> Seq<int> { seq![114int, 101int, 112int, 101int, 116int, 105int, 116int, 105int, 111int, 110int] }
pub open spec fn n_repeat() -> Seq<int> { seq![114int, 101int, 112int, 101int, 97int, 116int] }
pub open spec fn n_element() -> Seq<int> { seq![101int, 108int, 101int, 109int, 101int, 110int, 116int] }
pub open spec fn n_group() -> Seq<int> { seq![103int, 114int, 111int, 117int, 112int] }
pub open spec fn n_option() -> Seq<int> { seq![111int, 112int, 116int, 105int, 111int, 110int] }
pub open spec fn n_defined_as() -> Seq<int> { seq![100int, 101int, 102int, 105int, 110int, 101int, 100int, 45int, 97int, 115int] }
pub open spec fn n_char_val() -> Seq<int> { seq![99int, 104int, 97int, 114int, 45int, 118int, 97int, 108int] }
pub open spec fn n_num_val() -> Seq<int> { seq![110int, 117int, 109int, 45int, 118int, 97int, 108int] }
pub open spec fn n_prose_val() -> Seq<int> { seq![112int, 114int, 111int, 115int, 101int, 45int, 118int, 97int, 108int] }
pub open spec fn n_elems() -> Seq<Seq<int>> { seq![n_rulename(), n_group(), n_option(), n_char_val(), n_num_val(), n_prose_val()] }
// decided on the grammar itself
pub proof fn places() ensures k_res(n_rulelist()) == g_abnfRulelist(), g_abnfRulelist() is Some, k_res(n_rule()) == g_abnfRule(), g_abnfRule() is Some, k_res(n_rulename()) == g_abnfRulename(), g_abnfRulename() is Some, k_res(n_elements()) == g_abnfElements(), g_abnfElements() is Some, k_res(n_alternation()) == g_abnfAlternation(), g_abnfAlternation() is Some, k_res(n_concatenation()) == g_abnfConcatenation(), g_abnfConcatenation() is Some, k_res(n_repetition()) == g_abnfRepetition(), g_abnfRepetition() is Some, k_res(n_repeat()) == g_abnfRepeat(), g_abnfRepeat() is Some, k_res(n_element()) == g_abnfElement(), g_abnfElement() is Some, k_res(n_group()) == g_abnfGroup(), g_abnfGroup() is Some, k_res(n_option()) == g_abnfOption(), g_abnfOption() is Some, k_res(n_defined_as()) == g_abnfDefinedAs(), g_abnfDefinedAs() is Some, k_res(n_char_val()) == g_abnfCharVal(), g_abnfCharVal() is Some, k_res(n_num_val()) == g_abnfNumVal(), g_abnfNumVal() is Some, k_res(n_prose_val()) == g_abnfProseVal(), g_abnfProseVal() is Some,
{
  assert(k_res(n_rulelist()) == g_abnfRulelist()) by (compute_only); assert(g_abnfRulelist() is Some) by (compute_only);
  assert(k_res(n_rule()) == g_abnfRule()) by (compute_only); assert(g_abnfRule() is Some) by (compute_only);
  assert(k_res(n_rulename()) == g_abnfRulename()) by (compute_only); assert(g_abnfRulename() is Some) by (compute_only);
  assert(k_res(n_elements()) == g_abnfElements()) by (compute_only); assert(g_abnfElements() is Some) by (compute_only);
  assert(k_res(n_alternation()) == g_abnfAlternation()) by (compute_only); assert(g_abnfAlternation() is Some) by (compute_only);
  assert(k_res(n_concatenation()) == g_abnfConcatenation()) by (compute_only); assert(g_abnfConcatenation() is Some) by (compute_only);
  assert(k_res(n_repetition()) == g_abnfRepetition()) by (compute_only); assert(g_abnfRepetition() is Some) by (compute_only);
  assert(k_res(n_repeat()) == g_abnfRepeat()) by (compute_only); assert(g_abnfRepeat() is Some) by (compute_only);
  assert(k_res(n_element()) == g_abnfElement()) by (compute_only); assert(g_abnfElement() is Some) by (compute_only);
  assert(k_res(n_group()) == g_abnfGroup()) by (compute_only); assert(g_abnfGroup() is Some) by (compute_only);
  assert(k_res(n_option()) == g_abnfOption()) by (compute_only); assert(g_abnfOption() is Some) by (compute_only);
  assert(k_res(n_defined_as()) == g_abnfDefinedAs()) by (compute_only); assert(g_abnfDefinedAs() is Some) by (compute_only);
  assert(k_res(n_char_val()) == g_abnfCharVal()) by (compute_only); assert(g_abnfCharVal() is Some) by (compute_only);
  assert(k_res(n_num_val()) == g_abnfNumVal()) by (compute_only); assert(g_abnfNumVal() is Some) by (compute_only);
  assert(k_res(n_prose_val()) == g_abnfProseVal()) by (compute_only); assert(g_abnfProseVal() is Some) by (compute_only);
}
pub proof fn shapes() ensures m_alt(g_abnfRule()->Some_0.Alternation, seq![n_rulename()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfRule()->Some_0.Alternation, seq![n_defined_as()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfRule()->Some_0.Alternation, seq![n_elements()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfElements()->Some_0.Alternation, seq![n_alternation()], g_abnfElements()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfAlternation()->Some_0.Alternation, seq![n_concatenation()], g_abnfAlternation()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfConcatenation()->Some_0.Alternation, seq![n_repetition()], g_abnfConcatenation()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfRepetition()->Some_0.Alternation, seq![n_element()], g_abnfRepetition()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfGroup()->Some_0.Alternation, seq![n_alternation()], g_abnfGroup()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfOption()->Some_0.Alternation, seq![n_alternation()], g_abnfOption()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfElement()->Some_0.Alternation, n_elems(), g_abnfElement()->Some_0.Alternation.Concatenations.len() as int), m_alt(g_abnfDefinedAs()->Some_0.Alternation, seq![Seq::<int>::empty()], g_abnfDefinedAs()->Some_0.Alternation.Concatenations.len() as int), o_alt(g_abnfDefinedAs()->Some_0.Alternation, 5, seq![1int, 2], g_abnfDefinedAs()->Some_0.Alternation.Concatenations.len() as int),
{
  assert(m_alt(g_abnfRule()->Some_0.Alternation, seq![n_rulename()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfRule()->Some_0.Alternation, seq![n_defined_as()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfRule()->Some_0.Alternation, seq![n_elements()], g_abnfRule()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfElements()->Some_0.Alternation, seq![n_alternation()], g_abnfElements()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfAlternation()->Some_0.Alternation, seq![n_concatenation()], g_abnfAlternation()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfConcatenation()->Some_0.Alternation, seq![n_repetition()], g_abnfConcatenation()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfRepetition()->Some_0.Alternation, seq![n_element()], g_abnfRepetition()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfGroup()->Some_0.Alternation, seq![n_alternation()], g_abnfGroup()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfOption()->Some_0.Alternation, seq![n_alternation()], g_abnfOption()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfElement()->Some_0.Alternation, n_elems(), g_abnfElement()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(m_alt(g_abnfDefinedAs()->Some_0.Alternation, seq![Seq::<int>::empty()], g_abnfDefinedAs()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
  assert(o_alt(g_abnfDefinedAs()->Some_0.Alternation, 5, seq![1int, 2], g_abnfDefinedAs()->Some_0.Alternation.Concatenations.len() as int)) by (compute_only);
}
