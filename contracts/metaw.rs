// ---- metaw.rs: which words a rule can derive, decided by running a finite automaton over its syntax ----
// States are non-negative; -1 stands for "could be anything".
pub open spec fn k_alpha(c: int) -> bool { 0x41 <= c <= 0x5A || 0x61 <= c <= 0x7A }
pub open spec fn k_dig(c: int) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn k_hex(c: int, b: int) -> bool { 0 <= digit(c) < b }
// num-val: 100 * radix + (0 first number due, 1 in it, 2 due after a dot, 3 in it, 4 due after a dash, 5 in it)
// automata: 0 rulename, 1 repeat, 2 char-val, 3 num-val, 4 prose-val, 5 the definition operator; state 99 is the dead end
pub open spec fn dl(k: int, q: int, c: int) -> int {
  if q == -1 { -1 }
  else if k == 0 { if q == 0 && k_alpha(c) { 1 } else if q == 1 && name_char(c) { 1 } else { 99 } }
  else if k == 1 { if (q == 0 || q == 1) && k_dig(c) { 1 } else if (q == 0 || q == 1) && c == 0x2A { 2 } else if q == 2 && k_dig(c) { 2 } else { 99 } }
  else if k == 2 {
    if q == 0 && c == 0x25 { 1 } else if q == 1 && (c == 0x73 || c == 0x53) { 2 } else if q == 1 && (c == 0x69 || c == 0x49) { 3 }
    else if (q == 0 || q == 3) && c == 0x22 { 4 } else if q == 2 && c == 0x22 { 5 } else if (q == 4 || q == 5) && 0x20 <= c <= 0x7E && c != 0x22 { q } else if q == 4 && c == 0x22 { 6 } else if q == 5 && c == 0x22 { 7 } else { 99 }
  }
  else if k == 3 {
    if q == 0 && c == 0x25 { 1 }
    else if q == 1 { if c == 0x62 || c == 0x42 { 200 } else if c == 0x64 || c == 0x44 { 1000 } else if c == 0x78 || c == 0x58 { 1600 } else { 99 } }
    else if q >= 200 {
      let b = q / 100; let s = q % 100;
      if k_hex(c, b) { if s % 2 == 0 { q + 1 } else { q } } else if c == 0x2E && (s == 1 || s == 3) { 100 * b + 2 } else if c == 0x2D && s == 1 { 100 * b + 4 } else { 99 }
    }
    else { 99 }
  }
  else if k == 4 { if q == 0 && c == 0x3C { 1 } else if q == 1 && 0x20 <= c <= 0x7E && c != 0x3E { 1 } else if q == 1 && c == 0x3E { 2 } else { 99 } }
  else if k == 5 { if q == 0 && c == 0x3D { 1 } else if q == 1 && c == 0x2F { 2 } else { 99 } }
  else { 99 }
}

pub open spec fn run(k: int, q: int, w: Seq<int>, l: int, r: int) -> int decreases r - l { if r <= l { q } else { dl(k, run(k, q, w, l, r - 1), w[r - 1]) } }
pub proof fn run_split(k: int, q: int, w: Seq<int>, l: int, m: int, r: int) requires l <= m <= r, ensures run(k, q, w, l, r) == run(k, run(k, q, w, l, m), w, m, r), decreases r - m, { if m < r { run_split(k, q, w, l, m, r - 1); } }
pub proof fn run_same(k: int, q: int, w: Seq<int>, l: int, r: int, v: Seq<int>, m: int) requires l <= r, forall|i: int| l <= i < r ==> #[trigger] w[i] == v[i - l + m], ensures run(k, q, w, l, r) == run(k, q, v, m, m + r - l), decreases r - l, { if l < r { run_same(k, q, w, l, r - 1, v, m); assert(w[r - 1] == v[r - 1 - l + m]); } }
pub proof fn run_any(k: int, w: Seq<int>, l: int, r: int) ensures run(k, -1, w, l, r) == -1, decreases r - l, { if l < r { run_any(k, w, l, r - 1); } }
// sets of states, as lists
pub open spec fn k_has(s: Seq<int>, x: int, n: int) -> bool decreases n { if n <= 0 { false } else { s[n - 1] == x || k_has(s, x, n - 1) } }
pub open spec fn inq(s: Seq<int>, x: int) -> bool { k_has(s, x, s.len() as int) }
pub open spec fn may(s: Seq<int>, x: int) -> bool { inq(s, -1) || inq(s, x) }
pub open spec fn k_add(s: Seq<int>, x: int) -> Seq<int> { if inq(s, x) { s } else { s.push(x) } }
pub open spec fn k_or(a: Seq<int>, b: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { a } else { k_add(k_or(a, b, n - 1), b[n - 1]) } }
pub open spec fn q_or(a: Seq<int>, b: Seq<int>) -> Seq<int> { k_or(a, b, b.len() as int) }
pub open spec fn k_sub(a: Seq<int>, b: Seq<int>, n: int) -> bool decreases n { if n <= 0 { true } else { inq(b, a[n - 1]) && k_sub(a, b, n - 1) } }
pub open spec fn k_step(k: int, s: Seq<int>, c: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { k_add(k_step(k, s, c, n - 1), dl(k, s[n - 1], c)) } }
pub open spec fn q_step(k: int, s: Seq<int>, c: int) -> Seq<int> { k_step(k, s, c, s.len() as int) }
pub open spec fn q_range(k: int, s: Seq<int>, lo: int, hi: int) -> Seq<int> decreases hi - lo + 1 { if hi < lo { Seq::empty() } else { q_or(q_range(k, s, lo, hi - 1), q_step(k, s, hi)) } }
pub proof fn k_has_is(s: Seq<int>, x: int, n: int) requires n <= s.len(), ensures k_has(s, x, n) <==> (exists|i: int| 0 <= i < n && #[trigger] s[i] == x), decreases n,
{ if n > 0 { k_has_is(s, x, n - 1); if s[n - 1] == x { assert(s[n - 1] == x); } } }
pub proof fn has_is(s: Seq<int>, x: int) ensures inq(s, x) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x) { k_has_is(s, x, s.len() as int); }
pub proof fn k_add_is(s: Seq<int>, x: int, y: int) ensures inq(k_add(s, x), y) <==> inq(s, y) || x == y,
{ has_is(s, x); has_is(s, y); has_is(k_add(s, x), y); if !inq(s, x) { let t = s.push(x); assert(t[s.len() as int] == x); if inq(s, y) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == y; assert(t[i] == y); } } }
pub proof fn k_or_is(a: Seq<int>, b: Seq<int>, n: int, x: int) requires 0 <= n <= b.len(), ensures inq(k_or(a, b, n), x) <==> inq(a, x) || k_has(b, x, n), decreases n,
{ if n > 0 { k_or_is(a, b, n - 1, x); k_add_is(k_or(a, b, n - 1), b[n - 1], x); } }
pub proof fn may_or(a: Seq<int>, b: Seq<int>, x: int) ensures may(q_or(a, b), x) <==> may(a, x) || may(b, x) { k_or_is(a, b, b.len() as int, x); k_or_is(a, b, b.len() as int, -1); }
pub proof fn k_sub_is(a: Seq<int>, b: Seq<int>, n: int, x: int) requires 0 <= n <= a.len(), k_sub(a, b, n), k_has(a, x, n), ensures inq(b, x), decreases n, { if n > 0 && a[n - 1] != x { k_sub_is(a, b, n - 1, x); } }
pub proof fn may_sub(a: Seq<int>, b: Seq<int>, x: int) requires k_sub(a, b, a.len() as int), may(a, x), ensures may(b, x) { if inq(a, -1) { k_sub_is(a, b, a.len() as int, -1); } else { k_sub_is(a, b, a.len() as int, x); } }
pub proof fn k_step_is(k: int, s: Seq<int>, c: int, n: int, q: int) requires 0 <= n <= s.len(), k_has(s, q, n), ensures inq(k_step(k, s, c, n), dl(k, q, c)), decreases n,
{ k_add_is(k_step(k, s, c, n - 1), dl(k, s[n - 1], c), dl(k, q, c)); if s[n - 1] != q { k_step_is(k, s, c, n - 1, q); } }
pub proof fn may_step(k: int, s: Seq<int>, c: int, q: int) requires may(s, q), ensures may(q_step(k, s, c), dl(k, q, c)) { if inq(s, -1) { k_step_is(k, s, c, s.len() as int, -1); } else { k_step_is(k, s, c, s.len() as int, q); } }
pub proof fn may_range(k: int, s: Seq<int>, lo: int, hi: int, c: int, q: int) requires may(s, q), lo <= c <= hi, ensures may(q_range(k, s, lo, hi), dl(k, q, c)), decreases hi - lo,
{ may_or(q_range(k, s, lo, hi - 1), q_step(k, s, hi), dl(k, q, c)); if c == hi { may_step(k, s, c, q); } else { may_range(k, s, lo, hi - 1, c, q); } }
// terminals of ASCII characters
pub open spec fn k_asc(e: ElemItf, n: int) -> bool decreases n {
  if n <= 0 { true } else { (match e {
    ElemItf::ElemCharVal(x) => 0 <= x.Values[n - 1] < 128,
    ElemItf::ElemNumVal(x) => if x.Status == 1 { 0 <= nval(x.Elems[0], x.Base) && nval(x.Elems[1], x.Base) < 128 } else { 0 <= nval(x.Elems[n - 1], x.Base) < 128 },
    _ => false }) && k_asc(e, n - 1) }
}
pub open spec fn q_term(k: int, s: Seq<int>, e: ElemItf, n: int) -> Seq<int> decreases n {
  if n <= 0 { s } else { let p = q_term(k, s, e, n - 1); match e {
    ElemItf::ElemCharVal(x) => { let v = x.Values[n - 1]; if x.Sensitive { q_step(k, p, v) } else { q_or(q_step(k, p, ascii_lower(v)), q_step(k, p, ascii_upper(ascii_lower(v)))) } },
    ElemItf::ElemNumVal(x) => if x.Status == 1 { q_range(k, p, nval(x.Elems[0], x.Base), nval(x.Elems[1], x.Base)) } else { q_step(k, p, nval(x.Elems[n - 1], x.Base)) },
    _ => seq![-1int] } }
}
pub open spec fn w_term(k: int, s: Seq<int>, e: ElemItf) -> Seq<int> { if is_term(e) && k_asc(e, nchars(e)) { q_term(k, s, e, nchars(e)) } else { seq![-1int] } }
pub proof fn any_all(x: int) ensures may(seq![-1int], x) { has_is(seq![-1int], -1); assert(seq![-1int][0] == -1); }
pub proof fn q_term_is(k: int, s: Seq<int>, e: ElemItf, n: int, cs: Seq<int>, q: int) requires is_term(e), may(s, q), 0 <= n <= cs.len(), fits(e, cs), ensures may(q_term(k, s, e, n), run(k, q, cs, 0, n)), decreases n,
{
  if n > 0 {
    q_term_is(k, s, e, n - 1, cs, q); let p = q_term(k, s, e, n - 1); let y = run(k, q, cs, 0, n - 1); let c = cs[n - 1];
    match e {
      ElemItf::ElemCharVal(x) => {
        let v = x.Values[n - 1]; assert(fold_eq(v, c, x.Sensitive)); may_step(k, p, c, y);
        if !x.Sensitive { assert(c == ascii_lower(v) || c == ascii_upper(ascii_lower(v))); may_or(q_step(k, p, ascii_lower(v)), q_step(k, p, ascii_upper(ascii_lower(v))), dl(k, y, c)); }
      },
      ElemItf::ElemNumVal(x) => { if x.Status == 1 { may_range(k, p, nval(x.Elems[0], x.Base), nval(x.Elems[1], x.Base), c, y); } else { may_step(k, p, c, y); } },
      _ => {},
    }
  }
}
pub proof fn k_asc_is(e: ElemItf, n: int, cs: Seq<int>) requires is_term(e), k_asc(e, n), fits(e, cs), 0 <= n <= cs.len(), ensures forall|i: int| 0 <= i < n ==> 0 <= #[trigger] cs[i] < 128, decreases n,
{ if n > 0 { k_asc_is(e, n - 1, cs); match e { ElemItf::ElemCharVal(x) => { assert(fold_eq(x.Values[n - 1], cs[n - 1], x.Sensitive)); }, _ => {} } } }
pub proof fn ascii_strs(cs: Seq<int>) requires forall|i: int| 0 <= i < cs.len() ==> 0 <= #[trigger] cs[i] < 128, ensures utf8_strs(cs) =~= cs, decreases cs.len(),
{ if cs.len() > 0 { ascii_strs(cs.drop_last()); assert(enc(cs.last()) =~= seq![cs.last()]); assert(cs.drop_last() + seq![cs.last()] =~= cs); } }
pub proof fn w_term_is(k: int, s: Seq<int>, e: ElemItf, inp: Seq<int>, l: int, r: int, q: int) requires may(s, q), term_at(e, inp, l, r), ensures may(w_term(k, s, e), run(k, q, inp, l, r)),
{
  if is_term(e) && k_asc(e, nchars(e)) {
    let w = inp.subrange(l, r);
    let cs = choose|cs: Seq<int>| scalars(cs) && fits(e, cs) && w =~= #[trigger] utf8_strs(cs);
    k_asc_is(e, nchars(e), cs); ascii_strs(cs); q_term_is(k, s, e, nchars(e), cs, q);
    assert forall|i: int| l <= i < r implies #[trigger] inp[i] == cs[i - l + 0] by { assert(w[i - l] == inp[i]); }
    run_same(k, q, inp, l, r, cs, 0);
  } else { any_all(run(k, q, inp, l, r)); }
}
// what the automaton can make of the words an element derives, following at most f rule references
pub open spec fn w_alt(k: int, s: Seq<int>, a: Alternation, i: int, f: nat) -> Seq<int> decreases f, a, 0int, i {
  if i <= 0 || i > a.Concatenations.len() { Seq::empty() } else { q_or(w_alt(k, s, a, i - 1, f), w_cat(k, s, a.Concatenations[i - 1], a.Concatenations[i - 1].Repetitions.len() as int, f)) }
}
pub open spec fn w_cat(k: int, s: Seq<int>, c: Concatenation, i: int, f: nat) -> Seq<int> decreases f, c, 0int, i {
  if i <= 0 || i > c.Repetitions.len() { s } else { w_rep(k, w_cat(k, s, c, i - 1, f), c.Repetitions[i - 1], f) }
}
pub open spec fn w_rep(k: int, s: Seq<int>, x: Repetition, f: nat) -> Seq<int> decreases f, x, 0int, 0int {
  let b = if x.Min >= 1 { w_el(k, s, x.Element, f) } else { s };
  if x.Min == 1 && x.Max == 1 { b } else { let t = w_star(k, b, x.Element, f, 2); let u = w_el(k, t, x.Element, f); if k_sub(u, t, u.len() as int) { t } else { seq![-1int] } }
}
pub open spec fn w_star(k: int, s: Seq<int>, e: ElemItf, f: nat, n: int) -> Seq<int> decreases f, e, 1int, n { if n <= 0 { s } else { w_star(k, q_or(s, w_el(k, s, e, f)), e, f, n - 1) } }
pub open spec fn w_el(k: int, s: Seq<int>, e: ElemItf, f: nat) -> Seq<int> decreases f, e, 0int, 0int {
  match e {
    ElemItf::ElemRulename(x) => if f == 0 { seq![-1int] } else { match k_res(x.Name) { Some(y) => w_alt(k, s, y.Alternation, y.Alternation.Concatenations.len() as int, (f - 1) as nat), None => seq![-1int] } },
    ElemItf::ElemGroup(x) => w_alt(k, s, x.Alternation, x.Alternation.Concatenations.len() as int, f),
    ElemItf::ElemOption(x) => q_or(s, w_alt(k, s, x.Alternation, x.Alternation.Concatenations.len() as int, f)),
    _ => w_term(k, s, e),
  }
}
pub open spec fn w_rule(k: int, r: Option<Rule>, f: nat) -> Seq<int> { w_alt(k, seq![0int], r->Some_0.Alternation, r->Some_0.Alternation.Concatenations.len() as int, f) }
// soundness, for derivations (with at most g nested expansions) of the meta grammar
pub proof fn sw_alt(k: int, s: Seq<int>, a: Alternation, i: int, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int, c: int)
  requires may(s, q), 0 <= c < i <= a.Concatenations.len(), 0 <= l <= r <= inp.len(), s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g), ensures may(w_alt(k, s, a, i, f), run(k, q, inp, l, r)), decreases g, a, 0int, i,
{
  let z = a.Concatenations[i - 1]; let n = z.Repetitions.len() as int;
  may_or(w_alt(k, s, a, i - 1, f), w_cat(k, s, z, n, f), run(k, q, inp, l, r));
  if c == i - 1 { sw_cat(k, s, z, n, f, inp, l, r, ts, g, q); } else { sw_alt(k, s, a, i - 1, f, inp, l, r, ts, g, q, c); }
}
pub proof fn sw_alts(k: int, s: Seq<int>, a: Alternation, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int)
  requires may(s, q), 0 <= l <= r <= inp.len(), s_alt(abnf_rm(), inp, a, l, r, ts, g), ensures may(w_alt(k, s, a, a.Concatenations.len() as int, f), run(k, q, inp, l, r)), decreases g, a, 1int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(abnf_rm(), inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, g);
  sw_alt(k, s, a, a.Concatenations.len() as int, f, inp, l, r, ts, g, q, c);
}
pub proof fn sw_cat(k: int, s: Seq<int>, c: Concatenation, n: int, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int)
  requires may(s, q), 0 <= n <= c.Repetitions.len(), 0 <= l <= r <= inp.len(), s_cat(abnf_rm(), inp, c, n, l, r, ts, g), ensures may(w_cat(k, s, c, n, f), run(k, q, inp, l, r)), decreases g, c, 0int, n,
{
  if n > 0 {
    let (m, t) = choose|m: int, t: int| l <= m <= r && 0 <= t <= ts.len() && #[trigger] tpos(m, t) && s_cat(abnf_rm(), inp, c, n - 1, l, m, ts.subrange(0, t), g) && s_rep(abnf_rm(), inp, c.Repetitions[n - 1], m, r, ts.subrange(t, ts.len() as int), g);
    sw_cat(k, s, c, n - 1, f, inp, l, m, ts.subrange(0, t), g, q); run_split(k, q, inp, l, m, r);
    sw_rep(k, w_cat(k, s, c, n - 1, f), c.Repetitions[n - 1], f, inp, m, r, ts.subrange(t, ts.len() as int), g, run(k, q, inp, l, m));
  }
}
pub proof fn sw_rep(k: int, s: Seq<int>, x: Repetition, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int)
  requires may(s, q), 0 <= l <= r <= inp.len(), s_rep(abnf_rm(), inp, x, l, r, ts, g), ensures may(w_rep(k, s, x, f), run(k, q, inp, l, r)), decreases g, x, 0int, 0int,
{
  let n = choose|n: int| #[trigger] pk(n) && rep_allows(x, n) && s_pow(abnf_rm(), inp, x.Element, n, l, r, ts, g);
  let e = x.Element; let b = if x.Min >= 1 { w_el(k, s, e, f) } else { s }; let z = run(k, q, inp, l, r);
  let t = w_star(k, b, e, f, 2); let u = w_el(k, t, e, f);
  if x.Min >= 1 {
    let (m, p) = choose|m: int, p: int| l <= m <= r && 0 <= p <= ts.len() && #[trigger] tpos(m, p) && s_el(abnf_rm(), inp, e, l, m, ts.subrange(0, p), g) && s_pow(abnf_rm(), inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g);
    sw_el(k, s, e, f, inp, l, m, ts.subrange(0, p), g, q); run_split(k, q, inp, l, m, r);
    if x.Min == 1 && x.Max == 1 { assert(n == 1); }
    else if k_sub(u, t, u.len() as int) { star_up(k, b, e, f, 2, run(k, q, inp, l, m)); sw_pow(k, t, e, f, inp, m, r, ts.subrange(p, ts.len() as int), g, run(k, q, inp, l, m), n - 1); }
    else { any_all(z); }
  } else if k_sub(u, t, u.len() as int) { star_up(k, b, e, f, 2, q); sw_pow(k, t, e, f, inp, l, r, ts, g, q, n); }
  else { any_all(z); }
}
pub proof fn star_up(k: int, s: Seq<int>, e: ElemItf, f: nat, n: int, q: int) requires may(s, q), ensures may(w_star(k, s, e, f, n), q), decreases n, { if n > 0 { may_or(s, w_el(k, s, e, f), q); star_up(k, q_or(s, w_el(k, s, e, f)), e, f, n - 1, q); } }
pub proof fn sw_pow(k: int, s: Seq<int>, e: ElemItf, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int, n: int)
  requires may(s, q), k_sub(w_el(k, s, e, f), s, w_el(k, s, e, f).len() as int), 0 <= l <= r <= inp.len(), s_pow(abnf_rm(), inp, e, n, l, r, ts, g), ensures may(s, run(k, q, inp, l, r)), decreases g, e, 2int, n,
{
  if n > 0 {
    let (m, p) = choose|m: int, p: int| l <= m <= r && 0 <= p <= ts.len() && #[trigger] tpos(m, p) && s_el(abnf_rm(), inp, e, l, m, ts.subrange(0, p), g) && s_pow(abnf_rm(), inp, e, n - 1, m, r, ts.subrange(p, ts.len() as int), g);
    sw_el(k, s, e, f, inp, l, m, ts.subrange(0, p), g, q); may_sub(w_el(k, s, e, f), s, run(k, q, inp, l, m)); run_split(k, q, inp, l, m, r);
    sw_pow(k, s, e, f, inp, m, r, ts.subrange(p, ts.len() as int), g, run(k, q, inp, l, m), n - 1);
  }
}
pub proof fn sw_el(k: int, s: Seq<int>, e: ElemItf, f: nat, inp: Seq<int>, l: int, r: int, ts: TS, g: nat, q: int)
  requires may(s, q), 0 <= l <= r <= inp.len(), s_el(abnf_rm(), inp, e, l, r, ts, g), ensures may(w_el(k, s, e, f), run(k, q, inp, l, r)), decreases g, e, 1int, 0int,
{
  let z = run(k, q, inp, l, r);
  match e {
    ElemItf::ElemRulename(x) => { k_res_is(x.Name); if f == 0 { any_all(z); } else { sw_alts(k, s, k_res(x.Name)->Some_0.Alternation, (f - 1) as nat, inp, l, r, ts[0]->Some_0.Children, (g - 1) as nat, q); } },
    ElemItf::ElemGroup(x) => { sw_alts(k, s, x.Alternation, f, inp, l, r, ts, g, q); },
    ElemItf::ElemOption(x) => { may_or(s, w_alt(k, s, x.Alternation, x.Alternation.Concatenations.len() as int, f), z); if !(l == r && ts.len() == 0) { sw_alts(k, s, x.Alternation, f, inp, l, r, ts, g, q); } },
    _ => { w_term_is(k, s, e, inp, l, r, q); },
  }
}
pub open spec fn in_all(x: Seq<int>, y: Seq<int>) -> bool { k_sub(x, y, x.len() as int) && !inq(x, -1) }
// the word of a node of the meta grammar ends in one of the states fin
pub proof fn word_of(k: int, rl: Rule, f: nat, fin: Seq<int>, inp: Seq<int>, l: int, r: int, ts: TS)
  requires S_alt(abnf_rm(), inp, rl.Alternation, l, r, ts), 0 <= l <= r <= inp.len(), in_all(w_rule(k, Some(rl), f), fin), ensures inq(fin, run(k, 0, inp, l, r)),
{
  let g = choose|g: nat| #[trigger] s_alt(abnf_rm(), inp, rl.Alternation, l, r, ts, g);
  has_is(seq![0int], 0); assert(seq![0int][0] == 0);
  let w = w_rule(k, Some(rl), f); let z = run(k, 0, inp, l, r);
  sw_alts(k, seq![0int], rl.Alternation, f, inp, l, r, ts, g, 0); k_sub_is(w, fin, w.len() as int, z);
}
// decided on the grammar itself
pub proof fn words() ensures in_all(w_rule(0, g_abnfRulename(), 3), seq![1int]), in_all(w_rule(1, g_abnfRepeat(), 3), seq![1int, 2]), in_all(w_rule(2, g_abnfCharVal(), 6), seq![6int, 7]), in_all(w_rule(3, g_abnfNumVal(), 4), seq![201int, 203, 205, 1001, 1003, 1005, 1601, 1603, 1605]), in_all(w_rule(4, g_abnfProseVal(), 3), seq![2int]),
{
  assert(in_all(w_rule(0, g_abnfRulename(), 3), seq![1int])) by (compute_only);
  assert(in_all(w_rule(1, g_abnfRepeat(), 3), seq![1int, 2])) by (compute_only);
  assert(in_all(w_rule(2, g_abnfCharVal(), 6), seq![6int, 7])) by (compute_only);
  assert(in_all(w_rule(3, g_abnfNumVal(), 4), seq![201int, 203, 205, 1001, 1003, 1005, 1601, 1603, 1605])) by (compute_only);
  assert(in_all(w_rule(4, g_abnfProseVal(), 3), seq![2int])) by (compute_only);
}
