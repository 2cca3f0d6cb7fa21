// ---- lang.rs: the language of a grammar, by derivations of bounded height ----
// in_*(.., w, f): the byte string w is derived with at most f nested rule expansions
pub type RM = Map<Seq<int>, Option<Rule>>;
pub open spec fn rep_allows(r: Repetition, c: int) -> bool { r.Min <= c && 0 <= c && (r.Max == -1 || c <= r.Max) }
pub open spec fn in_alt(rm: RM, a: Alternation, w: Seq<int>, f: nat) -> bool decreases f, a, 0int, 0int {
  exists|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && in_cat(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f)
}
// the first n repetitions of a concatenation
pub open spec fn in_cat(rm: RM, c: Concatenation, n: int, w: Seq<int>, f: nat) -> bool decreases f, c, 0int, n {
  if n <= 0 { w.len() == 0 }
  else { n <= c.Repetitions.len() && (exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f)) }
}
pub open spec fn in_rep(rm: RM, r: Repetition, w: Seq<int>, f: nat) -> bool decreases f, r, 0int, 0int {
  exists|c: int| #[trigger] pk(c) && rep_allows(r, c) && in_pow(rm, r.Element, c, w, f)
}
// exactly c occurrences of an element
pub open spec fn in_pow(rm: RM, e: ElemItf, c: int, w: Seq<int>, f: nat) -> bool decreases f, e, 1int, c {
  if c <= 0 { w.len() == 0 }
  else { exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_pow(rm, e, c - 1, w.subrange(0, k), f) && in_el(rm, e, w.subrange(k, w.len() as int), f) }
}
pub open spec fn pk(c: int) -> bool { true }
pub open spec fn cut(w: Seq<int>, k: int) -> bool { true }
pub open spec fn in_el(rm: RM, e: ElemItf, w: Seq<int>, f: nat) -> bool decreases f, e, 0int, 0int {
  match e {
    ElemItf::ElemRulename(x) => f > 0 && resolve(rm, x.Name) is Some && in_alt(rm, resolve(rm, x.Name)->Some_0.Alternation, w, (f - 1) as nat),
    ElemItf::ElemGroup(x) => in_alt(rm, x.Alternation, w, f),
    ElemItf::ElemOption(x) => w.len() == 0 || in_alt(rm, x.Alternation, w, f),
    _ => in_term(e, w),
  }
}
// derivability
pub open spec fn d_alt(rm: RM, a: Alternation, w: Seq<int>) -> bool { exists|f: nat| #[trigger] in_alt(rm, a, w, f) }
pub open spec fn d_cat(rm: RM, c: Concatenation, n: int, w: Seq<int>) -> bool { exists|f: nat| #[trigger] in_cat(rm, c, n, w, f) }
pub open spec fn d_rep(rm: RM, r: Repetition, w: Seq<int>) -> bool { exists|f: nat| #[trigger] in_rep(rm, r, w, f) }
pub open spec fn d_pow(rm: RM, e: ElemItf, c: int, w: Seq<int>) -> bool { exists|f: nat| #[trigger] in_pow(rm, e, c, w, f) }
pub open spec fn d_el(rm: RM, e: ElemItf, w: Seq<int>) -> bool { exists|f: nat| #[trigger] in_el(rm, e, w, f) }
// the rule derives w
pub open spec fn d_rule(rm: RM, name: Seq<int>, w: Seq<int>) -> bool { resolve(rm, name) is Some && d_alt(rm, resolve(rm, name)->Some_0.Alternation, w) }

// heights are monotone
pub proof fn mono_alt(rm: RM, a: Alternation, w: Seq<int>, f: nat, g: nat)
  requires f <= g, in_alt(rm, a, w, f), ensures in_alt(rm, a, w, g), decreases f, a, 0int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && in_cat(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f);
  mono_cat(rm, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, w, f, g); assert(pk(c));
}
pub proof fn mono_cat(rm: RM, c: Concatenation, n: int, w: Seq<int>, f: nat, g: nat)
  requires f <= g, in_cat(rm, c, n, w, f), ensures in_cat(rm, c, n, w, g), decreases f, c, 0int, n,
{
  if n > 0 {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
    mono_cat(rm, c, n - 1, w.subrange(0, k), f, g);
    mono_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f, g);
    assert(cut(w, k));
  }
}
pub proof fn mono_rep(rm: RM, r: Repetition, w: Seq<int>, f: nat, g: nat)
  requires f <= g, in_rep(rm, r, w, f), ensures in_rep(rm, r, w, g), decreases f, r, 0int, 0int,
{
  let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && in_pow(rm, r.Element, c, w, f);
  mono_pow(rm, r.Element, c, w, f, g); assert(pk(c));
}
pub proof fn mono_pow(rm: RM, e: ElemItf, c: int, w: Seq<int>, f: nat, g: nat)
  requires f <= g, in_pow(rm, e, c, w, f), ensures in_pow(rm, e, c, w, g), decreases f, e, 1int, c,
{
  if c > 0 {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_pow(rm, e, c - 1, w.subrange(0, k), f) && in_el(rm, e, w.subrange(k, w.len() as int), f);
    mono_pow(rm, e, c - 1, w.subrange(0, k), f, g);
    mono_el(rm, e, w.subrange(k, w.len() as int), f, g);
    assert(cut(w, k));
  }
}
pub proof fn mono_el(rm: RM, e: ElemItf, w: Seq<int>, f: nat, g: nat)
  requires f <= g, in_el(rm, e, w, f), ensures in_el(rm, e, w, g), decreases f, e, 0int, 0int,
{
  match e {
    ElemItf::ElemRulename(x) => { mono_alt(rm, resolve(rm, x.Name)->Some_0.Alternation, w, (f - 1) as nat, (g - 1) as nat); },
    ElemItf::ElemGroup(x) => { mono_alt(rm, x.Alternation, w, f, g); },
    ElemItf::ElemOption(x) => { if w.len() > 0 { mono_alt(rm, x.Alternation, w, f, g); } },
    _ => {},
  }
}
// composition rules
pub proof fn d_cat_nil(rm: RM, c: Concatenation) ensures d_cat(rm, c, 0, Seq::<int>::empty()) { assert(in_cat(rm, c, 0, Seq::<int>::empty(), 0)); }
pub proof fn d_cat_snoc(rm: RM, c: Concatenation, n: int, u: Seq<int>, v: Seq<int>)
  requires 0 <= n < c.Repetitions.len(), d_cat(rm, c, n, u), d_rep(rm, c.Repetitions[n], v),
  ensures d_cat(rm, c, n + 1, u + v),
{
  let f = choose|f: nat| #[trigger] in_cat(rm, c, n, u, f); let g = choose|g: nat| #[trigger] in_rep(rm, c.Repetitions[n], v, g);
  let h = if f >= g { f } else { g };
  mono_cat(rm, c, n, u, f, h); mono_rep(rm, c.Repetitions[n], v, g, h);
  let w = u + v; let k = u.len() as int;
  assert(w.subrange(0, k) =~= u); assert(w.subrange(k, w.len() as int) =~= v); assert(cut(w, k));
  assert(in_cat(rm, c, n + 1, w, h));
}
pub proof fn d_pow_nil(rm: RM, e: ElemItf) ensures d_pow(rm, e, 0, Seq::<int>::empty()) { assert(in_pow(rm, e, 0, Seq::<int>::empty(), 0)); }
pub proof fn d_pow_snoc(rm: RM, e: ElemItf, c: int, u: Seq<int>, v: Seq<int>)
  requires 0 <= c, d_pow(rm, e, c, u), d_el(rm, e, v),
  ensures d_pow(rm, e, c + 1, u + v),
{
  let f = choose|f: nat| #[trigger] in_pow(rm, e, c, u, f); let g = choose|g: nat| #[trigger] in_el(rm, e, v, g);
  let h = if f >= g { f } else { g };
  mono_pow(rm, e, c, u, f, h); mono_el(rm, e, v, g, h);
  let w = u + v; let k = u.len() as int;
  assert(w.subrange(0, k) =~= u); assert(w.subrange(k, w.len() as int) =~= v); assert(cut(w, k));
  assert(in_pow(rm, e, c + 1, w, h));
}
pub proof fn d_rep_intro(rm: RM, r: Repetition, c: int, w: Seq<int>)
  requires rep_allows(r, c), d_pow(rm, r.Element, c, w), ensures d_rep(rm, r, w),
{ let f = choose|f: nat| #[trigger] in_pow(rm, r.Element, c, w, f); assert(pk(c)); assert(in_rep(rm, r, w, f)); }
pub proof fn d_alt_intro(rm: RM, a: Alternation, i: int, w: Seq<int>)
  requires 0 <= i < a.Concatenations.len(), d_cat(rm, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int, w),
  ensures d_alt(rm, a, w),
{ let n = a.Concatenations[i].Repetitions.len() as int; let f = choose|f: nat| #[trigger] in_cat(rm, a.Concatenations[i], n, w, f); assert(pk(i)); assert(in_alt(rm, a, w, f)); }
pub proof fn d_el_group(rm: RM, x: ElemGroup, w: Seq<int>)
  requires d_alt(rm, x.Alternation, w), ensures d_el(rm, ElemItf::ElemGroup(x), w),
{ let f = choose|f: nat| #[trigger] in_alt(rm, x.Alternation, w, f); assert(in_el(rm, ElemItf::ElemGroup(x), w, f)); }
pub proof fn d_el_option(rm: RM, x: ElemOption, w: Seq<int>)
  requires w.len() == 0 || d_alt(rm, x.Alternation, w), ensures d_el(rm, ElemItf::ElemOption(x), w),
{
  if w.len() == 0 { assert(in_el(rm, ElemItf::ElemOption(x), w, 0)); }
  else { let f = choose|f: nat| #[trigger] in_alt(rm, x.Alternation, w, f); assert(in_el(rm, ElemItf::ElemOption(x), w, f)); }
}
pub proof fn d_el_rule(rm: RM, x: ElemRulename, w: Seq<int>)
  requires d_rule(rm, x.Name, w), ensures d_el(rm, ElemItf::ElemRulename(x), w),
{ let f = choose|f: nat| #[trigger] in_alt(rm, resolve(rm, x.Name)->Some_0.Alternation, w, f); assert(in_el(rm, ElemItf::ElemRulename(x), w, f + 1)); }
pub proof fn d_el_term(rm: RM, e: ElemItf, w: Seq<int>)
  requires in_term(e, w), ensures d_el(rm, e, w),
{ assert(in_el(rm, e, w, 0)); }
// and their inverses
pub proof fn d_el_rule_inv(rm: RM, x: ElemRulename, w: Seq<int>)
  requires d_el(rm, ElemItf::ElemRulename(x), w), ensures d_rule(rm, x.Name, w),
{ let f = choose|f: nat| #[trigger] in_el(rm, ElemItf::ElemRulename(x), w, f); assert(in_alt(rm, resolve(rm, x.Name)->Some_0.Alternation, w, (f - 1) as nat)); }
