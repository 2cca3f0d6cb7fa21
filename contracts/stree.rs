// ---- stree.rs: what a derivation of the ABNF syntax shows ----
pub open spec fn leaf_t(t: Option<ParseTree>, l: int, r: int) -> bool { t is Some && t->Some_0.Rule.len() == 0 && t->Some_0.Start == l && t->Some_0.End == r && t->Some_0.Children.len() == 0 }
// a terminal shows one leaf; if it is empty it may show none
pub open spec fn leafs(ts: Seq<Option<ParseTree>>, l: int, r: int) -> bool { (ts.len() == 0 && l == r) || (ts.len() == 1 && leaf_t(ts[0], l, r)) }
pub type TS = Seq<Option<ParseTree>>;
pub open spec fn tpos(m: int, q: int) -> bool { true }
// ts: what a derivation of inp[l..r] shows, with at most f nested rule expansions
pub open spec fn s_alt(rm: RM, inp: Seq<int>, a: Alternation, l: int, r: int, ts: TS, f: nat) -> bool decreases f, a, 0int, 0int {
  exists|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(rm, inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, f)
}
// the first n repetitions of a concatenation, in order
pub open spec fn s_cat(rm: RM, inp: Seq<int>, c: Concatenation, n: int, l: int, r: int, ts: TS, f: nat) -> bool decreases f, c, 0int, n {
  if n <= 0 { l == r && ts.len() == 0 }
  else { n <= c.Repetitions.len() && (exists|m: int, q: int| l <= m <= r && 0 <= q <= ts.len() && #[trigger] tpos(m, q) && s_cat(rm, inp, c, n - 1, l, m, ts.subrange(0, q), f) && s_rep(rm, inp, c.Repetitions[n - 1], m, r, ts.subrange(q, ts.len() as int), f)) }
}
pub open spec fn s_rep(rm: RM, inp: Seq<int>, x: Repetition, l: int, r: int, ts: TS, f: nat) -> bool decreases f, x, 0int, 0int {
  exists|c: int| #[trigger] pk(c) && rep_allows(x, c) && s_pow(rm, inp, x.Element, c, l, r, ts, f)
}
// exactly c occurrences of an element, in order
pub open spec fn s_pow(rm: RM, inp: Seq<int>, e: ElemItf, c: int, l: int, r: int, ts: TS, f: nat) -> bool decreases f, e, 1int, c {
  if c <= 0 { l == r && ts.len() == 0 }
  else { exists|m: int, q: int| l <= m <= r && 0 <= q <= ts.len() && #[trigger] tpos(m, q) && s_el(rm, inp, e, l, m, ts.subrange(0, q), f) && s_pow(rm, inp, e, c - 1, m, r, ts.subrange(q, ts.len() as int), f) }
}
// a reference shows one node of the rule it resolves to, and a derivation of that rule below it; a terminal shows a leaf; groups and options show what is in them
pub open spec fn s_el(rm: RM, inp: Seq<int>, e: ElemItf, l: int, r: int, ts: TS, f: nat) -> bool decreases f, e, 0int, 0int {
  match e {
    ElemItf::ElemRulename(x) => f > 0 && resolve(rm, x.Name) is Some && ts.len() == 1 && rnode(rm, x.Name, l, r, ts[0]) && s_alt(rm, inp, resolve(rm, x.Name)->Some_0.Alternation, l, r, ts[0]->Some_0.Children, (f - 1) as nat),
    ElemItf::ElemGroup(x) => s_alt(rm, inp, x.Alternation, l, r, ts, f),
    ElemItf::ElemOption(x) => (l == r && ts.len() == 0) || s_alt(rm, inp, x.Alternation, l, r, ts, f),
    _ => term_at(e, inp, l, r) && leafs(ts, l, r),
  }
}
pub open spec fn rnode(rm: RM, n: Seq<int>, l: int, r: int, t: Option<ParseTree>) -> bool { t is Some && t->Some_0.Rule == resolve(rm, n)->Some_0.Name && t->Some_0.Start == l && t->Some_0.End == r }
pub open spec fn S_alt(rm: RM, inp: Seq<int>, a: Alternation, l: int, r: int, ts: TS) -> bool { exists|f: nat| #[trigger] s_alt(rm, inp, a, l, r, ts, f) }
pub open spec fn S_cat(rm: RM, inp: Seq<int>, c: Concatenation, n: int, l: int, r: int, ts: TS) -> bool { exists|f: nat| #[trigger] s_cat(rm, inp, c, n, l, r, ts, f) }
pub open spec fn S_rep(rm: RM, inp: Seq<int>, x: Repetition, l: int, r: int, ts: TS) -> bool { exists|f: nat| #[trigger] s_rep(rm, inp, x, l, r, ts, f) }
pub open spec fn S_pow(rm: RM, inp: Seq<int>, e: ElemItf, c: int, l: int, r: int, ts: TS) -> bool { exists|f: nat| #[trigger] s_pow(rm, inp, e, c, l, r, ts, f) }
pub open spec fn S_el(rm: RM, inp: Seq<int>, e: ElemItf, l: int, r: int, ts: TS) -> bool { exists|f: nat| #[trigger] s_el(rm, inp, e, l, r, ts, f) }
// t is the tree of a derivation of the whole input by the rule
pub open spec fn S_tree(rm: RM, inp: Seq<int>, root: Seq<int>, t: Option<ParseTree>) -> bool {
  resolve(rm, root) is Some && rnode(rm, root, 0, inp.len() as int, t) && S_alt(rm, inp, resolve(rm, root)->Some_0.Alternation, 0, inp.len() as int, t->Some_0.Children)
}
pub proof fn smono_alt(rm: RM, inp: Seq<int>, a: Alternation, l: int, r: int, ts: TS, f: nat, g: nat) requires f <= g, s_alt(rm, inp, a, l, r, ts, f), ensures s_alt(rm, inp, a, l, r, ts, g), decreases f, a, 0int, 0int,
{
  let c = choose|c: int| 0 <= c < a.Concatenations.len() && #[trigger] pk(c) && s_cat(rm, inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, f);
  smono_cat(rm, inp, a.Concatenations[c], a.Concatenations[c].Repetitions.len() as int, l, r, ts, f, g); assert(pk(c));
}
pub proof fn smono_cat(rm: RM, inp: Seq<int>, c: Concatenation, n: int, l: int, r: int, ts: TS, f: nat, g: nat) requires f <= g, s_cat(rm, inp, c, n, l, r, ts, f), ensures s_cat(rm, inp, c, n, l, r, ts, g), decreases f, c, 0int, n,
{
  if n > 0 {
    let (m, q) = choose|m: int, q: int| l <= m <= r && 0 <= q <= ts.len() && #[trigger] tpos(m, q) && s_cat(rm, inp, c, n - 1, l, m, ts.subrange(0, q), f) && s_rep(rm, inp, c.Repetitions[n - 1], m, r, ts.subrange(q, ts.len() as int), f);
    smono_cat(rm, inp, c, n - 1, l, m, ts.subrange(0, q), f, g); smono_rep(rm, inp, c.Repetitions[n - 1], m, r, ts.subrange(q, ts.len() as int), f, g); assert(tpos(m, q));
  }
}
pub proof fn smono_rep(rm: RM, inp: Seq<int>, x: Repetition, l: int, r: int, ts: TS, f: nat, g: nat) requires f <= g, s_rep(rm, inp, x, l, r, ts, f), ensures s_rep(rm, inp, x, l, r, ts, g), decreases f, x, 0int, 0int,
{ let c = choose|c: int| #[trigger] pk(c) && rep_allows(x, c) && s_pow(rm, inp, x.Element, c, l, r, ts, f); smono_pow(rm, inp, x.Element, c, l, r, ts, f, g); assert(pk(c)); }
pub proof fn smono_pow(rm: RM, inp: Seq<int>, e: ElemItf, c: int, l: int, r: int, ts: TS, f: nat, g: nat) requires f <= g, s_pow(rm, inp, e, c, l, r, ts, f), ensures s_pow(rm, inp, e, c, l, r, ts, g), decreases f, e, 1int, c,
{
  if c > 0 {
    let (m, q) = choose|m: int, q: int| l <= m <= r && 0 <= q <= ts.len() && #[trigger] tpos(m, q) && s_el(rm, inp, e, l, m, ts.subrange(0, q), f) && s_pow(rm, inp, e, c - 1, m, r, ts.subrange(q, ts.len() as int), f);
    smono_el(rm, inp, e, l, m, ts.subrange(0, q), f, g); smono_pow(rm, inp, e, c - 1, m, r, ts.subrange(q, ts.len() as int), f, g); assert(tpos(m, q));
  }
}
pub proof fn smono_el(rm: RM, inp: Seq<int>, e: ElemItf, l: int, r: int, ts: TS, f: nat, g: nat) requires f <= g, s_el(rm, inp, e, l, r, ts, f), ensures s_el(rm, inp, e, l, r, ts, g), decreases f, e, 0int, 0int,
{
  match e {
    ElemItf::ElemRulename(x) => { smono_alt(rm, inp, resolve(rm, x.Name)->Some_0.Alternation, l, r, ts[0]->Some_0.Children, (f - 1) as nat, (g - 1) as nat); },
    ElemItf::ElemGroup(x) => { smono_alt(rm, inp, x.Alternation, l, r, ts, f, g); },
    ElemItf::ElemOption(x) => { if !(l == r && ts.len() == 0) { smono_alt(rm, inp, x.Alternation, l, r, ts, f, g); } },
    _ => {},
  }
}
pub proof fn S_cat_nil(rm: RM, inp: Seq<int>, c: Concatenation, l: int, ts: TS) requires ts.len() == 0, ensures S_cat(rm, inp, c, 0, l, l, ts) { assert(s_cat(rm, inp, c, 0, l, l, ts, 0)); }
pub proof fn S_cat_snoc(rm: RM, inp: Seq<int>, c: Concatenation, n: int, l: int, m: int, r: int, ts: TS, q: int)
  requires 0 <= n < c.Repetitions.len(), l <= m <= r, 0 <= q <= ts.len(), S_cat(rm, inp, c, n, l, m, ts.subrange(0, q)), S_rep(rm, inp, c.Repetitions[n], m, r, ts.subrange(q, ts.len() as int)), ensures S_cat(rm, inp, c, n + 1, l, r, ts),
{
  let a = ts.subrange(0, q); let b = ts.subrange(q, ts.len() as int);
  let f = choose|f: nat| #[trigger] s_cat(rm, inp, c, n, l, m, a, f); let g = choose|g: nat| #[trigger] s_rep(rm, inp, c.Repetitions[n], m, r, b, g); let h = if f >= g { f } else { g };
  smono_cat(rm, inp, c, n, l, m, a, f, h); smono_rep(rm, inp, c.Repetitions[n], m, r, b, g, h); assert(tpos(m, q)); assert(s_cat(rm, inp, c, n + 1, l, r, ts, h));
}
pub proof fn S_pow_nil(rm: RM, inp: Seq<int>, e: ElemItf, l: int, ts: TS) requires ts.len() == 0, ensures S_pow(rm, inp, e, 0, l, l, ts) { assert(s_pow(rm, inp, e, 0, l, l, ts, 0)); }
pub proof fn S_pow_cons(rm: RM, inp: Seq<int>, e: ElemItf, c: int, l: int, m: int, r: int, ts: TS, q: int)
  requires 0 <= c, l <= m <= r, 0 <= q <= ts.len(), S_el(rm, inp, e, l, m, ts.subrange(0, q)), S_pow(rm, inp, e, c, m, r, ts.subrange(q, ts.len() as int)), ensures S_pow(rm, inp, e, c + 1, l, r, ts),
{
  let a = ts.subrange(0, q); let b = ts.subrange(q, ts.len() as int);
  let f = choose|f: nat| #[trigger] s_el(rm, inp, e, l, m, a, f); let g = choose|g: nat| #[trigger] s_pow(rm, inp, e, c, m, r, b, g); let h = if f >= g { f } else { g };
  smono_el(rm, inp, e, l, m, a, f, h); smono_pow(rm, inp, e, c, m, r, b, g, h); assert(tpos(m, q)); assert(s_pow(rm, inp, e, c + 1, l, r, ts, h));
}
pub proof fn S_rep_of(rm: RM, inp: Seq<int>, x: Repetition, c: int, l: int, r: int, ts: TS) requires rep_allows(x, c), S_pow(rm, inp, x.Element, c, l, r, ts), ensures S_rep(rm, inp, x, l, r, ts),
{ let f = choose|f: nat| #[trigger] s_pow(rm, inp, x.Element, c, l, r, ts, f); assert(pk(c)); assert(s_rep(rm, inp, x, l, r, ts, f)); }
pub proof fn S_alt_of(rm: RM, inp: Seq<int>, a: Alternation, i: int, l: int, r: int, ts: TS) requires 0 <= i < a.Concatenations.len(), S_cat(rm, inp, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int, l, r, ts), ensures S_alt(rm, inp, a, l, r, ts),
{ let n = a.Concatenations[i].Repetitions.len() as int; let f = choose|f: nat| #[trigger] s_cat(rm, inp, a.Concatenations[i], n, l, r, ts, f); assert(pk(i)); assert(s_alt(rm, inp, a, l, r, ts, f)); }
