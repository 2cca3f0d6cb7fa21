// ---- re.rs: what a regular-expression tree matches, and how it is written ----
pub open spec fn has_rng(rs: Seq<reRange>, c: int) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lo <= c <= rs[i].hi }
pub open spec fn cls_in(rs: Seq<reRange>, w: Seq<int>) -> bool { exists|c: int| is_scalar(c) && has_rng(rs, c) && w =~= #[trigger] enc(c) }
pub open spec fn cnt_ok(lo: int, hi: int, c: int) -> bool { lo <= c && 0 <= c && (hi == -1 || c <= hi) }
pub open spec fn re_in(n: reNode, w: Seq<int>) -> bool decreases n, 0int, 0int {
  match n {
    reNode::reClass(x) => cls_in(x.ranges, w),
    reNode::reConcat(x) => re_cats(x.parts, x.parts.len() as int, w),
    reNode::reAlt(x) => re_any(x.opts, x.opts.len() as int, w),
    reNode::reRepeat(x) => exists|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(*x.sub, c, w),
    reNode::reNever(x) => false,
    _ => w.len() == 0,
  }
}
pub open spec fn re_cats(ps: Seq<reNode>, n: int, w: Seq<int>) -> bool decreases ps, 0int, n {
  if n <= 0 { w.len() == 0 }
  else { n <= ps.len() && (exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(ps, n - 1, w.subrange(0, k)) && re_in(ps[n - 1], w.subrange(k, w.len() as int))) }
}
pub open spec fn re_any(ps: Seq<reNode>, n: int, w: Seq<int>) -> bool decreases ps, 0int, n {
  exists|i: int| 0 <= i < n && i < ps.len() && #[trigger] pk(i) && re_in(ps[i], w)
}
pub open spec fn re_pow(s: reNode, c: int, w: Seq<int>) -> bool decreases s, 1int, c {
  if c <= 0 { w.len() == 0 }
  else { exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(s, c - 1, w.subrange(0, k)) && re_in(s, w.subrange(k, w.len() as int)) }
}
pub open spec fn same(a: reNode, b: reNode) -> bool { forall|w: Seq<int>| #[trigger] re_in(a, w) <==> re_in(b, w) }
pub open spec fn same2(a: reNode, b: reNode) -> bool { forall|w: Seq<int>| re_in(a, w) <==> #[trigger] re_in(b, w) }
// every class has a member and only ranges RE2 can write
pub open spec fn rng_ok(r: reRange) -> bool { 0 <= r.lo <= r.hi <= 0x10FFFF && !(r.lo >= 0xD800 && r.hi <= 0xDFFF) }
pub open spec fn rngs_ok(rs: Seq<reRange>) -> bool { forall|i: int| 0 <= i < rs.len() ==> rng_ok(#[trigger] rs[i]) }
pub open spec fn wf_re(n: reNode) -> bool decreases n {
  match n {
    reNode::reClass(x) => x.ranges.len() > 0 && rngs_ok(x.ranges),
    reNode::reConcat(x) => forall|i: int| 0 <= i < x.parts.len() ==> wf_re(#[trigger] x.parts[i]),
    reNode::reAlt(x) => forall|i: int| 0 <= i < x.opts.len() ==> wf_re(#[trigger] x.opts[i]),
    reNode::reRepeat(x) => wf_re(*x.sub) && x.min >= 0 && (x.max == -1 || x.max >= x.min),
    reNode::reEmpty(x) => true,
    reNode::reNever(x) => true,
    _ => false,
  }
}
pub open spec fn wf_res(ps: Seq<reNode>) -> bool { forall|i: int| 0 <= i < ps.len() ==> wf_re(#[trigger] ps[i]) }
// closed grammars with coherent repetitions, which is what validation leaves
pub open spec fn clo_el(rm: RM, e: ElemItf) -> bool decreases e {
  match e {
    ElemItf::ElemRulename(x) => resolve(rm, x.Name) is Some,
    ElemItf::ElemGroup(x) => clo_alt(rm, x.Alternation),
    ElemItf::ElemOption(x) => clo_alt(rm, x.Alternation),
    _ => true,
  }
}
pub open spec fn clo_alt(rm: RM, a: Alternation) -> bool decreases a {
  forall|i: int, j: int| in_alt_ix(a, i, j) ==> rep_coh(a.Concatenations[i].Repetitions[j]) && clo_el(rm, (#[trigger] a.Concatenations[i].Repetitions[j]).Element)
}
pub open spec fn clo_cat(rm: RM, c: Concatenation) -> bool { forall|j: int| 0 <= j < c.Repetitions.len() ==> rep_coh(c.Repetitions[j]) && clo_el(rm, (#[trigger] c.Repetitions[j]).Element) }
pub open spec fn clo_rm(rm: RM) -> bool {
  wf_map(rm) && wf_map(g_coreRules()) && (forall|n: Seq<int>| #[trigger] resolve(rm, n) is Some ==> clo_alt(rm, resolve(rm, n)->Some_0.Alternation))
}
pub proof fn clo_cat_of(rm: RM, a: Alternation, i: int)
  requires clo_alt(rm, a), 0 <= i < a.Concatenations.len(), ensures clo_cat(rm, a.Concatenations[i]),
{ assert forall|j: int| 0 <= j < a.Concatenations[i].Repetitions.len() implies rep_coh(a.Concatenations[i].Repetitions[j]) && clo_el(rm, (#[trigger] a.Concatenations[i].Repetitions[j]).Element) by { assert(in_alt_ix(a, i, j)); } }
// the tree stands for the construct
pub open spec fn for_alt(rm: RM, a: Alternation, n: reNode) -> bool { forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_alt(rm, a, w) }
pub open spec fn for_cat(rm: RM, c: Concatenation, n: reNode) -> bool { forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_cat(rm, c, c.Repetitions.len() as int, w) }
pub open spec fn for_rep(rm: RM, r: Repetition, n: reNode) -> bool { forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_rep(rm, r, w) }
pub open spec fn for_el(rm: RM, e: ElemItf, n: reNode) -> bool { forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, e, w) }
pub open spec fn memo_ok(rm: RM, m: Map<Seq<int>, reNode>) -> bool {
  forall|k: Seq<int>| #[trigger] m.contains_key(k) ==> resolve(rm, k) is Some && for_alt(rm, resolve(rm, k)->Some_0.Alternation, m[k]) && wf_re(m[k])
}
pub open spec fn b_ok(b: reBuilder) -> bool { b.g is Some && clo_rm(b.g->Some_0.Rulemap) && (b.err is Nil ==> memo_ok(b.g->Some_0.Rulemap, b.memo)) }
pub open spec fn b_step(b: reBuilder, c: reBuilder) -> bool { c.g == b.g && b_ok(c) && (c.err is Nil ==> b.err is Nil) && (!(b.err is Nil) ==> c.err == b.err) && (b.err is Nil ==> c.err is Nil || c.err == s_ErrHandlingProseVal()) }
pub proof fn for_rep_intro(rm: RM, r: Repetition, s: reNode)
  requires for_el(rm, r.Element, s),
  ensures for_rep(rm, r, reNode::reRepeat(reRepeat { sub: Box::new(s), min: r.Min, max: r.Max })),
{
  let n = reNode::reRepeat(reRepeat { sub: Box::new(s), min: r.Min, max: r.Max });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_rep(rm, r, w) by {
    if re_in(n, w) {
      let c = choose|c: int| #[trigger] pk(c) && cnt_ok(r.Min, r.Max, c) && re_pow(s, c, w);
      pow_eq(rm, r.Element, s, c, w); d_rep_intro(rm, r, c, w);
    }
    if d_rep(rm, r, w) {
      let f = choose|f: nat| #[trigger] in_rep(rm, r, w, f);
      let c = choose|c: int| #[trigger] pk(c) && rep_allows(r, c) && in_pow(rm, r.Element, c, w, f);
      assert(d_pow(rm, r.Element, c, w)); pow_eq(rm, r.Element, s, c, w); assert(pk(c) && cnt_ok(r.Min, r.Max, c) && re_pow(s, c, w));
    }
  }
}
pub proof fn pow_eq(rm: RM, e: ElemItf, s: reNode, c: int, w: Seq<int>)
  requires for_el(rm, e, s), c >= 0, ensures re_pow(s, c, w) <==> d_pow(rm, e, c, w), decreases c,
{
  if c == 0 {
    if w.len() == 0 { d_pow_nil(rm, e); assert(w =~= Seq::<int>::empty()); }
    if d_pow(rm, e, 0, w) { let f = choose|f: nat| #[trigger] in_pow(rm, e, 0, w, f); }
  } else {
    if re_pow(s, c, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(s, c - 1, w.subrange(0, k)) && re_in(s, w.subrange(k, w.len() as int));
      pow_eq(rm, e, s, c - 1, w.subrange(0, k)); d_pow_snoc(rm, e, c - 1, w.subrange(0, k), w.subrange(k, w.len() as int));
      assert(w.subrange(0, k) + w.subrange(k, w.len() as int) =~= w);
    }
    if d_pow(rm, e, c, w) {
      let f = choose|f: nat| #[trigger] in_pow(rm, e, c, w, f);
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_pow(rm, e, c - 1, w.subrange(0, k), f) && in_el(rm, e, w.subrange(k, w.len() as int), f);
      assert(d_pow(rm, e, c - 1, w.subrange(0, k)) && d_el(rm, e, w.subrange(k, w.len() as int)));
      pow_eq(rm, e, s, c - 1, w.subrange(0, k)); assert(re_in(s, w.subrange(k, w.len() as int))); assert(cut(w, k));
    }
  }
}
pub proof fn cats_eq(rm: RM, c: Concatenation, ps: Seq<reNode>, n: int, w: Seq<int>)
  requires 0 <= n <= c.Repetitions.len(), n <= ps.len(), forall|k: int| 0 <= k < n ==> for_rep(rm, c.Repetitions[k], #[trigger] ps[k]),
  ensures re_cats(ps, n, w) <==> d_cat(rm, c, n, w), decreases n,
{
  if n == 0 {
    if w.len() == 0 { d_cat_nil(rm, c); assert(w =~= Seq::<int>::empty()); }
    if d_cat(rm, c, 0, w) { let f = choose|f: nat| #[trigger] in_cat(rm, c, 0, w, f); }
  } else {
    assert(for_rep(rm, c.Repetitions[n - 1], ps[n - 1]));
    if re_cats(ps, n, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(ps, n - 1, w.subrange(0, k)) && re_in(ps[n - 1], w.subrange(k, w.len() as int));
      cats_eq(rm, c, ps, n - 1, w.subrange(0, k)); d_cat_snoc(rm, c, n - 1, w.subrange(0, k), w.subrange(k, w.len() as int));
      assert(w.subrange(0, k) + w.subrange(k, w.len() as int) =~= w);
    }
    if d_cat(rm, c, n, w) {
      let f = choose|f: nat| #[trigger] in_cat(rm, c, n, w, f);
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && in_cat(rm, c, n - 1, w.subrange(0, k), f) && in_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int), f);
      assert(d_cat(rm, c, n - 1, w.subrange(0, k)) && d_rep(rm, c.Repetitions[n - 1], w.subrange(k, w.len() as int)));
      cats_eq(rm, c, ps, n - 1, w.subrange(0, k)); assert(re_in(ps[n - 1], w.subrange(k, w.len() as int))); assert(cut(w, k));
    }
  }
}
pub proof fn for_cat_intro(rm: RM, c: Concatenation, ps: Seq<reNode>)
  requires ps.len() == c.Repetitions.len(), forall|k: int| 0 <= k < ps.len() ==> for_rep(rm, c.Repetitions[k], #[trigger] ps[k]),
  ensures for_cat(rm, c, reNode::reConcat(reConcat { parts: ps })),
{
  let n = reNode::reConcat(reConcat { parts: ps });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_cat(rm, c, c.Repetitions.len() as int, w) by { cats_eq(rm, c, ps, ps.len() as int, w); }
}
pub proof fn for_alt_intro(rm: RM, a: Alternation, ps: Seq<reNode>)
  requires ps.len() == a.Concatenations.len(), forall|k: int| 0 <= k < ps.len() ==> for_cat(rm, a.Concatenations[k], #[trigger] ps[k]),
  ensures for_alt(rm, a, reNode::reAlt(reAlt { opts: ps })),
{
  let n = reNode::reAlt(reAlt { opts: ps });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_alt(rm, a, w) by {
    if re_in(n, w) {
      let i = choose|i: int| 0 <= i < ps.len() && i < ps.len() && #[trigger] pk(i) && re_in(ps[i], w);
      assert(for_cat(rm, a.Concatenations[i], ps[i])); d_alt_intro(rm, a, i, w);
    }
    if d_alt(rm, a, w) {
      let f = choose|f: nat| #[trigger] in_alt(rm, a, w, f);
      let i = choose|i: int| 0 <= i < a.Concatenations.len() && #[trigger] pk(i) && in_cat(rm, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int, w, f);
      assert(d_cat(rm, a.Concatenations[i], a.Concatenations[i].Repetitions.len() as int, w)); assert(for_cat(rm, a.Concatenations[i], ps[i])); assert(re_in(ps[i], w)); assert(pk(i));
    }
  }
}
pub proof fn for_group(rm: RM, x: ElemGroup, n: reNode)
  requires for_alt(rm, x.Alternation, n), ensures for_el(rm, ElemItf::ElemGroup(x), n),
{
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, ElemItf::ElemGroup(x), w) by {
    if re_in(n, w) { d_el_group(rm, x, w); }
    if d_el(rm, ElemItf::ElemGroup(x), w) { let f = choose|f: nat| #[trigger] in_el(rm, ElemItf::ElemGroup(x), w, f); assert(in_alt(rm, x.Alternation, w, f)); }
  }
}
pub proof fn for_rule(rm: RM, x: ElemRulename, n: reNode)
  requires resolve(rm, x.Name) is Some, for_alt(rm, resolve(rm, x.Name)->Some_0.Alternation, n), ensures for_el(rm, ElemItf::ElemRulename(x), n),
{
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, ElemItf::ElemRulename(x), w) by {
    if re_in(n, w) { d_el_rule(rm, x, w); }
    if d_el(rm, ElemItf::ElemRulename(x), w) { d_el_rule_inv(rm, x, w); }
  }
}
pub proof fn for_option(rm: RM, x: ElemOption, s: reNode)
  requires for_alt(rm, x.Alternation, s), ensures for_el(rm, ElemItf::ElemOption(x), reNode::reRepeat(reRepeat { sub: Box::new(s), min: 0, max: 1 })),
{
  let n = reNode::reRepeat(reRepeat { sub: Box::new(s), min: 0, max: 1 });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, ElemItf::ElemOption(x), w) by {
    if re_in(n, w) {
      let c = choose|c: int| #[trigger] pk(c) && cnt_ok(0, 1, c) && re_pow(s, c, w);
      if c == 1 { pow_one(s, w); } d_el_option(rm, x, w);
    }
    if d_el(rm, ElemItf::ElemOption(x), w) {
      let f = choose|f: nat| #[trigger] in_el(rm, ElemItf::ElemOption(x), w, f);
      if w.len() == 0 { assert(pk(0) && cnt_ok(0, 1, 0) && re_pow(s, 0, w)); }
      else { assert(in_alt(rm, x.Alternation, w, f)); assert(re_in(s, w)); pow_one(s, w); assert(pk(1) && cnt_ok(0, 1, 1) && re_pow(s, 1, w)); }
    }
  }
}
pub proof fn pow_one(s: reNode, w: Seq<int>) ensures re_pow(s, 1, w) <==> re_in(s, w) {
  reveal_with_fuel(re_pow, 3);
  if re_pow(s, 1, w) {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(s, 0, w.subrange(0, k)) && re_in(s, w.subrange(k, w.len() as int));
    assert(k == 0); assert(w.subrange(k, w.len() as int) =~= w);
  }
  if re_in(s, w) { assert(w.subrange(0, 0).len() == 0); assert(w.subrange(0, w.len() as int) =~= w); assert(re_pow(s, 0, w.subrange(0, 0))); assert(cut(w, 0)); }
}
// terminals: one class per character
pub open spec fn cls_for(e: ElemItf, k: int, n: reNode) -> bool {
  n is reClass && (forall|c: int| is_scalar(c) ==> (#[trigger] has_rng(n->reClass_0.ranges, c) <==> takes(e, k, c)))
}
pub proof fn chars_eq(e: ElemItf, ps: Seq<reNode>, n: int, w: Seq<int>)
  requires is_term(e), 0 <= n <= nchars(e), n <= ps.len(), forall|k: int| 0 <= k < n ==> cls_for(e, k, #[trigger] ps[k]),
  ensures re_cats(ps, n, w) <==> (exists|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n) && w =~= #[trigger] utf8_strs(cs)), decreases n,
{
  hide(enc);
  if n == 0 {
    let cs = Seq::<int>::empty(); assert(scalars(cs) && fits_k(e, cs, 0)); assert(utf8_strs(cs) =~= Seq::<int>::empty());
    if re_cats(ps, 0, w) { assert(w =~= utf8_strs(cs)); }
    if exists|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n) && w =~= #[trigger] utf8_strs(cs) {
      let ds = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n) && w =~= #[trigger] utf8_strs(cs); assert(ds.len() == 0); assert(utf8_strs(ds).len() == 0);
    }
  } else {
    assert(cls_for(e, n - 1, ps[n - 1]));
    if re_cats(ps, n, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(ps, n - 1, w.subrange(0, k)) && re_in(ps[n - 1], w.subrange(k, w.len() as int));
      chars_eq(e, ps, n - 1, w.subrange(0, k));
      let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n - 1) && w.subrange(0, k) =~= #[trigger] utf8_strs(cs);
      assert(cls_in(ps[n - 1]->reClass_0.ranges, w.subrange(k, w.len() as int)));
      let c = choose|c: int| is_scalar(c) && has_rng(ps[n - 1]->reClass_0.ranges, c) && w.subrange(k, w.len() as int) =~= #[trigger] enc(c);
      assert(takes(e, n - 1, c));
      let ds = cs.push(c); strs_push(cs, c);
      assert(scalars(ds) && fits_k(e, ds, n)); assert(w =~= w.subrange(0, k) + w.subrange(k, w.len() as int)); assert(w =~= utf8_strs(ds));
    }
    if exists|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n) && w =~= #[trigger] utf8_strs(cs) {
      let ds = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, n) && w =~= #[trigger] utf8_strs(cs);
      let cs = ds.drop_last(); let c = ds.last(); assert(ds =~= cs.push(c)); strs_push(cs, c);
      assert(is_scalar(ds[n - 1])); assert(scalars(cs)); assert(fits_k(e, cs, n - 1)); assert(takes(e, n - 1, c));
      let k = utf8_strs(cs).len() as int;
      assert(w.subrange(0, k) =~= utf8_strs(cs)); assert(w.subrange(k, w.len() as int) =~= enc(c));
      chars_eq(e, ps, n - 1, w.subrange(0, k)); assert(has_rng(ps[n - 1]->reClass_0.ranges, c)); assert(cls_in(ps[n - 1]->reClass_0.ranges, w.subrange(k, w.len() as int))); assert(cut(w, k));
    }
  }
}
pub proof fn term_el(rm: RM, e: ElemItf, w: Seq<int>)
  requires is_term(e), ensures d_el(rm, e, w) <==> in_term(e, w),
{ if in_term(e, w) { d_el_term(rm, e, w); } if d_el(rm, e, w) { let f = choose|f: nat| #[trigger] in_el(rm, e, w, f); } }
pub proof fn for_chars(rm: RM, e: ElemItf, ps: Seq<reNode>)
  requires is_term(e), ps.len() == nchars(e), forall|k: int| 0 <= k < ps.len() ==> cls_for(e, k, #[trigger] ps[k]),
  ensures for_el(rm, e, reNode::reConcat(reConcat { parts: ps })),
{
  let n = reNode::reConcat(reConcat { parts: ps });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, e, w) by {
    chars_eq(e, ps, ps.len() as int, w); term_el(rm, e, w);
    if re_in(n, w) { let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, ps.len() as int) && w =~= #[trigger] utf8_strs(cs); assert(fits(e, cs)); }
    if in_term(e, w) { let cs = choose|cs: Seq<int>| scalars(cs) && fits(e, cs) && w =~= #[trigger] utf8_strs(cs); assert(fits_k(e, cs, ps.len() as int)); }
  }
}
pub proof fn for_range(rm: RM, e: ElemItf, n: reNode)
  requires e is ElemNumVal, e->ElemNumVal_0.Status == 1, cls_for(e, 0, n), ensures for_el(rm, e, n),
{
  hide(enc);
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, e, w) by {
    term_el(rm, e, w);
    if re_in(n, w) {
      let c = choose|c: int| is_scalar(c) && has_rng(n->reClass_0.ranges, c) && w =~= #[trigger] enc(c); let cs = seq![c];
      assert(takes(e, 0, c)); strs_push(Seq::<int>::empty(), c); assert(Seq::<int>::empty().push(c) =~= cs); assert(utf8_strs(Seq::<int>::empty()) =~= Seq::<int>::empty());
      assert(scalars(cs) && fits(e, cs) && w =~= utf8_strs(cs));
    }
    if in_term(e, w) {
      let cs = choose|cs: Seq<int>| scalars(cs) && fits(e, cs) && w =~= #[trigger] utf8_strs(cs); let c = cs[0];
      strs_push(Seq::<int>::empty(), c); assert(Seq::<int>::empty().push(c) =~= cs); assert(utf8_strs(Seq::<int>::empty()) =~= Seq::<int>::empty());
      assert(takes(e, 0, c)); assert(has_rng(n->reClass_0.ranges, c)); assert(w =~= enc(c));
    }
  }
}
pub proof fn for_never(rm: RM, e: ElemItf)
  requires is_term(e), forall|cs: Seq<int>| scalars(cs) ==> !#[trigger] fits(e, cs), ensures forall|n: reNode| n is reNever ==> #[trigger] for_el(rm, e, n),
{ assert forall|n: reNode| n is reNever implies #[trigger] for_el(rm, e, n) by { assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_el(rm, e, w) by { term_el(rm, e, w); } } }
pub proof fn rng_few()
  ensures forall|rs: Seq<reRange>, c: int| rs.len() == 1 ==> (#[trigger] has_rng(rs, c) <==> rs[0].lo <= c <= rs[0].hi),
    forall|rs: Seq<reRange>, c: int| rs.len() == 2 ==> (#[trigger] has_rng(rs, c) <==> (rs[0].lo <= c <= rs[0].hi || rs[1].lo <= c <= rs[1].hi)),
{
  assert forall|rs: Seq<reRange>, c: int| rs.len() == 1 implies (#[trigger] has_rng(rs, c) <==> rs[0].lo <= c <= rs[0].hi) by { if rs[0].lo <= c <= rs[0].hi { assert(rs[0].lo <= c); } }
  assert forall|rs: Seq<reRange>, c: int| rs.len() == 2 implies (#[trigger] has_rng(rs, c) <==> (rs[0].lo <= c <= rs[0].hi || rs[1].lo <= c <= rs[1].hi)) by { if rs[0].lo <= c <= rs[0].hi { assert(rs[0].lo <= c); } if rs[1].lo <= c <= rs[1].hi { assert(rs[1].lo <= c); } }
}
pub proof fn name_ascii(s: Seq<int>) requires name_ok(s), ensures ascii(s) { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] <= 127 by { assert(name_char(s[i])); } }
// the kinds of tree a terminal is given
pub proof fn term_done(rm: RM, e: ElemItf, n: reNode)
  requires is_term(e),
  ensures
    e is ElemNumVal && e->ElemNumVal_0.Status == 1 && cls_for(e, 0, n) ==> for_el(rm, e, n),
    n is reConcat && n->reConcat_0.parts.len() == nchars(e) && (forall|k: int| 0 <= k < nchars(e) ==> cls_for(e, k, #[trigger] n->reConcat_0.parts[k])) ==> for_el(rm, e, n),
    n is reNever && e is ElemNumVal && e->ElemNumVal_0.Status == 1 && (forall|c: int| is_scalar(c) ==> !#[trigger] takes(e, 0, c)) ==> for_el(rm, e, n),
    n is reNever && e is ElemNumVal && e->ElemNumVal_0.Status != 1 && (exists|k: int| 0 <= k < nchars(e) && !is_scalar(nval(#[trigger] e->ElemNumVal_0.Elems[k], e->ElemNumVal_0.Base))) ==> for_el(rm, e, n),
{
  if e is ElemNumVal && e->ElemNumVal_0.Status == 1 && cls_for(e, 0, n) { for_range(rm, e, n); }
  if n is reConcat && n->reConcat_0.parts.len() == nchars(e) && (forall|k: int| 0 <= k < nchars(e) ==> cls_for(e, k, #[trigger] n->reConcat_0.parts[k])) { for_chars(rm, e, n->reConcat_0.parts); }
  if n is reNever && e is ElemNumVal && e->ElemNumVal_0.Status == 1 && (forall|c: int| is_scalar(c) ==> !#[trigger] takes(e, 0, c)) {
    assert forall|cs: Seq<int>| scalars(cs) implies !#[trigger] fits(e, cs) by { if fits(e, cs) { assert(takes(e, 0, cs[0])); } }
    for_never(rm, e);
  }
  if n is reNever && e is ElemNumVal && e->ElemNumVal_0.Status != 1 && (exists|k: int| 0 <= k < nchars(e) && !is_scalar(nval(#[trigger] e->ElemNumVal_0.Elems[k], e->ElemNumVal_0.Base))) {
    let k = choose|k: int| 0 <= k < nchars(e) && !is_scalar(nval(#[trigger] e->ElemNumVal_0.Elems[k], e->ElemNumVal_0.Base));
    assert forall|cs: Seq<int>| scalars(cs) implies !#[trigger] fits(e, cs) by { if fits(e, cs) { assert(cs[k] == nval(e->ElemNumVal_0.Elems[k], e->ElemNumVal_0.Base)); } }
    for_never(rm, e);
  }
}
// ranges sorted and merged
pub proof fn rng_perm(a: Seq<reRange>, b: Seq<reRange>)
  requires forall|x: reRange| #[trigger] a.contains(x) <==> b.contains(x),
  ensures forall|c: int| #[trigger] has_rng(a, c) <==> has_rng(b, c), rngs_ok(a) <==> rngs_ok(b),
{
  assert forall|c: int| #[trigger] has_rng(a, c) <==> has_rng(b, c) by { rng_sub(a, b, c); rng_sub(b, a, c); }
  rngs_sub(a, b); rngs_sub(b, a);
}
pub proof fn rng_sub(a: Seq<reRange>, b: Seq<reRange>, c: int)
  requires forall|x: reRange| #[trigger] a.contains(x) ==> b.contains(x), ensures has_rng(a, c) ==> has_rng(b, c),
{ if has_rng(a, c) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lo <= c <= a[i].hi; assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].lo <= c <= b[j].hi); } }
pub proof fn rngs_sub(a: Seq<reRange>, b: Seq<reRange>)
  requires forall|x: reRange| #[trigger] a.contains(x) ==> b.contains(x), ensures rngs_ok(b) ==> rngs_ok(a),
{ if rngs_ok(b) { assert forall|i: int| 0 <= i < a.len() implies rng_ok(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(rng_ok(b[j])); } } }
pub proof fn rng_last(rs: Seq<reRange>)
  requires rs.len() > 0, ensures forall|c: int| #[trigger] has_rng(rs, c) <==> has_rng(rs.drop_last(), c) || rs.last().lo <= c <= rs.last().hi,
{
  let d = rs.drop_last();
  assert forall|c: int| #[trigger] has_rng(rs, c) <==> has_rng(d, c) || rs.last().lo <= c <= rs.last().hi by {
    if has_rng(rs, c) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lo <= c <= rs[i].hi; if i < d.len() { assert(d[i] == rs[i]); } }
    if has_rng(d, c) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).lo <= c <= d[i].hi; assert(rs[i] == d[i]); assert(rs[i].lo <= c); }
    if rs.last().lo <= c <= rs.last().hi { assert(rs[rs.len() - 1].lo <= c); }
  }
}
pub proof fn rng_cat(a: Seq<reRange>, b: Seq<reRange>)
  ensures forall|c: int| #[trigger] has_rng(a + b, c) <==> has_rng(a, c) || has_rng(b, c), rngs_ok(a) && rngs_ok(b) ==> rngs_ok(a + b),
{
  let s = a + b;
  assert forall|c: int| #[trigger] has_rng(s, c) <==> has_rng(a, c) || has_rng(b, c) by {
    if has_rng(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lo <= c <= s[i].hi; if i < a.len() { assert(a[i] == s[i]); } else { assert(b[i - a.len()] == s[i]); } }
    if has_rng(a, c) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lo <= c <= a[i].hi; assert(s[i] == a[i]); assert(s[i].lo <= c); }
    if has_rng(b, c) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lo <= c <= b[i].hi; assert(s[i + a.len()] == b[i]); assert(s[i + a.len()].lo <= c); }
  }
}
// simplification keeps the language
pub open spec fn memo_s(m: Map<reNode, reNode>) -> bool { forall|k: reNode| #[trigger] m.contains_key(k) ==> wf_re(m[k]) && same(k, m[k]) }
pub open spec fn cats_same(a: Seq<reNode>, n: int, b: Seq<reNode>) -> bool { forall|w: Seq<int>| #[trigger] re_cats(a, n, w) <==> re_cats(b, b.len() as int, w) }
pub open spec fn any_same(a: Seq<reNode>, n: int, b: Seq<reNode>) -> bool { forall|w: Seq<int>| #[trigger] re_any(a, n, w) <==> re_any(b, b.len() as int, w) }
pub open spec fn is_cats(s: reNode, b: Seq<reNode>) -> bool { forall|w: Seq<int>| #[trigger] re_in(s, w) <==> re_cats(b, b.len() as int, w) }
pub proof fn cats_pre(a: Seq<reNode>, b: Seq<reNode>, n: int, w: Seq<int>)
  requires 0 <= n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k], ensures re_cats(a, n, w) ==> re_cats(b, n, w), decreases n,
{
  if n > 0 && re_cats(a, n, w) {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, n - 1, w.subrange(0, k)) && re_in(a[n - 1], w.subrange(k, w.len() as int));
    cats_pre(a, b, n - 1, w.subrange(0, k)); assert(cut(w, k));
  }
}
pub proof fn cats_app(a: Seq<reNode>, b: Seq<reNode>, n: int, w: Seq<int>)
  requires 0 <= n <= b.len(),
  ensures re_cats(a + b, a.len() + n, w) <==> (exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, a.len() as int, w.subrange(0, k)) && re_cats(b, n, w.subrange(k, w.len() as int))),
  decreases n,
{
  let s = a + b; let m = a.len() + n; let z = w.len() as int;
  if n == 0 {
    if re_cats(s, m, w) { cats_pre(s, a, m, w); assert(w.subrange(0, z) =~= w); assert(w.subrange(z, z).len() == 0); assert(re_cats(b, 0, w.subrange(z, z))); assert(cut(w, z)); }
    if exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, a.len() as int, w.subrange(0, k)) && re_cats(b, n, w.subrange(k, z)) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, a.len() as int, w.subrange(0, k)) && re_cats(b, n, w.subrange(k, z));
      assert(k == z); assert(w.subrange(0, k) =~= w); cats_pre(a, s, m, w);
    }
  } else {
    assert(s[m - 1] == b[n - 1]);
    if re_cats(s, m, w) {
      let j = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(s, m - 1, w.subrange(0, k)) && re_in(s[m - 1], w.subrange(k, w.len() as int));
      let u = w.subrange(0, j); cats_app(a, b, n - 1, u);
      let k = choose|k: int| 0 <= k <= u.len() && #[trigger] cut(u, k) && re_cats(a, a.len() as int, u.subrange(0, k)) && re_cats(b, n - 1, u.subrange(k, u.len() as int));
      let v = w.subrange(k, z);
      assert(u.subrange(0, k) =~= w.subrange(0, k)); assert(u.subrange(k, u.len() as int) =~= v.subrange(0, j - k)); assert(w.subrange(j, z) =~= v.subrange(j - k, v.len() as int));
      assert(cut(v, j - k)); assert(re_cats(b, n, v)); assert(cut(w, k));
    }
    if exists|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, a.len() as int, w.subrange(0, k)) && re_cats(b, n, w.subrange(k, z)) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(a, a.len() as int, w.subrange(0, k)) && re_cats(b, n, w.subrange(k, z));
      let v = w.subrange(k, z);
      let i = choose|i: int| 0 <= i <= v.len() && #[trigger] cut(v, i) && re_cats(b, n - 1, v.subrange(0, i)) && re_in(b[n - 1], v.subrange(i, v.len() as int));
      let j = k + i; let u = w.subrange(0, j);
      assert(u.subrange(0, k) =~= w.subrange(0, k)); assert(u.subrange(k, u.len() as int) =~= v.subrange(0, i)); assert(w.subrange(j, z) =~= v.subrange(i, v.len() as int));
      assert(cut(u, k)); cats_app(a, b, n - 1, u); assert(re_cats(s, m - 1, u)); assert(cut(w, j));
    }
  }
}
pub proof fn cats_one(s: reNode) ensures is_cats(s, seq![s]) {
  let b = seq![s];
  assert forall|w: Seq<int>| #[trigger] re_in(s, w) <==> re_cats(b, b.len() as int, w) by { one_cat(b, w); }
}
pub proof fn one_cat(b: Seq<reNode>, w: Seq<int>) requires b.len() == 1, ensures re_cats(b, 1, w) <==> re_in(b[0], w) {
  reveal_with_fuel(re_cats, 3);
  if re_cats(b, 1, w) {
    let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(b, 0, w.subrange(0, k)) && re_in(b[0], w.subrange(k, w.len() as int));
    assert(k == 0); assert(w.subrange(k, w.len() as int) =~= w);
  }
  if re_in(b[0], w) { assert(w.subrange(0, 0).len() == 0); assert(w.subrange(0, w.len() as int) =~= w); assert(re_cats(b, 0, w.subrange(0, 0))); assert(cut(w, 0)); }
}
pub proof fn cats_one_all() ensures forall|b: Seq<reNode>, w: Seq<int>| b.len() == 1 ==> (#[trigger] re_cats(b, 1, w) <==> re_in(b[0], w)) {
  assert forall|b: Seq<reNode>, w: Seq<int>| b.len() == 1 implies (#[trigger] re_cats(b, 1, w) <==> re_in(b[0], w)) by { one_cat(b, w); }
}
// the next part of a concatenation, given as a sequence of parts
pub proof fn cats_next(vs: Seq<reNode>, i: int, p: Seq<reNode>, q: Seq<reNode>)
  requires 0 <= i < vs.len(), cats_same(vs, i, p), is_cats(vs[i], q), ensures cats_same(vs, i + 1, p + q),
{
  assert forall|w: Seq<int>| #[trigger] re_cats(vs, i + 1, w) <==> re_cats(p + q, (p + q).len() as int, w) by {
    cats_app(p, q, q.len() as int, w); let z = w.len() as int;
    if re_cats(vs, i + 1, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(vs, i, w.subrange(0, k)) && re_in(vs[i], w.subrange(k, w.len() as int));
      assert(re_cats(p, p.len() as int, w.subrange(0, k)) && re_cats(q, q.len() as int, w.subrange(k, z))); assert(cut(w, k));
    }
    if re_cats(p + q, (p + q).len() as int, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(p, p.len() as int, w.subrange(0, k)) && re_cats(q, q.len() as int, w.subrange(k, w.len() as int));
      assert(re_cats(vs, i, w.subrange(0, k)) && re_in(vs[i], w.subrange(k, z))); assert(cut(w, k));
    }
  }
}
pub proof fn cats_step(vs: Seq<reNode>, i: int, p: Seq<reNode>, s: reNode)
  requires 0 <= i < vs.len(), same(vs[i], s), cats_same(vs, i, p),
  ensures s is reEmpty ==> cats_same(vs, i + 1, p), s is reConcat ==> cats_same(vs, i + 1, p + s->reConcat_0.parts), cats_same(vs, i + 1, p.push(s)),
{
  if s is reEmpty { let q = Seq::<reNode>::empty(); assert(is_cats(vs[i], q)); cats_next(vs, i, p, q); assert(p + q =~= p); }
  if s is reConcat { assert(is_cats(vs[i], s->reConcat_0.parts)); cats_next(vs, i, p, s->reConcat_0.parts); }
  let q = seq![s]; cats_one(s); assert(is_cats(vs[i], q)); cats_next(vs, i, p, q); assert(p + q =~= p.push(s));
}
pub proof fn cats_dead(vs: Seq<reNode>, i: int)
  requires 0 <= i < vs.len(),
    (forall|w: Seq<int>| !#[trigger] re_cats(vs, i, w)) || (forall|w: Seq<int>| !#[trigger] re_in(vs[i], w)),
  ensures forall|w: Seq<int>| !#[trigger] re_cats(vs, i + 1, w),
{
  assert forall|w: Seq<int>| !#[trigger] re_cats(vs, i + 1, w) by {
    if re_cats(vs, i + 1, w) { let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_cats(vs, i, w.subrange(0, k)) && re_in(vs[i], w.subrange(k, w.len() as int)); assert(re_cats(vs, i, w.subrange(0, k))); }
  }
}
// options
pub proof fn any_all()
  ensures
    forall|a: Seq<reNode>, b: Seq<reNode>, n: int, w: Seq<int>| n == a.len() + b.len() ==> (#[trigger] re_any(a + b, n, w) <==> re_any(a, a.len() as int, w) || re_any(b, b.len() as int, w)),
    forall|a: Seq<reNode>, x: reNode, n: int, w: Seq<int>| n == a.len() + 1 ==> (#[trigger] re_any(a.push(x), n, w) <==> re_any(a, a.len() as int, w) || re_in(x, w)),
    forall|a: Seq<reNode>, w: Seq<int>| a.len() == 1 ==> (#[trigger] re_any(a, 1, w) <==> re_in(a[0], w)),
{
  assert forall|a: Seq<reNode>, b: Seq<reNode>, n: int, w: Seq<int>| n == a.len() + b.len() implies (#[trigger] re_any(a + b, n, w) <==> re_any(a, a.len() as int, w) || re_any(b, b.len() as int, w)) by {
    let s = a + b;
    if re_any(s, n, w) { let i = choose|i: int| 0 <= i < n && i < s.len() && #[trigger] pk(i) && re_in(s[i], w); if i < a.len() { assert(pk(i) && re_in(a[i], w)); } else { assert(pk(i - a.len()) && re_in(b[i - a.len()], w)); } }
    if re_any(a, a.len() as int, w) { let i = choose|i: int| 0 <= i < a.len() && i < a.len() && #[trigger] pk(i) && re_in(a[i], w); assert(s[i] == a[i]); assert(pk(i) && re_in(s[i], w)); }
    if re_any(b, b.len() as int, w) { let i = choose|i: int| 0 <= i < b.len() && i < b.len() && #[trigger] pk(i) && re_in(b[i], w); assert(s[a.len() + i] == b[i]); assert(pk(a.len() + i) && re_in(s[a.len() + i], w)); }
  }
  assert forall|a: Seq<reNode>, x: reNode, n: int, w: Seq<int>| n == a.len() + 1 implies (#[trigger] re_any(a.push(x), n, w) <==> re_any(a, a.len() as int, w) || re_in(x, w)) by {
    let s = a.push(x);
    if re_any(s, n, w) { let i = choose|i: int| 0 <= i < n && i < s.len() && #[trigger] pk(i) && re_in(s[i], w); if i < a.len() { assert(pk(i) && re_in(a[i], w)); } }
    if re_any(a, a.len() as int, w) { let i = choose|i: int| 0 <= i < a.len() && i < a.len() && #[trigger] pk(i) && re_in(a[i], w); assert(s[i] == a[i]); assert(pk(i) && re_in(s[i], w)); }
    if re_in(x, w) { assert(pk(a.len() as int) && re_in(s[a.len() as int], w)); }
  }
  assert forall|a: Seq<reNode>, w: Seq<int>| a.len() == 1 implies (#[trigger] re_any(a, 1, w) <==> re_in(a[0], w)) by { if re_in(a[0], w) { assert(pk(0)); } }
}
pub proof fn any_next(vs: Seq<reNode>, i: int, w: Seq<int>)
  requires 0 <= i < vs.len(), ensures re_any(vs, i + 1, w) <==> re_any(vs, i, w) || re_in(vs[i], w),
{
  if re_any(vs, i + 1, w) { let k = choose|k: int| 0 <= k < i + 1 && k < vs.len() && #[trigger] pk(k) && re_in(vs[k], w); if k < i { assert(pk(k)); } }
  if re_any(vs, i, w) { let k = choose|k: int| 0 <= k < i && k < vs.len() && #[trigger] pk(k) && re_in(vs[k], w); assert(pk(k)); }
  if re_in(vs[i], w) { assert(pk(i)); }
}
pub proof fn any_step(vs: Seq<reNode>, i: int, p: Seq<reNode>, s: reNode)
  requires 0 <= i < vs.len(), same(vs[i], s), any_same(vs, i, p),
  ensures s is reNever ==> any_same(vs, i + 1, p), s is reAlt ==> any_same(vs, i + 1, p + s->reAlt_0.opts), any_same(vs, i + 1, p.push(s)),
{
  any_all();
  assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(vs, i, w) || re_in(s, w) by { any_next(vs, i, w); assert(re_in(vs[i], w) <==> re_in(s, w)); }
  if s is reNever { assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(p, p.len() as int, w) by { assert(re_any(vs, i, w) <==> re_any(p, p.len() as int, w)); } }
  if s is reAlt { let q = p + s->reAlt_0.opts; assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(q, q.len() as int, w) by { assert(re_any(vs, i, w) <==> re_any(p, p.len() as int, w)); assert(re_in(s, w) <==> re_any(s->reAlt_0.opts, s->reAlt_0.opts.len() as int, w)); } }
  let q = p.push(s); assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(q, q.len() as int, w) by { assert(re_any(vs, i, w) <==> re_any(p, p.len() as int, w)); }
}
// classes among the options, apart from the others
pub open spec fn split_any(vs: Seq<reNode>, i: int, rs: Seq<reRange>, os: Seq<reNode>) -> bool { forall|w: Seq<int>| #[trigger] re_any(vs, i, w) <==> re_any(os, os.len() as int, w) || cls_in(rs, w) }
pub proof fn cls_cat(a: Seq<reRange>, b: Seq<reRange>, w: Seq<int>) ensures cls_in(a + b, w) <==> cls_in(a, w) || cls_in(b, w) {
  rng_cat(a, b);
  if cls_in(a + b, w) { let c = choose|c: int| is_scalar(c) && has_rng(a + b, c) && w =~= #[trigger] enc(c); assert(has_rng(a, c) || has_rng(b, c)); }
  if cls_in(a, w) { let c = choose|c: int| is_scalar(c) && has_rng(a, c) && w =~= #[trigger] enc(c); assert(has_rng(a + b, c)); }
  if cls_in(b, w) { let c = choose|c: int| is_scalar(c) && has_rng(b, c) && w =~= #[trigger] enc(c); assert(has_rng(a + b, c)); }
}
pub proof fn cls_same(a: Seq<reRange>, b: Seq<reRange>)
  requires forall|c: int| #[trigger] has_rng(a, c) <==> has_rng(b, c), ensures forall|w: Seq<int>| #[trigger] cls_in(a, w) <==> cls_in(b, w),
{
  assert forall|w: Seq<int>| #[trigger] cls_in(a, w) <==> cls_in(b, w) by {
    if cls_in(a, w) { let c = choose|c: int| is_scalar(c) && has_rng(a, c) && w =~= #[trigger] enc(c); assert(has_rng(b, c)); }
    if cls_in(b, w) { let c = choose|c: int| is_scalar(c) && has_rng(b, c) && w =~= #[trigger] enc(c); assert(has_rng(a, c)); }
  }
}
pub proof fn split_step(vs: Seq<reNode>, i: int, rs: Seq<reRange>, os: Seq<reNode>)
  requires 0 <= i < vs.len(), split_any(vs, i, rs, os),
  ensures vs[i] is reClass ==> split_any(vs, i + 1, rs + vs[i]->reClass_0.ranges, os), split_any(vs, i + 1, rs, os.push(vs[i])),
{
  any_all();
  if vs[i] is reClass {
    let q = rs + vs[i]->reClass_0.ranges;
    assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(os, os.len() as int, w) || cls_in(q, w) by { any_next(vs, i, w); cls_cat(rs, vs[i]->reClass_0.ranges, w); assert(re_in(vs[i], w) <==> cls_in(vs[i]->reClass_0.ranges, w)); }
  }
  let q = os.push(vs[i]);
  assert forall|w: Seq<int>| #[trigger] re_any(vs, i + 1, w) <==> re_any(q, q.len() as int, w) || cls_in(rs, w) by { any_next(vs, i, w); }
}
// repetitions
pub proof fn pow_same(a: reNode, b: reNode, c: int, w: Seq<int>) requires same(a, b), ensures re_pow(a, c, w) <==> re_pow(b, c, w), decreases c {
  if c > 0 {
    if re_pow(a, c, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(a, c - 1, w.subrange(0, k)) && re_in(a, w.subrange(k, w.len() as int));
      pow_same(a, b, c - 1, w.subrange(0, k)); assert(re_in(b, w.subrange(k, w.len() as int))); assert(cut(w, k));
    }
    if re_pow(b, c, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(b, c - 1, w.subrange(0, k)) && re_in(b, w.subrange(k, w.len() as int));
      pow_same(a, b, c - 1, w.subrange(0, k)); assert(re_in(a, w.subrange(k, w.len() as int))); assert(cut(w, k));
    }
  }
}
pub proof fn pow_empty(s: reNode, c: int, w: Seq<int>) requires s is reEmpty, ensures re_pow(s, c, w) <==> w.len() == 0, decreases c {
  if c > 0 {
    if w.len() == 0 { let u = w.subrange(0, 0); pow_empty(s, c - 1, u); assert(re_in(s, w.subrange(0, w.len() as int))); assert(cut(w, 0)); }
    if re_pow(s, c, w) {
      let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(s, c - 1, w.subrange(0, k)) && re_in(s, w.subrange(k, w.len() as int));
      pow_empty(s, c - 1, w.subrange(0, k));
    }
  }
}
pub proof fn rep_simpl(n: reNode, s: reNode)
  requires wf_re(n), n is reRepeat, same(*n->reRepeat_0.sub, s),
  ensures
    same(n, reNode::reRepeat(reRepeat { sub: Box::new(s), min: n->reRepeat_0.min, max: n->reRepeat_0.max })),
    s is reNever && n->reRepeat_0.min == 0 ==> (forall|w: Seq<int>| #[trigger] re_in(n, w) <==> w.len() == 0),
    s is reNever && n->reRepeat_0.min != 0 ==> (forall|w: Seq<int>| !#[trigger] re_in(n, w)),
    s is reEmpty ==> (forall|w: Seq<int>| #[trigger] re_in(n, w) <==> w.len() == 0),
    n->reRepeat_0.min == 1 && n->reRepeat_0.max == 1 ==> same(n, s),
{
  let x = n->reRepeat_0; let m = reNode::reRepeat(reRepeat { sub: Box::new(s), min: x.min, max: x.max });
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_in(m, w) by {
    if re_in(n, w) { let c = choose|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(*x.sub, c, w); pow_same(*x.sub, s, c, w); assert(pk(c) && cnt_ok(x.min, x.max, c) && re_pow(s, c, w)); }
    if re_in(m, w) { let c = choose|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(s, c, w); pow_same(*x.sub, s, c, w); assert(pk(c) && cnt_ok(x.min, x.max, c) && re_pow(*x.sub, c, w)); }
  }
  if s is reNever {
    assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> (x.min == 0 && w.len() == 0) by {
      assert(re_in(n, w) <==> re_in(m, w));
      if re_in(m, w) { let c = choose|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(s, c, w); if c > 0 { let k = choose|k: int| 0 <= k <= w.len() && #[trigger] cut(w, k) && re_pow(s, c - 1, w.subrange(0, k)) && re_in(s, w.subrange(k, w.len() as int)); assert(re_in(s, w.subrange(k, w.len() as int))); } }
      if x.min == 0 && w.len() == 0 { assert(pk(0) && cnt_ok(x.min, x.max, 0) && re_pow(s, 0, w)); }
    }
  }
  if s is reEmpty {
    assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> w.len() == 0 by {
      assert(re_in(n, w) <==> re_in(m, w));
      if re_in(m, w) { let c = choose|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(s, c, w); pow_empty(s, c, w); }
      if w.len() == 0 { pow_empty(s, x.min, w); assert(pk(x.min) && cnt_ok(x.min, x.max, x.min) && re_pow(s, x.min, w)); }
    }
  }
  if x.min == 1 && x.max == 1 {
    assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_in(s, w) by {
      assert(re_in(n, w) <==> re_in(m, w)); pow_one(s, w);
      if re_in(m, w) { let c = choose|c: int| #[trigger] pk(c) && cnt_ok(x.min, x.max, c) && re_pow(s, c, w); assert(c == 1); }
      if re_in(s, w) { assert(pk(1) && cnt_ok(x.min, x.max, 1) && re_pow(s, 1, w)); }
    }
  }
}
pub proof fn cats_done(n: reNode, never: bool, ps: Seq<reNode>)
  requires n is reConcat, ({ let vs = n->reConcat_0.parts; if never { forall|w: Seq<int>| !#[trigger] re_cats(vs, vs.len() as int, w) } else { cats_same(vs, vs.len() as int, ps) } }),
  ensures never ==> (forall|r: reNode| r is reNever ==> #[trigger] same(n, r)), !never && ps.len() == 0 ==> (forall|r: reNode| r is reEmpty ==> #[trigger] same(n, r)),
    !never && ps.len() == 1 ==> same(n, ps[0]), !never ==> (forall|r: reNode| r is reConcat && r->reConcat_0.parts == ps ==> #[trigger] same(n, r)),
{
  let vs = n->reConcat_0.parts;
  if never { assert forall|w: Seq<int>| !#[trigger] re_in(n, w) by { assert(!re_cats(vs, vs.len() as int, w)); } }
  if !never {
    assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_cats(ps, ps.len() as int, w) by { assert(re_cats(vs, vs.len() as int, w) <==> re_cats(ps, ps.len() as int, w)); }
    if ps.len() == 1 { assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_in(ps[0], w) by { one_cat(ps, w); } }
  }
}
pub open spec fn any_is(n: reNode, ms: Seq<reNode>) -> bool { wf_res(ms) && (forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_any(ms, ms.len() as int, w)) }
pub proof fn any_done(n: reNode, ms: Seq<reNode>)
  requires any_is(n, ms),
  ensures ms.len() == 0 ==> (forall|r: reNode| r is reNever ==> #[trigger] same(n, r)), ms.len() == 1 ==> same(n, ms[0]), forall|r: reNode| r is reAlt && r->reAlt_0.opts == ms ==> wf_re(r) && #[trigger] same(n, r),
{ any_all(); }
pub open spec fn some_of(ms: Seq<reNode>, cs: Seq<reNode>, rs: Seq<reRange>) -> bool { ms =~= cs && wf_res(cs) && (forall|w: Seq<int>| #[trigger] re_any(cs, cs.len() as int, w) <==> cls_in(rs, w)) }
pub proof fn merge_done(n: reNode, vs: Seq<reNode>, rs: Seq<reRange>, os: Seq<reNode>, cs: Seq<reNode>, ms: Seq<reNode>)
  requires n is reAlt, any_same(n->reAlt_0.opts, n->reAlt_0.opts.len() as int, vs), split_any(vs, vs.len() as int, rs, os), wf_res(os), wf_res(cs), ms =~= cs + os,
    rs.len() == 0 ==> cs.len() == 0, rs.len() > 0 ==> cs.len() == 1 && cs[0] is reClass && (forall|c: int| #[trigger] has_rng(cs[0]->reClass_0.ranges, c) <==> has_rng(rs, c)),
  ensures any_is(n, ms),
{
  any_all(); let xs = n->reAlt_0.opts;
  assert forall|w: Seq<int>| #[trigger] re_any(cs, cs.len() as int, w) <==> cls_in(rs, w) by { if rs.len() > 0 { cls_same(cs[0]->reClass_0.ranges, rs); assert(re_in(cs[0], w) <==> cls_in(cs[0]->reClass_0.ranges, w)); } }
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> re_any(ms, ms.len() as int, w) by { assert(re_in(n, w) <==> re_any(xs, xs.len() as int, w)); assert(re_any(vs, vs.len() as int, w) <==> re_any(os, os.len() as int, w) || cls_in(rs, w)); assert(re_any(cs + os, (cs + os).len() as int, w) <==> re_any(cs, cs.len() as int, w) || re_any(os, os.len() as int, w)); }
  assert forall|i: int| 0 <= i < ms.len() implies wf_re(#[trigger] ms[i]) by { if i < cs.len() { assert(ms[i] == cs[i]); } else { assert(ms[i] == os[i - cs.len()]); } }
}
// how a tree is written
pub open spec fn rprec(n: reNode) -> int { match n { reNode::reConcat(x) => 2, reNode::reAlt(x) => 1, reNode::reRepeat(x) => 3, _ => 4 } }
pub open spec fn alnum(r: int) -> bool { (97 <= r <= 122) || (65 <= r <= 90) || (48 <= r <= 57) }
pub open spec fn rend_char(r: int) -> Seq<int> { if alnum(r) { enc(r) } else { seq![92int, 120, 123] + hexl(r) + seq![125int] } }
pub open spec fn rend_rng(r: reRange) -> Seq<int> { if r.lo == r.hi { rend_char(r.lo) } else { rend_char(r.lo) + seq![45int] + rend_char(r.hi) } }
pub open spec fn rend_rngs(rs: Seq<reRange>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { rend_rngs(rs, k - 1) + rend_rng(rs[k - 1]) } }
pub uninterp spec fn quote_meta(s: Seq<int>) -> Seq<int>;
pub open spec fn rend_cls(rs: Seq<reRange>) -> Seq<int> { if rs.len() == 1 && rs[0].lo == rs[0].hi { quote_meta(enc(rs[0].lo)) } else { seq![91int] + rend_rngs(rs, rs.len() as int) + seq![93int] } }
pub open spec fn rend_qty(lo: int, hi: int) -> Seq<int> {
  if lo == 0 && hi == 1 { seq![63int] } else if lo == 0 && hi == -1 { seq![42int] } else if lo == 1 && hi == -1 { seq![43int] }
  else if hi == -1 { seq![123int] + itoa(lo) + seq![44int, 125] } else if lo == hi { seq![123int] + itoa(lo) + seq![125int] }
  else { seq![123int] + itoa(lo) + seq![44int] + itoa(hi) + seq![125int] }
}
pub open spec fn rend_in(n: reNode) -> Seq<int> decreases n, 0int, 0int {
  match n {
    reNode::reNever(x) => seq![91int, 94, 92, 120, 48, 48, 45, 92, 120, 123, 49, 48, 102, 102, 102, 102, 125, 93],
    reNode::reClass(x) => rend_cls(x.ranges),
    reNode::reConcat(x) => rend_cats(x.parts, x.parts.len() as int),
    reNode::reAlt(x) => rend_alts(x.opts, x.opts.len() as int),
    reNode::reRepeat(x) => rend(*x.sub, 4) + rend_qty(x.min, x.max),
    _ => seq![40int, 63, 58, 41],
  }
}
pub open spec fn rend(n: reNode, ctx: int) -> Seq<int> decreases n, 1int, 0int { if rprec(n) < ctx { seq![40int, 63, 58] + rend_in(n) + seq![41int] } else { rend_in(n) } }
pub open spec fn rend_cats(ps: Seq<reNode>, k: int) -> Seq<int> decreases ps, 0int, k { if k <= 0 || k > ps.len() { Seq::empty() } else { rend_cats(ps, k - 1) + rend(ps[k - 1], 2) } }
pub open spec fn rend_alts(ps: Seq<reNode>, k: int) -> Seq<int> decreases ps, 0int, k {
  if k <= 0 || k > ps.len() { Seq::empty() } else if k == 1 { rend(ps[0], 1) } else { rend_alts(ps, k - 1) + seq![124int] + rend(ps[k - 1], 1) }
}
// what writing s does to the renderer and to the text
pub open spec fn wrote(rr: reRenderer, sb: Seq<int>, s: Seq<int>, r2: reRenderer, sb2: Seq<int>) -> bool {
  r2.max == rr.max
  && (!(rr.err is Nil) ==> r2 == rr && sb2 == sb)
  && (rr.err is Nil && r2.err is Nil ==> sb2 =~= sb + s && r2.n == rr.n + s.len() && (rr.max > 0 && rr.n <= rr.max ==> r2.n <= rr.max))
  && (rr.err is Nil && !(r2.err is Nil) ==> r2.err == GoErr::ErrRegexTooLarge(ErrRegexTooLarge { Max: rr.max }) && rr.max > 0 && rr.n + s.len() > rr.max)
}
pub proof fn wrote_nil(rr: reRenderer, sb: Seq<int>) ensures wrote(rr, sb, Seq::empty(), rr, sb) { assert(sb + Seq::<int>::empty() =~= sb); }
pub proof fn wrote_more(r0: reRenderer, s0: Seq<int>, s: Seq<int>, r1: reRenderer, s1: Seq<int>, t: Seq<int>, r2: reRenderer, s2: Seq<int>)
  requires wrote(r0, s0, s, r1, s1), wrote(r1, s1, t, r2, s2), ensures wrote(r0, s0, s + t, r2, s2),
{ assert((s0 + s) + t =~= s0 + (s + t)); }
pub proof fn rend_unf(n: reNode, ctx: int)
  ensures n is reConcat ==> rend_in(n) == rend_cats(n->reConcat_0.parts, n->reConcat_0.parts.len() as int), n is reAlt ==> rend_in(n) == rend_alts(n->reAlt_0.opts, n->reAlt_0.opts.len() as int),
    n is reRepeat ==> rend_in(n) == rend(*n->reRepeat_0.sub, 4) + rend_qty(n->reRepeat_0.min, n->reRepeat_0.max), n is reClass ==> rend_in(n) == rend_cls(n->reClass_0.ranges),
{}
pub proof fn same_for(rm: RM, a: Alternation, m: reNode, n: reNode) requires for_alt(rm, a, m), same(m, n), ensures for_alt(rm, a, n) {
  assert forall|w: Seq<int>| #[trigger] re_in(n, w) <==> d_alt(rm, a, w) by { assert(re_in(m, w) <==> re_in(n, w)); assert(re_in(m, w) <==> d_alt(rm, a, w)); }
}
