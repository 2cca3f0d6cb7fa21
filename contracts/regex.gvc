//@ interface reNode = *reClass | *reConcat | *reAlt | *reRepeat | *reEmpty | *reNever
//@ types reNode reBuilder
//@ func charClass(c, sensitive) (n)
//@   requires is_scalar(c)
//@   ensures wf_re(n) && n is reClass && (forall|t: int| is_scalar(t) ==> (#[trigger] has_rng(n->reClass_0.ranges, t) <==> fold_eq(c, t, sensitive)))
//@   ghost entry : rng_few();
//@ func reBuilder.rule(inout b, name) (n)
//@   requires b_ok(b) && ascii(name) && resolve(b.g->Some_0.Rulemap, name) is Some
//@   ensures b_step(b, new_b)
//@   ensures new_b.err is Nil ==> wf_re(n) && for_alt(b.g->Some_0.Rulemap, resolve(b.g->Some_0.Rulemap, name)->Some_0.Alternation, n)
//@   ghost entry : lower_twice(name); resolve_fold(b.g->Some_0.Rulemap, lower_all(name), name); resolve_name(b.g->Some_0.Rulemap, name);
//@ func reBuilder.alt(inout b, a) (n)
//@   requires b_ok(b) && wf_alt(a) && clo_alt(b.g->Some_0.Rulemap, a)
//@   ensures b_step(b, new_b)
//@   ensures new_b.err is Nil ==> wf_re(n) && for_alt(b.g->Some_0.Rulemap, a, n)
//@   ghost entry : wf_cats(a);
//@   loop 1 invariant b_step(b0, b) && opts.len() == $i && (b.err is Nil ==> wf_res(opts) && (forall|k: int| 0 <= k < $i ==> for_cat(b.g->Some_0.Rulemap, a.Concatenations[k], #[trigger] opts[k])))
//@   loop 1 head clo_cat_of(b.g->Some_0.Rulemap, a, $i);
//@   loop 1 exit if b.err is Nil { for_alt_intro(b.g->Some_0.Rulemap, a, opts); }
//@ func reBuilder.concat(inout b, c) (n)
//@   requires b_ok(b) && wf_cat(c) && clo_cat(b.g->Some_0.Rulemap, c)
//@   ensures b_step(b, new_b)
//@   ensures new_b.err is Nil ==> wf_re(n) && for_cat(b.g->Some_0.Rulemap, c, n)
//@   loop 1 invariant b_step(b0, b) && parts.len() == $i && (b.err is Nil ==> wf_res(parts) && (forall|k: int| 0 <= k < $i ==> for_rep(b.g->Some_0.Rulemap, c.Repetitions[k], #[trigger] parts[k])))
//@   loop 1 head assert(wf_rep(c.Repetitions[$i])); assert(clo_el(b.g->Some_0.Rulemap, c.Repetitions[$i].Element));
//@   ghost after reBuilder.elem : if b.err is Nil { for_rep_intro(b.g->Some_0.Rulemap, rep, $r0); }
//@   loop 1 exit if b.err is Nil { for_cat_intro(b.g->Some_0.Rulemap, c, parts); }
//@ func reBuilder.elem(inout b, e) (n)
//@   requires b_ok(b) && wf_el(e) && clo_el(b.g->Some_0.Rulemap, e)
//@   ensures b_step(b, new_b)
//@   ensures new_b.err is Nil ==> wf_re(n) && for_el(b.g->Some_0.Rulemap, e, n)
//@   ghost entry : if e is ElemRulename { name_ascii(e->ElemRulename_0.Name); }
//@   | rng_few();
//@   | let rm_ = b.g->Some_0.Rulemap;
//@   ghost after reBuilder.rule : if b.err is Nil { for_rule(rm_, e->ElemRulename_0, $r0); }
//@   ghost after reBuilder.alt : if b.err is Nil && e is ElemGroup { for_group(rm_, e->ElemGroup_0, $r0); } if b.err is Nil && e is ElemOption { for_option(rm_, e->ElemOption_0, $r0); }
//@   loop 1 invariant parts.len() == $i && wf_res(parts) && (forall|k: int| 0 <= k < $i ==> cls_for(e, k, #[trigger] parts[k]))
//@   loop 1 head assert(nv_ok(v.Elems[$i], v.Base));
//@   loop 2 invariant parts.len() == $i && wf_res(parts) && (forall|k: int| 0 <= k < $i ==> cls_for(e, k, #[trigger] parts[k]))
//@   ghost return : if e is ElemNumVal || e is ElemCharVal { term_done(rm_, e, n); }
//@ func normalizeRanges(rs) (r)
//@   requires rngs_ok(rs)
//@   ensures rngs_ok(r) && (rs.len() > 0 ==> r.len() > 0) && (forall|c: int| #[trigger] has_rng(r, c) <==> has_rng(rs, c))
//@   loop 1 pre rng_perm(cp, rs); rng_last(out); rng_last(cp.subrange(0, 1)); assert(out.drop_last() =~= cp.subrange(0, 1).drop_last());
//@   loop 1 invariant out.len() > 0 && rngs_ok(out) && rngs_ok(cp) && $s == cp.subrange(1, cp.len() as int) && (forall|c: int| #[trigger] has_rng(out, c) <==> has_rng(cp.subrange(0, $i + 1), c)) && (forall|j: int| $i < j < cp.len() ==> out.last().lo <= (#[trigger] cp[j]).lo)
//@   loop 1 head let oh_ = out; assert($s[$i] == cp[$i + 1]); rng_last(oh_); rng_last(cp.subrange(0, $i + 2)); assert(cp.subrange(0, $i + 2).drop_last() =~= cp.subrange(0, $i + 1));
//@   loop 1 end rng_last(out); let pr_ = cp.subrange(0, $i + 1); assert(pr_.last() == cp[$i]); assert(rng_ok(cp[$i])); assert(rng_ok(oh_.last()));
//@   | if out.len() == oh_.len() { assert(out.drop_last() =~= oh_.drop_last()); } else { assert(out.drop_last() =~= oh_); }
//@   | assert forall|q_: int| 0 <= q_ < out.len() implies rng_ok(#[trigger] out[q_]) by { if q_ < oh_.len() - 1 { assert(out[q_] == oh_[q_]); } }
//@   | assert forall|c: int| #[trigger] has_rng(out, c) <==> has_rng(pr_, c) by { assert(has_rng(oh_, c) <==> has_rng(pr_.drop_last(), c)); }
//@   loop 1 exit assert(cp.subrange(0, cp.len() as int) =~= cp);
//@ func simplify(n, inout memo) (r)
//@   requires wf_re(n) && memo_s(memo)
//@   ensures wf_re(r) && same(n, r) && memo_s(new_memo)
//@   loop 1 invariant memo_s(memo) && wf_res(parts) && (if never { forall|w: Seq<int>| !#[trigger] re_cats(v.parts, $i, w) } else { cats_same(v.parts, $i, parts) })
//@   loop 1 head let ph_ = parts; let nh_ = never;
//@   loop 1 end if !nh_ { cats_step(v.parts, $i - 1, ph_, sp); } if nh_ || sp is reNever { assert(same(v.parts[$i - 1], sp)); assert(sp is reNever ==> (forall|w: Seq<int>| !#[trigger] re_in(v.parts[$i - 1], w))); cats_dead(v.parts, $i - 1); }
//@   loop 1 exit cats_done(n, never, parts);
//@   loop 2 invariant memo_s(memo) && wf_res(opts) && any_same(v.opts, $i, opts)
//@   loop 2 head let ph_ = opts;
//@   loop 2 end any_step(v.opts, $i - 1, ph_, so);
//@   loop 3 invariant rngs_ok(ranges) && classes >= 0 && (classes > 0 <==> ranges.len() > 0) && wf_res(others) && split_any(opts, $i, ranges, others)
//@   loop 3 head split_step(opts, $i, ranges, others); if o is reClass { rng_cat(ranges, o->reClass_0.ranges); }
//@   ghost set merged : if (ranges.len() > 0 ==> $old.len() > 0) && merged =~= $old + others { merge_done(n, opts, ranges, others, $old, merged); any_done(n, merged); }
//@   ghost after normalizeRanges : cls_same($r0, $a0);
//@   ghost after simplify : if n is reRepeat { rep_simpl(n, $r0); }
//@ trusted strings.Builder.WriteString(inout b, s) (n, err)
//@   ensures new_b == b + s
//@ trusted strings.Builder.WriteByte(inout b, c) (err)
//@   ensures new_b == b.push(c)
//@ pure strings.Builder.String(b) = b
//@ pure regexp.QuoteMeta(s) = quote_meta(s)
//@ func reNode.prec(n) (p)
//@   requires !(n is Nil)
//@   ensures p == rprec(n)
//@ func reClass.prec(nn x) (p)
//@   ensures p == rprec(reNode::reClass(x))
//@ func reConcat.prec(nn x) (p)
//@   ensures p == rprec(reNode::reConcat(x))
//@ func reAlt.prec(nn x) (p)
//@   ensures p == rprec(reNode::reAlt(x))
//@ func reRepeat.prec(nn x) (p)
//@   ensures p == rprec(reNode::reRepeat(x))
//@ func reEmpty.prec(nn x) (p)
//@   ensures p == rprec(reNode::reEmpty(x))
//@ func reNever.prec(nn x) (p)
//@   ensures p == rprec(reNode::reNever(x))
//@ func classEscape(r) (s)
//@   requires 0 <= r <= 0x10FFFF
//@   ensures s =~= rend_char(r)
//@ func regescape(r) (s)
//@   ensures s =~= quote_meta(enc(r))
//@ func quantifier(min, max) (s)
//@   requires min >= 0 && max >= -1
//@   ensures s =~= rend_qty(min, max)
//@ func renderClass(nn c) (s)
//@   requires rngs_ok(c.ranges)
//@   ensures s =~= rend_cls(c.ranges)
//@   loop 1 invariant b =~= seq![91int] + rend_rngs(c.ranges, $i)
//@   loop 1 head assert(rng_ok(c.ranges[$i])); assert(rend_rngs(c.ranges, $i + 1) == rend_rngs(c.ranges, $i) + rend_rng(c.ranges[$i]));
//@ func reRenderer.write(inout rr, inout sb, s) ()
//@   ensures wrote(rr, sb, s, new_rr, new_sb)
//@ func reRenderer.render(inout rr, inout sb, n, ctx) ()
//@   requires wf_re(n) && 1 <= ctx <= 4
//@   ensures wrote(rr, sb, rend(n, ctx), new_rr, new_sb)
//@   hide wrote
//@   ghost entry : let pre_ = if rprec(n) < ctx { seq![40int, 63, 58] } else { Seq::<int>::empty() }; let mut acc_ = Seq::<int>::empty(); wrote_nil(rr, sb); rend_unf(n, ctx);
//@   ghost before reRenderer.write : let rb_ = rr; let sbb_ = sb;
//@   ghost after reRenderer.write : wrote_more(rr0, sb0, acc_, rb_, sbb_, $a2, rr, sb); acc_ = acc_ + $a2;
//@   ghost before reRenderer.render : let rb_ = rr; let sbb_ = sb;
//@   ghost after reRenderer.render : wrote_more(rr0, sb0, acc_, rb_, sbb_, rend($a2, $a3), rr, sb); acc_ = acc_ + rend($a2, $a3);
//@   loop 1 pre assert(pre_ + rend_cats(v.parts, 0) =~= acc_);
//@   loop 1 invariant wrote(rr0, sb0, pre_ + rend_cats(v.parts, $i), rr, sb)
//@   loop 1 head assert(rend_cats(v.parts, $i + 1) == rend_cats(v.parts, $i) + rend(v.parts[$i], 2)); acc_ = pre_ + rend_cats(v.parts, $i);
//@   loop 1 end assert(pre_ + rend_cats(v.parts, $i) =~= acc_);
//@   loop 1 exit acc_ = pre_ + rend_in(n);
//@   loop 2 pre assert(pre_ + rend_alts(v.opts, 0) =~= acc_);
//@   loop 2 invariant wrote(rr0, sb0, pre_ + rend_alts(v.opts, $i), rr, sb)
//@   loop 2 head if $i > 0 { assert(rend_alts(v.opts, $i + 1) == rend_alts(v.opts, $i) + seq![124int] + rend(v.opts[$i], 1)); } else { assert(rend_alts(v.opts, 1) == rend(v.opts[0], 1)); assert(rend_alts(v.opts, 0).len() == 0); } acc_ = pre_ + rend_alts(v.opts, $i);
//@   loop 2 end assert(pre_ + rend_alts(v.opts, $i) =~= acc_);
//@   loop 2 exit acc_ = pre_ + rend_in(n);
//@   ghost return : assert(rr0.err is Nil ==> acc_ =~= rend(n, ctx)); assert(!(rr0.err is Nil) ==> wrote(rr0, sb0, rend(n, ctx), rr, sb)) by { reveal(wrote); }
//@ opaque RegexOption
//@ trusted RegexOption.applyRegex(o, inout opts)
//@ func Grammar.Regex(nn g, rulename, opts) (r, err)
//@   modifies node
//@   requires clo_rm(g.Rulemap) && ascii(rulename)
//@   ensures err is ErrRuleNotFound <==> resolve(g.Rulemap, rulename) is None
//@   ensures err is ErrCyclicRule <==> resolve(g.Rulemap, rulename) is Some && near_cycle(g.Rulemap, rulename)
//@   ensures err is Nil || err is ErrRuleNotFound || err is ErrCyclicRule || err is ErrRegexTooLarge || err == s_ErrHandlingProseVal()
//@   ensures err is Nil ==> (exists|n: reNode| #[trigger] wf_re(n) && r =~= rend(n, 1) && for_alt(g.Rulemap, resolve(g.Rulemap, rulename)->Some_0.Alternation, n))
//@   ghost return : assert(err is Nil ==> (o->Some_0.maxLen > 0 ==> r.len() <= o->Some_0.maxLen)); assert(err is ErrRegexTooLarge ==> o->Some_0.maxLen > 0 && err->ErrRegexTooLarge_0.Max == o->Some_0.maxLen);
//@   loop 1 invariant o is Some
//@   ghost after simplify : same_for(g.Rulemap, resolve(g.Rulemap, rulename)->Some_0.Alternation, $a0, $r0);
//@   ghost after reRenderer.render : assert(wf_re(node)); assert(Seq::<int>::empty() + rend(node, 1) =~= rend(node, 1));
