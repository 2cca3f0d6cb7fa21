//@ types recognizer
//@ pure maps.Equal(a, b) = (a =~= b)
//@ func cloneSet(s) (r)
//@   ensures clone_of(r, s)
//@   loop 1 invariant (forall|k: int| #[trigger] out.contains_key(k) <==> $done.contains(k)) && (forall|k: int| #[trigger] out.contains_key(k) ==> out[k])
//@ func recognizer.reachAlt(inout r, alt, index) (out)
//@   requires rec_full(r) && wf_alt(alt) && 0 <= index <= r.input.len() && ctx_alt(r, alt, index) && idle(r, index)
//@   ensures ends_alt(r.g->Some_0.Rulemap, alt, r.input, index, out)
//@   ensures cov2_alt(r, new_r, alt, index, out)
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   hide rec_ok lr_exact memo_cov wf_el rd_cat rd_alt lc_alt lc_cat
//@   ghost entry : wf_cats(alt);
//@   loop 1 invariant rec_full(r) && rec_keep(r0, r) && ends_alt(r.g->Some_0.Rulemap, alt, r.input, index, out) && covs2_alt(r0, r, alt, $i, index, out)
//@   loop 1 head at_alt_of(r.g->Some_0.Rulemap, alt, $i, r.input, index); ctx_keep(r0, r, index); ctx_cat_of(r, alt, $i, index); let o_ = out;
//@   loop 1 exit covs_done(cx(r0), alt, index, out); if r.seedReads == r0.seedReads { covs_done(cx0(r0), alt, index, out); }
//@   loop 2 invariant ends_alt(r.g->Some_0.Rulemap, alt, r.input, index, out) && (forall|k: int| #[trigger] tt(o_, k) ==> tt(out, k)) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(out, k))
//@ func recognizer.reachConcat(inout r, c, index) (out)
//@   requires rec_full(r) && wf_cat(c) && 0 <= index <= r.input.len() && ctx_cat(r, c, index) && idle(r, index)
//@   ensures ends_cat(r.g->Some_0.Rulemap, c, c.Repetitions.len() as int, r.input, index, out)
//@   ensures cov2_cat(r, new_r, c, c.Repetitions.len() as int, index, out)
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   hide rec_ok lr_exact memo_cov wf_el rd_cat rd_rep lc_el lc_cat
//@   ghost entry : at_cat_start(r.g->Some_0.Rulemap, c, r.input, index); let s0_ = Map::<int, bool>::empty().insert(index, true); cov_cat_start(cx(r), c, index, s0_); cov_cat_start(cx0(r), c, index, s0_);
//@   | assert(cov2_cat(r, r, c, 0, index, s0_)) by { reveal(rd_cat); }
//@   loop 1 invariant rec_full(r) && rec_keep(r0, r) && ends_cat(r.g->Some_0.Rulemap, c, $i, r.input, index, cur) && cov2_cat(r0, r, c, $i, index, cur)
//@   loop 1 head ctx_keep(r0, r, index);
//@   loop 1 exit if brk_1 { assert(cur =~= Map::<int, bool>::empty()); cov_cat_dead(cx(r0), c, ri_1 + 1, c.Repetitions.len() as int, index, cur); if r.seedReads == r0.seedReads { cov_cat_dead(cx0(r0), c, ri_1 + 1, c.Repetitions.len() as int, index, cur); } }
//@   loop 2 invariant rec_full(r) && rec_keep(r0, r) && ends_cat(r.g->Some_0.Rulemap, c, ri_1 + 1, r.input, index, next) && covs2_rep(r0, r, rep, $done, next) && (r.seedReads == r0.seedReads ==> cov_cat(cx0(r0), c, ri_1, index, cur))
//@   loop 2 head at_cat_step(r.g->Some_0.Rulemap, c, ri_1, r.input, index, p); assert(wf_rep(c.Repetitions[ri_1])); ctx_keep(r0, r, index); ctx_step(r, c, ri_1, index, p); let n_ = next;
//@   loop 2 exit cov_cat_next(cx(r0), c, ri_1, index, cur, $done, next); if r.seedReads == r0.seedReads { cov_cat_next(cx0(r0), c, ri_1, index, cur, $done, next); }
//@   loop 3 invariant ends_cat(r.g->Some_0.Rulemap, c, ri_1 + 1, r.input, index, next) && (forall|k: int| #[trigger] tt(n_, k) ==> tt(next, k)) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(next, k))
//@ func recognizer.reachRep(inout r, rep, index) (out)
//@   requires rec_full(r) && wf_rep(rep) && 0 <= index <= r.input.len() && ctx_el(r, rep.Element, index) && idle(r, index)
//@   ensures ends_rep(r.g->Some_0.Rulemap, rep, r.input, index, out)
//@   hide rec_ok wf_el lr_exact memo_cov rd_rep rd_el rd_pow lc_el rep_inv
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   ensures cov2_rep(r, new_r, rep, index, out)
//@   ghost entry : at_pow_start(r.g->Some_0.Rulemap, rep.Element, r.input, index); if rep.Min == 0 { at_rep_of(r.g->Some_0.Rulemap, rep, 0, r.input, index); }
//@   | let s0_ = Map::<int, bool>::empty().insert(index, true); let t0_ = (if rep.Min == 0 { s0_ } else { Map::<int, bool>::empty() }); rep_start(cx(r), rep, index, s0_, t0_); rep_start(cx0(r), rep, index, s0_, t0_);
//@   loop 1 invariant rec_full(r) && rec_keep(r0, r) && c >= 1 && ends_rep(r.g->Some_0.Rulemap, rep, r.input, index, ends) && ends_pow(r.g->Some_0.Rulemap, rep.Element, c - 1, r.input, index, level) && rep2_inv(r0, r, rep, c, index, level, ends) && (c <= rep.Min ==> forall|k: int| !#[trigger] ends.contains_key(k))
//@   loop 1 head let c_ = c; let e_ = ends; if c >= rep.Min { at_rep_of(r.g->Some_0.Rulemap, rep, c, r.input, index); }
//@   loop 2 invariant rec_full(r) && rec_keep(r0, r) && steps(r.g->Some_0.Rulemap, rep.Element, r.input, level, next) && covs2_el(r0, r, rep.Element, $done, next) && (r.seedReads == r0.seedReads ==> rep_inv(cx0(r0), rep, c, index, level, ends))
//@   loop 2 head ctx_keep(r0, r, index); ctx_same(r, rep.Element, index, p); let n_ = next;
//@   loop 2 exit ends_pow_steps(r.g->Some_0.Rulemap, rep.Element, c - 1, r.input, index, level, next); assert($done =~= level.dom());
//@   | if next =~= level && c < rep.Min { ends_pow_skip(r.g->Some_0.Rulemap, rep.Element, c - 1, rep.Min - 1, r.input, index, level); }
//@   | let sm_ = r.seedReads == r0.seedReads;
//@   | if forall|k: int| !#[trigger] next.contains_key(k) { rep_dead(cx(r0), rep, c, index, level, next, ends); if sm_ { rep_dead(cx0(r0), rep, c, index, level, next, ends); } }
//@   | if c < rep.Min { rep_low(cx(r0), rep, c, c, index, level, next, ends); if sm_ { rep_low(cx0(r0), rep, c, c, index, level, next, ends); } if next =~= level { rep_low(cx(r0), rep, c, rep.Min - 1, index, level, next, ends); if sm_ { rep_low(cx0(r0), rep, c, rep.Min - 1, index, level, next, ends); } } }
//@   loop 3 invariant steps(r.g->Some_0.Rulemap, rep.Element, r.input, level, next) && (forall|k: int| #[trigger] tt(n_, k) ==> tt(next, k)) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(next, k))
//@   loop 4 invariant ends_rep(r.g->Some_0.Rulemap, rep, r.input, index, ends) && (forall|k: int| #[trigger] ends.contains_key(k) <==> e_.contains_key(k) || $done.contains(k)) && (forall|k: int| #[trigger] tt(e_, k) ==> tt(ends, k)) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(ends, k)) && (!grew ==> ends =~= e_)
//@   loop 4 exit if !grew { rep_still(cx(r0), rep, c, index, level, next, ends); if r.seedReads == r0.seedReads { rep_still(cx0(r0), rep, c, index, level, next, ends); } }
//@   | rep_more(cx(r0), rep, c, index, level, next, e_, ends); if r.seedReads == r0.seedReads { rep_more(cx0(r0), rep, c, index, level, next, e_, ends); }
//@   loop 1 exit if !brk_1 { rep_max(cx(r0), rep, c, index, level, ends); if r.seedReads == r0.seedReads { rep_max(cx0(r0), rep, c, index, level, ends); } }
//@ func recognizer.reachElem(inout r, elem, index) (out)
//@   requires rec_full(r) && wf_el(elem) && 0 <= index <= r.input.len() && ctx_el(r, elem, index) && idle(r, index)
//@   ensures ends_el(r.g->Some_0.Rulemap, elem, r.input, index, out)
//@   ensures cov2_el(r, new_r, elem, index, out)
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   hide rd_el lc_el at_el lp lr_exact lcg
//@   ghost entry : let rm_ = r.g->Some_0.Rulemap; if elem is ElemRulename { lower_name(rm_, elem->ElemRulename_0, r.input, index); elem_lr(r, elem->ElemRulename_0, index); }
//@   | assert forall|s: Map<int, bool>| #[trigger] ends_el(rm_, elem, r.input, index, s) implies (forall|j: int| #[trigger] s.contains_key(j) ==> keyed(rm_, r.input, skey(estr(elem), index), j)) by { keyed_intro(rm_, r.input, elem, index, s); }
//@   | let k_ = skey(estr(elem), index); let m_ = r.memo; if m_.contains_key(k_) { hit(r, elem, index); } if elem is ElemRulename && r.inProgress.contains_key(k_) { estr_rule(elem->ElemRulename_0); no_reentry(r, elem->ElemRulename_0, index); }
//@   ghost before recognizer.computeElem : enter(r0, r, elem, index); let r1_ = r;
//@   ghost after recognizer.computeElem : leave_all(r0, r1_, r, elem, index);
//@ func recognizer.reachLeftRec(inout r, name, scc, index) (out)
//@   requires rec_full(r) && name_ok(name) && lower_all(name) == name && 0 <= index <= r.input.len() && r.leftRec.contains_key(name) && r.leftRec[name] == scc && lr_ctx(r, name, index) && idle(r, index)
//@   ensures ends_el(r.g->Some_0.Rulemap, ElemItf::ElemRulename(ElemRulename { Name: name }), r.input, index, out)
//@   ensures cov2_el(r, new_r, ElemItf::ElemRulename(ElemRulename { Name: name }), index, out)
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   hide rd_el rd_alt at_el at_alt lp lr_exact lcg reaches lc_el lc_alt cyc
//@   ghost entry : let rm_ = r.g->Some_0.Rulemap; let e_ = ElemItf::ElemRulename(ElemRulename { Name: name }); skey_assoc(index); rule_keyed(rm_, r.input, name, index); estr_rule(ElemRulename { Name: name });
//@   | if r.memo.contains_key(skey(name, index)) { hit(r, e_, index); } else if r.growing.contains_key(skey(name, index)) { seed_cov(r, name, index); }
//@   loop 1 invariant r.g == r0.g && r.input == r0.input && r.leftRec == r0.leftRec && r.memo == r0.memo && r.inProgress == r0.inProgress && r.seedReads == r0.seedReads && keys.len() == scc.len() && memo_ok(rm_, r.input, r.growing) && all_true(r.growing) && kept_seeds(r0.growing, r.growing) && (forall|q: int| 0 <= q < $i ==> #[trigger] keys[q] == skey(scc[q], index)) && (forall|k: Seq<int>| #[trigger] r.growing.contains_key(k) <==> r0.growing.contains_key(k) || keys.subrange(0, $i).contains(k))
//@   loop 1 head let pk_ = keys; 
//@   loop 1 end assert(keys.subrange(0, $i - 1) =~= pk_.subrange(0, $i - 1)); sub_push(keys, $i - 1);
//@   loop 1 pre estr_rules(); keys_none(r.leftRec, r.growing, name, index); assert(keys.subrange(0, 0) =~= Seq::<Seq<int>>::empty());
//@   loop 1 exit assert(keys.subrange(0, keys.len() as int) =~= keys); grow_ok_add(r.leftRec, r0.growing, r.growing, name, index, keys); scc_keys(rm_, r.input, scc, keys, index); keys_none(r0.leftRec, r0.growing, name, index); lr_enter(r0, r, name, index, keys);
//@   loop 2 invariant grow_inv(r0, r, name, index, keys) && (!changed ==> sclosed(r, scc, keys, index, scc.len() as int))
//@   loop 3 invariant grow_inv(r0, r, name, index, keys) && (!changed ==> sclosed(r, scc, keys, index, $i))
//@   loop 3 head assert(keys.contains(keys[$i])); scc_at(r.leftRec, name, $i); rule_keyed(rm_, r.input, x, index); assert(keys[$i] == skey(x, index)); let r2_ = r; let ch_ = changed; lr_member(r0, r, name, index, keys, $i);
//@   | if resolve(rm_, x) is Some { rule_wf(rm_, x); at_up(rm_, ElemItf::ElemRulename(ElemRulename { Name: x }), r.input, index); }
//@   loop 4 invariant grow_inv(r0, r, name, index, keys) && (ch_ ==> changed) && (!changed ==> r.growing == r2_.growing) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(r.growing[keys[ri_3]], k))
//@   loop 4 head assert(keyed(rm_, r.input, keys[ri_3], e)); let g_ = r.growing;
//@   loop 2 exit lr_ripe(r0, r, name, index, keys);
//@   loop 5 pre let r5_ = r; assert(keys.subrange(0, keys.len() as int) =~= keys); assert(scc.subrange(0, 0) =~= Seq::<Seq<int>>::empty());
//@   loop 5 invariant stored(r0, r5_, r, name, index, keys, $i) && memo_ok(rm_, r.input, r.memo) && ends_el(rm_, e_, r.input, index, result) && (scc.subrange(0, $i).contains(name) ==> cov_el(cx0(r0), e_, index, result))
//@   loop 5 head scc_at(r.leftRec, name, $i); rule_keyed(rm_, r.input, x, index); assert(keys[$i] == skey(x, index)); store_step(r0, r5_, r, name, index, keys, $i); clone_cov(cx0(r0), ElemItf::ElemRulename(ElemRulename { Name: x }), index, r5_.growing[keys[$i]]);
//@   loop 5 end sub_push(scc, $i - 1);
//@   loop 5 exit store_done(r0, r5_, r, name, index, keys); assert(scc.subrange(0, scc.len() as int) =~= scc); cov_seeds(cx(r0), e_, index, result);
//@ func recognizer.computeElem(inout r, elem, index) (out)
//@   requires rec_full(r) && wf_el(elem) && 0 <= index <= r.input.len() && ctx_in(r, elem, index) && idle(r, index)
//@   ensures ends_el(r.g->Some_0.Rulemap, elem, r.input, index, out)
//@   ensures is_term(elem) || elem is ElemProseVal ==> (forall|j: int| #[trigger] out.contains_key(j) <==> term_at(elem, r.input, index, j))
//@   ensures cov2_el(r, new_r, elem, index, out)
//@   ensures rec_full(new_r) && rec_keep(r, new_r)
//@   hide rd_el rd_alt at_el at_alt lp lr_exact lcg
//@   ghost entry : at_up(r.g->Some_0.Rulemap, elem, r.input, index); rule_wfs(r.g->Some_0.Rulemap, elem); cov_up(cx(r), elem, index); cov_up(cx0(r), elem, index); alt_ctx(r, elem, index);
//@   | if is_term(elem) { pre_start(elem, r.input, index); if elem is ElemNumVal && elem->ElemNumVal_0.Status == 1 { range_step(elem, r.input, index); } } else { term_none(elem, r.input, index); }
//@   loop 1 invariant ends_el(r.g->Some_0.Rulemap, elem, r.input, index, out) && tt(out, index) && (forall|k: int| #[trigger] $done.contains(k) ==> tt(out, k))
//@   loop 2 invariant 0 <= i && out =~= Map::<int, bool>::empty() && pre_at(elem, i, r.input, index, idx)
//@   loop 2 head series_step(elem, v, i, r.input, index, idx); enc_len(nval(v.Elems[i], v.Base)); assert(nv_ok(v.Elems[i], v.Base));
//@   loop 2 exit pre_done(elem, i, r.input, index, idx);
//@   loop 3 invariant 0 <= i && out =~= Map::<int, bool>::empty() && pre_at(elem, i, r.input, index, idx)
//@   loop 3 head decode_step(elem, i, r.input, index, idx);
//@   loop 3 exit pre_done(elem, i, r.input, index, idx);
//@ func Grammar.IsValid(nn g, rulename, input) (ok, err)
//@   modifies node
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules()) && ascii(rulename)
//@   ensures err is ErrRuleNotFound <==> resolve(g.Rulemap, rulename) is None
//@   ensures err is Nil || err is ErrRuleNotFound
//@   ensures ok ==> d_rule(g.Rulemap, rulename, input)
//@   ensures d_rule(g.Rulemap, rulename, input) ==> ok
//@   hide lr_exact rd_el lc_el lcg
//@   ghost entry : resolve_name(g.Rulemap, rulename); rec_starts(rulename); assert(input.subrange(0, input.len() as int) =~= input); if d_el(g.Rulemap, ElemItf::ElemRulename(ElemRulename { Name: rulename }), input) { d_el_rule_inv(g.Rulemap, ElemRulename { Name: rulename }, input); }
