//@ types lowerer slotGrammar sgNT ssym
//@ func canon(name) (r)
//@   requires byte_seq(name)
//@   ensures r =~= lower_all(name)
//@   loop 1 invariant b.len() == name.len() && (forall|k: int| 0 <= k < $i ==> #[trigger] b[k] == ascii_lower(name[k])) && (forall|k: int| $i <= k < b.len() ==> #[trigger] b[k] == name[k])
//@ func slotGrammar.reserve(inout sg, key, label) (id, existed)
//@   ensures existed == sg.index.contains_key(key)
//@   ensures existed ==> new_sg == sg && id == sg.index[key]
//@   ensures !existed ==> id == sg.nts.len() && new_sg.index == sg.index.insert(key, id) && new_sg.nts.len() == id + 1 && new_sg.start == sg.start && (forall|i: int| 0 <= i < id ==> #[trigger] new_sg.nts[i] == sg.nts[i]) && new_sg.nts[id] is Some && new_sg.nts[id]->Some_0.alts.len() == 0 && !new_sg.nts[id]->Some_0.isRep && !new_sg.nts[id]->Some_0.isRule
//@ func lowerer.budgetExceeded(inout c) (r)
//@   requires c.sg is Some
//@   ensures new_c == (lowerer { over: r, ..c }) && (c.over ==> r) && (r ==> c.over || (c.max > 0 && c.sg->Some_0.nts.len() >= c.max)) && (c.max > 0 && c.sg->Some_0.nts.len() >= c.max ==> r)
//@ func lowerer.rule(inout c, name) (id)
//@   requires lo(c) && ascii(name)
//@   ensures lx(c, new_c) && sg_in(new_c.sg->Some_0, Mean::Rule(name), id)
//@   ghost entry : let m_ = Mean::Rule(name); lx_refl(c);
//@   ghost after slotGrammar.reserve : let c1_ = c; if c1_ != c0 { low_push(c0.sg->Some_0, mkey(m_), c1_.sg->Some_0); }
//@   ghost before lowerer.alts : let c3_ = c; assert(lo(c3_));
//@   ghost after lowerer.alts : let c4_ = c;
//@   ghost return 2 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 3 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 4 : assert(shaped(c.sg->Some_0, c0.g->Some_0.Rulemap, id, m_)) by { cats_keep(c4_.sg->Some_0, c.sg->Some_0, rule->Some_0.Alternation, c.sg->Some_0.nts[id]->Some_0.alts); } lx_fill(c0, mkey(m_), c3_, c4_, c, m_);
//@ func lowerer.alts(inout c, a) (out)
//@   requires lo(c) && wf_alt(a)
//@   ensures lx(c, new_c) && alts_of(new_c.sg->Some_0, a, out)
//@   ghost entry : lx_refl(c); wf_cats(a);
//@   loop 1 invariant lx(c0, c) && out.len() == $i && cats_of(c.sg->Some_0, a, out)
//@   loop 1 head let c1_ = c; let o_ = out; lx_refl(c); assert(wf_cat(cc));
//@   loop 1 end cats_keep(c1_.sg->Some_0, c.sg->Some_0, a, o_); lx_trans(c0, c1_, c);
//@   loop 2 invariant lx(c1_, c) && seq_.len() == $i && reps_of(c.sg->Some_0, cc, seq_)
//@   loop 2 head let c2_ = c; let s_ = seq_;
//@   loop 2 end reps_keep(c2_.sg->Some_0, c.sg->Some_0, cc, s_); lx_trans(c1_, c2_, c);
//@ func lowerer.rep(inout c, rep) (s)
//@   requires lo(c) && wf_rep(rep)
//@   ensures lx(c, new_c) && rep_of(new_c.sg->Some_0, rep, s)
//@   ghost entry : let m_ = Mean::Rep(rep); lx_refl(c);
//@   ghost after slotGrammar.reserve : let c1_ = c; if c1_ != c0 { low_push(c0.sg->Some_0, mkey(m_), c1_.sg->Some_0); }
//@   ghost before lowerer.elem : let c3_ = c; if !(rep.Min == 1 && rep.Max == 1) { assert(lo(c3_)); }
//@   ghost after lowerer.elem : let c4_ = c;
//@   ghost return 3 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 4 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 5 : assert(shaped(c.sg->Some_0, c0.g->Some_0.Rulemap, id, m_)) by { el_keep(c4_.sg->Some_0, c.sg->Some_0, rep.Element, esym); } lx_fill(c0, mkey(m_), c3_, c4_, c, m_);
//@ func lowerer.elem(inout c, e) (s)
//@   requires lo(c) && wf_el(e)
//@   ensures lx(c, new_c) && el_of(new_c.sg->Some_0, e, s)
//@   ghost entry : lx_refl(c);
//@ func lowerer.group(inout c, v) (id)
//@   requires lo(c) && wf_alt(v.Alternation)
//@   ensures lx(c, new_c) && sg_in(new_c.sg->Some_0, Mean::Grp(v), id)
//@   ghost entry : let m_ = Mean::Grp(v); lx_refl(c);
//@   ghost after slotGrammar.reserve : let c1_ = c; if c1_ != c0 { low_push(c0.sg->Some_0, mkey(m_), c1_.sg->Some_0); }
//@   ghost before lowerer.alts : let c3_ = c; assert(lo(c3_));
//@   ghost after lowerer.alts : let c4_ = c;
//@   ghost return 2 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 3 : assert(shaped(c.sg->Some_0, c0.g->Some_0.Rulemap, id, m_)) by { cats_keep(c4_.sg->Some_0, c.sg->Some_0, v.Alternation, c.sg->Some_0.nts[id]->Some_0.alts); } lx_fill(c0, mkey(m_), c3_, c4_, c, m_);
//@ func lowerer.option(inout c, v) (id)
//@   requires lo(c) && wf_alt(v.Alternation)
//@   ensures lx(c, new_c) && sg_in(new_c.sg->Some_0, Mean::Opt(v), id)
//@   ghost entry : let m_ = Mean::Opt(v); lx_refl(c);
//@   ghost after slotGrammar.reserve : let c1_ = c; if c1_ != c0 { low_push(c0.sg->Some_0, mkey(m_), c1_.sg->Some_0); }
//@   ghost before lowerer.alts : let c3_ = c; assert(lo(c3_));
//@   ghost after lowerer.alts : let c4_ = c; let al_ = $r0;
//@   ghost return 2 : let c2_ = lowerer { over: c.over, ..c1_ }; lx_refl(c2_); lx_fill(c0, mkey(m_), c2_, c2_, c, m_);
//@   ghost return 3 : assert(shaped(c.sg->Some_0, c0.g->Some_0.Rulemap, id, m_)) by { let xs_ = c.sg->Some_0.nts[id]->Some_0.alts; assert(xs_.subrange(1, xs_.len() as int) =~= al_); cats_keep(c4_.sg->Some_0, c.sg->Some_0, v.Alternation, al_); } lx_fill(c0, mkey(m_), c3_, c4_, c, m_);
//@ func compileSlots(nn g, rootRulename, maxSlots) (sg, err)
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules()) && ascii(rootRulename)
//@   ensures err is ErrRuleNotFound <==> resolve(g.Rulemap, rootRulename) is None
//@   ensures err is ErrRuleNotFound ==> err->ErrRuleNotFound_0.Rulename == rootRulename
//@   ensures err is Nil || err is ErrRuleNotFound || err is ErrGrammarTooLarge
//@   ensures err is Nil ==> sg is Some && low_ok(sg->Some_0) && done_from(sg->Some_0, g.Rulemap, 0) && sg_in(sg->Some_0, Mean::Rule(rootRulename), sg->Some_0.start)
//@   ensures err is Nil ==> sg_ok(sg->Some_0) && (forall|w: Seq<int>| #[trigger] DS(sg->Some_0, w, sg->Some_0.start, 0, 0, w.len() as int) <==> d_rule(g.Rulemap, rootRulename, w))
//@   ghost after lowerer.rule : let s1_ = c->Some_0.sg->Some_0;
//@   ghost return 4 : done_keep(s1_, sg->Some_0, g.Rulemap, 0); comp_sg_ok(sg->Some_0, g.Rulemap, rootRulename); resolve_name(g.Rulemap, rootRulename); assert forall|w: Seq<int>| #[trigger] DS(sg->Some_0, w, sg->Some_0.start, 0, 0, w.len() as int) <==> d_rule(g.Rulemap, rootRulename, w) by { sg_lang(sg->Some_0, g.Rulemap, w, rootRulename); }
