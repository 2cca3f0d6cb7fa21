//@ func BSRForest.Tree(nn f) (r)
//@   requires bx(f)
//@   ensures r is None <==> !bf_valid(f)
//@   ensures bf_valid(f) && !infinitely(bsg(f), f.input, bkey0(f)) ==> tree_of(bsg(f), f.input, bkey0(f), r) && chain(r->Some_0.Children, 0, f.n)
//@   ensures bf_valid(f) && !infinitely(bsg(f), f.input, bkey0(f)) ==> forall|rm: RM, root: Seq<int>| #[trigger] lowered(bsg(f), rm, root) ==> S_tree(rm, f.input, root, r)
//@   ghost after BSRForest.startElems : if $r2 { start_live(f); piv_split(f, bkey0(f), $r0.alt, 0); assert(stk_in(f, Map::empty(), bkey0(f))); }
//@   ghost after BSRForest.emitSym : let ke_ = bkey0(f); if bcyc(f, ke_) { let c_ = choose|c: DK| #[trigger] gto(bsg(f), f.input, ke_, c) && gcyc(bsg(f), f.input, c); cyc_inf(bsg(f), f.input, ke_, c_); } else { let ts_ = $r0->Some_0.Children; let h_ = choose|h: nat| #[trigger] lst(bsg(f), f.input, ke_, ts_, h); lst_chain(bsg(f), f.input, ke_, ts_, h_); assert forall|rm: RM, root: Seq<int>| #[trigger] lowered(bsg(f), rm, root) implies S_tree(rm, f.input, root, $r0) by { t_root(bsg(f), rm, root, f.input, $r0); } }
//@ func BSRForest.emitSym(nn f, nt, sl, k, l, r, inout visited) (t)
//@   requires bx(f) && kl(f, dsy(nt, l, r, 0)) && sl.nt == nt && sl == nslot(bsg(f), dsy(nt, l, r, 0), sl.alt) && nsp(bsg(f), f.input, dsy(nt, l, r, 0), sl.alt, k) && stk_in(f, visited, dsy(nt, l, r, 0))
//@   ensures stk_same(visited, new_visited) && t is Some && t->Some_0.Start == l && t->Some_0.End == r && (if shows(bsg(f), nt) { t->Some_0.Rule == sg_nt(bsg(f), nt).ruleName } else { t->Some_0.Rule.len() == 0 })
//@   ensures !bcyc(f, dsy(nt, l, r, 0)) ==> LST(bsg(f), f.input, dsy(nt, l, r, 0), t->Some_0.Children)
//@   ghost after BSRForest.collectElem : assert(tail(seq![], kids) =~= kids); if !bcyc(f, dsy(nt, l, r, 0)) { LST_node(bsg(f), f.input, dsy(nt, l, r, 0), sl.alt, k, kids); }
//@ func BSRForest.collectElem(nn f, sl, l, k, r, rc, inout out, inout visited)
//@   requires bx(f) && kl(f, ekey(bsg(f), sl, l, r, rc)) && nsp(bsg(f), f.input, ekey(bsg(f), sl, l, r, rc), sl.alt, k) && nslot(bsg(f), ekey(bsg(f), sl, l, r, rc), sl.alt) == sl && stk_in(f, visited, ekey(bsg(f), sl, l, r, rc))
//@   ensures stk_same(visited, new_visited) && grew(out, new_out)
//@   ensures !bcyc(f, ekey(bsg(f), sl, l, r, rc)) ==> PARTS(bsg(f), f.input, ekey(bsg(f), sl, l, r, rc), sl.alt, k, tail(out, new_out))
//@   ghost entry : let ke_ = ekey(bsg(f), sl, l, r, rc); let ks_ = nkids(bsg(f), ke_, sl.alt, k); kid_live(bsg(f), f.input, ke_, sl.alt, k, 0); kid_live(bsg(f), f.input, ke_, sl.alt, k, ks_.len() - 1); stk_kid(f, visited, ke_, ks_[0]); eps_span(bsg(f), f.input, ke_, sl.alt, k); grew_refl(out); let o0_ = out;
//@   | if bcyc(f, ks_[0]) { bcyc_kid(f, ke_, ks_[0]); } if bcyc(f, ks_[ks_.len() - 1]) { bcyc_kid(f, ke_, ks_[ks_.len() - 1]); }
//@   | if sl.dot > 2 { let x_ = piv_some(f, ks_[0]); piv_split(f, ks_[0], ks_[0].L.alt, 0); stk_in_of(f, visited, ks_[0]); }
//@   ghost before BSRForest.collectChild : let o1_ = out; let v1_ = visited; assert(stk_in(f, visited, ke_)); stk_kid(f, visited, ke_, ks_[0]); stk_kid(f, visited, ke_, ks_[ks_.len() - 1]);
//@   ghost after BSRForest.collectElem : let pv_ = piv(f.index, kbk(f, ks_[0], ks_[0].L.alt)); if !bcyc(f, ke_) { LST_node(bsg(f), f.input, ks_[0], ks_[0].L.alt, pv_[0], tail(o0_, out)); VIS_hide(bsg(f), f.input, ks_[0], tail(o0_, out)); }
//@   ghost return : grew_more(o0_, o1_, out); if !bcyc(f, ke_) { if ks_.len() == 1 { PARTS_1(bsg(f), f.input, ke_, sl.alt, k, tail(o0_, out)); } else { PARTS_2(bsg(f), f.input, ke_, sl.alt, k, o0_, o1_, out); } }
//@ func BSRForest.collectChild(nn f, s, a, b, rc, inout out, inout visited)
//@   requires bx(f) && kl(f, dsym(s, rc, a, b)) && (s.kind == 2 ==> a == b) && stk_ok(f, visited, dsym(s, rc, a, b))
//@   ensures stk_same(visited, new_visited) && grew(out, new_out)
//@   ensures s.kind == 2 ==> tail(out, new_out).len() == 0
//@   ensures !bcyc(f, dsym(s, rc, a, b)) ==> VIS(bsg(f), f.input, dsym(s, rc, a, b), tail(out, new_out))
//@   ghost entry : let ke_ = dsym(s, rc, a, b); let id_ = sid(s.nt, a, b, rc); let s1_ = visited.insert(id_, true); grew_refl(out); if s.kind == 0 { assert(did(id_) == ke_); stk_enter(f, visited, id_, s1_); if on(visited, id_) { bcyc_self(f, ke_); } }
//@   ghost return 1 : LST_leaf(bsg(f), f.input, ke_, tail(out0, out));
//@   ghost return 2 : grew_push(out0, out.last()); LST_leaf(bsg(f), f.input, ke_, tail(out0, out));
//@   loop 1 invariant visited == s1_ && out == out0 && (forall|q: int| 0 <= q < $i ==> #[trigger] piv(f.index, kbk(f, ke_, q)).len() == 0)
//@   loop 1 head if piv(f.index, kbk(f, ke_, $i)).len() > 0 { piv_split(f, ke_, $i, 0); }
//@   loop 1 exit let x_ = piv_some(f, ke_); assert(false);
//@   ghost after BSRForest.collectElem : stk_leave(visited0, id_, visited, visited.insert(id_, false));
//@   ghost return 4 : if sg_nt(bsg(f), s.nt).isRule { grew_push(out0, out.last()); let ts_ = out.last()->Some_0.Children; assert(tail(Seq::empty(), ts_) =~= ts_); if !bcyc(f, ke_) { LST_node(bsg(f), f.input, ke_, ri_1, ks[0], ts_); VIS_show(bsg(f), f.input, ke_, tail(out0, out)); } } else if !bcyc(f, ke_) { LST_node(bsg(f), f.input, ke_, ri_1, ks[0], tail(out0, out)); VIS_hide(bsg(f), f.input, ke_, tail(out0, out)); }
