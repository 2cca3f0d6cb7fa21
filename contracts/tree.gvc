//@ func Forest.Tree(nn f) (r)
//@   reads gnode
//@   requires fo_ok(f, H_gnode)
//@   ensures r is None <==> f.root == 0
//@   ensures f.root != 0 && !infinitely(f.sg->Some_0, f.input, fkey(f)) ==> tree_of(f.sg->Some_0, f.input, fkey(f), r) && chain(r->Some_0.Children, 0, f.input.len() as int)
//@   ensures f.root != 0 && !infinitely(f.sg->Some_0, f.input, fkey(f)) ==> forall|rm: RM, root: Seq<int>| #[trigger] lowered(f.sg->Some_0, rm, root) ==> S_tree(rm, f.input, root, r)
//@   ghost entry : let (pe_, He_) = choose|p: gllParser, H: HB| #[trigger] fo_of(f, p, H, H_gnode); if f.root != 0 { root_lk(f, pe_, He_, H_gnode); count_is(f, pe_, He_, H_gnode); root_typed(f, pe_, He_, H_gnode); }
//@   ghost after Forest.emitSymbol : if !hcyc(H_gnode, f.root) { tree_is(f, pe_, He_, H_gnode, $r0); assert forall|rm: RM, root: Seq<int>| #[trigger] lowered(f.sg->Some_0, rm, root) implies S_tree(rm, f.input, root, $r0) by { t_root(f.sg->Some_0, rm, root, f.input, $r0); } }
//@ func Forest.emitSymbol(nn f, n, inout onStack) (r)
//@   reads gnode
//@   requires f.sg is Some && htyped(f.sg->Some_0, H_gnode, n) && stk_ok(H_gnode, onStack, n) && !on(onStack, n)
//@   ensures stk_same(onStack, new_onStack) && r is Some && r->Some_0.Start == H_gnode[n].Start && r->Some_0.End == H_gnode[n].End
//@   ensures !hcyc(H_gnode, n) ==> rooted(f.sg->Some_0, H_gnode, n, r->Some_0)
//@   ghost entry : hto_refl(H_gnode, n); stk_push(H_gnode, onStack, n);
//@   ghost after Forest.collect : stk_pop(onStack0, onStack, n); assert(tail(seq![], t->Some_0.Children) =~= t->Some_0.Children);
//@ func Forest.collect(nn f, n, inout into, inout onStack)
//@   reads gnode
//@   requires f.sg is Some && htyped(f.sg->Some_0, H_gnode, n) && stk_in(H_gnode, onStack, n)
//@   ensures stk_same(onStack, new_onStack) && grew(into, new_into)
//@   ensures !hcyc(H_gnode, n) ==> HL(f.sg->Some_0, H_gnode, n, tail(into, new_into))
//@   ghost entry : hto_refl(H_gnode, n); grew_refl(into);
//@   ghost return 1 : assert(grew(into0, into)) by { grew_push(into0, into.last()); } assert(leaft(tail(into0, into), H_gnode[n].Start, H_gnode[n].End)); HL_leaf(f.sg->Some_0, H_gnode, n, tail(into0, into));
//@   loop 1 invariant stk_same(onStack0, onStack) && grew(into0, into) && (!hcyc(H_gnode, n) ==> HLS(f.sg->Some_0, H_gnode, H_gnode[n].packs[0], $i, tail(into0, into)))
//@   loop 1 pre assert(hls(f.sg->Some_0, H_gnode, H_gnode[n].packs[0], 0, tail(into0, into), 0));
//@   loop 1 head htyped_kid(f.sg->Some_0, H_gnode, n, 0, $i); assert(stk_in(H_gnode, onStack, n)); stk_kid(H_gnode, onStack, n, c); let i2_ = into;
//@   ghost after Forest.collectChild : grew_more(into0, i2_, into); if !hcyc(H_gnode, n) { if hcyc(H_gnode, c) { hcyc_kid(H_gnode, n, c); } HLS_next(f.sg->Some_0, H_gnode, H_gnode[n].packs[0], ri_1, into0, i2_, into); }
//@   loop 1 exit if !hcyc(H_gnode, n) { HL_pack(f.sg->Some_0, H_gnode, n, 0, tail(into0, into)); }
//@ func Forest.collectChild(nn f, c, inout into, inout onStack)
//@   reads gnode
//@   requires f.sg is Some && htyped(f.sg->Some_0, H_gnode, c) && stk_ok(H_gnode, onStack, c)
//@   ensures stk_same(onStack, new_onStack) && grew(into, new_into)
//@   ensures !hcyc(H_gnode, c) ==> HV(f.sg->Some_0, H_gnode, c, tail(into, new_into))
//@   ghost entry : hto_refl(H_gnode, c); grew_refl(into); stk_push(H_gnode, onStack, c); if on(onStack, c) { cyc_on(H_gnode, onStack, c); }
//@   ghost after Forest.collect : stk_pop(onStack0, onStack, c);
//@   ghost return : if into.len() > into0.len() && (H_gnode[c].kind == 2 || H_gnode[c].kind == 0 && shows(f.sg->Some_0, H_gnode[c].nt)) { grew_push(into0, into.last()); }
//@   | if H_gnode[c].kind == 2 { HL_leaf(f.sg->Some_0, H_gnode, c, tail(into0, into)); HV_hide(f.sg->Some_0, H_gnode, c, tail(into0, into)); }
//@   | else if !hcyc(H_gnode, c) { if H_gnode[c].kind == 0 && shows(f.sg->Some_0, H_gnode[c].nt) { HV_show(f.sg->Some_0, H_gnode, c, tail(into0, into)); } else { HV_hide(f.sg->Some_0, H_gnode, c, tail(into0, into)); } }
