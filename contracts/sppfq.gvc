//@ heap big.Int
//@ trusted big.NewInt(x) (r)
//@   modifies big.Int
//@   ensures r != 0 && !H_big_Int.contains_key(r) && new_H_big_Int == H_big_Int.insert(r, x)
//@ trusted big.Int.Mul(z, x, y) (r)
//@   modifies big.Int
//@   requires z != 0 && x != 0 && y != 0 && H_big_Int.contains_key(z) && H_big_Int.contains_key(x) && H_big_Int.contains_key(y)
//@   ensures r == z && new_H_big_Int == H_big_Int.insert(z, H_big_Int[x] * H_big_Int[y])
//@ trusted big.Int.Add(z, x, y) (r)
//@   modifies big.Int
//@   requires z != 0 && x != 0 && y != 0 && H_big_Int.contains_key(z) && H_big_Int.contains_key(x) && H_big_Int.contains_key(y)
//@   ensures r == z && new_H_big_Int == H_big_Int.insert(z, H_big_Int[x] + H_big_Int[y])
//@ func Forest.Ambiguous(nn f) (r)
//@   reads gnode
//@   requires fo_ok(f, H_gnode)
//@   ensures f.root == 0 ==> !r
//@   ensures f.root != 0 ==> (r ==> atleast(f.sg->Some_0, f.input, fkey(f), 2)) && (!r ==> exactly(f.sg->Some_0, f.input, fkey(f), 1))
//@   ghost entry : let (pe_, He_) = choose|p: gllParser, H: HB| #[trigger] fo_of(f, p, H, H_gnode); if f.root != 0 { root_lk(f, pe_, He_, H_gnode); many_is(f, pe_, He_, H_gnode); }
//@   ghost after Forest.Ambiguous$walk : if !$r0 { assert(hgrow(H_gnode, Map::empty(), seen)); hnone(H_gnode, seen, f.root); }
//@ func Forest.Ambiguous$walk(n; inout seen) (r)
//@   reads gnode
//@   requires hin(H_gnode, n)
//@   ensures r ==> hmany(H_gnode, n)
//@   ensures !r ==> hgrow(H_gnode, seen, new_seen) && on(new_seen, n)
//@   ghost entry : hto_refl(H_gnode, n); let s1_ = seen.insert(n, true);
//@   loop 1 pre assert(forall|x: int| on(seen0, x) ==> on(s1_, x)); assert(on(s1_, n));
//@   loop 1 invariant hgrow(H_gnode, s1_, seen) && (forall|i: int, j: int| 0 <= i < $i && 0 <= j < H_gnode[n].packs[i].len() ==> on(seen, #[trigger] H_gnode[n].packs[i][j]))
//@   loop 2 invariant hgrow(H_gnode, s1_, seen) && (forall|i: int, j: int| 0 <= i < ri_1 && 0 <= j < H_gnode[n].packs[i].len() ==> on(seen, #[trigger] H_gnode[n].packs[i][j])) && (forall|j: int| 0 <= j < $i ==> on(seen, #[trigger] pk[j]))
//@   loop 2 head let s2_ = seen; hin_kid(H_gnode, n, ri_1, $i);
//@   ghost after Forest.Ambiguous$walk : if $r0 { hmany_kid(H_gnode, n, c); } else { hgrow_trans(H_gnode, s1_, s2_, seen); }
//@   ghost return 4 : assert(hclean(H_gnode, seen, n)) by { assert forall|b: int| #[trigger] hstep(H_gnode, n, b) implies on(seen, b) by { let (i, j) = choose|i: int, j: int| #[trigger] hkid(H_gnode, n, i, j, b); assert(on(seen, H_gnode[n].packs[i][j])); } } assert(hgrow(H_gnode, seen0, seen)) by { assert forall|x: int| #[trigger] on(seen, x) implies on(seen0, x) || hclean(H_gnode, seen, x) by { if x != n && on(s1_, x) { assert(on(seen0, x)); } } }
//@ func Forest.NumTrees(nn f) (r)
//@   reads gnode
//@   modifies big.Int
//@   requires fo_ok(f, H_gnode)
//@   ensures r != 0 && new_H_big_Int.contains_key(r)
//@   ensures f.root == 0 ==> new_H_big_Int[r] == 0
//@   ensures f.root != 0 ==> (new_H_big_Int[r] == -1 && infinitely(f.sg->Some_0, f.input, fkey(f))) || exactly(f.sg->Some_0, f.input, fkey(f), new_H_big_Int[r])
//@   ghost entry : let (pe_, He_) = choose|p: gllParser, H: HB| #[trigger] fo_of(f, p, H, H_gnode); if f.root != 0 { root_lk(f, pe_, He_, H_gnode); count_is(f, pe_, He_, H_gnode); }
//@ func Forest.NumTrees$count(n; inout memo, inout onStack, inout infinite) (r)
//@   reads gnode
//@   modifies big.Int
//@   requires hin(H_gnode, n) && mem_ok(H_gnode, memo, H_big_Int, infinite) && stk_ok(H_gnode, onStack, n)
//@   ensures mem_ok(H_gnode, new_memo, new_H_big_Int, new_infinite) && mem_ext(memo, H_big_Int, new_memo, new_H_big_Int) && stk_same(onStack, new_onStack)
//@   ensures infinite ==> new_infinite
//@   ensures new_infinite && !infinite ==> hcyc(H_gnode, n)
//@   ensures r != 0 && new_H_big_Int.contains_key(r)
//@   ensures !new_infinite ==> hex(H_gnode, n, new_H_big_Int[r])
//@   ghost entry : hto_refl(H_gnode, n); let s1_ = onStack.insert(n, true); let B0_ = H_big_Int; let inf0_ = infinite; assert(hin(H_gnode, n) && hto(H_gnode, n, n));
//@   loop 1 pre assert(stk_in(H_gnode, s1_, n)) by { assert forall|s: int| #[trigger] on(s1_, s) implies hto(H_gnode, s, n) by { if s != n { assert(on(onStack0, s)); hplus_to(H_gnode, s, n); } } } if H_gnode[n].packs.len() == 0 { hex_leaf(H_gnode, n); } else { hsx_0(H_gnode, H_gnode[n].packs.subrange(0, 0)); }
//@   loop 1 invariant mem_ok(H_gnode, memo, H_big_Int, infinite) && mem_ext(memo0, B0_, memo, H_big_Int) && stk_same(s1_, onStack) && stk_in(H_gnode, s1_, n) && (inf0_ ==> infinite) && (infinite && !inf0_ ==> hcyc(H_gnode, n)) && total != 0 && H_big_Int.contains_key(total) && !B0_.contains_key(total) && (forall|m: int| #[trigger] memo.contains_key(m) ==> memo[m] != total) && (H_gnode[n].packs.len() == 0 ==> H_big_Int[total] == 1) && (!infinite && H_gnode[n].packs.len() > 0 ==> hsx(H_gnode, H_gnode[n].packs.subrange(0, $i), H_big_Int[total]))
//@   loop 2 pre hpx_0(H_gnode, pk.subrange(0, 0));
//@   loop 2 invariant mem_ok(H_gnode, memo, H_big_Int, infinite) && mem_ext(memo0, B0_, memo, H_big_Int) && stk_same(s1_, onStack) && stk_in(H_gnode, s1_, n) && (inf0_ ==> infinite) && (infinite && !inf0_ ==> hcyc(H_gnode, n)) && total != 0 && H_big_Int.contains_key(total) && !B0_.contains_key(total) && (forall|m: int| #[trigger] memo.contains_key(m) ==> memo[m] != total && memo[m] != prod) && prod != 0 && prod != total && H_big_Int[total] == B1_ && H_big_Int.contains_key(prod) && !B0_.contains_key(prod) && (!infinite ==> hsx(H_gnode, H_gnode[n].packs.subrange(0, ri_1), H_big_Int[total]) && hpx(H_gnode, pk.subrange(0, $i), H_big_Int[prod]))
//@   loop 2 head hin_kid(H_gnode, n, ri_1, $i); assert(stk_in(H_gnode, onStack, n)); stk_kid(H_gnode, onStack, n, c); let M2_ = memo; let B2_ = H_big_Int; let inf2_ = infinite; let S2_ = onStack;
//@   ghost after Forest.NumTrees$count : if infinite && !inf2_ { hcyc_kid(H_gnode, n, c); } let B3_ = H_big_Int; assert(H_big_Int[prod] == B2_[prod]); assert(H_big_Int[total] == B2_[total]); if !infinite { hpx_1(H_gnode, pk, ri_2, B2_[prod], B3_[$r0]); }
//@   loop 1 end if !infinite { assert(pk.subrange(0, pk.len() as int) =~= pk); hsx_1(H_gnode, H_gnode[n].packs, ri_1 - 1, B1_, H_big_Int[prod]); }
//@   loop 1 head let B1_ = H_big_Int[total];
//@   ghost return 2 : assert(on(onStack, n)); assert(hplus(H_gnode, n, n));
//@   loop 1 exit let S9_ = onStack.insert(n, false); assert(stk_same(onStack0, S9_)) by { assert forall|s: int| #[trigger] on(S9_, s) implies on(onStack0, s) by { assert(on(onStack, s)); assert(on(s1_, s)); } assert forall|s: int| #[trigger] on(onStack0, s) implies on(S9_, s) by { assert(on(s1_, s)); assert(on(onStack, s)); } }
//@   ghost return 3 : if !infinite && H_gnode[n].packs.len() > 0 { assert(H_gnode[n].packs.subrange(0, H_gnode[n].packs.len() as int) =~= H_gnode[n].packs); hex_node(H_gnode, n, H_big_Int[total]); }
