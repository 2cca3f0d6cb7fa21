//@ types bsrNodeID
//@ func BSRForest.NumTrees(nn f) (r)
//@   modifies big.Int
//@   requires bx(f)
//@   ensures r != 0 && new_H_big_Int.contains_key(r)
//@   ensures !bf_valid(f) ==> new_H_big_Int[r] == 0
//@   ensures bf_valid(f) ==> (new_H_big_Int[r] == -1 && infinitely(bsg(f), f.input, bkey0(f))) || exactly(bsg(f), f.input, bkey0(f), new_H_big_Int[r])
//@   ghost after BSRForest.Valid : if $r0 { start_live(f); }
//@   ghost after BSRForest.NumTrees$countSym : if infinite { let c_ = choose|c: DK| #[trigger] gto(bsg(f), f.input, bkey0(f), c) && gcyc(bsg(f), f.input, c); cyc_inf(bsg(f), f.input, bkey0(f), c_); }
//@ func BSRForest.NumTrees$symWays(s, a, b, rc; nn f, inout memo, inout onStack, inout infinite) (r)
//@   modifies big.Int
//@   requires bx(f) && kl(f, dsym(s, rc, a, b)) && mem_ok(f, memo, H_big_Int, infinite) && stk_ok(f, onStack, dsym(s, rc, a, b))
//@   ensures mem_ok(f, new_memo, new_H_big_Int, new_infinite) && mem_ext(memo, H_big_Int, new_memo, new_H_big_Int) && stk_same(onStack, new_onStack)
//@   ensures (infinite ==> new_infinite) && (new_infinite && !infinite ==> bcyc(f, dsym(s, rc, a, b)))
//@   ensures r != 0 && new_H_big_Int.contains_key(r) && (!new_infinite ==> exactly(bsg(f), f.input, dsym(s, rc, a, b), new_H_big_Int[r]))
//@   ghost entry : if s.kind != 0 { leaf_exact(bsg(f), f.input, dsym(s, rc, a, b)); }
//@ func BSRForest.NumTrees$countElem(s, l, k, r, rc; nn f, inout memo, inout onStack, inout infinite) (v)
//@   modifies big.Int
//@   requires bx(f) && kl(f, ekey(bsg(f), s, l, r, rc)) && nsp(bsg(f), f.input, ekey(bsg(f), s, l, r, rc), s.alt, k) && mem_ok(f, memo, H_big_Int, infinite) && stk_in(f, onStack, ekey(bsg(f), s, l, r, rc))
//@   ensures mem_ok(f, new_memo, new_H_big_Int, new_infinite) && mem_ext(memo, H_big_Int, new_memo, new_H_big_Int) && stk_same(onStack, new_onStack)
//@   ensures (infinite ==> new_infinite) && (new_infinite && !infinite ==> bcyc(f, ekey(bsg(f), s, l, r, rc)))
//@   ensures v != 0 && new_H_big_Int.contains_key(v) && !H_big_Int.contains_key(v) && (forall|n: bsrNodeID| #[trigger] new_memo.contains_key(n) ==> new_memo[n] != v) && (!new_infinite ==> wpx(bsg(f), f.input, nkids(bsg(f), ekey(bsg(f), s, l, r, rc), s.alt, k), new_H_big_Int[v]))
//@   ghost entry : let ke_ = ekey(bsg(f), s, l, r, rc); let ks_ = nkids(bsg(f), ke_, s.alt, k); let inf0_ = infinite; let B0_ = H_big_Int; let M0_ = memo; assert(nslot(bsg(f), ke_, s.alt) == s); kid_live(bsg(f), f.input, ke_, s.alt, k, 0); kid_live(bsg(f), f.input, ke_, s.alt, k, ks_.len() - 1); stk_kid(f, onStack, ke_, ks_[0]); stk_kid(f, onStack, ke_, ks_[ks_.len() - 1]);
//@   ghost after BSRForest.NumTrees$symWays : if infinite && !inf0_ { if bcyc(f, ks_[0]) { bcyc_kid(f, ke_, ks_[0]); } if bcyc(f, ks_[ks_.len() - 1]) { bcyc_kid(f, ke_, ks_[ks_.len() - 1]); } } assert(stk_in(f, onStack, ke_)); stk_kid(f, onStack, ke_, ks_[0]); stk_kid(f, onStack, ke_, ks_[ks_.len() - 1]);
//@   ghost after BSRForest.NumTrees$countInter : if infinite && !inf0_ && bcyc(f, ks_[0]) { bcyc_kid(f, ke_, ks_[0]); }
//@   ghost before big.Int.Mul : if !infinite { if ks_.len() == 1 { wpx_1(bsg(f), f.input, ks_, H_big_Int[last]); } else { wpx_2(bsg(f), f.input, ks_, H_big_Int[pre], H_big_Int[last]); } }
//@ func BSRForest.NumTrees$countInter(s, l, r, rc; nn f, inout memo, inout onStack, inout infinite) (v)
//@   modifies big.Int
//@   requires bx(f) && kl(f, din(s, l, r, rc)) && mem_ok(f, memo, H_big_Int, infinite) && stk_ok(f, onStack, din(s, l, r, rc))
//@   ensures mem_ok(f, new_memo, new_H_big_Int, new_infinite) && mem_ext(memo, H_big_Int, new_memo, new_H_big_Int) && stk_same(onStack, new_onStack)
//@   ensures (infinite ==> new_infinite) && (new_infinite && !infinite ==> bcyc(f, din(s, l, r, rc)))
//@   ensures v != 0 && new_H_big_Int.contains_key(v) && (!new_infinite ==> exactly(bsg(f), f.input, din(s, l, r, rc), new_H_big_Int[v]))
//@   ghost entry : let ke_ = din(s, l, r, rc); let inf0_ = infinite; let B0_ = H_big_Int; let id_ = bsrNodeID { inter: true, slot: s, nt: 0, l: l, r: r, rc: rc }; let s1_ = onStack.insert(id_, true); assert(did(id_) == ke_); stk_enter(f, onStack, id_, s1_);
//@   ghost return 2 : assert(on(onStack, id_)); bcyc_self(f, ke_);
//@   loop 1 pre wsx_0(bsg(f), f.input, ke_, brow(f, ke_, s.alt).subrange(0, 0));
//@   loop 1 invariant mem_ok(f, memo, H_big_Int, infinite) && mem_ext(memo0, B0_, memo, H_big_Int) && stk_same(s1_, onStack) && (inf0_ ==> infinite) && (infinite && !inf0_ ==> bcyc(f, ke_)) && total != 0 && H_big_Int.contains_key(total) && !B0_.contains_key(total) && (forall|m: bsrNodeID| #[trigger] memo.contains_key(m) ==> memo[m] != total) && (!infinite ==> wsx(bsg(f), f.input, ke_, brow(f, ke_, s.alt).subrange(0, $i), H_big_Int[total]))
//@   loop 1 head piv_split(f, ke_, s.alt, $i); assert(stk_in(f, onStack, ke_)); let B2_ = H_big_Int[total]; let row_ = brow(f, ke_, s.alt);
//@   ghost after BSRForest.NumTrees$countElem : if !infinite { wsx_1(bsg(f), f.input, ke_, row_.subrange(0, ri_1), (s.alt, k), row_.subrange(0, ri_1 + 1), B2_, H_big_Int[$r0]); }
//@   loop 1 exit stk_leave(onStack0, id_, onStack, onStack.insert(id_, false));
//@   ghost return 3 : if !infinite { assert(brow(f, ke_, s.alt).subrange(0, brow(f, ke_, s.alt).len() as int) =~= blist(f, ke_)); node_exact(f, ke_, H_big_Int[total]); }
//@ func BSRForest.NumTrees$countSym(nt, l, r, rc; nn f, inout memo, inout onStack, inout infinite) (v)
//@   modifies big.Int
//@   requires bx(f) && kl(f, dsy(nt, l, r, rc)) && mem_ok(f, memo, H_big_Int, infinite) && stk_ok(f, onStack, dsy(nt, l, r, rc))
//@   ensures mem_ok(f, new_memo, new_H_big_Int, new_infinite) && mem_ext(memo, H_big_Int, new_memo, new_H_big_Int) && stk_same(onStack, new_onStack)
//@   ensures (infinite ==> new_infinite) && (new_infinite && !infinite ==> bcyc(f, dsy(nt, l, r, rc)))
//@   ensures v != 0 && new_H_big_Int.contains_key(v) && (!new_infinite ==> exactly(bsg(f), f.input, dsy(nt, l, r, rc), new_H_big_Int[v]))
//@   ghost entry : let ke_ = dsy(nt, l, r, rc); let inf0_ = infinite; let B0_ = H_big_Int; let id_ = bsrNodeID { inter: false, slot: nsl(0, 0, 0), nt: nt, l: l, r: r, rc: rc }; let s1_ = onStack.insert(id_, true); assert(did(id_) == ke_); stk_enter(f, onStack, id_, s1_);
//@   ghost return 2 : assert(on(onStack, id_)); bcyc_self(f, ke_);
//@   loop 1 pre wsx_0(bsg(f), f.input, ke_, brows(f, ke_, 0));
//@   loop 1 invariant mem_ok(f, memo, H_big_Int, infinite) && mem_ext(memo0, B0_, memo, H_big_Int) && stk_same(s1_, onStack) && (inf0_ ==> infinite) && (infinite && !inf0_ ==> bcyc(f, ke_)) && total != 0 && H_big_Int.contains_key(total) && !B0_.contains_key(total) && (forall|m: bsrNodeID| #[trigger] memo.contains_key(m) ==> memo[m] != total) && (!infinite ==> wsx(bsg(f), f.input, ke_, brows(f, ke_, $i), H_big_Int[total]))
//@   loop 1 head let rw_ = brow(f, ke_, $i); let rs_ = brows(f, ke_, $i);
//@   loop 2 pre assert(rs_ + rw_.subrange(0, 0) =~= rs_);
//@   loop 2 invariant mem_ok(f, memo, H_big_Int, infinite) && mem_ext(memo0, B0_, memo, H_big_Int) && stk_same(s1_, onStack) && (inf0_ ==> infinite) && (infinite && !inf0_ ==> bcyc(f, ke_)) && total != 0 && H_big_Int.contains_key(total) && !B0_.contains_key(total) && (forall|m: bsrNodeID| #[trigger] memo.contains_key(m) ==> memo[m] != total) && (!infinite ==> wsx(bsg(f), f.input, ke_, rs_ + rw_.subrange(0, $i), H_big_Int[total]))
//@   loop 2 head piv_split(f, ke_, ri_1, $i); assert(stk_in(f, onStack, ke_)); let B2_ = H_big_Int[total];
//@   ghost after BSRForest.NumTrees$countElem : if !infinite { wsx_1(bsg(f), f.input, ke_, rs_ + rw_.subrange(0, ri_2), (ri_1, k), rs_ + rw_.subrange(0, ri_2 + 1), B2_, H_big_Int[$r0]); }
//@   loop 2 exit assert(rs_ + rw_.subrange(0, rw_.len() as int) =~= brows(f, ke_, ri_1 + 1));
//@   loop 1 exit stk_leave(onStack0, id_, onStack, onStack.insert(id_, false));
//@   ghost return 3 : if !infinite { node_exact(f, ke_, H_big_Int[total]); }
//@ func BSRForest.Ambiguous(nn f) (r)
//@   requires bx(f)
//@   ensures !bf_valid(f) ==> !r
//@   ensures bf_valid(f) ==> (r ==> atleast(bsg(f), f.input, bkey0(f), 2)) && (!r ==> exactly(bsg(f), f.input, bkey0(f), 1))
//@   ghost after BSRForest.Valid : if $r0 { start_live(f); }
//@   ghost after BSRForest.Ambiguous$symAmb : if $r0 { bmany_two(f, bkey0(f)); } else { bnone(f, visited, bkey0(f)); one_exact(bsg(f), f.input, bkey0(f)); }
//@ func BSRForest.Ambiguous$symOf(s, a, b, rc; nn f, inout visited) (v)
//@   requires bx(f) && kl(f, dsym(s, rc, a, b))
//@   ensures v ==> bmany(f, dsym(s, rc, a, b))
//@   ensures !v ==> bgrow(f, visited, new_visited) && seenk(new_visited, dsym(s, rc, a, b))
//@ func BSRForest.Ambiguous$elemAmb(s, l, k, r, rc; nn f, inout visited) (v)
//@   requires bx(f) && kl(f, ekey(bsg(f), s, l, r, rc)) && nsp(bsg(f), f.input, ekey(bsg(f), s, l, r, rc), s.alt, k)
//@   ensures v ==> bmany(f, ekey(bsg(f), s, l, r, rc))
//@   ensures !v ==> bgrow(f, visited, new_visited) && kids_seen(f, new_visited, ekey(bsg(f), s, l, r, rc), s.alt, k)
//@   ghost entry : let ke_ = ekey(bsg(f), s, l, r, rc); let ks_ = nkids(bsg(f), ke_, s.alt, k); assert(nslot(bsg(f), ke_, s.alt) == s); kid_live(bsg(f), f.input, ke_, s.alt, k, 0); kid_live(bsg(f), f.input, ke_, s.alt, k, ks_.len() - 1);
//@   ghost before BSRForest.Ambiguous$symOf : let S2_ = visited;
//@   ghost before BSRForest.Ambiguous$interAmb : let S2_ = visited;
//@   ghost after BSRForest.Ambiguous$symOf : if $r0 { if bmany(f, ks_[0]) { bmany_kid(f, ke_, ks_[0]); } else { bmany_kid(f, ke_, ks_[ks_.len() - 1]); } } else { bgrow_trans(f, visited0, S2_, visited); if seenk(S2_, ks_[ks_.len() - 1]) { seenk_mono(f, S2_, visited, ks_[ks_.len() - 1]); } }
//@   ghost after BSRForest.Ambiguous$interAmb : if $r0 { bmany_kid(f, ke_, ks_[0]); } else { bgrow_trans(f, visited0, S2_, visited); seenk_mono(f, S2_, visited, ks_[ks_.len() - 1]); }
//@ func BSRForest.Ambiguous$interAmb(s, l, r, rc; nn f, inout visited) (v)
//@   requires bx(f) && kl(f, din(s, l, r, rc))
//@   ensures v ==> bmany(f, din(s, l, r, rc))
//@   ensures !v ==> bgrow(f, visited, new_visited) && seenk(new_visited, din(s, l, r, rc))
//@   ghost entry : let ke_ = din(s, l, r, rc); let id_ = bsrNodeID { inter: true, slot: s, nt: 0, l: l, r: r, rc: rc }; let s1_ = visited.insert(id_, true); assert(did(id_) == ke_); list_single(f, ke_); gto_refl(bsg(f), f.input, ke_);
//@   ghost return 1 : assert(on(visited, id_));
//@   loop 1 invariant bgrow(f, s1_, visited) && part_seen(f, visited, ke_, s.alt, piv(f.index, kbk(f, ke_, s.alt)), $i)
//@   loop 1 head piv_split(f, ke_, s.alt, $i); let S2_ = visited; let n2_ = $i;
//@   ghost after BSRForest.Ambiguous$elemAmb : if !$r0 { bgrow_trans(f, s1_, S2_, visited); seen_mono(f, S2_, visited, ke_, 0, s.alt, piv(f.index, kbk(f, ke_, s.alt)), n2_); }
//@   loop 1 exit part_rows(f, visited, ke_, s.alt); walked(f, visited0, s1_, visited, id_);
//@ func BSRForest.Ambiguous$symAmb(nt, l, r, rc; nn f, inout visited) (v)
//@   requires bx(f) && kl(f, dsy(nt, l, r, rc))
//@   ensures v ==> bmany(f, dsy(nt, l, r, rc))
//@   ensures !v ==> bgrow(f, visited, new_visited) && seenk(new_visited, dsy(nt, l, r, rc))
//@   ghost entry : let ke_ = dsy(nt, l, r, rc); let id_ = bsrNodeID { inter: false, slot: nsl(0, 0, 0), nt: nt, l: l, r: r, rc: rc }; let s1_ = visited.insert(id_, true); assert(did(id_) == ke_); list_single(f, ke_); brows_len(f, ke_, sg_nt(bsg(f), nt).alts.len() as int); gto_refl(bsg(f), f.input, ke_);
//@   ghost return 1 : assert(on(visited, id_));
//@   loop 1 invariant packs == nsplits(f, ke_, $i)
//@   loop 2 invariant bgrow(f, s1_, visited) && rows_seen(f, visited, ke_, $i)
//@   loop 3 invariant bgrow(f, s1_, visited) && rows_seen(f, visited, ke_, ri_2) && part_seen(f, visited, ke_, ri_2, piv(f.index, kbk(f, ke_, ri_2)), $i)
//@   loop 3 head piv_split(f, ke_, ri_2, $i); let S2_ = visited; let n2_ = $i;
//@   ghost after BSRForest.Ambiguous$elemAmb : if !$r0 { bgrow_trans(f, s1_, S2_, visited); seen_mono(f, S2_, visited, ke_, ri_2, ri_2, piv(f.index, kbk(f, ke_, ri_2)), n2_); }
//@   loop 3 exit part_rows(f, visited, ke_, ri_2);
//@   loop 2 exit walked(f, visited0, s1_, visited, id_);
