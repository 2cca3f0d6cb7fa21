// ---- treeb.rs: trees of the binary subtree set ----
pub proof fn piv_some(f: BSRForest, k: DK) -> (x: (int, int)) requires bx(f), kl(f, k), k.kind != 2, ensures k.kind == 1 ==> x.0 == k.L.alt, k.kind == 0 ==> 0 <= x.0 < sg_nt(bsg(f), k.nt).alts.len(), piv(f.index, kbk(f, k, x.0)).len() > 0,
{ let x = some_split(bsg(f), f.input, k); brow_has(f, k, x.0); assert(brow(f, k, x.0).contains((x.0, x.1))); x }
pub open spec fn sid(nt: int, l: int, r: int, rc: int) -> bsrNodeID { bsrNodeID { inter: false, slot: nsl(0, 0, 0), nt: nt, l: l, r: r, rc: rc } }
pub proof fn stk_in_of(f: BSRForest, S: Map<bsrNodeID, bool>, n: DK) requires stk_ok(f, S, n), ensures stk_in(f, S, n), { assert forall|s: bsrNodeID| #[trigger] on(S, s) implies gto(bsg(f), f.input, did(s), n) by { bplus_to(f, did(s), n); } }
