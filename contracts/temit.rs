// ---- temit.rs: what the nodes of a transition graph emit ----
// a node carries a satisfiable terminal
pub open spec fn sat_term(e: ElemItf) -> bool { is_term(e) && sat_el(Map::empty(), e) }
pub open spec fn tnode(h: Map<int, Node>, n: int) -> bool { n == 0 || sat_term(h[n].Elem) }
// the positions of a value range
pub open spec fn pos_ok(e: ElemItf, t: int) -> bool {
  0 <= t && (e is ElemNumVal && e->ElemNumVal_0.Status == 1 && t > 0 ==> nval(e->ElemNumVal_0.Elems[0], e->ElemNumVal_0.Base) + t <= go_min(nval(e->ElemNumVal_0.Elems[1], e->ElemNumVal_0.Base), 0x10FFFF))
}
pub open spec fn npos_ok(h: Map<int, Node>, n: int, t: int) -> bool { n == 0 || pos_ok(h[n].Elem, t) }
// w is a text of the node's terminal (nothing, for the empty node)
pub open spec fn emits(h: Map<int, Node>, n: int, w: Seq<int>) -> bool { if n == 0 { w.len() == 0 } else { in_term(h[n].Elem, w) } }
pub proof fn chars_emit(h: Map<int, Node>, n: int, k: int, w: Seq<int>)
  requires n != 0, is_term(h[n].Elem), grows_chars(h[n].Elem, k, Seq::empty(), w), k == nchars(h[n].Elem), ensures emits(h, n, w),
{ let e = h[n].Elem; let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && w =~= Seq::<int>::empty() + #[trigger] utf8_strs(cs); assert(fits(e, cs)); assert(w =~= utf8_strs(cs)); }
pub proof fn one_emit(h: Map<int, Node>, n: int)
  requires n != 0, h[n].Elem is ElemNumVal && h[n].Elem->ElemNumVal_0.Status == 1,
  ensures forall|c: int| is_scalar(c) && takes(h[n].Elem, 0, c) ==> emits(h, n, #[trigger] utf8_str(c)),
{
  let e = h[n].Elem;
  assert forall|c: int| is_scalar(c) && takes(e, 0, c) implies emits(h, n, #[trigger] utf8_str(c)) by { grow_chars_start(e, Seq::empty()); grow_chars_step(e, 0, Seq::empty(), Seq::empty(), c); assert(Seq::<int>::empty() + enc(c) =~= utf8_str(c)); chars_emit(h, n, 1, utf8_str(c)); }
}
pub proof fn pow2_pos(k: int) ensures pow2(k) >= 1 decreases k { if k > 0 { pow2_pos(k - 1); } }
pub open spec fn tgid(h: Map<int, Node>, n: int) -> Seq<int> { if n == 0 { Seq::empty() } else { h[n].ID } }
