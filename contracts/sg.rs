// ---- sg.rs: the language of a slot grammar (counted repetitions carry their count) ----
pub open spec fn sg_nt(sg: slotGrammar, n: int) -> sgNT { sg.nts[n]->Some_0 }
pub open spec fn sg_has(sg: slotGrammar, n: int) -> bool { 0 <= n < sg.nts.len() && sg.nts[n] is Some }
pub open spec fn sym_ok(sg: slotGrammar, s: ssym) -> bool { (s.kind == 0 ==> sg_has(sg, s.nt)) && (s.kind != 0 && s.kind != 2 ==> wf_el(s.term)) }
pub open spec fn sg_ok(sg: slotGrammar) -> bool {
  sg_has(sg, sg.start) && !sg_nt(sg, sg.start).isRep
  && (forall|n: int| 0 <= n < sg.nts.len() ==> #[trigger] sg.nts[n] is Some)
  && (forall|n: int, a: int| 0 <= n < sg.nts.len() && 0 <= a < sg_nt(sg, n).alts.len() ==> (#[trigger] sg_nt(sg, n).alts[a]).len() >= 1)
  && (forall|n: int, a: int, d: int| 0 <= n < sg.nts.len() && 0 <= a < sg_nt(sg, n).alts.len() && 0 <= d < sg_nt(sg, n).alts[a].len() ==> sym_ok(sg, #[trigger] sg_nt(sg, n).alts[a][d]))
  && (forall|n: int| 0 <= n < sg.nts.len() && (#[trigger] sg_nt(sg, n)).isRep ==> sg_nt(sg, n).alts.len() == 2)
}
pub open spec fn slot_ok(sg: slotGrammar, L: slot) -> bool { sg_has(sg, L.nt) && 0 <= L.alt < sg_nt(sg, L.nt).alts.len() && 0 <= L.dot <= sg_nt(sg, L.nt).alts[L.alt].len() }
pub open spec fn sprod(sg: slotGrammar, nt: int, alt: int) -> Seq<ssym> { sg_nt(sg, nt).alts[alt] }
pub open spec fn cap_rc(rc: int, x: sgNT) -> int { if x.repMax == -1 && rc + 1 > x.repMin { x.repMin } else { rc + 1 } }
// the count at which production nt@rc derives its symbol s
pub open spec fn crc(sg: slotGrammar, nt: int, rc: int, s: ssym) -> int { if s.kind == 0 && sg_nt(sg, s.nt).isRep && s.nt == nt { cap_rc(rc, sg_nt(sg, nt)) } else { 0 } }
pub open spec fn allowed(sg: slotGrammar, nt: int, rc: int, ai: int) -> bool {
  sg_nt(sg, nt).isRep ==> ((ai == 0 ==> rc >= sg_nt(sg, nt).repMin) && (ai == 1 ==> sg_nt(sg, nt).repMax == -1 || rc < sg_nt(sg, nt).repMax))
}
pub open spec fn sder(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int, r: int, h: nat) -> bool decreases h, 0int, 0int {
  h > 0 && exists|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, nt).alts.len() && allowed(sg, nt, rc, ai) && spre(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat)
}
pub open spec fn spre(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, dot: int, l: int, r: int, h: nat) -> bool decreases h, 2int, dot {
  if dot <= 0 { l == r }
  else { exists|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, inp, nt, ai, rc, dot - 1, l, k, h) && ssy(sg, inp, sprod(sg, nt, ai)[dot - 1], crc(sg, nt, rc, sprod(sg, nt, ai)[dot - 1]), k, r, h) }
}
pub open spec fn ssy(sg: slotGrammar, inp: Seq<int>, s: ssym, rc: int, k: int, r: int, h: nat) -> bool decreases h, 1int, 0int {
  if s.kind == 0 { sder(sg, inp, s.nt, rc, k, r, h) } else { sleaf(s, inp, k, r) }
}
pub open spec fn sleaf(s: ssym, inp: Seq<int>, k: int, r: int) -> bool { if s.kind == 2 { k == r } else { term_at(s.term, inp, k, r) } }
pub open spec fn DS(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int, r: int) -> bool { exists|h: nat| #[trigger] sder(sg, inp, nt, rc, l, r, h) }
pub open spec fn DP(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, dot: int, l: int, r: int) -> bool { exists|h: nat| #[trigger] spre(sg, inp, nt, ai, rc, dot, l, r, h) }
pub open spec fn DY(sg: slotGrammar, inp: Seq<int>, s: ssym, rc: int, k: int, r: int) -> bool { exists|h: nat| #[trigger] ssy(sg, inp, s, rc, k, r, h) }
pub proof fn sder_mono(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int, r: int, h: nat, g: nat)
  requires h <= g, sder(sg, inp, nt, rc, l, r, h), ensures sder(sg, inp, nt, rc, l, r, g), decreases h, 0int, 0int,
{
  let ai = choose|ai: int| #[trigger] pk(ai) && 0 <= ai < sg_nt(sg, nt).alts.len() && allowed(sg, nt, rc, ai) && spre(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat);
  spre_mono(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, (h - 1) as nat, (g - 1) as nat); assert(pk(ai));
}
pub proof fn spre_mono(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, dot: int, l: int, r: int, h: nat, g: nat)
  requires h <= g, spre(sg, inp, nt, ai, rc, dot, l, r, h), ensures spre(sg, inp, nt, ai, rc, dot, l, r, g), decreases h, 2int, dot,
{
  if dot > 0 {
    let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s);
    let k = choose|k: int| #[trigger] pk(k) && l <= k <= r && spre(sg, inp, nt, ai, rc, dot - 1, l, k, h) && ssy(sg, inp, s, c, k, r, h);
    spre_mono(sg, inp, nt, ai, rc, dot - 1, l, k, h, g); ssy_mono(sg, inp, s, c, k, r, h, g); assert(pk(k));
  }
}
pub proof fn ssy_mono(sg: slotGrammar, inp: Seq<int>, s: ssym, rc: int, k: int, r: int, h: nat, g: nat)
  requires h <= g, ssy(sg, inp, s, rc, k, r, h), ensures ssy(sg, inp, s, rc, k, r, g), decreases h, 1int, 0int,
{ if s.kind == 0 { sder_mono(sg, inp, s.nt, rc, k, r, h, g); } }
pub proof fn DP_start(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, l: int) ensures DP(sg, inp, nt, ai, rc, 0, l, l) { assert(spre(sg, inp, nt, ai, rc, 0, l, l, 0)); }
pub proof fn DP_step(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, dot: int, l: int, k: int, r: int)
  requires dot >= 1, l <= k <= r, DP(sg, inp, nt, ai, rc, dot - 1, l, k), DY(sg, inp, sprod(sg, nt, ai)[dot - 1], crc(sg, nt, rc, sprod(sg, nt, ai)[dot - 1]), k, r),
  ensures DP(sg, inp, nt, ai, rc, dot, l, r),
{
  let s = sprod(sg, nt, ai)[dot - 1]; let c = crc(sg, nt, rc, s);
  let f = choose|f: nat| #[trigger] spre(sg, inp, nt, ai, rc, dot - 1, l, k, f); let g = choose|g: nat| #[trigger] ssy(sg, inp, s, c, k, r, g);
  let h = if f >= g { f } else { g };
  spre_mono(sg, inp, nt, ai, rc, dot - 1, l, k, f, h); ssy_mono(sg, inp, s, c, k, r, g, h); assert(pk(k));
  assert(spre(sg, inp, nt, ai, rc, dot, l, r, h));
}
pub proof fn DS_of(sg: slotGrammar, inp: Seq<int>, nt: int, ai: int, rc: int, l: int, r: int)
  requires 0 <= ai < sg_nt(sg, nt).alts.len(), allowed(sg, nt, rc, ai), DP(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r),
  ensures DS(sg, inp, nt, rc, l, r),
{ let f = choose|f: nat| #[trigger] spre(sg, inp, nt, ai, rc, sprod(sg, nt, ai).len() as int, l, r, f); assert(pk(ai)); assert(sder(sg, inp, nt, rc, l, r, f + 1)); }
pub proof fn DY_nt(sg: slotGrammar, inp: Seq<int>, s: ssym, rc: int, k: int, r: int)
  requires s.kind == 0, DS(sg, inp, s.nt, rc, k, r), ensures DY(sg, inp, s, rc, k, r),
{ let f = choose|f: nat| #[trigger] sder(sg, inp, s.nt, rc, k, r, f); assert(ssy(sg, inp, s, rc, k, r, f)); }
pub proof fn DY_leaf(sg: slotGrammar, inp: Seq<int>, s: ssym, rc: int, k: int, r: int)
  requires s.kind != 0, sleaf(s, inp, k, r), ensures DY(sg, inp, s, rc, k, r),
{ assert(ssy(sg, inp, s, rc, k, r, 0)); }
// ---- contexts: a nonterminal expected at a position ----
pub open spec fn ctx(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int, h: nat) -> bool decreases h {
  (nt == sg.start && rc == 0 && l == 0)
  || (h > 0 && exists|nt1: int, ai: int, rc1: int, dot: int, l1: int| #[trigger] cstep(sg, inp, nt1, ai, rc1, dot, l1, nt, rc, l) && ctx(sg, inp, nt1, rc1, l1, (h - 1) as nat))
}
pub open spec fn cstep(sg: slotGrammar, inp: Seq<int>, nt1: int, ai: int, rc1: int, dot: int, l1: int, nt: int, rc: int, l: int) -> bool {
  sg_has(sg, nt1) && 0 <= ai < sg_nt(sg, nt1).alts.len() && allowed(sg, nt1, rc1, ai) && 0 <= dot < sprod(sg, nt1, ai).len() && 0 <= l1 <= l <= inp.len()
  && sprod(sg, nt1, ai)[dot].kind == 0 && sprod(sg, nt1, ai)[dot].nt == nt && crc(sg, nt1, rc1, sprod(sg, nt1, ai)[dot]) == rc && DP(sg, inp, nt1, ai, rc1, dot, l1, l)
}
pub open spec fn CX(sg: slotGrammar, inp: Seq<int>, nt: int, rc: int, l: int) -> bool { exists|h: nat| #[trigger] ctx(sg, inp, nt, rc, l, h) }
pub proof fn CX_step(sg: slotGrammar, inp: Seq<int>, nt1: int, ai: int, rc1: int, dot: int, l1: int, nt: int, rc: int, l: int)
  requires CX(sg, inp, nt1, rc1, l1), cstep(sg, inp, nt1, ai, rc1, dot, l1, nt, rc, l), ensures CX(sg, inp, nt, rc, l),
{ let h = choose|h: nat| #[trigger] ctx(sg, inp, nt1, rc1, l1, h); assert(ctx(sg, inp, nt, rc, l, h + 1)); }
