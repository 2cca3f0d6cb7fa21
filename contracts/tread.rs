// ---- tread.rs: trails of a transition graph, as the reader enumerates them ----
pub open spec fn okn(h: Map<int, Node>, s: Set<int>, n: int) -> bool { n == 0 || (s.contains(n) && is_term(h[n].Elem)) }
// n may follow p (none: n starts the trail)
pub open spec fn kid(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, p: Option<int>, n: int) -> bool { okn(h, s, n) && (match p { None => t.Entrypoints.contains(n), Some(m) => m != 0 && h[m].Nexts.contains(n) }) }
pub open spec fn par(st: Seq<pathFrame>, d: int) -> Option<int> { if d == 0 { None } else { Some(st[d - 1].node) } }
pub open spec fn ekey(h: Map<int, Node>, a: int, b: int) -> Seq<int> { tgid(h, a) + seq![62int] + tgid(h, b) }
pub open spec fn fkey(h: Map<int, Node>, st: Seq<pathFrame>, i: int) -> Seq<int> { ekey(h, st[i - 1].node, st[i].node) }
// none of the first d frames came in over the edge k
pub open spec fn unused(h: Map<int, Node>, st: Seq<pathFrame>, d: int, k: Seq<int>) -> bool { forall|i: int| 1 <= i < d ==> #[trigger] fkey(h, st, i) != k }
pub open spec fn kids(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>, d: int, al: Seq<int>) -> bool {
  forall|j: int| 0 <= j < al.len() ==> kid(h, t, s, par(st, d), #[trigger] al[j]) && (d >= 1 ==> unused(h, st, d, ekey(h, st[d - 1].node, al[j])))
}
pub open spec fn frame_ok(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>, d: int) -> bool {
  0 <= st[d].cursor < st[d].allowed.len() && st[d].node == st[d].allowed[st[d].cursor] && kids(h, t, s, st, d, st[d].allowed)
}
pub open spec fn stack_ok(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>) -> bool { forall|d: int| 0 <= d < st.len() ==> #[trigger] frame_ok(h, t, s, st, d) }
pub open spec fn cnt_of(us: Map<Seq<int>, int>, k: Seq<int>) -> int { if us.contains_key(k) { us[k] } else { 0 } }
// the edges of the first n frames are marked
pub open spec fn marked(h: Map<int, Node>, st: Seq<pathFrame>, n: int, us: Map<Seq<int>, int>) -> bool { (forall|k: Seq<int>| #[trigger] cnt_of(us, k) >= 0) && forall|i: int| 1 <= i < n ==> cnt_of(us, #[trigger] fkey(h, st, i)) > 0 }
// what prepare leaves
pub open spec fn rd_base(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>) -> bool {
  r.tg is Some && graph_in(h, r.tg->Some_0, s) && r.prepared && ends_ok(h, r.endSet, r.tg->Some_0.Endpoints)
  && (forall|n: int| #[trigger] s.contains(n) && flag(r.canReach, h[n].ID) ==> is_term(h[n].Elem))
  && (forall|i: int| 0 <= i < r.entries.len() ==> kid(h, r.tg->Some_0, s, None, #[trigger] r.entries[i]))
}
pub open spec fn rd_walk(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>) -> bool { rd_base(h, r, s) && stack_ok(h, r.tg->Some_0, s, r.stack) && marked(h, r.stack, r.stack.len() as int, r.usedEdges) }
pub open spec fn same_base(a: TransitionGraphReader, b: TransitionGraphReader) -> bool { a.tg == b.tg && a.prepared == b.prepared && a.endSet == b.endSet && a.canReach == b.canReach && a.entries == b.entries && a.mode == b.mode
  && a.havePath == b.havePath && a.varIdx == b.varIdx && a.varTot == b.varTot && a.staged == b.staged && a.hasStaged == b.hasStaged && a.exhausted == b.exhausted && a.prods == b.prods && a.prodIdx == b.prodIdx }
// frames below depth d keep their meaning when frames from d on change
pub proof fn frames_keep(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, a: Seq<pathFrame>, b: Seq<pathFrame>, d: int)
  requires 0 <= d <= a.len(), d <= b.len(), forall|i: int| 0 <= i < d ==> #[trigger] a[i] == b[i], stack_ok(h, t, s, a),
  ensures forall|i: int| 0 <= i < d ==> #[trigger] frame_ok(h, t, s, b, i), forall|k: Seq<int>| unused(h, a, d, k) <==> #[trigger] unused(h, b, d, k),
    forall|al: Seq<int>| kids(h, t, s, a, d, al) ==> #[trigger] kids(h, t, s, b, d, al), forall|us: Map<Seq<int>, int>| marked(h, a, d, us) ==> #[trigger] marked(h, b, d, us),
{
  assert forall|i: int| 1 <= i < d implies #[trigger] fkey(h, b, i) == fkey(h, a, i) by { assert(a[i] == b[i]); assert(a[i - 1] == b[i - 1]); }
  assert forall|n: int, k: Seq<int>| 0 <= n <= d implies (unused(h, a, n, k) <==> #[trigger] unused(h, b, n, k)) by {
    if unused(h, a, n, k) { assert forall|i: int| 1 <= i < n implies #[trigger] fkey(h, b, i) != k by { assert(fkey(h, a, i) != k); } }
    if unused(h, b, n, k) { assert forall|i: int| 1 <= i < n implies #[trigger] fkey(h, a, i) != k by { assert(fkey(h, b, i) != k); } }
  }
  assert forall|n: int, al: Seq<int>| 0 <= n <= d && kids(h, t, s, a, n, al) implies #[trigger] kids(h, t, s, b, n, al) by {
    assert forall|j: int| 0 <= j < al.len() implies kid(h, t, s, par(b, n), #[trigger] al[j]) && (n >= 1 ==> unused(h, b, n, ekey(h, b[n - 1].node, al[j]))) by { if n >= 1 { assert(a[n - 1] == b[n - 1]); } assert(kid(h, t, s, par(a, n), al[j])); }
  }
  assert forall|i: int| 0 <= i < d implies #[trigger] frame_ok(h, t, s, b, i) by { assert(frame_ok(h, t, s, a, i)); assert(a[i] == b[i]); assert(kids(h, t, s, b, i, a[i].allowed)); }
  assert forall|us: Map<Seq<int>, int>| marked(h, a, d, us) implies #[trigger] marked(h, b, d, us) by { assert forall|i: int| 1 <= i < d implies cnt_of(us, #[trigger] fkey(h, b, i)) > 0 by { assert(cnt_of(us, fkey(h, a, i)) > 0); } }
}
// the top frame may be popped, or replaced by another of its alternatives, and its edge released
pub proof fn top_off(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>, us: Map<Seq<int>, int>)
  requires st.len() > 0, stack_ok(h, t, s, st), marked(h, st, st.len() as int, us),
  ensures ({ let d = st.len() - 1; let vs = if d >= 1 { us.insert(fkey(h, st, d), cnt_of(us, fkey(h, st, d)) - 1) } else { us }; marked(h, st, d, vs)
    && stack_ok(h, t, s, st.subrange(0, d)) && marked(h, st.subrange(0, d), d, vs) }),
{
  let d = st.len() - 1; assert(frame_ok(h, t, s, st, d));
  let k = fkey(h, st, d); let vs = if d >= 1 { us.insert(k, cnt_of(us, k) - 1) } else { us };
  assert(kid(h, t, s, par(st, d), st[d].allowed[st[d].cursor]));
  assert(d >= 1 ==> unused(h, st, d, ekey(h, st[d - 1].node, st[d].allowed[st[d].cursor])));
  assert forall|i: int| 1 <= i < d implies cnt_of(vs, #[trigger] fkey(h, st, i)) > 0 by { assert(cnt_of(us, fkey(h, st, i)) > 0); assert(fkey(h, st, i) != k); }
  assert(d >= 1 ==> cnt_of(us, fkey(h, st, d)) > 0); assert forall|x: Seq<int>| #[trigger] cnt_of(vs, x) >= 0 by { assert(cnt_of(us, x) >= 0); }
  let b = st.subrange(0, d); frames_keep(h, t, s, st, b, d);
}
pub proof fn top_swap(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>, us: Map<Seq<int>, int>, f: pathFrame)
  requires st.len() > 0, stack_ok(h, t, s, st), marked(h, st, st.len() - 1, us), f.allowed == st.last().allowed, 0 <= f.cursor < f.allowed.len(), f.node == f.allowed[f.cursor],
  ensures ({ let d = st.len() - 1; let b = st.update(d, f); let vs = if d >= 1 { us.insert(ekey(h, st[d - 1].node, f.node), cnt_of(us, ekey(h, st[d - 1].node, f.node)) + 1) } else { us }; stack_ok(h, t, s, b) && marked(h, b, b.len() as int, vs) }),
{
  let d = st.len() - 1; let b = st.update(d, f); frames_keep(h, t, s, st, b, d); assert(frame_ok(h, t, s, st, d)); assert(kids(h, t, s, b, d, f.allowed)); assert(frame_ok(h, t, s, b, d));
  if d >= 1 {
    let k = ekey(h, st[d - 1].node, f.node); let vs = us.insert(k, cnt_of(us, k) + 1); assert(b[d - 1] == st[d - 1]);
    assert(kid(h, t, s, par(b, d), f.allowed[f.cursor]) && unused(h, b, d, ekey(h, b[d - 1].node, f.allowed[f.cursor])));
    assert(marked(h, b, d, us));
    assert(cnt_of(us, k) >= 0); assert forall|x: Seq<int>| #[trigger] cnt_of(vs, x) >= 0 by { assert(cnt_of(us, x) >= 0); }
    assert forall|i: int| 1 <= i < b.len() implies cnt_of(vs, #[trigger] fkey(h, b, i)) > 0 by { if i < d { assert(cnt_of(us, fkey(h, b, i)) > 0); assert(fkey(h, b, i) != k); } }
  }
}
// a frame may be pushed
pub proof fn top_on(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>, us: Map<Seq<int>, int>, al: Seq<int>)
  requires stack_ok(h, t, s, st), marked(h, st, st.len() as int, us), kids(h, t, s, st, st.len() as int, al), al.len() > 0,
  ensures ({ let d = st.len() as int; let f = pathFrame { node: al[0], cursor: 0, allowed: al }; let b = st.push(f); let vs = if d >= 1 { us.insert(ekey(h, st[d - 1].node, f.node), cnt_of(us, ekey(h, st[d - 1].node, f.node)) + 1) } else { us }; stack_ok(h, t, s, b) && marked(h, b, b.len() as int, vs) }),
{
  let d = st.len() as int; let f = pathFrame { node: al[0], cursor: 0, allowed: al }; let b = st.push(f); frames_keep(h, t, s, st, b, d); assert(kids(h, t, s, b, d, al)); assert(frame_ok(h, t, s, b, d));
  assert(kid(h, t, s, par(b, d), al[0]));
  if d >= 1 {
    let k = ekey(h, st[d - 1].node, f.node); let vs = us.insert(k, cnt_of(us, k) + 1); assert(b[d - 1] == st[d - 1]);
    assert(unused(h, b, d, ekey(h, b[d - 1].node, al[0])));
    assert(marked(h, b, d, us)); assert(cnt_of(us, k) >= 0); assert forall|x: Seq<int>| #[trigger] cnt_of(vs, x) >= 0 by { assert(cnt_of(us, x) >= 0); }
    assert forall|i: int| 1 <= i < b.len() implies cnt_of(vs, #[trigger] fkey(h, b, i)) > 0 by { if i < d { assert(cnt_of(us, fkey(h, b, i)) > 0); assert(fkey(h, b, i) != k); } }
  } else { assert(us =~= us); }
}
// ---- trails and what they spell ----
pub open spec fn nodes_of(st: Seq<pathFrame>) -> Seq<int> { Seq::new(st.len(), |i: int| st[i].node) }
// p goes from an entrypoint to an endpoint along edges of the graph, none of them twice
pub open spec fn trail(h: Map<int, Node>, t: TransitionGraph, p: Seq<int>) -> bool {
  p.len() > 0 && t.Entrypoints.contains(p[0]) && t.Endpoints.contains(p.last())
  && (forall|i: int| 1 <= i < p.len() ==> #[trigger] step(h, p, i))
  && (forall|i: int, j: int| 1 <= i < j < p.len() && #[trigger] step(h, p, i) && #[trigger] step(h, p, j) ==> !(p[i - 1] == p[j - 1] && p[i] == p[j]))
}
pub open spec fn step(h: Map<int, Node>, p: Seq<int>, i: int) -> bool { p[i - 1] != 0 && h[p[i - 1]].Nexts.contains(p[i]) }
// the first k nodes of p spell w
pub open spec fn spells(h: Map<int, Node>, p: Seq<int>, k: int, w: Seq<int>) -> bool decreases k {
  if k <= 0 { w.len() == 0 } else { exists|j: int| #[trigger] part(h, p[k - 1], w, j) && spells(h, p, k - 1, w.subrange(0, j)) }
}
pub open spec fn part(h: Map<int, Node>, n: int, w: Seq<int>, j: int) -> bool { 0 <= j <= w.len() && emits(h, n, w.subrange(j, w.len() as int)) }
pub open spec fn trail_word(h: Map<int, Node>, t: TransitionGraph, w: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] trail(h, t, p) && spells(h, p, p.len() as int, w) }
pub proof fn spells_more(h: Map<int, Node>, p: Seq<int>, k: int, u: Seq<int>)
  requires 0 <= k < p.len(), spells(h, p, k, u), ensures forall|v: Seq<int>| #[trigger] emits(h, p[k], v) ==> spells(h, p, k + 1, u + v),
{
  assert forall|v: Seq<int>| #[trigger] emits(h, p[k], v) implies spells(h, p, k + 1, u + v) by { let w = u + v; let j = u.len() as int; assert(w.subrange(0, j) =~= u); assert(w.subrange(j, w.len() as int) =~= v); assert(part(h, p[(k + 1) - 1], w, j)); assert(spells(h, p, (k + 1) - 1, w.subrange(0, j))); }
}
pub proof fn stack_trail(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, st: Seq<pathFrame>)
  requires graph_in(h, t, s), stack_ok(h, t, s, st), st.len() > 0, t.Endpoints.contains(st.last().node),
  ensures trail(h, t, nodes_of(st)), forall|i: int| 0 <= i < st.len() ==> tnode(h, #[trigger] st[i].node),
{
  let p = nodes_of(st);
  assert forall|i: int| 0 <= i < st.len() implies #[trigger] kid(h, t, s, par(st, i), p[i]) && (i >= 1 ==> unused(h, st, i, ekey(h, st[i - 1].node, p[i]))) by { assert(frame_ok(h, t, s, st, i)); assert(kid(h, t, s, par(st, i), st[i].allowed[st[i].cursor])); }
  assert(kid(h, t, s, par(st, 0), p[0]));
  assert forall|i: int| 1 <= i < p.len() implies #[trigger] step(h, p, i) by { assert(kid(h, t, s, par(st, i), p[i])); }
  assert forall|i: int, j: int| 1 <= i < j < p.len() && #[trigger] step(h, p, i) && #[trigger] step(h, p, j) implies !(p[i - 1] == p[j - 1] && p[i] == p[j]) by { assert(kid(h, t, s, par(st, j), p[j])); assert(unused(h, st, j, ekey(h, st[j - 1].node, p[j]))); assert(fkey(h, st, i) != ekey(h, st[j - 1].node, p[j])); }
  assert forall|i: int| 0 <= i < st.len() implies tnode(h, #[trigger] st[i].node) by { assert(kid(h, t, s, par(st, i), p[i])); }
}
// an endpoint by identifier is one of the graph
pub proof fn end_node(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, es: Map<Seq<int>, bool>, n: int)
  requires graph_in(h, t, s), ends_ok(h, es, t.Endpoints), n == 0 || s.contains(n), flag(es, tgid(h, n)), ensures t.Endpoints.contains(n),
{ let i = choose|i: int| 0 <= i < t.Endpoints.len() && tgid(h, #[trigger] t.Endpoints[i]) == tgid(h, n); let e = t.Endpoints[i]; assert(e == 0 || s.contains(e)); if n != 0 && e != 0 { assert(s.contains(n) && s.contains(e)); } }
pub proof fn kid_more(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>, al: Seq<int>, i: int)
  requires rd_walk(h, r, s), r.stack.len() > 0, kids(h, r.tg->Some_0, s, r.stack, r.stack.len() as int, al), ({ let m = r.stack.last().node; m != 0 && 0 <= i < h[m].Nexts.len() && flag(r.canReach, tgid(h, h[m].Nexts[i])) && cnt_of(r.usedEdges, ekey(h, m, h[m].Nexts[i])) <= 0 }),
  ensures kids(h, r.tg->Some_0, s, r.stack, r.stack.len() as int, al.push(h[r.stack.last().node].Nexts[i])),
{
  let t = r.tg->Some_0; let st = r.stack; let d = st.len() as int; let m = st.last().node; let n = h[m].Nexts[i]; let b = al.push(n);
  assert(frame_ok(h, t, s, st, d - 1)); assert(kid(h, t, s, par(st, d - 1), st[d - 1].allowed[st[d - 1].cursor])); assert(s.contains(m));
  if n != 0 { assert(s.contains(h[m].Nexts[i])); } assert(h[m].Nexts.contains(n)); assert(kid(h, t, s, par(st, d), n));
  assert(unused(h, st, d, ekey(h, m, n)));
  assert forall|j: int| 0 <= j < b.len() implies kid(h, t, s, par(st, d), #[trigger] b[j]) && (d >= 1 ==> unused(h, st, d, ekey(h, st[d - 1].node, b[j]))) by { if j < al.len() { assert(b[j] == al[j]); } }
}
pub proof fn top_node(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>)
  requires rd_walk(h, r, s), r.stack.len() > 0, flag(r.endSet, tgid(h, r.stack.last().node)),
  ensures trail(h, r.tg->Some_0, nodes_of(r.stack)), forall|i: int| 0 <= i < r.stack.len() ==> tnode(h, #[trigger] r.stack[i].node),
{
  let t = r.tg->Some_0; let d = r.stack.len() - 1; let f = r.stack[d]; assert(frame_ok(h, t, s, r.stack, d)); assert(kid(h, t, s, par(r.stack, d), f.allowed[f.cursor]));
  end_node(h, t, s, r.endSet, f.node); stack_trail(h, t, s, r.stack);
}
// ---- the reader's state between calls ----
pub open spec fn same_opts(a: TransitionGraphReader, b: TransitionGraphReader) -> bool { a.tg == b.tg && a.mode == b.mode && a.exhausted == b.exhausted && a.prods == b.prods && a.prodIdx == b.prodIdx }
pub open spec fn trail_here(h: Map<int, Node>, r: TransitionGraphReader) -> bool { trail(h, r.tg->Some_0, nodes_of(r.stack)) && (forall|i: int| 0 <= i < r.stack.len() ==> tnode(h, #[trigger] r.stack[i].node)) && r.length >= 0 }
// the odometer is set for the first n nodes of the trail
pub open spec fn vars_in(h: Map<int, Node>, r: TransitionGraphReader, n: int) -> bool {
  r.varIdx.len() == n && r.varTot.len() == n && n <= r.stack.len() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] r.varIdx[i] < r.varTot[i] <= 0x7FFF_FFFF) && (forall|i: int, x: int| 0 <= i < n && 0 <= x < r.varTot[i] ==> #[trigger] npos_ok(h, r.stack[i].node, x))
}
pub open spec fn rd_in(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>) -> bool {
  rd_walk(h, r, s) && prods_ok(h, r.tg->Some_0, r.prods) && r.prodIdx >= 0 && r.length >= 0 && (r.havePath ==> trail_here(h, r) && vars_in(h, r, r.stack.len() as int)) && (r.hasStaged ==> r.havePath && trail_word(h, r.tg->Some_0, r.staged))
}
pub open spec fn rd_ok(h: Map<int, Node>, r: TransitionGraphReader) -> bool { exists|s: Set<int>| rd_in(h, r, s) }
// as Reader makes it, or as a previous call left it
pub open spec fn rd_ready(h: Map<int, Node>, r: TransitionGraphReader) -> bool {
  rd_ok(h, r) || (!r.prepared && r.prods.len() == 0 && r.prodIdx == 0 && r.tg is Some && graph_ok(h, r.tg->Some_0) && r.entries.len() == 0 && r.stack.len() == 0 && r.length == 0 && !r.havePath && !r.hasStaged && !r.exhausted)
}
// ---- prepare ----
pub open spec fn all_in(h: Map<int, Node>, all: Map<Seq<int>, int>, s: Set<int>) -> bool { forall|id: Seq<int>| #[trigger] all.contains_key(id) ==> tgid(h, all[id]) == id && (all[id] == 0 || s.contains(all[id])) }
pub open spec fn all_in2(h: Map<int, Node>, all: Map<Seq<int>, int>, t: TransitionGraph, s: Set<int>) -> bool { all_in(h, all, s) }
pub open spec fn reach_term(h: Map<int, Node>, s: Set<int>, cr: Map<Seq<int>, bool>) -> bool { forall|n: int| #[trigger] s.contains(n) && flag(cr, h[n].ID) ==> is_term(h[n].Elem) }
pub open spec fn fresh_as(q: TransitionGraphReader, r: TransitionGraphReader) -> bool { r.prepared && r.prods.len() == 0 && r.prodIdx == 0 && r.tg == q.tg && r.mode == q.mode && r.entries.len() == 0 && r.stack.len() == 0 && r.length == 0 && !r.havePath && !r.hasStaged && !r.exhausted }

// ---- the compact mode: walks made of shortest paths ----
pub open spec fn awalk(h: Map<int, Node>, t: TransitionGraph, p: Seq<int>) -> bool { p.len() > 0 && t.Entrypoints.contains(p[0]) && t.Endpoints.contains(p.last()) && (forall|i: int| 1 <= i < p.len() ==> #[trigger] step(h, p, i)) }
pub open spec fn walk_word(h: Map<int, Node>, t: TransitionGraph, w: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] awalk(h, t, p) && spells(h, p, p.len() as int, w) }
pub open spec fn prods_ok(h: Map<int, Node>, t: TransitionGraph, ps: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> walk_word(h, t, #[trigger] ps[i]) }
// a walk whose nodes all emit, from an entry
pub open spec fn gwalk(h: Map<int, Node>, s: Set<int>, p: Seq<int>) -> bool { p.len() > 0 && (forall|i: int| 0 <= i < p.len() ==> okn(h, s, #[trigger] p[i])) && (forall|i: int| 1 <= i < p.len() ==> #[trigger] step(h, p, i)) }
pub open spec fn cwalk(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, p: Seq<int>) -> bool { gwalk(h, s, p) && awalk(h, t, p) }
// pe leads from every known node back towards an entry
pub open spec fn pred1(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>, id: Seq<int>) -> bool {
  let p = pe[id]; okn(h, s, p) && pe.contains_key(tgid(h, p)) && (tgid(h, p) == id ==> en.contains(p)) && (tgid(h, p) != id ==> p != 0 && forall|m: int| #[trigger] okn(h, s, m) && tgid(h, m) == id ==> h[p].Nexts.contains(m))
}
pub open spec fn preds(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>) -> bool { forall|id: Seq<int>| #[trigger] pe.contains_key(id) ==> pred1(h, s, en, pe, id) }
// se leads from every known node on towards an endpoint
pub open spec fn succ1(h: Map<int, Node>, s: Set<int>, es: Map<Seq<int>, bool>, se: Map<Seq<int>, int>, id: Seq<int>) -> bool {
  let q = se[id]; okn(h, s, q) && se.contains_key(tgid(h, q)) && (tgid(h, q) == id ==> flag(es, id)) && (tgid(h, q) != id ==> forall|m: int| #[trigger] okn(h, s, m) && tgid(h, m) == id ==> m != 0 && h[m].Nexts.contains(q))
}
pub open spec fn succs(h: Map<int, Node>, s: Set<int>, es: Map<Seq<int>, bool>, se: Map<Seq<int>, int>) -> bool { forall|id: Seq<int>| #[trigger] se.contains_key(id) ==> succ1(h, s, es, se, id) }
pub open spec fn uniq(h: Map<int, Node>, s: Set<int>) -> bool { forall|n: int, m: int| #[trigger] okn(h, s, n) && #[trigger] okn(h, s, m) && tgid(h, n) == tgid(h, m) ==> n == m }
pub proof fn uniq_of(h: Map<int, Node>, t: TransitionGraph, s: Set<int>) requires graph_in(h, t, s), ensures uniq(h, s),
{ assert forall|n: int, m: int| #[trigger] okn(h, s, n) && #[trigger] okn(h, s, m) && tgid(h, n) == tgid(h, m) implies n == m by { if n != 0 && m != 0 { assert(s.contains(n) && s.contains(m)); } } }
pub open spec fn known(h: Map<int, Node>, s: Set<int>, pe: Map<Seq<int>, int>, ns: Seq<int>) -> bool { forall|i: int| 0 <= i < ns.len() ==> okn(h, s, #[trigger] ns[i]) && pe.contains_key(tgid(h, ns[i])) }
pub open spec fn edges_in(h: Map<int, Node>, s: Set<int>, pe: Map<Seq<int>, int>, es: Seq<edge>) -> bool { forall|i: int| 0 <= i < es.len() ==> edge_in(h, s, pe, #[trigger] es[i]) }
pub open spec fn edge_in(h: Map<int, Node>, s: Set<int>, pe: Map<Seq<int>, int>, e: edge) -> bool { okn(h, s, e.u) && okn(h, s, e.w) && e.u != 0 && pe.contains_key(tgid(h, e.u)) && h[e.u].Nexts.contains(e.w) }
pub open spec fn back_in(h: Map<int, Node>, s: Set<int>, ra: Map<Seq<int>, Seq<int>>) -> bool { forall|id: Seq<int>| #[trigger] ra.contains_key(id) ==> back1(h, s, id, ra[id]) }
pub open spec fn back1(h: Map<int, Node>, s: Set<int>, id: Seq<int>, ps: Seq<int>) -> bool { forall|i: int| 0 <= i < ps.len() ==> okn(h, s, #[trigger] ps[i]) && ps[i] != 0 && (forall|m: int| #[trigger] okn(h, s, m) && tgid(h, m) == id ==> h[ps[i]].Nexts.contains(m)) }
pub open spec fn vnexts(h: Map<int, Node>, s: Set<int>, n: int, out: Seq<int>) -> bool { forall|i: int| 0 <= i < out.len() ==> n != 0 && okn(h, s, #[trigger] out[i]) && h[n].Nexts.contains(out[i]) }
// the values taken so far fit
pub open spec fn c32(m: Map<Seq<int>, int>, id: Seq<int>) -> int { if m.contains_key(id) { m[id] } else { 0 } }
pub open spec fn vals_in(m: Map<Seq<int>, int>) -> bool { forall|id: Seq<int>| 0 <= #[trigger] c32(m, id) <= 0x7FFF_FFFF }
pub open spec fn vgood(m: Map<Seq<int>, int>, k: Map<Seq<int>, int>, id: Seq<int>) -> bool { 0 <= c32(m, id) && 0 <= c32(k, id) && c32(m, id) + c32(k, id) <= 0x7FFF_FFFF }
pub open spec fn vals_in2(m: Map<Seq<int>, int>, k: Map<Seq<int>, int>) -> bool { forall|id: Seq<int>| #[trigger] vgood(m, k, id) }
pub open spec fn rd_base2(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>) -> bool { rd_base(h, r, s) }
pub open spec fn but_prods(a: TransitionGraphReader, b: TransitionGraphReader) -> bool { b == (TransitionGraphReader { prods: b.prods, builtCompact: b.builtCompact, ..a }) }
pub open spec fn path_pre(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>, u: int) -> bool { uniq(h, s) && preds(h, s, en, pe) && okn(h, s, u) && pe.contains_key(tgid(h, u)) }
pub open spec fn path_post(h: Map<int, Node>, s: Set<int>, es: Map<Seq<int>, bool>, se: Map<Seq<int>, int>, w: int) -> bool { uniq(h, s) && succs(h, s, es, se) && okn(h, s, w) && se.contains_key(tgid(h, w)) }
// rev walks back from u; cur is what comes next
pub open spec fn bstep(h: Map<int, Node>, rev: Seq<int>, i: int) -> bool { rev[i] != 0 && h[rev[i]].Nexts.contains(rev[i - 1]) }
pub open spec fn back_walk(h: Map<int, Node>, s: Set<int>, rev: Seq<int>, u: int, cur: int) -> bool {
  (forall|i: int| 0 <= i < rev.len() ==> okn(h, s, #[trigger] rev[i])) && (forall|i: int| 1 <= i < rev.len() ==> #[trigger] bstep(h, rev, i))
  && (rev.len() == 0 ==> cur == u) && (rev.len() > 0 ==> rev[0] == u && cur != 0 && h[cur].Nexts.contains(rev.last()))
}
pub open spec fn fwd_walk(h: Map<int, Node>, s: Set<int>, out: Seq<int>, w: int, cur: int) -> bool {
  (forall|i: int| 0 <= i < out.len() ==> okn(h, s, #[trigger] out[i])) && (forall|i: int| 1 <= i < out.len() ==> #[trigger] step(h, out, i))
  && (out.len() == 0 ==> cur == w) && (out.len() > 0 ==> out[0] == w && out.last() != 0 && h[out.last()].Nexts.contains(cur))
}
pub proof fn flip(h: Map<int, Node>, s: Set<int>, rev: Seq<int>, u: int, c: int)
  requires rev.len() > 0, rev[0] == u, rev.last() == c, forall|i: int| 0 <= i < rev.len() ==> okn(h, s, #[trigger] rev[i]), forall|i: int| 1 <= i < rev.len() ==> #[trigger] bstep(h, rev, i),
  ensures ({ let p = Seq::new(rev.len(), |k: int| rev[rev.len() - 1 - k]); gwalk(h, s, p) && p[0] == c && p.last() == u }),
{
  let p = Seq::new(rev.len(), |k: int| rev[rev.len() - 1 - k]);
  assert forall|i: int| 1 <= i < p.len() implies #[trigger] step(h, p, i) by { assert(bstep(h, rev, rev.len() - i)); }
}

pub open spec fn bfacts(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>, u: int, rev: Seq<int>, cur: int) -> bool {
  let r = rev.push(cur); let p = pe[tgid(h, cur)];
  (forall|i: int| 0 <= i < r.len() ==> okn(h, s, #[trigger] r[i])) && (forall|i: int| 1 <= i < r.len() ==> #[trigger] bstep(h, r, i)) && r[0] == u && r.last() == cur && pe.contains_key(tgid(h, cur))
  && (tgid(h, p) == tgid(h, cur) ==> en.contains(cur)) && (tgid(h, p) != tgid(h, cur) ==> path_pre(h, s, en, pe, p) && back_walk(h, s, r, u, p))
}
pub proof fn back_one(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>, u: int, rev: Seq<int>, cur: int)
  requires path_pre(h, s, en, pe, cur), back_walk(h, s, rev, u, cur), ensures bfacts(h, s, en, pe, u, rev, cur),
{
  let r = rev.push(cur); let id = tgid(h, cur); let p = pe[id]; assert(pred1(h, s, en, pe, id)); assert(okn(h, s, p)); assert(okn(h, s, cur));
  assert forall|i: int| 0 <= i < r.len() implies okn(h, s, #[trigger] r[i]) by { if i < rev.len() { assert(okn(h, s, rev[i])); } }
  assert forall|i: int| 1 <= i < r.len() implies #[trigger] bstep(h, r, i) by { if i < rev.len() { assert(bstep(h, rev, i)); } }
  if tgid(h, p) == id { assert(p == cur); }
}
pub open spec fn ffacts(h: Map<int, Node>, s: Set<int>, es: Map<Seq<int>, bool>, se: Map<Seq<int>, int>, w: int, out: Seq<int>, cur: int) -> bool {
  let r = out.push(cur); let p = se[tgid(h, cur)];
  gwalk(h, s, r) && r[0] == w && r.last() == cur && se.contains_key(tgid(h, cur))
  && (tgid(h, p) == tgid(h, cur) ==> flag(es, tgid(h, cur))) && (tgid(h, p) != tgid(h, cur) ==> path_post(h, s, es, se, p) && fwd_walk(h, s, r, w, p))
}
pub proof fn fwd_one(h: Map<int, Node>, s: Set<int>, es: Map<Seq<int>, bool>, se: Map<Seq<int>, int>, w: int, out: Seq<int>, cur: int)
  requires path_post(h, s, es, se, cur), fwd_walk(h, s, out, w, cur), ensures ffacts(h, s, es, se, w, out, cur),
{
  let r = out.push(cur); let id = tgid(h, cur); let p = se[id]; assert(succ1(h, s, es, se, id)); assert(okn(h, s, p)); assert(okn(h, s, cur));
  assert forall|i: int| 0 <= i < r.len() implies okn(h, s, #[trigger] r[i]) by { if i < out.len() { assert(okn(h, s, out[i])); } }
  assert forall|i: int| 1 <= i < r.len() implies #[trigger] step(h, r, i) by { if i < out.len() { assert(step(h, out, i)); } }
}
pub proof fn pred_more(h: Map<int, Node>, s: Set<int>, en: Seq<int>, pe: Map<Seq<int>, int>, n: int, sc: int)
  requires uniq(h, s), preds(h, s, en, pe), okn(h, s, n), okn(h, s, sc), n != 0, h[n].Nexts.contains(sc), pe.contains_key(tgid(h, n)), !pe.contains_key(tgid(h, sc)),
  ensures preds(h, s, en, pe.insert(tgid(h, sc), n)),
{
  let q = pe.insert(tgid(h, sc), n);
  assert forall|id: Seq<int>| #[trigger] q.contains_key(id) implies pred1(h, s, en, q, id) by { if id != tgid(h, sc) { assert(pe.contains_key(id)); assert(pred1(h, s, en, pe, id)); } }
}
pub proof fn back_more(h: Map<int, Node>, s: Set<int>, ra: Map<Seq<int>, Seq<int>>, n: int, sc: int)
  requires uniq(h, s), back_in(h, s, ra), okn(h, s, n), okn(h, s, sc), n != 0, h[n].Nexts.contains(sc),
  ensures back_in(h, s, ra.insert(tgid(h, sc), (if ra.contains_key(tgid(h, sc)) { ra[tgid(h, sc)] } else { Seq::empty() }).push(n))),
{
  let d = tgid(h, sc); let o = if ra.contains_key(d) { ra[d] } else { Seq::empty() }; let b = o.push(n); let q = ra.insert(d, b);
  assert(ra.contains_key(d) ==> back1(h, s, d, ra[d]));
  assert(back1(h, s, d, b)) by { assert forall|i: int| 0 <= i < b.len() implies okn(h, s, #[trigger] b[i]) && b[i] != 0 && (forall|m: int| #[trigger] okn(h, s, m) && tgid(h, m) == d ==> h[b[i]].Nexts.contains(m)) by { if i < o.len() { assert(b[i] == o[i]); } } }
  assert forall|id: Seq<int>| #[trigger] q.contains_key(id) implies back1(h, s, id, q[id]) by { if id != d { assert(ra.contains_key(id)); } }
}
pub proof fn cw_of(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>, p: Seq<int>)
  requires rd_base(h, r, s), gwalk(h, s, p), r.entries.contains(p[0]), flag(r.endSet, tgid(h, p.last())), ensures cwalk(h, r.tg->Some_0, s, p),
{
  let i = choose|i: int| 0 <= i < r.entries.len() && r.entries[i] == p[0]; assert(kid(h, r.tg->Some_0, s, None, r.entries[i])); assert(okn(h, s, p[p.len() - 1]));
  end_node(h, r.tg->Some_0, s, r.endSet, p.last());
}
// continuing the path a from an entry
pub proof fn join_all(h: Map<int, Node>, r: TransitionGraphReader, s: Set<int>, a: Seq<int>)
  requires rd_base(h, r, s), gwalk(h, s, a), r.entries.contains(a[0]),
  ensures
    forall|b: Seq<int>| #[trigger] gwalk(h, s, b) && a.last() != 0 && h[a.last()].Nexts.contains(b[0]) && flag(r.endSet, tgid(h, b.last())) ==> cwalk(h, r.tg->Some_0, s, a + b),
    forall|b: Seq<int>| #[trigger] gwalk(h, s, b) && a.last() == b[0] && flag(r.endSet, tgid(h, b.last())) ==> cwalk(h, r.tg->Some_0, s, a + b.subrange(1, b.len() as int)),
    flag(r.endSet, tgid(h, a.last())) ==> cwalk(h, r.tg->Some_0, s, a),
{
  let t = r.tg->Some_0;
  assert forall|b: Seq<int>| #[trigger] gwalk(h, s, b) && a.last() != 0 && h[a.last()].Nexts.contains(b[0]) && flag(r.endSet, tgid(h, b.last())) implies cwalk(h, t, s, a + b) by {
    let c = a + b; let n = a.len() as int;
    assert forall|i: int| 0 <= i < c.len() implies okn(h, s, #[trigger] c[i]) by { if i < n { assert(okn(h, s, a[i])); } else { assert(okn(h, s, b[i - n])); } }
    assert forall|i: int| 1 <= i < c.len() implies #[trigger] step(h, c, i) by { if i < n { assert(step(h, a, i)); } else if i > n { assert(step(h, b, i - n)); } }
    cw_of(h, r, s, c);
  }
  assert forall|b: Seq<int>| #[trigger] gwalk(h, s, b) && a.last() == b[0] && flag(r.endSet, tgid(h, b.last())) implies cwalk(h, t, s, a + b.subrange(1, b.len() as int)) by {
    let d = b.subrange(1, b.len() as int); let c = a + d; let n = a.len() as int;
    assert forall|i: int| 0 <= i < c.len() implies okn(h, s, #[trigger] c[i]) by { if i < n { assert(okn(h, s, a[i])); } else { assert(okn(h, s, b[i - n + 1])); } }
    assert forall|i: int| 1 <= i < c.len() implies #[trigger] step(h, c, i) by { if i < n { assert(step(h, a, i)); } else { assert(step(h, b, i - n + 1)); } }
    assert(c.last() == b.last());
    cw_of(h, r, s, c);
  }
  if flag(r.endSet, tgid(h, a.last())) { cw_of(h, r, s, a); }
}
pub proof fn rd_keep(h: Map<int, Node>, a: TransitionGraphReader, b: TransitionGraphReader) requires rd_ok(h, a), but_prods(a, b), prods_ok(h, a.tg->Some_0, b.prods), ensures rd_ok(h, b),
{ let s = choose|s: Set<int>| rd_in(h, a, s); assert(rd_in(h, b, s)); }
pub proof fn rd_idx(h: Map<int, Node>, a: TransitionGraphReader) requires rd_ok(h, a), ensures a.tg is Some, prods_ok(h, a.tg->Some_0, a.prods), a.prodIdx >= 0, rd_ok(h, TransitionGraphReader { prodIdx: a.prodIdx + 1, ..a }), a.hasStaged ==> trail_word(h, a.tg->Some_0, a.staged) && walk_word(h, a.tg->Some_0, a.staged), exists|s: Set<int>| rd_base(h, a, s) && prods_ok(h, a.tg->Some_0, a.prods),
{
  let s = choose|s: Set<int>| rd_in(h, a, s); assert(rd_in(h, a, s)); let b = TransitionGraphReader { prodIdx: a.prodIdx + 1, ..a }; assert(rd_in(h, b, s)); assert(rd_base(h, a, s) && prods_ok(h, a.tg->Some_0, a.prods));
  if a.hasStaged { let p = choose|p: Seq<int>| #[trigger] trail(h, a.tg->Some_0, p) && spells(h, p, p.len() as int, a.staged); assert(awalk(h, a.tg->Some_0, p)); }
}
