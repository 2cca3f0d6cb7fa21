// ---- tgraph.rs: generators over a transition graph, and the strings its walks spell ----
// S: the graph's nodes. Every node carries a satisfiable terminal, S is closed under successors; a node flagged as able to
// reach an endpoint is one or has such a successor; flagged endpoints are endpoints of the graph
pub open spec fn gen_in(h: Map<int, Node>, g: Generator, s: Set<int>) -> bool {
  g.tg is Some
  && (forall|i: int| 0 <= i < g.entries.len() ==> { let n = #[trigger] g.entries[i]; (n == 0 || s.contains(n)) && g.tg->Some_0.Entrypoints.contains(n) && flag(g.canReach, tgid(h, n)) })
  && (forall|n: int| #[trigger] s.contains(n) ==> n != 0 && sat_term(h[n].Elem))
  && (forall|n: int, i: int| s.contains(n) && 0 <= i < h[n].Nexts.len() && h[n].Nexts[i] != 0 ==> s.contains(#[trigger] h[n].Nexts[i]))
  && (forall|n: int| s.contains(n) && flag(g.canReach, h[n].ID) ==> #[trigger] goes_on(h, g.canReach, g.endSet, n))
  && (forall|n: int| #[trigger] s.contains(n) && flag(g.endSet, h[n].ID) ==> g.tg->Some_0.Endpoints.contains(n))
  && (flag(g.canReach, Seq::empty()) ==> flag(g.endSet, Seq::empty()) && g.tg->Some_0.Endpoints.contains(0))
}
pub open spec fn live(h: Map<int, Node>, cr: Map<Seq<int>, bool>, n: int) -> bool { n != 0 && flag(cr, h[n].ID) }
pub open spec fn goes_on(h: Map<int, Node>, cr: Map<Seq<int>, bool>, es: Map<Seq<int>, bool>, n: int) -> bool { flag(es, h[n].ID) || exists|i: int| 0 <= i < h[n].Nexts.len() && live(h, cr, #[trigger] h[n].Nexts[i]) }
pub open spec fn gen_ok(h: Map<int, Node>, g: Generator) -> bool { exists|s: Set<int>| gen_in(h, g, s) }
// n follows m, and emits what w holds from j on
pub open spec fn hop(h: Map<int, Node>, m: int, n: int, w: Seq<int>, j: int) -> bool { 0 <= j <= w.len() && m != 0 && h[m].Nexts.contains(n) && emits(h, n, w.subrange(j, w.len() as int)) }
// w is spelled by a walk of k + 1 nodes from an entrypoint of the graph to n
pub open spec fn walked(h: Map<int, Node>, en: Seq<int>, k: int, n: int, w: Seq<int>) -> bool decreases k {
  if k <= 0 { en.contains(n) && emits(h, n, w) }
  else { exists|m: int, j: int| #[trigger] hop(h, m, n, w, j) && walked(h, en, k - 1, m, w.subrange(0, j)) }
}
// w is spelled by a walk from an entrypoint to an endpoint
pub open spec fn spelled(h: Map<int, Node>, t: TransitionGraph, w: Seq<int>) -> bool { exists|k: int, n: int| k >= 0 && #[trigger] walked(h, t.Entrypoints, k, n, w) && t.Endpoints.contains(n) }
pub open spec fn walked_any(h: Map<int, Node>, en: Seq<int>, n: int, w: Seq<int>) -> bool { exists|k: int| k >= 0 && #[trigger] walked(h, en, k, n, w) }
// the walk that spelled o may go on to n
pub open spec fn to_walk(h: Map<int, Node>, en: Seq<int>, n: int, o: Seq<int>) -> bool {
  (en.contains(n) && o.len() == 0) || exists|m: int| #[trigger] walked_any(h, en, m, o) && m != 0 && h[m].Nexts.contains(n)
}
pub proof fn walk_emit(h: Map<int, Node>, en: Seq<int>, n: int, o: Seq<int>)
  requires to_walk(h, en, n, o), ensures forall|v: Seq<int>| #[trigger] emits(h, n, v) ==> walked_any(h, en, n, o + v), n == 0 ==> walked_any(h, en, n, o),
{
  assert forall|v: Seq<int>| #[trigger] emits(h, n, v) implies walked_any(h, en, n, o + v) by {
    if en.contains(n) && o.len() == 0 { assert(o + v =~= v); assert(walked(h, en, 0, n, v)); }
    else {
      let m = choose|m: int| #[trigger] walked_any(h, en, m, o) && m != 0 && h[m].Nexts.contains(n);
      let k = choose|k: int| k >= 0 && #[trigger] walked(h, en, k, m, o);
      let w = o + v; let j = o.len() as int; assert(w.subrange(0, j) =~= o); assert(w.subrange(j, w.len() as int) =~= v); assert(hop(h, m, n, w, j)); assert(walked(h, en, k + 1, n, w));
    }
  }
  if n == 0 { assert(emits(h, n, Seq::<int>::empty())); assert(o + Seq::<int>::empty() =~= o); }
}
pub proof fn spelled_of(h: Map<int, Node>, t: TransitionGraph, n: int, w: Seq<int>)
  requires walked_any(h, t.Entrypoints, n, w), t.Endpoints.contains(n), ensures spelled(h, t, w) {}
pub open spec fn seen(h: Map<int, Node>, ns: Map<Seq<int>, int>, n: int) -> bool { ns.contains_key(h[n].ID) }
// n is empty, was visited or waits on the stack
pub open spec fn queued(h: Map<int, Node>, ns: Map<Seq<int>, int>, st: Seq<int>, n: int) -> bool { n == 0 || seen(h, ns, n) || st.contains(n) }
pub open spec fn swept(h: Map<int, Node>, s: Set<int>, ns: Map<Seq<int>, int>, st: Seq<int>, x: int, k: int) -> bool {
  (forall|i: int| 0 <= i < st.len() ==> s.contains(#[trigger] st[i]))
  && (forall|n: int| s.contains(n) && #[trigger] seen(h, ns, n) ==> is_term(h[n].Elem))
  && (forall|n: int, i: int| s.contains(n) && seen(h, ns, n) && 0 <= i < h[n].Nexts.len() && (n == x ==> i < k) ==> queued(h, ns, st, #[trigger] h[n].Nexts[i]))
}
// recorded predecessors are predecessors
pub open spec fn rev_ok(h: Map<int, Node>, s: Set<int>, rv: Map<Seq<int>, Seq<int>>) -> bool {
  forall|id: Seq<int>, j: int| rv.contains_key(id) && 0 <= j < rv[id].len() ==> pred_of(h, s, #[trigger] rv[id][j], id)
}
pub open spec fn pred_of(h: Map<int, Node>, s: Set<int>, p: int, id: Seq<int>) -> bool { s.contains(p) && exists|i: int| 0 <= i < h[p].Nexts.len() && #[trigger] h[p].Nexts[i] != 0 && h[h[p].Nexts[i]].ID == id }
pub open spec fn reach_ok(h: Map<int, Node>, s: Set<int>, cr: Map<Seq<int>, bool>, es: Map<Seq<int>, bool>, q: Seq<Seq<int>>) -> bool {
  (forall|n: int| s.contains(n) && flag(cr, h[n].ID) ==> #[trigger] goes_on(h, cr, es, n))
  && (flag(cr, Seq::empty()) ==> flag(es, Seq::empty()))
  && (forall|i: int| 0 <= i < q.len() ==> flag(cr, #[trigger] q[i]))
}
pub open spec fn ents_in(h: Map<int, Node>, ns: Map<Seq<int>, int>, st: Seq<int>, en: Seq<int>) -> bool { forall|i: int| 0 <= i < en.len() ==> queued(h, ns, st, #[trigger] en[i]) }
// the top of the stack was visited already
pub proof fn sweep_pop(h: Map<int, Node>, s: Set<int>, ns: Map<Seq<int>, int>, st: Seq<int>, en: Seq<int>)
  requires swept(h, s, ns, st, 0, 0), ents_in(h, ns, st, en), st.len() > 0, seen(h, ns, st.last()),
  ensures swept(h, s, ns, st.subrange(0, st.len() - 1), 0, 0), ents_in(h, ns, st.subrange(0, st.len() - 1), en),
{
  let t = st.subrange(0, st.len() - 1);
  assert forall|n: int| #[trigger] queued(h, ns, st, n) implies queued(h, ns, t, n) by { if st.contains(n) { let j = choose|j: int| 0 <= j < st.len() && st[j] == n; if j < t.len() { assert(t[j] == n); } } }
  assert forall|i: int| 0 <= i < en.len() implies queued(h, ns, t, #[trigger] en[i]) by { assert(queued(h, ns, st, en[i])); }
  assert forall|n: int, i: int| s.contains(n) && seen(h, ns, n) && 0 <= i < h[n].Nexts.len() && (n == 0 ==> i < 0) implies queued(h, ns, t, #[trigger] h[n].Nexts[i]) by { assert(queued(h, ns, st, h[n].Nexts[i])); }
  assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t[i] == st[i]); }
}
// the top of the stack is visited now
pub proof fn sweep_visit(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, ns: Map<Seq<int>, int>, st: Seq<int>, en: Seq<int>)
  requires graph_in(h, t, s), swept(h, s, ns, st, 0, 0), ents_in(h, ns, st, en), st.len() > 0, is_term(h[st.last()].Elem), !seen(h, ns, st.last()),
  ensures ({ let n = st.last(); let ms = ns.insert(h[n].ID, n); let u = st.subrange(0, st.len() - 1); s.contains(n) && swept(h, s, ms, u, n, 0) && ents_in(h, ms, u, en) }),
{
  let x = st.last(); let ms = ns.insert(h[x].ID, x); let u = st.subrange(0, st.len() - 1);
  assert(s.contains(st[st.len() - 1]));
  assert forall|n: int| #[trigger] queued(h, ns, st, n) implies queued(h, ms, u, n) by { if n != x && st.contains(n) { let j = choose|j: int| 0 <= j < st.len() && st[j] == n; assert(u[j] == n); } }
  assert forall|i: int| 0 <= i < en.len() implies queued(h, ms, u, #[trigger] en[i]) by { assert(queued(h, ns, st, en[i])); }
  assert forall|n: int| s.contains(n) && #[trigger] seen(h, ms, n) implies is_term(h[n].Elem) by { if h[n].ID != h[x].ID { assert(seen(h, ns, n)); } }
  assert forall|n: int, i: int| s.contains(n) && seen(h, ms, n) && 0 <= i < h[n].Nexts.len() && (n == x ==> i < 0) implies queued(h, ms, u, #[trigger] h[n].Nexts[i]) by { assert(seen(h, ns, n)); assert(queued(h, ns, st, h[n].Nexts[i])); }
  assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) by { assert(u[i] == st[i]); }
}
pub proof fn sweep_next(h: Map<int, Node>, s: Set<int>, ns: Map<Seq<int>, int>, st: Seq<int>, en: Seq<int>, x: int, k: int, rv: Map<Seq<int>, Seq<int>>)
  requires swept(h, s, ns, st, x, k), ents_in(h, ns, st, en), s.contains(x), 0 <= k < h[x].Nexts.len(), h[x].Nexts[k] == 0 || s.contains(h[x].Nexts[k]), rev_ok(h, s, rv),
  ensures ({ let y = h[x].Nexts[k]; (y == 0 ==> swept(h, s, ns, st, x, k + 1)) && (y != 0 ==> swept(h, s, ns, st.push(y), x, k + 1) && ents_in(h, ns, st.push(y), en)
    && rev_ok(h, s, rv.insert(h[y].ID, (if rv.contains_key(h[y].ID) { rv[h[y].ID] } else { Seq::empty() }).push(x)))) }),
{
  let y = h[x].Nexts[k]; let u = st.push(y);
  if y != 0 {
    assert(u[st.len() as int] == y); assert(queued(h, ns, u, y));
    assert forall|n: int| #[trigger] queued(h, ns, st, n) implies queued(h, ns, u, n) by { if st.contains(n) { let j = choose|j: int| 0 <= j < st.len() && st[j] == n; assert(u[j] == n); } }
    assert forall|i: int| 0 <= i < en.len() implies queued(h, ns, u, #[trigger] en[i]) by { assert(queued(h, ns, st, en[i])); }
    assert forall|n: int, i: int| s.contains(n) && seen(h, ns, n) && 0 <= i < h[n].Nexts.len() && (n == x ==> i < k + 1) implies queued(h, ns, u, #[trigger] h[n].Nexts[i]) by { if !(n == x && i == k) { assert(queued(h, ns, st, h[n].Nexts[i])); } }
    assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) by { if i < st.len() { assert(u[i] == st[i]); } }
    let l = (if rv.contains_key(h[y].ID) { rv[h[y].ID] } else { Seq::empty() }); let rw = rv.insert(h[y].ID, l.push(x));
    assert(pred_of(h, s, x, h[y].ID));
    assert forall|id: Seq<int>, j: int| rw.contains_key(id) && 0 <= j < rw[id].len() implies pred_of(h, s, #[trigger] rw[id][j], id) by { if id == h[y].ID { if j < l.len() { assert(rw[id][j] == rv[id][j]); } } else { assert(rw[id][j] == rv[id][j]); } }
  } else { assert(queued(h, ns, st, y)); }
}
// one predecessor more is known to reach an endpoint
pub proof fn reach_more(h: Map<int, Node>, t: TransitionGraph, s: Set<int>, cr: Map<Seq<int>, bool>, es: Map<Seq<int>, bool>, q: Seq<Seq<int>>, p: int, id: Seq<int>)
  requires graph_in(h, t, s), reach_ok(h, s, cr, es, q), pred_of(h, s, p, id), flag(cr, id),
  ensures reach_ok(h, s, cr.insert(h[p].ID, true), es, q.push(h[p].ID)),
{
  let dr = cr.insert(h[p].ID, true); let r = q.push(h[p].ID);
  assert forall|n: int| s.contains(n) && flag(dr, h[n].ID) implies #[trigger] goes_on(h, dr, es, n) by {
    if n == p { let i = choose|i: int| 0 <= i < h[p].Nexts.len() && #[trigger] h[p].Nexts[i] != 0 && h[h[p].Nexts[i]].ID == id; assert(live(h, dr, h[p].Nexts[i])); }
    else { assert(s.contains(p)); assert(goes_on(h, cr, es, n)); if !flag(es, h[n].ID) { let i = choose|i: int| 0 <= i < h[n].Nexts.len() && live(h, cr, #[trigger] h[n].Nexts[i]); assert(live(h, dr, h[n].Nexts[i])); } }
  }
  assert forall|i: int| 0 <= i < r.len() implies flag(dr, #[trigger] r[i]) by { if i < q.len() { assert(flag(cr, q[i])); } }
}
pub proof fn reach_end(h: Map<int, Node>, s: Set<int>, cr: Map<Seq<int>, bool>, es: Map<Seq<int>, bool>, q: Seq<Seq<int>>, id: Seq<int>)
  requires reach_ok(h, s, cr, es, q),
  ensures reach_ok(h, s, cr.insert(id, true), es.insert(id, true), q.push(id)), flag(cr, id) ==> reach_ok(h, s, cr, es.insert(id, true), q),
{
  let dr = cr.insert(id, true); let fs = es.insert(id, true); let r = q.push(id);
  assert forall|n: int| s.contains(n) && flag(dr, h[n].ID) implies #[trigger] goes_on(h, dr, fs, n) by {
    if h[n].ID != id { assert(goes_on(h, cr, es, n)); if !flag(es, h[n].ID) { let i = choose|i: int| 0 <= i < h[n].Nexts.len() && live(h, cr, #[trigger] h[n].Nexts[i]); assert(live(h, dr, h[n].Nexts[i])); } }
  }
  assert forall|i: int| 0 <= i < r.len() implies flag(dr, #[trigger] r[i]) by { if i < q.len() { assert(flag(cr, q[i])); } }
  if flag(cr, id) {
    assert forall|n: int| s.contains(n) && flag(cr, h[n].ID) implies #[trigger] goes_on(h, cr, fs, n) by { assert(goes_on(h, cr, es, n)); }
  }
}
pub proof fn gen_done(h: Map<int, Node>, g: Generator, s: Set<int>, ns: Map<Seq<int>, int>)
  requires g.tg is Some, graph_in(h, g.tg->Some_0, s), swept(h, s, ns, Seq::empty(), 0, 0), ents_in(h, ns, Seq::empty(), g.tg->Some_0.Entrypoints),
    ends_ok(h, g.endSet, g.tg->Some_0.Endpoints), reach_ok(h, s, g.canReach, g.endSet, Seq::empty()),
    forall|i: int| 0 <= i < g.entries.len() ==> g.tg->Some_0.Entrypoints.contains(#[trigger] g.entries[i]) && flag(g.canReach, tgid(h, g.entries[i])),
  ensures gen_ok(h, g),
{
  let t = g.tg->Some_0; let v = s.filter(|n: int| seen(h, ns, n));
  assert forall|i: int| 0 <= i < g.entries.len() implies { let n = #[trigger] g.entries[i]; (n == 0 || v.contains(n)) && t.Entrypoints.contains(n) && flag(g.canReach, tgid(h, n)) } by {
    let j = choose|j: int| 0 <= j < t.Entrypoints.len() && t.Entrypoints[j] == g.entries[i]; assert(queued(h, ns, Seq::empty(), t.Entrypoints[j]));
  }
  assert forall|n: int| #[trigger] v.contains(n) implies n != 0 && sat_term(h[n].Elem) by { assert(s.contains(n)); assert(seen(h, ns, n)); }
  assert forall|n: int, i: int| v.contains(n) && 0 <= i < h[n].Nexts.len() && h[n].Nexts[i] != 0 implies v.contains(#[trigger] h[n].Nexts[i]) by { assert(queued(h, ns, Seq::empty(), h[n].Nexts[i])); assert(s.contains(h[n].Nexts[i])); }
  assert forall|n: int| #[trigger] v.contains(n) && flag(g.endSet, h[n].ID) implies t.Endpoints.contains(n) by {
    let i = choose|i: int| 0 <= i < t.Endpoints.len() && tgid(h, #[trigger] t.Endpoints[i]) == h[n].ID; assert(s.contains(n)); assert(t.Endpoints[i] == 0 || s.contains(t.Endpoints[i]));
  }
  if flag(g.canReach, Seq::empty()) { assert(flag(g.endSet, Seq::empty())); let i = choose|i: int| 0 <= i < t.Endpoints.len() && tgid(h, #[trigger] t.Endpoints[i]) == Seq::<int>::empty(); assert(t.Endpoints[i] == 0); }
  assert(gen_in(h, g, v));
}
