// ---- dag.rs: reachability between rules, strongly connected components ----
pub type Adj = Map<Seq<int>, Seq<Seq<int>>>;
pub open spec fn edge(g: Adj, a: Seq<int>, b: Seq<int>) -> bool { g.contains_key(a) && g.contains_key(b) && g[a].contains(b) }
pub open spec fn path(g: Adj, a: Seq<int>, b: Seq<int>, n: nat) -> bool decreases n {
  if n == 0 { a == b } else { exists|c: Seq<int>| #[trigger] edge(g, a, c) && path(g, c, b, (n - 1) as nat) }
}
pub open spec fn reaches(g: Adj, a: Seq<int>, b: Seq<int>) -> bool { exists|n: nat| #[trigger] path(g, a, b, n) }
// reaches itself through at least one reference
pub open spec fn cyc(g: Adj, a: Seq<int>) -> bool { exists|c: Seq<int>| #[trigger] edge(g, a, c) && reaches(g, c, a) }
pub proof fn path_cat(g: Adj, a: Seq<int>, b: Seq<int>, c: Seq<int>, m: nat, n: nat)
  requires path(g, a, b, m), path(g, b, c, n), ensures path(g, a, c, m + n), decreases m,
{
  if m > 0 { let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, b, (m - 1) as nat); path_cat(g, d, b, c, (m - 1) as nat, n); assert(edge(g, a, d) && path(g, d, c, (m + n - 1) as nat)); }
}
pub proof fn reach_cat(g: Adj, a: Seq<int>, b: Seq<int>, c: Seq<int>)
  requires reaches(g, a, b), reaches(g, b, c), ensures reaches(g, a, c),
{ let m = choose|m: nat| #[trigger] path(g, a, b, m); let n = choose|n: nat| #[trigger] path(g, b, c, n); path_cat(g, a, b, c, m, n); }
pub proof fn reach_refl(g: Adj, a: Seq<int>) ensures reaches(g, a, a) { assert(path(g, a, a, 0)); }
pub proof fn reach_edge(g: Adj, a: Seq<int>, b: Seq<int>) requires edge(g, a, b), ensures reaches(g, a, b)
{ assert(path(g, b, b, 0)); assert(path(g, a, b, 1)); }
pub proof fn closed_path(g: Adj, c: Set<Seq<int>>, a: Seq<int>, b: Seq<int>, n: nat)
  requires c.contains(a), path(g, a, b, n), forall|x: Seq<int>, y: Seq<int>| c.contains(x) && #[trigger] edge(g, x, y) ==> c.contains(y),
  ensures c.contains(b), decreases n,
{ if n > 0 { let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, b, (n - 1) as nat); closed_path(g, c, d, b, (n - 1) as nat); } }
pub proof fn cyc_of(g: Adj, a: Seq<int>, b: Seq<int>)
  requires a != b, reaches(g, a, b), reaches(g, b, a), ensures cyc(g, a),
{
  let m = choose|m: nat| #[trigger] path(g, a, b, m);
  let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, b, (m - 1) as nat);
  assert(reaches(g, d, b)); reach_cat(g, d, b, a);
}

// ---- the graph handed to the component finder ----
pub open spec fn nm(H: Map<int, node>, v: int) -> Seq<int> { lower_all(H[v].Rulename) }
pub open spec fn adj(H: Map<int, node>, dg: Map<Seq<int>, int>) -> Adj { dg.map_values(|r: int| H[r].Dependencies) }
pub open spec fn dg_ok(H: Map<int, node>, dg: Map<Seq<int>, int>) -> bool {
  forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> dg[k] != 0 && H.contains_key(dg[k]) && nm(H, dg[k]) =~= k && name_ok(H[dg[k]].Rulename)
}
pub open spec fn is_node(H: Map<int, node>, dg: Map<Seq<int>, int>, v: int) -> bool { v != 0 && H.contains_key(v) && dg.contains_key(nm(H, v)) && dg[nm(H, v)] == v }
pub open spec fn same_graph(H: Map<int, node>, K: Map<int, node>) -> bool {
  K.dom() =~= H.dom() && forall|v: int| #[trigger] K.contains_key(v) ==> K[v].Rulename == H[v].Rulename && K[v].Dependencies == H[v].Dependencies
}
pub proof fn same_adj(H: Map<int, node>, K: Map<int, node>, dg: Map<Seq<int>, int>)
  requires same_graph(H, K), dg_ok(H, dg),
  ensures dg_ok(K, dg), adj(H, dg) == adj(K, dg), forall|v: int| H.contains_key(v) ==> #[trigger] nm(K, v) == nm(H, v), forall|v: int| #[trigger] is_node(K, dg, v) <==> is_node(H, dg, v),
{
  assert forall|k: Seq<int>| #[trigger] dg.contains_key(k) implies dg[k] != 0 && K.contains_key(dg[k]) && nm(K, dg[k]) =~= k && name_ok(K[dg[k]].Rulename) && K[dg[k]].Dependencies == H[dg[k]].Dependencies by { assert(H.contains_key(dg[k])); assert(K.contains_key(dg[k])); }
  assert(adj(H, dg) =~= adj(K, dg));
  assert forall|v: int| #[trigger] is_node(K, dg, v) <==> is_node(H, dg, v) by { if H.contains_key(v) { assert(K.contains_key(v)); } }
}
// position (i, j) of a member
pub open spec fn at2(sccs: Seq<Seq<int>>, i: int, j: int) -> bool { 0 <= i < sccs.len() && 0 <= j < sccs[i].len() }
pub open spec fn in_sccs(sccs: Seq<Seq<int>>, n: int, v: int) -> bool { exists|i: int, j: int| 0 <= i < n && at2(sccs, i, j) && #[trigger] sccs[i][j] == v }
pub open spec fn sccs_ok(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>) -> bool {
  (forall|i: int| 0 <= i < sccs.len() ==> (#[trigger] sccs[i]).len() > 0)
  && (forall|i: int, j: int| at2(sccs, i, j) ==> is_node(H, dg, #[trigger] sccs[i][j]))
  && (forall|i: int, j: int, k: int, l: int| at2(sccs, i, j) && at2(sccs, k, l) && #[trigger] sccs[i][j] == #[trigger] sccs[k][l] ==> i == k && j == l)
  && (forall|i: int, j: int, l: int| at2(sccs, i, j) && at2(sccs, i, l) ==> reaches(adj(H, dg), nm(H, #[trigger] sccs[i][j]), nm(H, #[trigger] sccs[i][l])))
  && (forall|i: int, j: int, k: Seq<int>| at2(sccs, i, j) && #[trigger] edge(adj(H, dg), nm(H, #[trigger] sccs[i][j]), k) ==> in_sccs(sccs, i + 1, dg[k]))
}
pub open spec fn tj(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle) -> bool {
  dg_ok(H, dg) && c.dg == dg && c.index >= 0
  && (forall|v: int| #[trigger] is_node(H, dg, v) ==> 0 <= H[v].index <= c.index && (H[v].onStack <==> c.stack.contains(v)) && (H[v].index > 0 <==> c.stack.contains(v) || in_sccs(c.sccs, c.sccs.len() as int, v)) && !(c.stack.contains(v) && in_sccs(c.sccs, c.sccs.len() as int, v)))
  && (forall|i: int| 0 <= i < c.stack.len() ==> is_node(H, dg, #[trigger] c.stack[i]))
  && (forall|i: int, j: int| 0 <= i < c.stack.len() && 0 <= j < c.stack.len() && #[trigger] c.stack[i] == #[trigger] c.stack[j] ==> i == j)
  && sccs_ok(H, dg, c.sccs)
}
// what a visit leaves alone: visited nodes keep their numbers, the stack below and the components found
pub open spec fn kept(H: Map<int, node>, c: cycle, K: Map<int, node>, d: cycle) -> bool {
  same_graph(H, K) && d.index >= c.index && c.dg == d.dg && c.stack.len() <= d.stack.len() && d.stack.subrange(0, c.stack.len() as int) =~= c.stack
  && c.sccs.len() <= d.sccs.len() && d.sccs.subrange(0, c.sccs.len() as int) =~= c.sccs
  && (forall|v: int| is_node(H, c.dg, v) && (#[trigger] H[v]).index > 0 ==> K[v].index == H[v].index && K[v].lowlink == H[v].lowlink)
}
// the nodes put on the stack above height s by the visit of v: reached from v, and v's low link covers every edge into the stack below
pub open spec fn seg(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int, low: int, i: int) -> bool {
  let y = c.stack[i];
  reaches(adj(H, dg), nm(H, v), nm(H, y))
}
pub open spec fn seg_edges(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, y: int, low: int, k: Seq<int>) -> bool {
  H[dg[k]].index > 0 && (forall|p: int| 0 <= p < s && #[trigger] c.stack[p] == dg[k] ==> low <= H[dg[k]].index)
}
pub open spec fn set_low(H: Map<int, node>, v: int, low: int) -> Map<int, node> { H.insert(v, node { lowlink: low, ..H[v] }) }
// a node put on the stack by the visit of v (at height i >= s)
pub open spec fn above(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int, floor: int) -> bool {
  forall|i: int| s <= i < c.stack.len() ==> reaches(adj(H, dg), nm(H, v), nm(H, #[trigger] c.stack[i])) && H[c.stack[i]].index > floor
}
pub open spec fn back(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int) -> bool {
  forall|i: int| s <= i < c.stack.len() ==> reaches(adj(H, dg), nm(H, #[trigger] c.stack[i]), nm(H, v))
}
pub open spec fn edges_ok(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, t: int, low: int) -> bool {
  forall|i: int, k: Seq<int>| t <= i < c.stack.len() && #[trigger] edge(adj(H, dg), nm(H, #[trigger] c.stack[i]), k) ==> seg_edges(H, dg, c, s, c.stack[i], low, k)
}
pub open spec fn low_at(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int) -> bool {
  exists|p: int| 0 <= p < s && p < c.stack.len() && H[#[trigger] c.stack[p]].index == H[v].lowlink && reaches(adj(H, dg), nm(H, v), nm(H, c.stack[p]))
}
pub open spec fn all_reach(H: Map<int, node>, dg: Map<Seq<int>, int>, stack: Seq<int>, v: int) -> bool {
  forall|i: int| 0 <= i < stack.len() ==> reaches(adj(H, dg), nm(H, #[trigger] stack[i]), nm(H, v))
}
pub open spec fn deps_done(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int, low: int, n: int) -> bool {
  forall|q: int| 0 <= q < n && dg.contains_key(#[trigger] H[v].Dependencies[q]) ==> seg_edges(H, dg, c, s, v, low, H[v].Dependencies[q])
}
// while the first n references of v are done
pub open spec fn vis(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, n: int) -> bool {
  let s = c0.stack.len() as int; let dg = c0.dg;
  tj(H, dg, c) && kept(H0, c0, H, c) && c.stack.len() > s && c.stack[s] == v && is_node(H, dg, v) && all_reach(H, dg, c.stack, v)
  && H[v].index == c0.index + 1 && H[v].lowlink <= H[v].index && above(H, dg, c, s, v, c0.index) && edges_ok(H, dg, c, s, s + 1, H[v].lowlink)
  && deps_done(H, dg, c, s, v, H[v].lowlink, n)
  && low_at(H, dg, c, s + 1, v)
}
// after the visit of v
pub open spec fn done(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle) -> bool {
  let s = c0.stack.len() as int; let dg = c0.dg;
  tj(H, dg, c) && kept(H0, c0, H, c) && is_node(H, dg, v) && all_reach(H, dg, c0.stack, v) && H[v].index > c0.index && H[v].lowlink <= H[v].index
  && above(H, dg, c, s, v, c0.index) && edges_ok(H, dg, c, s, s, H[v].lowlink)
  && ((c.stack == c0.stack && H[v].lowlink == H[v].index) || low_at(H, dg, c, s, v))
  && (forall|i: int| s <= i < c.stack.len() ==> exists|p: int| 0 <= p < s && reaches(adj(H, dg), nm(H, #[trigger] c.stack[i]), nm(H, #[trigger] c0.stack[p])))
}
pub open spec fn can_visit(H: Map<int, node>, c: cycle, v: int) -> bool { tj(H, c.dg, c) && is_node(H, c.dg, v) && H[v].index == 0 && all_reach(H, c.dg, c.stack, v) }
pub proof fn vis_start(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle)
  requires can_visit(H0, c0, v), c == (cycle { index: c0.index + 1, stack: c0.stack.push(v), ..c0 }), H == H0.insert(v, node { index: c0.index + 1, lowlink: c0.index + 1, onStack: true, ..H0[v] }),
  ensures vis(H0, c0, v, H, c, 0),
{
  let dg = c0.dg; let s = c0.stack.len() as int;
  assert(same_graph(H0, H)); same_adj(H0, H, dg); reach_refl(adj(H, dg), nm(H, v));
  assert(c.stack[s] == v);
  assert forall|i: int| 0 <= i < c.stack.len() implies is_node(H, dg, #[trigger] c.stack[i]) && reaches(adj(H, dg), nm(H, c.stack[i]), nm(H, v)) by { if i < s { assert(c.stack[i] == c0.stack[i]); } }
  assert(!c0.stack.contains(v));
  assert forall|u: int| #[trigger] c.stack.contains(u) <==> c0.stack.contains(u) || u == v by { if c0.stack.contains(u) { let p = choose|p: int| 0 <= p < s && c0.stack[p] == u; assert(c.stack[p] == u); } }
  assert forall|u: int| #[trigger] is_node(H, dg, u) implies 0 <= H[u].index <= c.index && (H[u].onStack <==> c.stack.contains(u)) && (H[u].index > 0 <==> c.stack.contains(u) || in_sccs(c.sccs, c.sccs.len() as int, u)) && !(c.stack.contains(u) && in_sccs(c.sccs, c.sccs.len() as int, u)) by { assert(is_node(H0, dg, u)); }
  sccs_same(H0, H, dg, c.sccs);
  assert(H[c.stack[s]].index == H[v].lowlink);
}
pub proof fn sccs_same(H: Map<int, node>, K: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>)
  requires same_graph(H, K), dg_ok(H, dg), sccs_ok(H, dg, sccs), ensures sccs_ok(K, dg, sccs),
{
  same_adj(H, K, dg);
  assert forall|i: int, j: int| at2(sccs, i, j) implies is_node(K, dg, #[trigger] sccs[i][j]) && nm(K, sccs[i][j]) == nm(H, sccs[i][j]) by { assert(is_node(H, dg, sccs[i][j])); }
}
// only low links of v change
pub proof fn low_same(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, low: int)
  requires tj(H, c0.dg, c), kept(H0, c0, H, c), is_node(H, c0.dg, v), !(H0.contains_key(v) && H0[v].index > 0), same_graph(H0, H),
  ensures ({ let K = set_low(H, v, low); tj(K, c0.dg, c) && kept(H0, c0, K, c) && same_graph(H, K) }),
{
  let K = set_low(H, v, low); assert(same_graph(H, K)); same_adj(H, K, c0.dg); sccs_same(H, K, c0.dg, c.sccs);
  assert forall|u: int| #[trigger] is_node(K, c0.dg, u) implies is_node(H, c0.dg, u) by {}
  assert forall|u: int| is_node(H0, c0.dg, u) && (#[trigger] H0[u]).index > 0 implies K[u].index == H0[u].index && K[u].lowlink == H0[u].lowlink by { assert(u != v); }
}
pub proof fn vis_skip(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, n: int)
  requires vis(H0, c0, v, H, c, n), 0 <= n < H[v].Dependencies.len(), !c.dg.contains_key(H[v].Dependencies[n]),
  ensures vis(H0, c0, v, H, c, n + 1),
{}
// a reference to a visited node: on the stack the low link takes it in, elsewhere nothing is owed
pub proof fn vis_back(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, n: int)
  requires vis(H0, c0, v, H, c, n), 0 <= n < H[v].Dependencies.len(), c.dg.contains_key(H[v].Dependencies[n]), H0.contains_key(v) ==> H0[v].index == 0,
    H[c.dg[H[v].Dependencies[n]]].index != 0,
  ensures ({ let w = c.dg[H[v].Dependencies[n]];
    (!H[w].onStack ==> vis(H0, c0, v, H, c, n + 1)) && (H[w].onStack ==> vis(H0, c0, v, set_low(H, v, go_min(H[v].lowlink, H[w].index)), c, n + 1)) }),
{
  let dg = c0.dg; let s = c0.stack.len() as int; let k0 = H[v].Dependencies[n]; let w = dg[k0];
  assert(is_node(H, dg, w));
  if !H[w].onStack {
    assert(seg_edges(H, dg, c, s, v, H[v].lowlink, k0)) by { assert forall|p: int| 0 <= p < s && #[trigger] c.stack[p] == w implies H[v].lowlink <= H[w].index by { assert(c.stack.contains(w)); } }
  } else {
    let low = go_min(H[v].lowlink, H[w].index); let K = set_low(H, v, low);
    low_same(H0, c0, v, H, c, low); same_adj(H, K, dg);
    low_less(H, K, dg, c, s, v, H[v].lowlink, low, n);
    assert(K[v].Dependencies == H[v].Dependencies);
    assert(deps_done(K, dg, c, s, v, low, n + 1)) by { assert forall|q: int| 0 <= q < n + 1 && dg.contains_key(#[trigger] K[v].Dependencies[q]) implies seg_edges(K, dg, c, s, v, low, K[v].Dependencies[q]) by { if q < n { assert(seg_edges(H, dg, c, s, v, H[v].lowlink, H[v].Dependencies[q])); } } }
    assert(seg_edges(K, dg, c, s, v, low, k0));
    let p = choose|p: int| 0 <= p < c.stack.len() && c.stack[p] == w;
    if H[w].index < H[v].lowlink {
      if p > s { assert(H[c.stack[p]].index > c0.index); }
      assert(edge(adj(H, dg), nm(H, v), k0)) by { assert(adj(H, dg)[nm(H, v)] == H[v].Dependencies); assert(H[v].Dependencies.contains(k0)); }
      reach_edge(adj(H, dg), nm(H, v), k0); assert(nm(H, w) == k0);
      assert(K[c.stack[p]].index == K[v].lowlink);
    } else {
      let q = choose|q: int| 0 <= q < s + 1 && q < c.stack.len() && H[#[trigger] c.stack[q]].index == H[v].lowlink && reaches(adj(H, dg), nm(H, v), nm(H, c.stack[q]));
      assert(K[c.stack[q]].index == K[v].lowlink);
    }
    assert(low_at(K, dg, c, s + 1, v));
  }
}
pub proof fn low_less(H: Map<int, node>, K: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, s: int, v: int, low: int, l2: int, n: int)
  requires tj(H, dg, c), is_node(H, dg, v), K == set_low(H, v, l2), l2 <= low, 0 <= s <= c.stack.len(),
  ensures forall|t: int| #[trigger] edges_ok(H, dg, c, s, t, low) && t >= 0 ==> edges_ok(K, dg, c, s, t, l2),
    forall|y: int, k: Seq<int>| #[trigger] seg_edges(H, dg, c, s, y, low, k) ==> seg_edges(K, dg, c, s, y, l2, k),
    forall|fl: int| #[trigger] above(H, dg, c, s, v, fl) ==> above(K, dg, c, s, v, fl),
    all_reach(H, dg, c.stack, v) ==> all_reach(K, dg, c.stack, v),
{
  assert(same_graph(H, K)); same_adj(H, K, dg);
  assert forall|i: int| 0 <= i < c.stack.len() implies nm(K, #[trigger] c.stack[i]) == nm(H, c.stack[i]) && K[c.stack[i]].index == H[c.stack[i]].index by { assert(is_node(H, dg, c.stack[i])); }
  assert forall|y: int, k: Seq<int>| #[trigger] seg_edges(H, dg, c, s, y, low, k) implies seg_edges(K, dg, c, s, y, l2, k) by {}
  assert forall|t: int| #[trigger] edges_ok(H, dg, c, s, t, low) && t >= 0 implies edges_ok(K, dg, c, s, t, l2) by {
    assert forall|i: int, k: Seq<int>| t <= i < c.stack.len() && #[trigger] edge(adj(K, dg), nm(K, #[trigger] c.stack[i]), k) implies seg_edges(K, dg, c, s, c.stack[i], l2, k) by { assert(edge(adj(H, dg), nm(H, c.stack[i]), k)); assert(seg_edges(H, dg, c, s, c.stack[i], low, k)); }
  }
}

// a reference to a new node w: its visit took (H, c) to (L, d)
pub proof fn vis_can(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, n: int)
  requires vis(H0, c0, v, H, c, n), 0 <= n < H[v].Dependencies.len(), c.dg.contains_key(H[v].Dependencies[n]), H[c.dg[H[v].Dependencies[n]]].index == 0,
  ensures can_visit(H, c, c.dg[H[v].Dependencies[n]]), edge(adj(H, c.dg), nm(H, v), H[v].Dependencies[n]),
{
  let dg = c0.dg; let g = adj(H, dg); let k0 = H[v].Dependencies[n]; let w = dg[k0];
  assert(edge(g, nm(H, v), k0)) by { assert(g[nm(H, v)] == H[v].Dependencies); assert(H[v].Dependencies.contains(k0)); }
  reach_edge(g, nm(H, v), k0); assert(nm(H, w) == k0);
  assert forall|i: int| 0 <= i < c.stack.len() implies reaches(g, nm(H, #[trigger] c.stack[i]), nm(H, w)) by { reach_cat(g, nm(H, c.stack[i]), nm(H, v), nm(H, w)); }
}
pub proof fn vis_call(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, n: int, L: Map<int, node>, d: cycle)
  requires vis(H0, c0, v, H, c, n), 0 <= n < H[v].Dependencies.len(), c.dg.contains_key(H[v].Dependencies[n]), H0.contains_key(v) ==> H0[v].index == 0, H[c.dg[H[v].Dependencies[n]]].index == 0,
    done(H, c, c.dg[H[v].Dependencies[n]], L, d),
  ensures ({ let w = c.dg[H[v].Dependencies[n]]; vis(H0, c0, v, set_low(L, v, go_min(L[v].lowlink, L[w].lowlink)), d, n + 1) }),
{
  let dg = c0.dg; let s = c0.stack.len() as int; let s2 = c.stack.len() as int; let k0 = H[v].Dependencies[n]; let w = dg[k0];
  vis_can(H0, c0, v, H, c, n);
  same_adj(H, L, dg); let g = adj(H, dg); assert(nm(H, w) == k0);
  assert(is_node(H, dg, v)); assert(L[v].index == H[v].index && L[v].lowlink == H[v].lowlink);
  assert forall|i: int| 0 <= i < s2 implies d.stack[i] == #[trigger] c.stack[i] && L[c.stack[i]].index == H[c.stack[i]].index && nm(L, c.stack[i]) == nm(H, c.stack[i]) && is_node(L, dg, c.stack[i]) by {
    assert(d.stack.subrange(0, s2)[i] == c.stack[i]); assert(is_node(H, dg, c.stack[i])); assert(c.stack.contains(c.stack[i])); assert(H[c.stack[i]].index > 0);
  }
  kept_trans(H0, c0, H, c, L, d);
  assert(d.stack[s] == c.stack[s]);
  reach_edge(g, nm(H, v), k0);
  let low = go_min(L[v].lowlink, L[w].lowlink);
  assert(all_reach(L, dg, d.stack, v)) by {
    assert forall|i: int| 0 <= i < d.stack.len() implies reaches(g, nm(L, #[trigger] d.stack[i]), nm(L, v)) by {
      if i < s2 { assert(d.stack[i] == c.stack[i]); } else {
        let p = choose|p: int| 0 <= p < s2 && reaches(adj(L, dg), nm(L, d.stack[i]), nm(L, #[trigger] c.stack[p]));
        reach_cat(g, nm(L, d.stack[i]), nm(L, c.stack[p]), nm(L, v));
      }
    }
  }
  assert(above(L, dg, d, s, v, c0.index)) by {
    assert forall|i: int| s <= i < d.stack.len() implies reaches(g, nm(L, v), nm(L, #[trigger] d.stack[i])) && L[d.stack[i]].index > c0.index by {
      if i < s2 { assert(d.stack[i] == c.stack[i]); } else { reach_cat(g, nm(L, v), nm(L, w), nm(L, d.stack[i])); }
    }
  }
  assert(forall|i: int| 0 <= i < s2 ==> d.stack[i] == #[trigger] c.stack[i]);
  assert(edges_ok(L, dg, d, s, s + 1, low)) by {
    assert forall|i: int, k: Seq<int>| s + 1 <= i < d.stack.len() && #[trigger] edge(g, nm(L, #[trigger] d.stack[i]), k) implies seg_edges(L, dg, d, s, d.stack[i], low, k) by {
      if i < s2 { assert(d.stack[i] == c.stack[i]); assert(edge(g, nm(H, c.stack[i]), k)); assert(seg_edges(H, dg, c, s, c.stack[i], H[v].lowlink, k)); seg_keep(H, L, dg, c, d, s, c.stack[i], H[v].lowlink, low, k); }
      else { assert(seg_edges(L, dg, d, s2, d.stack[i], L[w].lowlink, k)); }
    }
  }
  assert(L[v].Dependencies == H[v].Dependencies);
  assert(deps_done(L, dg, d, s, v, low, n + 1)) by {
    assert forall|q: int| 0 <= q < n + 1 && dg.contains_key(#[trigger] L[v].Dependencies[q]) implies seg_edges(L, dg, d, s, v, low, L[v].Dependencies[q]) by {
      if q < n { assert(seg_edges(H, dg, c, s, v, H[v].lowlink, H[v].Dependencies[q])); seg_keep(H, L, dg, c, d, s, v, H[v].lowlink, low, H[v].Dependencies[q]); }
      else { assert forall|p: int| 0 <= p < s && #[trigger] d.stack[p] == w implies low <= L[w].index by { } }
    }
  }
  let K = set_low(L, v, low);
  low_same(H0, c0, v, L, d, low); same_adj(L, K, dg); low_less(L, K, dg, d, s, v, low, low, n);
  assert(K[v].Dependencies == L[v].Dependencies);
  assert(deps_done(K, dg, d, s, v, low, n + 1)) by { assert forall|q: int| 0 <= q < n + 1 && dg.contains_key(#[trigger] K[v].Dependencies[q]) implies seg_edges(K, dg, d, s, v, low, K[v].Dependencies[q]) by { assert(seg_edges(L, dg, d, s, v, low, L[v].Dependencies[q])); } }
  assert(low_at(K, dg, d, s + 1, v)) by {
    if L[w].lowlink < L[v].lowlink {
      let p = choose|p: int| 0 <= p < s2 && p < d.stack.len() && L[#[trigger] d.stack[p]].index == L[w].lowlink && reaches(adj(L, dg), nm(L, w), nm(L, d.stack[p]));
      assert(d.stack[p] == c.stack[p]);
      if p > s { assert(H[c.stack[p]].index > c0.index); }
      reach_cat(g, nm(L, v), nm(L, w), nm(L, d.stack[p])); assert(K[d.stack[p]].index == K[v].lowlink);
    } else {
      let q = choose|q: int| 0 <= q < s + 1 && q < c.stack.len() && H[#[trigger] c.stack[q]].index == H[v].lowlink && reaches(adj(H, dg), nm(H, v), nm(H, c.stack[q]));
      assert(d.stack[q] == c.stack[q]); assert(K[d.stack[q]].index == K[v].lowlink);
    }
  }
}
pub proof fn seg_keep(H: Map<int, node>, L: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, d: cycle, s: int, y: int, low: int, l2: int, k: Seq<int>)
  requires seg_edges(H, dg, c, s, y, low, k), l2 <= low, kept(H, c, L, d), dg.contains_key(k), dg_ok(H, dg), c.dg == dg, 0 <= s <= c.stack.len(), ensures seg_edges(L, dg, d, s, y, l2, k),
{
  assert(is_node(H, dg, dg[k])); assert(L[dg[k]].index == H[dg[k]].index);
  assert forall|p: int| 0 <= p < s && #[trigger] d.stack[p] == dg[k] implies l2 <= L[dg[k]].index by { assert(d.stack.subrange(0, c.stack.len() as int)[p] == c.stack[p]); }
}
pub proof fn kept_trans(H0: Map<int, node>, c0: cycle, H: Map<int, node>, c: cycle, L: Map<int, node>, d: cycle)
  requires kept(H0, c0, H, c), kept(H, c, L, d), dg_ok(H0, c0.dg), ensures kept(H0, c0, L, d),
{
  same_adj(H0, H, c0.dg);
  assert forall|i: int| 0 <= i < c0.stack.len() implies d.stack[i] == #[trigger] c0.stack[i] by { assert(c.stack.subrange(0, c0.stack.len() as int)[i] == c0.stack[i]); assert(d.stack.subrange(0, c.stack.len() as int)[i] == c.stack[i]); }
  assert(d.stack.subrange(0, c0.stack.len() as int) =~= c0.stack);
  assert forall|i: int| 0 <= i < c0.sccs.len() implies d.sccs[i] == #[trigger] c0.sccs[i] by { assert(c.sccs.subrange(0, c0.sccs.len() as int)[i] == c0.sccs[i]); assert(d.sccs.subrange(0, c.sccs.len() as int)[i] == c.sccs[i]); }
  assert(d.sccs.subrange(0, c0.sccs.len() as int) =~= c0.sccs);
  assert forall|v: int| is_node(H0, c0.dg, v) && (#[trigger] H0[v]).index > 0 implies L[v].index == H0[v].index && L[v].lowlink == H0[v].lowlink by { assert(is_node(H, c0.dg, v)); assert(H[v].index > 0); }
}
// v is not the root of its component
pub proof fn not_root(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle)
  requires vis(H0, c0, v, H, c, H[v].Dependencies.len() as int), can_visit(H0, c0, v), H[v].lowlink != H[v].index, ensures done(H0, c0, v, H, c),
{
  let dg = c0.dg; let s = c0.stack.len() as int; let g = adj(H, dg);
  all_edges(H0, c0, v, H, c);
  same_adj(H0, H, dg);
  let q = choose|q: int| 0 <= q < s + 1 && q < c.stack.len() && H[#[trigger] c.stack[q]].index == H[v].lowlink && reaches(g, nm(H, v), nm(H, c.stack[q]));
  assert(q < s); assert(c.stack.subrange(0, s)[q] == c0.stack[q]);
  assert forall|i: int| s <= i < c.stack.len() implies exists|p: int| 0 <= p < s && reaches(g, nm(H, #[trigger] c.stack[i]), nm(H, #[trigger] c0.stack[p])) by { reach_cat(g, nm(H, c.stack[i]), nm(H, v), nm(H, c.stack[q])); assert(reaches(g, nm(H, c.stack[i]), nm(H, c0.stack[q]))); }
  assert forall|i: int| 0 <= i < s implies reaches(g, nm(H, #[trigger] c0.stack[i]), nm(H, v)) by { assert(c.stack.subrange(0, s)[i] == c0.stack[i]); assert(c.stack[i] == c0.stack[i]); }
}
pub proof fn all_edges(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle)
  requires vis(H0, c0, v, H, c, H[v].Dependencies.len() as int), ensures edges_ok(H, c0.dg, c, c0.stack.len() as int, c0.stack.len() as int, H[v].lowlink),
{
  let dg = c0.dg; let s = c0.stack.len() as int; let g = adj(H, dg);
  assert forall|i: int, k: Seq<int>| s <= i < c.stack.len() && #[trigger] edge(g, nm(H, #[trigger] c.stack[i]), k) implies seg_edges(H, dg, c, s, c.stack[i], H[v].lowlink, k) by {
    if i == s { assert(g[nm(H, v)] == H[v].Dependencies); let q = choose|q: int| 0 <= q < H[v].Dependencies.len() && H[v].Dependencies[q] == k; assert(dg.contains_key(H[v].Dependencies[q])); }
  }
}
// ---- popping a component: the stack as it stood is c.stack followed by scc reversed ----
pub open spec fn restore(H: Map<int, node>, scc: Seq<int>) -> Map<int, node> { H.map_entries(|r: int, x: node| if scc.contains(r) { node { onStack: true, ..x } } else { x }) }
pub open spec fn full(c: cycle, scc: Seq<int>) -> cycle { cycle { stack: c.stack + scc.reverse(), ..c } }
pub open spec fn popping(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, scc: Seq<int>, w: int) -> bool {
  let F = restore(H, scc); let s = c0.stack.len() as int;
  vis(H0, c0, v, F, full(c, scc), F[v].Dependencies.len() as int) && F[v].lowlink == F[v].index
  && (forall|i: int| 0 <= i < scc.len() ==> !H[#[trigger] scc[i]].onStack)
  && (w == 0 <==> scc.len() == 0) && (w != 0 ==> w == scc.last() && is_node(F, c0.dg, w) && H.contains_key(w)) && (w != v ==> c.stack.len() > s) && (w == v ==> c.stack.len() == s)
}
pub proof fn pop_start(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle)
  requires vis(H0, c0, v, H, c, H[v].Dependencies.len() as int), H[v].lowlink == H[v].index, ensures popping(H0, c0, v, H, c, Seq::empty(), 0),
{ assert(restore(H, Seq::empty()) =~= H); assert(c.stack + Seq::<int>::empty().reverse() =~= c.stack); assert(full(c, Seq::empty()) == c); }
pub proof fn pop_step(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, scc: Seq<int>, w: int)
  requires popping(H0, c0, v, H, c, scc, w), w != v,
  ensures ({ let m = c.stack.len() - 1; let x = c.stack[m]; let K = H.insert(x, node { onStack: false, ..H[x] }); m >= 0 && x != 0 && H.contains_key(x) && popping(H0, c0, v, K, cycle { stack: c.stack.subrange(0, m), ..c }, scc.push(x), x) }),
{
  let m = c.stack.len() - 1; let x = c.stack[m]; let s = c0.stack.len() as int;
  let F = restore(H, scc); let f = full(c, scc);
  assert(f.stack[m] == x); assert(is_node(F, c0.dg, x)); assert(F.contains_key(x)); assert(f.stack.contains(x)); assert(F[x].onStack);
  let K = H.insert(x, node { onStack: false, ..H[x] }); let e = cycle { stack: c.stack.subrange(0, m), ..c }; let t = scc.push(x);
  assert(t.reverse() =~= seq![x] + scc.reverse());
  assert(e.stack + t.reverse() =~= f.stack);
  assert forall|r: int| #[trigger] t.contains(r) <==> scc.contains(r) || r == x by { if scc.contains(r) { let i = choose|i: int| 0 <= i < scc.len() && scc[i] == r; assert(t[i] == r); } if r == x { assert(t[scc.len() as int] == x); } }
  assert(!scc.contains(x)) by { if scc.contains(x) { let i = choose|i: int| 0 <= i < scc.len() && scc[i] == x; let j = c.stack.len() + scc.len() - 1 - i; assert(f.stack[j] == scc.reverse()[scc.len() - 1 - i]); assert(f.stack[j] == x); assert(j == m); } }
  assert(H[x].onStack);
  assert(restore(K, t) =~= F);
  assert forall|i: int| 0 <= i < t.len() implies !K[#[trigger] t[i]].onStack by { if i < scc.len() { assert(t[i] == scc[i]); } }
  assert(f.stack[s] == v);
  if x == v { assert(m == s); }
}
pub proof fn pop_done(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, scc: Seq<int>)
  requires popping(H0, c0, v, H, c, scc, v), can_visit(H0, c0, v), ensures done(H0, c0, v, H, cycle { sccs: c.sccs.push(scc), ..c }),
{
  let F = restore(H, scc); let f = full(c, scc); let s = c0.stack.len() as int; let dg = c0.dg; let d = cycle { sccs: c.sccs.push(scc), ..c };
  assert(same_graph(F, H)); same_adj(F, H, dg); same_adj(H0, F, dg); let g = adj(F, dg); let N = c.sccs.len() as int;
  assert forall|i: int| 0 <= i < s implies f.stack[i] == #[trigger] c.stack[i] && c0.stack[i] == c.stack[i] by { assert(f.stack.subrange(0, s)[i] == c0.stack[i]); }
  assert(c.stack =~= c0.stack);
  assert forall|i: int| 0 <= i < scc.len() implies f.stack[s + scc.len() - 1 - i] == #[trigger] scc[i] by { assert(scc.reverse()[scc.len() - 1 - i] == scc[i]); }
  assert forall|i: int| 0 <= i < scc.len() implies is_node(F, dg, #[trigger] scc[i]) && f.stack.contains(scc[i]) && reaches(g, nm(F, scc[i]), nm(F, v)) && reaches(g, nm(F, v), nm(F, scc[i])) && !c.stack.contains(scc[i]) by {
    let j = s + scc.len() - 1 - i; assert(f.stack[j] == scc[i]);
    if c.stack.contains(scc[i]) { let p = choose|p: int| 0 <= p < s && c.stack[p] == scc[i]; assert(f.stack[p] == scc[i]); }
  }
  assert forall|u: int| #[trigger] f.stack.contains(u) <==> c.stack.contains(u) || scc.contains(u) by {
    if c.stack.contains(u) { let p = choose|p: int| 0 <= p < s && c.stack[p] == u; assert(f.stack[p] == u); }
    if scc.contains(u) { let i = choose|i: int| 0 <= i < scc.len() && scc[i] == u; assert(f.stack.contains(scc[i])); }
    if f.stack.contains(u) { let p = choose|p: int| 0 <= p < f.stack.len() && f.stack[p] == u; if p < s { assert(c.stack[p] == u); } else { let i = s + scc.len() - 1 - p; assert(f.stack[s + scc.len() - 1 - i] == scc[i]); } }
  }
  assert forall|u: int| #[trigger] in_sccs(d.sccs, N + 1, u) <==> in_sccs(c.sccs, N, u) || scc.contains(u) by {
    if in_sccs(c.sccs, N, u) { let (i, j) = choose|i: int, j: int| 0 <= i < N && at2(c.sccs, i, j) && #[trigger] c.sccs[i][j] == u; assert(at2(d.sccs, i, j) && d.sccs[i][j] == u); }
    if scc.contains(u) { let j = choose|j: int| 0 <= j < scc.len() && scc[j] == u; assert(at2(d.sccs, N, j) && d.sccs[N][j] == u); }
    if in_sccs(d.sccs, N + 1, u) { let (i, j) = choose|i: int, j: int| 0 <= i < N + 1 && at2(d.sccs, i, j) && #[trigger] d.sccs[i][j] == u; if i < N { assert(at2(c.sccs, i, j) && c.sccs[i][j] == u); } }
  }
  assert forall|u: int| #[trigger] is_node(H, dg, u) implies 0 <= H[u].index <= d.index && (H[u].onStack <==> d.stack.contains(u)) && (H[u].index > 0 <==> d.stack.contains(u) || in_sccs(d.sccs, N + 1, u)) && !(d.stack.contains(u) && in_sccs(d.sccs, N + 1, u)) by {
    assert(is_node(F, dg, u)); assert(F.contains_key(u)); if scc.contains(u) { let i = choose|i: int| 0 <= i < scc.len() && scc[i] == u; assert(!H[scc[i]].onStack); }
  }
  all_edges(H0, c0, v, F, f);
  scc_push(H0, c0, v, H, c, scc);
  assert forall|u: int| is_node(H0, dg, u) && (#[trigger] H0[u]).index > 0 implies H[u].index == H0[u].index && H[u].lowlink == H0[u].lowlink by { assert(F[u].index == H0[u].index); assert(F.contains_key(u)); }
  assert(d.sccs.subrange(0, c0.sccs.len() as int) =~= c0.sccs) by { assert(c.sccs.subrange(0, c0.sccs.len() as int) =~= c0.sccs); }
  assert(F.contains_key(v));
  assert forall|i: int| 0 <= i < s implies reaches(g, nm(H, #[trigger] c0.stack[i]), nm(H, v)) by { assert(f.stack[i] == c.stack[i]); assert(c0.stack[i] == f.stack[i]); }
}
pub proof fn scc_push(H0: Map<int, node>, c0: cycle, v: int, H: Map<int, node>, c: cycle, scc: Seq<int>)
  requires popping(H0, c0, v, H, c, scc, v), can_visit(H0, c0, v), ensures sccs_ok(H, c0.dg, c.sccs.push(scc)),
{
  let F = restore(H, scc); let f = full(c, scc); let s = c0.stack.len() as int; let dg = c0.dg; let D = c.sccs.push(scc);
  assert(same_graph(F, H)); same_adj(F, H, dg); let g = adj(F, dg); let N = c.sccs.len() as int;
  sccs_same(F, H, dg, c.sccs);
  all_edges(H0, c0, v, F, f);
  assert forall|i: int| 0 <= i < scc.len() implies f.stack[s + scc.len() - 1 - i] == #[trigger] scc[i] by { assert(scc.reverse()[scc.len() - 1 - i] == scc[i]); }
  assert forall|i: int| 0 <= i < scc.len() implies is_node(F, dg, #[trigger] scc[i]) && f.stack.contains(scc[i]) && reaches(g, nm(F, scc[i]), nm(F, v)) && reaches(g, nm(F, v), nm(F, scc[i])) by { let j = s + scc.len() - 1 - i; assert(f.stack[j] == scc[i]); }
  assert forall|i: int, j: int| at2(D, i, j) && i < N implies at2(c.sccs, i, j) && #[trigger] D[i][j] == c.sccs[i][j] && in_sccs(c.sccs, N, D[i][j]) by { assert(c.sccs[i][j] == D[i][j]); }
  assert forall|i: int, j: int| at2(D, i, j) implies is_node(H, dg, #[trigger] D[i][j]) by { if i == N { assert(is_node(F, dg, scc[j])); } else { assert(is_node(H, dg, c.sccs[i][j])); } }
  assert forall|i: int, j: int, k: int, l: int| at2(D, i, j) && at2(D, k, l) && #[trigger] D[i][j] == #[trigger] D[k][l] implies i == k && j == l by {
    if i < N && k < N { assert(c.sccs[i][j] == c.sccs[k][l]); }
    else if i == N && k == N { assert(scc[j] == scc[l]); assert(f.stack[s + scc.len() - 1 - j] == scc[j]); assert(f.stack[s + scc.len() - 1 - l] == scc[l]); }
    else { let x = D[i][j]; assert(is_node(F, dg, x)) by { if i == N { assert(is_node(F, dg, scc[j])); } else { assert(is_node(F, dg, scc[l])); } } assert(f.stack.contains(x)) by { if i == N { assert(f.stack.contains(scc[j])); } else { assert(f.stack.contains(scc[l])); } } assert(in_sccs(c.sccs, N, x)); assert(f.sccs == c.sccs); }
  }
  assert forall|i: int, j: int, l: int| at2(D, i, j) && at2(D, i, l) implies reaches(adj(H, dg), nm(H, #[trigger] D[i][j]), nm(H, #[trigger] D[i][l])) by {
    if i < N { assert(at2(c.sccs, i, j) && at2(c.sccs, i, l)); assert(reaches(adj(H, dg), nm(H, c.sccs[i][j]), nm(H, c.sccs[i][l]))); } else { assert(is_node(F, dg, scc[j]) && is_node(F, dg, scc[l])); reach_cat(g, nm(F, scc[j]), nm(F, v), nm(F, scc[l])); }
  }
  assert forall|i: int, j: int, k: Seq<int>| at2(D, i, j) && #[trigger] edge(adj(H, dg), nm(H, #[trigger] D[i][j]), k) implies in_sccs(D, i + 1, dg[k]) by {
    if i < N {
      assert(edge(adj(H, dg), nm(H, c.sccs[i][j]), k)); assert(in_sccs(c.sccs, i + 1, dg[k]));
      let (a, b) = choose|a: int, b: int| 0 <= a < i + 1 && at2(c.sccs, a, b) && #[trigger] c.sccs[a][b] == dg[k]; assert(at2(D, a, b) && D[a][b] == dg[k]);
    } else {
      let y = scc[j]; let p = s + scc.len() - 1 - j; assert(f.stack[p] == y); assert(is_node(F, dg, y)); assert(nm(H, y) == nm(F, y));
      assert(edge(g, nm(F, f.stack[p]), k)); assert(seg_edges(F, dg, f, s, f.stack[p], F[v].lowlink, k)); let x = dg[k]; assert(is_node(F, dg, x));
      if f.stack.contains(x) {
        let q = choose|q: int| 0 <= q < f.stack.len() && f.stack[q] == x;
        if q < s { assert(f.stack.subrange(0, s)[q] == c0.stack[q]); assert(c0.stack.contains(c0.stack[q])); same_adj(H0, F, dg); assert(is_node(H0, dg, x)); assert(F[x].index == H0[x].index); }
        let b = s + scc.len() - 1 - q; assert(f.stack[s + scc.len() - 1 - b] == scc[b]); assert(at2(D, N, b) && D[N][b] == x);
      } else {
        assert(in_sccs(f.sccs, N, x)); let (a, b) = choose|a: int, b: int| 0 <= a < N && at2(c.sccs, a, b) && #[trigger] c.sccs[a][b] == x; assert(at2(D, a, b) && D[a][b] == x);
      }
    }
  }
}
// ---- the components of the whole graph ----
pub open spec fn comps(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>) -> bool {
  dg_ok(H, dg) && sccs_ok(H, dg, sccs) && (forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> in_sccs(sccs, sccs.len() as int, dg[k]))
}
pub open spec fn unvisited(H: Map<int, node>, dg: Map<Seq<int>, int>) -> bool { forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> H[dg[k]].index == 0 && !H[dg[k]].onStack }
pub open spec fn found_all(H: Map<int, node>, dg: Map<Seq<int>, int>, c: cycle, d: Set<Seq<int>>) -> bool {
  tj(H, dg, c) && c.stack.len() == 0 && forall|k: Seq<int>| dg.contains_key(k) && #[trigger] d.contains(k) ==> H[dg[k]].index > 0
}
pub proof fn find_start(H: Map<int, node>, c: cycle)
  requires dg_ok(H, c.dg), unvisited(H, c.dg), c.index == 0, c.stack.len() == 0, c.sccs.len() == 0, ensures tj(H, c.dg, c), same_graph(H, H),
{
  assert forall|v: int| #[trigger] is_node(H, c.dg, v) implies H[v].index == 0 && !H[v].onStack && !c.stack.contains(v) && !in_sccs(c.sccs, 0, v) by { assert(c.dg.contains_key(nm(H, v))); }
}
pub proof fn find_end(H: Map<int, node>, c: cycle)
  requires tj(H, c.dg, c), c.stack.len() == 0, forall|k: Seq<int>| #[trigger] c.dg.contains_key(k) ==> H[c.dg[k]].index > 0, ensures comps(H, c.dg, c.sccs),
{
  assert forall|k: Seq<int>| #[trigger] c.dg.contains_key(k) implies in_sccs(c.sccs, c.sccs.len() as int, c.dg[k]) by { assert(is_node(H, c.dg, c.dg[k])); }
}
pub proof fn scc_path(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int, a: Seq<int>, b: Seq<int>, n: nat)
  requires comps(H, dg, sccs), 0 <= i < sccs.len(), dg.contains_key(a), in_sccs(sccs, i + 1, dg[a]), path(adj(H, dg), a, b, n),
  ensures dg.contains_key(b), in_sccs(sccs, i + 1, dg[b]), decreases n,
{
  if n > 0 {
    let g = adj(H, dg); let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, b, (n - 1) as nat);
    let (p, q) = choose|p: int, q: int| 0 <= p < i + 1 && at2(sccs, p, q) && #[trigger] sccs[p][q] == dg[a];
    assert(edge(g, nm(H, sccs[p][q]), d)); assert(in_sccs(sccs, p + 1, dg[d]));
    let (x, y) = choose|x: int, y: int| 0 <= x < p + 1 && at2(sccs, x, y) && #[trigger] sccs[x][y] == dg[d]; assert(at2(sccs, x, y) && sccs[x][y] == dg[d]);
    scc_path(H, dg, sccs, i, d, b, (n - 1) as nat);
  }
}
// a rule is on a cycle exactly when its component is not a single rule without a reference to itself
pub proof fn scc_cyc(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int, j: int)
  requires comps(H, dg, sccs), at2(sccs, i, j),
  ensures cyc(adj(H, dg), nm(H, sccs[i][j])) <==> sccs[i].len() > 1 || H[sccs[i][j]].Dependencies.contains(nm(H, sccs[i][j])),
{
  let g = adj(H, dg); let v = sccs[i][j]; let a = nm(H, v); assert(is_node(H, dg, v)); assert(g[a] == H[v].Dependencies);
  if sccs[i].len() > 1 {
    let l = if j == 0 { 1int } else { 0int }; assert(at2(sccs, i, l)); assert(sccs[i][l] != sccs[i][j]); assert(is_node(H, dg, sccs[i][l]));
    cyc_of(g, a, nm(H, sccs[i][l]));
  }
  if H[v].Dependencies.contains(a) { assert(edge(g, a, a)); reach_refl(g, a); }
  if cyc(g, a) {
    let c = choose|c: Seq<int>| #[trigger] edge(g, a, c) && reaches(g, c, a); let n = choose|n: nat| #[trigger] path(g, c, a, n);
    if c != a {
      assert(in_sccs(sccs, i + 1, dg[c]));
      let (x, y) = choose|x: int, y: int| 0 <= x < i + 1 && at2(sccs, x, y) && #[trigger] sccs[x][y] == dg[c];
      assert(at2(sccs, x, y) && sccs[x][y] == dg[c]); scc_path(H, dg, sccs, x, c, a, n);
      let (p, q) = choose|p: int, q: int| 0 <= p < x + 1 && at2(sccs, p, q) && #[trigger] sccs[p][q] == dg[a]; assert(sccs[p][q] == sccs[i][j]);
      assert(x == i); assert(nm(H, dg[c]) == c); assert(y != j);
    }
  }
}
pub open spec fn trivial(H: Map<int, node>, s: Seq<int>) -> bool { s.len() <= 1 && !H[s[0]].Dependencies.contains(nm(H, s[0])) }
pub proof fn cyc_scc(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, a: Seq<int>)
  requires comps(H, dg, sccs), cyc(adj(H, dg), a), ensures exists|i: int| 0 <= i < sccs.len() && !trivial(H, #[trigger] sccs[i]),
{
  let g = adj(H, dg);
  let c = choose|c: Seq<int>| #[trigger] edge(g, a, c) && reaches(g, c, a); assert(dg.contains_key(a));
  let (i, j) = choose|i: int, j: int| 0 <= i < sccs.len() && at2(sccs, i, j) && #[trigger] sccs[i][j] == dg[a];
  scc_cyc(H, dg, sccs, i, j); assert(nm(H, dg[a]) =~= a); assert(!trivial(H, sccs[i]));
}
pub proof fn scc_has(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int)
  requires comps(H, dg, sccs), 0 <= i < sccs.len(), !trivial(H, sccs[i]), ensures cyc(adj(H, dg), nm(H, sccs[i][0])),
{ assert(at2(sccs, i, 0)); scc_cyc(H, dg, sccs, i, 0); }
pub proof fn scc_first(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int)
  requires comps(H, dg, sccs), 0 <= i < sccs.len(), ensures sccs[i].len() > 0, is_node(H, dg, sccs[i][0]),
{ assert(at2(sccs, i, 0)); }
pub proof fn acyclic_iff(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>)
  requires comps(H, dg, sccs),
  ensures (forall|i: int| 0 <= i < sccs.len() ==> trivial(H, #[trigger] sccs[i])) <==> !(exists|a: Seq<int>| #[trigger] cyc(adj(H, dg), a)),
{
  if exists|a: Seq<int>| #[trigger] cyc(adj(H, dg), a) { let a = choose|a: Seq<int>| #[trigger] cyc(adj(H, dg), a); cyc_scc(H, dg, sccs, a); }
  if exists|i: int| 0 <= i < sccs.len() && !trivial(H, #[trigger] sccs[i]) { let i = choose|i: int| 0 <= i < sccs.len() && !trivial(H, #[trigger] sccs[i]); scc_has(H, dg, sccs, i); }
}

// ---- the same over a grammar ----
pub type RMap = Map<Seq<int>, Option<Rule>>;
// rule a refers to rule b (folded names)
pub open spec fn rref(rm: RMap, a: Seq<int>, b: Seq<int>) -> bool { resolve(rm, a) is Some && resolve(rm, b) is Some && alt_refs(resolve(rm, a)->Some_0.Alternation, b) }
pub open spec fn rpath(rm: RMap, a: Seq<int>, b: Seq<int>, n: nat) -> bool decreases n {
  if n == 0 { a == b } else { exists|c: Seq<int>| #[trigger] rref(rm, a, c) && rpath(rm, c, b, (n - 1) as nat) }
}
pub open spec fn rreaches(rm: RMap, a: Seq<int>, b: Seq<int>) -> bool { exists|n: nat| #[trigger] rpath(rm, a, b, n) }
pub open spec fn rcyc(rm: RMap, a: Seq<int>) -> bool { exists|c: Seq<int>| #[trigger] rref(rm, a, c) && rreaches(rm, c, lower_all(a)) }
pub open spec fn is_low(k: Seq<int>) -> bool { lower_all(k) =~= k }
pub open spec fn dn(H: Map<int, node>, r: int, rule: Option<Rule>) -> bool {
  r != 0 && H.contains_key(r) && rule is Some && name_ok(rule->Some_0.Name) && H[r].Rulename == rule->Some_0.Name && H[r].index == 0 && !H[r].onStack
  && (forall|n: Seq<int>| #[trigger] H[r].Dependencies.contains(n) <==> alt_refs(rule->Some_0.Alternation, n))
}
pub open spec fn dep_graph(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap) -> bool {
  (forall|k: Seq<int>| #[trigger] dg.contains_key(k) <==> is_low(k) && resolve(rm, k) is Some) && (forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> dn(H, dg[k], resolve(rm, k)))
}
pub proof fn dep_ok(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap)
  requires dep_graph(H, dg, rm), wf_map(rm), wf_map(g_coreRules()),
  ensures dg_ok(H, dg), unvisited(H, dg), forall|a: Seq<int>, b: Seq<int>| is_low(a) ==> (#[trigger] edge(adj(H, dg), a, b) <==> rref(rm, a, b)),
{
  assert forall|k: Seq<int>| #[trigger] dg.contains_key(k) implies nm(H, dg[k]) =~= k by { resolve_low(rm, k); assert(dn(H, dg[k], resolve(rm, k))); }
  assert forall|a: Seq<int>, b: Seq<int>| is_low(a) implies (#[trigger] edge(adj(H, dg), a, b) <==> rref(rm, a, b)) by {
    if dg.contains_key(a) { assert(dn(H, dg[a], resolve(rm, a))); assert(adj(H, dg)[a] == H[dg[a]].Dependencies); }
    if rref(rm, a, b) { resolve_low(rm, a); alt_refs_low(resolve(rm, a)->Some_0.Alternation, b); }
  }
}
pub proof fn resolve_low(rm: RMap, n: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), resolve(rm, n) is Some,
  ensures feq(n, resolve(rm, n)->Some_0.Name), name_ok(resolve(rm, n)->Some_0.Name), wf_alt(resolve(rm, n)->Some_0.Alternation),
{
  let m = if defines(rm, n) { rm } else { g_coreRules() };
  let k = choose|k: Seq<int>| #[trigger] def_in(m, n, k); assert(def_in(m, n, k)); assert(m.contains_key(k));
}
pub proof fn el_refs_low(e: ElemItf, n: Seq<int>) requires el_refs(e, n), ensures is_low(n), decreases e
{
  match e { ElemItf::ElemRulename(x) => { lower_twice(x.Name); assert(n =~= lower_all(x.Name)); }, ElemItf::ElemGroup(x) => { alt_refs_low(x.Alternation, n); }, ElemItf::ElemOption(x) => { alt_refs_low(x.Alternation, n); }, _ => {} }
}
pub proof fn alt_refs_low(a: Alternation, n: Seq<int>) requires alt_refs(a, n), ensures is_low(n), decreases a
{ let (i, j) = choose|i: int, j: int| in_alt_ix(a, i, j) && el_refs(#[trigger] a.Concatenations[i].Repetitions[j].Element, n); el_refs_low(a.Concatenations[i].Repetitions[j].Element, n); }
pub open spec fn mirrors(g: Adj, rm: RMap) -> bool { forall|a: Seq<int>, b: Seq<int>| is_low(a) ==> (#[trigger] edge(g, a, b) <==> rref(rm, a, b)) }
pub proof fn path_iff(g: Adj, rm: RMap, a: Seq<int>, b: Seq<int>, n: nat)
  requires mirrors(g, rm), is_low(a), ensures path(g, a, b, n) <==> rpath(rm, a, b, n), decreases n,
{
  if n > 0 {
    if path(g, a, b, n) { let c = choose|c: Seq<int>| #[trigger] edge(g, a, c) && path(g, c, b, (n - 1) as nat); assert(rref(rm, a, c)); alt_refs_low(resolve(rm, a)->Some_0.Alternation, c); path_iff(g, rm, c, b, (n - 1) as nat); }
    if rpath(rm, a, b, n) { let c = choose|c: Seq<int>| #[trigger] rref(rm, a, c) && rpath(rm, c, b, (n - 1) as nat); assert(edge(g, a, c)); alt_refs_low(resolve(rm, a)->Some_0.Alternation, c); path_iff(g, rm, c, b, (n - 1) as nat); }
  }
}
pub proof fn reaches_iff(g: Adj, rm: RMap, a: Seq<int>, b: Seq<int>)
  requires mirrors(g, rm), is_low(a), ensures reaches(g, a, b) <==> rreaches(rm, a, b),
{
  if reaches(g, a, b) { let n = choose|n: nat| #[trigger] path(g, a, b, n); path_iff(g, rm, a, b, n); }
  if rreaches(rm, a, b) { let n = choose|n: nat| #[trigger] rpath(rm, a, b, n); path_iff(g, rm, a, b, n); }
}
pub proof fn cyc_iff(g: Adj, rm: RMap, a: Seq<int>)
  requires mirrors(g, rm), is_low(a), ensures cyc(g, a) <==> rcyc(rm, a),
{
  if cyc(g, a) { let c = choose|c: Seq<int>| #[trigger] edge(g, a, c) && reaches(g, c, a); assert(rref(rm, a, c)); alt_refs_low(resolve(rm, a)->Some_0.Alternation, c); reaches_iff(g, rm, c, a); assert(lower_all(a) == a); }
  if rcyc(rm, a) { let c = choose|c: Seq<int>| #[trigger] rref(rm, a, c) && rreaches(rm, c, lower_all(a)); assert(lower_all(a) == a); assert(edge(g, a, c)); alt_refs_low(resolve(rm, a)->Some_0.Alternation, c); reaches_iff(g, rm, c, a); }
}
pub proof fn rcyc_fold(rm: RMap, a: Seq<int>)
  requires wf_map(rm), wf_map(g_coreRules()), ensures rcyc(rm, a) <==> rcyc(rm, lower_all(a)),
{
  let b = lower_all(a); lower_twice(a); resolve_fold(rm, a, b); assert(lower_all(b) == b);
  assert forall|c: Seq<int>| rref(rm, a, c) <==> rref(rm, b, c) by {}
}
// some rule of the grammar can reach itself
pub open spec fn has_cycle(rm: RMap) -> bool { exists|a: Seq<int>| #[trigger] rcyc(rm, a) }
pub proof fn has_cycle_iff(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap)
  requires mirrors(adj(H, dg), rm), dg_ok(H, dg), wf_map(rm), wf_map(g_coreRules()), forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> is_low(k),
  ensures has_cycle(rm) <==> (exists|a: Seq<int>| #[trigger] cyc(adj(H, dg), a)),
{
  let g = adj(H, dg);
  if has_cycle(rm) { let a = choose|a: Seq<int>| #[trigger] rcyc(rm, a); rcyc_fold(rm, a); lower_twice(a); cyc_iff(g, rm, lower_all(a)); }
  if exists|a: Seq<int>| #[trigger] cyc(g, a) { let a = choose|a: Seq<int>| #[trigger] cyc(g, a); let c = choose|c: Seq<int>| #[trigger] edge(g, a, c) && reaches(g, c, a); assert(dg.contains_key(a)); cyc_iff(g, rm, a); }
}
// rule n can reach a rule that can reach itself
pub open spec fn near_cycle(rm: RMap, n: Seq<int>) -> bool { exists|m: Seq<int>| #[trigger] rreaches(rm, lower_all(n), m) && rcyc(rm, m) }
pub open spec fn gnear(g: Adj, n: Seq<int>) -> bool { exists|m: Seq<int>| #[trigger] reaches(g, n, m) && cyc(g, m) }
pub proof fn rpath_low(rm: RMap, a: Seq<int>, b: Seq<int>, n: nat) requires rpath(rm, a, b, n), is_low(a), ensures is_low(b), decreases n
{ if n > 0 { let c = choose|c: Seq<int>| #[trigger] rref(rm, a, c) && rpath(rm, c, b, (n - 1) as nat); alt_refs_low(resolve(rm, a)->Some_0.Alternation, c); rpath_low(rm, c, b, (n - 1) as nat); } }
pub proof fn near_iff(g: Adj, rm: RMap, n: Seq<int>)
  requires mirrors(g, rm), ensures gnear(g, lower_all(n)) <==> near_cycle(rm, n),
{
  let a = lower_all(n); lower_twice(n);
  if gnear(g, a) { let m = choose|m: Seq<int>| #[trigger] reaches(g, a, m) && cyc(g, m); reaches_iff(g, rm, a, m); let k = choose|k: nat| #[trigger] rpath(rm, a, m, k); rpath_low(rm, a, m, k); cyc_iff(g, rm, m); }
  if near_cycle(rm, n) { let m = choose|m: Seq<int>| #[trigger] rreaches(rm, a, m) && rcyc(rm, m); let k = choose|k: nat| #[trigger] rpath(rm, a, m, k); rpath_low(rm, a, m, k); reaches_iff(g, rm, a, m); cyc_iff(g, rm, m); }
}
// ---- DependencyGraph: what is in the graph after the core rules in dc and the user's rules in du ----
pub open spec fn def_by(rm: RMap, d: Set<Seq<int>>, k: Seq<int>) -> bool { exists|c: Seq<int>| #[trigger] d.contains(c) && rm.contains_key(c) && rm[c] is Some && lower_all(rm[c]->Some_0.Name) =~= k }
pub open spec fn dg_part(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap, dc: Set<Seq<int>>, du: Set<Seq<int>>) -> bool {
  (forall|k: Seq<int>| #[trigger] dg.contains_key(k) <==> def_by(g_coreRules(), dc, k) || def_by(rm, du, k))
  && (forall|k: Seq<int>| #[trigger] dg.contains_key(k) ==> dn(H, dg[k], if def_by(rm, du, k) { resolve_in(rm, k) } else { resolve_in(g_coreRules(), k) }))
}
pub proof fn def_by_add(rm: RMap, d: Set<Seq<int>>, c: Seq<int>)
  requires wf_map(rm), rm.contains_key(c),
  ensures forall|k: Seq<int>| #[trigger] def_by(rm, d.insert(c), k) <==> def_by(rm, d, k) || k == lower_all(rm[c]->Some_0.Name), resolve_in(rm, lower_all(rm[c]->Some_0.Name)) == rm[c],
{
  assert forall|k: Seq<int>| #[trigger] def_by(rm, d.insert(c), k) <==> def_by(rm, d, k) || k == lower_all(rm[c]->Some_0.Name) by {
    if def_by(rm, d, k) { let x = choose|x: Seq<int>| #[trigger] d.contains(x) && rm.contains_key(x) && rm[x] is Some && lower_all(rm[x]->Some_0.Name) =~= k; assert(d.insert(c).contains(x)); }
    if k == lower_all(rm[c]->Some_0.Name) { assert(d.insert(c).contains(c)); }
    if def_by(rm, d.insert(c), k) { let x = choose|x: Seq<int>| #[trigger] d.insert(c).contains(x) && rm.contains_key(x) && rm[x] is Some && lower_all(rm[x]->Some_0.Name) =~= k; if x != c { assert(d.contains(x)); } }
  }
  lower_twice(rm[c]->Some_0.Name); assert(def_in(rm, lower_all(rm[c]->Some_0.Name), c)); resolve_unique(rm, lower_all(rm[c]->Some_0.Name), c);
}
pub proof fn def_by_all(rm: RMap, d: Set<Seq<int>>)
  requires wf_map(rm), forall|c: Seq<int>| rm.contains_key(c) ==> #[trigger] d.contains(c), ensures forall|k: Seq<int>| #[trigger] def_by(rm, d, k) <==> is_low(k) && defines(rm, k),
{
  assert forall|k: Seq<int>| #[trigger] def_by(rm, d, k) <==> is_low(k) && defines(rm, k) by {
    if def_by(rm, d, k) { let x = choose|x: Seq<int>| #[trigger] d.contains(x) && rm.contains_key(x) && rm[x] is Some && lower_all(rm[x]->Some_0.Name) =~= k; lower_twice(rm[x]->Some_0.Name); assert(k == lower_all(rm[x]->Some_0.Name)); assert(def_in(rm, k, x)); }
    if is_low(k) && defines(rm, k) { let x = choose|x: Seq<int>| #[trigger] def_in(rm, k, x); assert(d.contains(x)); assert(lower_all(rm[x]->Some_0.Name) =~= k); }
  }
}
pub proof fn dg_done(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap, dc: Set<Seq<int>>, du: Set<Seq<int>>)
  requires dg_part(H, dg, rm, dc, du), wf_map(rm), wf_map(g_coreRules()), forall|c: Seq<int>| g_coreRules().contains_key(c) ==> #[trigger] dc.contains(c), forall|c: Seq<int>| rm.contains_key(c) ==> #[trigger] du.contains(c),
  ensures dep_graph(H, dg, rm),
{
  def_by_all(rm, du); def_by_all(g_coreRules(), dc);
  assert forall|k: Seq<int>| #[trigger] dg.contains_key(k) <==> is_low(k) && resolve(rm, k) is Some by {
    if defines(rm, k) { let x = choose|x: Seq<int>| #[trigger] def_in(rm, k, x); resolve_unique(rm, k, x); }
    else if defines(g_coreRules(), k) { let x = choose|x: Seq<int>| #[trigger] def_in(g_coreRules(), k, x); resolve_unique(g_coreRules(), k, x); }
  }
}
// ---- ruleContainsCycle ----
pub open spec fn before(sccs: Seq<Seq<int>>, a: int, b: int, i: int, j: int) -> bool { at2(sccs, i, j) && (i < a || (i == a && j < b)) }
pub open spec fn mb(m: Map<Seq<int>, bool>, k: Seq<int>) -> bool { m.contains_key(k) && m[k] }
pub open spec fn indexed(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, b: int, no: Map<Seq<int>, int>, ic: Map<Seq<int>, bool>) -> bool {
  (forall|i: int, j: int| #[trigger] before(sccs, a, b, i, j) ==> no.contains_key(nm(H, sccs[i][j])) && no[nm(H, sccs[i][j])] == sccs[i][j] && (mb(ic, nm(H, sccs[i][j])) <==> sccs[i].len() > 1))
  && (forall|k: Seq<int>| #[trigger] no.contains_key(k) ==> exists|i: int, j: int| #[trigger] before(sccs, a, b, i, j) && nm(H, sccs[i][j]) == k)
}
pub proof fn index_step(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, a: int, b: int, no: Map<Seq<int>, int>, ic: Map<Seq<int>, bool>)
  requires dg_ok(H, dg), sccs_ok(H, dg, sccs), at2(sccs, a, b), indexed(H, sccs, a, b, no, ic),
  ensures ({ let k = nm(H, sccs[a][b]); indexed(H, sccs, a, b + 1, no.insert(k, sccs[a][b]), ic.insert(k, sccs[a].len() > 1)) }),
{
  let v = sccs[a][b]; let k = nm(H, v); let n2 = no.insert(k, v); let i2 = ic.insert(k, sccs[a].len() > 1); assert(is_node(H, dg, v));
  assert forall|i: int, j: int| #[trigger] before(sccs, a, b + 1, i, j) implies n2.contains_key(nm(H, sccs[i][j])) && n2[nm(H, sccs[i][j])] == sccs[i][j] && (mb(i2, nm(H, sccs[i][j])) <==> sccs[i].len() > 1) by {
    assert(is_node(H, dg, sccs[i][j]));
    if i == a && j == b {} else { assert(before(sccs, a, b, i, j)); if nm(H, sccs[i][j]) == k { assert(sccs[i][j] == sccs[a][b]); } }
  }
  assert forall|x: Seq<int>| #[trigger] n2.contains_key(x) implies exists|i: int, j: int| #[trigger] before(sccs, a, b + 1, i, j) && nm(H, sccs[i][j]) == x by {
    if x == k { assert(before(sccs, a, b + 1, a, b)); } else { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, a, b, i, j) && nm(H, sccs[i][j]) == x; assert(before(sccs, a, b + 1, i, j)); }
  }
}
pub proof fn index_row(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, no: Map<Seq<int>, int>, ic: Map<Seq<int>, bool>)
  requires 0 <= a < sccs.len(), indexed(H, sccs, a, sccs[a].len() as int, no, ic), ensures indexed(H, sccs, a + 1, 0, no, ic),
{
  let n = sccs[a].len() as int;
  assert forall|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) <==> before(sccs, a, n, i, j) by {}
  assert forall|k: Seq<int>| #[trigger] no.contains_key(k) implies exists|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) && nm(H, sccs[i][j]) == k by { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, a, n, i, j) && nm(H, sccs[i][j]) == k; assert(before(sccs, a + 1, 0, i, j)); }
  assert forall|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) implies no.contains_key(nm(H, sccs[i][j])) && no[nm(H, sccs[i][j])] == sccs[i][j] && (mb(ic, nm(H, sccs[i][j])) <==> sccs[i].len() > 1) by { assert(before(sccs, a, n, i, j)); }
}
pub open spec fn flags_ok(H: Map<int, node>, no: Map<Seq<int>, int>, ic: Map<Seq<int>, bool>) -> bool {
  dg_ok(H, no) && (forall|k: Seq<int>| #[trigger] no.contains_key(k) ==> (cyc(adj(H, no), k) <==> mb(ic, k) || H[no[k]].Dependencies.contains(k)))
  && (forall|k: Seq<int>, q: int| no.contains_key(k) && 0 <= q < H[no[k]].Dependencies.len() ==> ascii(#[trigger] H[no[k]].Dependencies[q]) && is_low(H[no[k]].Dependencies[q]))
}
pub open spec fn deps_low(H: Map<int, node>, dg: Map<Seq<int>, int>) -> bool {
  forall|k: Seq<int>, q: int| dg.contains_key(k) && 0 <= q < H[dg[k]].Dependencies.len() ==> ascii(#[trigger] H[dg[k]].Dependencies[q]) && is_low(H[dg[k]].Dependencies[q])
}
pub proof fn index_done(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, no: Map<Seq<int>, int>, ic: Map<Seq<int>, bool>)
  requires comps(H, dg, sccs), deps_low(H, dg), indexed(H, sccs, sccs.len() as int, 0, no, ic), ensures no == dg, flags_ok(H, no, ic),
{
  let N = sccs.len() as int;
  assert forall|k: Seq<int>| #[trigger] no.contains_key(k) <==> dg.contains_key(k) by {
    if no.contains_key(k) { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == k; assert(is_node(H, dg, sccs[i][j])); }
    if dg.contains_key(k) { let (i, j) = choose|i: int, j: int| 0 <= i < N && at2(sccs, i, j) && #[trigger] sccs[i][j] == dg[k]; assert(before(sccs, N, 0, i, j)); }
  }
  assert forall|k: Seq<int>| #[trigger] dg.contains_key(k) implies no[k] == dg[k] && (cyc(adj(H, dg), k) <==> mb(ic, k) || H[dg[k]].Dependencies.contains(k)) by {
    let (i, j) = choose|i: int, j: int| 0 <= i < N && at2(sccs, i, j) && #[trigger] sccs[i][j] == dg[k]; assert(before(sccs, N, 0, i, j)); scc_cyc(H, dg, sccs, i, j);
  }
  assert(no =~= dg);
}
// the names marked so far: each new one is off every cycle, and what it refers to is marked
pub open spec fn clean(H: Map<int, node>, no: Map<Seq<int>, int>, v: Map<Seq<int>, bool>, x: Seq<int>) -> bool {
  no.contains_key(x) ==> !cyc(adj(H, no), x) && (forall|q: int| 0 <= q < H[no[x]].Dependencies.len() ==> mb(v, #[trigger] H[no[x]].Dependencies[q]))
}
pub open spec fn grown(H: Map<int, node>, no: Map<Seq<int>, int>, v0: Map<Seq<int>, bool>, v: Map<Seq<int>, bool>, but: Seq<int>) -> bool {
  (forall|x: Seq<int>| #[trigger] mb(v0, x) ==> mb(v, x)) && (forall|x: Seq<int>| #[trigger] mb(v, x) && !mb(v0, x) && x != but ==> clean(H, no, v, x))
}
pub open spec fn grown_all(H: Map<int, node>, no: Map<Seq<int>, int>, v0: Map<Seq<int>, bool>, v: Map<Seq<int>, bool>) -> bool {
  (forall|x: Seq<int>| #[trigger] mb(v0, x) ==> mb(v, x)) && (forall|x: Seq<int>| #[trigger] mb(v, x) && !mb(v0, x) ==> clean(H, no, v, x))
}
pub proof fn grow_trans(H: Map<int, node>, no: Map<Seq<int>, int>, v0: Map<Seq<int>, bool>, v: Map<Seq<int>, bool>, but: Seq<int>, w: Map<Seq<int>, bool>)
  requires grown(H, no, v0, v, but), grown_all(H, no, v, w), ensures grown(H, no, v0, w, but),
{
  assert forall|x: Seq<int>| #[trigger] mb(w, x) && !mb(v0, x) && x != but implies clean(H, no, w, x) by {
    if mb(v, x) { assert(clean(H, no, v, x)); if no.contains_key(x) { assert forall|q: int| 0 <= q < H[no[x]].Dependencies.len() implies mb(w, #[trigger] H[no[x]].Dependencies[q]) by { assert(mb(v, H[no[x]].Dependencies[q])); } } }
  }
}
pub proof fn near_step(g: Adj, a: Seq<int>, b: Seq<int>) requires edge(g, a, b), gnear(g, b), ensures gnear(g, a)
{ let m = choose|m: Seq<int>| #[trigger] reaches(g, b, m) && cyc(g, m); reach_edge(g, a, b); reach_cat(g, a, b, m); }
pub proof fn near_self(g: Adj, a: Seq<int>) requires cyc(g, a), ensures gnear(g, a) { reach_refl(g, a); }
pub proof fn near_out(g: Adj, a: Seq<int>) requires !g.contains_key(a), ensures !gnear(g, a)
{
  if gnear(g, a) { let m = choose|m: Seq<int>| #[trigger] reaches(g, a, m) && cyc(g, m); let n = choose|n: nat| #[trigger] path(g, a, m, n);
    if n > 0 { let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, m, (n - 1) as nat); } let c = choose|c: Seq<int>| #[trigger] edge(g, m, c) && reaches(g, c, m); }
}
pub proof fn clean_path(H: Map<int, node>, no: Map<Seq<int>, int>, v: Map<Seq<int>, bool>, a: Seq<int>, b: Seq<int>, n: nat)
  requires grown_all(H, no, Map::empty(), v), mb(v, a), path(adj(H, no), a, b, n), ensures mb(v, b), decreases n,
{
  if n > 0 { let g = adj(H, no); let d = choose|d: Seq<int>| #[trigger] edge(g, a, d) && path(g, d, b, (n - 1) as nat); assert(!mb(Map::<Seq<int>, bool>::empty(), a)); assert(clean(H, no, v, a)); assert(g[a] == H[no[a]].Dependencies);
    let q = choose|q: int| 0 <= q < g[a].len() && g[a][q] == d; assert(mb(v, H[no[a]].Dependencies[q])); clean_path(H, no, v, d, b, (n - 1) as nat); }
}
pub proof fn not_near(H: Map<int, node>, no: Map<Seq<int>, int>, v: Map<Seq<int>, bool>, a: Seq<int>)
  requires grown_all(H, no, Map::empty(), v), mb(v, a), ensures !gnear(adj(H, no), a),
{
  let g = adj(H, no);
  if gnear(g, a) { let m = choose|m: Seq<int>| #[trigger] reaches(g, a, m) && cyc(g, m); let n = choose|n: nat| #[trigger] path(g, a, m, n); clean_path(H, no, v, a, m, n); assert(!mb(Map::<Seq<int>, bool>::empty(), m)); assert(clean(H, no, v, m)); let c = choose|c: Seq<int>| #[trigger] edge(g, m, c) && reaches(g, c, m); assert(no.contains_key(m)); }
}
pub proof fn dep_low(H: Map<int, node>, dg: Map<Seq<int>, int>, rm: RMap)
  requires dep_graph(H, dg, rm), wf_map(rm), wf_map(g_coreRules()), ensures deps_low(H, dg),
{
  assert forall|k: Seq<int>, q: int| dg.contains_key(k) && 0 <= q < H[dg[k]].Dependencies.len() implies ascii(#[trigger] H[dg[k]].Dependencies[q]) && is_low(H[dg[k]].Dependencies[q]) by {
    let d = H[dg[k]].Dependencies[q]; assert(dn(H, dg[k], resolve(rm, k))); assert(H[dg[k]].Dependencies.contains(d)); resolve_low(rm, k); let a = resolve(rm, k)->Some_0.Alternation; alt_refs_low(a, d); refs_ascii(a, d);
  }
}
pub proof fn low_keep(H: Map<int, node>, K: Map<int, node>, dg: Map<Seq<int>, int>)
  requires same_graph(H, K), dg_ok(H, dg), deps_low(H, dg), ensures deps_low(K, dg),
{ assert forall|k: Seq<int>, q: int| dg.contains_key(k) && 0 <= q < K[dg[k]].Dependencies.len() implies ascii(#[trigger] K[dg[k]].Dependencies[q]) && is_low(K[dg[k]].Dependencies[q]) by { assert(K.contains_key(dg[k])); let d = H[dg[k]].Dependencies[q]; } }
