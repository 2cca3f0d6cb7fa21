// ---- leftrec.rs: left-corner components partition the left-recursive rules ----
// every rule collected so far is a rule of the grammar under its folded name
pub open spec fn rules_ok(rs: Map<Seq<int>, Option<Rule>>) -> bool { forall|k: Seq<int>| #[trigger] rs.contains_key(k) ==> rs[k] is Some && wf_alt(rs[k]->Some_0.Alternation) }
pub open spec fn lc_ok(H: Map<int, node>, lc: Map<Seq<int>, int>) -> bool { dg_ok(H, lc) && unvisited(H, lc) }
// the components handed out so far
pub open spec fn low_names(H: Map<int, node>, s: Seq<int>) -> Seq<Seq<int>> { s.map_values(|v: int| nm(H, v)) }
pub open spec fn lr_part(H: Map<int, node>, sccs: Seq<Seq<int>>, a: int, b: int, out: Map<Seq<int>, Seq<Seq<int>>>) -> bool {
  (forall|n: Seq<int>| #[trigger] out.contains_key(n) ==> exists|i: int, j: int| #[trigger] before(sccs, a, b, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]))
  && (forall|i: int, j: int, l: int| #[trigger] before(sccs, a, 0, i, j) && #[trigger] before(sccs, a, 0, i, l) && out.contains_key(nm(H, sccs[i][j])) ==> out.contains_key(nm(H, sccs[i][l])))
  && (forall|l: int| 0 <= l < b ==> out.contains_key(nm(H, #[trigger] sccs[a][l])))
}
pub proof fn same_place(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, i: int, j: int, k: int, l: int)
  requires dg_ok(H, dg), sccs_ok(H, dg, sccs), at2(sccs, i, j), at2(sccs, k, l), nm(H, sccs[i][j]) == nm(H, sccs[k][l]), ensures i == k, j == l,
{ assert(is_node(H, dg, sccs[i][j])); assert(is_node(H, dg, sccs[k][l])); assert(sccs[i][j] == sccs[k][l]); }
pub proof fn lr_put(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, a: int, b: int, out: Map<Seq<int>, Seq<Seq<int>>>)
  requires dg_ok(H, dg), sccs_ok(H, dg, sccs), at2(sccs, a, b), lr_part(H, sccs, a, b, out), ensures lr_part(H, sccs, a, b + 1, out.insert(nm(H, sccs[a][b]), low_names(H, sccs[a]))),
{
  let k = nm(H, sccs[a][b]); let o2 = out.insert(k, low_names(H, sccs[a]));
  assert forall|n: Seq<int>| #[trigger] o2.contains_key(n) implies exists|i: int, j: int| #[trigger] before(sccs, a, b + 1, i, j) && nm(H, sccs[i][j]) == n && o2[n] =~= low_names(H, sccs[i]) by {
    if n == k { assert(before(sccs, a, b + 1, a, b)); } else { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, a, b, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(before(sccs, a, b + 1, i, j)); }
  }
  assert forall|i: int, j: int, l: int| #[trigger] before(sccs, a, 0, i, j) && #[trigger] before(sccs, a, 0, i, l) && o2.contains_key(nm(H, sccs[i][j])) implies o2.contains_key(nm(H, sccs[i][l])) by { if nm(H, sccs[i][j]) == k { same_place(H, dg, sccs, i, j, a, b); } }
}
pub proof fn lr_row(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, a: int, b: int, out: Map<Seq<int>, Seq<Seq<int>>>)
  requires dg_ok(H, dg), sccs_ok(H, dg, sccs), 0 <= a < sccs.len(), lr_part(H, sccs, a, b, out), b == 0 || b == sccs[a].len(), ensures lr_part(H, sccs, a + 1, 0, out),
{
  assert forall|n: Seq<int>| #[trigger] out.contains_key(n) implies exists|i: int, j: int| #[trigger] before(sccs, a + 1, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]) by { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, a, b, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(before(sccs, a + 1, 0, i, j)); }
  assert forall|i: int, j: int, l: int| #[trigger] before(sccs, a + 1, 0, i, j) && #[trigger] before(sccs, a + 1, 0, i, l) && out.contains_key(nm(H, sccs[i][j])) implies out.contains_key(nm(H, sccs[i][l])) by {
    if i < a { assert(before(sccs, a, 0, i, j)); assert(before(sccs, a, 0, i, l)); }
    else if b == 0 { let (p, q) = choose|p: int, q: int| #[trigger] before(sccs, a, b, p, q) && nm(H, sccs[p][q]) == nm(H, sccs[i][j]); same_place(H, dg, sccs, p, q, i, j); }
    else { assert(out.contains_key(nm(H, sccs[a][l]))); }
  }
}
pub proof fn lr_done(H: Map<int, node>, dg: Map<Seq<int>, int>, sccs: Seq<Seq<int>>, out: Map<Seq<int>, Seq<Seq<int>>>)
  requires comps(H, dg, sccs), lr_part(H, sccs, sccs.len() as int, 0, out), ensures lr_ok(out),
{
  let N = sccs.len() as int;
  assert forall|n: Seq<int>| #[trigger] out.contains_key(n) implies out[n].contains(n) by { let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]); assert(out[n][j] == n); }
  assert forall|n: Seq<int>, k: int| out.contains_key(n) && 0 <= k < out[n].len() implies name_ok(#[trigger] out[n][k]) && out.contains_key(out[n][k]) && out[out[n][k]] == out[n] by {
    let (i, j) = choose|i: int, j: int| #[trigger] before(sccs, N, 0, i, j) && nm(H, sccs[i][j]) == n && out[n] =~= low_names(H, sccs[i]);
    assert(before(sccs, N, 0, i, k)); let m = nm(H, sccs[i][k]); assert(out[n][k] == m); assert(out.contains_key(m));
    let (p, q) = choose|p: int, q: int| #[trigger] before(sccs, N, 0, p, q) && nm(H, sccs[p][q]) == m && out[m] =~= low_names(H, sccs[p]); same_place(H, dg, sccs, p, q, i, k);
    assert(is_node(H, dg, sccs[i][k])); let rn = H[sccs[i][k]].Rulename; assert(name_ok(rn)); assert(m == lower_all(rn));
    assert forall|x: int| 0 <= x < m.len() implies name_char(#[trigger] m[x]) by { assert(name_char(rn[x])); } assert(is_alpha(rn[0]));
  }
}
