// ---- tg.rs: transition graphs whose nodes have distinct, non-empty identifiers ----
pub open spec fn flag(m: Map<Seq<int>, bool>, k: Seq<int>) -> bool { m.contains_key(k) && m[k] }
pub open spec fn graph_in(h: Map<int, Node>, t: TransitionGraph, s: Set<int>) -> bool {
  (forall|n: int| #[trigger] s.contains(n) ==> n != 0 && h[n].ID.len() > 0 && (is_term(h[n].Elem) ==> sat_term(h[n].Elem)))
  && (forall|n: int, m: int| #[trigger] s.contains(n) && #[trigger] s.contains(m) && h[n].ID == h[m].ID ==> n == m)
  && (forall|n: int, i: int| s.contains(n) && 0 <= i < h[n].Nexts.len() && h[n].Nexts[i] != 0 ==> s.contains(#[trigger] h[n].Nexts[i]))
  && (forall|i: int| 0 <= i < t.Entrypoints.len() ==> #[trigger] t.Entrypoints[i] == 0 || s.contains(t.Entrypoints[i]))
  && (forall|i: int| 0 <= i < t.Endpoints.len() ==> #[trigger] t.Endpoints[i] == 0 || s.contains(t.Endpoints[i]))
}
pub open spec fn graph_ok(h: Map<int, Node>, t: TransitionGraph) -> bool { exists|s: Set<int>| graph_in(h, t, s) }
pub open spec fn ends_ok(h: Map<int, Node>, es: Map<Seq<int>, bool>, en: Seq<int>) -> bool { forall|id: Seq<int>| #[trigger] flag(es, id) ==> exists|i: int| 0 <= i < en.len() && tgid(h, #[trigger] en[i]) == id }
pub proof fn ends_more(h: Map<int, Node>, es: Map<Seq<int>, bool>, en: Seq<int>, i: int)
  requires ends_ok(h, es, en), 0 <= i < en.len(), ensures ends_ok(h, es.insert(tgid(h, en[i]), true), en),
{
  let fs = es.insert(tgid(h, en[i]), true);
  assert forall|id: Seq<int>| #[trigger] flag(fs, id) implies exists|k: int| 0 <= k < en.len() && tgid(h, #[trigger] en[k]) == id by { if id == tgid(h, en[i]) { assert(tgid(h, en[i]) == id); } else { assert(flag(es, id)); } }
}
