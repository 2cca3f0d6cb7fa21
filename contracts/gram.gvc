//@ interface ElemItf = ElemRulename | ElemGroup | ElemOption | ElemCharVal | ElemNumVal | ElemProseVal
//@ types Alternation Concatenation Repetition Rule Grammar ElemItf error
//@ global coreRules
//@ trusted strings.EqualFold(a, b) (r)
//@   ensures ascii(a) && ascii(b) ==> (r <==> feq(a, b))
//@ trusted strings.ToLower(s) (r)
//@   ensures ascii(s) ==> r =~= lower_all(s)
//@ pure slices.Contains(s, v) = s.contains(v)
//@ func getRuleIn(rulename, rulemap) (r)
//@   requires wf_map(rulemap) && ascii(rulename)
//@   ensures r == resolve_in(rulemap, rulename)
//@   ensures r is Some <==> defines(rulemap, rulename)
//@   loop 1 invariant forall|k: Seq<int>| #[trigger] $done.contains(k) ==> !def_in(rulemap, rulename, k)
//@   loop 1 head if def_in(rulemap, rulename, rk_1) { resolve_unique(rulemap, rulename, rk_1); }
//@   loop 1 exit if !brk_1 { assert forall|k: Seq<int>| !#[trigger] def_in(rulemap, rulename, k) by { if rulemap.contains_key(k) { assert($done.contains(k)); } } }
//@ func GetRule(rulename, rulemap) (r)
//@   requires wf_map(rulemap) && ascii(rulename) && wf_map(g_coreRules())
//@   ensures r == resolve(rulemap, rulename)
//@   ensures defines(rulemap, rulename) ==> r == resolve_in(rulemap, rulename) && r is Some
//@   ensures r is None <==> !defines(rulemap, rulename) && !defines(g_coreRules(), rulename)
//@ func appendDeps(deps, ndeps) (r)
//@   ensures forall|n: Seq<int>| #[trigger] r.contains(n) <==> deps.contains(n) || ndeps.contains(n)
//@   loop 1 invariant forall|n: Seq<int>| #[trigger] deps.contains(n) <==> deps0.contains(n) || ndeps.subrange(0, $i).contains(n)
//@   loop 1 pre assert(ndeps.subrange(0, 0) =~= Seq::<Seq<int>>::empty());
//@   loop 1 head let pre_ = deps;
//@   loop 1 end push_contains(pre_, deps, ndeps, $i - 1);
//@   loop 1 exit assert(ndeps.subrange(0, ndeps.len() as int) =~= ndeps);
//@ func getDependencies(alt) (r)
//@   requires wf_alt(alt)
//@   ensures forall|n: Seq<int>| #[trigger] r.contains(n) <==> alt_refs(alt, n)
//@   loop 1 invariant forall|n: Seq<int>| #[trigger] deps.contains(n) <==> refs_before(alt, $i, 0, n)
//@   loop 2 invariant forall|n: Seq<int>| #[trigger] deps.contains(n) <==> refs_before(alt, ri_1, $i, n)
//@   loop 2 head assert(in_alt_ix(alt, ri_1, ri_2)); assert(rep == alt.Concatenations[ri_1].Repetitions[ri_2]); let pre_ = deps; single_contains();
//@   loop 2 end refs_step(alt, ri_1, ri_2 - 1); assert forall|n: Seq<int>| #[trigger] deps.contains(n) <==> pre_.contains(n) || el_refs(rep.Element, n) by { }
//@   loop 2 exit refs_row(alt, ri_1);
//@   loop 1 exit refs_all(alt);
//@ func semvalAlternation(alt) (err)
//@   requires wf_alt(alt)
//@   ensures err is Nil <==> alt_coh(alt)
//@   ensures !(err is Nil) ==> names_offender(err, alt)
//@   loop 1 invariant coh_before(alt, $i, 0)
//@   loop 2 invariant coh_before(alt, ri_1, $i)
//@   loop 2 head assert(in_alt_ix(alt, ri_1, ri_2)); assert(rep == alt.Concatenations[ri_1].Repetitions[ri_2]);
//@   | assert(wf_el(rep.Element)); offender_up(alt, ri_1, ri_2);
//@   loop 2 end coh_step(alt, ri_1, ri_2 - 1);
//@   loop 2 exit coh_row(alt, ri_1);
//@   loop 3 invariant forall|k: int| 0 <= k < $i ==> nval(#[trigger] elem.Elems[k], elem.Base) <= 0x10FFFF
//@   loop 3 head assert(nv_ok(elem.Elems[$i], elem.Base));
//@   | bad_num_at(rep.Element, elem, $i);
//@   loop 1 exit coh_all(alt);
//@ func SemvalABNF(nn g) (err)
//@   requires wf_map(g.Rulemap) && wf_map(g_coreRules())
//@   ensures err is Nil <==> closed(g.Rulemap) && coherent(g.Rulemap)
//@   ensures err is Nil || (err is ErrDependencyNotFound && resolve(g.Rulemap, err->ErrDependencyNotFound_0.Rulename) is None && exists|k: Seq<int>| #[trigger] g.Rulemap.contains_key(k) && alt_refs(g.Rulemap[k]->Some_0.Alternation, err->ErrDependencyNotFound_0.Rulename)) || (exists|k: Seq<int>| #[trigger] g.Rulemap.contains_key(k) && names_offender(err, g.Rulemap[k]->Some_0.Alternation))
//@   loop 1 invariant forall|k: Seq<int>, n: Seq<int>| #[trigger] $done.contains(k) && #[trigger] alt_refs(g.Rulemap[k]->Some_0.Alternation, n) ==> resolve(g.Rulemap, n) is Some
//@   loop 2 invariant forall|q: int| 0 <= q < $i ==> resolve(g.Rulemap, #[trigger] deps[q]) is Some
//@   loop 2 head assert(deps.contains(deps[$i])); assert(alt_refs(rule->Some_0.Alternation, deps[$i])); refs_ascii(rule->Some_0.Alternation, deps[$i]);
//@   loop 2 exit if !brk_2 { assert forall|n: Seq<int>| #[trigger] alt_refs(rule->Some_0.Alternation, n) implies resolve(g.Rulemap, n) is Some by { assert(deps.contains(n)); } }
//@   loop 3 invariant forall|k: Seq<int>| #[trigger] $done.contains(k) ==> alt_coh(g.Rulemap[k]->Some_0.Alternation)
