// ---- parse.rs: from the text of a grammar to the grammar ----
pub open spec fn all_opts(opts: Seq<ABNFOption>) -> bool { forall|i: int| 0 <= i < opts.len() ==> !((#[trigger] opts[i]) is Nil) }
pub open spec fn opt_step(o: abnfOptions, x: ABNFOption) -> abnfOptions { match x { ABNFOption::validateOption(b) => abnfOptions { validate: b, ..o }, ABNFOption::redefineCoreOption(b) => abnfOptions { redefineCore: b, ..o }, _ => o } }
pub open spec fn opts_of(opts: Seq<ABNFOption>, n: int) -> abnfOptions decreases n { if n <= 0 { abnfOptions { validate: true, redefineCore: false } } else { opt_step(opts_of(opts, n - 1), opts[n - 1]) } }
pub open spec fn evaluates(inp: Seq<int>, t: ParseTree, redef: bool, g: Option<Grammar>, err: GoErr) -> bool {
  match den_list(inp, t, redef) { Den::Ok(m) => err is Nil && g is Some && g->Some_0.Rulemap == m && wf_map(m), Den::Bad(x) => err == x && g is None && !(x is Nil) }
}
pub open spec fn answers(inp: Seq<int>, t: ParseTree, o: abnfOptions, g: Option<Grammar>, err: GoErr) -> bool {
  match den_list(inp, t, o.redefineCore) {
    Den::Bad(x) => err == x && g is None,
    Den::Ok(m) => wf_map(m) && (err is Nil <==> !o.validate || (closed(m) && coherent(m))) && (err is Nil ==> g is Some && g->Some_0.Rulemap == m) && (!(err is Nil) ==> g is None && (err is ErrDependencyNotFound || err is ErrSemanticRepetition || err is ErrTooLargeNumeral)),
  }
}
pub proof fn root_node(inp: Seq<int>, t: ParseTree) requires S_tree(abnf_rm(), inp, n_rulelist(), Some(t)), ensures is_node(inp, Some(t), n_rulelist()),
{ places(); k_res_is(n_rulelist()); assert(k_same(g_abnfRulelist()->Some_0.Name, n_rulelist()) && k_eqs(g_abnfRulelist()->Some_0.Name, n_rulelist(), 8) && g_abnfRulelist()->Some_0.Name.len() == 8) by (compute_only); k_eqs_is(g_abnfRulelist()->Some_0.Name, n_rulelist(), 8); assert(g_abnfRulelist()->Some_0.Name =~= n_rulelist()); }
pub proof fn bad_is(inp: Seq<int>, l: TS, n: int, redef: bool) ensures den_rules(inp, l, n, redef) is Bad ==> !(den_rules(inp, l, n, redef)->Bad_0 is Nil), decreases n, { if n > 0 { bad_is(inp, l, n - 1, redef); } }
pub proof fn bad_err(inp: Seq<int>, t: ParseTree, redef: bool) ensures den_list(inp, t, redef) is Bad ==> !(den_list(inp, t, redef)->Bad_0 is Nil), { let l = named(t.Children, n_rule(), t.Children.len() as int); bad_is(inp, l, l.len() as int, redef); }
pub proof fn one_finite(sg: slotGrammar, inp: Seq<int>, k: DK, v: int) requires exactly(sg, inp, k, v), ensures !infinitely(sg, inp, k),
{ if infinitely(sg, inp, k) { let H = choose|H: nat| #[trigger] settled(sg, inp, k, v, H); assert(atleast(sg, inp, k, v + 1)); let h = choose|h: nat| #[trigger] w(sg, inp, k, h) >= v + 1; let m = if h >= H { h } else { H }; w_mono(sg, inp, k, h, m); assert(w(sg, inp, k, m) == v); } }
