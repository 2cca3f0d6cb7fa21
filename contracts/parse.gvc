//@ global ABNF
//@ interface ABNFOption = validateOption | redefineCoreOption
//@ types ABNFOption validateOption redefineCoreOption
//@ func ABNFOption.apply(o, inout opts)
//@   ensures new_opts == opt_step(opts, o)
//@ func validateOption.apply(o, inout opts)
//@   ensures new_opts == opt_step(opts, ABNFOption::validateOption(o))
//@ func redefineCoreOption.apply(o, inout opts)
//@   ensures new_opts == opt_step(opts, ABNFOption::redefineCoreOption(o))
//@ func process(opts) (o)
//@   requires all_opts(opts)
//@   ensures o == Some(opts_of(opts, opts.len() as int))
//@   loop 1 invariant o == Some(opts_of(opts, $i))
//@ func Parse(input, nn grammar, rootRulename) (f, err)
//@   modifies gssNode gnode
//@   requires wf_map(grammar.Rulemap) && wf_map(g_coreRules()) && ascii(rootRulename)
//@   ensures err is ErrRuleNotFound <==> resolve(grammar.Rulemap, rootRulename) is None
//@   ensures err is Nil || err is ErrRuleNotFound || err is ErrGrammarTooLarge || err is ErrForestTooLarge
//@   ensures err is Nil ==> f is Some && lowered(f->Some_0.sg->Some_0, grammar.Rulemap, rootRulename)
//@   ensures err is Nil ==> f is Some && fo_ok(f->Some_0, new_H_gnode) && f->Some_0.input == input && (f->Some_0.root != 0 <==> d_rule(grammar.Rulemap, rootRulename, input)) && furthest(f->Some_0.sg->Some_0, input, f->Some_0.maxPos, f->Some_0.expected)
//@ func evalForest(input, nn f, o) (g, err)
//@   reads gnode
//@   requires fo_ok(f, H_gnode) && o is Some && f.input == input && lowered(f.sg->Some_0, abnf_rm(), n_rulelist()) && (f.root != 0 ==> !infinitely(f.sg->Some_0, f.input, fkey(f)))
//@   ensures f.root == 0 ==> err == s_ErrNoSolutionFound() && g is None
//@   ensures f.root != 0 ==> exists|t: ParseTree| #[trigger] S_tree(abnf_rm(), input, n_rulelist(), Some(t)) && evaluates(input, t, o->Some_0.redefineCore, g, err)
//@   ghost after Forest.Tree : if $r0 is Some { root_node(input, $r0->Some_0); }
//@   ghost return 2 : bad_err(input, tree->Some_0, o->Some_0.redefineCore); assert(evaluates(input, tree->Some_0, o->Some_0.redefineCore, g, err));
//@ func EvaluateABNF(input, nn f, opts) (g, err)
//@   reads gnode
//@   requires all_opts(opts) && fo_ok(f, H_gnode) && f.input == input && lowered(f.sg->Some_0, abnf_rm(), n_rulelist()) && (f.root != 0 ==> !infinitely(f.sg->Some_0, f.input, fkey(f)))
//@   ensures f.root == 0 ==> err == s_ErrNoSolutionFound() && g is None
//@   ensures f.root != 0 ==> exists|t: ParseTree| #[trigger] S_tree(abnf_rm(), input, n_rulelist(), Some(t)) && evaluates(input, t, opts_of(opts, opts.len() as int).redefineCore, g, err)
//@ func ParseABNF(input, opts) (g, err)
//@   modifies gssNode gnode
//@   requires all_opts(opts) && byte_seq(input)
//@   ensures g is Some <==> err is Nil
//@   ensures err is Nil ==> wf_map(g->Some_0.Rulemap)
//@   ensures err is ErrGrammarTooLarge || err is ErrForestTooLarge || (!d_rule(abnf_rm(), n_rulelist(), input) && err is ParseError) || (d_rule(abnf_rm(), n_rulelist(), input) && (err is ErrMultipleSolutionsFound || exists|t: ParseTree| #[trigger] S_tree(abnf_rm(), input, n_rulelist(), Some(t)) && answers(input, t, opts_of(opts, opts.len() as int), g, err)))
//@   ghost entry : core_is(); meta_is(); places(); k_res_is(n_rulelist());
//@   ghost after Forest.Ambiguous : if !$r0 { one_finite(f->Some_0.sg->Some_0, input, fkey(f->Some_0), 1); }
