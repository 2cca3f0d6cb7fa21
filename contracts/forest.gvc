//@ opaque ForestOption
//@ trusted ForestOption.call(inout cfg)
//@ types forestConfig BSRForest bsrKey bsrElem slot ParseTree
//@ func BSRForest.buildIndex(inout f)
//@   ensures new_f.sg == f.sg && new_f.input == f.input && new_f.set_ == f.set_ && new_f.start == f.start && new_f.n == f.n && new_f.rulename == f.rulename
//@   ensures idx_ok(new_f.index, new_f.set_.dom())
//@   loop 1 invariant f == (BSRForest { index: f.index, ..f0 }) && idx_ok(f.index, $done)
//@   loop 1 head let ix_ = f.index; let D_ = $done;
//@   loop 1 end assert(f.index =~= ix_.insert(bkey(e), piv(ix_, bkey(e)).push(e.k))); idx_add(ix_, D_, e, f.index);
//@   loop 1 exit assert(f.set_.dom() =~= $done);
//@ func BSRForest.startElems(nn f) (s, ks, ok)
//@   requires bf_ok(f)
//@   ensures ok <==> bf_valid(f)
//@   ensures ok ==> s.nt == f.start && 0 <= s.alt < sg_nt(f.sg->Some_0, f.start).alts.len() && s == fin(f.sg->Some_0, f.start, s.alt) && ks == piv(f.index, bk(s, 0, f.n, 0)) && ks.len() > 0
//@   loop 1 invariant forall|a: int, k: int| 0 <= a < $i ==> !#[trigger] bf_has(f, fin(f.sg->Some_0, f.start, a), 0, k, f.n, 0)
//@   loop 1 head piv_has(f, bk(fin(f.sg->Some_0, f.start, $i), 0, f.n, 0));
//@ func BSRForest.Valid(nn f) (ok)
//@   requires bf_ok(f)
//@   ensures ok <==> bf_valid(f)
//@   loop 1 invariant forall|a: int, k: int| 0 <= a < $i ==> !#[trigger] bf_has(f, fin(f.sg->Some_0, f.start, a), 0, k, f.n, 0)
//@   loop 1 head piv_has(f, bk(fin(f.sg->Some_0, f.start, $i), 0, f.n, 0));
//@ func BSRForest.childRC(nn f, nt, rc, s) (r)
//@   requires f.sg is Some && sg_ok(f.sg->Some_0) && sg_has(f.sg->Some_0, nt)
//@   ensures r == crc(f.sg->Some_0, nt, rc, s)
//@ func ParseBSR(input, nn grammar, rootRulename, opts) (f, err)
//@   modifies bsrGNode
//@   requires wf_map(grammar.Rulemap) && wf_map(g_coreRules()) && ascii(rootRulename)
//@   ensures err is ErrRuleNotFound <==> resolve(grammar.Rulemap, rootRulename) is None
//@   ensures err is Nil || err is ErrRuleNotFound || err is ErrGrammarTooLarge || err is ErrForestTooLarge
//@   ensures err is Nil ==> f is Some && lowered(f->Some_0.sg->Some_0, grammar.Rulemap, rootRulename)
//@   ensures err is Nil ==> f is Some && bx(f->Some_0) && f->Some_0.input == input && (bf_valid(f->Some_0) <==> d_rule(grammar.Rulemap, rootRulename, input))
//@   ghost after bsrParser.parse : let pe_ = p->Some_0; let He_ = H_bsrGNode;
//@   ghost return 3 : bf_exact(f->Some_0, pe_, He_); assert(bf_of(f->Some_0, pe_, He_));
