//@ types feval abnfOptions ParseTree
//@ trusted strings.Cut(s, sep) (before, after, found)
//@   ensures sep.len() == 1 ==> (found <==> at_first(s, sep[0], 0) < s.len()) && before =~= s.subrange(0, at_first(s, sep[0], 0)) && (found ==> after =~= s.subrange(at_first(s, sep[0], 0) + 1, s.len() as int))
//@ trusted strconv.Atoi(s) (v, err)
//@   ensures s.len() > 0 && digits_ok(s, 10) ==> v == count_of(s)
//@ trusted strings.IndexByte(s, c) (r)
//@   ensures r == (if at_first(s, c, 0) < s.len() { at_first(s, c, 0) } else { -1 })
//@ trusted strings.LastIndexByte(s, c) (r)
//@   ensures -1 <= r < s.len() && (r >= 0 ==> s[r] == c) && (forall|i: int| r < i < s.len() ==> #[trigger] s[i] != c)
//@ trusted strings.ContainsRune(s, c) (r)
//@   ensures 0 <= c <= 127 ==> (r <==> at_first(s, c, 0) < s.len())
//@ trusted strings.Split(s, sep) (r)
//@   ensures sep.len() == 1 ==> r == pieces(s, sep[0])
//@ pure slices.Concat(x) = go_concat(x)
//@ func ptChildren(t, name) (r)
//@   requires t is Some && all_some(t->Some_0.Children)
//@   ensures r == named(t->Some_0.Children, name, t->Some_0.Children.len() as int)
//@   loop 1 invariant out == named(t->Some_0.Children, name, $i)
//@   loop 1 pre assert(out =~= named(t->Some_0.Children, name, 0));
//@   loop 1 head assert(t->Some_0.Children[$i] is Some);
//@ func ptFirst(t, names) (r)
//@   requires t is Some && all_some(t->Some_0.Children)
//@   ensures r == kid(t->Some_0.Children, names)
//@   loop 1 invariant first(t->Some_0.Children, names, 0) == first(t->Some_0.Children, names, $i)
//@   loop 1 head assert(t->Some_0.Children[$i] is Some);
//@ func feval.span(nn e, t) (r)
//@   requires t is Some && 0 <= t->Some_0.Start <= t->Some_0.End <= e.input.len()
//@   ensures r == text_of(e.input, t->Some_0)
//@ func feval.parseRepeat(nn e, t) (min, max)
//@   requires is_node(e.input, t, n_repeat())
//@   ensures min == den_min(text_of(e.input, t->Some_0)) && max == den_max(text_of(e.input, t->Some_0))
//@   ghost entry : r_repeat(e.input, t->Some_0); let w_ = text_of(e.input, t->Some_0); at_first_is(w_, 0x2A, 0); assert(w_.subrange(0, w_.len() as int) =~= w_);
//@ func feval.charVal(nn e, t) (r)
//@   requires is_node(e.input, t, n_char_val())
//@   ensures r == den_char(text_of(e.input, t->Some_0))
//@   ghost entry : r_char(e.input, t->Some_0); let w_ = text_of(e.input, t->Some_0); let o_ = cv_at(w_); let u_ = w_.subrange(o_, w_.len() as int); assert(w_.subrange(0, w_.len() as int) =~= w_); assert(u_[0] == 0x22); assert(u_[u_.len() - 1] == 0x22); assert(at_first(u_, 0x22, 0) == 0); let v_ = u_.subrange(1, u_.len() - 1); assert(v_ =~= den_char(w_).Values);
//@   | assert forall|k: int| 0 <= k < v_.len() implies 0 <= #[trigger] v_[k] <= 127 by { assert(quoted(w_[k + o_ + 1])); }
//@ func feval.numVal(nn e, t) (r)
//@   requires is_node(e.input, t, n_num_val())
//@   ensures r == den_num(text_of(e.input, t->Some_0))
//@   ghost entry : r_num(e.input, t->Some_0);
//@ func feval.proseVal(nn e, t) (r)
//@   requires is_node(e.input, t, n_prose_val())
//@   ensures r == den_prose(text_of(e.input, t->Some_0))
//@   ghost entry : r_prose(e.input, t->Some_0); let w_ = text_of(e.input, t->Some_0);
//@   loop 1 invariant t->Some_0.Start + 1 <= i && (i <= t->Some_0.End - 1) && values =~= den_prose(w_).values.subrange(0, i - t->Some_0.Start - 1)
//@   loop 1 head assert(w_[i - t->Some_0.Start] == e.input[i]); assert(enc(e.input[i]) =~= seq![e.input[i]]);
//@   loop 1 exit assert(den_prose(w_).values.subrange(0, den_prose(w_).values.len() as int) =~= den_prose(w_).values);
//@ func feval.element(nn e, t) (r, err)
//@   requires is_node(e.input, t, n_element())
//@   ensures err is Nil && r == den_el(e.input, t->Some_0) && wf_el(r)
//@   ghost entry : x_element(e.input, t->Some_0); let c_ = kid(t->Some_0.Children, n_elems())->Some_0;
//@   | first_is(t->Some_0.Children, n_elems(), 0); let i_ = first(c_.Children, seq![n_alternation()], 0); first_is(c_.Children, seq![n_alternation()], 0);
//@   | if c_.Rule == n_rulename() { r_name(e.input, c_); } if c_.Rule == n_char_val() { r_char(e.input, c_); } if c_.Rule == n_num_val() { r_num(e.input, c_); } if c_.Rule == n_prose_val() { r_prose(e.input, c_); } if c_.Rule == n_group() || c_.Rule == n_option() { x_sub(e.input, c_); }
//@ func feval.repetition(nn e, t) (r, err)
//@   requires is_node(e.input, t, n_repetition())
//@   ensures err is Nil && r == den_rep(e.input, t->Some_0) && wf_rep(r)
//@   ghost entry : x_repetition(e.input, t->Some_0); first_is(t->Some_0.Children, seq![n_element()], 0); let k_ = kid(t->Some_0.Children, seq![n_repeat()]); if k_ is Some { r_repeat(e.input, k_->Some_0); }
//@ func feval.concatenation(nn e, t) (r, err)
//@   requires is_node(e.input, t, n_concatenation())
//@   ensures err is Nil && r == den_cat(e.input, t->Some_0) && wf_cat(r) && r.Repetitions.len() >= 1
//@   ghost entry : x_concatenation(e.input, t->Some_0);
//@   loop 1 invariant rs =~= den_cat(e.input, t->Some_0).Repetitions.subrange(0, $i) && forall|j: int| 0 <= j < rs.len() ==> wf_rep(#[trigger] rs[j])
//@   loop 1 exit assert(rs =~= den_cat(e.input, t->Some_0).Repetitions);
//@ func feval.alternation(nn e, t) (r, err)
//@   requires is_node(e.input, t, n_alternation())
//@   ensures err is Nil && r == den_alt(e.input, t->Some_0) && wf_alt(r)
//@   ghost entry : x_alternation(e.input, t->Some_0);
//@   loop 1 invariant cs =~= den_alt(e.input, t->Some_0).Concatenations.subrange(0, $i) && forall|j: int| 0 <= j < cs.len() ==> wf_cat(#[trigger] cs[j]) && cs[j].Repetitions.len() >= 1
//@   loop 1 exit assert(cs =~= den_alt(e.input, t->Some_0).Concatenations); 
//@   ghost return : wf_alt_from(den_alt(e.input, t->Some_0));
//@ func feval.rule(nn e, t) (r, op, err)
//@   requires is_node(e.input, t, n_rule())
//@   ensures err is Nil && r == Some(den_rule(e.input, t->Some_0)) && op == den_op(e.input, t->Some_0) && (op == seq![0x3Dint] || op == seq![0x3Dint, 0x2F])
//@   ensures name_ok(r->Some_0.Name) && ascii(r->Some_0.Name) && wf_alt(r->Some_0.Alternation)
//@   ghost entry : x_rule(e.input, t->Some_0); r_name(e.input, kid(t->Some_0.Children, seq![n_rulename()])->Some_0); x_op(e.input, kid(t->Some_0.Children, seq![n_defined_as()])->Some_0); x_sub(e.input, kid(t->Some_0.Children, seq![n_elements()])->Some_0); assert(e_none() == Seq::<int>::empty());
//@ func feval.rulelist(nn e, t) (g, err)
//@   requires is_node(e.input, t, n_rulelist()) && e.o is Some
//@   ensures match den_list(e.input, t->Some_0, e.o->Some_0.redefineCore) { Den::Ok(m) => err is Nil && g is Some && g->Some_0.Rulemap == m && wf_map(m), Den::Bad(x) => err == x && g is None }
//@   ghost entry : let l_ = named(t->Some_0.Children, n_rule(), t->Some_0.Children.len() as int); let re_ = e.o->Some_0.redefineCore; x_list(e.input, t->Some_0, n_rule()); core_is();
//@   loop 1 invariant den_rules(e.input, l_, $i, re_) == Den::Ok(mp) && wf_map(mp) && keyed(mp)
//@   loop 1 head assert(is_node(e.input, l_[$i], n_rule())); let n_ = $i + 1; let m_ = mp; let c_ = l_[$i]->Some_0; assert(den_rules(e.input, l_, n_, re_) == den_step(e.input, m_, c_, re_)); if den_rules(e.input, l_, n_, re_) is Bad { den_bad(e.input, l_, n_, l_.len() as int, re_); } none_defines(m_, den_rule(e.input, c_).Name); none_defines(m_, den_rule(e.input, c_).Name);
//@   | let x_ = resolve(m_, den_rule(e.input, c_).Name); if x_ is Some { concat_two(x_->Some_0.Alternation.Concatenations, den_rule(e.input, c_).Alternation.Concatenations); }
//@   loop 1 end put_step(e.input, m_, c_, re_);
