//@ pure strconv.Itoa(n) = itoa(n)
//@ pure strings.TrimSuffix(s, t) = trim_end(s, t)
//@ func ElemItf.String(e) (s)
//@   requires wf_el(e)
//@   ensures s == estr(e)
//@ func ElemRulename.String(x) (s)
//@   requires wf_el(ElemItf::ElemRulename(x))
//@   ensures s == estr(ElemItf::ElemRulename(x))
//@ func ElemGroup.String(x) (s)
//@   requires wf_el(ElemItf::ElemGroup(x))
//@   ensures s == estr(ElemItf::ElemGroup(x))
//@ func ElemOption.String(x) (s)
//@   requires wf_el(ElemItf::ElemOption(x))
//@   ensures s == estr(ElemItf::ElemOption(x))
//@ func ElemCharVal.String(x) (s)
//@   requires wf_el(ElemItf::ElemCharVal(x))
//@   ensures s == estr(ElemItf::ElemCharVal(x))
//@   loop 1 invariant str =~= utf8_strs(x.Values.subrange(0, $i))
//@   loop 1 end strs_push(x.Values.subrange(0, $i - 1), val); assert(x.Values.subrange(0, $i) =~= x.Values.subrange(0, $i - 1).push(val));
//@   loop 1 exit assert(x.Values.subrange(0, $i) =~= x.Values);
//@ func ElemNumVal.String(x) (s)
//@   requires wf_el(ElemItf::ElemNumVal(x))
//@   ensures s == estr(ElemItf::ElemNumVal(x))
//@   loop 1 pre let pre_ = str; assert(str =~= pre_ + joined(x.Elems, spl, 0));
//@   loop 1 invariant str =~= pre_ + joined(x.Elems, spl, $i)
//@   loop 1 exit trim_join(x.Elems, spl, pre_);
//@ func ElemProseVal.String(x) (s)
//@   requires wf_el(ElemItf::ElemProseVal(x))
//@   ensures s == estr(ElemItf::ElemProseVal(x))
//@   loop 1 invariant str =~= flat(x.values, $i)
//@ func Repetition.String(r) (s)
//@   requires wf_rep(r)
//@   ensures s == rstr(r)
//@ func Concatenation.String(c) (s)
//@   requires wf_cat(c) && c.Repetitions.len() > 0
//@   ensures s == cstr(c)
//@   loop 1 invariant str =~= joined(cstrs(c), seq![32int], $i)
//@   loop 1 head assert(wf_rep(rep)); assert(cstrs(c)[$i] == rstr(rep));
//@   loop 1 exit trim_join(cstrs(c), seq![32int], Seq::empty()); assert(Seq::<int>::empty() + str =~= str); assert(Seq::<int>::empty() + cstr(c) =~= cstr(c));
//@ func Alternation.String(a) (s)
//@   requires wf_alt(a)
//@   ensures s == astr(a)
//@   ghost entry : wf_cats(a);
//@   loop 1 invariant str =~= joined(astrs(a), seq![32int, 47, 32], $i)
//@   loop 1 head assert(wf_cat(concat)); assert(astrs(a)[$i] == cstr(concat));
//@   loop 1 exit trim_join(astrs(a), seq![32int, 47, 32], Seq::empty()); assert(Seq::<int>::empty() + str =~= str); assert(Seq::<int>::empty() + astr(a) =~= astr(a));
