//@ interface error = *ErrTooLargeNumeral | *ErrDependencyNotFound | *ErrSemanticRepetition | *ErrRuleNotFound | *ErrCoreRuleModify | *ErrDuplicatedRule | *ErrCyclicRule | *ErrMaxNodesExceeded | *ParseError | *ErrForestTooLarge | *ErrGrammarTooLarge | *ErrRegexTooLarge | *ErrMultipleSolutionsFound
//@ sentinel ErrNoSolutionFound
//@ trusted strconv.ParseUint(s, b, bits) (v, err)
//@   ensures err is Nil <==> (s.len() > 0 && digits_ok(s, b) && num(s, b) <= 0xFFFF_FFFF_FFFF_FFFF)
//@   ensures err is Nil ==> v == num(s, b)
//@ trusted strconv.FormatInt(v, b) (s)
//@   ensures v >= 0 ==> s.len() > 0 && digits_ok(s, b) && num(s, b) == v
//@ trusted strings.ToUpper(s) (u)
//@   ensures digits_ok(s, 16) ==> u.len() == s.len() && digits_ok(u, 16) && num(u, 16) == num(s, 16)
//@ trusted strings.TrimLeft(s, cut) (t)
//@   ensures cut =~= seq![0x30int] ==> (exists|k: int| 0 <= k <= s.len() && t =~= #[trigger] s.subrange(k, s.len() as int) && (forall|i: int| 0 <= i < k ==> s[i] == 0x30) && (k < s.len() ==> s[k] != 0x30))
//@ pure utf8.ValidRune(r) = is_scalar(r)
//@ func baseRadix(base) (r)
//@   ensures r == radix(base)
//@ func numvalToUint64(str, base) (v, ok)
//@   ensures ok <==> (str.len() > 0 && digits_ok(str, radix(base)) && nval(str, base) <= 0xFFFF_FFFF_FFFF_FFFF)
//@   ensures ok ==> v == nval(str, base)
//@   ensures !ok ==> v == 0
//@ func numvalToInt32(str, base) (v)
//@   ensures str.len() > 0 && digits_ok(str, radix(base)) ==> v == go_min(nval(str, base), 0x7FFF_FFFF)
//@   ensures 0 <= v <= 0x7FFF_FFFF
//@   ghost entry : if digits_ok(str, radix(base)) { num_range(str, radix(base)); }
//@ func numvalToRune(str, base) (v)
//@   ensures str.len() > 0 && digits_ok(str, radix(base)) ==> v == go_min(nval(str, base), 0x7FFF_FFFF)
//@   ensures 0 <= v <= 0x7FFF_FFFF
//@ func int32ToNumval(v, base) (s)
//@   ensures v >= 0 ==> s.len() > 0 && digits_ok(s, radix(base)) && nval(s, base) == v
//@ func checkBounds(str, base) (err)
//@   requires nv_ok(str, base)
//@   ensures err is Nil <==> nval(str, base) <= 0x10FFFF
//@   ensures !(err is Nil) ==> err is ErrTooLargeNumeral && err->ErrTooLargeNumeral_0.Base == base && nval(err->ErrTooLargeNumeral_0.Value, base) == nval(str, base)
//@   ghost entry : assert forall|k: int| 0 <= k <= str.len() && (forall|i: int| 0 <= i < k ==> str[i] == 0x30) && (k < str.len() ==> str[k] != 0x30) implies num(#[trigger] str.subrange(k, str.len() as int), radix(base)) == nval(str, base) && digits_ok(str.subrange(k, str.len() as int), radix(base)) by { num_trim(str, k, radix(base)); }
//@   | assert forall|t: Seq<int>| #[trigger] digits_ok(t, radix(base)) && (t.len() > 0 ==> t[0] != 0x30) implies num_bounds_hold(t, radix(base)) by { num_bounds(t, radix(base)); }
//@ func scalarInRange(r, lo, hi) (s, ok)
//@   requires 0 <= lo <= r <= hi <= 0x10FFFF
//@   ensures ok ==> lo <= s <= hi && is_scalar(s)
//@   ensures !ok ==> (forall|x: int| lo <= x <= hi ==> !is_scalar(x))
//@   ensures is_scalar(r) ==> ok && s == r
