// ---- term.rs: what a terminal matches ----
pub open spec fn fold_eq(t: int, a: int, sensitive: bool) -> bool { if sensitive { t == a } else { ascii_lower(t) == ascii_lower(a) } }
pub open spec fn scalars(cs: Seq<int>) -> bool { forall|k: int| 0 <= k < cs.len() ==> is_scalar(#[trigger] cs[k]) }
// the character sequences a terminal stands for (RFC 5234 section 2.3/2.4, RFC 7405)
pub open spec fn fits(e: ElemItf, cs: Seq<int>) -> bool {
  match e {
    ElemItf::ElemCharVal(x) => cs.len() == x.Values.len() && (forall|k: int| 0 <= k < cs.len() ==> fold_eq(x.Values[k], #[trigger] cs[k], x.Sensitive)),
    ElemItf::ElemNumVal(x) =>
      if x.Status == 1 { cs.len() == 1 && nval(x.Elems[0], x.Base) <= cs[0] <= nval(x.Elems[1], x.Base) }
      else { cs.len() == x.Elems.len() && (forall|k: int| 0 <= k < cs.len() ==> #[trigger] cs[k] == nval(x.Elems[k], x.Base)) },
    _ => false,
  }
}
pub open spec fn nchars(e: ElemItf) -> int {
  match e { ElemItf::ElemCharVal(x) => x.Values.len() as int, ElemItf::ElemNumVal(x) => if x.Status == 1 { 1 } else { x.Elems.len() as int }, _ => 0 }
}
// a byte string is a word of a terminal
pub open spec fn in_term(e: ElemItf, w: Seq<int>) -> bool { exists|cs: Seq<int>| scalars(cs) && fits(e, cs) && w =~= #[trigger] utf8_strs(cs) }
// the terminal matches input[i..j]
pub open spec fn term_at(e: ElemItf, input: Seq<int>, i: int, j: int) -> bool { 0 <= i <= j <= input.len() && in_term(e, input.subrange(i, j)) }
// the first k characters of the terminal match input[i..idx]
pub open spec fn fits_k(e: ElemItf, cs: Seq<int>, k: int) -> bool {
  cs.len() == k && match e {
    ElemItf::ElemCharVal(x) => k <= x.Values.len() && (forall|q: int| 0 <= q < k ==> fold_eq(x.Values[q], #[trigger] cs[q], x.Sensitive)),
    ElemItf::ElemNumVal(x) =>
      if x.Status == 1 { k <= 1 && (k == 1 ==> nval(x.Elems[0], x.Base) <= cs[0] <= nval(x.Elems[1], x.Base)) }
      else { k <= x.Elems.len() && (forall|q: int| 0 <= q < k ==> #[trigger] cs[q] == nval(x.Elems[q], x.Base)) },
    _ => false,
  }
}
pub open spec fn is_term(e: ElemItf) -> bool { e is ElemCharVal || e is ElemNumVal }
pub open spec fn pre_at(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int) -> bool {
  0 <= i <= idx <= input.len() && (exists|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && input.subrange(i, idx) =~= #[trigger] utf8_strs(cs))
}
// the characters the terminal accepts as its k-th
pub open spec fn takes(e: ElemItf, k: int, c: int) -> bool {
  match e {
    ElemItf::ElemCharVal(x) => fold_eq(x.Values[k], c, x.Sensitive),
    ElemItf::ElemNumVal(x) => if x.Status == 1 { nval(x.Elems[0], x.Base) <= c <= nval(x.Elems[1], x.Base) } else { c == nval(x.Elems[k], x.Base) },
    _ => false,
  }
}
pub proof fn enc_len(c: int) ensures 1 <= enc(c).len() <= 4, is_scalar(c) ==> (c < 0x80 ==> enc(c).len() == 1) {}
// the encoding is prefix-free
pub proof fn enc_unique(p: Seq<int>, i: int, a: int, b: int)
  requires is_scalar(a), is_scalar(b), has_at(p, i, enc(a)), has_at(p, i, enc(b)),
  ensures a == b,
{
  let x = enc(a); let y = enc(b);
  assert(forall|k: int| 0 <= k < x.len() ==> #[trigger] x[k] == p[i + k]) by { assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] == p[i + k] by { assert(p.subrange(i, i + x.len())[k] == x[k]); } }
  assert(forall|k: int| 0 <= k < y.len() ==> #[trigger] y[k] == p[i + k]) by { assert forall|k: int| 0 <= k < y.len() implies #[trigger] y[k] == p[i + k] by { assert(p.subrange(i, i + y.len())[k] == y[k]); } }
  assert(x[0] == y[0]);
  assert(x.len() == y.len());
  if x.len() > 1 { assert(x[1] == y[1]); }
  if x.len() > 2 { assert(x[2] == y[2]); }
  if x.len() > 3 { assert(x[3] == y[3]); }
}
pub proof fn strs_push(cs: Seq<int>, c: int)
  ensures utf8_strs(cs.push(c)) =~= utf8_strs(cs) + enc(c),
{ assert(cs.push(c).drop_last() =~= cs); }
pub proof fn strs_split(a: Seq<int>, b: Seq<int>)
  ensures utf8_strs(a + b) =~= utf8_strs(a) + utf8_strs(b),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); }
  else { strs_split(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
// where the k-th character of a text lies
pub proof fn strs_at(p: Seq<int>, i: int, ds: Seq<int>, k: int)
  requires has_at(p, i, utf8_strs(ds)), 0 <= k < ds.len(),
  ensures has_at(p, i + utf8_strs(ds.subrange(0, k)).len(), enc(ds[k])),
{
  hide(enc);
  let b1 = ds.subrange(0, k); let c = seq![ds[k]]; let b3 = ds.subrange(k + 1, ds.len() as int);
  assert(ds =~= b1 + (c + b3)); strs_split(b1, c + b3); strs_split(c, b3);
  assert(c =~= Seq::<int>::empty().push(ds[k])); strs_push(Seq::<int>::empty(), ds[k]);
  let w = utf8_strs(ds); let m = utf8_strs(b1).len() as int; let x = enc(ds[k]);
  assert(utf8_strs(c) =~= x);
  assert(w =~= utf8_strs(b1) + (x + utf8_strs(b3)));
  assert(w.subrange(m, m + x.len()) =~= x);
  let pw_ = p.subrange(i, i + w.len());
  assert(p.subrange(i + m, i + m + x.len()) =~= pw_.subrange(m, m + x.len()));
}
pub proof fn strs_prefix(p: Seq<int>, i: int, a: Seq<int>, n: int)
  requires has_at(p, i, utf8_strs(a)), 0 <= n <= a.len(),
  ensures has_at(p, i, utf8_strs(a.subrange(0, n))),
{
  hide(enc);
  let a1 = a.subrange(0, n); let a2 = a.subrange(n, a.len() as int);
  assert(a =~= a1 + a2); strs_split(a1, a2);
  let w = utf8_strs(a); let u = utf8_strs(a1);
  assert(w.subrange(0, u.len() as int) =~= u);
  assert(p.subrange(i, i + u.len()) =~= p.subrange(i, i + w.len()).subrange(0, u.len() as int));
}
// reading from the same place gives the same characters
pub proof fn strs_unique(p: Seq<int>, i: int, a: Seq<int>, b: Seq<int>)
  requires scalars(a), scalars(b), a.len() <= b.len(), has_at(p, i, utf8_strs(a)), has_at(p, i, utf8_strs(b)),
  ensures a =~= b.subrange(0, a.len() as int),
  decreases a.len(),
{
  hide(enc);
  if a.len() > 0 {
    let n = a.len() - 1; let a1 = a.subrange(0, n); let b1 = b.subrange(0, n);
    strs_prefix(p, i, a, n);
    strs_unique(p, i, a1, b);
    assert(a1 =~= b1);
    strs_at(p, i, a, n); strs_at(p, i, b, n);
    enc_unique(p, i + utf8_strs(a1).len(), a[n], b[n]);
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b.subrange(0, a.len() as int)[k] by { if k < n { assert(a1[k] == b1[k]); } }
  }
}
pub proof fn pre_start(e: ElemItf, input: Seq<int>, i: int)
  requires is_term(e), 0 <= i <= input.len(),
  ensures pre_at(e, 0, input, i, i),
{ let cs = Seq::<int>::empty(); assert(scalars(cs) && fits_k(e, cs, 0) && input.subrange(i, i) =~= utf8_strs(cs)); }
pub proof fn pre_step(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int, c: int)
  requires pre_at(e, k, input, i, idx), 0 <= k < nchars(e), is_scalar(c), takes(e, k, c), has_at(input, idx, enc(c)),
  ensures pre_at(e, k + 1, input, i, idx + enc(c).len()),
{
  let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && input.subrange(i, idx) =~= #[trigger] utf8_strs(cs);
  let d = cs.push(c); strs_push(cs, c);
  assert(input.subrange(i, idx + enc(c).len()) =~= input.subrange(i, idx) + input.subrange(idx, idx + enc(c).len()));
  assert(scalars(d) && fits_k(e, d, k + 1) && input.subrange(i, idx + enc(c).len()) =~= utf8_strs(d));
}
pub proof fn fits_takes(e: ElemItf, ds: Seq<int>, k: int)
  requires fits(e, ds), 0 <= k < nchars(e), ensures ds.len() == nchars(e), takes(e, k, ds[k]),
{}
// no continuation fits: the terminal does not match at i
pub proof fn pre_fail(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int)
  requires pre_at(e, k, input, i, idx), 0 <= k < nchars(e), forall|c: int| is_scalar(c) && #[trigger] takes(e, k, c) ==> !has_at(input, idx, enc(c)),
  ensures forall|j: int| !#[trigger] term_at(e, input, i, j),
{
  assert forall|j: int| !#[trigger] term_at(e, input, i, j) by { if term_at(e, input, i, j) { pre_fail_at(e, k, input, i, idx, j); } }
}
pub proof fn pre_fail_at(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int, j: int)
  requires pre_at(e, k, input, i, idx), 0 <= k < nchars(e), term_at(e, input, i, j),
  ensures exists|c: int| is_scalar(c) && #[trigger] takes(e, k, c) && has_at(input, idx, enc(c)),
{
  let w = input.subrange(i, j);
  let ds = choose|ds: Seq<int>| scalars(ds) && fits(e, ds) && w =~= #[trigger] utf8_strs(ds);
  let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && input.subrange(i, idx) =~= #[trigger] utf8_strs(cs);
  fits_takes(e, ds, k);
  assert(cs.len() == k);
  assert(has_at(input, i, utf8_strs(cs)) && has_at(input, i, utf8_strs(ds)));
  strs_unique(input, i, cs, ds);
  assert(cs =~= ds.subrange(0, k));
  strs_at(input, i, ds, k);
  assert(is_scalar(ds[k]) && takes(e, k, ds[k]) && has_at(input, idx, enc(ds[k])));
}
pub proof fn pre_done(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int)
  requires pre_at(e, k, input, i, idx), k == nchars(e),
  ensures term_at(e, input, i, idx), forall|j: int| #[trigger] term_at(e, input, i, j) ==> j == idx,
{
  let cs = choose|cs: Seq<int>| scalars(cs) && fits_k(e, cs, k) && input.subrange(i, idx) =~= #[trigger] utf8_strs(cs);
  assert(fits(e, cs));
  assert forall|j: int| #[trigger] term_at(e, input, i, j) implies j == idx by {
    let ds = choose|ds: Seq<int>| scalars(ds) && fits(e, ds) && input.subrange(i, j) =~= #[trigger] utf8_strs(ds);
    strs_unique(input, i, cs, ds);
    assert(cs =~= ds);
  }
}
pub proof fn term_none(e: ElemItf, input: Seq<int>, i: int)
  requires !is_term(e),
  ensures forall|j: int| !#[trigger] term_at(e, input, i, j),
{}
// what utf8.DecodeRune returns on p
pub open spec fn decodes(p: Seq<int>, r: int, size: int) -> bool {
  if p.len() == 0 { r == 0xFFFD && size == 0 }
  else { (r == 0xFFFD && size == 1 && (forall|c: int| is_scalar(c) ==> !has_at(p, 0, #[trigger] enc(c)))) || (is_scalar(r) && size == enc(r).len() && has_at(p, 0, enc(r))) }
}
pub proof fn decode_at(input: Seq<int>, idx: int, r: int, size: int)
  requires 0 <= idx < input.len(), decodes(input.subrange(idx, input.len() as int), r, size),
  ensures (r == 0xFFFD && size == 1) ==> (forall|c: int| is_scalar(c) ==> !has_at(input, idx, #[trigger] enc(c))),
    !(r == 0xFFFD && size == 1) ==> is_scalar(r) && size == enc(r).len() && has_at(input, idx, enc(r)) && (forall|c: int| is_scalar(c) && has_at(input, idx, #[trigger] enc(c)) ==> c == r),
    size >= 1, idx + size <= input.len(),
{
  let p = input.subrange(idx, input.len() as int);
  assert forall|c: int| is_scalar(c) implies (has_at(input, idx, #[trigger] enc(c)) <==> has_at(p, 0, enc(c))) by {
    if idx + enc(c).len() <= input.len() { assert(input.subrange(idx, idx + enc(c).len()) =~= p.subrange(0, enc(c).len() as int)); }
  }
  if !(r == 0xFFFD && size == 1) {
    assert forall|c: int| is_scalar(c) && has_at(input, idx, #[trigger] enc(c)) implies c == r by { enc_unique(input, idx, c, r); }
  } else { assert(enc(0xFFFD).len() == 3); }
}
pub open spec fn no_match(e: ElemItf, input: Seq<int>, i: int) -> bool { forall|j: int| !#[trigger] term_at(e, input, i, j) }
pub open spec fn only_match(e: ElemItf, input: Seq<int>, i: int, j: int) -> bool { term_at(e, input, i, j) && (forall|q: int| #[trigger] term_at(e, input, i, q) ==> q == j) }
pub open spec fn bad_rune(r: int, size: int) -> bool { r == 0xFFFD && size == 1 }
// one decoding step of a terminal read character by character
pub proof fn decode_step(e: ElemItf, k: int, input: Seq<int>, i: int, idx: int)
  requires pre_at(e, k, input, i, idx), 0 <= k < nchars(e),
  ensures idx >= input.len() ==> no_match(e, input, i),
    idx < input.len() ==> (forall|r: int, size: int| #[trigger] decodes(input.subrange(idx, input.len() as int), r, size) ==>
      (bad_rune(r, size) ==> no_match(e, input, i))
      && (!bad_rune(r, size) && !takes(e, k, r) ==> no_match(e, input, i))
      && (!bad_rune(r, size) && takes(e, k, r) ==> pre_at(e, k + 1, input, i, idx + size) && idx + size <= input.len())
      && (!bad_rune(r, size) ==> is_scalar(r))),
{
  if idx >= input.len() {
    assert forall|c: int| is_scalar(c) && #[trigger] takes(e, k, c) implies !has_at(input, idx, enc(c)) by { enc_len(c); }
    pre_fail(e, k, input, i, idx);
  } else {
    assert forall|r: int, size: int| #[trigger] decodes(input.subrange(idx, input.len() as int), r, size) implies
      (bad_rune(r, size) ==> no_match(e, input, i))
      && (!bad_rune(r, size) && !takes(e, k, r) ==> no_match(e, input, i))
      && (!bad_rune(r, size) && takes(e, k, r) ==> pre_at(e, k + 1, input, i, idx + size) && idx + size <= input.len())
      && (!bad_rune(r, size) ==> is_scalar(r)) by {
      decode_at(input, idx, r, size);
      if bad_rune(r, size) || !takes(e, k, r) {
        assert forall|c: int| is_scalar(c) && #[trigger] takes(e, k, c) implies !has_at(input, idx, enc(c)) by {}
        pre_fail(e, k, input, i, idx);
      } else { pre_step(e, k, input, i, idx, r); }
    }
  }
}
// one step of a value series compared as a whole character
pub proof fn series_step(e: ElemItf, x: ElemNumVal, k: int, input: Seq<int>, i: int, idx: int)
  requires e == ElemItf::ElemNumVal(x), x.Status != 1, pre_at(e, k, input, i, idx), 0 <= k < x.Elems.len(),
  ensures !is_scalar(nval(x.Elems[k], x.Base)) ==> no_match(e, input, i),
    is_scalar(nval(x.Elems[k], x.Base)) && !has_at(input, idx, enc(nval(x.Elems[k], x.Base))) ==> no_match(e, input, i),
    is_scalar(nval(x.Elems[k], x.Base)) && has_at(input, idx, enc(nval(x.Elems[k], x.Base))) ==> pre_at(e, k + 1, input, i, idx + enc(nval(x.Elems[k], x.Base)).len()),
{
  let c = nval(x.Elems[k], x.Base);
  if is_scalar(c) && has_at(input, idx, enc(c)) { pre_step(e, k, input, i, idx, c); }
  else { pre_fail(e, k, input, i, idx); }
}
// a value range reads one character
pub proof fn range_step(e: ElemItf, input: Seq<int>, i: int)
  requires e is ElemNumVal, e->ElemNumVal_0.Status == 1, 0 <= i <= input.len(),
  ensures i >= input.len() ==> no_match(e, input, i),
    i < input.len() ==> (forall|r: int, size: int| #[trigger] decodes(input.subrange(i, input.len() as int), r, size) ==>
      (bad_rune(r, size) || !takes(e, 0, r) ==> no_match(e, input, i))
      && (!bad_rune(r, size) && takes(e, 0, r) ==> only_match(e, input, i, i + size) && i + size <= input.len())
      && (!bad_rune(r, size) ==> is_scalar(r))),
{
  pre_start(e, input, i);
  decode_step(e, 0, input, i, i);
  if i < input.len() {
    assert forall|r: int, size: int| #[trigger] decodes(input.subrange(i, input.len() as int), r, size) && !bad_rune(r, size) && takes(e, 0, r) implies only_match(e, input, i, i + size) by { pre_done(e, 1, input, i, i + size); }
  }
}
pub proof fn strs_one() ensures forall|c: int| #[trigger] utf8_strs(seq![c]) == utf8_str(c)
{ assert forall|c: int| #[trigger] utf8_strs(seq![c]) == utf8_str(c) by { assert(seq![c] =~= Seq::<int>::empty().push(c)); strs_push(Seq::<int>::empty(), c); assert(utf8_strs(seq![c]) =~= utf8_str(c)); } }
