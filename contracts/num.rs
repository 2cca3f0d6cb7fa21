// ---- num.rs: num-val literals denote integers ----
pub open spec fn radix(base: Seq<int>) -> int {
  if base =~= seq![0x62int] || base =~= seq![0x42int] { 2 }
  else if base =~= seq![0x78int] || base =~= seq![0x58int] { 16 }
  else { 10 }
}
pub open spec fn is_base(base: Seq<int>) -> bool {
  base =~= seq![0x62int] || base =~= seq![0x42int] || base =~= seq![0x78int] || base =~= seq![0x58int] || base =~= seq![0x64int] || base =~= seq![0x44int]
}
pub open spec fn digit(c: int) -> int {
  if 0x30 <= c <= 0x39 { c - 0x30 } else if 0x61 <= c <= 0x7A { c - 0x61 + 10 } else if 0x41 <= c <= 0x5A { c - 0x41 + 10 } else { 99 }
}
pub open spec fn digits_ok(s: Seq<int>, r: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= digit(#[trigger] s[i]) < r }
pub open spec fn num(s: Seq<int>, r: int) -> int decreases s.len() {
  if s.len() == 0 { 0 } else { num(s.drop_last(), r) * r + digit(s.last()) }
}
pub open spec fn nval(s: Seq<int>, base: Seq<int>) -> int { num(s, radix(base)) }
pub open spec fn nv_ok(s: Seq<int>, base: Seq<int>) -> bool { is_base(base) && s.len() > 0 && digits_ok(s, radix(base)) }
pub open spec fn pw(r: int, n: nat) -> int decreases n { if n == 0 { 1 } else { r * pw(r, (n - 1) as nat) } }

pub proof fn num_split(a: Seq<int>, b: Seq<int>, r: int)
  ensures num(a + b, r) == num(a, r) * pw(r, b.len()) + num(b, r),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); assert(pw(r, 0) == 1); assert(num(a, r) * 1 == num(a, r)) by (nonlinear_arith); }
  else {
    num_split(a, b.drop_last(), r);
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert((a + b).last() == b.last());
    let p = pw(r, (b.len() - 1) as nat);
    assert(pw(r, b.len()) == r * p);
    assert((num(a, r) * p + num(b.drop_last(), r)) * r == num(a, r) * (r * p) + num(b.drop_last(), r) * r) by (nonlinear_arith);
  }
}
pub proof fn num_range(s: Seq<int>, r: int)
  requires digits_ok(s, r), r >= 2,
  ensures 0 <= num(s, r) < pw(r, s.len()), pw(r, s.len()) >= 1,
  decreases s.len(),
{
  if s.len() > 0 {
    num_range(s.drop_last(), r);
    let p = pw(r, (s.len() - 1) as nat); let n = num(s.drop_last(), r); let d = digit(s.last());
    assert(pw(r, s.len()) == r * p);
    assert(0 <= digit(s[s.len() - 1]) < r);
    assert(n * r + d < r * p) by (nonlinear_arith) requires n + 1 <= p, 0 <= d < r, r >= 2;
    assert(n * r >= 0) by (nonlinear_arith) requires n >= 0, r >= 2;
    assert(r * p >= 1) by (nonlinear_arith) requires r >= 2, p >= 1;
  }
}
pub proof fn num_zeros(a: Seq<int>, r: int)
  requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == 0x30,
  ensures num(a, r) == 0,
  decreases a.len(),
{ if a.len() > 0 { num_zeros(a.drop_last(), r); assert(a.last() == a[a.len() - 1]); assert(0 * r == 0) by (nonlinear_arith); } }
pub proof fn num_lead(s: Seq<int>, r: int)
  requires digits_ok(s, r), r >= 2, s.len() > 0,
  ensures num(s, r) >= digit(s[0]) * pw(r, (s.len() - 1) as nat), num(s, r) < (digit(s[0]) + 1) * pw(r, (s.len() - 1) as nat),
{
  let h = s.subrange(0, 1); let t = s.subrange(1, s.len() as int);
  assert(h + t =~= s); num_split(h, t, r); num_range(t, r);
  assert(h.drop_last() =~= Seq::<int>::empty()); assert(num(h, r) == digit(s[0])) by { assert(num(h.drop_last(), r) == 0); assert(0 * r == 0) by (nonlinear_arith); }
  let d = digit(s[0]); let p = pw(r, t.len());
  assert((d + 1) * p == d * p + p) by (nonlinear_arith);
}
pub proof fn pw_mono(r: int, a: nat, b: nat)
  requires r >= 2, a <= b,
  ensures 1 <= pw(r, a) <= pw(r, b),
  decreases b,
{
  if a < b { pw_mono(r, a, (b - 1) as nat); let q = pw(r, (b - 1) as nat); assert(r * q >= q) by (nonlinear_arith) requires r >= 2, q >= 1; }
  else if a > 0 { pw_mono(r, (a - 1) as nat, (b - 1) as nat); let q = pw(r, (b - 1) as nat); assert(r * q >= 1) by (nonlinear_arith) requires r >= 2, q >= 1; }
}
// everything checkBounds needs about a literal without leading zeros
pub open spec fn num_bounds_hold(s: Seq<int>, r: int) -> bool {
  &&& (r == 2 && s.len() > 21 ==> num(s, r) > 0x10FFFF)
  &&& (r == 2 && s.len() < 21 ==> num(s, r) <= 0x10FFFF)
  &&& (r == 10 && s.len() > 7 ==> num(s, r) > 0x10FFFF)
  &&& (r == 10 && s.len() < 7 ==> num(s, r) <= 0x10FFFF)
  &&& (r == 16 && s.len() > 6 ==> num(s, r) > 0x10FFFF)
  &&& (r == 16 && s.len() < 6 ==> num(s, r) <= 0x10FFFF)
  &&& (r == 2 && s.len() == 21 ==> (num(s, r) <= 0x10FFFF <==> (s[1] == 0x30 && s[2] == 0x30 && s[3] == 0x30 && s[4] == 0x30)))
  &&& (r == 16 && s.len() == 6 ==> (num(s, r) <= 0x10FFFF <==> (s[0] == 0x31 && s[1] == 0x30)))
  &&& (r == 10 && s.len() == 7 ==> num(s, r) == digit(s[0]) * 1000000 + digit(s[1]) * 100000 + digit(s[2]) * 10000 + digit(s[3]) * 1000 + digit(s[4]) * 100 + digit(s[5]) * 10 + digit(s[6]))
}
pub proof fn num_bounds(s: Seq<int>, r: int)
  requires digits_ok(s, r), r == 2 || r == 10 || r == 16, s.len() > 0 ==> s[0] != 0x30,
  ensures num_bounds_hold(s, r),
{
  num_range(s, r);
  reveal_with_fuel(pw, 24);
  assert(pw(2, 21) == 2097152 && pw(2, 20) == 1048576 && pw(2, 16) == 65536 && pw(2, 4) == 16);
  assert(pw(10, 7) == 10000000 && pw(10, 6) == 1000000 && pw(16, 6) == 16777216 && pw(16, 5) == 1048576 && pw(16, 4) == 65536);
  if s.len() > 0 {
    num_lead(s, r);
    assert(digit(s[0]) >= 1);
    let l = (s.len() - 1) as nat; let p = pw(r, l); let d = digit(s[0]);
    assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 1;
    if r == 2 && s.len() > 21 { pw_mono(2, 21, l); }
    if r == 10 && s.len() > 7 { pw_mono(10, 7, l); }
    if r == 16 && s.len() > 6 { pw_mono(16, 6, l); }
    if r == 2 && s.len() < 21 { pw_mono(2, s.len(), 20); }
    if r == 10 && s.len() < 7 { pw_mono(10, s.len(), 6); }
    if r == 16 && s.len() < 6 { pw_mono(16, s.len(), 5); }
    if r == 2 && s.len() == 21 {
      let h = s.subrange(0, 5); let t = s.subrange(5, 21);
      assert(h + t =~= s); num_split(h, t, 2);
      assert(digits_ok(t, 2)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= digit(#[trigger] t[i]) < 2 by { assert(t[i] == s[i + 5]); } }
      num_range(t, 2);
      num5(h); 
      assert(digit(h[0]) == 1);
      assert(forall|i: int| 0 <= i < 5 ==> #[trigger] h[i] == s[i]);
      assert(0 <= digit(s[1]) < 2 && 0 <= digit(s[2]) < 2 && 0 <= digit(s[3]) < 2 && 0 <= digit(s[4]) < 2);
    }
    if r == 16 && s.len() == 6 {
      let h = s.subrange(0, 2); let t = s.subrange(2, 6);
      assert(h + t =~= s); num_split(h, t, 16);
      assert(digits_ok(t, 16)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= digit(#[trigger] t[i]) < 16 by { assert(t[i] == s[i + 2]); } }
      num_range(t, 16);
      reveal_with_fuel(num, 4);
      assert(h.drop_last().drop_last() =~= Seq::<int>::empty());
      assert(h[0] == s[0] && h[1] == s[1] && h.drop_last().last() == s[0]);
      assert(num(h, 16) == digit(s[0]) * 16 + digit(s[1]));
      assert(0 <= digit(s[1]) < 16);
    }
    if r == 10 && s.len() == 7 { num7(s); }
  }
}
pub proof fn num5(h: Seq<int>)
  requires h.len() == 5,
  ensures num(h, 2) == 16 * digit(h[0]) + 8 * digit(h[1]) + 4 * digit(h[2]) + 2 * digit(h[3]) + digit(h[4]),
{
  reveal_with_fuel(num, 8);
  let a = h.drop_last(); let b = a.drop_last(); let c = b.drop_last(); let d = c.drop_last();
  assert(d.drop_last() =~= Seq::<int>::empty());
  assert(h.last() == h[4] && a.last() == h[3] && b.last() == h[2] && c.last() == h[1] && d.last() == h[0]);
}
pub proof fn num7(s: Seq<int>)
  requires s.len() == 7,
  ensures num(s, 10) == digit(s[0]) * 1000000 + digit(s[1]) * 100000 + digit(s[2]) * 10000 + digit(s[3]) * 1000 + digit(s[4]) * 100 + digit(s[5]) * 10 + digit(s[6]),
{
  reveal_with_fuel(num, 9);
  let a = s.drop_last(); let b = a.drop_last(); let c = b.drop_last(); let d = c.drop_last(); let e = d.drop_last(); let f = e.drop_last();
  assert(f.drop_last() =~= Seq::<int>::empty());
  assert(s.last() == s[6] && a.last() == s[5] && b.last() == s[4] && c.last() == s[3] && d.last() == s[2] && e.last() == s[1] && f.last() == s[0]);
}
// trimming leading zeros keeps the value
pub proof fn num_trim(s: Seq<int>, k: int, r: int)
  requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == 0x30,
  ensures num(s.subrange(k, s.len() as int), r) == num(s, r), digits_ok(s, r) ==> digits_ok(s.subrange(k, s.len() as int), r),
{
  let z = s.subrange(0, k); let t = s.subrange(k, s.len() as int);
  assert(z + t =~= s); num_split(z, t, r); num_zeros(z, r);
  assert(0 * pw(r, t.len()) == 0) by (nonlinear_arith);
}
