// ---- print.rs: how a syntax tree prints, and that the printed form can be read back in one way only ----
pub proof fn dec_num(n: int)
  requires n >= 0, ensures num(dec(n), 10) == n, digits_ok(dec(n), 10), dec(n).len() >= 1, decreases n,
{
  if n < 10 { reveal_with_fuel(num, 3); assert(dec(n).drop_last() =~= Seq::<int>::empty()); }
  else {
    dec_num(n / 10); let d = dec(n); assert(d.drop_last() =~= dec(n / 10));
    assert forall|i: int| 0 <= i < d.len() implies 0 <= digit(#[trigger] d[i]) < 10 by { if i < d.len() - 1 { assert(d[i] == dec(n / 10)[i]); } }
  }
}
pub proof fn itoa_facts(n: int, m: int)
  requires n >= 0, m >= 0,
  ensures itoa(n) =~= itoa(m) ==> n == m, itoa(n).len() >= 1, forall|i: int| 0 <= i < itoa(n).len() ==> #[trigger] itoa(n)[i] != 64 && 48 <= itoa(n)[i] <= 57,
{ dec_num(n); dec_num(m); assert forall|i: int| 0 <= i < itoa(n).len() implies #[trigger] itoa(n)[i] != 64 && 48 <= itoa(n)[i] <= 57 by { assert(0 <= digit(dec(n)[i]) < 10); } }
// joining printed parts, from the i-th on, and as the loops build it (every part followed by the separator)
pub open spec fn join_from(s: Seq<Seq<int>>, sep: Seq<int>, i: int) -> Seq<int> decreases s.len() - i {
  if i < 0 || i >= s.len() { Seq::empty() } else if i == s.len() - 1 { s[i] } else { s[i] + (sep + join_from(s, sep, i + 1)) }
}
pub open spec fn joined(s: Seq<Seq<int>>, sep: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { joined(s, sep, n - 1) + (s[n - 1] + sep) } }
pub open spec fn flat(s: Seq<Seq<int>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { flat(s, n - 1) + s[n - 1] } }
pub proof fn joined_from(s: Seq<Seq<int>>, sep: Seq<int>, n: int)
  requires 0 <= n < s.len(), ensures joined(s, sep, n) + join_from(s, sep, n) =~= join_from(s, sep, 0), decreases n,
{ if n > 0 { joined_from(s, sep, n - 1); assert(joined(s, sep, n) + join_from(s, sep, n) =~= joined(s, sep, n - 1) + (s[n - 1] + (sep + join_from(s, sep, n)))); } }
pub proof fn joined_all(s: Seq<Seq<int>>, sep: Seq<int>)
  ensures s.len() > 0 ==> joined(s, sep, s.len() as int) =~= join_from(s, sep, 0) + sep, s.len() == 0 ==> joined(s, sep, s.len() as int) =~= Seq::<int>::empty(),
{ if s.len() > 0 { let n = s.len() - 1; joined_from(s, sep, n); assert(joined(s, sep, n + 1) =~= (joined(s, sep, n) + s[n]) + sep); } }
pub open spec fn ends_with(s: Seq<int>, t: Seq<int>) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) =~= t }
pub open spec fn trim_end(s: Seq<int>, t: Seq<int>) -> Seq<int> { if ends_with(s, t) { s.subrange(0, s.len() - t.len()) } else { s } }
pub proof fn trim_join(s: Seq<Seq<int>>, sep: Seq<int>, pre: Seq<int>)
  requires s.len() > 0, ensures trim_end(pre + joined(s, sep, s.len() as int), sep) =~= pre + join_from(s, sep, 0),
{ joined_all(s, sep); let x = pre + joined(s, sep, s.len() as int); let n = (pre + join_from(s, sep, 0)).len() as int; assert(x =~= (pre + join_from(s, sep, 0)) + sep); assert(x.subrange(n, x.len() as int) =~= sep); assert(x.subrange(0, n) =~= pre + join_from(s, sep, 0)); }
// the printed form of every construct
pub open spec fn estr(e: ElemItf) -> Seq<int> decreases e, 0int {
  match e {
    ElemItf::ElemRulename(x) => x.Name,
    ElemItf::ElemGroup(x) => seq![40int] + astr(x.Alternation) + seq![41int],
    ElemItf::ElemOption(x) => seq![91int] + astr(x.Alternation) + seq![93int],
    ElemItf::ElemCharVal(x) => if x.Sensitive { seq![37int, 115, 34] + utf8_strs(x.Values) + seq![34int] } else { seq![34int] + utf8_strs(x.Values) + seq![34int] },
    ElemItf::ElemNumVal(x) => seq![37int] + x.Base + join_from(x.Elems, if x.Status == 1 { seq![45int] } else { seq![46int] }, 0),
    ElemItf::ElemProseVal(x) => seq![60int] + flat(x.values, x.values.len() as int) + seq![62int],
    ElemItf::Other(x) => Seq::empty(),
    ElemItf::Nil => Seq::empty(),
  }
}
pub open spec fn rpre(r: Repetition) -> Seq<int> {
  if r.Min == r.Max { if r.Min == 1 { Seq::empty() } else { itoa(r.Min) } }
  else { (if r.Min != 0 { itoa(r.Min) } else { Seq::empty() }) + seq![42int] + (if r.Max != -1 { itoa(r.Max) } else { Seq::empty() }) }
}
pub open spec fn rstr(r: Repetition) -> Seq<int> decreases r, 0int { rpre(r) + estr(r.Element) }
pub open spec fn cstrs(c: Concatenation) -> Seq<Seq<int>> decreases c, 1int { Seq::new(c.Repetitions.len(), |i: int| if 0 <= i < c.Repetitions.len() { rstr(c.Repetitions[i]) } else { Seq::empty() }) }
pub open spec fn cstr(c: Concatenation) -> Seq<int> decreases c, 2int { join_from(cstrs(c), seq![32int], 0) }
pub open spec fn astrs(a: Alternation) -> Seq<Seq<int>> decreases a, 1int { Seq::new(a.Concatenations.len(), |i: int| if 0 <= i < a.Concatenations.len() { cstr(a.Concatenations[i]) } else { Seq::empty() }) }
pub open spec fn astr(a: Alternation) -> Seq<int> decreases a, 2int { join_from(astrs(a), seq![32int, 47, 32], 0) }
// what may follow a printed element; a concatenation; an alternation
pub open spec fn stop(t: Seq<int>) -> bool { t.len() == 0 || t[0] == 32 || t[0] == 41 || t[0] == 93 }
pub open spec fn cstop(t: Seq<int>) -> bool { stop(t) && (t.len() > 0 && t[0] == 32 ==> t.len() > 1 && t[1] == 47) }
pub open spec fn astop(t: Seq<int>) -> bool { stop(t) && (t.len() > 0 ==> t[0] != 32) }
// how a printed element begins
pub open spec fn lead(c: int) -> bool { is_alpha(c) || c == 40 || c == 91 || c == 34 || c == 37 || c == 60 }
pub proof fn el_lead(e: ElemItf) requires wf_el(e), ensures estr(e).len() >= 1, lead(estr(e)[0]), {}
pub proof fn at_plus(a: Seq<int>, s: Seq<int>, i: int) requires 0 <= i < a.len(), ensures (a + s)[i] == a[i] {}
// cancelling
pub proof fn cancel(u: Seq<int>, a: Seq<int>, b: Seq<int>) requires u + a == u + b, ensures a == b,
{ let n = u.len() as int; assert((u + a).subrange(n, n + a.len()) =~= a); assert((u + a).len() == n + a.len()); assert((u + b).len() == n + b.len()); assert((u + b).subrange(n, n + b.len()) =~= b); }
pub proof fn assoc(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures (a + b) + c =~= a + (b + c) {}
// two texts over a class of characters, each followed by something outside it
pub proof fn cut_name(a: Seq<int>, b: Seq<int>, s: Seq<int>, t: Seq<int>)
  requires forall|i: int| 0 <= i < a.len() ==> name_char(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> name_char(#[trigger] b[i]), stop(s), stop(t), a + s == b + t, ensures a == b,
{
  let z = a + s; let y = b + t;
  if a.len() < b.len() { assert(z[a.len() as int] == s[0]); assert(y[a.len() as int] == b[a.len() as int]); }
  if b.len() < a.len() { assert(y[b.len() as int] == t[0]); assert(z[b.len() as int] == a[b.len() as int]); }
  assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(z[i] == y[i]); } assert(a =~= b);
}
pub open spec fn isdig(c: int) -> bool { 48 <= c <= 57 }
pub proof fn cut_dig(a: Seq<int>, b: Seq<int>, s: Seq<int>, t: Seq<int>)
  requires forall|i: int| 0 <= i < a.len() ==> isdig(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> isdig(#[trigger] b[i]), s.len() == 0 || !isdig(s[0]), t.len() == 0 || !isdig(t[0]), a + s == b + t, ensures a == b, s == t,
{
  let z = a + s; let y = b + t;
  if a.len() < b.len() { assert(z[a.len() as int] == s[0]); assert(y[a.len() as int] == b[a.len() as int]); }
  if b.len() < a.len() { assert(y[b.len() as int] == t[0]); assert(z[b.len() as int] == a[b.len() as int]); }
  assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(z[i] == y[i]); } assert(a =~= b); cancel(a, s, t);
}
// quoted characters
pub proof fn strs_cons(v: Seq<int>) requires v.len() > 0, ensures utf8_strs(v) =~= enc(v[0]) + utf8_strs(v.subrange(1, v.len() as int)),
{ hide(enc); let c = seq![v[0]]; let r = v.subrange(1, v.len() as int); assert(v =~= c + r); strs_split(c, r); assert(c =~= Seq::<int>::empty().push(v[0])); strs_push(Seq::<int>::empty(), v[0]); }
pub proof fn enc_first(c: int) requires is_scalar(c), c != 0x22, ensures enc(c).len() >= 1, enc(c)[0] != 0x22 {}
pub proof fn cut_chars(a: Seq<int>, b: Seq<int>, s: Seq<int>, t: Seq<int>)
  requires forall|k: int| 0 <= k < a.len() ==> is_scalar(#[trigger] a[k]) && a[k] != 0x22, forall|k: int| 0 <= k < b.len() ==> is_scalar(#[trigger] b[k]) && b[k] != 0x22,
    utf8_strs(a) + (seq![34int] + s) == utf8_strs(b) + (seq![34int] + t),
  ensures a == b, decreases a.len(),
{
  hide(enc);
  let q = seq![34int] + s; let r = seq![34int] + t; let z = utf8_strs(a) + q; let y = utf8_strs(b) + r;
  if a.len() > 0 && b.len() > 0 {
    strs_cons(a); strs_cons(b); let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
    let x = enc(a[0]); let w = enc(b[0]); enc_first(a[0]); enc_first(b[0]);
    assert(z =~= x + (utf8_strs(a1) + q)); assert(y =~= w + (utf8_strs(b1) + r));
    assert(z.subrange(0, x.len() as int) =~= x); assert(y.subrange(0, w.len() as int) =~= w);
    assert(has_at(z, 0, x)); assert(has_at(z, 0, w)); enc_unique(z, 0, a[0], b[0]);
    cancel(x, utf8_strs(a1) + q, utf8_strs(b1) + r);
    assert forall|k: int| 0 <= k < a1.len() implies is_scalar(#[trigger] a1[k]) && a1[k] != 0x22 by { assert(a1[k] == a[k + 1]); }
    assert forall|k: int| 0 <= k < b1.len() implies is_scalar(#[trigger] b1[k]) && b1[k] != 0x22 by { assert(b1[k] == b[k + 1]); }
    cut_chars(a1, b1, s, t);
    assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1);
  } else if a.len() > 0 { strs_cons(a); enc_first(a[0]); assert(utf8_strs(b) =~= Seq::<int>::empty()); assert(z[0] == enc(a[0])[0]); assert(y[0] == 34); }
  else if b.len() > 0 { strs_cons(b); enc_first(b[0]); assert(utf8_strs(a) =~= Seq::<int>::empty()); assert(y[0] == enc(b[0])[0]); assert(z[0] == 34); }
  else { assert(a =~= b); }
}
// prose
pub proof fn flat_one(s: Seq<Seq<int>>, n: int)
  requires 0 <= n <= s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).len() == 1, ensures flat(s, n).len() == n, forall|k: int| 0 <= k < n ==> #[trigger] flat(s, n)[k] == s[k][0], decreases n,
{ if n > 0 { flat_one(s, n - 1); } }
pub proof fn cut_prose(a: Seq<Seq<int>>, b: Seq<Seq<int>>, s: Seq<int>, t: Seq<int>)
  requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).len() == 1 && a[k][0] != 0x3E, forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).len() == 1 && b[k][0] != 0x3E,
    flat(a, a.len() as int) + (seq![62int] + s) == flat(b, b.len() as int) + (seq![62int] + t),
  ensures a == b,
{
  flat_one(a, a.len() as int); flat_one(b, b.len() as int);
  let z = flat(a, a.len() as int) + (seq![62int] + s); let y = flat(b, b.len() as int) + (seq![62int] + t);
  if a.len() < b.len() { assert(z[a.len() as int] == 62); assert(y[a.len() as int] == b[a.len() as int][0]); }
  if b.len() < a.len() { assert(y[b.len() as int] == 62); assert(z[b.len() as int] == a[b.len() as int][0]); }
  assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(z[i] == a[i][0]); assert(y[i] == b[i][0]); assert(a[i] =~= b[i]); }
  assert(a =~= b);
}
// numbers
pub open spec fn word(s: Seq<int>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_alpha(#[trigger] s[i]) || isdig(s[i]) }
pub open spec fn sepc(c: int) -> bool { c == 45 || c == 46 }
pub proof fn cut_words(a: Seq<Seq<int>>, p: int, i: int, b: Seq<Seq<int>>, q: int, j: int, s: Seq<int>, t: Seq<int>)
  requires 0 <= i < a.len(), 0 <= j < b.len(), sepc(p), sepc(q), forall|k: int| 0 <= k < a.len() ==> word(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> word(#[trigger] b[k]), stop(s), stop(t),
    join_from(a, seq![p], i) + s == join_from(b, seq![q], j) + t,
  ensures a.subrange(i, a.len() as int) == b.subrange(j, b.len() as int), i < a.len() - 1 ==> p == q,
  decreases a.len() - i,
{
  let x = a[i]; let w = b[j]; let f = join_from(a, seq![p], i); let g = join_from(b, seq![q], j);
  let u = if i == a.len() - 1 { s } else { (seq![p] + join_from(a, seq![p], i + 1)) + s };
  let v = if j == b.len() - 1 { t } else { (seq![q] + join_from(b, seq![q], j + 1)) + t };
  assert(f + s =~= x + u); assert(g + t =~= w + v);
  assert(u.len() > 0 ==> u[0] == 32 || u[0] == 41 || u[0] == 93 || u[0] == p); assert(v.len() > 0 ==> v[0] == 32 || v[0] == 41 || v[0] == 93 || v[0] == q);
  assert(word(x) && word(w));
  let z = x + u; let y = w + v;
  if x.len() < w.len() { assert(z[x.len() as int] == u[0]); assert(y[x.len() as int] == w[x.len() as int]); }
  if w.len() < x.len() { assert(y[w.len() as int] == v[0]); assert(z[w.len() as int] == x[w.len() as int]); }
  assert forall|k: int| 0 <= k < x.len() implies x[k] == w[k] by { assert(z[k] == y[k]); } assert(x =~= w);
  cancel(x, u, v);
  let sa = a.subrange(i, a.len() as int); let sb = b.subrange(j, b.len() as int);
  if i < a.len() - 1 && j < b.len() - 1 {
    assert(u[0] == p && v[0] == q);
    assert(u =~= seq![p] + (join_from(a, seq![p], i + 1) + s)); assert(v =~= seq![p] + (join_from(b, seq![q], j + 1) + t));
    cancel(seq![p], join_from(a, seq![p], i + 1) + s, join_from(b, seq![q], j + 1) + t);
    cut_words(a, p, i + 1, b, q, j + 1, s, t);
    assert(sa =~= seq![a[i]] + a.subrange(i + 1, a.len() as int)); assert(sb =~= seq![b[j]] + b.subrange(j + 1, b.len() as int));
  } else if i < a.len() - 1 { assert(u[0] == p); assert(v == t); } else if j < b.len() - 1 { assert(v[0] == q); assert(u == s); }
  else { assert(sa =~= sb); }
}
pub proof fn cut_num(x: ElemNumVal, y: ElemNumVal, s: Seq<int>, t: Seq<int>)
  requires wf_el(ElemItf::ElemNumVal(x)), wf_el(ElemItf::ElemNumVal(y)), stop(s), stop(t), estr(ElemItf::ElemNumVal(x)) + s == estr(ElemItf::ElemNumVal(y)) + t,
  ensures x == y,
{
  let p = if x.Status == 1 { 45int } else { 46int }; let q = if y.Status == 1 { 45int } else { 46int };
  let f = join_from(x.Elems, seq![p], 0); let g = join_from(y.Elems, seq![q], 0);
  let z = estr(ElemItf::ElemNumVal(x)) + s; let w = estr(ElemItf::ElemNumVal(y)) + t;
  assert(z[1] == x.Base[0] && w[1] == y.Base[0]); assert(x.Base =~= y.Base);
  assert(z =~= (seq![37int] + x.Base) + (f + s)); assert(w =~= (seq![37int] + x.Base) + (g + t));
  cancel(seq![37int] + x.Base, f + s, g + t);
  assert forall|k: int| 0 <= k < x.Elems.len() implies word(#[trigger] x.Elems[k]) by { assert(nv_ok(x.Elems[k], x.Base)); assert forall|i: int| 0 <= i < x.Elems[k].len() implies is_alpha(#[trigger] x.Elems[k][i]) || isdig(x.Elems[k][i]) by { assert(0 <= digit(x.Elems[k][i]) < 16); } }
  assert forall|k: int| 0 <= k < y.Elems.len() implies word(#[trigger] y.Elems[k]) by { assert(nv_ok(y.Elems[k], y.Base)); assert forall|i: int| 0 <= i < y.Elems[k].len() implies is_alpha(#[trigger] y.Elems[k][i]) || isdig(y.Elems[k][i]) by { assert(0 <= digit(y.Elems[k][i]) < 16); } }
  cut_words(x.Elems, p, 0, y.Elems, q, 0, s, t);
  assert(x.Elems.subrange(0, x.Elems.len() as int) =~= x.Elems); assert(y.Elems.subrange(0, y.Elems.len() as int) =~= y.Elems);
}
// the main argument: a printed construct followed by what may follow it determines the construct
pub proof fn cut_brk(x: Alternation, w: Alternation, o: int, c: int, s: Seq<int>, t: Seq<int>)
  requires wf_alt(x), wf_alt(w), c == 41 || c == 93, (seq![o] + astr(x) + seq![c]) + s == (seq![o] + astr(w) + seq![c]) + t, ensures x == w, decreases x, 1int, 0int,
{
  let z = (seq![o] + astr(x) + seq![c]) + s; let y = (seq![o] + astr(w) + seq![c]) + t;
  assert(z =~= seq![o] + (astr(x) + (seq![c] + s))); assert(y =~= seq![o] + (astr(w) + (seq![c] + t)));
  cancel(seq![o], astr(x) + (seq![c] + s), astr(w) + (seq![c] + t));
  cut_alt(x, 0, w, 0, seq![c] + s, seq![c] + t);
  whole_alt(x, w);
}
pub proof fn cut_chr(x: ElemCharVal, w: ElemCharVal, s: Seq<int>, t: Seq<int>)
  requires wf_el(ElemItf::ElemCharVal(x)), wf_el(ElemItf::ElemCharVal(w)), estr(ElemItf::ElemCharVal(x)) + s == estr(ElemItf::ElemCharVal(w)) + t, ensures x == w,
{
  let z = estr(ElemItf::ElemCharVal(x)) + s; let y = estr(ElemItf::ElemCharVal(w)) + t;
  if x.Sensitive { assert(z[0] == 37); } else { assert(z[0] == 34); }
  if w.Sensitive { assert(y[0] == 37); } else { assert(y[0] == 34); }
  assert(x.Sensitive == w.Sensitive);
  let p = if x.Sensitive { seq![37int, 115, 34] } else { seq![34int] };
  let u = utf8_strs(x.Values) + (seq![34int] + s); let v = utf8_strs(w.Values) + (seq![34int] + t);
  assert(z =~= p + u); assert(y =~= p + v); cancel(p, u, v); cut_chars(x.Values, w.Values, s, t);
}
pub proof fn cut_pro(x: ElemProseVal, w: ElemProseVal, s: Seq<int>, t: Seq<int>)
  requires wf_el(ElemItf::ElemProseVal(x)), wf_el(ElemItf::ElemProseVal(w)), estr(ElemItf::ElemProseVal(x)) + s == estr(ElemItf::ElemProseVal(w)) + t, ensures x == w,
{
  let u = flat(x.values, x.values.len() as int) + (seq![62int] + s); let v = flat(w.values, w.values.len() as int) + (seq![62int] + t);
  assert(estr(ElemItf::ElemProseVal(x)) + s =~= seq![60int] + u); assert(estr(ElemItf::ElemProseVal(w)) + t =~= seq![60int] + v); cancel(seq![60int], u, v); cut_prose(x.values, w.values, s, t);
}
// the kind of a printed element, from its first two characters
pub open spec fn ekind(e: ElemItf) -> int { match e { ElemItf::ElemRulename(x) => 1, ElemItf::ElemGroup(x) => 2, ElemItf::ElemOption(x) => 3, ElemItf::ElemCharVal(x) => 4, ElemItf::ElemNumVal(x) => 5, ElemItf::ElemProseVal(x) => 6, _ => 0 } }
pub open spec fn kind_of(z: Seq<int>) -> int { if z[0] == 40 { 2 } else if z[0] == 91 { 3 } else if z[0] == 34 { 4 } else if z[0] == 60 { 6 } else if z[0] == 37 { if z[1] == 115 { 4 } else { 5 } } else { 1 } }
pub proof fn el_kind(e: ElemItf, s: Seq<int>) requires wf_el(e), ensures kind_of(estr(e) + s) == ekind(e),
{
  let z = estr(e) + s; el_lead(e); assert(z[0] == estr(e)[0]);
  match e { ElemItf::ElemCharVal(x) => { if x.Sensitive { assert(z[1] == 115); } }, ElemItf::ElemNumVal(x) => { assert(z[1] == x.Base[0]); }, _ => {} }
}
pub proof fn cut_el(a: ElemItf, b: ElemItf, s: Seq<int>, t: Seq<int>)
  requires wf_el(a), wf_el(b), stop(s), stop(t), estr(a) + s == estr(b) + t, ensures a == b, decreases a, 0int, 0int,
{
  el_kind(a, s); el_kind(b, t); assert(ekind(a) == ekind(b));
  match a {
    ElemItf::ElemRulename(x) => { cut_name(x.Name, b->ElemRulename_0.Name, s, t); },
    ElemItf::ElemGroup(x) => { cut_brk(x.Alternation, b->ElemGroup_0.Alternation, 40, 41, s, t); },
    ElemItf::ElemOption(x) => { cut_brk(x.Alternation, b->ElemOption_0.Alternation, 91, 93, s, t); },
    ElemItf::ElemCharVal(x) => { cut_chr(x, b->ElemCharVal_0, s, t); },
    ElemItf::ElemNumVal(x) => { cut_num(x, b->ElemNumVal_0, s, t); },
    ElemItf::ElemProseVal(x) => { cut_pro(x, b->ElemProseVal_0, s, t); },
    _ => {},
  }
}
pub proof fn rpre_cut(a: Repetition, b: Repetition, s: Seq<int>, t: Seq<int>)
  requires wf_rep(a), wf_rep(b), s.len() > 0, t.len() > 0, lead(s[0]), lead(t[0]), rpre(a) + s == rpre(b) + t, ensures a.Min == b.Min, a.Max == b.Max, s == t,
{
  // digits, then possibly a star and digits
  let e = Seq::<int>::empty();
  let d = if a.Min == a.Max { if a.Min == 1 { e } else { itoa(a.Min) } } else if a.Min != 0 { itoa(a.Min) } else { e };
  let c = if b.Min == b.Max { if b.Min == 1 { e } else { itoa(b.Min) } } else if b.Min != 0 { itoa(b.Min) } else { e };
  let m = if a.Max != -1 { itoa(a.Max) } else { e }; let n = if b.Max != -1 { itoa(b.Max) } else { e };
  let u = if a.Min == a.Max { s } else { seq![42int] + (m + s) };
  let v = if b.Min == b.Max { t } else { seq![42int] + (n + t) };
  assert(rpre(a) + s =~= d + u); assert(rpre(b) + t =~= c + v);
  itoa_facts(a.Min, b.Min); itoa_facts(b.Min, a.Min);
  if a.Max >= 0 && b.Max >= 0 { itoa_facts(a.Max, b.Max); itoa_facts(b.Max, a.Max); }
  if a.Max >= 0 { itoa_facts(a.Max, 0); } if b.Max >= 0 { itoa_facts(b.Max, 0); }
  assert(u.len() > 0 && !isdig(u[0]) && v.len() > 0 && !isdig(v[0]));
  cut_dig(d, c, u, v);
  if a.Min == a.Max { assert(u[0] == s[0]); if b.Min != b.Max { assert(v[0] == 42); } else { assert(a.Min == b.Min) by { if a.Min == 1 { assert(d.len() == 0); } } } }
  else {
    assert(u[0] == 42); if b.Min == b.Max { assert(v[0] == t[0]); }
    assert(u.len() > 0); cancel(seq![42int], m + s, n + t);
    cut_dig(m, n, s, t);
    assert(a.Max == b.Max) by { if a.Max == -1 { assert(m.len() == 0); } else { assert(m.len() > 0); } }
    assert(a.Min == b.Min) by { if a.Min == 0 { assert(d.len() == 0); } else { assert(d.len() > 0); } }
  }
}
pub proof fn cut_rep(a: Repetition, b: Repetition, s: Seq<int>, t: Seq<int>)
  requires wf_rep(a), wf_rep(b), stop(s), stop(t), rstr(a) + s == rstr(b) + t, ensures a == b, decreases a, 0int, 0int,
{
  el_lead(a.Element); el_lead(b.Element);
  let u = estr(a.Element) + s; let v = estr(b.Element) + t;
  assert(rstr(a) + s =~= rpre(a) + u); assert(rstr(b) + t =~= rpre(b) + v);
  rpre_cut(a, b, u, v);
  cut_el(a.Element, b.Element, s, t);
}
pub proof fn rep_lead(r: Repetition) requires wf_rep(r), ensures rstr(r).len() > 0, rstr(r)[0] != 47, rstr(r)[0] != 32,
{
  el_lead(r.Element); itoa_facts(r.Min, 0); let d = rpre(r);
  if d.len() > 0 { assert(rstr(r)[0] == d[0]); if r.Min == r.Max || r.Min != 0 { assert(d[0] == itoa(r.Min)[0]); } else { assert(d[0] == 42); } } else { assert(rstr(r) =~= estr(r.Element)); }
}
pub proof fn cut_cat(c: Concatenation, i: int, d: Concatenation, j: int, s: Seq<int>, t: Seq<int>)
  requires 0 <= i < c.Repetitions.len(), 0 <= j < d.Repetitions.len(), wf_cat(c), wf_cat(d), cstop(s), cstop(t), join_from(cstrs(c), seq![32int], i) + s == join_from(cstrs(d), seq![32int], j) + t,
  ensures c.Repetitions.subrange(i, c.Repetitions.len() as int) == d.Repetitions.subrange(j, d.Repetitions.len() as int), s == t, decreases c, 0int, c.Repetitions.len() - i,
{
  let a = cstrs(c); let b = cstrs(d); let x = rstr(c.Repetitions[i]); let w = rstr(d.Repetitions[j]);
  assert(a[i] == x); assert(b[j] == w);
  let nx = join_from(a, seq![32int], i + 1); let nw = join_from(b, seq![32int], j + 1);
  let u = if i == a.len() - 1 { s } else { seq![32int] + (nx + s) };
  let v = if j == b.len() - 1 { t } else { seq![32int] + (nw + t) };
  assert(join_from(a, seq![32int], i) + s =~= x + u); assert(join_from(b, seq![32int], j) + t =~= w + v);
  assert(stop(u) && stop(v));
  cut_rep(c.Repetitions[i], d.Repetitions[j], u, v);
  cancel(x, u, v);
  let sa = c.Repetitions.subrange(i, c.Repetitions.len() as int); let sb = d.Repetitions.subrange(j, d.Repetitions.len() as int);
  if i < a.len() - 1 { rep_lead(c.Repetitions[i + 1]); assert(a[i + 1] == rstr(c.Repetitions[i + 1])); assert(nx.len() > 0 && nx[0] == a[i + 1][0]); assert(u[0] == 32 && u[1] == nx[0]); }
  if j < b.len() - 1 { rep_lead(d.Repetitions[j + 1]); assert(b[j + 1] == rstr(d.Repetitions[j + 1])); assert(nw.len() > 0 && nw[0] == b[j + 1][0]); assert(v[0] == 32 && v[1] == nw[0]); }
  if i < a.len() - 1 && j < b.len() - 1 {
    cancel(seq![32int], nx + s, nw + t);
    cut_cat(c, i + 1, d, j + 1, s, t);
    assert(sa =~= seq![c.Repetitions[i]] + c.Repetitions.subrange(i + 1, c.Repetitions.len() as int)); assert(sb =~= seq![d.Repetitions[j]] + d.Repetitions.subrange(j + 1, d.Repetitions.len() as int));
  } else if i < a.len() - 1 { assert(v == t); } else if j < b.len() - 1 { assert(u == s); } else { assert(sa =~= sb); }
}
pub proof fn cut_alt(x: Alternation, i: int, y: Alternation, j: int, s: Seq<int>, t: Seq<int>)
  requires 0 <= i < x.Concatenations.len(), 0 <= j < y.Concatenations.len(), wf_alt(x), wf_alt(y), astop(s), astop(t), join_from(astrs(x), seq![32int, 47, 32], i) + s == join_from(astrs(y), seq![32int, 47, 32], j) + t,
  ensures x.Concatenations.subrange(i, x.Concatenations.len() as int) == y.Concatenations.subrange(j, y.Concatenations.len() as int), decreases x, 0int, x.Concatenations.len() - i,
{
  wf_cats(x); wf_cats(y); let sep = seq![32int, 47, 32];
  let a = astrs(x); let b = astrs(y); let c = x.Concatenations[i]; let d = y.Concatenations[j];
  assert(a[i] == cstr(c)); assert(b[j] == cstr(d));
  let nx = join_from(a, sep, i + 1); let nw = join_from(b, sep, j + 1);
  let u = if i == a.len() - 1 { s } else { sep + (nx + s) };
  let v = if j == b.len() - 1 { t } else { sep + (nw + t) };
  assert(join_from(a, sep, i) + s =~= cstr(c) + u); assert(join_from(b, sep, j) + t =~= cstr(d) + v);
  assert(wf_cat(c) && wf_cat(d));
  assert(cstop(u) && cstop(v));
  cut_cat(c, 0, d, 0, u, v);
  assert(c.Repetitions.subrange(0, c.Repetitions.len() as int) =~= c.Repetitions); assert(d.Repetitions.subrange(0, d.Repetitions.len() as int) =~= d.Repetitions);
  assert(c == d);
  let sa = x.Concatenations.subrange(i, x.Concatenations.len() as int); let sb = y.Concatenations.subrange(j, y.Concatenations.len() as int);
  if i < a.len() - 1 { assert(u[0] == 32); } if j < b.len() - 1 { assert(v[0] == 32); }
  if i < a.len() - 1 && j < b.len() - 1 {
    cancel(sep, nx + s, nw + t);
    cut_alt(x, i + 1, y, j + 1, s, t);
    assert(sa =~= seq![c] + x.Concatenations.subrange(i + 1, x.Concatenations.len() as int)); assert(sb =~= seq![d] + y.Concatenations.subrange(j + 1, y.Concatenations.len() as int));
  } else if i < a.len() - 1 { assert(v == t); } else if j < b.len() - 1 { assert(u == s); } else { assert(sa =~= sb); }
}
pub proof fn whole_alt(x: Alternation, y: Alternation)
  requires x.Concatenations.subrange(0, x.Concatenations.len() as int) == y.Concatenations.subrange(0, y.Concatenations.len() as int), ensures x == y,
{ assert(x.Concatenations.subrange(0, x.Concatenations.len() as int) =~= x.Concatenations); assert(y.Concatenations.subrange(0, y.Concatenations.len() as int) =~= y.Concatenations); }
// printing is injective on well-formed syntax trees
pub proof fn estr_inj(a: ElemItf, b: ElemItf) requires wf_el(a), wf_el(b), estr(a) == estr(b), ensures a == b,
{ let e = Seq::<int>::empty(); cut_el(a, b, e, e); }
pub proof fn rstr_inj(a: Repetition, b: Repetition) requires wf_rep(a), wf_rep(b), rstr(a) == rstr(b), ensures a == b,
{ let e = Seq::<int>::empty(); cut_rep(a, b, e, e); }
pub proof fn astr_inj(a: Alternation, b: Alternation) requires wf_alt(a), wf_alt(b), astr(a) == astr(b), ensures a == b,
{ let e = Seq::<int>::empty(); assert(astr(a) + e =~= astr(a)); assert(astr(b) + e =~= astr(b)); cut_alt(a, 0, b, 0, e, e); whole_alt(a, b); }
