// ---- base.rs: arithmetic, strings and UTF-8 as seen by the specifications ----
pub uninterp spec fn havoc<T>(id: int) -> T;
pub uninterp spec fn havoc_like<T>(x: T, id: int) -> T;
pub open spec fn go_min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn go_max(a: int, b: int) -> int { if a >= b { a } else { b } }
// Go's truncated division and remainder
pub open spec fn go_div(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn go_mod(a: int, b: int) -> int { a - b * go_div(a, b) }
pub open spec fn go_copy<T>(d: Seq<T>, s: Seq<T>) -> Seq<T> { Seq::new(d.len(), |i: int| if i < s.len() { s[i] } else { d[i] }) }
pub open spec fn byte_seq(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 255 }
pub open spec fn dec(n: int) -> Seq<int> decreases n { if n < 10 { seq![48 + n] } else { dec(n / 10).push(48 + n % 10) } }
pub open spec fn itoa(n: int) -> Seq<int> { if n < 0 { seq![45int] + dec(-n) } else { dec(n) } }
// two upper-case hexadecimal digits
pub open spec fn hexd(n: int) -> int { if n < 10 { 48 + n } else { 55 + n } }
pub uninterp spec fn hex_wide(n: int) -> Seq<int>;
pub open spec fn hex02(n: int) -> Seq<int> { if 0 <= n < 256 { seq![hexd(n / 16), hexd(n % 16)] } else { hex_wide(n) } }
// lower-case hexadecimal, no leading zeros
pub open spec fn hexld(n: int) -> int { if n < 10 { 48 + n } else { 87 + n } }
pub open spec fn hexld_all(n: int) -> Seq<int> decreases n { if n < 16 { seq![hexld(n)] } else { hexld_all(n / 16).push(hexld(n % 16)) } }
pub open spec fn hexl(n: int) -> Seq<int> { if n < 0 { seq![45int] + hexld_all(-n) } else { hexld_all(n) } }
// fmt's %q (left unspecified: only that it is a function of the text)
pub uninterp spec fn go_quote(s: Seq<int>) -> Seq<int>;
// UTF-8 (Unicode 15, table 3-6); Go encodes anything that is not a scalar value as U+FFFD
pub open spec fn is_scalar(r: int) -> bool { 0 <= r <= 0x10FFFF && !(0xD800 <= r <= 0xDFFF) }
pub open spec fn enc(r: int) -> Seq<int> {
  if !(is_scalar(r)) { seq![0xEFint, 0xBFint, 0xBDint] }
  else if r < 0x80 { seq![r] }
  else if r < 0x800 { seq![0xC0 + r / 64, 0x80 + r % 64] }
  else if r < 0x10000 { seq![0xE0 + r / 4096, 0x80 + (r / 64) % 64, 0x80 + r % 64] }
  else { seq![0xF0 + r / 262144, 0x80 + (r / 4096) % 64, 0x80 + (r / 64) % 64, 0x80 + r % 64] }
}
pub open spec fn utf8_str(r: int) -> Seq<int> { enc(r) }
pub open spec fn utf8_strs(rs: Seq<int>) -> Seq<int> decreases rs.len() {
  if rs.len() == 0 { Seq::empty() } else { utf8_strs(rs.drop_last()) + enc(rs.last()) }
}
pub uninterp spec fn other_runes(s: Seq<int>) -> Seq<int>;
pub open spec fn utf8_runes(s: Seq<int>) -> Seq<int> { if forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 127 { s } else { other_runes(s) } }
// the input holds the encoding of rune r at offset i
pub open spec fn has_at(input: Seq<int>, i: int, w: Seq<int>) -> bool {
  0 <= i && i + w.len() <= input.len() && input.subrange(i, i + w.len()) =~= w
}
// case folding as the library defines it: an upper/lower pair of one ASCII letter
pub open spec fn ascii_lower(r: int) -> int { if 0x41 <= r <= 0x5A { r + 32 } else { r } }
pub open spec fn ascii_upper(r: int) -> int { if 0x61 <= r <= 0x7A { r - 32 } else { r } }
pub open spec fn lower_all(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| ascii_lower(s[i])) }
// bit operations on non-negative operands (others unspecified)
pub uninterp spec fn neg_bits(op: int, a: int, b: int) -> int;
pub open spec fn bit_and(a: int, b: int) -> int decreases a { if a < 0 || b < 0 { neg_bits(1, a, b) } else if a == 0 || b == 0 { 0 } else { (if a % 2 == 1 && b % 2 == 1 { 1int } else { 0 }) + 2 * bit_and(a / 2, b / 2) } }
pub open spec fn bit_or(a: int, b: int) -> int decreases a { if a < 0 || b < 0 { neg_bits(2, a, b) } else if a == 0 { b } else if b == 0 { a } else { (if a % 2 == 1 || b % 2 == 1 { 1int } else { 0 }) + 2 * bit_or(a / 2, b / 2) } }
pub open spec fn bit_xor(a: int, b: int) -> int decreases a { if a < 0 || b < 0 { neg_bits(3, a, b) } else if a == 0 { b } else if b == 0 { a } else { (if a % 2 != b % 2 { 1int } else { 0 }) + 2 * bit_xor(a / 2, b / 2) } }
pub open spec fn pow2(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * pow2(k - 1) } }
pub open spec fn bit_shl(a: int, k: int) -> int { a * pow2(k) }
pub open spec fn bit_shr(a: int, k: int) -> int { a / pow2(k) }
pub proof fn and_bound(a: int, b: int)
  requires 0 <= a, 0 <= b, ensures 0 <= bit_and(a, b) <= b, bit_and(a, b) <= a, decreases a,
{ if a > 0 && b > 0 { and_bound(a / 2, b / 2); } }
pub proof fn or_bound(a: int, b: int)
  requires 0 <= a, 0 <= b, ensures a <= bit_or(a, b), b <= bit_or(a, b), bit_or(a, b) <= a + b, decreases a,
{ if a > 0 && b > 0 { or_bound(a / 2, b / 2); } }
pub proof fn go_mod_bound(a: int, b: int)
  requires a >= 0, b > 0, ensures 0 <= go_mod(a, b) < b, go_mod(a, b) == a % b,
{ assert(a == b * (a / b) + a % b) by (nonlinear_arith) requires b > 0; }
