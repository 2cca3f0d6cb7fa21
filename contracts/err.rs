// ---- err.rs: where a parse error points ----
pub open spec fn lines(s: Seq<int>, n: int) -> int decreases n { if n <= 0 { 1 } else { lines(s, n - 1) + if s[n - 1] == 10 { 1int } else { 0 } } }
pub open spec fn column(s: Seq<int>, n: int) -> int decreases n { if n <= 0 { 1 } else if s[n - 1] == 10 { 1 } else { column(s, n - 1) + 1 } }
pub open spec fn shown(b: int) -> Seq<int> {
  if b == 13 { seq![37int, 120, 48, 68, 32, 40, 67, 82, 41] } else if b == 10 { seq![37int, 120, 48, 65, 32, 40, 76, 70, 41] }
  else if b == 9 { seq![37int, 120, 48, 57, 32, 40, 72, 84, 65, 66, 41] } else if b == 32 { seq![37int, 120, 50, 48, 32, 40, 83, 80, 41] }
  else if 0x20 <= b < 0x7F { go_quote(seq![b]) } else { seq![37int, 120] + hex02(b) }
}
// the error describes offset `at` of the input
pub open spec fn points(e: ParseError, input: Seq<int>, at: int) -> bool {
  e.Offset == at && e.Line == lines(input, at) && e.Col == column(input, at)
  && (if at < input.len() { e.Found == shown(input[at]) } else { e.Found == seq![69int, 79, 70] })
  && (e.Hint.len() > 0 <==> at < input.len() && input[at] == 10 && (at == 0 || input[at - 1] != 13))
}
