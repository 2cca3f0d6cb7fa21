//@ types ParseError
//@ trusted sort.Strings(inout x)
//@   ensures new_x.to_multiset() == x.to_multiset()
//@ func describeByte(b) (s)
//@   requires 0 <= b <= 255
//@   ensures s =~= shown(b)
//@   ghost entry : assert(enc(b) =~= seq![b] || b >= 0x80);
//@ func newParseError(input, offset, expected) (pe)
//@   requires byte_seq(input)
//@   ensures pe is Some && points(pe->Some_0, input, if offset < 0 { 0 } else if offset > input.len() { input.len() as int } else { offset })
//@   ensures pe->Some_0.Expected.to_multiset() == expected.to_multiset()
//@   loop 1 invariant 0 <= i <= offset <= input.len() && line == lines(input, i) && col == column(input, i)
//@ func ParseError.Unwrap(e) (r)
//@   ensures r == s_ErrNoSolutionFound()
//@ func Forest.ParseError(nn f) (pe)
//@   requires byte_seq(f.input) && 0 <= f.maxPos <= f.input.len()
//@   ensures pe is None <==> f.root != 0
//@   ensures pe is Some ==> points(pe->Some_0, f.input, f.maxPos) && pe->Some_0.Expected.to_multiset() == f.expected.to_multiset()
