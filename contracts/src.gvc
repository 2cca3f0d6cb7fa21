//@ opaque source rand.Source rand.Rand
//@ trusted source.intn(s, n) (r)
//@   ensures n <= 1 ==> r == 0
//@   ensures n > 1 ==> 0 <= r < n
//@ trusted rand.Rand.Intn(s, n) (r)
//@   requires n > 0
//@   ensures 0 <= r < n
//@ trusted rand.Source.Int63(s) (r)
//@   ensures 0 <= r <= 0x7FFF_FFFF_FFFF_FFFF
//@ func tapeSource.intn(inout s, n) (r)
//@   requires s.pos >= 0
//@   ensures n <= 1 ==> r == 0
//@   ensures n > 1 ==> 0 <= r < n
//@   ensures new_s.tape == s.tape && new_s.pos >= s.pos
//@   loop 2 invariant v >= 0 && s.tape == s0.tape && s.pos >= s0.pos && s.pos >= 0
//@   loop 2 head assert(bit_shl(v, 8) >= 0) by { reveal_with_fuel(pow2, 10); } if 0 <= s.pos < s.tape.len() && s.tape[s.pos] >= 0 { or_bound(bit_shl(v, 8), s.tape[s.pos]); } or_bound(bit_shl(v, 8), 0);
//@   loop 2 exit go_mod_bound(v, n);
//@ func indexedSource.intn(inout s, n) (r)
//@   requires s.i >= 0
//@   ensures n <= 1 ==> r == 0
//@   ensures n > 1 ==> 0 <= r < n
//@   ensures new_s.tape == s.tape && new_s.i >= s.i
//@   loop 1 invariant v >= 0 && s.tape == s0.tape && s.i == s0.i + 1
//@   loop 1 head assert(bit_shl(v, 8) >= 0) by { reveal_with_fuel(pow2, 10); } if 0 <= off + k < s.tape.len() && s.tape[off + k] >= 0 { or_bound(bit_shl(v, 8), s.tape[off + k]); } or_bound(bit_shl(v, 8), 0);
//@   loop 1 exit go_mod_bound(v, n);
//@ func randSource.intn(s, n) (r)
//@   ensures n <= 1 ==> r == 0
//@   ensures n > 1 ==> 0 <= r < n
