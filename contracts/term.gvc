//@ types ssym slotGrammar sgNT
//@ trusted utf8.DecodeRune(p) (r, size)
//@   ensures decodes(p, r, size)
//@ func runeMin(r) (m)
//@   ensures m == ascii_lower(r)
//@ func runeMax(r) (m)
//@   ensures m == ascii_upper(r)
//@ func sensequal(target, actual, sensitive) (ok)
//@   ensures ok <==> fold_eq(target, actual, sensitive)
//@ func gllParser.matchTerm(nn p, s, i) (j)
//@   requires 0 <= i <= p.input.len() && (s.kind != 2 && is_term(s.term) ==> wf_el(s.term))
//@   ensures s.kind == 2 ==> j == i
//@   ensures s.kind != 2 && j != -1 ==> term_at(s.term, p.input, i, j)
//@   ensures s.kind != 2 ==> (forall|q: int| #[trigger] term_at(s.term, p.input, i, q) ==> q == j)
//@   ensures j == -1 || i <= j <= p.input.len()
//@   ghost entry : if is_term(s.term) { pre_start(s.term, p.input, i); if s.term is ElemNumVal && s.term->ElemNumVal_0.Status == 1 { range_step(s.term, p.input, i); } } else { term_none(s.term, p.input, i); }
//@   loop 1 invariant 0 <= k && pre_at(s.term, k, p.input, i, idx)
//@   loop 1 head decode_step(s.term, k, p.input, i, idx);
//@   loop 1 exit pre_done(s.term, k, p.input, i, idx);
//@   loop 2 invariant 0 <= k && pre_at(s.term, k, p.input, i, idx)
//@   loop 2 head series_step(s.term, v, k, p.input, i, idx); enc_len(nval(v.Elems[k], v.Base)); assert(nv_ok(v.Elems[k], v.Base));
//@   loop 2 exit pre_done(s.term, k, p.input, i, idx);
//@ func bsrParser.matchTerm(nn p, s, i) (j)
//@   requires 0 <= i <= p.input.len() && (s.kind != 2 && is_term(s.term) ==> wf_el(s.term))
//@   ensures s.kind == 2 ==> j == i
//@   ensures s.kind != 2 && j != -1 ==> term_at(s.term, p.input, i, j)
//@   ensures s.kind != 2 ==> (forall|q: int| #[trigger] term_at(s.term, p.input, i, q) ==> q == j)
//@   ensures j == -1 || i <= j <= p.input.len()
//@   ghost entry : if is_term(s.term) { pre_start(s.term, p.input, i); if s.term is ElemNumVal && s.term->ElemNumVal_0.Status == 1 { range_step(s.term, p.input, i); } } else { term_none(s.term, p.input, i); }
//@   loop 1 invariant 0 <= k && pre_at(s.term, k, p.input, i, idx)
//@   loop 1 head decode_step(s.term, k, p.input, i, idx);
//@   loop 1 exit pre_done(s.term, k, p.input, i, idx);
//@   loop 2 invariant 0 <= k && pre_at(s.term, k, p.input, i, idx)
//@   loop 2 head series_step(s.term, v, k, p.input, i, idx); enc_len(nval(v.Elems[k], v.Base)); assert(nv_ok(v.Elems[k], v.Base));
//@   loop 2 exit pre_done(s.term, k, p.input, i, idx);
