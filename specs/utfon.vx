//@ raw
// =====================================================================================
// UTF-8 (this file belongs to the unit utf8; in the other units utfoff.vx stands for it)
// =====================================================================================
pub mod vx_utf { use super::vx_chars::*; use super::vx_lemmas::*; use super::vx_text::*; use super::vx_usv::*; use vstd::prelude::*; use vstd::utf8::*;
/// the bytes are valid UTF-8
pub open spec fn u8ok(t: Seq<u8>) -> bool { valid_utf8(t) }
/// an ASCII character
pub open spec fn asc(c: u8) -> bool { c < 0x80 }
pub open spec fn cont(b: u8) -> bool { 0x80 <= b < 0xC0 }
/// a character boundary of a valid text
#[verifier::opaque]
pub open spec fn bnd(d: Seq<u8>, p: int) -> bool { valid_utf8(d) && 0 <= p <= d.len() && !cont(pk(d, p)) }
/// what is next to an ASCII character is one
pub broadcast proof fn lemma_bnd_at(d: Seq<u8>, p: int)
    requires u8ok(d), 0 <= p <= d.len(), p == 0 || pk(d, p) < 0x80 || pk(d, p - 1) < 0x80
    ensures #[trigger] bnd(d, p)
{ if pk(d, p) < 0x80 { reveal(bnd); } else if p == 0 { lemma_first(d); } else { lemma_bnd_next(d, p - 1); } }
proof fn lemma_bnd_near(d: Seq<u8>, o: int, p: int)
    requires bnd(d, o), 0 <= p <= d.len(), p == 0 || pk(d, p) < 0x80 || pk(d, p - 1) < 0x80
    ensures bnd(d, p)
{ assert(valid_utf8(d)) by { reveal(bnd); } lemma_bnd_at(d, p); }
pub proof fn lemma_bnd_start(d: Seq<u8>)
    requires valid_utf8(d)
    ensures bnd(d, 0)
{ lemma_first(d); }
pub proof fn lemma_u8_str(t: Seq<char>)
    ensures u8ok(encode_utf8(t))
{ encode_utf8_valid_utf8(t); }
proof fn lemma_first(d: Seq<u8>)
    requires valid_utf8(d)
    ensures bnd(d, 0)
{
    reveal(bnd);
    if d.len() > 0 { is_char_boundary_start_end_of_seq(d); lemma_cont(d[0]); is_char_boundary_iff_not_is_continuation_byte(d, 0); }
}
proof fn lemma_cont(b: u8)
    ensures is_continuation_byte(b) <==> cont(b)
{ assert((b & 0xC0u8) == 0x80u8 <==> 0x80 <= b < 0xC0) by(bit_vector); }
proof fn lemma_bnd(d: Seq<u8>, p: int)
    requires valid_utf8(d), 0 <= p <= d.len()
    ensures bnd(d, p) <==> is_char_boundary(d, p)
{ reveal(bnd); if p < d.len() { lemma_cont(d[p]); is_char_boundary_iff_not_is_continuation_byte(d, p); } else { is_char_boundary_start_end_of_seq(d); } }
/// a continuation byte follows a byte that is not ASCII
proof fn lemma_bnd_next(d: Seq<u8>, p: int)
    requires valid_utf8(d), 0 <= p < d.len(), d[p] < 0x80
    ensures bnd(d, p + 1)
{
    assert(bnd(d, p)) by { reveal(bnd); }
    lemma_bnd(d, p); valid_utf8_split(d, p);
    let e = d.subrange(p, d.len() as int);
    assert(e[0] == d[p]);
    assert(length_of_first_scalar(e) == 1);
    let f = pop_first_scalar(e);
    assert(valid_utf8(f));
    if f.len() > 0 { is_char_boundary_start_end_of_seq(f); lemma_cont(f[0]); is_char_boundary_iff_not_is_continuation_byte(f, 0); assert(f[0] == d[p + 1]); }
    reveal(bnd);
}
/// what stands between two boundaries
pub proof fn lemma_u8_sub(d: Seq<u8>, p: int, q: int)
    requires bnd(d, p), bnd(d, q), p <= q
    ensures u8ok(d.subrange(p, q))
{
    assert(valid_utf8(d) && 0 <= p && q <= d.len()) by { reveal(bnd); }
    lemma_bnd(d, q); valid_utf8_split(d, q);
    let e = d.subrange(0, q);
    assert(valid_utf8(e));
    assert(bnd(e, p)) by { reveal(bnd); if p < q { assert(e[p] == d[p]); } }
    lemma_bnd(e, p); valid_utf8_split(e, p);
    assert(e.subrange(p, q) =~= d.subrange(p, q));
}
pub proof fn lemma_u8_add(a: Seq<u8>, b: Seq<u8>)
    requires u8ok(a), u8ok(b)
    ensures u8ok(a + b)
{ valid_utf8_concat(a, b); }
pub open spec fn ascii(a: Seq<u8>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < 0x80 }
pub proof fn lemma_u8_ascii(a: Seq<u8>)
    requires ascii(a)
    ensures u8ok(a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = pop_first_scalar(a);
        assert(a[0] < 0x80); assert(length_of_first_scalar(a) == 1); assert(b =~= a.subrange(1, a.len() as int));
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0x80 by { assert(a[i + 1] < 0x80); }
        lemma_u8_ascii(b);
    }
}
pub proof fn lemma_u8_push(a: Seq<u8>, b: u8)
    requires u8ok(a), b < 0x80
    ensures u8ok(a.push(b))
{ lemma_u8_ascii(seq![b]); lemma_u8_add(a, seq![b]); assert(a + seq![b] =~= a.push(b)); }
proof fn lemma_u8_char(c: char)
    ensures u8ok(encode_utf8(seq![c]))
{ encode_utf8_valid_utf8(seq![c]); }
proof fn lemma_u8_newlines(n: int)
    ensures u8ok(newlines(n))
{ lemma_u8_ascii(newlines(n)); }
// ---- tags ----
proof fn lemma_u8_uri(d: Seq<u8>, p: int, tag: bool)
    ensures uri_text(d, p, tag) matches Some(t) ==> u8ok(t)
    decreases d.len() - p
{
    reveal_with_fuel(uri_text, 1);
    if p < 0 || p >= d.len() || !uri_class(d[p], tag) { lemma_u8_ascii(Seq::empty()); }
    else if d[p] == 0x25 {
        if let Some((c, n)) = uri_at(d, p) { if n > 0 { lemma_u8_uri(d, p + 3 * n, tag); lemma_u8_char(c); if let Some(t) = uri_text(d, p + 3 * n, tag) { lemma_u8_add(encode_utf8(seq![c]), t); } } }
    } else { lemma_u8_uri(d, p + 1, tag); lemma_u8_ascii(seq![d[p]]); if let Some(t) = uri_text(d, p + 1, tag) { lemma_u8_add(seq![d[p]], t); } }
}
proof fn lemma_alpha_run(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures p <= alpha_end(d, p) <= d.len(), forall|i: int| p <= i < alpha_end(d, p) ==> #[trigger] d[i] < 0x80
    decreases d.len() - p
{ if p < d.len() && sp_alpha(d[p]) { lemma_alpha_run(d, p + 1); } }
pub proof fn lemma_u8_tag(d: Seq<u8>, p: int)
    requires 0 <= p < d.len(), d[p] == 0x21
    ensures tag_at(d, p) matches Some(t) ==> u8ok(t.0) && u8ok(t.1)
{
    lemma_alpha_run(d, p + 1);
    let e = handle_end(d, p);
    lemma_u8_ascii(d.subrange(p, e)); lemma_u8_ascii(d.subrange(p + 1, e)); lemma_u8_ascii(Seq::empty()); lemma_u8_ascii(seq![0x21u8]);
    lemma_u8_uri(d, p + 2, false); lemma_u8_uri(d, e, true);
    if let Some(t) = uri_text(d, e, true) { lemma_u8_add(d.subrange(p + 1, e), t); }
}
// ---- anchors ----
pub proof fn lemma_u8_anchor(d: Seq<u8>, p: int, q: int)
    requires bnd(d, p), 0 <= p <= q <= d.len(), pk(d, q) < 0x80
    ensures u8ok(d.subrange(p, q))
{ lemma_bnd_near(d, p, q); lemma_u8_sub(d, p, q); }
// ---- quoted scalars ----
proof fn lemma_u8_folded(d: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> sp_bob(#[trigger] d[i])
    ensures u8ok(folded(d, p, q))
{ lemma_u8_ascii(folded(d, p, q)); }
/// the first boundary from p on
spec fn nb(d: Seq<u8>, p: int) -> int decreases d.len() - p { if 0 <= p < d.len() && cont(d[p]) { nb(d, p + 1) } else { p } }
proof fn lemma_nb(d: Seq<u8>, p: int)
    requires valid_utf8(d), 0 <= p <= d.len()
    ensures p <= nb(d, p) <= d.len(), bnd(d, nb(d, p)), bnd(d, p) ==> nb(d, p) == p
    decreases d.len() - p
{ reveal(bnd); if p < d.len() && cont(d[p]) { lemma_nb(d, p + 1); } }
/// the bytes up to the first boundary stand in the content, followed by whole characters
proof fn lemma_u8_quoted0(d: Seq<u8>, p: int, single: bool)
    requires valid_utf8(d), 0 <= p <= d.len()
    ensures quoted(d, p, single) matches Some(t) ==> {
        let n = nb(d, p) - p;
        &&& 0 <= n <= t.len() && nb(d, p) <= d.len() && t.subrange(0, n) == d.subrange(p, p + n) && u8ok(t.subrange(n, t.len() as int))
    }
    decreases d.len() - p
{
    reveal_with_fuel(quoted, 1);
    lemma_nb(d, p);
    let e = Seq::<u8>::empty();
    lemma_u8_ascii(e);
    lemma_bnd_start(d);
    if p >= d.len() {}
    else if d[p] < 0x80 {
        assert(nb(d, p) == p);
        if let Some(t) = quoted(d, p, single) {
            assert(t.subrange(0, 0) =~= d.subrange(p, p)); assert(t.subrange(0, t.len() as int) =~= t);
            // t is x followed by the content from r on
            let (x, r): (Seq<u8>, int) =
                if single && d[p] == 0x27 { if pk(d, p + 1) == 0x27 { (seq![0x27u8], p + 2) } else { (e, -1) } }
                else if !single && d[p] == 0x22 { (e, -1) }
                else if !single && d[p] == 0x5C && sp_break(pk(d, p + 1)) { let q = p + 1 + brk_len(d, p + 1); let r = run_end(d, q); (newlines(lines(d, r) - lines(d, q)), r) }
                else if !single && d[p] == 0x5C { let o = escape_at(d, p)->0; (encode_utf8(seq![o.0]), p + o.1) }
                else if sp_bob(d[p]) { let r = run_end(d, p); (folded(d, p, r), r) }
                else { (seq![d[p]], p + 1) };
            if r >= 0 {
                if !single && d[p] == 0x5C && sp_break(pk(d, p + 1)) { let q = p + 1 + brk_len(d, p + 1); lemma_run_end(d, q); lemma_u8_newlines(lines(d, r) - lines(d, q)); assert(pk(d, r - 1) < 0x80); }
                else if !single && d[p] == 0x5C { lemma_u8_char((escape_at(d, p)->0).0); lemma_escape_end(d, p); }
                else if sp_bob(d[p]) { lemma_run_end(d, p); lemma_u8_folded(d, p, r); assert(pk(d, r - 1) < 0x80); }
                else { lemma_u8_ascii(x); }
                assert(u8ok(x));
                assert(r <= d.len() && pk(d, r - 1) < 0x80);
                lemma_bnd_near(d, 0, r);
                lemma_u8_quoted0(d, r, single);
                lemma_nb(d, r);
                let y = quoted(d, r, single)->0;
                assert(y.subrange(0, y.len() as int) =~= y);
                assert(u8ok(y));
                assert(t == x + y);
                lemma_u8_add(x, y);
            } else { assert(t =~= e); }
        }
    } else {
        lemma_u8_quoted0(d, p + 1, single);
        lemma_nb(d, p + 1);
        if let Some(t) = quoted(d, p, single) {
            let y = quoted(d, p + 1, single)->0;
            assert(t =~= seq![d[p]] + y);
            let n = nb(d, p + 1) - (p + 1);
            assert(t.subrange(0, n + 1) =~= d.subrange(p, p + 1 + n)) by {
                assert forall|i: int| 0 <= i < n + 1 implies t[i] == d.subrange(p, p + 1 + n)[i] by { if i > 0 { assert(y.subrange(0, n)[i - 1] == d.subrange(p + 1, p + 1 + n)[i - 1]); } }
            }
            assert(t.subrange(n + 1, t.len() as int) =~= y.subrange(n, y.len() as int));
            if !cont(d[p]) {
                assert(bnd(d, p)) by { reveal(bnd); }
                assert(nb(d, p) == p);
                lemma_u8_sub(d, p, p + 1 + n);
                lemma_u8_add(t.subrange(0, n + 1), t.subrange(n + 1, t.len() as int));
                assert(t.subrange(0, n + 1) + t.subrange(n + 1, t.len() as int) =~= t);
                assert(t.subrange(0, 0) =~= d.subrange(p, p)); assert(t.subrange(0, t.len() as int) =~= t);
            }
        }
    }
}
/// an escape sequence ends with an ASCII character
proof fn lemma_escape_end(d: Seq<u8>, p: int)
    requires 0 <= p < d.len()
    ensures escape_at(d, p) matches Some((c, n)) ==> n > 0 && p + n <= d.len() && pk(d, p + n - 1) < 0x80
{
    if let Some((c, n)) = escape_at(d, p) {
        if letter_escape(pk(d, p + 1)) is Some { assert(0 < pk(d, p + 1) < 0x80); }
        else { let k = code_digits(pk(d, p + 1)); lemma_hexes(d, p + 2, k, k); assert(sp_hex(pk(d, p + 1 + k))); }
    }
}
pub proof fn lemma_u8_quoted(d: Seq<u8>, p: int, single: bool)
    requires bnd(d, p)
    ensures quoted(d, p, single) matches Some(t) ==> u8ok(t)
{
    assert(valid_utf8(d) && 0 <= p <= d.len()) by { reveal(bnd); }
    lemma_u8_quoted0(d, p, single); lemma_nb(d, p);
    if let Some(t) = quoted(d, p, single) { assert(t.subrange(0, t.len() as int) =~= t); }
}
// ---- plain scalars ----
/// the last boundary up to e
spec fn lb(d: Seq<u8>, e: int) -> int decreases e { if 0 < e < d.len() && cont(d[e]) { lb(d, e - 1) } else { e } }
proof fn lemma_lb(d: Seq<u8>, p: int, e: int)
    requires bnd(d, p), p <= e <= d.len()
    ensures p <= lb(d, e) <= e, bnd(d, lb(d, e)), bnd(d, e) ==> lb(d, e) == e
    decreases e
{ reveal(bnd); if 0 < e < d.len() && cont(d[e]) { if e > p { lemma_lb(d, p, e - 1); } } }
proof fn lemma_ws_run(d: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e <= d.len()
    ensures p <= ws_start(d, p, e) <= e, forall|i: int| ws_start(d, p, e) <= i < e ==> sp_bob(#[trigger] d[i])
    decreases e - p
{ if p < e && sp_bob(d[e - 1]) { lemma_ws_run(d, p, e - 1); } }
proof fn lemma_u8_fold0(d: Seq<u8>, p: int, e: int)
    requires bnd(d, p), p <= e <= d.len()
    ensures ({ let t = fold_to(d, p, e); let n = e - lb(d, e);
        p <= lb(d, e) <= e && n <= t.len() && t.subrange(t.len() - n, t.len() as int) == d.subrange(e - n, e) && u8ok(t.subrange(0, t.len() - n)) })
    decreases e - p
{
    reveal_with_fuel(fold_to, 1);
    assert(valid_utf8(d) && 0 <= p <= d.len()) by { reveal(bnd); }
    lemma_lb(d, p, e);
    let t = fold_to(d, p, e);
    let l = t.len() as int;
    lemma_u8_ascii(Seq::empty());
    assert(t.subrange(0, l) =~= t); assert(t.subrange(l, l) =~= d.subrange(e, e));
    if e <= p { assert(t =~= Seq::<u8>::empty()); assert(lb(d, e) == e); }
    else if sp_bob(d[e - 1]) {
        lemma_bnd_near(d, p, e);
        let s = ws_start(d, p, e);
        lemma_ws_run(d, p, e);
        lemma_ws_run(d, p, e - 1);
        assert(s < e);
        assert(sp_bob(d[s]));
        lemma_bnd_near(d, p, s);
        lemma_u8_fold0(d, p, s); lemma_lb(d, p, s);
        let u = fold_to(d, p, s);
        assert(u.subrange(0, u.len() as int) =~= u);
        lemma_u8_folded(d, s, e);
        lemma_u8_add(u, folded(d, s, e));
        assert(t == u + folded(d, s, e));
    } else {
        lemma_u8_fold0(d, p, e - 1); lemma_lb(d, p, e - 1);
        let u = fold_to(d, p, e - 1);
        assert(t == u.push(d[e - 1]));
        if d[e - 1] < 0x80 {
            lemma_bnd_near(d, p, e); lemma_bnd_near(d, p, e - 1);
            assert(u.subrange(0, u.len() as int) =~= u);
            lemma_u8_push(u, d[e - 1]);
        } else {
            let a = lb(d, e - 1);
            let m = e - 1 - a;
            let k = u.len() - m;
            assert(t.subrange(k, l) =~= d.subrange(a, e)) by {
                assert forall|i: int| 0 <= i < m + 1 implies t.subrange(k, l)[i] == d.subrange(a, e)[i] by {
                    if i < m { assert(u.subrange(k, u.len() as int)[i] == d.subrange(a, e - 1)[i]); }
                }
            }
            assert(t.subrange(0, k) =~= u.subrange(0, k));
            if bnd(d, e) {
                lemma_u8_sub(d, a, e);
                lemma_u8_add(t.subrange(0, k), t.subrange(k, l));
                assert(t.subrange(0, k) + t.subrange(k, l) =~= t);
                assert(lb(d, e) == e);
            } else {
                assert(e < d.len() && cont(d[e])) by { reveal(bnd); }
                assert(lb(d, e) == a);
            }
        }
    }
}
pub proof fn lemma_u8_fold(d: Seq<u8>, p: int, e: int)
    requires bnd(d, p), bnd(d, e), p <= e
    ensures u8ok(fold_to(d, p, e))
{
    assert(e <= d.len()) by { reveal(bnd); }
    lemma_u8_fold0(d, p, e); lemma_lb(d, p, e);
    let t = fold_to(d, p, e);
    assert(t.subrange(0, t.len() as int) =~= t);
}
// ---- block scalars ----
proof fn lemma_bnd_line(d: Seq<u8>, p: int, z: bool)
    requires bnd(d, p), 0 <= p <= d.len()
    ensures ({ let e = line_end(d, p, z); let b = e + brk_len(d, e); p <= e <= d.len() && bnd(d, e) && e <= b <= d.len() && bnd(d, b) && (e < d.len() && !z ==> e < b) })
{
    lemma_line_end_in(d, p, z);
    let e = line_end(d, p, z);
    lemma_bnd_near(d, p, e);
    let b = e + brk_len(d, e);
    lemma_bnd_near(d, p, b);
}
proof fn lemma_line_end_in(d: Seq<u8>, p: int, z: bool)
    requires 0 <= p <= d.len()
    ensures ({ let e = line_end(d, p, z); p <= e <= d.len() && (e < d.len() ==> sp_break(d[e]) || z && d[e] == 0) })
    decreases d.len() - p
{ if p < d.len() && !sp_break(d[p]) && !(z && d[p] == 0) { lemma_line_end_in(d, p + 1, z); } }
proof fn lemma_bnd_spaces(d: Seq<u8>, p: int, n: int)
    requires bnd(d, p), 0 <= p <= d.len()
    ensures ({ let s = spaces_to(d, p, n); p <= s <= d.len() && bnd(d, s) })
    decreases d.len() - p
{ if p < d.len() && d[p] == 0x20 && 1 + coln(d, p) < n { lemma_bnd_near(d, p, p + 1); lemma_bnd_spaces(d, p + 1, n); } }
proof fn lemma_bnd_indent(d: Seq<u8>, p: int, n: int)
    requires bnd(d, p), 0 <= p <= d.len()
    ensures ({ let r = indent_end(d, p, n); p <= r <= d.len() && bnd(d, r) })
    decreases d.len() - p
{
    reveal_with_fuel(indent_end, 1);
    lemma_bnd_spaces(d, p, n);
    let s = spaces_to(d, p, n);
    if s < d.len() && sp_break(d[s]) { let b = s + brk_len(d, s); lemma_bnd_near(d, p, b); lemma_bnd_indent(d, b, n); }
}
proof fn lemma_bnd_first(d: Seq<u8>, p: int, m: int)
    requires bnd(d, p), 0 <= p <= d.len()
    ensures ({ let r = first_indent(d, p, m).0; p <= r <= d.len() && bnd(d, r) })
    decreases d.len() - p
{
    reveal_with_fuel(first_indent, 1);
    let c = 1 + coln(d, p);
    let m2 = if c > m { c } else { m };
    if p < d.len() && d[p] == 0x20 { lemma_bnd_near(d, p, p + 1); lemma_bnd_first(d, p + 1, m); }
    else if p < d.len() && sp_break(d[p]) { let b = p + brk_len(d, p); lemma_bnd_near(d, p, b); lemma_bnd_first(d, b, m2); }
}
proof fn lemma_u8_rest(d: Seq<u8>, q: int, n: int, fold: bool, chomp: int, l: bool, k: int, pb: bool)
    requires bnd(d, q), 0 <= q <= d.len()
    ensures u8ok(block_rest(d, q, n, fold, chomp, l, k, pb))
    decreases d.len() - q
{
    reveal_with_fuel(block_rest, 1);
    if block_line(d, q, n) {
        let e = line_end(d, q, false);
        let b = e + brk_len(d, e);
        let r = indent_end(d, b, n);
        lemma_bnd_line(d, q, false);
        lemma_bnd_indent(d, b, n);
        let x = between_lines(fold, l, k, pb, sp_blank(d[q]));
        lemma_u8_ascii(x);
        lemma_u8_sub(d, q, e);
        let z = if e >= d.len() { newlines(if chomp < 0 { 0 } else { 1 }) }
            else if q < r <= d.len() { block_rest(d, r, n, fold, chomp, true, lines(d, r) - lines(d, b), sp_blank(d[q])) }
            else { Seq::empty() };
        if e >= d.len() { lemma_u8_ascii(z); } else if q < r <= d.len() { lemma_u8_rest(d, r, n, fold, chomp, true, lines(d, r) - lines(d, b), sp_blank(d[q])); } else { lemma_u8_ascii(z); }
        lemma_u8_add(d.subrange(q, e), z);
        lemma_u8_add(x, d.subrange(q, e) + z);
    } else { lemma_u8_ascii(chomped(chomp, l, k)); }
}
pub proof fn lemma_u8_block(d: Seq<u8>, h: int, par: int, fold: bool)
    requires bnd(d, h), 0 <= h < d.len(), d[h] < 0x80
    ensures u8ok(block_text(d, h, par, fold))
{
    reveal(block_text); reveal(header);
    let (chomp, inc, he) = header(d, h);
    assert(he <= d.len() && pk(d, he - 1) < 0x80);
    lemma_bnd_near(d, h, he);
    let e = line_end(d, he, true);
    let b = e + brk_len(d, e);
    lemma_bnd_line(d, he, true);
    let f = first_indent(d, b, 0);
    let n = if inc > 0 { par + inc } else if f.1 > par + 1 { f.1 } else { par + 1 };
    lemma_bnd_first(d, b, 0); lemma_bnd_indent(d, b, n);
    let q = if inc > 0 { indent_end(d, b, n) } else { f.0 };
    let k = lines(d, q) - lines(d, b);
    lemma_u8_rest(d, q, n, fold, chomp, false, k, false);
    lemma_u8_newlines(k); lemma_u8_newlines(1); lemma_u8_ascii(Seq::empty());
}
}
pub use vx_utf::*;
broadcast use {vx_utf::lemma_bnd_at};
