//@ raw
// =====================================================================================
// what scalars and escapes say (YAML 1.2, chapters 5.7, 6.5, 7.3)
// =====================================================================================
pub mod vx_text { use super::vx_chars::*; use super::vx_lemmas::*; use super::vx_marks::*; use super::vx_usv::*; use super::vx_str::*; use super::{Token, TokenType, ScalarType}; use vstd::prelude::*; use vstd::utf8::*; use std::borrow::Cow;
/// k hexadecimal digits stand at p
pub open spec fn hexes(d: Seq<u8>, p: int, k: int) -> bool decreases k {
    k <= 0 || hexes(d, p, k - 1) && sp_hex(pk(d, p + k - 1))
}
/// the number they denote
pub open spec fn hexval(d: Seq<u8>, p: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { hexval(d, p, k - 1) * 16 + sp_hexval(pk(d, p + k - 1)) }
}
/// c-ns-esc-char with a single letter (productions 42 to 58)
pub open spec fn letter_escape(c: u8) -> Option<char> {
    if c == 0x30 { Some('\0') } else if c == 0x61 { Some('\x07') } else if c == 0x62 { Some('\x08') }
    else if c == 0x74 || c == 0x09 { Some('\x09') } else if c == 0x6E { Some('\x0a') } else if c == 0x76 { Some('\x0b') }
    else if c == 0x66 { Some('\x0c') } else if c == 0x72 { Some('\x0d') } else if c == 0x65 { Some('\x1b') }
    else if c == 0x20 { Some(' ') } else if c == 0x22 { Some('"') } else if c == 0x2F { Some('/') }
    else if c == 0x5C { Some('\\') } else if c == 0x4E { Some('\u{85}') } else if c == 0x5F { Some('\u{A0}') }
    else if c == 0x4C { Some('\u{2028}') } else if c == 0x50 { Some('\u{2029}') } else { None }
}
/// productions 59 to 61
pub open spec fn code_digits(c: u8) -> int { if c == 0x78 { 2 } else if c == 0x75 { 4 } else if c == 0x55 { 8 } else { 0 } }
/// the character that the escape sequence at the backslash p denotes, and its length in bytes
pub open spec fn escape_at(d: Seq<u8>, p: int) -> Option<(char, int)> {
    let c = pk(d, p + 1);
    let k = code_digits(c);
    if letter_escape(c) is Some { Some((letter_escape(c)->0, 2)) }
    else if k > 0 && hexes(d, p + 2, k) && 0 <= hexval(d, p + 2, k) <= 0xffff_ffff && is_scalar_value(hexval(d, p + 2, k) as u32) { Some((hexval(d, p + 2, k) as u32 as char, 2 + k)) }
    else { None }
}
pub open spec fn p16(i: int) -> int {
    if i <= 0 { 1 } else if i == 1 { 0x10 } else if i == 2 { 0x100 } else if i == 3 { 0x1000 } else if i == 4 { 0x1_0000 }
    else if i == 5 { 0x10_0000 } else if i == 6 { 0x100_0000 } else if i == 7 { 0x1000_0000 } else { 0x1_0000_0000 }
}
pub proof fn lemma_hexval(d: Seq<u8>, p: int, k: int)
    requires 0 <= k <= 8
    ensures 0 <= hexval(d, p, k) < p16(k), p16(8) == 0x1_0000_0000, k < 8 ==> p16(k + 1) == 16 * p16(k), p16(k) <= p16(8)
    decreases k
{ if k > 0 { lemma_hexval(d, p, k - 1); } }
/// a digit that is none
pub proof fn lemma_hexes(d: Seq<u8>, p: int, k: int, n: int)
    requires 0 < k <= n
    ensures hexes(d, p, n) ==> hexes(d, p, k) && sp_hex(pk(d, p + k - 1))
    decreases n
{ if k < n { lemma_hexes(d, p, k, n - 1); } }
// ---- percent-encoded characters of tags ----
pub open spec fn pct(d: Seq<u8>, p: int) -> bool { pk(d, p) == 0x25 && sp_hex(pk(d, p + 1)) && sp_hex(pk(d, p + 2)) }
pub open spec fn pct_byte(d: Seq<u8>, p: int) -> u8 { (sp_hexval(pk(d, p + 1)) * 16 + sp_hexval(pk(d, p + 2))) as u8 }
/// the length that a lead byte announces
pub open spec fn utf8_width(b: u8) -> int { if b < 0x80 { 1 } else if 0xC0 <= b < 0xE0 { 2 } else if 0xE0 <= b < 0xF0 { 3 } else if 0xF0 <= b < 0xF8 { 4 } else { 0 } }
/// the number in the first n of the w bytes of a character
pub open spec fn utf8_code(d: Seq<u8>, p: int, w: int, n: int) -> int decreases n {
    if n <= 1 { if w == 1 { pct_byte(d, p) as int } else if w == 2 { pct_byte(d, p) as int % 0x20 } else if w == 3 { pct_byte(d, p) as int % 0x10 } else { pct_byte(d, p) as int % 8 } }
    else { utf8_code(d, p, w, n - 1) * 64 + pct_byte(d, p + 3 * (n - 1)) as int % 64 }
}
/// n percent-encoded bytes stand at p, of which all but the first are continuation bytes
pub open spec fn pcts(d: Seq<u8>, p: int, n: int) -> bool decreases n {
    if n <= 1 { pct(d, p) } else { pcts(d, p, n - 1) && pct(d, p + 3 * (n - 1)) && 0x80 <= pct_byte(d, p + 3 * (n - 1)) < 0xC0 }
}
pub open spec fn utf8_len(c: int) -> int { if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 } }
/// the character whose percent-encoded UTF-8 bytes stand at p, and their number (RFC 3629)
pub open spec fn uri_at(d: Seq<u8>, p: int) -> Option<(char, int)> {
    let w = utf8_width(pct_byte(d, p));
    let c = utf8_code(d, p, w, w);
    if w > 0 && pcts(d, p, w) && 0 <= c <= 0x10ffff && is_scalar_value(c as u32) && utf8_len(c) == w { Some((c as u32 as char, w)) } else { None }
}
pub proof fn lemma_pcts(d: Seq<u8>, p: int, k: int, n: int)
    requires 1 <= k <= n
    ensures pcts(d, p, n) ==> pcts(d, p, k)
    decreases n
{ if k < n { lemma_pcts(d, p, k, n - 1); } }
/// characters of a tag (tag) or of a prefix or a verbatim tag
pub open spec fn uri_class(c: u8, tag: bool) -> bool { if tag { sp_tagc(c) } else { sp_uri(c) } }
/// the text that the run of such characters at p writes down, percent-encoded ones decoded; None: an encoding is invalid
#[verifier::opaque]
pub open spec fn uri_text(d: Seq<u8>, p: int, tag: bool) -> Option<Seq<u8>> decreases d.len() - p {
    if p < 0 || p >= d.len() || !uri_class(d[p], tag) { Some(Seq::empty()) }
    else if d[p] == 0x25 { match uri_at(d, p) { Some((c, n)) => if n > 0 { app(encode_utf8(seq![c]), uri_text(d, p + 3 * n, tag)) } else { None }, None => None } }
    else { app(seq![d[p]], uri_text(d, p + 1, tag)) }
}
/// where it ends
#[verifier::opaque]
pub open spec fn uri_end(d: Seq<u8>, p: int, tag: bool) -> int decreases d.len() - p {
    if p < 0 || p >= d.len() || !uri_class(d[p], tag) { p }
    else if d[p] == 0x25 { match uri_at(d, p) { Some((c, n)) => if n > 0 { uri_end(d, p + 3 * n, tag) } else { p }, None => p } }
    else { uri_end(d, p + 1, tag) }
}
pub proof fn lemma_uri(d: Seq<u8>, p: int, tag: bool, s: Seq<u8>)
    requires 0 <= p <= d.len()
    ensures
        !uri_class(pk(d, p), tag) ==> app(s, uri_text(d, p, tag)) == Some(s) && uri_end(d, p, tag) == p,
        p < d.len() && uri_class(d[p], tag) && d[p] != 0x25 ==> app(s, uri_text(d, p, tag)) == app(s.push(d[p]), uri_text(d, p + 1, tag)) && uri_end(d, p, tag) == uri_end(d, p + 1, tag),
        pk(d, p) == 0x25 ==> (match uri_at(d, p) {
            Some((c, n)) => app(s, uri_text(d, p, tag)) == app(s + encode_utf8(seq![c]), uri_text(d, p + 3 * n, tag)) && uri_end(d, p, tag) == uri_end(d, p + 3 * n, tag),
            None => uri_text(d, p, tag) is None }),
{
    reveal_with_fuel(uri_text, 1); reveal_with_fuel(uri_end, 1);
    if p >= d.len() || !uri_class(d[p], tag) { assert(s + Seq::<u8>::empty() =~= s); }
    else if d[p] == 0x25 { if let Some((c, n)) = uri_at(d, p) { lemma_app_app(s, encode_utf8(seq![c]), uri_text(d, p + 3 * n, tag)); } }
    else { lemma_app_app(s, seq![d[p]], uri_text(d, p + 1, tag)); assert(s + seq![d[p]] =~= s.push(d[p])); }
}
/// where the run of word characters at p ends
pub open spec fn alpha_end(d: Seq<u8>, p: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && sp_alpha(d[p]) { alpha_end(d, p + 1) } else { p }
}
pub proof fn lemma_alpha_end(d: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> sp_alpha(#[trigger] d[i]), !sp_alpha(pk(d, q))
    ensures alpha_end(d, p) == q
    decreases q - p
{ if p < q { lemma_alpha_end(d, p + 1, q); } }
/// the tag handle at p: `!`, `!!` or `!word!`; a `!` with word characters that none follows is `!` alone
pub open spec fn handle_end(d: Seq<u8>, p: int) -> int { let e = alpha_end(d, p + 1); if pk(d, e) == 0x21 { e + 1 } else { e } }
pub open spec fn handle_text(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, handle_end(d, p)) }
/// handle and suffix of the tag at p
pub open spec fn tag_at(d: Seq<u8>, p: int) -> Option<(Seq<u8>, Seq<u8>)> {
    let e = handle_end(d, p);
    if pk(d, p + 1) == 0x3C {
        match uri_text(d, p + 2, false) { Some(t) => if pk(d, uri_end(d, p + 2, false)) == 0x3E { Some((Seq::empty(), t)) } else { None }, None => None }
    } else if e >= p + 2 && pk(d, e - 1) == 0x21 {
        match uri_text(d, e, true) { Some(t) => Some((d.subrange(p, e), t)), None => None }
    } else {
        match app(d.subrange(p + 1, e), uri_text(d, e, true)) {
            Some(t) => Some(if t.len() == 0 { (Seq::empty(), seq![0x21u8]) } else { (seq![0x21u8], t) }),
            None => None,
        }
    }
}
/// the prefix of a directive: one character of a tag (or `!`), then those of a prefix
pub open spec fn prefix_text(d: Seq<u8>, p: int) -> Option<Seq<u8>> {
    if pk(d, p) == 0x21 || sp_tagc(pk(d, p)) { uri_text(d, p, false) } else { None }
}
/// a token holds the characters that t encodes
pub open spec fn holds(v: Cow<'_, str>, t: Seq<u8>) -> bool { valid_utf8(t) ==> encode_utf8(cowv(v)) == t }
pub open spec fn says_tag(tt: TokenType, o: Option<(Seq<u8>, Seq<u8>)>) -> bool {
    tt matches TokenType::Tag { handle, suffix } && (o is Some && holds(handle, (o->0).0) && holds(suffix, (o->0).1))
}
pub open spec fn blank_end(d: Seq<u8>, p: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && sp_blank(d[p]) { blank_end(d, p + 1) } else { p }
}
pub proof fn lemma_blank_end(d: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> sp_blank(#[trigger] d[i]), !sp_blank(pk(d, q))
    ensures blank_end(d, p) == q
    decreases q - p
{ if p < q { lemma_blank_end(d, p + 1, q); } }
/// handle and prefix of a %TAG directive, of which the handle stands at p
pub open spec fn says_directive(tt: TokenType, d: Seq<u8>, p: int) -> bool {
    tt matches TokenType::TagDirective { handle, prefix } && {
        let o = prefix_text(d, blank_end(d, handle_end(d, p)));
        &&& encode_utf8(cowv(handle)) == handle_text(d, p)
        &&& o is Some && encode_utf8(cowv(prefix)) == o->0
    }
}
/// where the run of anchor characters at p ends
pub open spec fn anchor_end(d: Seq<u8>, p: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && sp_anchorc(d[p]) { anchor_end(d, p + 1) } else { p }
}
/// the anchor or alias at p
pub open spec fn says_anchor(d: Seq<u8>, p: int, tt: TokenType, alias: bool) -> bool {
    let t = d.subrange(p + 1, anchor_end(d, p + 1));
    if alias { tt matches TokenType::Alias(v) && holds(v, t) } else { tt matches TokenType::Anchor(v) && holds(v, t) }
}
// ---- quoted scalars ----
/// a token is a scalar of the style t with the content o (of which the token holds the characters)
pub open spec fn says(tt: TokenType, t: ScalarType, o: Option<Seq<u8>>) -> bool {
    tt matches TokenType::Scalar { scalar_type, value } && (scalar_type == t && o is Some && holds(value, o->0))
}
pub proof fn lemma_app_none(o: Option<Seq<u8>>)
    ensures app(Seq::empty(), o) == o
{ if o is Some { assert(Seq::<u8>::empty() + o->0 =~= o->0); } }
/// what the scanner holds after the white space from p to q (esc: after an escaped break)
pub open spec fn folding(d: Seq<u8>, p: int, q: int, esc: bool, lb: bool, ws: Seq<u8>, first: Seq<u8>, rest: Seq<u8>) -> bool {
    let n = lines(d, q) - lines(d, p);
    &&& 0 <= p <= q <= d.len() && n >= 0
    &&& lb == (esc || n > 0)
    &&& ws == (if lb { Seq::empty() } else { d.subrange(p, q) })
    &&& first == (if esc || n == 0 { Seq::empty() } else { seq![0x0Au8] })
    &&& rest == newlines(if esc { n } else { n - 1 })
}
/// neither a break nor a zero byte from p to q
#[verifier::opaque]
pub open spec fn clear(d: Seq<u8>, p: int, q: int) -> bool { forall|i: int| p <= i < q ==> !sp_breakz(#[trigger] d[i]) }
pub proof fn lemma_line_step(d: Seq<u8>, p: int)
    requires 0 <= p < d.len()
    ensures
        sp_break(d[p]) ==> lines(d, p + brk_len(d, p)) == lines(d, p) + 1,
        !sp_break(d[p]) ==> lines(d, p + 1) == lines(d, p),
        forall|n: int| #![trigger newlines(n).push(0x0Au8)] n >= 0 ==> newlines(n).push(0x0Au8) == newlines(n + 1),
        newlines(0) == Seq::<u8>::empty(),
{ lemma_lines_step(d, p); }
pub proof fn lemma_lines_step(d: Seq<u8>, p: int)
    requires 0 <= p < d.len()
    ensures
        sp_break(d[p]) ==> lines(d, p + brk_len(d, p)) == lines(d, p) + 1,
        !sp_break(d[p]) ==> lines(d, p + 1) == lines(d, p),
        forall|n: int| #![trigger newlines(n).push(0x0Au8)] n >= 0 ==> newlines(n).push(0x0Au8) == newlines(n + 1),
        newlines(0) == Seq::<u8>::empty(), newlines(-1) == Seq::<u8>::empty(),
        forall|q: int| #![trigger d.subrange(q, p)] 0 <= q <= p ==> d.subrange(q, p).push(d[p]) == d.subrange(q, p + 1),
{
    assert(lines(d, p + 1) == lines(d, p) + if brk_end(d, p) { 1int } else { 0int });
    assert(lines(d, p + 2) == lines(d, p + 1) + if brk_end(d, p + 1) { 1int } else { 0int });
    assert forall|n: int| #![trigger newlines(n).push(0x0Au8)] n >= 0 implies newlines(n).push(0x0Au8) == newlines(n + 1) by { assert(newlines(n).push(0x0Au8) =~= newlines(n + 1)); }
    assert(newlines(0) =~= Seq::<u8>::empty()); assert(newlines(-1) =~= Seq::<u8>::empty());
    assert forall|q: int| #![trigger d.subrange(q, p)] 0 <= q <= p implies d.subrange(q, p).push(d[p]) == d.subrange(q, p + 1) by { assert(d.subrange(q, p).push(d[p]) =~= d.subrange(q, p + 1)); }
}
/// the closing quote stands at p
pub open spec fn ends_quote(d: Seq<u8>, p: int, single: bool) -> bool {
    if single { pk(d, p) == 0x27 && pk(d, p + 1) != 0x27 } else { pk(d, p) == 0x22 }
}
/// where the run of blanks and breaks at p ends
pub open spec fn run_end(d: Seq<u8>, p: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && sp_bob(d[p]) { run_end(d, p + 1) } else { p }
}
pub open spec fn newlines(n: int) -> Seq<u8> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| 0x0Au8) }
/// what the white space from p to q contributes: blanks stay, one break is a space, n breaks are n-1 line feeds
pub open spec fn folded(d: Seq<u8>, p: int, q: int) -> Seq<u8> {
    let n = lines(d, q) - lines(d, p);
    if n <= 0 { d.subrange(p, q) } else if n == 1 { seq![0x20u8] } else { newlines(n - 1) }
}
pub open spec fn app(s: Seq<u8>, o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { None => None, Some(t) => Some(s + t) } }
pub proof fn lemma_app_app(s: Seq<u8>, t: Seq<u8>, o: Option<Seq<u8>>)
    ensures #[trigger] app(s, app(t, o)) == app(s + t, o)
{ if o is Some { assert(s + (t + o->0) =~= (s + t) + o->0); } }
/// the content from p to the closing quote; None: there is no valid one
#[verifier::opaque]
pub open spec fn quoted(d: Seq<u8>, p: int, single: bool) -> Option<Seq<u8>> decreases d.len() - p {
    if p < 0 || p >= d.len() { None }
    else if single && d[p] == 0x27 { if pk(d, p + 1) == 0x27 { app(seq![0x27u8], quoted(d, p + 2, single)) } else { Some(Seq::empty()) } }
    else if !single && d[p] == 0x22 { Some(Seq::empty()) }
    else if !single && d[p] == 0x5C && sp_break(pk(d, p + 1)) {
        let q = p + 1 + brk_len(d, p + 1);
        let r = run_end(d, q);
        if p < r <= d.len() { app(newlines(lines(d, r) - lines(d, q)), quoted(d, r, single)) } else { None }
    } else if !single && d[p] == 0x5C {
        match escape_at(d, p) { Some((c, n)) => if n > 0 { app(encode_utf8(seq![c]), quoted(d, p + n, single)) } else { None }, None => None }
    } else if sp_bob(d[p]) {
        let r = run_end(d, p);
        if p < r <= d.len() { app(folded(d, p, r), quoted(d, r, single)) } else { None }
    } else if d[p] == 0 { None }
    else { app(seq![d[p]], quoted(d, p + 1, single)) }
}
/// one step of it
pub proof fn lemma_quoted(d: Seq<u8>, p: int, single: bool, s: Seq<u8>)
    requires 0 <= p <= d.len()
    ensures
        ends_quote(d, p, single) ==> app(s, quoted(d, p, single)) == Some(s),
        single && pk(d, p) == 0x27 && pk(d, p + 1) == 0x27 ==> app(s, quoted(d, p, single)) == app(s.push(0x27u8), quoted(d, p + 2, single)),
        !single && pk(d, p) == 0x5C && sp_break(pk(d, p + 1)) ==> quoted(d, p, single) == after_break(d, p + 1 + brk_len(d, p + 1), single),
        !single && pk(d, p) == 0x5C && !sp_break(pk(d, p + 1)) ==> (match escape_at(d, p) {
            Some((c, n)) => app(s, quoted(d, p, single)) == app(s + encode_utf8(seq![c]), quoted(d, p + n, single)),
            None => quoted(d, p, single) is None }),
        sp_bob(pk(d, p)) ==> app(s, quoted(d, p, single)) == app(s + folded(d, p, run_end(d, p)), quoted(d, run_end(d, p), single)),
        p < d.len() && !sp_bobz(d[p]) && !(d[p] == 0x27 && single) && !(d[p] == 0x22 && !single) && !(d[p] == 0x5C && !single) ==>
            app(s, quoted(d, p, single)) == app(s.push(d[p]), quoted(d, p + 1, single)),
{
    reveal_with_fuel(quoted, 1);
    if ends_quote(d, p, single) { assert(s + Seq::<u8>::empty() =~= s); }
    else if p < d.len() && single && d[p] == 0x27 { lemma_app_app(s, seq![0x27u8], quoted(d, p + 2, single)); assert(s + seq![0x27u8] =~= s.push(0x27u8)); }
    else if p < d.len() && !single && d[p] == 0x5C && sp_break(pk(d, p + 1)) { lemma_run_end(d, p + 1 + brk_len(d, p + 1)); }
    else if p < d.len() && !single && d[p] == 0x5C { if let Some((c, n)) = escape_at(d, p) { lemma_app_app(s, encode_utf8(seq![c]), quoted(d, p + n, single)); } }
    else if p < d.len() && sp_bob(d[p]) { lemma_run_step(d, p); lemma_run_end(d, p + 1); lemma_app_app(s, folded(d, p, run_end(d, p)), quoted(d, run_end(d, p), single)); }
    else if p < d.len() { lemma_app_app(s, seq![d[p]], quoted(d, p + 1, single)); assert(s + seq![d[p]] =~= s.push(d[p])); }
}
/// the same after the white space that follows an escaped break
pub open spec fn after_break(d: Seq<u8>, q: int, single: bool) -> Option<Seq<u8>> {
    app(newlines(lines(d, run_end(d, q)) - lines(d, q)), quoted(d, run_end(d, q), single))
}
pub proof fn lemma_run_end(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures p <= run_end(d, p) <= d.len(), forall|i: int| p <= i < run_end(d, p) ==> sp_bob(#[trigger] d[i]), !sp_bob(pk(d, run_end(d, p)))
    decreases d.len() - p
{ if p < d.len() && sp_bob(d[p]) { lemma_run_end(d, p + 1); } }
/// a break, or a blank, at p belongs to the run
pub proof fn lemma_run_step(d: Seq<u8>, p: int)
    requires 0 <= p < d.len()
    ensures sp_bob(d[p]) ==> run_end(d, p + 1) == run_end(d, p), sp_break(d[p]) ==> run_end(d, p + brk_len(d, p)) == run_end(d, p),
        !sp_bob(d[p]) ==> run_end(d, p) == p
{ reveal_with_fuel(run_end, 3); }
pub proof fn lemma_run_skip(d: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> sp_bob(#[trigger] d[i])
    ensures run_end(d, q) == run_end(d, p)
    decreases q - p
{ if p < q { lemma_run_skip(d, p + 1, q); } }
// ---- plain scalars ----
/// where the run of blanks and breaks that ends at e starts
pub open spec fn ws_start(d: Seq<u8>, p: int, e: int) -> int decreases e - p {
    if 0 <= p < e <= d.len() && sp_bob(d[e - 1]) { ws_start(d, p, e - 1) } else { e }
}
pub proof fn lemma_ws_start(d: Seq<u8>, p: int, s: int, e: int)
    requires 0 <= p < s <= e <= d.len(), forall|i: int| s <= i < e ==> sp_bob(#[trigger] d[i]), !sp_bob(d[s - 1])
    ensures ws_start(d, p, e) == s
    decreases e - s
{ if s < e { lemma_ws_start(d, p, s, e - 1); } }
/// the text from p to e with its lines folded
#[verifier::opaque]
pub open spec fn fold_to(d: Seq<u8>, p: int, e: int) -> Seq<u8> decreases e - p {
    if p < 0 || e <= p || e > d.len() { Seq::empty() }
    else if sp_bob(d[e - 1]) { let s = ws_start(d, p, e); if p <= s < e { fold_to(d, p, s) + folded(d, s, e) } else { Seq::empty() } }
    else { fold_to(d, p, e - 1).push(d[e - 1]) }
}
pub proof fn lemma_fold_push(d: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e < d.len(), !sp_bob(d[e])
    ensures fold_to(d, p, e + 1) == fold_to(d, p, e).push(d[e]), fold_to(d, p, p) == Seq::<u8>::empty()
{ reveal_with_fuel(fold_to, 2); }
pub proof fn lemma_fold_ws(d: Seq<u8>, p: int, s: int, e: int)
    requires 0 <= p < s < e <= d.len(), forall|i: int| s <= i < e ==> sp_bob(#[trigger] d[i]), !sp_bob(d[s - 1])
    ensures fold_to(d, p, e) == fold_to(d, p, s) + folded(d, s, e)
{ reveal_with_fuel(fold_to, 1); lemma_ws_start(d, p, s, e); }
/// white space is followed by more of the scalar at i
pub open spec fn plain_cont(d: Seq<u8>, i: int, flow: bool, ind: int) -> bool {
    &&& pk(d, i) != 0x23 && !(coln(d, i) == 0 && doc_ind(d, i))
    &&& flow || 1 + coln(d, i) >= ind
}
/// every character from p to e belongs to a plain scalar that starts at p (in a flow collection; indented by ind at least)
pub open spec fn plain_in(d: Seq<u8>, p: int, e: int, flow: bool, ind: int) -> bool {
    forall|i: int| p <= i < e && !sp_bob(#[trigger] d[i]) ==> d[i] != 0 && can_plain(d, i, flow) && (p < i && sp_bob(d[i - 1]) ==> plain_cont(d, i, flow, ind))
}
/// and what follows e does not
pub open spec fn plain_stop(d: Seq<u8>, e: int, flow: bool, ind: int) -> bool {
    let r = run_end(d, e);
    pk(d, r) == 0 || !can_plain(d, r, flow) || e < r && !plain_cont(d, r, flow, ind)
}
pub open spec fn plain_extent(d: Seq<u8>, p: int, e: int, flow: bool, ind: int) -> bool {
    0 <= p < e <= d.len() && !sp_bob(d[e - 1]) && plain_in(d, p, e, flow, ind) && plain_stop(d, e, flow, ind)
}
// ---- block scalars (chapter 8.1) ----
/// chomping: -1 strip, 0 clip, 1 keep
pub open spec fn chomp_of(c: u8) -> int { if c == 0x2B { 1 } else if c == 0x2D { -1 } else { 0 } }
pub open spec fn chomp_ind(c: u8) -> bool { c == 0x2B || c == 0x2D }
/// the header at the indicator h: chomping, indentation indicator (0: none), and where it ends
#[verifier::opaque]
pub open spec fn header(d: Seq<u8>, h: int) -> (int, int, int) {
    let a = pk(d, h + 1);
    let b = pk(d, h + 2);
    if chomp_ind(a) { if sp_digit(b) { (chomp_of(a), b - 0x30, h + 3) } else { (chomp_of(a), 0, h + 2) } }
    else if sp_digit(a) { if chomp_ind(b) { (chomp_of(b), a - 0x30, h + 3) } else { (0, a - 0x30, h + 2) } }
    else { (0, 0, h + 1) }
}
/// where the line at p ends: a break, the end of the input, or (z) a zero byte
pub open spec fn line_end(d: Seq<u8>, p: int, z: bool) -> int decreases d.len() - p {
    if 0 <= p < d.len() && !sp_break(d[p]) && !(z && d[p] == 0) { line_end(d, p + 1, z) } else { p }
}
pub proof fn lemma_line_end(d: Seq<u8>, p: int, q: int, z: bool)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> !sp_break(#[trigger] d[i]) && !(z && d[i] == 0), q == d.len() || sp_break(d[q]) || z && d[q] == 0
    ensures line_end(d, p, z) == q
    decreases q - p
{ if p < q { lemma_line_end(d, p + 1, q, z); } }
/// the position after spaces, of which none reaches column n
pub open spec fn spaces_to(d: Seq<u8>, p: int, n: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && d[p] == 0x20 && 1 + coln(d, p) < n { spaces_to(d, p + 1, n) } else { p }
}
pub proof fn lemma_spaces_to(d: Seq<u8>, p: int, n: int)
    requires 0 <= p <= d.len()
    ensures p <= spaces_to(d, p, n) <= d.len()
    decreases d.len() - p
{ if p < d.len() && d[p] == 0x20 && 1 + coln(d, p) < n { lemma_spaces_to(d, p + 1, n); } }
/// the position after the indentation and the empty lines at p
#[verifier::opaque]
pub open spec fn indent_end(d: Seq<u8>, p: int, n: int) -> int decreases d.len() - p {
    let s = spaces_to(d, p, n);
    if 0 <= p <= s < d.len() && sp_break(d[s]) && s + brk_len(d, s) <= d.len() { indent_end(d, s + brk_len(d, s), n) } else { s }
}
/// one step of it
pub proof fn lemma_indent_end(d: Seq<u8>, p: int, n: int)
    requires 0 <= p <= d.len()
    ensures
        p < d.len() && d[p] == 0x20 && 1 + coln(d, p) < n ==> indent_end(d, p, n) == indent_end(d, p + 1, n),
        p < d.len() && sp_break(d[p]) ==> indent_end(d, p, n) == indent_end(d, p + brk_len(d, p), n),
        !(pk(d, p) == 0x20 && 1 + coln(d, p) < n) && !sp_break(pk(d, p)) ==> indent_end(d, p, n) == p,
{ reveal_with_fuel(indent_end, 1); reveal_with_fuel(spaces_to, 2); lemma_spaces_to(d, p, n); if p < d.len() { lemma_spaces_to(d, p + 1, n); } }
/// all spaces and empty lines at p: where they end and the largest column where a line of them ends (or m)
#[verifier::opaque]
pub open spec fn first_indent(d: Seq<u8>, p: int, m: int) -> (int, int) decreases d.len() - p {
    let c = 1 + coln(d, p);
    let m2 = if c > m { c } else { m };
    if 0 <= p < d.len() && d[p] == 0x20 { first_indent(d, p + 1, m) }
    else if 0 <= p < d.len() && sp_break(d[p]) && p + brk_len(d, p) <= d.len() { first_indent(d, p + brk_len(d, p), m2) }
    else { (p, m2) }
}
pub proof fn lemma_first_indent(d: Seq<u8>, p: int, m: int)
    requires 0 <= p <= d.len()
    ensures ({
        let c = 1 + coln(d, p);
        let m2 = if c > m { c } else { m };
        &&& p < d.len() && d[p] == 0x20 ==> first_indent(d, p, m) == first_indent(d, p + 1, m)
        &&& p < d.len() && sp_break(d[p]) ==> first_indent(d, p, m) == first_indent(d, p + brk_len(d, p), m2)
        &&& pk(d, p) != 0x20 && !sp_break(pk(d, p)) ==> first_indent(d, p, m) == (p, m2)
    })
{ reveal_with_fuel(first_indent, 1); }
/// a content line starts at q, in column n
pub open spec fn block_line(d: Seq<u8>, q: int, n: int) -> bool { 0 <= q < d.len() && 1 + coln(d, q) == n && !(n == 1 && doc_ind(d, q)) }
/// what stands between two content lines (lb: there is a line before; pb: it starts with a blank) with k empty lines
pub open spec fn between_lines(fold: bool, lb: bool, k: int, pb: bool, nb: bool) -> Seq<u8> {
    if fold && lb && !pb && !nb { if k <= 0 { seq![0x20u8] } else { newlines(k) } } else { newlines(if lb { k + 1 } else { k }) }
}
/// what stands after the last
pub open spec fn chomped(chomp: int, lb: bool, k: int) -> Seq<u8> {
    if chomp < 0 { Seq::empty() } else if chomp == 0 { newlines(if lb { 1 } else { 0 }) } else { newlines(if lb { k + 1 } else { k }) }
}
/// the bytes s, then what stands after the last line: lb holds its break, tb those of the empty lines
pub proof fn lemma_chomped(s: Seq<u8>, lb: Seq<u8>, tb: Seq<u8>, chomp: int)
    requires lb == newlines(if lb.len() > 0 { 1 } else { 0 }), tb == newlines(tb.len() as int)
    ensures
        s + chomped(chomp, lb.len() > 0, tb.len() as int) == if chomp < 0 { s } else if chomp == 0 { s + lb } else { s + lb + tb },
        lb.len() == 0 ==> s + lb == s && s.push(0x0Au8) == s + newlines(1) && s + newlines(0) == s && s + lb + tb == s + tb,
        lb.len() == 0 && tb.len() == 0 ==> s.push(0x0Au8) + tb == s + newlines(1),
{
    let n = tb.len() as int;
    assert(newlines(n + 1) =~= newlines(1) + newlines(n));
    assert(s + chomped(chomp, lb.len() > 0, n) =~= if chomp < 0 { s } else if chomp == 0 { s + lb } else { s + lb + tb });
    if lb.len() == 0 {
        assert(s + lb =~= s); assert(s.push(0x0Au8) =~= s + newlines(1)); assert(s + newlines(0) =~= s); assert(s + lb + tb =~= s + tb);
        if tb.len() == 0 { assert(s.push(0x0Au8) + tb =~= s + newlines(1)); }
    }
}
/// the content from q on, after a content line (lb, which starts with a blank: pb) and k empty lines
#[verifier::opaque]
pub open spec fn block_rest(d: Seq<u8>, q: int, n: int, fold: bool, chomp: int, lb: bool, k: int, pb: bool) -> Seq<u8> decreases d.len() - q {
    if block_line(d, q, n) {
        let e = line_end(d, q, false);
        let b = e + brk_len(d, e);
        let r = indent_end(d, b, n);
        between_lines(fold, lb, k, pb, sp_blank(d[q])) + (d.subrange(q, e) + (
            if e >= d.len() { newlines(if chomp < 0 { 0 } else { 1 }) }
            else if q < r <= d.len() { block_rest(d, r, n, fold, chomp, true, lines(d, r) - lines(d, b), sp_blank(d[q])) }
            else { Seq::empty() }))
    } else { chomped(chomp, lb, k) }
}
/// one line of it, put after what was read before (s)
pub proof fn lemma_block_rest(d: Seq<u8>, q: int, n: int, fold: bool, chomp: int, lb: bool, k: int, pb: bool, s: Seq<u8>)
    requires 0 <= q <= d.len()
    ensures ({
        let e = line_end(d, q, false);
        let b = e + brk_len(d, e);
        let r = indent_end(d, b, n);
        let t = s + between_lines(fold, lb, k, pb, sp_blank(pk(d, q))) + d.subrange(q, e);
        let all = s + block_rest(d, q, n, fold, chomp, lb, k, pb);
        &&& block_line(d, q, n) && e >= d.len() ==> all == t + newlines(if chomp < 0 { 0 } else { 1 })
        &&& block_line(d, q, n) && e < d.len() && q < r <= d.len() ==> all == t + block_rest(d, r, n, fold, chomp, true, lines(d, r) - lines(d, b), sp_blank(d[q]))
        &&& !block_line(d, q, n) ==> all == s + chomped(chomp, lb, k)
    })
{
    reveal_with_fuel(block_rest, 1);
    let e = line_end(d, q, false);
    let b = e + brk_len(d, e);
    let r = indent_end(d, b, n);
    if block_line(d, q, n) {
        let x = between_lines(fold, lb, k, pb, sp_blank(d[q]));
        let y = d.subrange(q, e);
        let z = if e >= d.len() { newlines(if chomp < 0 { 0 } else { 1 }) }
            else if q < r <= d.len() { block_rest(d, r, n, fold, chomp, true, lines(d, r) - lines(d, b), sp_blank(d[q])) }
            else { Seq::empty() };
        assert(s + (x + (y + z)) =~= s + x + y + z);
    }
}
/// the content of the block scalar with the header h in a collection of the column par (0: none)
#[verifier::opaque]
pub open spec fn block_text(d: Seq<u8>, h: int, par: int, fold: bool) -> Seq<u8> {
    let (chomp, inc, he) = header(d, h);
    let e = line_end(d, he, true);
    let b = e + brk_len(d, e);
    let f = first_indent(d, b, 0);
    let n = if inc > 0 { par + inc } else if f.1 > par + 1 { f.1 } else { par + 1 };
    let q = if inc > 0 { indent_end(d, b, n) } else { f.0 };
    let k = lines(d, q) - lines(d, b);
    if q < d.len() { block_rest(d, q, n, fold, chomp, false, k, false) }
    else if chomp <= 0 || lines(d, q) == lines(d, h) { Seq::empty() }
    else if k == 0 && coln(d, q) > 0 { newlines(1) }
    else { newlines(k) }
}
pub proof fn lemma_block_text(d: Seq<u8>, h: int, par: int, fold: bool, chomp: int, inc: int, he: int, e: int, b: int, q: int, n: int)
    requires header(d, h) == (chomp, inc, he), e == line_end(d, he, true), b == e + brk_len(d, e),
        inc > 0 ==> n == par + inc && q == indent_end(d, b, n),
        inc <= 0 ==> q == first_indent(d, b, 0).0 && ({ let m = first_indent(d, b, 0).1; n == if m > par + 1 { m } else { par + 1 } }),
    ensures ({
        let k = lines(d, q) - lines(d, b);
        let t = block_text(d, h, par, fold);
        &&& q < d.len() ==> t == block_rest(d, q, n, fold, chomp, false, k, false)
        &&& q >= d.len() ==> t == if chomp <= 0 || lines(d, q) == lines(d, h) { Seq::empty() } else if k == 0 && coln(d, q) > 0 { newlines(1) } else { newlines(k) }
    })
{ reveal(block_text); }
/// the token holds the content of a block scalar whose header stands at h
pub open spec fn says_block(d: Seq<u8>, tt: TokenType, h: int, par: int) -> bool {
    tt matches TokenType::Scalar { scalar_type, .. } && {
        &&& pk(d, h) == (if scalar_type is Folded { 0x3Eu8 } else { 0x7Cu8 })
        &&& says(tt, scalar_type, Some(block_text(d, h, par, scalar_type is Folded)))
    }
}
/// tokens that hold no text of the source
pub open spec fn textless(tt: TokenType) -> bool {
    !(tt is Scalar) && !(tt is Anchor) && !(tt is Alias) && !(tt is Tag) && !(tt is TagDirective)
}
/// a token that holds the text at p (up to e)
#[verifier::opaque]
pub open spec fn says_text(d: Seq<u8>, tt: TokenType, p: int, e: int) -> bool {
    match tt {
        TokenType::Scalar { scalar_type, .. } => match scalar_type {
            ScalarType::SingleQuote => says(tt, ScalarType::SingleQuote, quoted(d, p + 1, true)),
            ScalarType::DoubleQuote => says(tt, ScalarType::DoubleQuote, quoted(d, p + 1, false)),
            ScalarType::Plain => says(tt, ScalarType::Plain, Some(fold_to(d, p, e))) && exists|flow: bool, ind: int| #[trigger] plain_extent(d, p, e, flow, ind),
            _ => exists|h: int, par: int| 0 <= h <= p && #[trigger] says_block(d, tt, h, par),
        },
        TokenType::Anchor(_) => says_anchor(d, p, tt, false),
        TokenType::Alias(_) => says_anchor(d, p, tt, true),
        TokenType::Tag { .. } => says_tag(tt, tag_at(d, p)),
        TokenType::TagDirective { handle, prefix } => tag_directive(d, p) && says_directive(tt, d, blank_end(d, p + 4)) || !tag_directive(d, p) && cowv(handle).len() == 0 && cowv(prefix).len() == 0,
        _ => true,
    }
}
/// `%TAG` stands at p, and ends there
pub open spec fn tag_directive(d: Seq<u8>, p: int) -> bool { alpha_end(d, p + 1) == p + 4 && pk(d, p + 1) == 0x54 && pk(d, p + 2) == 0x41 && pk(d, p + 3) == 0x47 }
pub open spec fn tok_true(d: Seq<u8>, tt: TokenType, p: int, e: int) -> bool { textless(tt) || says_text(d, tt, p, e) }
/// the token stands in the source and holds the text there
pub open spec fn tok_ok(d: Seq<u8>, t: Token) -> bool { span_ok(d, t.span) && tok_true(d, t.token_type, t.span.start.pos as int, t.span.end.pos as int) }
}
pub use vx_text::*;
