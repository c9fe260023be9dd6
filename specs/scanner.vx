//@ raw
// =====================================================================================
// character classes (YAML 1.2 productions)
// =====================================================================================
pub mod vx_chars { use vstd::prelude::*;
pub open spec fn sp_blank(c: u8) -> bool { c == 0x20 || c == 0x09 }                 // s-white
pub open spec fn sp_break(c: u8) -> bool { c == 0x0A || c == 0x0D }                 // b-char
pub open spec fn sp_bob(c: u8) -> bool { sp_blank(c) || sp_break(c) }
pub open spec fn sp_breakz(c: u8) -> bool { sp_break(c) || c == 0 }
pub open spec fn sp_bobz(c: u8) -> bool { sp_blank(c) || sp_break(c) || c == 0 }
pub open spec fn sp_flow(c: u8) -> bool { c == 0x2C || c == 0x5B || c == 0x5D || c == 0x7B || c == 0x7D } // c-flow-indicator
pub open spec fn sp_digit(c: u8) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn sp_letter(c: u8) -> bool { 0x41 <= c <= 0x5A || 0x61 <= c <= 0x7A }
pub open spec fn sp_hex(c: u8) -> bool { sp_digit(c) || 0x41 <= c <= 0x46 || 0x61 <= c <= 0x66 }
pub open spec fn sp_word(c: u8) -> bool { sp_digit(c) || sp_letter(c) || c == 0x2D } // ns-word-char
pub open spec fn sp_alpha(c: u8) -> bool { sp_word(c) || c == 0x5F }
pub open spec fn sp_uri_punct(c: u8) -> bool {
    c == 0x23 || c == 0x3B || c == 0x2F || c == 0x3F || c == 0x3A || c == 0x40 || c == 0x26
    || c == 0x3D || c == 0x2B || c == 0x24 || c == 0x2C || c == 0x5F || c == 0x2E || c == 0x21 || c == 0x7E
    || c == 0x2A || c == 0x27 || c == 0x28 || c == 0x29 || c == 0x5B || c == 0x5D || c == 0x25
}
pub open spec fn sp_uri(c: u8) -> bool {                                            // ns-uri-char
    sp_word(c) || sp_uri_punct(c)
}
pub open spec fn sp_tagc(c: u8) -> bool { sp_uri(c) && !sp_flow(c) && c != 0x21 }   // ns-tag-char
pub open spec fn sp_anchorc(c: u8) -> bool { !sp_blank(c) && !sp_break(c) && !sp_flow(c) && c != 0 } // ns-anchor-char
pub open spec fn sp_hexval(c: u8) -> int {
    if sp_digit(c) { c - 0x30 } else if 0x61 <= c <= 0x66 { c - 0x61 + 10 } else if 0x41 <= c <= 0x46 { c - 0x41 + 10 } else { 0 }
}
}
pub use vx_chars::*;
//@ item yam-core/src/parsing/char_utils.rs fn is_blank
//@ spec is_blank
    ensures ret == sp_blank(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_break
//@ spec is_break
    ensures ret == sp_break(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_breakz
//@ spec is_breakz
    ensures ret == sp_breakz(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_blank_or_break
//@ spec is_blank_or_break
    ensures ret == sp_bob(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_blank_or_breakz
//@ spec is_blank_or_breakz
    ensures ret == sp_bobz(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_flow
//@ spec is_flow
    ensures ret == sp_flow(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_yaml_non_space
//@ spec is_yaml_non_space
    ensures ret == (!sp_blank(c) && !sp_break(c))
//@ item yam-core/src/parsing/char_utils.rs fn is_anchor_char
//@ spec is_anchor_char
    ensures ret == sp_anchorc(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_word_char
//@ spec is_word_char
    ensures ret == sp_word(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_uri_char
//@ rewrite is_uri_char
b"#;/?:@&=+$,_.!~*\'()[]%".contains(&c)
=>
vx_uri_punct(c)
//@ spec is_uri_char
    ensures ret == sp_uri(c)
//@ item yam-core/src/parsing/char_utils.rs fn is_tag_char
//@ spec is_tag_char
    ensures ret == sp_tagc(chr)
//@ item yam-core/src/parsing/char_utils.rs fn is_alpha
//@ spec is_alpha
    ensures ret == sp_alpha(c)
//@ item yam-core/src/parsing/char_utils.rs fn as_hex
//@ spec as_hex
    requires sp_hex(c)
    ensures ret == sp_hexval(c), ret < 16
//@ raw
/// the literal is the one of the source (pinned by the rewrite); Verus does not know the bytes of byte-string literals
#[verifier::external_body]
pub fn vx_uri_punct(c: u8) -> (r: bool) ensures r == sp_uri_punct(c) { b"#;/?:@&=+$,_.!~*\'()[]%".contains(&c) }

// =====================================================================================
// positions
// =====================================================================================
pub proof fn lemma_nobrk(d: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= d.len(), forall|i: int| p <= i < q ==> !sp_break(#[trigger] d[i])
    ensures lines(d, q) == lines(d, p), coln(d, q) == coln(d, p) + q - p
    decreases q - p
{ if p < q { lemma_nobrk(d, p, q - 1); assert(!sp_break(d[q - 1])); } }
pub mod vx_lemmas { use super::vx_chars::*; use vstd::prelude::*;
/// byte i of the input, 0 past its end
pub open spec fn pk(d: Seq<u8>, i: int) -> u8 { if 0 <= i < d.len() { d[i] } else { 0 } }
/// a line break ends with byte i
pub open spec fn brk_end(d: Seq<u8>, i: int) -> bool { pk(d, i) == 0x0A || (pk(d, i) == 0x0D && pk(d, i + 1) != 0x0A) }
/// length of the line break at p
pub open spec fn brk_len(d: Seq<u8>, p: int) -> int {
    if pk(d, p) == 0x0D && pk(d, p + 1) == 0x0A { 2 } else if sp_break(pk(d, p)) { 1 } else { 0 }
}
/// number of line breaks that end before p
pub open spec fn lines(d: Seq<u8>, p: int) -> int decreases p {
    if p <= 0 { 0 } else { lines(d, p - 1) + (if brk_end(d, p - 1) { 1int } else { 0int }) }
}
/// bytes since the last line break before p
pub open spec fn coln(d: Seq<u8>, p: int) -> int decreases p {
    if p <= 0 { 0 } else if brk_end(d, p - 1) { 0 } else { coln(d, p - 1) + 1 }
}
pub open spec fn three(d: Seq<u8>, p: int, c: u8) -> bool { pk(d, p) == c && pk(d, p + 1) == c && pk(d, p + 2) == c }
pub open spec fn doc_ind(d: Seq<u8>, p: int) -> bool { (three(d, p, 0x2D) || three(d, p, 0x2E)) && sp_bobz(pk(d, p + 3)) }
pub open spec fn can_plain(d: Seq<u8>, p: int, flow: bool) -> bool {
    &&& !(pk(d, p) == 0x3A && (sp_bobz(pk(d, p + 1)) || (flow && sp_flow(pk(d, p + 1)))))
    &&& !(flow && sp_flow(pk(d, p)))
}
pub proof fn lemma_pos(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures 0 <= lines(d, p) <= p, 0 <= coln(d, p) <= p
    decreases p
{ if p > 0 { lemma_pos(d, p - 1); } }
pub broadcast proof fn lemma_pos_l(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures 0 <= #[trigger] lines(d, p) <= p
{ lemma_pos(d, p); }
pub broadcast proof fn lemma_pos_c(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures 0 <= #[trigger] coln(d, p) <= p
{ lemma_pos(d, p); }
}
pub use vx_lemmas::*;
broadcast use {vx_lemmas::lemma_pos_l, vx_lemmas::lemma_pos_c};
pub mod vx_marks { use super::vx_lemmas::*; use super::{Marker, Span}; use vstd::prelude::*;
/// the mark m is a position of d whose line and column count the breaks before it; the end of the
/// input may also be named as the first column of the line after it
pub open spec fn mark_ok(d: Seq<u8>, m: Marker) -> bool {
    &&& m.pos <= d.len()
    &&& (m.line == 1 + lines(d, m.pos as int) && m.col == 1 + coln(d, m.pos as int)
        || m.pos == d.len() && m.line == 2 + lines(d, m.pos as int) && m.col == 1)
}
pub open spec fn span_ok(d: Seq<u8>, s: Span) -> bool { mark_ok(d, s.start) && mark_ok(d, s.end) && s.start.pos <= s.end.pos }
}
pub use vx_marks::*;
pub open spec fn max_len() -> int { 0xffff_ff00 }
//@ item yam-core/src/prelude/mod.rs struct Marker derive=Clone,Copy,Default,PartialEq,Eq,Structural
//@ item yam-core/src/prelude/mod.rs struct Span derive=Clone,Copy,Default,PartialEq,Eq,Structural
//@ raw
pub struct Utf8Error { }
impl Marker {
    #[verifier::external_body]
    pub fn default() -> (r: Marker) ensures r.pos == 0, r.col == 0, r.line == 0 { Marker { pos: 0, col: 0, line: 0 } }
}
//@ impl yam-core/src/prelude/mod.rs Span
//@ spec Span::new
    ensures ret.start == start, ret.end == end
//@ spec Span::empty
    ensures ret.start == mark, ret.end == mark
//@ item yam-core/src/prelude/mod.rs enum YamlError
//@ impl yam-core/src/prelude/mod.rs YamlError
//@ spec YamlError::new_str
    ensures ret matches YamlError::ScannerErr { mark, .. } && mark == marker
//@ item yam-core/src/prelude/mod.rs enum ScalarType derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/mod.rs enum TokenType
//@ item yam-core/src/parsing/mod.rs enum ChompIndicator derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/mod.rs type YamlResult
//@ item yam-core/src/parsing/mod.rs type ScanResult
//@ impl yam-core/src/parsing/mod.rs TokenType
//@ spec TokenType::new_tag_unchecked
    requires u8ok(handle_raw@), u8ok(suffix_raw@) // P08
    ensures ret matches TokenType::Tag { handle, suffix } && holds(handle, handle_raw@) && holds(suffix, suffix_raw@)
//@ omit TokenType::new_tag_directive_unchecked
//@ item yam-core/src/parsing/scanner.rs enum SkipTabs derive=Clone,Copy,PartialEq,Eq,Structural
//@ impl yam-core/src/parsing/scanner.rs SkipTabs
//@ spec SkipTabs::found_tabs
    ensures ret == (self matches SkipTabs::Result { any_tabs: true, .. })
//@ spec SkipTabs::has_valid_yaml_ws
    ensures ret == (self matches SkipTabs::Result { has_yaml_ws: true, .. })
//@ spec SkipTabs::is_ignore_tabs
    ensures ret == (self is Yes)
//@ item yam-core/src/parsing/scanner.rs struct Token
//@ item yam-core/src/parsing/scanner.rs struct SimpleKey
//@ impl yam-core/src/parsing/scanner.rs SimpleKey
//@ spec SimpleKey::new
    ensures !ret.possible, !ret.required, ret.token_number == 0, ret.mark == mark
//@ item yam-core/src/parsing/scanner.rs struct Indent
//@ item yam-core/src/parsing/scanner.rs enum ImplicitMappingState derive=PartialEq,Eq,Structural
//@ item yam-core/src/parsing/scanner.rs struct Scanner

//@ raw
// =====================================================================================
// Source
// =====================================================================================
//@ trait yam-core/src/parsing/source.rs Source
    /// the whole input
    spec fn data(&self) -> Seq<u8>;
    /// number of bytes consumed so far
    spec fn at(&self) -> int;
//@ spec Source::peekz P21
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00, n <= 0xffff_ffff
    ensures ret == pk(self.data(), self.at() + n)
//@ omit Source::peek_unsafe
//@ spec Source::peek_checked
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00, n <= 0xffff_ffff
    ensures ret == (if self.at() + n < self.data().len() { Some(self.data()[self.at() + n]) } else { None })
//@ spec Source::peek_char
//@ spec Source::buf_max_len
    ensures 4 <= ret <= 0x1000_0000
//@ spec Source::buf_is_empty
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00
    ensures ret == (self.at() >= self.data().len())
//@ spec Source::fetch_while_is_alpha
    requires 0 <= old(self).at() <= old(self).data().len() <= 0xffff_ff00
    ensures
        final(self).data() == old(self).data(),
        final(self).at() == old(self).at() + ret <= final(self).data().len(),
        forall|i: int| old(self).at() <= i < final(self).at() ==> sp_alpha(#[trigger] old(self).data()[i]),
        !sp_alpha(pk(final(self).data(), final(self).at())),
        final(out)@ == old(out)@ + old(self).data().subrange(old(self).at(), final(self).at()),
//@ loop Source::fetch_while_is_alpha 1
    invariant
        self.data() == old(self).data(), self.at() == old(self).at() + n_chars <= self.data().len() <= 0xffff_ff00,
        0 <= old(self).at(),
        forall|i: int| old(self).at() <= i < self.at() ==> sp_alpha(#[trigger] old(self).data()[i]),
        out@ =~= old(out)@ + old(self).data().subrange(old(self).at(), self.at()),
    ensures !sp_alpha(pk(self.data(), self.at())),
    decreases self.data().len() - self.at()
//@ spec Source::push_non_breakz_chr
    requires 0 <= old(self).at() <= old(self).data().len() <= 0xffff_ff00
    ensures
        final(self).data() == old(self).data(),
        old(self).at() <= final(self).at() <= final(self).data().len(),
        forall|i: int| old(self).at() <= i < final(self).at() ==> !sp_break(#[trigger] old(self).data()[i]),
        final(self).at() == final(self).data().len() || sp_break(final(self).data()[final(self).at()]),
        final(vec)@ == old(vec)@ + old(self).data().subrange(old(self).at(), final(self).at()),
//@ spec Source::skip
    requires 0 <= old(self).at(), old(self).at() + n <= old(self).data().len() <= 0xffff_ff00
    ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + n
//@ spec Source::skip_while_blank
    requires 0 <= old(self).at() <= old(self).data().len() <= 0xffff_ff00
    ensures
        final(self).data() == old(self).data(),
        final(self).at() == old(self).at() + ret <= final(self).data().len(),
        forall|i: int| old(self).at() <= i < final(self).at() ==> sp_blank(#[trigger] old(self).data()[i]),
        !sp_blank(pk(final(self).data(), final(self).at())),
//@ loop Source::skip_while_blank 1
    invariant
        self.data() == old(self).data(), self.at() == old(self).at() + n_chars <= self.data().len() <= 0xffff_ff00,
        0 <= old(self).at(),
        forall|i: int| old(self).at() <= i < self.at() ==> sp_blank(#[trigger] old(self).data()[i]),
    ensures !sp_blank(pk(self.data(), self.at())),
    decreases self.data().len() - self.at()
//@ spec Source::skip_ws_to_eol
    requires 0 <= old(self).at() <= old(self).data().len() <= 0xffff_ff00
    ensures ws_eol_post(old(self).data(), old(self).at(), final(self).data(), final(self).at(), skip_tabs, prev_ws, ret)
//@ spec Source::skip_while_non_breakz
    requires 0 <= old(self).at() <= old(self).data().len() <= 0xffff_ff00
    ensures
        final(self).data() == old(self).data(),
        final(self).at() == old(self).at() + ret <= final(self).data().len(),
        forall|i: int| old(self).at() <= i < final(self).at() ==> !sp_breakz(#[trigger] old(self).data()[i]),
        sp_breakz(pk(final(self).data(), final(self).at())),
//@ loop Source::skip_while_non_breakz 1
    invariant
        self.data() == old(self).data(), self.at() == old(self).at() + count <= self.data().len() <= 0xffff_ff00,
        0 <= old(self).at(),
        forall|i: int| old(self).at() <= i < self.at() ==> !sp_breakz(#[trigger] old(self).data()[i]),
    ensures sp_breakz(pk(self.data(), self.at())),
    decreases self.data().len() - self.at()
//@ omit Source::skip_and_accumulate_to_eol
//@ spec Source::next_next_byte_is
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00
    ensures ret == (pk(self.data(), self.at() + 1) == chr)
//@ spec Source::next_is_three
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00
    ensures ret == three(self.data(), self.at(), chr)
//@ spec Source::next_can_be_plain_scalar
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00
    ensures ret == can_plain(self.data(), self.at(), in_flow)
//@ spec Source::next_is_document_indicator
    requires 0 <= self.at() <= self.data().len() <= 0xffff_ff00
    ensures ret == doc_ind(self.data(), self.at())
//@ raw
/// what skipping blanks and a comment may do
pub open spec fn ws_eol_post(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, tabs: bool, ws: bool, r: (u32, Result<SkipTabs, &'static str>)) -> bool {
    &&& d1 == d0
    &&& p1 == p0 + r.0 && p1 <= d0.len()
    &&& forall|i: int| p0 <= i < p1 ==> !sp_breakz(#[trigger] d0[i])
    &&& p1 == p0 || asc(pk(d0, p1)) || asc(pk(d0, p1 - 1)) // P08
    &&& r.1 is Ok ==> {
        &&& pk(d0, p1) != 0x20 && pk(d0, p1) != 0x23 && (tabs ==> pk(d0, p1) != 0x09)
        &&& r.1->Ok_0 is Result
        &&& p1 > p0 && !ws ==> sp_blank(d0[p0])
    }
    &&& r.1 is Err ==> pk(d0, p0) == 0x23 && p1 == p0
}
//@ item yam-core/src/parsing/source.rs fn shared_skip_ws_to_eol
//@ spec shared_skip_ws_to_eol
    requires 0 <= old(x).at() <= old(x).data().len() <= 0xffff_ff00, bytes_consumed == 0, !any_tabs
    ensures ws_eol_post(old(x).data(), old(x).at(), final(x).data(), final(x).at(), skip_tabs, has_yaml_ws, ret)
//@ at shared_skip_ws_to_eol start
    let ghost ws0 = has_yaml_ws;
//@ loop shared_skip_ws_to_eol 1
    invariant
        x.data() == old(x).data(), x.at() == old(x).at() + bytes_consumed <= x.data().len() <= 0xffff_ff00,
        0 <= old(x).at(),
        forall|i: int| old(x).at() <= i < x.at() ==> !sp_breakz(#[trigger] old(x).data()[i]),
        x.at() > old(x).at() && !ws0 ==> sp_blank(old(x).data()[old(x).at()]),
        x.at() == old(x).at() ==> has_yaml_ws == ws0 && !any_tabs,
        x.at() > old(x).at() ==> has_yaml_ws || any_tabs,
        ws0 ==> has_yaml_ws,
        x.at() == old(x).at() || asc(pk(x.data(), x.at())) || asc(pk(x.data(), x.at() - 1)), // P08
    ensures
        pk(x.data(), x.at()) != 0x20 && pk(x.data(), x.at()) != 0x23 && (skip_tabs ==> pk(x.data(), x.at()) != 0x09),
    decreases x.data().len() - x.at()
//@ loop shared_skip_ws_to_eol 2
    invariant
        x.data() == old(x).data(), x.at() == old(x).at() + bytes_consumed + 1 <= x.data().len() <= 0xffff_ff00,
        0 <= old(x).at(),
        forall|i: int| old(x).at() <= i < x.at() ==> !sp_breakz(#[trigger] old(x).data()[i]),
        x.at() > old(x).at(),
        !ws0 ==> sp_blank(old(x).data()[old(x).at()]),
        has_yaml_ws || any_tabs,
    decreases x.data().len() - x.at()
//@ item yam-core/src/parsing/source.rs struct StrSource
//@ impl yam-core/src/parsing/source.rs StrSource
//@ spec StrSource::new P21
    ensures ret.at() == 0, ret.data() == vstd::utf8::encode_utf8(input@), u8ok(ret.data())
//@ at StrSource::new start
    proof { lemma_u8_str(input@); }
//@ impl yam-core/src/parsing/source.rs StrSource for Source
    open spec fn data(&self) -> Seq<u8> { self.input@ }
    open spec fn at(&self) -> int { self.pos as int }
//@ omit StrSource::peek_unsafe
//@ spec StrSource::peek_checked P21
//@ external StrSource::peek_char
//@ expect StrSource::peek_char
    {
        let end = self.input.len().min(self.pos + 4);
        let bytes = self.input.get(self.pos..end).unwrap_or_default();
        bytes
            .utf8_chunks()
            .next()
            .and_then(|chunk| chunk.valid().chars().next())
            .unwrap_or('\u{FFFD}')
    }
//@ spec StrSource::buf_is_empty P21
//@ spec StrSource::push_non_breakz_chr P21
//@ rewrite StrSource::push_non_breakz_chr
self.input[self.pos..]
            .iter()
            .position(|&c| is_break(c))
            .unwrap_or(self.input.len() - self.pos)
=>
vx_position_break(&self.input[self.pos..]).unwrap_or(self.input.len() - self.pos)
//@ at StrSource::push_non_breakz_chr end
    proof {
        assert(slice@ =~= self.data().subrange(old(self).at(), self.at()));
        assert forall|i: int| old(self).at() <= i < self.at() implies !sp_break(#[trigger] self.data()[i]) by {
            assert(self.data().subrange(old(self).at(), self.data().len() as int)[i - old(self).at()] == self.data()[i]);
        }
    }
//@ spec StrSource::skip P21
//# Verus rejects an impl method that calls a function generic over the trait being implemented;
//# the callee's contract is proved for every Source, the one-line delegation is pinned textually.
//@ external StrSource::skip_ws_to_eol
//@ expect StrSource::skip_ws_to_eol
    {
        shared_skip_ws_to_eol(self, skip_tabs, 0, false, has_yaml_ws)
    }
//@ raw
/// `s.iter().position(|&c| is_break(c))`
pub fn vx_position_break(s: &[u8]) -> (r: Option<usize>)
    ensures match r {
        None => forall|i: int| 0 <= i < s@.len() ==> !sp_break(#[trigger] s@[i]),
        Some(k) => k < s@.len() && sp_break(s@[k as int]) && forall|i: int| 0 <= i < k ==> !sp_break(#[trigger] s@[i]),
    }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> !sp_break(#[trigger] s@[j]),
        decreases s@.len() - i
    {
        if is_break(s[i]) { return Some(i); }
        i += 1;
    }
    None
}
