//# P10: scalars resolve by the YAML core schema
//@ use
use core::marker::PhantomData;
use vstd::utf8::*;
use vstd::string::*;
//@ option str_ranges
//@ option option_map
//@ method as_ref .vx_txt
//@ method into vx_into value
//@ method parse::<i64> vx_parse_i64
//@ method parse::<f64> vx_parse_f64
//@ method iter.any vx_any
//@ method starts_with vx_starts_with
//@ method ends_with vx_ends_with
//@ subst f64::INFINITY => vx_f64_inf()
//@ subst f64::NEG_INFINITY => vx_f64_neg_inf()
//@ subst f64::NAN => vx_f64_nan()
//@ arg parse_core_schema_fp 0 vx_text
//@ arg parse_i64_from_cow 0 vx_text
//@ arg from_str_radix 0 vx_text
//@ recv tag vx_cow_ref
//@ raw
// ---- text ----
/// the text of a `&str`, `String` or `Cow<str>`
pub trait VxText { spec fn txt(&self) -> Seq<char>; fn vx_txt(&self) -> (r: &str) ensures r@ == self.txt(); }
impl VxText for str { open spec fn txt(&self) -> Seq<char> { self@ } fn vx_txt(&self) -> (r: &str) { self } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } fn vx_txt(&self) -> (r: &str) { (**self).vx_txt() } }
impl VxText for String { open spec fn txt(&self) -> Seq<char> { self@ } fn vx_txt(&self) -> (r: &str) { self.as_str() } }
pub open spec fn cowt<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> VxText for Cow<'a, str> {
    open spec fn txt(&self) -> Seq<char> { cowt(*self) }
    fn vx_txt(&self) -> (r: &str) { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => s.as_str() } }
}
pub fn vx_text<T: VxText + ?Sized>(s: &T) -> (r: &str) ensures r@ == s.txt() { s.vx_txt() }
/// the start of a text: a character or a text
pub trait VxPat { spec fn starts(&self, s: Seq<char>) -> bool; spec fn ends(&self, s: Seq<char>) -> bool; }
impl VxPat for char {
    open spec fn starts(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
    open spec fn ends(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
}
impl VxPat for &str {
    open spec fn starts(&self, s: Seq<char>) -> bool { self@.is_prefix_of(s) }
    open spec fn ends(&self, s: Seq<char>) -> bool { self@.is_suffix_of(s) }
}
#[verifier::external_body]
pub fn vx_starts_with<T: VxText + ?Sized, P: VxPat>(s: &T, p: P) -> (r: bool) ensures r == p.starts(s.txt()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ends_with<T: VxText + ?Sized, P: VxPat>(s: &T, p: P) -> (r: bool) ensures r == p.ends(s.txt()) { unimplemented!() }
/// slices of strings: a position that is no boundary of characters panics
#[verifier::external_body]
pub fn vx_str_from<'s>(s: &'s str, a: usize) -> (r: &'s str)
    requires a <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int)
    ensures encode_utf8(r@) == encode_utf8(s@).skip(a as int)
{ &s[a..] }
#[verifier::external_body]
pub fn vx_str_range<'s>(s: &'s str, a: usize, b: usize) -> (r: &'s str)
    requires a <= b <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int), is_char_boundary(encode_utf8(s@), b as int)
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int)
{ &s[a..b] }
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],))
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false)
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],)),
            forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] s@[k],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { assert(f.ensures((&s@[i as int],), true)); return true; }
        i += 1;
    }
    false
}
/// what `From` makes of a value: some function of it
pub uninterp spec fn made<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn vx_into<A: Into<B>, B>(a: A) -> (r: B) ensures r == made::<A, B>(a) { a.into() }
#[verifier::external_body]
pub fn vx_cow_ref<'c, 'a, T: Clone>(c: &'c Cow<'a, T>) -> (r: &'c T)
    ensures *r == (match *c { Cow::Borrowed(x) => *x, Cow::Owned(x) => x })
{ &**c }
pub assume_specification<'a, B: ?Sized + ToOwned>[ <Cow<'a, B> as Clone>::clone ](c: &Cow<'a, B>) -> (r: Cow<'a, B>)
    ensures r == *c;

// ---- numbers ----
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(core::num::ParseFloatError);
pub open spec fn digit(c: char, radix: int) -> Option<int> {
    let d = if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 };
    if d < radix { Some(d) } else { None }
}
/// the number that one or more digits denote
pub open spec fn digits(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else {
        match digit(s.last(), radix) {
            None => None,
            Some(d) => if s.len() == 1 { Some(d) } else {
                match digits(s.drop_last(), radix) { None => None, Some(n) => Some(n * radix + d) }
            },
        }
    }
}
pub open spec fn sign(c: char) -> bool { c == '+' || c == '-' }
/// digits with an optional sign
pub open spec fn signed(s: Seq<char>, radix: int) -> Option<int> {
    if s.len() > 0 && sign(s[0]) {
        match digits(s.skip(1), radix) { None => None, Some(n) => Some(if s[0] == '-' { -n } else { n }) }
    } else { digits(s, radix) }
}
pub open spec fn fits(n: int) -> bool { i64::MIN <= n <= i64::MAX }
/// number of leading decimal digits
pub open spec fn lead(s: Seq<char>) -> nat decreases s.len() {
    if s.len() > 0 && '0' <= s[0] <= '9' { 1 + lead(s.skip(1)) } else { 0 }
}
pub open spec fn exponent(e: Seq<char>) -> bool {
    e.len() == 0 || ((e[0] == 'e' || e[0] == 'E') && {
        let f = if e.len() > 1 && sign(e[1]) { e.skip(2) } else { e.skip(1) };
        f.len() > 0 && lead(f) == f.len()
    })
}
/// `[-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?`
pub open spec fn decimal(s: Seq<char>) -> bool {
    let t = if s.len() > 0 && sign(s[0]) { s.skip(1) } else { s };
    let a = lead(t);
    let u = t.skip(a as int);
    if u.len() > 0 && u[0] == '.' {
        let b = lead(u.skip(1));
        (a > 0 || b > 0) && exponent(u.skip(1 + b as int))
    } else { a > 0 && exponent(u) }
}
pub uninterp spec fn f_inf() -> f64;
pub uninterp spec fn f_neg_inf() -> f64;
pub uninterp spec fn f_nan() -> f64;
#[verifier::external_body] pub fn vx_f64_inf() -> (r: f64) ensures r == f_inf() { f64::INFINITY }
#[verifier::external_body] pub fn vx_f64_neg_inf() -> (r: f64) ensures r == f_neg_inf() { f64::NEG_INFINITY }
#[verifier::external_body] pub fn vx_f64_nan() -> (r: f64) ensures r == f_nan() { f64::NAN }
/// the floating-point number nearest to a decimal
pub uninterp spec fn f_val(s: Seq<char>) -> f64;
pub open spec fn radix_post(s: Seq<char>, radix: int, r: Result<i64, core::num::ParseIntError>) -> bool {
    match signed(s, radix) { Some(n) if fits(n) => r == Ok::<i64, core::num::ParseIntError>(n as i64), _ => r is Err }
}
pub assume_specification[ i64::from_str_radix ](s: &str, radix: u32) -> (r: Result<i64, core::num::ParseIntError>)
    requires 2 <= radix <= 36
    ensures radix_post(s@, radix as int, r);
#[verifier::external_body]
pub fn vx_parse_i64<T: VxText + ?Sized>(s: &T) -> (r: Result<i64, core::num::ParseIntError>) ensures radix_post(s.txt(), 10, r) { s.vx_txt().parse::<i64>() }
/// outside `inf`, `infinity` and `nan`, which have no digit, the numbers that Rust reads are those of the core schema
#[verifier::external_body]
pub fn vx_parse_f64<T: VxText + ?Sized>(s: &T) -> (r: Result<f64, core::num::ParseFloatError>)
    ensures decimal(s.txt()) ==> r == Ok::<f64, core::num::ParseFloatError>(f_val(s.txt())),
        !decimal(s.txt()) && has_digit_byte(encode_utf8(s.txt())) ==> r is Err
{ s.vx_txt().parse::<f64>() }
pub open spec fn digit_byte(b: u8) -> bool { b'0' <= b <= b'9' }
pub open spec fn has_digit_byte(b: Seq<u8>) -> bool { exists|i: int| 0 <= i < b.len() && digit_byte(#[trigger] b[i]) }

// ---- the core schema ----
pub enum Core { Null, Bool(bool), Int(int), Float(f64), Str }
pub open spec fn core_int(s: Seq<char>) -> Option<int> {
    if s.len() >= 2 && s[0] == '0' && s[1] == 'x' { digits(s.skip(2), 16) }
    else if s.len() >= 2 && s[0] == '0' && s[1] == 'o' { digits(s.skip(2), 8) }
    else { signed(s, 10) }
}
pub open spec fn core_float(s: Seq<char>) -> Option<f64> {
    if s == ".inf"@ || s == ".Inf"@ || s == ".INF"@ || s == "+.inf"@ || s == "+.Inf"@ || s == "+.INF"@ { Some(f_inf()) }
    else if s == "-.inf"@ || s == "-.Inf"@ || s == "-.INF"@ { Some(f_neg_inf()) }
    else if s == ".nan"@ || s == ".NaN"@ || s == ".NAN"@ { Some(f_nan()) }
    else if decimal(s) { Some(f_val(s)) }
    else { None }
}
pub open spec fn is_null_text(s: Seq<char>) -> bool { s.len() == 0 || s == "~"@ || s == "null"@ || s == "Null"@ || s == "NULL"@ }
pub open spec fn is_true_text(s: Seq<char>) -> bool { s == "true"@ || s == "True"@ || s == "TRUE"@ }
pub open spec fn is_false_text(s: Seq<char>) -> bool { s == "false"@ || s == "False"@ || s == "FALSE"@ }
pub open spec fn core(s: Seq<char>) -> Core {
    if is_null_text(s) { Core::Null }
    else if is_true_text(s) { Core::Bool(true) }
    else if is_false_text(s) { Core::Bool(false) }
    else if core_int(s) matches Some(n) && fits(n) { Core::Int(core_int(s)->0) }
    else if core_float(s) is Some { Core::Float(core_float(s)->0) }
    else { Core::Str }
}
pub open spec fn core_handle() -> Seq<char> { "tag:yaml.org,2002:"@ }
/// the value of a scalar by its style and tag; `None` when the text is none of its core-schema tag
pub open spec fn resolve(s: Seq<char>, style: ScalarType, tag: Option<(Seq<char>, Seq<char>)>) -> Option<Core> {
    if style != ScalarType::Plain { Some(Core::Str) }
    else if tag is Some && (tag->0).0 == core_handle() {
        let t = (tag->0).1;
        if t == "bool"@ { if core(s) is Bool { Some(core(s)) } else { None } }
        else if t == "int"@ { if core(s) is Int { Some(core(s)) } else { None } }
        else if t == "float"@ { if core_float(s) is Some { Some(Core::Float(core_float(s)->0)) } else { None } }
        else if t == "null"@ { if core(s) is Null { Some(core(s)) } else { None } }
        else if t == "str"@ { Some(Core::Str) }
        else { None }
    } else { Some(core(s)) }
}
pub open spec fn tagt(t: Option<Cow<'_, Tag>>) -> Option<(Seq<char>, Seq<char>)> {
    match t { None => None, Some(Cow::Borrowed(t)) => Some((t.handle@, t.suffix@)), Some(Cow::Owned(t)) => Some((t.handle@, t.suffix@)) }
}
pub open spec fn is_core<'a, F, I, S>(r: YamlScalar<'a, F, I, S>, c: Core, v: Cow<'a, str>) -> bool {
    match c {
        Core::Null => r is Null,
        Core::Bool(b) => r == YamlScalar::<'a, F, I, S>::Bool(b),
        Core::Int(n) => r == YamlScalar::<'a, F, I, S>::Integer(made::<i64, I>(n as i64)),
        Core::Float(x) => r == YamlScalar::<'a, F, I, S>::FloatingPoint(made::<f64, F>(x)),
        Core::Str => r == YamlScalar::<'a, F, I, S>::String(made::<Cow<'a, str>, S>(v)),
    }
}

// ---- texts and bytes ----
pub proof fn ascii_byte(s: Seq<char>)
    requires encode_utf8(s).len() > 0, encode_utf8(s)[0] < 0x80
    ensures s.len() > 0, s[0] as u32 == encode_utf8(s)[0] as u32, encode_utf8(s.skip(1)) == encode_utf8(s).skip(1),
{
    let b = encode_utf8(s);
    encode_utf8_valid_utf8(s);
    let rest = b.skip(1);
    assert(valid_utf8(rest));
    let t = decode_utf8(rest);
    decode_utf8_encode_utf8(rest);
    let c = b[0] as char;
    let u = seq![c] + t;
    encode_utf8_concat(seq![c], t);
    is_ascii_chars_encode_utf8(seq![c]);
    assert(is_ascii_chars(seq![c]));
    assert(encode_utf8(u) =~= b);
    same_text(u, s);
    assert(s.skip(1) =~= t);
}
pub proof fn ascii_char(s: Seq<char>)
    requires s.len() > 0, s[0] < '\u{80}'
    ensures encode_utf8(s).len() > 0, s[0] as u8 == encode_utf8(s)[0], encode_utf8(s.skip(1)) == encode_utf8(s).skip(1)
{
    let h = seq![s[0]];
    assert(s =~= h + s.skip(1));
    encode_utf8_concat(h, s.skip(1));
    is_ascii_chars_encode_utf8(h);
    assert(is_ascii_chars(h));
    assert(encode_utf8(s) == encode_utf8(h) + encode_utf8(s.skip(1)));
    assert(encode_utf8(s.skip(1)) =~= encode_utf8(s).skip(1));
}
pub proof fn same_text(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub proof fn ascii_text(s: Seq<char>)
    requires is_ascii_chars(s)
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> encode_utf8(s)[i] == #[trigger] s[i] as u8
{ is_ascii_chars_encode_utf8(s); }
pub proof fn words_facts(s: Seq<char>)
    ensures ({ let b = encode_utf8(s);
        &&& (b.len() == 0 <==> s.len() == 0)
        &&& (s == ""@ <==> s.len() == 0)
        &&& (b.len() == 1 && b[0] == 0x7e <==> s == "~"@)
        &&& (is_null_text(s) && s.len() > 0 && s != "~"@ ==> b.len() == 4 && (b[0] & 0xDF) == 78 && (b[0] == 0x6e || b[0] == 0x4e))
        &&& (is_true_text(s) ==> b.len() == 4 && (b[0] & 0xDF) == 84 && (b[0] == 0x74 || b[0] == 0x54))
        &&& (is_false_text(s) ==> b.len() == 5 && (b[0] == 0x66 || b[0] == 0x46))
    })
{
    let b = encode_utf8(s);
    reveal_strlit("");
    if s.len() == 0 { assert(s =~= ""@); }
    if s.len() > 0 { encode_utf8_first_scalar(s); }
    reveal_strlit("~"); reveal_strlit("null"); reveal_strlit("Null"); reveal_strlit("NULL");
    reveal_strlit("true"); reveal_strlit("True"); reveal_strlit("TRUE");
    reveal_strlit("false"); reveal_strlit("False"); reveal_strlit("FALSE");
    if is_ascii_chars(s) { ascii_text(s); }
    if b.len() == 1 && b[0] == 0x7e {
        ascii_byte(s);
        assert(encode_utf8(s.skip(1)).len() == 0);
        if s.len() > 1 { encode_utf8_first_scalar(s.skip(1)); }
        assert(s =~= "~"@);
    }
    assert(110u8 & 0xDF == 78u8) by (compute);
    assert(78u8 & 0xDF == 78u8) by (compute);
    assert(116u8 & 0xDF == 84u8) by (compute);
    assert(84u8 & 0xDF == 84u8) by (compute);
}
pub proof fn boundaries(s: Seq<char>)
    ensures ({ let b = encode_utf8(s);
        &&& (b.len() >= 1 && b[0] < 0x80 ==> s.len() >= 1 && s[0] as u8 == b[0] && s[0] < '\u{80}' && is_char_boundary(b, 1)
            && forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(1) ==> r == s.skip(1))
        &&& (b.len() >= 2 && b[0] < 0x80 && b[1] < 0x80 ==> s.len() >= 2 && s[1] as u8 == b[1] && s[1] < '\u{80}' && is_char_boundary(b, 2)
            && forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(2) ==> r == s.skip(2))
        &&& (b.len() >= 3 && b[0] < 0x80 && b[1] < 0x80 && b[2] < 0x80 ==> s.len() >= 3 && s[2] as u8 == b[2] && s[2] < '\u{80}')
        &&& (s.len() >= 1 && s[0] < '\u{80}' ==> b.len() >= 1 && b[0] == s[0] as u8)
        &&& (s.len() >= 2 && s[0] < '\u{80}' && s[1] < '\u{80}' ==> b.len() >= 2 && b[1] == s[1] as u8)
        &&& (s.len() >= 3 && s[0] < '\u{80}' && s[1] < '\u{80}' && s[2] < '\u{80}' ==> b.len() >= 3 && b[2] == s[2] as u8)
    })
{
    let b = encode_utf8(s);
    let s1 = s.skip(1);
    let s2 = s1.skip(1);
    if (b.len() >= 1 && b[0] < 0x80) || (s.len() >= 1 && s[0] < '\u{80}') {
        if b.len() >= 1 && b[0] < 0x80 { ascii_byte(s); } else { ascii_char(s); }
        encode_utf8_valid_utf8(s);
        reveal_with_fuel(is_char_boundary, 3);
        assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(1) implies r == s.skip(1) by { same_text(r, s1); }
        let b1 = encode_utf8(s1);
        if (b1.len() >= 1 && b1[0] < 0x80) || (s1.len() >= 1 && s1[0] < '\u{80}') {
            if b1.len() >= 1 && b1[0] < 0x80 { ascii_byte(s1); } else { ascii_char(s1); }
            encode_utf8_valid_utf8(s1);
            assert(s2 =~= s.skip(2));
            assert(b1.skip(1) =~= b.skip(2));
            assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(2) implies r == s.skip(2) by { same_text(r, s2); }
            let b2 = encode_utf8(s2);
            if (b2.len() >= 1 && b2[0] < 0x80) || (s2.len() >= 1 && s2[0] < '\u{80}') {
                if b2.len() >= 1 && b2[0] < 0x80 { ascii_byte(s2); } else { ascii_char(s2); }
            }
        }
    }
}
pub proof fn digits_all(s: Seq<char>, radix: int)
    requires digits(s, radix) is Some
    ensures forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) is Some
    decreases s.len()
{
    if s.len() > 1 {
        digits_all(s.drop_last(), radix);
        assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i], radix) is Some by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
/// a decimal has a digit, and no prefix of another base
pub proof fn decimal_digit(s: Seq<char>)
    requires decimal(s)
    ensures has_digit_byte(encode_utf8(s))
{
    let b = encode_utf8(s);
    let t = if s.len() > 0 && sign(s[0]) { s.skip(1) } else { s };
    let a = lead(t);
    boundaries(s);
    assert(t.skip(0) =~= t);
    if a > 0 {
        assert(digit_byte(b[if t == s { 0int } else { 1int }]));
    } else {
        assert(t.len() > 0 && t[0] == '.');
        let u = t.skip(1);
        assert(lead(u) > 0);
        assert(u.len() > 0 && u[0] == t[1]);
        if s.len() > 0 && sign(s[0]) { assert(t[1] == s[2] && t[0] == s[1]); assert(digit_byte(b[2])); }
        else { assert(digit_byte(b[1])); }
    }
}
pub proof fn core_facts(s: Seq<char>)
    ensures ({ let b = encode_utf8(s);
        let ox = s.len() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'o');
        &&& (ox ==> signed(s, 10) is None && !decimal(s))
        &&& (ox && digits(s.skip(2), if s[1] == 'x' { 16 } else { 8 }) is Some ==> s.len() > 2 && digit(s[2], if s[1] == 'x' { 16 } else { 8 }) is Some
            && b.len() > 2 && b[2] == s[2] as u8)
        &&& (ox && s.len() > 2 && !sign(s[2]) ==> signed(s.skip(2), 16) == digits(s.skip(2), 16) && signed(s.skip(2), 8) == digits(s.skip(2), 8))
        &&& (decimal(s) ==> has_digit_byte(b))
    })
{
    boundaries(s);
    if s.len() > 2 { assert(s.skip(2)[0] == s[2]); }
    if decimal(s) { decimal_digit(s); }
    let ox = s.len() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'o');
    if ox {
        if digits(s, 10) is Some { digits_all(s, 10); assert(digit(s[1], 10) is Some); }
        assert(s.skip(1)[0] == s[1]);
        reveal_with_fuel(lead, 3);
        assert(lead(s) == 1);
        assert(s.skip(1).len() > 0);
        let r = if s[1] == 'x' { 16int } else { 8int };
        if digits(s.skip(2), r) is Some { digits_all(s.skip(2), r); assert(s.skip(2)[0] == s[2]); }
    }
}
//@ item yam-core/src/parsing/mod.rs struct Tag derive=Clone
//@ item yam-core/src/prelude/mod.rs enum ScalarType derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/parser.rs struct ScalarValue
//@ item yam-core/src/node/scalar.rs enum YamlScalar
//@ impl yam-core/src/parsing/mod.rs Tag
//@ omitrest Tag
//@ spec Tag::is_yaml_core_schema P10
ensures ret == (self.handle@ == core_handle()),
//@ item yam-core/src/node/scalar.rs fn parse_i64_from_cow
//@ spec parse_i64_from_cow P10
ensures radix_post(v@, 10, ret),
//@ item yam-core/src/node/scalar.rs fn parse_core_schema_fp
//@ spec parse_core_schema_fp P10
ensures ret == core_float(v@),
//@ impl yam-core/src/node/scalar.rs YamlScalar
//@ spec YamlScalar::parse_from_scalar P10
ensures match resolve(cowt(value.value), value.scalar_type, tagt(value.tag)) { None => ret is None, Some(c) => ret is Some && is_core(ret->0, c, value.value) },
//@ spec YamlScalar::parse_from_cow_and_metadata P10
ensures match resolve(cowt(v), scalar_type, tagt(tag)) { None => ret is None, Some(c) => ret is Some && is_core(ret->0, c, v) },
//@ spec YamlScalar::parse_from_cow P10
ensures is_core(ret, core(cowt(v)), v),
//@ at YamlScalar::parse_from_cow start
proof { words_facts(cowt(v)); boundaries(cowt(v)); core_facts(cowt(v)); }
//@ at parse_core_schema_fp start
proof { core_facts(v@); }
