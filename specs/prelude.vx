//@ use
#![feature(allocator_api)]
use std::borrow::Cow;
use std::collections::VecDeque;
//@ raw
global size_of usize == 8;
// ---- helpers the desugaring rules refer to ----
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vx_format() -> String { String::new() }
#[verifier::external_body]
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_same<T>(a: T, b: T) -> (r: T) ensures r == b { b }
// ---- assumed contracts of the standard library ----
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool)
    ensures r == (b'0' <= *c <= b'9');
pub assume_specification[ u8::is_ascii_hexdigit ](c: &u8) -> (r: bool)
    ensures r == (b'0' <= *c <= b'9' || b'a' <= *c <= b'f' || b'A' <= *c <= b'F');
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool)
    ensures r == (b'0' <= *c <= b'9' || b'a' <= *c <= b'z' || b'A' <= *c <= b'Z');
pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T,A>::is_empty ](v: &VecDeque<T,A>) -> (r: bool)
    ensures r == (v@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T,A>::back ](v: &VecDeque<T,A>) -> (r: Option<&T>)
    ensures match r { None => v@.len() == 0, Some(t) => v@.len() > 0 && *t == v@.last() };
pub mod vx_usv { use vstd::prelude::*; pub open spec fn is_scalar_value(i: u32) -> bool { i <= 0xD7FF || (0xE000 <= i && i <= 0x10FFFF) } }
pub use vx_usv::*;
pub assume_specification[ char::from_u32 ](i: u32) -> (r: Option<char>)
    ensures r == (if is_scalar_value(i) { Some(i as char) } else { None });
pub assume_specification<T>[ Option::<T>::is_some_and ](o: Option<T>, f: impl FnOnce(T) -> bool) -> (r: bool)
    requires o is Some ==> f.requires((o->0,))
    ensures match o { None => !r, Some(x) => f.ensures((x,), r) };
pub assume_specification<'a, B: ?Sized + ToOwned<Owned: Default>>[ <Cow<'a, B> as Default>::default ]() -> (r: Cow<'a, B>);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { None => None, Some(x) => Some(*x) });
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::valid_utf8(v@) && vstd::utf8::encode_utf8(s@) == v@, Err(_) => !vstd::utf8::valid_utf8(v@) };
pub assume_specification[ String::from_utf8_unchecked ](v: Vec<u8>) -> (r: String)
    requires u8ok(v@) // P08
    ensures vstd::utf8::valid_utf8(v@) ==> vstd::utf8::encode_utf8(r@) == v@;
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
// =====================================================================================
// strings
// =====================================================================================
pub mod vx_str { use vstd::prelude::*; use std::borrow::Cow;
/// the text of a `Cow<str>`
pub open spec fn cowv<'a>(c: Cow<'a, str>) -> Seq<char> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }
}
pub broadcast axiom fn ax_cow_str(c: Cow<'_, str>, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<'_, str>>(&c, s) <==> s@ == cowv(c);
pub broadcast axiom fn ax_string_str(c: String, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(&c, s) <==> s@ == c@;
pub broadcast axiom fn ax_char_str(c: char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, s) <==> s@ == seq![c];
}
pub use vx_str::*;
broadcast use {vx_str::ax_cow_str, vx_str::ax_string_str, vx_str::ax_char_str};
/// `Cow::default`: the empty text
#[verifier::external_body]
pub fn vx_cow_default<'a>() -> (r: Cow<'a, str>) ensures cowv(r).len() == 0 { Cow::default() }
