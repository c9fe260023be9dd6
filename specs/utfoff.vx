//@ raw
// stands for utfon.vx in the units that do not decide UTF-8: everything is allowed there
pub mod vx_utf { use vstd::prelude::*;
pub open spec fn u8ok(t: Seq<u8>) -> bool { true }
pub open spec fn asc(c: u8) -> bool { true }
pub open spec fn bnd(d: Seq<u8>, p: int) -> bool { true }
pub proof fn lemma_u8_tag(d: Seq<u8>, p: int) { }
pub proof fn lemma_u8_anchor(d: Seq<u8>, p: int, q: int) { }
pub proof fn lemma_u8_quoted(d: Seq<u8>, p: int, single: bool) { }
pub proof fn lemma_u8_fold(d: Seq<u8>, p: int, e: int) { }
pub proof fn lemma_u8_block(d: Seq<u8>, h: int, par: int, fold: bool) { }
pub proof fn lemma_u8_str(t: Seq<char>) { }
}
pub use vx_utf::*;
