//# P19: the document iterator yields exactly the events of the first document
//@ use
use core::ops::ControlFlow;
use vstd::utf8::*;
//@ keep StrSource
//@ item yam-core/src/parsing/parser_iter.rs enum YamEvent derive=
//@ raw
/// the text of a value that is a `str` by reference (`AsRef<str>`)
pub trait VxText { spec fn txt(&self) -> Seq<char>; fn vx_txt(&self) -> (r: &str) ensures r@ == self.txt(); }
pub mod vx_items { use vstd::prelude::*; use super::*;
/// what the iterator makes of an event of the parser
pub open spec fn item_of<'i>(e: Event<'i>) -> Option<YamEvent<'i>> {
    match e {
        Event::DocumentStart(_) => Some(YamEvent::DocStart),
        Event::DocumentEnd => Some(YamEvent::DocEnd),
        Event::Alias(a) => Some(YamEvent::Alias(a)),
        Event::Scalar(s) => Some(YamEvent::Scalar(s)),
        Event::SequenceStart(a, t) => Some(YamEvent::SeqStart(a, t)),
        Event::SequenceEnd => Some(YamEvent::SeqEnd),
        Event::MappingStart(a, t) => Some(YamEvent::MapStart(a, t)),
        Event::MappingEnd => Some(YamEvent::MapEnd),
        _ => None,
    }
}
/// the items of the first document of these events
pub open spec fn items<'i>(s: Seq<(Event<'i>, Span)>) -> Seq<YamEvent<'i>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = items(s.drop_last());
        if p.len() > 0 && p.last() is DocEnd { p } else {
            match item_of(s.last().0) { Some(y) => p.push(y), None => p }
        }
    }
}
pub broadcast proof fn lemma_items_push<'i>(s: Seq<(Event<'i>, Span)>, e: (Event<'i>, Span))
    ensures #[trigger] items(s.push(e)) == { let p = items(s); if p.len() > 0 && p.last() is DocEnd { p } else { match item_of(e.0) { Some(y) => p.push(y), None => p } } }
{ assert(s.push(e).drop_last() =~= s); reveal_with_fuel(items, 2); }
pub open spec fn whole(s: Seq<YamEvent>) -> bool { s.len() > 0 && s.last() is DocEnd }
}
pub use vx_items::*;
broadcast use {vx_items::lemma_items_push};
//@ rename yam-core/src/parsing/parser_iter.rs State IterState
//@ item yam-core/src/parsing/parser_iter.rs enum IterState derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/parser_iter.rs struct ParserIter
//@ field ParserIter vx_got
Ghost<Seq<YamEvent<'de>>>
Ghost(Seq::empty())
//@ impl yam-core/src/parsing/parser_iter.rs ParserIter
//@ raw
impl<'de, R: Source> ParserIter<'de, R> {
    /// what was yielded is the first document, so far
    pub open spec fn told(&self) -> bool { self.vx_got@ =~= items(self.parser.out()) }
    pub open spec fn ok(&self) -> bool {
        &&& self.parser.basic() && self.parser.current is None && !self.parser.stream_end_emitted
        &&& self.error is None ==> self.parser.wf() && match self.state {
            IterState::StreamStart => self.parser.out().len() == 0,
            IterState::InDocument => self.parser.g().ph is Doc && !whole(items(self.parser.out())),
            IterState::EndDocument => whole(items(self.parser.out())) && (self.parser.g().ph is Between || self.parser.state is End),
        }
    }
    /// nothing more is yielded
    pub open spec fn over(&self) -> bool {
        self.error is Some || self.state is EndDocument && self.parser.state is End
    }
    /// the document is complete, or there is none
    pub open spec fn done_early(&self) -> bool {
        whole(items(self.parser.out())) || items(self.parser.out()).len() == 0 && self.parser.out().len() > 0 && self.parser.out().last().0 is StreamEnd
    }
    pub open spec fn outcome(&self, o: &Self, r: Result<YamEvent<'de>, YamlError>) -> bool {
        &&& self.parser.basic() && self.parser.current is None && !self.parser.stream_end_emitted && self.parser.d() == o.parser.d()
        &&& self.vx_got == o.vx_got && self.error == o.error
        &&& r matches Err(e) ==> self.parser.vx_errs@ =~= o.parser.vx_errs@.push(e) || self.done_early()
        &&& r is Ok ==> self.ok() && self.parser.wf()
    }
}
//@ spec ParserIter::new P19
    requires input.at() == 0, input.data().len() <= max_len()
    ensures ret.ok(), ret.told(), ret.parser.d() == input.data(), ret.vx_got@.len() == 0, !ret.over()
//@ spec ParserIter::process_start P19
    requires old(self).ok(), old(self).error is None, old(self).state is StreamStart
    ensures final(self).outcome(old(self), ret), ret matches Ok(y) ==> y is DocStart && final(self).state is InDocument && items(final(self).parser.out()) =~= Seq::empty().push(y),
        ret is Err ==> items(final(self).parser.out()) =~= Seq::empty(),
//@ spec ParserIter::process_doc P19
    requires old(self).ok(), old(self).error is None, old(self).state is InDocument
    ensures match ret {
        ControlFlow::Continue(_) => final(self).ok() && final(self).error is None && final(self).vx_got == old(self).vx_got && final(self).parser.d() == old(self).parser.d()
            && items(final(self).parser.out()) =~= items(old(self).parser.out()) && final(self).parser.vx_errs == old(self).parser.vx_errs && final(self).parser.work() < old(self).parser.work() && !final(self).over(),
        ControlFlow::Break(r) => final(self).outcome(old(self), r)
            && (r matches Ok(y) ==> !(y is StreamEnd) && items(final(self).parser.out()) =~= items(old(self).parser.out()).push(y))
            && (r is Err ==> final(self).parser.out() =~= old(self).parser.out()),
    }
//@ spec ParserIter::finish_document P19
    requires old(self).ok(), old(self).error is None, old(self).state is EndDocument
    ensures final(self).outcome(old(self), ret), items(final(self).parser.out()) =~= items(old(self).parser.out()),
        ret matches Ok(y) ==> y is StreamEnd && final(self).state is EndDocument && final(self).parser.state is End,
        old(self).parser.state is End ==> *final(self) == *old(self) && (ret matches Ok(y) && y is StreamEnd),
//@ impl yam-core/src/parsing/parser_iter.rs ParserIter for Iterator inherent
//@ spec ParserIter::next P19
    requires old(self).ok(), old(self).told()
    ensures final(self).ok(), final(self).told(), final(self).parser.d() == old(self).parser.d(),
        match ret { Some(y) => final(self).vx_got@ =~= old(self).vx_got@.push(y), None => final(self).vx_got == old(self).vx_got && final(self).over() },
        old(self).over() ==> ret is None && *final(self) == *old(self),
        ret is None && !old(self).over() ==> final(self).done_early() || (final(self).error matches Some(e) && final(self).parser.vx_errs@ =~= old(self).parser.vx_errs@.push(e)),
//@ at ParserIter::next exit
    if let Some(y) = &vx_ret { proof { self.vx_got = Ghost(self.vx_got@.push(*y)); } }
//@ loop ParserIter::next 1
    invariant_except_break self.parser.vx_errs == old(self).parser.vx_errs, self.ok(), self.told(), self.error is None, self.parser.d() == old(self).parser.d(), self.vx_got == old(self).vx_got, old(self).over() ==> *self == *old(self), old(self).error is None, !old(self).over() ==> !self.over(),
    ensures self.outcome(old(self), vx_brk1),
       vx_brk1 matches Ok(y) ==> if y is StreamEnd { self.over() && self.told() } else { items(self.parser.out()) =~= old(self).vx_got@.push(y) },
       vx_brk1 is Err ==> self.told(),
       old(self).over() ==> *self == *old(self) && (vx_brk1 matches Ok(y) && y is StreamEnd)
    decreases self.parser.work()
//@ spec ParserIter::from_str_ref P19
    requires encode_utf8(input.txt()).len() <= max_len()
    ensures ret.ok(), ret.told(), ret.parser.d() == encode_utf8(input.txt()), ret.vx_got@.len() == 0, !ret.over()
//@ rewrite ParserIter::from_str_ref
AsRef<str>
=>
VxText
//@ rewrite ParserIter::from_str_ref
input.as_ref()
=>
input.vx_txt()
