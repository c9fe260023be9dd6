//@ keep StrSource
//@ raw
/// what dereferencing a `Cow<str>` gives
pub fn vx_cow<'b, 'a>(c: &'b Cow<'a, str>) -> (r: &'b str) ensures r@ == cowv(*c) {
    match c { Cow::Borrowed(s) => *s, Cow::Owned(s) => s.as_str() }
}
/// the abstract value of a key
pub trait VxKey { type Ab; spec fn kv(&self) -> Self::Ab; }
impl<'a> VxKey for Cow<'a, str> { type Ab = Seq<char>; open spec fn kv(&self) -> Seq<char> { cowv(*self) } }
impl VxKey for String { type Ab = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for str { type Ab = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for usize { type Ab = usize; open spec fn kv(&self) -> usize { *self } }
/// stand-in for `alloc::collections::BTreeMap`: the documented behaviour of the methods used
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<K: VxKey, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::Ab, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::Ab, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::Ab, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxKey<Ab = K::Ab> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { None => !self@.contains_key(k.kv()), Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()] } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey<Ab = K::Ab> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Self) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
}
//@ item yam-core/src/parsing/mod.rs struct Tag derive=Clone
//@ item yam-core/src/parsing/parser.rs struct ScalarValue
//@ item yam-core/src/parsing/parser.rs enum State derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/parser.rs enum Event
//@ item yam-core/src/parsing/parser.rs enum KeyFlow derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/parsing/parser.rs type ParseResult
//@ raw
impl<'input> vstd::std_specs::cmp::PartialEqSpecImpl for Event<'input> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Event<'input>) -> bool { ev_eq(*self, *other) }
}
pub uninterp spec fn ev_eq_payload(a: Event, b: Event) -> bool;
pub open spec fn ev_unit(a: Event) -> bool {
    a is Nothing || a is StreamStart || a is StreamEnd || a is DocumentStart || a is DocumentEnd || a is Alias || a is SequenceEnd || a is MappingEnd
}
/// equality of events (only ever used to compare with a payload-free one)
pub open spec fn ev_eq(a: Event, b: Event) -> bool { if ev_unit(a) || ev_unit(b) { a == b } else { ev_eq_payload(a, b) } }
impl<'input> PartialEq for Event<'input> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl Clone for YamlError {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item yam-core/src/parsing/parser.rs struct Parser
//@ field Parser vx_errs
Ghost<Seq<YamlError>>
Ghost(Seq::empty())
//@ field Parser vx_toks
Ghost<Seq<Token<'input>>>
Ghost(Seq::empty())
//@ field Parser vx_log
Ghost<Seq<Rec<'input>>>
Ghost(Seq::empty())
//@ raw
// =====================================================================================
// the grammar of event streams (P01)
// =====================================================================================
pub mod vx_gram { use vstd::prelude::*; use super::*;
/// an open construct and what it expects next
pub enum Fr { Root, RootDone, InSeq, Key, Val, Bad }
pub enum Ph { Start, Between, Doc, Done }
pub struct G { pub ph: Ph, pub st: Seq<Fr> }
pub open spec fn g0() -> G { G { ph: Ph::Start, st: Seq::empty() } }
pub open spec fn wants_node(st: Seq<Fr>) -> bool { st.len() > 0 && (st.last() is Root || st.last() is InSeq || st.last() is Key || st.last() is Val) }
/// one node of the innermost construct is complete (or begun)
pub open spec fn adv(st: Seq<Fr>) -> Seq<Fr> {
    let up = st.drop_last();
    match st.last() { Fr::Root => up.push(Fr::RootDone), Fr::Key => up.push(Fr::Val), Fr::Val => up.push(Fr::Key), x => up.push(x) }
}
pub open spec fn step(g: G, ev: Event) -> Option<G> {
    match ev {
        Event::StreamStart => if g.ph is Start { Some(G { ph: Ph::Between, st: Seq::empty() }) } else { None },
        Event::StreamEnd => if g.ph is Between { Some(G { ph: Ph::Done, st: Seq::empty() }) } else { None },
        Event::DocumentStart(_) => if g.ph is Between { Some(G { ph: Ph::Doc, st: Seq::empty().push(Fr::Root) }) } else { None },
        Event::DocumentEnd => if g.ph is Doc && g.st.len() == 1 && g.st[0] is RootDone { Some(G { ph: Ph::Between, st: Seq::empty() }) } else { None },
        Event::Scalar(_) | Event::Alias(_) => if g.ph is Doc && wants_node(g.st) { Some(G { ph: Ph::Doc, st: adv(g.st) }) } else { None },
        Event::SequenceStart(_, _) => if g.ph is Doc && wants_node(g.st) { Some(G { ph: Ph::Doc, st: adv(g.st).push(Fr::InSeq) }) } else { None },
        Event::MappingStart(_, _) => if g.ph is Doc && wants_node(g.st) { Some(G { ph: Ph::Doc, st: adv(g.st).push(Fr::Key) }) } else { None },
        Event::SequenceEnd => if g.ph is Doc && g.st.len() > 0 && g.st.last() is InSeq { Some(G { ph: Ph::Doc, st: g.st.drop_last() }) } else { None },
        Event::MappingEnd => if g.ph is Doc && g.st.len() > 0 && g.st.last() is Key { Some(G { ph: Ph::Doc, st: g.st.drop_last() }) } else { None },
        _ => None,
    }
}
/// what a receiver sees: the same, but outside documents the ends of the stream do not count
pub open spec fn lstep(g: G, ev: Event) -> Option<G> {
    match ev {
        Event::StreamStart | Event::StreamEnd => if g.ph is Doc { None } else { Some(G { ph: Ph::Between, st: Seq::empty() }) },
        Event::DocumentStart(_) => if g.ph is Doc { None } else { Some(G { ph: Ph::Doc, st: Seq::empty().push(Fr::Root) }) },
        _ => step(g, ev),
    }
}
pub open spec fn egr<'i>(s: Seq<(Event<'i>, Span)>) -> Option<G> decreases s.len() {
    if s.len() == 0 { Some(g0()) } else { match egr(s.drop_last()) { None => None, Some(g) => lstep(g, s.last().0) } }
}
pub open spec fn seen(a: Option<G>, g: G) -> bool { a matches Some(x) && (x.ph is Doc <==> g.ph is Doc) && x.st =~= g.st }
pub open spec fn outside(a: Option<G>) -> bool { a matches Some(x) && !(x.ph is Doc) }
/// a receiver that saw all but the last event may be given it
pub open spec fn next_for(a: Option<G>, ev: Event, h: G) -> bool { a matches Some(x) && seen(lstep(x, ev), h) }
pub broadcast proof fn lemma_egr_push<'i>(s: Seq<(Event<'i>, Span)>, e: (Event<'i>, Span))
    ensures #[trigger] egr(s.push(e)) == (match egr(s) { None => None, Some(g) => lstep(g, e.0) })
{ assert(s.push(e).drop_last() =~= s); reveal_with_fuel(egr, 2); }
pub broadcast proof fn lemma_seen(a: Option<G>, g: G, ev: Event, h: G)
    requires #[trigger] seen(a, g), #[trigger] goes(g, ev, h)
    ensures next_for(a, ev, h)
{ let x = a->0; assert(x.st == g.st); }
pub open spec fn goes(g: G, ev: Event, h: G) -> bool { step(g, ev) matches Some(x) && x.ph == h.ph && x.st =~= h.st }
}
pub use vx_gram::*;
// =====================================================================================
// the states of the parser as positions in that grammar
// =====================================================================================
pub mod vx_frames { use vstd::prelude::*; use super::*;
/// what a state the parser will return to adds to the constructs around it
pub open spec fn on(st: Seq<Fr>, s: State) -> Seq<Fr> {
    match s {
        State::DocumentEnd => st.push(Fr::RootDone),
        State::BlockSequenceFirstEntry | State::BlockSequenceEntry | State::IndentlessSequenceEntry
        | State::FlowSequenceFirstEntry | State::FlowSequenceEntry => st.push(Fr::InSeq),
        State::BlockMappingFirstKey | State::BlockMappingKey | State::FlowMappingFirstKey | State::FlowMappingKey
        | State::FlowMappingFirstKeyCont => st.push(Fr::Key),
        State::BlockMappingValue | State::BlockMappingValueCont | State::FlowMappingValue | State::FlowMappingEmptyValue => st.push(Fr::Val),
        State::FlowSequenceEntryMappingKey => st.push(Fr::InSeq).push(Fr::Key),
        State::FlowSequenceEntryMappingValue => st.push(Fr::InSeq).push(Fr::Val),
        State::FlowSequenceEntryMappingEnd(_) => st.push(Fr::InSeq).push(Fr::Key),
        _ => st.push(Fr::Bad),
    }
}
pub open spec fn frames(s: Seq<State>) -> Seq<Fr> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { on(frames(s.drop_last()), s.last()) }
}
pub broadcast proof fn lemma_push_drop<A>(s: Seq<A>, x: A) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_frames_push(s: Seq<State>, x: State)
    ensures #[trigger] frames(s.push(x)) == on(frames(s), x)
{ assert(s.push(x).drop_last() =~= s); }
/// bound on the events until the parser, in this state, takes a token or returns to the state below
pub open spec fn rho(s: State) -> int {
    match s {
        State::StreamStart => 10, State::ImplicitDocumentStart => 6, State::DocumentStart => 1, State::End => 0,
        State::DocumentContent | State::BlockNode => 3, State::DocumentEnd => 2,
        State::BlockMappingValue | State::BlockMappingValueCont | State::FlowMappingValue | State::FlowMappingEmptyValue => 2,
        State::FlowSequenceEntryMappingKey => 5, State::FlowSequenceEntryMappingValue => 3, State::FlowSequenceEntryMappingEnd(_) => 2,
        _ => 1,
    }
}
pub open spec fn rhos(s: Seq<State>) -> int decreases s.len() { if s.len() == 0 { 0 } else { rhos(s.drop_last()) + rho(s.last()) } }
pub broadcast proof fn lemma_rhos_push(s: Seq<State>, x: State)
    ensures #[trigger] rhos(s.push(x)) == rhos(s) + rho(x)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_rhos(s: Seq<State>) ensures 0 <= rhos(s) decreases s.len() { if s.len() > 0 { lemma_rhos(s.drop_last()); } }
pub broadcast proof fn lemma_rhos_nn(s: Seq<State>) ensures 0 <= #[trigger] rhos(s) { lemma_rhos(s); }
}
pub use vx_frames::*;
pub open spec fn docless(s: State) -> bool { s is StreamStart || s is ImplicitDocumentStart || s is DocumentStart || s is End || s is DocumentEnd }
/// states to return to
pub open spec fn pushable(s: State) -> bool {
    s is BlockSequenceEntry || s is IndentlessSequenceEntry || s is FlowSequenceEntry || s is BlockMappingKey || s is BlockMappingValue
    || s is FlowMappingKey || s is FlowMappingValue || s is FlowMappingEmptyValue || s is FlowSequenceEntryMappingValue || s is FlowSequenceEntryMappingEnd
}
/// the states to return to: the end of the document, then only positions inside collections
pub open spec fn stk(d: Seq<u8>, ss: Seq<State>) -> bool decreases ss.len() {
    if ss.len() == 0 { true } else if ss.len() == 1 { ss.last() is DocumentEnd } else {
        &&& pushable(ss.last()) && (ss.last() matches State::FlowSequenceEntryMappingEnd(m) ==> mark_ok(d, m))
        &&& stk(d, ss.drop_last())
    }
}
pub open spec fn stack_ok(d: Seq<u8>, ss: Seq<State>, s: State) -> bool {
    &&& docless(s) <==> ss.len() == 0
    &&& stk(d, ss)
    &&& s is DocumentContent || s is BlockNode ==> ss.len() == 1
    &&& !(s is FlowMappingFirstKeyCont) && !(s is BlockMappingValueCont)
}
pub open spec fn abs(ss: Seq<State>, s: State) -> G {
    match s {
        State::StreamStart => g0(),
        State::ImplicitDocumentStart | State::DocumentStart => G { ph: Ph::Between, st: Seq::empty() },
        State::End => G { ph: Ph::Done, st: Seq::empty() },
        State::BlockNode | State::DocumentContent => G { ph: Ph::Doc, st: Seq::empty().push(Fr::Root) },
        _ => G { ph: Ph::Doc, st: on(frames(ss), s) },
    }
}
// =====================================================================================
// what the tokens of one event say (P03, P04)
// =====================================================================================
pub struct Props {
    pub anchor: Option<Seq<char>>,
    pub alias: Option<Seq<char>>,
    pub tag: Option<(Seq<char>, Seq<char>)>,
    pub scalar: Option<(ScalarType, Seq<char>)>,
    pub dirs: Map<Seq<char>, Seq<char>>,
    pub versions: nat,
    pub twice: bool,
}
pub mod vx_props { use vstd::prelude::*; use super::*;
pub open spec fn pr0() -> Props { Props { anchor: None, alias: None, tag: None, scalar: None, dirs: Map::empty(), versions: 0, twice: false } }
pub open spec fn upd(p: Props, t: TokenType) -> Props {
    match t {
        TokenType::Anchor(n) => Props { anchor: Some(cowv(n)), twice: p.twice || p.anchor is Some, ..p },
        TokenType::Alias(n) => Props { alias: Some(cowv(n)), twice: p.twice || p.alias is Some, ..p },
        TokenType::Tag { handle, suffix } => Props { tag: Some((cowv(handle), cowv(suffix))), twice: p.twice || p.tag is Some, ..p },
        TokenType::Scalar { scalar_type, value } => Props { scalar: Some((scalar_type, cowv(value))), twice: p.twice || p.scalar is Some, ..p },
        TokenType::VersionDirective { .. } => Props { versions: p.versions + 1, ..p },
        TokenType::TagDirective { handle, prefix } =>
            if cowv(handle).len() == 0 { p } else {
                Props { dirs: p.dirs.insert(cowv(handle), cowv(prefix)), twice: p.twice || p.dirs.contains_key(cowv(handle)), ..p }
            },
        _ => p,
    }
}
pub open spec fn pr(ts: Seq<Token>) -> Props decreases ts.len() {
    if ts.len() == 0 { pr0() } else { upd(pr(ts.drop_last()), ts.last().token_type) }
}
pub broadcast proof fn lemma_pr_push(ts: Seq<Token>, t: Token)
    ensures #[trigger] pr(ts.push(t)) == upd(pr(ts), t.token_type)
{ assert(ts.push(t).drop_last() =~= ts); }
}
pub use vx_props::*;
broadcast use {vx_frames::lemma_push_drop, vx_frames::lemma_frames_push, vx_frames::lemma_rhos_push, vx_frames::lemma_rhos_nn, vx_props::lemma_pr_push};
pub mod vx_true { use vstd::prelude::*; use super::*;
/// the tokens stand in the source and hold its text
#[verifier::opaque]
pub open spec fn toks_ok(d: Seq<u8>, ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tok_ok(d, #[trigger] ts[i]) }
pub broadcast proof fn lemma_toks_push(d: Seq<u8>, ts: Seq<Token>, t: Token)
    requires toks_ok(d, ts), tok_ok(d, t)
    ensures #[trigger] toks_ok(d, ts.push(t))
{ reveal(toks_ok); }
pub broadcast proof fn lemma_toks_none(d: Seq<u8>, ts: Seq<Token>)
    requires ts.len() == 0
    ensures #[trigger] toks_ok(d, ts)
{ reveal(toks_ok); }
/// a scalar is the absent one, or holds the text at its place
pub open spec fn ev_says(d: Seq<u8>, ev: Event, span: Span) -> bool {
    ev matches Event::Scalar(v) ==> v.scalar_type is Plain && cowv(v.value).len() == 0
        || says_text(d, TokenType::Scalar { scalar_type: v.scalar_type, value: v.value }, span.start.pos as int, span.end.pos as int)
}
/// every event made is made from tokens of the source, and says its text
#[verifier::opaque]
pub open spec fn recs_ok(d: Seq<u8>, log: Seq<Rec>) -> bool {
    forall|i: int| 0 <= i < log.len() ==> toks_ok(d, (#[trigger] log[i]).toks) && ev_says(d, log[i].ev, log[i].span)
}
pub broadcast proof fn lemma_recs_push(d: Seq<u8>, log: Seq<Rec>, r: Rec)
    requires recs_ok(d, log), toks_ok(d, r.toks), ev_says(d, r.ev, r.span)
    ensures #[trigger] recs_ok(d, log.push(r))
{ reveal(recs_ok); }
pub broadcast proof fn lemma_recs_none(d: Seq<u8>, log: Seq<Rec>)
    requires log.len() == 0
    ensures #[trigger] recs_ok(d, log)
{ reveal(recs_ok); }
}
pub use vx_true::*;
broadcast use {vx_true::lemma_toks_push, vx_true::lemma_toks_none, vx_true::lemma_recs_push, vx_true::lemma_recs_none};
/// no node property, content or directive was read
pub open spec fn quiet(p: Props) -> bool { p == pr0() }
pub open spec fn tagv(t: Option<Cow<'_, Tag>>) -> Option<(Seq<char>, Seq<char>)> {
    match t { None => None, Some(Cow::Borrowed(t)) => Some((t.handle@, t.suffix@)), Some(Cow::Owned(t)) => Some((t.handle@, t.suffix@)) }
}
pub open spec fn tagsv(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
pub open spec fn named_handle(h: Seq<char>) -> bool { h.len() >= 2 && h[0] == '!' && h.last() == '!' }
/// what a handle denotes; None: not declared
pub open spec fn prefix_of(tags: Map<Seq<char>, Seq<char>>, h: Seq<char>, suffix: Seq<char>) -> Option<Seq<char>> {
    if h == "!!"@ { if tags.contains_key(h) { Some(tags[h]) } else { Some("tag:yaml.org,2002:"@) } }
    else if tags.contains_key(h) { Some(tags[h]) }
    else if named_handle(h) { None }
    else { Some(h) }
}
/// the identifier of a node event, the target of an alias
pub open spec fn ev_anchor_ok(anchors: Map<Seq<char>, usize>, next_id: int, p: Props, ev: Event) -> bool {
    let id_ok = |id: usize| id == (if p.anchor is Some { next_id } else { 0 });
    match ev {
        Event::Alias(id) => p.alias matches Some(n) && anchors.contains_key(n) && anchors[n] == id,
        Event::Scalar(v) => id_ok(v.anchor_id),
        Event::SequenceStart(id, _) | Event::MappingStart(id, _) => id_ok(id),
        _ => true,
    }
}
/// the tag of a node event, the directives of a document
pub open spec fn ev_tag_ok(tags: Map<Seq<char>, Seq<char>>, p: Props, ev: Event) -> bool {
    match ev {
        Event::Scalar(ScalarValue { tag, .. }) | Event::SequenceStart(_, tag) | Event::MappingStart(_, tag) => match p.tag {
            None => tag is None,
            Some((h, s)) => prefix_of(tags, h, s) matches Some(x) && tagv(tag) == Some((x, s)),
        },
        Event::DocumentStart(_) => p.versions <= 1,
        _ => true,
    }
}
/// the event is of the kind its tokens give, with the scalar's style and content; no token is lost or used twice
pub open spec fn ev_content_ok(p: Props, ev: Event) -> bool {
    &&& !p.twice
    &&& match ev {
        Event::Alias(id) => p == (Props { alias: p.alias, ..pr0() }),
        Event::Scalar(v) => p == (Props { anchor: p.anchor, tag: p.tag, scalar: p.scalar, ..pr0() })
            && match p.scalar { Some((ty, s)) => v.scalar_type == ty && cowv(v.value) == s, None => v.scalar_type is Plain && cowv(v.value).len() == 0 },
        Event::SequenceStart(_, _) | Event::MappingStart(_, _) => p == (Props { anchor: p.anchor, tag: p.tag, ..pr0() }),
        Event::DocumentStart(_) => p == (Props { versions: p.versions, dirs: p.dirs, ..pr0() }),
        _ => quiet(p),
    }
}
/// the event says what its tokens say, given the anchors and tag handles in force
pub open spec fn ev_ok(anchors: Map<Seq<char>, usize>, next_id: int, tags: Map<Seq<char>, Seq<char>>, p: Props, ev: Event) -> bool {
    ev_anchor_ok(anchors, next_id, p, ev) && ev_tag_ok(tags, p, ev) && ev_content_ok(p, ev)
}
pub open spec fn anchors_after(anchors: Map<Seq<char>, usize>, next_id: int, p: Props, ev: Event) -> Map<Seq<char>, usize> {
    if ev is DocumentStart { Map::empty() } else { match p.anchor { Some(n) => anchors.insert(n, next_id as usize), None => anchors } }
}
pub open spec fn ids_after(next_id: int, p: Props) -> int { if p.anchor is Some { next_id + 1 } else { next_id } }
pub open spec fn tags_after(tags: Map<Seq<char>, Seq<char>>, keep: bool, p: Props, ev: Event) -> Map<Seq<char>, Seq<char>> {
    if ev is DocumentStart { tags.union_prefer_right(p.dirs) } else if ev is DocumentEnd && !keep { Map::empty() } else { tags }
}
// =====================================================================================
// the history of events
// =====================================================================================
/// an event with the tokens it was made from
pub struct Rec<'input> { pub ev: Event<'input>, pub span: Span, pub toks: Seq<Token<'input>> }
pub open spec fn run(log: Seq<Rec>) -> Option<G> decreases log.len() {
    if log.len() == 0 { Some(g0()) } else { match run(log.drop_last()) { None => None, Some(g) => step(g, log.last().ev) } }
}
/// name to identifier: the latest node of the document with that anchor
pub open spec fn amap(log: Seq<Rec>) -> Map<Seq<char>, usize> decreases log.len() {
    if log.len() == 0 { Map::empty() } else { anchors_after(amap(log.drop_last()), nid(log.drop_last()), pr(log.last().toks), log.last().ev) }
}
pub open spec fn nid(log: Seq<Rec>) -> int decreases log.len() {
    if log.len() == 0 { 1 } else { ids_after(nid(log.drop_last()), pr(log.last().toks)) }
}
/// handle to prefix: the directives in force
pub open spec fn tmap(log: Seq<Rec>, keep: bool) -> Map<Seq<char>, Seq<char>> decreases log.len() {
    if log.len() == 0 { Map::empty() } else { tags_after(tmap(log.drop_last(), keep), keep, pr(log.last().toks), log.last().ev) }
}
pub open spec fn log_ok(log: Seq<Rec>, keep: bool) -> bool decreases log.len() {
    log.len() > 0 ==> {
        let l = log.drop_last();
        let r = log.last();
        &&& log_ok(l, keep)
        &&& run(log) is Some
        &&& ev_ok(amap(l), nid(l), tmap(l, keep), pr(r.toks), r.ev)
    }
}
pub proof fn lemma_evs_push<'i>(l: Seq<Rec<'i>>, r: Rec<'i>)
    ensures evs(l.push(r)) == evs(l).push((r.ev, r.span))
{ assert(evs(l.push(r)) =~= evs(l).push((r.ev, r.span))); }
pub mod vx_fed { use vstd::prelude::*; use super::*;
pub open spec fn feds<E>(f: Seq<E>, o: Seq<E>, got: Seq<E>, got0: Seq<E>, lag: int) -> bool {
    f.len() >= o.len() && f.take(o.len() as int) =~= o && got =~= got0 + f.skip(o.len() - lag)
}
pub open spec fn fed_buts<E>(f: Seq<E>, o: Seq<E>, got: Seq<E>, got0: Seq<E>) -> bool {
    f.len() > o.len() && f.take(o.len() as int) =~= o && got =~= got0 + f.drop_last().skip(o.len() as int)
}
pub broadcast proof fn lemma_feds<E>(f: Seq<E>, m: Seq<E>, o: Seq<E>, g2: Seq<E>, g1: Seq<E>, g0: Seq<E>)
    requires #[trigger] fed_buts(m, o, g1, g0), #[trigger] feds(f, m, g2, g1, 1)
    ensures feds(f, o, g2, g0, 0)
{
    assert(f.take(o.len() as int) =~= o) by {
        assert forall|i: int| 0 <= i < o.len() implies f[i] == o[i] by { assert(f.take(m.len() as int)[i] == m[i]); assert(m.take(o.len() as int)[i] == o[i]); }
    }
    assert(g2 =~= g0 + f.skip(o.len() as int)) by {
        assert forall|i: int| 0 <= i < m.len() implies f[i] == m[i] by { assert(f.take(m.len() as int)[i] == m[i]); }
        assert(f.skip(o.len() as int) =~= m.drop_last().skip(o.len() as int) + f.skip(m.len() - 1));
    }
}
}
pub use vx_fed::*;
pub mod vx_evs { use vstd::prelude::*; use super::*;
pub open spec fn evs<'i>(log: Seq<Rec<'i>>) -> Seq<(Event<'i>, Span)> { log.map_values(|r: Rec<'i>| (r.ev, r.span)) }
pub broadcast proof fn lemma_evs_last<'i>(l: Seq<Rec<'i>>)
    requires l.len() > 0
    ensures #[trigger] evs(l.drop_last()) == evs(l).drop_last(), evs(l).len() == l.len(), evs(l).last() == (l.last().ev, l.last().span)
{ assert(evs(l.drop_last()) =~= evs(l).drop_last()); }
pub broadcast proof fn lemma_evs_at<'i>(l: Seq<Rec<'i>>)
    ensures (#[trigger] evs(l)).len() == l.len(), l.len() > 0 ==> evs(l).last() == (l.last().ev, l.last().span)
{ }
}
pub use vx_evs::*;
broadcast use {vx_gram::lemma_egr_push, vx_gram::lemma_seen, vx_fed::lemma_feds, vx_evs::lemma_evs_last, vx_evs::lemma_evs_at};
impl<'input, T: Source> Parser<'input, T> {
    pub open spec fn d(&self) -> Seq<u8> { self.scanner.d() }
    /// tokens still to come, at most
    pub open spec fn left(&self) -> int { self.scanner.budget() + (if self.token is Some { 1int } else { 0 }) }
    pub open spec fn g(&self) -> G { abs(self.states@, self.state) }
    pub open spec fn scan_ok(&self) -> bool {
        &&& self.scanner.inv()
        &&& self.scanner.stream_end_produced == self.scanner.stream_end_reached || self.scanner.error is Some
        &&& self.token matches Some(t) ==> tok_ok(self.d(), t) && (t.token_type is StreamEnd ==> self.scanner.stream_end_reached && self.scanner.error is None)
        &&& self.scanner.budget() >= 0
        &&& self.d().len() <= max_len()
    }
    /// holds in every history, also after an error
    pub open spec fn basic(&self) -> bool {
        &&& self.scan_ok()
        &&& stack_ok(self.d(), self.states@, self.state)
        &&& self.state is End ==> self.scanner.stream_end_reached && self.scanner.error is None
        &&& self.state matches State::FlowSequenceEntryMappingEnd(m) ==> mark_ok(self.d(), m)
        &&& 1 <= self.anchor_id_count && self.anchor_id_count + self.left() <= 8 * self.d().len() + 6
        &&& self.stream_end_emitted ==> self.state is End
        &&& toks_ok(self.d(), self.vx_toks@) && recs_ok(self.d(), self.vx_log@) // P03 P04 P09 P13 P14
        &&& self.current matches Some(e) ==> span_ok(self.d(), e.1) && ev_says(self.d(), e.0, e.1) && (e.0 is DocumentStart ==> self.state is BlockNode || self.state is DocumentContent)
            && (e.0 is StreamEnd ==> self.state is End) && (self.peeked() || self.state is End && e.0 is StreamEnd)
    }
    /// the event kept in hand is the last one made
    pub open spec fn peeked(&self) -> bool {
        self.current matches Some(e) && self.vx_log@.len() > 0 && self.vx_log@.last().ev == e.0 && self.vx_log@.last().span == e.1
    }
    /// inside one transition
    pub open spec fn sm(&self) -> bool { self.basic() && self.current is None }
    /// the token at hand is the one that made the parser enter this state
    pub open spec fn gs(&self) -> bool {
        &&& self.state is BlockSequenceFirstEntry ==> (self.token matches Some(t) && t.token_type is BlockSequenceStart)
        &&& self.state is BlockMappingFirstKey ==> (self.token matches Some(t) && t.token_type is BlockMappingStart)
        &&& self.state is FlowSequenceFirstEntry ==> (self.token matches Some(t) && t.token_type is FlowSequenceStart)
        &&& self.state is FlowMappingFirstKey ==> (self.token matches Some(t) && t.token_type is FlowMappingStart)
    }
    /// before the first error: nothing was lost
    pub open spec fn strict(&self) -> bool {
        &&& self.gs() && self.scanner.error is None && self.end_known()
        &&& if self.state is StreamStart { self.token is None && self.scanner.start_state() } else { self.scanner.stream_start_produced }
    }
    /// the end of the stream is not lost
    pub open spec fn end_known(&self) -> bool {
        match self.token {
            Some(t) => (t.token_type is StreamEnd <==> self.scanner.stream_end_produced)
                && (t.token_type is StreamEnd ==> t.span.start == self.scanner.mark && t.span.end == self.scanner.mark),
            None => self.scanner.stream_end_produced ==> self.state is End,
        }
    }
    /// before the first error
    pub open spec fn wf(&self) -> bool {
        &&& self.basic() && self.strict()
        &&& self.anchors@ == amap(self.vx_log@)
        &&& self.anchor_id_count == nid(self.vx_log@)
        &&& tagsv(self.tags@) == tmap(self.vx_log@, self.keep_tags)
        &&& log_ok(self.vx_log@, self.keep_tags)
        &&& run(self.vx_log@) == Some(self.g())
        &&& self.current matches Some(e) ==> self.peeked() && (e.0 is DocumentStart ==> !self.scanner.stream_end_produced)
        &&& self.stream_end_emitted ==> self.current is None
        &&& self.state is End ==> self.vx_log@.len() > 0 && self.vx_log@.last().ev is StreamEnd
            && self.vx_log@.last().span.start == self.scanner.mark && self.vx_log@.last().span.end == self.scanner.mark
    }
    /// the events handed out
    pub open spec fn dlog(&self) -> Seq<Rec<'input>> { if self.current is Some { self.vx_log@.drop_last() } else { self.vx_log@ } }
    /// everything but the scanner, the token at hand and its record
    pub open spec fn outer_eq(&self, o: &Self) -> bool {
        &&& self.d() == o.d()
        &&& self.keep_tags == o.keep_tags && self.vx_log == o.vx_log && self.vx_errs == o.vx_errs && self.current == o.current && self.stream_end_emitted == o.stream_end_emitted
    }
    pub open spec fn tables_eq(&self, o: &Self) -> bool { self.anchors == o.anchors && self.anchor_id_count == o.anchor_id_count && self.tags == o.tags }
    pub open spec fn states_eq(&self, o: &Self) -> bool { self.states == o.states && self.state == o.state }
    /// bound on the events to come
    pub open spec fn phi(&self) -> int {
        10 * self.left() + rhos(self.states@)
            + (if self.state is BlockMappingValue && (self.token matches Some(t) && t.token_type is Value) { 0 } else { rho(self.state) })
    }
    pub open spec fn base(&self) -> int { 10 * self.left() + rhos(self.states@) }
    /// progress measure of the calls that hand out events
    pub open spec fn work(&self) -> int { 2 * self.phi() + (if self.current is Some { 1int } else { 0 }) }
    /// the events handed out, with their spans
    pub open spec fn out(&self) -> Seq<(Event<'input>, Span)> { evs(self.dlog()) }
    /// the end of the stream is at hand, between two documents
    pub open spec fn at_end(&self) -> bool { self.g().ph is Between && self.scanner.stream_end_produced }
    /// what every transition of the state machine guarantees: invariants, spans, progress
    pub open spec fn sf(&self, o: &Self, r: ParseResult<'input>) -> bool {
        &&& self.basic() && self.outer_eq(o)
        &&& r matches Ok((ev, span)) ==> span_ok(self.d(), span) && self.phi() < o.phi()
    }
    /// the event fits the grammar and the parser's state follows it
    pub open spec fn sf_grammar(&self, o: &Self, r: ParseResult<'input>) -> bool {
        r matches Ok((ev, span)) ==> {
            &&& ev is DocumentStart ==> self.state is BlockNode || self.state is DocumentContent
            &&& ev is StreamEnd ==> self.state is End
            &&& o.gs() ==> self.gs() && goes(o.g(), ev, self.g())
        }
    }
    /// the end of the stream is neither lost nor early
    pub open spec fn sf_end(&self, o: &Self, r: ParseResult<'input>) -> bool {
        &&& r matches Ok((ev, span)) ==> {
            &&& o.strict() && ev is StreamEnd ==> span.start == self.scanner.mark && span.end == self.scanner.mark
            &&& o.strict() ==> self.strict() && (ev is DocumentStart ==> !self.scanner.stream_end_produced)
            &&& o.strict() && o.at_end() ==> ev is StreamEnd && span.start == o.scanner.mark && span.end == o.scanner.mark
        }
        &&& o.strict() && o.at_end() ==> r is Ok
    }
    /// the tokens of the event are judged from here
    pub open spec fn told(&self) -> bool { self.gs() && quiet(pr(self.vx_toks@)) }
    pub open spec fn sf_anchors(&self, o: &Self, r: ParseResult<'input>) -> bool {
        r matches Ok((ev, span)) ==> (o.told() ==> {
            &&& ev_anchor_ok(o.anchors@, o.anchor_id_count as int, pr(self.vx_toks@), ev)
            &&& self.anchors@ =~= anchors_after(o.anchors@, o.anchor_id_count as int, pr(self.vx_toks@), ev)
            &&& self.anchor_id_count == ids_after(o.anchor_id_count as int, pr(self.vx_toks@))
        })
    }
    pub open spec fn sf_tags(&self, o: &Self, r: ParseResult<'input>) -> bool {
        r matches Ok((ev, span)) ==> (o.told() ==> {
            &&& ev_tag_ok(tagsv(o.tags@), pr(self.vx_toks@), ev)
            &&& tagsv(self.tags@) =~= tags_after(tagsv(o.tags@), o.keep_tags, pr(self.vx_toks@), ev)
        })
    }
    pub open spec fn sf_content(&self, o: &Self, r: ParseResult<'input>) -> bool {
        r matches Ok((ev, span)) ==> ev_says(self.d(), ev, span) && (o.told() ==> ev_content_ok(pr(self.vx_toks@), ev))
    }
    pub open spec fn same_stream(&self, o: &Self) -> bool {
        self.d() == o.d() && self.keep_tags == o.keep_tags && self.stream_end_emitted == o.stream_end_emitted
    }
    /// the receiver was given what was made since, and the last `lag` before
    pub open spec fn fed(&self, o: &Self, got: Seq<(Event<'input>, Span)>, got0: Seq<(Event<'input>, Span)>, lag: int) -> bool {
        feds(self.out(), o.out(), got, got0, lag)
    }
    /// the same, but for the last event
    pub open spec fn fed_but(&self, o: &Self, got: Seq<(Event<'input>, Span)>, got0: Seq<(Event<'input>, Span)>) -> bool {
        fed_buts(self.out(), o.out(), got, got0)
    }
    /// between two documents
    pub open spec fn between(&self) -> bool {
        self.wf() && match self.current {
            None => self.g().ph is Start || self.g().ph is Between,
            Some(e) => e.0 is StreamStart || e.0 is DocumentStart || e.0 is StreamEnd,
        }
    }
    /// the next event handed out is the end of the stream
    pub open spec fn ends_next(&self) -> bool {
        match self.current {
            None => self.at_end() && !(self.state is End),
            Some(e) => e == (Event::StreamEnd, Span { start: self.scanner.mark, end: self.scanner.mark }),
        }
    }
    /// the errors so far: one more if this one was met
    pub open spec fn erred<A>(&self, o: &Self, r: Result<A, YamlError>) -> bool {
        self.vx_errs@ =~= (match r { Err(e) => o.vx_errs@.push(e), Ok(_) => o.vx_errs@ })
    }
    pub open spec fn goes_from(&self, g: G, ev: Event<'input>) -> bool { goes(g, ev, self.g()) }
    /// one event was handed out
    pub open spec fn pulled(&self, o: &Self, ev: Event<'input>, span: Span) -> bool {
        &&& self.vx_log@.len() > 0 && self.out() =~= o.out().push((ev, span)) && self.vx_errs == o.vx_errs
        &&& self.work() < o.work()
        &&& span_ok(self.d(), span) && ev_says(self.d(), ev, span) // P07 P09 P13 P14
        &&& ev is DocumentStart ==> self.state is BlockNode || self.state is DocumentContent
        &&& ev is StreamEnd ==> self.state is End
        &&& o.current is None && o.gs() ==> self.gs() && goes(o.g(), ev, self.g())
        &&& o.wf() ==> self.wf() && (ev is DocumentStart ==> !self.scanner.stream_end_produced)
    }
}
//@ impl yam-core/src/parsing/parser.rs KeyFlow
//@ spec KeyFlow::is_first
    ensures ret == (self is FirstKey)
//@ spec KeyFlow::is_non_first
    ensures ret == (self is NonFirstKey)
//@ impl yam-core/src/parsing/parser.rs ScalarValue
//@ omit ScalarValue::is_null ScalarValue::is_null_tagged
//@ spec ScalarValue::empty_scalar P03 P04 P13
    ensures cowv(ret.value).len() == 0, ret.scalar_type is Plain, ret.anchor_id == 0, ret.tag is None
//@ at ScalarValue::empty_scalar start
    proof { reveal_strlit(""); }
//@ rewrite ScalarValue::empty_scalar
"".into()
=>
Cow::Borrowed("")
//@ rewrite ScalarValue::empty_scalar_with_anchor
Cow::default()
=>
vx_cow_default()
//@ spec ScalarValue::empty_scalar_with_anchor P03 P04 P13
    ensures cowv(ret.value).len() == 0, ret.scalar_type is Plain, ret.anchor_id == anchor_id, ret.tag == tag
//@ impl yam-core/src/parsing/parser.rs Event
//@ spec Event::empty_scalar
    ensures ret matches Event::Scalar(v) && cowv(v.value).len() == 0 && v.scalar_type is Plain && v.anchor_id == 0 && v.tag is None
//@ spec Event::is_doc_start
    ensures ret == (self is DocumentStart)
//@ spec Event::as_simple_str
    ensures true
//@ omit Event::is_scalar
//@ trait yam-core/src/parsing/parser.rs SpannedEventReceiver
    /// the events received so far
    spec fn vx_got(&self) -> Seq<(Event<'input>, Span)>;
    /// the receiver's own invariant
    spec fn vx_ok(&self) -> bool;
    /// the receiver relies on getting events in the order of the grammar
    spec fn vx_picky(&self) -> bool;
//@ spec SpannedEventReceiver::on_event
    requires old(self).vx_ok(), old(self).vx_picky() ==> egr(old(self).vx_got().push((ev, span))) is Some
    ensures final(self).vx_got() == old(self).vx_got().push((ev, span)), final(self).vx_ok(), final(self).vx_picky() == old(self).vx_picky()
//@ impl yam-core/src/parsing/parser.rs Parser
//@ omit Parser::get_anchor
//@ spec Parser::new_from_str P01 P02
    requires vstd::utf8::encode_utf8(input@).len() <= max_len()
    ensures ret.wf(), ret.dlog() =~= Seq::<Rec>::empty(), ret.d() == vstd::utf8::encode_utf8(input@), ret.g() == g0(), !ret.stream_end_emitted, ret.current is None, ret.vx_errs@.len() == 0
//@ at Parser::new exit
    proof {
        assert(vx_ret.anchors@ =~= amap(vx_ret.vx_log@));
        assert(tagsv(vx_ret.tags@) =~= tmap(vx_ret.vx_log@, false));
    }
//@ spec Parser::new P01 P02
    requires src.at() == 0, src.data().len() <= max_len()
    ensures ret.wf(), ret.dlog() =~= Seq::<Rec>::empty(), ret.d() == src.data(), ret.g() == g0(), !ret.stream_end_emitted, ret.current is None, ret.vx_errs@.len() == 0
//@ spec Parser::keep_tags P04
    requires self.basic()
    ensures ret.basic(), ret.keep_tags == value, ret.vx_log == self.vx_log, ret.vx_errs == self.vx_errs, self.wf() && self.vx_log@.len() == 0 ==> ret.wf()
//@ spec Parser::peek P02
    requires old(self).basic()
    ensures
        final(self).basic(), final(self).d() == old(self).d(), final(self).keep_tags == old(self).keep_tags, final(self).stream_end_emitted == old(self).stream_end_emitted,
        old(self).current is Some ==> *final(self) == *old(self) && ret is Some,
        old(self).current is None && old(self).stream_end_emitted ==> ret is None && *final(self) == *old(self),
        ret matches Some(Ok(e)) ==> final(self).current == Some(*e),
        ret is None ==> old(self).stream_end_emitted,
        ret matches Some(Err(_)) ==> final(self).current is None,
        final(self).vx_errs@ =~= (match ret { Some(Err(e)) => old(self).vx_errs@.push(e), _ => old(self).vx_errs@ }),
        !(old(self).state is End && old(self).current is None) ==> final(self).out() =~= old(self).out(),
        !(old(self).state is End && old(self).current is None) && old(self).wf() && !(ret matches Some(Err(_))) ==> final(self).wf(),
//@ rewrite Parser::peek
self.current.as_ref().map(Ok)
=>
match self.current.as_ref() { Some(vx_x) => Some(Ok(vx_x)), None => None }
//@ spec Parser::next_event P01 P02 P05
    requires old(self).basic()
    ensures
        final(self).basic(), final(self).d() == old(self).d(), final(self).keep_tags == old(self).keep_tags,
        old(self).stream_end_emitted <==> ret is None,
        ret is None ==> *final(self) == *old(self),
        ret matches Some(r) ==> final(self).erred(old(self), r),
        old(self).current matches Some(e) ==> (!old(self).stream_end_emitted ==> ret == Some(ParseResult::Ok(e))),
        ret matches Some(Ok((ev, span))) ==> span_ok(final(self).d(), span) && (ev is StreamEnd <==> final(self).stream_end_emitted),
        !(old(self).state is End && (old(self).current is None || !old(self).wf())) ==> match ret {
            Some(Ok((ev, span))) => final(self).out() =~= old(self).out().push((ev, span)) && final(self).work() < old(self).work()
                && (old(self).wf() ==> final(self).wf()),
            _ => final(self).out() =~= old(self).out(),
        }
//@ spec Parser::next_event_impl P01 P02
    requires old(self).basic()
    ensures
        final(self).basic(), final(self).d() == old(self).d(), final(self).current is None, final(self).keep_tags == old(self).keep_tags,
        final(self).stream_end_emitted == old(self).stream_end_emitted, final(self).erred(old(self), ret),
        old(self).current matches Some(e) ==> ret == ParseResult::Ok(e) && *final(self) == (Parser { current: None, ..*old(self) }),
        ret matches Ok(e) ==> span_ok(final(self).d(), e.1),
        old(self).state is End && old(self).current is None ==> *final(self) == *old(self) && ret == ParseResult::Ok((Event::StreamEnd, Span { start: old(self).scanner.mark, end: old(self).scanner.mark })),
        !(old(self).state is End && (old(self).current is None || !old(self).wf())) && !old(self).stream_end_emitted ==> match ret {
            Ok((ev, span)) => final(self).pulled(old(self), ev, span),
            Err(_) => final(self).out() =~= old(self).out(),
        },
        old(self).wf() && old(self).current is None && !old(self).stream_end_emitted && !(old(self).state is End) && old(self).at_end()
            ==> ret == ParseResult::Ok((Event::StreamEnd, Span { start: old(self).scanner.mark, end: old(self).scanner.mark })),
//@ spec Parser::peek_token P01 P06
    requires old(self).basic()
    ensures
        final(self).basic(), final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).states_eq(old(self)), final(self).vx_toks == old(self).vx_toks,
        final(self).left() <= old(self).left(),
        old(self).token is Some ==> *final(self) == *old(self),
        ret matches Ok(t) ==> final(self).token == Some(*t) && tok_ok(final(self).d(), *t),
        ret is Ok && old(self).token is None ==> final(self).scanner.error is None && final(self).scanner.stream_start_produced,
        old(self).gs() ==> final(self).gs(),
        ret is Ok && old(self).scanner.error is None ==> final(self).scanner.error is None,
        ret is Ok && old(self).scanner.stream_start_produced ==> final(self).scanner.stream_start_produced,
        old(self).end_known() && ret is Ok ==> final(self).end_known(),
        old(self).at_end() && old(self).token is Some ==> ret is Ok,
        old(self).scanner.start_state() && old(self).token is None ==> (ret matches Ok(t) ==> t.token_type is StreamStart),
//@ spec Parser::scan_next_token P01 P06
    requires old(self).basic(), old(self).token is None
    ensures
        final(self).basic(), final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).states_eq(old(self)), final(self).vx_toks == old(self).vx_toks,
        final(self).token is None,
        final(self).left() <= old(self).left(),
        ret matches Ok(t) ==> tok_ok(final(self).d(), t) && final(self).left() < old(self).left() && final(self).scanner.error is None
            && (t.token_type is StreamEnd <==> final(self).scanner.stream_end_produced)
            && (t.token_type is StreamEnd ==> t.span.start == final(self).scanner.mark && t.span.end == final(self).scanner.mark)
            && (t.token_type is StreamStart <==> old(self).scanner.start_state()) && final(self).scanner.stream_start_produced,
//@ spec Parser::fetch_token P06
    requires old(self).basic(), old(self).token is Some
    ensures final(self).basic(), final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).states_eq(old(self)),
        ret == old(self).token->Some_0, final(self).token is None, final(self).scanner == old(self).scanner,
        final(self).vx_toks@ == old(self).vx_toks@.push(ret),
//@ at Parser::fetch_token start
    self.vx_toks = Ghost(self.vx_toks@.push(self.token->Some_0));
//@ spec Parser::skip P06
    requires old(self).basic(), old(self).token is Some
    ensures final(self).basic(), final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).states_eq(old(self)),
        final(self).token is None, final(self).scanner == old(self).scanner,
        final(self).vx_toks@ == old(self).vx_toks@.push(old(self).token->Some_0),
//@ at Parser::skip start
    self.vx_toks = Ghost(self.vx_toks@.push(self.token->Some_0));
//@ spec Parser::pop_state P01 P06
    requires old(self).states@.len() > 0
    ensures final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).token == old(self).token, final(self).scanner == old(self).scanner,
        final(self).vx_toks == old(self).vx_toks,
        final(self).states@ == old(self).states@.drop_last(), final(self).state == old(self).states@.last(),
        old(self).sm() ==> final(self).sm(),
//@ spec Parser::push_state P01 P06
    ensures final(self).outer_eq(old(self)), final(self).tables_eq(old(self)), final(self).token == old(self).token, final(self).scanner == old(self).scanner,
        final(self).vx_toks == old(self).vx_toks,
        final(self).states@ == old(self).states@.push(state), final(self).state == old(self).state,
//@ spec Parser::parse P01 P02 P03 P04
    requires old(self).basic(), old(self).current is None
    ensures
        final(self).basic(), final(self).d() == old(self).d(), final(self).current is None, final(self).keep_tags == old(self).keep_tags,
        final(self).stream_end_emitted == old(self).stream_end_emitted, // P01 P06
        final(self).erred(old(self), ret), // P02
        ret matches Ok(e) ==> span_ok(final(self).d(), e.1), // P07
        ret matches Ok(e) ==> ev_says(final(self).d(), e.0, e.1), // P09 P13 P14
        old(self).state is End ==> *final(self) == *old(self) && ret == ParseResult::Ok((Event::StreamEnd, Span { start: old(self).scanner.mark, end: old(self).scanner.mark })),
        !(old(self).state is End) && !old(self).stream_end_emitted ==> match ret {
            Ok((ev, span)) => final(self).pulled(old(self), ev, span),
            Err(_) => final(self).out() =~= old(self).out(),
        }, // P01 P02
        old(self).wf() && !old(self).stream_end_emitted && !(old(self).state is End) && old(self).at_end()
            ==> ret == ParseResult::Ok((Event::StreamEnd, Span { start: old(self).scanner.mark, end: old(self).scanner.mark })), // P01 P02
//@ at Parser::parse exit
    if let Ok((ev, span)) = &vx_ret {
        proof {
            let l = self.vx_log@;
            assert(l.push(Rec { ev: *ev, span: *span, toks: self.vx_toks@ }).drop_last() =~= l);
            lemma_evs_push(l, Rec { ev: *ev, span: *span, toks: self.vx_toks@ });
        }
        self.vx_log = Ghost(if old(self).state is End { self.vx_log@ } else { self.vx_log@.push(Rec { ev: *ev, span: *span, toks: self.vx_toks@ }) });
    }
//@ at Parser::parse around call state_machine#1
    if let Err(e) = &vx_v { proof { self.vx_errs = Ghost(self.vx_errs@.push(*e)); } }
//@ at Parser::parse before call state_machine#1
    self.vx_toks = Ghost(Seq::empty());
//@ spec Parser::load P01 P02
    requires old(self).basic(), old(recv).vx_ok(), old(recv).vx_picky() ==> old(self).between() && outside(egr(old(recv).vx_got()))
    ensures
        final(recv).vx_ok(), final(recv).vx_picky() == old(recv).vx_picky(),
        final(self).basic(), final(self).same_stream(old(self)),
        old(recv).vx_picky() && ret is Ok ==> outside(egr(final(recv).vx_got())), // P11
        old(self).between() ==> final(self).erred(old(self), ret), // P02 P11
        old(self).between() ==> match ret {
            Err(_) => final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 0),
            Ok(_) => final(self).wf() && (
                final(self).current is None && (final(self).g().ph is Done || !multi && final(self).g().ph is Between)
                    && final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 0)
                || final(self).ends_next() && final(recv).vx_got().len() > 0
                    && final(recv).vx_got().last() == (Event::StreamEnd, Span { start: final(self).scanner.mark, end: final(self).scanner.mark })
                    && final(self).fed(old(self), final(recv).vx_got().drop_last(), old(recv).vx_got(), 0)),
        }
//@ loop Parser::load 1
    invariant
        self.basic(), self.same_stream(old(self)), !(self.state is End),
        old(self).between() ==> self.vx_errs == old(self).vx_errs,
        recv.vx_ok(), recv.vx_picky() == old(recv).vx_picky(),
        recv.vx_picky() ==> old(self).between() && outside(egr(recv.vx_got())),
        old(self).between() ==> self.wf() && (match self.current { None => self.g().ph is Between, Some(e) => e.0 is DocumentStart }) && self.fed(old(self), recv.vx_got(), old(recv).vx_got(), 0),
    ensures self.current is None, !multi, recv.vx_picky() ==> outside(egr(recv.vx_got())),
    decreases self.work()
//@ at Parser::load before call load_document#1
    proof { if old(self).between() { assert(self.fed_but(old(self), recv.vx_got(), old(recv).vx_got())); } }
//@ spec Parser::load_document P01 P02
    requires old(recv).vx_ok(), old(self).sm(), !old(self).stream_end_emitted, old(recv).vx_picky() ==> outside(egr(old(recv).vx_got())),
        first_ev is DocumentStart ==> old(self).out().len() > 0 && old(self).out().last() == (first_ev, span) && old(self).gs()
            && old(self).g().ph is Doc && old(self).g().st =~= Seq::empty().push(Fr::Root),
    ensures
        final(recv).vx_ok(), final(recv).vx_picky() == old(recv).vx_picky(),
        final(self).sm(), final(self).same_stream(old(self)),
        first_ev is DocumentStart ==> final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 1) && final(self).erred(old(self), ret),
        ret is Ok && old(recv).vx_picky() ==> outside(egr(final(recv).vx_got())), // P11
        ret is Ok ==> final(self).gs() && final(self).g().ph is Between && (old(self).wf() ==> final(self).wf()) && final(self).work() < old(self).work(),
//@ spec Parser::load_node P01 P02
    requires old(recv).vx_ok(), old(self).sm(), !old(self).stream_end_emitted, old(self).gs(),
        old(self).out().len() > 0, old(self).out().last() == (first_ev, span), old(self).g().ph is Doc,
        match first_ev {
            Event::Alias(_) | Event::Scalar(_) => true,
            Event::SequenceStart(_, _) => old(self).g().st.len() > 0 && old(self).g().st.last() is InSeq,
            Event::MappingStart(_, _) => old(self).g().st.len() > 0 && old(self).g().st.last() is Key,
            _ => false,
        },
        old(recv).vx_picky() ==> next_for(egr(old(recv).vx_got()), first_ev, old(self).g()), // P11
    ensures
        final(recv).vx_ok(), final(recv).vx_picky() == old(recv).vx_picky(),
        final(self).sm(), final(self).same_stream(old(self)), final(self).erred(old(self), ret), final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 1),
        ret is Ok && old(recv).vx_picky() ==> seen(egr(final(recv).vx_got()), final(self).g()), // P11
        ret is Ok ==> final(self).gs() && (old(self).wf() ==> final(self).wf()) && final(self).g().ph is Doc && final(self).work() <= old(self).work()
            && final(self).g().st =~= (if first_ev is Alias || first_ev is Scalar { old(self).g().st } else { old(self).g().st.drop_last() }),
    decreases old(self).work(), 1int
//@ spec Parser::load_sequence P01 P02
    requires old(recv).vx_ok(), old(self).sm(), !old(self).stream_end_emitted, old(self).gs(), old(self).g().ph is Doc, old(self).g().st.len() > 0, old(self).g().st.last() is InSeq, old(recv).vx_picky() ==> seen(egr(old(recv).vx_got()), old(self).g()) // P11
    ensures
        final(recv).vx_ok(), final(recv).vx_picky() == old(recv).vx_picky(),
        final(self).sm(), final(self).same_stream(old(self)), final(self).erred(old(self), ret), final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 0),
        ret is Ok && old(recv).vx_picky() ==> seen(egr(final(recv).vx_got()), final(self).g()), // P11
        ret is Ok ==> final(self).gs() && (old(self).wf() ==> final(self).wf()) && final(self).g().ph is Doc && final(self).work() < old(self).work()
            && final(self).g().st =~= old(self).g().st.drop_last(),
    decreases old(self).work(), 0int
//@ loop Parser::load_sequence 1
    invariant
        recv.vx_ok(), recv.vx_picky() == old(recv).vx_picky(),
        recv.vx_picky() ==> next_for(egr(recv.vx_got()), ev, self.g()),
        self.sm(), self.same_stream(old(self)), self.gs(), !old(self).stream_end_emitted,
        self.out().len() > old(self).out().len(), self.out().last() == (ev, mark),
        self.fed_but(old(self), recv.vx_got(), old(recv).vx_got()),
        old(self).wf() ==> self.wf(), self.work() < old(self).work(), self.vx_errs == old(self).vx_errs,
        old(self).g().ph is Doc, old(self).g().st.len() > 0, old(self).g().st.last() is InSeq,
        self.goes_from(old(self).g(), ev),
    decreases self.work()
//@ at Parser::load_mapping after call load_node#1
    proof { assert(self.fed(old(self), recv.vx_got(), old(recv).vx_got(), 0)); }
//@ at Parser::load_mapping before call load_node#2
    proof { assert(self.fed_but(old(self), recv.vx_got(), old(recv).vx_got())); }
//@ at Parser::load_sequence after call load_node#1
    proof { assert(self.fed(old(self), recv.vx_got(), old(recv).vx_got(), 0)); }
//@ at Parser::load_document after call on_event#1
    let ghost vx_o1 = self.out();
    let ghost vx_g1 = recv.vx_got();
//@ at Parser::load_document before call load_node#1
    proof { assert(self.out().drop_last() =~= vx_o1); }
//@ at Parser::load_document after call load_node#1
    proof { assert(self.fed(old(self), recv.vx_got(), old(recv).vx_got(), 1)); }
//@ spec Parser::load_mapping P01 P02
    requires old(recv).vx_ok(), old(self).sm(), !old(self).stream_end_emitted, old(self).gs(), old(self).g().ph is Doc, old(self).g().st.len() > 0, old(self).g().st.last() is Key, old(recv).vx_picky() ==> seen(egr(old(recv).vx_got()), old(self).g()) // P11
    ensures
        final(recv).vx_ok(), final(recv).vx_picky() == old(recv).vx_picky(),
        final(self).sm(), final(self).same_stream(old(self)), final(self).erred(old(self), ret), final(self).fed(old(self), final(recv).vx_got(), old(recv).vx_got(), 0),
        ret is Ok && old(recv).vx_picky() ==> seen(egr(final(recv).vx_got()), final(self).g()), // P11
        ret is Ok ==> final(self).gs() && (old(self).wf() ==> final(self).wf()) && final(self).g().ph is Doc && final(self).work() < old(self).work()
            && final(self).g().st =~= old(self).g().st.drop_last(),
    decreases old(self).work(), 0int
//@ loop Parser::load_mapping 1
    invariant
        recv.vx_ok(), recv.vx_picky() == old(recv).vx_picky(),
        recv.vx_picky() ==> next_for(egr(recv.vx_got()), key_ev, self.g()),
        self.sm(), self.same_stream(old(self)), self.gs(), !old(self).stream_end_emitted,
        self.out().len() > old(self).out().len(), self.out().last() == (key_ev, key_mark),
        self.fed_but(old(self), recv.vx_got(), old(recv).vx_got()),
        old(self).wf() ==> self.wf(), self.work() < old(self).work(), self.vx_errs == old(self).vx_errs,
        old(self).g().ph is Doc, old(self).g().st.len() > 0, old(self).g().st.last() is Key,
        self.goes_from(old(self).g(), key_ev),
    decreases self.work()
//@ at Parser::state_machine start
    proof { if self.states@.len() == 1 { assert(frames(self.states@.drop_last()) =~= Seq::<Fr>::empty()); assert(frames(self.states@) == Seq::<Fr>::empty().push(Fr::RootDone)); } }
//@ spec Parser::state_machine P01 P03 P04 P05 P07
    requires old(self).sm(), !(old(self).state is End) // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::stream_start P01
    requires old(self).sm(), old(self).state is StreamStart // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::document_start P01 P03 P04
    requires old(self).sm(), old(self).state is ImplicitDocumentStart && implicit || old(self).state is DocumentStart && !implicit // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ loop Parser::document_start 1
    invariant self.basic(), self.outer_eq(old(self)), self.tables_eq(old(self)), self.states_eq(old(self)), self.state is ImplicitDocumentStart || self.state is DocumentStart,
        pr(self.vx_toks@) == pr(old(self).vx_toks@), self.left() <= old(self).left(), old(self).strict() ==> self.strict(),
        old(self).strict() && old(self).at_end() ==> self.token == old(self).token && self.scanner == old(self).scanner,
    ensures self.token is Some, !(self.token->Some_0.token_type is DocumentEnd),
    decreases self.left()
//@ spec Parser::parser_process_directives P04
    requires old(self).sm() // P01 P06
    ensures final(self).basic(), final(self).outer_eq(old(self)), final(self).states_eq(old(self)),
        final(self).left() <= old(self).left(),
        final(self).anchors == old(self).anchors, final(self).anchor_id_count == old(self).anchor_id_count,
        ret is Ok ==> {
            &&& old(self).strict() && !(old(self).state is StreamStart) ==> final(self).strict()
            &&& final(self).token is Some
            &&& (old(self).token matches Some(t) && !(t.token_type is VersionDirective) && !(t.token_type is TagDirective)) ==> final(self).token == old(self).token && final(self).scanner == old(self).scanner && final(self).vx_toks == old(self).vx_toks && final(self).tags@ =~= old(self).tags@
            &&& quiet(pr(old(self).vx_toks@)) ==> {
                &&& pr(final(self).vx_toks@).versions <= 1
                &&& pr(final(self).vx_toks@) == (Props { versions: pr(final(self).vx_toks@).versions, dirs: pr(final(self).vx_toks@).dirs, ..pr0() })
                &&& tagsv(final(self).tags@) =~= tagsv(old(self).tags@).union_prefer_right(pr(final(self).vx_toks@).dirs)
            }
        }
//@ at Parser::parser_process_directives loop 1 before
    proof { assert(tagsv(tags@) =~= Map::<Seq<char>, Seq<char>>::empty()); }
//@ at Parser::parser_process_directives after call insert#1
    proof { assert(tagsv(tags@) =~= tagsv(vx_tags0).insert(cowv(*handle), cowv(*prefix))); }
//@ at Parser::parser_process_directives before call insert#1
    let ghost vx_tags0 = tags@;
//@ loop Parser::parser_process_directives 1
    invariant self.basic(), self.outer_eq(old(self)), self.tables_eq(old(self)), self.states_eq(old(self)), self.left() <= old(self).left(),
        old(self).strict() && !(old(self).state is StreamStart) ==> self.strict(),
        (old(self).token matches Some(t) && !(t.token_type is VersionDirective) && !(t.token_type is TagDirective)) ==> self.token == old(self).token && self.scanner == old(self).scanner && self.vx_toks == old(self).vx_toks && tags@ =~= Map::<Seq<char>, String>::empty(),
        quiet(pr(old(self).vx_toks@)) ==> pr(self.vx_toks@) == (Props { versions: if version_directive_received { 1nat } else { 0nat }, dirs: tagsv(tags@), ..pr0() }),
    ensures self.token is Some,
    decreases self.left()
//@ spec Parser::explicit_document_start P01 P03 P04
    requires old(self).sm(), old(self).state is ImplicitDocumentStart || old(self).state is DocumentStart, old(self).strict() ==> !old(self).at_end() // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ at Parser::document_content start
    proof { if self.states@.len() == 1 { assert(frames(self.states@.drop_last()) =~= Seq::<Fr>::empty()); assert(frames(self.states@) == Seq::<Fr>::empty().push(Fr::RootDone)); } }
//@ spec Parser::document_content P01
    requires old(self).sm(), old(self).state is DocumentContent // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::document_end P01 P04
    requires old(self).sm(), old(self).state is DocumentEnd // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::register_anchor P03
    requires old(self).anchor_id_count < usize::MAX
    ensures final(self).outer_eq(old(self)), final(self).states_eq(old(self)), final(self).token == old(self).token, final(self).scanner == old(self).scanner,
        final(self).vx_toks == old(self).vx_toks, final(self).tags == old(self).tags,
        final(self).anchors@ == old(self).anchors@.insert(cowv(name), old(self).anchor_id_count),
        final(self).anchor_id_count == old(self).anchor_id_count + 1, ret == old(self).anchor_id_count,
//@ fattr Parser::parse_node verifier::spinoff_prover
//@ fattr Parser::flow_mapping_key verifier::spinoff_prover
//@ fattr Parser::block_mapping_key verifier::spinoff_prover
//@ fattr Parser::flow_sequence_entry verifier::spinoff_prover
//@ fattr Parser::flow_mapping_value verifier::spinoff_prover
//@ fattr Parser::block_sequence_entry verifier::spinoff_prover
//@ fattr Parser::flow_sequence_entry_mapping_value verifier::spinoff_prover
//@ fattr Parser::indentless_sequence_entry verifier::spinoff_prover
//@ spec Parser::parse_node P01 P03 P04 P09 P13 P14
    requires old(self).sm(), old(self).states@.len() > 0 // P01 P06
    ensures
        final(self).basic(), final(self).outer_eq(old(self)), // P01 P06
        ret matches Ok((ev, span)) ==> span_ok(final(self).d(), span), // P07
        ret is Ok ==> final(self).phi() <= old(self).base() + 1, // P05
        ret is Ok ==> {
            &&& old(self).end_known() ==> final(self).end_known()
            &&& old(self).scanner.error is None ==> final(self).scanner.error is None
            &&& old(self).scanner.stream_start_produced ==> final(self).scanner.stream_start_produced
        }, // P01 P02
        ret matches Ok((ev, span)) ==> final(self).tags == old(self).tags && (quiet(pr(old(self).vx_toks@)) ==> ev_tag_ok(tagsv(old(self).tags@), pr(final(self).vx_toks@), ev)), // P04
        ret matches Ok((ev, span)) ==> ev_says(final(self).d(), ev, span) && (quiet(pr(old(self).vx_toks@)) ==> ev_content_ok(pr(final(self).vx_toks@), ev)), // P01 P09 P13 P14
        ret matches Ok((ev, span)) ==> (quiet(pr(old(self).vx_toks@)) ==> {
            &&& ev_anchor_ok(old(self).anchors@, old(self).anchor_id_count as int, pr(final(self).vx_toks@), ev)
            &&& final(self).anchors@ =~= anchors_after(old(self).anchors@, old(self).anchor_id_count as int, pr(final(self).vx_toks@), ev)
            &&& final(self).anchor_id_count == ids_after(old(self).anchor_id_count as int, pr(final(self).vx_toks@))
        }), // P03
        ret matches Ok((ev, span)) ==> match ev {
                Event::Scalar(_) | Event::Alias(_) => final(self).states@ == old(self).states@.drop_last() && final(self).state == old(self).states@.last(),
                Event::SequenceStart(_, _) => final(self).states == old(self).states && (final(self).token matches Some(t)
                    && (final(self).state is IndentlessSequenceEntry && t.token_type is BlockEntry
                        || final(self).state is BlockSequenceFirstEntry && t.token_type is BlockSequenceStart
                        || final(self).state is FlowSequenceFirstEntry && t.token_type is FlowSequenceStart)),
                Event::MappingStart(_, _) => final(self).states == old(self).states && (final(self).token matches Some(t)
                    && (final(self).state is BlockMappingFirstKey && t.token_type is BlockMappingStart
                        || final(self).state is FlowMappingFirstKey && t.token_type is FlowMappingStart)),
                _ => false,
            }, // P01 P06
//@ rewrite Parser::parse_node
&*name
=>
vx_cow(&name)
//@ rewrite Parser::parse_node
self.resolve_tag(span, &handle, suffix.to_string())
=>
self.resolve_tag(span, vx_cow(&handle), suffix.to_string())
//@ rewrite Parser::parse_node
self.resolve_tag(span, &handle, suffix.to_string())
=>
self.resolve_tag(span, vx_cow(&handle), suffix.to_string())
//@ rewrite Parser::parser_process_directives
&**handle
=>
vx_cow(handle)
//@ rewrite Parser::parser_process_directives
handle.is_empty()
=>
vx_cow(handle).is_empty()
//@ spec Parser::block_mapping_key P01
    requires old(self).sm(), old(self).state is BlockMappingFirstKey && first || old(self).state is BlockMappingKey && !first // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::block_mapping_value P01
    requires old(self).sm(), old(self).state is BlockMappingValue && first // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_mapping_key P01
    requires old(self).sm(), old(self).state is FlowMappingFirstKey && key_flow is FirstKey || old(self).state is FlowMappingKey && key_flow is NonFirstKey // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_mapping_value P01
    requires old(self).sm(), old(self).state is FlowMappingEmptyValue && empty || old(self).state is FlowMappingValue && !empty // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_sequence_entry P01
    requires old(self).sm(), old(self).state is FlowSequenceFirstEntry && first || old(self).state is FlowSequenceEntry && !first // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::indentless_sequence_entry P01
    requires old(self).sm(), old(self).state is IndentlessSequenceEntry // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::block_sequence_entry P01
    requires old(self).sm(), old(self).state is BlockSequenceFirstEntry && first || old(self).state is BlockSequenceEntry && !first // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_sequence_entry_mapping_key P01
    requires old(self).sm(), old(self).state is FlowSequenceEntryMappingKey // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_sequence_entry_mapping_value P01
    requires old(self).sm(), old(self).state is FlowSequenceEntryMappingValue // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ spec Parser::flow_sequence_entry_mapping_end P01
    requires old(self).sm(), old(self).state == State::FlowSequenceEntryMappingEnd(mark) // P01 P06
    ensures
        final(self).sf(old(self), ret), // P01 P05 P06 P07
        final(self).sf_grammar(old(self), ret), // P01 P06
        final(self).sf_end(old(self), ret), // P01 P02
        final(self).sf_anchors(old(self), ret), // P03
        final(self).sf_tags(old(self), ret), // P04
        final(self).sf_content(old(self), ret), // P01 P09 P13 P14
//@ at Parser::resolve_tag start
    proof {
        reveal_strlit(""); reveal_strlit("!"); reveal_strlit("!!"); reveal_strlit("tag:yaml.org,2002:");
        assert("!!"@ =~= seq!['!', '!']); assert(""@ =~= Seq::<char>::empty());
        assert(handle@.len() == 0 ==> handle@ =~= ""@);
    }
//@ spec Parser::resolve_tag P04
    ensures match prefix_of(tagsv(self.tags@), handle@, suffix@) {
        None => ret is Err,
        Some(p) => ret matches Ok(t) && tagv(Some(t)) == Some((p, suffix@)),
    }
//@ rewrite Parser::resolve_tag
self
                    .tags
                    .get("!!")
                    .map_or_else(|| "tag:yaml.org,2002:".to_string(), ToString::to_string)
=>
match self.tags.get("!!") { Some(vx_x) => vx_x.to_string(), None => "tag:yaml.org,2002:".to_string() }
//@ rewrite Parser::resolve_tag
suffix == "!"
=>
suffix.as_str() == "!"
//@ rewrite Parser::resolve_tag
handle.len() >= 2 && handle.starts_with('!') && handle.ends_with('!')
=>
vx_named_handle(handle)
//@ raw
/// `h.len() >= 2 && h.starts_with('!') && h.ends_with('!')`
#[verifier::external_body]
pub fn vx_named_handle(h: &str) -> (r: bool) ensures r == named_handle(h@) { h.len() >= 2 && h.starts_with('!') && h.ends_with('!') }
//@ impl yam-core/src/parsing/parser.rs Parser for Iterator inherent
//@ spec Parser::next P01 P02 P05
    requires old(self).basic()
    ensures
        final(self).basic(), final(self).d() == old(self).d(), final(self).keep_tags == old(self).keep_tags,
        old(self).stream_end_emitted <==> ret is None,
        ret is None ==> *final(self) == *old(self),
        ret matches Some(r) ==> final(self).erred(old(self), r),
        old(self).current matches Some(e) ==> (!old(self).stream_end_emitted ==> ret == Some(ParseResult::Ok(e))),
        ret matches Some(Ok((ev, span))) ==> span_ok(final(self).d(), span) && (ev is StreamEnd <==> final(self).stream_end_emitted),
        !(old(self).state is End && (old(self).current is None || !old(self).wf())) ==> match ret {
            Some(Ok((ev, span))) => final(self).out() =~= old(self).out().push((ev, span)) && final(self).work() < old(self).work()
                && (old(self).wf() ==> final(self).wf()),
            _ => final(self).out() =~= old(self).out(),
        }
