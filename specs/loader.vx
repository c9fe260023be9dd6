//# P11: loading builds the tree the events denote
//@ use
use core::marker::PhantomData;
//@ method last_mut vx_last_mut mut
//@ keep StrSource
//@ raw
pub trait VxOptRef<T> { fn vx_txt(&self) -> (r: Option<&T>); }
impl<T> VxOptRef<T> for Option<T> {
    fn vx_txt(&self) -> (r: Option<&T>) ensures match r { None => *self is None, Some(x) => *self == Some(*x) } { self.as_ref() }
}
#[verifier::external_body]
pub fn vx_last_mut<'a, T>(v: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures match r { None => old(v)@.len() == 0 && final(v)@ == old(v)@,
        Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)) }
{ v.last_mut() }
pub axiom fn made_id<A>() ensures forall|a: A| #[trigger] made::<A, A>(a) == a;
/// a copy equals its origin (the `Clone` impls of the nodes, assumed in the node unit)
pub axiom fn cloned_same<N: Clone>() ensures forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> a == b;
/// the conversions from data to nodes (their bodies are checked in the node unit)
pub axiom fn made_node<'i, N: YamlDocAccess<'i>>() ensures forall|d: YamlData<'i, N>| (#[trigger] made::<YamlData<'i, N>, N>(d)).shape() == shape_of(d);
pub mod parsing { pub use super::Parser; }
// ---- trees ----
pub mod vx_tree { use vstd::prelude::*; use super::*;
pub type Tg = (Seq<char>, Seq<char>);
pub enum Tree { Bad, Leaf(Leaf), Seq(Seq<Tree>), Map(Seq<(Tree, Tree)>), Tagged(Tg, Box<Tree>) }
/// the node is that tree
pub open spec fn is_tree<'i, N: YamlDocAccess<'i>>(n: N, t: Tree) -> bool decreases t {
    match (n.shape(), t) {
        (Shape::Bad, Tree::Bad) => true,
        (Shape::Leaf(a), Tree::Leaf(b)) => a == b,
        (Shape::Seq(s), Tree::Seq(ts)) => s.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> is_tree(#[trigger] s[i], ts[i]),
        (Shape::Map(s), Tree::Map(ts)) => s.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> is_tree((#[trigger] s[i]).0, ts[i].0) && is_tree(s[i].1, ts[i].1),
        (Shape::Tagged(p, m), Tree::Tagged(q, u)) => p == q && is_tree(m, *u),
        _ => false,
    }
}
pub proof fn lemma_shapes<'i, N: YamlDocAccess<'i>>()
    ensures forall|m: N, n: N, t: Tree| #![trigger is_tree(m, t), is_tree(n, t)] m.shape() == n.shape() ==> is_tree(m, t) == is_tree(n, t)
{ }
pub open spec fn are_trees<'i, N: YamlDocAccess<'i>>(s: Seq<N>, ts: Seq<Tree>) -> bool {
    s.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> is_tree(#[trigger] s[i], ts[i])
}
pub open spec fn are_entries<'i, N: YamlDocAccess<'i>>(s: Seq<(N, N)>, ts: Seq<(Tree, Tree)>) -> bool {
    s.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> is_tree((#[trigger] s[i]).0, ts[i].0) && is_tree(s[i].1, ts[i].1)
}
pub open spec fn core_leaf(c: Core, s: Seq<char>) -> Leaf {
    match c { Core::Null => Leaf::Null, Core::Bool(b) => Leaf::Bool(b), Core::Int(n) => Leaf::Int(n as i64), Core::Float(x) => Leaf::Float(x), Core::Str => Leaf::Str(s) }
}
/// what a scalar denotes without a tag of its own
pub open spec fn leaf_tree(s: Seq<char>, style: ScalarType, tag: Option<Tg>) -> Tree {
    match resolve(s, style, tag) { None => Tree::Bad, Some(c) => Tree::Leaf(core_leaf(c, s)) }
}
/// a tag outside the core schema is kept around the node
pub open spec fn tag_tree(tag: Option<Tg>, t: Tree) -> Tree {
    match tag { Some(g) => if g.0 != core_handle() { Tree::Tagged(g, Box::new(t)) } else { t }, None => t }
}
pub open spec fn scalar_tree(s: Seq<char>, style: ScalarType, tag: Option<Tg>) -> Tree {
    match tag { Some(g) => if g.0 != core_handle() { Tree::Tagged(g, Box::new(leaf_tree(s, style, None))) } else { leaf_tree(s, style, tag) }, None => leaf_tree(s, style, None) }
}
// ---- what a sequence of events denotes ----
/// a collection that is still open
pub enum Open { Seq { aid: usize, tag: Option<Tg>, items: Seq<Tree> }, Map { aid: usize, tag: Option<Tg>, entries: Seq<(Tree, Tree)>, key: Option<Tree> } }
pub struct B { pub docs: Seq<Tree>, pub ctx: Seq<Open>, pub done: Option<Tree>, pub anchors: Map<usize, Tree> }
pub open spec fn b0() -> B { B { docs: Seq::empty(), ctx: Seq::empty(), done: None, anchors: Map::empty() } }
/// one more node of the innermost construct; it can be referred to by its identifier
pub open spec fn put(b: B, t: Tree, aid: usize) -> B {
    let anchors = if aid > 0 { b.anchors.insert(aid, t) } else { b.anchors };
    if b.ctx.len() == 0 { B { done: Some(t), anchors, ..b } } else {
        let up = b.ctx.drop_last();
        let o = match b.ctx.last() {
            Open::Seq { aid, tag, items } => Open::Seq { aid, tag, items: items.push(t) },
            Open::Map { aid, tag, entries, key: None } => Open::Map { aid, tag, entries, key: Some(t) },
            Open::Map { aid, tag, entries, key: Some(k) } => Open::Map { aid, tag, entries: entries.push((k, t)), key: None },
        };
        B { ctx: up.push(o), anchors, ..b }
    }
}
/// the collection as it is so far, and with its tag
pub open spec fn inner(o: Open) -> Tree { match o { Open::Seq { items, .. } => Tree::Seq(items), Open::Map { entries, .. } => Tree::Map(entries) } }
pub open spec fn aid_of(o: Open) -> usize { match o { Open::Seq { aid, .. } => aid, Open::Map { aid, .. } => aid } }
pub open spec fn tag_of(o: Open) -> Option<Tg> { match o { Open::Seq { tag, .. } => tag, Open::Map { tag, .. } => tag } }
pub open spec fn closed(o: Open) -> Tree { tag_tree(tag_of(o), inner(o)) }
pub proof fn lemma_closed<'i, N: YamlDocAccess<'i>>()
    ensures forall|n: N, m: N, o: Open| #![trigger is_tree(n, closed(o)), is_tree(m, inner(o))]
        is_tree(m, inner(o)) && (if tag_of(o) is Some && (tag_of(o)->0).0 != core_handle() { n.shape() matches Shape::Tagged(g, k) && g == tag_of(o)->0 && k.shape() == m.shape() } else { n.shape() == m.shape() })
            ==> is_tree(n, closed(o))
{
    lemma_shapes::<N>();
    assert forall|n: N, m: N, o: Open| #![trigger is_tree(n, closed(o)), is_tree(m, inner(o))]
        is_tree(m, inner(o)) && (if tag_of(o) is Some && (tag_of(o)->0).0 != core_handle() { n.shape() matches Shape::Tagged(g, k) && g == tag_of(o)->0 && k.shape() == m.shape() } else { n.shape() == m.shape() })
            implies is_tree(n, closed(o)) by {
        if tag_of(o) is Some && (tag_of(o)->0).0 != core_handle() { assert(is_tree(n.shape()->Tagged_1, inner(o))); }
    }
}
pub proof fn lemma_scalars<'i, N: YamlDocAccess<'i>>()
    ensures forall|d: YamlData<'i, N>, v: Cow<'i, str>, style: ScalarType, tag: Option<(Seq<char>, Seq<char>)>| #![trigger data_of(d, v, style, tag), made::<YamlData<'i, N>, N>(d)]
        data_of(d, v, style, tag) ==> is_tree(made::<YamlData<'i, N>, N>(d), scalar_tree(cowt(v), style, tag))
{
    made_node::<N>(); made_id::<i64>(); made_id::<f64>(); made_id::<Cow<'i, str>>();
    assert forall|d: YamlData<'i, N>, v: Cow<'i, str>, style: ScalarType, tag: Option<(Seq<char>, Seq<char>)>| #![trigger data_of(d, v, style, tag), made::<YamlData<'i, N>, N>(d)]
        data_of(d, v, style, tag) implies is_tree(made::<YamlData<'i, N>, N>(d), scalar_tree(cowt(v), style, tag)) by {
        match tag {
            Some(g) => if g.0 != core_handle() {
                let e = choose|e: YamlData<'i, N>| plain_data(e, cowt(v), style, None, v) && d->Tagged_1 == Box::new(made::<YamlData<'i, N>, N>(e));
                assert(is_tree(made::<YamlData<'i, N>, N>(e), leaf_tree(cowt(v), style, None)));
            },
            None => {}
        }
    }
}
pub open spec fn pop(b: B) -> B { B { ctx: b.ctx.drop_last(), ..b } }
pub open spec fn bstep(b: B, ev: Event) -> B {
    match ev {
        Event::DocumentEnd => B { docs: b.docs.push(match b.done { Some(t) => t, None => Tree::Bad }), done: None, ..b },
        Event::SequenceStart(aid, tag) => B { ctx: b.ctx.push(Open::Seq { aid, tag: tagt(tag), items: Seq::empty() }), ..b },
        Event::MappingStart(aid, tag) => B { ctx: b.ctx.push(Open::Map { aid, tag: tagt(tag), entries: Seq::empty(), key: None }), ..b },
        Event::SequenceEnd | Event::MappingEnd => if b.ctx.len() == 0 { b } else { put(pop(b), closed(b.ctx.last()), aid_of(b.ctx.last())) },
        Event::Scalar(v) => put(b, scalar_tree(cowt(v.value), v.scalar_type, tagt(v.tag)), v.anchor_id),
        Event::Alias(id) => put(b, if b.anchors.contains_key(id) { b.anchors[id] } else { Tree::Bad }, 0),
        _ => b,
    }
}
pub open spec fn built<'i>(s: Seq<(Event<'i>, Span)>) -> B decreases s.len() {
    if s.len() == 0 { b0() } else { bstep(built(s.drop_last()), s.last().0) }
}
pub proof fn lemma_built_push<'i>(s: Seq<(Event<'i>, Span)>, e: (Event<'i>, Span))
    ensures built(s.push(e)) == bstep(built(s), e.0)
{ assert(s.push(e).drop_last() =~= s); reveal_with_fuel(built, 2); }
/// the receiver got what was handed out, and the end of the stream perhaps
pub proof fn lemma_made<'i>(got: Seq<(Event<'i>, Span)>, o: Seq<(Event<'i>, Span)>, f: Seq<(Event<'i>, Span)>)
    requires feds(f, o, got, Seq::empty(), 0) || got.len() > 0 && got.last().0 is StreamEnd && feds(f, o, got.drop_last(), Seq::empty(), 0)
    ensures built(got) == built(f.skip(o.len() as int))
{
    let r = f.skip(o.len() as int);
    if feds(f, o, got, Seq::empty(), 0) { assert(got =~= r); } else { assert(got.drop_last() =~= r); }
}
// ---- the grammar and what is open ----
pub open spec fn frame(o: Open, inner: bool) -> Fr {
    match o { Open::Seq { .. } => Fr::InSeq, Open::Map { key, .. } => if (key is None) != inner { Fr::Key } else { Fr::Val } }
}
pub open spec fn framed(st: Seq<Fr>, ctx: Seq<Open>, inner: bool) -> bool decreases ctx.len() {
    st.len() == ctx.len() + 1 && if ctx.len() == 0 { st.last() == (if inner { Fr::RootDone } else { Fr::Root }) } else {
        st.last() == frame(ctx.last(), inner) && framed(st.drop_last(), ctx.drop_last(), true)
    }
}
pub open spec fn fits(g: G, b: B) -> bool {
    if g.ph is Doc {
        if b.done is Some { b.ctx.len() == 0 && g.st.len() == 1 && g.st[0] is RootDone } else { framed(g.st, b.ctx, false) }
    } else { b.ctx.len() == 0 && b.done is None }
}
pub proof fn lemma_inner(st: Seq<Fr>, ctx: Seq<Open>)
    requires framed(st, ctx, false), wants_node(st)
    ensures framed(adv(st), ctx, true)
{
    assert(adv(st).drop_last() =~= st.drop_last());
}
/// a node is complete
pub proof fn lemma_put(st: Seq<Fr>, b: B, t: Tree, aid: usize, ph: Ph)
    requires framed(st, b.ctx, true), b.done is None, ph is Doc
    ensures fits(G { ph, st }, put(b, t, aid))
{
    let c = put(b, t, aid);
    if b.ctx.len() > 0 { assert(c.ctx.drop_last() =~= b.ctx.drop_last()); }
}
pub proof fn lemma_fits_step(g: G, b: B, ev: Event)
    requires fits(g, b), lstep(g, ev) is Some
    ensures fits(lstep(g, ev)->0, bstep(b, ev)),
        ev is Scalar || ev is Alias ==> b.done is None,
        ev is SequenceStart || ev is MappingStart ==> b.done is None,
        ev is SequenceEnd ==> b.done is None && b.ctx.len() > 0 && b.ctx.last() is Seq,
        ev is MappingEnd ==> b.done is None && b.ctx.len() > 0 && b.ctx.last() matches Open::Map { key: None, .. },
        ev is DocumentEnd ==> b.ctx.len() == 0,
        ev is DocumentStart ==> b.ctx.len() == 0 && b.done is None,
        !(ev is Nothing) && !(ev is Comment),
{
    let h = lstep(g, ev)->0;
    let c = bstep(b, ev);
    match ev {
        Event::Scalar(_) | Event::Alias(_) => {
            assert(b.done is None);
            lemma_inner(g.st, b.ctx);
            match ev {
                Event::Scalar(v) => lemma_put(h.st, b, scalar_tree(cowt(v.value), v.scalar_type, tagt(v.tag)), v.anchor_id, h.ph),
                Event::Alias(id) => lemma_put(h.st, b, if b.anchors.contains_key(id) { b.anchors[id] } else { Tree::Bad }, 0, h.ph),
                _ => {}
            }
        }
        Event::SequenceStart(_, _) | Event::MappingStart(_, _) => {
            lemma_inner(g.st, b.ctx);
            assert(h.st.drop_last() =~= adv(g.st));
            assert(c.ctx.drop_last() =~= b.ctx);
        }
        Event::SequenceEnd | Event::MappingEnd => {
            assert(b.done is None);
            lemma_put(h.st, pop(b), closed(b.ctx.last()), aid_of(b.ctx.last()), h.ph);
        }
        _ => {}
    }
}
pub proof fn lemma_fits<'i>(s: Seq<(Event<'i>, Span)>)
    requires egr(s) is Some
    ensures fits(egr(s)->0, built(s))
    decreases s.len()
{
    if s.len() > 0 { lemma_fits(s.drop_last()); lemma_fits_step(egr(s.drop_last())->0, built(s.drop_last()), s.last().0); }
}
// ---- the loader's stacks hold what is open ----
pub open spec fn stacks<'i, N: YamlDocAccess<'i>>(ds: Seq<(N, usize, Option<Cow<'i, Tag>>)>, ks: Seq<Option<N>>, ctx: Seq<Open>) -> bool decreases ctx.len() {
    if ctx.len() == 0 { ds.len() == 0 && ks.len() == 0 } else {
        &&& ds.len() > 0 && ds.last().1 == aid_of(ctx.last()) && tagt(ds.last().2) == tag_of(ctx.last()) && is_tree(ds.last().0, inner(ctx.last()))
        &&& match ctx.last() {
            Open::Seq { .. } => stacks(ds.drop_last(), ks, ctx.drop_last()),
            Open::Map { key, .. } => ks.len() > 0 && (match (ks.last(), key) { (None, None) => true, (Some(n), Some(t)) => is_tree(n, t), _ => false })
                && stacks(ds.drop_last(), ks.drop_last(), ctx.drop_last()),
        }
    }
}
pub open spec fn anchored<'i, N: YamlDocAccess<'i>>(m: Map<usize, N>, a: Map<usize, Tree>) -> bool {
    forall|id: usize| (#[trigger] m.contains_key(id) <==> a.contains_key(id)) && (m.contains_key(id) ==> is_tree(m[id], a[id]))
}
}
pub use vx_tree::*;
impl<'input, Node: YamlDocAccess<'input>> YamlLoader<'input, Node> {
    pub open spec fn holds(&self, b: B) -> bool {
        &&& are_trees(self.docs@, b.docs)
        &&& anchored(self.anchor_map@, b.anchors)
        &&& match b.done {
            Some(t) => b.ctx.len() == 0 && self.doc_stack@.len() == 1 && is_tree(self.doc_stack@[0].0, t) && self.key_stack@.len() == 0,
            None => stacks(self.doc_stack@, self.key_stack@, b.ctx),
        }
    }
}
//@ item yam-core/src/prelude/loader.rs struct YamlLoader attr=verifier::reject_recursive_types(Node)
//@ field YamlLoader vx_hist
Ghost<Seq<(Event<'input>, Span)>>
Ghost(Seq::empty())
//@ field YamlLoader vx_put
Ghost<(B, Tree)>
Ghost((b0(), Tree::Bad))
//@ impl yam-core/src/prelude/loader.rs YamlLoader for Default
//@ spec YamlLoader::default P11
ensures ret.vx_hist@ =~= Seq::<(Event<'i>, Span)>::empty(), ret.holds(b0()),
//@ impl yam-core/src/prelude/loader.rs YamlLoader
//@ omit YamlLoader::fmt
//@ spec YamlLoader::into_documents P11
ensures ret@ == self.docs@,
//@ spec YamlLoader::load_from_parser P11
requires old(parser).between(), old(parser).basic(),
ensures final(parser).same_stream(old(parser)), final(parser).erred(old(parser), ret),
    ret is Ok ==> (final(parser).g().ph is Done || final(parser).ends_next()) && are_trees(ret->Ok_0@, made_docs(old(parser), final(parser))),
//@ spec YamlLoader::load_single_from_parser P11
requires old(parser).between(), old(parser).basic(),
ensures final(parser).same_stream(old(parser)), ret is Ok ==> final(parser).vx_errs@ == old(parser).vx_errs@, ret matches Err(e) ==> final(parser).vx_errs@ =~= old(parser).vx_errs@.push(e) || made_docs(old(parser), final(parser)).len() == 0,
    ret is Ok ==> made_docs(old(parser), final(parser)).len() > 0 && is_tree(ret->Ok_0, made_docs(old(parser), final(parser))[0]),
//@ spec YamlLoader::insert_new_node P11
requires
    old(self).holds(old(self).vx_put@.0), old(self).vx_put@.0.done is None, is_tree(node, old(self).vx_put@.1),
    tag is Some && (tagt(tag)->0).0 != core_handle() ==> !(node.shape() is Seq) && !(node.shape() is Map),
ensures
    final(self).vx_hist@ == old(self).vx_hist@,
    final(self).holds(put(old(self).vx_put@.0, old(self).vx_put@.1, anchor_id)),
//@ spec YamlLoader::load_from P11
requires encode_utf8(input.txt()).len() <= max_len(),
ensures ret is Ok ==> exists|p: Parser<'_, StrSource<'_>>| #[trigger] loaded(p, encode_utf8(input.txt())) && (p.g().ph is Done || p.ends_next()) && are_trees(ret->Ok_0@, built(p.out()).docs),
    ret matches Err(e) ==> exists|p: Parser<'_, StrSource<'_>>| #[trigger] failed(p, encode_utf8(input.txt()), e),
//@ rewrite YamlLoader::load_from
AsRef<str>
=>
VxText
//@ spec YamlLoader::load_single P11
requires encode_utf8(input.txt()).len() <= max_len(),
ensures ret is Ok ==> exists|p: Parser<'_, StrSource<'_>>| #[trigger] loaded(p, encode_utf8(input.txt())) && built(p.out()).docs.len() > 0 && is_tree(ret->Ok_0, built(p.out()).docs[0]),
    ret matches Err(e) ==> (exists|p: Parser<'_, StrSource<'_>>| #[trigger] failed(p, encode_utf8(input.txt()), e)) || exists|p: Parser<'_, StrSource<'_>>| #[trigger] loaded(p, encode_utf8(input.txt())) && built(p.out()).docs.len() == 0,
//@ rewrite YamlLoader::load_single
AsRef<str>
=>
VxText
//@ spec YamlLoader::load_single_source P11
requires input.at() == 0, input.data().len() <= max_len(),
ensures ret is Ok ==> exists|p: Parser<'_, I>| #[trigger] loaded(p, input.data()) && built(p.out()).docs.len() > 0 && is_tree(ret->Ok_0, built(p.out()).docs[0]),
    ret matches Err(e) ==> (exists|p: Parser<'_, I>| #[trigger] failed(p, input.data(), e)) || exists|p: Parser<'_, I>| #[trigger] loaded(p, input.data()) && built(p.out()).docs.len() == 0,
//@ raw
/// the parser read that text so far
pub open spec fn loaded<'i, S: Source>(p: Parser<'i, S>, d: Seq<u8>) -> bool { p.wf() && p.d() == d }
/// the parser read that text and met that error
pub open spec fn failed<'i, S: Source>(p: Parser<'i, S>, d: Seq<u8>, e: YamlError) -> bool { p.basic() && p.d() == d && p.vx_errs@ =~= seq![e] }
/// the documents that the parser's events between two of its states denote
pub open spec fn made_docs<'i, S: Source>(old: &Parser<'i, S>, new: &Parser<'i, S>) -> Seq<Tree> {
    built(new.out().skip(old.out().len() as int)).docs
}
//@ impl yam-core/src/prelude/loader.rs YamlLoader for SpannedEventReceiver
    open spec fn vx_got(&self) -> Seq<(Event<'input>, Span)> { self.vx_hist@ }
    open spec fn vx_ok(&self) -> bool { egr(self.vx_hist@) is Some && self.holds(built(self.vx_hist@)) }
    open spec fn vx_picky(&self) -> bool { true }
//@ plain YamlLoader::on_event
//@ at YamlLoader::on_event start
let ghost vx_ev = ev;
let ghost vx_b = built(self.vx_hist@);
proof {
    lemma_fits(self.vx_hist@);
    lemma_fits_step(egr(self.vx_hist@)->0, vx_b, ev);
    lemma_built_push(self.vx_hist@, (ev, span));
    cloned_same::<Node>();
    made_node::<Node>();
    lemma_shapes::<Node>();
    lemma_closed::<Node>();
    lemma_scalars::<Node>();
}
//@ at YamlLoader::on_event before call insert_new_node#1
self.vx_put = Ghost((pop(vx_b), closed(vx_b.ctx.last())));
//@ at YamlLoader::on_event before call insert_new_node#2
self.vx_put = Ghost((vx_b, match vx_ev { Event::Scalar(v) => scalar_tree(cowt(v.value), v.scalar_type, tagt(v.tag)), _ => Tree::Bad }));
//@ at YamlLoader::on_event before call insert_new_node#3
self.vx_put = Ghost((vx_b, if vx_b.anchors.contains_key(id) { vx_b.anchors[id] } else { Tree::Bad }));
//@ at YamlLoader::on_event exit
self.vx_hist = Ghost(self.vx_hist@.push((vx_ev, span)));
//@ at YamlLoader::insert_new_node start
proof { cloned_same::<Node>(); }
//@ at YamlLoader::load_from_parser after call load#1
proof { lemma_made(loader.vx_hist@, old(parser).out(), parser.out()); }
//@ at YamlLoader::load_single_from_parser after call load#1
proof { lemma_made(event_listener.vx_hist@, old(parser).out(), parser.out()); cloned_same::<Node>(); }
//@ at YamlLoader::load_from around call load#1
proof { if vx_v is Err { assert(failed(parser, encode_utf8(input.txt()), vx_v->Err_0)); } }
//@ at YamlLoader::load_from after call load#1
proof { lemma_made(event_listener.vx_hist@, Seq::empty(), parser.out()); assert(parser.out().skip(0) =~= parser.out()); assert(loaded(parser, encode_utf8(input.txt()))); }
//@ at YamlLoader::load_single around call load#1
proof { if vx_v is Err { assert(failed(parser, encode_utf8(input.txt()), vx_v->Err_0)); } }
//@ at YamlLoader::load_single after call load#1
proof { lemma_made(event_listener.vx_hist@, Seq::empty(), parser.out()); assert(parser.out().skip(0) =~= parser.out()); assert(loaded(parser, encode_utf8(input.txt()))); cloned_same::<Node>(); }
//@ at YamlLoader::load_single_source around call load#1
proof { if vx_v is Err { assert(failed(parser, input.data(), vx_v->Err_0)); } }
//@ at YamlLoader::load_single_source after call load#1
proof { lemma_made(event_listener.vx_hist@, Seq::empty(), parser.out()); assert(parser.out().skip(0) =~= parser.out()); assert(loaded(parser, input.data())); cloned_same::<Node>(); }
