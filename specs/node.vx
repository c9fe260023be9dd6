//# P12: node accessors agree with the value they access
//@ use
use core::marker::PhantomData;
use crate::YamlScalar::Null;
//@ method to_mut vx_cow_mut value
//@ method into_owned vx_cow_own value
//@ raw
// ---- what a node is ----
pub enum Leaf { Null, Bool(bool), Int(i64), Float(f64), Str(Seq<char>) }
pub enum Shape<N> { Bad, Leaf(Leaf), Seq(Seq<N>), Map(Seq<(N, N)>), Tagged((Seq<char>, Seq<char>), N), Alias(usize) }
pub mod ax {
use super::*;
/// the elements of a sequence of nodes, the entries of a mapping of nodes
pub uninterp spec fn elems<S: ?Sized, T>(s: &S) -> Seq<T>;
pub uninterp spec fn ents<M: ?Sized, T>(m: &M) -> Seq<(T, T)>;
pub broadcast axiom fn elems_vec<T>(v: Vec<T>) ensures #[trigger] elems::<Vec<T>, T>(&v) == v@;
pub open spec fn pairs<'a, T>(s: Seq<YamlEntry<'a, T>>) -> Seq<(T, T)> { Seq::new(s.len(), |i: int| (s[i].key, s[i].value)) }
pub broadcast axiom fn ents_vec<'a, T>(v: Vec<YamlEntry<'a, T>>) ensures #[trigger] ents::<Vec<YamlEntry<'a, T>>, T>(&v) == pairs(v@);
}
pub use ax::*;
broadcast use {ax::elems_vec, ax::ents_vec};
pub axiom fn made_string<'a>() ensures forall|c: Cow<'a, str>| (#[trigger] made::<Cow<'a, str>, String>(c))@ == cowt(c);
/// conversions of a number type agree with its `ToMut`
pub axiom fn made_own<I: ToMut<i64>>() ensures forall|n: i64| (#[trigger] made::<i64, I>(n)).own() == n;
pub axiom fn made_f64<F: ToMut<f64>>() ensures forall|f: F| #[trigger] made::<F, f64>(f) == f.own();
pub open spec fn kind<N>(s: Shape<N>) -> NodeType {
    match s {
        Shape::Leaf(Leaf::Null) => NodeType::Null,
        Shape::Leaf(Leaf::Bool(_)) => NodeType::Bool,
        Shape::Leaf(Leaf::Int(_)) => NodeType::Integer,
        Shape::Leaf(Leaf::Float(_)) => NodeType::Floating,
        Shape::Leaf(Leaf::Str(_)) => NodeType::String,
        Shape::Seq(_) => NodeType::Sequence,
        Shape::Map(_) => NodeType::Mapping,
        Shape::Alias(_) => NodeType::Alias,
        _ => NodeType::Bad,
    }
}
pub open spec fn leaf_of<'a, FP: ToMut<f64>, INT: ToMut<i64>>(s: YamlScalar<'a, FP, INT, Cow<'a, str>>) -> Leaf {
    match s {
        YamlScalar::Null(_) => Leaf::Null,
        YamlScalar::Bool(b) => Leaf::Bool(b),
        YamlScalar::Integer(i) => Leaf::Int(i.own()),
        YamlScalar::FloatingPoint(f) => Leaf::Float(f.own()),
        YamlScalar::String(s) => Leaf::Str(cowt(s)),
    }
}
pub open spec fn tagp(t: Cow<'_, Tag>) -> (Seq<char>, Seq<char>) {
    match t { Cow::Borrowed(t) => (t.handle@, t.suffix@), Cow::Owned(t) => (t.handle@, t.suffix@) }
}
pub open spec fn shape_of<'a, N, FP: ToMut<f64>, INT: ToMut<i64>>(d: YamlData<'a, N, FP, INT, Cow<'a, str>, Vec<YamlEntry<'a, N>>>) -> Shape<N> {
    match d {
        YamlData::BadValue => Shape::Bad,
        YamlData::Scalar(s) => Shape::Leaf(leaf_of(s)),
        YamlData::Sequence(s) => Shape::Seq(s@),
        YamlData::Mapping(m) => Shape::Map(pairs(m@)),
        YamlData::Tagged(t, n) => Shape::Tagged(tagp(t), *n),
        YamlData::Alias(a) => Shape::Alias(a),
    }
}
/// the data a scalar makes, but for tags of its own
pub open spec fn plain_data<'i, N, FP, INT, STR, MAP: MappingLike<N>>(d: YamlData<'i, N, FP, INT, STR, MAP>, s: Seq<char>, style: ScalarType, tag: Option<(Seq<char>, Seq<char>)>, v: Cow<'i, str>) -> bool {
    match resolve(s, style, tag) { None => d is BadValue, Some(c) => d matches YamlData::Scalar(x) && is_core(x, c, v) }
}
pub open spec fn data_of<'i, N, FP, INT, STR, MAP: MappingLike<N>>(r: YamlData<'i, N, FP, INT, STR, MAP>, v: Cow<'i, str>, style: ScalarType, tag: Option<(Seq<char>, Seq<char>)>) -> bool {
    if tag is Some && (tag->0).0 != core_handle() {
        r matches YamlData::Tagged(t, n) && tagp(t) == tag->0
        && exists|d: YamlData<'i, N, FP, INT, STR, MAP>| plain_data(d, cowt(v), style, None, v) && n == Box::new(made::<YamlData<'i, N, FP, INT, STR, MAP>, N>(d))
    } else { plain_data(r, cowt(v), style, tag, v) }
}
pub axiom fn made_same<A>(a: A) ensures made::<A, A>(a) == a;
#[verifier::external_body]
pub fn vx_cow_mut<'c, 'a>(c: &'c mut Cow<'a, str>) -> (r: &'c mut str) ensures (*r)@ == cowt(*old(c)), cowt(*final(c)) == (*final(r))@ { c.to_mut() }
#[verifier::external_body]
pub fn vx_cow_own<'a, T: Clone>(c: Cow<'a, T>) -> (r: T) ensures r == (match c { Cow::Borrowed(x) => *x, Cow::Owned(x) => x }) { c.into_owned() }
pub assume_specification<T>[ core::mem::replace ](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification[ usize::cast_signed ](x: usize) -> (r: isize) ensures x <= isize::MAX ==> r == x;
pub open spec fn bool_of<N>(s: Shape<N>) -> Option<bool> { match s { Shape::Leaf(Leaf::Bool(b)) => Some(b), _ => None } }
pub open spec fn int_of<N>(s: Shape<N>) -> Option<i64> { match s { Shape::Leaf(Leaf::Int(b)) => Some(b), _ => None } }
pub open spec fn float_of<N>(s: Shape<N>) -> Option<f64> { match s { Shape::Leaf(Leaf::Float(b)) => Some(b), _ => None } }
pub open spec fn str_of<N>(s: Shape<N>) -> Option<Seq<char>> { match s { Shape::Leaf(Leaf::Str(b)) => Some(b), _ => None } }
//@ item yam-core/src/prelude/mod.rs struct Marker derive=Clone,Copy,Default,PartialEq,Eq,Structural
//@ item yam-core/src/prelude/mod.rs struct Span derive=Clone,Copy,Default,PartialEq,Eq,Structural
//@ item yam-core/src/prelude/mod.rs enum NodeType derive=Clone,Copy,PartialEq,Eq,Structural
//@ item yam-core/src/prelude/mod.rs enum YamlAccessError derive=Clone,Copy,PartialEq,Structural
//@ item yam-core/src/prelude/mod.rs struct YamlEntry derive=Clone
//@ trait yam-core/src/prelude/mod.rs IsEmpty
spec fn vacant(&self) -> bool;
//@ spec IsEmpty::is_collection_empty P12
ensures ret == self.vacant(),
//@ impl yam-core/src/prelude/mod.rs Vec for IsEmpty
open spec fn vacant(&self) -> bool { self@.len() == 0 }
//@ plain Vec::is_collection_empty
//@ trait yam-core/src/prelude/loader.rs SequenceLike
//@ spec SequenceLike::new_empty P11
ensures elems::<Self, T>(&ret) == Seq::<T>::empty(),
//@ spec SequenceLike::push_elem P11
ensures elems::<Self, T>(final(self)) == elems::<Self, T>(old(self)).push(elem),
//@ spec SequenceLike::vec P12
ensures ret@ == elems::<Self, T>(self),
//@ impl yam-core/src/prelude/loader.rs Vec for SequenceLike
//@ plain Vec::new_empty Vec::push_elem Vec::vec
//@ trait yam-core/src/prelude/loader.rs MappingLike
//@ spec MappingLike::new_map P11
ensures ents::<Self, T>(&ret) =~= Seq::<(T, T)>::empty(),
//@ spec MappingLike::push_mapping P11
ensures ents::<Self, T>(final(self)) =~= ents::<Self, T>(old(self)).push((key, value)),
//@ spec MappingLike::entries P12
ensures pairs(ret@) == ents::<Self, T>(self),
//@ impl yam-core/src/prelude/loader.rs Vec for MappingLike
//@ plain Vec::new_map Vec::push_mapping Vec::entries
//@ rewrite MappingLike::new_map
-> Self
=>
-> Self where Self: Sized
//@ trait yam-core/src/prelude/mod.rs ToMutStr
spec fn strv(&self) -> Seq<char>;
//@ spec ToMutStr::mut_str P12
ensures (*ret)@ == old(self).strv(), final(self).strv() == (*final(ret))@,
//@ impl yam-core/src/prelude/mod.rs Cow for ToMutStr
open spec fn strv(&self) -> Seq<char> { cowt(*self) }
//@ plain Cow::mut_str
//@ item yam-core/src/node/yaml_data.rs enum YamlData attr=verifier::accept_recursive_types(NODE)
//@ item yam-core/src/node/yaml.rs struct Yaml
//@ item yam-core/src/node/spanned_yaml.rs struct SpannedYaml
//@ trait yam-core/src/prelude/mod.rs ToMut
spec fn own(&self) -> T;
//@ spec ToMut::as_mut_val P12
ensures old(self).own() == *ret, final(self).own() == *final(ret),
//@ spec ToMut::as_owned P12
ensures ret == self.own(),
//@ impl yam-core/src/prelude/mod.rs i64 for ToMut<i64>
open spec fn own(&self) -> i64 { *self }
//@ plain i64::as_mut_val i64::as_owned
//@ impl yam-core/src/prelude/mod.rs f64 for ToMut<f64>
open spec fn own(&self) -> f64 { *self }
//@ plain f64::as_mut_val f64::as_owned
//@ trait yam-core/src/prelude/mod.rs YamlDocAccess
spec fn shape(&self) -> Shape<Self>;
//@ spec YamlDocAccess::is_bad_value P12
ensures ret == (kind(self.shape()) is Bad),
//@ spec YamlDocAccess::is_null P12
ensures ret == (kind(self.shape()) is Null),
//@ spec YamlDocAccess::is_string P12
ensures ret == (kind(self.shape()) is String),
//@ spec YamlDocAccess::is_bool P12
ensures ret == (kind(self.shape()) is Bool),
//@ spec YamlDocAccess::is_floating_point P12
ensures ret == (kind(self.shape()) is Floating),
//@ spec YamlDocAccess::is_integer P12
ensures ret == (kind(self.shape()) is Integer),
//@ spec YamlDocAccess::is_alias P12
ensures ret == (kind(self.shape()) is Alias),
//@ spec YamlDocAccess::is_collection P12
ensures ret == (self.shape() is Seq || self.shape() is Map),
//@ spec YamlDocAccess::is_mapping P12
ensures ret == (self.shape() is Map),
//@ spec YamlDocAccess::is_sequence P12
ensures ret == (self.shape() is Seq),
//@ spec YamlDocAccess::is_non_empty_collection P12
ensures ret == (match self.shape() { Shape::Seq(s) => s.len() > 0, Shape::Map(m) => m.len() > 0, _ => false }),
//@ spec YamlDocAccess::key_from_usize P12
ensures index <= i64::MAX ==> ret.shape() == Shape::<Self>::Leaf(Leaf::Int(index as i64)),
//@ spec YamlDocAccess::key_from_str P12
ensures ret.shape() == Shape::<Self>::Leaf(Leaf::Str(index@)),
//@ spec YamlDocAccess::as_bool P12
ensures ret == bool_of(self.shape()),
//@ spec YamlDocAccess::as_i64 P12
ensures ret == int_of(self.shape()),
//@ spec YamlDocAccess::as_f64 P12
ensures ret == float_of(self.shape()),
//@ spec YamlDocAccess::as_str P12
ensures match str_of(self.shape()) { None => ret is None, Some(s) => ret is Some && (ret->0)@ == s },
//@ spec YamlDocAccess::as_bool_mut P12
ensures match bool_of(old(self).shape()) { None => ret is None && final(self).shape() == old(self).shape(),
    Some(s) => ret is Some && *(ret->0) == s && final(self).shape() == Shape::<Self>::Leaf(Leaf::Bool(*final(ret->0))) },
//@ spec YamlDocAccess::as_i64_mut P12
ensures match int_of(old(self).shape()) { None => ret is None && final(self).shape() == old(self).shape(),
    Some(s) => ret is Some && *(ret->0) == s && final(self).shape() == Shape::<Self>::Leaf(Leaf::Int(*final(ret->0))) },
//@ spec YamlDocAccess::as_f64_mut P12
ensures match float_of(old(self).shape()) { None => ret is None && final(self).shape() == old(self).shape(),
    Some(s) => ret is Some && *(ret->0) == s && final(self).shape() == Shape::<Self>::Leaf(Leaf::Float(*final(ret->0))) },
//@ spec YamlDocAccess::as_str_mut P12
ensures match str_of(old(self).shape()) { None => ret is None && final(self).shape() == old(self).shape(),
    Some(s) => ret is Some && (ret->0)@ == s && final(self).shape() == Shape::<Self>::Leaf(Leaf::Str((*final(ret->0))@)) },
//@ spec YamlDocAccess::as_sequence P12
ensures match self.shape() { Shape::Seq(s) => ret is Ok && elems::<Self::SequenceNode, Self>((ret->Ok_0)) == s, _ => ret is Err },
//@ spec YamlDocAccess::as_mapping P12
ensures match self.shape() { Shape::Map(s) => ret is Ok && ents::<Self::MappingNode, Self>((ret->Ok_0)) == s, _ => ret is Err },
//@ spec YamlDocAccess::as_sequence_mut P12
ensures match old(self).shape() { Shape::Seq(s) => ret is Ok && elems::<Self::SequenceNode, Self>((ret->Ok_0)) == s
        && final(self).shape() == Shape::Seq(elems::<Self::SequenceNode, Self>(final(ret->Ok_0))),
    _ => ret is Err && final(self).shape() == old(self).shape() },
//@ spec YamlDocAccess::as_mapping_mut P12
ensures match old(self).shape() { Shape::Map(s) => ret is Ok && ents::<Self::MappingNode, Self>((ret->Ok_0)) == s
        && final(self).shape() == Shape::Map(ents::<Self::MappingNode, Self>(final(ret->Ok_0))),
    _ => ret is Err && final(self).shape() == old(self).shape() },
//@ spec YamlDocAccess::sequence P12
requires self.shape() is Seq,
ensures self.shape() == Shape::Seq(elems::<Self::SequenceNode, Self>(ret)),
//@ spec YamlDocAccess::sequence_mut P12
requires old(self).shape() is Seq,
ensures old(self).shape() == Shape::Seq(elems::<Self::SequenceNode, Self>(ret)),
    final(self).shape() == Shape::Seq(elems::<Self::SequenceNode, Self>(final(ret))),
//@ spec YamlDocAccess::mapping P12
requires self.shape() is Map,
ensures self.shape() == Shape::Map(ents::<Self::MappingNode, Self>(ret)),
//@ spec YamlDocAccess::mapping_mut P12
requires old(self).shape() is Map,
ensures old(self).shape() == Shape::Map(ents::<Self::MappingNode, Self>(ret)),
    final(self).shape() == Shape::Map(ents::<Self::MappingNode, Self>(final(ret))),
//@ spec YamlDocAccess::get_tag P12
ensures match self.shape() { Shape::Tagged(t, _) => ret is Some && ((ret->0).handle@, (ret->0).suffix@) == t, _ => ret is None },
//@ spec YamlDocAccess::get_type P12
ensures ret == kind(self.shape()),
//@ spec YamlDocAccess::into_bool P12
ensures ret == bool_of(self.shape()),
//@ spec YamlDocAccess::into_i64 P12
ensures ret == int_of(self.shape()),
//@ spec YamlDocAccess::into_f64 P12
ensures ret == float_of(self.shape()),
//@ spec YamlDocAccess::into_string P12
ensures match str_of(self.shape()) { None => ret is None, Some(s) => ret is Some && (ret->0)@ == s },
//@ spec YamlDocAccess::into_mapping P12
ensures match self.shape() { Shape::Map(s) => ret is Some && ents::<Self::MappingNode, Self>(&(ret->0)) == s, _ => ret is None },
//@ spec YamlDocAccess::into_sequence P12
ensures match self.shape() { Shape::Seq(s) => ret is Some && elems::<Self::SequenceNode, Self>(&(ret->0)) == s, _ => ret is None },
//@ spec YamlDocAccess::into_tagged P12
ensures ret.shape() == Shape::Tagged(tagp(tag), self),
//@ spec YamlDocAccess::bad_span_value P12
ensures ret.shape() is Bad,
//@ spec YamlDocAccess::bad_value P12
ensures ret.shape() is Bad,
//@ spec YamlDocAccess::null P12
ensures ret.shape() == Shape::<Self>::Leaf(Leaf::Null),
//@ spec YamlDocAccess::take P12
ensures ret == *old(self), final(self).shape() is Bad,
//@ spec YamlDocAccess::with_start P12
ensures ret.shape() == self.shape(),
//@ spec YamlDocAccess::with_end P12
ensures ret.shape() == self.shape(),
//@ spec YamlDocAccess::with_span P12
ensures ret.shape() == self.shape(),
//@ impl yam-core/src/node/yaml_data.rs YamlData for Clone
//@ impl yam-core/src/node/yaml.rs Yaml for Clone
//@ impl yam-core/src/node/spanned_yaml.rs SpannedYaml for Clone
//@ external YamlData::clone P12
//@ external Yaml::clone P12
ensures ret == *self,
//@ external SpannedYaml::clone P12
ensures ret == *self,
//@ impl yam-core/src/node/yaml_data.rs YamlData
//@ omitrest YamlData
//@ spec YamlData::value_from_cow_and_metadata P11
ensures data_of(ret, v, style, match tag { Some(t) => Some(tagp(*t)), None => None }),
decreases if tag is Some { 1int } else { 0int }
//@ spec YamlData::get_type P12
ensures ret == (match *self {
    YamlData::Mapping(_) => NodeType::Mapping,
    YamlData::Sequence(_) => NodeType::Sequence,
    YamlData::Alias(_) => NodeType::Alias,
    YamlData::Scalar(YamlScalar::Bool(_)) => NodeType::Bool,
    YamlData::Scalar(YamlScalar::Integer(_)) => NodeType::Integer,
    YamlData::Scalar(YamlScalar::FloatingPoint(_)) => NodeType::Floating,
    YamlData::Scalar(YamlScalar::String(_)) => NodeType::String,
    YamlData::Scalar(YamlScalar::Null(_)) => NodeType::Null,
    _ => NodeType::Bad,
}),
//@ impl yam-core/src/node/yaml.rs Yaml for YamlDocAccess
open spec fn shape(&self) -> Shape<Self> { shape_of(self.0) }
//@ omitrest Yaml
//@ plain Yaml::key_from_usize
//@ plain Yaml::key_from_str
//@ plain Yaml::is_non_empty_collection
//@ plain Yaml::as_bool
//@ plain Yaml::as_bool_mut
//@ plain Yaml::as_i64
//@ plain Yaml::as_i64_mut
//@ plain Yaml::as_f64
//@ plain Yaml::as_f64_mut
//@ plain Yaml::as_sequence
//@ plain Yaml::as_sequence_mut
//@ plain Yaml::as_mapping
//@ plain Yaml::as_mapping_mut
//@ plain Yaml::as_str
//@ plain Yaml::as_str_mut
//@ plain Yaml::sequence
//@ plain Yaml::sequence_mut
//@ plain Yaml::mapping
//@ plain Yaml::mapping_mut
//@ plain Yaml::get_tag
//@ plain Yaml::get_type
//@ plain Yaml::into_string
//@ plain Yaml::into_mapping
//@ plain Yaml::into_sequence
//@ plain Yaml::into_tagged
//@ plain Yaml::bad_span_value
//@ plain Yaml::null
//@ plain Yaml::bad_value
//@ impl yam-core/src/node/spanned_yaml.rs SpannedYaml for YamlDocAccess
open spec fn shape(&self) -> Shape<Self> { shape_of(self.yaml) }
//@ plain SpannedYaml::key_from_usize
//@ plain SpannedYaml::key_from_str
//@ plain SpannedYaml::is_non_empty_collection
//@ plain SpannedYaml::as_bool
//@ plain SpannedYaml::as_bool_mut
//@ plain SpannedYaml::as_i64
//@ plain SpannedYaml::as_i64_mut
//@ plain SpannedYaml::as_f64
//@ plain SpannedYaml::as_f64_mut
//@ plain SpannedYaml::as_sequence
//@ plain SpannedYaml::as_sequence_mut
//@ plain SpannedYaml::as_mapping
//@ plain SpannedYaml::as_mapping_mut
//@ plain SpannedYaml::as_str
//@ plain SpannedYaml::as_str_mut
//@ plain SpannedYaml::sequence
//@ plain SpannedYaml::sequence_mut
//@ plain SpannedYaml::mapping
//@ plain SpannedYaml::mapping_mut
//@ plain SpannedYaml::get_tag
//@ plain SpannedYaml::get_type
//@ plain SpannedYaml::into_string
//@ plain SpannedYaml::into_mapping
//@ plain SpannedYaml::into_sequence
//@ plain SpannedYaml::into_tagged
//@ plain SpannedYaml::bad_span_value
//@ plain SpannedYaml::null
//@ at Yaml::key_from_usize start
proof { made_own::<INT>(); }
//@ at SpannedYaml::as_f64 start
proof { made_f64::<FP>(); }
//@ at Yaml::into_string start
proof { made_string(); }
//@ at SpannedYaml::into_string start
proof { made_string(); }
