//@ subst Cow::default => vx_cow_default
//@ method ?.into vx_into_cow value
//@ raw
use ScalarType::Plain;
//@ raw
impl Clone for SimpleKey {
    fn clone(&self) -> (r: Self) ensures r == *self {
        SimpleKey { possible: self.possible, required: self.required, token_number: self.token_number, mark: self.mark }
    }
}
impl<'input> vstd::std_specs::cmp::PartialEqSpecImpl for TokenType<'input> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TokenType<'input>) -> bool { tt_eq(*self, *other) }
}
/// equality of the unit-like tokens (tokens with a payload are never compared)
pub uninterp spec fn tt_eq_payload(a: TokenType, b: TokenType) -> bool;
pub open spec fn tt_unit(a: TokenType) -> bool {
    !(a is Scalar) && !(a is Anchor) && !(a is Alias) && !(a is Tag) && !(a is TagDirective) && !(a is VersionDirective)
}
pub open spec fn tt_eq(a: TokenType, b: TokenType) -> bool {
    if tt_unit(a) || tt_unit(b) { a == b } else { tt_eq_payload(a, b) }
}
impl<'input> PartialEq for TokenType<'input> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
pub open spec fn v_at(ind: Seq<Indent>, cur: u32, i: int) -> int { if i < ind.len() { ind[i].indent as int } else { cur as int } }
pub open spec fn ok_ind(d: Seq<u8>, ind: Seq<Indent>, cur: u32) -> bool {
    &&& v_at(ind, cur, 0) == 0
    &&& forall|i: int| 0 < i <= ind.len() ==> v_at(ind, cur, i) <= d.len() + (if #[trigger] ind[i - 1].needs_block_end { 1int } else { 2int })
}
pub open spec fn tt_end(t: TokenType) -> bool { t is StreamEnd }

impl<'input, S: Source> Scanner<'input, S> {
    pub open spec fn d(&self) -> Seq<u8> { self.src.data() }
    pub open spec fn p(&self) -> int { self.src.at() }
    /// the mark is the position reached
    pub open spec fn okp(&self) -> bool { self.okq() && bnd(self.d(), self.p()) }
    /// (which may lie within a character)
    pub open spec fn okq(&self) -> bool {
        &&& u8ok(self.d())
        &&& 0 <= self.p() <= self.d().len() <= max_len()
        &&& self.mark.pos == self.p()
        &&& self.mark.line == 1 + lines(self.d(), self.p())
        &&& self.mark.col == 1 + coln(self.d(), self.p())
    }
    pub open spec fn base_eq(&self, o: &Self) -> bool {
        &&& self.d() == o.d()
        &&& self.stream_start_produced == o.stream_start_produced
        &&& self.stream_end_produced == o.stream_end_produced
        &&& self.stream_end_reached == o.stream_end_reached
        &&& self.tokens_available == o.tokens_available
        &&& self.tokens_parsed == o.tokens_parsed
        &&& self.error == o.error
    }
    pub open spec fn flow_eq(&self, o: &Self) -> bool {
        &&& self.simple_keys == o.simple_keys
        &&& self.flow_level == o.flow_level
        &&& self.implicit_flow_mapping_states == o.implicit_flow_mapping_states
        &&& self.adjacent_value_allowed_at == o.adjacent_value_allowed_at
    }
    pub open spec fn ind_eq(&self, o: &Self) -> bool { self.indents == o.indents && self.indent == o.indent }
    pub open spec fn nav_eq(&self, o: &Self) -> bool {
        self.src == o.src && self.mark == o.mark && self.leading_whitespace == o.leading_whitespace
    }
    pub open spec fn bufs_eq(&self, o: &Self) -> bool {
        self.buf_whitespaces == o.buf_whitespaces && self.buf_leading_break == o.buf_leading_break && self.buf_trailing_breaks == o.buf_trailing_breaks
    }
    /// only the position (and scratch) changed
    pub open spec fn kept(&self, o: &Self) -> bool { self.base_eq(o) && self.flow_eq(o) && self.ind_eq(o) && self.tokens == o.tokens }
    pub open spec fn moved(&self, o: &Self) -> bool { self.kept(o) && self.okp() && o.p() <= self.p() }
    pub open spec fn moved_q(&self, o: &Self) -> bool { self.kept(o) && self.okq() && o.p() <= self.p() }
    pub open spec fn ended(&self) -> bool { self.stream_end_produced || (self.tokens@.len() > 0 && tt_end(self.tokens@.last().token_type)) }
    pub open spec fn ok_keys(&self) -> bool {
        &&& self.simple_keys@.len() == self.flow_level + 1
        &&& forall|i: int| 0 <= i < self.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible ==> {
            &&& self.tokens_parsed <= self.simple_keys@[i].token_number <= self.tokens_parsed + self.tokens@.len()
            &&& mark_ok(self.d(), self.simple_keys@[i].mark)
            &&& self.simple_keys@[i].mark.pos <= self.mark.pos
            &&& self.simple_keys@[i].mark.col <= self.d().len() + 1
        }
    }
    pub open spec fn no_key(&self) -> bool { forall|i: int| 0 <= i < self.simple_keys@.len() ==> !(#[trigger] self.simple_keys@[i]).possible }
    pub open spec fn ok_toks(&self) -> bool {
        &&& forall|j: int| 0 <= j < self.tokens@.len() ==> tok_ok(self.d(), #[trigger] self.tokens@[j])
        &&& forall|j: int| 0 <= j < self.tokens@.len() ==> !((#[trigger] self.tokens@[j]).token_type is StreamStart)
        &&& forall|j: int| 0 <= j < self.tokens@.len() - 1 ==> !tt_end((#[trigger] self.tokens@[j]).token_type)
    }
    pub open spec fn cost(&self) -> int { self.tokens_parsed + self.tokens@.len() + 2 * self.indents@.len() - 8 * self.p() }
    /// inside a stream; the position may be the forced line after the end
    pub open spec fn wf0(&self) -> bool {
        &&& self.d().len() <= max_len()
        &&& 0 <= self.p() <= self.d().len()
        &&& self.mark.pos == self.p()
        &&& mark_ok(self.d(), self.mark)
        &&& self.stream_start_produced && !self.stream_end_produced && !self.stream_end_reached
        &&& 0 < self.tokens_parsed
        &&& ok_ind(self.d(), self.indents@, self.indent)
        &&& self.ok_keys()
        &&& self.ok_toks()
        &&& self.cost() <= 20
    }
    pub open spec fn wf1(&self) -> bool { self.wf0() && self.okp() && !self.ended() }
    pub open spec fn wfe(&self) -> bool {
        &&& self.wf0() && self.ended() && self.no_key() && self.p() == self.d().len()
        &&& self.tokens@.last().span.start == self.mark && self.tokens@.last().span.end == self.mark
    }
    pub open spec fn fetched(&self, o: &Self) -> bool {
        &&& self.base_eq(o)
        &&& o.p() < self.p()
        &&& self.wf1()
        &&& self.cost() <= o.cost()
    }
    /// nothing was read yet
    pub open spec fn start_state(&self) -> bool {
        &&& self.okp() && self.p() == 0
        &&& !self.stream_start_produced && !self.stream_end_produced && !self.stream_end_reached
        &&& self.tokens@.len() == 0 && self.simple_keys@.len() == 0 && self.indents@.len() == 0
        &&& self.tokens_parsed == 0 && self.flow_level == 0 && self.indent == 0
    }
    /// the stream start waits in the queue
    pub open spec fn first_state(&self) -> bool {
        &&& self.okp() && self.p() == 0
        &&& self.stream_start_produced && !self.stream_end_produced && !self.stream_end_reached
        &&& self.tokens@.len() == 1 && self.tokens@[0].token_type is StreamStart && tok_ok(self.d(), self.tokens@[0])
        &&& self.simple_keys@.len() == 1 && self.no_key() && self.indents@.len() == 0
        &&& self.tokens_parsed == 0 && self.flow_level == 0 && self.indent == 0
    }
    pub open spec fn run_state(&self) -> bool {
        self.start_state() || self.wf1() && self.cost() <= 1 || self.wfe() && self.cost() <= 2
    }
    /// between two calls of `next`
    pub open spec fn inv(&self) -> bool {
        self.error is Some || self.stream_end_reached && mark_ok(self.d(), self.mark) || !self.stream_end_reached && !self.tokens_available && self.run_state()
    }
    /// tokens still to come, at most
    pub open spec fn budget(&self) -> int {
        if self.error is Some || self.stream_end_reached { 0 } else { 8 * self.d().len() + 4 - self.tokens_parsed }
    }
    pub open spec fn keys_weaker(&self, o: &Self) -> bool {
        &&& self.simple_keys@.len() == o.simple_keys@.len()
        &&& forall|i: int| 0 <= i < o.simple_keys@.len() ==> #[trigger] self.simple_keys@[i] == (SimpleKey { possible: self.simple_keys@[i].possible, ..o.simple_keys@[i] })
        &&& forall|i: int| 0 <= i < o.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible ==> o.simple_keys@[i].possible
        &&& self.flow_level == o.flow_level
        &&& self.implicit_flow_mapping_states == o.implicit_flow_mapping_states
        &&& self.adjacent_value_allowed_at == o.adjacent_value_allowed_at
    }
    pub open spec fn moved_i(&self, o: &Self) -> bool { self.moved_iq(o) && bnd(self.d(), self.p()) }
    pub open spec fn moved_iq(&self, o: &Self) -> bool {
        &&& self.base_eq(o) && self.flow_eq(o) && self.tokens == o.tokens && self.okq() && o.p() <= self.p()
        &&& ok_ind(self.d(), self.indents@, self.indent) && self.indents@.len() <= o.indents@.len()
    }
    pub open spec fn peek(&self, n: int) -> u8 { pk(self.d(), self.p() + n) }
}
//@ impl yam-core/src/parsing/scanner.rs Scanner
//@ spec Scanner::new
    requires src.at() == 0, src.data().len() <= max_len(), u8ok(src.data())
    ensures ret.start_state(), ret.d() == src.data(), ret.error is None, !ret.tokens_available
//@ spec Scanner::get_span
    ensures ret.start == start, ret.end == self.mark
//@ spec Scanner::next_token P05 P06 P07
    requires old(self).error is None, old(self).inv(),
        old(self).stream_end_produced == old(self).stream_end_reached,
    ensures
        final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok && !old(self).stream_end_reached ==> {
            &&& tok_ok(final(self).d(), ret->Ok_0)
            &&& ret->Ok_0.token_type is StreamStart <==> old(self).start_state()
            &&& tt_end(ret->Ok_0.token_type) <==> final(self).stream_end_reached
            &&& tt_end(ret->Ok_0.token_type) ==> ret->Ok_0.span.start == final(self).mark && ret->Ok_0.span.end == final(self).mark
            &&& final(self).inv()
            &&& final(self).tokens_parsed == old(self).tokens_parsed + 1
            &&& old(self).tokens_parsed <= 8 * final(self).d().len() + 2
            &&& final(self).stream_start_produced
            &&& final(self).stream_end_produced == final(self).stream_end_reached
        },
//@ spec Scanner::fetch_more_tokens P05 P06
    requires old(self).error is None, !old(self).tokens_available, old(self).run_state()
    ensures
        ret is Ok ==> {
            &&& final(self).d() == old(self).d() && final(self).error == old(self).error
            &&& final(self).tokens_parsed == old(self).tokens_parsed
            &&& final(self).tokens@.len() > 0
            &&& forall|i: int| 0 <= i < final(self).simple_keys@.len() && (#[trigger] final(self).simple_keys@[i]).possible
                    ==> final(self).simple_keys@[i].token_number != final(self).tokens_parsed
            &&& if old(self).start_state() { final(self).first_state() } else { final(self).wf1() && final(self).cost() <= 1 || final(self).wfe() && final(self).cost() <= 2 }
        },
        final(self).d() == old(self).d(), final(self).error == old(self).error,
//@ loop Scanner::fetch_more_tokens 1
    invariant_except_break
        if old(self).start_state() { self.start_state() || self.first_state() } else { self.run_state() && !self.start_state() },
    invariant
        self.d() == old(self).d(), self.error == old(self).error,
        self.tokens_parsed == old(self).tokens_parsed,
    ensures
        self.tokens@.len() > 0,
        forall|i: int| 0 <= i < self.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible
                    ==> self.simple_keys@[i].token_number != self.tokens_parsed,
        if old(self).start_state() { self.first_state() } else { self.wf1() && self.cost() <= 1 || self.wfe() && self.cost() <= 2 },
    decreases (if self.start_state() { self.d().len() + 3int } else if self.ended() || self.first_state() { 0int } else { self.d().len() - self.p() + 1 })
//@ loop Scanner::fetch_more_tokens 2
    invariant
        self.simple_keys@.len() >= 0, need_more ==> exists|i: int| 0 <= i < self.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible && self.simple_keys@[i].token_number == self.tokens_parsed,
        !need_more ==> forall|i: int| 0 <= i < vx_i0 && (#[trigger] self.simple_keys@[i]).possible ==> self.simple_keys@[i].token_number != self.tokens_parsed,
    ensures need_more || vx_i0 >= self.simple_keys@.len()
    decreases self.simple_keys@.len() - vx_i0
//@ spec Scanner::process_start P05 P06
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), old(self).mark.col == 1
    ensures match ret {
        Some(r) => r is Ok ==> final(self).fetched(old(self)),
        None => *final(self) == *old(self),
    }, final(self).d() == old(self).d(), final(self).error == old(self).error,
//@ spec Scanner::next_char_is
    requires old(self).okp()
    ensures *final(self) == *old(self), ret == (old(self).peek(0) == chr)
//@ spec Scanner::next_is_document_start
    requires old(self).okp()
    ensures *final(self) == *old(self), ret == (three(old(self).d(), old(self).p(), 0x2D) && sp_bobz(old(self).peek(3)))
//@ spec Scanner::next_is_document_end
    requires old(self).okp()
    ensures *final(self) == *old(self), ret == (three(old(self).d(), old(self).p(), 0x2E) && sp_bobz(old(self).peek(3)))
//@ spec Scanner::fetch_next_token P05 P06
    requires old(self).start_state() || old(self).wf1() && old(self).cost() <= 1
    ensures
        final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> {
            &&& final(self).tokens_parsed == old(self).tokens_parsed
            &&& final(self).tokens_available == old(self).tokens_available
            &&& if old(self).start_state() { final(self).first_state() } else {
                final(self).wf1() && final(self).cost() <= 1 && final(self).p() > old(self).p() || final(self).wfe() && final(self).cost() <= 2
            }
        }
//@ spec Scanner::fetch_stream_end P05 P06
    requires old(self).wf1(), old(self).cost() <= 1, old(self).p() == old(self).d().len()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).base_eq(old(self)) && final(self).wfe() && final(self).cost() <= 2
//@ spec Scanner::fetch_document_indicator P05 P06
    requires asc(old(self).peek(2)), old(self).wf1(), old(self).cost() <= 2, textless(token_type), !tt_end(token_type), !(token_type is StreamStart),
        old(self).p() + 3 <= old(self).d().len(), forall|i: int| old(self).p() <= i < old(self).p() + 3 ==> !sp_break(#[trigger] old(self).d()[i]),
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_stream_start P05 P06
    requires old(self).start_state()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, final(self).first_state(),
        final(self).tokens_available == old(self).tokens_available,
//@ spec Scanner::fetch_main_loop P05 P06
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_flow_collection_start P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), textless(token_type), !tt_end(token_type), !(token_type is StreamStart)
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_flow_collection_end P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), textless(token_type), !tt_end(token_type), !(token_type is StreamStart)
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_plain_scalar P05 P06 P13
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_flow_entry P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_block_entry P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_key P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_value P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_flow_value P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_anchor P05 P06 P03
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_tag P05 P06 P04
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), old(self).peek(0) == 0x21
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_block_scalar P05 P06 P14
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), old(self).peek(0) == (if is_literal { 0x7Cu8 } else { 0x3Eu8 })
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_flow_scalar P05 P06 P09 P13
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::fetch_directive P05 P06
    requires asc(old(self).peek(0)), old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::finish_document P05 P06
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), three(old(self).d(), old(self).p(), 0x2E)
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self))
//@ spec Scanner::end_implicit_mapping
    requires old(self).wf1(), mark_ok(old(self).d(), mark), mark.pos <= old(self).mark.pos, old(self).cost() <= 10
    ensures final(self).base_eq(old(self)), final(self).wf1(), final(self).nav_eq(old(self)), final(self).ind_eq(old(self)),
        final(self).cost() <= old(self).cost() + 1, final(self).flow_level == old(self).flow_level
//@ spec Scanner::skip_yaml_whitespace
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self))
//@ loop Scanner::skip_yaml_whitespace 1
    invariant self.moved(old(self))
    decreases self.d().len() - self.p()
//@ spec Scanner::skip_n_non_blank P07
    requires old(self).okq(), old(self).p() + count <= old(self).d().len(),
        forall|i: int| old(self).p() <= i < old(self).p() + count ==> !sp_break(#[trigger] old(self).d()[i]),
    ensures final(self).moved_q(old(self)), final(self).p() == old(self).p() + count, !final(self).leading_whitespace
//@ spec Scanner::skip_ws_to_eol P07
    requires old(self).okp()
    ensures final(self).moved(old(self)),
        clear(old(self).d(), old(self).p(), final(self).p()),
        final(self).leading_whitespace == old(self).leading_whitespace, final(self).mark.line == old(self).mark.line,
        ret is Ok ==> ret->Ok_0 is Result && final(self).peek(0) != 0x20 && final(self).peek(0) != 0x23 && (skip_tabs is Yes ==> final(self).peek(0) != 0x09)
//@ spec Scanner::skip_linebreak P07
    requires old(self).okp()
    ensures final(self).moved(old(self)), final(self).bufs_eq(old(self)),
        final(self).p() == old(self).p() + brk_len(old(self).d(), old(self).p()),
        sp_break(old(self).peek(0)) ==> final(self).leading_whitespace && final(self).mark.col == 1 && final(self).mark.line == old(self).mark.line + 1,
        !sp_break(old(self).peek(0)) ==> *final(self) == *old(self)
//@ spec Scanner::skip_blank P07
    requires old(self).okq(), old(self).p() < old(self).d().len(), !sp_break(old(self).peek(0))
    ensures final(self).moved_q(old(self)), final(self).bufs_eq(old(self)), final(self).p() == old(self).p() + 1, final(self).mark.line == old(self).mark.line, final(self).leading_whitespace == old(self).leading_whitespace
//@ spec Scanner::skip_non_blank P07
    requires old(self).okq(), old(self).p() < old(self).d().len(), !sp_break(old(self).peek(0))
    ensures final(self).moved_q(old(self)), final(self).bufs_eq(old(self)), final(self).p() == old(self).p() + 1, final(self).mark.line == old(self).mark.line, !final(self).leading_whitespace
//@ spec Scanner::is_within_block
    ensures ret == (self.indents@.len() > 0)
//@ spec Scanner::skip_to_next_token P05 P06
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && !sp_bob(final(self).peek(0)) && final(self).peek(0) != 0x23
//@ loop Scanner::skip_to_next_token 1
    invariant self.moved(old(self))
    ensures !sp_bob(self.peek(0)) && self.peek(0) != 0x23
    decreases self.d().len() - self.p()
//@ spec Scanner::scan_directive P05 P06
    requires asc(old(self).peek(0)), old(self).okp(), old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p() && tok_ok(final(self).d(), ret->Ok_0) && !tt_end(ret->Ok_0.token_type) && !(ret->Ok_0.token_type is StreamStart) // P05 P06 P07 P04
//@ fattr Scanner::scan_plain_scalar verifier::loop_isolation(true)
//@ spec Scanner::scan_plain_scalar P05 P06 P13
    requires old(self).okp(), old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), ok_ind(old(self).d(), old(self).indents@, old(self).indent)
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved_i(old(self)) && old(self).p() < final(self).p() && tok_ok(final(self).d(), ret->Ok_0) && ret->Ok_0.token_type is Scalar, // P05 P06 P07 P13
        ret is Ok ==> {
            let e = ret->Ok_0.span.end.pos as int;
            &&& says(ret->Ok_0.token_type, ScalarType::Plain, Some(fold_to(old(self).d(), old(self).p(), e))) // P13
            &&& plain_extent(old(self).d(), old(self).p(), e, final(self).flow_level > 0, final(self).indent + 1) // P13
        }
//@ at Scanner::scan_plain_scalar loop 1 before
    let ghost p0 = self.p();
    let ghost vx_e = self.p();
    let ghost d = self.d();
    let ghost flow = self.flow_level > 0;
    proof { lemma_fold_push(d, p0, p0); }
//@ loop Scanner::scan_plain_scalar 1
    invariant_except_break
        !sp_bob(self.peek(0)),
        p0 < vx_e ==> vx_e < self.p() && (flow || self.mark.col >= indent) && folding(d, vx_e, self.p(), false, self.leading_whitespace, self.buf_whitespaces@, self.buf_leading_break@, self.buf_trailing_breaks@), // P13
    invariant self.moved_i(old(self)), p0 == old(self).p(), d == old(self).d(), flow == (self.flow_level > 0), 0 <= p0 < d.len(),
        indent == self.indent + 1, start_mark == old(self).mark, start_mark.pos == old(self).p(),
        mark_ok(self.d(), end_mark), end_mark.pos == vx_e, p0 <= vx_e <= self.p(), bnd(d, vx_e),
        string@ == fold_to(d, p0, vx_e), plain_in(d, p0, vx_e, flow, indent as int), // P13
        if p0 == vx_e { string@.len() == 0 && self.p() == p0 && self.buf_whitespaces@.len() == 0 && self.buf_leading_break@.len() == 0 && self.buf_trailing_breaks@.len() == 0 } // P13
        else { string@.len() > 0 && !sp_bob(d[vx_e - 1]) && forall|i: int| vx_e <= i < self.p() ==> sp_bob(#[trigger] d[i]) }, // P13
    ensures
        string@.len() > 0 ==> plain_stop(d, vx_e, flow, indent as int), // P13
    decreases self.d().len() - self.p()
//@ loop Scanner::scan_plain_scalar 2
    invariant self.moved_iq(old(self)), p0 == old(self).p(), d == old(self).d(), flow == (self.flow_level > 0), 0 <= p0 <= p1 < self.p(),
        indent == self.indent + 1, string@ == fold_to(d, p0, self.p()), string@.len() > 0, plain_in(d, p0, self.p(), flow, indent as int), !sp_bob(d[self.p() - 1]), // P13
        self.buf_whitespaces@.len() == 0, self.buf_leading_break@.len() == 0, self.buf_trailing_breaks@.len() == 0, !self.leading_whitespace, // P13
        end ==> sp_bobz(self.peek(0)) || !can_plain(d, self.p(), flow),
    decreases (if end { 0int } else { 1 + self.d().len() - self.p() })
//@ loop Scanner::scan_plain_scalar 3
    invariant self.moved_iq(old(self)), p0 == old(self).p(), d == old(self).d(), flow == (self.flow_level > 0), 0 <= p0 <= p1 < self.p(), p2 <= self.p(),
        indent == self.indent + 1, !end ==> self.p() == p2 + vx_i0, vx_hi0 >= 3,
        string@ == fold_to(d, p0, self.p()), string@.len() > 0, plain_in(d, p0, self.p(), flow, indent as int), !sp_bob(d[self.p() - 1]), // P13
        self.buf_whitespaces@.len() == 0, self.buf_leading_break@.len() == 0, self.buf_trailing_breaks@.len() == 0, !self.leading_whitespace, // P13
        end ==> sp_bobz(self.peek(0)) || !can_plain(d, self.p(), flow),
    ensures end || vx_i0 >= vx_hi0
    decreases vx_hi0 - vx_i0
//@ at Scanner::scan_plain_scalar loop 1 start
    let ghost p1 = self.p();
    proof { if p0 < vx_e { lemma_fold_ws(d, p0, vx_e, p1); lemma_ws_start(d, p0, vx_e, p1); lemma_run_skip(d, vx_e, p1); } lemma_run_end(d, p1); if p1 < d.len() { lemma_fold_push(d, p0, p1); lemma_run_step(d, p1); } } // P13
//@ at Scanner::scan_plain_scalar loop 2 start
    let ghost p2 = self.p();
//@ at Scanner::scan_plain_scalar loop 2 before
    proof { assert(string@ =~= fold_to(d, p0, p1 + 1)); } // P13
//@ at Scanner::scan_plain_scalar loop 3 start
    proof { if self.p() < d.len() && !sp_bob(d[self.p()]) { lemma_fold_push(d, p0, self.p()); } }
//@ at Scanner::scan_plain_scalar loop 2 after
    proof { vx_e = self.p(); assert(bnd(d, vx_e)); } // P08
//@ at Scanner::scan_plain_scalar loop 1 after
    proof { if string@.len() > 0 { assert(plain_extent(d, p0, vx_e, flow, indent as int)); } } // P13
    proof { lemma_u8_fold(d, p0, vx_e); } // P08
//@ loop Scanner::scan_plain_scalar 4
    invariant self.moved_i(old(self)), p3 <= self.p(), self.p() == p3 ==> sp_bob(self.peek(0)), flow == (self.flow_level > 0), d == old(self).d(),
        indent == self.indent + 1, 0 <= vx_e <= self.p(), forall|i: int| vx_e <= i < self.p() ==> sp_bob(#[trigger] d[i]),
        folding(d, vx_e, self.p(), false, self.leading_whitespace, self.buf_whitespaces@, self.buf_leading_break@, self.buf_trailing_breaks@), // P13
    decreases self.d().len() - self.p()
//@ at Scanner::scan_plain_scalar loop 4 before
    let ghost p3 = self.p();
    proof { assert(newlines(0) =~= Seq::<u8>::empty()); assert(newlines(-1) =~= Seq::<u8>::empty()); assert(d.subrange(p3, p3) =~= Seq::<u8>::empty()); // P13
        assert(self.buf_whitespaces@ =~= Seq::<u8>::empty()); assert(self.buf_leading_break@ =~= Seq::<u8>::empty()); assert(self.buf_trailing_breaks@ =~= Seq::<u8>::empty()); } // P13
//@ at Scanner::scan_plain_scalar loop 4 start
    let ghost vx_p = self.p();
    proof { lemma_lines_step(d, self.p()); }
//@ at Scanner::scan_plain_scalar loop 4 end
    proof { lemma_nobrk(d, vx_p, vx_p); }
//@ at Scanner::scan_plain_scalar loop 4 after
    proof { lemma_run_skip(d, vx_e, self.p()); lemma_run_end(d, vx_e); if self.p() < d.len() { lemma_run_step(d, self.p()); } } // P05 P06 P07 P13
//@ at Scanner::scan_plain_scalar before call skip_while_blank#1
    let ghost vx_q = self.p();
//@ at Scanner::scan_plain_scalar after call skip_while_blank#1
    proof { lemma_nobrk(d, vx_q, self.p()); }
//@ spec Scanner::scan_flow_scalar P05 P06 P09 P13
    requires asc(old(self).peek(0)), old(self).okp(), old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p() && tok_ok(final(self).d(), ret->Ok_0) && ret->Ok_0.token_type is Scalar, // P05 P06 P07 P09 P13
        ret is Ok ==> says(ret->Ok_0.token_type, if single { ScalarType::SingleQuote } else { ScalarType::DoubleQuote }, quoted(old(self).d(), old(self).p() + 1, single)), // P09 P13
//@ loop Scanner::scan_flow_scalar 1
    invariant self.moved(old(self)), old(self).p() < self.p(), start_mark == old(self).mark,
        app(string@, quoted(self.d(), self.p(), single)) == quoted(self.d(), old(self).p() + 1, single), // P09 P13
    leading_break@.len() == 0, trailing_breaks@.len() == 0, whitespaces@.len() == 0, // P09 P13
    ensures self.peek(0) == 0x27 || self.peek(0) == 0x22, quoted(self.d(), old(self).p() + 1, single) == Some(string@) // P09 P13
    decreases self.d().len() - self.p()
//@ at Scanner::scan_flow_scalar loop 1 after
    proof { assert(bnd(self.d(), old(self).p() + 1)); lemma_u8_quoted(self.d(), old(self).p() + 1, single); } // P08
//@ loop Scanner::scan_flow_scalar 2
    invariant self.moved(old(self)), old(self).p() < self.p(), p3 <= self.p(), self.p() == p3 ==> sp_bob(self.peek(0)) || p1 < p3, p1 <= p3,
        run_end(self.d(), self.p()) == run_end(self.d(), p3), p3 <= run_end(self.d(), p3) <= self.d().len(), // P09 P13
        folding(self.d(), p3, self.p(), esc, leading_blanks, whitespaces@, leading_break@, trailing_breaks@), // P09 P13
    decreases self.d().len() - self.p()
//@ at Scanner::scan_flow_scalar loop 1 start
    let ghost p1 = self.p();
//@ at Scanner::scan_flow_scalar loop 1 before
    proof { assert(string@ =~= Seq::<u8>::empty()); lemma_app_none(quoted(self.d(), self.p(), single)); } // P09 P13
//@ at Scanner::scan_flow_scalar loop 2 before
    let ghost p3 = self.p();
    let ghost esc = leading_blanks;
    proof { assert(newlines(0) =~= Seq::<u8>::empty()); assert(newlines(-1) =~= Seq::<u8>::empty()); assert(self.d().subrange(p3, p3) =~= Seq::<u8>::empty()); // P09 P13
        assert(leading_break@ =~= Seq::<u8>::empty()); assert(trailing_breaks@ =~= Seq::<u8>::empty()); assert(whitespaces@ =~= Seq::<u8>::empty()); // P09 P13
        lemma_run_end(self.d(), p3); lemma_quoted(self.d(), p3, single, string@); lemma_app_app(string@, newlines(lines(self.d(), run_end(self.d(), p3)) - lines(self.d(), p3)), quoted(self.d(), run_end(self.d(), p3), single)); } // P09 P13
//@ at Scanner::scan_flow_scalar loop 2 start
    proof { lemma_run_step(self.d(), self.p()); lemma_lines_step(self.d(), self.p()); } // P09 P13
//@ at Scanner::scan_flow_scalar loop 2 after
    proof { lemma_run_end(self.d(), self.p()); assert(self.p() == run_end(self.d(), p3)); assert(newlines(0) =~= Seq::<u8>::empty()); } // P09 P13
//@ at Scanner::scan_flow_scalar text before match self.src.peekz(0) { b'\'' if single => break,
    proof {
        lemma_quoted(self.d(), self.p(), single, string@); // P09 P13
        assert(newlines(0) =~= Seq::<u8>::empty()); lemma_app_none(quoted(self.d(), self.p(), single)); // P09 P13
        if self.p() < self.d().len() { lemma_run_step(self.d(), self.p()); } // P05 P06 P07 P09 P13
    }
//@ fattr Scanner::scan_block_scalar verifier::loop_isolation(true)
//@ spec Scanner::scan_block_scalar P05 P06 P14
    requires old(self).wf1(), old(self).cost() <= 2, old(self).p() < old(self).d().len(), old(self).peek(0) == (if literal { 0x7Cu8 } else { 0x3Eu8 })
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).fetched(old(self)),
        ret is Ok ==> final(self).tokens@.len() > 0 && says_block(final(self).d(), final(self).tokens@.last().token_type, old(self).p(), final(self).indent as int) // P14
//@ at Scanner::scan_block_scalar text before if self.src.peekz(0) == b'+' || self.src.peekz(0) == b'-' {
    let ghost h = old(self).p(); let ghost par = self.indent as int; let ghost d = self.d();
//@ at Scanner::scan_block_scalar before call skip_ws_to_eol#1
    let ghost he = self.p();
    let ghost ch = vx_chomp(chomping); let ghost inc = increment as int;
    proof { assert(header(d, h) == (ch, inc, he)) by { reveal(header); } } // P14
//@ at Scanner::scan_block_scalar text before if is_break(self.src.peekz(0)) {
    proof { assert(line_end(d, he, true) == self.p()) by { reveal(clear); lemma_line_end(d, he, self.p(), true); } } // P14
    let ghost e = self.p();
//@ at Scanner::scan_block_scalar text before if self.src.peekz(0) == b'\t' {
    let ghost b = self.p();
    proof { if e < d.len() { lemma_line_step(d, e); } assert(chomping_break@ =~= newlines(if e < b { 1 } else { 0 })); } // P14
//@ at Scanner::scan_block_scalar text before if self.src.peek_checked(0).is_none() {
    let ghost q = self.p(); let ghost k0 = lines(d, q) - lines(d, b); // P14
    proof { assert(trailing_breaks@ =~= newlines(k0)); lemma_block_text(d, h, par, !literal, ch, inc, he, e, b, q, indent as int); } // P14
//@ at Scanner::scan_block_scalar after call push_back#1
    proof { let t = self.tokens@.last(); assert(says_block(d, t.token_type, h, par)); assert(tok_ok(d, t)) by { reveal(says_text); } assert(self.fetched(old(self))); } // P14
//@ at Scanner::scan_block_scalar before call push_back#1
    proof { assert(contents@ == block_text(d, h, par, !literal)); } // P14
    proof { lemma_u8_block(d, h, par, !literal); } // P08
//@ at Scanner::scan_block_scalar before call push_back#2
    proof { assert(string@ == all); } // P14
    proof { lemma_u8_block(d, h, par, !literal); } // P08
//@ at Scanner::scan_block_scalar after call push_back#2
    proof { let t = self.tokens@.last(); assert(says_block(d, t.token_type, h, par)); assert(tok_ok(d, t)) by { reveal(says_text); } assert(self.fetched(old(self))); } // P14
//@ at Scanner::scan_block_scalar loop 1 before
    let ghost n = indent as int; let ghost all = block_rest(d, q, n, !literal, ch, false, k0, false); // P14
    proof { assert(newlines(0) =~= Seq::<u8>::empty()); assert(string@ + all =~= all); assert(string@ =~= Seq::<u8>::empty()); assert(leading_break@ =~= newlines(0)); } // P14
//@ loop Scanner::scan_block_scalar 1
    invariant_except_break
        self.p() < d.len() || self.mark.col <= indent, !sp_break(self.peek(0)),
        string@ + block_rest(d, self.p(), n, !literal, ch, leading_break@.len() > 0, trailing_breaks@.len() as int, leading_blank) == all, // P14
    invariant self.moved_i(old(self)), old(self).p() < self.p(), mark_ok(self.d(), start_mark), start_mark.pos <= self.mark.pos,
        line_buffer@.len() == 0, d == self.d(), ch == vx_chomp(chomping), n == indent, indent >= 1, self.indent == par,
        leading_break@ == newlines(if leading_break@.len() > 0 { 1 } else { 0 }), // P14
        trailing_breaks@ == newlines(trailing_breaks@.len() as int), // P14
    ensures
        self.p() >= d.len() && self.mark.col > indent ==> leading_break@.len() == 0 && trailing_breaks@.len() == 0 && string@ + newlines(if ch < 0 { 0 } else { 1 }) == all, // P14
        !(self.p() >= d.len() && self.mark.col > indent) ==> !block_line(d, self.p(), n) // P14
            && string@ + block_rest(d, self.p(), n, !literal, ch, leading_break@.len() > 0, trailing_breaks@.len() as int, leading_blank) == all, // P14
    decreases self.d().len() - self.p()
//@ at Scanner::scan_block_scalar loop 1 start
    let ghost s0 = string@; let ghost q1 = self.p(); let ghost lb = leading_break@.len() > 0; let ghost k = trailing_breaks@.len() as int; let ghost pb = leading_blank; // P14
    proof { lemma_block_rest(d, q1, n, !literal, ch, lb, k, pb, s0); } // P14
//@ at Scanner::scan_block_scalar after call scan_block_scalar_content_line#1
    let ghost e1 = self.p();
    proof { lemma_nobrk(d, q1, e1); if e1 < d.len() { lemma_line_step(d, e1); }
        assert(string@ =~= s0 + between_lines(!literal, lb, k, pb, sp_blank(pk(d, q1))) + d.subrange(q1, e1)); } // P14
//@ at Scanner::scan_block_scalar loop 1 end
    proof { let b1 = e1 + brk_len(d, e1);
        assert(leading_break@ =~= newlines(1)); // P14
        assert(trailing_breaks@ =~= newlines(lines(d, self.p()) - lines(d, b1))); } // P14
//@ at Scanner::scan_block_scalar loop 1 after
    proof { lemma_block_rest(d, self.p(), n, !literal, ch, leading_break@.len() > 0, trailing_breaks@.len() as int, leading_blank, string@); } // P14
    proof { lemma_chomped(string@, leading_break@, trailing_breaks@, ch); } // P14
//@ spec Scanner::scan_block_scalar_content_line P14
    requires old(self).okp(), old(line_buffer)@.len() == 0
    ensures final(self).moved(old(self)), final(line_buffer)@.len() == 0,
        final(self).p() == final(self).d().len() || sp_break(final(self).peek(0)),
        final(self).p() == line_end(final(self).d(), old(self).p(), false), // P14
        forall|i: int| old(self).p() <= i < final(self).p() ==> !sp_break(#[trigger] final(self).d()[i]),
        final(string)@ == old(string)@ + final(self).d().subrange(old(self).p(), final(self).p()) // P14
//@ loop Scanner::scan_block_scalar_content_line 1
    invariant self.moved_q(old(self)), line_buffer@.len() == 0,
        0 <= old(self).p(),
        forall|i: int| old(self).p() <= i < self.p() ==> !sp_break(#[trigger] self.d()[i]),
        string@ == old(string)@ + self.d().subrange(old(self).p(), self.p()) // P14
    decreases self.d().len() - self.p()
//@ spec Scanner::scan_anchor P05 P06 P03
    requires asc(old(self).peek(0)), old(self).okp(), old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p() && tok_ok(final(self).d(), ret->Ok_0) && (if alias { ret->Ok_0.token_type is Alias } else { ret->Ok_0.token_type is Anchor }), // P05 P06 P07 P03
        ret is Ok ==> says_anchor(old(self).d(), old(self).p(), ret->Ok_0.token_type, alias) && final(self).p() == anchor_end(old(self).d(), old(self).p() + 1) // P03
//@ at Scanner::scan_anchor loop 1 end
    proof { let a = old(self).p() + 1; assert(self.d().subrange(a, self.p()) =~= self.d().subrange(a, self.p() - 1).push(self.d()[self.p() - 1])); } // P03
//@ at Scanner::scan_anchor loop 1 after
    proof { assert(bnd(self.d(), self.p())); assert(bnd(self.d(), old(self).p() + 1)); lemma_u8_anchor(self.d(), old(self).p() + 1, self.p()); } // P08
//@ loop Scanner::scan_anchor 1
    invariant self.moved_q(old(self)), old(self).p() < self.p(), start_mark == old(self).mark,
        0 <= old(self).p(), anchor_end(self.d(), self.p()) == anchor_end(self.d(), old(self).p() + 1), string@ =~= self.d().subrange(old(self).p() + 1, self.p()), // P03
    decreases self.d().len() - self.p()
//@ spec Scanner::scan_tag P05 P06 P04
    requires old(self).okp(), old(self).p() < old(self).d().len(), !sp_bob(old(self).peek(0)), old(self).peek(0) == 0x21
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p() && tok_ok(final(self).d(), ret->Ok_0) && ret->Ok_0.token_type is Tag, // P05 P06 P07 P04 P09
        ret is Ok ==> says_tag(ret->Ok_0.token_type, tag_at(old(self).d(), old(self).p())) // P04 P09
//@ at Scanner::scan_tag after call scan_tag_handle#1
    let ghost vx_h = handle@;
    proof { let d = self.d(); let e = self.p(); let a = old(self).p();
        assert(d.subrange(a, e).len() > 1 ==> d.subrange(a, e).skip(1) =~= d.subrange(a + 1, e)); // P04 P09
        assert(e == a + 1 ==> d.subrange(a + 1, e) =~= Seq::<u8>::empty()); // P04 P09
        assert(d.subrange(a, e)[0] == 0x21); assert(d.subrange(a, e).last() == d[e - 1]); lemma_app_none(uri_text(d, e, true)); } // P04 P09
//@ at Scanner::scan_tag text before if is_blank_or_breakz(self.src.peekz(0))
    proof { let o = tag_at(old(self).d(), old(self).p()); assert(o is Some); assert(handle@ =~= (o->0).0); assert(suffix@ =~= (o->0).1); } // P04 P09
    proof { lemma_u8_tag(old(self).d(), old(self).p()); } // P08
//@ spec Scanner::scan_verbatim_tag P05 P06 P04
    requires old(self).okp(), old(self).peek(0) == 0x21, old(self).peek(1) == 0x3C
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p(),
        ret is Ok ==> uri_text(old(self).d(), old(self).p() + 2, false) == Some(ret->Ok_0@) && pk(old(self).d(), uri_end(old(self).d(), old(self).p() + 2, false)) == 0x3E // P04 P09
//@ at Scanner::scan_verbatim_tag loop 1 before
    proof { lemma_app_none(uri_text(self.d(), self.p(), false)); assert(string@ =~= Seq::<u8>::empty()); lemma_uri(self.d(), self.p(), false, string@); } // P04 P09
//@ at Scanner::scan_verbatim_tag loop 1 end
    proof { lemma_uri(self.d(), self.p(), false, string@); } // P04 P09
//@ loop Scanner::scan_verbatim_tag 1
    invariant self.moved(old(self)), old(self).p() < self.p(),
        app(string@, uri_text(self.d(), self.p(), false)) == uri_text(self.d(), old(self).p() + 2, false), // P04 P09
        uri_end(self.d(), self.p(), false) == uri_end(self.d(), old(self).p() + 2, false), // P04 P09
        !uri_class(self.peek(0), false) ==> app(string@, uri_text(self.d(), self.p(), false)) == Some(string@) && uri_end(self.d(), self.p(), false) == self.p(), // P04 P09
    decreases self.d().len() - self.p()
//@ spec Scanner::scan_tag_handle P05 P06 P04
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p() && ret->Ok_0@.len() == final(self).p() - old(self).p(),
        ret is Ok ==> ret->Ok_0@ == handle_text(old(self).d(), old(self).p()) && final(self).p() == handle_end(old(self).d(), old(self).p()) && old(self).peek(0) == 0x21 // P04
            && (directive ==> final(self).p() == old(self).p() + 1 || final(self).p() >= old(self).p() + 2 && pk(old(self).d(), final(self).p() - 1) == 0x21)
//@ spec Scanner::scan_tag_shorthand_suffix P05 P06 P04
    requires old(self).okp(), head@.len() <= max_len()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)),
        ret is Ok ==> app(if head@.len() > 1 { head@.skip(1) } else { Seq::empty() }, uri_text(old(self).d(), old(self).p(), true)) == Some(ret->Ok_0@) && final(self).p() == uri_end(old(self).d(), old(self).p(), true) // P04 P09
//@ at Scanner::scan_tag_shorthand_suffix loop 1 before
    proof { lemma_uri(self.d(), self.p(), true, string@); assert(string@ =~= if head@.len() > 1 { head@.skip(1) } else { Seq::empty() }); } // P04 P09
//@ at Scanner::scan_tag_shorthand_suffix loop 1 start
    proof { lemma_uri(self.d(), self.p(), true, string@); } // P04 P09
//@ at Scanner::scan_tag_shorthand_suffix loop 1 end
    proof { lemma_uri(self.d(), self.p(), true, string@); } // P04 P09
//@ loop Scanner::scan_tag_shorthand_suffix 1
    invariant self.moved(old(self)), length <= head@.len() + self.p() - old(self).p(), head@.len() <= max_len(), 0 <= old(self).p(),
        app(string@, uri_text(self.d(), self.p(), true)) == app(if head@.len() > 1 { head@.skip(1) } else { Seq::empty() }, uri_text(self.d(), old(self).p(), true)), // P04 P09
        uri_end(self.d(), self.p(), true) == uri_end(self.d(), old(self).p(), true), // P04 P09
        !uri_class(self.peek(0), true) ==> app(string@, uri_text(self.d(), self.p(), true)) == Some(string@) && uri_end(self.d(), self.p(), true) == self.p(), // P04 P09
    decreases self.d().len() - self.p()
//@ spec Scanner::skip_block_scalar_first_line_indent P14
    requires old(self).okp(), old(self).indent <= old(self).d().len() + 2
    ensures final(self).moved(old(self)), !sp_break(final(self).peek(0)), 1 <= *final(indent) <= final(self).d().len() + 3,
        final(self).p() == first_indent(old(self).d(), old(self).p(), 0).0, // P14
        ({ let m = first_indent(old(self).d(), old(self).p(), 0).1; *final(indent) == if m > old(self).indent + 1 { m } else { old(self).indent + 1 } }), // P14
        lines(old(self).d(), old(self).p()) <= lines(final(self).d(), final(self).p()), // P14
        final(breaks)@ == old(breaks)@ + newlines(lines(final(self).d(), final(self).p()) - lines(old(self).d(), old(self).p())), // P14
//@ loop Scanner::skip_block_scalar_first_line_indent 1
    invariant_except_break
        first_indent(self.d(), self.p(), max_indent as int) == first_indent(self.d(), old(self).p(), 0), // P14
    invariant self.moved(old(self)), max_indent <= self.d().len() + 1, lines(self.d(), old(self).p()) <= lines(self.d(), self.p()), // P05 P06 P07 P14
        breaks@ == old(breaks)@ + newlines(lines(self.d(), self.p()) - lines(self.d(), old(self).p())), // P14
    ensures !sp_break(self.peek(0)), (self.p(), max_indent as int) == first_indent(self.d(), old(self).p(), 0) // P14
    decreases self.d().len() - self.p()
//@ loop Scanner::skip_block_scalar_first_line_indent 2
    invariant self.moved(old(self)), p1 <= self.p(), lines(self.d(), self.p()) == lines(self.d(), p1), // P05 P06 P07 P14
        first_indent(self.d(), self.p(), max_indent as int) == first_indent(self.d(), p1, max_indent as int), // P14
    decreases self.d().len() - self.p()
//@ at Scanner::skip_block_scalar_first_line_indent loop 1 before
    proof { assert(newlines(0) =~= Seq::<u8>::empty()); assert(old(breaks)@ + newlines(0) =~= old(breaks)@); } // P14
//@ at Scanner::skip_block_scalar_first_line_indent loop 1 start
    let ghost p1 = self.p();
//@ at Scanner::skip_block_scalar_first_line_indent loop 2 start
    proof { lemma_first_indent(self.d(), self.p(), max_indent as int); lemma_line_step(self.d(), self.p()); } // P14
//@ at Scanner::skip_block_scalar_first_line_indent loop 2 after
    let ghost p2 = self.p(); let ghost b2 = breaks@;
    proof { lemma_first_indent(self.d(), self.p(), max_indent as int); if p2 < self.d().len() { lemma_line_step(self.d(), p2); } } // P14
//@ at Scanner::skip_block_scalar_first_line_indent after call read_break#1
    proof { let k = lines(self.d(), p2) - lines(self.d(), old(self).p()); assert(newlines(k).push(0x0Au8) == newlines(k + 1)); // P14
        assert(b2.push(0x0Au8) =~= old(breaks)@ + newlines(k).push(0x0Au8)); } // P14
//@ spec Scanner::skip_block_scalar_indent P14
    requires old(self).okp()
    ensures final(self).moved(old(self)), !sp_break(final(self).peek(0)),
        final(self).p() == indent_end(old(self).d(), old(self).p(), indent as int), // P14
        lines(old(self).d(), old(self).p()) <= lines(final(self).d(), final(self).p()), // P14
        final(breaks)@ == old(breaks)@ + newlines(lines(final(self).d(), final(self).p()) - lines(old(self).d(), old(self).p())), // P14
        1 <= indent && old(self).mark.col <= indent ==> final(self).mark.col <= indent
//@ loop Scanner::skip_block_scalar_indent 1
    invariant self.moved(old(self)), lines(self.d(), old(self).p()) <= lines(self.d(), self.p()), // P05 P06 P07 P14
        breaks@ == old(breaks)@ + newlines(lines(self.d(), self.p()) - lines(self.d(), old(self).p())), // P14
        indent_end(self.d(), self.p(), indent as int) == indent_end(self.d(), old(self).p(), indent as int), // P14
        1 <= indent && old(self).mark.col <= indent ==> self.mark.col <= indent
    ensures !sp_break(self.peek(0)), self.p() == indent_end(self.d(), old(self).p(), indent as int) // P14
    decreases self.d().len() - self.p()
//@ loop Scanner::skip_block_scalar_indent 2
    invariant self.moved(old(self)), p1 <= self.p(), lines(self.d(), self.p()) == lines(self.d(), p1), // P05 P06 P07 P14
        indent_end(self.d(), self.p(), indent as int) == indent_end(self.d(), p1, indent as int), // P14
        1 <= indent && old(self).mark.col <= indent ==> self.mark.col <= indent
    decreases self.d().len() - self.p()
//@ loop Scanner::skip_block_scalar_indent 3
    invariant self.moved(old(self)), p1 <= self.p(), lines(self.d(), self.p()) == lines(self.d(), p1), // P05 P06 P07 P14
        indent_end(self.d(), self.p(), indent as int) == indent_end(self.d(), p1, indent as int), // P14
        1 <= indent && old(self).mark.col <= indent ==> self.mark.col <= indent
    ensures !(self.mark.col < indent && self.peek(0) == 0x20)
    decreases self.d().len() - self.p()
//@ loop Scanner::skip_block_scalar_indent 4
    invariant self.moved(old(self)), p1 <= self.p(), p2 <= self.p(), lines(self.d(), self.p()) == lines(self.d(), p1), // P05 P06 P07 P14
        indent_end(self.d(), self.p(), indent as int) == indent_end(self.d(), p1, indent as int), // P14
        1 <= indent && old(self).mark.col <= indent ==> self.mark.col <= indent
    decreases self.d().len() - self.p()
//@ at Scanner::skip_block_scalar_indent loop 1 before
    proof { assert(newlines(0) =~= Seq::<u8>::empty()); assert(old(breaks)@ + newlines(0) =~= old(breaks)@); } // P14
//@ at Scanner::skip_block_scalar_indent loop 1 start
    let ghost p1 = self.p();
//@ at Scanner::skip_block_scalar_indent loop 2 start
    proof { lemma_indent_end(self.d(), self.p(), indent as int); lemma_line_step(self.d(), self.p()); } // P14
//@ at Scanner::skip_block_scalar_indent loop 4 start
    proof { lemma_indent_end(self.d(), self.p(), indent as int); lemma_line_step(self.d(), self.p()); } // P14
//@ at Scanner::skip_block_scalar_indent text before if is_break(self.src.peekz(0)) {
    let ghost p3 = self.p(); let ghost b3 = breaks@;
    proof { lemma_indent_end(self.d(), p3, indent as int); if p3 < self.d().len() { lemma_line_step(self.d(), p3); } } // P14
//@ at Scanner::skip_block_scalar_indent after call read_break#1
    proof { let k = lines(self.d(), p3) - lines(self.d(), old(self).p()); assert(newlines(k).push(0x0Au8) == newlines(k + 1)); // P14
        assert(b3.push(0x0Au8) =~= old(breaks)@ + newlines(k).push(0x0Au8)); } // P14
//@ at Scanner::skip_block_scalar_indent loop 3 start
    let ghost p2 = self.p();
//@ spec Scanner::read_break
    requires old(self).okp()
    ensures final(self).moved(old(self)), final(self).p() == old(self).p() + brk_len(old(self).d(), old(self).p()), final(s)@ == old(s)@.push(0x0A)
//@ spec Scanner::consume_flow_scalar_non_whitespace_chars P05 P06 P09 P13
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && (old(self).p() < final(self).p() || sp_bobz(final(self).peek(0)) || final(self).peek(0) == (if single { 0x27u8 } else { 0x22u8 })),
        ret is Ok && !*old(leading_blanks) ==> {
            &&& single ==> !*final(leading_blanks)
            &&& !*final(leading_blanks) ==> (sp_bobz(final(self).peek(0)) || ends_quote(final(self).d(), final(self).p(), single)) // P09 P13
            &&& app(final(string)@, if *final(leading_blanks) { after_break(final(self).d(), final(self).p(), single) } else { quoted(final(self).d(), final(self).p(), single) }) // P09 P13
                == app(old(string)@, quoted(old(self).d(), old(self).p(), single)) // P09 P13
        }
//@ at Scanner::consume_flow_scalar_non_whitespace_chars loop 1 start
    proof { lemma_quoted(self.d(), self.p(), single, string@); } // P09 P13
//@ loop Scanner::consume_flow_scalar_non_whitespace_chars 1
    invariant_except_break *leading_blanks == *old(leading_blanks), !*old(leading_blanks) ==> app(string@, quoted(self.d(), self.p(), single)) == app(old(string)@, quoted(old(self).d(), old(self).p(), single)), // P09 P13
    invariant self.moved_q(old(self)),
    ensures bnd(self.d(), self.p()), // P08
        old(self).p() < self.p() || sp_bobz(self.peek(0)) || self.peek(0) == (if single { 0x27u8 } else { 0x22u8 }),
        !*old(leading_blanks) ==> {
            &&& single ==> !*leading_blanks
            &&& !*leading_blanks ==> (sp_bobz(self.peek(0)) || ends_quote(self.d(), self.p(), single)) // P09 P13
            &&& app(string@, if *leading_blanks { after_break(self.d(), self.p(), single) } else { quoted(self.d(), self.p(), single) }) // P09 P13
                == app(old(string)@, quoted(old(self).d(), old(self).p(), single)) // P09 P13
        }
    decreases self.d().len() - self.p()
//@ spec Scanner::resolve_flow_scalar_escape_sequence P06 P09
    requires old(self).okp(), old(self).peek(0) == 0x5C, !sp_break(old(self).peek(1))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p(),
        match escape_at(old(self).d(), old(self).p()) { // P09
            Some((c, n)) => ret == Ok::<char, YamlError>(c) && final(self).p() == old(self).p() + n && 2 <= n,
            None => ret is Err,
        }
//@ loop Scanner::resolve_flow_scalar_escape_sequence 1
    invariant self.moved(old(self)), code_length <= 8, vx_hi0 == code_length,
        value < p16(vx_i0 as int), forall|i: int| 0 <= i < vx_i0 ==> sp_hex(#[trigger] self.peek(i)), // P09
        !sp_break(old(self).peek(1)), old(self).p() + 2 == self.p(),
        value == hexval(self.d(), self.p(), vx_i0 as int), hexes(self.d(), self.p(), vx_i0 as int), // P09
        code_length == code_digits(old(self).peek(1)), letter_escape(old(self).peek(1)) is None, code_length > 0, vx_i0 <= vx_hi0, // P09
    decreases vx_hi0 - vx_i0
//@ spec Scanner::unroll_indent
    requires old(self).wf0(), !old(self).ended()
    ensures final(self).wf0(), !final(self).ended(), final(self).base_eq(old(self)), final(self).flow_eq(old(self)), final(self).nav_eq(old(self)),
        final(self).cost() <= old(self).cost(), final(self).flow_level == 0 ==> final(self).indent <= col,
//@ loop Scanner::unroll_indent 1
    invariant self.wf0(), !self.ended(), self.base_eq(old(self)), self.flow_eq(old(self)), self.nav_eq(old(self)),
        self.cost() <= old(self).cost()
    decreases self.indents@.len()
//@ spec Scanner::roll_indent
    requires old(self).wf1(), old(self).cost() <= 10, textless(token_type), !tt_end(token_type), !(token_type is StreamStart), mark_ok(old(self).d(), mark),
        col <= old(self).d().len() + 1,
        number matches Some(n) ==> old(self).tokens_parsed <= n <= old(self).tokens_parsed + old(self).tokens@.len(),
    ensures final(self).wf1(), final(self).base_eq(old(self)), final(self).flow_eq(old(self)), final(self).nav_eq(old(self)),
        final(self).cost() <= old(self).cost() + 3,
//@ spec Scanner::roll_one_col_indent
    requires old(self).wf1(), old(self).cost() <= 10
    ensures final(self).wf1(), final(self).base_eq(old(self)), final(self).flow_eq(old(self)), final(self).nav_eq(old(self)), final(self).tokens == old(self).tokens,
        final(self).cost() <= old(self).cost() + 2,
//@ spec Scanner::unroll_non_block_indents
    requires ok_ind(old(self).d(), old(self).indents@, old(self).indent)
    ensures ok_ind(final(self).d(), final(self).indents@, final(self).indent), final(self).base_eq(old(self)), final(self).flow_eq(old(self)),
        final(self).nav_eq(old(self)), final(self).tokens == old(self).tokens, final(self).indents@.len() <= old(self).indents@.len(),
        final(self).indents@.len() > 0 ==> final(self).indents@.last().needs_block_end
//@ loop Scanner::unroll_non_block_indents 1
    invariant ok_ind(self.d(), self.indents@, self.indent), self.base_eq(old(self)), self.flow_eq(old(self)),
        self.nav_eq(old(self)), self.tokens == old(self).tokens, self.indents@.len() <= old(self).indents@.len(),
    ensures self.indents@.len() > 0 ==> self.indents@.last().needs_block_end
    decreases self.indents@.len()
//@ spec Scanner::insert_token
    requires pos <= old(self).tokens@.len(), old(self).wf1(), old(self).cost() <= 15, tok_ok(old(self).d(), token), tt_plain(token.token_type)
    ensures final(self).tokens@ == old(self).tokens@.insert(pos as int, token), final(self).wf1(), final(self).cost() == old(self).cost() + 1,
        final(self).base_eq(old(self)), final(self).flow_eq(old(self)), final(self).nav_eq(old(self)), final(self).ind_eq(old(self))
//@ spec Scanner::increase_flow_level
    requires old(self).wf1()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).base_eq(old(self)) && final(self).nav_eq(old(self)) && final(self).ind_eq(old(self)) && final(self).tokens == old(self).tokens && final(self).wf1()
//@ spec Scanner::decrease_flow_level
    requires old(self).wf1()
    ensures final(self).base_eq(old(self)) && final(self).nav_eq(old(self)) && final(self).ind_eq(old(self)) && final(self).tokens == old(self).tokens && final(self).wf1()
//@ spec Scanner::stale_simple_keys
    requires old(self).mark.pos <= max_len(), forall|i: int| 0 <= i < old(self).simple_keys@.len() && (#[trigger] old(self).simple_keys@[i]).possible ==> old(self).simple_keys@[i].mark.pos <= max_len()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).base_eq(old(self)) && final(self).nav_eq(old(self)) && final(self).ind_eq(old(self)) && final(self).tokens == old(self).tokens && final(self).keys_weaker(old(self))
//@ loop Scanner::stale_simple_keys 1
    invariant self.base_eq(old(self)) && self.nav_eq(old(self)) && self.ind_eq(old(self)) && self.tokens == old(self).tokens && self.keys_weaker(old(self)),
        old(self).mark.pos <= max_len(), forall|i: int| 0 <= i < old(self).simple_keys@.len() && (#[trigger] old(self).simple_keys@[i]).possible ==> old(self).simple_keys@[i].mark.pos <= max_len(),
    decreases self.simple_keys@.len() - vx_i0
//@ spec Scanner::remove_simple_key
    requires old(self).simple_keys@.len() > 0
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error,
        ret is Ok ==> final(self).base_eq(old(self)) && final(self).nav_eq(old(self)) && final(self).ind_eq(old(self)) && final(self).tokens == old(self).tokens && final(self).keys_weaker(old(self))
            && !final(self).simple_keys@.last().possible
//@ spec Scanner::save_simple_key
    requires old(self).wf1()
    ensures final(self).base_eq(old(self)), final(self).nav_eq(old(self)), final(self).ind_eq(old(self)), final(self).tokens == old(self).tokens, final(self).wf1(),
        final(self).flow_level == old(self).flow_level
//@ spec Scanner::scan_uri_escapes P05 P06 P09
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p(),
        match uri_at(old(self).d(), old(self).p()) { // P09
            Some((c, n)) => ret is Ok && ret->Ok_0@ == vstd::utf8::encode_utf8(seq![c]) && final(self).p() == old(self).p() + 3 * n,
            None => ret is Err,
        }
//@ loop Scanner::scan_uri_escapes 1
    invariant_except_break
        width == 0 ==> self.p() == old(self).p() && length == 0,
    invariant self.moved(old(self)), width <= 3, width <= length <= 4,
        length > 0 ==> {
            &&& self.p() == old(self).p() + 3 * (length - width)
            &&& length > width
            &&& length == utf8_width(pct_byte(self.d(), old(self).p()))
            &&& pcts(self.d(), old(self).p(), length - width) // P09
            &&& code == utf8_code(self.d(), old(self).p(), length as int, length - width) // P09
        },
        width == 3 ==> code <= 7, width == 2 ==> code <= 0x1ff, width == 1 ==> code <= 0x7fff, code <= 0x1f_ffff,
    ensures length > 0, width == 0
    decreases self.d().len() - self.p()
//@ spec Scanner::scan_directive_name P05 P06
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)),
        ret is Ok ==> ret->Ok_0@ == old(self).d().subrange(old(self).p(), final(self).p()) && final(self).p() == alpha_end(old(self).d(), old(self).p()) // P04
//@ spec Scanner::scan_version_directive_value P05 P06
    requires old(self).okp(), mark_ok(old(self).d(), *marker), marker.pos <= old(self).mark.pos
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && tok_ok(final(self).d(), ret->Ok_0) && ret->Ok_0.token_type is VersionDirective
//@ spec Scanner::scan_tag_directive_value P05 P06 P04
    requires old(self).okp(), mark_ok(old(self).d(), *mark), mark.pos <= old(self).mark.pos
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && span_ok(final(self).d(), ret->Ok_0.span) && ret->Ok_0.span.start == *mark && ret->Ok_0.token_type is TagDirective,
        ret is Ok ==> says_directive(ret->Ok_0.token_type, old(self).d(), blank_end(old(self).d(), old(self).p())) // P04
//@ spec Scanner::scan_version_directive_number P05 P06
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self))
//@ loop Scanner::scan_version_directive_number 1
    invariant self.moved(old(self)), length <= 9
    decreases self.d().len() - self.p()
//@ spec Scanner::uri_scans_or_non_blank P05 P06
    requires asc(old(self).peek(0)), old(self).okp(), old(self).p() < old(self).d().len(), !sp_break(old(self).peek(0))
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)) && old(self).p() < final(self).p(),
        uri_class(old(self).peek(0), false) ==> { // P04 P09
            &&& ret is Ok ==> app(final(string)@, uri_text(final(self).d(), final(self).p(), false)) == app(old(string)@, uri_text(old(self).d(), old(self).p(), false)) // P04 P09
                && uri_end(final(self).d(), final(self).p(), false) == uri_end(old(self).d(), old(self).p(), false) // P04 P09
            &&& ret is Err ==> uri_text(old(self).d(), old(self).p(), false) is None // P04 P09
        },
        uri_class(old(self).peek(0), true) ==> { // P04 P09
            &&& ret is Ok ==> app(final(string)@, uri_text(final(self).d(), final(self).p(), true)) == app(old(string)@, uri_text(old(self).d(), old(self).p(), true)) // P04 P09
                && uri_end(final(self).d(), final(self).p(), true) == uri_end(old(self).d(), old(self).p(), true) // P04 P09
            &&& ret is Err ==> uri_text(old(self).d(), old(self).p(), true) is None // P04 P09
        }
//@ at Scanner::uri_scans_or_non_blank start
    proof { lemma_uri(self.d(), self.p(), false, string@); lemma_uri(self.d(), self.p(), true, string@); } // P04 P09
//@ spec Scanner::scan_tag_prefix P05 P06 P04
    requires old(self).okp()
    ensures final(self).d() == old(self).d(), final(self).error == old(self).error, ret is Ok ==> final(self).moved(old(self)),
        ret is Ok ==> prefix_text(old(self).d(), old(self).p()) == Some(ret->Ok_0@) && final(self).p() == uri_end(old(self).d(), old(self).p(), false) // P04 P09
//@ at Scanner::scan_tag_prefix start
    proof { lemma_uri(self.d(), self.p(), false, Seq::empty()); lemma_app_none(uri_text(self.d(), self.p(), false)); } // P04 P09
//@ at Scanner::scan_tag_prefix loop 1 before
    proof { lemma_uri(self.d(), self.p(), false, string@); } // P04 P09
//@ at Scanner::scan_tag_prefix loop 1 end
    proof { lemma_uri(self.d(), self.p(), false, string@); } // P04 P09
//@ loop Scanner::scan_tag_prefix 1
    invariant self.moved(old(self)),
        app(string@, uri_text(self.d(), self.p(), false)) == uri_text(self.d(), old(self).p(), false), // P04 P09
        uri_end(self.d(), self.p(), false) == uri_end(self.d(), old(self).p(), false), // P04 P09
        !uri_class(self.peek(0), false) ==> app(string@, uri_text(self.d(), self.p(), false)) == Some(string@) && uri_end(self.d(), self.p(), false) == self.p(), // P04 P09
    decreases self.d().len() - self.p()
//@ impl yam-core/src/parsing/scanner.rs Scanner for Iterator inherent
//@ spec Scanner::next P05 P06 P07
    requires old(self).inv(), old(self).stream_end_produced == old(self).stream_end_reached || old(self).error is Some
    ensures final(self).inv(), final(self).d() == old(self).d(),
        final(self).stream_end_produced == final(self).stream_end_reached || final(self).error is Some,
        ret matches Some(t) ==> tok_ok(final(self).d(), t) && final(self).budget() < old(self).budget() && (tt_end(t.token_type) <==> final(self).stream_end_reached)
            && (t.token_type is StreamStart <==> old(self).start_state()) && final(self).error is None
            && (tt_end(t.token_type) ==> t.span.start == final(self).mark && t.span.end == final(self).mark),
        ret is None ==> final(self).error is Some || final(self).stream_end_reached,
        old(self).error is Some || old(self).stream_end_reached ==> ret is None && *final(self) == *old(self),
        old(self).stream_start_produced || ret is Some ==> final(self).stream_start_produced || final(self).error is Some,
//@ rewrite Scanner::scan_tag
b"".as_ref()
=>
b""
//@ rewrite Scanner::scan_tag
handle.len() >= 2 && handle.starts_with(b"!") && handle.ends_with(b"!")
=>
vx_is_handle(&handle)
//@ rewrite Scanner::scan_tag
handle == b"!!"
=>
vx_bytes_eq(&handle, b"!!")
//@ rewrite Scanner::scan_tag_handle
string != b"!"
=>
!vx_is_bang(&string)
//@ rewrite Scanner::scan_tag
b"!".to_vec()
=>
vx_bang()
//@ raw
/// `b"!".to_vec()`
pub fn vx_bang() -> (r: Vec<u8>) ensures r@ == seq![0x21u8] { vec![b'!'] }
/// `s == b"!"`
pub fn vx_is_bang(s: &Vec<u8>) -> (r: bool) ensures r == (s@ =~= seq![0x21u8]) { s.len() == 1 && s[0] == b'!' }
/// `s.into()`, a `Cow<str>`
#[verifier::external_body]
pub fn vx_into_cow<'a>(s: String) -> (r: Cow<'a, str>) ensures cowv(r) == s@ { s.into() }
/// `h.len() >= 2 && h.starts_with(b"!") && h.ends_with(b"!")`
pub fn vx_is_handle(h: &Vec<u8>) -> (r: bool)
    ensures r == (h@.len() >= 2 && h@[0] == 0x21 && h@.last() == 0x21)
{ h.len() >= 2 && h[0] == 0x21 && h[h.len() - 1] == 0x21 }
//@ loop Scanner::fetch_stream_end 1
    invariant self.base_eq(old(self)) && self.src == old(self).src && self.ind_eq(old(self)) && self.tokens == old(self).tokens && self.keys_weaker(old(self)),
        vx_i0 <= self.simple_keys@.len(), forall|i: int| 0 <= i < vx_i0 ==> !(#[trigger] self.simple_keys@[i]).possible,
        self.mark.pos == old(self).mark.pos, self.mark.line == old(self).mark.line + 1, self.mark.col == 1,
    decreases self.simple_keys@.len() - vx_i0
//@ at Scanner::skip_n_non_blank end
    proof { lemma_nobrk(self.d(), old(self).p(), self.p()); }
//@ at Scanner::skip_blank end
    proof { lemma_nobrk(self.d(), old(self).p(), self.p()); }
//@ at Scanner::skip_non_blank end
    proof { lemma_nobrk(self.d(), old(self).p(), self.p()); }
//@ at Scanner::skip_ws_to_eol after call skip_ws_to_eol#1
    proof { lemma_nobrk(self.d(), old(self).p(), self.p()); reveal(clear); }
//@ at Scanner::skip_linebreak start
    proof { let p = self.p(); let d = self.d(); assert(lines(d, p + 1) == lines(d, p) + if brk_end(d, p) { 1int } else { 0int }); assert(lines(d, p + 2) == lines(d, p + 1) + if brk_end(d, p + 1) { 1int } else { 0int });
        assert(coln(d, p + 1) == if brk_end(d, p) { 0 } else { coln(d, p) + 1 }); assert(coln(d, p + 2) == if brk_end(d, p + 1) { 0 } else { coln(d, p + 1) + 1 }); }
//@ at Scanner::skip_to_next_token before call skip_while_non_breakz#1
    let ghost vgskip_while_non_breakz1 = self.p();
//@ at Scanner::skip_to_next_token after call skip_while_non_breakz#1
    proof { lemma_nobrk(self.d(), vgskip_while_non_breakz1, self.p()); }
//@ at Scanner::skip_yaml_whitespace before call skip_while_non_breakz#1
    let ghost vgskip_while_non_breakz1 = self.p();
//@ at Scanner::skip_yaml_whitespace after call skip_while_non_breakz#1
    proof { lemma_nobrk(self.d(), vgskip_while_non_breakz1, self.p()); }
//@ at Scanner::scan_directive start
    reveal(says_text); // P04
//@ at Scanner::scan_directive after call scan_directive_name#1
    let ghost vx_d = self.d();
    let ghost vx_a = old(self).p() + 1;
    proof {
        let q = self.p();
        assert(name@ == vx_d.subrange(vx_a, q)); // P04
        let t = seq![84u8, 65u8, 71u8];
        if name@ == t { assert(name@[0] == 84 && name@[1] == 65 && name@[2] == 71); }
        if tag_directive(vx_d, vx_a - 1) { assert(name@ =~= t); }
        assert([84u8, 65u8, 71u8]@ =~= seq![84u8, 65u8, 71u8]);
    }
//@ at Scanner::scan_directive before call skip_while_non_breakz#1
    let ghost vgskip_while_non_breakz1 = self.p();
//@ at Scanner::scan_directive after call skip_while_non_breakz#1
    proof { lemma_nobrk(self.d(), vgskip_while_non_breakz1, self.p()); }
//@ at Scanner::scan_directive_name before call fetch_while_is_alpha#1
    let ghost vgfetch_while_is_alpha1 = self.p();
//@ at Scanner::scan_directive_name after call fetch_while_is_alpha#1
    proof { lemma_nobrk(self.d(), vgfetch_while_is_alpha1, self.p()); lemma_alpha_end(self.d(), vgfetch_while_is_alpha1, self.p()); assert(string@ =~= self.d().subrange(vgfetch_while_is_alpha1, self.p())); } // P04
//@ at Scanner::scan_version_directive_value before call skip_while_blank#1
    let ghost vgskip_while_blank1 = self.p();
//@ at Scanner::scan_version_directive_value after call skip_while_blank#1
    proof { lemma_nobrk(self.d(), vgskip_while_blank1, self.p()); }
//@ at Scanner::scan_tag_directive_value before call skip_while_blank#1
    let ghost vgskip_while_blank1 = self.p();
//@ at Scanner::scan_tag_directive_value after call skip_while_blank#1
    proof { lemma_nobrk(self.d(), vgskip_while_blank1, self.p()); lemma_blank_end(self.d(), vgskip_while_blank1, self.p()); }
//@ at Scanner::scan_tag_directive_value before call skip_while_blank#2
    let ghost vgskip_while_blank2 = self.p();
//@ at Scanner::scan_tag_directive_value after call skip_while_blank#2
    proof { lemma_nobrk(self.d(), vgskip_while_blank2, self.p()); lemma_blank_end(self.d(), vgskip_while_blank2, self.p()); }
//@ at Scanner::scan_tag_handle before call fetch_while_is_alpha#1
    let ghost vgfetch_while_is_alpha1 = self.p();
//@ at Scanner::scan_tag_handle after call fetch_while_is_alpha#1
    proof {
        lemma_nobrk(self.d(), vgfetch_while_is_alpha1, self.p());
        lemma_alpha_end(self.d(), vgfetch_while_is_alpha1, self.p()); // P04
        let a = old(self).p();
        assert(string@ =~= self.d().subrange(a, self.p())); // P04
        assert(self.peek(0) == 0x21 ==> self.d().subrange(a, self.p() + 1) =~= self.d().subrange(a, self.p()).push(0x21u8)); // P04
    }
//@ at Scanner::scan_block_scalar_content_line before call push_non_breakz_chr#1
    let ghost vgpush_non_breakz_chr1 = self.p();
//@ at Scanner::scan_block_scalar_content_line after call push_non_breakz_chr#1
    proof { lemma_nobrk(self.d(), vgpush_non_breakz_chr1, self.p());
        assert(self.d().subrange(old(self).p(), self.p()) =~= self.d().subrange(old(self).p(), vgpush_non_breakz_chr1) + self.d().subrange(vgpush_non_breakz_chr1, self.p())); } // P14
//@ at Scanner::scan_block_scalar_content_line loop 1 start
    proof { let p = old(self).p(); let q = self.p(); let d = self.d();
        assert(d.subrange(p, q + 1) =~= d.subrange(p, q).push(d[q])); // P14
        assert(old(string)@ + d.subrange(p, q).push(d[q]) =~= (old(string)@ + d.subrange(p, q)).push(d[q])); } // P14
//@ at Scanner::scan_block_scalar_content_line loop 1 before
    proof { assert(old(string)@ + self.d().subrange(self.p(), self.p()) =~= old(string)@); } // P14
//@ at Scanner::scan_block_scalar_content_line end
    proof { lemma_line_end(self.d(), old(self).p(), self.p(), false); // P14
        assert(string@ =~= old(string)@ + self.d().subrange(old(self).p(), self.p())); } // P14
//@ at Scanner::scan_uri_escapes loop 1 start
    proof {
        assert(forall|x: u32| x < 16 ==> #[trigger] (x << 4) == x * 16) by (bit_vector);
        assert(forall|x: u32| x <= 0x7fff ==> #[trigger] (x << 6) == x * 64) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0x3F) == x % 64) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0x1F) == x % 32) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0x0F) == x % 16) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0x07) == x % 8) by (bit_vector);
        assert(forall|x: u32| x < 256 ==> (#[trigger] (x & 0x80) == 0 <==> x < 0x80)) by (bit_vector);
        assert(forall|x: u32| x < 256 ==> (#[trigger] (x & 0xE0) == 0xC0 <==> 0xC0 <= x < 0xE0)) by (bit_vector);
        assert(forall|x: u32| x < 256 ==> (#[trigger] (x & 0xF0) == 0xE0 <==> 0xE0 <= x < 0xF0)) by (bit_vector);
        assert(forall|x: u32| x < 256 ==> (#[trigger] (x & 0xF8) == 0xF0 <==> 0xF0 <= x < 0xF8)) by (bit_vector);
        assert(forall|x: u32| x < 256 ==> (#[trigger] (x & 0xc0) == 0x80 <==> 0x80 <= x < 0xC0)) by (bit_vector);
        if length > 0 { lemma_pcts(self.d(), old(self).p(), length - width + 1, length as int); } // P09
        else { let w = utf8_width(pct_byte(self.d(), self.p())); if w > 0 { lemma_pcts(self.d(), self.p(), 1, w); } } // P09
    }
//@ rewrite Scanner::roll_one_col_indent
is_some_and(|x| x.needs_block_end)
=>
is_some_and(|x: &Indent| /*@ -> (r: bool) ensures r == x.needs_block_end @*/ { x.needs_block_end })
//@ rewrite Scanner::save_simple_key
is_some_and(|x| x.needs_block_end)
=>
is_some_and(|x: &Indent| /*@ -> (r: bool) ensures r == x.needs_block_end @*/ { x.needs_block_end })
//@ fattr Scanner::fetch_value verifier::rlimit(60)
//@ fattr Scanner::fetch_value verifier::spinoff_prover
//@ at Scanner::resolve_flow_scalar_escape_sequence loop 1 start
    proof {
        assert(forall|x: u32| x < 0x1000_0000 ==> #[trigger] (x << 4) == x * 16) by (bit_vector);
        assert(vx_i0 <= 7 ==> p16(vx_i0 as int) * 16 == p16(vx_i0 + 1)); // P09
        lemma_hexval(self.d(), self.p(), vx_i0 as int); // P09
        lemma_hexes(self.d(), self.p(), vx_i0 + 1, code_length as int); // P09
    }
//@ at Scanner::resolve_flow_scalar_escape_sequence before call skip_n_non_blank#2
    proof {
        assert(sp_hex(self.peek(code_length - 1)));
        assert forall|i: int| self.p() <= i < self.p() + code_length implies !sp_break(#[trigger] self.d()[i]) by { assert(sp_hex(self.peek(i - self.p()))); }
    }
//@ raw
pub open spec fn tt_plain(t: TokenType) -> bool { !(t is StreamStart) && !(t is StreamEnd) }
pub open spec fn vx_chomp(c: ChompIndicator) -> int { match c { ChompIndicator::Strip => -1, ChompIndicator::Clip => 0, ChompIndicator::Keep => 1 } }
//@ fattr Scanner::scan_block_scalar verifier::spinoff_prover
//@ fattr Scanner::scan_block_scalar verifier::rlimit(500)
//@ at Scanner::scan_flow_scalar start
    reveal(says_text); // P09 P13
//@ at Scanner::scan_anchor start
    reveal(says_text); // P03
//@ at Scanner::scan_tag start
    reveal(says_text); // P04 P09
//@ at Scanner::scan_plain_scalar start
    reveal(says_text); // P13
