%fn visitor::types::array::<Array<R> as Iterator>::next
%spec
    ensures
        old(self).same(final(self)),
        old(self).remaining == 0 ==> res is None && *final(self) == *old(self),
        old(self).remaining > 0 ==> {
            &&& final(self).remaining == old(self).remaining - 1
            &&& match crate::spec::parse(old(self).types, old(self).type_id, false, old(self).item_bytes@) {
                Some((v, n)) => {
                    &&& res matches Some(Ok(x)) && x.holds(old(self).types, old(self).type_id, old(self).item_bytes@.take(n as int), v)
                    &&& final(self).item_bytes@ == old(self).item_bytes@.skip(n as int)
                    &&& old(self).adv(final(self))
                },
                None => res matches Some(Err(_)),
            }
        },
%pre
    proof { crate::spec::lemma_own_bytes(self.types, self.type_id, false, self.item_bytes@); }
%fn visitor::types::sequence::<Sequence<R> as Iterator>::next
%spec
    ensures
        final(self).bytes == old(self).bytes, old(self).values.same(&final(self).values),
        old(self).values.remaining == 0 ==> res is None && *final(self) == *old(self),
        old(self).values.remaining > 0 ==> {
            &&& final(self).values.remaining == old(self).values.remaining - 1
            &&& match crate::spec::parse(old(self).values.types, old(self).values.type_id, false, old(self).values.item_bytes@) {
                Some((v, n)) => {
                    &&& res matches Some(Ok(x)) && x.item.holds(old(self).values.types, old(self).values.type_id, old(self).values.item_bytes@.take(n as int), v)
                    &&& final(self).values.item_bytes@ == old(self).values.item_bytes@.skip(n as int)
                    &&& old(self).adv(final(self))
                },
                None => res matches Some(Err(_)),
            }
        },
%impl visitor::types::array::ArrayItem<R>
    /// this is the view of a value, with exactly its bytes
    pub open spec fn holds(&self, types: &$R, id: $R::TypeId, b: Seq<u8>, v: crate::spec::Val<$R::TypeId>) -> bool {
        self.bytes@ == b && self.type_id == id && self.types == types && crate::spec::parse(types, id, false, b) == Some((v, b.len()))
    }
%fn visitor::types::composite::<Composite<R> as Iterator>::next
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).same(final(self)),
        old(self).next_field_idx == old(self).fields@.len() ==> res is None && *final(self) == *old(self),
        old(self).next_field_idx < old(self).fields@.len() ==> match crate::spec::parse(old(self).types, old(self).fields@[old(self).next_field_idx as int].id, old(self).is_compact, old(self).item_bytes@) {
            Some((v, n)) => {
                &&& res matches Some(Ok(x)) && x.holds(old(self).types, old(self).fields@[old(self).next_field_idx as int], old(self).is_compact, old(self).item_bytes@.take(n as int), v)
                &&& final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).next_field_idx == old(self).next_field_idx + 1
                &&& old(self).adv(final(self))
            },
            None => (res matches Some(Err(_))) && final(self).next_field_idx == old(self).fields@.len() && final(self).item_bytes == old(self).item_bytes,
        },
%pre
    proof { assert(self.fields.len() == self.fields@.len()); if self.next_field_idx < self.fields@.len() { crate::spec::lemma_own_bytes(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@); } }
%impl visitor::types::composite::CompositeField<R>
    /// this is the view of a field's value, with exactly its bytes
    pub open spec fn holds(&self, types: &$R, f: scale_type_resolver::Field<'resolver, $R::TypeId>, compact: bool, b: Seq<u8>, v: crate::spec::Val<$R::TypeId>) -> bool {
        self.bytes@ == b && self.field == f && self.types == types && self.is_compact == compact && crate::spec::parse(types, f.id, compact, b) == Some((v, b.len()))
    }
%fn visitor::types::tuple::<Tuple<R> as Iterator>::next
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).same(final(self)),
        old(self).next_field_idx == old(self).fields@.len() ==> res is None && *final(self) == *old(self),
        old(self).next_field_idx < old(self).fields@.len() ==> match crate::spec::parse(old(self).types, old(self).fields@[old(self).next_field_idx as int].id, old(self).is_compact, old(self).item_bytes@) {
            Some((v, n)) => {
                &&& res matches Some(Ok(x)) && x.holds(old(self).types, old(self).fields@[old(self).next_field_idx as int], old(self).is_compact, old(self).item_bytes@.take(n as int), v)
                &&& final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).next_field_idx == old(self).next_field_idx + 1
                &&& old(self).adv(final(self))
            },
            None => (res matches Some(Err(_))) && final(self).next_field_idx == old(self).fields@.len() && final(self).item_bytes == old(self).item_bytes,
        },
%pre
    proof { assert(self.fields.len() == self.fields@.len()); if self.next_field_idx < self.fields@.len() { crate::spec::lemma_own_bytes(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@); } }
%impl visitor::types::tuple::TupleField<R>
    /// this is the view of a field's value, with exactly its bytes
    pub open spec fn holds(&self, types: &$R, f: scale_type_resolver::Field<'resolver, $R::TypeId>, compact: bool, b: Seq<u8>, v: crate::spec::Val<$R::TypeId>) -> bool {
        self.bytes@ == b && self.type_id == f.id && self.types == types && self.is_compact == compact && crate::spec::parse(types, f.id, compact, b) == Some((v, b.len()))
    }
%fn visitor::types::array::ArrayItem<R>::bytes
%spec
    ensures res@ == self.bytes@
%fn visitor::types::array::ArrayItem<R>::type_id
%spec
    ensures *res == self.type_id
%fn visitor::types::array::ArrayItem<R>::decode_with_visitor
%params visitor
%spec
    ensures exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(visitor, self.types, self.type_id, false, self.bytes@, b1, res),
%fn visitor::types::array::ArrayItem<R>::decode_as_type
%spec
    ensures match crate::spec::parse(self.types, self.type_id, false, self.bytes@) {
        Some((v, _)) => T::tsem(v, res),
        None => res is Err,
    }
%fn visitor::types::array::<ArrayItem<R> as Clone>::clone
%spec
    ensures res == *self
%fn visitor::types::sequence::SequenceItem<R>::bytes
%spec
    ensures res@ == self.item.bytes@
%fn visitor::types::sequence::SequenceItem<R>::type_id
%spec
    ensures *res == self.item.type_id
%fn visitor::types::sequence::SequenceItem<R>::decode_with_visitor
%params visitor
%spec
    ensures exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(visitor, self.item.types, self.item.type_id, false, self.item.bytes@, b1, res),
%fn visitor::types::sequence::SequenceItem<R>::decode_as_type
%spec
    ensures match crate::spec::parse(self.item.types, self.item.type_id, false, self.item.bytes@) {
        Some((v, _)) => T::tsem(v, res),
        None => res is Err,
    }
%fn visitor::types::sequence::<SequenceItem<R> as Clone>::clone
%spec
    ensures res == *self
%fn visitor::types::composite::CompositeField<R>::bytes
%spec
    ensures res@ == self.bytes@
%fn visitor::types::composite::CompositeField<R>::type_id
%spec
    ensures *res == self.field.id
%fn visitor::types::composite::CompositeField<R>::decode_with_visitor
%params visitor
%spec
    ensures exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(visitor, self.types, self.field.id, self.is_compact, self.bytes@, b1, res),
%fn visitor::types::composite::CompositeField<R>::decode_as_type
%spec
    ensures match crate::spec::parse(self.types, self.field.id, self.is_compact, self.bytes@) {
        Some((v, _)) => T::tsem(v, res),
        None => res is Err,
    }
%fn visitor::types::composite::<CompositeField<R> as Clone>::clone
%spec
    ensures res == *self
%fn visitor::types::composite::CompositeField<R>::is_compact
%spec
    ensures res == self.is_compact
%fn visitor::types::tuple::TupleField<R>::bytes
%spec
    ensures res@ == self.bytes@
%fn visitor::types::tuple::TupleField<R>::type_id
%spec
    ensures *res == self.type_id
%fn visitor::types::tuple::TupleField<R>::decode_with_visitor
%params visitor
%spec
    ensures exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(visitor, self.types, self.type_id, self.is_compact, self.bytes@, b1, res),
%fn visitor::types::tuple::TupleField<R>::decode_as_type
%spec
    ensures match crate::spec::parse(self.types, self.type_id, self.is_compact, self.bytes@) {
        Some((v, _)) => T::tsem(v, res),
        None => res is Err,
    }
%fn visitor::types::tuple::TupleField<R>::is_compact
%spec
    ensures res == self.is_compact
%fn visitor::types::composite::CompositeField<R>::name
%spec
    ensures res == self.field.name
%trait IntoVisitor
    /// what decoding a value into this type gives
    spec fn tsem(v: crate::spec::Val<VxR::TypeId>, r: Result<Self, Error>) -> bool;
%fn IntoVisitor::into_visitor
%spec
    ensures
        res.lawful(),
        forall|v: crate::spec::Val<VxR::TypeId>, r: Result<Self, Error>| #[trigger] res.sem(v, r) ==> Self::tsem(v, r),
%fn DecodeAsType::decode_as_type
%params input type_id types
%spec
    ensures match crate::spec::parse(types, type_id, false, (*old(input))@) {
        Some((v, n)) => Self::tsem(v, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }
%fn DecodeAsType::decode_as_type_maybe_compact
%params input type_id types is_compact
%spec
    ensures match crate::spec::parse(types, type_id, is_compact, (*old(input))@) {
        Some((v, n)) => Self::tsem(v, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }
%trait DecodeAsFields
    /// what decoding these fields gives
    spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<VxR::TypeId>>, r: Result<Self, Error>) -> bool;
%fn DecodeAsFields::decode_as_fields
%params input fields types
%spec
    ensures match crate::spec::parse_fields(types, crate::xcr::gfields(old(fields).seq()), false, (*old(input))@) {
        Some((vs, n)) => Self::fsem(crate::spec::names(crate::xcr::gfields(old(fields).seq())), vs, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }
