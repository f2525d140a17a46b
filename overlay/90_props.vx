%% Which properties the obligations of a function belong to: every pattern that matches counts.
%% C03 (no panic) takes, of every function, the obligations that are preconditions of callees, index
%% bounds and machine arithmetic.
%props error::* C21
%props visitor::decode::decode_with_visitor* C01 C02 C04 C05 C10 C12 C24
%props visitor::decode::Decoder* C01 C02 C04 C12
%props visitor::decode::decode_32_bytes C01 C02 C04
%props visitor::decode::*::visit_unhandled C24
%props visitor::decode::*::visit_not_found C24
%props visitor::decode::*::visit_composite C01 C02 C05 C07 C10
%props visitor::decode::*::visit_variant C01 C02 C05 C08 C10
%props visitor::decode::*::visit_sequence C01 C02 C05 C06 C10
%props visitor::decode::*::visit_array C01 C02 C05 C06 C10
%props visitor::decode::*::visit_tuple C01 C02 C05 C07 C10
%props visitor::decode::*::visit_primitive C01 C02 C04 C05 C10
%props visitor::decode::*::visit_compact C01 C02 C05 C10
%props visitor::decode::*::visit_bit_sequence C01 C02 C04 C05 C10 C11
%props visitor::types::array::*::skip_decoding C01 C02 C06
%props visitor::types::array::*::decode_item C01 C06 C24
%props visitor::types::array::Array* C06
%props visitor::types::array::<Array* C06
%props visitor::types::array::*::next C01 C06 C09
%props visitor::types::array::*ArrayItem* C09
%props visitor::types::sequence::*::skip_decoding C01 C02 C06
%props visitor::types::sequence::*::decode_item C01 C06 C24
%props visitor::types::sequence::Sequence<* C06
%props visitor::types::sequence::Sequence<*::new C02 C06
%props visitor::types::sequence::<Sequence<* C06
%props visitor::types::sequence::*::next C01 C06 C09
%props visitor::types::sequence::*SequenceItem* C09
%props visitor::types::composite::*::skip_decoding C01 C02 C07
%props visitor::types::composite::*::decode_item C01 C05 C07 C24
%props visitor::types::composite::Composite<* C07
%props visitor::types::composite::<Composite<* C07
%props visitor::types::composite::*::next C01 C07 C09
%props visitor::types::composite::*CompositeField* C09
%props visitor::types::tuple::*::skip_decoding C01 C02 C07
%props visitor::types::tuple::*::decode_item C01 C05 C07 C24
%props visitor::types::tuple::Tuple<* C07
%props visitor::types::tuple::<Tuple<* C07
%props visitor::types::tuple::*::next C01 C07 C09
%props visitor::types::tuple::*TupleField* C09
%props visitor::types::variant::* C08
%props visitor::types::variant::*::skip_decoding C01 C02 C08
%props visitor::types::variant::*::new C02 C08
%props visitor::types::str::* C04 C11
%props visitor::types::str::*::new C02 C04 C11
%props visitor::types::str::*::bytes_after C01 C02 C04 C11
%props visitor::types::bit_sequence::* C04 C11
%props visitor::types::bit_sequence::*::bytes_after C01 C02 C04 C11
%props visitor::<DecodeError* C24
%props visitor::DecodeAsTypeResult* C12
%props visitor::*IgnoreVisitor* C02
%props visitor::*VisitorWithCrateError* C12
%props *DecodeAsType>::* C01 C02 C09 C12
%props DecodeAsType::* C01 C02 C09 C12
%props IntoVisitor* C12
%props DecodeAsFields* C01 C10
%% Must fail in every run: shows that the axioms and broadcast lemmas do not prove everything.
%mod crate
pub mod canary {
use vstd::prelude::*;
proof fn canary() {
    broadcast use crate::rules::all;
    assert(false);
}
}
