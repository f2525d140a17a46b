#!/usr/bin/env python3
"""Writes overlay/40_views.vx: item views (C09) and the high level traits."""
import os
o=[]
w=o.append
SAME="old(self).same(final(self))"
# ---- arrays and sequences
def rep_next(key, arr, item):
    w(f"""%fn {key}::next
%spec
    ensures
        {"old(self).same(final(self))," if arr=="" else "final(self).bytes == old(self).bytes, old(self).values.same(&final(self).values),"}
        old(self){arr}.remaining == 0 ==> res is None && *final(self) == *old(self),
        old(self){arr}.remaining > 0 ==> {{
            &&& final(self){arr}.remaining == old(self){arr}.remaining - 1
            &&& match crate::spec::parse(old(self){arr}.types, old(self){arr}.type_id, false, old(self){arr}.item_bytes@) {{
                Some((v, n)) => {{
                    &&& res matches Some(Ok(x)) && x{item}.holds(old(self){arr}.types, old(self){arr}.type_id, old(self){arr}.item_bytes@.take(n as int), v)
                    &&& final(self){arr}.item_bytes@ == old(self){arr}.item_bytes@.skip(n as int)
                    &&& old(self).adv(final(self))
                }},
                None => res matches Some(Err(_)),
            }}
        }},""")
    if arr=="":
        w("""%pre
    proof { crate::spec::lemma_own_bytes(self.types, self.type_id, false, self.item_bytes@); }""")
rep_next("visitor::types::array::<Array<R> as Iterator>","","")
rep_next("visitor::types::sequence::<Sequence<R> as Iterator>",".values",".item")
w("""%impl visitor::types::array::ArrayItem<R>
    /// this is the view of a value, with exactly its bytes
    pub open spec fn holds(&self, types: &$R, id: $R::TypeId, b: Seq<u8>, v: crate::spec::Val<$R::TypeId>) -> bool {
        self.bytes@ == b && self.type_id == id && self.types == types && crate::spec::parse(types, id, false, b) == Some((v, b.len()))
    }""")
# ---- composites and tuples
for ty,item,idf in (("composite::<Composite<R>","CompositeField","field"),("tuple::<Tuple<R>","TupleField","type_id")):
    w(f"""%fn visitor::types::{ty} as Iterator>::next
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).same(final(self)),
        old(self).next_field_idx == old(self).fields@.len() ==> res is None && *final(self) == *old(self),
        old(self).next_field_idx < old(self).fields@.len() ==> match crate::spec::parse(old(self).types, old(self).fields@[old(self).next_field_idx as int].id, old(self).is_compact, old(self).item_bytes@) {{
            Some((v, n)) => {{
                &&& res matches Some(Ok(x)) && x.holds(old(self).types, old(self).fields@[old(self).next_field_idx as int], old(self).is_compact, old(self).item_bytes@.take(n as int), v)
                &&& final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).next_field_idx == old(self).next_field_idx + 1
                &&& old(self).adv(final(self))
            }},
            None => (res matches Some(Err(_))) && final(self).next_field_idx == old(self).fields@.len() && final(self).item_bytes == old(self).item_bytes,
        }},
%pre
    proof {{ assert(self.fields.len() == self.fields@.len()); if self.next_field_idx < self.fields@.len() {{ crate::spec::lemma_own_bytes(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@); }} }}""")
    eq="self.field == f" if idf=="field" else "self.type_id == f.id"
    m=ty.split("::")[0]
    w(f"""%impl visitor::types::{m}::{item}<R>
    /// this is the view of a field's value, with exactly its bytes
    pub open spec fn holds(&self, types: &$R, f: scale_type_resolver::Field<'resolver, $R::TypeId>, compact: bool, b: Seq<u8>, v: crate::spec::Val<$R::TypeId>) -> bool {{
        self.bytes@ == b && {eq} && self.types == types && self.is_compact == compact && crate::spec::parse(types, f.id, compact, b) == Some((v, b.len()))
    }}""")
DEC="""%params visitor
%spec
    ensures exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(visitor, self{a}.types, self{a}.{id}, {c}, self{a}.bytes@, b1, res),"""
AS="""%spec
    ensures match crate::spec::parse(self{a}.types, self{a}.{id}, {c}, self{a}.bytes@) {{
        Some((v, _)) => T::tsem(v, res),
        None => res is Err,
    }}"""
for m,item,a,id,c in (("array","ArrayItem","","type_id","false"),("sequence","SequenceItem",".item","type_id","false"),
                      ("composite","CompositeField","","field.id","self.is_compact"),("tuple","TupleField","","type_id","self.is_compact")):
    k=f"visitor::types::{m}::{item}<R>"
    w(f"%fn {k}::bytes\n%spec\n    ensures res@ == self{a}.bytes@")
    w(f"%fn {k}::type_id\n%spec\n    ensures *res == self{a}.{id}")
    w(f"%fn {k}::decode_with_visitor\n"+DEC.format(a=a,id=id,c=c))
    w(f"%fn {k}::decode_as_type\n"+AS.format(a=a,id=id,c=c))
    if m!="tuple": w(f"%fn visitor::types::{m}::<{item}<R> as Clone>::clone\n%spec\n    ensures res == *self")
    if m in("composite","tuple"):
        w(f"%fn {k}::is_compact\n%spec\n    ensures res == self.is_compact")
w("%fn visitor::types::composite::CompositeField<R>::name\n%spec\n    ensures res == self.field.name")

# ---- lib.rs
w("""%trait IntoVisitor
    /// what decoding a value into this type gives
    spec fn tsem(v: crate::spec::Val<VxR::TypeId>, r: Result<Self, Error>) -> bool;
%fn IntoVisitor::into_visitor
%spec
    ensures
        res.lawful(),
        forall|v: crate::spec::Val<VxR::TypeId>, r: Result<Self, Error>| #[trigger] res.sem(v, r) ==> Self::tsem(v, r),
%fn DecodeAsType::decode_as_type
%params input type_id types
%spec
    ensures match crate::spec::parse(types, type_id, false, (*old(input))@) {
        Some((v, n)) => Self::tsem(v, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }
%fn DecodeAsType::decode_as_type_maybe_compact
%params input type_id types is_compact
%spec
    ensures match crate::spec::parse(types, type_id, is_compact, (*old(input))@) {
        Some((v, n)) => Self::tsem(v, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }
%trait DecodeAsFields
    /// what decoding these fields gives
    spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<VxR::TypeId>>, r: Result<Self, Error>) -> bool;
%fn DecodeAsFields::decode_as_fields
%params input fields types
%spec
    ensures match crate::spec::parse_fields(types, crate::xcr::gfields(old(fields).seq()), false, (*old(input))@) {
        Some((vs, n)) => Self::fsem(crate::spec::names(crate::xcr::gfields(old(fields).seq())), vs, res) && (res is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
        None => res is Err,
    }""")
open(os.path.join(os.path.dirname(__file__),"..","overlay","40_views.vx"),"w").write("\n".join(o)+"\n")
