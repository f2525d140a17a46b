%root
// GENERATED on every run by /verif/vx from the expanded source of /repo and the overlays in /verif/overlay.
#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unreachable_patterns)]
extern crate alloc;
use vstd::prelude::*;
use vstd::slice::*;
verus! {
global size_of usize == 8;

/// External code: everything in here is an assumption about a dependency or the standard library
/// (`external_body`, axioms) or a plain definition.
pub mod xcr {
use vstd::prelude::*;
pub use crate::xcr::iter::*;
pub use crate::xcr::text::*;
pub use crate::xcr::stdx::*;
pub use core::clone::Clone as _;

// ------------------------------------------------------------------------------------------------
// Numbers in SCALE
// ------------------------------------------------------------------------------------------------
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
/// n bytes, little endian
pub open spec fn le(b: Seq<u8>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { le(b, (n - 1) as nat) + b[n - 1] as nat * pow256((n - 1) as nat) }
}
/// two's complement of an n byte number
pub open spec fn twos(v: nat, n: nat) -> int { if 2 * v >= pow256(n) { v - pow256(n) } else { v as int } }
/// A compact encoded number of at most `w` bytes: the number and the size of its encoding; canonical encodings only.
pub open spec fn cdec(b: Seq<u8>, w: nat) -> Option<(nat, nat)> {
    if b.len() < 1 { None } else {
        let p = b[0];
        if p % 4 == 0 { Some(((p / 4) as nat, 1)) }
        else if p % 4 == 1 {
            if b.len() < 2 { None } else { let v = le(b, 2) / 4; if v > 63 && v < pow256(w) { Some((v, 2)) } else { None } }
        } else if p % 4 == 2 {
            if w < 2 || b.len() < 4 { None } else { let v = le(b, 4) / 4; if v > 16383 && v < pow256(w) { Some((v, 4)) } else { None } }
        } else {
            let k = (p / 4) as nat + 4;
            if w < 4 || k > w || b.len() < k + 1 { None } else {
                let v = le(b.skip(1), k);
                if (k == 4 && v > 1073741823) || (k > 4 && v >= pow256((k - 1) as nat)) { Some((v, (k + 1) as nat)) } else { None }
            }
        }
    }
}
/// The size of the (canonical) compact encoding of a number of at most 4 bytes.
pub open spec fn clen(v: nat) -> nat { if v < 64 { 1 } else if v < 16384 { 2 } else if v < 1073741824 { 4 } else { 5 } }

pub proof fn lemma_le_ext(b: Seq<u8>, c: Seq<u8>, n: nat)
    requires n <= b.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> b[i] == c[i],
    ensures le(b, n) == le(c, n),
    decreases n
{ if n > 0 { lemma_le_ext(b, c, (n - 1) as nat); } }
pub proof fn lemma_pow256()
    ensures pow256(0) == 1, pow256(1) == 256, pow256(2) == 65536, pow256(3) == 16777216, pow256(4) == 4294967296,
        pow256(8) == 18446744073709551616, pow256(16) == 340282366920938463463374607431768211456,
{ reveal_with_fuel(pow256, 20); }
pub proof fn lemma_le_bound(b: Seq<u8>, n: nat)
    requires n <= b.len(),
    ensures le(b, n) < pow256(n),
    decreases n
{
    if n > 0 {
        lemma_le_bound(b, (n - 1) as nat);
        let p = pow256((n - 1) as nat);
        assert(b[n - 1] as nat * p <= 255 * p) by (nonlinear_arith) requires b[n - 1] <= 255, p >= 0;
    }
}
pub proof fn lemma_cdec(b: Seq<u8>, w: nat)
    ensures cdec(b, w) matches Some((v, n)) ==> 0 < n <= b.len() && (w == 4 ==> n == clen(v) && v <= u32::MAX) && (w == 8 ==> v <= u64::MAX),
{
    lemma_pow256();
    reveal_with_fuel(le, 6);
    if b.len() >= 1 && b[0] % 4 == 3 {
        let k = (b[0] / 4) as nat + 4;
        if k + 1 <= b.len() { lemma_le_bound(b.skip(1), k); }
        if w == 8 && k <= 8 { lemma_pow_le(k, 8); }
    } else {
        if b.len() >= 2 { lemma_le_bound(b, 2); }
        if b.len() >= 4 { lemma_le_bound(b, 4); }
    }
}
pub proof fn lemma_pow_le(a: nat, b: nat) requires a <= b ensures pow256(a) <= pow256(b) decreases b
{ if a < b { lemma_pow_le(a, (b - 1) as nat); } }
pub proof fn lemma_cdec_prefix(b: Seq<u8>, c: Seq<u8>, w: nat)
    requires cdec(b, w) matches Some((_, n)) && n <= c.len() && forall|i: int| 0 <= i < n ==> b[i] == c[i],
    ensures cdec(c, w) == cdec(b, w),
{
    lemma_cdec(b, w);
    let n = cdec(b, w).unwrap().1;
    assert(b[0] == c[0]);
    if b[0] % 4 == 1 { lemma_le_ext(b, c, 2); }
    else if b[0] % 4 == 2 { lemma_le_ext(b, c, 4); }
    else if b[0] % 4 == 3 {
        assert forall|i: int| 0 <= i < n - 1 implies b.skip(1)[i] == c.skip(1)[i] by { assert(b[i + 1] == c[i + 1]); }
        lemma_le_ext(b.skip(1), c.skip(1), (n - 1) as nat);
    }
}

// ------------------------------------------------------------------------------------------------
// parity-scale-codec
// ------------------------------------------------------------------------------------------------
pub mod codec {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] pub struct Error { _p: () }
pub struct Compact<T>(pub T);
pub trait Decode: Sized {
    /// the value the bytes start with, and how many bytes it takes
    spec fn dec(b: Seq<u8>) -> Option<(Self, nat)>;
    fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> (r: Result<Self, Error>)
        ensures
            match Self::dec((*old(input))@) {
                Some((v, n)) => r == Ok::<Self, Error>(v) && (*final(input))@ == (*old(input))@.skip(n as int),
                None => r is Err,
            };
    proof fn lemma_dec(b: Seq<u8>)
        ensures Self::dec(b) matches Some((_, n)) ==> 0 < n <= b.len();
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>)
        requires Self::dec(b) matches Some((_, n)) && n <= c.len() && forall|i: int| 0 <= i < n ==> b[i] == c[i],
        ensures Self::dec(c) == Self::dec(b);
}

impl Decode for bool {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 1 || b[0] > 1 { None } else { Some((b[0] == 1, 1)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) {  }
}

impl Decode for u8 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 1 { None } else { Some((le(b, 1) as u8, 1)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 1); }
}

impl Decode for i8 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 1 { None } else { Some((twos(le(b, 1), 1) as i8, 1)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 1); }
}

impl Decode for Compact<u8> {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { match cdec(b, 1) { Some((v, n)) => Some((Compact(v as u8), n)), None => None } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) { lemma_cdec(b, 1); }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_cdec_prefix(b, c, 1); }
}

impl Decode for u16 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 2 { None } else { Some((le(b, 2) as u16, 2)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 2); }
}

impl Decode for i16 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 2 { None } else { Some((twos(le(b, 2), 2) as i16, 2)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 2); }
}

impl Decode for Compact<u16> {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { match cdec(b, 2) { Some((v, n)) => Some((Compact(v as u16), n)), None => None } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) { lemma_cdec(b, 2); }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_cdec_prefix(b, c, 2); }
}

impl Decode for u32 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 4 { None } else { Some((le(b, 4) as u32, 4)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 4); }
}

impl Decode for i32 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 4 { None } else { Some((twos(le(b, 4), 4) as i32, 4)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 4); }
}

impl Decode for Compact<u32> {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { match cdec(b, 4) { Some((v, n)) => Some((Compact(v as u32), n)), None => None } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) { lemma_cdec(b, 4); }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_cdec_prefix(b, c, 4); }
}

impl Decode for u64 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 8 { None } else { Some((le(b, 8) as u64, 8)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 8); }
}

impl Decode for i64 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 8 { None } else { Some((twos(le(b, 8), 8) as i64, 8)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 8); }
}

impl Decode for Compact<u64> {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { match cdec(b, 8) { Some((v, n)) => Some((Compact(v as u64), n)), None => None } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) { lemma_cdec(b, 8); }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_cdec_prefix(b, c, 8); }
}

impl Decode for u128 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 16 { None } else { Some((le(b, 16) as u128, 16)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 16); }
}

impl Decode for i128 {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() < 16 { None } else { Some((twos(le(b, 16), 16) as i128, 16)) } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) {  }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_le_ext(b, c, 16); }
}

impl Decode for Compact<u128> {
    open spec fn dec(b: Seq<u8>) -> Option<(Self, nat)> { match cdec(b, 16) { Some((v, n)) => Some((Compact(v as u128), n)), None => None } }
    #[verifier::external_body] fn decode<'vx_s>(input: &mut &'vx_s [u8]) -> Result<Self, Error> { unimplemented!() }
    proof fn lemma_dec(b: Seq<u8>) { lemma_cdec(b, 16); }
    proof fn lemma_dec_prefix(b: Seq<u8>, c: Seq<u8>) { lemma_cdec_prefix(b, c, 16); }
}

pub trait CompactLen<T> {
    spec fn clen_of(val: T) -> nat;
    fn compact_len(val: &T) -> (r: usize) ensures r == Self::clen_of(*val);
}
impl CompactLen<u32> for Compact<u32> {
    open spec fn clen_of(val: u32) -> nat { clen(val as nat) }
    #[verifier::external_body] fn compact_len(val: &u32) -> (r: usize) { unimplemented!() }
}
} // codec

// ------------------------------------------------------------------------------------------------
// scale-type-resolver
// ------------------------------------------------------------------------------------------------
/// What a resolver says about a type.
pub struct GField<Id> { pub name: Option<Seq<char>>, pub id: Id }
pub struct GVariant<Id> { pub name: Seq<char>, pub index: u8, pub fields: Seq<GField<Id>> }
pub enum Desc<Id> {
    NotFound,
    Unhandled(scale_type_resolver::UnhandledKind),
    Composite(Seq<Seq<char>>, Seq<GField<Id>>),
    Variant(Seq<GVariant<Id>>),
    Sequence(Id),
    Array(Id, usize),
    Tuple(Seq<Id>),
    Prim(scale_type_resolver::Primitive),
    Compact(Id),
    Bits(scale_type_resolver::BitsStoreFormat, scale_type_resolver::BitsOrderFormat),
}
pub open spec fn gname(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
pub open spec fn gfield<'r, Id>(f: scale_type_resolver::Field<'r, Id>) -> GField<Id> { GField { name: gname(f.name), id: f.id } }
pub open spec fn gfields<'r, Id>(fs: Seq<scale_type_resolver::Field<'r, Id>>) -> Seq<GField<Id>> { Seq::new(fs.len(), |i: int| gfield(fs[i])) }
pub open spec fn gpath<'r>(p: Seq<&'r str>) -> Seq<Seq<char>> { Seq::new(p.len(), |i: int| p[i]@) }
pub open spec fn gunnamed<Id>(ids: Seq<Id>) -> Seq<GField<Id>> { Seq::new(ids.len(), |i: int| GField { name: None, id: ids[i] }) }

pub mod scale_type_resolver {
use vstd::prelude::*;
use super::*;
pub trait TypeId: Clone + Default {}
pub broadcast axiom fn axiom_type_id_clone<T: TypeId>(a: T, b: T)
    requires #[trigger] call_ensures(T::clone, (&a,), b),
    ensures a == b;
pub trait TypeResolver: Sized {
    type TypeId: TypeId + 'static;
    type Error: ToString;
    /// what the type ID stands for; None: the resolver fails with `rerr`
    spec fn desc(&self, id: Self::TypeId) -> Option<Desc<Self::TypeId>>;
    spec fn rerr(&self, id: Self::TypeId) -> Self::Error;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Self::TypeId>>(
        &'this self,
        type_id: Self::TypeId,
        visitor: V,
    ) -> (r: Result<V::Value, Self::Error>)
        ensures
            match self.desc(type_id) {
                Some(d) => r matches Ok(v) && visitor.rpost(d, v),
                None => r == Err::<V::Value, Self::Error>(self.rerr(type_id)) && visitor.runused(),
            };
}
pub trait ResolvedTypeVisitor<'resolver>: Sized {
    type TypeId: TypeId + 'static;
    type Value;
    /// what is known after the visitor was called with this description
    #[verifier::prophetic]
    spec fn rpost(self, d: Desc<Self::TypeId>, v: Self::Value) -> bool;
    /// what is known when the visitor was dropped and not called
    #[verifier::prophetic]
    spec fn runused(self) -> bool;
    fn visit_unhandled(self, kind: UnhandledKind) -> (v: Self::Value)
        ensures self.rpost(Desc::Unhandled(kind), v);
    fn visit_not_found(self) -> (v: Self::Value)
        ensures self.rpost(Desc::NotFound, v);
    fn visit_composite<Path, Fields>(self, path: Path, fields: Fields) -> (v: Self::Value)
    where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, Self::TypeId>
        ensures self.rpost(Desc::Composite(gpath(path.seq()), gfields(fields.seq())), v);
    fn visit_variant<Path, Fields, Var>(self, path: Path, variants: Var) -> (v: Self::Value)
    where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, Self::TypeId>, Var: VariantIter<'resolver, Fields>
        ensures self.rpost(Desc::Variant(gvariants::<Fields, Self::TypeId>(variants.seq())), v);
    fn visit_sequence<Path>(self, path: Path, type_id: Self::TypeId) -> (v: Self::Value)
    where Path: PathIter<'resolver>
        ensures self.rpost(Desc::Sequence(type_id), v);
    fn visit_array(self, type_id: Self::TypeId, len: usize) -> (v: Self::Value)
        ensures self.rpost(Desc::Array(type_id, len), v);
    fn visit_tuple<TypeIds>(self, type_ids: TypeIds) -> (v: Self::Value)
    where TypeIds: ExactSizeIterator<Item = Self::TypeId>
        ensures self.rpost(Desc::Tuple(type_ids.seq()), v);
    fn visit_primitive(self, primitive: Primitive) -> (v: Self::Value)
        ensures self.rpost(Desc::Prim(primitive), v);
    fn visit_compact(self, type_id: Self::TypeId) -> (v: Self::Value)
        ensures self.rpost(Desc::Compact(type_id), v);
    fn visit_bit_sequence(self, store_format: BitsStoreFormat, order_format: BitsOrderFormat) -> (v: Self::Value)
        ensures self.rpost(Desc::Bits(store_format, order_format), v);
}
pub open spec fn gvariants<'r, Fields: FieldIter<'r, Id>, Id>(vs: Seq<Variant<'r, Fields>>) -> Seq<GVariant<Id>> {
    Seq::new(vs.len(), |i: int| GVariant { name: vs[i].name@, index: vs[i].index, fields: gfields(vs[i].fields.seq()) })
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum UnhandledKind { NotFound, Composite, Variant, Sequence, Array, Tuple, Primitive, Compact, BitSequence }
pub struct Field<'resolver, TypeId> { pub name: Option<&'resolver str>, pub id: TypeId }
impl<'resolver, TypeId: Clone> Clone for Field<'resolver, TypeId> {
    fn clone(&self) -> (r: Self)
        ensures r.name == self.name, call_ensures(TypeId::clone, (&self.id,), r.id),
    { Field { name: self.name, id: self.id.clone() } }
}
impl<'resolver, TypeId> Field<'resolver, TypeId> {
    pub fn new(id: TypeId, name: Option<&'resolver str>) -> (r: Self) ensures r == (Field { name, id }) { Field { id, name } }
    pub fn unnamed(id: TypeId) -> (r: Self) ensures r == (Field { name: None, id }) { Field { name: None, id } }
    pub fn named(id: TypeId, name: &'resolver str) -> (r: Self) ensures r == (Field { name: Some(name), id }) { Field { name: Some(name), id } }
}
pub struct Variant<'resolver, Fields> { pub index: u8, pub name: &'resolver str, pub fields: Fields }
pub trait PathIter<'resolver>: Iterator<Item = &'resolver str> {}
impl<'resolver, T> PathIter<'resolver> for T where T: Iterator<Item = &'resolver str> {}
pub trait FieldIter<'resolver, TypeId>: ExactSizeIterator<Item = Field<'resolver, TypeId>> {}
impl<'resolver, TypeId, T> FieldIter<'resolver, TypeId> for T where T: ExactSizeIterator<Item = Field<'resolver, TypeId>> {}
pub trait VariantIter<'resolver, Fields>: ExactSizeIterator<Item = Variant<'resolver, Fields>> {}
impl<'resolver, Fields, T> VariantIter<'resolver, Fields> for T where T: ExactSizeIterator<Item = Variant<'resolver, Fields>> {}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Primitive { Bool, Char, Str, U8, U16, U32, U64, U128, U256, I8, I16, I32, I64, I128, I256 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum BitsOrderFormat { Lsb0, Msb0 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum BitsStoreFormat { U8, U16, U32, U64 }
} // scale_type_resolver

// ------------------------------------------------------------------------------------------------
// scale-bits
// ------------------------------------------------------------------------------------------------
pub mod scale_bits {
use vstd::prelude::*;
use super::*;
pub use super::scale_type_resolver::{BitsOrderFormat, BitsStoreFormat};
#[derive(Clone, Copy)]
pub struct Format { pub store: BitsStoreFormat, pub order: BitsOrderFormat }
impl Format {
    pub fn new(store: BitsStoreFormat, order: BitsOrderFormat) -> (r: Self) ensures r == (Format { store, order }) { Format { store, order } }
}
pub open spec fn store_size(s: BitsStoreFormat) -> nat {
    match s { BitsStoreFormat::U8 => 1, BitsStoreFormat::U16 => 2, BitsStoreFormat::U32 => 4, BitsStoreFormat::U64 => 8 }
}
/// the size of the encoding of n bits
pub open spec fn bits_size(n: nat, f: Format) -> nat { clen(n) + (n + 8 * store_size(f.store) - 1) as nat / (8 * store_size(f.store)) * store_size(f.store) }
/// bit i of the store elements in b
pub open spec fn bit_at(b: Seq<u8>, f: Format, i: nat) -> bool {
    let w = store_size(f.store);
    let el = le(b.skip((i / (8 * w) * w) as int), w);
    let j = i % (8 * w);
    let sh = match f.order { BitsOrderFormat::Lsb0 => j, BitsOrderFormat::Msb0 => (8 * w - 1 - j) as nat };
    (el / vstd::arithmetic::power2::pow2(sh)) % 2 == 1
}
pub uninterp spec fn bits_view(b: Bits) -> Seq<bool>;
#[verifier::external_body] pub struct Bits { _p: () }
pub mod scale {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] pub struct Decoder<'a> { _p: &'a () }
pub uninterp spec fn dec_bytes<'a>(d: Decoder<'a>) -> Seq<u8>;
pub uninterp spec fn dec_format<'a>(d: Decoder<'a>) -> Format;
#[verifier::external_body]
pub fn decode_using_format_from<'a>(bytes: &'a [u8], format: Format) -> (r: Result<Decoder<'a>, super::super::codec::Error>)
    ensures
        match cdec(bytes@, 4) {
            Some(_) => r matches Ok(d) && dec_bytes(d) == bytes@ && dec_format(d) == format,
            None => r is Err,
        },
{ unimplemented!() }
impl<'a> Decoder<'a> {
    #[verifier::external_body]
    pub fn encoded_size(&self) -> (r: usize)
        ensures cdec(dec_bytes(*self), 4) matches Some((n, _)) ==> r == bits_size(n, dec_format(*self)),
    { unimplemented!() }
    /// `Iterator::collect`: the bits which are in the bytes
    #[verifier::external_body]
    pub fn collect<C: FromBits>(self) -> (r: C)
        ensures C::from_bits(dec_bytes(self), dec_format(self), r),
    { unimplemented!() }
}
pub trait FromBits: Sized { spec fn from_bits(b: Seq<u8>, f: Format, r: Self) -> bool; }
impl FromBits for Result<Bits, super::super::codec::Error> {
    open spec fn from_bits(b: Seq<u8>, f: Format, r: Self) -> bool {
        cdec(b, 4) matches Some((n, m)) ==> bits_size(n, f) <= b.len() ==> (r matches Ok(x) && bits_view(x) == Seq::new(n, |i: int| bit_at(b.skip(m as int), f, i as nat)))
    }
}
} // scale
} // scale_bits

// ------------------------------------------------------------------------------------------------
// Iterators: the standard ones cannot be given contracts for our own types, these stand in for them
// ------------------------------------------------------------------------------------------------
pub mod iter {
use vstd::prelude::*;
pub trait Iterator {
    type Item;
    /// what is still to come
    spec fn seq(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            match r {
                None => (*old(self)).seq().len() == 0 && (*final(self)).seq() == (*old(self)).seq(),
                Some(x) => (*old(self)).seq().len() > 0 && x == (*old(self)).seq()[0] && (*final(self)).seq() == (*old(self)).seq().skip(1),
            };
}
pub trait ExactSizeIterator: Iterator {
    fn len(&self) -> (r: usize) ensures r == self.seq().len();
}
pub open spec fn map_ok<A, B, F: FnMut(A) -> B>(s: Seq<A>, f: F, r: Seq<B>) -> bool {
    s.len() == r.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] r[i])
}
pub trait IterExt: Iterator + Sized {
    #[verifier::external_body]
    fn find<P: FnMut(&Self::Item) -> bool>(&mut self, p: P) -> (r: Option<Self::Item>)
        requires forall|x: &Self::Item| #[trigger] call_requires(p, (x,)),
        ensures
            match r {
                Some(x) => exists|i: int| 0 <= i < (*old(self)).seq().len() && x == #[trigger] (*old(self)).seq()[i] && call_ensures(p, (&x,), true)
                    && forall|j: int| 0 <= j < i ==> call_ensures(p, (&#[trigger] (*old(self)).seq()[j],), false),
                None => forall|j: int| 0 <= j < (*old(self)).seq().len() ==> call_ensures(p, (&#[trigger] (*old(self)).seq()[j],), false),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: Map<B>)
        requires forall|x: Self::Item| #[trigger] call_requires(f, (x,)),
        ensures map_ok(self.seq(), f, r.seq()),
    { unimplemented!() }
    #[verifier::external_body]
    fn any<P: FnMut(Self::Item) -> bool>(&mut self, p: P) -> (r: bool)
        requires forall|x: Self::Item| #[trigger] call_requires(p, (x,)),
        ensures
            r ==> exists|i: int| 0 <= i < (*old(self)).seq().len() && call_ensures(p, (#[trigger] (*old(self)).seq()[i],), true),
            !r ==> forall|i: int| 0 <= i < (*old(self)).seq().len() ==> call_ensures(p, (#[trigger] (*old(self)).seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    fn all<P: FnMut(Self::Item) -> bool>(&mut self, p: P) -> (r: bool)
        requires forall|x: Self::Item| #[trigger] call_requires(p, (x,)),
        ensures
            r ==> forall|i: int| 0 <= i < (*old(self)).seq().len() ==> call_ensures(p, (#[trigger] (*old(self)).seq()[i],), true),
            !r ==> exists|i: int| 0 <= i < (*old(self)).seq().len() && call_ensures(p, (#[trigger] (*old(self)).seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    fn enumerate(self) -> (r: Few<(usize, Self::Item)>)
        ensures r.seq() == Seq::new(self.seq().len(), |i: int| (i as usize, self.seq()[i])), self.seq().len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn last(self) -> (r: Option<Self::Item>)
        ensures r == (if self.seq().len() == 0 { None::<Self::Item> } else { Some(self.seq().last()) }),
    { unimplemented!() }
}
impl<I: Iterator> IterExt for I {}
/// (without the types of the iterator and the closure it was made of)
#[verifier::external_body] #[verifier::accept_recursive_types(B)]
pub struct Map<B> { b: core::marker::PhantomData<B> }
impl<B> Iterator for Map<B> {
    type Item = B;
    uninterp spec fn seq(&self) -> Seq<B>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<B>) { unimplemented!() }
}
impl<B> ExactSizeIterator for Map<B> {
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
impl<I: Iterator + ?Sized> Iterator for &mut I {
    type Item = I::Item;
    open spec fn seq(&self) -> Seq<I::Item> { (**self).seq() }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<I::Item>) { unimplemented!() }
}
impl<I: ExactSizeIterator + ?Sized> ExactSizeIterator for &mut I {
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
/// Iterator over a slice
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct SliceIter<'a, T> { s: &'a [T] }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    uninterp spec fn seq(&self) -> Seq<&'a T>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a T>) { unimplemented!() }
}
impl<'a, T> ExactSizeIterator for SliceIter<'a, T> {
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Cloned<'a, T> { s: &'a [T] }
impl<'a, T: Clone> Iterator for Cloned<'a, T> {
    type Item = T;
    uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
impl<'a, T: Clone> ExactSizeIterator for Cloned<'a, T> {
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Cloned<'a, T>) where T: Clone
        ensures r.seq().len() == self.seq().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> call_ensures(T::clone, (self.seq()[i],), r.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: Cloned<'a, T>) where T: Copy
        ensures r.seq().len() == self.seq().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> *self.seq()[i] == r.seq()[i],
    { unimplemented!() }
}
/// `IntoIterator`, of what a `for` goes over
pub trait VxIntoIter: Sized { type It; spec fn goes(self, it: Self::It) -> bool; fn vx_into_iter(self) -> (r: Self::It) ensures self.goes(r); }
impl<I: Iterator> VxIntoIter for I { type It = I; open spec fn goes(self, it: I) -> bool { it == self } fn vx_into_iter(self) -> (r: I) { self } }
impl<T> VxIntoIter for Vec<T> { type It = Few<T>; open spec fn goes(self, it: Few<T>) -> bool { it.seq() == self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: Few<T>) { unimplemented!() } }
impl VxIntoIter for core::ops::Range<usize> {
    type It = Few<usize>;
    open spec fn goes(self, it: Few<usize>) -> bool { it.seq() == Seq::new((if self.end >= self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: Few<usize>) { unimplemented!() }
}
pub trait VxIter<T> {
    spec fn items(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>)
        ensures r.seq().len() == self.items().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.items()[i]] 0 <= i < self.items().len() ==> *r.seq()[i] == self.items()[i];
}
impl<T> VxIter<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
impl<T> VxIter<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Few<T> { s: Vec<T> }
impl<T> Iterator for Few<T> {
    type Item = T;
    uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
impl<T> ExactSizeIterator for Few<T> {
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_once<T>(x: T) -> (r: Few<T>) ensures r.seq() == seq![x] { unimplemented!() }
#[verifier::external_body] pub fn vx_empty<T>() -> (r: Few<T>) ensures r.seq() == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_collect<I: Iterator>(it: I) -> (r: Vec<I::Item>) ensures r@ == it.seq() { unimplemented!() }
} // iter

pub mod smallvec {
use vstd::prelude::*;
pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }
pub type SmallVec<A> = Vec<<A as Array>::Item>;
}

// ------------------------------------------------------------------------------------------------
// Text
// ------------------------------------------------------------------------------------------------
pub mod text {
use vstd::prelude::*;
pub trait ToString {
    spec fn text(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.text();
}
/// `core::fmt`: what has been written so far
#[verifier::external_body] pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a mut ()> }
pub struct FmtError {}
pub type FmtResult = Result<(), FmtError>;
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn write_str<S: VxText + ?Sized>(&mut self, s: &S) -> (r: FmtResult) ensures r is Ok ==> final(self).out() == old(self).out() + s.chars() { unimplemented!() }
}
pub trait VxText { spec fn chars(&self) -> Seq<char>; }
impl VxText for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<'a> VxText for super::stdx::Cow<'a, str> { open spec fn chars(&self) -> Seq<char> { self.text() } }
pub trait Display {
    spec fn shows(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) ensures r is Ok ==> final(f).out() == old(f).out() + self.shows();
}
impl Display for str { open spec fn shows(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl Display for String { open spec fn shows(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl<'a> Display for super::stdx::Cow<'a, str> { open spec fn shows(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl Display for usize { open spec fn shows(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl<T: Display + ?Sized> Display for &T { open spec fn shows(&self) -> Seq<char> { (**self).shows() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
pub uninterp spec fn fmt1<A>(lit: Seq<char>, a: A) -> Seq<char>;
pub uninterp spec fn fmt2<A, B>(lit: Seq<char>, a: A, b: B) -> Seq<char>;
pub uninterp spec fn fmt3<A, B, C>(lit: Seq<char>, a: A, b: B, c: C) -> Seq<char>;
#[verifier::external_body] pub fn vx_format1<A>(lit: &str, a: &A) -> (r: String) ensures r@ == fmt1(lit@, *a) { unimplemented!() }
#[verifier::external_body] pub fn vx_format2<A, B>(lit: &str, a: &A, b: &B) -> (r: String) ensures r@ == fmt2(lit@, *a, *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_format3<A, B, C>(lit: &str, a: &A, b: &B, c: &C) -> (r: String) ensures r@ == fmt3(lit@, *a, *b, *c) { unimplemented!() }
impl ToString for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for u8 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for u16 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for u32 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for u64 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for u128 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for i8 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for i16 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for i32 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for i64 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

impl ToString for i128 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

pub trait VxToOwned { fn vx_to_owned(&self) -> String; }
impl VxToOwned for str {
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// `vec![a, b]` one by one
pub fn vx_none<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
pub fn vx_push<T>(v: Vec<T>, x: T) -> (r: Vec<T>) ensures r@ == v@.push(x) { let mut v = v; v.push(x); v }
pub open spec fn str_views<'a>(v: Seq<&'a str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// a number in decimal
pub open spec fn decimal(n: int) -> Seq<char> decreases (if n < 0 { 1 - n } else { n }) {
    if n < 0 { seq!['-'] + decimal(-n) }
    else if n < 10 { seq![(('0' as int) + n) as char] }
    else { decimal(n / 10).push((('0' as int) + n % 10) as char) }
}
/// Rust strings and UTF-8
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(core::str::Utf8Error);
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn utf8_error(b: Seq<u8>) -> core::str::Utf8Error;
#[verifier::external_body] pub fn vx_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures match utf8(b@) { Some(s) => r matches Ok(t) && t@ == s, None => r == Err::<&'a str, _>(utf8_error(b@)) },
{ unimplemented!() }
} // text

pub mod stdx {
use vstd::prelude::*;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTryFromSliceError(core::array::TryFromSliceError);
/// `TryInto` of slices to arrays
pub trait VxTryInto<T>: Sized { type Error; spec fn into_is(self, r: Result<T, Self::Error>) -> bool; fn vx_try_into(self) -> (r: Result<T, Self::Error>) ensures self.into_is(r); }
impl<'a, const N: usize> VxTryInto<&'a [u8; N]> for &'a [u8] {
    type Error = core::array::TryFromSliceError;
    open spec fn into_is(self, r: Result<&'a [u8; N], core::array::TryFromSliceError>) -> bool { match r { Ok(a) => self@.len() == N && a@ == self@, Err(_) => self@.len() != N } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<&'a [u8; N], core::array::TryFromSliceError>) { unimplemented!() }
}
/// Unicode scalar values
pub open spec fn is_scalar(v: u32) -> bool { v < 0xd800 || 0xe000 <= v < 0x110000 }
#[verifier::external_body] pub fn vx_char_from_u32(v: u32) -> (r: Option<char>)
    ensures is_scalar(v) <==> r is Some, r matches Some(c) ==> c as u32 == v,
{ unimplemented!() }
/// `alloc::borrow::Cow`, with the same two variants
use super::iter::Iterator as _;
pub trait ToOwned { type Owned; }
impl ToOwned for str { type Owned = String; }
impl<T> ToOwned for Vec<T> { type Owned = Vec<T>; }
pub enum Cow<'a, B: ToOwned + ?Sized> { Borrowed(&'a B), Owned(B::Owned) }
impl<'a> Cow<'a, str> {
    pub open spec fn text(self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
}
impl<'a, T> Cow<'a, Vec<T>> {
    pub open spec fn items(self) -> Seq<T> { match self { Cow::Borrowed(v) => v@, Cow::Owned(v) => v@ } }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Vec<T>) ensures r@ == self.items() { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'b>(&'b self) -> (r: super::iter::SliceIter<'b, T>)
        ensures r.seq().len() == self.items().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.items()[i]] 0 <= i < self.items().len() ==> *r.seq()[i] == self.items()[i]
    { unimplemented!() }
}
impl<'a> core::convert::From<&'a str> for Cow<'a, str> { fn from(s: &'a str) -> (r: Self) ensures r == Cow::<'a, str>::Borrowed(s) { Cow::Borrowed(s) } }
impl<'a> core::convert::From<String> for Cow<'a, str> { fn from(s: String) -> (r: Self) ensures r == Cow::<'a, str>::Owned(s) { Cow::Owned(s) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: &'a str) -> Self { Cow::Borrowed(d) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: String) -> Self { Cow::Owned(d) } }
/// collections: the items which are in them
pub trait VxItems<T>: Sized {
    spec fn has(self, s: Seq<T>) -> bool;
    fn from_items(v: Vec<T>) -> (r: Self) ensures r.has(v@);
}
impl<T> VxItems<T> for Vec<T> {
    open spec fn has(self, s: Seq<T>) -> bool { self@ == s }
    fn from_items(v: Vec<T>) -> (r: Self) { v }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VecDeque<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LinkedList<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BinaryHeap<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { _p: core::marker::PhantomData<T> }
/// the items in order
impl<T> VecDeque<T> { pub uninterp spec fn seq(self) -> Seq<T>; }
impl<T> LinkedList<T> { pub uninterp spec fn seq(self) -> Seq<T>; }
/// made of these items, one after the other
impl<T> BinaryHeap<T> { pub uninterp spec fn of(self, s: Seq<T>) -> bool; }
impl<T> BTreeSet<T> { pub uninterp spec fn of(self, s: Seq<T>) -> bool; }
impl<T> VxItems<T> for VecDeque<T> { open spec fn has(self, s: Seq<T>) -> bool { self.seq() == s } #[verifier::external_body] fn from_items(v: Vec<T>) -> (r: Self) { unimplemented!() } }
impl<T> VxItems<T> for LinkedList<T> { open spec fn has(self, s: Seq<T>) -> bool { self.seq() == s } #[verifier::external_body] fn from_items(v: Vec<T>) -> (r: Self) { unimplemented!() } }
impl<T> VxItems<T> for BinaryHeap<T> { open spec fn has(self, s: Seq<T>) -> bool { self.of(s) } #[verifier::external_body] fn from_items(v: Vec<T>) -> (r: Self) { unimplemented!() } }
impl<T> VxItems<T> for BTreeSet<T> { open spec fn has(self, s: Seq<T>) -> bool { self.of(s) } #[verifier::external_body] fn from_items(v: Vec<T>) -> (r: Self) { unimplemented!() } }
/// what an iterator of results collects into
pub trait VxFromResults<T, E>: Sized {
    type K: VxItems<T>;
    spec fn result(self) -> Result<Self::K, E>;
    fn wrap(r: Result<Self::K, E>) -> (s: Self) ensures s.result() == r;
}
impl<T, E, K: VxItems<T>> VxFromResults<T, E> for Result<K, E> {
    type K = K;
    open spec fn result(self) -> Result<K, E> { self }
    fn wrap(r: Result<K, E>) -> (s: Self) { r }
}
impl<T, const N: usize> VxTryInto<[T; N]> for Vec<T> {
    type Error = Vec<T>;
    open spec fn into_is(self, r: Result<[T; N], Vec<T>>) -> bool { match r { Ok(a) => a@ == self@ && self@.len() == N, Err(v) => v == self && self@.len() != N } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[T; N], Vec<T>>) { unimplemented!() }
}
/// maps: what is kept for each key
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
pub trait VxKey: Sized { type V; spec fn kv(self) -> Self::V; }
impl VxKey for String { type V = Seq<char>; open spec fn kv(self) -> Seq<char> { self@ } }
impl<'a> VxKey for Option<&'a str> { type V = Option<Seq<char>>; open spec fn kv(self) -> Option<Seq<char>> { crate::xcr::gname(self) } }
impl<K: VxKey, V> BTreeMap<K, V> {
    pub uninterp spec fn map(self) -> Map<K::V, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, key: K, value: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(key.kv(), value) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, key: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.map().contains_key(key.kv()) && *v == self.map()[key.kv()], None => !self.map().contains_key(key.kv()) } { unimplemented!() }
}
/// `Option::<&str>::unwrap_or_default`
pub trait VxOrDefault { type T; spec fn or_default_is(self, r: Self::T) -> bool; fn vx_unwrap_or_default(self) -> (r: Self::T) ensures self.or_default_is(r); }
impl<'a> VxOrDefault for Option<&'a str> {
    type T = &'a str;
    open spec fn or_default_is(self, r: &'a str) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<char>::empty() } }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: &'a str) { unimplemented!() }
}
/// `Default::default`
pub uninterp spec fn is_default<T>(x: T) -> bool;
#[verifier::external_body] pub fn vx_default<T: Default>() -> (r: T) ensures is_default(r) { unimplemented!() }
pub mod primitive_types {
use vstd::prelude::*;
#[verifier::external_body] pub struct H128 { _p: () }
impl H128 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 16]> for H128 { #[verifier::external_body] fn from(a: [u8; 16]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 16]> for H128 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 16]) -> Self { arbitrary() } }
#[verifier::external_body] pub struct H160 { _p: () }
impl H160 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 20]> for H160 { #[verifier::external_body] fn from(a: [u8; 20]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 20]> for H160 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 20]) -> Self { arbitrary() } }
#[verifier::external_body] pub struct H256 { _p: () }
impl H256 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 32]> for H256 { #[verifier::external_body] fn from(a: [u8; 32]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for H256 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 32]) -> Self { arbitrary() } }
#[verifier::external_body] pub struct H384 { _p: () }
impl H384 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 48]> for H384 { #[verifier::external_body] fn from(a: [u8; 48]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 48]> for H384 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 48]) -> Self { arbitrary() } }
#[verifier::external_body] pub struct H512 { _p: () }
impl H512 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 64]> for H512 { #[verifier::external_body] fn from(a: [u8; 64]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 64]> for H512 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 64]) -> Self { arbitrary() } }
#[verifier::external_body] pub struct H768 { _p: () }
impl H768 { pub uninterp spec fn bytes(self) -> Seq<u8>; }
impl core::convert::From<[u8; 96]> for H768 { #[verifier::external_body] fn from(a: [u8; 96]) -> (r: Self) ensures r.bytes() == a@ { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 96]> for H768 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: [u8; 96]) -> Self { arbitrary() } }
}
/// `core::ops::RangeInclusive`
pub struct RangeInclusive<Idx> { pub start: Idx, pub end: Idx }
pub fn vx_range_inclusive<Idx>(start: Idx, end: Idx) -> (r: RangeInclusive<Idx>) ensures r.start == start && r.end == end { RangeInclusive { start, end } }
/// `core::time::Duration`
#[verifier::external_body] pub struct Duration { _p: () }
pub uninterp spec fn nanos(d: Duration) -> nat;
pub open spec fn max_nanos() -> nat { 0x1_0000_0000_0000_0000 * 1_000_000_000 }
impl Duration {
    #[verifier::external_body] pub fn from_secs(s: u64) -> (r: Self) ensures nanos(r) == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(s: u64) -> (r: Self) ensures nanos(r) == s * 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(s: u64) -> (r: Self) ensures nanos(r) == s * 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_nanos(s: u64) -> (r: Self) ensures nanos(r) == s { unimplemented!() }
    /// panics when it does not fit
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> (r: Self) requires s * 1_000_000_000 + n < max_nanos() ensures nanos(r) == s * 1_000_000_000 + n { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(x) => nanos(x) == nanos(self) + nanos(o) && nanos(x) < max_nanos(), None => nanos(self) + nanos(o) >= max_nanos() }
    { unimplemented!() }
}
/// a boxed error
#[verifier::external_body] pub struct DynError { _p: () }
pub uninterp spec fn dyn_text(e: DynError) -> Seq<char>;
} // stdx
pub mod axioms {
use vstd::prelude::*;
pub use super::scale_type_resolver::axiom_type_id_clone;
/// `?` converts errors with `From`
pub broadcast axiom fn ax_q<E, F: From<E>>(e: E, f: F)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<F, E>(e, f),
    ensures call_ensures(<F as From<E>>::from, (e,), f);
pub broadcast group all { axiom_type_id_clone, ax_q }
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { None => None, Some(x) => Some(*x) });
pub assume_specification<'a, T, const N: usize>[ <&'a [T; N] as core::convert::TryFrom<&'a [T]>>::try_from ](s: &'a [T]) -> (r: Result<&'a [T; N], core::array::TryFromSliceError>)
    ensures match r { Ok(a) => s@.len() == N && a@ == s@, Err(_) => s@.len() != N };
pub assume_specification<T>[ <T as core::convert::From<T>>::from ](t: T) -> (r: T)
    ensures r == t;
} // axioms
} // xcr
