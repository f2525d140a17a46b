%root
// ================================================================================================
// SCALE, as mathematics: `parse` says which value the bytes start with, and how many bytes it takes.
// ================================================================================================
pub mod spec {
use vstd::prelude::*;
use crate::xcr::*;
use crate::xcr::codec::{Compact, Decode};
use crate::xcr::scale_type_resolver::*;
use crate::xcr::scale_bits::{Format, bits_size, bit_at};

/// A decoded value: the ID of the type it was described with, its content, and whether that type was reached
/// through a compact type.
pub struct Val<Id> { pub id: Id, pub k: Kind<Id>, pub c: bool }
pub enum Kind<Id> {
    Bool(bool), Char(u32), Str(Seq<u8>),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), U256(Seq<u8>),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), I256(Seq<u8>),
    Seq(Seq<Val<Id>>),
    Arr(Seq<Val<Id>>),
    Comp(Seq<Option<Seq<char>>>, Seq<Val<Id>>),
    Tup(Seq<Val<Id>>),
    Variant(Seq<char>, u8, Seq<Option<Seq<char>>>, Seq<Val<Id>>),
    Bits(Seq<bool>),
}
pub open spec fn through_compact<Id>(v: Val<Id>) -> Val<Id> { Val { c: true, ..v } }
pub open spec fn names<Id>(fs: Seq<GField<Id>>) -> Seq<Option<Seq<char>>> { Seq::new(fs.len(), |i: int| fs[i].name) }

/// The leading primitive of some bytes.
pub open spec fn leaf<Id>(p: Primitive, compact: bool, b: Seq<u8>) -> Option<(Kind<Id>, nat)> {
    match p {
        Primitive::Bool => if compact { None } else { match <bool as Decode>::dec(b) { Some((v, n)) => Some((Kind::Bool(v), n)), None => None } },
        Primitive::Char => if compact { None } else { match <u32 as Decode>::dec(b) { Some((v, n)) => if is_scalar(v) { Some((Kind::Char(v), n)) } else { None }, None => None } },
        Primitive::Str => if compact { None } else { match cdec(b, 4) {
            Some((l, n)) => if n + l <= b.len() { Some((Kind::Str(b.subrange(n as int, (n + l) as int)), n + l)) } else { None },
            None => None } },
        Primitive::U256 => if compact || b.len() < 32 { None } else { Some((Kind::U256(b.take(32)), 32)) },
        Primitive::I256 => if compact || b.len() < 32 { None } else { Some((Kind::I256(b.take(32)), 32)) },
        Primitive::U8 => if compact { match <Compact<u8> as Decode>::dec(b) { Some((v, n)) => Some((Kind::U8(v.0), n)), None => None } }
            else { match <u8 as Decode>::dec(b) { Some((v, n)) => Some((Kind::U8(v), n)), None => None } },
        Primitive::I8 => if compact { None } else { match <i8 as Decode>::dec(b) { Some((v, n)) => Some((Kind::I8(v), n)), None => None } },
        Primitive::U16 => if compact { match <Compact<u16> as Decode>::dec(b) { Some((v, n)) => Some((Kind::U16(v.0), n)), None => None } }
            else { match <u16 as Decode>::dec(b) { Some((v, n)) => Some((Kind::U16(v), n)), None => None } },
        Primitive::I16 => if compact { None } else { match <i16 as Decode>::dec(b) { Some((v, n)) => Some((Kind::I16(v), n)), None => None } },
        Primitive::U32 => if compact { match <Compact<u32> as Decode>::dec(b) { Some((v, n)) => Some((Kind::U32(v.0), n)), None => None } }
            else { match <u32 as Decode>::dec(b) { Some((v, n)) => Some((Kind::U32(v), n)), None => None } },
        Primitive::I32 => if compact { None } else { match <i32 as Decode>::dec(b) { Some((v, n)) => Some((Kind::I32(v), n)), None => None } },
        Primitive::U64 => if compact { match <Compact<u64> as Decode>::dec(b) { Some((v, n)) => Some((Kind::U64(v.0), n)), None => None } }
            else { match <u64 as Decode>::dec(b) { Some((v, n)) => Some((Kind::U64(v), n)), None => None } },
        Primitive::I64 => if compact { None } else { match <i64 as Decode>::dec(b) { Some((v, n)) => Some((Kind::I64(v), n)), None => None } },
        Primitive::U128 => if compact { match <Compact<u128> as Decode>::dec(b) { Some((v, n)) => Some((Kind::U128(v.0), n)), None => None } }
            else { match <u128 as Decode>::dec(b) { Some((v, n)) => Some((Kind::U128(v), n)), None => None } },
        Primitive::I128 => if compact { None } else { match <i128 as Decode>::dec(b) { Some((v, n)) => Some((Kind::I128(v), n)), None => None } },
    }
}
/// A bit sequence
pub open spec fn bits_leaf<Id>(f: Format, b: Seq<u8>) -> Option<(Kind<Id>, nat)> {
    match cdec(b, 4) {
        None => None,
        Some((n, m)) => if bits_size(n, f) <= b.len() { Some((Kind::Bits(Seq::new(n, |i: int| bit_at(b.skip(m as int), f, i as nat))), bits_size(n, f))) } else { None },
    }
}
pub open spec fn first_with_index<Id>(vs: Seq<GVariant<Id>>, index: u8, i: int) -> bool {
    0 <= i < vs.len() && vs[i].index == index && forall|j: int| 0 <= j < i ==> #[trigger] vs[j].index != index
}
pub open spec fn find_variant<Id>(vs: Seq<GVariant<Id>>, index: u8) -> Option<GVariant<Id>> {
    if exists|i: int| first_with_index(vs, index, i) { Some(vs[choose|i: int| first_with_index(vs, index, i)]) } else { None }
}
pub proof fn lemma_find_variant<Id>(vs: Seq<GVariant<Id>>, index: u8, i: int)
    requires first_with_index(vs, index, i),
    ensures find_variant(vs, index) == Some(vs[i]),
{
    let c = choose|i: int| first_with_index(vs, index, i);
    if c < i { assert(vs[c].index != index); }
    if i < c { assert(vs[i].index != index); }
}

// With fuel: the type graph may be cyclic.
pub open spec fn pk<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, compact: bool, b: Seq<u8>) -> Option<(Val<R::TypeId>, nat)>
    decreases k, 0nat
{
    if k == 0 { None } else { match t.desc(id) {
        None | Some(Desc::NotFound) | Some(Desc::Unhandled(_)) => None,
        Some(Desc::Prim(p)) => match leaf(p, compact, b) { Some((k, n)) => Some((Val { id, k, c: false }, n)), None => None },
        Some(Desc::Bits(s, o)) => if compact { None } else { match bits_leaf(Format { store: s, order: o }, b) { Some((k, n)) => Some((Val { id, k, c: false }, n)), None => None } },
        Some(Desc::Compact(i)) => match pk((k - 1) as nat, t, i, true, b) { Some((v, n)) => Some((through_compact(v), n)), None => None },
        Some(Desc::Composite(_, fs)) => if compact && fs.len() != 1 { None } else {
            match pk_fields((k - 1) as nat, t, fs, compact, b) { Some((vs, n)) => Some((Val { id, k: Kind::Comp(names(fs), vs), c: false }, n)), None => None } },
        Some(Desc::Tuple(ids)) => if compact && ids.len() != 1 { None } else {
            match pk_fields((k - 1) as nat, t, gunnamed(ids), compact, b) { Some((vs, n)) => Some((Val { id, k: Kind::Tup(vs), c: false }, n)), None => None } },
        Some(Desc::Sequence(i)) => if compact { None } else {
            match cdec(b, 8) {
                None => None,
                Some((l, m)) => match pk_rep((k - 1) as nat, t, i, l, b.skip(m as int)) { Some((vs, n)) => Some((Val { id, k: Kind::Seq(vs), c: false }, m + n)), None => None },
            } },
        Some(Desc::Array(i, l)) => if compact { None } else {
            match pk_rep((k - 1) as nat, t, i, l as nat, b) { Some((vs, n)) => Some((Val { id, k: Kind::Arr(vs), c: false }, n)), None => None } },
        Some(Desc::Variant(vars)) => if compact || b.len() < 1 { None } else {
            match find_variant(vars, b[0]) {
                None => None,
                Some(v) => match pk_fields((k - 1) as nat, t, v.fields, false, b.skip(1)) {
                    Some((vs, n)) => Some((Val { id, k: Kind::Variant(v.name, v.index, names(v.fields), vs), c: false }, 1 + n)), None => None },
            } },
    } }
}
pub open spec fn pk_fields<R: TypeResolver>(k: nat, t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>) -> Option<(Seq<Val<R::TypeId>>, nat)>
    decreases k, fs.len() + 1
{
    if fs.len() == 0 { Some((Seq::empty(), 0)) } else {
        match pk(k, t, fs[0].id, compact, b) {
            None => None,
            Some((v, n)) => match pk_fields(k, t, fs.skip(1), compact, b.skip(n as int)) { None => None, Some((vs, m)) => Some((seq![v] + vs, n + m)) },
        }
    }
}
pub open spec fn pk_rep<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, count: nat, b: Seq<u8>) -> Option<(Seq<Val<R::TypeId>>, nat)>
    decreases k, count + 1
{
    if count == 0 { Some((Seq::empty(), 0)) } else {
        match pk(k, t, id, false, b) {
            None => None,
            Some((v, n)) => match pk_rep(k, t, id, (count - 1) as nat, b.skip(n as int)) { None => None, Some((vs, m)) => Some((seq![v] + vs, n + m)) },
        }
    }
}
/// The value (of a type with this ID, in a compact context or not) which the bytes start with, and its size.
#[verifier::opaque]
pub open spec fn parse<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>) -> Option<(Val<R::TypeId>, nat)> {
    if exists|k: nat| #[trigger] pk(k, t, id, compact, b) is Some { pk(choose|k: nat| #[trigger] pk(k, t, id, compact, b) is Some, t, id, compact, b) } else { None }
}
/// One value per field, one after the other.
pub open spec fn parse_fields<R: TypeResolver>(t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>) -> Option<(Seq<Val<R::TypeId>>, nat)>
    decreases fs.len()
{
    if fs.len() == 0 { Some((Seq::empty(), 0)) } else {
        match parse(t, fs[0].id, compact, b) {
            None => None,
            Some((v, n)) => match parse_fields(t, fs.skip(1), compact, b.skip(n as int)) { None => None, Some((vs, m)) => Some((seq![v] + vs, n + m)) },
        }
    }
}
/// So many values of one type, one after the other.
pub open spec fn parse_rep<R: TypeResolver>(t: &R, id: R::TypeId, count: nat, b: Seq<u8>) -> Option<(Seq<Val<R::TypeId>>, nat)>
    decreases count
{
    if count == 0 { Some((Seq::empty(), 0)) } else {
        match parse(t, id, false, b) {
            None => None,
            Some((v, n)) => match parse_rep(t, id, (count - 1) as nat, b.skip(n as int)) { None => None, Some((vs, m)) => Some((seq![v] + vs, n + m)) },
        }
    }
}
/// What `parse` is, one level deep.
pub open spec fn parse_desc<R: TypeResolver>(t: &R, d: Option<Desc<R::TypeId>>, id: R::TypeId, compact: bool, b: Seq<u8>) -> Option<(Val<R::TypeId>, nat)> {
    match d {
        None | Some(Desc::NotFound) | Some(Desc::Unhandled(_)) => None,
        Some(Desc::Prim(p)) => match leaf(p, compact, b) { Some((k, n)) => Some((Val { id, k, c: false }, n)), None => None },
        Some(Desc::Bits(s, o)) => if compact { None } else { match bits_leaf(Format { store: s, order: o }, b) { Some((k, n)) => Some((Val { id, k, c: false }, n)), None => None } },
        Some(Desc::Compact(i)) => match parse(t, i, true, b) { Some((v, n)) => Some((through_compact(v), n)), None => None },
        Some(Desc::Composite(_, fs)) => if compact && fs.len() != 1 { None } else {
            match parse_fields(t, fs, compact, b) { Some((vs, n)) => Some((Val { id, k: Kind::Comp(names(fs), vs), c: false }, n)), None => None } },
        Some(Desc::Tuple(ids)) => if compact && ids.len() != 1 { None } else {
            match parse_fields(t, gunnamed(ids), compact, b) { Some((vs, n)) => Some((Val { id, k: Kind::Tup(vs), c: false }, n)), None => None } },
        Some(Desc::Sequence(i)) => if compact { None } else {
            match cdec(b, 8) {
                None => None,
                Some((l, m)) => match parse_rep(t, i, l, b.skip(m as int)) { Some((vs, n)) => Some((Val { id, k: Kind::Seq(vs), c: false }, m + n)), None => None },
            } },
        Some(Desc::Array(i, l)) => if compact { None } else {
            match parse_rep(t, i, l as nat, b) { Some((vs, n)) => Some((Val { id, k: Kind::Arr(vs), c: false }, n)), None => None } },
        Some(Desc::Variant(vars)) => if compact || b.len() < 1 { None } else {
            match find_variant(vars, b[0]) {
                None => None,
                Some(v) => match parse_fields(t, v.fields, false, b.skip(1)) {
                    Some((vs, n)) => Some((Val { id, k: Kind::Variant(v.name, v.index, names(v.fields), vs), c: false }, 1 + n)), None => None },
            } },
    }
}
pub open spec fn parse_body<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>) -> Option<(Val<R::TypeId>, nat)> {
    parse_desc(t, t.desc(id), id, compact, b)
}

// ---- lemmas ----
pub proof fn lemma_mono<R: TypeResolver>(k: nat, k2: nat, t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    requires k <= k2, pk(k, t, id, compact, b) is Some,
    ensures pk(k2, t, id, compact, b) == pk(k, t, id, compact, b),
    decreases k, 0nat
{
    let k1 = (k - 1) as nat; let k3 = (k2 - 1) as nat;
    match t.desc(id) {
        Some(Desc::Compact(i)) => lemma_mono(k1, k3, t, i, true, b),
        Some(Desc::Composite(_, fs)) => lemma_mono_fields(k1, k3, t, fs, compact, b),
        Some(Desc::Tuple(ids)) => lemma_mono_fields(k1, k3, t, gunnamed(ids), compact, b),
        Some(Desc::Sequence(i)) => { let c = cdec(b, 8).unwrap(); lemma_mono_rep(k1, k3, t, i, c.0, b.skip(c.1 as int)); }
        Some(Desc::Array(i, l)) => lemma_mono_rep(k1, k3, t, i, l as nat, b),
        Some(Desc::Variant(vars)) => { let v = find_variant(vars, b[0]).unwrap(); lemma_mono_fields(k1, k3, t, v.fields, false, b.skip(1)); }
        _ => {}
    }
}
pub proof fn lemma_mono_fields<R: TypeResolver>(k: nat, k2: nat, t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>)
    requires k <= k2, pk_fields(k, t, fs, compact, b) is Some,
    ensures pk_fields(k2, t, fs, compact, b) == pk_fields(k, t, fs, compact, b),
    decreases k, fs.len() + 1
{
    if fs.len() > 0 {
        lemma_mono(k, k2, t, fs[0].id, compact, b);
        let n = pk(k, t, fs[0].id, compact, b).unwrap().1;
        lemma_mono_fields(k, k2, t, fs.skip(1), compact, b.skip(n as int));
    }
}
pub proof fn lemma_mono_rep<R: TypeResolver>(k: nat, k2: nat, t: &R, id: R::TypeId, count: nat, b: Seq<u8>)
    requires k <= k2, pk_rep(k, t, id, count, b) is Some,
    ensures pk_rep(k2, t, id, count, b) == pk_rep(k, t, id, count, b),
    decreases k, count + 1
{
    if count > 0 {
        lemma_mono(k, k2, t, id, false, b);
        let n = pk(k, t, id, false, b).unwrap().1;
        lemma_mono_rep(k, k2, t, id, (count - 1) as nat, b.skip(n as int));
    }
}
pub proof fn lemma_parse_pk<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures pk(k, t, id, compact, b) is Some ==> parse(t, id, compact, b) == pk(k, t, id, compact, b),
{
    reveal(parse);
    if pk(k, t, id, compact, b) is Some {
        let c = choose|k: nat| #[trigger] pk(k, t, id, compact, b) is Some;
        if c <= k { lemma_mono(c, k, t, id, compact, b); } else { lemma_mono(k, c, t, id, compact, b); }
    }
}
pub proof fn lemma_pk_of_parse<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>) -> (k: nat)
    requires parse(t, id, compact, b) is Some,
    ensures pk(k, t, id, compact, b) == parse(t, id, compact, b),
{
    reveal(parse);
    choose|k: nat| #[trigger] pk(k, t, id, compact, b) is Some
}
pub proof fn lemma_parse_pk_fields<R: TypeResolver>(k: nat, t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>)
    ensures pk_fields(k, t, fs, compact, b) is Some ==> parse_fields(t, fs, compact, b) == pk_fields(k, t, fs, compact, b),
    decreases fs.len()
{
    if pk_fields(k, t, fs, compact, b) is Some && fs.len() > 0 {
        lemma_parse_pk(k, t, fs[0].id, compact, b);
        lemma_parse_pk_fields(k, t, fs.skip(1), compact, b.skip(pk(k, t, fs[0].id, compact, b).unwrap().1 as int));
    }
}
pub proof fn lemma_pk_of_parse_fields<R: TypeResolver>(t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>) -> (k: nat)
    requires parse_fields(t, fs, compact, b) is Some,
    ensures pk_fields(k, t, fs, compact, b) == parse_fields(t, fs, compact, b),
    decreases fs.len()
{
    if fs.len() == 0 { 0 } else {
        let b2 = b.skip(parse(t, fs[0].id, compact, b).unwrap().1 as int);
        let k1 = lemma_pk_of_parse(t, fs[0].id, compact, b);
        let k2 = lemma_pk_of_parse_fields(t, fs.skip(1), compact, b2);
        let k = if k1 < k2 { k2 } else { k1 };
        lemma_mono(k1, k, t, fs[0].id, compact, b);
        lemma_mono_fields(k2, k, t, fs.skip(1), compact, b2);
        k
    }
}
pub proof fn lemma_parse_pk_rep<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, count: nat, b: Seq<u8>)
    ensures pk_rep(k, t, id, count, b) is Some ==> parse_rep(t, id, count, b) == pk_rep(k, t, id, count, b),
    decreases count
{
    if pk_rep(k, t, id, count, b) is Some && count > 0 {
        lemma_parse_pk(k, t, id, false, b);
        lemma_parse_pk_rep(k, t, id, (count - 1) as nat, b.skip(pk(k, t, id, false, b).unwrap().1 as int));
    }
}
pub proof fn lemma_pk_of_parse_rep<R: TypeResolver>(t: &R, id: R::TypeId, count: nat, b: Seq<u8>) -> (k: nat)
    requires parse_rep(t, id, count, b) is Some,
    ensures pk_rep(k, t, id, count, b) == parse_rep(t, id, count, b),
    decreases count
{
    if count == 0 { 0 } else {
        let b2 = b.skip(parse(t, id, false, b).unwrap().1 as int);
        let k1 = lemma_pk_of_parse(t, id, false, b);
        let k2 = lemma_pk_of_parse_rep(t, id, (count - 1) as nat, b2);
        let k = if k1 < k2 { k2 } else { k1 };
        lemma_mono(k1, k, t, id, false, b);
        lemma_mono_rep(k2, k, t, id, (count - 1) as nat, b2);
        k
    }
}
pub proof fn lemma_unfold<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures parse(t, id, compact, b) == parse_body(t, id, compact, b),
{
    let w = parse_body(t, id, compact, b);
    // ==>
    if parse(t, id, compact, b) is Some {
        let k = lemma_pk_of_parse(t, id, compact, b);
        let k1 = (k - 1) as nat;
        match t.desc(id) {
            Some(Desc::Compact(i)) => lemma_parse_pk(k1, t, i, true, b),
            Some(Desc::Composite(_, fs)) => lemma_parse_pk_fields(k1, t, fs, compact, b),
            Some(Desc::Tuple(ids)) => lemma_parse_pk_fields(k1, t, gunnamed(ids), compact, b),
            Some(Desc::Sequence(i)) => { let c = cdec(b, 8).unwrap(); lemma_parse_pk_rep(k1, t, i, c.0, b.skip(c.1 as int)); }
            Some(Desc::Array(i, l)) => lemma_parse_pk_rep(k1, t, i, l as nat, b),
            Some(Desc::Variant(vars)) => { let v = find_variant(vars, b[0]).unwrap(); lemma_parse_pk_fields(k1, t, v.fields, false, b.skip(1)); }
            _ => {}
        }
    }
    // <==
    if w is Some {
        let k = match t.desc(id) {
            Some(Desc::Compact(i)) => lemma_pk_of_parse(t, i, true, b),
            Some(Desc::Composite(_, fs)) => lemma_pk_of_parse_fields(t, fs, compact, b),
            Some(Desc::Tuple(ids)) => lemma_pk_of_parse_fields(t, gunnamed(ids), compact, b),
            Some(Desc::Sequence(i)) => { let c = cdec(b, 8).unwrap(); lemma_pk_of_parse_rep(t, i, c.0, b.skip(c.1 as int)) }
            Some(Desc::Array(i, l)) => lemma_pk_of_parse_rep(t, i, l as nat, b),
            Some(Desc::Variant(vars)) => { let v = find_variant(vars, b[0]).unwrap(); lemma_pk_of_parse_fields(t, v.fields, false, b.skip(1)) }
            _ => 0,
        };
        assert(pk((k + 1) as nat, t, id, compact, b) == w);
        lemma_parse_pk((k + 1) as nat, t, id, compact, b);
    }
}
/// `c` starts with the first `n` bytes of `b`
pub open spec fn agree(b: Seq<u8>, c: Seq<u8>, n: nat) -> bool { n <= b.len() && n <= c.len() && forall|i: int| 0 <= i < n ==> #[trigger] b[i] == c[i] }
pub proof fn lemma_agree_skip(b: Seq<u8>, c: Seq<u8>, n: nat, m: nat)
    requires agree(b, c, n), m <= n,
    ensures agree(b.skip(m as int), c.skip(m as int), (n - m) as nat), agree(b, c, m),
{ }
pub proof fn lemma_leaf<Id>(p: Primitive, compact: bool, b: Seq<u8>, c: Seq<u8>)
    ensures leaf::<Id>(p, compact, b) matches Some((_, n)) ==> n <= b.len() && (agree(b, c, n) ==> leaf::<Id>(p, compact, c) == leaf::<Id>(p, compact, b)),
{
    if let Some((_, n)) = leaf::<Id>(p, compact, b) {
        match p {
            Primitive::Bool => {}
            Primitive::Char => { <u32 as Decode>::lemma_dec(b); if agree(b, c, n) { <u32 as Decode>::lemma_dec_prefix(b, c); } }
            Primitive::Str => {
                lemma_cdec(b, 4);
                let (l, m) = cdec(b, 4).unwrap();
                if agree(b, c, n) {
                    lemma_cdec_prefix(b, c, 4);
                    assert(b.subrange(m as int, (m + l) as int) =~= c.subrange(m as int, (m + l) as int));
                }
            }
            Primitive::U256 | Primitive::I256 => { if agree(b, c, n) { assert(b.take(32) =~= c.take(32)); } }
            Primitive::U8 => { if compact { <Compact<u8> as Decode>::lemma_dec(b); if agree(b, c, n) { <Compact<u8> as Decode>::lemma_dec_prefix(b, c); } }
                else { <u8 as Decode>::lemma_dec(b); if agree(b, c, n) { <u8 as Decode>::lemma_dec_prefix(b, c); } } }
            Primitive::I8 => { <i8 as Decode>::lemma_dec(b); if agree(b, c, n) { <i8 as Decode>::lemma_dec_prefix(b, c); } }
            Primitive::U16 => { if compact { <Compact<u16> as Decode>::lemma_dec(b); if agree(b, c, n) { <Compact<u16> as Decode>::lemma_dec_prefix(b, c); } }
                else { <u16 as Decode>::lemma_dec(b); if agree(b, c, n) { <u16 as Decode>::lemma_dec_prefix(b, c); } } }
            Primitive::I16 => { <i16 as Decode>::lemma_dec(b); if agree(b, c, n) { <i16 as Decode>::lemma_dec_prefix(b, c); } }
            Primitive::U32 => { if compact { <Compact<u32> as Decode>::lemma_dec(b); if agree(b, c, n) { <Compact<u32> as Decode>::lemma_dec_prefix(b, c); } }
                else { <u32 as Decode>::lemma_dec(b); if agree(b, c, n) { <u32 as Decode>::lemma_dec_prefix(b, c); } } }
            Primitive::I32 => { <i32 as Decode>::lemma_dec(b); if agree(b, c, n) { <i32 as Decode>::lemma_dec_prefix(b, c); } }
            Primitive::U64 => { if compact { <Compact<u64> as Decode>::lemma_dec(b); if agree(b, c, n) { <Compact<u64> as Decode>::lemma_dec_prefix(b, c); } }
                else { <u64 as Decode>::lemma_dec(b); if agree(b, c, n) { <u64 as Decode>::lemma_dec_prefix(b, c); } } }
            Primitive::I64 => { <i64 as Decode>::lemma_dec(b); if agree(b, c, n) { <i64 as Decode>::lemma_dec_prefix(b, c); } }
            Primitive::U128 => { if compact { <Compact<u128> as Decode>::lemma_dec(b); if agree(b, c, n) { <Compact<u128> as Decode>::lemma_dec_prefix(b, c); } }
                else { <u128 as Decode>::lemma_dec(b); if agree(b, c, n) { <u128 as Decode>::lemma_dec_prefix(b, c); } } }
            Primitive::I128 => { <i128 as Decode>::lemma_dec(b); if agree(b, c, n) { <i128 as Decode>::lemma_dec_prefix(b, c); } }
        }
    }
}
pub proof fn lemma_bit_at(b: Seq<u8>, c: Seq<u8>, f: Format, i: nat, n: nat)
    requires i < n, agree(b, c, ((n + 8 * crate::xcr::scale_bits::store_size(f.store) - 1) as nat / (8 * crate::xcr::scale_bits::store_size(f.store)) * crate::xcr::scale_bits::store_size(f.store)) as nat),
    ensures bit_at(b, f, i) == bit_at(c, f, i),
{
    let w = crate::xcr::scale_bits::store_size(f.store);
    let q = (n + 8 * w - 1) as nat / (8 * w);
    let j = i / (8 * w);
    assert(j * w + w <= q * w) by (nonlinear_arith)
        requires j == i / (8 * w), q == (n + 8 * w - 1) as nat / (8 * w), i < n, w == 1 || w == 2 || w == 4 || w == 8;
    let s = (j * w) as int;
    assert forall|x: int| 0 <= x < w implies #[trigger] b.skip(s)[x] == c.skip(s)[x] by { assert(b[s + x] == c[s + x]); }
    lemma_le_ext(b.skip(s), c.skip(s), w);
}
pub proof fn lemma_bits_leaf<Id>(f: Format, b: Seq<u8>, c: Seq<u8>)
    ensures bits_leaf::<Id>(f, b) matches Some((_, n)) ==> n <= b.len() && (agree(b, c, n) ==> bits_leaf::<Id>(f, c) == bits_leaf::<Id>(f, b)),
{
    if let Some((k, n)) = bits_leaf::<Id>(f, b) {
        lemma_cdec(b, 4);
        let (l, m) = cdec(b, 4).unwrap();
        if agree(b, c, n) {
            lemma_cdec_prefix(b, c, 4);
            lemma_agree_skip(b, c, n, m);
            let x = Seq::new(l, |i: int| bit_at(b.skip(m as int), f, i as nat));
            let y = Seq::new(l, |i: int| bit_at(c.skip(m as int), f, i as nat));
            assert forall|i: int| 0 <= i < l implies x[i] == y[i] by { lemma_bit_at(b.skip(m as int), c.skip(m as int), f, i as nat, l); }
            assert(x =~= y);
        }
    }
}
/// A value lies within the bytes, and only its own bytes matter.
pub proof fn lemma_prefix_k<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, compact: bool, b: Seq<u8>, c: Seq<u8>)
    ensures pk(k, t, id, compact, b) matches Some((_, n)) ==> n <= b.len() && (agree(b, c, n) ==> pk(k, t, id, compact, c) == pk(k, t, id, compact, b)),
    decreases k, 0nat
{
    if let Some((_, n)) = pk(k, t, id, compact, b) {
        let k1 = (k - 1) as nat;
        match t.desc(id) {
            Some(Desc::Prim(p)) => lemma_leaf::<R::TypeId>(p, compact, b, c),
            Some(Desc::Bits(s, o)) => lemma_bits_leaf::<R::TypeId>(Format { store: s, order: o }, b, c),
            Some(Desc::Compact(i)) => lemma_prefix_k(k1, t, i, true, b, c),
            Some(Desc::Composite(_, fs)) => lemma_prefix_fields_k(k1, t, fs, compact, b, c),
            Some(Desc::Tuple(ids)) => lemma_prefix_fields_k(k1, t, gunnamed(ids), compact, b, c),
            Some(Desc::Sequence(i)) => {
                lemma_cdec(b, 8);
                let (l, m) = cdec(b, 8).unwrap();
                lemma_prefix_rep_k(k1, t, i, l, b.skip(m as int), c.skip(m as int));
                if agree(b, c, n) { lemma_cdec_prefix(b, c, 8); lemma_agree_skip(b, c, n, m); }
            }
            Some(Desc::Array(i, l)) => lemma_prefix_rep_k(k1, t, i, l as nat, b, c),
            Some(Desc::Variant(vars)) => {
                let v = find_variant(vars, b[0]).unwrap();
                lemma_prefix_fields_k(k1, t, v.fields, false, b.skip(1), c.skip(1));
                if agree(b, c, n) { lemma_agree_skip(b, c, n, 1); assert(b[0] == c[0]); }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_prefix_fields_k<R: TypeResolver>(k: nat, t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>, c: Seq<u8>)
    ensures pk_fields(k, t, fs, compact, b) matches Some((vs, n)) ==> vs.len() == fs.len() && n <= b.len() && (agree(b, c, n) ==> pk_fields(k, t, fs, compact, c) == pk_fields(k, t, fs, compact, b)),
    decreases k, fs.len() + 1
{
    if let Some((_, n)) = pk_fields(k, t, fs, compact, b) {
        if fs.len() > 0 {
            lemma_prefix_k(k, t, fs[0].id, compact, b, c);
            let m = pk(k, t, fs[0].id, compact, b).unwrap().1;
            lemma_prefix_fields_k(k, t, fs.skip(1), compact, b.skip(m as int), c.skip(m as int));
            if agree(b, c, n) { lemma_agree_skip(b, c, n, m); }
        }
    }
}
pub proof fn lemma_prefix_rep_k<R: TypeResolver>(k: nat, t: &R, id: R::TypeId, count: nat, b: Seq<u8>, c: Seq<u8>)
    ensures pk_rep(k, t, id, count, b) matches Some((vs, n)) ==> vs.len() == count && n <= b.len() && (agree(b, c, n) ==> pk_rep(k, t, id, count, c) == pk_rep(k, t, id, count, b)),
    decreases k, count + 1
{
    if let Some((_, n)) = pk_rep(k, t, id, count, b) {
        if count > 0 {
            lemma_prefix_k(k, t, id, false, b, c);
            let m = pk(k, t, id, false, b).unwrap().1;
            lemma_prefix_rep_k(k, t, id, (count - 1) as nat, b.skip(m as int), c.skip(m as int));
            if agree(b, c, n) { lemma_agree_skip(b, c, n, m); }
        }
    }
}
pub proof fn lemma_prefix<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>, c: Seq<u8>)
    ensures parse(t, id, compact, b) matches Some((_, n)) ==> n <= b.len() && (agree(b, c, n) ==> parse(t, id, compact, c) == parse(t, id, compact, b)),
{
    if parse(t, id, compact, b) is Some {
        let k = lemma_pk_of_parse(t, id, compact, b);
        lemma_prefix_k(k, t, id, compact, b, c);
        lemma_parse_pk(k, t, id, compact, c);
    }
}
pub proof fn lemma_len<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures parse(t, id, compact, b) matches Some((_, n)) ==> n <= b.len(),
{ lemma_prefix(t, id, compact, b, b); }
pub proof fn lemma_len_fields<R: TypeResolver>(t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>)
    ensures parse_fields(t, fs, compact, b) matches Some((vs, n)) ==> vs.len() == fs.len() && n <= b.len(),
{
    if parse_fields(t, fs, compact, b) is Some {
        let k = lemma_pk_of_parse_fields(t, fs, compact, b);
        lemma_prefix_fields_k(k, t, fs, compact, b, b);
    }
}
pub proof fn lemma_len_rep<R: TypeResolver>(t: &R, id: R::TypeId, count: nat, b: Seq<u8>)
    ensures parse_rep(t, id, count, b) matches Some((vs, n)) ==> vs.len() == count && n <= b.len(),
{
    if parse_rep(t, id, count, b) is Some {
        let k = lemma_pk_of_parse_rep(t, id, count, b);
        lemma_prefix_rep_k(k, t, id, count, b, b);
    }
}
/// C02, C09: a value on its own is read as the same value (so what follows it has no influence).
pub proof fn lemma_own_bytes<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures parse(t, id, compact, b) matches Some((v, n)) ==> n <= b.len() && parse(t, id, compact, b.take(n as int)) == Some((v, n)),
{
    lemma_len(t, id, compact, b);
    if let Some((v, n)) = parse(t, id, compact, b) { lemma_prefix(t, id, compact, b, b.take(n as int)); }
}
} // spec
