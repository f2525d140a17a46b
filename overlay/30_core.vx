%subst core::iter::once => crate::xcr::vx_once
%subst core::iter::empty => crate::xcr::vx_empty
%subst smallvec::SmallVec::from_iter => crate::xcr::vx_collect
%subst alloc::str::from_utf8 => crate::xcr::vx_from_utf8
%subst char::from_u32 => crate::xcr::vx_char_from_u32
%rename iter => vx_iter in *
%drop use:alloc::format
%drop use:alloc::string::ToString
%drop use:core::fmt::Display
%drop ext
%drop use:scale_decode_derive::DecodeAsType

%root
pub use crate::xcr::*;
/// What the contracts are made of.
pub mod rules {
use vstd::prelude::*;
use crate::xcr::*;
use crate::xcr::scale_type_resolver::*;
use crate::spec::*;
use crate::visitor::{Visitor, TypeIdFor, DecodeError, Unexpected, DecodeAsTypeResult};
use crate::visitor::types::{*, variant::Variant};

/// What a `DecodeError` says.
pub enum DView { IdNotFound, Resolving(Seq<char>), Compact, Str(core::str::Utf8Error), Char(u32), NoInput, NoVariant(u8), Codec, Unexpected(Unexpected) }
pub open spec fn dv(d: DecodeError) -> DView {
    match d {
        DecodeError::TypeIdNotFound(_) => DView::IdNotFound,
        DecodeError::TypeResolvingError(s) => DView::Resolving(s@),
        DecodeError::CannotDecodeCompactIntoType => DView::Compact,
        DecodeError::InvalidStr(e) => DView::Str(e),
        DecodeError::InvalidChar(c) => DView::Char(c),
        DecodeError::NotEnoughInput => DView::NoInput,
        DecodeError::VariantNotFound(i) => DView::NoVariant(i),
        DecodeError::CodecError(_) => DView::Codec,
        DecodeError::Unexpected(u) => DView::Unexpected(u),
    }
}
/// the error is what `From` makes of this decode error
pub open spec fn err_from<E: From<DecodeError>>(d: DecodeError, e: E) -> bool { call_ensures(<E as From<DecodeError>>::from, (d,), e) }
pub open spec fn e_with<E: From<DecodeError>>(e: E, v: DView) -> bool { exists|d: DecodeError| dv(d) == v && #[trigger] err_from(d, e) }
pub open spec fn e_any<E: From<DecodeError>>(e: E) -> bool { exists|d: DecodeError| #[trigger] err_from(d, e) }
pub open spec fn e_no_id<E: From<DecodeError>, Id>(e: E, id: Id) -> bool { exists|d: DecodeError| tells_id(d, id) && #[trigger] err_from(d, e) }
pub open spec fn e_unhandled<E: From<DecodeError>, Id>(e: E, kind: UnhandledKind, id: Id) -> bool { exists|d: DecodeError| tells_kind(d, kind, id) && #[trigger] err_from(d, e) }
pub open spec fn err_with<T, E: From<DecodeError>>(r: Result<T, E>, v: DView) -> bool { r matches Err(e) && e_with(e, v) }
pub open spec fn err_any<T, E: From<DecodeError>>(r: Result<T, E>) -> bool { r matches Err(e) && e_any(e) }
/// "not found", and the text is made from the ID
pub open spec fn err_no_id<T, E: From<DecodeError>, Id>(r: Result<T, E>, id: Id) -> bool { r matches Err(e) && e_no_id(e, id) }
pub open spec fn err_unhandled<T, E: From<DecodeError>, Id>(r: Result<T, E>, kind: UnhandledKind, id: Id) -> bool { r matches Err(e) && e_unhandled(e, kind, id) }
pub open spec fn tells_id<Id>(d: DecodeError, id: Id) -> bool {
    d matches DecodeError::TypeIdNotFound(s) && (exists|lit: Seq<char>| s@ == #[trigger] fmt1(lit, id))
}
pub open spec fn tells_kind<Id>(d: DecodeError, kind: UnhandledKind, id: Id) -> bool {
    d matches DecodeError::TypeIdNotFound(s) && ((exists|lit: Seq<char>| s@ == #[trigger] fmt2(lit, kind, id)) || (exists|lit: Seq<char>| s@ == #[trigger] fmt2(lit, id, kind)))
}

pub type Res<'s, 'r, V> = Result<<V as Visitor>::Value<'s, 'r>, <V as Visitor>::Error>;

/// C01, C02: a decode with a lawful visitor gives what the visitor makes of the value which the bytes start with,
/// and a success takes exactly the bytes of that value; if there is no such value then it fails.
pub open spec fn dec_ok<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    match parse(types, id, compact, b0) {
        Some((val, n)) => v.sem(val, res) && (res is Ok ==> b1 == b0.skip(n as int)),
        None => res is Err,
    }
}
/// C12: what the offer to take over leads to
pub open spec fn hook_ok<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: DecodeAsTypeResult<V, Res<'s, 'r, V>>) -> bool {
    match res {
        DecodeAsTypeResult::Decoded(r) => dec_ok(v, types, id, compact, b0, b1, r),
        DecodeAsTypeResult::Skipped(v2) => {
            &&& b1 == b0
            &&& v2.lawful()
            &&& types.desc(id) matches Some(Desc::Compact(_)) ==> forall|val: Val<TypeIdFor<V>>, r: Res<'s, 'r, V>| #[trigger] v2.sem(val, r) ==> v.sem(through_compact(val), r)
            &&& !(types.desc(id) matches Some(Desc::Compact(_))) ==> {
                &&& forall|val: Val<TypeIdFor<V>>, r: Res<'s, 'r, V>| #[trigger] v2.sem(val, r) ==> v.sem(val, r)
                &&& (parse(types, id, compact, b0) matches Some((val, _)) ==> !v2.takes(val))
            }
        }
    }
}
/// C10: how a container is left behind
pub open spec fn finish<X, T, E: From<DecodeError>>(rest: Option<(X, nat)>, ib: Seq<u8>, b0: Seq<u8>, b1: Seq<u8>, r1: Result<T, E>, res: Result<T, E>) -> bool {
    match rest {
        Some((_, n)) => b1 == ib.skip(n as int) && res == r1,
        None => b1 == b0 && (r1 is Err ==> res == r1) && (r1 is Ok ==> err_any(res)),
    }
}
/// the error for a primitive which cannot be read
pub open spec fn prim_err<T, E: From<DecodeError>>(p: Primitive, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Result<T, E>) -> bool {
    if compact && !(p is U8 || p is U16 || p is U32 || p is U64 || p is U128) { err_with(res, DView::Compact) && b1 == b0 }
    else {
        match p {
            Primitive::U256 | Primitive::I256 => err_with(res, DView::NoInput) && b1 == b0,
            Primitive::Char => match <u32 as codec::Decode>::dec(b0) { None => err_with(res, DView::Codec), Some((c, _)) => err_with(res, DView::Char(c)) },
            Primitive::Str => b1 == b0 && if cdec(b0, 4) is None { err_with(res, DView::Codec) } else { err_with(res, DView::NoInput) },
            _ => err_with(res, DView::Codec),
        }
    }
}
pub open spec fn head_comp<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, path: Seq<Seq<char>>, fs: Seq<GField<TypeIdFor<V>>>, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Composite<'s, 'r, V::TypeResolver>, c1: Composite<'s, 'r, V::TypeResolver>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_comp(c0, c1, id, r1) && c0.fresh(path, fs, types, compact, b0) && finish(c1.rest(), c1.item_bytes@, b0, b1, r1, res)
}
pub open spec fn head_tup<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, ids: Seq<TypeIdFor<V>>, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Tuple<'s, 'r, V::TypeResolver>, c1: Tuple<'s, 'r, V::TypeResolver>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_tup(c0, c1, id, r1) && c0.fresh(gunnamed(ids), types, compact, b0) && finish(c1.rest(), c1.item_bytes@, b0, b1, r1, res)
}
pub open spec fn head_seq<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, i: TypeIdFor<V>, len: nat, m: nat, id: TypeIdFor<V>, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Sequence<'s, 'r, V::TypeResolver>, c1: Sequence<'s, 'r, V::TypeResolver>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_seq(c0, c1, id, r1) && c0.bytes@ == b0 && c0.values.fresh(i, len, types, b0.skip(m as int)) && finish(c1.values.rest(), c1.values.item_bytes@, b0, b1, r1, res)
}
pub open spec fn head_arr<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, i: TypeIdFor<V>, len: nat, id: TypeIdFor<V>, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Array<'s, 'r, V::TypeResolver>, c1: Array<'s, 'r, V::TypeResolver>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_arr(c0, c1, id, r1) && c0.fresh(i, len, types, b0) && finish(c1.rest(), c1.item_bytes@, b0, b1, r1, res)
}
pub open spec fn head_var<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, x: GVariant<TypeIdFor<V>>, id: TypeIdFor<V>, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Variant<'s, 'r, V::TypeResolver>, c1: Variant<'s, 'r, V::TypeResolver>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_var(c0, c1, id, r1) && c0.fresh(x, types, b0) && finish(c1.fields.rest(), c1.fields.item_bytes@, b0, b1, r1, res)
}
pub open spec fn head_str<'s, 'r, V: Visitor>(v: V, id: TypeIdFor<V>, b0: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: Str<'s>, c1: Str<'s>| #[trigger] v.saw_str::<'s, 'r>(c0, c1, id, res) && c0.bytes@ == b0 && c0.wf()
}
pub open spec fn head_bits<'s, 'r, V: Visitor>(v: V, f: scale_bits::Format, id: TypeIdFor<V>, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|c0: BitSequence<'s>, c1: BitSequence<'s>, r1: Res<'s, 'r, V>|
        #[trigger] v.saw_bits(c0, c1, id, r1) && c0.bytes@ == b0 && c0.format == f && finish(bits_leaf::<TypeIdFor<V>>(f, b0), b0, b0, b1, r1, res)
}
/// C04 - C08, C10, C24: what is made of the description of a type which is not compact, for every visitor.
pub open spec fn head0<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, d: Desc<TypeIdFor<V>>, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    match d {
        Desc::NotFound => b1 == b0 && err_no_id(res, id),
        Desc::Unhandled(u) => b1 == b0 && err_unhandled(res, u, id),
        Desc::Compact(i) => false,
        Desc::Prim(p) => match leaf::<TypeIdFor<V>>(p, compact, b0) {
            Some((kind, n)) => b1 == b0.skip(n as int) && if p is Str { head_str(v, id, b0, res) } else { v.saw_leaf(kind, id, res) },
            None => prim_err(p, compact, b0, b1, res),
        },
        Desc::Bits(s, o) => if compact { b1 == b0 && err_with(res, DView::Compact) } else { head_bits(v, scale_bits::Format { store: s, order: o }, id, b0, b1, res) },
        Desc::Composite(path, fs) => if compact && fs.len() != 1 { b1 == b0 && err_with(res, DView::Compact) } else { head_comp(v, types, path, fs, id, compact, b0, b1, res) },
        Desc::Tuple(ids) => if compact && ids.len() != 1 { b1 == b0 && err_with(res, DView::Compact) } else { head_tup(v, types, ids, id, compact, b0, b1, res) },
        Desc::Sequence(i) => if compact { b1 == b0 && err_with(res, DView::Compact) } else {
            match cdec(b0, 8) { None => b1 == b0 && err_with(res, DView::Codec), Some((l, m)) => head_seq(v, types, i, l, m, id, b0, b1, res) } },
        Desc::Array(i, l) => if compact { b1 == b0 && err_with(res, DView::Compact) } else { head_arr(v, types, i, l as nat, id, b0, b1, res) },
        Desc::Variant(vars) => if compact { b1 == b0 && err_with(res, DView::Compact) } else if b0.len() < 1 { b1 == b0 && err_with(res, DView::NoInput) } else {
            match find_variant(vars, b0[0]) { None => b1 == b0 && err_with(res, DView::NoVariant(b0[0])), Some(x) => head_var(v, types, x, id, b0, b1, res) } },
    }
}
/// The same for all descriptions; a compact type is its inner type, in a compact context.
pub open spec fn head<'s, 'r, V: Visitor>(k: nat, v: V, types: &V::TypeResolver, d: Desc<TypeIdFor<V>>, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool
    decreases k, 1nat
{
    match d {
        Desc::Compact(i) => rel(k, v, types, i, true, b0, b1, res),
        _ => head0(v, types, d, id, compact, b0, b1, res),
    }
}
/// C12, C24: the visitor is asked first, then the type is resolved.
pub open spec fn rel<'s, 'r, V: Visitor>(k: nat, v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool
    decreases k, 0nat
{
    k > 0 && exists|hr: DecodeAsTypeResult<V, Res<'s, 'r, V>>, bm: Seq<u8>| #[trigger] v.asked(bm, b0, id, types, compact, hr) && match hr {
        DecodeAsTypeResult::Decoded(r) => res == r && b1 == bm,
        DecodeAsTypeResult::Skipped(v2) => match types.desc(id) {
            None => b1 == bm && err_with(res, DView::Resolving(types.rerr(id).text())),
            Some(d) => head((k - 1) as nat, v2, types, d, id, compact, bm, b1, res),
        },
    }
}
pub open spec fn relx<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    exists|k: nat| #[trigger] rel(k, v, types, id, compact, b0, b1, res)
}
pub open spec fn headx<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, d: Desc<TypeIdFor<V>>, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    match d {
        Desc::Compact(i) => relx(v, types, i, true, b0, b1, res),
        _ => head0(v, types, d, id, compact, b0, b1, res),
    }
}
pub open spec fn after_asking<'s, 'r, V: Visitor>(types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, bm: Seq<u8>, hr: DecodeAsTypeResult<V, Res<'s, 'r, V>>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    match hr {
        DecodeAsTypeResult::Decoded(r) => res == r && b1 == bm,
        DecodeAsTypeResult::Skipped(v2) => match types.desc(id) {
            None => b1 == bm && err_with(res, DView::Resolving(types.rerr(id).text())),
            Some(d) => headx(v2, types, d, id, compact, bm, b1, res),
        },
    }
}
pub proof fn lemma_rel<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>)
    ensures
        forall|hr: DecodeAsTypeResult<V, Res<'s, 'r, V>>, bm: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>|
            #[trigger] v.asked(bm, b0, id, types, compact, hr) && after_asking::<V>(types, id, compact, bm, hr, b1, res) ==> #[trigger] relx(v, types, id, compact, b0, b1, res),
{
    assert forall|hr: DecodeAsTypeResult<V, Res<'s, 'r, V>>, bm: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>|
        #[trigger] v.asked(bm, b0, id, types, compact, hr) && after_asking::<V>(types, id, compact, bm, hr, b1, res) implies #[trigger] relx(v, types, id, compact, b0, b1, res) by {
        let k: nat = match hr {
            DecodeAsTypeResult::Skipped(v2) => match types.desc(id) {
                Some(Desc::Compact(i)) => choose|k: nat| #[trigger] rel(k, v2, types, i, true, bm, b1, res),
                _ => 0 },
            _ => 0 };
        assert(rel((k + 1) as nat, v, types, id, compact, b0, b1, res));
    }
}
/// Everything that is promised about decoding a value of a type.
pub open spec fn dec_post<'s, 'r, V: Visitor>(v: V, types: &V::TypeResolver, id: TypeIdFor<V>, compact: bool, b0: Seq<u8>, b1: Seq<u8>, res: Res<'s, 'r, V>) -> bool {
    &&& relx(v, types, id, compact, b0, b1, res)
    &&& v.lawful() ==> dec_ok(v, types, id, compact, b0, b1, res)
}
/// `k` items were taken off the front
pub open spec fn adv_items<X>(b0: Seq<u8>, b1: Seq<u8>, r0: Option<(Seq<X>, nat)>, r1: Option<(Seq<X>, nat)>, k: int) -> bool {
    &&& b1.len() <= b0.len() && b1 == b0.skip(b0.len() - b1.len())
    &&& match r1 {
        None => r0 is None,
        Some((vb, nb)) => r0 matches Some((va, na)) && 0 <= k <= va.len() && vb == va.skip(k) && na == nb + b0.len() - b1.len(),
    }
}
pub proof fn lemma_adv_items<X>(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, r0: Option<(Seq<X>, nat)>, r1: Option<(Seq<X>, nat)>, r2: Option<(Seq<X>, nat)>, k: int, l: int)
    requires adv_items(b0, b1, r0, r1, k), adv_items(b1, b2, r1, r2, l), 0 <= k, 0 <= l,
    ensures adv_items(b0, b2, r0, r2, k + l),
{
    let m = b0.len() - b1.len(); let n = b1.len() - b2.len();
    assert(b0.skip(m).skip(n) =~= b0.skip(m + n));
    if let Some((v2, _)) = r2 { let v1 = r1.unwrap().0; let v0 = r0.unwrap().0; assert(v0.skip(k).skip(l) =~= v0.skip(k + l)); }
}
pub broadcast proof fn seen_from<E: From<DecodeError>>(d: DecodeError, e: E)
    requires #[trigger] call_ensures(<E as From<DecodeError>>::from, (d,), e),
    ensures err_from::<E>(d, e),
{ }
pub broadcast proof fn skip_skip<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= m, 0 <= n, m + n <= s.len(),
    ensures #[trigger] s.skip(m).skip(n) == s.skip(m + n),
{ assert(s.skip(m).skip(n) =~= s.skip(m + n)); }
pub broadcast proof fn skip_take<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= m, 0 <= n, m + n <= s.len(),
    ensures #[trigger] s.skip(m).take(n) == s.subrange(m, m + n),
{ assert(s.skip(m).take(n) =~= s.subrange(m, m + n)); }
pub broadcast proof fn skip_sub<A>(s: Seq<A>, m: int, a: int, b: int)
    requires 0 <= m, 0 <= a <= b, m + b <= s.len(),
    ensures #[trigger] s.skip(m).subrange(a, b) == s.subrange(m + a, m + b),
{ assert(s.skip(m).subrange(a, b) =~= s.subrange(m + a, m + b)); }
pub broadcast proof fn sub_skip<A>(s: Seq<A>, m: int, a: int, b: int)
    requires 0 <= a <= b <= s.len(), 0 <= m <= b - a,
    ensures #[trigger] s.subrange(a, b).skip(m) == s.subrange(a + m, b),
{ assert(s.subrange(a, b).skip(m) =~= s.subrange(a + m, b)); }
pub broadcast proof fn sub_all<A>(s: Seq<A>, a: int)
    requires 0 <= a <= s.len(),
    ensures #[trigger] s.subrange(a, s.len() as int) == s.skip(a),
{ assert(s.subrange(a, s.len() as int) =~= s.skip(a)); }
pub broadcast proof fn len_parse<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures #[trigger] parse(t, id, compact, b) matches Some((_, n)) ==> n <= b.len(),
{ lemma_len(t, id, compact, b); }
pub broadcast proof fn len_fields<R: TypeResolver>(t: &R, fs: Seq<GField<R::TypeId>>, compact: bool, b: Seq<u8>)
    ensures #[trigger] parse_fields(t, fs, compact, b) matches Some((vs, n)) ==> vs.len() == fs.len() && n <= b.len(),
{ lemma_len_fields(t, fs, compact, b); }
pub broadcast proof fn len_rep<R: TypeResolver>(t: &R, id: R::TypeId, count: nat, b: Seq<u8>)
    ensures #[trigger] parse_rep(t, id, count, b) matches Some((vs, n)) ==> vs.len() == count && n <= b.len(),
{ lemma_len_rep(t, id, count, b); }
pub broadcast proof fn skip_zero<A>(s: Seq<A>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn path_one<'r>(s: &'r str) ensures #[trigger] gpath(seq![s]) == seq![s@] { assert(gpath(seq![s]) =~= seq![s@]); }
pub broadcast proof fn fields_unnamed<'r, Id>(a: Seq<Field<'r, Id>>, ids: Seq<Id>)
    requires a.len() == ids.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name is None && a[i].id == ids[i],
    ensures #![trigger gfields(a), gunnamed(ids)] gfields(a) == gunnamed(ids)
{ assert(gfields(a) =~= gunnamed(ids)); }
pub broadcast proof fn fields_mapped<'r, Id, F: FnMut(Id) -> Field<'r, Id>>(s: Seq<Id>, f: F, a: Seq<Field<'r, Id>>)
    requires #[trigger] map_ok(s, f, a), forall|x: Id, y: Field<'r, Id>| #[trigger] call_ensures(f, (x,), y) ==> y == (Field { name: None, id: x }),
    ensures gfields(a) == gunnamed(s)
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).name is None && a[i].id == s[i] by { assert(call_ensures(f, (s[i],), a[i])); }
    assert(gfields(a) =~= gunnamed(s));
}
pub broadcast proof fn fields_tail<'r, Id>(a: Seq<Field<'r, Id>>, b: Seq<Field<'r, Id>>, n: int)
    requires 0 <= n, a.len() + n == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name == b[n + i].name && a[i].id == b[n + i].id,
    ensures #![trigger gfields(a), gfields(b).skip(n)] gfields(a) == gfields(b).skip(n)
{ assert(gfields(a) =~= gfields(b).skip(n)); }
pub broadcast group all { skip_zero, len_parse, len_fields, len_rep, skip_skip, skip_take, skip_sub, sub_skip, sub_all, seen_from, refl_composite, refl_tuple, refl_array, opens, path_one, fields_unnamed, fields_mapped, fields_tail, views_push, views_none }
pub broadcast proof fn views_push<'a>(v: Seq<&'a str>, x: &'a str)
    ensures #[trigger] str_views(v.push(x)) == str_views(v).push(x@),
{ assert(str_views(v.push(x)) =~= str_views(v).push(x@)); }
pub broadcast proof fn views_none<'a>()
    ensures #[trigger] str_views(Seq::<&'a str>::empty()) == Seq::<Seq<char>>::empty(),
{ assert(str_views(Seq::<&'a str>::empty()) =~= Seq::<Seq<char>>::empty()); }
pub broadcast group strs { views_push, views_none }
pub broadcast proof fn open_adv_composite<'s, 'r, R: TypeResolver>(a: Composite<'s, 'r, R>, n: Composite<'s, 'r, R>)
    ensures #[trigger] a.adv(&n) == (a.same(&n) && a.next_field_idx <= n.next_field_idx && n.inv() && adv_items(a.item_bytes@, n.item_bytes@, a.rest(), n.rest(), n.next_field_idx - a.next_field_idx))
{ reveal(Composite::adv); }
pub broadcast proof fn open_rest_composite<'s, 'r, R: TypeResolver>(a: Composite<'s, 'r, R>)
    ensures #[trigger] a.rest() == parse_fields(a.types, a.gf(), a.is_compact, a.item_bytes@)
{ reveal(Composite::rest); }
pub broadcast proof fn open_adv_tuple<'s, 'r, R: TypeResolver>(a: Tuple<'s, 'r, R>, n: Tuple<'s, 'r, R>)
    ensures #[trigger] a.adv(&n) == (a.same(&n) && a.next_field_idx <= n.next_field_idx && n.inv() && adv_items(a.item_bytes@, n.item_bytes@, a.rest(), n.rest(), n.next_field_idx - a.next_field_idx))
{ reveal(Tuple::adv); }
pub broadcast proof fn open_rest_tuple<'s, 'r, R: TypeResolver>(a: Tuple<'s, 'r, R>)
    ensures #[trigger] a.rest() == parse_fields(a.types, a.gf(), a.is_compact, a.item_bytes@)
{ reveal(Tuple::rest); }
pub broadcast proof fn open_took_composite<'s, 'r, 's2, 'r2, R: TypeResolver, V: Visitor<TypeResolver = R>>(a: Composite<'s, 'r, R>, v: V, n: Composite<'s, 'r, R>, res: Option<Result<V::Value<'s2, 'r2>, V::Error>>)
    ensures #[trigger] a.took(v, &n, res) == a.took_is(v, &n, res)
{ reveal(Composite::took); }
pub broadcast proof fn open_took_tuple<'s, 'r, 's2, 'r2, R: TypeResolver, V: Visitor<TypeResolver = R>>(a: Tuple<'s, 'r, R>, v: V, n: Tuple<'s, 'r, R>, res: Option<Result<V::Value<'s2, 'r2>, V::Error>>)
    ensures #[trigger] a.took(v, &n, res) == a.took_is(v, &n, res)
{ reveal(Tuple::took); }
/// for walking along a list of targets, with steps and rests closed
pub broadcast group walk { seen_from }
pub broadcast group opens { open_adv_composite, open_rest_composite, open_took_composite, open_adv_tuple, open_rest_tuple, open_took_tuple }
pub broadcast proof fn refl_composite<'s, 'r, R: TypeResolver>(a: Composite<'s, 'r, R>) requires a.inv() ensures #[trigger] a.adv(&a) { broadcast use opens; lemma_adv0(a.item_bytes@, a.rest()); }
pub broadcast proof fn refl_tuple<'s, 'r, R: TypeResolver>(a: Tuple<'s, 'r, R>) requires a.inv() ensures #[trigger] a.adv(&a) { broadcast use opens; lemma_adv0(a.item_bytes@, a.rest()); }
pub broadcast proof fn refl_array<'s, 'r, R: TypeResolver>(a: Array<'s, 'r, R>) ensures #[trigger] a.adv(&a) { lemma_adv0(a.item_bytes@, a.rest()); }
pub proof fn lemma_adv0<X>(b: Seq<u8>, r: Option<(Seq<X>, nat)>)
    ensures adv_items(b, b, r, r, 0),
{
    assert(b.skip(0) =~= b);
    if let Some((v, _)) = r { assert(v.skip(0) =~= v); }
}
} // rules

%mod visitor
impl vstd::std_specs::convert::FromSpecImpl<Unexpected> for DecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Unexpected) -> DecodeError { DecodeError::Unexpected(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<codec::Error> for DecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: codec::Error) -> DecodeError { DecodeError::CodecError(e) }
}
%fn visitor::<DecodeError as From>#2::from [twin]
%params e
%spec
    ensures res == DecodeError::CodecError(e)
%fn visitor::<DecodeError as From>::from [twin]
%params e
%spec
    ensures res == DecodeError::Unexpected(e)

%trait visitor::Visitor
    /// Follows the rules: success only after looking at items which are there, errors of items are passed on,
    /// taking over decodes the type it was asked for. `lawful` visitors are the ones of this crate and all that
    /// follow the contracts below.
    spec fn lawful(self) -> bool;
    spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool;
    spec fn plain_hook(self) -> bool;
    spec fn whole(self) -> bool;
    spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool;
    spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
    spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool;
%fn visitor::Visitor::unchecked_decode_as_type
%params input type_id types
%spec
    ensures
        self.plain_hook() ==> res == DecodeAsTypeResult::<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>>::Skipped(self) && (*final(input))@ == (*old(input))@,
        self.lawful() ==> match res {
            DecodeAsTypeResult::Decoded(r) => match crate::spec::parse(types, type_id, false, (*old(input))@) {
                Some((val, n)) => self.sem(val, r) && (r is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
                None => r is Err,
            },
            DecodeAsTypeResult::Skipped(v2) => {
                &&& (*final(input))@ == (*old(input))@
                &&& v2.lawful()
                &&& types.desc(type_id) matches Some(crate::xcr::Desc::Compact(_)) ==> forall|val: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'scale, 'resolver>, Self::Error>| #[trigger] v2.sem(val, r) ==> self.sem(crate::spec::through_compact(val), r)
                &&& !(types.desc(type_id) matches Some(crate::xcr::Desc::Compact(_))) ==> {
                    &&& forall|val: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'scale, 'resolver>, Self::Error>| #[trigger] v2.sem(val, r) ==> self.sem(val, r)
                    &&& (crate::spec::parse(types, type_id, false, (*old(input))@) matches Some((val, _)) ==> !v2.takes(val))
                }
            },
        },
%fn visitor::Visitor::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%spec
    ensures
        self.asked((*final(input))@, (*old(input))@, type_id, types, is_compact, res),
        self.lawful() ==> match res {
            DecodeAsTypeResult::Decoded(r) => match crate::spec::parse(types, type_id, is_compact, (*old(input))@) {
                Some((val, n)) => self.sem(val, r) && (r is Ok ==> (*final(input))@ == (*old(input))@.skip(n as int)),
                None => r is Err,
            },
            DecodeAsTypeResult::Skipped(v2) => {
                &&& (*final(input))@ == (*old(input))@
                &&& v2.lawful()
                &&& types.desc(type_id) matches Some(crate::xcr::Desc::Compact(_)) ==> forall|val: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'scale, 'resolver>, Self::Error>| #[trigger] v2.sem(val, r) ==> self.sem(crate::spec::through_compact(val), r)
                &&& !(types.desc(type_id) matches Some(crate::xcr::Desc::Compact(_))) ==> {
                    &&& forall|val: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'scale, 'resolver>, Self::Error>| #[trigger] v2.sem(val, r) ==> self.sem(val, r)
                    &&& (crate::spec::parse(types, type_id, is_compact, (*old(input))@) matches Some((val, _)) ==> !v2.takes(val))
                }
            },
        },
%fn visitor::Visitor::visit_unexpected
%params unexpected
%spec
    ensures self.unexpected(unexpected, res)

%fn visitor::Visitor::visit_bool
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::Bool(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::Bool(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::Bool(value), c: false }, res),
%fn visitor::Visitor::visit_char
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::Char(value as u32), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::Char(value as u32), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::Char(value as u32), c: false }, res),
%fn visitor::Visitor::visit_u8
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U8(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U8(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U8(value), c: false }, res),
%fn visitor::Visitor::visit_u16
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U16(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U16(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U16(value), c: false }, res),
%fn visitor::Visitor::visit_u32
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U32(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U32(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U32(value), c: false }, res),
%fn visitor::Visitor::visit_u64
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U64(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U64(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U64(value), c: false }, res),
%fn visitor::Visitor::visit_u128
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U128(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U128(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U128(value), c: false }, res),
%fn visitor::Visitor::visit_i8
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I8(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I8(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I8(value), c: false }, res),
%fn visitor::Visitor::visit_i16
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I16(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I16(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I16(value), c: false }, res),
%fn visitor::Visitor::visit_i32
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I32(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I32(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I32(value), c: false }, res),
%fn visitor::Visitor::visit_i64
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I64(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I64(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I64(value), c: false }, res),
%fn visitor::Visitor::visit_i128
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I128(value), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I128(value), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I128(value), c: false }, res),
%fn visitor::Visitor::visit_u256
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::U256(value@), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::U256(value@), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::U256(value@), c: false }, res),
%fn visitor::Visitor::visit_i256
%params value type_id
%spec
    ensures
        self.saw_leaf(crate::spec::Kind::I256(value@), type_id, res),
        self.lawful() && !self.takes(crate::spec::Val { id: type_id, k: crate::spec::Kind::I256(value@), c: false }) ==> self.sem(crate::spec::Val { id: type_id, k: crate::spec::Kind::I256(value@), c: false }, res),
%fn visitor::Visitor::visit_composite
%params value type_id
%spec
    requires old(value).inv()
    ensures
        final(value).inv(),
        self.saw_comp(*old(value), *final(value), type_id, res),
        self.lawful() && (self.whole() ==> old(value).next_field_idx == 0) ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
        self.lawful() && res is Ok ==> old(value).adv(final(value)),
%fn visitor::Visitor::visit_tuple
%params value type_id
%spec
    requires old(value).inv()
    ensures
        final(value).inv(),
        self.saw_tup(*old(value), *final(value), type_id, res),
        self.lawful() ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
        self.lawful() && res is Ok ==> old(value).adv(final(value)),
%fn visitor::Visitor::visit_sequence
%params value type_id
%spec
    requires old(value).inv()
    ensures
        final(value).inv(),
        self.saw_seq(*old(value), *final(value), type_id, res),
        self.lawful() ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
        self.lawful() && res is Ok ==> old(value).adv(final(value)),
%fn visitor::Visitor::visit_array
%params value type_id
%spec
    requires old(value).inv()
    ensures
        final(value).inv(),
        self.saw_arr(*old(value), *final(value), type_id, res),
        self.lawful() ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
        self.lawful() && res is Ok ==> old(value).adv(final(value)),
%fn visitor::Visitor::visit_variant
%params value type_id
%spec
    requires old(value).inv()
    ensures
        final(value).inv(),
        self.saw_var(*old(value), *final(value), type_id, res),
        self.lawful() && (self.whole() ==> old(value).fields.next_field_idx == 0) ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
        self.lawful() && res is Ok ==> old(value).adv(final(value)),
%fn visitor::Visitor::visit_str
%params value type_id
%spec
    requires old(value).wf()
    ensures
        self.saw_str(*old(value), *final(value), type_id, res),
        self.lawful() ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),
%fn visitor::Visitor::visit_bitsequence
%params value type_id
%spec
    requires old(value).wf()
    ensures
        final(value).wf(), final(value).bytes == old(value).bytes, final(value).format == old(value).format,
        self.saw_bits(*old(value), *final(value), type_id, res),
        self.lawful() ==> (old(value).val(type_id) matches Some(v) ==> !self.takes(v) ==> self.sem(v, res)),

%impl visitor::types::composite::Composite<R>
    pub proof fn lemma_names(o: Self)
        requires o.inv()
        ensures forall|a: Self| #[trigger] o.adv(&a) && a.gf().len() > 0 ==> crate::spec::names(o.gf())[a.next_field_idx - o.next_field_idx] == a.gf()[0].name
    { broadcast use crate::rules::opens; }
    pub open spec fn fresh(&self, path: Seq<Seq<char>>, fs: Seq<crate::xcr::GField<$R::TypeId>>, types: &$R, compact: bool, b: Seq<u8>) -> bool {
        self.bytes@ == b && self.item_bytes@ == b && crate::xcr::gpath(self.path@) == path && crate::xcr::gfields(self.fields@) == fs && self.types == types && self.is_compact == compact && self.next_field_idx == 0
    }
    /// the fields which are still to be decoded
    pub open spec fn gf(&self) -> Seq<crate::xcr::GField<$R::TypeId>> { crate::xcr::gfields(self.fields@).skip(self.next_field_idx as int) }
    pub open spec fn inv(&self) -> bool { self.next_field_idx <= self.fields@.len() }
    #[verifier::opaque]
    pub open spec fn rest(&self) -> Option<(Seq<crate::spec::Val<$R::TypeId>>, nat)> { crate::spec::parse_fields(self.types, self.gf(), self.is_compact, self.item_bytes@) }
    pub open spec fn val(&self, id: $R::TypeId) -> Option<crate::spec::Val<$R::TypeId>> { match self.rest() { Some((vs, _)) => Some(crate::spec::Val { id, k: crate::spec::Kind::Comp(crate::spec::names(self.gf()), vs), c: false }), None => None } }
    pub open spec fn same(&self, o: &Self) -> bool { self.bytes == o.bytes && self.fields == o.fields && self.types == o.types && self.is_compact == o.is_compact && self.path == o.path }
    /// what a decode which keeps to the rules does to it
    #[verifier::opaque]
    pub open spec fn adv(&self, n: &Self) -> bool {
        &&& self.same(n) && self.next_field_idx <= n.next_field_idx && n.inv()
        &&& crate::rules::adv_items(self.item_bytes@, n.item_bytes@, self.rest(), n.rest(), n.next_field_idx - self.next_field_idx)
    }
    pub proof fn lemma_step(o: Self, n: Self, k: nat)
        requires o.inv(), o.next_field_idx < o.fields@.len(), o.same(&n), n.next_field_idx == o.next_field_idx + 1,
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((_, m)) && m == k,
            n.item_bytes@ == o.item_bytes@.skip(k as int),
        ensures o.adv(&n), n.rest() is None ==> o.rest() is None,
            o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@).unwrap().0,
    { broadcast use crate::rules::opens;
        let f = o.gf();
        assert(f[0] == crate::xcr::gfield(o.fields@[o.next_field_idx as int]));
        assert(f.skip(1) =~= n.gf());
        crate::spec::lemma_len(o.types, f[0].id, o.is_compact, o.item_bytes@);
        if let Some((vs, nn)) = n.rest() {
            let v = crate::spec::parse(o.types, f[0].id, o.is_compact, o.item_bytes@).unwrap().0;
            assert((seq![v] + vs).skip(1) =~= vs);
        }
    }
    pub proof fn lemma_trans(a: Self, b: Self, c: Self)
        requires a.adv(&b), b.adv(&c),
        ensures a.adv(&c),
    { broadcast use crate::rules::opens;
        crate::rules::lemma_adv_items(a.item_bytes@, b.item_bytes@, c.item_bytes@, a.rest(), b.rest(), c.rest(), b.next_field_idx - a.next_field_idx, c.next_field_idx - b.next_field_idx);
    }
    pub proof fn lemma_refl(a: Self)
        requires a.inv(),
        ensures a.adv(&a),
    { broadcast use crate::rules::opens;
        crate::rules::lemma_adv0(a.item_bytes@, a.rest());
    }
    /// the first of the values
    pub proof fn lemma_first(o: Self)
        requires o.inv(), o.next_field_idx < o.fields@.len(),
        ensures
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) is None ==> o.rest() is None,
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((v, _)) ==> (o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == v),
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((_, m)) ==>
                m <= o.item_bytes@.len() && forall|n: Self| o.same(&n) && n.next_field_idx == o.next_field_idx + 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) ==> #[trigger] o.adv(&n),
    { broadcast use crate::rules::opens;
        let f = o.gf();
        assert(f[0] == crate::xcr::gfield(o.fields@[o.next_field_idx as int]));
        crate::spec::lemma_len(o.types, f[0].id, o.is_compact, o.item_bytes@);
        if let Some((_, m)) = crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) {
            assert forall|n: Self| o.same(&n) && n.next_field_idx == o.next_field_idx + 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) implies #[trigger] o.adv(&n) by { Self::lemma_step(o, n, m); }
        }
    }
    /// steps add up, and at the end nothing is left
    pub proof fn lemma_walk(o: Self)
        ensures
            forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) ==> o.adv(&b),
            forall|a: Self| #[trigger] o.adv(&a) && a.next_field_idx == a.fields@.len() ==> a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@,
    { broadcast use crate::rules::opens;
        assert forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) implies o.adv(&b) by { Self::lemma_trans(o, a, b); }
        assert forall|a: Self| #[trigger] o.adv(&a) && a.next_field_idx == a.fields@.len() implies a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@ by { Self::lemma_end(a); }
    }
    /// what decoding the next of the values does
    #[verifier::opaque]
    pub open spec fn took<'s, 'r, V: Visitor<TypeResolver = $R>>(&self, v: V, n: &Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>) -> bool { self.took_is(v, n, res) }
    pub open spec fn took_is<'s, 'r, V: Visitor<TypeResolver = $R>>(&self, v: V, n: &Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>) -> bool {
        &&& n.inv() && self.same(n)
        &&& self.next_field_idx == self.fields@.len() ==> res is None && *n == *self
        &&& self.next_field_idx < self.fields@.len() ==> {
            &&& res is Some
            &&& exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(v, self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@, b1, res.unwrap())
                && (res.unwrap() is Ok ==> n.item_bytes@ == b1)
            &&& res.unwrap() is Ok ==> n.next_field_idx == self.next_field_idx + 1
            &&& res.unwrap() is Err ==> n.next_field_idx == self.fields@.len() && n.item_bytes == self.item_bytes
            &&& v.lawful() ==> match crate::spec::parse(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@) {
                Some((x, m)) => v.sem(x, res.unwrap()) && (res.unwrap() is Ok ==> n.item_bytes@ == self.item_bytes@.skip(m as int) && self.adv(n)
                    && (self.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == x)),
                None => res.unwrap() is Err && self.rest() is None,
            }
        }
    }
    /// as little of it as a list of targets needs
    pub broadcast proof fn lemma_took<'s, 'r, V: Visitor<TypeResolver = $R>>(a: Self, v: V, n: Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>)
        requires #[trigger] a.took(v, &n, res), a.inv(), v.lawful(),
        ensures
            n.inv(), a.same(&n), a.next_field_idx == a.fields@.len() <==> res is None,
            res matches Some(x) ==> (a.rest() matches Some((vs, _)) ==> vs.len() > 0 && v.sem(vs[0], x)) && (x is Ok ==> a.adv(&n) && n.next_field_idx == a.next_field_idx + 1),
    { broadcast use crate::rules::opens; }
    pub proof fn lemma_steps(o: Self)
        requires o.inv()
        ensures
            o.adv(&o), o.gf().len() == o.fields@.len() - o.next_field_idx,
            o.rest() matches Some((vs, _)) ==> vs.len() == o.gf().len(),
            forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) ==> o.adv(&b),
            forall|a: Self| #[trigger] o.adv(&a) ==> a.inv() && o.same(&a) && (o.rest() matches Some((vs, _)) ==> (a.rest() matches Some((ws, _)) && (ws.len() > 0 ==> a.next_field_idx < o.fields@.len() && ws[0] == vs[a.next_field_idx - o.next_field_idx]))),
    { broadcast use crate::rules::opens;
        Self::lemma_refl(o); Self::lemma_walk(o);
        crate::spec::lemma_len_fields(o.types, o.gf(), o.is_compact, o.item_bytes@);
        assert forall|a: Self| #[trigger] o.adv(&a) implies a.inv() && o.same(&a) && (o.rest() matches Some((vs, _)) ==> (a.rest() matches Some((ws, _)) && (ws.len() > 0 ==> a.next_field_idx < o.fields@.len() && ws[0] == vs[a.next_field_idx - o.next_field_idx]))) by {
            crate::spec::lemma_len_fields(a.types, a.gf(), a.is_compact, a.item_bytes@);
        }
    }
    /// nothing is left: there is nothing to read
    pub proof fn lemma_end(a: Self)
        requires a.inv(), a.next_field_idx == a.fields@.len(),
        ensures a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)), a.item_bytes@.skip(0) == a.item_bytes@,
    { broadcast use crate::rules::opens;
        assert(a.gf().len() == 0);
        assert(a.item_bytes@.skip(0) =~= a.item_bytes@);
    }

%fn visitor::types::composite::Composite<R>::skip_decoding
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).same(final(self)),
        match old(self).rest() {
            Some((_, n)) => res is Ok && final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).next_field_idx == final(self).fields@.len(),
            None => res is Err,
        },
%pre
    let ghost me = *self;
    proof { Self::lemma_refl(me); Self::lemma_walk(me); }
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant self.inv(), me.adv(self),

%fn visitor::types::composite::Composite<R>::decode_item
%params visitor
%spec
    requires old(self).inv()
    ensures
        old(self).took(visitor, final(self), res),
%pre
    proof { assert(self.fields.len() == self.fields@.len()); if self.next_field_idx < self.fields@.len() { Self::lemma_first(*self); } }

%fn visitor::types::composite::Composite<R>::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::composite::Composite<R>::bytes_from_undecoded
%spec
    ensures res@ == self.item_bytes@
%fn visitor::types::composite::Composite<R>::remaining
%spec
    requires self.inv()
    ensures res == self.gf().len()

%impl visitor::types::tuple::Tuple<R>
    pub open spec fn fresh(&self, fs: Seq<crate::xcr::GField<$R::TypeId>>, types: &$R, compact: bool, b: Seq<u8>) -> bool {
        self.bytes@ == b && self.item_bytes@ == b && crate::xcr::gfields(self.fields@) == fs && self.types == types && self.is_compact == compact && self.next_field_idx == 0
    }
    /// the fields which are still to be decoded
    pub open spec fn gf(&self) -> Seq<crate::xcr::GField<$R::TypeId>> { crate::xcr::gfields(self.fields@).skip(self.next_field_idx as int) }
    pub open spec fn inv(&self) -> bool { self.next_field_idx <= self.fields@.len() }
    #[verifier::opaque]
    pub open spec fn rest(&self) -> Option<(Seq<crate::spec::Val<$R::TypeId>>, nat)> { crate::spec::parse_fields(self.types, self.gf(), self.is_compact, self.item_bytes@) }
    pub open spec fn val(&self, id: $R::TypeId) -> Option<crate::spec::Val<$R::TypeId>> { match self.rest() { Some((vs, _)) => Some(crate::spec::Val { id, k: crate::spec::Kind::Tup(vs), c: false }), None => None } }
    pub open spec fn same(&self, o: &Self) -> bool { self.bytes == o.bytes && self.fields == o.fields && self.types == o.types && self.is_compact == o.is_compact }
    /// what a decode which keeps to the rules does to it
    #[verifier::opaque]
    pub open spec fn adv(&self, n: &Self) -> bool {
        &&& self.same(n) && self.next_field_idx <= n.next_field_idx && n.inv()
        &&& crate::rules::adv_items(self.item_bytes@, n.item_bytes@, self.rest(), n.rest(), n.next_field_idx - self.next_field_idx)
    }
    pub proof fn lemma_step(o: Self, n: Self, k: nat)
        requires o.inv(), o.next_field_idx < o.fields@.len(), o.same(&n), n.next_field_idx == o.next_field_idx + 1,
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((_, m)) && m == k,
            n.item_bytes@ == o.item_bytes@.skip(k as int),
        ensures o.adv(&n), n.rest() is None ==> o.rest() is None,
            o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@).unwrap().0,
    { broadcast use crate::rules::opens;
        let f = o.gf();
        assert(f[0] == crate::xcr::gfield(o.fields@[o.next_field_idx as int]));
        assert(f.skip(1) =~= n.gf());
        crate::spec::lemma_len(o.types, f[0].id, o.is_compact, o.item_bytes@);
        if let Some((vs, nn)) = n.rest() {
            let v = crate::spec::parse(o.types, f[0].id, o.is_compact, o.item_bytes@).unwrap().0;
            assert((seq![v] + vs).skip(1) =~= vs);
        }
    }
    pub proof fn lemma_trans(a: Self, b: Self, c: Self)
        requires a.adv(&b), b.adv(&c),
        ensures a.adv(&c),
    { broadcast use crate::rules::opens;
        crate::rules::lemma_adv_items(a.item_bytes@, b.item_bytes@, c.item_bytes@, a.rest(), b.rest(), c.rest(), b.next_field_idx - a.next_field_idx, c.next_field_idx - b.next_field_idx);
    }
    pub proof fn lemma_refl(a: Self)
        requires a.inv(),
        ensures a.adv(&a),
    { broadcast use crate::rules::opens;
        crate::rules::lemma_adv0(a.item_bytes@, a.rest());
    }
    /// the first of the values
    pub proof fn lemma_first(o: Self)
        requires o.inv(), o.next_field_idx < o.fields@.len(),
        ensures
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) is None ==> o.rest() is None,
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((v, _)) ==> (o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == v),
            crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) matches Some((_, m)) ==>
                m <= o.item_bytes@.len() && forall|n: Self| o.same(&n) && n.next_field_idx == o.next_field_idx + 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) ==> #[trigger] o.adv(&n),
    { broadcast use crate::rules::opens;
        let f = o.gf();
        assert(f[0] == crate::xcr::gfield(o.fields@[o.next_field_idx as int]));
        crate::spec::lemma_len(o.types, f[0].id, o.is_compact, o.item_bytes@);
        if let Some((_, m)) = crate::spec::parse(o.types, o.fields@[o.next_field_idx as int].id, o.is_compact, o.item_bytes@) {
            assert forall|n: Self| o.same(&n) && n.next_field_idx == o.next_field_idx + 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) implies #[trigger] o.adv(&n) by { Self::lemma_step(o, n, m); }
        }
    }
    /// steps add up, and at the end nothing is left
    pub proof fn lemma_walk(o: Self)
        ensures
            forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) ==> o.adv(&b),
            forall|a: Self| #[trigger] o.adv(&a) && a.next_field_idx == a.fields@.len() ==> a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@,
    { broadcast use crate::rules::opens;
        assert forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) implies o.adv(&b) by { Self::lemma_trans(o, a, b); }
        assert forall|a: Self| #[trigger] o.adv(&a) && a.next_field_idx == a.fields@.len() implies a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@ by { Self::lemma_end(a); }
    }
    /// what decoding the next of the values does
    #[verifier::opaque]
    pub open spec fn took<'s, 'r, V: Visitor<TypeResolver = $R>>(&self, v: V, n: &Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>) -> bool { self.took_is(v, n, res) }
    pub open spec fn took_is<'s, 'r, V: Visitor<TypeResolver = $R>>(&self, v: V, n: &Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>) -> bool {
        &&& n.inv() && self.same(n)
        &&& self.next_field_idx == self.fields@.len() ==> res is None && *n == *self
        &&& self.next_field_idx < self.fields@.len() ==> {
            &&& res is Some
            &&& exists|b1: Seq<u8>| #[trigger] crate::rules::dec_post(v, self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@, b1, res.unwrap())
                && (res.unwrap() is Ok ==> n.item_bytes@ == b1)
            &&& res.unwrap() is Ok ==> n.next_field_idx == self.next_field_idx + 1
            &&& res.unwrap() is Err ==> n.next_field_idx == self.fields@.len() && n.item_bytes == self.item_bytes
            &&& v.lawful() ==> match crate::spec::parse(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@) {
                Some((x, m)) => v.sem(x, res.unwrap()) && (res.unwrap() is Ok ==> n.item_bytes@ == self.item_bytes@.skip(m as int) && self.adv(n)
                    && (self.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == x)),
                None => res.unwrap() is Err && self.rest() is None,
            }
        }
    }
    /// as little of it as a list of targets needs
    pub broadcast proof fn lemma_took<'s, 'r, V: Visitor<TypeResolver = $R>>(a: Self, v: V, n: Self, res: Option<Result<V::Value<'s, 'r>, V::Error>>)
        requires #[trigger] a.took(v, &n, res), a.inv(), v.lawful(),
        ensures
            n.inv(), a.same(&n), a.next_field_idx == a.fields@.len() <==> res is None,
            res matches Some(x) ==> (a.rest() matches Some((vs, _)) ==> vs.len() > 0 && v.sem(vs[0], x)) && (x is Ok ==> a.adv(&n) && n.next_field_idx == a.next_field_idx + 1),
    { broadcast use crate::rules::opens; }
    pub proof fn lemma_steps(o: Self)
        requires o.inv()
        ensures
            o.adv(&o), o.gf().len() == o.fields@.len() - o.next_field_idx,
            o.rest() matches Some((vs, _)) ==> vs.len() == o.gf().len(),
            forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) ==> o.adv(&b),
            forall|a: Self| #[trigger] o.adv(&a) ==> a.inv() && o.same(&a) && (o.rest() matches Some((vs, _)) ==> (a.rest() matches Some((ws, _)) && (ws.len() > 0 ==> a.next_field_idx < o.fields@.len() && ws[0] == vs[a.next_field_idx - o.next_field_idx]))),
    { broadcast use crate::rules::opens;
        Self::lemma_refl(o); Self::lemma_walk(o);
        crate::spec::lemma_len_fields(o.types, o.gf(), o.is_compact, o.item_bytes@);
        assert forall|a: Self| #[trigger] o.adv(&a) implies a.inv() && o.same(&a) && (o.rest() matches Some((vs, _)) ==> (a.rest() matches Some((ws, _)) && (ws.len() > 0 ==> a.next_field_idx < o.fields@.len() && ws[0] == vs[a.next_field_idx - o.next_field_idx]))) by {
            crate::spec::lemma_len_fields(a.types, a.gf(), a.is_compact, a.item_bytes@);
        }
    }
    /// nothing is left: there is nothing to read
    pub proof fn lemma_end(a: Self)
        requires a.inv(), a.next_field_idx == a.fields@.len(),
        ensures a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)), a.item_bytes@.skip(0) == a.item_bytes@,
    { broadcast use crate::rules::opens;
        assert(a.gf().len() == 0);
        assert(a.item_bytes@.skip(0) =~= a.item_bytes@);
    }

%fn visitor::types::tuple::Tuple<R>::skip_decoding
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).same(final(self)),
        match old(self).rest() {
            Some((_, n)) => res is Ok && final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).next_field_idx == final(self).fields@.len(),
            None => res is Err,
        },
%pre
    let ghost me = *self;
    proof { Self::lemma_refl(me); Self::lemma_walk(me); }
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant self.inv(), me.adv(self),

%fn visitor::types::tuple::Tuple<R>::decode_item
%params visitor
%spec
    requires old(self).inv()
    ensures
        old(self).took(visitor, final(self), res),
%pre
    proof { assert(self.fields.len() == self.fields@.len()); if self.next_field_idx < self.fields@.len() { Self::lemma_first(*self); } }

%fn visitor::types::tuple::Tuple<R>::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::tuple::Tuple<R>::bytes_from_undecoded
%spec
    ensures res@ == self.item_bytes@
%fn visitor::types::tuple::Tuple<R>::remaining
%spec
    requires self.inv()
    ensures res == self.gf().len()

%fn visitor::types::composite::Composite<R>::new
%params path bytes fields types is_compact
%spec
    ensures res.fresh(crate::xcr::gpath(path.seq()), crate::xcr::gfields(old(fields).seq()), types, is_compact, bytes@),
%fn visitor::types::tuple::Tuple<R>::new
%params bytes fields types is_compact
%spec
    ensures res.fresh(crate::xcr::gfields(old(fields).seq()), types, is_compact, bytes@),
%fn visitor::types::composite::Composite<R>::name
%spec
    ensures match res { Some(s) => crate::xcr::gpath(self.path@).len() > 0 && s@ == crate::xcr::gpath(self.path@).last(), None => self.path@.len() == 0 },
%fn visitor::types::composite::Composite<R>::path
%spec
    ensures res.seq() == self.path@,
%fn visitor::types::composite::Composite<R>::fields
%spec
    ensures res@ == self.fields@,
%fn visitor::types::composite::Composite<R>::has_unnamed_fields
%spec
    ensures res <==> exists|i: int| 0 <= i < self.fields@.len() && (#[trigger] self.fields@[i]).name is None,
%fn visitor::types::composite::Composite<R>::as_tuple
%spec
    requires self.inv()
    ensures res.fresh(self.gf(), self.types, self.is_compact, self.item_bytes@),
%fn visitor::types::composite::Composite<R>::peek_name
%spec
    requires self.inv()
    ensures crate::xcr::gname(res) == (if self.gf().len() > 0 { self.gf()[0].name } else { None }),

%impl visitor::types::array::Array<R>
    pub open spec fn inv(&self) -> bool { true }
    pub open spec fn fresh(&self, i: $R::TypeId, len: nat, types: &$R, b: Seq<u8>) -> bool { self.bytes@ == b && self.item_bytes@ == b && self.type_id == i && self.types == types && self.remaining == len }
    pub open spec fn rest(&self) -> Option<(Seq<crate::spec::Val<$R::TypeId>>, nat)> { crate::spec::parse_rep(self.types, self.type_id, self.remaining as nat, self.item_bytes@) }
    pub open spec fn val(&self, id: $R::TypeId) -> Option<crate::spec::Val<$R::TypeId>> { match self.rest() { Some((vs, _)) => Some(crate::spec::Val { id, k: crate::spec::Kind::Arr(vs), c: false }), None => None } }
    pub open spec fn same(&self, o: &Self) -> bool { self.bytes == o.bytes && self.type_id == o.type_id && self.types == o.types }
    pub open spec fn adv(&self, n: &Self) -> bool {
        &&& self.same(n) && n.remaining <= self.remaining
        &&& crate::rules::adv_items(self.item_bytes@, n.item_bytes@, self.rest(), n.rest(), self.remaining - n.remaining)
    }
    pub proof fn lemma_step(o: Self, n: Self, k: nat)
        requires o.remaining > 0, o.same(&n), n.remaining == o.remaining - 1,
            crate::spec::parse(o.types, o.type_id, false, o.item_bytes@) matches Some((_, m)) && m == k,
            n.item_bytes@ == o.item_bytes@.skip(k as int),
        ensures o.adv(&n), n.rest() is None ==> o.rest() is None,
            o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == crate::spec::parse(o.types, o.type_id, false, o.item_bytes@).unwrap().0,
    {
        crate::spec::lemma_len(o.types, o.type_id, false, o.item_bytes@);
        if let Some((vs, nn)) = n.rest() {
            let v = crate::spec::parse(o.types, o.type_id, false, o.item_bytes@).unwrap().0;
            assert((seq![v] + vs).skip(1) =~= vs);
        }
    }
    pub proof fn lemma_trans(a: Self, b: Self, c: Self)
        requires a.adv(&b), b.adv(&c),
        ensures a.adv(&c),
    { crate::rules::lemma_adv_items(a.item_bytes@, b.item_bytes@, c.item_bytes@, a.rest(), b.rest(), c.rest(), a.remaining - b.remaining, b.remaining - c.remaining); }
    pub proof fn lemma_refl(a: Self)
        ensures a.adv(&a),
    { crate::rules::lemma_adv0(a.item_bytes@, a.rest()); }
    pub proof fn lemma_first(o: Self)
        requires o.remaining > 0,
        ensures
            crate::spec::parse(o.types, o.type_id, false, o.item_bytes@) is None ==> o.rest() is None,
            crate::spec::parse(o.types, o.type_id, false, o.item_bytes@) matches Some((v, _)) ==> (o.rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == v),
            crate::spec::parse(o.types, o.type_id, false, o.item_bytes@) matches Some((_, m)) ==>
                m <= o.item_bytes@.len() && forall|n: Self| o.same(&n) && n.remaining == o.remaining - 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) ==> #[trigger] o.adv(&n),
    {
        crate::spec::lemma_len(o.types, o.type_id, false, o.item_bytes@);
        if let Some((_, m)) = crate::spec::parse(o.types, o.type_id, false, o.item_bytes@) {
            assert forall|n: Self| o.same(&n) && n.remaining == o.remaining - 1 && n.item_bytes@ == o.item_bytes@.skip(m as int) implies #[trigger] o.adv(&n) by { Self::lemma_step(o, n, m); }
        }
    }
    pub proof fn lemma_walk(o: Self)
        ensures
            forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) ==> o.adv(&b),
            forall|a: Self| #[trigger] o.adv(&a) && a.remaining == 0 ==> a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@,
    {
        assert forall|a: Self, b: Self| #[trigger] o.adv(&a) && #[trigger] a.adv(&b) implies o.adv(&b) by { Self::lemma_trans(o, a, b); }
        assert forall|a: Self| #[trigger] o.adv(&a) && a.remaining == 0 implies a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)) && a.item_bytes@.skip(0) == a.item_bytes@ by { Self::lemma_end(a); }
    }
    pub proof fn lemma_end(a: Self)
        requires a.remaining == 0,
        ensures a.rest() == Some((Seq::<crate::spec::Val<$R::TypeId>>::empty(), 0nat)), a.item_bytes@.skip(0) == a.item_bytes@,
    { assert(a.item_bytes@.skip(0) =~= a.item_bytes@); }
%fn visitor::types::array::Array<R>::new
%params bytes type_id len types
%spec
    ensures res.fresh(type_id, len as nat, types, bytes@)
%fn visitor::types::array::Array<R>::skip_decoding
%spec
    ensures
        old(self).same(final(self)),
        match old(self).rest() {
            Some((_, n)) => res is Ok && final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && final(self).remaining == 0,
            None => res is Err,
        },
%pre
    let ghost me = *self;
    proof { Self::lemma_refl(me); Self::lemma_walk(me); }
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant me.adv(self),
%fn visitor::types::array::Array<R>::decode_item
%params visitor
%spec
    ensures
        old(self).same(final(self)),
        old(self).remaining == 0 ==> res is None && *final(self) == *old(self),
        old(self).remaining > 0 ==> {
            &&& res is Some
            &&& final(self).remaining == old(self).remaining - 1
            &&& crate::rules::dec_post(visitor, old(self).types, old(self).type_id, false, old(self).item_bytes@, final(self).item_bytes@, res.unwrap())
            &&& visitor.lawful() ==> match crate::spec::parse(old(self).types, old(self).type_id, false, old(self).item_bytes@) {
                Some((v, n)) => visitor.sem(v, res.unwrap()) && (res.unwrap() is Ok ==> final(self).item_bytes@ == old(self).item_bytes@.skip(n as int) && old(self).adv(final(self))
                    && (old(self).rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == v)),
                None => res.unwrap() is Err && old(self).rest() is None,
            }
        },
%pre
    proof { if self.remaining > 0 { Self::lemma_first(*self); } }
%fn visitor::types::array::Array<R>::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::array::Array<R>::bytes_from_undecoded
%spec
    ensures res@ == self.item_bytes@
%fn visitor::types::array::Array<R>::remaining
%spec
    ensures res == self.remaining
%fn visitor::types::array::Array<R>::is_empty
%spec
    ensures res <==> self.remaining == 0

%impl visitor::types::sequence::Sequence<R>
    pub open spec fn inv(&self) -> bool { true }
    pub open spec fn rest(&self) -> Option<(Seq<crate::spec::Val<$R::TypeId>>, nat)> { self.values.rest() }
    pub open spec fn val(&self, id: $R::TypeId) -> Option<crate::spec::Val<$R::TypeId>> { match self.rest() { Some((vs, _)) => Some(crate::spec::Val { id, k: crate::spec::Kind::Seq(vs), c: false }), None => None } }
    pub open spec fn adv(&self, n: &Self) -> bool { self.bytes == n.bytes && self.values.adv(&n.values) }
%fn visitor::types::sequence::Sequence<R>::new
%params bytes type_id types
%spec
    ensures match crate::xcr::cdec(bytes@, 8) {
        Some((l, m)) => res matches Ok(s) && s.bytes@ == bytes@ && s.values.fresh(type_id, l, types, bytes@.skip(m as int)),
        None => res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::Codec,
    }
%pre
    proof { crate::xcr::lemma_cdec(bytes@, 8); }
%fn visitor::types::sequence::Sequence<R>::skip_decoding
%spec
    ensures
        final(self).bytes == old(self).bytes, old(self).values.same(&final(self).values),
        match old(self).rest() {
            Some((_, n)) => res is Ok && final(self).values.item_bytes@ == old(self).values.item_bytes@.skip(n as int) && final(self).values.remaining == 0,
            None => res is Err,
        },
%fn visitor::types::sequence::Sequence<R>::decode_item
%params visitor
%spec
    ensures
        final(self).bytes == old(self).bytes, old(self).values.same(&final(self).values),
        old(self).values.remaining == 0 ==> res is None && *final(self) == *old(self),
        old(self).values.remaining > 0 ==> {
            &&& res is Some
            &&& final(self).values.remaining == old(self).values.remaining - 1
            &&& crate::rules::dec_post(visitor, old(self).values.types, old(self).values.type_id, false, old(self).values.item_bytes@, final(self).values.item_bytes@, res.unwrap())
            &&& visitor.lawful() ==> match crate::spec::parse(old(self).values.types, old(self).values.type_id, false, old(self).values.item_bytes@) {
                Some((v, n)) => visitor.sem(v, res.unwrap()) && (res.unwrap() is Ok ==> final(self).values.item_bytes@ == old(self).values.item_bytes@.skip(n as int) && old(self).adv(final(self))
                    && (old(self).rest() matches Some((vs, _)) ==> vs.len() > 0 && vs[0] == v)),
                None => res.unwrap() is Err && old(self).rest() is None,
            }
        },
%fn visitor::types::sequence::Sequence<R>::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::sequence::Sequence<R>::bytes_from_undecoded
%spec
    ensures res@ == self.values.item_bytes@
%fn visitor::types::sequence::Sequence<R>::remaining
%spec
    ensures res == self.values.remaining

%impl visitor::types::variant::Variant<R>
    pub open spec fn inv(&self) -> bool { self.fields.inv() }
    pub open spec fn fresh(&self, x: crate::xcr::GVariant<$R::TypeId>, types: &$R, b: Seq<u8>) -> bool {
        self.bytes@ == b && self.variant_name@ == x.name && self.variant_index == x.index && self.fields.fresh(seq![x.name], x.fields, types, false, b.skip(1))
    }
    pub open spec fn val(&self, id: $R::TypeId) -> Option<crate::spec::Val<$R::TypeId>> {
        match self.fields.rest() { Some((vs, _)) => Some(crate::spec::Val { id, k: crate::spec::Kind::Variant(self.variant_name@, self.variant_index, crate::spec::names(self.fields.gf()), vs), c: false }), None => None }
    }
    pub open spec fn adv(&self, n: &Self) -> bool { self.bytes == n.bytes && self.variant_name == n.variant_name && self.variant_index == n.variant_index && self.fields.adv(&n.fields) }

%fn visitor::types::variant::Variant<R>::new
%params bytes variants types
%spec
    ensures
        bytes@.len() == 0 ==> (res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::NoInput),
        bytes@.len() > 0 ==> match crate::spec::find_variant(crate::xcr::scale_type_resolver::gvariants::<Fields, $R::TypeId>(variants.seq()), bytes@[0]) {
            Some(x) => res matches Ok(v) && v.fresh(x, types, bytes@),
            None => res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::NoVariant(bytes@[0]),
        },
%pre
    proof {
        if bytes@.len() > 0 {
            let vs = crate::xcr::scale_type_resolver::gvariants::<Fields, $R::TypeId>(variants.seq());
            assert forall|i: int| 0 <= i < vs.len() && (#[trigger] variants.seq()[i]).index == bytes@[0] && (forall|j: int| 0 <= j < i ==> (#[trigger] variants.seq()[j]).index != bytes@[0]) implies crate::spec::find_variant(vs, bytes@[0]) == Some(vs[i]) by {
                assert(forall|j: int| 0 <= j < vs.len() ==> (#[trigger] vs[j]).index == variants.seq()[j].index);
                assert(crate::spec::first_with_index(vs, bytes@[0], i));
                crate::spec::lemma_find_variant(vs, bytes@[0], i);
            }
            if (forall|j: int| 0 <= j < vs.len() ==> (#[trigger] variants.seq()[j]).index != bytes@[0]) {
                assert(forall|j: int| 0 <= j < vs.len() ==> (#[trigger] vs[j]).index == variants.seq()[j].index);
                assert(crate::spec::find_variant(vs, bytes@[0]) is None);
            }
        }
    }
%fn visitor::types::variant::Variant<R>::skip_decoding
%spec
    requires old(self).inv()
    ensures
        final(self).inv(), old(self).fields.same(&final(self).fields), final(self).bytes == old(self).bytes,
        final(self).variant_name == old(self).variant_name, final(self).variant_index == old(self).variant_index,
        match old(self).fields.rest() {
            Some((_, n)) => res is Ok && final(self).fields.item_bytes@ == old(self).fields.item_bytes@.skip(n as int) && final(self).fields.next_field_idx == final(self).fields.fields@.len(),
            None => res is Err,
        },
%fn visitor::types::variant::Variant<R>::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::variant::Variant<R>::bytes_from_undecoded
%spec
    ensures res@ == self.fields.item_bytes@
%fn visitor::types::variant::Variant<R>::name
%spec
    ensures res@ == self.variant_name@
%fn visitor::types::variant::Variant<R>::index
%spec
    ensures res == self.variant_index
%fn visitor::types::variant::Variant<R>::fields
%spec
    ensures *res == old(self).fields, *final(res) == final(self).fields, final(self).bytes == old(self).bytes,
        final(self).variant_name == old(self).variant_name, final(self).variant_index == old(self).variant_index,

%impl visitor::types::str::Str
    pub open spec fn wf(&self) -> bool { crate::xcr::cdec(self.bytes@, 4) == Some((self.len as nat, self.compact_len as nat)) }
    pub open spec fn val<Id>(&self, id: Id) -> Option<crate::spec::Val<Id>> {
        if self.compact_len + self.len <= self.bytes@.len() { Some(crate::spec::Val { id, k: crate::spec::Kind::Str(self.bytes@.subrange(self.compact_len as int, self.compact_len + self.len)), c: false }) } else { None }
    }
%fn visitor::types::str::Str::new
%params bytes
%spec
    ensures
        match crate::xcr::cdec(bytes@, 4) {
            Some(_) => res matches Ok(s) && s.wf() && s.bytes@ == bytes@,
            None => res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::Codec,
        },
%pre
    proof { crate::xcr::lemma_cdec(bytes@, 4); }
%fn visitor::types::str::Str::len
%spec
    ensures res == self.len
%fn visitor::types::str::Str::is_empty
%spec
    ensures res <==> self.len == 0
%fn visitor::types::str::Str::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::str::Str::bytes_after
%spec
    requires self.wf()
    ensures
        self.compact_len + self.len <= self.bytes@.len() ==> (res matches Ok(b) && b@ == self.bytes@.skip(self.compact_len + self.len)),
        self.compact_len + self.len > self.bytes@.len() ==> (res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::NoInput),
%pre
    proof { crate::xcr::lemma_cdec(self.bytes@, 4); }
%fn visitor::types::str::Str::as_str
%spec
    requires self.wf()
    ensures
        self.compact_len + self.len > self.bytes@.len() ==> (res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::NoInput),
        self.compact_len + self.len <= self.bytes@.len() ==> match crate::xcr::utf8(self.bytes@.subrange(self.compact_len as int, self.compact_len + self.len)) {
            Some(s) => res matches Ok(t) && t@ == s,
            None => res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::Str(crate::xcr::utf8_error(self.bytes@.subrange(self.compact_len as int, self.compact_len + self.len))),
        },
%pre
    proof { crate::xcr::lemma_cdec(self.bytes@, 4); }

%impl visitor::types::bit_sequence::BitSequence
    /// where the bit sequence ends
    pub open spec fn size(&self) -> Option<nat> { match crate::xcr::cdec(self.bytes@, 4) { Some((n, _)) => if crate::xcr::scale_bits::bits_size(n, self.format) <= self.bytes@.len() { Some(crate::xcr::scale_bits::bits_size(n, self.format)) } else { None }, None => None } }
    pub open spec fn wf(&self) -> bool { self.bytes_after matches Some(x) ==> self.size() matches Some(n) && x@ == self.bytes@.skip(n as int) }
    pub open spec fn val<Id>(&self, id: Id) -> Option<crate::spec::Val<Id>> { match crate::spec::bits_leaf(self.format, self.bytes@) { Some((k, _)) => Some(crate::spec::Val { id, k, c: false }), None => None } }
    pub open spec fn tail(&self, r: Result<&'scale [u8], DecodeError>) -> bool {
        match self.size() {
            Some(n) => r matches Ok(b) && b@ == self.bytes@.skip(n as int),
            None => r matches Err(e) && crate::rules::dv(e) == (if crate::xcr::cdec(self.bytes@, 4) is None { crate::rules::DView::Codec } else { crate::rules::DView::NoInput }),
        }
    }
%fn visitor::types::bit_sequence::BitSequence::new
%params format bytes
%spec
    ensures res.format == format, res.bytes == bytes, res.bytes_after is None
%fn visitor::types::bit_sequence::BitSequence::bytes_from_start
%spec
    ensures res@ == self.bytes@
%fn visitor::types::bit_sequence::BitSequence::bytes_after
%spec
    requires self.wf()
    ensures self.tail(res)
%fn visitor::types::bit_sequence::BitSequence::decode
%spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).bytes == old(self).bytes, final(self).format == old(self).format,
        match old(self).size() {
            Some(n) => res matches Ok(d) && crate::xcr::scale_bits::scale::dec_bytes(d) == old(self).bytes@ && crate::xcr::scale_bits::scale::dec_format(d) == old(self).format,
            None => res matches Err(e) && crate::rules::dv(e) == (if crate::xcr::cdec(old(self).bytes@, 4) is None { crate::rules::DView::Codec } else { crate::rules::DView::NoInput }),
        },

%trait visitor::DecodeItemIterator
    /// the values still to come
    spec fn ii(&self) -> bool;
    spec fn ileft(&self) -> nat;
    spec fn irest(&self) -> Option<(Seq<crate::spec::Val<R::TypeId>>, nat)>;
    spec fn ifirst(&self) -> Option<crate::spec::Val<R::TypeId>>;
    spec fn iadv(&self, n: &Self) -> bool;
    proof fn lemma_it(o: Self) where Self: Sized
        requires o.ii(),
        ensures
            o.irest() matches Some((vs, _)) ==> vs.len() == o.ileft() && (o.ileft() > 0 ==> o.ifirst() == Some(vs[0])),
            forall|a: Self| #[trigger] o.iadv(&a) ==> a.ii() && a.ileft() <= o.ileft() && match a.irest() {
                None => o.irest() is None,
                Some((vb, _)) => o.irest() matches Some((va, _)) && vb == va.skip(o.ileft() - a.ileft()),
            },
            forall|a: Self, b: Self| #[trigger] o.iadv(&a) && #[trigger] a.iadv(&b) ==> o.iadv(&b),
            o.iadv(&o);
%fn visitor::DecodeItemIterator::decode_item
%params visitor
%spec
    requires old(self).ii()
    ensures
        final(self).ii(),
        old(self).ileft() == 0 ==> res is None && old(self).iadv(final(self)),
        old(self).ileft() > 0 ==> {
            &&& res is Some
            &&& visitor.lawful() ==> match old(self).ifirst() {
                Some(v) => visitor.sem(v, res.unwrap()) && (res.unwrap() is Ok ==> old(self).iadv(final(self)) && final(self).ileft() == old(self).ileft() - 1),
                None => res.unwrap() is Err && old(self).irest() is None,
            }
        },

%impl visitor::types::composite::<Composite<R> as DecodeItemIterator>
    open spec fn ii(&self) -> bool { self.inv() }
    open spec fn ileft(&self) -> nat { (self.fields@.len() - self.next_field_idx) as nat }
    open spec fn irest(&self) -> Option<(Seq<crate::spec::Val<R::TypeId>>, nat)> { self.rest() }
    open spec fn ifirst(&self) -> Option<crate::spec::Val<R::TypeId>> { match crate::spec::parse(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@) { Some((v, _)) => Some(v), None => None } }
    open spec fn iadv(&self, n: &Self) -> bool { self.adv(n) }
    proof fn lemma_it(o: Self) {
        broadcast use crate::rules::opens;
        Composite::lemma_refl(o); Composite::lemma_walk(o);
        if o.next_field_idx < o.fields@.len() { Composite::lemma_first(o); }
        crate::spec::lemma_len_fields(o.types, o.gf(), o.is_compact, o.item_bytes@);
    }
%impl visitor::types::tuple::<Tuple<R> as DecodeItemIterator>
    open spec fn ii(&self) -> bool { self.inv() }
    open spec fn ileft(&self) -> nat { (self.fields@.len() - self.next_field_idx) as nat }
    open spec fn irest(&self) -> Option<(Seq<crate::spec::Val<R::TypeId>>, nat)> { self.rest() }
    open spec fn ifirst(&self) -> Option<crate::spec::Val<R::TypeId>> { match crate::spec::parse(self.types, self.fields@[self.next_field_idx as int].id, self.is_compact, self.item_bytes@) { Some((v, _)) => Some(v), None => None } }
    open spec fn iadv(&self, n: &Self) -> bool { self.adv(n) }
    proof fn lemma_it(o: Self) {
        broadcast use crate::rules::opens;
        Tuple::lemma_refl(o); Tuple::lemma_walk(o);
        if o.next_field_idx < o.fields@.len() { Tuple::lemma_first(o); }
        crate::spec::lemma_len_fields(o.types, o.gf(), o.is_compact, o.item_bytes@);
    }
%impl visitor::types::array::<Array<R> as DecodeItemIterator>
    open spec fn ii(&self) -> bool { true }
    open spec fn ileft(&self) -> nat { self.remaining as nat }
    open spec fn irest(&self) -> Option<(Seq<crate::spec::Val<R::TypeId>>, nat)> { self.rest() }
    open spec fn ifirst(&self) -> Option<crate::spec::Val<R::TypeId>> { match crate::spec::parse(self.types, self.type_id, false, self.item_bytes@) { Some((v, _)) => Some(v), None => None } }
    open spec fn iadv(&self, n: &Self) -> bool { self.adv(n) }
    proof fn lemma_it(o: Self) {
        Array::lemma_refl(o); Array::lemma_walk(o);
        if o.remaining > 0 { Array::lemma_first(o); }
        crate::spec::lemma_len_rep(o.types, o.type_id, o.remaining as nat, o.item_bytes@);
    }
%impl visitor::types::sequence::<Sequence<R> as DecodeItemIterator>
    open spec fn ii(&self) -> bool { true }
    open spec fn ileft(&self) -> nat { self.values.remaining as nat }
    open spec fn irest(&self) -> Option<(Seq<crate::spec::Val<R::TypeId>>, nat)> { self.rest() }
    open spec fn ifirst(&self) -> Option<crate::spec::Val<R::TypeId>> { match crate::spec::parse(self.values.types, self.values.type_id, false, self.values.item_bytes@) { Some((v, _)) => Some(v), None => None } }
    open spec fn iadv(&self, n: &Self) -> bool { self.adv(n) }
    proof fn lemma_it(o: Self) {
        Array::lemma_refl(o.values); Array::lemma_walk(o.values);
        if o.values.remaining > 0 { Array::lemma_first(o.values); }
        crate::spec::lemma_len_rep(o.values.types, o.values.type_id, o.values.remaining as nat, o.values.item_bytes@);
    }
%fn visitor::decode::decode_with_visitor [proxy]
%params data ty_id types visitor
%spec
    ensures crate::rules::dec_post(visitor, types, ty_id, false, (*old(data))@, (*final(data))@, res),
%fn visitor::decode::decode_with_visitor_maybe_compact [proxy]
%params data ty_id types visitor is_compact
%spec
    ensures crate::rules::dec_post(visitor, types, ty_id, is_compact, (*old(data))@, (*final(data))@, res),
%pre
    proof {
        crate::spec::lemma_unfold(types, ty_id, is_compact, data@);
        crate::rules::lemma_rel::<V>(visitor, types, ty_id, is_compact, data@);
    }
%fn visitor::decode::Decoder<V>::new
%params data types type_id visitor is_compact
%spec
    ensures *res.data == *old(data), *final(res.data) == *final(data), res.types == types, res.type_id == type_id, res.visitor == visitor, res.is_compact == is_compact,
%rename try_into => vx_try_into in visitor::decode::decode_32_bytes
%fn visitor::decode::decode_32_bytes
%params data
%spec
    ensures
        (*old(data))@.len() >= 32 ==> (res matches Ok(a) && a@ == (*old(data))@.take(32) && (*final(data))@ == (*old(data))@.skip(32)),
        (*old(data))@.len() < 32 ==> (res matches Err(e) && crate::rules::dv(e) == crate::rules::DView::NoInput && (*final(data))@ == (*old(data))@),
%fn visitor::decode::<Decoder<V> as ResolvedTypeVisitor>::visit_primitive
%attr #[verifier::spinoff_prover]
%fn visitor::decode::<Decoder<V> as ResolvedTypeVisitor>::visit_tuple
%attr #[verifier::spinoff_prover]
%fn visitor::decode::<Decoder<V> as ResolvedTypeVisitor>::visit_composite
%attr #[verifier::spinoff_prover]
%fn visitor::decode::<Decoder<V> as ResolvedTypeVisitor>::visit_variant
%attr #[verifier::spinoff_prover]
%impl visitor::decode::<Decoder<V> as ResolvedTypeVisitor>
    #[verifier::prophetic]
    open spec fn rpost(self, d: crate::xcr::Desc<TypeIdFor<V>>, val: Result<V::Value<'scale, 'resolver>, V::Error>) -> bool {
        &&& crate::rules::headx(self.visitor, self.types, d, self.type_id, self.is_compact, (*self.data)@, (*final(self.data))@, val)
        &&& self.visitor.lawful() ==> match d {
            crate::xcr::Desc::Compact(i) => crate::rules::dec_ok(self.visitor, self.types, i, true, (*self.data)@, (*final(self.data))@, val),
            _ => match crate::spec::parse_desc(self.types, Some(d), self.type_id, self.is_compact, (*self.data)@) {
                Some((v, n)) => (!self.visitor.takes(v) ==> self.visitor.sem(v, val)) && (val is Ok ==> (*final(self.data))@ == (*self.data)@.skip(n as int)),
                None => val is Err,
            },
        }
    }
    #[verifier::prophetic]
    open spec fn runused(self) -> bool { (*final(self.data))@ == (*self.data)@ }

%fn visitor::DecodeAsTypeResult<V,R>::map_decoded
%params f
%spec
    requires self matches DecodeAsTypeResult::Decoded(r) ==> call_requires(f, (r,))
    ensures match self {
        DecodeAsTypeResult::Decoded(r) => res matches DecodeAsTypeResult::Decoded(t) && call_ensures(f, (r,), t),
        DecodeAsTypeResult::Skipped(v) => res == DecodeAsTypeResult::<V, T>::Skipped(v),
    }
%fn visitor::DecodeAsTypeResult<V,R>::map_skipped
%params f
%spec
    requires self matches DecodeAsTypeResult::Skipped(v) ==> call_requires(f, (v,))
    ensures match self {
        DecodeAsTypeResult::Skipped(v) => res matches DecodeAsTypeResult::Skipped(t) && call_ensures(f, (v,), t),
        DecodeAsTypeResult::Decoded(r) => res == DecodeAsTypeResult::<T, R>::Decoded(r),
    }

%fn visitor::IgnoreVisitor<R>::new
%spec
    ensures true
%impl visitor::<IgnoreVisitor<R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r is Ok }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r is Ok }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%mod visitor
/// the same result, with the error turned into one of this crate
pub open spec fn as_crate_error<T, E: Into<crate::Error>>(a: Result<T, E>, b: Result<T, crate::Error>) -> bool {
    match a {
        Ok(v) => b == Ok::<T, crate::Error>(v),
        Err(e) => b matches Err(e2) && call_ensures(<E as Into<crate::Error>>::into, (e,), e2),
    }
}
%impl visitor::<VisitorWithCrateError<V> as Visitor>
    open spec fn lawful(self) -> bool { self.0.lawful() }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { exists|r0: Result<V::Value<'s, 'r>, V::Error>| #[trigger] self.0.sem(v, r0) && as_crate_error(r0, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r is Err }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r matches DecodeAsTypeResult::Decoded(r1) && exists|r0: Result<V::Value<'s, 'r>, V::Error>| #[trigger] crate::rules::relx(self.0, types, id, compact, b0, b1, r0) && as_crate_error(r0, r1) }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%subst Box<dyn core::error::Error + Send + Sync + 'static> => crate::xcr::DynError
%drop use:alloc::borrow::Cow
%mod error::context
impl Clone for Location { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum GLoc { Field(Seq<char>), Index(usize), Variant(Seq<char>) }
impl Location {
    pub open spec fn g(self) -> GLoc { match self.inner { Loc::Field(s) => GLoc::Field(s.text()), Loc::Index(i) => GLoc::Index(i), Loc::Variant(s) => GLoc::Variant(s.text()) } }
}
impl Context {
    /// the locations, in the order in which they were added
    pub open spec fn g(self) -> Seq<GLoc> { Seq::new(self.path@.len(), |i: int| self.path@[i].g()) }
}
/// what a name becomes
pub open spec fn named<N: Into<Cow<'static, str>>>(name: N, s: Seq<char>) -> bool { exists|c: Cow<'static, str>| #[trigger] call_ensures(<N as Into<Cow<'static, str>>>::into, (name,), c) && c.text() == s }
%fn error::context::<Context as Default>::default
%spec
    ensures res.path@.len() == 0
%fn error::context::Context::new
%spec
    ensures res.g() == Seq::<GLoc>::empty(), res.path@.len() == 0
%fn error::context::Context::push
%params loc
%spec
    ensures final(self).g() == old(self).g().push(loc.g()), final(self).path@ == old(self).path@.push(loc)
%pre
    proof { assert(Seq::new((self.path@.len() + 1) as nat, |i: int| self.path@.push(loc)[i].g()) =~= self.g().push(loc.g())); }
%fn error::context::Context::path
%spec
    ensures res.0.items() == self.path@
%fn error::context::Path::into_owned
%spec
    ensures res.0.items() == self.0.items()
%fn error::context::Path::locations
%spec
    ensures res.seq().len() == self.0.items().len(), forall|i: int| 0 <= i < res.seq().len() ==> *#[trigger] res.seq()[i] == self.0.items()[i]
%subst core::fmt::Formatter<'_> => crate::xcr::text::Formatter<'_>
%subst core::fmt::Result => crate::xcr::text::FmtResult
%subst core::fmt::Display => crate::xcr::text::Display
%impl error::context::<Path as Display>
    /// C21: all the locations, in order
    open spec fn shows(&self) -> Seq<char> { path_text(locs_of(self.0.items())) }
%mod error::context
pub open spec fn locs_of(s: Seq<Location>) -> Seq<GLoc> { Seq::new(s.len(), |i: int| s[i].g()) }
pub open spec fn loc_text(l: GLoc) -> Seq<char> {
    match l { GLoc::Field(n) => n, GLoc::Index(i) => "["@ + crate::xcr::decimal(i as int) + "]"@, GLoc::Variant(n) => "("@ + n + ")"@ }
}
pub open spec fn path_text(s: Seq<GLoc>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::<char>::empty() } else { path_text(s.drop_last()) + (if s.len() > 1 { "."@ } else { Seq::<char>::empty() }) + loc_text(s.last()) }
}
/// the same, after what there is already
pub open spec fn loc_on(o: Seq<char>, l: GLoc) -> Seq<char> {
    match l { GLoc::Field(n) => o + n, GLoc::Index(i) => o + "["@ + crate::xcr::decimal(i as int) + "]"@, GLoc::Variant(n) => o + "("@ + n + ")"@ }
}
pub open spec fn path_on(o: Seq<char>, s: Seq<GLoc>, n: int) -> Seq<char> decreases n {
    if n <= 0 { o } else if n == 1 { loc_on(path_on(o, s, n - 1), s[n - 1]) } else { loc_on(path_on(o, s, n - 1) + "."@, s[n - 1]) }
}
pub proof fn lemma_path_on(o: Seq<char>, s: Seq<GLoc>, n: int)
    requires 0 <= n <= s.len(),
    ensures path_on(o, s, n) == o + path_text(s.take(n)),
    decreases n,
{
    if n > 0 { lemma_path_on(o, s, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); }
    assert(path_on(o, s, n) =~= o + path_text(s.take(n)));
}
%fn error::context::<Path as Display>::fmt
%params f
%attr #[verifier::loop_isolation(false)]
%pre
    let ghost all = locs_of(self.0.items());
    let ghost f0 = f.out();
    proof { lemma_path_on(f0, all, all.len() as int); assert(all.take(all.len() as int) =~= all); }
%loop 0
    invariant
        vx_it0.seq().len() <= all.len(),
        vx_it0.seq() == Seq::new(all.len(), |i: int| (i as usize, &self.0.items()[i])).skip(all.len() - vx_it0.seq().len()),
        f.out() == path_on(f0, all, all.len() - vx_it0.seq().len()),
%fn error::context::Location::field
%params name
%spec
    ensures res.g() matches GLoc::Field(s) && named(name, s)
%fn error::context::Location::variant
%params name
%spec
    ensures res.g() matches GLoc::Variant(s) && named(name, s)
%fn error::context::Location::idx
%params i
%spec
    ensures res.g() == GLoc::Index(i)
%mod error
pub use context::GLoc;
/// What an `ErrorKind` says
pub enum GKind { Visitor(crate::rules::DView), OutOfRange(Seq<char>), NoVariant(Seq<char>, Seq<Seq<char>>), WrongLength(usize, usize), NoField(Seq<char>), Custom(crate::xcr::DynError) }
impl ErrorKind {
    pub open spec fn g(self) -> GKind {
        match self {
            ErrorKind::VisitorDecodeError(d) => GKind::Visitor(crate::rules::dv(d)),
            ErrorKind::NumberOutOfRange { value } => GKind::OutOfRange(value@),
            ErrorKind::CannotFindVariant { got, expected } => GKind::NoVariant(got@, crate::xcr::str_views(expected@)),
            ErrorKind::WrongLength { actual_len, expected_len } => GKind::WrongLength(actual_len, expected_len),
            ErrorKind::CannotFindField { name } => GKind::NoField(name@),
            ErrorKind::Custom(e) => GKind::Custom(e),
        }
    }
}
impl Error {
    pub open spec fn locs(self) -> Seq<GLoc> { self.context.g() }
    pub open spec fn says(self, k: GKind) -> bool { self.locs() == Seq::<GLoc>::empty() && self.kind.g() == k }
    /// the same error with one more location
    pub open spec fn is_at(self, e: Error, l: GLoc) -> bool { self.locs() == e.locs().push(l) && self.kind == e.kind }
}
impl vstd::std_specs::convert::FromSpecImpl<DecodeError> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: DecodeError) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<codec::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: codec::Error) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<DecodeError> for ErrorKind { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(d: DecodeError) -> Self { ErrorKind::VisitorDecodeError(d) } }
%drop error::StrError
%drop error::StringError
%fn error::Error::new
%params kind
%spec
    ensures res.locs() == Seq::<GLoc>::empty(), res.kind == kind
%fn error::Error::custom [drop]
%fn error::Error::custom_str [trust]
%params error
%spec
    ensures res.locs() == Seq::<GLoc>::empty(), res.kind matches ErrorKind::Custom(d) && crate::xcr::dyn_text(d) == error@
%fn error::Error::custom_string [trust]
%params error
%spec
    ensures res.locs() == Seq::<GLoc>::empty(), res.kind matches ErrorKind::Custom(d) && crate::xcr::dyn_text(d) == error@
%fn error::Error::kind
%spec
    ensures *res == self.kind
%fn error::Error::context
%spec
    ensures *res == self.context
%fn error::Error::at
%params loc
%spec
    ensures res.is_at(self, loc.g())
%fn error::Error::at_idx
%params idx
%spec
    ensures res.is_at(self, GLoc::Index(idx))
%fn error::Error::at_field
%params field
%spec
    ensures exists|s: Seq<char>| #[trigger] context::named(field, s) && res.is_at(self, GLoc::Field(s))
%fn error::Error::at_variant
%params variant
%spec
    ensures exists|s: Seq<char>| #[trigger] context::named(variant, s) && res.is_at(self, GLoc::Variant(s))
%mod error
/// what is printed of the cause (thiserror)
impl crate::xcr::text::Display for ErrorKind { uninterp spec fn shows(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut crate::xcr::text::Formatter<'_>) -> (r: crate::xcr::text::FmtResult) { unimplemented!() } }
%impl error::<Error as Display>
    /// C21: the locations and the cause
    open spec fn shows(&self) -> Seq<char> { "Error at "@ + context::path_text(self.locs()) + ": "@ + self.kind.shows() }
%fn error::<Error as Display>::fmt
%params f
%fn error::<ErrorKind as From>::from [twin]
%params d
%spec
    ensures res == ErrorKind::VisitorDecodeError(d)
%fn error::<Error as From>::from [twin]
%params err
%spec
    ensures res.says(GKind::Visitor(crate::rules::dv(err))), res.kind == ErrorKind::VisitorDecodeError(err)
%fn error::<Error as From>#2::from [twin]
%params err
%spec
    ensures res.says(GKind::Visitor(crate::rules::DView::Codec))

