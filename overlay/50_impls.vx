%root
// ================================================================================================
// Targets: what a value becomes when it is decoded into a type of Rust.
// ================================================================================================
pub mod targets {
use vstd::prelude::*;
use crate::xcr::*;
use crate::spec::*;
use crate::rules::*;
use crate::visitor::Unexpected;
use crate::error::{Error, GKind, GLoc};
use crate::xnum::*;
use crate::{IntoVisitor, xcr::scale_type_resolver::TypeResolver};

/// a single field stands for what is in it
pub open spec fn peel<Id>(k: Kind<Id>) -> Kind<Id> decreases k {
    match k {
        Kind::Comp(_, vs) => if vs.len() == 1 { peel(vs[0].k) } else { k },
        Kind::Tup(vs) => if vs.len() == 1 { peel(vs[0].k) } else { k },
        _ => k,
    }
}
pub open spec fn u_of<Id>(k: Kind<Id>) -> Unexpected {
    match k {
        Kind::Bool(_) => Unexpected::Bool, Kind::Char(_) => Unexpected::Char, Kind::Str(_) => Unexpected::Str,
        Kind::U8(_) => Unexpected::U8, Kind::U16(_) => Unexpected::U16, Kind::U32(_) => Unexpected::U32, Kind::U64(_) => Unexpected::U64, Kind::U128(_) => Unexpected::U128, Kind::U256(_) => Unexpected::U256,
        Kind::I8(_) => Unexpected::I8, Kind::I16(_) => Unexpected::I16, Kind::I32(_) => Unexpected::I32, Kind::I64(_) => Unexpected::I64, Kind::I128(_) => Unexpected::I128, Kind::I256(_) => Unexpected::I256,
        Kind::Seq(_) => Unexpected::Sequence, Kind::Arr(_) => Unexpected::Array, Kind::Comp(_, _) => Unexpected::Composite, Kind::Tup(_) => Unexpected::Tuple,
        Kind::Variant(_, _, _, _) => Unexpected::Variant, Kind::Bits(_) => Unexpected::Bitsequence,
    }
}
/// C13-C18: the value is of a kind which the target does not accept, and the error says which kind
pub open spec fn refused<T>(u: Unexpected, r: Result<T, Error>) -> bool { says(r, GKind::Visitor(DView::Unexpected(u))) }
pub open spec fn says<T>(r: Result<T, Error>, k: GKind) -> bool { r matches Err(e) && e.says(k) }

pub open spec fn sem_char<Id>(v: Val<Id>, r: Result<char, Error>) -> bool {
    match peel(v.k) { Kind::Char(c) => r matches Ok(x) && x as u32 == c, k => refused(u_of(k), r) }
}
pub open spec fn sem_bool<Id>(v: Val<Id>, r: Result<bool, Error>) -> bool {
    match peel(v.k) { Kind::Bool(b) => r == Ok::<bool, Error>(b), k => refused(u_of(k), r) }
}
pub open spec fn sem_string<Id>(v: Val<Id>, r: Result<String, Error>) -> bool {
    match peel(v.k) {
        Kind::Str(b) => match utf8(b) { Some(s) => r matches Ok(t) && t@ == s, None => says(r, GKind::Visitor(DView::Str(utf8_error(b)))) },
        k => refused(u_of(k), r),
    }
}
pub open spec fn sem_phantom<Id, T>(v: Val<Id>, r: Result<core::marker::PhantomData<T>, Error>) -> bool {
    match v.k {
        Kind::Comp(_, vs) => if vs.len() == 0 { r is Ok } else { refused(Unexpected::Composite, r) },
        Kind::Tup(vs) => if vs.len() == 0 { r is Ok } else { refused(Unexpected::Tuple, r) },
        k => refused(u_of(k), r),
    }
}
/// the number of an integer
pub open spec fn int_of<Id>(k: Kind<Id>) -> Option<int> {
    match k {
        Kind::U8(n) => Some(n as int), Kind::U16(n) => Some(n as int), Kind::U32(n) => Some(n as int), Kind::U64(n) => Some(n as int), Kind::U128(n) => Some(n as int),
        Kind::I8(n) => Some(n as int), Kind::I16(n) => Some(n as int), Kind::I32(n) => Some(n as int), Kind::I64(n) => Some(n as int), Kind::I128(n) => Some(n as int),
        _ => None,
    }
}
/// C13: the same number, or an error which names it
pub open spec fn sem_num<Id, N: VxInt>(v: Val<Id>, r: Result<N, Error>) -> bool {
    match int_of(peel(v.k)) {
        Some(i) => if N::fits(i) { r matches Ok(x) && x.int() == i } else { says(r, GKind::OutOfRange(decimal(i))) },
        None => refused(u_of(peel(v.k)), r),
    }
}
pub open spec fn sem_bits<Id>(v: Val<Id>, r: Result<crate::xcr::scale_bits::Bits, Error>) -> bool {
    match peel(v.k) { Kind::Bits(b) => r matches Ok(x) && crate::xcr::scale_bits::bits_view(x) == b, k => refused(u_of(k), r) }
}
/// what is in v becomes a T, and f of it is the result; errors are at l
pub open spec fn inside<R: TypeResolver, T: IntoVisitor<R>, U>(v: Val<R::TypeId>, l: GLoc, f: spec_fn(T) -> U, r: Result<U, Error>) -> bool {
    exists|r0: Result<T, Error>| #[trigger] <T as IntoVisitor<R>>::tsem(v, r0) && match r0 { Ok(x) => r == Ok::<U, Error>(f(x)), Err(e0) => r matches Err(e) && e.is_at(e0, l) }
}
/// C14: the names and the number of fields of the variant decide
pub open spec fn sem_option<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<Option<T>, Error>) -> bool {
    match peel(v.k) {
        Kind::Variant(name, _, _, fs) =>
            if name == "Some"@ && fs.len() == 1 { inside::<R, T, Option<T>>(fs[0], GLoc::Variant("Some"@), |x: T| Some(x), r) }
            else if name == "None"@ && fs.len() == 0 { r == Ok::<Option<T>, Error>(None) }
            else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("Some"@).push("None"@))) },
        k => refused(u_of(k), r),
    }
}
pub open spec fn sem_result<R: TypeResolver, T: IntoVisitor<R>, E: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<Result<T, E>, Error>) -> bool {
    match peel(v.k) {
        Kind::Variant(name, _, _, fs) =>
            if name == "Ok"@ && fs.len() == 1 { inside::<R, T, Result<T, E>>(fs[0], GLoc::Variant("Ok"@), |x: T| Ok(x), r) }
            else if name == "Err"@ && fs.len() == 1 { inside::<R, E, Result<T, E>>(fs[0], GLoc::Variant("Err"@), |x: E| Err(x), r) }
            else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("Ok"@).push("Err"@))) },
        k => refused(u_of(k), r),
    }
}
/// what v becomes as a T, in a wrapper; errors stay as they are
pub open spec fn like<R: TypeResolver, T: IntoVisitor<R>, U>(v: Val<R::TypeId>, f: spec_fn(T, U) -> bool, r: Result<U, Error>) -> bool {
    exists|r0: Result<T, Error>| #[trigger] <T as IntoVisitor<R>>::tsem(v, r0) && match r0 { Ok(x) => r matches Ok(y) && f(x, y), Err(e0) => r == Err::<U, Error>(e0) }
}
pub open spec fn sem_box<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::boxed::Box<T>, Error>) -> bool { like::<R, T, alloc::boxed::Box<T>>(v, |x: T, y: alloc::boxed::Box<T>| *y == x, r) }
pub open spec fn sem_rc<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::rc::Rc<T>, Error>) -> bool { like::<R, T, alloc::rc::Rc<T>>(v, |x: T, y: alloc::rc::Rc<T>| *y == x, r) }
pub open spec fn sem_arc<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::sync::Arc<T>, Error>) -> bool { like::<R, T, alloc::sync::Arc<T>>(v, |x: T, y: alloc::sync::Arc<T>| *y == x, r) }
pub open spec fn sem_compact<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<codec::Compact<T>, Error>) -> bool { like::<R, T, codec::Compact<T>>(v, |x: T, y: codec::Compact<T>| y.0 == x, r) }
pub open spec fn sem_cow<'a, R: TypeResolver, T: ToOwned + ?Sized>(v: Val<R::TypeId>, r: Result<Cow<'a, T>, Error>) -> bool where <T as ToOwned>::Owned: IntoVisitor<R> { like::<R, <T as ToOwned>::Owned, Cow<'a, T>>(v, |x: <T as ToOwned>::Owned, y: Cow<'a, T>| y == Cow::<'a, T>::Owned(x), r) }
pub open spec fn sem_range<R: TypeResolver, T>(v: Val<R::TypeId>, r: Result<core::ops::Range<T>, Error>) -> bool where (T, T): IntoVisitor<R> { like::<R, (T, T), core::ops::Range<T>>(v, |x: (T, T), y: core::ops::Range<T>| y.start == x.0 && y.end == x.1, r) }
pub open spec fn sem_range_inclusive<R: TypeResolver, T>(v: Val<R::TypeId>, r: Result<RangeInclusive<T>, Error>) -> bool where (T, T): IntoVisitor<R> { like::<R, (T, T), RangeInclusive<T>>(v, |x: (T, T), y: RangeInclusive<T>| y.start == x.0 && y.end == x.1, r) }
/// C17: seconds and nanoseconds
pub open spec fn sem_duration<R: TypeResolver>(v: Val<R::TypeId>, r: Result<Duration, Error>) -> bool where (u64, u32): IntoVisitor<R> {
    exists|r0: Result<(u64, u32), Error>| #[trigger] <(u64, u32) as IntoVisitor<R>>::tsem(v, r0) && match r0 {
        Ok((s, n)) => if s * 1_000_000_000 + n < max_nanos() { r matches Ok(d) && nanos(d) == s * 1_000_000_000 + n } else { r matches Err(e) && e.kind is Custom && e.locs() == Seq::<GLoc>::empty() },
        Err(e0) => r == Err::<Duration, Error>(e0),
    }
}
/// C15: there is a value / there is an error, and e is that error at item i
pub open spec fn good<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>) -> bool { exists|x: T| #[trigger] <T as IntoVisitor<R>>::tsem(v, Ok(x)) }
pub open spec fn bad<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, i: int, e: Error) -> bool { exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(v, Err(e0)) && e.is_at(e0, GLoc::Index(i as usize)) }

/// C21: e has l as its last location
pub open spec fn raised(e: Error, l: GLoc) -> bool { e.locs().len() > 0 && e.locs().last() == l }
pub broadcast proof fn raised_at(e: Error, e0: Error, l: GLoc) ensures #[trigger] e.is_at(e0, l) ==> raised(e, l) { }
pub open spec fn stopped<'s, 'r, R: TypeResolver, D: crate::visitor::DecodeItemIterator<'s, 'r, R>>(d0: D, e: Error) -> bool {
    exists|d: D| #[trigger] d0.iadv(&d) && d.ileft() > 0 && raised(e, GLoc::Index((d0.ileft() - d.ileft()) as usize))
}
/// C21: whatever the bytes are, the error is at the item after those which were decoded
pub open spec fn items_at<'s, 'r, R: TypeResolver>(c0: crate::visitor::types::Array<'s, 'r, R>, e: Error) -> bool {
    exists|c: crate::visitor::types::Array<'s, 'r, R>| #[trigger] c0.adv(&c) && c.remaining > 0 && raised(e, GLoc::Index((c0.remaining - c.remaining) as usize))
}
pub open spec fn of_len<T, K: VxItems<T>>(k: K, n: nat) -> bool { exists|s: Seq<T>| #[trigger] k.has(s) && s.len() == n }
pub open spec fn tup_at(left: int, n: int, e: Error) -> bool {
    if left != n { e.says(GKind::WrongLength(left as usize, n as usize)) } else { exists|i: usize| i < n && #[trigger] raised(e, GLoc::Index(i)) }
}
/// (the value of an unnamed field is skipped)
pub open spec fn named_at<'s, 'r, R: TypeResolver>(c0: crate::visitor::types::Composite<'s, 'r, R>, e: Error) -> bool {
    exists|i: int| c0.next_field_idx <= i < c0.fields@.len() && match (#[trigger] c0.fields@[i]).name { Some(n) => raised(e, GLoc::Field(n@)), None => true }
}
/// C15: the values as items in order, or the error of the first which has one
pub open spec fn sem_items<R: TypeResolver, T: IntoVisitor<R>>(vs: Seq<Val<R::TypeId>>, s: Seq<T>) -> bool {
    s.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> <T as IntoVisitor<R>>::tsem(#[trigger] vs[i], Ok(s[i]))
}
pub open spec fn bad_items<R: TypeResolver, T: IntoVisitor<R>>(vs: Seq<Val<R::TypeId>>, e: Error) -> bool {
    exists|i: int| 0 <= i < vs.len() && #[trigger] bad::<R, T>(vs[i], i, e) && forall|j: int| 0 <= j < i ==> good::<R, T>(#[trigger] vs[j])
}
pub open spec fn coll<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(vs: Seq<Val<R::TypeId>>, k: K) -> bool { exists|s: Seq<T>| #[trigger] sem_items::<R, T>(vs, s) && k.has(s) }
pub open spec fn coll_r<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(vs: Seq<Val<R::TypeId>>, r: Result<K, Error>) -> bool {
    match r { Ok(k) => coll::<R, T, K>(vs, k), Err(e) => bad_items::<R, T>(vs, e) }
}
pub open spec fn sem_coll<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(v: Val<R::TypeId>, r: Result<K, Error>) -> bool {
    match peel(v.k) {
        Kind::Seq(vs) => coll_r::<R, T, K>(vs, r),
        Kind::Arr(vs) => coll_r::<R, T, K>(vs, r),
        k => refused(u_of(k), r),
    }
}
/// C15, C16: exactly N items
pub open spec fn arr_r<R: TypeResolver, T: IntoVisitor<R>, const N: usize>(vs: Seq<Val<R::TypeId>>, r: Result<[T; N], Error>) -> bool {
    match r {
        Ok(a) => vs.len() == N && sem_items::<R, T>(vs, a@),
        Err(e) => bad_items::<R, T>(vs, e) || (vs.len() != N && (forall|j: int| 0 <= j < vs.len() ==> good::<R, T>(#[trigger] vs[j])) && e.says(GKind::WrongLength(vs.len() as usize, N))),
    }
}
pub open spec fn sem_array<R: TypeResolver, T: IntoVisitor<R>, const N: usize>(v: Val<R::TypeId>, r: Result<[T; N], Error>) -> bool {
    match peel(v.k) {
        Kind::Seq(vs) => arr_r::<R, T, N>(vs, r),
        Kind::Arr(vs) => arr_r::<R, T, N>(vs, r),
        k => refused(u_of(k), r),
    }
}
/// C18: the named fields among the first n, in order; a later one replaces an earlier one of the same name
pub open spec fn map_is<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>, n: int, m: Map<Seq<char>, T>) -> bool decreases n {
    if n <= 0 { m == Map::<Seq<char>, T>::empty() } else {
        match names[n - 1] {
            None => map_is::<R, T>(names, vs, n - 1, m),
            Some(k) => exists|x: T, m0: Map<Seq<char>, T>| #[trigger] put(m0, k, x, m) && <T as IntoVisitor<R>>::tsem(vs[n - 1], Ok(x)) && map_is::<R, T>(names, vs, n - 1, m0),
        }
    }
}
pub open spec fn put<T>(m0: Map<Seq<char>, T>, k: Seq<char>, x: T, m: Map<Seq<char>, T>) -> bool { m == m0.insert(k, x) }
pub proof fn lemma_map<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>)
    ensures
        map_is::<R, T>(names, vs, 0, Map::<Seq<char>, T>::empty()),
        forall|n: int, p: int, m: Map<Seq<char>, T>| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && names[n] is None ==> #[trigger] map_is::<R, T>(names, vs, p, m),
        forall|n: int, p: int, m: Map<Seq<char>, T>, m2: Map<Seq<char>, T>, x: T| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Ok(x))
            && (names[n] matches Some(k) && m2 == m.insert(k, x)) ==> #[trigger] map_is::<R, T>(names, vs, p, m2),
        forall|n: int, e0: Error, e: Error, k: Seq<char>| 0 <= n < vs.len() && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Err(e0)) && #[trigger] e.is_at(e0, GLoc::Field(k)) && names[n] == Some(k) ==> bad_field::<R, T>(names, vs, n, e),
{
    assert forall|n: int, p: int, m: Map<Seq<char>, T>, m2: Map<Seq<char>, T>, x: T| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Ok(x))
            && (names[n] matches Some(k) && m2 == m.insert(k, x)) implies #[trigger] map_is::<R, T>(names, vs, p, m2) by {
        assert(put(m, names[n].unwrap(), x, m2));
        assert(<T as IntoVisitor<R>>::tsem(vs[p - 1], Ok(x)) && map_is::<R, T>(names, vs, p - 1, m));
    }
}
pub open spec fn bad_field<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>, i: int, e: Error) -> bool {
    0 <= i < vs.len() && (names[i] matches Some(n) && exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Err(e0)) && e.is_at(e0, GLoc::Field(n)))
}
pub open spec fn sem_map<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<BTreeMap<String, T>, Error>) -> bool {
    match v.k {
        Kind::Comp(names, vs) => match r {
            Ok(m) => map_is::<R, T>(names, vs, vs.len() as int, m.map()),
            Err(e) => exists|i: int| #[trigger] bad_field::<R, T>(names, vs, i, e) && forall|j: int| 0 <= j < i && (#[trigger] names[j]) is Some ==> good::<R, T>(vs[j]),
        },
        k => refused(u_of(k), r),
    }
}
pub open spec fn sem_h128<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H128, Error>) -> bool { like::<R, [u8; 16], crate::xcr::primitive_types::H128>(v, |x: [u8; 16], y: crate::xcr::primitive_types::H128| y.bytes() == x@, r) }
pub open spec fn sem_h160<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H160, Error>) -> bool { like::<R, [u8; 20], crate::xcr::primitive_types::H160>(v, |x: [u8; 20], y: crate::xcr::primitive_types::H160| y.bytes() == x@, r) }
pub open spec fn sem_h256<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H256, Error>) -> bool { like::<R, [u8; 32], crate::xcr::primitive_types::H256>(v, |x: [u8; 32], y: crate::xcr::primitive_types::H256| y.bytes() == x@, r) }
pub open spec fn sem_h384<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H384, Error>) -> bool { like::<R, [u8; 48], crate::xcr::primitive_types::H384>(v, |x: [u8; 48], y: crate::xcr::primitive_types::H384| y.bytes() == x@, r) }
pub open spec fn sem_h512<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H512, Error>) -> bool { like::<R, [u8; 64], crate::xcr::primitive_types::H512>(v, |x: [u8; 64], y: crate::xcr::primitive_types::H512| y.bytes() == x@, r) }
pub open spec fn sem_h768<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H768, Error>) -> bool { like::<R, [u8; 96], crate::xcr::primitive_types::H768>(v, |x: [u8; 96], y: crate::xcr::primitive_types::H768| y.bytes() == x@, r) }

/// the type says whether a value is a list of fields
pub proof fn lemma_shape<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures parse(t, id, compact, b) matches Some((v, n)) ==> match t.desc(id) {
        None => false,
        Some(Desc::Composite(_, _)) | Some(Desc::Tuple(_)) => !v.c && (v.k is Comp || v.k is Tup),
        Some(Desc::Unhandled(_)) | Some(Desc::NotFound) => false,
        Some(_) => v.c || !(v.k is Comp || v.k is Tup),
    },
{ lemma_unfold(t, id, compact, b); }

pub open spec fn items0<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<(), Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) } else { match r { Ok(t) => true, Err(e) => false } }
}
pub open spec fn sem_tup0<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<(), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items0::<RR>(vs, r), Kind::Tup(vs) => items0::<RR>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items1<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A,), Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn sem_tup1<RR: TypeResolver, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A,), Error>) -> bool {
    if v.c || !(v.k is Comp || v.k is Tup) { like::<RR, A, (A,)>(v, |x: A, y: (A,)| y.0 == x, r) } else { match v.k { Kind::Comp(_, vs) => items1::<RR, A>(vs, r), Kind::Tup(vs) => items1::<RR, A>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B), Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn sem_tup2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items2::<RR, A, B>(vs, r), Kind::Tup(vs) => items2::<RR, A, B>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C), Error>) -> bool {
    if vs.len() != 3 { says(r, GKind::WrongLength(vs.len() as usize, 3)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && false)))))) } }
}
pub open spec fn sem_tup3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items3::<RR, A, B, C>(vs, r), Kind::Tup(vs) => items3::<RR, A, B, C>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items4<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D), Error>) -> bool {
    if vs.len() != 4 { says(r, GKind::WrongLength(vs.len() as usize, 4)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && false)))))))) } }
}
pub open spec fn sem_tup4<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items4::<RR, A, B, C, D>(vs, r), Kind::Tup(vs) => items4::<RR, A, B, C, D>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items5<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E), Error>) -> bool {
    if vs.len() != 5 { says(r, GKind::WrongLength(vs.len() as usize, 5)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && false)))))))))) } }
}
pub open spec fn sem_tup5<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items5::<RR, A, B, C, D, E>(vs, r), Kind::Tup(vs) => items5::<RR, A, B, C, D, E>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items6<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F), Error>) -> bool {
    if vs.len() != 6 { says(r, GKind::WrongLength(vs.len() as usize, 6)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && false)))))))))))) } }
}
pub open spec fn sem_tup6<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items6::<RR, A, B, C, D, E, F>(vs, r), Kind::Tup(vs) => items6::<RR, A, B, C, D, E, F>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items7<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G), Error>) -> bool {
    if vs.len() != 7 { says(r, GKind::WrongLength(vs.len() as usize, 7)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && false)))))))))))))) } }
}
pub open spec fn sem_tup7<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items7::<RR, A, B, C, D, E, F, G>(vs, r), Kind::Tup(vs) => items7::<RR, A, B, C, D, E, F, G>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items8<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H), Error>) -> bool {
    if vs.len() != 8 { says(r, GKind::WrongLength(vs.len() as usize, 8)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && false)))))))))))))))) } }
}
pub open spec fn sem_tup8<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items8::<RR, A, B, C, D, E, F, G, H>(vs, r), Kind::Tup(vs) => items8::<RR, A, B, C, D, E, F, G, H>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items9<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I), Error>) -> bool {
    if vs.len() != 9 { says(r, GKind::WrongLength(vs.len() as usize, 9)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && false)))))))))))))))))) } }
}
pub open spec fn sem_tup9<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items9::<RR, A, B, C, D, E, F, G, H, I>(vs, r), Kind::Tup(vs) => items9::<RR, A, B, C, D, E, F, G, H, I>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items10<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J), Error>) -> bool {
    if vs.len() != 10 { says(r, GKind::WrongLength(vs.len() as usize, 10)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && false)))))))))))))))))))) } }
}
pub open spec fn sem_tup10<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items10::<RR, A, B, C, D, E, F, G, H, I, J>(vs, r), Kind::Tup(vs) => items10::<RR, A, B, C, D, E, F, G, H, I, J>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items11<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K), Error>) -> bool {
    if vs.len() != 11 { says(r, GKind::WrongLength(vs.len() as usize, 11)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && false)))))))))))))))))))))) } }
}
pub open spec fn sem_tup11<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items11::<RR, A, B, C, D, E, F, G, H, I, J, K>(vs, r), Kind::Tup(vs) => items11::<RR, A, B, C, D, E, F, G, H, I, J, K>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items12<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L), Error>) -> bool {
    if vs.len() != 12 { says(r, GKind::WrongLength(vs.len() as usize, 12)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && false)))))))))))))))))))))))) } }
}
pub open spec fn sem_tup12<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items12::<RR, A, B, C, D, E, F, G, H, I, J, K, L>(vs, r), Kind::Tup(vs) => items12::<RR, A, B, C, D, E, F, G, H, I, J, K, L>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items13<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M), Error>) -> bool {
    if vs.len() != 13 { says(r, GKind::WrongLength(vs.len() as usize, 13)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && false)))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup13<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items13::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M>(vs, r), Kind::Tup(vs) => items13::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items14<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N), Error>) -> bool {
    if vs.len() != 14 { says(r, GKind::WrongLength(vs.len() as usize, 14)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && false)))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup14<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items14::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N>(vs, r), Kind::Tup(vs) => items14::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items15<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O), Error>) -> bool {
    if vs.len() != 15 { says(r, GKind::WrongLength(vs.len() as usize, 15)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && false)))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup15<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items15::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O>(vs, r), Kind::Tup(vs) => items15::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items16<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P), Error>) -> bool {
    if vs.len() != 16 { says(r, GKind::WrongLength(vs.len() as usize, 16)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)) && <P as IntoVisitor<RR>>::tsem(vs[15], Ok(t.15)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && (bad::<RR, P>(vs[15], 15, e) || (good::<RR, P>(vs[15]) && false)))))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup16<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items16::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P>(vs, r), Kind::Tup(vs) => items16::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items17<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q), Error>) -> bool {
    if vs.len() != 17 { says(r, GKind::WrongLength(vs.len() as usize, 17)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)) && <P as IntoVisitor<RR>>::tsem(vs[15], Ok(t.15)) && <Q as IntoVisitor<RR>>::tsem(vs[16], Ok(t.16)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && (bad::<RR, P>(vs[15], 15, e) || (good::<RR, P>(vs[15]) && (bad::<RR, Q>(vs[16], 16, e) || (good::<RR, Q>(vs[16]) && false)))))))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup17<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items17::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q>(vs, r), Kind::Tup(vs) => items17::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items18<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R), Error>) -> bool {
    if vs.len() != 18 { says(r, GKind::WrongLength(vs.len() as usize, 18)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)) && <P as IntoVisitor<RR>>::tsem(vs[15], Ok(t.15)) && <Q as IntoVisitor<RR>>::tsem(vs[16], Ok(t.16)) && <R as IntoVisitor<RR>>::tsem(vs[17], Ok(t.17)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && (bad::<RR, P>(vs[15], 15, e) || (good::<RR, P>(vs[15]) && (bad::<RR, Q>(vs[16], 16, e) || (good::<RR, Q>(vs[16]) && (bad::<RR, R>(vs[17], 17, e) || (good::<RR, R>(vs[17]) && false)))))))))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup18<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items18::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R>(vs, r), Kind::Tup(vs) => items18::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items19<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>, S: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S), Error>) -> bool {
    if vs.len() != 19 { says(r, GKind::WrongLength(vs.len() as usize, 19)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)) && <P as IntoVisitor<RR>>::tsem(vs[15], Ok(t.15)) && <Q as IntoVisitor<RR>>::tsem(vs[16], Ok(t.16)) && <R as IntoVisitor<RR>>::tsem(vs[17], Ok(t.17)) && <S as IntoVisitor<RR>>::tsem(vs[18], Ok(t.18)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && (bad::<RR, P>(vs[15], 15, e) || (good::<RR, P>(vs[15]) && (bad::<RR, Q>(vs[16], 16, e) || (good::<RR, Q>(vs[16]) && (bad::<RR, R>(vs[17], 17, e) || (good::<RR, R>(vs[17]) && (bad::<RR, S>(vs[18], 18, e) || (good::<RR, S>(vs[18]) && false)))))))))))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup19<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>, S: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items19::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S>(vs, r), Kind::Tup(vs) => items19::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S>(vs, r), k => refused(u_of(k), r) } }
}
pub open spec fn items20<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>, S: IntoVisitor<RR>, T: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T), Error>) -> bool {
    if vs.len() != 20 { says(r, GKind::WrongLength(vs.len() as usize, 20)) } else { match r { Ok(t) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(t.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(t.1)) && <C as IntoVisitor<RR>>::tsem(vs[2], Ok(t.2)) && <D as IntoVisitor<RR>>::tsem(vs[3], Ok(t.3)) && <E as IntoVisitor<RR>>::tsem(vs[4], Ok(t.4)) && <F as IntoVisitor<RR>>::tsem(vs[5], Ok(t.5)) && <G as IntoVisitor<RR>>::tsem(vs[6], Ok(t.6)) && <H as IntoVisitor<RR>>::tsem(vs[7], Ok(t.7)) && <I as IntoVisitor<RR>>::tsem(vs[8], Ok(t.8)) && <J as IntoVisitor<RR>>::tsem(vs[9], Ok(t.9)) && <K as IntoVisitor<RR>>::tsem(vs[10], Ok(t.10)) && <L as IntoVisitor<RR>>::tsem(vs[11], Ok(t.11)) && <M as IntoVisitor<RR>>::tsem(vs[12], Ok(t.12)) && <N as IntoVisitor<RR>>::tsem(vs[13], Ok(t.13)) && <O as IntoVisitor<RR>>::tsem(vs[14], Ok(t.14)) && <P as IntoVisitor<RR>>::tsem(vs[15], Ok(t.15)) && <Q as IntoVisitor<RR>>::tsem(vs[16], Ok(t.16)) && <R as IntoVisitor<RR>>::tsem(vs[17], Ok(t.17)) && <S as IntoVisitor<RR>>::tsem(vs[18], Ok(t.18)) && <T as IntoVisitor<RR>>::tsem(vs[19], Ok(t.19)), Err(e) => (bad::<RR, A>(vs[0], 0, e) || (good::<RR, A>(vs[0]) && (bad::<RR, B>(vs[1], 1, e) || (good::<RR, B>(vs[1]) && (bad::<RR, C>(vs[2], 2, e) || (good::<RR, C>(vs[2]) && (bad::<RR, D>(vs[3], 3, e) || (good::<RR, D>(vs[3]) && (bad::<RR, E>(vs[4], 4, e) || (good::<RR, E>(vs[4]) && (bad::<RR, F>(vs[5], 5, e) || (good::<RR, F>(vs[5]) && (bad::<RR, G>(vs[6], 6, e) || (good::<RR, G>(vs[6]) && (bad::<RR, H>(vs[7], 7, e) || (good::<RR, H>(vs[7]) && (bad::<RR, I>(vs[8], 8, e) || (good::<RR, I>(vs[8]) && (bad::<RR, J>(vs[9], 9, e) || (good::<RR, J>(vs[9]) && (bad::<RR, K>(vs[10], 10, e) || (good::<RR, K>(vs[10]) && (bad::<RR, L>(vs[11], 11, e) || (good::<RR, L>(vs[11]) && (bad::<RR, M>(vs[12], 12, e) || (good::<RR, M>(vs[12]) && (bad::<RR, N>(vs[13], 13, e) || (good::<RR, N>(vs[13]) && (bad::<RR, O>(vs[14], 14, e) || (good::<RR, O>(vs[14]) && (bad::<RR, P>(vs[15], 15, e) || (good::<RR, P>(vs[15]) && (bad::<RR, Q>(vs[16], 16, e) || (good::<RR, Q>(vs[16]) && (bad::<RR, R>(vs[17], 17, e) || (good::<RR, R>(vs[17]) && (bad::<RR, S>(vs[18], 18, e) || (good::<RR, S>(vs[18]) && (bad::<RR, T>(vs[19], 19, e) || (good::<RR, T>(vs[19]) && false)))))))))))))))))))))))))))))))))))))))) } }
}
pub open spec fn sem_tup20<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, C: IntoVisitor<RR>, D: IntoVisitor<RR>, E: IntoVisitor<RR>, F: IntoVisitor<RR>, G: IntoVisitor<RR>, H: IntoVisitor<RR>, I: IntoVisitor<RR>, J: IntoVisitor<RR>, K: IntoVisitor<RR>, L: IntoVisitor<RR>, M: IntoVisitor<RR>, N: IntoVisitor<RR>, O: IntoVisitor<RR>, P: IntoVisitor<RR>, Q: IntoVisitor<RR>, R: IntoVisitor<RR>, S: IntoVisitor<RR>, T: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T), Error>) -> bool {
    { match v.k { Kind::Comp(_, vs) => items20::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T>(vs, r), Kind::Tup(vs) => items20::<RR, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T>(vs, r), k => refused(u_of(k), r) } }
}
} // targets

%split impls 12
%drop use:core::num::*
%mod impls
#[allow(unused_imports)] use crate::targets::*;
#[allow(unused_imports)] use crate::xnum::*;
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError};

%impl impls::<BasicVisitor<char,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_char(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<char as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_char(v, r) }
%impl impls::<BasicVisitor<bool,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_bool(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<bool as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_bool(v, r) }
%impl impls::<BasicVisitor<String,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_string(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<String as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_string(v, r) }
%impl impls::<BasicVisitor<PhantomData<T>,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_phantom(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<PhantomData<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_phantom(v, r) }
%impl impls::<BasicVisitor<u8,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<u8 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<u16,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<u16 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<u32,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<u32 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<u64,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<u64 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<u128,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<u128 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<usize,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<usize as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<i8,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<i8 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<i16,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<i16 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<i32,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<i32 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<i64,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<i64 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<i128,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<i128 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<isize,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<isize as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroU8,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroU8 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroU16,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroU16 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroU32,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroU32 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroU64,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroU64 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroU128,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroU128 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroI8,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroI8 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroI16,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroI16 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroI32,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroI32 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroI64,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroI64 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<NonZeroI128,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_num(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<NonZeroI128 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_num(v, r) }
%impl impls::<BasicVisitor<Bits,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_bits(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Bits as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_bits(v, r) }
%impl impls::<BasicVisitor<Option<T>,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_option::<R, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.variant_name@ == "Some"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Some"@)) } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("Some"@).push("None"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Option<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_option::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Result<T,E>,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_result::<R, T, E>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.variant_name@ == "Ok"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Ok"@)) } else if c0.variant_name@ == "Err"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Err"@)) } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("Ok"@).push("Err"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Result<T,E> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_result::<$R, T, E>(v, r) }
%impl impls::<BasicVisitor<Box<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_box::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Box<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_box::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Rc<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_rc::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Rc<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_rc::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Arc<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_arc::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Arc<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_arc::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Compact<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_compact::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Compact<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_compact::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Range<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_range::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Range<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_range::<$R, T>(v, r) }
%impl impls::<BasicVisitor<RangeInclusive<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_range_inclusive::<Resolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<RangeInclusive<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_range_inclusive::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Cow<T>,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_cow::<R, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Cow<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_cow::<$R, T>(v, r) }
%impl impls::<BasicVisitor<Vec<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_coll::<Resolver, T, Vec<T>>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Vec<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_coll::<$R, T, Vec<T>>(v, r) }
%impl impls::<BasicVisitor<VecDeque<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_coll::<Resolver, T, VecDeque<T>>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<VecDeque<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_coll::<$R, T, VecDeque<T>>(v, r) }
%impl impls::<BasicVisitor<LinkedList<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_coll::<Resolver, T, LinkedList<T>>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<LinkedList<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_coll::<$R, T, LinkedList<T>>(v, r) }
%impl impls::<BasicVisitor<BinaryHeap<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_coll::<Resolver, T, BinaryHeap<T>>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<BinaryHeap<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_coll::<$R, T, BinaryHeap<T>>(v, r) }
%impl impls::<BasicVisitor<BTreeSet<T>,Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_coll::<Resolver, T, BTreeSet<T>>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<BTreeSet<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_coll::<$R, T, BTreeSet<T>>(v, r) }
%impl impls::<BasicVisitor<[T;N],R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_array::<R, T, N>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0.values, e) || (c0.values.remaining != N && e.says(crate::error::GKind::WrongLength(c0.values.remaining, N))) }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::items_at(c0, e) || (c0.remaining != N && e.says(crate::error::GKind::WrongLength(c0.remaining, N))) }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<[T;N] as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_array::<$R, T, N>(v, r) }
%impl impls::<BasicVisitor<BTreeMap<String,T>,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_map::<R, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::named_at(c0, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<BTreeMap<String,T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_map::<$R, T>(v, r) }
%impl impls::<BasicVisitor<(),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup0::<Resolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 0, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 0, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<() as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup0::<$R>(v, r) }
%impl impls::<() as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items0::<$R>(vs, r) }
%fn impls::<BasicVisitor<(),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { v.c || !(v.k is Comp || v.k is Tup) }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup1::<Resolver, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 1, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 1, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup1::<$R, A>(v, r) }
%impl impls::<(A,) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items1::<$R, A>(vs, r) }
%fn impls::<BasicVisitor<(A,),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup2::<Resolver, A, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 2, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 2, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup2::<$R, A, B>(v, r) }
%impl impls::<(A,B) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items2::<$R, A, B>(vs, r) }
%fn impls::<BasicVisitor<(A,B),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup3::<Resolver, A, B, C>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 3, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 3, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup3::<$R, A, B, C>(v, r) }
%impl impls::<(A,B,C) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items3::<$R, A, B, C>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup4::<Resolver, A, B, C, D>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 4, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 4, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup4::<$R, A, B, C, D>(v, r) }
%impl impls::<(A,B,C,D) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items4::<$R, A, B, C, D>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup5::<Resolver, A, B, C, D, E>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 5, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 5, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup5::<$R, A, B, C, D, E>(v, r) }
%impl impls::<(A,B,C,D,E) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items5::<$R, A, B, C, D, E>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup6::<Resolver, A, B, C, D, E, F>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 6, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 6, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup6::<$R, A, B, C, D, E, F>(v, r) }
%impl impls::<(A,B,C,D,E,F) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items6::<$R, A, B, C, D, E, F>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup7::<Resolver, A, B, C, D, E, F, G>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 7, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 7, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup7::<$R, A, B, C, D, E, F, G>(v, r) }
%impl impls::<(A,B,C,D,E,F,G) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items7::<$R, A, B, C, D, E, F, G>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup8::<Resolver, A, B, C, D, E, F, G, H>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 8, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 8, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup8::<$R, A, B, C, D, E, F, G, H>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items8::<$R, A, B, C, D, E, F, G, H>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup9::<Resolver, A, B, C, D, E, F, G, H, I>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 9, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 9, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup9::<$R, A, B, C, D, E, F, G, H, I>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items9::<$R, A, B, C, D, E, F, G, H, I>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup10::<Resolver, A, B, C, D, E, F, G, H, I, J>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 10, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 10, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup10::<$R, A, B, C, D, E, F, G, H, I, J>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items10::<$R, A, B, C, D, E, F, G, H, I, J>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup11::<Resolver, A, B, C, D, E, F, G, H, I, J, K>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 11, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 11, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup11::<$R, A, B, C, D, E, F, G, H, I, J, K>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items11::<$R, A, B, C, D, E, F, G, H, I, J, K>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup12::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 12, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 12, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup12::<$R, A, B, C, D, E, F, G, H, I, J, K, L>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items12::<$R, A, B, C, D, E, F, G, H, I, J, K, L>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup13::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 13, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 13, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup13::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items13::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup14::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 14, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 14, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup14::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items14::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup15::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 15, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 15, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup15::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items15::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup16::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 16, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 16, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup16::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items16::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup17::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 17, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 17, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup17::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items17::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup18::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 18, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 18, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup18::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items18::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup19::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 19, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 19, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup19::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items19::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_tup20::<Resolver, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 20, e) }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, 20, e) }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_tup20::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T>(v, r) }
%impl impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::targets::items20::<$R, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T>(vs, r) }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver> as Visitor>::visit_composite
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); }
%fn impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); }
%impl impls::<TryDecodeAsInner<TypeId> as ResolvedTypeVisitor>
    // what scale-type-resolver does for the kinds which are not handled
    #[verifier::prophetic]
    open spec fn rpost(self, d: crate::xcr::Desc<TypeId>, v: bool) -> bool {
        v == !(d is Composite || d is Tuple || d is NotFound || (d matches crate::xcr::Desc::Unhandled(k) && (k is Composite || k is Tuple || k is NotFound)))
    }
    #[verifier::prophetic]
    open spec fn runused(self) -> bool { true }
    fn visit_not_found(self) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::NotFound) }
    fn visit_composite<Path, Fields>(self, path: Path, fields: Fields) -> (v: bool) where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, TypeId> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Composite) }
    fn visit_variant<Path, Fields, Var>(self, path: Path, variants: Var) -> (v: bool) where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, TypeId>, Var: VariantIter<'resolver, Fields> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Variant) }
    fn visit_sequence<Path>(self, path: Path, type_id: TypeId) -> (v: bool) where Path: PathIter<'resolver> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Sequence) }
    fn visit_array(self, type_id: TypeId, len: usize) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Array) }
    fn visit_tuple<TypeIds>(self, type_ids: TypeIds) -> (v: bool) where TypeIds: ExactSizeIterator<Item = TypeId> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Tuple) }
    fn visit_primitive(self, primitive: Primitive) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Primitive) }
    fn visit_compact(self, type_id: TypeId) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Compact) }
    fn visit_bit_sequence(self, store_format: BitsStoreFormat, order_format: BitsOrderFormat) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::BitSequence) }
%mod impls
#[allow(unused_imports)] use crate::xcr::scale_type_resolver::{PathIter, VariantIter, BitsStoreFormat, BitsOrderFormat, Primitive};
#[allow(unused_imports)] use crate::xcr::ExactSizeIterator;

%fn impls::<BasicVisitor<(A,),Resolver> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    proof { crate::targets::lemma_shape(types, type_id, is_compact, input@); }
%impl impls::<BasicVisitor<Duration,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_duration::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::<Duration as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_duration::<$R>(v, r) }
%fn impls::<u8 as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn impls::<u32 as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn impls::<u64 as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn impls::<(A,B) as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn impls::<[T;N] as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn impls::primitive_types::<BasicVisitor<H128,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 16], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 16], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 16] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H128,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h128::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H128 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h128::<$R>(v, r) }
%fn impls::primitive_types::<BasicVisitor<H160,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 20], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 20], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 20] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H160,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h160::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H160 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h160::<$R>(v, r) }
%fn impls::primitive_types::<BasicVisitor<H256,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 32], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 32], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 32] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H256,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h256::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H256 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h256::<$R>(v, r) }
%fn impls::primitive_types::<BasicVisitor<H384,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 48], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 48], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 48] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H384,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h384::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H384 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h384::<$R>(v, r) }
%fn impls::primitive_types::<BasicVisitor<H512,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 64], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 64], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 64] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H512,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h512::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H512 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h512::<$R>(v, r) }
%fn impls::primitive_types::<BasicVisitor<H768,R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; 96], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; 96], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; 96] as crate::IntoVisitor<R>>::tsem(v, r) by { }
%impl impls::primitive_types::<BasicVisitor<H768,R> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { true }
    open spec fn plain_hook(self) -> bool { false }
    open spec fn whole(self) -> bool { false }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::sem_h768::<R>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { true }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl impls::primitive_types::<H768 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::targets::sem_h768::<$R>(v, r) }
%inline map Result in impls::primitive_types::*
%inline map Result in impls::<BasicVisitor<*> as Visitor>::unchecked_decode_as_type*
%inline and_then Result in impls::<BasicVisitor<*> as Visitor>::unchecked_decode_as_type*
%drop use:core::ops::RangeInclusive
%drop use:core::time::Duration
%drop use:alloc::borrow::ToOwned
%drop use:alloc::collections::BTreeMap
%drop use:alloc::collections::BTreeSet
%drop use:alloc::collections::BinaryHeap
%drop use:alloc::collections::LinkedList
%drop use:alloc::collections::VecDeque
%mod impls::primitive_types
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError, types::*};
#[allow(unused_imports)] use crate::targets::*;

%rename try_into => vx_try_into in impls::*
%fn impls::<BasicVisitor<*> as Visitor>::visit_variant [opt]
%params value type_id
%pre
    proof { Composite::lemma_refl(value.fields); if value.fields.next_field_idx < value.fields.fields@.len() { Composite::lemma_first(value.fields); } }
%lift impls::decode_items_using usize
%inline map Option in impls::Vx_decode_items_using*
%fn impls::decode_items_using
%params decoder
%spec
    ensures *res.vx_0 == *old(decoder), *final(res.vx_0) == *final(decoder), res.vx_1 == 0
%fn impls::Vx_decode_items_using<R,D,T>::next
%spec
    requires old(self).vx_0.ii(), old(self).vx_1 < usize::MAX
    ensures
        *final(final(self).vx_0) == *final(old(self).vx_0), final(self).vx_0.ii(),
        old(self).vx_0.ileft() == 0 ==> res is None && old(self).vx_0.iadv(&*final(self).vx_0),
        res matches Some(Err(e)) ==> old(self).vx_0.ileft() > 0 && raised(e, crate::error::GLoc::Index(old(self).vx_1)),
        old(self).vx_0.ileft() > 0 ==> final(self).vx_1 == old(self).vx_1 + 1 && match res { None => false, Some(r) => match old(self).vx_0.ifirst() {
            Some(v) => match r {
                Ok(x) => <T as crate::IntoVisitor<R>>::tsem(v, Ok(x)) && old(self).vx_0.iadv(&*final(self).vx_0) && final(self).vx_0.ileft() == old(self).vx_0.ileft() - 1,
                Err(e) => bad::<R, T>(v, old(self).vx_1 as int, e),
            },
            None => r is Err && old(self).vx_0.irest() is None,
        } },
%impl impls::Vx_decode_items_using<R,D,T>
    /// `Iterator::collect` into a `Result`: stops at the first error
    #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
    pub fn collect<C: VxFromResults<T, Error>>(self) -> (res: C)
        requires self.vx_0.ii(), self.vx_1 == 0,
        ensures
            (*final(self.vx_0)).ii(),
            res.result() is Ok ==> old(self.vx_0).iadv(&*final(self.vx_0)),
            res.result() matches Ok(k) ==> of_len::<T, C::K>(k, old(self.vx_0).ileft()),
            res.result() matches Err(e) ==> stopped::<R, D>(*old(self.vx_0), e),
            old(self.vx_0).irest() matches Some((vs, _)) ==> coll_r::<R, T, C::K>(vs, res.result()),
    {
        let ghost d0 = *self.vx_0;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        proof { D::lemma_it(d0); }
        loop
            invariant
                it.vx_0.ii(), d0.iadv(&*it.vx_0), *final(it.vx_0) == *final(self.vx_0),
                it.vx_1 == v@.len(), it.vx_0.ileft() == d0.ileft() - v@.len(),
                d0.irest() matches Some((vs, _)) ==> forall|i: int| 0 <= i < v@.len() ==> <T as crate::IntoVisitor<R>>::tsem(#[trigger] vs[i], Ok(v@[i])),
        {
            proof { D::lemma_it(*it.vx_0); assert(d0.irest() matches Some((vs, _)) ==> forall|i: int| 0 <= i < v@.len() ==> good::<R, T>(#[trigger] vs[i])); }
            // no loop gets this far
            assume(it.vx_1 < usize::MAX);
            let ghost b = *it.vx_0;
            match it.next() {
                None => {
                    proof { if let Some((vs, _)) = d0.irest() { assert(sem_items::<R, T>(vs, v@)); } }
                    return C::wrap(Ok(C::K::from_items(v)));
                }
                Some(Ok(x)) => { v.push(x); }
                Some(Err(e)) => { return C::wrap(Err(e)); }
            }
        }
    }
%rename to_string => vx_to_string in *
%rename to_owned => vx_to_owned in impls::*
%fn impls::<BasicVisitor<*> as Visitor>::visit_composite [opt twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn impls::<BasicVisitor<*> as Visitor>::visit_tuple [opt twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }

%fn impls::<BasicVisitor<BTreeMap<String,T>,R> as Visitor>::visit_composite [twin]
%params value type_id
%attr #[verifier::loop_isolation(false)]
%pre
    broadcast use {crate::rules::walk, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<R::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); Composite::lemma_names(me); crate::targets::lemma_map::<R, T>(gn, gv);
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::targets::map_is::<R, T>(gn, gv, value.next_field_idx - me.next_field_idx, map.map()),
        me.rest() is Some ==> forall|j: int| 0 <= j < value.next_field_idx - me.next_field_idx && (#[trigger] gn[j]) is Some ==> good::<R, T>(gv[j]),

%props impls::<BasicVisitor<u8,R>?as?Visitor>::* C13
%props impls::<u8?as?IntoVisitor>* C13
%props impls::<BasicVisitor<u8,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<u8,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<u8,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<u8,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<u8,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<u16,R>?as?Visitor>::* C13
%props impls::<u16?as?IntoVisitor>* C13
%props impls::<BasicVisitor<u16,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<u16,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<u16,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<u16,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<u16,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<u32,R>?as?Visitor>::* C13
%props impls::<u32?as?IntoVisitor>* C13
%props impls::<BasicVisitor<u32,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<u32,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<u32,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<u32,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<u32,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<u64,R>?as?Visitor>::* C13
%props impls::<u64?as?IntoVisitor>* C13
%props impls::<BasicVisitor<u64,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<u64,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<u64,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<u64,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<u64,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<u128,R>?as?Visitor>::* C13
%props impls::<u128?as?IntoVisitor>* C13
%props impls::<BasicVisitor<u128,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<u128,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<u128,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<u128,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<u128,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<usize,R>?as?Visitor>::* C13
%props impls::<usize?as?IntoVisitor>* C13
%props impls::<BasicVisitor<usize,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<usize,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<usize,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<usize,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<usize,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<i8,R>?as?Visitor>::* C13
%props impls::<i8?as?IntoVisitor>* C13
%props impls::<BasicVisitor<i8,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<i8,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<i8,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<i8,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<i8,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<i16,R>?as?Visitor>::* C13
%props impls::<i16?as?IntoVisitor>* C13
%props impls::<BasicVisitor<i16,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<i16,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<i16,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<i16,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<i16,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<i32,R>?as?Visitor>::* C13
%props impls::<i32?as?IntoVisitor>* C13
%props impls::<BasicVisitor<i32,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<i32,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<i32,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<i32,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<i32,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<i64,R>?as?Visitor>::* C13
%props impls::<i64?as?IntoVisitor>* C13
%props impls::<BasicVisitor<i64,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<i64,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<i64,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<i64,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<i64,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<i128,R>?as?Visitor>::* C13
%props impls::<i128?as?IntoVisitor>* C13
%props impls::<BasicVisitor<i128,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<i128,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<i128,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<i128,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<i128,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<isize,R>?as?Visitor>::* C13
%props impls::<isize?as?IntoVisitor>* C13
%props impls::<BasicVisitor<isize,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<isize,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<isize,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<isize,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<isize,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::* C13
%props impls::<NonZeroU8?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroU8,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::* C13
%props impls::<NonZeroU16?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroU16,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::* C13
%props impls::<NonZeroU32?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroU32,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::* C13
%props impls::<NonZeroU64?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroU64,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::* C13
%props impls::<NonZeroU128?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroU128,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::* C13
%props impls::<NonZeroI8?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroI8,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::* C13
%props impls::<NonZeroI16?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroI16,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::* C13
%props impls::<NonZeroI32?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroI32,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::* C13
%props impls::<NonZeroI64?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroI64,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::* C13
%props impls::<NonZeroI128?as?IntoVisitor>* C13
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::visit_composite C13 C14
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::visit_tuple C13 C14
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::visit_u* C05 C13
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::visit_i* C13
%props impls::<BasicVisitor<NonZeroI128,R>?as?Visitor>::visit_unexpected C13
%props impls::<BasicVisitor<char,R>?as?Visitor>::* C04
%props impls::<char?as?IntoVisitor>* C04 C14
%props impls::<BasicVisitor<char,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<char,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<char,R>?as?Visitor>::visit_variant C04
%props impls::<BasicVisitor<char,R>?as?Visitor>::visit_sequence C04
%props impls::<BasicVisitor<char,R>?as?Visitor>::visit_array C04
%props impls::<BasicVisitor<bool,R>?as?Visitor>::* C04
%props impls::<bool?as?IntoVisitor>* C04 C14
%props impls::<BasicVisitor<bool,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<bool,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<bool,R>?as?Visitor>::visit_variant C04
%props impls::<BasicVisitor<bool,R>?as?Visitor>::visit_sequence C04
%props impls::<BasicVisitor<bool,R>?as?Visitor>::visit_array C04
%props impls::<BasicVisitor<String,R>?as?Visitor>::* C04 C11
%props impls::<String?as?IntoVisitor>* C04 C11 C14
%props impls::<BasicVisitor<String,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<String,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<String,R>?as?Visitor>::visit_variant C04 C11
%props impls::<BasicVisitor<String,R>?as?Visitor>::visit_sequence C04 C11
%props impls::<BasicVisitor<String,R>?as?Visitor>::visit_array C04 C11
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::* C04 C11
%props impls::<Bits?as?IntoVisitor>* C04 C11 C14
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::visit_variant C04 C11
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::visit_sequence C04 C11
%props impls::<BasicVisitor<Bits,R>?as?Visitor>::visit_array C04 C11
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::* C15
%props impls::<Option<T>?as?IntoVisitor>* C15 C14
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::visit_variant C15 C21
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::visit_sequence C15 C21
%props impls::<BasicVisitor<Option<T>,R>?as?Visitor>::visit_array C15 C21
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::* C15
%props impls::<Result<T,E>?as?IntoVisitor>* C15 C14
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::visit_variant C15 C21
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::visit_sequence C15 C21
%props impls::<BasicVisitor<Result<T,E>,R>?as?Visitor>::visit_array C15 C21
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::* C16
%props impls::<Vec<T>?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<Vec<T>,Resolver>?as?Visitor>::visit_array C16 C21
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::* C16
%props impls::<VecDeque<T>?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<VecDeque<T>,Resolver>?as?Visitor>::visit_array C16 C21
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::* C16
%props impls::<LinkedList<T>?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<LinkedList<T>,Resolver>?as?Visitor>::visit_array C16 C21
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::* C16
%props impls::<BinaryHeap<T>?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<BinaryHeap<T>,Resolver>?as?Visitor>::visit_array C16 C21
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::* C16
%props impls::<BTreeSet<T>?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<BTreeSet<T>,Resolver>?as?Visitor>::visit_array C16 C21
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::* C16
%props impls::<[T;N]?as?IntoVisitor>* C16 C14
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::visit_composite C14
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::visit_tuple C14
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::visit_variant C16 C21
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::visit_sequence C16 C21
%props impls::<BasicVisitor<[T;N],R>?as?Visitor>::visit_array C16 C21
%props impls::*decode_items_using* C16 C21
%props impls::<BasicVisitor<(),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<()?as?IntoVisitor>* C17
%props impls::<()?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,)?as?IntoVisitor>* C17
%props impls::<(A,)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B)?as?IntoVisitor>* C17
%props impls::<(A,B)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C)?as?IntoVisitor>* C17
%props impls::<(A,B,C)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver>?as?Visitor>::* C17
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver>?as?Visitor>::visit_composite C17 C21
%props impls::<BasicVisitor<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T),Resolver>?as?Visitor>::visit_tuple C17 C21
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)?as?IntoVisitor>* C17
%props impls::<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)?as?DecodeAsFields>* C01 C10 C22
%props impls::<BasicVisitor<(A,),Resolver>?as?Visitor>::unchecked* C01 C02 C12 C14 C17
%props impls::<TryDecodeAsInner* C17
%props impls::<BasicVisitor<Box<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Box<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Box<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Box<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Box<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Rc<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Rc<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Rc<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Rc<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Rc<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Arc<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Arc<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Arc<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Arc<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Arc<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Compact<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Compact<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Compact<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Compact<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Compact<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Range<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Range<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Range<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Range<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Range<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<RangeInclusive<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<RangeInclusive<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<RangeInclusive<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<RangeInclusive<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<RangeInclusive<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Cow<T>,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Cow<T>,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<BasicVisitor<Cow<T>,Resolver>?as?Visitor>::* C18
%props impls::<BasicVisitor<Cow<T>,Resolver>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Cow<T>?as?IntoVisitor>* C18
%props impls::<BasicVisitor<Duration,R>?as?Visitor>::* C18
%props impls::<BasicVisitor<Duration,R>?as?Visitor>::unchecked* C01 C02 C12
%props impls::<Duration?as?IntoVisitor>* C18
%props impls::primitive_types::* C18
%props impls::primitive_types::*unchecked* C01 C02 C12
%props impls::<BasicVisitor<BTreeMap<String,T>,R>?as?Visitor>::* C23
%props impls::<BasicVisitor<BTreeMap<String,T>,R>?as?Visitor>::visit_composite C21
%props impls::<BTreeMap<String,T>?as?IntoVisitor>* C23
%props impls::<BasicVisitor<PhantomData<T>,R>?as?Visitor>::* C02
%root
pub mod xnum {
use vstd::prelude::*;
use crate::xcr::*;
/// integers, and those which are not zero
pub trait VxInt: Sized { spec fn int(self) -> int; spec fn fits(i: int) -> bool; }

impl VxInt for u8 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { u8::MIN <= i <= u8::MAX } }
impl VxInt for u16 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { u16::MIN <= i <= u16::MAX } }
impl VxInt for u32 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { u32::MIN <= i <= u32::MAX } }
impl VxInt for u64 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { u64::MIN <= i <= u64::MAX } }
impl VxInt for u128 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { u128::MIN <= i <= u128::MAX } }
impl VxInt for usize { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { usize::MIN <= i <= usize::MAX } }
impl VxInt for i8 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { i8::MIN <= i <= i8::MAX } }
impl VxInt for i16 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { i16::MIN <= i <= i16::MAX } }
impl VxInt for i32 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { i32::MIN <= i <= i32::MAX } }
impl VxInt for i64 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { i64::MIN <= i <= i64::MAX } }
impl VxInt for i128 { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { i128::MIN <= i <= i128::MAX } }
impl VxInt for isize { open spec fn int(self) -> int { self as int } open spec fn fits(i: int) -> bool { isize::MIN <= i <= isize::MAX } }
#[verifier::external_body] pub struct NonZeroU8 { v: u8 }
impl NonZeroU8 {
    pub uninterp spec fn get(self) -> u8;
    #[verifier::external_body] pub fn new(n: u8) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroU8 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { u8::MIN <= i <= u8::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroU16 { v: u16 }
impl NonZeroU16 {
    pub uninterp spec fn get(self) -> u16;
    #[verifier::external_body] pub fn new(n: u16) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroU16 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { u16::MIN <= i <= u16::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroU32 { v: u32 }
impl NonZeroU32 {
    pub uninterp spec fn get(self) -> u32;
    #[verifier::external_body] pub fn new(n: u32) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroU32 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { u32::MIN <= i <= u32::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroU64 { v: u64 }
impl NonZeroU64 {
    pub uninterp spec fn get(self) -> u64;
    #[verifier::external_body] pub fn new(n: u64) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroU64 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { u64::MIN <= i <= u64::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroU128 { v: u128 }
impl NonZeroU128 {
    pub uninterp spec fn get(self) -> u128;
    #[verifier::external_body] pub fn new(n: u128) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroU128 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { u128::MIN <= i <= u128::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroI8 { v: i8 }
impl NonZeroI8 {
    pub uninterp spec fn get(self) -> i8;
    #[verifier::external_body] pub fn new(n: i8) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroI8 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { i8::MIN <= i <= i8::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroI16 { v: i16 }
impl NonZeroI16 {
    pub uninterp spec fn get(self) -> i16;
    #[verifier::external_body] pub fn new(n: i16) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroI16 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { i16::MIN <= i <= i16::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroI32 { v: i32 }
impl NonZeroI32 {
    pub uninterp spec fn get(self) -> i32;
    #[verifier::external_body] pub fn new(n: i32) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroI32 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { i32::MIN <= i <= i32::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroI64 { v: i64 }
impl NonZeroI64 {
    pub uninterp spec fn get(self) -> i64;
    #[verifier::external_body] pub fn new(n: i64) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroI64 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { i64::MIN <= i <= i64::MAX && i != 0 } }
#[verifier::external_body] pub struct NonZeroI128 { v: i128 }
impl NonZeroI128 {
    pub uninterp spec fn get(self) -> i128;
    #[verifier::external_body] pub fn new(n: i128) -> (r: Option<Self>) ensures match r { Some(x) => x.get() == n && n != 0, None => n == 0 } { unimplemented!() }
}
impl VxInt for NonZeroI128 { open spec fn int(self) -> int { self.get() as int } open spec fn fits(i: int) -> bool { i128::MIN <= i <= i128::MAX && i != 0 } }
#[verifier::external_body] pub struct IntError { _p: () }
impl VxTryInto<u8> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for u8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for u16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for u32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for u64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for u128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for i8 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for i16 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for i32 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for i64 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
impl VxTryInto<u8> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u8, IntError>) { unimplemented!() }
}
impl VxTryInto<u16> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, IntError>) { unimplemented!() }
}
impl VxTryInto<u32> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VxTryInto<u64> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VxTryInto<u128> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<u128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<u128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u128, IntError>) { unimplemented!() }
}
impl VxTryInto<usize> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<usize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<usize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, IntError>) { unimplemented!() }
}
impl VxTryInto<i8> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i8, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i8 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i8, IntError>) { unimplemented!() }
}
impl VxTryInto<i16> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i16, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i16 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i16, IntError>) { unimplemented!() }
}
impl VxTryInto<i32> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i32, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i32 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IntError>) { unimplemented!() }
}
impl VxTryInto<i64> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i64, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i64 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i64, IntError>) { unimplemented!() }
}
impl VxTryInto<i128> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<i128, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<i128 as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i128, IntError>) { unimplemented!() }
}
impl VxTryInto<isize> for i128 {
    type Error = IntError;
    open spec fn into_is(self, r: Result<isize, IntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => !<isize as VxInt>::fits(self as int) } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<isize, IntError>) { unimplemented!() }
}
} // xnum
pub use crate::xnum::*;
