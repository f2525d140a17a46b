#!/usr/bin/env python3
"""Writes overlay/50_impls.vx: the targets of impls/."""
import os,sys
sys.path.insert(0,os.path.dirname(__file__))
from ghost import trait_ghost
o=[]
w=o.append
V="impls::<BasicVisitor<%s,%s> as Visitor>"
UINTS=["u8","u16","u32","u64","u128","usize"]
SINTS=["i8","i16","i32","i64","i128","isize"]
NZ=[("NonZero"+t.upper(),t) for t in UINTS[:5]+SINTS[:5]]
w("""%root
// ================================================================================================
// Targets: what a value becomes when it is decoded into a type of Rust.
// ================================================================================================
pub mod targets {
use vstd::prelude::*;
use crate::xcr::*;
use crate::spec::*;
use crate::rules::*;
use crate::visitor::Unexpected;
use crate::error::{Error, GKind, GLoc};
use crate::xnum::*;
use crate::{IntoVisitor, xcr::scale_type_resolver::TypeResolver};

/// a single field stands for what is in it
pub open spec fn peel<Id>(k: Kind<Id>) -> Kind<Id> decreases k {
    match k {
        Kind::Comp(_, vs) => if vs.len() == 1 { peel(vs[0].k) } else { k },
        Kind::Tup(vs) => if vs.len() == 1 { peel(vs[0].k) } else { k },
        _ => k,
    }
}
pub open spec fn u_of<Id>(k: Kind<Id>) -> Unexpected {
    match k {
        Kind::Bool(_) => Unexpected::Bool, Kind::Char(_) => Unexpected::Char, Kind::Str(_) => Unexpected::Str,
        Kind::U8(_) => Unexpected::U8, Kind::U16(_) => Unexpected::U16, Kind::U32(_) => Unexpected::U32, Kind::U64(_) => Unexpected::U64, Kind::U128(_) => Unexpected::U128, Kind::U256(_) => Unexpected::U256,
        Kind::I8(_) => Unexpected::I8, Kind::I16(_) => Unexpected::I16, Kind::I32(_) => Unexpected::I32, Kind::I64(_) => Unexpected::I64, Kind::I128(_) => Unexpected::I128, Kind::I256(_) => Unexpected::I256,
        Kind::Seq(_) => Unexpected::Sequence, Kind::Arr(_) => Unexpected::Array, Kind::Comp(_, _) => Unexpected::Composite, Kind::Tup(_) => Unexpected::Tuple,
        Kind::Variant(_, _, _, _) => Unexpected::Variant, Kind::Bits(_) => Unexpected::Bitsequence,
    }
}
/// C13-C18: the value is of a kind which the target does not accept, and the error says which kind
pub open spec fn refused<T>(u: Unexpected, r: Result<T, Error>) -> bool { says(r, GKind::Visitor(DView::Unexpected(u))) }
pub open spec fn says<T>(r: Result<T, Error>, k: GKind) -> bool { r matches Err(e) && e.says(k) }

pub open spec fn sem_char<Id>(v: Val<Id>, r: Result<char, Error>) -> bool {
    match peel(v.k) { Kind::Char(c) => r matches Ok(x) && x as u32 == c, k => refused(u_of(k), r) }
}
pub open spec fn sem_bool<Id>(v: Val<Id>, r: Result<bool, Error>) -> bool {
    match peel(v.k) { Kind::Bool(b) => r == Ok::<bool, Error>(b), k => refused(u_of(k), r) }
}
pub open spec fn sem_string<Id>(v: Val<Id>, r: Result<String, Error>) -> bool {
    match peel(v.k) {
        Kind::Str(b) => match utf8(b) { Some(s) => r matches Ok(t) && t@ == s, None => says(r, GKind::Visitor(DView::Str(utf8_error(b)))) },
        k => refused(u_of(k), r),
    }
}
pub open spec fn sem_phantom<Id, T>(v: Val<Id>, r: Result<core::marker::PhantomData<T>, Error>) -> bool {
    match v.k {
        Kind::Comp(_, vs) => if vs.len() == 0 { r is Ok } else { refused(Unexpected::Composite, r) },
        Kind::Tup(vs) => if vs.len() == 0 { r is Ok } else { refused(Unexpected::Tuple, r) },
        k => refused(u_of(k), r),
    }
}
/// the number of an integer
pub open spec fn int_of<Id>(k: Kind<Id>) -> Option<int> {
    match k {
        Kind::U8(n) => Some(n as int), Kind::U16(n) => Some(n as int), Kind::U32(n) => Some(n as int), Kind::U64(n) => Some(n as int), Kind::U128(n) => Some(n as int),
        Kind::I8(n) => Some(n as int), Kind::I16(n) => Some(n as int), Kind::I32(n) => Some(n as int), Kind::I64(n) => Some(n as int), Kind::I128(n) => Some(n as int),
        _ => None,
    }
}
/// C13: the same number, or an error which names it
pub open spec fn sem_num<Id, N: VxInt>(v: Val<Id>, r: Result<N, Error>) -> bool {
    match int_of(peel(v.k)) {
        Some(i) => if N::fits(i) { r matches Ok(x) && x.int() == i } else { says(r, GKind::OutOfRange(decimal(i))) },
        None => refused(u_of(peel(v.k)), r),
    }
}
pub open spec fn sem_bits<Id>(v: Val<Id>, r: Result<crate::xcr::scale_bits::Bits, Error>) -> bool {
    match peel(v.k) { Kind::Bits(b) => r matches Ok(x) && crate::xcr::scale_bits::bits_view(x) == b, k => refused(u_of(k), r) }
}
/// what is in v becomes a T, and f of it is the result; errors are at l
pub open spec fn inside<R: TypeResolver, T: IntoVisitor<R>, U>(v: Val<R::TypeId>, l: GLoc, f: spec_fn(T) -> U, r: Result<U, Error>) -> bool {
    exists|r0: Result<T, Error>| #[trigger] <T as IntoVisitor<R>>::tsem(v, r0) && match r0 { Ok(x) => r == Ok::<U, Error>(f(x)), Err(e0) => r matches Err(e) && e.is_at(e0, l) }
}
/// C14: the names and the number of fields of the variant decide
pub open spec fn sem_option<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<Option<T>, Error>) -> bool {
    match peel(v.k) {
        Kind::Variant(name, _, _, fs) =>
            if name == "Some"@ && fs.len() == 1 { inside::<R, T, Option<T>>(fs[0], GLoc::Variant("Some"@), |x: T| Some(x), r) }
            else if name == "None"@ && fs.len() == 0 { r == Ok::<Option<T>, Error>(None) }
            else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("Some"@).push("None"@))) },
        k => refused(u_of(k), r),
    }
}
pub open spec fn sem_result<R: TypeResolver, T: IntoVisitor<R>, E: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<Result<T, E>, Error>) -> bool {
    match peel(v.k) {
        Kind::Variant(name, _, _, fs) =>
            if name == "Ok"@ && fs.len() == 1 { inside::<R, T, Result<T, E>>(fs[0], GLoc::Variant("Ok"@), |x: T| Ok(x), r) }
            else if name == "Err"@ && fs.len() == 1 { inside::<R, E, Result<T, E>>(fs[0], GLoc::Variant("Err"@), |x: E| Err(x), r) }
            else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("Ok"@).push("Err"@))) },
        k => refused(u_of(k), r),
    }
}
/// what v becomes as a T, in a wrapper; errors stay as they are
pub open spec fn like<R: TypeResolver, T: IntoVisitor<R>, U>(v: Val<R::TypeId>, f: spec_fn(T, U) -> bool, r: Result<U, Error>) -> bool {
    exists|r0: Result<T, Error>| #[trigger] <T as IntoVisitor<R>>::tsem(v, r0) && match r0 { Ok(x) => r matches Ok(y) && f(x, y), Err(e0) => r == Err::<U, Error>(e0) }
}
pub open spec fn sem_box<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::boxed::Box<T>, Error>) -> bool { like::<R, T, alloc::boxed::Box<T>>(v, |x: T, y: alloc::boxed::Box<T>| *y == x, r) }
pub open spec fn sem_rc<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::rc::Rc<T>, Error>) -> bool { like::<R, T, alloc::rc::Rc<T>>(v, |x: T, y: alloc::rc::Rc<T>| *y == x, r) }
pub open spec fn sem_arc<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<alloc::sync::Arc<T>, Error>) -> bool { like::<R, T, alloc::sync::Arc<T>>(v, |x: T, y: alloc::sync::Arc<T>| *y == x, r) }
pub open spec fn sem_compact<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<codec::Compact<T>, Error>) -> bool { like::<R, T, codec::Compact<T>>(v, |x: T, y: codec::Compact<T>| y.0 == x, r) }
pub open spec fn sem_cow<'a, R: TypeResolver, T: ToOwned + ?Sized>(v: Val<R::TypeId>, r: Result<Cow<'a, T>, Error>) -> bool where <T as ToOwned>::Owned: IntoVisitor<R> { like::<R, <T as ToOwned>::Owned, Cow<'a, T>>(v, |x: <T as ToOwned>::Owned, y: Cow<'a, T>| y == Cow::<'a, T>::Owned(x), r) }
pub open spec fn sem_range<R: TypeResolver, T>(v: Val<R::TypeId>, r: Result<core::ops::Range<T>, Error>) -> bool where (T, T): IntoVisitor<R> { like::<R, (T, T), core::ops::Range<T>>(v, |x: (T, T), y: core::ops::Range<T>| y.start == x.0 && y.end == x.1, r) }
pub open spec fn sem_range_inclusive<R: TypeResolver, T>(v: Val<R::TypeId>, r: Result<RangeInclusive<T>, Error>) -> bool where (T, T): IntoVisitor<R> { like::<R, (T, T), RangeInclusive<T>>(v, |x: (T, T), y: RangeInclusive<T>| y.start == x.0 && y.end == x.1, r) }
/// C17: seconds and nanoseconds
pub open spec fn sem_duration<R: TypeResolver>(v: Val<R::TypeId>, r: Result<Duration, Error>) -> bool where (u64, u32): IntoVisitor<R> {
    exists|r0: Result<(u64, u32), Error>| #[trigger] <(u64, u32) as IntoVisitor<R>>::tsem(v, r0) && match r0 {
        Ok((s, n)) => if s * 1_000_000_000 + n < max_nanos() { r matches Ok(d) && nanos(d) == s * 1_000_000_000 + n } else { r matches Err(e) && e.kind is Custom && e.locs() == Seq::<GLoc>::empty() },
        Err(e0) => r == Err::<Duration, Error>(e0),
    }
}
/// C15: there is a value / there is an error, and e is that error at item i
pub open spec fn good<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>) -> bool { exists|x: T| #[trigger] <T as IntoVisitor<R>>::tsem(v, Ok(x)) }
pub open spec fn bad<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, i: int, e: Error) -> bool { exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(v, Err(e0)) && e.is_at(e0, GLoc::Index(i as usize)) }
""")
w("""/// C21: e has l as its last location
pub open spec fn raised(e: Error, l: GLoc) -> bool { e.locs().len() > 0 && e.locs().last() == l }
pub broadcast proof fn raised_at(e: Error, e0: Error, l: GLoc) ensures #[trigger] e.is_at(e0, l) ==> raised(e, l) { }
pub open spec fn stopped<'s, 'r, R: TypeResolver, D: crate::visitor::DecodeItemIterator<'s, 'r, R>>(d0: D, e: Error) -> bool {
    exists|d: D| #[trigger] d0.iadv(&d) && d.ileft() > 0 && raised(e, GLoc::Index((d0.ileft() - d.ileft()) as usize))
}
/// C21: whatever the bytes are, the error is at the item after those which were decoded
pub open spec fn items_at<'s, 'r, R: TypeResolver>(c0: crate::visitor::types::Array<'s, 'r, R>, e: Error) -> bool {
    exists|c: crate::visitor::types::Array<'s, 'r, R>| #[trigger] c0.adv(&c) && c.remaining > 0 && raised(e, GLoc::Index((c0.remaining - c.remaining) as usize))
}
pub open spec fn of_len<T, K: VxItems<T>>(k: K, n: nat) -> bool { exists|s: Seq<T>| #[trigger] k.has(s) && s.len() == n }
pub open spec fn tup_at(left: int, n: int, e: Error) -> bool {
    if left != n { e.says(GKind::WrongLength(left as usize, n as usize)) } else { exists|i: usize| i < n && #[trigger] raised(e, GLoc::Index(i)) }
}
/// (the value of an unnamed field is skipped)
pub open spec fn named_at<'s, 'r, R: TypeResolver>(c0: crate::visitor::types::Composite<'s, 'r, R>, e: Error) -> bool {
    exists|i: int| c0.next_field_idx <= i < c0.fields@.len() && match (#[trigger] c0.fields@[i]).name { Some(n) => raised(e, GLoc::Field(n@)), None => true }
}
/// C15: the values as items in order, or the error of the first which has one
pub open spec fn sem_items<R: TypeResolver, T: IntoVisitor<R>>(vs: Seq<Val<R::TypeId>>, s: Seq<T>) -> bool {
    s.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> <T as IntoVisitor<R>>::tsem(#[trigger] vs[i], Ok(s[i]))
}
pub open spec fn bad_items<R: TypeResolver, T: IntoVisitor<R>>(vs: Seq<Val<R::TypeId>>, e: Error) -> bool {
    exists|i: int| 0 <= i < vs.len() && #[trigger] bad::<R, T>(vs[i], i, e) && forall|j: int| 0 <= j < i ==> good::<R, T>(#[trigger] vs[j])
}
pub open spec fn coll<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(vs: Seq<Val<R::TypeId>>, k: K) -> bool { exists|s: Seq<T>| #[trigger] sem_items::<R, T>(vs, s) && k.has(s) }
pub open spec fn coll_r<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(vs: Seq<Val<R::TypeId>>, r: Result<K, Error>) -> bool {
    match r { Ok(k) => coll::<R, T, K>(vs, k), Err(e) => bad_items::<R, T>(vs, e) }
}
pub open spec fn sem_coll<R: TypeResolver, T: IntoVisitor<R>, K: VxItems<T>>(v: Val<R::TypeId>, r: Result<K, Error>) -> bool {
    match peel(v.k) {
        Kind::Seq(vs) => coll_r::<R, T, K>(vs, r),
        Kind::Arr(vs) => coll_r::<R, T, K>(vs, r),
        k => refused(u_of(k), r),
    }
}
/// C15, C16: exactly N items
pub open spec fn arr_r<R: TypeResolver, T: IntoVisitor<R>, const N: usize>(vs: Seq<Val<R::TypeId>>, r: Result<[T; N], Error>) -> bool {
    match r {
        Ok(a) => vs.len() == N && sem_items::<R, T>(vs, a@),
        Err(e) => bad_items::<R, T>(vs, e) || (vs.len() != N && (forall|j: int| 0 <= j < vs.len() ==> good::<R, T>(#[trigger] vs[j])) && e.says(GKind::WrongLength(vs.len() as usize, N))),
    }
}
pub open spec fn sem_array<R: TypeResolver, T: IntoVisitor<R>, const N: usize>(v: Val<R::TypeId>, r: Result<[T; N], Error>) -> bool {
    match peel(v.k) {
        Kind::Seq(vs) => arr_r::<R, T, N>(vs, r),
        Kind::Arr(vs) => arr_r::<R, T, N>(vs, r),
        k => refused(u_of(k), r),
    }
}
/// C18: the named fields among the first n, in order; a later one replaces an earlier one of the same name
pub open spec fn map_is<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>, n: int, m: Map<Seq<char>, T>) -> bool decreases n {
    if n <= 0 { m == Map::<Seq<char>, T>::empty() } else {
        match names[n - 1] {
            None => map_is::<R, T>(names, vs, n - 1, m),
            Some(k) => exists|x: T, m0: Map<Seq<char>, T>| #[trigger] put(m0, k, x, m) && <T as IntoVisitor<R>>::tsem(vs[n - 1], Ok(x)) && map_is::<R, T>(names, vs, n - 1, m0),
        }
    }
}
pub open spec fn put<T>(m0: Map<Seq<char>, T>, k: Seq<char>, x: T, m: Map<Seq<char>, T>) -> bool { m == m0.insert(k, x) }
pub proof fn lemma_map<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>)
    ensures
        map_is::<R, T>(names, vs, 0, Map::<Seq<char>, T>::empty()),
        forall|n: int, p: int, m: Map<Seq<char>, T>| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && names[n] is None ==> #[trigger] map_is::<R, T>(names, vs, p, m),
        forall|n: int, p: int, m: Map<Seq<char>, T>, m2: Map<Seq<char>, T>, x: T| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Ok(x))
            && (names[n] matches Some(k) && m2 == m.insert(k, x)) ==> #[trigger] map_is::<R, T>(names, vs, p, m2),
        forall|n: int, e0: Error, e: Error, k: Seq<char>| 0 <= n < vs.len() && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Err(e0)) && #[trigger] e.is_at(e0, GLoc::Field(k)) && names[n] == Some(k) ==> bad_field::<R, T>(names, vs, n, e),
{
    assert forall|n: int, p: int, m: Map<Seq<char>, T>, m2: Map<Seq<char>, T>, x: T| #[trigger] map_is::<R, T>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] <T as IntoVisitor<R>>::tsem(vs[n], Ok(x))
            && (names[n] matches Some(k) && m2 == m.insert(k, x)) implies #[trigger] map_is::<R, T>(names, vs, p, m2) by {
        assert(put(m, names[n].unwrap(), x, m2));
        assert(<T as IntoVisitor<R>>::tsem(vs[p - 1], Ok(x)) && map_is::<R, T>(names, vs, p - 1, m));
    }
}
pub open spec fn bad_field<R: TypeResolver, T: IntoVisitor<R>>(names: Seq<Option<Seq<char>>>, vs: Seq<Val<R::TypeId>>, i: int, e: Error) -> bool {
    0 <= i < vs.len() && (names[i] matches Some(n) && exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Err(e0)) && e.is_at(e0, GLoc::Field(n)))
}
pub open spec fn sem_map<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, r: Result<BTreeMap<String, T>, Error>) -> bool {
    match v.k {
        Kind::Comp(names, vs) => match r {
            Ok(m) => map_is::<R, T>(names, vs, vs.len() as int, m.map()),
            Err(e) => exists|i: int| #[trigger] bad_field::<R, T>(names, vs, i, e) && forall|j: int| 0 <= j < i && (#[trigger] names[j]) is Some ==> good::<R, T>(vs[j]),
        },
        k => refused(u_of(k), r),
    }
}
"""+"".join(f"pub open spec fn sem_h{n}<R: TypeResolver>(v: Val<R::TypeId>, r: Result<crate::xcr::primitive_types::H{n}, Error>) -> bool {{ like::<R, [u8; {n//8}], crate::xcr::primitive_types::H{n}>(v, |x: [u8; {n//8}], y: crate::xcr::primitive_types::H{n}| y.bytes() == x@, r) }}\n" for n in (128,160,256,384,512,768)))
w("""/// the type says whether a value is a list of fields
pub proof fn lemma_shape<R: TypeResolver>(t: &R, id: R::TypeId, compact: bool, b: Seq<u8>)
    ensures parse(t, id, compact, b) matches Some((v, n)) ==> match t.desc(id) {
        None => false,
        Some(Desc::Composite(_, _)) | Some(Desc::Tuple(_)) => !v.c && (v.k is Comp || v.k is Tup),
        Some(Desc::Unhandled(_)) | Some(Desc::NotFound) => false,
        Some(_) => v.c || !(v.k is Comp || v.k is Tup),
    },
{ lemma_unfold(t, id, compact, b); }
""")
LET="ABCDEFGHIJKLMNOPQRST"
def ty(n): return "("+"".join(f"{c}," for c in LET[:n])+")" if n==1 else "("+", ".join(LET[:n])+")"
def tkey(n): return ty(n).replace(" ","")
for n in range(21):
    ps=LET[:n]
    g="RR: TypeResolver"+"".join(f", {c}: IntoVisitor<RR>" for c in ps)
    ok=" && ".join([f"<{c} as IntoVisitor<RR>>::tsem(vs[{i}], Ok(t.{i}))" for i,c in enumerate(ps)] or ["true"])
    err="false"
    for i in range(n-1,-1,-1): err=f"(bad::<RR, {ps[i]}>(vs[{i}], {i}, e) || (good::<RR, {ps[i]}>(vs[{i}]) && {err}))"
    R="RR"+"".join(f", {c}" for c in ps)
    w(f"""pub open spec fn items{n}<{g}>(vs: Seq<Val<RR::TypeId>>, r: Result<{ty(n)}, Error>) -> bool {{
    if vs.len() != {n} {{ says(r, GKind::WrongLength(vs.len() as usize, {n})) }} else {{ match r {{ Ok(t) => {ok}, Err(e) => {err} }} }}
}}""")
    pre=""
    if n==1: pre=f"if v.c || !(v.k is Comp || v.k is Tup) {{ like::<RR, A, (A,)>(v, |x: A, y: (A,)| y.0 == x, r) }} else "
    w(f"""pub open spec fn sem_tup{n}<{g}>(v: Val<RR::TypeId>, r: Result<{ty(n)}, Error>) -> bool {{
    {pre}{{ match v.k {{ Kind::Comp(_, vs) => items{n}::<{R}>(vs, r), Kind::Tup(vs) => items{n}::<{R}>(vs, r), k => refused(u_of(k), r) }} }}
}}""")
w("""} // targets
""")
w("""%split impls 12
%drop use:core::num::*
%mod impls
#[allow(unused_imports)] use crate::targets::*;
#[allow(unused_imports)] use crate::xnum::*;
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError};
""")
SKIP_HOOK="r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0"
def plain(x, rp, sem, tsem=None, saw={}):
    """a BasicVisitor which does not take over"""
    w(f"%impl {V%(x,rp)}")
    trait_ghost(w,{'lawful':'true','takes':'false','plain_hook':'true','sem':f'crate::targets::{sem}(v, r)',
      'unexpected':'crate::targets::refused(u, r)','asked':SKIP_HOOK,**saw})
    into(x,tsem or sem)
def into(x,sem):
    w(f"""%impl impls::<{x} as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool {{ crate::targets::{sem}(v, r) }}""")
plain("char","R","sem_char")
plain("bool","R","sem_bool")
plain("String","R","sem_string")
plain("PhantomData<T>","R","sem_phantom")
for t in UINTS+SINTS+[n for n,_ in NZ]: plain(t,"R","sem_num")
plain("Bits","R","sem_bits")
plain("Option<T>","R","sem_option::<R, T>","sem_option::<$R, T>",
    {"saw_var":"""r matches Err(e) ==> if c0.variant_name@ == "Some"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Some"@)) } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("Some"@).push("None"@))) }"""})
plain("Result<T,E>","R","sem_result::<R, T, E>","sem_result::<$R, T, E>",
    {"saw_var":"""r matches Err(e) ==> if c0.variant_name@ == "Ok"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Ok"@)) } else if c0.variant_name@ == "Err"@ && c0.fields.fields@.len() - c0.fields.next_field_idx == 1 { crate::targets::raised(e, crate::error::GLoc::Variant("Err"@)) } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("Ok"@).push("Err"@))) }"""})
def adapter(x,rp,sem,tsem=None,key=None):
    """a BasicVisitor which takes over"""
    w(f"%impl {V%(x,rp)}")
    trait_ghost(w,{'lawful':'true','takes':'true','plain_hook':'false','sem':f'crate::targets::{sem}(v, r)',
      'unexpected':'crate::targets::refused(u, r)'})
    into(x,tsem or sem)
for n,f in [("Box","sem_box"),("Rc","sem_rc"),("Arc","sem_arc"),("Compact","sem_compact"),("Range","sem_range"),("RangeInclusive","sem_range_inclusive")]:
    adapter(n+"<T>","Resolver",f+"::<Resolver, T>",f+"::<$R, T>")
adapter("Cow<T>","R","sem_cow::<R, T>","sem_cow::<$R, T>")
for x,t in [("Vec<T>","Vec<T>"),("VecDeque<T>","VecDeque<T>"),("LinkedList<T>","LinkedList<T>"),("BinaryHeap<T>","BinaryHeap<T>"),("BTreeSet<T>","BTreeSet<T>")]:
    plain(x,"Resolver",f"sem_coll::<Resolver, T, {t}>",f"sem_coll::<$R, T, {t}>",
    {"saw_seq":"r matches Err(e) ==> crate::targets::items_at(c0.values, e)","saw_arr":"r matches Err(e) ==> crate::targets::items_at(c0, e)"})
plain("[T;N]","R","sem_array::<R, T, N>","sem_array::<$R, T, N>",
    {k:f"r matches Err(e) ==> crate::targets::items_at({c}, e) || ({c}.remaining != N && e.says(crate::error::GKind::WrongLength({c}.remaining, N)))" for k,c in (("saw_seq","c0.values"),("saw_arr","c0"))})
plain("BTreeMap<String,T>","R","sem_map::<R, T>","sem_map::<$R, T>",{"saw_comp":"r matches Err(e) ==> crate::targets::named_at(c0, e)"})
def into_key(n): return f"impls::<{tkey(n)} as IntoVisitor>"
for n in range(21):
    gs="".join(f", {c}" for c in LET[:n])
    d={'lawful':'true','takes':'false' if n!=1 else 'v.c || !(v.k is Comp || v.k is Tup)','plain_hook':'true' if n!=1 else 'false',
      'sem':f'crate::targets::sem_tup{n}::<Resolver{gs}>(v, r)','unexpected':'crate::targets::refused(u, r)'}
    if n!=1: d['asked']=SKIP_HOOK
    for k in ("saw_comp","saw_tup"): d[k]=f"r matches Err(e) ==> crate::targets::tup_at(c0.fields@.len() - c0.next_field_idx, {n}, e)"
    w(f"%impl {V%(tkey(n),'Resolver')}")
    trait_ghost(w,d)
    into(tkey(n),f"sem_tup{n}::<$R{gs}>")
    w(f"""%impl impls::<{tkey(n)} as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool {{ crate::targets::items{n}::<$R{gs}>(vs, r) }}
%fn {V%(tkey(n),'Resolver')}::visit_composite
%params value type_id
%pre
    broadcast use {{crate::rules::walk, crate::targets::raised_at, Composite::lemma_took}};
    let ghost me = *value;
    proof {{ Composite::lemma_steps(me); }}
%fn {V%(tkey(n),'Resolver')}::visit_tuple
%params value type_id
%pre
    broadcast use {{crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took}};
    let ghost me = *value;
    proof {{ Tuple::lemma_steps(me); }}""")
w("""%impl impls::<TryDecodeAsInner<TypeId> as ResolvedTypeVisitor>
    // what scale-type-resolver does for the kinds which are not handled
    #[verifier::prophetic]
    open spec fn rpost(self, d: crate::xcr::Desc<TypeId>, v: bool) -> bool {
        v == !(d is Composite || d is Tuple || d is NotFound || (d matches crate::xcr::Desc::Unhandled(k) && (k is Composite || k is Tuple || k is NotFound)))
    }
    #[verifier::prophetic]
    open spec fn runused(self) -> bool { true }
    fn visit_not_found(self) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::NotFound) }
    fn visit_composite<Path, Fields>(self, path: Path, fields: Fields) -> (v: bool) where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, TypeId> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Composite) }
    fn visit_variant<Path, Fields, Var>(self, path: Path, variants: Var) -> (v: bool) where Path: PathIter<'resolver>, Fields: FieldIter<'resolver, TypeId>, Var: VariantIter<'resolver, Fields> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Variant) }
    fn visit_sequence<Path>(self, path: Path, type_id: TypeId) -> (v: bool) where Path: PathIter<'resolver> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Sequence) }
    fn visit_array(self, type_id: TypeId, len: usize) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Array) }
    fn visit_tuple<TypeIds>(self, type_ids: TypeIds) -> (v: bool) where TypeIds: ExactSizeIterator<Item = TypeId> { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Tuple) }
    fn visit_primitive(self, primitive: Primitive) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Primitive) }
    fn visit_compact(self, type_id: TypeId) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::Compact) }
    fn visit_bit_sequence(self, store_format: BitsStoreFormat, order_format: BitsOrderFormat) -> (v: bool) { self.visit_unhandled(crate::xcr::scale_type_resolver::UnhandledKind::BitSequence) }
%mod impls
#[allow(unused_imports)] use crate::xcr::scale_type_resolver::{PathIter, VariantIter, BitsStoreFormat, BitsOrderFormat, Primitive};
#[allow(unused_imports)] use crate::xcr::ExactSizeIterator;
""")
w("""%fn impls::<BasicVisitor<(A,),Resolver> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    proof { crate::targets::lemma_shape(types, type_id, is_compact, input@); }""")
adapter("Duration","R","sem_duration::<R>","sem_duration::<$R>")
# (the assertion tells Verus that the visitor's meaning is needed before this function, which Duration uses)
for x in ("u8","u32","u64","(A,B)","[T;N]"):
    w(f"""%fn impls::<{x} as IntoVisitor>::into_visitor
%pre
    assert forall|b: BasicVisitor<Self, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by {{ }}""")
for n in (128,160,256,384,512,768):
    w(f"""%fn impls::primitive_types::<BasicVisitor<H{n},R> as Visitor>::unchecked_decode_as_type_maybe_compact
%params input type_id types is_compact
%pre
    assert forall|b: BasicVisitor<[u8; {n//8}], R>, v: crate::spec::Val<R::TypeId>, r: Result<[u8; {n//8}], Error>| #[trigger] b.sem(v, r) implies b.lawful() && <[u8; {n//8}] as crate::IntoVisitor<R>>::tsem(v, r) by {{ }}""")
    w(f"%impl impls::primitive_types::<BasicVisitor<H{n},R> as Visitor>")
    trait_ghost(w,{'lawful':'true','takes':'true','plain_hook':'false','sem':f'crate::targets::sem_h{n}::<R>(v, r)','unexpected':'crate::targets::refused(u, r)'})
    w(f"""%impl impls::primitive_types::<H{n} as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool {{ crate::targets::sem_h{n}::<$R>(v, r) }}""")
w("%inline map Result in impls::primitive_types::*")
w("%inline map Result in impls::<BasicVisitor<*> as Visitor>::unchecked_decode_as_type*\n%inline and_then Result in impls::<BasicVisitor<*> as Visitor>::unchecked_decode_as_type*\n%drop use:core::ops::RangeInclusive\n%drop use:core::time::Duration\n%drop use:alloc::borrow::ToOwned")
for c in ("BTreeMap","BTreeSet","BinaryHeap","LinkedList","VecDeque"): w("%drop use:alloc::collections::"+c)
w("""%mod impls::primitive_types
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError, types::*};
#[allow(unused_imports)] use crate::targets::*;
""")
w("""%rename try_into => vx_try_into in impls::*
%fn impls::<BasicVisitor<*> as Visitor>::visit_variant [opt]
%params value type_id
%pre
    proof { Composite::lemma_refl(value.fields); if value.fields.next_field_idx < value.fields.fields@.len() { Composite::lemma_first(value.fields); } }
%lift impls::decode_items_using usize
%inline map Option in impls::Vx_decode_items_using*
%fn impls::decode_items_using
%params decoder
%spec
    ensures *res.vx_0 == *old(decoder), *final(res.vx_0) == *final(decoder), res.vx_1 == 0
%fn impls::Vx_decode_items_using<R,D,T>::next
%spec
    requires old(self).vx_0.ii(), old(self).vx_1 < usize::MAX
    ensures
        *final(final(self).vx_0) == *final(old(self).vx_0), final(self).vx_0.ii(),
        old(self).vx_0.ileft() == 0 ==> res is None && old(self).vx_0.iadv(&*final(self).vx_0),
        res matches Some(Err(e)) ==> old(self).vx_0.ileft() > 0 && raised(e, crate::error::GLoc::Index(old(self).vx_1)),
        old(self).vx_0.ileft() > 0 ==> final(self).vx_1 == old(self).vx_1 + 1 && match res { None => false, Some(r) => match old(self).vx_0.ifirst() {
            Some(v) => match r {
                Ok(x) => <T as crate::IntoVisitor<R>>::tsem(v, Ok(x)) && old(self).vx_0.iadv(&*final(self).vx_0) && final(self).vx_0.ileft() == old(self).vx_0.ileft() - 1,
                Err(e) => bad::<R, T>(v, old(self).vx_1 as int, e),
            },
            None => r is Err && old(self).vx_0.irest() is None,
        } },
%impl impls::Vx_decode_items_using<R,D,T>
    /// `Iterator::collect` into a `Result`: stops at the first error
    #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
    pub fn collect<C: VxFromResults<T, Error>>(self) -> (res: C)
        requires self.vx_0.ii(), self.vx_1 == 0,
        ensures
            (*final(self.vx_0)).ii(),
            res.result() is Ok ==> old(self.vx_0).iadv(&*final(self.vx_0)),
            res.result() matches Ok(k) ==> of_len::<T, C::K>(k, old(self.vx_0).ileft()),
            res.result() matches Err(e) ==> stopped::<R, D>(*old(self.vx_0), e),
            old(self.vx_0).irest() matches Some((vs, _)) ==> coll_r::<R, T, C::K>(vs, res.result()),
    {
        let ghost d0 = *self.vx_0;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        proof { D::lemma_it(d0); }
        loop
            invariant
                it.vx_0.ii(), d0.iadv(&*it.vx_0), *final(it.vx_0) == *final(self.vx_0),
                it.vx_1 == v@.len(), it.vx_0.ileft() == d0.ileft() - v@.len(),
                d0.irest() matches Some((vs, _)) ==> forall|i: int| 0 <= i < v@.len() ==> <T as crate::IntoVisitor<R>>::tsem(#[trigger] vs[i], Ok(v@[i])),
        {
            proof { D::lemma_it(*it.vx_0); assert(d0.irest() matches Some((vs, _)) ==> forall|i: int| 0 <= i < v@.len() ==> good::<R, T>(#[trigger] vs[i])); }
            // no loop gets this far
            assume(it.vx_1 < usize::MAX);
            let ghost b = *it.vx_0;
            match it.next() {
                None => {
                    proof { if let Some((vs, _)) = d0.irest() { assert(sem_items::<R, T>(vs, v@)); } }
                    return C::wrap(Ok(C::K::from_items(v)));
                }
                Some(Ok(x)) => { v.push(x); }
                Some(Err(e)) => { return C::wrap(Err(e)); }
            }
        }
    }
%rename to_string => vx_to_string in *
%rename to_owned => vx_to_owned in impls::*
%fn impls::<BasicVisitor<*> as Visitor>::visit_composite [opt twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn impls::<BasicVisitor<*> as Visitor>::visit_tuple [opt twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
""")
w(f"""%fn {V%("BTreeMap<String,T>","R")}::visit_composite [twin]
%params value type_id
%attr #[verifier::loop_isolation(false)]
%pre
    broadcast use {{crate::rules::walk, Composite::lemma_took}};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() {{ Some((vs, _)) => vs, None => Seq::<crate::spec::Val<R::TypeId>>::empty() }};
    proof {{ Composite::lemma_steps(me); Composite::lemma_names(me); crate::targets::lemma_map::<R, T>(gn, gv);
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }}
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::targets::map_is::<R, T>(gn, gv, value.next_field_idx - me.next_field_idx, map.map()),
        me.rest() is Some ==> forall|j: int| 0 <= j < value.next_field_idx - me.next_field_idx && (#[trigger] gn[j]) is Some ==> good::<R, T>(gv[j]),
""")
# ---- which properties the obligations belong to
def props(pat,*ps): w("%props "+pat.replace(" ","?")+" "+" ".join(ps))
VV="impls::<BasicVisitor<%s,%s> as Visitor>%s"
for t in UINTS+SINTS+[n for n,_ in NZ]:
    props(VV%(t,"R","::*"),"C13")
    props(f"impls::<{t} as IntoVisitor>*","C13")
    for f in ("visit_composite","visit_tuple"): props(VV%(t,"R","::"+f),"C13","C14")
    props(VV%(t,"R","::visit_u*"),"C05","C13"); props(VV%(t,"R","::visit_i*"),"C13")
    props(VV%(t,"R","::visit_unexpected"),"C13")
for t,rp,ps in [("char","R",["C04"]),("bool","R",["C04"]),("String","R",["C04","C11"]),("Bits","R",["C04","C11"]),("Option<T>","R",["C15","C21"]),("Result<T,E>","R",["C15","C21"])]+[(c+"<T>","Resolver",["C16","C21"]) for c in ("Vec","VecDeque","LinkedList","BinaryHeap","BTreeSet")]+[("[T;N]","R",["C16","C21"])]:
    props(VV%(t,rp,"::*"),*[x for x in ps if x!="C21"])
    props(f"impls::<{t} as IntoVisitor>*",*[x for x in ps if x!="C21"],"C14")
    for f in ("visit_composite","visit_tuple"): props(VV%(t,rp,"::"+f),"C14")
    for f in ("visit_variant","visit_sequence","visit_array"): props(VV%(t,rp,"::"+f),*ps)
props("impls::*decode_items_using*","C16","C21")
for n in range(21):
    props(VV%(tkey(n),"Resolver","::*"),"C17")
    for f in ("visit_composite","visit_tuple"): props(VV%(tkey(n),"Resolver","::"+f),"C17","C21")
    props(f"impls::<{tkey(n)} as IntoVisitor>*","C17")
    props(f"impls::<{tkey(n)} as DecodeAsFields>*","C01","C10","C22")
props(VV%("(A,)","Resolver","::unchecked*"),"C01","C02","C12","C14","C17")
props("impls::<TryDecodeAsInner*","C17")
for n in ("Box","Rc","Arc","Compact","Range","RangeInclusive","Cow"):
    for rp in ("R","Resolver"): props(VV%(n+"<T>",rp,"::*"),"C18"); props(VV%(n+"<T>",rp,"::unchecked*"),"C01","C02","C12")
    props(f"impls::<{n}<T> as IntoVisitor>*","C18")
props(VV%("Duration","R","::*"),"C18"); props(VV%("Duration","R","::unchecked*"),"C01","C02","C12"); props("impls::<Duration as IntoVisitor>*","C18")
props("impls::primitive_types::*","C18"); props("impls::primitive_types::*unchecked*","C01","C02","C12")
props(VV%("BTreeMap<String,T>","R","::*"),"C23"); props(VV%("BTreeMap<String,T>","R","::visit_composite"),"C21"); props("impls::<BTreeMap<String,T> as IntoVisitor>*","C23")
props(VV%("PhantomData<T>","R","::*"),"C02")
# ---- numbers of the standard library
w("""%root
pub mod xnum {
use vstd::prelude::*;
use crate::xcr::*;
/// integers, and those which are not zero
pub trait VxInt: Sized { spec fn int(self) -> int; spec fn fits(i: int) -> bool; }
""")
for t in UINTS+SINTS:
    w(f"impl VxInt for {t} {{ open spec fn int(self) -> int {{ self as int }} open spec fn fits(i: int) -> bool {{ {t}::MIN <= i <= {t}::MAX }} }}")
for n,t in NZ:
    w(f"""#[verifier::external_body] pub struct {n} {{ v: {t} }}
impl {n} {{
    pub uninterp spec fn get(self) -> {t};
    #[verifier::external_body] pub fn new(n: {t}) -> (r: Option<Self>) ensures match r {{ Some(x) => x.get() == n && n != 0, None => n == 0 }} {{ unimplemented!() }}
}}
impl VxInt for {n} {{ open spec fn int(self) -> int {{ self.get() as int }} open spec fn fits(i: int) -> bool {{ {t}::MIN <= i <= {t}::MAX && i != 0 }} }}""")
w("""#[verifier::external_body] pub struct IntError { _p: () }""")
for a in [x for x in UINTS+SINTS if "size" not in x]:
    for b in UINTS+SINTS:
        w(f"""impl VxTryInto<{b}> for {a} {{
    type Error = IntError;
    open spec fn into_is(self, r: Result<{b}, IntError>) -> bool {{ match r {{ Ok(x) => x as int == self as int, Err(_) => !<{b} as VxInt>::fits(self as int) }} }}
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<{b}, IntError>) {{ unimplemented!() }}
}}""")
w("} // xnum\npub use crate::xnum::*;")
open(os.path.join(os.path.dirname(__file__),"..","overlay","50_impls.vx"),"w").write("\n".join(o)+"\n")
