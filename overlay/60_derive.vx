%root
// ================================================================================================
// Derived targets (shapes/): fields by name or by position, variants by name.
// ================================================================================================
pub mod derived {
use vstd::prelude::*;
use crate::xcr::*;
use crate::spec::*;
use crate::rules::*;
use crate::targets::*;
use crate::shapes::*;
use crate::visitor::{Unexpected, types::{Tuple, Composite}};
use crate::error::{Error, GKind, GLoc};
use crate::{IntoVisitor, xcr::scale_type_resolver::TypeResolver};
use crate::visitor::types::composite::CompositeField;
pub type Names = Seq<Option<Seq<char>>>;
pub open spec fn unnamed(names: Names) -> bool { exists|i: int| 0 <= i < names.len() && (#[trigger] names[i]) is None }
/// the field of this name is there (and is that)
pub open spec fn holds_name(names: Names, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) }
pub open spec fn at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>, x: T) -> bool {
    exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) && <T as IntoVisitor<R>>::tsem(vs[i], Ok(x))
}
pub open spec fn good_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>) -> bool { exists|x: T| #[trigger] at::<R, T>(names, vs, n, x) }
/// it is not there, or it is there and is no T
pub open spec fn bad_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>, e: Error) -> bool {
    (!holds_name(names, n) && e.says(GKind::NoField(n)) && e.locs() == Seq::<GLoc>::empty()) || exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) && bad_l::<R, T>(vs[i], GLoc::Field(n), e)
}
pub open spec fn bad_l<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, l: GLoc, e: Error) -> bool { exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(v, Err(e0)) && e.is_at(e0, l) }
/// this is a view of that value
pub open spec fn views<R: TypeResolver>(f: CompositeField<'_, '_, R>, v: Val<R::TypeId>) -> bool { parse(f.types, f.field.id, f.is_compact, f.bytes@) matches Some((w, _)) && w == v }
/// the fields seen so far, by name
pub open spec fn seen<R: TypeResolver>(names: Names, vs: Seq<Val<R::TypeId>>, n: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>) -> bool {
    &&& forall|k: Option<Seq<char>>| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < n && #[trigger] names[j] == k && views(m[k], vs[j])
    &&& forall|j: int| 0 <= j < n ==> m.contains_key(#[trigger] names[j])
}
pub proof fn lemma_seen<R: TypeResolver>(names: Names, vs: Seq<Val<R::TypeId>>)
    ensures
        seen::<R>(names, vs, 0, Map::<Option<Seq<char>>, CompositeField<'_, '_, R>>::empty()),
        forall|n: int, p: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>, f: CompositeField<'_, '_, R>, m2: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>|
            #[trigger] seen::<R>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] views(f, vs[n]) && m2 == m.insert(names[n], f) ==> #[trigger] seen::<R>(names, vs, p, m2),
{
    assert forall|n: int, p: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>, f: CompositeField<'_, '_, R>, m2: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>|
            #[trigger] seen::<R>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] views(f, vs[n]) && m2 == m.insert(names[n], f) implies #[trigger] seen::<R>(names, vs, p, m2) by {
        assert forall|k: Option<Seq<char>>| #[trigger] m2.contains_key(k) implies exists|j: int| 0 <= j < p && #[trigger] names[j] == k && views(m2[k], vs[j]) by {
            if k == names[n] { assert(names[n] == k && views(m2[k], vs[n])); } else {
                assert(m.contains_key(k));
                let j = choose|j: int| 0 <= j < n && #[trigger] names[j] == k && views(m[k], vs[j]);
                assert(names[j] == k && views(m2[k], vs[j]));
            }
        }
    }
}
/// a field of the name which is a T
pub proof fn lemma_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>)
    ensures forall|i: int, x: T| 0 <= i < names.len() && names[i] == Some(n) && #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Ok(x)) ==> at::<R, T>(names, vs, n, x) && good_at::<R, T>(names, vs, n),
{
    assert forall|i: int, x: T| 0 <= i < names.len() && names[i] == Some(n) && #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Ok(x)) implies at::<R, T>(names, vs, n, x) && good_at::<R, T>(names, vs, n) by { assert(names[i] == Some(n)); assert(at::<R, T>(names, vs, n, x)); }
}
/// what the iterator of a tuple meets is what is in it
pub proof fn lemma_items_t<'s, 'r, R: TypeResolver>(me: Tuple<'s, 'r, R>)
    requires me.inv()
    ensures
        forall|a: Tuple<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() ==>
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            },
{
    broadcast use opens;
    assert forall|a: Tuple<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() implies
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            } by {
        Tuple::lemma_steps(me); Tuple::lemma_first(a); Tuple::lemma_steps(a);
    }
}
pub proof fn lemma_items_c<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.inv()
    ensures
        forall|a: Composite<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() ==>
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            },
{
    broadcast use opens;
    assert forall|a: Composite<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() implies
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            } by {
        Composite::lemma_steps(me); Composite::lemma_first(a); Composite::lemma_steps(a);
    }
}
/// a composite as a tuple holds the same
pub proof fn lemma_as_tuple<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.inv()
    ensures forall|t: Tuple<'s, 'r, R>| #[trigger] t.fresh(me.gf(), me.types, me.is_compact, me.item_bytes@) ==> t.inv() && t.rest() == me.rest(),
{
    broadcast use {opens, skip_zero};
    assert forall|t: Tuple<'s, 'r, R>| #[trigger] t.fresh(me.gf(), me.types, me.is_compact, me.item_bytes@) implies t.inv() && t.rest() == me.rest() by { assert(t.gf() == me.gf()); }
}
/// has it a field without a name?
pub proof fn lemma_unnamed<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.next_field_idx == 0
    ensures unnamed(names(me.gf())) == exists|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None,
{
    broadcast use skip_zero;
    let n = names(me.gf());
    assert(n.len() == me.fields@.len());
    assert forall|i: int| 0 <= i < n.len() implies (n[i] is None <==> (#[trigger] me.fields@[i]).name is None) by { }
    if unnamed(n) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is None; assert(me.fields@[i].name is None); }
    if exists|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None { let i = choose|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None; assert(n[i] is None); }
}

pub open spec fn pos_N0<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<N0, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => true, Err(e) => false } }
}
pub open spec fn named_N0<RR: TypeResolver>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<N0, Error>) -> bool {
    if unnamed(names) { pos_N0::<RR>(vs, r) } else { match r { Ok(x) => true, Err(e) => false } }
}
pub open spec fn sem_N0<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<N0, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_N0::<RR>(names, vs, r), Kind::Tup(vs) => pos_N0::<RR>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_N1<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<N1<A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn named_N1<RR: TypeResolver, A: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<N1<A>, Error>) -> bool {
    if unnamed(names) { pos_N1::<RR, A>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "a"@, x.a), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && false)) } }
}
pub open spec fn sem_N1<RR: TypeResolver, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<N1<A>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_N1::<RR, A>(names, vs, r), Kind::Tup(vs) => pos_N1::<RR, A>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_N2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<N2<A, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.b)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("b"@), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn named_N2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<N2<A, B>, Error>) -> bool {
    if unnamed(names) { pos_N2::<RR, A, B>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "a"@, x.a) && at::<RR, B>(names, vs, "b"@, x.b), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && (bad_at::<RR, B>(names, vs, "b"@, e) || (good_at::<RR, B>(names, vs, "b"@) && false)))) } }
}
pub open spec fn sem_N2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<N2<A, B>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_N2::<RR, A, B>(names, vs, r), Kind::Tup(vs) => pos_N2::<RR, A, B>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_N3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, G: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<N3<A, B, G>, Error>) -> bool {
    if vs.len() != 3 { says(r, GKind::WrongLength(vs.len() as usize, 3)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.c)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.b)) && <G as IntoVisitor<RR>>::tsem(vs[2], Ok(x.a)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("c"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("b"@), e) || (good::<RR, B>(vs[1]) && (bad_l::<RR, G>(vs[2], GLoc::Field("a"@), e) || (good::<RR, G>(vs[2]) && false)))))) } }
}
pub open spec fn named_N3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, G: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<N3<A, B, G>, Error>) -> bool {
    if unnamed(names) { pos_N3::<RR, A, B, G>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "c"@, x.c) && at::<RR, B>(names, vs, "b"@, x.b) && at::<RR, G>(names, vs, "a"@, x.a), Err(e) => (bad_at::<RR, A>(names, vs, "c"@, e) || (good_at::<RR, A>(names, vs, "c"@) && (bad_at::<RR, B>(names, vs, "b"@, e) || (good_at::<RR, B>(names, vs, "b"@) && (bad_at::<RR, G>(names, vs, "a"@, e) || (good_at::<RR, G>(names, vs, "a"@) && false)))))) } }
}
pub open spec fn sem_N3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, G: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<N3<A, B, G>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_N3::<RR, A, B, G>(names, vs, r), Kind::Tup(vs) => pos_N3::<RR, A, B, G>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NS1<RR: TypeResolver, Z: Default + IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<NS1<Z>, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => is_default(x.z), Err(e) => false } }
}
pub open spec fn named_NS1<RR: TypeResolver, Z: Default + IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NS1<Z>, Error>) -> bool {
    if unnamed(names) { pos_NS1::<RR, Z>(vs, r) } else { match r { Ok(x) => is_default(x.z), Err(e) => false } }
}
pub open spec fn sem_NS1<RR: TypeResolver, Z: Default + IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<NS1<Z>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NS1::<RR, Z>(names, vs, r), Kind::Tup(vs) => pos_NS1::<RR, Z>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NS2<RR: TypeResolver, Z: Default + IntoVisitor<RR>, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<NS2<Z, A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)) && is_default(x.z), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn named_NS2<RR: TypeResolver, Z: Default + IntoVisitor<RR>, A: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NS2<Z, A>, Error>) -> bool {
    if unnamed(names) { pos_NS2::<RR, Z, A>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "a"@, x.a) && is_default(x.z), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && false)) } }
}
pub open spec fn sem_NS2<RR: TypeResolver, Z: Default + IntoVisitor<RR>, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<NS2<Z, A>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NS2::<RR, Z, A>(names, vs, r), Kind::Tup(vs) => pos_NS2::<RR, Z, A>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NS3<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<NS3<A, Z, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.b)) && is_default(x.z), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("b"@), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn named_NS3<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NS3<A, Z, B>, Error>) -> bool {
    if unnamed(names) { pos_NS3::<RR, A, Z, B>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "a"@, x.a) && at::<RR, B>(names, vs, "b"@, x.b) && is_default(x.z), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && (bad_at::<RR, B>(names, vs, "b"@, e) || (good_at::<RR, B>(names, vs, "b"@) && false)))) } }
}
pub open spec fn sem_NS3<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<NS3<A, Z, B>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NS3::<RR, A, Z, B>(names, vs, r), Kind::Tup(vs) => pos_NS3::<RR, A, Z, B>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NR<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<NR<A, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.vx_r_type)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.val)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("type"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("val"@), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn named_NR<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NR<A, B>, Error>) -> bool {
    if unnamed(names) { pos_NR::<RR, A, B>(vs, r) } else { match r { Ok(x) => at::<RR, A>(names, vs, "type"@, x.vx_r_type) && at::<RR, B>(names, vs, "val"@, x.val), Err(e) => (bad_at::<RR, A>(names, vs, "type"@, e) || (good_at::<RR, A>(names, vs, "type"@) && (bad_at::<RR, B>(names, vs, "val"@, e) || (good_at::<RR, B>(names, vs, "val"@) && false)))) } }
}
pub open spec fn sem_NR<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<NR<A, B>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NR::<RR, A, B>(names, vs, r), Kind::Tup(vs) => pos_NR::<RR, A, B>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NG<RR: TypeResolver, T: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<NG<T>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <T as IntoVisitor<RR>>::tsem(vs[0], Ok(x.val)) && <Box<T> as IntoVisitor<RR>>::tsem(vs[1], Ok(x.a)), Err(e) => (bad_l::<RR, T>(vs[0], GLoc::Field("val"@), e) || (good::<RR, T>(vs[0]) && (bad_l::<RR, Box<T>>(vs[1], GLoc::Field("a"@), e) || (good::<RR, Box<T>>(vs[1]) && false)))) } }
}
pub open spec fn named_NG<RR: TypeResolver, T: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NG<T>, Error>) -> bool {
    if unnamed(names) { pos_NG::<RR, T>(vs, r) } else { match r { Ok(x) => at::<RR, T>(names, vs, "val"@, x.val) && at::<RR, Box<T>>(names, vs, "a"@, x.a), Err(e) => (bad_at::<RR, T>(names, vs, "val"@, e) || (good_at::<RR, T>(names, vs, "val"@) && (bad_at::<RR, Box<T>>(names, vs, "a"@, e) || (good_at::<RR, Box<T>>(names, vs, "a"@) && false)))) } }
}
pub open spec fn sem_NG<RR: TypeResolver, T: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<NG<T>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NG::<RR, T>(names, vs, r), Kind::Tup(vs) => pos_NG::<RR, T>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NK<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<NK, Error>) -> bool {
    if vs.len() != 3 { says(r, GKind::WrongLength(vs.len() as usize, 3)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <u8 as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)) && <String as IntoVisitor<RR>>::tsem(vs[1], Ok(x.b)) && <Vec<u16> as IntoVisitor<RR>>::tsem(vs[2], Ok(x.c)), Err(e) => (bad_l::<RR, u8>(vs[0], GLoc::Field("a"@), e) || (good::<RR, u8>(vs[0]) && (bad_l::<RR, String>(vs[1], GLoc::Field("b"@), e) || (good::<RR, String>(vs[1]) && (bad_l::<RR, Vec<u16>>(vs[2], GLoc::Field("c"@), e) || (good::<RR, Vec<u16>>(vs[2]) && false)))))) } }
}
pub open spec fn named_NK<RR: TypeResolver>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NK, Error>) -> bool {
    if unnamed(names) { pos_NK::<RR>(vs, r) } else { match r { Ok(x) => at::<RR, u8>(names, vs, "a"@, x.a) && at::<RR, String>(names, vs, "b"@, x.b) && at::<RR, Vec<u16>>(names, vs, "c"@, x.c), Err(e) => (bad_at::<RR, u8>(names, vs, "a"@, e) || (good_at::<RR, u8>(names, vs, "a"@) && (bad_at::<RR, String>(names, vs, "b"@, e) || (good_at::<RR, String>(names, vs, "b"@) && (bad_at::<RR, Vec<u16>>(names, vs, "c"@, e) || (good_at::<RR, Vec<u16>>(names, vs, "c"@) && false)))))) } }
}
pub open spec fn sem_NK<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<NK, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NK::<RR>(names, vs, r), Kind::Tup(vs) => pos_NK::<RR>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_NC<RR: TypeResolver, const N: usize>(vs: Seq<Val<RR::TypeId>>, r: Result<NC<N>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <[u8; N] as IntoVisitor<RR>>::tsem(vs[0], Ok(x.a)), Err(e) => (bad_l::<RR, [u8; N]>(vs[0], GLoc::Field("a"@), e) || (good::<RR, [u8; N]>(vs[0]) && false)) } }
}
pub open spec fn named_NC<RR: TypeResolver, const N: usize>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<NC<N>, Error>) -> bool {
    if unnamed(names) { pos_NC::<RR, N>(vs, r) } else { match r { Ok(x) => at::<RR, [u8; N]>(names, vs, "a"@, x.a), Err(e) => (bad_at::<RR, [u8; N]>(names, vs, "a"@, e) || (good_at::<RR, [u8; N]>(names, vs, "a"@) && false)) } }
}
pub open spec fn sem_NC<RR: TypeResolver, const N: usize>(v: Val<RR::TypeId>, r: Result<NC<N>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => named_NC::<RR, N>(names, vs, r), Kind::Tup(vs) => pos_NC::<RR, N>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_T0<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<T0, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => true, Err(e) => false } }
}
pub open spec fn sem_T0<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<T0, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_T0::<RR>(vs, r), Kind::Tup(vs) => pos_T0::<RR>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_T1<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<T1<A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.0)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn sem_T1<RR: TypeResolver, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<T1<A>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_T1::<RR, A>(vs, r), Kind::Tup(vs) => pos_T1::<RR, A>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_T2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<T2<A, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.1)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Index(1), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn sem_T2<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<T2<A, B>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_T2::<RR, A, B>(vs, r), Kind::Tup(vs) => pos_T2::<RR, A, B>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_T3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, G: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<T3<A, B, G>, Error>) -> bool {
    if vs.len() != 3 { says(r, GKind::WrongLength(vs.len() as usize, 3)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.1)) && <G as IntoVisitor<RR>>::tsem(vs[2], Ok(x.2)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Index(1), e) || (good::<RR, B>(vs[1]) && (bad_l::<RR, G>(vs[2], GLoc::Index(2), e) || (good::<RR, G>(vs[2]) && false)))))) } }
}
pub open spec fn sem_T3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>, G: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<T3<A, B, G>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_T3::<RR, A, B, G>(vs, r), Kind::Tup(vs) => pos_T3::<RR, A, B, G>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_TS<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<TS<A, Z, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x.2)) && is_default(x.1), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Index(2), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn sem_TS<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<TS<A, Z, B>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_TS::<RR, A, Z, B>(vs, r), Kind::Tup(vs) => pos_TS::<RR, A, Z, B>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_TS0<RR: TypeResolver, Z: Default + IntoVisitor<RR>, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<TS0<Z, A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x.1)) && is_default(x.0), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(1), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn sem_TS0<RR: TypeResolver, Z: Default + IntoVisitor<RR>, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<TS0<Z, A>, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_TS0::<RR, Z, A>(vs, r), Kind::Tup(vs) => pos_TS0::<RR, Z, A>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn pos_Un<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<Un, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => true, Err(e) => false } }
}
pub open spec fn sem_Un<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<Un, Error>) -> bool {
    match v.k { Kind::Comp(names, vs) => pos_Un::<RR>(vs, r), Kind::Tup(vs) => pos_Un::<RR>(vs, r), k => refused(u_of(k), r) }
}
pub open spec fn sem_E1<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<E1, Error>) -> bool {
    match peel(v.k) { Kind::Variant(name, _, names, fs) => if name == "A"@ { r == Ok::<E1, Error>(E1::A) } else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("A"@))) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }, k => refused(u_of(k), r) }
}
pub open spec fn pos_E3_Y<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<E3<A, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches E3::Y(x0, x1) && <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x1))), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Index(1), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn pos_E3_Z<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<E3<A, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches E3::Z { a: x0, b: x1 } && <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x1))), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("b"@), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn named_E3_Z<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<E3<A, B>, Error>) -> bool {
    if unnamed(names) { pos_E3_Z::<RR, A, B>(vs, r) } else { match r { Ok(x) => (x matches E3::Z { a: x0, b: x1 } && at::<RR, A>(names, vs, "a"@, x0) && at::<RR, B>(names, vs, "b"@, x1)), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && (bad_at::<RR, B>(names, vs, "b"@, e) || (good_at::<RR, B>(names, vs, "b"@) && false)))) } }
}
pub open spec fn sem_E3<RR: TypeResolver, A: IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<E3<A, B>, Error>) -> bool {
    match peel(v.k) { Kind::Variant(name, _, names, fs) => if name == "X"@ { r == Ok::<E3<A, B>, Error>(E3::X) } else if name == "Y"@ { pos_E3_Y::<RR, A, B>(fs, r) } else if name == "Z"@ { named_E3_Z::<RR, A, B>(names, fs, r) } else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("X"@).push("Y"@).push("Z"@))) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }, k => refused(u_of(k), r) }
}
pub open spec fn pos_ES_A<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ES<A, Z, B>, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ES::A { a: x0, z: x1, b: x2 } && <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x0)) && <B as IntoVisitor<RR>>::tsem(vs[1], Ok(x2)) && is_default(x1)), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("a"@), e) || (good::<RR, A>(vs[0]) && (bad_l::<RR, B>(vs[1], GLoc::Field("b"@), e) || (good::<RR, B>(vs[1]) && false)))) } }
}
pub open spec fn named_ES_A<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<ES<A, Z, B>, Error>) -> bool {
    if unnamed(names) { pos_ES_A::<RR, A, Z, B>(vs, r) } else { match r { Ok(x) => (x matches ES::A { a: x0, z: x1, b: x2 } && at::<RR, A>(names, vs, "a"@, x0) && at::<RR, B>(names, vs, "b"@, x2) && is_default(x1)), Err(e) => (bad_at::<RR, A>(names, vs, "a"@, e) || (good_at::<RR, A>(names, vs, "a"@) && (bad_at::<RR, B>(names, vs, "b"@, e) || (good_at::<RR, B>(names, vs, "b"@) && false)))) } }
}
pub open spec fn pos_ES_B<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ES<A, Z, B>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ES::B(x0, x1) && <B as IntoVisitor<RR>>::tsem(vs[0], Ok(x1)) && is_default(x0)), Err(e) => (bad_l::<RR, B>(vs[0], GLoc::Index(1), e) || (good::<RR, B>(vs[0]) && false)) } }
}
pub open spec fn sem_ES<RR: TypeResolver, A: IntoVisitor<RR>, Z: Default + IntoVisitor<RR>, B: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<ES<A, Z, B>, Error>) -> bool {
    match peel(v.k) { Kind::Variant(name, _, names, fs) => if name == "A"@ { named_ES_A::<RR, A, Z, B>(names, fs, r) } else if name == "B"@ { pos_ES_B::<RR, A, Z, B>(fs, r) } else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("A"@).push("B"@))) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }, k => refused(u_of(k), r) }
}
pub open spec fn pos_ER_type<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ER::vx_r_type(x0) && <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x0))), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Index(0), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn pos_ER_Some<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if vs.len() != 1 { says(r, GKind::WrongLength(vs.len() as usize, 1)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ER::Some { val: x0 } && <A as IntoVisitor<RR>>::tsem(vs[0], Ok(x0))), Err(e) => (bad_l::<RR, A>(vs[0], GLoc::Field("val"@), e) || (good::<RR, A>(vs[0]) && false)) } }
}
pub open spec fn named_ER_Some<RR: TypeResolver, A: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if unnamed(names) { pos_ER_Some::<RR, A>(vs, r) } else { match r { Ok(x) => (x matches ER::Some { val: x0 } && at::<RR, A>(names, vs, "val"@, x0)), Err(e) => (bad_at::<RR, A>(names, vs, "val"@, e) || (good_at::<RR, A>(names, vs, "val"@) && false)) } }
}
pub open spec fn pos_ER_Empty<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ER::Empty {  } && true), Err(e) => false } }
}
pub open spec fn named_ER_Empty<RR: TypeResolver, A: IntoVisitor<RR>>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if unnamed(names) { pos_ER_Empty::<RR, A>(vs, r) } else { match r { Ok(x) => (x matches ER::Empty {  } && true), Err(e) => false } }
}
pub open spec fn pos_ER_T<RR: TypeResolver, A: IntoVisitor<RR>>(vs: Seq<Val<RR::TypeId>>, r: Result<ER<A>, Error>) -> bool {
    if vs.len() != 0 { says(r, GKind::WrongLength(vs.len() as usize, 0)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches ER::T() && true), Err(e) => false } }
}
pub open spec fn sem_ER<RR: TypeResolver, A: IntoVisitor<RR>>(v: Val<RR::TypeId>, r: Result<ER<A>, Error>) -> bool {
    match peel(v.k) { Kind::Variant(name, _, names, fs) => if name == "type"@ { pos_ER_type::<RR, A>(fs, r) } else if name == "Some"@ { named_ER_Some::<RR, A>(names, fs, r) } else if name == "Empty"@ { named_ER_Empty::<RR, A>(names, fs, r) } else if name == "T"@ { pos_ER_T::<RR, A>(fs, r) } else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("type"@).push("Some"@).push("Empty"@).push("T"@))) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }, k => refused(u_of(k), r) }
}
pub open spec fn pos_EK_A<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<EK, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches EK::A(x0, x1) && <u8 as IntoVisitor<RR>>::tsem(vs[0], Ok(x0)) && <String as IntoVisitor<RR>>::tsem(vs[1], Ok(x1))), Err(e) => (bad_l::<RR, u8>(vs[0], GLoc::Index(0), e) || (good::<RR, u8>(vs[0]) && (bad_l::<RR, String>(vs[1], GLoc::Index(1), e) || (good::<RR, String>(vs[1]) && false)))) } }
}
pub open spec fn pos_EK_B<RR: TypeResolver>(vs: Seq<Val<RR::TypeId>>, r: Result<EK, Error>) -> bool {
    if vs.len() != 2 { says(r, GKind::WrongLength(vs.len() as usize, 2)) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) } else { match r { Ok(x) => (x matches EK::B { a: x0, b: x1 } && <u16 as IntoVisitor<RR>>::tsem(vs[0], Ok(x0)) && <bool as IntoVisitor<RR>>::tsem(vs[1], Ok(x1))), Err(e) => (bad_l::<RR, u16>(vs[0], GLoc::Field("a"@), e) || (good::<RR, u16>(vs[0]) && (bad_l::<RR, bool>(vs[1], GLoc::Field("b"@), e) || (good::<RR, bool>(vs[1]) && false)))) } }
}
pub open spec fn named_EK_B<RR: TypeResolver>(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<EK, Error>) -> bool {
    if unnamed(names) { pos_EK_B::<RR>(vs, r) } else { match r { Ok(x) => (x matches EK::B { a: x0, b: x1 } && at::<RR, u16>(names, vs, "a"@, x0) && at::<RR, bool>(names, vs, "b"@, x1)), Err(e) => (bad_at::<RR, u16>(names, vs, "a"@, e) || (good_at::<RR, u16>(names, vs, "a"@) && (bad_at::<RR, bool>(names, vs, "b"@, e) || (good_at::<RR, bool>(names, vs, "b"@) && false)))) } }
}
pub open spec fn sem_EK<RR: TypeResolver>(v: Val<RR::TypeId>, r: Result<EK, Error>) -> bool {
    match peel(v.k) { Kind::Variant(name, _, names, fs) => if name == "A"@ { pos_EK_A::<RR>(fs, r) } else if name == "B"@ { named_EK_B::<RR>(names, fs, r) } else if name == "None"@ { r == Ok::<EK, Error>(EK::None) } else { says(r, GKind::NoVariant(name, Seq::<Seq<char>>::empty().push("A"@).push("B"@).push("None"@))) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }, k => refused(u_of(k), r) }
}
} // derived
%mod shapes::of_*
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError, DecodeAsTypeResult, types::*};
#[allow(unused_imports)] use crate::{Error, TypeResolver, FieldIter, IntoVisitor, Visitor as _, DecodeAsFields};
#[allow(unused_imports)] use crate::visitor::types::composite::CompositeField;
#[allow(unused_imports)] use crate::derived::*;
%drop use:vec
%drop use:ToString
%rename unwrap_or_default => vx_unwrap_or_default in shapes::*
%subst ::core::default::Default::default => crate::xcr::vx_default in shapes::*

%impl shapes::of_N0::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_N0::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } } else { crate::targets::named_at(c0, e) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_N0::<N0 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_N0::<$R>(v, r) }
%fn shapes::of_N0::<N0 as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_N0::<N0 as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_N0::<$R>(names, vs, r) }
%fn shapes::of_N0::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_N0::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_N1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_N1::<ScaleDecodeTypeResolver, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_N1::<N1<A> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_N1::<$R, A>(v, r) }
%fn shapes::of_N1::<N1<A> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_N1::<N1<A> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_N1::<$R, A>(names, vs, r) }
%fn shapes::of_N1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_N1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_N2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_N2::<ScaleDecodeTypeResolver, A, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_N2::<N2<A,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_N2::<$R, A, B>(v, r) }
%fn shapes::of_N2::<N2<A,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_N2::<N2<A,B> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_N2::<$R, A, B>(names, vs, r) }
%fn shapes::of_N2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_N2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "b"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_N3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_N3::<ScaleDecodeTypeResolver, A, B, G>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Field("c"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("c"@)) || e.says(crate::error::GKind::NoField("c"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Field("c"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_N3::<N3<A,B,G> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_N3::<$R, A, B, G>(v, r) }
%fn shapes::of_N3::<N3<A,B,G> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, G, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_N3::<N3<A,B,G> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_N3::<$R, A, B, G>(names, vs, r) }
%fn shapes::of_N3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_N3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "c"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "b"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, G>(gn, gv, "a"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NS1::<Visitor<Z,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NS1::<ScaleDecodeTypeResolver, Z>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } } else { crate::targets::named_at(c0, e) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NS1::<NS1<Z> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NS1::<$R, Z>(v, r) }
%fn shapes::of_NS1::<NS1<Z> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<Z, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NS1::<NS1<Z> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NS1::<$R, Z>(names, vs, r) }
%fn shapes::of_NS1::<Visitor<Z,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NS1::<Visitor<Z,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NS2::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NS2::<ScaleDecodeTypeResolver, Z, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NS2::<NS2<Z,A> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NS2::<$R, Z, A>(v, r) }
%fn shapes::of_NS2::<NS2<Z,A> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<Z, A, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NS2::<NS2<Z,A> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NS2::<$R, Z, A>(names, vs, r) }
%fn shapes::of_NS2::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NS2::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NS3::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NS3::<ScaleDecodeTypeResolver, A, Z, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NS3::<NS3<A,Z,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NS3::<$R, A, Z, B>(v, r) }
%fn shapes::of_NS3::<NS3<A,Z,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, Z, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NS3::<NS3<A,Z,B> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NS3::<$R, A, Z, B>(names, vs, r) }
%fn shapes::of_NS3::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NS3::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "b"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NR::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NR::<ScaleDecodeTypeResolver, A, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("type"@)) || crate::targets::raised(e, crate::error::GLoc::Field("val"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("type"@)) || e.says(crate::error::GKind::NoField("type"@)) || crate::targets::raised(e, crate::error::GLoc::Field("val"@)) || e.says(crate::error::GKind::NoField("val"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("type"@)) || crate::targets::raised(e, crate::error::GLoc::Field("val"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NR::<NR<A,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NR::<$R, A, B>(v, r) }
%fn shapes::of_NR::<NR<A,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NR::<NR<A,B> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NR::<$R, A, B>(names, vs, r) }
%fn shapes::of_NR::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NR::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "type"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "val"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NG::<Visitor<T,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NG::<ScaleDecodeTypeResolver, T>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("val"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("val"@)) || e.says(crate::error::GKind::NoField("val"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("val"@)) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NG::<NG<T> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NG::<$R, T>(v, r) }
%fn shapes::of_NG::<NG<T> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<T, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NG::<NG<T> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NG::<$R, T>(names, vs, r) }
%fn shapes::of_NG::<Visitor<T,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NG::<Visitor<T,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, T>(gn, gv, "val"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, Box<T>>(gn, gv, "a"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NK::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NK::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("c"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("c"@)) || e.says(crate::error::GKind::NoField("c"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || crate::targets::raised(e, crate::error::GLoc::Field("c"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NK::<NK as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NK::<$R>(v, r) }
%fn shapes::of_NK::<NK as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NK::<NK as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NK::<$R>(names, vs, r) }
%fn shapes::of_NK::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NK::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, u8>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, String>(gn, gv, "b"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, Vec<u16>>(gn, gv, "c"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_NC::<Visitor<N,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_NC::<ScaleDecodeTypeResolver, N>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if crate::derived::unnamed(crate::spec::names(c0.gf())) { if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } } else { crate::targets::named_at(c0, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_NC::<NC<N> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_NC::<$R, N>(v, r) }
%fn shapes::of_NC::<NC<N> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<N, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_NC::<NC<N> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::named_NC::<$R, N>(names, vs, r) }
%fn shapes::of_NC::<Visitor<N,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_NC::<Visitor<N,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, [u8; N]>(gn, gv, "a"@); 
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),

%impl shapes::of_T0::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_T0::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_T0::<T0 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_T0::<$R>(v, r) }
%fn shapes::of_T0::<T0 as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_T0::<T0 as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_T0::<$R>(vs, r) }
%fn shapes::of_T0::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_T0::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_T1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_T1::<ScaleDecodeTypeResolver, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_T1::<T1<A> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_T1::<$R, A>(v, r) }
%fn shapes::of_T1::<T1<A> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_T1::<T1<A> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_T1::<$R, A>(vs, r) }
%fn shapes::of_T1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_T1::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_T2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_T2::<ScaleDecodeTypeResolver, A, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_T2::<T2<A,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_T2::<$R, A, B>(v, r) }
%fn shapes::of_T2::<T2<A,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_T2::<T2<A,B> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_T2::<$R, A, B>(vs, r) }
%fn shapes::of_T2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_T2::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_T3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_T3::<ScaleDecodeTypeResolver, A, B, G>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) || crate::targets::raised(e, crate::error::GLoc::Index(2)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 3 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 3)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) || crate::targets::raised(e, crate::error::GLoc::Index(2)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_T3::<T3<A,B,G> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_T3::<$R, A, B, G>(v, r) }
%fn shapes::of_T3::<T3<A,B,G> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, G, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_T3::<T3<A,B,G> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_T3::<$R, A, B, G>(vs, r) }
%fn shapes::of_T3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_T3::<Visitor<A,B,G,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_TS::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_TS::<ScaleDecodeTypeResolver, A, Z, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(2)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(2)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_TS::<TS<A,Z,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_TS::<$R, A, Z, B>(v, r) }
%fn shapes::of_TS::<TS<A,Z,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, Z, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_TS::<TS<A,Z,B> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_TS::<$R, A, Z, B>(vs, r) }
%fn shapes::of_TS::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_TS::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_TS0::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_TS0::<ScaleDecodeTypeResolver, Z, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(1)) } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(1)) } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_TS0::<TS0<Z,A> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_TS0::<$R, Z, A>(v, r) }
%fn shapes::of_TS0::<TS0<Z,A> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<Z, A, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_TS0::<TS0<Z,A> as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_TS0::<$R, Z, A>(vs, r) }
%fn shapes::of_TS0::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_TS0::<Visitor<Z,A,ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_Un::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_Un::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.next_field_idx == 0 ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> if c0.fields@.len() - c0.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields@.len() - c0.next_field_idx) as usize, 0)) } else { false } }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_Un::<Un as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_Un::<$R>(v, r) }
%fn shapes::of_Un::<Un as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%impl shapes::of_Un::<Un as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool { crate::derived::pos_Un::<$R>(vs, r) }
%fn shapes::of_Un::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple
%params value type_id
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took};
    let ghost me = *value;
    proof { Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }
%fn shapes::of_Un::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, Composite::lemma_took};
    let ghost me = *value;
    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }
%impl shapes::of_E1::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_E1::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> if c0.variant_name@ == "A"@ { false } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("A"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_E1::<E1 as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_E1::<$R>(v, r) }
%fn shapes::of_E1::<E1 as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn shapes::of_E1::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite [twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn shapes::of_E1::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple [twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
%fn shapes::of_E1::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); 
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }
%impl shapes::of_E3::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_E3::<ScaleDecodeTypeResolver, A, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> if c0.variant_name@ == "X"@ { false } else if c0.variant_name@ == "Y"@ { if c0.fields.fields@.len() - c0.fields.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) } } else if c0.variant_name@ == "Z"@ { if crate::derived::unnamed(crate::spec::names(c0.fields.gf())) { if c0.fields.fields@.len() - c0.fields.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } } else { crate::targets::named_at(c0.fields, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) } } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("X"@).push("Y"@).push("Z"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_E3::<E3<A,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_E3::<$R, A, B>(v, r) }
%fn shapes::of_E3::<E3<A,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn shapes::of_E3::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite [twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn shapes::of_E3::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple [twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
%fn shapes::of_E3::<Visitor<A,B,ScaleDecodeTypeResolver> as Visitor>::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "b"@); 
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }
%loop 0
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),

%impl shapes::of_ES::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_ES::<ScaleDecodeTypeResolver, A, Z, B>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> if c0.variant_name@ == "A"@ { if crate::derived::unnamed(crate::spec::names(c0.fields.gf())) { if c0.fields.fields@.len() - c0.fields.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } } else { crate::targets::named_at(c0.fields, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) } } else if c0.variant_name@ == "B"@ { if c0.fields.fields@.len() - c0.fields.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(1)) } } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("A"@).push("B"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_ES::<ES<A,Z,B> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_ES::<$R, A, Z, B>(v, r) }
%fn shapes::of_ES::<ES<A,Z,B> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, Z, B, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn shapes::of_ES::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_composite [twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn shapes::of_ES::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_tuple [twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
%fn shapes::of_ES::<Visitor<A,Z,B,ScaleDecodeTypeResolver> as Visitor>::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, B>(gn, gv, "b"@); 
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }
%loop 0
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),

%impl shapes::of_ER::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_ER::<ScaleDecodeTypeResolver, A>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> if c0.variant_name@ == "type"@ { if c0.fields.fields@.len() - c0.fields.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) } } else if c0.variant_name@ == "Some"@ { if crate::derived::unnamed(crate::spec::names(c0.fields.gf())) { if c0.fields.fields@.len() - c0.fields.next_field_idx != 1 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 1)) } else { crate::targets::raised(e, crate::error::GLoc::Field("val"@)) } } else { crate::targets::named_at(c0.fields, e) || crate::targets::raised(e, crate::error::GLoc::Field("val"@)) || e.says(crate::error::GKind::NoField("val"@)) } } else if c0.variant_name@ == "Empty"@ { if crate::derived::unnamed(crate::spec::names(c0.fields.gf())) { if c0.fields.fields@.len() - c0.fields.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 0)) } else { false } } else { crate::targets::named_at(c0.fields, e) } } else if c0.variant_name@ == "T"@ { if c0.fields.fields@.len() - c0.fields.next_field_idx != 0 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 0)) } else { false } } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("type"@).push("Some"@).push("Empty"@).push("T"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_ER::<ER<A> as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_ER::<$R, A>(v, r) }
%fn shapes::of_ER::<ER<A> as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<A, $R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn shapes::of_ER::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_composite [twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn shapes::of_ER::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_tuple [twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
%fn shapes::of_ER::<Visitor<A,ScaleDecodeTypeResolver> as Visitor>::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, A>(gn, gv, "val"@); 
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }
%loop 0
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),

%loop 1
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),

%impl shapes::of_EK::<Visitor<ScaleDecodeTypeResolver> as Visitor>
    open spec fn lawful(self) -> bool { true }
    open spec fn takes(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool { false }
    open spec fn plain_hook(self) -> bool { true }
    open spec fn whole(self) -> bool { true }
    open spec fn sem<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::derived::sem_EK::<ScaleDecodeTypeResolver>(v, r) }
    open spec fn unexpected<'s, 'r>(self, u: Unexpected, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { crate::targets::refused(u, r) }
    open spec fn asked<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &Self::TypeResolver, compact: bool, r: DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>>) -> bool { r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0 }
    open spec fn saw_leaf<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_comp<'s, 'r>(self, c0: Composite<'s, 'r, Self::TypeResolver>, c1: Composite<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_tup<'s, 'r>(self, c0: Tuple<'s, 'r, Self::TypeResolver>, c1: Tuple<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_seq<'s, 'r>(self, c0: Sequence<'s, 'r, Self::TypeResolver>, c1: Sequence<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_arr<'s, 'r>(self, c0: Array<'s, 'r, Self::TypeResolver>, c1: Array<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_var<'s, 'r>(self, c0: Variant<'s, 'r, Self::TypeResolver>, c1: Variant<'s, 'r, Self::TypeResolver>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> if c0.variant_name@ == "A"@ { if c0.fields.fields@.len() - c0.fields.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Index(0)) || crate::targets::raised(e, crate::error::GLoc::Index(1)) } } else if c0.variant_name@ == "B"@ { if crate::derived::unnamed(crate::spec::names(c0.fields.gf())) { if c0.fields.fields@.len() - c0.fields.next_field_idx != 2 { e.says(crate::error::GKind::WrongLength((c0.fields.fields@.len() - c0.fields.next_field_idx) as usize, 2)) } else { crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) } } else { crate::targets::named_at(c0.fields, e) || crate::targets::raised(e, crate::error::GLoc::Field("a"@)) || e.says(crate::error::GKind::NoField("a"@)) || crate::targets::raised(e, crate::error::GLoc::Field("b"@)) || e.says(crate::error::GKind::NoField("b"@)) } } else if c0.variant_name@ == "None"@ { false } else { e.says(crate::error::GKind::NoVariant(c0.variant_name@, Seq::<Seq<char>>::empty().push("A"@).push("B"@).push("None"@))) } }
    open spec fn saw_str<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
    open spec fn saw_bits<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: Result<Self::Value<'s, 'r>, Self::Error>) -> bool { true }
%impl shapes::of_EK::<EK as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool { crate::derived::sem_EK::<$R>(v, r) }
%fn shapes::of_EK::<EK as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<$R>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by { }
%fn shapes::of_EK::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_composite [twin]
%params value type_id
%pre
    proof { Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Composite::lemma_first(*value); } }
%fn shapes::of_EK::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_tuple [twin]
%params value type_id
%pre
    proof { Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() { Tuple::lemma_first(*value); } }
%fn shapes::of_EK::<Visitor<ScaleDecodeTypeResolver> as Visitor>::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() { Some((vs, _)) => vs, None => Seq::<crate::spec::Val<ScaleDecodeTypeResolver::TypeId>>::empty() };
    proof { Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 { crate::derived::lemma_unnamed(me); } Composite::lemma_names(me); crate::derived::lemma_seen::<ScaleDecodeTypeResolver>(gn, gv); crate::derived::lemma_at::<ScaleDecodeTypeResolver, u16>(gn, gv, "a"@); crate::derived::lemma_at::<ScaleDecodeTypeResolver, bool>(gn, gv, "b"@); 
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }
%loop 0
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<ScaleDecodeTypeResolver>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),

%props shapes::of_N0::*visit_composite C19 C21
%props shapes::of_N0::*visit_tuple C19 C21
%props shapes::of_N0::*into_visitor C19
%props shapes::of_N0::*decode_as_fields C10 C19 C22 C01
%props shapes::of_N1::*visit_composite C19 C21
%props shapes::of_N1::*visit_tuple C19 C21
%props shapes::of_N1::*into_visitor C19
%props shapes::of_N1::*decode_as_fields C10 C19 C22 C01
%props shapes::of_N2::*visit_composite C19 C21
%props shapes::of_N2::*visit_tuple C19 C21
%props shapes::of_N2::*into_visitor C19
%props shapes::of_N2::*decode_as_fields C10 C19 C22 C01
%props shapes::of_N3::*visit_composite C19 C21
%props shapes::of_N3::*visit_tuple C19 C21
%props shapes::of_N3::*into_visitor C19
%props shapes::of_N3::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NS1::*visit_composite C19 C21
%props shapes::of_NS1::*visit_tuple C19 C21
%props shapes::of_NS1::*into_visitor C19
%props shapes::of_NS1::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NS2::*visit_composite C19 C21
%props shapes::of_NS2::*visit_tuple C19 C21
%props shapes::of_NS2::*into_visitor C19
%props shapes::of_NS2::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NS3::*visit_composite C19 C21
%props shapes::of_NS3::*visit_tuple C19 C21
%props shapes::of_NS3::*into_visitor C19
%props shapes::of_NS3::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NR::*visit_composite C19 C21
%props shapes::of_NR::*visit_tuple C19 C21
%props shapes::of_NR::*into_visitor C19
%props shapes::of_NR::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NG::*visit_composite C19 C21
%props shapes::of_NG::*visit_tuple C19 C21
%props shapes::of_NG::*into_visitor C19
%props shapes::of_NG::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NK::*visit_composite C19 C21
%props shapes::of_NK::*visit_tuple C19 C21
%props shapes::of_NK::*into_visitor C19
%props shapes::of_NK::*decode_as_fields C10 C19 C22 C01
%props shapes::of_NC::*visit_composite C19 C21
%props shapes::of_NC::*visit_tuple C19 C21
%props shapes::of_NC::*into_visitor C19
%props shapes::of_NC::*decode_as_fields C10 C19 C22 C01
%props shapes::of_T0::*visit_composite C19 C21
%props shapes::of_T0::*visit_tuple C19 C21
%props shapes::of_T0::*into_visitor C19
%props shapes::of_T0::*decode_as_fields C10 C19 C22 C01
%props shapes::of_T1::*visit_composite C19 C21
%props shapes::of_T1::*visit_tuple C19 C21
%props shapes::of_T1::*into_visitor C19
%props shapes::of_T1::*decode_as_fields C10 C19 C22 C01
%props shapes::of_T2::*visit_composite C19 C21
%props shapes::of_T2::*visit_tuple C19 C21
%props shapes::of_T2::*into_visitor C19
%props shapes::of_T2::*decode_as_fields C10 C19 C22 C01
%props shapes::of_T3::*visit_composite C19 C21
%props shapes::of_T3::*visit_tuple C19 C21
%props shapes::of_T3::*into_visitor C19
%props shapes::of_T3::*decode_as_fields C10 C19 C22 C01
%props shapes::of_TS::*visit_composite C19 C21
%props shapes::of_TS::*visit_tuple C19 C21
%props shapes::of_TS::*into_visitor C19
%props shapes::of_TS::*decode_as_fields C10 C19 C22 C01
%props shapes::of_TS0::*visit_composite C19 C21
%props shapes::of_TS0::*visit_tuple C19 C21
%props shapes::of_TS0::*into_visitor C19
%props shapes::of_TS0::*decode_as_fields C10 C19 C22 C01
%props shapes::of_Un::*visit_composite C19 C21
%props shapes::of_Un::*visit_tuple C19 C21
%props shapes::of_Un::*into_visitor C19
%props shapes::of_Un::*decode_as_fields C10 C19 C22 C01
%props shapes::of_E1::*visit_variant C20 C21
%props shapes::of_E1::*into_visitor C20 C14
%props shapes::of_E1::*visit_composite C14
%props shapes::of_E1::*visit_tuple C14
%props shapes::of_E3::*visit_variant C20 C21
%props shapes::of_E3::*into_visitor C20 C14
%props shapes::of_E3::*visit_composite C14
%props shapes::of_E3::*visit_tuple C14
%props shapes::of_ES::*visit_variant C20 C21
%props shapes::of_ES::*into_visitor C20 C14
%props shapes::of_ES::*visit_composite C14
%props shapes::of_ES::*visit_tuple C14
%props shapes::of_ER::*visit_variant C20 C21
%props shapes::of_ER::*into_visitor C20 C14
%props shapes::of_ER::*visit_composite C14
%props shapes::of_ER::*visit_tuple C14
%props shapes::of_EK::*visit_variant C20 C21
%props shapes::of_EK::*into_visitor C20 C14
%props shapes::of_EK::*visit_composite C14
%props shapes::of_EK::*visit_tuple C14
