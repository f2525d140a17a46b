//! Reference semantics of the built-in and derived decoding targets.
use crate::gen::*;
use crate::model::*;
use crate::reg::*;
use scale_decode::error::{ErrorKind, Location};
use scale_decode::visitor::{DecodeError, Unexpected};
use scale_decode::Error;
use scale_type_resolver::Primitive;
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    P(PErr),
    Unexpected(Unexpected),
    OutOfRange(String),
    NoVariant(String, Vec<&'static str>),
    WrongLen(usize, usize),
    NoField(String),
    Utf8,
    Custom,
    /// The statement leaves the outcome open.
    Open,
}
#[derive(Clone, Debug, PartialEq)]
pub struct EView {
    pub locs: Vec<Location>,
    pub kind: K,
}
impl EView {
    pub fn new(kind: K) -> Self {
        EView { locs: vec![], kind }
    }
    pub fn at(mut self, l: Location) -> Self {
        self.locs.push(l);
        self
    }
    pub fn skip(&self) -> bool {
        matches!(self.kind, K::Open | K::P(PErr::Fuel))
    }
    pub fn kind_matches(&self, e: &Error) -> bool {
        match (&self.kind, e.kind()) {
            (K::P(p), ErrorKind::VisitorDecodeError(d)) => perr_matches(p, d),
            (K::Unexpected(u), ErrorKind::VisitorDecodeError(DecodeError::Unexpected(v))) => u == v,
            (K::Utf8, ErrorKind::VisitorDecodeError(DecodeError::InvalidStr(_))) => true,
            (K::OutOfRange(s), ErrorKind::NumberOutOfRange { value }) => s == value,
            (K::NoVariant(g, x), ErrorKind::CannotFindVariant { got, expected }) => {
                let (mut a, mut b) = (x.clone(), expected.clone());
                a.sort();
                b.sort();
                g == got && a == b
            }
            (K::WrongLen(a, x), ErrorKind::WrongLength { actual_len, expected_len }) => a == actual_len && x == expected_len,
            (K::NoField(n), ErrorKind::CannotFindField { name }) => n == name,
            (K::Custom, ErrorKind::Custom(_)) => true,
            _ => false,
        }
    }
    pub fn locs_match(&self, e: &Error) -> bool {
        e.context().path().locations().eq(self.locs.iter())
    }
}
fn p<T>(r: Result<T, PErr>) -> Result<T, EView> {
    r.map_err(|e| EView::new(K::P(e)))
}

pub type Val<T> = Result<T, EView>;
pub type SRes<T> = Result<(T, usize), EView>;

/// The general rule: resolve, hand the value to the target, skip what it left; the target's error wins.
pub fn visit<T>(cx: &Cx, id: &Tid, c: bool, b: &[u8], f: impl FnOnce(&Head) -> Val<T>) -> SRes<T> {
    let h = p(cx.head(id, c, b))?;
    finish(cx, &h, b, f(&h))
}
pub fn finish<T>(cx: &Cx, h: &Head, b: &[u8], r: Val<T>) -> SRes<T> {
    let rest = cx.rest(h, b);
    if rest == Err(PErr::Fuel) {
        return Err(EView::new(K::P(PErr::Fuel)));
    }
    let v = r?;
    Ok((v, p(rest)?))
}

pub trait Spec: Sized + std::fmt::Debug {
    fn spec(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self> {
        visit(cx, id, c, b, |h| Self::on(cx, h, b))
    }
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self>;
    /// A type that (mostly) decodes into this.
    fn gen(g: &mut G, d: u32) -> Tid;
    fn canon(&self) -> String {
        format!("{self:?}")
    }
}

/// A type for target `T`, with wrappers and noise.
pub fn tgen<T: Spec>(g: &mut G, d: u32) -> Tid {
    let x = g.r.below(100) as u32;
    if x < g.noise {
        return g.ty(d.min(2));
    }
    if x < g.noise + g.compact {
        let t = tgen_wrap::<T>(g, d);
        return g.reg.add(Ty::Compact(t));
    }
    tgen_wrap::<T>(g, d)
}
fn tgen_wrap<T: Spec>(g: &mut G, d: u32) -> Tid {
    if g.r.chance(g.wrap) {
        let n = if g.r.chance(85) { 1 } else { g.r.below(4) };
        let mut ts: Vec<Tid> = (0..n).map(|_| tgen::<T>(g, d)).collect();
        if g.r.chance(50) {
            let f = ts.drain(..).map(|t| (if g.r.chance(50) { Some(*g.r.pick(&NAMES)) } else { None }, t)).collect();
            g.composite(f)
        } else {
            g.reg.add(Ty::Tuple(ts))
        }
    } else {
        T::gen(g, d)
    }
}

fn unexpected<T>(h: &Head) -> Val<T> {
    Err(EView::new(K::Unexpected(head_kind(h))))
}
/// Single-field composites and tuples are transparent; every other one is unexpected.
fn peel<T: Spec>(cx: &Cx, h: &Head, b: &[u8]) -> Val<T> {
    match h {
        Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) && it.count == 1 => {
            Ok(T::spec(cx, it.id(0), it.compact, b)?.0)
        }
        _ => unexpected(h),
    }
}

macro_rules! ints {
    ($($t:ty, $p:ident);*) => {$(
        impl Spec for $t {
            fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
                let out = |s: String| EView::new(K::OutOfRange(s));
                match h {
                    Head::Leaf(_, LeafVal::U(v), _) => (*v).try_into().map_err(|_| out(v.to_string())),
                    Head::Leaf(_, LeafVal::I(v), _) => (*v).try_into().map_err(|_| out(v.to_string())),
                    _ => peel(cx, h, b),
                }
            }
            fn gen(g: &mut G, _d: u32) -> Tid {
                int_ty(g, Primitive::$p)
            }
        }
    )*};
}
ints!(u8, U8; u16, U16; u32, U32; u64, U64; u128, U128; usize, U64; i8, I8; i16, I16; i32, I32; i64, I64; i128, I128; isize, I64);
fn int_ty(g: &mut G, own: Primitive) -> Tid {
    match g.r.below(10) {
        0..=2 => g.reg.prim(own),
        3..=7 => {
            let p = PRIMS[g.r.below(10)];
            g.reg.prim(p)
        }
        _ => {
            let k = if g.wrap > 0 { 2 } else { 0 };
            let t = g.compactable(k);
            g.reg.add(Ty::Compact(t))
        }
    }
}
macro_rules! nonzero {
    ($($t:ident, $i:ident, $p:ident);*) => {$(
        impl Spec for std::num::$t {
            fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
                let out = |s: String| EView::new(K::OutOfRange(s));
                match h {
                    Head::Leaf(_, LeafVal::U(v), _) => {
                        $i::try_from(*v).ok().and_then(std::num::$t::new).ok_or_else(|| out(v.to_string()))
                    }
                    Head::Leaf(_, LeafVal::I(v), _) => {
                        $i::try_from(*v).ok().and_then(std::num::$t::new).ok_or_else(|| out(v.to_string()))
                    }
                    _ => peel(cx, h, b),
                }
            }
            fn gen(g: &mut G, _d: u32) -> Tid {
                int_ty(g, Primitive::$p)
            }
        }
    )*};
}
nonzero!(NonZeroU8, u8, U8; NonZeroU16, u16, U16; NonZeroU32, u32, U32; NonZeroU64, u64, U64; NonZeroU128, u128, U128;
    NonZeroI8, i8, I8; NonZeroI16, i16, I16; NonZeroI32, i32, I32; NonZeroI64, i64, I64; NonZeroI128, i128, I128);

impl Spec for bool {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Leaf(_, LeafVal::Bool(v), _) => Ok(*v),
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, _d: u32) -> Tid {
        g.reg.prim(Primitive::Bool)
    }
}
impl Spec for char {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Leaf(_, LeafVal::Char(v), _) => Ok(*v),
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, _d: u32) -> Tid {
        g.reg.prim(Primitive::Char)
    }
}
impl Spec for String {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Str { len, pre } => {
                String::from_utf8(b[*pre..pre + len].to_vec()).map_err(|_| EView::new(K::Utf8))
            }
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, _d: u32) -> Tid {
        g.reg.prim(Primitive::Str)
    }
}
impl Spec for scale_bits::Bits {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Bits { .. } => match cx.bits(h, b) {
                Some(v) => Ok(v.into_iter().collect()),
                None => Err(EView::new(K::P(cx.rest(h, b).unwrap_err()))),
            },
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, _d: u32) -> Tid {
        g.bits()
    }
}
impl<T> Spec for PhantomData<T> {
    fn on(_cx: &Cx, h: &Head, _b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) && it.count == 0 => Ok(PhantomData),
            _ => unexpected(h),
        }
    }
    fn gen(g: &mut G, _d: u32) -> Tid {
        if g.r.chance(50) { g.composite(vec![]) } else { g.reg.add(Ty::Tuple(vec![])) }
    }
}

// --- what decodes as something else ---
macro_rules! like {
    ([$($gen:tt)*] $t:ty, $s:ty, |$x:ident| $e:expr) => {
        impl<$($gen)*> Spec for $t {
            fn spec(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self> {
                <$s>::spec(cx, id, c, b).map(|($x, n)| ($e, n))
            }
            fn on(_: &Cx, _: &Head, _: &[u8]) -> Val<Self> {
                unreachable!()
            }
            fn gen(g: &mut G, d: u32) -> Tid {
                tgen::<$s>(g, d)
            }
        }
    };
}
like!([T: Spec] Box<T>, T, |x| Box::new(x));
like!([T: Spec] Rc<T>, T, |x| Rc::new(x));
like!([T: Spec] Arc<T>, T, |x| Arc::new(x));
like!([T: Spec] codec::Compact<T>, T, |x| codec::Compact(x));
like!([T: Spec] Range<T>, (T, T), |x| x.0..x.1);
like!([T: Spec] RangeInclusive<T>, (T, T), |x| x.0..=x.1);
like!([] Cow<'static, str>, String, |x| Cow::Owned(x));
like!([] Cow<'static, u64>, u64, |x| Cow::Owned(x));
like!([] Cow<'static, [u16]>, Vec<u16>, |x| Cow::Owned(x));
like!([] primitive_types::H128, [u8; 16], |x| primitive_types::H128(x));
like!([] primitive_types::H160, [u8; 20], |x| primitive_types::H160(x));
like!([] primitive_types::H256, [u8; 32], |x| primitive_types::H256(x));
like!([] primitive_types::H384, [u8; 48], |x| primitive_types::H384(x));
like!([] primitive_types::H512, [u8; 64], |x| primitive_types::H512(x));
like!([] primitive_types::H768, [u8; 96], |x| primitive_types::H768(x));
impl Spec for Duration {
    fn spec(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self> {
        let ((s, n), k) = <(u64, u32)>::spec(cx, id, c, b)?;
        match s.checked_add(n as u64 / 1_000_000_000) {
            Some(s) => Ok((Duration::new(s, n % 1_000_000_000), k)),
            None => Err(EView::new(K::Custom)),
        }
    }
    fn on(_: &Cx, _: &Head, _: &[u8]) -> Val<Self> {
        unreachable!()
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        tgen::<(u64, u32)>(g, d)
    }
}

// --- collections ---
fn all<T: Spec>(cx: &Cx, it: &Items, b: &[u8]) -> Val<Vec<T>> {
    let mut off = it.off;
    let mut v = vec![];
    for i in 0..it.count {
        let (x, n) = T::spec(cx, it.id(i), it.compact, &b[off..]).map_err(|e| e.at(Location::idx(i)))?;
        off += n;
        v.push(x);
    }
    Ok(v)
}
fn coll_ty<T: Spec>(g: &mut G, d: u32, n: usize) -> Tid {
    let t = tgen::<T>(g, d.saturating_sub(1));
    if g.r.chance(50) {
        g.reg.add(Ty::Sequence(t))
    } else {
        g.reg.add(Ty::Array(t, n))
    }
}
macro_rules! coll {
    ($t:ident, $($b:tt)*) => {
        impl<T: Spec $($b)*> Spec for $t<T> {
            fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
                match h {
                    Head::Items(it) if matches!(it.kind, Kind::Sequence | Kind::Array) => {
                        Ok(all::<T>(cx, it, b)?.into_iter().collect())
                    }
                    _ => peel(cx, h, b),
                }
            }
            fn gen(g: &mut G, d: u32) -> Tid {
                let n = g.r.below(6);
                coll_ty::<T>(g, d, n)
            }
        }
    };
}
coll!(Vec,);
coll!(VecDeque,);
coll!(LinkedList,);
coll!(BTreeSet, + Ord);
impl<T: Spec + Ord + Clone> Spec for BinaryHeap<T> {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if matches!(it.kind, Kind::Sequence | Kind::Array) => {
                Ok(all::<T>(cx, it, b)?.into_iter().collect())
            }
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        Vec::<T>::gen(g, d)
    }
    fn canon(&self) -> String {
        format!("{:?}", self.clone().into_sorted_vec())
    }
}
impl<T: Spec, const N: usize> Spec for [T; N] {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if matches!(it.kind, Kind::Sequence | Kind::Array) => {
                let v = all::<T>(cx, it, b)?;
                let n = v.len();
                v.try_into().map_err(|_| EView::new(K::WrongLen(n, N)))
            }
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        if g.r.chance(80) {
            let t = tgen::<T>(g, d.saturating_sub(1));
            return g.reg.add(Ty::Array(t, N));
        }
        let n = (N + g.r.below(3)).saturating_sub(1);
        coll_ty::<T>(g, d, n)
    }
}

fn variant_of(g: &mut G, vs: Vec<(&'static str, Vec<FieldDesc>)>) -> Tid {
    // any order, any indices, sometimes another name or an extra field
    let mut vs = vs;
    for i in (1..vs.len()).rev() {
        let j = g.r.below(i + 1);
        vs.swap(i, j);
    }
    let seq = g.r.chance(60);
    let out = vs
        .into_iter()
        .enumerate()
        .map(|(i, (name, mut fields))| {
            let name = if g.r.chance(8) { *g.r.pick(&NAMES) } else { name };
            if g.r.chance(6) {
                let t = g.prim();
                fields.push((None, t));
            } else if g.r.chance(5) {
                fields.pop();
            }
            VariantDesc { name, index: if seq { i as u8 } else { g.r.next() as u8 }, fields }
        })
        .collect();
    g.reg.add(Ty::Variant(out))
}
fn fname(g: &mut G) -> Option<&'static str> {
    if g.r.chance(50) { None } else { Some(*g.r.pick(&NAMES)) }
}
impl<T: Spec> Spec for Option<T> {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if it.kind == Kind::Variant => match (it.vname, it.count) {
                ("Some", 1) => Ok(Some(T::spec(cx, it.id(0), false, &b[1..]).map_err(|e| e.at(Location::variant("Some")))?.0)),
                ("None", 0) => Ok(None),
                (n, _) => Err(EView::new(K::NoVariant(n.to_string(), vec!["Some", "None"]))),
            },
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        let t = tgen::<T>(g, d.saturating_sub(1));
        let n = fname(g);
        variant_of(g, vec![("None", vec![]), ("Some", vec![(n, t)])])
    }
}
impl<T: Spec, E: Spec> Spec for Result<T, E> {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if it.kind == Kind::Variant => match (it.vname, it.count) {
                ("Ok", 1) => Ok(Ok(T::spec(cx, it.id(0), false, &b[1..]).map_err(|e| e.at(Location::variant("Ok")))?.0)),
                ("Err", 1) => Ok(Err(E::spec(cx, it.id(0), false, &b[1..]).map_err(|e| e.at(Location::variant("Err")))?.0)),
                (n, _) => Err(EView::new(K::NoVariant(n.to_string(), vec!["Ok", "Err"]))),
            },
            _ => peel(cx, h, b),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        let t = tgen::<T>(g, d.saturating_sub(1));
        let e = tgen::<E>(g, d.saturating_sub(1));
        let (n, m) = (fname(g), fname(g));
        variant_of(g, vec![("Ok", vec![(n, t)]), ("Err", vec![(m, e)])])
    }
}
impl<T: Spec> Spec for BTreeMap<String, T> {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if it.kind == Kind::Composite => {
                let mut off = 0;
                let mut m = BTreeMap::new();
                for i in 0..it.count {
                    off += match it.name(i) {
                        None => p(cx.len(it.id(i), it.compact, &b[off..]))?,
                        Some(n) => {
                            let (v, k) = T::spec(cx, it.id(i), it.compact, &b[off..]).map_err(|e| e.at(Location::field(n)))?;
                            m.insert(n.to_string(), v);
                            k
                        }
                    }
                }
                Ok(m)
            }
            _ => unexpected(h),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        let n = g.r.below(6);
        let un = g.r.chance(30);
        let f = (0..n)
            .map(|_| {
                if un && g.r.chance(40) {
                    let t = g.ty(d.min(2));
                    (None, t)
                } else {
                    let k = if g.r.chance(15) { "a" } else { *g.r.pick(&NAMES) };
                    (Some(k), tgen::<T>(g, d.saturating_sub(1)))
                }
            })
            .collect();
        g.composite(f)
    }
}

// --- tuples ---
pub fn tuple_ty(g: &mut G, mut ts: Vec<Tid>) -> Tid {
    if g.r.chance(8) {
        let t = g.prim();
        ts.push(t);
    } else if g.r.chance(6) {
        ts.pop();
    }
    if g.r.chance(50) {
        g.reg.add(Ty::Tuple(ts))
    } else {
        let f = ts.into_iter().map(|t| (fname(g), t)).collect();
        g.composite(f)
    }
}
macro_rules! tuple {
    ($n:literal; $($t:ident $i:tt)*) => {
        impl<$($t: Spec),*> Spec for ($($t,)*) {
            fn spec(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self> {
                if $n == 1 && !matches!(cx.reg.get(id), Ty::Composite { .. } | Ty::Tuple(_) | Ty::NotFound | Ty::Unhandled | Ty::Failing(_)) {
                    return one::<Self>(cx, id, c, b);
                }
                visit(cx, id, c, b, |h| Self::on(cx, h, b))
            }
            #[allow(unused)]
            fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
                match h {
                    Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) => {
                        if it.count != $n {
                            return Err(EView::new(K::WrongLen(it.count, $n)));
                        }
                        let mut off = 0;
                        Ok(($({
                            let (v, n) = $t::spec(cx, it.id($i), it.compact, &b[off..]).map_err(|e| e.at(Location::idx($i)))?;
                            off += n;
                            v
                        },)*))
                    }
                    // (only reached by a compact 1-tuple whose chain ends in something else)
                    _ => unexpected(h),
                }
            }
            #[allow(unused)]
            fn gen(g: &mut G, d: u32) -> Tid {
                let ts = vec![$(tgen::<$t>(g, d.saturating_sub(1)),)*];
                let t = ts.first().cloned();
                match t {
                    Some(t) if $n == 1 && g.r.chance(40) => t,
                    _ => tuple_ty(g, ts),
                }
            }
        }
        impl<$($t: Spec),*> One for ($($t,)*) {
            #[allow(unused)]
            fn one(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self> {
                let mut k = 0;
                let v = ($({
                    let (v, n) = $t::spec(cx, id, c, b)?;
                    k = n;
                    v
                },)*);
                Ok((v, k))
            }
        }
    };
}
trait One: Sized {
    fn one(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<Self>;
}
fn one<T: One>(cx: &Cx, id: &Tid, c: bool, b: &[u8]) -> SRes<T> {
    T::one(cx, id, c, b)
}
tuple!(0;);
tuple!(1; A 0);
tuple!(2; A 0 B 1);
tuple!(3; A 0 B 1 C 2);
tuple!(4; A 0 B 1 C 2 D 3);
tuple!(5; A 0 B 1 C 2 D 3 E 4);
tuple!(6; A 0 B 1 C 2 D 3 E 4 F 5);
tuple!(7; A 0 B 1 C 2 D 3 E 4 F 5 H 6);
tuple!(8; A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7);
tuple!(9; A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8);
tuple!(10; A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 L 9);
tuple!(11; A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 L 9 M 10);
tuple!(12; A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 L 9 M 10 N 11);
