//! Derived targets and their reference semantics.
use crate::gen::*;
use crate::model::*;
use crate::reg::*;
use crate::spec::*;
use scale_decode::error::Location;
use scale_decode::DecodeAsType;

/// Walks the fields of an encoded composite the way a derived type does: each is first delimited, then decoded.
pub struct Fs<'x, 'r> {
    pub cx: &'x Cx<'r>,
    pub it: &'x Items,
    pub b: &'x [u8],
    pub off: usize,
    pub i: usize,
    /// by name: the offset and length of each field
    pub map: Option<Vec<(usize, usize)>>,
}
impl<'x, 'r> Fs<'x, 'r> {
    fn positional(cx: &'x Cx<'r>, it: &'x Items, b: &'x [u8], want: usize) -> Val<Self> {
        if it.count != want {
            return Err(EView::new(K::WrongLen(it.count, want)));
        }
        Ok(Fs { cx, it, b, off: it.off, i: 0, map: None })
    }
    /// The rule for named fields.
    pub fn named(cx: &'x Cx<'r>, it: &'x Items, b: &'x [u8], want: usize) -> Val<Self> {
        if it.kind == Kind::Tuple || it.has_unnamed() {
            return Self::positional(cx, it, b, want);
        }
        let mut off = it.off;
        let mut m = vec![];
        for i in 0..it.count {
            let n = cx.len(it.id(i), it.compact, &b[off..]).map_err(|e| EView::new(K::P(e)).at(Location::field(it.name(i).unwrap())))?;
            m.push((off, n));
            off += n;
        }
        // The statement does not say which of several equally named fields counts.
        for i in 0..it.count {
            if (0..i).any(|j| it.name(i) == it.name(j)) {
                return Err(EView::new(K::Open));
            }
        }
        Ok(Fs { cx, it, b, off: it.off, i: 0, map: Some(m) })
    }
    pub fn unnamed(cx: &'x Cx<'r>, it: &'x Items, b: &'x [u8], want: usize) -> Val<Self> {
        Self::positional(cx, it, b, want)
    }
    fn next<T: Spec>(&mut self, loc: Location) -> Val<T> {
        let (i, off) = (self.i, self.off);
        let n = self.cx.len(self.it.id(i), self.it.compact, &self.b[off..]).map_err(|e| EView::new(K::P(e)).at(loc.clone()))?;
        self.i += 1;
        self.off += n;
        Ok(T::spec(self.cx, self.it.id(i), self.it.compact, &self.b[off..off + n]).map_err(|e| e.at(loc))?.0)
    }
    pub fn by_name<T: Spec>(&mut self, name: &'static str) -> Val<T> {
        let Some(m) = &self.map else { return self.next(Location::field(name)) };
        let i = (0..self.it.count).find(|i| self.it.name(*i) == Some(name)).ok_or_else(|| EView::new(K::NoField(name.to_string())))?;
        let (off, n) = m[i];
        Ok(T::spec(self.cx, self.it.id(i), self.it.compact, &self.b[off..off + n]).map_err(|e| e.at(Location::field(name)))?.0)
    }
    pub fn by_pos<T: Spec>(&mut self, idx: usize) -> Val<T> {
        self.next(Location::idx(idx))
    }
}

/// Fields for a struct-like target: shuffled, with extra or missing ones, or unnamed.
pub fn struct_fields(g: &mut G, fs: Vec<(&'static str, Tid)>, named: bool) -> Vec<FieldDesc> {
    let mut fs: Vec<FieldDesc> = fs.into_iter().map(|(n, t)| (Some(n), t)).collect();
    if g.r.chance(8) && !fs.is_empty() {
        let k = g.r.below(fs.len());
        fs.remove(k);
    }
    let extra = g.r.below(if named { 3 } else { 12 });
    if extra == 1 {
        let t = g.ty(1);
        let n = *g.r.pick(&["x", "y", "B", "len"]);
        fs.push((Some(n), t));
    }
    match g.r.below(5) {
        0 => fs.iter_mut().for_each(|f| f.0 = None),
        1 if !fs.is_empty() => {
            let k = g.r.below(fs.len());
            fs[k].0 = None;
        }
        2 if !named => {}
        _ => {
            if named || g.r.chance(20) {
                for i in (1..fs.len()).rev() {
                    let j = g.r.below(i + 1);
                    fs.swap(i, j);
                }
            }
        }
    }
    fs
}
fn struct_ty(g: &mut G, fs: Vec<(&'static str, Tid)>, named: bool) -> Tid {
    let fs = struct_fields(g, fs, named);
    if g.r.chance(25) {
        g.reg.add(Ty::Tuple(fs.into_iter().map(|f| f.1).collect()))
    } else {
        g.composite(fs)
    }
}
fn sub(d: u32) -> u32 {
    d.saturating_sub(1)
}

macro_rules! struct_spec {
    ([$($gen:tt)*] $t:ty, $n:literal, $how:ident, |$fs:ident| $e:expr, |$g:ident, $d:ident| $tys:expr) => {
        impl<$($gen)*> Spec for $t {
            #[allow(unused_mut)]
            fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
                match h {
                    Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) => {
                        let mut $fs = Fs::$how(cx, it, b, $n)?;
                        let _ = &$fs;
                        Ok($e)
                    }
                    _ => Err(EView::new(K::Unexpected(head_kind(h)))),
                }
            }
            fn gen($g: &mut G, $d: u32) -> Tid {
                let tys = $tys;
                let _ = $d;
                struct_ty($g, tys, stringify!($how) == "named")
            }
        }
    };
}

#[derive(DecodeAsType, Debug)]
pub struct D0 {
    pub a: u8,
    pub b: String,
    pub c: Vec<u16>,
}
struct_spec!([] D0, 3, named, |f| D0 { a: f.by_name("a")?, b: f.by_name("b")?, c: f.by_name("c")? },
    |g, d| vec![("a", tgen::<u8>(g, sub(d))), ("b", tgen::<String>(g, sub(d))), ("c", tgen::<Vec<u16>>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct D1 {
    pub r#type: u8,
    #[decode_as_type(skip)]
    pub z: u32,
    pub val: Option<u8>,
    #[codec(skip)]
    pub a: String,
}
struct_spec!([] D1, 2, named, |f| D1 { r#type: f.by_name("type")?, z: 0, val: f.by_name("val")?, a: String::new() },
    |g, d| vec![("type", tgen::<u8>(g, sub(d))), ("val", tgen::<Option<u8>>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct D2(pub u8, pub String);
struct_spec!([] D2, 2, unnamed, |f| D2(f.by_pos(0)?, f.by_pos(1)?),
    |g, d| vec![("a", tgen::<u8>(g, sub(d))), ("b", tgen::<String>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct D3(pub u16, #[codec(skip)] pub u8, pub bool);
struct_spec!([] D3, 2, unnamed, |f| D3(f.by_pos(0)?, 0, f.by_pos(2)?),
    |g, d| vec![("a", tgen::<u16>(g, sub(d))), ("b", tgen::<bool>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct D4;
struct_spec!([] D4, 0, unnamed, |f| D4, |g, d| vec![]);

#[derive(DecodeAsType, Debug)]
pub struct D5 {}
struct_spec!([] D5, 0, named, |f| D5 {}, |g, d| vec![]);

#[derive(DecodeAsType, Debug)]
pub struct D6();
struct_spec!([] D6, 0, unnamed, |f| D6(), |g, d| vec![]);

#[derive(DecodeAsType, Debug)]
pub struct DG<T> {
    pub val: T,
    pub a: Box<T>,
}
struct_spec!([T: Spec] DG<T>, 2, named, |f| DG { val: f.by_name("val")?, a: f.by_name("a")? },
    |g, d| vec![("val", tgen::<T>(g, sub(d))), ("a", tgen::<T>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct DW<T> {
    pub val: T,
}
struct_spec!([T: Spec] DW<T>, 1, named, |f| DW { val: f.by_name("val")? }, |g, d| vec![("val", tgen::<T>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct DT<T>(pub T);
struct_spec!([T: Spec] DT<T>, 1, unnamed, |f| DT(f.by_pos(0)?), |g, d| vec![("val", tgen::<T>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct DN {
    pub a: D0,
    #[codec(compact)]
    pub b: E0,
    pub d: DT<(u8, bool)>,
}
struct_spec!([] DN, 3, named, |f| DN { a: f.by_name("a")?, b: f.by_name("b")?, d: f.by_name("d")? },
    |g, d| vec![("a", tgen::<D0>(g, sub(d))), ("b", tgen::<E0>(g, sub(d))), ("d", tgen::<DT<(u8, bool)>>(g, sub(d)))]);

// --- enums ---
fn enum_ty(g: &mut G, vs: Vec<(&'static str, Vec<FieldDesc>)>) -> Tid {
    let mut vs: Vec<VariantDesc> = vs.into_iter().enumerate().map(|(i, (name, fields))| VariantDesc { name, index: i as u8, fields }).collect();
    for i in (1..vs.len()).rev() {
        let j = g.r.below(i + 1);
        vs.swap(i, j);
    }
    if g.r.chance(30) {
        vs.iter_mut().for_each(|v| v.index = g.r.next() as u8);
    }
    if g.r.chance(30) {
        let n = g.r.below(3);
        let fields = g.fields(n, 1);
        let v = VariantDesc { name: *g.r.pick(&["X", "a", "A2", "Some", "None"]), index: 200 + g.r.below(50) as u8, fields };
        let k = g.r.below(vs.len() + 1);
        vs.insert(k, v);
    }
    g.reg.add(Ty::Variant(vs))
}
macro_rules! enum_spec {
    ($t:ty, [$($name:literal),*], |$cx:ident, $it:ident, $b:ident| { $($vn:pat => $e:expr),* $(,)? }, |$g:ident, $d:ident| $vs:expr) => {
        impl Spec for $t {
            fn on($cx: &Cx, h: &Head, $b: &[u8]) -> Val<Self> {
                match h {
                    Head::Items($it) if $it.kind == Kind::Variant => match $it.vname {
                        $($vn => Ok($e),)*
                        n => Err(EView::new(K::NoVariant(n.to_string(), vec![$($name),*]))),
                    },
                    Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) && it.count == 1 => {
                        Ok(Self::spec($cx, it.id(0), it.compact, $b)?.0)
                    }
                    _ => Err(EView::new(K::Unexpected(head_kind(h)))),
                }
            }
            fn gen($g: &mut G, $d: u32) -> Tid {
                let vs = $vs;
                enum_ty($g, vs)
            }
        }
    };
}

#[derive(DecodeAsType, Debug)]
#[allow(non_camel_case_types)]
pub enum E0 {
    A,
    B(u8, String),
    C { a: u16, b: bool },
    r#type(Box<u32>),
    None,
}
enum_spec!(E0, ["A", "B", "C", "type", "None"], |cx, it, b| {
    "A" => E0::A,
    "B" => { let mut f = Fs::unnamed(cx, it, b, 2)?; E0::B(f.by_pos(0)?, f.by_pos(1)?) },
    "C" => { let mut f = Fs::named(cx, it, b, 2)?; E0::C { a: f.by_name("a")?, b: f.by_name("b")? } },
    "type" => { let mut f = Fs::unnamed(cx, it, b, 1)?; E0::r#type(f.by_pos(0)?) },
    "None" => E0::None,
}, |g, d| {
    let (a, b2, c, e, h) = (tgen::<u8>(g, sub(d)), tgen::<String>(g, sub(d)), tgen::<u16>(g, sub(d)), tgen::<bool>(g, sub(d)), tgen::<u32>(g, sub(d)));
    let fb = struct_fields(g, vec![("a", a), ("b", b2)], false);
    let fc = struct_fields(g, vec![("a", c), ("b", e)], true);
    let ft = struct_fields(g, vec![("a", h)], false);
    let n = if g.r.chance(80) { 0 } else { 1 };
    let fa = g.fields(n, 1);
    vec![("A", fa), ("B", fb), ("C", fc), ("type", ft), ("None", vec![])]
});

#[derive(DecodeAsType, Debug)]
pub enum E1 {
    A {
        a: u8,
        #[codec(skip)]
        b: u32,
        c: bool,
    },
    B(#[decode_as_type(skip)] u8, u16),
    Ok { r#val: Vec<u8> },
    Err {},
}
enum_spec!(E1, ["A", "B", "Ok", "Err"], |cx, it, b| {
    "A" => { let mut f = Fs::named(cx, it, b, 2)?; E1::A { a: f.by_name("a")?, b: 0, c: f.by_name("c")? } },
    "B" => { let mut f = Fs::unnamed(cx, it, b, 1)?; E1::B(0, f.by_pos(1)?) },
    "Ok" => { let mut f = Fs::named(cx, it, b, 1)?; E1::Ok { val: f.by_name("val")? } },
    "Err" => { let _f = Fs::named(cx, it, b, 0)?; E1::Err {} },
}, |g, d| {
    let (a, c, x, v) = (tgen::<u8>(g, sub(d)), tgen::<bool>(g, sub(d)), tgen::<u16>(g, sub(d)), tgen::<Vec<u8>>(g, sub(d)));
    let fa = struct_fields(g, vec![("a", a), ("c", c)], true);
    let fb = struct_fields(g, vec![("a", x)], false);
    let fo = struct_fields(g, vec![("val", v)], true);
    let fe = struct_fields(g, vec![], true);
    vec![("A", fa), ("B", fb), ("Ok", fo), ("Err", fe)]
});

// --- attributes, generics and larger shapes ---
/// Can be defaulted but not decoded.
#[derive(Debug, Default)]
pub struct Opaque(Option<fn()>);

/// Several attributes on a field, in any order.
#[derive(DecodeAsType, Debug)]
#[allow(clippy::duplicated_attributes)]
#[decode_as_type(crate_path = "::scale_decode")]
pub struct D7 {
    /// documented
    #[codec(skip)]
    pub first: Opaque,
    #[codec(compact)]
    #[allow(dead_code)]
    pub a: u8,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub mid: Opaque,
    pub b: bool,
    #[allow(dead_code)]
    #[codec(encoded_as = "u8", skip)]
    pub y: Opaque,
    pub c: String,
    pub d: Option<u8>,
    /// documented
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub last: Opaque,
}
struct_spec!([] D7, 4, named, |f| D7 { first: Opaque::default(), a: f.by_name("a")?, mid: Opaque::default(), b: f.by_name("b")?, y: Opaque::default(),
    c: f.by_name("c")?, d: f.by_name("d")?, last: Opaque::default() },
    |g, d| vec![("a", tgen::<u8>(g, sub(d))), ("b", tgen::<bool>(g, sub(d))), ("c", tgen::<String>(g, sub(d))), ("d", tgen::<Option<u8>>(g, sub(d)))]);

#[derive(DecodeAsType, Debug)]
pub struct D8(
    #[codec(skip)] pub Opaque,
    pub u8,
    #[codec(compact)]
    #[codec(skip)]
    pub Opaque,
    #[codec(skip)] pub Opaque,
    pub u8,
    pub Box<D8b>,
    pub u16,
    #[decode_as_type(skip)] pub Opaque,
);
struct_spec!([] D8, 4, unnamed, |f| D8(Opaque::default(), f.by_pos(1)?, Opaque::default(), Opaque::default(), f.by_pos(4)?, f.by_pos(5)?, f.by_pos(6)?, Opaque::default()),
    |g, d| vec![("a", tgen::<u8>(g, sub(d))), ("b", tgen::<u8>(g, sub(d))), ("c", tgen::<D8b>(g, sub(d))), ("d", tgen::<u16>(g, sub(d)))]);
#[derive(DecodeAsType, Debug)]
pub struct D8b(#[codec(skip)] pub Opaque, #[codec(skip)] pub Opaque);
struct_spec!([] D8b, 0, unnamed, |f| D8b(Opaque::default(), Opaque::default()), |g, d| vec![]);

/// A lifetime, a defaulted parameter, a where clause and a parameter which only a skipped field uses.
#[derive(DecodeAsType, Debug)]
#[decode_as_type(trait_bounds = "")]
pub struct DL<'a, T, P = Opaque>
where
    T: Default + core::fmt::Debug + scale_decode::IntoVisitor,
{
    pub s: std::borrow::Cow<'a, str>,
    pub val: T,
    #[codec(skip)]
    pub p: core::marker::PhantomData<P>,
}
struct_spec!([T: Spec + Default + core::fmt::Debug + scale_decode::IntoVisitor] DL<'static, T>, 2, named,
    |f| DL { s: f.by_name("s")?, val: f.by_name("val")?, p: core::marker::PhantomData },
    |g, d| vec![("s", tgen::<String>(g, sub(d))), ("val", tgen::<T>(g, sub(d)))]);

/// Names that are parts of each other, payloads of all kinds, a parameter and a discriminant.
#[derive(DecodeAsType, Debug)]
#[allow(non_camel_case_types)]
pub enum E2<T> {
    #[codec(index = 3)]
    A2,
    A {
        #[codec(skip)]
        o: Opaque,
        val: T,
        #[allow(dead_code)]
        #[codec(skip)]
        p: Opaque,
    },
    a(#[codec(compact)] T, #[codec(skip)] Opaque),
    X(#[codec(skip)] Opaque),
    Some(T, Box<T>, u8),
    None {},
    Empty(),
}
impl<T: Spec> Spec for E2<T> {
    fn on(cx: &Cx, h: &Head, b: &[u8]) -> Val<Self> {
        match h {
            Head::Items(it) if it.kind == Kind::Variant => Ok(match it.vname {
                "A2" => E2::A2,
                "A" => {
                    let mut f = Fs::named(cx, it, b, 1)?;
                    E2::A { o: Opaque::default(), val: f.by_name("val")?, p: Opaque::default() }
                }
                "a" => {
                    let mut f = Fs::unnamed(cx, it, b, 1)?;
                    E2::a(f.by_pos(0)?, Opaque::default())
                }
                "X" => {
                    let _f = Fs::unnamed(cx, it, b, 0)?;
                    E2::X(Opaque::default())
                }
                "Some" => {
                    let mut f = Fs::unnamed(cx, it, b, 3)?;
                    E2::Some(f.by_pos(0)?, f.by_pos(1)?, f.by_pos(2)?)
                }
                "None" => {
                    let _f = Fs::named(cx, it, b, 0)?;
                    E2::None {}
                }
                "Empty" => {
                    let _f = Fs::unnamed(cx, it, b, 0)?;
                    E2::Empty()
                }
                n => return Err(EView::new(K::NoVariant(n.to_string(), vec!["A2", "A", "a", "X", "Some", "None", "Empty"]))),
            }),
            Head::Items(it) if matches!(it.kind, Kind::Composite | Kind::Tuple) && it.count == 1 => Ok(Self::spec(cx, it.id(0), it.compact, b)?.0),
            _ => Err(EView::new(K::Unexpected(head_kind(h)))),
        }
    }
    fn gen(g: &mut G, d: u32) -> Tid {
        let (a, c, x, y, z) = (tgen::<T>(g, sub(d)), tgen::<T>(g, sub(d)), tgen::<T>(g, sub(d)), tgen::<T>(g, sub(d)), tgen::<u8>(g, sub(d)));
        let fa = struct_fields(g, vec![("val", a)], true);
        let fb = struct_fields(g, vec![("x", c)], false);
        let fs = struct_fields(g, vec![("x", x), ("y", y), ("z", z)], false);
        let (n, m) = (g.r.below(3), g.r.below(2));
        let (fe, fx) = (g.fields(n, 1), g.fields(m, 1));
        enum_ty(g, vec![("A2", fe), ("A", fa), ("a", fb), ("X", fx), ("Some", fs), ("None", vec![]), ("Empty", vec![])])
    }
}
