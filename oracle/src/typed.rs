//! Decoding into concrete targets, compared with the reference semantics.
use crate::derived::*;
use crate::gen::*;
use crate::model::*;
use crate::reg::*;
use crate::rng::Rng;
use crate::spec::*;
use scale_decode::{DecodeAsFields, DecodeAsType, Error};
use scale_type_resolver::Field;
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::num::*;
use std::rc::Rc;
use std::sync::Arc;

pub struct Out {
    /// Why the case was not judged.
    pub skipped: bool,
    /// Value decoded (reference)?
    pub ok: bool,
    pub steps: u64,
    pub desc: String,
    /// (the kind of mismatch, text)
    pub viol: Vec<(M, String)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum M {
    /// outcome or value differs
    Value,
    /// bytes consumed differ
    Consumed,
    /// the kind of error differs
    Kind,
    /// the locations differ
    Locs,
    /// the location is not displayed
    Display,
    /// succeeded on bytes that are no encoding of the type
    Malformed,
    /// the target's error was not given priority over the skipping error
    Priority,
}
pub type Run = fn(&Knobs, u64) -> Out;
#[derive(Clone, Debug)]
pub struct Knobs {
    pub wrap: u32,
    pub compact: u32,
    pub noise: u32,
    pub bad: u32,
    pub damage: u32,
    pub depth: u32,
}

fn judge<T: Spec>(want: SRes<T>, got: Result<T, Error>, used: isize, o: &mut Out, rest_bad: bool) {
    o.steps += 1;
    match (want, got) {
        (Ok((v, n)), Ok(w)) => {
            o.ok = true;
            if v.canon() != w.canon() {
                o.viol.push((M::Value, format!("decoded to {} instead of {}", w.canon(), v.canon())));
            }
            if used != n as isize {
                o.viol.push((M::Consumed, format!("consumed {used} bytes instead of {n}")));
            }
        }
        (Ok((v, _)), Err(e)) => {
            o.ok = true;
            o.viol.push((M::Value, format!("failed with '{e}', expected {}", v.canon())))
        }
        (Err(e), Ok(w)) => {
            o.viol.push((M::Value, format!("decoded to {}, expected failure {e:?}", w.canon())));
            if rest_bad {
                o.viol.push((M::Malformed, format!("decoded malformed bytes to {}", w.canon())));
            }
        }
        (Err(e), Err(f)) => {
            if !e.kind_matches(&f) {
                o.viol.push((M::Kind, format!("failed with '{f}', expected {e:?}")));
                if rest_bad {
                    o.viol.push((M::Priority, format!("failed with '{f}', expected {e:?}")));
                }
            }
            if !e.locs_match(&f) {
                o.viol.push((M::Locs, format!("failed with '{f}', expected locations {:?} ({:?})", e.locs, e.kind)));
            }
            let (text, mut from) = (f.to_string(), 0);
            for l in &e.locs {
                let t = format!("{l:?}");
                // the name or index, out of the Debug output of the location
                let t: String = t.rsplit('(').next().unwrap().chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
                match text[from..].find(&t) {
                    Some(k) => from += k + t.len(),
                    None => {
                        o.viol.push((M::Display, format!("'{text}' does not show {:?} in order", e.locs)));
                        break;
                    }
                }
            }
        }
    }
}

fn setup<T: Spec>(k: &Knobs, seed: u64) -> (Reg, Tid, Vec<u8>, Rng) {
    let mut r = Rng::new(seed);
    let mut reg = Reg::new();
    let mut g = G { reg: &mut reg, r: &mut r, bad: k.bad, wrap: k.wrap, compact: k.compact, noise: k.noise };
    let id = tgen::<T>(&mut g, k.depth);
    let bytes = bytes_for(&reg, &mut r, &id, k.damage);
    (reg, id, bytes, r)
}
fn out() -> Out {
    Out { skipped: false, ok: false, steps: 0, desc: String::new(), viol: vec![] }
}
fn too_big(cx: &Cx, id: &Tid, b: &[u8]) -> (bool, bool) {
    let l = cx.len(id, false, b);
    (l == Err(PErr::Fuel), l.is_err())
}
pub const FUEL: u32 = 20_000;

pub fn by_type<T: Spec + DecodeAsType>(k: &Knobs, seed: u64) -> Out {
    let (reg, id, bytes, _) = setup::<T>(k, seed);
    let mut o = out();
    let cx = Cx::new(&reg, FUEL);
    let (big, bad) = too_big(&cx, &id, &bytes);
    cx.fuel.set(u32::MAX);
    if big {
        o.skipped = true;
        return o;
    }
    let want = T::spec(&cx, &id, false, &bytes);
    o.desc = format!("{} as type {:?} from {:02x?}", std::any::type_name::<T>(), id, &bytes[..bytes.len().min(96)]);
    if matches!(&want, Err(e) if e.skip()) {
        o.skipped = true;
        return o;
    }
    let mut s = &bytes[..];
    let got = T::decode_as_type(&mut s, id.clone(), &reg);
    if got.is_ok() && s.as_ptr_range().end != bytes.as_ptr_range().end {
        o.viol.push((M::Consumed, "what is left is not the tail of the input".into()));
    }
    judge(want, got, bytes.len() as isize - s.len() as isize, &mut o, bad);
    if !o.viol.is_empty() {
        o.desc += &format!(" in {:?}", reg.tys);
    }
    o
}

/// A list of fields against the composite with those fields.
pub fn by_fields<T: Spec + DecodeAsFields + DecodeAsType>(k: &Knobs, seed: u64) -> Out {
    let (mut reg, id, mut bytes, mut r) = setup::<T>(k, seed);
    let mut o = out();
    let fields: Vec<FieldDesc> = match reg.get(&id).clone() {
        Ty::Composite { fields, .. } => fields,
        Ty::Tuple(ts) => ts.into_iter().map(|t| (None, t)).collect(),
        _ => {
            // a single field (or none) of whatever this is
            if r.chance(80) { vec![(if r.chance(50) { Some("val") } else { None }, id.clone())] } else { vec![] }
        }
    };
    let comp = reg.add(Ty::Composite { path: vec![], fields: fields.clone() });
    if r.chance(10) {
        let n = r.below(bytes.len() + 1);
        bytes.truncate(n);
    }
    let cx = Cx::new(&reg, FUEL);
    let (big, bad) = too_big(&cx, &comp, &bytes);
    cx.fuel.set(u32::MAX);
    if big {
        o.skipped = true;
        return o;
    }
    let h = cx.head(&comp, false, &bytes).unwrap();
    let want = finish(&cx, &h, &bytes, T::on(&cx, &h, &bytes));
    o.desc = format!("{} from fields {:?} of {:02x?}", std::any::type_name::<T>(), fields, &bytes[..bytes.len().min(96)]);
    if matches!(&want, Err(e) if e.skip()) {
        o.skipped = true;
        return o;
    }
    let mut s = &bytes[..];
    let mut it = fields.iter().map(|(name, id)| Field { name: *name, id: id.clone() });
    let got = T::decode_as_fields(&mut s, &mut it, &reg);
    if got.is_ok() && s.as_ptr_range().end != bytes.as_ptr_range().end {
        o.viol.push((M::Consumed, "what is left is not the tail of the input".into()));
    }
    // The same value or error as the composite gives.
    let mut s2 = &bytes[..];
    let viatype = T::decode_as_type(&mut s2, comp, &reg);
    let (a, b) = match (&got, &viatype) {
        (Ok(a), Ok(b)) => (format!("Ok({})", a.canon()), format!("Ok({})", b.canon())),
        (Err(a), Err(b)) => (format!("Err({a})"), format!("Err({b})")),
        (a, b) => (format!("{:?}", a.as_ref().map(|x| x.canon()).map_err(|e| e.to_string())), format!("{:?}", b.as_ref().map(|x| x.canon()).map_err(|e| e.to_string()))),
    };
    // A one-element tuple takes a composite as a tuple, so this holds for it too.
    if a != b {
        o.viol.push((M::Value, format!("the field list gives {a}, the composite {b}")));
    }
    if got.is_ok() && viatype.is_ok() && s.len() != s2.len() {
        o.viol.push((M::Consumed, format!("the field list leaves {} bytes, the composite {}", s.len(), s2.len())));
    }
    judge(want, got, bytes.len() as isize - s.len() as isize, &mut o, bad);
    if !o.viol.is_empty() {
        o.desc += &format!(" in {:?}", reg.tys);
    }
    o
}

macro_rules! list {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), by_type::<$t> as Run)),*] };
}
macro_rules! flist {
    ($($t:ty),* $(,)?) => { vec![$((concat!("fields:", stringify!($t)), by_fields::<$t> as Run)),*] };
}
pub type List = Vec<(&'static str, Run)>;
pub fn ints() -> List {
    list![u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
        NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128]
}
pub fn leaves() -> List {
    list![bool, char, String, scale_bits::Bits, PhantomData<u8>, PhantomData<String>, u64, i16]
}
pub fn options() -> List {
    list![Option<u8>, Option<String>, Option<Option<bool>>, Option<Box<u16>>, Option<Vec<u8>>, Option<()>,
        Result<u8, String>, Result<u8, u64>, Result<bool, bool>, Result<Option<u8>, Result<u16, ()>>, Option<Result<u8, char>>,
        Vec<Option<u8>>, Option<char>, Option<scale_bits::Bits>, Option<(u8, u8)>, Option<(u16,)>, Option<[u8; 2]>, Option<D0>, Option<BTreeMap<String, u8>>,
        Result<scale_bits::Bits, [bool; 2]>, Result<(), D2>, Option<NonZeroU8>, Result<i64, E0>, Option<u128>, Result<Vec<u8>, ()>]
}
pub fn collections() -> List {
    list![Vec<u8>, Vec<u16>, Vec<String>, Vec<Vec<u8>>, Vec<()>, VecDeque<u16>, LinkedList<u8>, BinaryHeap<u8>, BTreeSet<u8>, BTreeSet<String>,
        [u8; 0], [u8; 1], [u8; 3], [u16; 2], [String; 2], [u8; 32], [Vec<u8>; 2], Vec<[u8; 2]>, VecDeque<bool>, LinkedList<String>,
        Vec<(u8, u16)>, Vec<Box<u32>>, BTreeSet<u16>, BinaryHeap<u16>, Vec<Option<u8>>,
        Vec<scale_bits::Bits>, Vec<char>, [Option<u8>; 2], Vec<D0>, [D2; 1], LinkedList<(u8,)>, VecDeque<E0>, BTreeSet<(u8, bool)>, [(); 3], Vec<u64>, Vec<bool>,
        Vec<i8>, [i16; 4], BinaryHeap<String>, Vec<BTreeSet<u8>>, [u8; 20]]
}
pub fn tuples() -> List {
    list![(), (u8,), (u8, bool), (u8, u16, String), (u64,), (String,), (Vec<u8>,), (Option<u8>,), ((u8,),), ((u8, u8),), (D0,),
        (Vec<u8>, u8, (bool, bool), char), ((), u8), (u8, (u8,)),
        (u8, u16, u8, u16, u8), (u8, u16, u8, u16, u8, bool), (u8, u16, u8, u16, u8, bool, u8), (u8, u16, u8, u16, u8, bool, u8, u16),
        (u8, u16, u8, u16, u8, bool, u8, u16, bool), (u8, u16, u8, u16, u8, bool, u8, u16, bool, u8),
        (u8, u16, u8, u16, u8, bool, u8, u16, bool, u8, u16), (u8, u16, u8, u16, u8, bool, u8, u16, bool, u8, u16, u32),
        (E0, u8), (Box<u8>, Compactu8),
        (bool,), (char,), (scale_bits::Bits,), (i8,), (u128,), (i128,), ([u8; 2],), (Result<u8, bool>,), (E0,), (BTreeSet<u8>,), (BTreeMap<String, u8>,),
        (Compactu8,), (Option<(u8,)>,), (((bool,),),), ([(u8,); 2],), (PhantomData<u8>,), (Vec<(u8,)>,), ((), ()), (D0, D2)]
}
type Compactu8 = codec::Compact<u8>;
pub fn adapters() -> List {
    use primitive_types::*;
    use std::ops::*;
    list![Box<u64>, Rc<u16>, Arc<String>, Arc<u8>, Cow<'static, str>, Cow<'static, u64>, Cow<'static, [u16]>, codec::Compact<u64>, codec::Compact<u32>,
        Box<Option<u8>>, Box<Vec<Rc<u8>>>, Rc<Box<Arc<u32>>>, Box<D0>, Arc<E0>, Range<u32>, RangeInclusive<u8>, Range<u64>,
        std::time::Duration, H128, H160, H256, H384, H512, H768, DW<Box<u64>>, DW<codec::Compact<u32>>, DW<Arc<u16>>, DW<Cow<'static, u64>>,
        DT<Rc<u32>>, DG<Box<u8>>, Box<(u8,)>, (Box<u8>,), DW<(u64,)>, DW<Range<u8>>, DW<H128>, DT<(Box<u32>,)>, Box<DW<u64>>, DW<std::time::Duration>,
        RangeInclusive<Box<u16>>, Box<()>, Rc<(u8, u8)>]
}
pub fn structs() -> List {
    list![D0, D1, D2, D3, D4, D5, D6, DG<u8>, DG<String>, DW<u64>, DW<u8>, DT<u32>, DN, DT<D0>, DW<DW<u16>>, Vec<D1>, DG<D2>, DT<()>, D7, D8, D8b, DL<'static, u8>, DL<'static, Vec<u8>>, Vec<D7>, Option<D8>, DW<D7>]
}
pub fn enums() -> List {
    list![E0, E1, Vec<E0>, Box<E1>, Option<E0>, DW<E1>, DT<E0>, E2<u8>, E2<String>, Vec<E2<u8>>, E2<Option<u16>>, (E2<bool>,)]
}
pub fn maps() -> List {
    list![BTreeMap<String, u8>, BTreeMap<String, u64>, BTreeMap<String, String>, BTreeMap<String, Option<u8>>, BTreeMap<String, Vec<u8>>,
        BTreeMap<String, BTreeMap<String, u8>>, DW<BTreeMap<String, u16>>, Vec<BTreeMap<String, u8>>, BTreeMap<String, ()>]
}
pub fn fields() -> List {
    flist![(), (u8,), (u8, bool), (u8, u16, String), (Vec<u8>,), (Option<u8>,), ((u8, u8),), (String, String), (D0,),
        (u8, u16, u8, u16, u8), (u8, u16, u8, u16, u8, bool, u8, u16, bool, u8, u16, u32),
        D0, D1, D2, D3, D4, D5, D6, DG<u8>, DW<u64>, DT<String>, DN, DW<Box<u8>>, DT<(u8,)>, D7, D8, D8b, DL<'static, u16>, (scale_bits::Bits,), (bool, char), (Option<u8>, u8, ()), (E0, u8)]
}
pub fn everything() -> List {
    let mut v = ints();
    for l in [leaves(), options(), collections(), tuples(), adapters(), structs(), enums(), maps(), fields()] {
        v.extend(l)
    }
    v
}
pub fn transparent() -> List {
    let mut v = leaves();
    v.extend(list![u8, u128, i8, NonZeroU16, usize, Vec<u8>, VecDeque<u8>, LinkedList<u8>, BinaryHeap<u8>, BTreeSet<u16>, [u8; 2], [bool; 1], Option<u8>,
        Option<Vec<u8>>, Result<u8, bool>, E0, E1, Vec<String>, Vec<Vec<u8>>, Box<u8>, H256_, i128, Option<Option<u8>>, E2<u8>, E2<String>, Result<u8, String>, BinaryHeap<u16>, [String; 2], NonZeroI64, isize]);
    v
}
type H256_ = primitive_types::H256;
