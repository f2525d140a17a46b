//! Executable reference semantics: what a described type's SCALE encoding is. Written from the SCALE
//! specification and the property statements, and independent of scale-decode's code.
use crate::reg::*;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    NotFound(Tid),
    Unhandled(Tid),
    Resolving(&'static str),
    Compact,
    Char(u32),
    /// Too few bytes.
    NoInput,
    NoVariant(u8),
    /// A compact integer that is not canonical or out of range.
    Codec,
    /// The case is too large to follow; it is skipped.
    Fuel,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Composite,
    Tuple,
    Sequence,
    Array,
    Variant,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LeafVal {
    Bool(bool),
    Char(char),
    U(u128),
    I(i128),
    B32([u8; 32]),
}

#[derive(Clone, Debug)]
pub struct Items {
    pub kind: Kind,
    pub fields: Vec<FieldDesc>, // composite, tuple, variant
    pub item: Tid,              // sequence, array
    pub count: usize,
    pub compact: bool,
    pub off: usize,
    pub path: Vec<&'static str>,
    pub vname: &'static str,
    pub vindex: u8,
}
impl Items {
    pub fn id(&self, i: usize) -> &Tid {
        match self.kind {
            Kind::Sequence | Kind::Array => &self.item,
            _ => &self.fields[i].1,
        }
    }
    pub fn name(&self, i: usize) -> Option<&'static str> {
        match self.kind {
            Kind::Sequence | Kind::Array => None,
            _ => self.fields[i].0,
        }
    }
    pub fn has_unnamed(&self) -> bool {
        self.fields.iter().any(|f| f.0.is_none())
    }
}

#[derive(Clone, Debug)]
pub enum Head {
    Leaf(Primitive, LeafVal, usize),
    /// string: length in bytes, size of the length prefix (the bytes are present)
    Str { len: usize, pre: usize },
    /// bits: number of bits, size of the prefix, store width in bits, msb first; `None` if the prefix is bad
    Bits { n: Option<(usize, usize)>, width: usize, msb: bool, store: BitsStoreFormat, order: BitsOrderFormat },
    Items(Items),
}

/// Which visitor callback a head goes to.
pub fn head_kind(h: &Head) -> scale_decode::visitor::Unexpected {
    use scale_decode::visitor::Unexpected as U;
    match h {
        Head::Leaf(p, ..) => match p {
            Primitive::Bool => U::Bool,
            Primitive::Char => U::Char,
            Primitive::Str => U::Str,
            Primitive::U8 => U::U8,
            Primitive::U16 => U::U16,
            Primitive::U32 => U::U32,
            Primitive::U64 => U::U64,
            Primitive::U128 => U::U128,
            Primitive::U256 => U::U256,
            Primitive::I8 => U::I8,
            Primitive::I16 => U::I16,
            Primitive::I32 => U::I32,
            Primitive::I64 => U::I64,
            Primitive::I128 => U::I128,
            Primitive::I256 => U::I256,
        },
        Head::Str { .. } => U::Str,
        Head::Bits { .. } => U::Bitsequence,
        Head::Items(i) => match i.kind {
            Kind::Composite => U::Composite,
            Kind::Tuple => U::Tuple,
            Kind::Sequence => U::Sequence,
            Kind::Array => U::Array,
            Kind::Variant => U::Variant,
        },
    }
}

/// Canonical compact decoding into an unsigned integer of `bits` bits.
pub fn cdec(b: &[u8], bits: u32) -> Result<(u128, usize), PErr> {
    let first = *b.first().ok_or(PErr::NoInput)?;
    let rd = |n: usize| -> Result<u128, PErr> {
        let s = b.get(..n).ok_or(PErr::NoInput)?;
        Ok(s.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128))
    };
    let fits = |v: u128| bits == 128 || v >> bits == 0;
    match first & 3 {
        0 => Ok(((first >> 2) as u128, 1)),
        1 => {
            let v = rd(2)? >> 2;
            if v >= 1 << 6 && fits(v) { Ok((v, 2)) } else { Err(PErr::Codec) }
        }
        2 => {
            if bits == 8 {
                return Err(PErr::Codec);
            }
            let v = rd(4)? >> 2;
            if v >= 1 << 14 && fits(v) { Ok((v, 4)) } else { Err(PErr::Codec) }
        }
        _ => {
            let n = (first >> 2) as usize + 4;
            if n * 8 > bits as usize {
                return Err(PErr::Codec);
            }
            let s = b.get(1..1 + n).ok_or(PErr::NoInput)?;
            let v = s.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128);
            let min: u128 = if n == 4 { 1 << 30 } else { 1u128 << (8 * (n - 1)) };
            if v >= min { Ok((v, 1 + n)) } else { Err(PErr::Codec) }
        }
    }
}

/// Compact encoding (minimal).
pub fn cenc(v: u128) -> Vec<u8> {
    if v < 1 << 6 {
        vec![(v as u8) << 2]
    } else if v < 1 << 14 {
        (((v as u16) << 2) | 1).to_le_bytes().to_vec()
    } else if v < 1 << 30 {
        (((v as u32) << 2) | 2).to_le_bytes().to_vec()
    } else {
        let le = v.to_le_bytes();
        let n = (16 - le.iter().rev().take_while(|x| **x == 0).count()).max(4);
        let mut o = vec![(((n - 4) as u8) << 2) | 3];
        o.extend_from_slice(&le[..n]);
        o
    }
}

pub struct Cx<'r> {
    pub reg: &'r Reg,
    pub fuel: Cell<u32>,
}
impl<'r> Cx<'r> {
    pub fn new(reg: &'r Reg, fuel: u32) -> Self {
        Cx { reg, fuel: Cell::new(fuel) }
    }
    fn burn(&self) -> Result<(), PErr> {
        let f = self.fuel.get();
        if f == 0 {
            return Err(PErr::Fuel);
        }
        self.fuel.set(f - 1);
        Ok(())
    }
    /// The chain of type IDs from `id` through nested compacts, and whether the last is compact encoded.
    pub fn chain(&self, id: &Tid, c: bool) -> Option<(Vec<Tid>, bool)> {
        let mut v = vec![id.clone()];
        let mut c = c;
        while let Ty::Compact(n) = self.reg.get(v.last().unwrap()) {
            v.push(n.clone());
            c = true;
            if v.len() > 50 {
                return None;
            }
        }
        Some((v, c))
    }
    /// What is at the front of `b` when it is read as type `id` (compact encoded if `c`).
    pub fn head(&self, id: &Tid, c: bool, b: &[u8]) -> Result<Head, PErr> {
        self.burn()?;
        let items = |kind, fields: Vec<FieldDesc>, count, off| Items {
            kind, fields, item: Tid(u32::MAX), count, compact: c, off, path: vec![], vname: "", vindex: 0,
        };
        match self.reg.get(id) {
            Ty::NotFound => Err(PErr::NotFound(id.clone())),
            Ty::Unhandled => Err(PErr::Unhandled(id.clone())),
            Ty::Failing(m) => Err(PErr::Resolving(m)),
            Ty::Compact(n) => self.head(&n.clone(), true, b),
            Ty::Composite { path, fields } => {
                if c && fields.len() != 1 {
                    return Err(PErr::Compact);
                }
                let mut it = items(Kind::Composite, fields.clone(), fields.len(), 0);
                it.path = path.clone();
                Ok(Head::Items(it))
            }
            Ty::Tuple(ts) => {
                if c && ts.len() != 1 {
                    return Err(PErr::Compact);
                }
                Ok(Head::Items(items(Kind::Tuple, ts.iter().map(|t| (None, t.clone())).collect(), ts.len(), 0)))
            }
            Ty::Variant(vs) => {
                if c {
                    return Err(PErr::Compact);
                }
                let i = *b.first().ok_or(PErr::NoInput)?;
                let v = vs.iter().find(|v| v.index == i).ok_or(PErr::NoVariant(i))?;
                let mut it = items(Kind::Variant, v.fields.clone(), v.fields.len(), 1);
                it.vname = v.name;
                it.vindex = i;
                it.path = vec![v.name];
                Ok(Head::Items(it))
            }
            Ty::Sequence(t) => {
                if c {
                    return Err(PErr::Compact);
                }
                let (n, off) = cdec(b, 64)?;
                let mut it = items(Kind::Sequence, vec![], n as usize, off);
                it.item = t.clone();
                Ok(Head::Items(it))
            }
            Ty::Array(t, n) => {
                if c {
                    return Err(PErr::Compact);
                }
                let mut it = items(Kind::Array, vec![], *n, 0);
                it.item = t.clone();
                Ok(Head::Items(it))
            }
            Ty::Bits(s, o) => {
                if c {
                    return Err(PErr::Compact);
                }
                let width = match s {
                    BitsStoreFormat::U8 => 8,
                    BitsStoreFormat::U16 => 16,
                    BitsStoreFormat::U32 => 32,
                    BitsStoreFormat::U64 => 64,
                };
                let n = cdec(b, 32).ok().map(|(n, p)| (n as usize, p));
                Ok(Head::Bits { n, width, msb: matches!(o, BitsOrderFormat::Msb0), store: *s, order: *o })
            }
            Ty::Prim(p) => {
                let u = |bits: u32| -> Result<Head, PErr> {
                    let (v, n) = if c { cdec(b, bits)? } else { (le(b, bits as usize / 8)?, bits as usize / 8) };
                    Ok(Head::Leaf(*p, LeafVal::U(v), n))
                };
                let i = |bits: u32| -> Result<Head, PErr> {
                    if c {
                        return Err(PErr::Compact);
                    }
                    let v = le(b, bits as usize / 8)?;
                    let sh = 128 - bits;
                    Ok(Head::Leaf(*p, LeafVal::I(((v << sh) as i128) >> sh), bits as usize / 8))
                };
                let nc = || if c { Err(PErr::Compact) } else { Ok(()) };
                match p {
                    Primitive::Bool => {
                        nc()?;
                        let v = match b.first().ok_or(PErr::NoInput)? {
                            0 => false,
                            1 => true,
                            _ => return Err(PErr::Codec),
                        };
                        Ok(Head::Leaf(*p, LeafVal::Bool(v), 1))
                    }
                    Primitive::Char => {
                        nc()?;
                        let v = le(b, 4)? as u32;
                        if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                            return Err(PErr::Char(v));
                        }
                        Ok(Head::Leaf(*p, LeafVal::Char(char::from_u32(v).unwrap()), 4))
                    }
                    Primitive::Str => {
                        nc()?;
                        let (len, pre) = cdec(b, 32)?;
                        if b.len() - pre < len as usize {
                            return Err(PErr::NoInput);
                        }
                        Ok(Head::Str { len: len as usize, pre })
                    }
                    Primitive::U8 => u(8),
                    Primitive::U16 => u(16),
                    Primitive::U32 => u(32),
                    Primitive::U64 => u(64),
                    Primitive::U128 => u(128),
                    Primitive::I8 => i(8),
                    Primitive::I16 => i(16),
                    Primitive::I32 => i(32),
                    Primitive::I64 => i(64),
                    Primitive::I128 => i(128),
                    Primitive::U256 | Primitive::I256 => {
                        nc()?;
                        let s = b.get(..32).ok_or(PErr::NoInput)?;
                        let mut a = [0u8; 32];
                        a.copy_from_slice(s);
                        Ok(Head::Leaf(*p, LeafVal::B32(a), 32))
                    }
                }
            }
        }
    }
    /// Length of the encoding of a value whose head was found.
    pub fn rest(&self, h: &Head, b: &[u8]) -> Result<usize, PErr> {
        match h {
            Head::Leaf(_, _, n) => Ok(*n),
            Head::Str { len, pre } => Ok(len + pre),
            Head::Bits { n, width, .. } => {
                let (n, pre) = match n {
                    Some(x) => *x,
                    None => return Err(cdec(b, 32).unwrap_err()),
                };
                let size = pre + n.div_ceil(*width) * (width / 8);
                if size <= b.len() { Ok(size) } else { Err(PErr::NoInput) }
            }
            Head::Items(it) => {
                let mut off = it.off;
                for i in 0..it.count {
                    off += self.len(it.id(i), it.compact, &b[off..])?;
                }
                Ok(off)
            }
        }
    }
    /// Length of the encoding at the front of `b`, or why there is none.
    pub fn len(&self, id: &Tid, c: bool, b: &[u8]) -> Result<usize, PErr> {
        let h = self.head(id, c, b)?;
        self.rest(&h, b)
    }
    /// The bits of a bit sequence, if complete.
    pub fn bits(&self, h: &Head, b: &[u8]) -> Option<Vec<bool>> {
        let Head::Bits { n: Some((n, pre)), width, msb, .. } = h else { return None };
        self.rest(h, b).ok()?;
        let w = width / 8;
        Some(
            (0..*n)
                .map(|i| {
                    let e = le(&b[pre + (i / width) * w..], w).unwrap();
                    let k = i % width;
                    let k = if *msb { width - 1 - k } else { k };
                    e >> k & 1 == 1
                })
                .collect(),
        )
    }
}

fn le(b: &[u8], n: usize) -> Result<u128, PErr> {
    let s = b.get(..n).ok_or(PErr::NoInput)?;
    Ok(s.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128))
}

/// Does the error the crate reported say what went wrong?
pub fn perr_matches(p: &PErr, d: &scale_decode::visitor::DecodeError) -> bool {
    use scale_decode::visitor::DecodeError as D;
    match (p, d) {
        (PErr::NotFound(id) | PErr::Unhandled(id), D::TypeIdNotFound(s)) => s.contains(&format!("{id:?}")),
        (PErr::Resolving(m), D::TypeResolvingError(s)) => s.contains(m),
        (PErr::Compact, D::CannotDecodeCompactIntoType) => true,
        (PErr::Char(c), D::InvalidChar(d)) => c == d,
        (PErr::NoInput, D::NotEnoughInput | D::CodecError(_)) => true,
        (PErr::NoVariant(i), D::VariantNotFound(j)) => i == j,
        (PErr::Codec, D::CodecError(_)) => true,
        _ => false,
    }
}
