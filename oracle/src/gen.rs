//! Random types and random encodings of them.
use crate::model::*;
use crate::reg::*;
use crate::rng::Rng;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};

pub const PRIMS: [Primitive; 15] = [
    Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128, Primitive::I8,
    Primitive::I16, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::Bool, Primitive::Char,
    Primitive::Str, Primitive::U256, Primitive::I256,
];
pub const UINTS: [Primitive; 5] = [Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128];
pub const NAMES: [&str; 12] = ["a", "b", "c", "d", "val", "type", "Some", "None", "Ok", "Err", "A", "B"];

pub struct G<'a> {
    pub reg: &'a mut Reg,
    pub r: &'a mut Rng,
    /// Percentage of types that cannot be resolved or decoded.
    pub bad: u32,
    /// Percentage of generated target types wrapped in single-field composites or tuples, or in a compact.
    pub wrap: u32,
    pub compact: u32,
    /// Percentage of generated target types that are just any type.
    pub noise: u32,
}

impl G<'_> {
    pub fn bits(&mut self) -> Tid {
        let s = *self.r.pick(&[BitsStoreFormat::U8, BitsStoreFormat::U16, BitsStoreFormat::U32, BitsStoreFormat::U64]);
        let o = *self.r.pick(&[BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0]);
        self.reg.add(Ty::Bits(s, o))
    }
    pub fn prim(&mut self) -> Tid {
        let p = *self.r.pick(&PRIMS);
        self.reg.prim(p)
    }
    pub fn fields(&mut self, n: usize, d: u32) -> Vec<FieldDesc> {
        let mode = self.r.below(4);
        (0..n)
            .map(|i| {
                let name = match mode {
                    0 => None,
                    1 => Some(NAMES[i]),
                    2 => Some(*self.r.pick(&NAMES)),
                    _ => if self.r.chance(50) { Some(*self.r.pick(&NAMES)) } else { None },
                };
                (name, self.ty(d))
            })
            .collect()
    }
    pub fn composite(&mut self, fields: Vec<FieldDesc>) -> Tid {
        let n = self.r.below(8);
        let path = (0..n).map(|_| *self.r.pick(&NAMES)).collect();
        self.reg.add(Ty::Composite { path, fields })
    }
    pub fn variant_ty(&mut self, d: u32) -> Tid {
        let n = self.r.below(4);
        let vs = (0..n)
            .map(|_| {
                let k = self.r.below(3);
                VariantDesc {
                    name: *self.r.pick(&NAMES),
                    index: if self.r.chance(80) { self.r.below(6) as u8 } else { self.r.next() as u8 },
                    fields: self.fields(k, d),
                }
            })
            .collect();
        self.reg.add(Ty::Variant(vs))
    }
    /// A type that may be compact encoded.
    pub fn compactable(&mut self, d: u32) -> Tid {
        let x = if d == 0 { 0 } else { self.r.below(5) };
        match x {
            0 | 1 => {
                let p = *self.r.pick(&UINTS);
                self.reg.prim(p)
            }
            2 => {
                let t = self.compactable(d - 1);
                let nm = if self.r.chance(50) { Some("val") } else { None };
                self.composite(vec![(nm, t)])
            }
            3 => {
                let t = self.compactable(d - 1);
                self.reg.add(Ty::Tuple(vec![t]))
            }
            _ => {
                let t = self.compactable(d - 1);
                self.reg.add(Ty::Compact(t))
            }
        }
    }
    /// Any type, nested at most `d` deep.
    pub fn ty(&mut self, d: u32) -> Tid {
        if self.r.chance(self.bad) {
            return match self.r.below(4) {
                0 => self.reg.add(Ty::NotFound),
                1 => self.reg.add(Ty::Unhandled),
                2 => self.reg.add(Ty::Failing("failing resolver")),
                _ => Tid(1_000_000 + self.r.below(100) as u32),
            };
        }
        // Sometimes refer to a type that exists already (sharing).
        if !self.reg.tys.is_empty() && self.r.chance(8) {
            return Tid(self.r.below(self.reg.tys.len()) as u32);
        }
        let k = if d == 0 { self.r.below(5) } else { self.r.below(16) };
        match k {
            0..=2 => self.prim(),
            3 => self.bits(),
            4 => {
                let t = self.compactable(2);
                self.reg.add(Ty::Compact(t))
            }
            5 => {
                let t = self.ty(d - 1);
                self.reg.add(Ty::Compact(t))
            }
            6 | 7 => {
                let n = self.r.below(5);
                let f = self.fields(n, d - 1);
                self.composite(f)
            }
            8 => {
                let t = self.ty(d - 1);
                let nm = if self.r.chance(50) { Some("val") } else { None };
                self.composite(vec![(nm, t)])
            }
            9 | 10 => {
                let n = self.r.below(5);
                let ts = (0..n).map(|_| self.ty(d - 1)).collect();
                self.reg.add(Ty::Tuple(ts))
            }
            11 => self.seq(d),
            12 => self.arr(d),
            13 | 14 => self.variant_ty(d - 1),
            _ => {
                // A recursive type, through a sequence or a variant.
                let slot = self.reg.add(Ty::NotFound);
                let inner = self.ty(d - 1);
                let t = if self.r.chance(50) {
                    let c = self.composite(vec![(Some("a"), inner), (None, slot.clone())]);
                    Ty::Sequence(c)
                } else {
                    Ty::Variant(vec![
                        VariantDesc { name: "None", index: 0, fields: vec![] },
                        VariantDesc { name: "Some", index: 1, fields: vec![(None, inner), (Some("b"), slot.clone())] },
                    ])
                };
                self.reg.tys[slot.0 as usize] = t;
                slot
            }
        }
    }
    pub fn seq(&mut self, d: u32) -> Tid {
        let t = self.ty(d.saturating_sub(1));
        self.reg.add(Ty::Sequence(t))
    }
    pub fn arr(&mut self, d: u32) -> Tid {
        let t = self.ty(d.saturating_sub(1));
        let n = if self.r.chance(90) { self.r.below(5) } else { self.r.below(40) };
        self.reg.add(Ty::Array(t, n))
    }
}

/// Append a random encoding of the type; stops early (leaving it incomplete) on what cannot be encoded.
pub fn encode(reg: &Reg, r: &mut Rng, id: &Tid, c: bool, out: &mut Vec<u8>, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    match reg.get(id).clone() {
        Ty::NotFound | Ty::Unhandled | Ty::Failing(_) => false,
        Ty::Compact(n) => encode(reg, r, &n, true, out, budget),
        Ty::Composite { fields, .. } => fields.iter().all(|f| encode(reg, r, &f.1, c, out, budget)),
        Ty::Tuple(ts) => ts.iter().all(|t| encode(reg, r, t, c, out, budget)),
        Ty::Variant(vs) => {
            if vs.is_empty() || r.chance(5) {
                out.push(r.next() as u8);
                return vs.is_empty();
            }
            // bias towards the first (a terminating one, in recursive types)
            let v = if r.chance(25) { &vs[0] } else { r.pick(&vs) };
            out.push(v.index);
            // an earlier variant may have the same index
            let v = vs.iter().find(|w| w.index == v.index).unwrap();
            v.fields.iter().all(|f| encode(reg, r, &f.1, false, out, budget))
        }
        Ty::Sequence(t) => {
            let n = match r.below(20) {
                0 => 60 + r.below(10),
                1..=6 => 0,
                _ => r.below(5),
            };
            out.extend(cenc(n as u128));
            (0..n).all(|_| encode(reg, r, &t, false, out, budget))
        }
        Ty::Array(t, n) => (0..n).all(|_| encode(reg, r, &t, false, out, budget)),
        Ty::Bits(s, _) => {
            let w = match s {
                BitsStoreFormat::U8 => 8,
                BitsStoreFormat::U16 => 16,
                BitsStoreFormat::U32 => 32,
                BitsStoreFormat::U64 => 64,
            };
            let n = match r.below(4) {
                0 => 0,
                1 => w * r.below(3),
                2 => r.below(20),
                _ => r.below(150),
            };
            out.extend(cenc(n as u128));
            for _ in 0..n.div_ceil(w) * (w / 8) {
                out.push(r.next() as u8);
            }
            true
        }
        Ty::Prim(p) => {
            let mut int = |bytes: usize| {
                let v = r.u128ish();
                if c {
                    let v = if bytes < 16 { v & ((1u128 << (8 * bytes)) - 1) } else { v };
                    match r.below(30) {
                        // one too large for the type, or not minimal
                        0 => out.extend(cenc(r.u128ish())),
                        1 => {
                            let k = r.below(14);
                            out.push((k as u8) << 2 | 3);
                            out.extend_from_slice(&v.to_le_bytes());
                        }
                        2 => out.extend_from_slice(&((v as u32) << 2 | 2).to_le_bytes()),
                        3 => out.extend_from_slice(&((v as u16) << 2 | 1).to_le_bytes()),
                        _ => out.extend(cenc(v)),
                    }
                } else {
                    out.extend_from_slice(&v.to_le_bytes()[..bytes]);
                }
            };
            match p {
                Primitive::U8 | Primitive::I8 => int(1),
                Primitive::U16 | Primitive::I16 => int(2),
                Primitive::U32 | Primitive::I32 => int(4),
                Primitive::U64 | Primitive::I64 => int(8),
                Primitive::U128 | Primitive::I128 => int(16),
                Primitive::U256 | Primitive::I256 => {
                    for _ in 0..32 {
                        out.push(r.next() as u8)
                    }
                }
                Primitive::Bool => out.push(if r.chance(95) { r.below(2) as u8 } else { r.next() as u8 }),
                Primitive::Char => {
                    let v = match r.below(10) {
                        0 => 0xd7ff + r.below(3) as u32,
                        1 => 0xdfff + r.below(3) as u32,
                        2 => 0x10ffff + r.below(2) as u32,
                        3 => r.next() as u32,
                        4 => (r.next() % 0x110000) as u32,
                        _ => r.below(128) as u32,
                    };
                    out.extend_from_slice(&v.to_le_bytes());
                }
                Primitive::Str => {
                    let n = match r.below(12) {
                        0 => 60 + r.below(10),
                        1 => 0,
                        2 => 16380 + r.below(8),
                        _ => r.below(10),
                    };
                    let mut s = Vec::new();
                    while s.len() < n {
                        let ch = match r.below(8) {
                            0 => 'é',
                            1 => '語',
                            2 => '🙂',
                            _ => (b'a' + r.below(26) as u8) as char,
                        };
                        let mut b = [0; 4];
                        s.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                    }
                    if r.chance(6) && !s.is_empty() {
                        let k = r.below(s.len());
                        s[k] = r.next() as u8;
                    }
                    out.extend(cenc(s.len() as u128));
                    out.extend(s);
                }
            }
            true
        }
    }
}

/// Random bytes for a type: an encoding, possibly followed by a tail, possibly damaged.
/// Returns the offset at which the buffer starts mattering (some bytes may precede it).
pub fn bytes_for(reg: &Reg, r: &mut Rng, id: &Tid, damage: u32) -> Vec<u8> {
    let mut out = vec![];
    let mut budget = 400;
    encode(reg, r, id, false, &mut out, &mut budget);
    if r.chance(damage) {
        match r.below(5) {
            0 | 1 => {
                let n = r.below(out.len() + 1);
                out.truncate(n)
            }
            2 => {
                if !out.is_empty() {
                    let k = r.below(out.len());
                    out[k] = r.next() as u8;
                }
            }
            3 => {
                if !out.is_empty() {
                    let k = r.below(out.len());
                    out[k] ^= 1 << r.below(8);
                }
            }
            _ => {
                let n = r.below(24);
                out = (0..n).map(|_| r.next() as u8).collect();
            }
        }
    } else if r.chance(60) {
        let n = r.below(40);
        for _ in 0..n {
            out.push(if r.chance(20) { 0 } else { r.next() as u8 });
        }
    }
    out
}
