//! A type registry that can describe anything, including types no Rust type has.
use scale_type_resolver::*;

/// A type ID; deliberately not `Copy`.
#[derive(Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Tid(pub u32);

pub const ENDLESS: &str = "endless sequence of empty items";
pub type FieldDesc = (Option<&'static str>, Tid);

#[derive(Clone, Debug, PartialEq)]
pub struct VariantDesc {
    pub name: &'static str,
    pub index: u8,
    pub fields: Vec<FieldDesc>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    NotFound,
    Unhandled,
    Failing(&'static str),
    Composite { path: Vec<&'static str>, fields: Vec<FieldDesc> },
    Variant(Vec<VariantDesc>),
    Sequence(Tid),
    Array(Tid, usize),
    Tuple(Vec<Tid>),
    Prim(Primitive),
    Compact(Tid),
    Bits(BitsStoreFormat, BitsOrderFormat),
}

#[derive(Clone, Debug, Default)]
pub struct Reg {
    pub tys: Vec<Ty>,
    /// How often a type was resolved.
    pub resolves: core::cell::Cell<u32>,
}

impl Reg {
    pub fn new() -> Self {
        Reg::default()
    }
    pub fn add(&mut self, t: Ty) -> Tid {
        self.tys.push(t);
        Tid(self.tys.len() as u32 - 1)
    }
    pub fn get(&self, id: &Tid) -> &Ty {
        self.tys.get(id.0 as usize).unwrap_or(&Ty::NotFound)
    }
    /// Can a value of this type take no bytes at all?
    fn empty(&self, id: &Tid, d: u32) -> bool {
        d < 50
            && match self.get(id) {
                Ty::Composite { fields, .. } => fields.iter().all(|f| self.empty(&f.1, d + 1)),
                Ty::Tuple(ts) => ts.iter().all(|t| self.empty(t, d + 1)),
                Ty::Array(t, n) => *n == 0 || self.empty(t, d + 1),
                _ => false,
            }
    }
    pub fn prim(&mut self, p: Primitive) -> Tid {
        self.add(Ty::Prim(p))
    }
}

#[derive(Debug)]
pub struct RegErr(pub &'static str);
impl core::fmt::Display for RegErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "reg: {}", self.0)
    }
}
impl core::error::Error for RegErr {}

impl TypeResolver for Reg {
    type TypeId = Tid;
    type Error = RegErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Tid>>(
        &'this self,
        type_id: Tid,
        visitor: V,
    ) -> Result<V::Value, RegErr> {
        self.resolves.set(self.resolves.get() + 1);
        if self.resolves.get() > 3_000_000 {
            // A few bytes can stand for any number of items that take no bytes.
            let sized = !self.tys.iter().any(|t| matches!(t, Ty::Sequence(t) | Ty::Array(t, _) if self.empty(t, 0)));
            panic!("{}", if sized { "decoding does not terminate" } else { ENDLESS });
        }
        fn fs<'a>(f: &'a [FieldDesc]) -> impl ExactSizeIterator<Item = Field<'a, Tid>> + 'a {
            f.iter().map(|(n, id)| Field { name: *n, id: id.clone() })
        }
        Ok(match self.get(&type_id) {
            Ty::NotFound => visitor.visit_not_found(),
            Ty::Unhandled => visitor.visit_unhandled(UnhandledKind::Composite),
            Ty::Failing(m) => return Err(RegErr(m)),
            Ty::Composite { path, fields } => {
                visitor.visit_composite(path.iter().copied(), fs(fields))
            }
            Ty::Variant(vs) => visitor.visit_variant(
                core::iter::empty(),
                vs.iter().map(|v| Variant { index: v.index, name: v.name, fields: fs(&v.fields) }),
            ),
            Ty::Sequence(t) => visitor.visit_sequence(core::iter::empty(), t.clone()),
            Ty::Array(t, n) => visitor.visit_array(t.clone(), *n),
            Ty::Tuple(ts) => visitor.visit_tuple(ts.iter().cloned()),
            Ty::Prim(p) => visitor.visit_primitive(*p),
            Ty::Compact(t) => visitor.visit_compact(t.clone()),
            Ty::Bits(s, o) => visitor.visit_bit_sequence(*s, *o),
        })
    }
}
