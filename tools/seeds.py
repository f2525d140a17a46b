SEEDS={}
def seed(id,prop,needs,breaks,edits,demo,count=1):
    SEEDS[id]=dict(property=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,count=count)
D="scale-decode/src/"
FAILV='''
struct Pick(bool);
impl Visitor for Pick {
    type Value<'s, 'r> = u8;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_u8<'s, 'r>(self, v: u8, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if self.0 { Ok(v) } else { Err(DecodeError::VariantNotFound(v)) }
    }
}
'''
seed("c06-failed-item","C06","an item whose visitor fails, and a visitor that goes on after it",
 "an item whose visitor failed is not used up: remaining() stays and one item too many is handed out",
 [(D+"visitor/types/array.rs","        self.remaining -= 1;\n        Some(res)","        if res.is_ok() {\n            self.remaining -= 1;\n        }\n        Some(res)")],
 FAILV+'''
struct Seq;
impl Visitor for Seq {
    type Value<'s, 'r> = (usize, usize);
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Reg>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let _ = v.decode_item(Pick(true));
        let _ = v.decode_item(Pick(false));
        let left = v.remaining();
        let mut n = 0;
        while n < 10 && v.decode_item(Pick(true)).is_some() { n += 1 }
        Ok((left, n))
    }
}
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let s = r.add(Ty::Sequence(u));
    let got = decode_with_visitor(&mut &[12u8, 1, 2, 3, 4, 5, 6][..], s, &r, Seq).unwrap();
    assert_eq!(got, (1, 1));
}
''')
seed("c05-compact-unit","C05","a compact type around an empty tuple",
 "a compact type around a tuple without fields decodes instead of being refused",
 [(D+"visitor/decode.rs","if self.is_compact && type_ids.len() != 1 {","if self.is_compact && type_ids.len() > 1 {")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Tuple(vec![]));
    let c = r.add(Ty::Compact(t));
    let got = decode_with_visitor(&mut &[4u8, 1][..], c, &r, IgnoreVisitor::<Reg>::new());
    assert_eq!(got, Err(DecodeError::CannotDecodeCompactIntoType));
}
''')
seed("c02-char","C02","a char whose code point is a surrogate or above 0x10FFFF",
 "an invalid char is accepted as U+FFFD",
 [(D+"visitor/decode.rs","let c = char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?;","let c = char::from_u32(val).unwrap_or(char::REPLACEMENT_CHARACTER);")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::Char);
    let got = decode_with_visitor(&mut &[0u8, 0xd8, 0, 0][..], t, &r, IgnoreVisitor::<Reg>::new());
    assert_eq!(got, Err(DecodeError::InvalidChar(0xd800)));
}
''')
seed("c13-i128","C13","an u128 above i128::MAX decoded into i128",
 "wraps instead of being refused as out of range",
 [(D+"impls/mod.rs","visit_number_impl!(i128 where |res| res.try_into().ok());","visit_number_impl!(i128 where |res| Some(res as i128));")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::U128);
    let b = u128::MAX.to_le_bytes();
    let got = i128::decode_as_type(&mut &b[..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c15-some-arity","C15","a variant named Some with two fields",
 "Some with more than one field is accepted and all but the first are ignored",
 [(D+"impls/mod.rs",'value.name() == "Some" && value.fields().remaining() == 1','value.name() == "Some" && value.fields().remaining() >= 1')],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Variant(vec![VariantDesc { name: "Some", index: 1, fields: vec![(None, u.clone()), (None, u.clone())] }]));
    let got = <Option<u8>>::decode_as_type(&mut &[1u8, 2, 3][..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c23-first-wins","C23","a composite with two fields of the same name",
 "the first value is kept where the last one should be",
 [(D+"impls/mod.rs","map.insert(key.to_owned(), val);","map.entry(key.to_owned()).or_insert(val);")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Composite { path: vec![], fields: vec![(Some("a"), u.clone()), (Some("a"), u.clone())] });
    let got = <std::collections::BTreeMap<String, u8>>::decode_as_type(&mut &[1u8, 2][..], t, &r).unwrap();
    assert_eq!(got["a"], 2);
}
''')
seed("c07-unnamed","C07","a composite whose first field is named and a later one is not",
 "has_unnamed_fields() looks at the first field only",
 [(D+"visitor/types/composite.rs","self.fields.iter().any(|f| f.name.is_none())","self.fields.first().is_some_and(|f| f.name.is_none())")],
 '''
struct C;
impl Visitor for C {
    type Value<'s, 'r> = bool;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Reg>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(v.has_unnamed_fields())
    }
}
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Composite { path: vec![], fields: vec![(Some("a"), u.clone()), (None, u.clone())] });
    assert!(decode_with_visitor(&mut &[1u8, 2][..], t, &r, C).unwrap());
}
''')
seed("c09-compact-view","C09","a field of a compact encoded composite, decoded later into a type",
 "the deferred view forgets that it is compact encoded",
 [(D+"visitor/types/composite.rs","""        T::decode_as_type_maybe_compact(
            &mut &*self.bytes,
            self.field.id.clone(),
            self.types,
            self.is_compact,
        )""","""        T::decode_as_type(&mut &*self.bytes, self.field.id.clone(), self.types)""")],
 '''
struct C;
impl Visitor for C {
    type Value<'s, 'r> = Result<u32, String>;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Reg>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(v.next().unwrap()?.decode_as_type::<u32>().map_err(|e| e.to_string()))
    }
}
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U32);
    let t = r.add(Ty::Composite { path: vec![], fields: vec![(Some("a"), u.clone())] });
    let c = r.add(Ty::Compact(t));
    let got = decode_with_visitor(&mut &[4u8, 2, 3, 4, 5][..], c, &r, C).unwrap();
    assert_eq!(got, Ok(1));
}
''')
seed("c11-bits-truncated","C11","a bit sequence whose length prefix promises more store elements than there are, and a visitor that asks for the decoder",
 "decode() succeeds on a truncated bit sequence and the whole decode then does too",
 [(D+"visitor/types/bit_sequence.rs","""            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);""","""            Some(self.bytes.get(decoder.encoded_size()..).unwrap_or_default());""")],
 '''
struct C;
impl Visitor for C {
    type Value<'s, 'r> = bool;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(v.decode().is_ok())
    }
}
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Bits(BitsStoreFormat::U8, BitsOrderFormat::Lsb0));
    let got = decode_with_visitor(&mut &[80u8, 0xff][..], t, &r, C);
    assert_eq!(got, Err(DecodeError::NotEnoughInput));
}
''')
seed("c21-index","C21","an item of a collection that fails to decode",
 "the index in the error is one too high",
 [(D+"impls/mod.rs","""        let item = decoder.decode_item(T::into_visitor()).map(|res| res.map_err(|e| e.at_idx(idx)));
        idx += 1;
        item""","""        idx += 1;
        decoder.decode_item(T::into_visitor()).map(|res| res.map_err(|e| e.at_idx(idx)))""")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U16);
    let t = r.add(Ty::Array(u, 2));
    let e = <Vec<u8>>::decode_as_type(&mut &[1u8, 0, 0, 1][..], t, &r).unwrap_err();
    assert!(e.to_string().contains("[1]"), "{e}");
}
''')
seed("c20-arity","C20","an encoded variant with more unnamed fields than the variant of the enum",
 "extra positional fields are ignored instead of being refused",
 [("scale-decode-derive/src/lib.rs","""                    let fields = value.fields();
                    if fields.remaining() != #field_count {""","""                    let fields = value.fields();
                    if fields.remaining() < #field_count {""")],
 '''
#[derive(DecodeAsType, Debug)]
enum E { A(u8), B }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Variant(vec![VariantDesc { name: "A", index: 3, fields: vec![(None, u.clone()), (None, u.clone())] }]));
    let got = E::decode_as_type(&mut &[3u8, 1, 2][..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c08-sorted","C08","a variant type whose variants are not listed in the order of their indices",
 "a variant that comes after one with a higher index is not found",
 [(D+"visitor/types/variant.rs","""        mut variants: Variants,""","""        variants: Variants,"""),
  (D+"visitor/types/variant.rs","""            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;""","""            variants
                .take_while(|v| v.index <= index)
                .find(|v| v.index == index)
                .ok_or(DecodeError::VariantNotFound(index))?;""")],
 '''
fn main() {
    let mut r = Reg::new();
    let v = |name, index| VariantDesc { name, index, fields: vec![] };
    let t = r.add(Ty::Variant(vec![v("B", 7), v("A", 2)]));
    let got = decode_with_visitor(&mut &[2u8][..], t, &r, IgnoreVisitor::<Reg>::new());
    assert!(got.is_ok(), "{got:?}");
}
''')
seed("c16-array-take","C16","a sequence with more items than the fixed array has",
 "the items beyond the array's length are ignored instead of being refused",
 [(D+"impls/mod.rs","decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;","decode_items_using::<_, _, $t>($value).take($n).collect::<Result<Vec<$t>, _>>()?;")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Sequence(u));
    let got = <[u8; 2]>::decode_as_type(&mut &[12u8, 1, 2, 3][..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c01-long-str","C01","a string of at least 16384 bytes",
 "the length prefix is taken to be at most two bytes long, so bytes of the prefix count as text and the rest of the input starts too early",
 [(D+"visitor/types/str.rs","let compact_len = Compact::<u32>::compact_len(&compact_len.0);","let compact_len = if len < 1 << 6 { 1 } else { 2 };"),
  (D+"visitor/types/str.rs","use codec::{Compact, CompactLen, Decode};","use codec::{Compact, Decode};")],
 '''
fn main() {
    use codec::Encode;
    let mut r = Reg::new();
    let t = r.prim(Primitive::Str);
    let mut b = "x".repeat(20000).encode();
    b.extend([7, 8]);
    let mut d = &b[..];
    decode_with_visitor(&mut d, t, &r, IgnoreVisitor::<Reg>::new()).unwrap();
    assert_eq!(d, [7, 8]);
}
''')
seed("c03-no-index","C03","a variant type whose index byte is missing",
 "indexes an empty slice",
 [(D+"visitor/types/variant.rs","let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;","let index = bytes[0];")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Variant(vec![]));
    let got = decode_with_visitor(&mut &[][..], t, &r, IgnoreVisitor::<Reg>::new());
    assert_eq!(got, Err(DecodeError::NotEnoughInput));
}
''')
seed("c02-bool","C02","a bool whose byte is neither 0 nor 1",
 "any non-zero byte is taken for true",
 [(D+"visitor/decode.rs","let b = bool::decode(data).map_err(|e| e.into())?;","let b = u8::decode(data).map_err(|e| e.into())? != 0;")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::Bool);
    let got = decode_with_visitor(&mut &[2u8][..], t, &r, IgnoreVisitor::<Reg>::new());
    assert!(got.is_err());
}
''')
seed("c10-skip-error","C10","a visitor that succeeds without looking at a value whose items are malformed",
 "the error from skipping is dropped when the visitor succeeded",
 [(D+"visitor/decode.rs","            (_, Err(e)) => Err(e.into()),\n            (Ok(v), _) => Ok(v),\n        }\n    }};","            (Ok(v), _) => Ok(v),\n        }\n    }};")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U32);
    let t = r.add(Ty::Array(u, 2));
    let got = decode_with_visitor(&mut &[1u8, 2, 3, 4, 5][..], t, &r, IgnoreVisitor::<Reg>::new());
    assert!(got.is_err());
}
''')
seed("c12-rewind","C12","a visitor that reads something from the input and then declines",
 "what a declining visitor has read is put back",
 [(D+"visitor/decode.rs","        DecodeAsTypeResult::Skipped(v) => v,\n","        DecodeAsTypeResult::Skipped(v) => {\n            *data = start;\n            v\n        }\n"),
  (D+"visitor/decode.rs","    // Provide option to \"bail out\" and do something custom first.\n","    let start = *data;\n    // Provide option to \"bail out\" and do something custom first.\n")],
 '''
struct V;
impl Visitor for V {
    type Value<'s, 'r> = u8;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], _: TypeIdFor<Self>, _: &'r Reg) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        *input = &input[1..];
        DecodeAsTypeResult::Skipped(self)
    }
    fn visit_u8<'s, 'r>(self, v: u8, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(v)
    }
}
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::U8);
    let mut d = &[1u8, 2, 3][..];
    assert_eq!(decode_with_visitor(&mut d, t, &r, V), Ok(2));
    assert_eq!(d, [3]);
}
''')
seed("c14-first-of-two","C14","a composite with two or more fields decoded into a leaf target",
 "the first field is taken where the composite should be refused",
 [(D+"impls/mod.rs","            if value.remaining() != 1 {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);","            if value.remaining() == 0 {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Composite { path: vec![], fields: vec![(Some("a"), u.clone()), (Some("b"), u.clone())] });
    let got = u8::decode_as_type(&mut &[1u8, 2][..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c17-more","C17","a tuple or composite with more fields than the tuple target has",
 "the fields beyond the target's are ignored instead of being refused",
 [(D+"impls/mod.rs","if $value.remaining() != EXPECTED_LEN {","if $value.remaining() < EXPECTED_LEN {")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Tuple(vec![u.clone(), u.clone(), u.clone()]));
    let got = <(u8, u8)>::decode_as_type(&mut &[1u8, 2, 3][..], t, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c18-hash-length","C18","a sequence of bytes that is not as long as the hash",
 "a hash is padded or cut instead of being refused",
 [(D+"impls/primitive_types.rs","                    BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },","                    BasicVisitor::<alloc::vec::Vec<u8>, R> { _marker: core::marker::PhantomData },"),
  (D+"impls/primitive_types.rs","                .map(|res| <$ty>::from(res));","""                .map(|res| {
                    let mut bytes = [0u8; $len / 8];
                    let n = res.len().min(bytes.len());
                    bytes[..n].copy_from_slice(&res[..n]);
                    <$ty>::from(bytes)
                });""")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Array(u.clone(), 20));
    let w = r.add(Ty::Array(u, 21));
    let b = [9u8; 21];
    assert!(primitive_types::H160::decode_as_type(&mut &b[..], t, &r).is_ok());
    let got = primitive_types::H160::decode_as_type(&mut &b[..], w, &r);
    assert!(got.is_err(), "{got:?}");
}
''')
seed("c19-skip-count","C19","a struct with a skipped field decoded from a tuple",
 "skipped fields count when a struct with named fields is decoded by position",
 [("scale-decode-derive/src/lib.rs","    let field_count = field_keyval_impls.clone().filter(|f| f.0).count();","    let field_count = field_keyval_impls.clone().count();")],
 '''
#[derive(DecodeAsType, Debug, PartialEq)]
struct S { a: u8, #[decode_as_type(skip)] b: u16, c: u8 }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Tuple(vec![u.clone(), u.clone()]));
    let got = S::decode_as_type(&mut &[1u8, 2][..], t, &r).unwrap();
    assert_eq!(got, S { a: 1, b: 0, c: 2 });
}
''')
seed("c21-positional","C21","a struct with named fields decoded from a tuple, one of whose fields does not decode",
 "the error does not say which field failed",
 [("scale-decode-derive/src/lib.rs","""#path_to_scale_decode::Error::from(e).at_field(#field_name))?;
                val.decode_as_type().map_err(|e| e.at_field(#field_name))?""","""#path_to_scale_decode::Error::from(e).at_field(#field_name))?;
                val.decode_as_type()?""")],
 '''
#[derive(DecodeAsType, Debug)]
struct S { a: u8, b: u8 }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U16);
    let t = r.add(Ty::Tuple(vec![u.clone(), u.clone()]));
    let e = S::decode_as_type(&mut &[1u8, 0, 2, 1][..], t, &r).unwrap_err();
    assert!(e.to_string().contains("[b]") || e.to_string().contains("b"), "{e}");
    assert!(e.to_string().starts_with("Error at b") , "{e}");
}
''')
seed("c22-by-position","C22","a field list whose fields are in another order than the struct's",
 "a struct with named fields takes a field list by position",
 [("scale-decode-derive/src/lib.rs","<#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());","<#path_to_type #ty_generics>::into_visitor().visit_tuple(&mut composite.as_tuple(), Default::default());")],
 '''
#[derive(DecodeAsType, Debug, PartialEq)]
struct S { a: u8, b: u8 }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let mut fs = [Field::new(u.clone(), Some("b")), Field::new(u, Some("a"))].into_iter();
    let got = S::decode_as_fields(&mut &[1u8, 2][..], &mut fs, &r).unwrap();
    assert_eq!(got, S { a: 2, b: 1 });
}
''')
seed("c24-compact-unknown","C24","a compact type around a type ID that is not known",
 "the type ID is not reported; the type is said to be no compact type",
 [(D+"visitor/decode.rs","""    fn visit_not_found(self) -> Self::Value {
        let type_id = self.type_id;""","""    fn visit_not_found(self) -> Self::Value {
        if self.is_compact {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }
        let type_id = self.type_id;""")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::NotFound);
    let c = r.add(Ty::Compact(t));
    let got = decode_with_visitor(&mut &[4u8][..], c, &r, IgnoreVisitor::<Reg>::new());
    assert!(matches!(got, Err(DecodeError::TypeIdNotFound(_))), "{got:?}");
}
''')
seed("c04-i256","C04","a 256-bit signed integer that is not negative",
 "it is given to the callback for unsigned ones",
 [(D+"visitor/decode.rs","visitor.visit_i256(arr, type_id)","if arr[31] < 0x80 { visitor.visit_u256(arr, type_id) } else { visitor.visit_i256(arr, type_id) }")],
 '''
struct W;
impl Visitor for W {
    type Value<'s, 'r> = (bool, u8);
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> { Ok((false, v[0])) }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> { Ok((true, v[0])) }
}
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::I256);
    let mut b = [0u8; 32];
    b[0] = 9;
    assert_eq!(decode_with_visitor(&mut &b[..], t.clone(), &r, W).unwrap(), (true, 9));
    b[31] = 255;
    assert_eq!(decode_with_visitor(&mut &b[..], t, &r, W).unwrap(), (true, 9));
}
''')
seed("c05-wide","C05","a compact u16 whose number is above 65535",
 "a number too large for the type is cut down instead of being refused",
 [(D+"visitor/decode.rs","codec::Compact::<u16>::decode(data).map(|c| c.0)","codec::Compact::<u32>::decode(data).map(|c| c.0 as u16)")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::U16);
    let c = r.add(Ty::Compact(t));
    use codec::Encode;
    let b = codec::Compact(70_000u32).encode();
    assert!(u16::decode_as_type(&mut &b[..], c.clone(), &r).is_err());
    let b = codec::Compact(60_000u32).encode();
    assert_eq!(u16::decode_as_type(&mut &b[..], c, &r).unwrap(), 60_000);
}
''')
seed("c13-nonzero","C13","a non-zero target and a number beyond it",
 "the number wraps instead of being refused",
 [(D+"impls/mod.rs","visit_number_impl!(NonZeroI64 where |res| res.try_into().ok().and_then(NonZeroI64::new));","visit_number_impl!(NonZeroI64 where |res| NonZeroI64::new(res as i64));")],
 '''
use core::num::NonZeroI64;
fn main() {
    let mut r = Reg::new();
    let t = r.prim(Primitive::U64);
    let b = u64::MAX.to_le_bytes();
    let got = NonZeroI64::decode_as_type(&mut &b[..], t, &r);
    assert!(got.unwrap_err().to_string().contains("18446744073709551615"));
}
''')
seed("c14-enum-kind","C14","a derived enum decoded from a tuple that does not have one element",
 "the error says that a composite was unexpected",
 [("scale-decode-derive/src/lib.rs","return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);","return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);")],
 '''
#[derive(DecodeAsType, Debug)]
enum E { A }
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Tuple(vec![]));
    let e = E::decode_as_type(&mut &[][..], t, &r).unwrap_err();
    assert!(e.to_string().contains("tuple"), "{e}");
}
''')
seed("c20-unit","C20","a unit variant whose encoded counterpart has fields",
 "it is refused",
 [("scale-decode-derive/src/lib.rs","""                quote!{
                    return Ok(#path_to_type::#variant_ident)
                }""","""                quote!{
                    if value.fields().remaining() == 0 {
                        return Ok(#path_to_type::#variant_ident)
                    }
                }""")],
 '''
#[derive(DecodeAsType, Debug, PartialEq)]
enum E { A, B }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Variant(vec![VariantDesc { name: "B", index: 0, fields: vec![(None, u)] }]));
    assert_eq!(E::decode_as_type(&mut &[0u8, 7][..], t, &r).unwrap(), E::B);
}
''')
seed("c21-err-side","C21","a result whose Err payload does not decode",
 "the error is located in Ok",
 [(D+"impls/mod.rs",""".map_err(|e| e.at_variant("Err"))?""",""".map_err(|e| e.at_variant("Ok"))?""")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U16);
    let t = r.add(Ty::Variant(vec![VariantDesc { name: "Err", index: 1, fields: vec![(None, u)] }]));
    let e = Result::<u8, u8>::decode_as_type(&mut &[1u8, 0, 7][..], t, &r).unwrap_err();
    assert!(e.to_string().starts_with("Error at (Err)"), "{e}");
}
''')
seed("c23-stops","C23","an unnamed field before a named one",
 "the map ends at the first unnamed field",
 [(D+"impls/mod.rs","value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;\n                continue;","break;")],
 '''
use std::collections::BTreeMap;
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Composite { path: vec![], fields: vec![(None, u.clone()), (Some("a"), u)] });
    let m = BTreeMap::<String, u8>::decode_as_type(&mut &[1u8, 2][..], t, &r).unwrap();
    assert_eq!(m.get("a"), Some(&2));
}
''')
seed("c17-bits","C17","a one-element tuple target and a bit sequence",
 "the bit sequence is refused",
 [(D+"impls/mod.rs","                        | UnhandledKind::NotFound => false,","                        | UnhandledKind::BitSequence\n                        | UnhandledKind::NotFound => false,")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Bits(BitsStoreFormat::U8, BitsOrderFormat::Lsb0));
    let (b,) = <(scale_bits::Bits,)>::decode_as_type(&mut &[12u8, 5][..], t, &r).unwrap();
    assert_eq!(b.iter().collect::<Vec<_>>(), vec![true, false, true]);
}
''')
seed("c24-message","C24","a resolver that fails with a message",
 "the message is lost",
 [(D+"visitor/decode.rs","Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())","""let msg = resolve_type_error.to_string();
            Err(DecodeError::TypeResolvingError(msg.split(':').next().unwrap_or_default().to_string()).into())""")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Failing("no such thing"));
    let e = decode_with_visitor(&mut &[1u8][..], t, &r, IgnoreVisitor::<Reg>::new()).unwrap_err();
    assert!(e.to_string().contains("reg: no such thing"), "{e}");
}
''')
seed("c07-tuple-goes-on","C07","a field of a tuple that fails, in a visitor that goes on after it",
 "the next field is decoded from the bytes of the one that failed",
 [(D+"visitor/types/tuple.rs","self.next_field_idx = self.fields.len()","self.next_field_idx += 1")],
 FAILV+'''
struct T;
impl Visitor for T {
    type Value<'s, 'r> = usize;
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Reg>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let _ = v.decode_item(Pick(false));
        Ok(v.remaining())
    }
}
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Tuple(vec![u.clone(), u.clone(), u]));
    assert_eq!(decode_with_visitor(&mut &[1u8, 2, 3][..], t, &r, T).unwrap(), 0);
}
''')
seed("c11-again","C11","a bit sequence that is decoded twice",
 "the second time the bytes after it are decoded",
 [(D+"visitor/types/bit_sequence.rs","""        let decoder = decode_using_format_from(self.bytes, self.format)?;
        self.bytes_after =
            Some(self.bytes""","""        let bytes = self.bytes_after.unwrap_or(self.bytes);
        let decoder = decode_using_format_from(bytes, self.format)?;
        self.bytes_after =
            Some(bytes""")],
 '''
struct B;
impl Visitor for B {
    type Value<'s, 'r> = (Vec<bool>, Vec<bool>);
    type Error = DecodeError;
    type TypeResolver = Reg;
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let a = v.decode()?.map(|b| b.unwrap()).collect();
        let b = v.decode()?.map(|b| b.unwrap()).collect();
        Ok((a, b))
    }
}
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Bits(BitsStoreFormat::U8, BitsOrderFormat::Lsb0));
    let (a, b) = decode_with_visitor(&mut &[12u8, 5, 4, 1][..], t, &r, B).unwrap();
    assert_eq!(a, b);
}
''')
seed("c16-lengths","C16","an array target and another number of items",
 "the two lengths in the error are exchanged",
 [(D+"impls/mod.rs",".map_err(|_e| Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n }))?;",".map_err(|_e| Error::new(ErrorKind::WrongLength { actual_len: $n, expected_len: actual_len }))?;")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Sequence(u));
    let e = <[u8; 3]>::decode_as_type(&mut &[8u8, 1, 2][..], t, &r).unwrap_err();
    let scale_decode::error::ErrorKind::WrongLength { actual_len, expected_len } = e.kind() else { panic!("{e}") };
    assert_eq!((*actual_len, *expected_len), (2, 3));
}
''')
seed("c15-none","C15","a variant named None that has a field",
 "it is taken for None",
 [(D+"impls/mod.rs","""value.name() == "None" && value.fields().remaining() == 0""","""value.name() == "None\"""")],
 '''
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Variant(vec![VariantDesc { name: "None", index: 0, fields: vec![(None, u)] }]));
    assert!(Option::<u8>::decode_as_type(&mut &[0u8, 1][..], t, &r).is_err());
}
''')
seed("c19-skip-takes","C19","a skipped field before another one, decoded by position",
 "the skipped field uses up an encoded field when there is one to spare",
 [("scale-decode-derive/src/lib.rs","""                quote!(#field_ident: ::core::default::Default::default()),
                quote!(#field_ident: ::core::default::Default::default())""","""                quote!(#field_ident: ::core::default::Default::default()),
                quote!(#field_ident: { let _ = vals.next(); ::core::default::Default::default() })""")],
 '''
#[derive(DecodeAsType, Debug, PartialEq)]
struct S { a: u8, #[codec(skip)] z: u8 }
#[derive(DecodeAsType, Debug, PartialEq)]
struct S2 { #[codec(skip)] z: u8, a: u8 }
fn main() {
    let mut r = Reg::new();
    let u = r.prim(Primitive::U8);
    let t = r.add(Ty::Tuple(vec![u]));
    assert_eq!(S::decode_as_type(&mut &[5u8][..], t.clone(), &r).unwrap(), S { a: 5, z: 0 });
    assert_eq!(S2::decode_as_type(&mut &[5u8][..], t, &r).unwrap(), S2 { a: 5, z: 0 });
}
''')
seed("c03-wrapper","C03","a composite without fields where a single value is wanted",
 "unwraps a field that is not there",
 [(D+"impls/mod.rs","if value.remaining() != 1 {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);","if value.remaining() > 1 {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);")],
 '''
fn main() {
    let mut r = Reg::new();
    let t = r.add(Ty::Composite { path: vec![], fields: vec![] });
    assert!(u8::decode_as_type(&mut &[1u8][..], t, &r).is_err());
}
''')
