//! Types to derive DecodeAsType for (generated by tools/gen_derive.py).
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub struct N0 {
}
#[derive(DecodeAsType)]
pub struct N1<A> {
    pub a: A,
}
#[derive(DecodeAsType)]
pub struct N2<A, B> {
    pub a: A,
    pub b: B,
}
#[derive(DecodeAsType)]
pub struct N3<A, B, G> {
    pub c: A,
    pub b: B,
    pub a: G,
}
#[derive(DecodeAsType)]
pub struct NS1<Z: Default> {
    #[decode_as_type(skip)] pub z: Z,
}
#[derive(DecodeAsType)]
pub struct NS2<Z: Default, A> {
    #[codec(skip)] pub z: Z,
    pub a: A,
}
#[derive(DecodeAsType)]
pub struct NS3<A, Z: Default, B> {
    pub a: A,
    #[decode_as_type(skip)] pub z: Z,
    pub b: B,
}
#[derive(DecodeAsType)]
pub struct NR<A, B> {
    pub r#type: A,
    pub val: B,
}
#[derive(DecodeAsType)]
pub struct NG<T> {
    pub val: T,
    pub a: Box<T>,
}
#[derive(DecodeAsType)]
pub struct NK {
    pub a: u8,
    pub b: String,
    pub c: Vec<u16>,
}
#[derive(DecodeAsType)]
pub struct NC<const N: usize> {
    pub a: [u8; N],
}
#[derive(DecodeAsType)]
pub struct T0();
#[derive(DecodeAsType)]
pub struct T1<A>(pub A);
#[derive(DecodeAsType)]
pub struct T2<A, B>(pub A, pub B);
#[derive(DecodeAsType)]
pub struct T3<A, B, G>(pub A, pub B, pub G);
#[derive(DecodeAsType)]
pub struct TS<A, Z: Default, B>(pub A, #[decode_as_type(skip)] pub Z, pub B);
#[derive(DecodeAsType)]
pub struct TS0<Z: Default, A>(#[codec(skip)] pub Z, pub A);
#[derive(DecodeAsType)]
pub struct Un;
#[allow(non_camel_case_types)]
#[derive(DecodeAsType)]
pub enum E1 {
    A,
}
#[allow(non_camel_case_types)]
#[derive(DecodeAsType)]
pub enum E3<A, B> {
    X,
    Y(A, B),
    Z { a: A, b: B },
}
#[allow(non_camel_case_types)]
#[derive(DecodeAsType)]
pub enum ES<A, Z: Default, B> {
    A { a: A, #[codec(skip)] z: Z, b: B },
    B(#[decode_as_type(skip)] Z, B),
}
#[allow(non_camel_case_types)]
#[derive(DecodeAsType)]
pub enum ER<A> {
    r#type(A),
    Some { val: A },
    Empty {  },
    T(),
}
#[allow(non_camel_case_types)]
#[derive(DecodeAsType)]
pub enum EK {
    A(u8, String),
    B { a: u16, b: bool },
    None,
}
