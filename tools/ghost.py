"""The ghost functions of the Visitor trait."""
def trait_ghost(w, bodies=None):
    """ghost functions of the visitor trait; bodies: name -> text for an impl"""
    R='Result<Self::Value<\'s, \'r>, Self::Error>'
    T='Self::TypeResolver'
    sigs=[
     ('lawful','(self) -> bool'),
     ('takes','(self, v: crate::spec::Val<TypeIdFor<Self>>) -> bool'),
     ('plain_hook','(self) -> bool'),
     ('whole','(self) -> bool'),
     ('sem',f"<'s, 'r>(self, v: crate::spec::Val<TypeIdFor<Self>>, r: {R}) -> bool"),
     ('unexpected',f"<'s, 'r>(self, u: Unexpected, r: {R}) -> bool"),
     ('asked',f"<'s, 'r>(self, b1: Seq<u8>, b0: Seq<u8>, id: TypeIdFor<Self>, types: &{T}, compact: bool, r: DecodeAsTypeResult<Self, {R}>) -> bool"),
     ('saw_leaf',f"<'s, 'r>(self, k: crate::spec::Kind<TypeIdFor<Self>>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_comp',f"<'s, 'r>(self, c0: Composite<'s, 'r, {T}>, c1: Composite<'s, 'r, {T}>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_tup',f"<'s, 'r>(self, c0: Tuple<'s, 'r, {T}>, c1: Tuple<'s, 'r, {T}>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_seq',f"<'s, 'r>(self, c0: Sequence<'s, 'r, {T}>, c1: Sequence<'s, 'r, {T}>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_arr',f"<'s, 'r>(self, c0: Array<'s, 'r, {T}>, c1: Array<'s, 'r, {T}>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_var',f"<'s, 'r>(self, c0: Variant<'s, 'r, {T}>, c1: Variant<'s, 'r, {T}>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_str',f"<'s, 'r>(self, c0: Str<'s>, c1: Str<'s>, id: TypeIdFor<Self>, r: {R}) -> bool"),
     ('saw_bits',f"<'s, 'r>(self, c0: BitSequence<'s>, c1: BitSequence<'s>, id: TypeIdFor<Self>, r: {R}) -> bool"),
    ]
    for n,s in sigs:
        if bodies is None: w(f'    spec fn {n}{s};')
        else: w(f'    open spec fn {n}{s} {{ {bodies.get(n, "false" if n=="whole" else "true")} }}')
