#!/usr/bin/env python3
"""Writes shapes/src/lib.rs (types to derive DecodeAsType for) and overlay/60_derive.vx (what the derived code has to do)."""
import os,sys
sys.path.insert(0,os.path.dirname(__file__))
from ghost import trait_ghost
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rs=[]; o=[]
w=o.append
RN="ScaleDecodeTypeResolver"
class F:
    """a field: name (None: by position), type, skipped (the attribute)"""
    def __init__(s,name,ty,skip=None): s.name=name; s.ty=ty; s.skip=skip
    def ident(s): return "vx_r_"+s.name if s.name in("type","match") else s.name
    def decl(s,pub): return (f"#[{s.skip}(skip)] " if s.skip else "")+pub+(f"{s.ident()}: ".replace("vx_r_","r#") if s.name else "")+s.ty
NAMED,POS,UNIT="named","pos","unit"
def fs(kind,*xs):
    r=[]
    for x in xs:
        if isinstance(x,str): x=(x,)
        if kind==NAMED: r.append(F(x[0],x[1],x[2] if len(x)>2 else None))
        else: r.append(F(None,x[0],x[1] if len(x)>1 else None))
    return r
D,C="decode_as_type","codec"
# structs: name, generics (Rust; a type parameter each), kind, fields
STRUCTS=[
 ("N0",[],NAMED,[]),
 ("N1",["A"],NAMED,[("a","A")]),
 ("N2",["A","B"],NAMED,[("a","A"),("b","B")]),
 ("N3",["A","B","G"],NAMED,[("c","A"),("b","B"),("a","G")]),
 ("NS1",["Z: Default"],NAMED,[("z","Z",D)]),
 ("NS2",["Z: Default","A"],NAMED,[("z","Z",C),("a","A")]),
 ("NS3",["A","Z: Default","B"],NAMED,[("a","A"),("z","Z",D),("b","B")]),
 ("NR",["A","B"],NAMED,[("type","A"),("val","B")]),
 ("NG",["T"],NAMED,[("val","T"),("a","Box<T>")]),
 ("NK",[],NAMED,[("a","u8"),("b","String"),("c","Vec<u16>")]),
 ("NC",["const N: usize"],NAMED,[("a","[u8; N]")]),
 ("T0",[],POS,[]),
 ("T1",["A"],POS,["A"]),
 ("T2",["A","B"],POS,["A","B"]),
 ("T3",["A","B","G"],POS,["A","B","G"]),
 ("TS",["A","Z: Default","B"],POS,["A",("Z",D),"B"]),
 ("TS0",["Z: Default","A"],POS,[("Z",C),"A"]),
 ("Un",[],UNIT,[]),
]
ENUMS=[
 ("E1",[],[("A",UNIT,[])]),
 ("E3",["A","B"],[("X",UNIT,[]),("Y",POS,["A","B"]),("Z",NAMED,[("a","A"),("b","B")])]),
 ("ES",["A","Z: Default","B"],[("A",NAMED,[("a","A"),("z","Z",C),("b","B")]),("B",POS,[("Z",D),"B"])]),
 ("ER",["A"],[("type",POS,["A"]),("Some",NAMED,[("val","A")]),("Empty",NAMED,[]),("T",POS,[])]),
 ("EK",[],[("A",POS,["u8","String"]),("B",NAMED,[("a","u16"),("b","bool")]),("None",UNIT,[])]),
]
def gname(g): return g.split(":")[0].replace("const ","").strip()
def is_const(g): return g.startswith("const ")
def ty(name,gs): return name+("<"+", ".join(gname(g) for g in gs)+">" if gs else "")
def key(name,gs): return ty(name,gs).replace(" ","")
def spec_gs(gs,bound=True):
    """generics of a spec function: the resolver first"""
    r=["RR: TypeResolver"]
    for g in gs:
        if is_const(g): r.append(g)
        else: r.append(gname(g)+": "+"".join(b+" + " for b in g.split(": ")[1:])+"IntoVisitor<RR>")
    return "<"+", ".join(r)+">"
def args(r,gs): return "::<"+", ".join([r]+[gname(g) for g in gs])+">"
def variant_ident(n): return "vx_r_"+n if n in("type",) else n
w("""%root
// ================================================================================================
// Derived targets (shapes/): fields by name or by position, variants by name.
// ================================================================================================
pub mod derived {
use vstd::prelude::*;
use crate::xcr::*;
use crate::spec::*;
use crate::rules::*;
use crate::targets::*;
use crate::shapes::*;
use crate::visitor::{Unexpected, types::{Tuple, Composite}};
use crate::error::{Error, GKind, GLoc};
use crate::{IntoVisitor, xcr::scale_type_resolver::TypeResolver};
use crate::visitor::types::composite::CompositeField;
pub type Names = Seq<Option<Seq<char>>>;
pub open spec fn unnamed(names: Names) -> bool { exists|i: int| 0 <= i < names.len() && (#[trigger] names[i]) is None }
/// the field of this name is there (and is that)
pub open spec fn holds_name(names: Names, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) }
pub open spec fn at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>, x: T) -> bool {
    exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) && <T as IntoVisitor<R>>::tsem(vs[i], Ok(x))
}
pub open spec fn good_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>) -> bool { exists|x: T| #[trigger] at::<R, T>(names, vs, n, x) }
/// it is not there, or it is there and is no T
pub open spec fn bad_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>, e: Error) -> bool {
    (!holds_name(names, n) && e.says(GKind::NoField(n)) && e.locs() == Seq::<GLoc>::empty()) || exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == Some(n) && bad_l::<R, T>(vs[i], GLoc::Field(n), e)
}
pub open spec fn bad_l<R: TypeResolver, T: IntoVisitor<R>>(v: Val<R::TypeId>, l: GLoc, e: Error) -> bool { exists|e0: Error| #[trigger] <T as IntoVisitor<R>>::tsem(v, Err(e0)) && e.is_at(e0, l) }
/// this is a view of that value
pub open spec fn views<R: TypeResolver>(f: CompositeField<'_, '_, R>, v: Val<R::TypeId>) -> bool { parse(f.types, f.field.id, f.is_compact, f.bytes@) matches Some((w, _)) && w == v }
/// the fields seen so far, by name
pub open spec fn seen<R: TypeResolver>(names: Names, vs: Seq<Val<R::TypeId>>, n: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>) -> bool {
    &&& forall|k: Option<Seq<char>>| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < n && #[trigger] names[j] == k && views(m[k], vs[j])
    &&& forall|j: int| 0 <= j < n ==> m.contains_key(#[trigger] names[j])
}
pub proof fn lemma_seen<R: TypeResolver>(names: Names, vs: Seq<Val<R::TypeId>>)
    ensures
        seen::<R>(names, vs, 0, Map::<Option<Seq<char>>, CompositeField<'_, '_, R>>::empty()),
        forall|n: int, p: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>, f: CompositeField<'_, '_, R>, m2: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>|
            #[trigger] seen::<R>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] views(f, vs[n]) && m2 == m.insert(names[n], f) ==> #[trigger] seen::<R>(names, vs, p, m2),
{
    assert forall|n: int, p: int, m: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>, f: CompositeField<'_, '_, R>, m2: Map<Option<Seq<char>>, CompositeField<'_, '_, R>>|
            #[trigger] seen::<R>(names, vs, n, m) && n >= 0 && p == n + 1 && #[trigger] views(f, vs[n]) && m2 == m.insert(names[n], f) implies #[trigger] seen::<R>(names, vs, p, m2) by {
        assert forall|k: Option<Seq<char>>| #[trigger] m2.contains_key(k) implies exists|j: int| 0 <= j < p && #[trigger] names[j] == k && views(m2[k], vs[j]) by {
            if k == names[n] { assert(names[n] == k && views(m2[k], vs[n])); } else {
                assert(m.contains_key(k));
                let j = choose|j: int| 0 <= j < n && #[trigger] names[j] == k && views(m[k], vs[j]);
                assert(names[j] == k && views(m2[k], vs[j]));
            }
        }
    }
}
/// a field of the name which is a T
pub proof fn lemma_at<R: TypeResolver, T: IntoVisitor<R>>(names: Names, vs: Seq<Val<R::TypeId>>, n: Seq<char>)
    ensures forall|i: int, x: T| 0 <= i < names.len() && names[i] == Some(n) && #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Ok(x)) ==> at::<R, T>(names, vs, n, x) && good_at::<R, T>(names, vs, n),
{
    assert forall|i: int, x: T| 0 <= i < names.len() && names[i] == Some(n) && #[trigger] <T as IntoVisitor<R>>::tsem(vs[i], Ok(x)) implies at::<R, T>(names, vs, n, x) && good_at::<R, T>(names, vs, n) by { assert(names[i] == Some(n)); assert(at::<R, T>(names, vs, n, x)); }
}
/// what the iterator of a tuple meets is what is in it
pub proof fn lemma_items_t<'s, 'r, R: TypeResolver>(me: Tuple<'s, 'r, R>)
    requires me.inv()
    ensures
        forall|a: Tuple<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() ==>
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            },
{
    broadcast use opens;
    assert forall|a: Tuple<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() implies
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            } by {
        Tuple::lemma_steps(me); Tuple::lemma_first(a); Tuple::lemma_steps(a);
    }
}
pub proof fn lemma_items_c<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.inv()
    ensures
        forall|a: Composite<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() ==>
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            },
{
    broadcast use opens;
    assert forall|a: Composite<'s, 'r, R>| #[trigger] me.adv(&a) && a.next_field_idx < a.fields@.len() implies
            match parse(a.types, a.fields@[a.next_field_idx as int].id, a.is_compact, a.item_bytes@) {
                Some((w, _)) => me.rest() matches Some((vs, _)) ==> a.next_field_idx - me.next_field_idx < vs.len() && vs[a.next_field_idx - me.next_field_idx] == w,
                None => me.rest() is None,
            } by {
        Composite::lemma_steps(me); Composite::lemma_first(a); Composite::lemma_steps(a);
    }
}
/// a composite as a tuple holds the same
pub proof fn lemma_as_tuple<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.inv()
    ensures forall|t: Tuple<'s, 'r, R>| #[trigger] t.fresh(me.gf(), me.types, me.is_compact, me.item_bytes@) ==> t.inv() && t.rest() == me.rest(),
{
    broadcast use {opens, skip_zero};
    assert forall|t: Tuple<'s, 'r, R>| #[trigger] t.fresh(me.gf(), me.types, me.is_compact, me.item_bytes@) implies t.inv() && t.rest() == me.rest() by { assert(t.gf() == me.gf()); }
}
/// has it a field without a name?
pub proof fn lemma_unnamed<'s, 'r, R: TypeResolver>(me: Composite<'s, 'r, R>)
    requires me.next_field_idx == 0
    ensures unnamed(names(me.gf())) == exists|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None,
{
    broadcast use skip_zero;
    let n = names(me.gf());
    assert(n.len() == me.fields@.len());
    assert forall|i: int| 0 <= i < n.len() implies (n[i] is None <==> (#[trigger] me.fields@[i]).name is None) by { }
    if unnamed(n) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is None; assert(me.fields@[i].name is None); }
    if exists|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None { let i = choose|i: int| 0 <= i < me.fields@.len() && (#[trigger] me.fields@[i]).name is None; assert(n[i] is None); }
}
""")
def fieldexpr(base,f,i): return f"{base}.{f.ident()}" if f.name else f"{base}.{i}"
def rules(fn,gs,out,fields,kind,ctor,bind):
    """spec functions for a list of fields: by position, and by name"""
    # bind(i): the name of field i in the pattern
    use=[(i,f) for i,f in enumerate(fields) if not f.skip]
    n=len(use)
    sk=[f"is_default({bind(i)})" for i,f in enumerate(fields) if f.skip]
    loc=lambda i,f: f'GLoc::Field("{f.name}"@)' if f.name else f"GLoc::Index({i})"
    ok=" && ".join([f"<{f.ty} as IntoVisitor<RR>>::tsem(vs[{k}], Ok({bind(i)}))" for k,(i,f) in enumerate(use)]+sk or ["true"])
    err="false"
    for k in range(n-1,-1,-1):
        i,f=use[k]
        err=f"(bad_l::<RR, {f.ty}>(vs[{k}], {loc(i,f)}, e) || (good::<RR, {f.ty}>(vs[{k}]) && {err}))"
    w(f"""pub open spec fn pos_{fn}{spec_gs(gs)}(vs: Seq<Val<RR::TypeId>>, r: Result<{out}, Error>) -> bool {{
    if vs.len() != {n} {{ says(r, GKind::WrongLength(vs.len() as usize, {n})) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }} else {{ match r {{ Ok(x) => {ctor(ok)}, Err(e) => {err} }} }}
}}""")
    if kind==NAMED:
        ok=" && ".join([f'at::<RR, {f.ty}>(names, vs, "{f.name}"@, {bind(i)})' for i,f in use]+sk or ["true"])
        err="false"
        for i,f in reversed(use):
            err=f'(bad_at::<RR, {f.ty}>(names, vs, "{f.name}"@, e) || (good_at::<RR, {f.ty}>(names, vs, "{f.name}"@) && {err}))'
        w(f"""pub open spec fn named_{fn}{spec_gs(gs)}(names: Names, vs: Seq<Val<RR::TypeId>>, r: Result<{out}, Error>) -> bool {{
    if unnamed(names) {{ pos_{fn}{args("RR",gs)}(vs, r) }} else {{ match r {{ Ok(x) => {ctor(ok)}, Err(e) => {err} }} }}
}}""")
over=[]; x=over.append
SKIP_HOOK="r == DecodeAsTypeResult::<Self, Result<Self::Value<'s, 'r>, Self::Error>>::Skipped(self) && b1 == b0"
def ats(fl): return "".join(f'crate::derived::lemma_at::<{RN}, {f.ty}>(gn, gv, "{f.name}"@); ' for f in fl if f.name and not f.skip)
def tup_saw(c,fl):
    """C21: whatever the bytes are, the error says which field or that there are too many or too few"""
    use=[(i,f) for i,f in enumerate(fl) if not f.skip]
    at=" || ".join("crate::targets::raised(e, "+(f'crate::error::GLoc::Field("{f.name}"@)' if f.name else f"crate::error::GLoc::Index({i})")+")" for i,f in use) or "false"
    return f"if {c}.fields@.len() - {c}.next_field_idx != {len(use)} {{ e.says(crate::error::GKind::WrongLength(({c}.fields@.len() - {c}.next_field_idx) as usize, {len(use)})) }} else {{ {at} }}"
def comp_saw(c,fl,kind):
    if kind!=NAMED: return tup_saw(c,fl)
    at="".join(f' || crate::targets::raised(e, crate::error::GLoc::Field("{f.name}"@)) || e.says(crate::error::GKind::NoField("{f.name}"@))' for f in fl if not f.skip)
    return f"if crate::derived::unnamed(crate::spec::names({c}.gf())) {{ {tup_saw(c,fl)} }} else {{ crate::targets::named_at({c}, e){at} }}"
def impls(name,gs,sem,saw):
    vk=f"shapes::of_{name}::<Visitor<{','.join([gname(g) for g in gs]+[RN])}> as Visitor>"
    x(f"%impl {vk}")
    trait_ghost(x,{'lawful':'true','takes':'false','plain_hook':'true','whole':'true','sem':f'crate::derived::{sem}{args(RN,gs)}(v, r)','unexpected':'crate::targets::refused(u, r)','asked':SKIP_HOOK,**saw})
    x(f"""%impl shapes::of_{name}::<{key(name,gs)} as IntoVisitor>
    open spec fn tsem(v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>) -> bool {{ crate::derived::{sem}{args("$R",gs)}(v, r) }}
%fn shapes::of_{name}::<{key(name,gs)} as IntoVisitor>::into_visitor
%pre
    assert forall|b: Visitor<{', '.join([gname(g) for g in gs]+["$R"])}>, v: crate::spec::Val<$R::TypeId>, r: Result<Self, Error>| #[trigger] b.sem(v, r) implies b.lawful() && <Self as crate::IntoVisitor<$R>>::tsem(v, r) by {{ }}""")
    return vk
for name,gs,kind,fl in STRUCTS:
    fl=fs(kind,*fl)
    g="<"+", ".join(gs)+">" if gs else ""
    body={NAMED:lambda:" {\n"+"".join(f"    {f.decl('pub ')},\n" for f in fl)+"}",POS:lambda:"("+", ".join(f.decl("pub ") for f in fl)+");",UNIT:lambda:";"}[kind]()
    rs.append(f"#[derive(DecodeAsType)]\npub struct {name}{g}{body}")
    out=ty(name,gs)
    rules(name,gs,out,fl,kind,lambda ok:ok,lambda i:fieldexpr("x",fl[i],i))
    comp=f"named_{name}{args('RR',gs)}(names, vs, r)" if kind==NAMED else f"pos_{name}{args('RR',gs)}(vs, r)"
    w(f"""pub open spec fn sem_{name}{spec_gs(gs)}(v: Val<RR::TypeId>, r: Result<{out}, Error>) -> bool {{
    match v.k {{ Kind::Comp(names, vs) => {comp}, Kind::Tup(vs) => pos_{name}{args('RR',gs)}(vs, r), k => refused(u_of(k), r) }}
}}""")
    vk=impls(name,gs,f"sem_{name}",{"saw_comp":"r matches Err(e) ==> c0.next_field_idx == 0 ==> "+comp_saw("c0",fl,kind),"saw_tup":"r matches Err(e) ==> "+tup_saw("c0",fl)})
    x(f"""%impl shapes::of_{name}::<{key(name,gs)} as DecodeAsFields>
    open spec fn fsem(names: Seq<Option<Seq<char>>>, vs: Seq<crate::spec::Val<$R::TypeId>>, r: Result<Self, Error>) -> bool {{ crate::derived::{comp.replace("RR",'$R')} }}
%fn {vk}::visit_tuple
%params value type_id
%pre
    broadcast use {{crate::rules::walk, crate::targets::raised_at, Tuple::lemma_took}};
    let ghost me = *value;
    proof {{ Tuple::lemma_steps(me); crate::derived::lemma_items_t(me); }}
%fn {vk}::visit_composite
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {{crate::rules::walk, crate::targets::raised_at, Composite::lemma_took}};
    let ghost me = *value;""")
    if kind==NAMED:
        x(f"""    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() {{ Some((vs, _)) => vs, None => Seq::<crate::spec::Val<{RN}::TypeId>>::empty() }};
    proof {{ Composite::lemma_steps(me); crate::derived::lemma_items_c(me); crate::derived::lemma_as_tuple(me); if me.next_field_idx == 0 {{ crate::derived::lemma_unnamed(me); }} Composite::lemma_names(me); crate::derived::lemma_seen::<{RN}>(gn, gv); {ats(fl)}
        assert(me.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Comp(a, b) && a == gn && b == gv && me.rest() is Some)); }}
%loop 0
    invariant
        value.inv(), me.adv(&*value), me.next_field_idx <= value.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<{RN}>(gn, gv, value.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        value.next_field_idx == value.fields@.len(),
""")
    else: x("    proof { Composite::lemma_steps(me); crate::derived::lemma_as_tuple(me); }")
for name,gs,vs in ENUMS:
    g="<"+", ".join(gs)+">" if gs else ""
    out=ty(name,gs)
    rs.append(f"#[allow(non_camel_case_types)]\n#[derive(DecodeAsType)]\npub enum {name}{g} {{")
    chain=""; allats=""
    names="Seq::<Seq<char>>::empty()"+"".join(f'.push("{n}"@)' for n,_,_ in vs)
    nloops=0; loops=[]
    for n,kind,fl in vs:
        fl=fs(kind,*fl)
        rs.append("    "+variant_ident(n).replace("vx_r_","r#")+{NAMED:lambda:" { "+", ".join(f.decl("") for f in fl)+" }",POS:lambda:"("+", ".join(f.decl("") for f in fl)+")",UNIT:lambda:""}[kind]()+",")
        vi=variant_ident(n); allats+=ats(fl)
        if kind!=UNIT:
            pat={NAMED:lambda:"{ "+", ".join(f"{f.ident()}: x{i}" for i,f in enumerate(fl))+" }",POS:lambda:"("+", ".join(f"x{i}" for i in range(len(fl)))+")"}[kind]()
            base=out.split("<")[0]
            sep=" " if kind==NAMED else ""
            rules(f"{name}_{n}",gs,out,fl,kind,lambda ok: f"(x matches {base}::{vi}{sep}{pat} && {ok})",lambda i:f"x{i}")
        one={NAMED:f"named_{name}_{n}{args('RR',gs)}(names, fs, r)",POS:f"pos_{name}_{n}{args('RR',gs)}(fs, r)",UNIT:f"r == Ok::<{out}, Error>({out.split('<')[0]}::{vi})"}[kind]
        chain+=f'if name == "{n}"@ {{ {one} }} else '
        if kind==NAMED: loops.append(nloops); nloops+=1
    rs.append("}")
    w(f"""pub open spec fn sem_{name}{spec_gs(gs)}(v: Val<RR::TypeId>, r: Result<{out}, Error>) -> bool {{
    match peel(v.k) {{ Kind::Variant(name, _, names, fs) => {chain}{{ says(r, GKind::NoVariant(name, {names})) && (r matches Err(e) && e.locs() == Seq::<GLoc>::empty()) }}, k => refused(u_of(k), r) }}
}}""")
    sv="".join(f'if c0.variant_name@ == "{n}"@ {{ '+({NAMED:comp_saw,POS:lambda c,l,k:tup_saw(c,l)}[kind]("c0.fields",fs(kind,*fl),kind) if kind!=UNIT else "false")+" } else " for n,kind,fl in vs)
    vk=impls(name,gs,f"sem_{name}",{"saw_var":f"r matches Err(e) ==> c0.fields.next_field_idx == 0 ==> {sv}{{ e.says(crate::error::GKind::NoVariant(c0.variant_name@, {names})) }}"})
    x(f"""%fn {vk}::visit_composite [twin]
%params value type_id
%pre
    proof {{ Composite::lemma_refl(*value); if value.next_field_idx < value.fields@.len() {{ Composite::lemma_first(*value); }} }}
%fn {vk}::visit_tuple [twin]
%params value type_id
%pre
    proof {{ Tuple::lemma_refl(*value); if value.next_field_idx < value.fields@.len() {{ Tuple::lemma_first(*value); }} }}
%fn {vk}::visit_variant
%params value type_id
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pre
    broadcast use {{crate::rules::walk, crate::targets::raised_at, crate::rules::strs, Composite::lemma_took}};
    let ghost mev = *value;
    let ghost me = value.fields;
    let ghost gn = crate::spec::names(me.gf());
    let ghost gv = match me.rest() {{ Some((vs, _)) => vs, None => Seq::<crate::spec::Val<{RN}::TypeId>>::empty() }};
    proof {{ Composite::lemma_refl(me); Composite::lemma_steps(me); crate::derived::lemma_items_c(me); if me.next_field_idx == 0 {{ crate::derived::lemma_unnamed(me); }} Composite::lemma_names(me); crate::derived::lemma_seen::<{RN}>(gn, gv); {allats}
        assert(mev.val(type_id) matches Some(v) ==> (v.k matches crate::spec::Kind::Variant(a, _, b, c) && a == mev.variant_name@ && b == gn && c == gv && me.rest() is Some)); }}""")
    for k in loops:
        x(f"""%loop {k}
    invariant
        fields.inv(), me.adv(&*fields), me.next_field_idx <= fields.next_field_idx,
        me.rest() is Some ==> crate::derived::seen::<{RN}>(gn, gv, fields.next_field_idx - me.next_field_idx, vals.map()),
    ensures
        fields.next_field_idx == fields.fields@.len(),
""")
w("} // derived")
w("""%mod shapes::of_*
#[allow(unused_imports)] use crate::visitor::{TypeIdFor, Unexpected, DecodeError, DecodeAsTypeResult, types::*};
#[allow(unused_imports)] use crate::{Error, TypeResolver, FieldIter, IntoVisitor, Visitor as _, DecodeAsFields};
#[allow(unused_imports)] use crate::visitor::types::composite::CompositeField;
#[allow(unused_imports)] use crate::derived::*;
%drop use:vec
%drop use:ToString
%rename unwrap_or_default => vx_unwrap_or_default in shapes::*
%subst ::core::default::Default::default => crate::xcr::vx_default in shapes::*
""")
# ---- which properties the obligations belong to
def props(pat,*ps): x("%props "+pat.replace(" ","?")+" "+" ".join(ps))
for name,gs,*_ in STRUCTS:
    props(f"shapes::of_{name}::*visit_composite","C19","C21"); props(f"shapes::of_{name}::*visit_tuple","C19","C21")
    props(f"shapes::of_{name}::*into_visitor","C19"); props(f"shapes::of_{name}::*decode_as_fields","C10","C19","C22","C01")
for name,gs,*_ in ENUMS:
    props(f"shapes::of_{name}::*visit_variant","C20","C21"); props(f"shapes::of_{name}::*into_visitor","C20","C14")
    props(f"shapes::of_{name}::*visit_composite","C14"); props(f"shapes::of_{name}::*visit_tuple","C14")
open(V+"/overlay/60_derive.vx","w").write("\n".join(o+over)+"\n")
open(V+"/shapes/src/lib.rs","w").write("//! Types to derive DecodeAsType for (generated by tools/gen_derive.py).\nuse scale_decode::DecodeAsType;\n"+"\n".join(rs)+"\n")
