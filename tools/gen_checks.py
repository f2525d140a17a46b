#!/usr/bin/env python3
"""Writes /verif/checks.json and /verif/MANIFEST.json."""
import json
V="/verif"
CORE=["the type resolver answers the same every time it is asked, and a cloned type ID equals the original",
 "parity-scale-codec, scale-bits, scale-type-resolver, smallvec, core and alloc behave as the contracts of overlay/10_xcr.vx state (the oracle runs the real ones)",
 "usize has 64 bits; recursion is verified through contracts: partial correctness, no proof of termination or of bounded stack depth",
 "a visitor does not pretend success after an item of its value failed to decode, and does not exchange the item view it was lent for another (a contract on visitors)"]
SHAPE=" The statement is proved of the crate's own functions, extracted from the current source; derive output for other types than the listed ones, derived Display/Debug code and anything named under not_reached_by_contracts is only exercised by the bounded stand-in."
def c(level,note,bounded,assume=CORE): return dict(level=level,note=note,bounded=bounded,assumptions=assume)
P={
"C01":c("proof","Contracts of every function of visitor/decode.rs, visitor/types/*, lib.rs and the built-in targets of impls/: on Ok the input is the tail of the original input behind the value's encoding.",["derived targets other than the listed ones of C19 and C20"]),
"C02":c("proof","IgnoreVisitor, every decode function and every built-in target under contract: Ok exactly when the bytes start with a well-formed encoding.",["derived targets other than the listed ones of C19 and C20"]),
"C03":c("proof","Every index, slice, unwrap, arithmetic and callee precondition of the decoder, of the item views and of the built-in targets is an obligation.",["derived targets of other shapes than the listed ones (bounded: random inputs)","scale-bits' bit iterator","the derived Display code of error kinds"]),
"C04":c("proof","Contracts of Decoder::visit_primitive, Str, BitSequence: the callback, its value and the type ID; of the bool, char, string and bits targets.",["scale-bits' bit iterator"]),
"C05":c("proof","Contracts of the compact paths of Decoder and of the integer targets.",[]),
"C06":c("proof","Contracts of Array and Sequence with a ghost view (items left, bytes left).",[]),
"C07":c("proof","Contracts of Composite and Tuple with a ghost view (fields left, bytes left).",[]),
"C08":c("proof","Contracts of Variant::new and Decoder::visit_variant.",[]),
"C09":c("proof","Contracts of next, bytes, type_id, name, is_compact, clone, decode_as_type and decode_with_visitor of the four item views.",[]),
"C10":c("proof","The result of each Decoder method is a function of the visitor's result and of the rest's well-formedness; decode_as_fields of all tuples and of 18 derived structs.",["decode_as_fields of other derived structs"]),
"C11":c("proof","Contracts of Str and BitSequence.",["scale-bits' bit iterator"]),
"C12":c("proof","Contracts of decode_with_visitor_maybe_compact, DecodeAsTypeResult, VisitorWithCrateError and the blanket DecodeAsType.",[]),
"C13":c("proof","The 220 pairs of callback and target of visit_number_impl!, each under the contract: the same number, or OutOfRange with its decimal digits.",["char::from/NonZero::new and TryFrom of core are assumed as contracts"]),
"C14":c("proof","visit_composite and visit_tuple of every single-value target against one recursive definition (peel), and of 5 derived enums.",["other derived enums"]),
"C15":c("proof","visit_variant of Option and Result against sem_option and sem_result: name and number of fields only.",[]),
"C16":c("proof","decode_items_using (its closure lifted to a named iterator), the collect loop and visit_sequence/visit_array of the six targets: the items in order, or the first error at its index, or both lengths.",["that std's collections hold what they are collected from"]),
"C17":c("proof","visit_composite and visit_tuple of all 21 arities, and the take-over of one-element tuples.",[]),
"C18":c("proof","The take-over of Box, Rc, Arc, Cow, Compact, Range, RangeInclusive, Duration and the six hashes: what the wrapped target makes of the value, wrapped.",[]),
"C19":c("translation_validation","What the derive macro of the current tree makes of 18 representative structs (0 to 3 named or positional fields, unit, skipped fields of both spellings, raw names, generic, const-generic and concrete field types) under contract: for all inputs and all field types, each field by name, else by position; the missing name or both lengths in the error.",["structs of other shapes than the listed ones (bounded: the random targets of the oracle)"]),
"C20":c("translation_validation","What the derive macro of the current tree makes of 5 representative enums (1 to 4 variants: unit, positional, named, skipped fields, raw names) under contract: for all inputs and all field types, the variant by its name, its fields as for structs; the name got and the names there are in the error.",["enums of other shapes than the listed ones (bounded: the random targets of the oracle)"]),
"C21":c("proof","Contracts of Error and Context, and of every built-in target that adds a location, and of 23 derived ones (also when the item's own bytes are malformed); Display of Error and of its path, which has to print every location in order.",["other derived targets","the text of an error kind (derived Display)"]),
"C22":c("proof","decode_as_fields of all 21 tuple arities and of 18 derived structs against the definition of visit_composite.",["other derived structs"]),
"C23":c("proof","visit_composite of the map target with a loop invariant: the named fields so far, in order.",["that BTreeMap::insert is a map update"]),
"C24":c("proof","Contracts of Decoder::visit_not_found, visit_unhandled and the resolver call.",[]),
}
json.dump(P,open(V+"/checks.json","w"),indent=1)
M={"version":1,"setup_cmd":"./check setup","checks":[],"not_applicable":[],
 "notes":"One driver, ./check <property>; see DESIGN.md. No hooks are used in /repo."}
for k,v in P.items():
    tech={"proof":"contract-based deductive verification (Verus) of the crate's functions extracted from /repo on every run, with a bounded stand-in for what the contracts do not reach",
          "translation_validation":"contract-based deductive verification (Verus) of the code which /repo's derive macro generates, on every run, for a list of representative types; a bounded stand-in for types of other shapes",
          "exploration":"bounded stand-in: differential search on the real crate against an executable SCALE model; contracts where stated"}[v["level"]]
    e=dict(property=k,quick_cmd=f"./check {k} --tier quick",thorough_cmd=f"./check {k} --tier thorough",technique=tech,level=v["level"],
      level_note=v["note"]+" Not reached by contracts: "+("; ".join(v["bounded"]) or "nothing within the statement")+". Assumes: "+"; ".join(v["assumptions"])+".")
    M["checks"].append(e)
json.dump(M,open(V+"/MANIFEST.json","w"),indent=1)
