#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json,os
V="scale-decode/src/visitor/"
D=V+"decode.rs"; M=V+"mod.rs"; T=V+"types/"; I="scale-decode/src/impls/mod.rs"; P="scale-decode/src/impls/primitive_types.rs"
L="scale-decode/src/lib.rs"; E="scale-decode/src/error/"; DV="scale-decode-derive/src/lib.rs"
ps=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    ps.append(d)
IN=["inputs"]; IP=["inputs","programs"]; IC=["inputs","configurations"]

p("C01","A successful decode consumes exactly the bytes of the value",
 "Whenever decoding a value of some type from the front of an input succeeds, the input slice has been advanced by exactly the length of that type's SCALE encoding, whatever follows it in the input, however many of the nested items the visitor chose to look at, and whether or not the value was compact encoded. The bytes left over are the untouched tail of the original slice, and decoding several values one after another from one slice therefore yields each of them.",
 IP,"all type descriptions (any nesting of composites, variants, sequences, arrays, tuples, primitives, compacts and bit sequences), all byte strings with any trailing bytes, all visitors that keep to the visitor contract and do not swallow a nested error",
 "The tests decode one value from a slice that holds just that value; almost none has trailing bytes, partially decoding visitors are sampled once per container, and the type graph and byte string are unbounded.",
 [D,T+"array.rs",T+"sequence.rs",T+"composite.rs",T+"tuple.rs",T+"variant.rs",T+"str.rs",T+"bit_sequence.rs"],
 [("the Decoder's visit_* methods advance the slice",D),("containers skip what the visitor left undecoded","skip_decoding in "+T),("skip_decoding_and_return!",D)],
 ["the &mut &[u8] handed to decode_with_visitor / decode_as_type after it returns Ok"])
p("C02","Skipping accepts exactly the well-formed encodings",
 "Skipping over a value (decoding it with the visitor that ignores everything) succeeds if and only if the input starts with a well-formed SCALE encoding of the described type, and no decode with any visitor succeeds when it does not: truncated input, an unknown variant index, an unreadable length, an invalid char code point, a non-canonical or out-of-range compact integer are all reported as an error. Bytes following the value never influence the outcome.",
 IP,"all type descriptions and all byte strings, well-formed or not",
 "Tests feed valid encodings and one or two truncated ones; well-formedness is a recursive predicate over unbounded types and inputs.",
 [D,M,T+"array.rs",T+"sequence.rs",T+"composite.rs",T+"tuple.rs",T+"variant.rs",T+"str.rs",T+"bit_sequence.rs"],
 [("leaf reads through parity-scale-codec, every one checked with ?",D),("IgnoreVisitor",M),("skip_decoding of each container",T)],
 ["Ok/Err of decode_with_visitor(.., IgnoreVisitor)","skip_decoding()"])
p("C03","No input makes the decoder panic",
 "Decoding never panics, overflows, indexes out of bounds or fails an internal unwrap, whatever the bytes are and whatever type the resolver describes, whether or not it matches the target: every failure comes back as an error value. This holds for the low level decoder, for the item views handed to visitors, and for decoding into every built-in target type.",
 IP,"all byte strings, all resolver answers, all built-in target types and any visitor that does not itself panic; stack and heap exhaustion and non-termination are excluded",
 "Absence of a panic is a statement about every input; the tests only run inputs that were chosen to work or to fail in one known way.",
 [D,M,T+"array.rs",T+"composite.rs",T+"tuple.rs",T+"variant.rs",T+"str.rs",T+"bit_sequence.rs",I,P],
 [("checked slicing (get, first) and slices computed from before/after lengths",T),("unwrap/expect guarded by remaining() checks",I)],
 ["process abort / unwinding out of any public decode call"])
p("C04","Each leaf value reaches the matching visitor callback exactly",
 "For a non-compact primitive, string or bit sequence, the one visitor callback that corresponds to the described type is invoked, exactly once, with the value SCALE prescribes for the leading bytes (little-endian, two's complement, 32 raw bytes for 256-bit integers, Unicode scalar for char) and with the type ID that was resolved. The visitor's answer is then returned unchanged.",
 IP,"all 15 primitive kinds, all values, all visitors",
 "Tests try one or two values per primitive; 2^128 values and every sign/width boundary are beyond sampling.",
 [D,M],[("Decoder::visit_primitive, visit_bit_sequence",D),("default visitor callbacks forward to visit_unexpected",M)],
 ["callback name, arguments and result seen by a recording Visitor"])
p("C05","Compact encoding reaches only unsigned integers, and exactly",
 "A compact type decodes exactly when following its inner type through any number of single-field composites, one-element tuples and nested compacts ends in an unsigned integer of at most 128 bits, and then the visitor sees the integer whose canonical compact encoding was read, at its own width. Any other inner type, including composites or tuples with zero or several fields, is rejected with the error saying that the type cannot be compact decoded.",
 IP,"all inner type graphs, all byte strings, all visitors",
 "Tests cover a handful of compact u8..u128 and two wrapper shapes; the wrapper nesting is unbounded and every non-integer kind must be refused.",
 [D,T+"composite.rs",T+"tuple.rs",I],
 [("is_compact flag threaded through Decoder, Composite and Tuple","is_compact in "+D+", "+T),("err_if_compact!, CannotDecodeCompactIntoType guards",D)],
 ["value or error of decode_with_visitor on a compact type","is_compact()/decode of fields inside it"])
p("C06","Sequences and arrays present exactly their items, in order",
 "A visitor that is given a sequence or an array can obtain exactly as many items as the length prefix (or the described length) says, in encoding order, each of the described item type; after that it gets none. The number of items reported as remaining is at every moment the number still obtainable, and an item whose visitor failed counts as used up.",
 ["inputs","programs","histories"],"all item types, all lengths, all byte strings, every interleaving of decoding, iterating, skipping and querying",
 "Tests iterate sequences of a few elements from start to end; arbitrary histories of partial decoding, failure and skipping are not sampled.",
 [T+"array.rs",T+"sequence.rs"],[("remaining counter decremented once per decode_item",T+"array.rs"),("compact u64 length prefix",T+"sequence.rs")],
 ["remaining(), is_empty(), decode_item, next, skip_decoding"],[("remaining","items not yet handed out",T+"array.rs")])
p("C07","Composites and tuples present their fields faithfully and in order",
 "A visitor given a composite or tuple obtains its fields in declaration order, each with its own name and type ID and decoded from its own bytes; names, path, counts and the next name reported agree with the type description and with what has been decoded so far. The number reported as remaining is always the number of fields still obtainable, a view of the remaining fields as a tuple yields exactly those, and after a field failed to decode no further field is handed out.",
 ["inputs","programs","histories"],"all field lists, all byte strings, every interleaving of decode, iterate, peek, skip and convert operations",
 "Tests walk fully through small composites; remaining counts mid-way, tuple views taken half-way and behaviour after a failing field are not exercised.",
 [T+"composite.rs",T+"tuple.rs"],[("next_field_idx and item_bytes cursors move only on success",T+"composite.rs"),("as_tuple",T+"composite.rs")],
 ["name(), path(), peek_name(), fields(), has_unnamed_fields(), remaining(), decode_item, next, as_tuple()"],
 [("next_field_idx","first field not yet decoded; fields.len() after a failure",T+"composite.rs, tuple.rs")])
p("C08","The variant is selected by index and by nothing else",
 "A variant type is decoded by reading one index byte and selecting the variant carrying that index: the visitor sees that variant's name, index and fields, and fields start right after the index byte. If no variant carries the index, decoding fails naming the index; if there is no byte, it fails for lack of input.",
 IP,"all variant lists (sparse, unordered, large indices), all byte strings",
 "Tests use enums whose indices are 0..n in order; sparse or permuted indices and absent ones need quantification over descriptions.",
 [T+"variant.rs",D],[("find by v.index == index",T+"variant.rs")],["name(), index(), fields(), VariantNotFound"])
p("C09","Deferred item views are equal to decoding in place",
 "Iterating a sequence, array, composite or tuple yields, for each item, a view holding exactly the bytes of that item's encoding and its type ID (and name, and whether it is compact); decoding the view later, any number of times, with any visitor or into any type, gives what decoding the item in place would have given. Iterating past an item moves on by exactly that item's bytes.",
 ["inputs","programs","histories"],"all containers including ones inside a compact, all item types, all visitors",
 "Tests decode field views in two places and never compare them with in-place decoding, nor look at a view inside a compact type.",
 [T+"array.rs",T+"sequence.rs",T+"composite.rs",T+"tuple.rs"],[("bytes computed from lengths before and after skipping the item",T),("is_compact copied into the view",T)],
 ["bytes(), type_id(), name(), is_compact(), decode_with_visitor, decode_as_type on items"])
p("C10","The visitor's own error is what the caller gets",
 "When the visitor returns an error from a callback, decoding returns that same error, even when the rest of the value turns out to be malformed while it is being skipped; when the visitor succeeds but the rest cannot be skipped, the skipping error is returned, and when both succeed the visitor's value is returned. The same priority holds when decoding from a list of fields.",
 IP,"all types, all byte strings, all visitors",
 "The combination failing visitor and malformed remainder does not occur in the tests.",
 [D,I,DV],[("skip_decoding_and_return!",D),("DecodeAsFields for tuples and derived structs",I)],["the Err value of decode_with_visitor, decode_as_type, decode_as_fields"])
p("C11","String and bit sequence views describe exactly their encoding",
 "A string view reports the byte length written in the length prefix, hands out the string iff the bytes following the prefix are present and valid UTF-8 (borrowing them unchanged, failing otherwise), and points after it iff those bytes are present. A bit sequence view decodes to exactly the encoded bits in the described store and order format and points to just after its last store element, whether or not it was decoded before.",
 IN,"all byte strings including invalid UTF-8, long prefixes and truncated data, all 8 bit formats",
 "Tests use short valid strings and six bit patterns; invalid UTF-8 and large length prefixes are not covered.",
 [T+"str.rs",T+"bit_sequence.rs"],[("compact u32 length, checked get",T+"str.rs"),("decoder.encoded_size()",T+"bit_sequence.rs")],
 ["len(), is_empty(), as_str(), bytes_after(), bytes_from_start(), decode()"])
p("C12","A visitor may take over decoding, and its decision is honoured",
 "Before anything is resolved or read, the visitor is offered the input, type ID and resolver: if it answers with a result, that result is returned and nothing else is read or called; if it declines, normal decoding of the type continues with the visitor it handed back, from wherever it left the input. The combinators on that answer transform only the case they name, and the adapter that converts visitor errors changes nothing but the error type.",
 IP,"all types, inputs and visitors, including ones that consume input before declining",
 "One test overrides the hook and always answers; declining after consuming, and nested occurrences, are not tested.",
 [D,M],[("unchecked_decode_as_type consulted first",D),("map_decoded, map_skipped, VisitorWithCrateError",M)],["calls and input position seen by a visitor overriding the hook"])
p("C13","Integers convert exactly or are refused as out of range",
 "Decoding any integer type into any built-in integer target (signed, unsigned, pointer sized, non-zero) yields the mathematically equal value whenever the target can represent it, and otherwise fails saying that the number, printed in decimal, is out of range. It never truncates, wraps or changes sign.",
 IN,"all pairs of 10 source widths and 22 target types, all values, compact or not",
 "Tests sample boundary values for some pairs; 220 pairs times up to 2^128 values need a proof.",
 [I],[("visit_number_impl! / visit_number_fn_impl!",I)],["T::decode_as_type for every integer T"])
p("C14","Single-field wrappers are transparent to built-in targets",
 "Decoding a type that is a composite or tuple with exactly one field into a primitive, string, bits, collection, fixed array, option, result or derived enum target gives exactly what decoding that field's type would give, at any nesting depth. A composite or tuple with any other number of fields is refused by those targets as an unexpected composite or tuple.",
 IC,"all nesting depths and mixtures of one-field composites and tuples, all targets listed",
 "Tests nest at most two wrappers around a few targets.",
 [I,DV],[("visit_single_field_composite_tuple_impls!",I),("visit_composite/visit_tuple of derived enums",DV)],["decode_as_type on wrapped types"])
p("C15","Options and results are matched by variant name and arity",
 "An option target accepts a variant named Some with one field (giving that field's value) or None with no field; a result target accepts Ok or Err with one field, giving that value on the matching side. Every other variant is refused with an error naming the variant found and the names accepted, independent of indices and of the order of variants.",
 IC,"all variant types and values, all payload targets",
 "Tests use only the standard definitions with the standard indices.",
 [I],[("visit_variant of the Option and Result visitors",I)],["Option::<T>/Result::<T,E>::decode_as_type"])
p("C16","Collections receive every item once and in order; arrays check length",
 "Decoding a sequence or array into a vector, deque, linked list, heap or ordered set yields all items, in order where the collection has one, and nothing else. A fixed-size array target succeeds exactly when the number of items equals its length and otherwise fails reporting both lengths; the first item that fails to decode makes the whole fail with that item's error at its index.",
 IN,"all lengths, all item types and values, all built-in collection targets",
 "Tests use collections of up to a handful of equal items.",
 [I],[("decode_items_using + collect",I),("array_method_impl!",I)],["Vec, VecDeque, LinkedList, BinaryHeap, BTreeSet, [T; N] ::decode_as_type"])
p("C17","Tuples match by position and arity",
 "Decoding a composite or tuple into a tuple target succeeds only if it has as many fields as the target, and then the i-th component is the i-th field decoded into the i-th component type; otherwise it fails reporting both counts. A one-element tuple target also accepts any type that is neither composite nor tuple and then holds that value decoded directly.",
 IC,"all arities 0 to 20, all field types, all byte strings",
 "Tests cover arities up to three and no mixed up positions of equal types.",
 [I],[("tuple_method_impl!, impl_decode_tuple!, decode_inner_type_when_one_tuple_entry!",I)],["(A,B,..)::decode_as_type"])
p("C18","Pointer and adapter targets decode as what they wrap",
 "Boxed, shared, borrowed-or-owned and compact-wrapped targets, fixed-width hashes, ranges and durations decode exactly as the type they wrap or are defined by (the inner value, a byte array, a pair of bounds, seconds and nanoseconds), accept and reject the same inputs in the same contexts including inside a compact type, and consume the same bytes. A pair that is no valid duration is an error.",
 IC,"all wrapped targets, all types and byte strings",
 "Tests wrap one integer or string per adapter, outside of compact contexts, and never with extreme values.",
 [I,P],[("impl_into_visitor_like!",I),("impl_visitor!",P)],["Box/Rc/Arc/Cow/Compact/Range/RangeInclusive/Duration/H* ::decode_as_type"])
p("C19","Derived structs take fields by name, or by position when unnamed",
 "A derived struct with named fields decodes from a composite whose fields are all named by looking each field up by name, in any order and ignoring extra ones, and fails naming the first missing field; from a tuple or a composite with an unnamed field it decodes by position and requires the same count, as do tuple-like and unit structs always. Fields marked as skipped take their default value and neither need nor consume an encoded field.",
 ["inputs","programs","configurations"],"all struct shapes, generics and skip attributes, all composite and tuple descriptions, all values",
 "The derive tests cover a few structs against their own type; permuted, extended, missing and mixed named/unnamed field lists are not.",
 [DV],[("generate_struct_impl, named_field_keyvals, unnamed_field_vals",DV)],["decode_as_type of derived structs"])
p("C20","Derived enums are matched by variant name",
 "A derived enum decodes the variant whose name equals that of the encoded variant, independent of index and order, with the named or positional field rules of structs applied to that variant's fields and skipped fields defaulted; a unit variant ignores any fields of the encoded one. An encoded variant whose name the enum lacks is refused with an error listing the name found and every name the enum has.",
 ["inputs","programs","configurations"],"all enum shapes and all variant descriptions and values",
 "The derive tests decode enums from their own type info with matching indices.",
 [DV],[("generate_enum_impl",DV)],["decode_as_type of derived enums"])
p("C21","Errors say exactly where decoding failed",
 "An error raised while decoding an item of a collection, a component of a tuple, a field of a struct, an entry of a map or the payload of an option or result carries a location for that step (the item's index, the field's name, the variant's name) in addition to all locations recorded inside it and the original cause, at every nesting level. Recorded locations are kept in the order in which they were added and displaying an error prints all of them.",
 IN,"all nested targets, all failing positions",
 "No test inspects the path beyond a single level.",
 [E+"mod.rs",E+"context.rs",I,DV],[("Error::at, at_idx, at_field, at_variant; Context::push",E),("map_err(|e| e.at_*) at every nested decode",I)],["Error::context().path(), Display"])
p("C22","Decoding from a field list equals decoding the composite",
 "Decoding a tuple or a derived struct from a bare list of fields gives the same value or the same error as decoding a composite type having those fields, and on success advances the input past all of the fields, used or not.",
 IC,"all field lists, targets and byte strings",
 "Tests compare the two for three types.",
 [I,DV,L],[("decode_as_fields for tuples and derived structs",I+", "+DV)],["DecodeAsFields::decode_as_fields"])
p("C23","String-keyed maps hold exactly the named fields",
 "Decoding a composite into a string-keyed map gives one entry per named field, the value being that field's value (the last one if a name repeats); unnamed fields are skipped over, and nothing else is in the map. A field that fails to decode makes the whole fail with that field's name as location.",
 IN,"all field lists, named and unnamed mixed, all byte strings",
 "The tests decode one map from one struct.",
 [I],[("BTreeMap<String, T> visitor",I)],["BTreeMap::<String, T>::decode_as_type"])
p("C24","Unresolvable types are reported, never guessed",
 "If a type ID needed for decoding is unknown, is reported as not handled, or the resolver itself fails, decoding fails with an error that carries the type ID or the resolver's message, no visitor callback is made for it and the input is not advanced. This holds at the top level and for every nested type that is actually reached.",
 ["inputs","fault_sequences"],"all resolvers, all failing positions in the type graph, all visitors",
 "Tests use registries that resolve everything.",
 [D],[("visit_not_found, visit_unhandled and the TypeResolvingError arm",D)],["Err value, input position and callbacks when a resolver fails"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in ps: 
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
print(len(ps))
