"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe.split(", "),"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="binobj/fields/base.py"; S="binobj/structures.py"; V="binobj/varints.py"; N="binobj/fields/numeric.py"; T="binobj/fields/stringlike.py"; C="binobj/fields/containers.py"; D="binobj/pep526.py"; H="binobj/helpers.py"

prop("C01","Variable-length integers survive a round trip and consume only their own bytes",
 "For each of the four variable-length integer encodings and every integer the encoding can represent, decoding the encoded bytes gives back the same integer and leaves the stream directly after the last encoded byte, whatever data follows. The two unsigned encodings refuse every negative integer instead of encoding something else.",
 ["inputs"],"all integers of any magnitude, all four encodings, all trailing data",
 "The integers are unbounded and the encoders loop once per 7-bit group; the tests sample a few dozen small constants.",
 [V,N],[("the encode_integer_*/decode_integer_* pairs","binobj/varints.py"),("read_int","binobj/helpers.py"),("VariableLengthInteger._do_dump/_do_load","binobj/fields/numeric.py")],
 "encoder results, decoder results and stream position")
prop("C02","Variable-length integer bytes follow the published wire formats",
 "Encoded variable-length integers consist of 7-bit groups, one per byte, with the continuation bit set on every byte except the last: most significant group first for VLQ and compact indices, least significant first for ULEB128 and LEB128, with bit 6 of the first byte as the sign for compact indices and two's-complement sign extension for LEB128; VLQ, ULEB128 and compact indices use the fewest bytes possible. Decoding any byte sequence of that form gives the integer it denotes even if it is padded with redundant groups, and a sequence that ends before a byte without continuation bit is reported as unexpected end of data. A variable-length integer field with a maximum width refuses to write any integer whose encoding is longer than that.",
 ["inputs"],"all integers and all byte sequences of any length",
 "Byte sequences and integers are unbounded; the tests compare a handful of fixed pairs and only canonical encodings.",
 [V,H,N],[("the encode_integer_*/decode_integer_* functions","binobj/varints.py"),("read_int","binobj/helpers.py"),("VariableLengthInteger.max_bytes","binobj/fields/numeric.py")],
 "encoded bytes, decoded integer, exception class")
prop("C03","Fixed-width integers are exact two's-complement bytes or are refused",
 "A fixed-width integer field of n bytes writes exactly the n-byte two's-complement (or, if unsigned, plain binary) representation of the value in the field's byte order, for every value in range, and loading n bytes gives back the value they represent. A value outside the range of the field is refused as unserializable and nothing is written to the stream. Loading reads exactly n bytes.",
 ["inputs","configurations"],"all integers, all sizes n >= 1, both byte orders, signed and unsigned",
 "The tests cover a few widths and values; the range check has boundaries at every width and signedness.",
 [N,H,B],[("Integer._do_load/_do_dump","binobj/fields/numeric.py"),("read_int/write_int","binobj/helpers.py"),("Field.to_stream","binobj/fields/base.py")],
 "bytes written, value loaded, exception class, output stream untouched on refusal")
prop("C04","A sized field writes exactly its size in bytes or refuses and writes nothing",
 "Whenever a field whose size is a constant or given by another field's value writes a non-null value, it writes exactly that many bytes. If the serialized value is longer, or shorter for a field type without configured padding, the dump is refused with a size error and nothing is written to the output stream; strings with a pad byte are filled up at the end with exactly that byte.",
 ["inputs","configurations"],"all values, all sizes (constant or by reference), all pad bytes and text encodings",
 "Sizes, encodings and values combine freely, and shortness, excess and padding are decided in three different places; tests fix one combination each.",
 [B,T],[("Field.to_stream","binobj/fields/base.py"),("Field.get_expected_size","binobj/fields/base.py"),("String._encode_and_resize/_add_padding","binobj/fields/stringlike.py"),("Bytes._do_dump","binobj/fields/stringlike.py")],
 "bytes appended to the output stream, exception class")
prop("C05","Truncated data is always reported, never turned into a value",
 "If the input ends before a field has received all bytes it needs, loading it raises the unexpected-end-of-file error; a shortened, padded or default value is never returned instead. This holds for every built-in field type that has a definite extent: integers, variable-length integers, floats, timestamps, UUIDs, byte strings, sized strings, null-terminated strings, counted arrays and nested structures.",
 ["inputs"],"all proper prefixes of all serialized values, for all field types and sizes",
 "Every prefix of every serialization of every field type is a case; the tests try single truncations for some of the types.",
 [B,H,T,C,N],[("Field._read_exact_size","binobj/fields/base.py"),("read_int","binobj/helpers.py"),("UUID4._do_load","binobj/fields/stringlike.py"),("StringZ._do_load","binobj/fields/stringlike.py"),("Array._do_load","binobj/fields/containers.py")],
 "exception class raised by loading a truncated input")
prop("C06","Null values load and dump through their configured representation only",
 "When a field has a null representation, dumping None writes exactly that representation, and loading returns None, having consumed exactly the representation, if the input continues with it; if it does not, the bytes looked at are not consumed and the value is loaded as usual. A field without null representation refuses to dump None and never loads None from data. A null representation given as a value is the serialized form of that value; one left to the default is zero bytes filling the field's size, and is refused if that size is not known.",
 ["inputs","configurations"],"all inputs, all null representations (bytes, values, default), all field types",
 "Whether the look-ahead is undone matters only for particular lengths and positions of the representation relative to the remaining data; the tests use one or two layouts.",
 [B,H],[("Field.from_stream","binobj/fields/base.py"),("Field._get_null_repr","binobj/fields/base.py"),("peek_bytes","binobj/helpers.py"),("Field.to_stream","binobj/fields/base.py")],
 "value loaded, stream position after loading, bytes written for None")
prop("C07","Dumped values are resolved in a fixed order of precedence",
 "For every field of a structure the value written is the one set explicitly; if none is set it is the field's default (or the result of its factory); if there is none it is the computed value; and if there is none either, dumping fails with the missing-value error naming the field. A field whose presence condition, given the values and context of the dump, is false, or whose value is the not-present marker, writes nothing at all. Dumping does not change the structure.",
 ["inputs","configurations","programs"],"all combinations of explicit, default, factory, computed and conditional fields, all contexts",
 "The combinations of sources, conditions and contexts across several fields are many; the tests check the sources one at a time, without context.",
 [B,S],[("Field.compute_value_for_dump","binobj/fields/base.py"),("Struct.to_stream","binobj/structures.py"),("Struct.to_dict","binobj/structures.py")],
 "bytes produced for a structure, exception and its field, structure before and after")
prop("C08","An absent optional field consumes no input and loads as its stand-in value",
 "When the presence condition of a field is false for the values loaded so far, the context and the stream, loading that field reads nothing, runs none of its validators and yields exactly its configured not-present value (the not-present marker unless configured otherwise). The condition is evaluated before anything of the field is read, with all fields loaded before it available and with the context given to the load. When the condition is true the field is loaded as if it had no condition.",
 ["inputs","configurations"],"all conditions, inputs, contexts and positions of conditional fields",
 "Conditions are arbitrary functions of earlier data; the tests use one flag byte.",
 [B,S],[("Field.from_stream","binobj/fields/base.py"),("Struct.from_stream","binobj/structures.py")],
 "value and stream position after loading, calls made to the condition and the validators")
prop("C09","No value that fails a validator is loaded, assigned or written",
 "Loading a field, assigning to it, and dumping it each call every validator of the field object with the value concerned (None included), and if one fails no value is returned, stored or written. Loading or dumping a whole structure additionally calls every validator method for each of its present fields and every validator of the structure, including the inherited ones, before the loaded structure is returned or the first byte is written.",
 ["inputs","histories"],"all values, any number of validators of every kind, all inheritance depths",
 "That each validator runs, for every field and entry point, is a statement about lists of arbitrary length; the tests use one or two validators.",
 [B,S,"binobj/decorators.py"],[("Field.from_stream/to_stream/__set__","binobj/fields/base.py"),("Struct.validate_contents","binobj/structures.py"),("Struct.from_stream/to_stream","binobj/structures.py"),("bind_validators_to_struct","binobj/structures.py")],
 "validator calls, exceptions, stored values and output stream after a failure")
prop("C10","Constant fields accept and produce only their constant",
 "Loading a field with a constant raises a validation error for every input that decodes to anything other than the constant. A structure that was not given another value for the field dumps the constant, the field takes the size of the constant unless a size is given, and assigning to the field on a structure, like assigning to a computed field, is refused and leaves the structure unchanged.",
 ["inputs","configurations"],"all constants and all inputs, for all field types",
 "Tests use single constants; the comparison has to be exact for every loaded value, including null and falsy ones.",
 [B],[("Field.__init__","binobj/fields/base.py"),("Field.from_stream","binobj/fields/base.py"),("Field.__set__","binobj/fields/base.py")],
 "exceptions on load and assignment, bytes dumped, reported size")
prop("C11","A structure is its fields' serializations in declaration order, and loads back",
 "Dumping a structure produces exactly the concatenation of what each of its present fields produces for its value, in order of declaration with inherited fields first, each field being given the values of all fields and the context. Loading does the reverse: each field is loaded in the same order from where the previous one ended and with the values loaded so far and the context, values given to override loaded ones win, fields marked to be discarded are removed at the end, and loading the dump of a structure gives a structure with the values that were dumped (discarded fields excepted).",
 ["inputs","programs"],"all structures with any number of fields, all values, all contexts",
 "The number, order and types of fields are arbitrary; the tests exercise a fixed set of structures.",
 [S],[("Struct.to_stream","binobj/structures.py"),("Struct.from_stream","binobj/structures.py"),("StructMetadata.components","binobj/structures.py")],
 "bytes produced, structure loaded, arguments passed to fields")
prop("C12","Reading a single field gives the full load's value and does not move the stream",
 "Reading one non-discarded field of a structure from a stream returns the same value as loading the whole structure there and looking up that field, whether or not the field has a fixed offset, is optional or depends on earlier fields that are not discarded. The stream is left at its original position, also if reading fails, wherever in the stream the structure starts.",
 ["inputs","programs"],"all structures, all fields in them, all data and starting positions",
 "It relates two independent code paths for every combination of preceding fields; the tests check a few fields at position zero or in fixed layouts.",
 [S,B],[("Struct.get_field","binobj/structures.py"),("Struct.partial_load","binobj/structures.py"),("Field.offset","binobj/fields/base.py"),("collect_assigned_fields","binobj/structures.py")],
 "value returned, stream position before and after")
prop("C13","Partial loads and dumps handle exactly a prefix of the fields",
 "Partially loading a structure up to a named field gives the same values for that field and all before it as a full load (no field may depend on a discarded one) and stops directly after it, raising the end-of-file error if the data ends earlier; without a name it loads as many complete fields as the data contains and leaves the stream directly after the last of them. Partially dumping writes exactly the first part of the full dump, up to and including the named field or, without a name, up to the first field for which there is no value.",
 ["inputs","programs"],"all structures, all stopping points, all truncations of the data",
 "Every truncation point and stopping field of every structure is a case; the tests use one structure.",
 [S],[("Struct.partial_load","binobj/structures.py"),("Struct.partial_dump","binobj/structures.py")],
 "loaded values, stream position, bytes written, exception class")
prop("C14","Exact loading accepts the data only if all of it was consumed",
 "Loading a field or a structure from a byte string in exact mode, the default, succeeds only if every byte of it was consumed, and otherwise raises the extraneous-data error even for a single leftover byte. In non-exact mode leftover bytes are ignored and the result is the same as without them.",
 ["inputs"],"all byte strings and all lengths of surplus data",
 "The boundary is at one surplus byte for every possible length; the tests append several bytes.",
 [S,B],[("Struct.from_bytes","binobj/structures.py"),("Field.from_bytes","binobj/fields/base.py")],
 "result or exception of loading from bytes")
prop("C15","Reported sizes and offsets agree with the bytes produced",
 "The length of a structure instance equals the number of bytes it dumps without context, whenever it can be dumped and its null values fill their fields. The size reported for a structure class, if there is one, is the length of every dump of it, and the offset recorded for a field, if there is one, is where that field starts in every dump.",
 ["inputs","programs"],"all structures, including optional, nested, array and referenced-size fields, and all values",
 "Sizes are computed by code separate from the code that dumps, for arbitrary combinations of fields; the tests compare constants for a few structures.",
 [S,B,C],[("Struct.__len__","binobj/structures.py"),("StructMetadata.get_size","binobj/structures.py"),("Field.get_expected_size","binobj/fields/base.py"),("collect_assigned_fields","binobj/structures.py"),("Array.__init__/Nested.__init__","binobj/fields/containers.py")],
 "len() of instances, class sizes, offsets, dumped bytes")
prop("C16","Arrays contain exactly the announced number of elements, in order",
 "Dumping an array writes its elements in order and, if the array has a count (a constant or the value of another field), succeeds only if there are exactly that many, whether the values come from a sequence or from an iterator; otherwise the array-size error is raised. Loading an array with a count reads exactly that many elements, in order, and without a count and with the default stopping rule reads elements until the end of the data; a custom stopping rule is consulted before each element.",
 ["inputs","configurations"],"all element counts and values, both kinds of count, sequences and iterators",
 "Counts are unbounded and the sequence and iterator paths differ; off-by-one errors show only at particular lengths.",
 [C],[("Array._do_dump/_dump_unsized","binobj/fields/containers.py"),("Array._do_load/should_halt","binobj/fields/containers.py"),("Array.get_final_element_count","binobj/fields/containers.py")],
 "bytes written, list loaded, stream position, exception class")
prop("C17","Subclassing a structure extends it and leaves the parent untouched",
 "A structure class has its parent's fields first, then its own in order of declaration, numbered consecutively, with offsets that continue from the end of the parent as long as all preceding sizes are fixed. Defining subclasses, with fields or validators of their own or for inherited fields, never changes what the parent class or a sibling loads, dumps or validates. Redefining an inherited field or inheriting from two structures is refused.",
 ["programs","histories"],"all class hierarchies, declaration orders and orders of definition",
 "Hierarchies are arbitrary; the tests define one subclass per situation and rarely look at the parent afterwards.",
 [S],[("StructMetadata.from_class","binobj/structures.py"),("collect_assigned_fields","binobj/structures.py"),("bind_validators_to_struct","binobj/structures.py")],
 "field order, indices and offsets, behaviour of parent and sibling classes")
prop("C18","Annotation-style declarations behave like assignment-style declarations",
 "A structure declared with type annotations and the dataclass decorator has the same fields in the same order, with the same indices and offsets, defaults, nullability and validators, and dumps and loads the same bytes, as the structure with the corresponding fields assigned in the class body, also when it inherits from another structure. Annotations that are not fields are ignored, and mixing both styles in one class, several field annotations for one name, or no field at all is refused.",
 ["programs","inputs"],"all field types, annotation forms (class, instance, optional, annotated, structure) and hierarchies",
 "It compares two ways of declaring every possible structure; the tests check individual declarations.",
 [D,S],[("dataclass","binobj/pep526.py"),("AnnotationInfo.from_annotation/make_field_instance","binobj/pep526.py"),("bind_validators_to_struct","binobj/structures.py")],
 "field attributes and bytes of equivalent classes")
prop("C19","Structure-wide argument defaults apply exactly where nothing explicit is given",
 "For integer fields, whose byte order can be set for a whole structure, the byte order used is the one given to the field explicitly; otherwise the structure's default for exactly that field type; otherwise the structure's general default; otherwise the machine's. Defaults affect only the fields declared in that structure class, not those of its parents.",
 ["configurations","programs"],"all combinations of explicit arguments, type-specific and general defaults, field types and inheritance",
 "Precedence has to hold for every combination of sources and field type; the tests check three.",
 [B,S],[("Field.bind_to_container","binobj/fields/base.py"),("Field.__new__","binobj/fields/base.py"),("StructMetadata.load_meta_options","binobj/structures.py")],
 "bytes dumped and values loaded by the fields")
prop("C20","Nested and union fields delegate to the chosen structure or field unchanged",
 "A nested-structure field dumps exactly the bytes its structure dumps, whether given an instance or a mapping, and loads exactly what its structure loads, passing on the context. A union field consults its decider once per load or dump with the data or stream, its choices, the context and the field values, and then dumps (non-null values) and loads exactly what the chosen structure or field would; a choice that is neither, or a non-mapping for a structure, is refused.",
 ["inputs","programs"],"all nested structures, values, contexts and decider functions",
 "Deciders, structures and values are arbitrary; the tests use two structures and one decider.",
 [C],[("Nested._do_dump/_do_load","binobj/fields/containers.py"),("Union._do_dump/_do_load","binobj/fields/containers.py")],
 "bytes dumped, values loaded, decider and context arguments")
prop("C21","Floats, timestamps, UUIDs and byte strings round-trip in their declared format",
 "Every value that a float, timestamp, UUID, or byte-string field can represent loads back equal after being dumped, and dumping a loaded value reproduces the bytes: IEEE 754 in the declared byte order, integer offsets from the epoch in the declared resolution, width and signedness (anything finer truncated toward zero), and the declared UUID layout. Values that do not fit are refused with a serialization error, with nothing written.",
 ["inputs","configurations"],"all values, resolutions, time zones, widths, byte orders and UUID layouts",
 "Precision loss appears only for particular values at particular resolutions; the tests use a few round values.",
 [N,T],[("Float._do_load/_do_dump","binobj/fields/numeric.py"),("Timestamp._do_load/_do_dump","binobj/fields/numeric.py"),("UUID4._do_load/_do_dump","binobj/fields/stringlike.py"),("Bytes._do_load/_do_dump","binobj/fields/stringlike.py")],
 "bytes dumped, values loaded, exception class")
prop("C22","Strings round-trip in their encoding, with exact termination and size",
 "A sized string loads as the text its bytes encode in the declared encoding, padding included. A null-terminated string is written as its encoded text followed by one encoded null character, and is loaded up to and including the first null character without reading further, for single-byte and multi-byte encodings alike; if a size is set, the terminator has to be within that many bytes and what follows it in them is skipped, so that exactly the size is consumed; a missing terminator is an error. Text without null characters therefore survives a round trip.",
 ["inputs","configurations"],"all texts, encodings, sizes and data following the string",
 "Multi-byte encodings contain zero bytes inside characters and the size limit interacts with the terminator; the tests use a few short strings.",
 [T,H],[("StringZ._do_load/_do_dump","binobj/fields/stringlike.py"),("String._do_load/_do_dump","binobj/fields/stringlike.py"),("iter_bytes","binobj/helpers.py")],
 "text loaded, stream position, bytes written, exception class")
prop("C23","A structure is a faithful mapping of its values",
 "A structure accepts values only for its own fields and refuses others; item and attribute access agree, deleting a field makes it unset, iteration yields exactly the fields with set values, and access to an unknown name is refused. Converting to a dictionary gives exactly the values that a dump would use, with nested structures converted too and discarded fields left out unless asked for, and two structures are equal exactly if their set values are. None of these queries changes the structure.",
 ["inputs","histories"],"all sequences of assignments, deletions and queries on all structures",
 "The state after arbitrary sequences of operations matters; the tests perform single operations.",
 [S,B],[("Struct.__getitem__/__setitem__/__delitem__/__iter__/__eq__","binobj/structures.py"),("Struct.to_dict/_to_dict_whatever_possible","binobj/structures.py"),("Field.__get__/__set__","binobj/fields/base.py"),("recursive_to_dicts","binobj/structures.py")],
 "results of mapping operations, equality and dictionaries")
prop("C24","Optional, computed and dependent sizes resolve from the values of other fields",
 "A field whose size refers to another field, directly or by name, uses that field's value from the same load or dump as its size in bytes, for reading and writing alike. If that value is not available the missing-value error names the field it depends on, and if it is not an integer a type error is raised; no other size is silently assumed.",
 ["inputs","configurations"],"all referenced fields, values and orders of dependent fields",
 "The referenced value can come from loaded data, assignment, default or computation; the tests check a few of these.",
 [B],[("Field.get_expected_size","binobj/fields/base.py"),("Field._read_exact_size","binobj/fields/base.py")],
 "bytes read and written, exception class")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
