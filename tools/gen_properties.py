#!/usr/bin/env python3
"""Source of properties.jsonl (kept in one readable place; run to regenerate)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
B = "binobj/fields/base.py"; S = "binobj/structures.py"; N = "binobj/fields/numeric.py"
G = "binobj/fields/stringlike.py"; K = "binobj/fields/containers.py"; V = "binobj/varints.py"
H = "binobj/helpers.py"; P = "binobj/pep526.py"; E = "binobj/errors.py"; D = "binobj/decorators.py"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Validators see every value before it is stored, returned or written",
  "Every value that is assigned to a field attribute, produced by loading a field, or serialized by a field is first passed, in exactly the form in which it is stored, returned or serialized (None included), to every validator attached to that field. Loading or dumping a whole struct also runs, for every field that is present, the field's own validators and every validator method declared for it, and then every struct-level validator, inherited ones included. A validator that raises prevents the store, the return or the write, and its exception is not swallowed.",
  ["inputs", "programs"], "all field types, all values, all validator sets (any number, attached in any supported way, inherited or not), all public load/dump/assign entry points",
  "Tests sample a few fields with one or two validators; skipping validation on one branch (None, defaults, nested values, inherited validators) is invisible to them.",
  [B, S, D, P], [("validator loops in Field.from_stream/to_stream/__set__", B), ("Struct.validate_contents and its callers", S), ("bind_validators_to_struct / field_validators copy", S)],
  ["Field.from_stream", "Field.to_stream", "Field.__set__", "Struct.validate_contents", "Struct.from_stream", "Struct.to_stream"])
p("C02", "Constant and computed fields cannot take any other value",
  "Loading a constant field yields exactly its constant (or None, where the field is nullable and the null marker is found) and raises ValidationError when the data holds any other value. Assigning to a constant or computed field always raises ImmutableFieldError and leaves the struct unchanged. A compute function can be attached at most once and never to a constant field.",
  ["inputs", "programs"], "every field with const or a compute function, every value loaded or assigned",
  "The tests try one wrong constant; they cannot show there is no path (null handling, falsy constants, other entry points) that bypasses the comparison.",
  [B], [("const comparison in Field.from_stream / to_stream", B), ("guard in Field.__set__ and Field.computes", B)], ["Field.from_stream", "Field.to_stream", "Field.__set__", "Field.computes"])
p("C03", "The presence predicate alone decides whether a field is in the data",
  "When a field's presence predicate says no, loading consumes no bytes, runs no validators and produces the field's not-present value, and dumping the struct writes nothing for that field even if a value is set. When it says yes, the field is loaded or dumped normally. The predicate is consulted on every load and on every struct dump, always with exactly three arguments: the sibling values, the context, and the stream (None when dumping).",
  ["inputs", "programs", "configurations"], "every optional field, predicate outcome, explicitly set or unset value, load and dump",
  "Tests exercise a couple of optional fields; the guarantee is about every path through load and dump, with and without explicit values.",
  [B, S, K], [("present() gate at the top of Field.from_stream", B), ("NOT_PRESENT result of compute_value_for_dump", B), ("NOT_PRESENT skip in Struct.to_stream/partial_dump/validate_contents, Array loading", S)],
  ["Field.from_stream", "Field.compute_value_for_dump", "Struct.to_stream", "Struct.validate_contents"])
p("C04", "None is accepted, recognised and written only as the declared null value",
  "A field without a null value refuses to serialize None with UnserializableValueError and writes nothing; a nullable field writes exactly its null representation. When loading, null detection compares the upcoming bytes with that same representation, consumes exactly those bytes on a match and consumes none otherwise, and a field without a null value never performs it. A null marker whose bytes cannot be determined is reported as CannotDetermineNullError only for the DEFAULT marker.",
  ["inputs", "configurations"], "every field type, every null_value setting (absent, DEFAULT, None, bytes, deserialized value), every stream content",
  "Null handling has five configurations times load/dump times sized/unsized; tests cover some combinations with fixed bytes.",
  [B, H], [("_get_null_repr", B), ("allow_null branch in Field.from_stream", B), ("None branch of Field.to_stream", B), ("peek_bytes", H)], ["Field.from_stream", "Field.to_stream"])
p("C05", "A sized field writes exactly its size, in one piece, or raises",
  "When a field has a declared size (a constant or a reference to another field), serializing a non-null value either writes exactly that many bytes or raises an error. Nothing reaches the output stream until the field's complete serialized form has passed the size check. Values that are too long are never truncated, and values that are too short are never extended except by a string's configured pad byte.",
  ["inputs", "configurations"], "every field type and size specification, every value length",
  "Tests check a few lengths per field type; truncation or silent padding on another path would corrupt every later field offset.",
  [B, G], [("size check in Field.to_stream", B), ("_add_padding / _encode_and_resize / Bytes._do_dump", G)], ["Field.to_stream", "String", "Bytes"])
p("C06", "Truncated input is always detected",
  "Whenever a load needs a number of bytes and the stream supplies fewer, the load raises UnexpectedEOFError (a DeserializationError); no field type ever builds a value from a short read. The bytes used to build a fixed-size or referenced-size value are exactly the number requested: a negative length is rejected rather than reading the rest of the stream.",
  ["inputs", "fault_sequences"], "every field type, every truncation point of every input",
  "Tests truncate a few inputs; there are as many truncation points as bytes and read sites.",
  [B, H, G, N, V], [("_read_exact_size", B), ("read_int", H), ("UUID4._do_load, StringZ._do_load", G)], ["every stream.read call site"])
p("C07", "Exact loading never ignores trailing bytes",
  "Loading from a byte string with exact=True (the default), for a struct or for a single field, raises ExtraneousDataError if even one byte is left over, and never raises it when the input was consumed completely. With exact=False trailing bytes are ignored and the loaded value is returned.",
  ["inputs"], "every input length relative to the consumed length",
  "Boundary property: tests use inputs with many extra bytes.", [S, B], [("exact check in Struct.from_bytes", S), ("exact check in Field.from_bytes", B)], ["Struct.from_bytes", "Field.from_bytes"])
p("C08", "Look-ahead never moves the stream",
  "Operations that only look (peeking bytes, testing an unbounded array for end of data, reading a single named field out of a struct) leave the stream position where it was before the call, whether they succeed or raise. A partial load that runs out of data without a required last field leaves the stream at the start of the first field that was not completely read.",
  ["inputs", "fault_sequences"], "every stream content and start offset, success and failure of every read in between",
  "Tests check a couple of success cases from offset 0; failures inside the look-ahead are not injected.", [S, H, K], [("try/finally seek in peek_bytes", H), ("try/finally in Array.should_halt", K), ("Struct.get_field, partial_load rewind", S)], ["peek_bytes", "Array.should_halt", "Struct.get_field", "Struct.partial_load"])
p("C09", "The caller's context reaches every callback and nested element unchanged",
  "The context object given to a load, dump, partial load, partial dump or single-field read is the very object received by every nested field, struct, array element and union member and by every context-taking callback (presence predicates, halt checks, union deciders) invoked on behalf of that call. The one exception is rendering a field's null marker, which does not depend on the context.",
  ["programs", "inputs"], "all nestings of structs, arrays and unions, all entry points",
  "Tests pass a context through one or two levels; a dropped or replaced context at another hop is invisible.", [S, B, K], [("context parameters in structures.py, base.py and containers.py", "binobj/")], ["every call taking a context"])
p("C10", "Every field sees the sibling values already known",
  "While a struct is loading, each field (and the predicates, halt checks, counts, sizes and deciders run for it, also through arrays and unions) receives a mapping holding every earlier field's value; while a struct is dumping, fully or partially, each receives a mapping of all the struct's values. Called without such a mapping, a field uses an empty one, never None.",
  ["programs", "inputs"], "all struct layouts with size/count/presence references, all entry points",
  "Tests use a handful of layouts; each call hop could drop the mapping for one entry point only.", [S, B, K], [("loaded_fields / all_fields threading", "binobj/")], ["Struct.from_stream", "Struct.partial_load", "Struct.to_stream", "Struct.partial_dump", "Array", "Union"])
p("C11", "Fields are processed in declaration order, each exactly once",
  "Loading and dumping a struct process every field exactly once, in declaration order with inherited fields first. Partial loading and partial dumping process the same sequence and stop immediately after the named last field (included) or, if none is named, at the first field that cannot be processed because data or a value is missing; partial_load rejects an unknown last field with ValueError.",
  ["programs", "inputs"], "every struct class, every choice of last field", "Tests use small structs, in which reordering or skipping under a special condition does not show.", [S, P], [("components dict built by from_class / dataclass", S), ("loops over components", S)], ["Struct.from_stream", "Struct.to_stream", "Struct.partial_load", "Struct.partial_dump"])
p("C12", "Discard only hides a field from loaded results, never from the data",
  "A discardable field is read and validated like any other when loading and is then removed from the loaded struct; it is omitted from a partial load result and from dictionaries unless they are requested with discardable fields kept. When dumping, its value is written like any other field's.",
  ["inputs", "programs"], "every struct with discardable fields, every value set for them", "Tests only use constant discardable fields.", [S], [("discard handling in from_stream/partial_load/to_dict/to_stream", S)], ["Struct.from_stream", "Struct.to_dict", "Struct.to_stream"])
p("C13", "Failures surface as the documented library errors, never silently",
  "Bytes that cannot be decoded and values that cannot be encoded by a built-in field are reported through the library's DeserializationError or SerializationError families, not as bare codec, struct, arithmetic or lookup errors; an error raised while a field is loading carries that field. No exception handler in the library discards an exception other than the documented ones (end of data in a partial load, undeterminable sizes, missing values while collecting a best-effort dictionary).",
  ["inputs"], "every malformed input and unrepresentable value, every built-in field type", "The set of malformed inputs is unbounded; tests try one or two per type.", [N, G, B, S, E], [("except clauses around conversions in _do_load/_do_dump", N), ("field attribution in Field.from_stream", B)], ["_do_load", "_do_dump"])
p("C14", "Every advertised option value is implemented, everything else is rejected",
  "Each variable-length integer encoding, UUID storage format, timestamp resolution and float byte order that the library defines is accepted by the corresponding field and has both a loader and a dumper of its own. Any other value for these options, an invalid pad byte, an invalid array count, a field class in place of a union member, or default together with factory, is rejected with an error when the field is constructed.",
  ["configurations"], "every member of every option set, every non-member", "Adding a member or editing one branch can leave a combination unhandled that no test constructs.", [V, G, N, K, B], [("INTEGER_ENCODING_MAP", V), ("UUID4.__init__/_do_load/_do_dump branches", G), ("Timestamp/Float/Array/String/Union/Field constructors", N)], ["constructors"])
p("C15", "Loading and dumping use the same format parameters",
  "For every built-in field type, the byte order, signedness, width, text encoding, float format, UUID layout, time unit and variable-length codec used for dumping are those configured on the field and are the same ones used for loading. The layout used for one option value is never the one of another.",
  ["configurations", "inputs"], "every configuration of every built-in numeric and string field", "The tests' sample values are often symmetric or use one configuration, so a mismatch limited to one option can pass.", [N, G, H, V], [("_do_load/_do_dump pairs", N), ("read_int/write_int", H), ("INTEGER_ENCODING_MAP pairs", V)], ["_do_load", "_do_dump"])
p("C16", "Names that are not fields are always refused",
  "Constructing a struct with a keyword that is not one of its fields raises UnexpectedValueError naming exactly the offending keywords, also where a nested field or union builds the struct from a mapping. Reading, writing or deleting an item by a name that is not a field raises KeyError and changes nothing, and requesting a single field by an unknown name raises ValueError before touching the stream.",
  ["inputs"], "every struct class and every key", "Infinite key space; tests try one bad key.", [S], [("Struct.__init__", S), ("__getitem__/__setitem__/__delitem__/get_field guards", S)], ["Struct.__init__", "Struct.__getitem__", "Struct.__setitem__", "Struct.__delitem__", "Struct.get_field"])
p("C17", "Defining a struct class never alters another struct class",
  "Creating a struct subclass leaves the parent's fields, validators, options and metadata exactly as they were: the child's containers are copies, and inherited field objects keep the name, index, offset and owning class they had. Redefining an inherited field (in either declaration style) raises FieldRedefinedError and inheriting from more than one struct raises MultipleInheritanceError.",
  ["programs", "histories"], "all class hierarchies and definition orders", "Leaks between sibling classes only show for particular hierarchies and orders of definition.", [S, P, D], [("StructMetadata.from_class copies", S), ("__init_subclass__", S), ("redefinition checks", S)], ["Struct.__init_subclass__", "binobj.dataclass"])
p("C18", "A field's published index and offset describe the real layout",
  "A field's index is its position in the struct, and its offset is the sum of the sizes of the fields before it, parent fields included; the offset is None as soon as any earlier field has no fixed size or may be absent. Reading one field out of a stream uses that offset relative to the current position, or reads all preceding fields when there is none.",
  ["programs"], "all struct layouts, both declaration styles, with inheritance", "Layouts with optional or variable fields in unusual places are not in the tests.", [S, P, B], [("collect_assigned_fields", S), ("dataclass()", P), ("bind_to_container", B), ("get_field fast path", S)], ["Field.offset", "Field.index", "Struct.get_field"])
p("C19", "Struct-level argument defaults fill only what was not given explicitly",
  "For every option a field type allows to be defaulted, an explicit constructor argument always wins, then the struct's default qualified by the field's own class name, then the unqualified default, and otherwise the field's own default stays. Options are inherited from the parent struct's Meta, and no other attribute of the field is touched.",
  ["configurations", "programs"], "all combinations of explicit/typed/generic defaults for every overrideable option", "Eight combinations per option and type; tests try two.", [B, S, N, G], [("bind_to_container precedence", B), ("__explicit_init_args__ in Field.__new__", B), ("load_meta_options", S)], ["bind_to_container"])
p("C20", "The value dumped for a field follows a fixed precedence",
  "For a present field the value dumped is the one explicitly set; failing that its default, default factory result or constant; failing that its computed value; and failing all of these MissingRequiredValueError is raised. Reading the attribute of a struct follows the same precedence, and the library's undefined marker is never serialized.",
  ["inputs", "configurations"], "every combination of set/unset value, default, factory, const and compute function", "Combination space; tests check single features in isolation.", [B, S], [("compute_value_for_dump", B), ("Field.default", B), ("Field.__get__", B)], ["Field.compute_value_for_dump", "Field.__get__", "Field.to_stream"])
p("C21", "Loading, dumping and inspecting leave no hidden state behind",
  "A field object holds configuration only: no load, dump, size or value computation stores anything on the field, its class or a module, so one operation never influences another. Dumping, sizing, comparing, iterating, converting to a dictionary, printing and validating a struct do not change the struct's values, and loading never modifies the caller's keyword overrides.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of operations on shared field objects and structs", "A leak between two operations needs a specific sequence of operations on one shared field.", ["binobj/"], [("absence of attribute writes outside construction/binding", "binobj/fields/"), ("deepcopy of init_kwargs", S)], ["every method reachable from load/dump/inspect entry points"])
p("C22", "Array element counts are enforced exactly",
  "Dumping an array with a declared count succeeds only when exactly that many elements are supplied, whether the data has a length or is a one-shot iterable, and otherwise raises ArraySizeError; without a declared count every supplied element is written. Loading stops as soon as the declared count has been read and not before, and without a count at the end of the data. A count given as a field or name is taken from the sibling values and its absence raises FieldReferenceError.",
  ["inputs", "configurations"], "every count specification and data length", "Off-by-one boundaries for each of constant/field/name counts times sized/unsized data.", [K], [("Array._do_dump/_dump_unsized", K), ("Array.should_halt, get_final_element_count", K)], ["Array"])
p("C23", "Unions and nested structs delegate to exactly the chosen member",
  "A union loads and dumps through exactly the member its decider returned, going through that member's complete load or dump path, and raises TypeError for anything that is neither a field instance nor a struct class, or for non-mapping data given to a struct member. A nested field accepts a struct instance or a mapping and serializes it with its struct class's full dump, and loads with that class's full load.",
  ["inputs", "programs"], "every decider result, every member kind", "Tests use well-behaved deciders and members without validators or null values.", [K], [("Union._do_load/_do_dump", K), ("Nested._do_load/_do_dump", K)], ["Union", "Nested"])
p("C24", "Variable-length integers are self-delimiting",
  "Every encoded variable-length integer consists of bytes whose top bit is set on all but the last, with seven (for the first byte of the sign-bit format, six) payload bits per byte in the byte order of the format and no byte beyond those that the number's bit length (plus a sign bit in signed formats) needs; decoders stop exactly at the first byte with a clear top bit and consume nothing beyond it. Unsigned formats reject negative numbers, and max_bytes is enforced when dumping.",
  ["inputs"], "all integers, all encodings", "Unbounded integers; tests use about ten values per encoding.", [V, N], [("encode_integer_*/decode_integer_*", V), ("VariableLengthInteger._do_dump", N)], ["encode_integer_*", "decode_integer_*"])
p("C25", "Caller overrides win over loaded data and are never modified",
  "Values passed as init_kwargs when loading a struct take precedence over the loaded ones while every field is still read from the stream, are seen by later fields, and are copied so that the caller's objects are neither modified nor shared with the loaded struct.",
  ["inputs"], "all override sets", "Tests pass a single non-field override.", [S], [("deepcopy + setdefault in Struct.from_stream", S)], ["Struct.from_stream", "Struct.from_bytes"])
p("C26", "Null-terminated strings end at the first terminator and always carry one",
  "Dumping a null-terminated string always appends exactly one terminator encoded in the field's own encoding. Loading consumes bytes one at a time up to and including the first terminator and returns the text before it, never reading past a size limit if and only if one is declared, and raises when no terminator is found.",
  ["inputs", "configurations"], "all strings, size limits and defaults, and all encodings that encode each character on its own (so not UTF-7, punycode or idna)", "Defaults, size limits and multi-byte encodings combine; tests try few.", [G, H], [("StringZ._do_load/_do_dump/_size_for_value", G), ("iter_bytes", H)], ["StringZ"])
p("C27", "Reported sizes agree with what is written",
  "The length of a struct is the number of bytes dumping it would produce: absent fields count zero and variable-size fields count the size of their resolved value, evaluated against all sibling values. The class-level size is a number only if every field's size is fixed independently of any value (taking a null marker to be as long as its field), and None otherwise.",
  ["programs", "inputs"], "all struct layouts and values", "Tests compute the length of a few layouts.", [S, B, K], [("Struct.__len__", S), ("StructMetadata.get_size", S), ("get_expected_size", B)], ["Struct.__len__", "Struct.get_size"])
p("C28", "Both declaration styles produce equivalent structs",
  "Declaring fields by annotation produces the same struct as declaring them by assignment: same field order, indexes, offsets, defaults, nullability, validators, ownership and redefinition checks. Mixing styles, declaring no field, ambiguous annotations and unions of several types are rejected with their specific configuration errors.",
  ["programs"], "all class bodies expressible in both styles", "The test suite compares a few hand-written classes.", [P, S], [("dataclass()", P), ("AnnotationInfo", P), ("collect_assigned_fields", S)], ["binobj.dataclass"])
p("C29", "A struct compares, iterates and converts by its defined values only",
  "Iterating a struct yields exactly the names of fields whose value is set and defined; equality with a struct or mapping holds exactly when both have the same defined names with equal values, nested structs compared as dictionaries, and is False (not an error) for other types. Converting to a dictionary includes every field, nested structs and sequences converted recursively, and the mapping wrappers expose exactly the struct's items with a length equal to the number of names they yield.",
  ["inputs"], "all structs and comparands", "Samples only.", [S], [("Struct.__iter__/__eq__/to_dict", S), ("recursive_to_dicts", S), ("StructMappingProxy", S)], ["Struct.__iter__", "Struct.__eq__", "Struct.to_dict", "StructMappingProxy"])
p("C30", "Whole-struct round trip",
  "For every struct class built from the built-in fields and every valid assignment of values, loading the bytes obtained by dumping gives back an equal struct.",
  ["inputs", "programs"], "all struct classes and all values", "Unbounded space of classes and values.", ["binobj/"], [("load/dump symmetry", "binobj/")], ["Struct.to_bytes", "Struct.from_bytes"])
p("C31", "Integer encodings are numerically inverse",
  "Decoding the encoding of any integer in a field's range gives the same integer, for fixed-width and variable-length formats.",
  ["inputs"], "all integers", "Unbounded integers.", [V, H, N], [("arithmetic in varints.py", V)], ["encode_integer_*", "decode_integer_*"])
p("C32", "Timestamps survive a round trip to their resolution",
  "Dumping and reloading a timestamp gives the same instant up to the field's resolution, for every representable instant and time zone.",
  ["inputs", "configurations"], "all instants, resolutions and zones", "Floating-point rounding depends on the exact value.", [N], [("Timestamp._do_load/_do_dump", N)], ["Timestamp"])
p("C33", "Loading always terminates",
  "Loading any finite input with built-in fields terminates and consumes time linear in the input.",
  ["inputs", "programs"], "all inputs and layouts", "Needs a termination argument over user-supplied halt checks and zero-size elements.", [K, V], [("Array._do_load loop", K)], ["Array.from_stream"])
with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as fh:
    for x in props:
        fh.write(json.dumps(x) + "\n")
print(len(props))
