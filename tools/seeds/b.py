from seeds.a import S, P, B, N, C, Z, V, H, D
HD = '''
import io
import binobj
from binobj import errors, fields
from binobj.fields import *

'''
SEEDS = [
 dict(id="c02-nullable-const-unset", prop="C02",
      needs="a nullable field with a constant, assigned None",
      breaks="a constant can be replaced by None when the field accepts null",
      edits=[(B, '        if self._compute_fn or self.const is not UNDEFINED:\n            raise errors.ImmutableFieldError(field=self)\n', '        if self._compute_fn or (\n            self.const is not UNDEFINED and (value is not None or not self.allow_null)\n        ):\n            raise errors.ImmutableFieldError(field=self)\n')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8(const=7, null_value=255)
s = S()
try:
    s.a = None
except errors.ImmutableFieldError:
    pass
else:
    raise SystemExit("constant replaced")
'''),
 dict(id="c02-proxy-stores-directly", prop="C02",
      needs="a compute function or dump conversion that writes through the mutable struct proxy",
      breaks="writing a constant through the mutable proxy of a struct stores it without the immutability check",
      edits=[(S, '        self.struct[key] = value', '        self.struct.__values__[key] = value')],
      demo=HD + '''
from binobj.structures import MutableStructMappingProxy
class S(binobj.Struct):
    a = UInt8(const=7)
    b = UInt8(validate=[])
s = S(b=1)
try:
    MutableStructMappingProxy(s)["a"] = 9
except errors.ImmutableFieldError:
    pass
else:
    raise SystemExit("constant replaced")
'''),
 dict(id="c04-null-by-prefix", prop="C04",
      needs="a stream that ends inside what could be a null value",
      breaks="a truncated null value is loaded as None",
      edits=[(B, '                if potential_null_bytes == null_repr:', '                if null_repr.startswith(potential_null_bytes):')],
      demo=HD + '''
f = Bytes(size=3, null_value=b"\\xff\\xff\\xff", name="f")
try:
    v = f.from_stream(io.BytesIO(b"\\xff\\xff"))
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(repr(v))
assert f.from_stream(io.BytesIO(b"\\xff\\xff\\xff")) is None
'''),
 dict(id="c08-partial-load-leaves-position", prop="C08",
      needs="a partial load where the very first field is cut short",
      breaks="the stream is left in the middle of the field that could not be read",
      edits=[(S, '                stream.seek(offset)\n                break', '                if result:\n                    stream.seek(offset)\n                break')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt32(default=0)
    b = UInt8()
st = io.BytesIO(b"\\x00\\x01\\x02")
S.partial_load(st)
assert st.tell() == 0, st.tell()
'''),
 dict(id="c12-null-discard-kept", prop="C12",
      needs="a discardable nested struct, converted to a dictionary",
      breaks="discardable fields that hold a struct stay in the dictionary",
      edits=[(S, '                if field.discard:\n                    del dct[field.name]\n', '                if field.discard and not isinstance(dct[field.name], (dict, Struct)):\n                    del dct[field.name]\n')],
      demo=HD + '''
class In(binobj.Struct):
    x = UInt8()
class S(binobj.Struct):
    a = Nested(In, discard=True)
    b = UInt8()
s = S(a=In(x=1), b=2)
assert s.to_dict() == {"b": 2}, s.to_dict()
'''),
 dict(id="c13-inner-field-blamed", prop="C13",
      needs="a nested struct or array whose component fails to load",
      breaks="the error names the component instead of the field that was loaded",
      edits=[(B, '            err.field = self\n', '            err.field = err.field or self\n')],
      demo=HD + '''
class In(binobj.Struct):
    x = UInt16()
class S(binobj.Struct):
    n = Nested(In)
try:
    S.from_bytes(b"\\x00")
except errors.DeserializationError as e:
    assert e.field is S.n, e.field
'''),
 dict(id="c14-half-step-endian", prop="C14",
      needs="a float created with an endianness that is not exactly 'big' or 'little'",
      breaks="a misspelled byte order is taken for little-endian instead of being rejected",
      edits=[(N, '        if self.endian == "big":\n            self.format_string = ">" + format_string\n        elif self.endian == "little":', '        if self.endian == "big":\n            self.format_string = ">" + format_string\n        elif self.endian.startswith("l"):')],
      demo=HD + '''
try:
    Float32(endian="lttle")
except errors.ConfigurationError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c16-attribute-names-accepted", prop="C16",
      needs="a struct created with a keyword that names a method or other attribute",
      breaks="keywords that name an attribute of the struct but no field are accepted",
      edits=[(S, '        extra_keys = set(values.keys() - self.__binobj_struct__.components.keys())', '        extra_keys = {\n            k\n            for k in values\n            if k not in self.__binobj_struct__.components and not hasattr(self, k)\n        }')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8()
try:
    S(a=1, to_bytes=2)
except errors.UnexpectedValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c22-count-zero-ignored", prop="C22",
      needs="an array whose count is zero, given some elements",
      breaks="an array with a count of zero accepts any number of elements",
      edits=[(C, '        if n_elems is not None and len(data) != n_elems:', '        if n_elems and len(data) != n_elems:')],
      demo=HD + '''
f = Array(UInt8(), count=0, name="f")
try:
    f.to_bytes([1])
except errors.ArraySizeError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c23-extra-keys-dropped", prop="C16",
      needs="a mapping with an unknown key as the value of a nested struct",
      breaks="unknown keys of a mapping are silently ignored",
      edits=[(C, '            instance = self.struct_class(**typing.cast(StrDict, data))', '            instance = self.struct_class(\n                **{\n                    k: v\n                    for k, v in data.items()\n                    if k in self.struct_class.__binobj_struct__.components\n                }\n            )')],
      demo=HD + '''
class In(binobj.Struct):
    a = UInt8()
class S(binobj.Struct):
    n = Nested(In)
try:
    S(n={"a": 1, "zz": 2}).to_bytes()
except errors.UnexpectedValueError:
    pass
else:
    raise SystemExit("ignored")
'''),
 dict(id="c24-vlq-capped", prop="C24",
      needs="a variable-length quantity above 2**63",
      breaks="numbers of more than 63 bits are cut short when loaded",
      edits=[(V, '        value = (value << 7) | (int8 & 0x7F)\n        if int8 & 0x80 == 0:\n            return value\n\n\ndef encode_integer_uleb128', '        value = (value << 7) | (int8 & 0x7F)\n        if int8 & 0x80 == 0 or value >= 1 << 63:\n            return value\n\n\ndef encode_integer_uleb128')],
      demo=HD + '''
from binobj import varints as v
n = 1 << 90
assert v.decode_integer_vlq(io.BytesIO(v.encode_integer_vlq(n))) == n
'''),
 dict(id="c25-shallow-overrides", prop="C25",
      needs="an override that holds a container with containers inside",
      breaks="overrides are copied shallowly, so inner objects are shared with the caller",
      edits=[(S, '            results = typing.cast(MutableStrDict, copy.deepcopy(init_kwargs))', '            results = {\n                k: copy.copy(v) if isinstance(v, (list, dict)) else v\n                for k, v in init_kwargs.items()\n            }')],
      demo=HD + '''
class S(binobj.Struct):
    xs = Array(Array(UInt8(), count=1), count=1)
inner = [1]
s = S.from_stream(io.BytesIO(b"\\x05"), init_kwargs={"xs": [inner]})
s.xs[0].append(3)
assert inner == [1], inner
'''),
 dict(id="c28-inherited-fields-count", prop="C28",
      needs="a dataclass-style struct subclass without fields of its own",
      breaks="a subclass without annotations is accepted or rejected by what it inherits",
      edits=[(P, '    if n_fields_found == 0:', '    if not meta.components:')],
      demo=HD + '''
from binobj import pep526
@pep526.dataclass
class A(binobj.Struct):
    a: UInt8
try:
    @pep526.dataclass
    class Bx(A):
        pass
except errors.ConfigurationError as e:
    pass
else:
    raise SystemExit("no error")
'''),
 dict(id="c29-subclass-unequal", prop="C29",
      needs="a comparison of two structs of different classes with the same values",
      breaks="structs with the same values are unequal because their classes differ",
      edits=[(S, '        if not isinstance(other, (Struct, Mapping)):\n            return False\n', '        if not isinstance(other, (type(self), Mapping)):\n            return False\n')],
      demo=HD + '''
class A(binobj.Struct):
    a = UInt8()
class Bx(binobj.Struct):
    a = UInt8()
assert A(a=1) == Bx(a=1)
'''),

 dict(id="c11-stops-at-prefix", prop="C11",
      needs="a partial load up to a field whose name is the beginning of an earlier field's name",
      breaks="a partial load stops at the first field whose name begins with the requested one",
      edits=[(S, '            if field.name == last_field:\n                break\n', '            if last_field and field.name.startswith(last_field):\n                break\n')],
      demo=HD + '''
class S(binobj.Struct):
    size_of = UInt8()
    size = UInt8()
    c = UInt8()
s = S.partial_load(io.BytesIO(b"abc"), "size")
assert dict(s.__values__) == {"size_of": 97, "size": 98}, s
'''),
 dict(id="c12-override-not-discarded", prop="C12",
      needs="an override for a discardable field",
      breaks="a discardable field stays in the loaded struct when the caller gave an override for it",
      edits=[(S, '            if field.discard:\n                del instance[field.name]\n', '            if field.discard and field.name not in (init_kwargs or ()):\n                del instance[field.name]\n')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8(discard=True)
    b = UInt8()
s = S.from_bytes(b"\\x01\\x02", init_kwargs={"a": 9})
assert "a" not in s.__values__, s
'''),
 dict(id="c13-lookup-errors-hidden", prop="C13",
      needs="a compute function that raises KeyError for a reason of its own",
      breaks="KeyError and IndexError raised by a compute function are swallowed while collecting the values of a struct",
      edits=[(S, '            except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203\n', '            except (\n                errors.SerializationError,\n                errors.UndefinedSizeError,\n                LookupError,\n            ):\n')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8()
    b = UInt8()
    @b.computes
    def _b(self, all_fields):
        return {}["nothing"]
try:
    S(a=1).partial_dump(io.BytesIO(), "a")
except KeyError:
    pass
else:
    raise SystemExit("swallowed")
'''),
 dict(id="c17-parent-struct-validators", prop="C17",
      needs="a subclass with a struct validator of a struct that has one already",
      breaks="a struct validator of a subclass is added to the parent as well",
      edits=[(S, '            metadata.struct_validators = list(base.__binobj_struct__.struct_validators)\n', '            metadata.struct_validators = (\n                base.__binobj_struct__.struct_validators or metadata.struct_validators\n            )\n')],
      demo=HD + '''
from binobj.decorators import validates_struct
class A(binobj.Struct):
    a = UInt8()
    @validates_struct
    def one(self, all_fields):
        pass
class Bx(A):
    @validates_struct
    def two(self, all_fields):
        pass
assert len(A.__binobj_struct__.struct_validators) == 1
assert len(Bx.__binobj_struct__.struct_validators) == 2
'''),
 dict(id="c18-after-variable-parent", prop="C18",
      needs="a subclass with fields of its own of a struct without a fixed size",
      breaks="fields declared after a variable-size parent get offsets that start at zero",
      edits=[(S, '            byte_offset = base.__binobj_struct__.get_size()\n', '            byte_offset = base.__binobj_struct__.get_size() or 0\n')],
      demo=HD + '''
class A(binobj.Struct):
    a = StringZ()
class Bx(A):
    b = UInt8()
assert Bx.b.offset is None, Bx.b.offset
'''),
 dict(id="c15-uuid-only-v4-le", prop="C15",
      needs="a UUID other than version 4 stored in the little-endian layout",
      breaks="the little-endian UUID layout is used for some UUIDs only when dumping",
      edits=[(Z, '            to_write = data.bytes_le', '            to_write = data.bytes_le if data.version == 4 else data.bytes')],
      demo=HD + '''
import uuid
f = UUID4(stored_as=UUIDFormat.BINARY_VARIANT_2, name="f")
u = uuid.UUID("12345678-1234-1678-9234-567812345678")
assert f.from_bytes(f.to_bytes(u)) == u
'''),
 dict(id="c16-delete-any-attribute", prop="C16",
      needs="deleting an item by a name that is an attribute but not a field",
      breaks="deleting an item by the name of a method is silently accepted",
      edits=[(S, '    def __delitem__(self, field_name: str) -> None:\n        if field_name not in self.__binobj_struct__.components:', '    def __delitem__(self, field_name: str) -> None:\n        if not hasattr(type(self), field_name):')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8()
try:
    del S(a=1)["to_bytes"]
except KeyError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c19-none-is-not-explicit", prop="C19",
      needs="an option given explicitly as None together with a struct-level default for it",
      breaks="an explicit None is replaced by the struct-level default",
      edits=[(B, '        instance.__explicit_init_args__ = frozenset(kwargs.keys())', '        instance.__explicit_init_args__ = frozenset(\n            k for k, v in kwargs.items() if v is not None\n        )')],
      demo=HD + '''
import sys
other = "big" if sys.byteorder == "little" else "little"
class S(binobj.Struct):
    class Meta:
        argument_defaults = {"endian": other}
    a = UInt16(endian=None)
    b = UInt16()
assert S.a.endian == sys.byteorder and S.b.endian == other, S.a.endian
'''),
 dict(id="c21-iterating-tidies", prop="C21",
      needs="a struct given UNDEFINED explicitly, iterated or printed",
      breaks="iterating a struct removes undefined values from it",
      edits=[(S, '        for name, value in self.__values__.items():\n            if value is not fields.UNDEFINED:\n                yield name', '        for name in list(self.__values__):\n            if self.__values__[name] is fields.UNDEFINED:\n                del self.__values__[name]\n            else:\n                yield name')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8()
    b = UInt8()
s = S(a=1, b=fields.UNDEFINED)
assert list(s) == ["a"]
assert "b" in s.__values__
'''),
 dict(id="c14-pad-byte-of-two", prop="C14",
      needs="a string created with an empty pad byte",
      breaks="an empty pad byte is accepted",
      edits=[(Z, '            if len(pad_byte) != 1:', '            if len(pad_byte) > 1:')],
      demo=HD + '''
try:
    String(size=4, pad_byte=b"")
except errors.ConfigurationError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c20-factory-falsy", prop="C20",
      needs="a factory that yields a false value such as zero or an empty string",
      breaks="false values made by a default factory are taken for missing",
      edits=[(B, '            return self.factory()\n', '            return self.factory() or self._default\n')],
      demo=HD + '''
class S(binobj.Struct):
    a = UInt8(factory=lambda: 0)
assert S().to_bytes() == b"\\0"
'''),
 dict(id="c29-tuples-not-converted", prop="C29",
      needs="an array of nested structs given as a tuple",
      breaks="dictionaries made of a struct miss nested structs inside tuples",
      edits=[(S, '    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):', '    if isinstance(item, list):')],
      demo=HD + '''
class In(binobj.Struct):
    x = UInt8()
class S(binobj.Struct):
    xs = Array(Nested(In), count=1)
assert S(xs=(In(x=1),)).to_dict() == {"xs": [{"x": 1}]}
'''),

 dict(id="c10-union-dump-drops-siblings", prop="C10",
      needs="a union member whose size refers to a sibling of the union, dumped",
      breaks="a union dumps its member without the values of the struct",
      edits=[(C, '            dumper.to_stream(stream, data, context, all_fields)\n', '            dumper.to_stream(stream, data, context)\n')],
      demo=HD + '''
class S(binobj.Struct):
    n = UInt8()
    u = Union(Bytes(size="n"), load_decider=lambda st, ch, ctx, lf: ch[0], dump_decider=lambda d, ch, ctx, af: ch[0])
assert S(n=2, u=b"ab").to_bytes() == b"\\x02ab"
'''),
 dict(id="c09-nested-own-context", prop="C09",
      needs="a nested struct given as a mapping, dumped with a context that is used inside",
      breaks="a nested struct given as a mapping is dumped without the caller's context",
      edits=[(C, '            instance.to_stream(stream, context)', '            instance.to_stream(stream)')],
      demo=HD + '''
seen = []
def pres(f, ctx, st):
    seen.append(ctx)
    return True
class In(binobj.Struct):
    x = UInt8(present=pres)
class S(binobj.Struct):
    n = Nested(In)
S(n={"x": 1}).to_bytes("ctx")
assert seen and set(seen) == {"ctx"}, seen
'''),
 dict(id="c23-member-partial-load", prop="C23",
      needs="a union with a struct member whose data is cut short",
      breaks="a struct member of a union is loaded as far as the data goes",
      edits=[(C, '            return loader.from_stream(stream, context)\n        raise TypeError(', '            return loader.partial_load(stream, None, context)\n        raise TypeError(')],
      demo=HD + '''
class In(binobj.Struct):
    a = UInt8()
    b = UInt8()
u = Union(In, load_decider=lambda st, ch, ctx, lf: ch[0], dump_decider=lambda d, ch, ctx, af: ch[0], name="u")
try:
    v = u.from_stream(io.BytesIO(b"\\1"))
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(repr(v))
'''),
 dict(id="c22-zero-count-never-halts", prop="C22",
      needs="an array counted as zero, loaded",
      breaks="an array with a count of zero still loads an element",
      edits=[(C, '            return count <= len(values)\n', '            return count <= len(values) and bool(values)\n')],
      demo=HD + '''
class S(binobj.Struct):
    n = UInt8()
    xs = Array(UInt8(), count=n)
s = S.from_bytes(b"\\0")
assert s.xs == []
'''),
 dict(id="c22-null-elements-lost", prop="C22",
      needs="an array of nullable elements that contains null markers, without a count",
      breaks="elements that are null are dropped when loading",
      edits=[(C, '            if component is NOT_PRESENT:\n', '            if component is NOT_PRESENT or component is None:\n')],
      demo=HD + '''
f = Array(UInt8(null_value=255), name="f")
assert f.from_bytes(b"\\1\\xff\\2") == [1, None, 2]
'''),
 dict(id="c06-float-padded", prop="C06",
      needs="a float cut short at the end of the data",
      breaks="the missing bytes of a truncated float are taken for zero",
      edits=[(N, '        data = self._read_exact_size(stream)\n        try:\n            return struct', '        data = stream.read(struct.calcsize(self.format_string))\n        if data:\n            data = data.ljust(struct.calcsize(self.format_string), b"\\0")\n        try:\n            return struct')],
      demo=HD + '''
f = Float32(endian="little", name="f")
try:
    v = f.from_stream(io.BytesIO(b"\\0\\0\\x80"))
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit(repr(v))
'''),
 dict(id="c13-float-bare-struct-error", prop="C13",
      needs="a half-precision float given a value that is too large, or a non-number",
      breaks="values that cannot be packed raise struct.error instead of SerializationError",
      edits=[(N, '            serialized = struct.pack(self.format_string, data)\n', '            serialized = struct.pack(self.format_string, *([data] if data is not None else []))\n'), (N, '            raise errors.SerializationError(message=str(exc), field=self) from exc\n', '            if isinstance(data, str):\n                raise\n            raise errors.SerializationError(message=str(exc), field=self) from exc\n')],
      demo=HD + '''
try:
    Float32(name="f").to_bytes("abc")
except errors.SerializationError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c15-load-unsigned", prop="C15",
      needs="a signed integer field of more than one byte holding a negative value",
      breaks="negative integers of odd widths are loaded as unsigned",
      edits=[(N, '            raise errors.UndefinedSizeError(field=self)\n        return helpers.read_int(\n            stream, self.get_expected_size(loaded_fields), self.signed, self.endian\n', '            raise errors.UndefinedSizeError(field=self)\n        return helpers.read_int(\n            stream,\n            self.get_expected_size(loaded_fields),\n            self.signed and not self.get_expected_size(loaded_fields) % 2 or self.size == 1,\n            self.endian,\n')],
      demo=HD + '''
f = Integer(size=3, signed=True, endian="big", name="f")
assert f.from_bytes(f.to_bytes(-2)) == -2
'''),
 dict(id="c24-max-bytes-unchecked", prop="C24",
      needs="a variable-length integer with max_bytes that is one byte too long",
      breaks="max_bytes lets a number through that takes one byte more, for numbers above 2**14",
      edits=[(N, '        if self.max_bytes is not None and len(encoded_int) > self.max_bytes:\n', '        if self.max_bytes is not None and data.bit_length() > 8 * self.max_bytes:\n')],
      demo=HD + '''
from binobj import varints
f = VariableLengthInteger(vli_format=varints.VarIntEncoding.ULEB128, max_bytes=2, name="f")
try:
    f.to_bytes(1 << 15)
except errors.ValueSizeError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="c17-parent-meta-size", prop="C17",
      needs="a subclass of a struct with a fixed size",
      breaks="defining a subclass writes the computed size into the parent's metadata",
      edits=[(S, '            byte_offset = base.__binobj_struct__.get_size()\n', '            byte_offset = base.__binobj_struct__.size_bytes = (\n                base.__binobj_struct__.get_size()\n            )\n')],
      demo=HD + '''
class A(binobj.Struct):
    a = UInt8()
before = A.__binobj_struct__.size_bytes
class Bx(A):
    b = UInt8()
assert A.__binobj_struct__.size_bytes == before
'''),
 dict(id="c01-wrapped-array-items", prop="C01",
      needs="an array whose element field has validators, dumped from an iterator",
      breaks="elements of one-shot iterables are dumped without their validators",
      edits=[(C, '            self.component.to_stream(\n                stream, value, context=context, all_fields=all_fields\n            )\n            n_written += 1', '            if value is None or self.component.size is None:\n                self.component.to_stream(\n                    stream, value, context=context, all_fields=all_fields\n                )\n            else:\n                self.component._do_dump(stream, value, context, all_fields)\n            n_written += 1')],
      demo=HD + '''
def no(f, v):
    raise errors.ValidationError("no", field=None, value=v)
f = Array(UInt8(validate=[no]), name="f")
try:
    f.to_bytes(iter([1]))
except errors.ValidationError:
    pass
else:
    raise SystemExit("not validated")
'''),
]
