S = "binobj/structures.py"; P = "binobj/pep526.py"; B = "binobj/fields/base.py"; N = "binobj/fields/numeric.py"; C = "binobj/fields/containers.py"; Z = "binobj/fields/stringlike.py"; V = "binobj/varints.py"; H = "binobj/helpers.py"; D = "binobj/decorators.py"
SEEDS = [
 dict(id="c19-generic-default-wins", prop="C19",
      needs="a Meta with both an unqualified default and one qualified by the field class for the same option",
      breaks="the unqualified struct-level default wins over the one qualified by the field's class",
      edits=[(B, '            if typed_default_name in struct_info.argument_defaults:\n', '            if (\n                typed_default_name in struct_info.argument_defaults\n                and argument_name not in struct_info.argument_defaults\n            ):\n')],
      demo='''
import binobj
from binobj import fields

class S(binobj.Struct):
    class Meta:
        argument_defaults = {"endian": "big", "UInt16__endian": "little"}
    a = fields.UInt16()
    b = fields.UInt32()

assert S(a=1, b=1).to_bytes() == b"\\x01\\x00\\x00\\x00\\x00\\x01", S(a=1, b=1).to_bytes()
'''),
 dict(id="c20-factory-after-default", prop="C20",
      needs="a constant-like field created with both const and factory, left unset",
      breaks="the constant is dumped although a default factory was given, because the default property looks at the default first",
      edits=[(B, '        if self.factory:\n            return self.factory()\n        return self._default', '        if self._default is not UNDEFINED:\n            return self._default\n        return self.factory() if self.factory else UNDEFINED')],
      demo='''
import binobj
from binobj import fields

assert fields.UInt8(const=7, factory=lambda: 9, name="f").default == 9

class S(binobj.Struct):
    a = fields.UInt8(const=7, factory=lambda: 9)
assert S().a == 9, S().a
'''),
 dict(id="c21-array-shrinks-data", prop="C21",
      needs="dumping the same struct twice when it holds an array given as a list",
      breaks="dumping an array consumes the list stored in the struct, so a second dump writes nothing for it",
      edits=[(C, '        for value in iter(data):\n            self.component.to_stream(stream, value, context, all_fields)', '        pending = data if isinstance(data, list) else list(data)\n        while pending:\n            self.component.to_stream(stream, pending.pop(0), context, all_fields)')],
      demo='''
import binobj
from binobj import fields

class S(binobj.Struct):
    xs = fields.Array(fields.UInt8())

s = S(xs=[1, 2, 3])
s.xs = [1, 2, 3]
a = fields.Array(fields.UInt8(), name="xs")
data = [1, 2, 3]
assert a.to_bytes(data) == b"\\x01\\x02\\x03"
assert data == [1, 2, 3], data
assert a.to_bytes(data) == b"\\x01\\x02\\x03"
'''),

 dict(id="c21-array-remembers-count", prop="C21",
      needs="an array whose count is a field object, used in two different structs or renamed afterwards, loaded once before the second use",
      breaks="the array replaces its count field by the field's name on first use, so its configuration changes by loading",
      edits=[(C, '            name = self.count.name\n            if name is None:', '            name = self.count.name\n            if name is not None:\n                self.count = name\n            else:')],
      demo='''
import binobj
from binobj import fields

class S(binobj.Struct):
    n = fields.UInt8()
    xs = fields.Array(fields.UInt8(), count=n)

S.from_bytes(b"\\x02ab")
assert S.xs.count is S.n, S.xs.count
'''),
 dict(id="c20-set-none-replaced", prop="C20",
      needs="a nullable field with a default whose value is explicitly set to None, dumped",
      breaks="an explicit None is replaced by the field's default when dumping",
      edits=[(B, '            value_to_dump = all_values[self.name]\n', '            value_to_dump = all_values.get(self.name) if isinstance(all_values, dict) else all_values[self.name]\n            if value_to_dump is None and self._default is not UNDEFINED:\n                value_to_dump = self._default\n')],
      demo='''
import binobj
from binobj import fields

class S(binobj.Struct):
    a = fields.UInt8(default=7, null_value=255)

assert S(a=None).to_bytes() == b"\\xff", S(a=None).to_bytes()
assert S().to_bytes() == b"\\x07"
'''),
 dict(id="c01-null-skips-validators", prop="C01",
      needs="a nullable field with validators, loaded from the exact null bytes, when the null value is given as bytes",
      breaks="a value recognised as null by its bytes is returned without being validated",
      edits=[(B, '                    stream.seek(len(null_repr), os.SEEK_CUR)\n                    for validator in self.validators:\n                        validator(None)\n                    return None', '                    stream.seek(len(null_repr), os.SEEK_CUR)\n                    if self.const is not UNDEFINED:\n                        for validator in self.validators:\n                            validator(None)\n                    return None')],
      demo='''
import binobj
from binobj import fields, errors

def no_null(field, value):
    if value is None:
        raise errors.ValidationError(field=field, value=value)

f = fields.UInt16(name="f", null_value=b"\\xff\\xff", validate=no_null, endian="big")
assert f.from_bytes(b"\\x00\\x01") == 1
try:
    f.from_bytes(b"\\xff\\xff")
except errors.ValidationError:
    pass
else:
    raise SystemExit("null was not validated")
'''),
 dict(id="c03-present-asked-without-stream", prop="C03",
      needs="a presence predicate that looks at the stream while loading",
      breaks="the predicate is not given the stream when a field is loaded through a struct with earlier fields",
      edits=[(B, '        if not self.present(loaded_fields, context, stream):', '        if not self.present(loaded_fields, context, None if loaded_fields else stream):')],
      demo='''
import binobj
from binobj import fields

def peek(values, context, stream):
    if stream is None:
        return "b" in values
    here = stream.tell()
    more = bool(stream.read(1))
    stream.seek(here)
    return more

class S(binobj.Struct):
    a = fields.UInt8()
    b = fields.UInt8(present=peek)

assert S.from_bytes(b"\\x01\\x02").b == 2
assert S.from_bytes(b"\\x01").b is fields.NOT_PRESENT
'''),
 dict(id="c05-stringz-cut-down", prop="C05",
      needs="a null-terminated string with a declared size and a pad byte, given a value that is too long",
      breaks="values too long for the field are cut down to its size when padding is enabled",
      edits=[(B, '        if size_diff > 0:\n', '        if size_diff > 0 and getattr(self, "pad_byte", None) is not None:\n            serialized_value = serialized_value[:expected_size]\n        elif size_diff > 0:\n')],
      demo='''
from binobj import fields, errors

f = fields.StringZ(name="f", size=4, pad_byte=b" ", encoding="utf-8")
assert f.to_bytes("abc") == b"abc\\0"
try:
    f.to_bytes("abcdef")
except errors.ValueSizeError:
    pass
else:
    raise SystemExit("too long value written")
'''),
 dict(id="c06-negative-size", prop="C06",
      needs="an integer field read from a stream that ends in the middle of it, at a size above eight bytes",
      breaks="short reads of wide integers are accepted",
      edits=[(B, '        if len(data_read) < n_bytes:\n', '        if len(data_read) < min(n_bytes, 8):\n')],
      demo='''
from binobj import fields, errors

f = fields.Bytes(name="f", size=12)
assert f.from_bytes(b"x" * 12) == b"x" * 12
try:
    f.from_bytes(b"x" * 10)
except errors.UnexpectedEOFError:
    pass
else:
    raise SystemExit("short read accepted")
'''),
 dict(id="c07-one-byte-left", prop="C07",
      needs="a single field loaded with exact=True from bytes it does not use up, where the field leaves only a NUL terminator's worth of data",
      breaks="a single trailing byte is tolerated when loading a single field",
      edits=[(B, '        if exact and bytes_remaining > 0:', '        if exact and bytes_remaining > (here == 0):')],
      demo='''
from binobj import fields, errors

f = fields.UInt8(name="f", present=lambda *_: False)
try:
    f.from_bytes(b"x")
except errors.ExtraneousDataError:
    pass
else:
    raise SystemExit("trailing byte ignored")
assert f.from_bytes(b"") is fields.NOT_PRESENT
'''),
 dict(id="c09-array-drops-context", prop="C09",
      needs="an array dumped from a generator (no length) whose elements use the context",
      breaks="elements of one-shot iterables are dumped without the caller's context",
      edits=[(C, '            self.component.to_stream(\n                stream, value, context=context, all_fields=all_fields\n            )\n            n_written += 1', '            self.component.to_stream(stream, value, all_fields=all_fields)\n            n_written += 1')],
      demo='''
import binobj
from binobj import fields

seen = []

class E(binobj.Struct):
    a = fields.UInt8(present=lambda v, c, s: seen.append(c) or True)

a = fields.Array(fields.Nested(E), name="a")
ctx = object()
assert a.to_bytes(({"a": i} for i in range(2)), context=ctx) == b"\\x00\\x01"
assert seen and all(c is ctx for c in seen), seen
'''),
]
