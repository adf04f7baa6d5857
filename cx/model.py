"""Executable reading of the contracts: what declarations must dump and load.

Written from the property statements, independently of binobj's code; used to replay
counterexamples on the real code and to look for failing inputs.
"""
import datetime
import math
import os
import struct as _struct
import uuid
import warnings

import binobj
from binobj import errors, fields
from binobj.decorators import validates, validates_struct
from binobj.fields import base
from binobj.varints import VarIntEncoding as VE

UNDEF, DEFAULT, NP = fields.UNDEFINED, fields.DEFAULT, fields.NOT_PRESENT
UNSET = object()


class Fail(Exception):
    """The real code does something the property excludes."""


class Refuse(Exception):
    def __init__(self, *kinds, field=None):
        super().__init__(*kinds)
        self.kinds, self.field = set(kinds), field


KINDS = {
    "eof": errors.UnexpectedEOFError, "size": errors.ValueSizeError, "unser": errors.UnserializableValueError,
    "ser": errors.SerializationError, "des": errors.DeserializationError, "missing": errors.MissingRequiredValueError,
    "undef": errors.UndefinedSizeError, "arrsize": errors.ArraySizeError, "val": errors.ValidationError,
    "cnull": errors.CannotDetermineNullError, "type": TypeError, "ref": (errors.FieldReferenceError, errors.MissingRequiredValueError),
    "extra": errors.ExtraneousDataError, "immutable": errors.ImmutableFieldError, "any": Exception, "err": errors.Error,
}


def call(fn, *a, **k):
    """(result, exception) of a call of the real code."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k), None
    except Exception as e:     # noqa: BLE001
        return None, e


def same(a, b):
    """Equality that tells types, NaN payloads and markers apart."""
    if isinstance(a, float) and isinstance(b, float):
        return _struct.pack(">d", a) == _struct.pack(">d", b) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, binobj.Struct) or isinstance(b, binobj.Struct):
        if isinstance(a, binobj.Struct) and isinstance(b, binobj.Struct):
            return type(a) is type(b) and same(dict_of(a), dict_of(b))
        if isinstance(a, binobj.Struct):
            return isinstance(b, dict) and same(dict_of(a), b)
        return same(b, a)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a is b or (type(a) is type(b) and a == b) or (isinstance(a, int) and isinstance(b, int) and a == b)


def equal(a, b):
    """The equality of the format: the two zeros are equal, NaN is not equal to itself."""
    return a == b if isinstance(a, float) and isinstance(b, float) else same(a, b)


def dict_of(s):
    return {n: s[n] for n in s}


def show(v):
    r = repr(v)
    return r if len(r) < 400 else r[:400] + "…"


def expect(cond, msg, *args):
    if not cond:
        raise Fail(msg % tuple(show(a) for a in args) if args else msg)


def expect_error(e, ref, what):
    """The exception belongs to one of the kinds the contract allows."""
    expect(any(isinstance(e, KINDS[k]) for k in ref.kinds), what + ": raised %s, expected " + "/".join(sorted(ref.kinds)), e)


# ---- variable length integers -----------------------------------------------------------
def groups(v, first_bits=7):
    """7-bit groups of a natural number, most significant first; the first one may be smaller."""
    out = []
    while v >= (1 << first_bits):
        out.append(v & 0x7F)
        v >>= 7
    out.append(v)
    return out[::-1]


def cont(gs):
    return bytes([g | 0x80 for g in gs[:-1]] + [gs[-1]])


def vli_encode(fmt, v):
    if fmt is VE.VLQ:
        if v < 0:
            raise Refuse("unser")
        return cont(groups(v))
    if fmt is VE.ULEB128:
        if v < 0:
            raise Refuse("unser")
        return cont(groups(v)[::-1])
    if fmt is VE.COMPACT_INDICES:
        gs = groups(abs(v), 6)
        if v < 0:
            gs[0] |= 0x40
        return cont(gs)
    n = 1
    while not -(1 << (7 * n - 1)) <= v < (1 << (7 * n - 1)):
        n += 1
    u = v & ((1 << (7 * n)) - 1)
    return cont([(u >> (7 * i)) & 0x7F for i in range(n)])


def vli_decode(fmt, data, pos):
    end = pos
    while end < len(data) and data[end] & 0x80:
        end += 1
    if end >= len(data):
        raise Refuse("eof")
    gs = [b & 0x7F for b in data[pos:end + 1]]
    if fmt in (VE.ULEB128, VE.LEB128):
        v = sum(g << (7 * i) for i, g in enumerate(gs))
        if fmt is VE.LEB128 and gs[-1] & 0x40:
            v -= 1 << (7 * len(gs))
        return v, end + 1
    if fmt is VE.COMPACT_INDICES:
        neg, first = gs[0] & 0x40, gs[0] & 0x3F
        v = first
        for g in gs[1:]:
            v = v * 128 + g
        return -v if neg else v, end + 1
    v = 0
    for g in gs:
        v = v * 128 + g
    return v, end + 1


# ---- field declarations -------------------------------------------------------------------
class FS:
    """A field declaration; subclasses describe one field type."""
    opts = ()
    fixed = None          # constant size, if the type has one

    def __init__(self, name=None, **o):
        self.name = name
        self.size = o.pop("size", None)          # None, int, or ("name"|"field", name)
        self.default = o.pop("default", UNSET)
        self.factory = o.pop("factory", None)
        self.const = o.pop("const", UNSET)
        self.compute = o.pop("compute", None)    # fn(get) with get(name) -> value
        self.null = o.pop("null", UNSET)
        self.present = o.pop("present", None)    # fn(get, ctx)
        self.npv = o.pop("npv", NP)
        self.validators = o.pop("validators", [])   # predicates on the value
        self.discard = o.pop("discard", False)
        self.log = o.pop("log", None)
        self.__dict__.update(o)
        self.obj = None

    # -- the real thing
    def kwargs(self, env):
        kw = {}
        if self.size is not None:
            if isinstance(self.size, int):
                kw["size"] = self.size
            else:
                kw["size"] = env[self.size[1]].obj if self.size[0] == "field" and self.size[1] in env else self.size[1]
        if self.default is not UNSET:
            kw["default"] = self.default
        if self.factory is not None:
            kw["factory"] = self.factory
        if self.const is not UNSET:
            kw["const"] = self.const
        if self.null is not UNSET:
            kw["null_value"] = self.null
        if self.present is not None:
            p = self.present

            def present(values, ctx, stream, p=p):
                if self.log is not None:
                    self.log.append(("present", self.name, keys_of(values), ctx, None if stream is None else stream.tell()))
                return p(lambda n: values[n], ctx)
            kw["present"] = present
        if self.npv is not NP:
            kw["not_present_value"] = self.npv
        if self.validators:
            def mk(i, pred):
                def validator(field, value):
                    if self.log is not None:
                        self.log.append(("validate", self.name, i, field, value))
                    if not pred(value):
                        raise errors.ValidationError(field=field, value=value)
                return validator
            kw["validate"] = [mk(i, p) for i, p in enumerate(self.validators)]
            if len(kw["validate"]) == 1 and getattr(self, "bare_validator", False):
                kw["validate"] = kw["validate"][0]
        if self.discard:
            kw["discard"] = True
        return kw

    def build(self, env=None):
        self.obj = self.make(**self.kwargs(env or {}))
        if self.compute is not None:
            c = self.compute

            def compute(field, values):
                return c(lambda n: values[n])
            self.obj.computes(compute)
        return self.obj

    # -- contracts
    def refsize(self, env):
        return self.size

    def own_size(self):
        """Constant size of the field, or None."""
        if isinstance(self.size, int):
            return self.size
        if self.size is None and self.const is not UNSET:
            return self.size_of(self.const)
        return self.fixed

    def extent(self):
        """Number of bytes the field takes up in every dump, or None."""
        n = self.own_size()
        if n is None or isinstance(self.size, tuple) or self.present is not None or (isinstance(self.null, bytes) and len(self.null) != n):
            return None
        return n

    def size_of(self, v):
        return self.own_size() if self.const is UNSET else self.fixed

    def dflt(self):
        if self.factory is not None:
            return self.factory()
        if self.default is not UNSET:
            return self.default
        return self.const

    def expected(self, vals):
        if isinstance(self.size, tuple):
            n = self.size[1]
            if n not in vals:
                raise Refuse("missing", field=n)
            if not isinstance(vals[n], int):
                raise Refuse("type")
            return vals[n]
        s = self.own_size()
        if s is not None:
            return s
        v = vals[self.name] if self.name in vals else self.dflt()
        if v is UNSET:
            raise Refuse("undef")
        if v is None:
            if self.null is DEFAULT or self.null is None:
                raise Refuse("any")
            return len(self.null_repr(vals))
        s = self.size_of(v)
        if s is None:
            raise Refuse("undef")
        return s

    def null_repr(self, vals):
        if self.null is UNSET:
            raise Refuse("unser")
        if isinstance(self.null, bytes):
            return self.null
        if self.null is DEFAULT or self.null is None:
            try:
                return b"\0" * self.expected(vals)
            except Refuse as r:
                if "undef" in r.kinds:
                    raise Refuse("unser") from None
                raise
        return self.enc(self.null, vals, None)

    def to_stream(self, v, vals, ctx):
        if not all(p(v) for p in self.validators):
            raise Refuse("val")
        if v is None:
            return self.null_repr(vals)
        b = self.enc(v, vals, ctx)
        if isinstance(self.size, tuple):
            n = self.expected(vals)
        else:
            n = self.own_size()
        if n is None or len(b) == n:
            return b
        if len(b) < n and getattr(self, "pad", None) is not None:
            return b + self.pad * (n - len(b))
        raise Refuse("size")

    def from_stream(self, data, pos, loaded, ctx):
        """(value, end)"""
        if self.present is not None and not self.present(lambda n: loaded[n], ctx):
            return self.npv, pos
        if self.null is not UNSET:
            try:
                nb = self.null_repr(loaded)
            except Refuse as r:
                if "unser" in r.kinds:
                    if self.null is DEFAULT:
                        raise Refuse("cnull") from None
                    nb = None
                else:
                    raise
            if nb is not None and data[pos:pos + len(nb)] == nb:
                if self.const is not UNSET and self.const is not None:
                    raise Refuse("val")
                if not all(p(None) for p in self.validators):
                    raise Refuse("val")
                return None, pos + len(nb)
        v, end = self.dec(data, pos, loaded, ctx)
        if self.null is not UNSET and equal(v, self.null):
            v = None
        if self.const is not UNSET and not equal(v, self.const):
            raise Refuse("val")
        if not all(p(v) for p in self.validators):
            raise Refuse("val")
        return v, end

    def take(self, data, pos, n):
        if pos + n > len(data):
            raise Refuse("eof")
        return data[pos:pos + n], pos + n

    def describe(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("obj", "log") and v not in (None, UNSET, NP, False) and not (isinstance(v, list) and not v)}
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%s" % (k, v.describe() if hasattr(v, "describe") else show(v)) for k, v in d.items()))

    __repr__ = describe


def keys_of(values):
    return tuple(sorted([k for k in values]))


INTS = {(1, True): fields.Int8, (2, True): fields.Int16, (4, True): fields.Int32, (8, True): fields.Int64,
        (1, False): fields.UInt8, (2, False): fields.UInt16, (4, False): fields.UInt32, (8, False): fields.UInt64}


class IntF(FS):
    """n, signed, endian (None: the machine's), named: use Int8 etc."""
    endian, signed = None, True

    @property
    def fixed(self):
        return self.n

    def order(self):
        import sys
        return getattr(self, "eff_endian", None) or self.endian or sys.byteorder

    def make(self, **kw):
        if self.endian:
            kw["endian"] = self.endian
        if self.named and (self.n, self.signed) in INTS:
            return INTS[self.n, self.signed](**kw)
        kw["size"] = self.n
        if not self.signed and self.unsigned_cls:
            return fields.UnsignedInteger(**kw)
        return fields.Integer(signed=self.signed, **kw)

    unsigned_cls = False
    named = True

    def rng(self):
        m = 1 << (8 * self.n)
        return (-(m // 2), m // 2) if self.signed else (0, m)

    def enc(self, v, vals, ctx):
        lo, hi = self.rng()
        if not lo <= v < hi:
            raise Refuse("unser")
        u = v % (1 << (8 * self.n))
        bs = [(u >> (8 * i)) & 255 for i in range(self.n)]
        return bytes(bs if self.order() == "little" else bs[::-1])

    def dec(self, data, pos, loaded, ctx):
        b, end = self.take(data, pos, self.n)
        u = 0
        for x in (b if self.order() == "big" else b[::-1]):
            u = u * 256 + x
        if self.signed and u >= 1 << (8 * self.n - 1):
            u -= 1 << (8 * self.n)
        return u, end

    def value(self, r):
        lo, hi = self.rng()
        c = r.random()
        if c < 0.3:
            return r.choice([lo, hi - 1, 0, 1, min(127, hi - 1), max(lo, -1)])
        if c < 0.4:
            v = lit(r)
            return v if lo <= v < hi else -v if lo <= -v < hi else r.randrange(lo, hi)
        return r.randrange(lo, hi)

    def bad(self, r):
        lo, hi = self.rng()
        return r.choice([lo - 1, hi, hi + r.randrange(1000), lo - r.randrange(1, 1000), hi * 256, -hi * 3])


class VliF(FS):
    max_bytes = None

    def make(self, **kw):
        if self.max_bytes is not None:
            kw["max_bytes"] = self.max_bytes
        return fields.VariableLengthInteger(vli_format=self.fmt, **kw)

    def size_of(self, v):
        return len(vli_encode(self.fmt, v))

    def enc(self, v, vals, ctx):
        b = vli_encode(self.fmt, v)
        if self.max_bytes is not None and len(b) > self.max_bytes:
            raise Refuse("size", "unser", "ser")
        return b

    def dec(self, data, pos, loaded, ctx):
        return vli_decode(self.fmt, data, pos)

    def value(self, r):
        v = vli_value(r, self.fmt)
        if self.fmt is VE.LEB128 and v < 0 and -v & (-v - 1) == 0:
            v += 1      # the number of groups is not fixed for -2**k
        if self.max_bytes is not None and len(vli_encode(self.fmt, v)) > self.max_bytes:
            return r.randrange(0, 1 << (7 * self.max_bytes - 1))
        return v


LITS = []


def harvest():
    """Literals of the source under test: values around which its behaviour may change."""
    import ast
    ints, bs, ts = set(), set(), set()
    d = os.path.dirname(binobj.__file__)
    for root, _, names in os.walk(d):
        for n in sorted(names):
            if n.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, n), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for x in ast.walk(tree):
                    if isinstance(x, ast.Constant):
                        if type(x.value) is int and abs(x.value) > 2:
                            ints.add(x.value)
                        elif type(x.value) is bytes and x.value:
                            bs.add(x.value)
                        elif type(x.value) is str and 0 < len(x.value) < 4:
                            ts.add(x.value)
    ints |= {1 << x for x in ints if 0 < x < 100}
    extra = [int(x) for x in os.environ.get("CX_INTS", "").split(",") if x]
    LITS.extend([sorted(ints) + extra * 20, sorted(bs), sorted(ts)])


def lit(r):
    """An integer on or next to a literal of the source."""
    if not LITS:
        harvest()
    return r.choice(LITS[0] or [3]) + r.choice([0, 0, -1, 1])


def litb(r):
    if not LITS:
        harvest()
    return r.choice(LITS[1] or [b"\0"])


def vli_value(r, fmt, bits=80):
    c = r.random()
    if c < 0.2:
        v = r.randrange(0, 300)
    elif c < 0.7:
        k = r.choice([0, 1, 2, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 34, 35, 41, 42, 48, 49, 55, 56, 57, 62, 63, 64, 65, 69, 70, 71, 77, 83, 84])
        v = max(0, (1 << k) + r.choice([-2, -1, 0, 1, 2]))
    elif c < 0.8:
        v = abs(lit(r))
    elif c < 0.83:
        v = (1 << r.choice([r.randrange(90, 400), r.randrange(400, 4500)])) + r.choice([-1, 0, 1, r.getrandbits(60)])
    else:
        v = r.getrandbits(r.randrange(1, bits))
    if fmt in (VE.LEB128, VE.COMPACT_INDICES) and r.random() < 0.5:
        v = -v
    return v


FMT = {"e": 2, "f": 4, "d": 8}


class FloatF(FS):
    endian = None

    @property
    def fixed(self):
        return FMT[self.fmt]

    def make(self, **kw):
        c = {"e": fields.Float16, "f": fields.Float32, "d": fields.Float64}[self.fmt]
        if self.endian:
            kw["endian"] = self.endian
        return c(**kw)

    def fs(self):
        import sys
        return (">" if (self.endian or sys.byteorder) == "big" else "<") + self.fmt

    def enc(self, v, vals, ctx):
        try:
            return _struct.pack(self.fs(), v)
        except (OverflowError, _struct.error):
            raise Refuse("ser") from None

    def dec(self, data, pos, loaded, ctx):
        b, end = self.take(data, pos, self.fixed)
        return _struct.unpack(self.fs(), b)[0], end

    def value(self, r):
        c = r.random()
        if c < 0.3:
            v = r.choice([0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), 0.5, 65504.0])
        else:
            v = r.uniform(-1000, 1000)
        return _struct.unpack(self.fs(), _struct.pack(self.fs(), v))[0]


class BytesF(FS):
    def make(self, **kw):
        return fields.Bytes(**kw)

    def size_of(self, v):
        return len(v)

    def enc(self, v, vals, ctx):
        if len(v) != self.expected(vals):
            raise Refuse("size")
        return bytes(v)

    def dec(self, data, pos, loaded, ctx):
        return self.take(data, pos, self.expected(loaded))

    def value(self, r, n=None):
        if n is None:
            n = self.size if isinstance(self.size, int) else r.randrange(0, 6)
        if n and r.random() < 0.1:
            b = litb(r)[:n]
            return b + bytes(r.choice([0, 1, 255]) for _ in range(n - len(b)))
        return bytes(r.choice([0, 0, 1, 65, 255, r.randrange(256)]) for _ in range(n))


class StrF(FS):
    encoding, pad = "iso-8859-1", None

    def make(self, **kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        return fields.String(**kw)

    def size_of(self, v):
        return len(v.encode(self.encoding))

    def enc(self, v, vals, ctx):
        b = v.encode(self.encoding)
        n = self.expected(vals)
        if len(b) > n or (len(b) < n and self.pad is None):
            raise Refuse("size")
        return b + (self.pad or b"") * (n - len(b))

    def dec(self, data, pos, loaded, ctx):
        b, end = self.take(data, pos, self.expected(loaded))
        try:
            return b.decode(self.encoding), end
        except UnicodeDecodeError:
            raise Refuse("any") from None

    def alphabet(self):
        if self.encoding == "ascii":
            return "abcXYZ 09\x7f\r\n"
        if self.encoding in ("iso-8859-1", "latin-1"):
            return "abcXYZ 09\xe9\xff\x80\r\n"
        if self.encoding == "shift_jis":
            return "abcXYZ 09表示あいカ"
        return "abcXYZ 09\xe9\u0100\u4e00\ua000\r\n" + ("\U0001f600" if not self.encoding.startswith("utf-16x") else "")

    def text(self, r, maxlen=6):
        return "".join(r.choice(self.alphabet()) for _ in range(r.randrange(0, maxlen)))

    def value(self, r, n=None):
        """Text that encodes to exactly n bytes (n or fewer if padded)."""
        if n is None:
            n = self.size if isinstance(self.size, int) else None
        if n is None:
            return self.text(r)
        for _ in range(200):
            t = self.text(r, n + 2)
            k = len(t.encode(self.encoding))
            if k == n or (k < n and self.pad is not None):
                return t
        t = ""
        while len((t + "a").encode(self.encoding)) <= n:
            t += "a"
        return t


class StrZF(StrF):
    def make(self, **kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        return fields.StringZ(**kw)

    def size_of(self, v):
        return len((v + "\0").encode(self.encoding))

    def enc(self, v, vals, ctx):
        return (v + "\0").encode(self.encoding)

    def dec(self, data, pos, loaded, ctx):
        limit = None
        if self.size is not None or self.const is not UNSET:
            limit = self.expected(loaded)
        import codecs
        d = codecs.getincrementaldecoder(self.encoding)()
        out, i = "", pos
        while limit is None or i - pos < limit:
            if i >= len(data):
                raise Refuse("eof")
            try:
                c = d.decode(data[i:i + 1])
            except UnicodeDecodeError:
                raise Refuse("any") from None
            i += 1
            if c == "\0":
                if limit is not None:
                    i = pos + limit     # padding
                    if i > len(data):
                        raise Refuse("eof")
                return out, i
            out += c
        raise Refuse("des")

    def value(self, r, n=None):
        if n is None:
            n = self.size if isinstance(self.size, int) else None
        if n is None:
            return self.text(r)
        unit = len("\0".encode(self.encoding.replace("utf-16", "utf-16-le") if self.encoding == "utf-16" else self.encoding))
        for _ in range(200):
            t = self.text(r, n + 2)
            k = len((t + "\0").encode(self.encoding))
            if k == n or (k < n and self.pad is not None):
                return t
        t = ""
        while len((t + "a\0").encode(self.encoding)) <= n:
            t += "a"
        return t


class UuidF(FS):
    @property
    def fixed(self):
        return {"BINARY_VARIANT_1": 16, "BINARY_VARIANT_2": 16, "CANONICAL_STRING": 36, "HEX_STRING": 32}[self.layout]

    def make(self, **kw):
        kw.pop("size", None)
        if self.layout == "BINARY_VARIANT_1" and self.implicit:
            return fields.UUID4(**kw)
        return fields.UUID4(stored_as=fields.UUIDFormat[self.layout], **kw)

    implicit = False

    def enc(self, v, vals, ctx):
        i = v.int
        if self.layout == "BINARY_VARIANT_1":
            return i.to_bytes(16, "big")
        if self.layout == "BINARY_VARIANT_2":
            b = i.to_bytes(16, "big")
            return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
        h = "%032x" % i
        if self.layout == "HEX_STRING":
            return h.encode()
        return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])).encode()

    def dec(self, data, pos, loaded, ctx):
        b, end = self.take(data, pos, self.fixed)
        if self.layout == "BINARY_VARIANT_2":
            b = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
        if self.layout.startswith("BINARY"):
            return uuid.UUID(int=int.from_bytes(b, "big")), end
        try:
            return uuid.UUID(hex=b.decode("ascii")), end
        except ValueError:
            raise Refuse("any") from None

    def value(self, r):
        return uuid.UUID(int=r.getrandbits(128), version=4)


class TsF(FS):
    """n, res, aware, signed, endian"""
    res, aware, signed, endian = "s", False, True, None

    @property
    def fixed(self):
        return self.n

    UN = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}

    def make(self, **kw):
        kw.pop("size", None)
        if self.endian:
            kw["endian"] = self.endian
        if self.res != "s" or self.explicit:
            kw["resolution"] = self.res
        if self.aware or self.explicit:
            kw["tz_aware"] = self.aware
        if not self.signed or self.explicit:
            kw["signed"] = self.signed
        if self.named and self.n in (4, 8):
            return {4: fields.Timestamp32, 8: fields.Timestamp64}[self.n](**kw)
        return fields.Timestamp(size=self.n, **kw)

    explicit = named = False

    def raw(self):
        return IntF(n=self.n, signed=self.signed, endian=self.endian)

    def micro(self, v):
        if v.tzinfo is None:
            return int(v.replace(microsecond=0).timestamp()) * 10**6 + v.microsecond
        d = v - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
        return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds

    def enc(self, v, vals, ctx):
        us = self.micro(v)
        t = abs(us) * self.UN[self.res] // 10**6
        return self.raw().enc(-t if us < 0 else t, vals, ctx)

    def dec(self, data, pos, loaded, ctx):
        n, end = self.raw().dec(data, pos, loaded, ctx)
        us = n * 10**6 // self.UN[self.res]
        try:
            if self.aware:
                v = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)
            else:
                v = datetime.datetime.fromtimestamp(us // 10**6).replace(microsecond=us % 10**6)
        except (OverflowError, ValueError, OSError):
            raise Refuse("any") from None
        return v, end

    def value(self, r):
        lo, hi = self.raw().rng()
        un = self.UN[self.res]
        lo, hi = max(lo, -2_000_000_000 * un), min(hi, 4_000_000_000 * un)
        n = r.choice([r.randrange(lo, hi), max(lo, min(hi - 1, r.randrange(-3 * un, 3 * un + 2)))])
        if un == 10**9:
            n = n // 1000 * 1000
            n = n if lo <= n < hi else 0
        tz = datetime.timezone.utc if self.aware else None
        us = n * 10**6 // un
        v = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)
        return v if tz else datetime.datetime.fromtimestamp(us // 10**6).replace(microsecond=us % 10**6)


class RawF(FS):
    """A user-defined type: length byte and payload, recording what it is given."""
    class Field(fields.Field):
        def __init__(self, spec, **kw):
            super().__init__(**kw)
            self.spec = spec

        def _do_load(self, stream, context, loaded_fields):
            self.spec.seen.append(("load", stream.tell(), context, dict(loaded_fields)))
            n = stream.read(1)
            if not n:
                raise errors.UnexpectedEOFError(field=self, size=1, offset=stream.tell())
            b = stream.read(n[0])
            if len(b) < n[0]:
                raise errors.UnexpectedEOFError(field=self, size=n[0], offset=stream.tell())
            return b

        def _do_dump(self, stream, data, context, all_fields):
            self.spec.seen.append(("dump", data, context, dict(all_fields)))
            if len(data) > 255:
                stream.write(b"junk")
                raise errors.UnserializableValueError(field=self, value=data)
            stream.write(bytes([len(data)]))
            stream.write(data)

    def __init__(self, *a, **k):
        self.seen = []
        super().__init__(*a, **k)

    def make(self, **kw):
        return self.Field(self, **kw)

    def enc(self, v, vals, ctx):
        if len(v) > 255:
            raise Refuse("unser")
        return bytes([len(v)]) + v

    def dec(self, data, pos, loaded, ctx):
        n, p = self.take(data, pos, 1)
        return self.take(data, p, n[0])

    def value(self, r, n=None):
        return bytes(r.randrange(256) for _ in range(r.randrange(0, 5) if n is None else max(0, n - 1)))


class ArrF(FS):
    """comp: FS; count: None | int | ("name"|"field", n)"""
    count = None

    def make(self, **kw):
        return fields.Array(self.comp.build(), count=self.cnt_obj, **kw) if self.count is not None else fields.Array(self.comp.build(), **kw)

    def build(self, env=None):
        c = self.count
        if isinstance(c, tuple):
            c = (env or {})[c[1]].obj if c[0] == "field" and c[1] in (env or {}) else c[1]
        self.cnt_obj = c
        return super().build(env)

    def own_size(self):
        cs = self.comp.extent()
        if isinstance(self.count, int) and cs is not None:
            return self.count * cs
        return super().own_size()

    def n(self, vals):
        if self.count is None or isinstance(self.count, int):
            return self.count
        if self.count[1] not in vals:
            raise Refuse("ref")
        return vals[self.count[1]]

    def enc(self, v, vals, ctx):
        n = self.n(vals)
        v = list(v)
        if n is not None and len(v) != n:
            raise Refuse("arrsize")
        return b"".join(self.comp.to_stream(x, vals, ctx) for x in v)

    def dec(self, data, pos, loaded, ctx):
        n = self.n(loaded)
        out = []
        while (n is None and pos < len(data)) or (n is not None and len(out) < n):
            x, pos = self.comp.from_stream(data, pos, loaded, ctx)
            out.append(x)
        return out, pos

    def value(self, r, n=None):
        if n is None:
            n = self.count if isinstance(self.count, int) else r.randrange(0, 4)
        return [None if self.comp.null is not UNSET and r.random() < 0.2 else self.comp.value(r) for _ in range(n)]


class NestF(FS):
    """ss: SS"""
    @property
    def fixed(self):
        return self.ss.class_size()

    def make(self, **kw):
        kw.pop("size", None)
        return fields.Nested(self.ss.cls or self.ss.build(), **kw)

    def own_size(self):
        return self.ss.class_size()

    def enc(self, v, vals, ctx):
        if isinstance(v, binobj.Struct):
            v = dict_of(v)
        return self.ss.dump(v, ctx)

    def dec(self, data, pos, loaded, ctx):
        v, end = self.ss.load(data, pos, ctx)
        return v, end

    def value(self, r):
        return self.ss.values(r)


class UniF(FS):
    """choices: list of FS or SS; pick: index from (ctx, get)"""
    def make(self, **kw):
        self.real = [c.build() if isinstance(c, FS) else (c.cls or c.build()) for c in self.choices]

        def ld(stream, choices, ctx, loaded):
            self.seen.append(("load", stream.tell(), tuple(choices), ctx, dict(loaded)))
            return choices[self.pick(ctx, loaded)]

        def dd(data, choices, ctx, allf):
            self.seen.append(("dump", data, tuple(choices), ctx, dict(allf)))
            return choices[self.pick(ctx, allf)]
        return fields.Union(*self.real, load_decider=ld, dump_decider=dd, **kw)

    def __init__(self, *a, **k):
        self.seen = []
        super().__init__(*a, **k)

    def enc(self, v, vals, ctx):
        c = self.choices[self.pick(ctx, vals)]
        if isinstance(c, FS):
            return c.to_stream(v, vals, ctx)
        return c.dump(v, ctx)

    def dec(self, data, pos, loaded, ctx):
        c = self.choices[self.pick(ctx, loaded)]
        if isinstance(c, FS):
            return c.from_stream(data, pos, loaded, ctx)
        return c.load(data, pos, ctx)


# ---- structures -------------------------------------------------------------------------
class SS:
    """A structure declaration: parent, own fields, method validators."""
    count = 0

    def __init__(self, own, parent=None, fvals=(), svals=(), meta=None, name=None, log=None):
        self.own, self.parent = own, parent
        self.fvals, self.svals, self.meta = list(fvals), list(svals), meta
        SS.count += 1
        self.name = name or "S%d" % (SS.count % 1000)
        self.cls = None
        self.log = log

    @property
    def fields(self):
        return (self.parent.fields if self.parent else []) + self.own

    def chain(self):
        return (self.parent.chain() if self.parent else []) + [self]

    def field(self, n):
        return next(f for f in self.fields if f.name == n)

    def build(self):
        if self.parent and self.parent.cls is None:
            self.parent.build()
        env = {f.name: f for f in (self.parent.fields if self.parent else [])}
        ns = {"__module__": __name__}
        if self.meta is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(self.meta)})
        for f in self.own:
            ns[f.name] = f.build(env)
            env[f.name] = f
        for i, (names, pred) in enumerate(self.fvals):
            ns["v_%s_%d" % (self.name, i)] = self._fv(i, names, pred)
        for i, pred in enumerate(self.svals):
            ns["sv_%s_%d" % (self.name, i)] = self._sv(i, pred)
        self.cls = type(self.name, (self.parent.cls if self.parent else binobj.Struct,), ns)
        return self.cls

    def _fv(self, i, names, pred):
        me = self

        @validates(*names)
        def check(self, field, value):
            if me.log is not None:
                me.log.append(("fv", me.name, i, field.name, value))
            if not pred(value):
                raise errors.ValidationError(field=field, value=value)
        return check

    def _sv(self, i, pred):
        me = self

        @validates_struct
        def check(self, struct):
            if me.log is not None:
                me.log.append(("sv", me.name, i))
            if not pred(lambda n: struct[n]):
                raise errors.ValidationError(message="struct", field=None, value=None)
        return check

    # -- contracts
    def resolve(self, setv, ctx):
        """Value of every field for a dump: a value, NP, or UNSET."""
        cache = {}
        busy = set()
        by = {f.name: f for f in self.fields}

        def get(n):
            if n in cache:
                if cache[n] is UNSET:
                    raise Refuse("missing", field=n)
                return cache[n]
            if n in busy:
                raise AssertionError("cyclic declaration")
            busy.add(n)
            f = by[n]
            if n in setv and setv[n] is not UNDEF:
                v = setv[n]
            else:
                v = f.dflt()
                if v is UNSET and f.compute is not None:
                    try:
                        v = f.compute(get)
                    except Refuse:
                        v = UNSET
            if v is not NP and f.present is not None:
                try:
                    if not f.present(get, ctx):
                        v = NP
                except Refuse:
                    v = UNSET
            cache[n] = v
            if v is UNSET:
                raise Refuse("missing", field=n)
            return v
        for f in self.fields:
            try:
                get(f.name)
            except Refuse:
                pass
        return cache

    def pieces(self, setv, ctx):
        """[(field, bytes)] of a dump, b"" for absent ones."""
        vals = self.resolve(setv, ctx)
        missing = [n for n, v in vals.items() if v is UNSET]
        if missing:
            raise Refuse("missing", field=missing)
        self.validate(vals)
        return [(f, b"" if vals[f.name] is NP else f.to_stream(vals[f.name], vals, ctx)) for f in self.fields]

    def dump(self, setv, ctx=None):
        return b"".join(b for _, b in self.pieces(setv, ctx))

    def validate(self, vals):
        for f in self.fields:
            v = vals[f.name]
            if v is NP:
                continue
            if not all(p(v) for p in f.validators):
                raise Refuse("val")
            for s in self.chain():
                for names, pred in s.fvals:
                    if f.name in names and not pred(v):
                        raise Refuse("val")
        for s in self.chain():
            for pred in s.svals:
                if not pred(lambda n: vals[n]):
                    raise Refuse("val")

    def load_all(self, data, pos=0, ctx=None, init=None, upto=None):
        vals = dict(init or {})
        offs = []
        for f in self.fields:
            offs.append((f.name, pos))
            v, pos = f.from_stream(data, pos, vals, ctx)
            vals.setdefault(f.name, v)
            if f.name == upto:
                break
        return vals, pos, offs

    def load(self, data, pos=0, ctx=None, init=None):
        vals, pos, _ = self.load_all(data, pos, ctx, init)
        self.validate(vals)
        return {f.name: vals[f.name] for f in self.fields if not f.discard}, pos

    def class_size(self):
        n = 0
        for f in self.fields:
            s = f.extent()
            if s is None:
                return None
            n += s
        return n

    def offsets(self):
        out, n = {}, 0
        for f in self.fields:
            out[f.name] = n
            s = f.extent()
            if s is None:
                n = None
            elif n is not None:
                n += s
        return out

    def values(self, r, partial=False):
        """Values to set: serializable for every field that needs one."""
        out = {}
        sizes = {}
        for f in self.fields:
            if isinstance(f.size, tuple):
                sizes.setdefault(f.size[1], []).append(f)
            if isinstance(f, ArrF) and isinstance(f.count, tuple):
                sizes.setdefault(f.count[1], []).append(f)
        for f in self.fields:
            if f.const is not UNSET or f.compute is not None:
                continue
            if (f.default is not UNSET or f.factory is not None) and r.random() < 0.5:
                continue
            if f.null is not UNSET and r.random() < 0.25 and f.name not in sizes:
                out[f.name] = None
                continue
            if f.name in sizes:
                out[f.name] = r.randrange(0, 5)
                continue
            n = None
            ref = f.size[1] if isinstance(f.size, tuple) else f.count[1] if isinstance(f, ArrF) and isinstance(f.count, tuple) else None
            if ref is not None:
                n = self.resolve(out, None).get(ref, 0)
                n = n if isinstance(n, int) else 0
                unit = 1
                if isinstance(f, StrF):
                    unit = len("a".encode(f.encoding))
                out[f.name] = f.value(r, n)
            else:
                out[f.name] = f.value(r)
        return out

    def describe(self):
        return "%s%s[%s]%s" % (self.name, "(%s)" % self.parent.describe() if self.parent else "", "; ".join(f.describe() for f in self.own),
                               "" if not (self.fvals or self.svals) else " validators %s %s" % ([n for n, _ in self.fvals], len(self.svals)))

    __repr__ = describe
