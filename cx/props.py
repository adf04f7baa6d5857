"""Per property: one randomized scenario against the real code.

Each scenario takes a random generator, builds a case, runs the real code and raises Fail if
the outcome contradicts the property.  It only asserts what the property states.
"""
import copy
import io
import itertools

from . import gen
from .gen import *
from .model import *

SCEN = {}


def scen(prop, weight=1):
    def deco(f):
        SCEN.setdefault(prop, []).append((weight, f))
        return f
    return deco


NOTE = []        # description of the running case


def note(fmt, *a):
    NOTE.append(fmt % tuple(x if isinstance(x, str) else show(x) for x in a) if a else fmt)


class Rec(io.BytesIO):
    """A stream that remembers what was read and written."""
    def __init__(self, *a):
        super().__init__(*a)
        self.reads, self.writes = [], []

    def read(self, n=-1):
        p = self.tell()
        b = super().read(n)
        self.reads.append((p, len(b)))
        return b

    def write(self, b):
        self.writes.append(bytes(b))
        return super().write(b)


def got_or(e, what):
    """Re-raise an unexpected exception as a failure."""
    expect(e is None, what + ": unexpected %s", e)


def junk(r, n=6):
    return bytes(r.choice([0, 0x7F, 0x80, 0xFF, r.randrange(256)]) for _ in range(r.randrange(0, n)))


def stream_at(r, data, tail=None):
    """A stream with the data somewhere inside; (stream, position, whole)."""
    pre, post = junk(r), junk(r) if tail is None else tail
    s = Rec(pre + data + post)
    s.seek(len(pre))
    return s, len(pre), pre + data + post


FUN = {}


def vli_fns():
    if not FUN:
        from binobj import varints as V
        for fmt, n in ((VE.VLQ, "vlq"), (VE.ULEB128, "uleb128"), (VE.COMPACT_INDICES, "compact"), (VE.LEB128, "leb128")):
            FUN[fmt] = (getattr(V, "encode_integer_" + n), getattr(V, "decode_integer_" + n))
    return FUN


UNSIGNED = (VE.VLQ, VE.ULEB128)


# ---- C01 ------------------------------------------------------------------------------------
@scen("C01", 3)
def vli_round_trip(r):
    fmt = r.choice(list(VE))
    enc, dec = vli_fns()[fmt]
    v = vli_value(r, fmt, 400)
    note("%s of %s", fmt.name, v)
    b, e = call(enc, v)
    got_or(e, "encoding")
    s, p, _ = stream_at(r, b)
    w, e = call(dec, s)
    got_or(e, "decoding %r" % b)
    expect(w == v, "decoding the encoding %s of %s gives %s", b, v, w)
    expect(s.tell() == p + len(b), "decoding %s left the stream at %s instead of after the last byte (%s)", b, s.tell() - p, len(b))


@scen("C01")
def vli_field_round_trip(r):
    f = gen.vli_f(r)
    v = vli_value(r, f.fmt, 200)
    o = f.build()
    note("%s field, value %s", f.fmt.name, v)
    b, e = call(o.to_bytes, v)
    got_or(e, "dumping")
    s, p, _ = stream_at(r, b)
    w, e = call(o.from_stream, s)
    got_or(e, "loading")
    expect(w == v and s.tell() == p + len(b), "loading %s gives %s at %s, expected %s", b, w, s.tell() - p, v)
    w, e = call(o.from_bytes, b)
    got_or(e, "loading exactly")
    expect(w == v, "loading %s gives %s, expected %s", b, w, v)


@scen("C01")
def vli_sequence(r):
    items = [(fmt, vli_value(r, fmt)) for fmt in (r.choice(list(VE)) for _ in range(r.randrange(1, 6)))]
    note("sequence %s", [(f.name, v) for f, v in items])
    bs = b""
    for fmt, v in items:
        b, e = call(vli_fns()[fmt][0], v)
        got_or(e, "encoding")
        bs += bytes(b)
    s, p, _ = stream_at(r, bs)
    for fmt, v in items:
        w, e = call(vli_fns()[fmt][1], s)
        got_or(e, "decoding")
        expect(w == v, "%s: got %s, expected %s", fmt.name, w, v)
    expect(s.tell() == p + len(bs), "stream is at %s, expected %s", s.tell() - p, len(bs))


@scen("C01")
def vli_negative(r):
    fmt = r.choice(UNSIGNED)
    v = -r.choice([1, 2, 63, 64, 65, 127, 128, r.randrange(1, 1000), 1 << r.randrange(0, 90), r.getrandbits(70) + 1])
    note("negative %s in %s", v, fmt.name)
    b, e = call(vli_fns()[fmt][0], v)
    expect(e is not None, "%s encoded %s as %s", fmt.name, v, b)
    o = VliF(fmt=fmt).build()
    s = io.BytesIO()
    _, e = call(o.to_stream, s, v)
    expect(e is not None and s.getvalue() == b"", "%s field wrote %s for %s", fmt.name, s.getvalue(), v)


# ---- C02 ------------------------------------------------------------------------------------
@scen("C02", 3)
def vli_format(r):
    fmt = r.choice(list(VE))
    v = vli_value(r, fmt, 300)
    note("%s of %s", fmt.name, v)
    b, e = call(vli_fns()[fmt][0], v)
    got_or(e, "encoding")
    b = bytes(b)
    expect(b and all(x & 0x80 for x in b[:-1]) and not b[-1] & 0x80, "continuation bits of %s", b)
    if fmt is VE.LEB128:
        w, end = vli_decode(fmt, b, 0)
        expect(w == v and end == len(b), "%s denotes %s, not %s", b, w, v)
    else:
        expect(b == vli_encode(fmt, v), "encoded as %s, expected %s", b, vli_encode(fmt, v))


@scen("C02", 3)
def vli_decode_any(r):
    fmt = r.choice(list(VE))
    n = r.choice([1, 1, 2, 3, 4, 5, 9, 10, 11, 20, 20, r.randrange(20, 700)])
    b = bytes([r.choice([0x80, 0xFF, 0xC0, 0xBF, 0x81, r.randrange(128, 256)]) for _ in range(n - 1)] + [r.choice([0, 0x7F, 0x40, 0x3F, 1, r.randrange(128)])])
    note("%s bytes %s", fmt.name, b)
    want, _ = vli_decode(fmt, b, 0)
    s, p, _ = stream_at(r, b)
    w, e = call(vli_fns()[fmt][1], s)
    got_or(e, "decoding")
    expect(w == want, "decoded %s as %s, expected %s", b, w, want)
    expect(s.tell() == p + len(b), "stream at %s, expected %s", s.tell() - p, len(b))


@scen("C02")
def vli_padded(r):
    fmt = r.choice(list(VE))
    v = vli_value(r, fmt)
    b = vli_encode(fmt, v)
    k = r.choice([1, 2, 3, 1, 2, 3, r.randrange(1, 300)])
    if fmt is VE.VLQ:
        b = b"\x80" * k + b
    elif fmt is VE.ULEB128:
        b = b[:-1] + bytes([b[-1] | 0x80]) + b"\x80" * (k - 1) + b"\0"
    elif fmt is VE.LEB128:
        fill = 0x7F if v < 0 else 0
        b = b[:-1] + bytes([b[-1] | 0x80]) + bytes([fill | 0x80]) * (k - 1) + bytes([fill])
    else:
        gs = groups(abs(v), 7)
        b = cont([0x40 if v < 0 else 0] + [0] * (k - 1) + gs)
    note("%s padded %s", fmt.name, b)
    o = VliF(fmt=fmt).build()
    w, e = call(o.from_bytes, b)
    got_or(e, "decoding")
    expect(w == v, "decoded %s as %s, expected %s", b, w, v)


@scen("C02")
def vli_truncated(r):
    fmt = r.choice(list(VE))
    b = bytes(r.choice([0x80, 0xFF, r.randrange(128, 256)]) for _ in range(r.randrange(0, 6)))
    note("%s truncated %s", fmt.name, b)
    s, p, _ = stream_at(r, b, b"")
    w, e = call(vli_fns()[fmt][1], s)
    expect(isinstance(e, errors.UnexpectedEOFError), "decoding gave %s / %s", w, e)
    w, e = call(VliF(fmt=fmt).build().from_bytes, b)
    expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)


@scen("C02", 2)
def vli_max_bytes(r):
    fmt = r.choice(list(VE))
    mb = r.randrange(0, 6)
    v = vli_value(r, fmt, 45)
    f = VliF(fmt=fmt, max_bytes=mb)
    o = f.build()
    b = bytes(vli_fns()[fmt][0](v))
    note("%s max_bytes %s value %s", fmt.name, mb, v)
    s = io.BytesIO()
    _, e = call(o.to_stream, s, v)
    if len(b) > mb:
        expect(e is not None and s.getvalue() == b"", "wrote %s although at most %s bytes are allowed", s.getvalue(), mb)
    else:
        expect(e is None and s.getvalue() == b, "wrote %s (%s), expected %s", s.getvalue(), e, b)


# ---- C03 ------------------------------------------------------------------------------------
def int_like(r):
    f = gen.int_f(r)
    if r.random() < 0.2:
        f.n = r.randrange(1, 20)
    return f


@scen("C03", 3)
def int_dump(r):
    f = int_like(r)
    o = f.build()
    v = f.value(r)
    note("%s value %s", f, v)
    s = Rec(b"xy")
    s.seek(2)
    _, e = call(o.to_stream, s, v)
    got_or(e, "dumping")
    expect(s.getvalue()[2:] == f.enc(v, {}, None) and s.getvalue()[:2] == b"xy", "wrote %s, expected %s", s.getvalue()[2:], f.enc(v, {}, None))
    b, e = call(o.to_bytes, v)
    expect(b == f.enc(v, {}, None), "to_bytes gives %s, expected %s", b, f.enc(v, {}, None))


@scen("C03", 3)
def int_load(r):
    f = int_like(r)
    o = f.build()
    b = bytes(r.choice([0, 0xFF, 0x80, 0x7F, r.randrange(256)]) for _ in range(f.n))
    note("%s bytes %s", f, b)
    s, p, _ = stream_at(r, b)
    v, e = call(o.from_stream, s)
    got_or(e, "loading")
    want = f.dec(b, 0, {}, None)[0]
    expect(same(v, want), "loaded %s, expected %s", v, want)
    expect(s.tell() == p + f.n, "consumed %s bytes, expected %s", s.tell() - p, f.n)
    expect(max([a + n for a, n in s.reads] + [0]) <= p + f.n, "read past the field")


@scen("C03", 2)
def int_refuse(r):
    f = int_like(r)
    o = f.build()
    v = f.bad(r)
    note("%s out of range %s", f, v)
    s = Rec()
    _, e = call(o.to_stream, s, v)
    expect(isinstance(e, errors.UnserializableValueError), "%s was not refused: wrote %s (%s)", v, s.getvalue(), e)
    expect(not s.getvalue(), "wrote %s for a refused value", s.getvalue())


@scen("C03", 1)
def int_struct(r):
    fs = [int_like(r) for _ in range(r.randrange(1, 5))]
    for i, f in enumerate(fs):
        f.name = "f%d" % i
    ss = SS(fs)
    ss.build()
    v = {f.name: f.value(r) for f in fs}
    note("%s values %s", ss, v)
    b, e = call(lambda: ss.cls(**v).to_bytes())
    expect(e is None and b == ss.dump(v), "dumped %s (%s), expected %s", b, e, ss.dump(v))
    w, e = call(ss.cls.from_bytes, b)
    expect(e is None and same(w, v), "loaded %s (%s), expected %s", w, e, v)
    f = r.choice(fs)
    v[f.name] = f.bad(r)
    s = io.BytesIO()
    b, e = call(lambda: ss.cls(**v).to_bytes())
    expect(isinstance(e, errors.UnserializableValueError), "%s=%s was not refused: %s %s", f.name, v[f.name], b, e)


# ---- C04 ------------------------------------------------------------------------------------
class Blob(fields.Field):
    """Writes its value in chunks, whatever the size."""
    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream, loaded_fields)

    def _do_dump(self, stream, data, context, all_fields):
        for i in range(0, len(data), 2):
            stream.write(data[i:i + 2])


@scen("C04", 4)
def sized_dump(r):
    n = r.randrange(0, 9)
    kind = r.choice(["bytes", "str", "strz", "blob", "array", "union", "raw"])
    how = r.choice(["const", "name", "field"])
    m = r.choice([n, n, n - 1, n + 1, r.randrange(0, 12)])
    m = max(0, m)
    cnt = fields.UInt16(name="n")
    size = {"const": n, "name": "n", "field": cnt}[how]
    vals = {"n": n}
    pad = None
    if kind == "bytes":
        o, v, b = fields.Bytes(size=size), bytes(range(m)), bytes(range(m))
    elif kind in ("str", "strz"):
        enc = r.choice(["ascii", "utf-8", "utf-16-le"])
        pad = r.choice([None, b" ", b"\0", b"\xff"])
        cls = fields.String if kind == "str" else fields.StringZ
        t = "".join(r.choice("abc") if enc == "ascii" else r.choice("ab\xe9\u4e00") for _ in range(m))
        o, v = cls(size=size, encoding=enc, **({"pad_byte": pad} if pad is not None else {})), t
        b = (t + ("\0" if kind == "strz" else "")).encode(enc)
    elif kind == "blob":
        o, v, b = Blob(size=size), bytes(range(m)), bytes(range(m))
    elif kind == "raw":
        f = RawF()
        o = RawF.Field(f, size=size)
        v, b = bytes(range(m)), bytes([m]) + bytes(range(m))
    elif kind == "array":
        o, v, b = fields.Array(fields.StringZ(), size=size), ["a" * m], b"a" * m + b"\0"
    else:
        o = fields.Union(fields.StringZ(), load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0], size=size)
        v, b = "a" * m, b"a" * m + b"\0"
    note("%s size %s (%s) pad %s, value %s", kind, n, how, pad, v)
    s = Rec(b"..")
    s.seek(2)
    _, e = call(o.to_stream, s, v, all_fields=dict(vals))
    out = s.getvalue()[2:]
    check_sized(n, b, pad, out, e)
    # The same through a structure.
    if how == "const" or kind != "blob":
        ns = {"n": fields.UInt16(endian="big")}
        fo = type(o)
        kw = dict(size=n if how == "const" else "n" if how == "name" else ns["n"])
        if kind == "bytes":
            o2 = fields.Bytes(**kw)
        elif kind in ("str", "strz"):
            o2 = fo(encoding=enc, **({"pad_byte": pad} if pad is not None else {}), **kw)
        elif kind == "blob":
            o2 = Blob(**kw)
        elif kind == "raw":
            o2 = RawF.Field(RawF(), **kw)
        elif kind == "array":
            o2 = fields.Array(fields.StringZ(), **kw)
        else:
            o2 = fields.Union(fields.StringZ(), load_decider=o.load_decider, dump_decider=o.dump_decider, **kw)
        ns["x"] = o2
        ns["after"] = fields.UInt8()
        cls = type("Sized", (binobj.Struct,), ns)
        b2, e = call(lambda: cls(n=n, x=v, after=9).to_bytes())
        if e is None:
            expect(b2[:2] == n.to_bytes(2, "big") and b2[-1:] == b"\x09", "dumped %s", b2)
        check_sized(n, b, pad, b2[2:-1] if e is None else b"", e)


def check_sized(n, b, pad, out, e):
    if len(b) == n or (len(b) < n and pad is not None):
        want = b + (pad or b"") * (n - len(b))
        expect(e is None and out == want, "wrote %s (%s), expected %s", out, e, want)
    else:
        expect(isinstance(e, errors.ValueSizeError), "size error expected for %s in %s bytes, got %s / %s", b, n, out, e)
        expect(out == b"", "wrote %s although refused", out)


@scen("C04", 1)
def sized_fixed_types(r):
    f = gen.simple(r, FIXED)
    o = f.build()
    v = f.value(r)
    note("%s value %s", f, v)
    s = Rec()
    _, e = call(o.to_stream, s, v)
    if e is None:
        expect(len(s.getvalue()) == f.own_size(), "wrote %s bytes, size is %s", len(s.getvalue()), f.own_size())
    else:
        expect(s.getvalue() == b"", "wrote %s although refused", s.getvalue())


@scen("C04", 1)
def sized_in_struct(r):
    """Sizes given by other, possibly computed, fields; several dumps with one class."""
    how = r.choice(["name", "field"])
    cnt = gen.int_f(r, n=r.choice([1, 2]), signed=False, name="c")
    x = r.choice([BytesF, StrF])(size=(how, "c"), name="x")
    if x.__class__ is StrF and r.random() < 0.5:
        x.pad = b"_"
    comp = r.random() < 0.5
    if comp:
        cnt.compute = lambda get: len(get("x"))
    order = [cnt, x] if r.random() < 0.6 or how == "field" else [x, cnt]
    ss = SS(order)
    ss.build()
    for _ in range(3):
        m = r.randrange(0, 6)
        n = r.choice([m, m, m + 1, max(0, m - 1)])
        v = {"x": b"abcdefgh"[:m] if isinstance(x, BytesF) else "abcdefgh"[:m]}
        if not comp:
            v["c"] = n
        note("%s values %s", ss, v)
        try:
            want, ref = ss.dump(v), None
        except Refuse as rf:
            want, ref = None, rf
        b, e = call(lambda: ss.cls(**v).to_bytes())
        if ref is None:
            expect(e is None and b == want, "dumped %s (%s), expected %s", b, e, want)
        else:
            expect(e is not None, "dumped %s, expected a refusal", b)
            expect_error(e, ref, "dump")


# ---- C05 ------------------------------------------------------------------------------------
@scen("C05", 4)
def truncated_field(r):
    k = r.random()
    loaded, vals = {}, {}
    if k < 0.6:
        f = gen.simple(r)
    elif k < 0.75:
        f = gen.arr_f(r)
    elif k < 0.85:
        f = gen.nest_f(r)
    elif k < 0.92:
        cs = [r.choice([gen.simple, lambda r: gen.small_ss(r)])(r) for _ in range(r.randrange(1, 3))]
        i = r.randrange(len(cs))
        c = cs[i]
        if isinstance(c, SS):
            v, b = gen.valid_values(r, c)
        else:
            v = c.value(r)
            b = c.enc(v, {}, None)
        if not b:
            return
        f = UniF(choices=cs, pick=lambda ctx, get: i, name="x")
        if r.random() < 0.6:
            f.null = r.choice([b"\xfc" * (len(b) + 1), None])
        cut = r.choice([len(b) - 1, r.randrange(0, len(b)), 0])
        note("%s: choice %s of %s: %s truncated to %s of %s bytes", f, i, cs, b, cut, len(b))
        try:
            f.from_stream(b[:cut], 0, {}, None)
            return
        except Refuse as rf:
            if rf.kinds != {"eof"}:
                return
        w, e = call(f.build().from_bytes, b[:cut], None, r.random() < 0.5)
        expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)
        return
    else:
        f = r.choice([BytesF(size=("name", "n"), name="x"), StrF(size=("name", "n"), encoding="utf-8", name="x"), StrZF(size=("name", "n"), encoding=r.choice(ENC), name="x"),
                      ArrF(comp=gen.simple(r, FIXED), count=("name", "n"), name="x")])
        loaded = vals = {"n": r.randrange(1, 8)}
    if isinstance(f, StrZF) and r.random() < 0.4 and f.size is None:
        f.size = 12
        v = f.text(r, 2)
        b = (v + "\0").encode(f.encoding)
    else:
        v = f.value(r, loaded["n"]) if loaded else f.value(r)
        if isinstance(f, StrZF) and loaded:
            b = (v + "\0").encode(f.encoding)
            if len(b) > loaded["n"]:
                return
        else:
            b = f.enc(v, vals, None)
    if not b:
        return
    nullish = r.random() < 0.3 and f.own_size() and not isinstance(f, (ArrF, NestF))
    if nullish:
        f.null = r.choice([DEFAULT, b"\xfc" * (f.own_size() + 1)])
    o = f.build()
    cut = r.choice([len(b) - 1, r.randrange(0, len(b)), 0])
    note("%s: %s truncated to %s of %s bytes", f, b, cut, len(b))
    if nullish and f.null is DEFAULT and len(b[:cut]) == 0 and f.own_size() == 0:
        return
    if not isinstance(f, StrZF):
        try:
            f.from_stream(b[:cut], 0, loaded, None)
            return      # nothing is missing: elements of size zero
        except Refuse:
            pass
    pre = junk(r)
    s = io.BytesIO(pre + b[:cut])
    s.seek(len(pre))
    w, e = call(o.from_stream, s, None, dict(loaded))
    expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)
    w, e = call(o.from_bytes, b[:cut], loaded_fields=dict(loaded), exact=r.random() < 0.5)
    expect(isinstance(e, errors.UnexpectedEOFError), "from_bytes gave %s / %s", w, e)


@scen("C05", 2)
def truncated_struct(r):
    ss = gen.struct_ss(r, nulls=True, ctxcond=True)
    v, b = gen.valid_values(r, ss)
    if not b:
        return
    try:
        vals, end, offs = ss.load_all(b)
    except Refuse:
        return
    if end != len(b):
        return
    ss.build()
    cut = r.choice([len(b) - 1, r.randrange(len(b))])
    if any(isinstance(f, ArrF) and f.count is None for f in ss.fields):
        return
    note("%s: %s truncated to %s", ss, b, cut)
    try:
        ss.load_all(b[:cut])
        return      # nothing is missing for a load that misses the null representation
    except Refuse as rf:
        if rf.kinds != {"eof"}:
            return
    w, e = call(ss.cls.from_bytes, b[:cut])
    expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)
    w, e = call(ss.cls.from_stream, io.BytesIO(b[:cut]))
    expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)


@scen("C05", 1)
def truncated_unsized_array(r):
    """Elements cut short in an array without count."""
    c = gen.simple(r, FIXED + [strz_f, vli_f])
    f = ArrF(comp=c, count=None)
    vs = f.value(r, r.randrange(1, 4))
    last = c.enc(vs[-1], {}, None) if vs[-1] is not None else b""
    if len(last) < 2:
        return
    b = f.enc(vs, {}, None)
    cut = len(b) - r.randrange(1, len(last))
    note("%s: %s truncated to %s", f, b, cut)
    w, e = call(f.build().from_bytes, b[:cut])
    expect(isinstance(e, errors.UnexpectedEOFError), "loading gave %s / %s", w, e)


# ---- C06 ------------------------------------------------------------------------------------
def null_field(r):
    """A field with or without null representation, the values for its size."""
    k = r.random()
    vals = {}
    if k < 0.55:
        f = gen.simple(r)
    elif k < 0.7:
        f = r.choice([BytesF, StrF])(size=("name", "n"), name="x")
        vals = {"n": r.randrange(0, 5)}
        f.vn = vals["n"]
    elif k < 0.8:
        f = r.choice([BytesF, StrF])(name="x")
    else:
        f = IntF(n=r.choice([1, 2, 4]), signed=False, endian=r.choice(["big", "little"]))
    f.name = "x"
    c = r.random()
    if c < 0.15:
        pass
    elif c < 0.45:
        f.null = DEFAULT
    elif c < 0.65:
        f.null = bytes(r.randrange(256) for _ in range(r.randrange(1, 5)))
    elif isinstance(f, (BytesF, StrF)) and isinstance(f.size, tuple):
        f.null = f.value(r, vals["n"])
    elif isinstance(f, (BytesF, StrF)) and f.size is None and not isinstance(f, StrZF):
        f.null = b"\xff"
    else:
        f.null = f.value(r)
        if isinstance(f.null, float) and not f.null:
            f.null = 1.0
    return f, vals


@scen("C06", 3)
def null_dump(r):
    f, vals = null_field(r)
    o = f.build()
    note("%s dump None, values %s", f, vals)
    try:
        want, ref = f.to_stream(None, vals, None), None
    except Refuse as rf:
        want, ref = None, rf
    s = Rec(b"ab")
    s.seek(2)
    _, e = call(o.to_stream, s, None, all_fields=dict(vals))
    out = s.getvalue()[2:]
    if ref is None:
        expect(e is None and out == want, "wrote %s (%s), expected %s", out, e, want)
    else:
        expect(e is not None and out == b"", "wrote %s, expected a refusal", out)


@scen("C06", 4)
def null_load(r):
    f, vals = null_field(r)
    o = f.build()
    v = f.value(r, vals["n"]) if vals else f.value(r)
    try:
        body = f.enc(v, vals, None)
    except Refuse:
        body = b"\x01"
    nb = None
    if f.null is not UNSET:
        try:
            nb = f.null_repr(vals)
        except Refuse:
            nb = None
    k = r.random()
    if nb is not None and k < 0.5:
        data = nb + junk(r)
    elif nb and k < 0.7:
        data = nb[:-1] + bytes([nb[-1] ^ 1]) + body
    elif nb and k < 0.8:
        data = nb[:r.randrange(len(nb))]
    else:
        data = body + junk(r)
    note("%s load %s, values %s", f, data, vals)
    try:
        (want, end), ref = f.from_stream(data, 0, vals, None), None
    except Refuse as rf:
        want, end, ref = None, 0, rf
    pre = junk(r)
    s = Rec(pre + data)
    s.seek(len(pre))
    w, e = call(o.from_stream, s, None, dict(vals))
    if ref is None:
        if nb is not None and data[:len(nb)] != nb and want is None:
            return      # a non-canonical form of the null value: not settled by the property
        expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)
        expect(s.tell() == len(pre) + end, "consumed %s bytes, expected %s", s.tell() - len(pre), end)
    else:
        expect(e is not None, "loaded %s, expected a refusal", w)


@scen("C06", 2)
def null_struct(r):
    f, vals = null_field(r)
    n = IntF(n=1, signed=False, name="n")
    tail = IntF(n=2, signed=False, endian="big", name="t")
    if isinstance(f.size, tuple):
        f.size = (r.choice(["name", "field"]), "n")
    ss = SS([n, f, tail])
    ss.build()
    cnt = vals.get("n", 3)
    for _ in range(3):
        v = {"n": cnt, "t": 513, "x": None if r.random() < 0.7 else (f.value(r, cnt) if vals else f.value(r))}
        note("%s values %s", ss, v)
        try:
            want, ref = ss.dump(v), None
        except Refuse as rf:
            want, ref = None, rf
        b, e = call(lambda: ss.cls(**v).to_bytes())
        if ref is not None:
            expect(e is not None, "dumped %s, expected a refusal", b)
            continue
        expect(e is None and b == want, "dumped %s (%s), expected %s", b, e, want)
        try:
            lv, end = ss.load(want)
        except Refuse:
            continue
        if end != len(want):
            continue
        w, e = call(ss.cls.from_bytes, want)
        expect(e is None and same(w, lv), "loaded %s (%s), expected %s", w, e, lv)
        if isinstance(f.size, tuple):
            cnt = r.randrange(0, 5)
            if f.null is not UNSET and not isinstance(f.null, bytes) and f.null is not DEFAULT:
                cnt = vals["n"]


# ---- C07 ------------------------------------------------------------------------------------
def snapshot(o):
    return {k: o.__values__[k] for k in o.__values__}


@scen("C07", 4)
def precedence(r):
    log = []
    ss = gen.struct_ss(r, n=r.randrange(1, 6), raw=True)
    ctx = gen.context(r)
    ss.build()
    for _ in range(2):
        v = ss.values(r)
        if r.random() < 0.4:
            for f in ss.fields:
                if r.random() < 0.3 and f.const is UNSET and f.compute is None:
                    v.pop(f.name, None)
        if r.random() < 0.15:
            f = r.choice(ss.fields)
            if f.const is UNSET and f.compute is None and not any(gen.refers(g, f.name) for g in ss.fields):
                v[f.name] = NP
        note("%s values %s context %s", ss, v, ctx)
        if uses_np(ss, v):
            continue
        check_dump(ss, v, ctx, unchanged=True)


def uses_np(ss, v):
    """Whether an explicit marker is visible to computed fields or conditions."""
    return any(x is NP for x in v.values()) and any(f.compute or f.present for f in ss.fields)


def check_dump(ss, v, ctx, unchanged=False, only=None):
    try:
        want, ref = ss.dump(v, ctx), None
    except Refuse as rf:
        want, ref = None, rf
    inst = ss.cls(**v)
    before = snapshot(inst)
    s = Rec(b"..")
    s.seek(2)
    _, e = call(inst.to_stream, s, ctx)
    b = s.getvalue()[2:]
    if unchanged:
        after = snapshot(inst)
        expect(set(after) == set(before) and all(after[k] is before[k] for k in before), "dumping changed the structure from %s to %s", before, after)
        keep = copy.deepcopy(before)
        for f in ss.fields:
            call(getattr, inst, f.name)
            call(inst.__getitem__, f.name)
        call(inst.to_dict)
        call(len, inst)
        after = snapshot(inst)
        expect(set(after) == set(before) and all(after[k] is before[k] for k in before) and same(keep, after), "reading values changed the structure from %s to %s", keep, after)
    if ref is None:
        expect(e is None and b == want, "dumped %s (%s), expected %s", b, e, want)
    else:
        expect(e is not None, "dumped %s, expected a refusal (%s)", b, ref.kinds)
        if ref.kinds == {"missing"} and isinstance(ref.field, list):
            expect(isinstance(e, errors.MissingRequiredValueError), "raised %s, expected the missing-value error", e)
            nm = getattr(e.field, "name", e.field)
            expect(nm in ref.field, "the error names %s, missing are %s", nm, ref.field)
    b2, e2 = call(inst.to_bytes, ctx)
    if ref is None:
        expect(e2 is None and b2 == want, "to_bytes gives %s (%s), expected %s", b2, e2, want)
    return want


@scen("C07", 2)
def precedence_single(r):
    """Every combination of sources for one field."""
    src = {k: r.random() < 0.5 for k in ("explicit", "default", "factory", "computed")}
    if src["default"] and src["factory"]:
        src[r.choice(["default", "factory"])] = False
    kinds = {"explicit": r.choice([11, 0, None]), "default": r.choice([22, 0, None]), "factory": r.choice([33, 0, None]), "computed": r.choice([44, 0, None])}
    kw = {"null_value": 99}
    if src["default"]:
        kw["default"] = kinds["default"]
    if src["factory"]:
        kw["factory"] = lambda: kinds["factory"]
    o = fields.UInt8(**kw)
    if src["computed"]:
        o.computes(lambda f, vals: kinds["computed"])
    cls = type("One", (binobj.Struct,), {"a": fields.UInt8(default=1), "x": o})
    setv = {"x": kinds["explicit"]} if src["explicit"] else {}
    note("sources %s values %s", src, kinds)
    s = cls(**setv)
    chosen = next((kinds[k] for k in ("explicit", "default", "factory", "computed") if src[k]), UNSET)
    b, e = call(s.to_bytes)
    if chosen is UNSET:
        expect(isinstance(e, errors.MissingRequiredValueError) and e.field is o, "expected the missing-value error for x, got %s %s", b, e)
        return
    want = bytes([1, 99 if chosen is None else chosen])
    expect(e is None and b == want, "dumped %s (%s), expected %s", b, e, want)
    expect(same(s.x, chosen), "attribute is %s, expected %s", s.x, chosen)
    expect(set(s.__values__) == set(setv), "the structure changed")
    # Unsetting reveals the next source.
    if src["explicit"]:
        del s["x"]
        nxt = next((kinds[k] for k in ("default", "factory", "computed") if src[k]), UNSET)
        b, e = call(s.to_bytes)
        if nxt is UNSET:
            expect(isinstance(e, errors.MissingRequiredValueError), "expected the missing-value error, got %s %s", b, e)
        else:
            expect(b == bytes([1, 99 if nxt is None else nxt]), "after deletion dumped %s (%s)", b, e)


@scen("C07", 1)
def presence_ctx(r):
    """The condition gets the values and the context of the dump."""
    seen = []

    def present(values, ctx, stream):
        seen.append((ctx, stream))
        return bool(ctx) and values["a"] == ctx
    cls = type("P", (binobj.Struct,), {"a": fields.UInt8(), "x": fields.UInt16(endian="big", present=present, default=r.choice([UNDEF, 513])), "z": fields.UInt8(default=7)})
    a, ctx = r.randrange(0, 3), r.choice([None, 0, 1, 2])
    v = {"a": a}
    if r.random() < 0.6:
        v["x"] = r.choice([258, NP])
    note("values %s context %s", v, ctx)
    inst = cls(**v)
    on = bool(ctx) and a == ctx
    x = v.get("x", cls.x.default)
    b, e = call(inst.to_bytes, ctx)
    expect(all(s is None for _, s in seen), "the condition got a stream when dumping")
    if not on or x is NP:
        expect(e is None and b == bytes([a, 7]), "dumped %s (%s), expected the field to be absent", b, e)
    elif x is UNDEF:
        expect(isinstance(e, errors.MissingRequiredValueError), "dumped %s (%s), expected the missing-value error", b, e)
    else:
        expect(e is None and b == bytes([a]) + x.to_bytes(2, "big") + b"\x07", "dumped %s (%s), expected %s", b, e, x)


# ---- C08 ------------------------------------------------------------------------------------
@scen("C08", 2)
def absent_field(r):
    """Field.from_stream on its own."""
    f = gen.simple(r)
    log = []
    f.name, f.log = "x", log
    on = r.random() < 0.5
    want_ctx = r.choice([None, 3, "ctx", 0, "", {}, False])
    f.present = lambda get, ctx: on
    f.npv = r.choice([NP, NP, None, 0, "gone", b""])
    if r.random() < 0.5:
        f.validators = [lambda v: False] if not on else [lambda v: True]
    if r.random() < 0.4 and f.own_size():
        f.null = gen.null_for(r, f)
    v = f.value(r)
    b = r.choice([b"", junk(r)]) if not on else f.enc(v, {}, None)
    o = f.build()
    note("%s present %s data %s", f, on, b)
    pre = junk(r)
    s = Rec(pre + b)
    s.seek(len(pre))
    loaded = {"a": 1, "b": None}
    given = dict(loaded)
    w, e = call(o.from_stream, s, want_ctx, given)
    p = [x for x in log if x[0] == "present"]
    expect(p and p[0] == ("present", "x", ("a", "b"), want_ctx, len(pre)), "the condition was called with %s", p[:1])
    expect(not [x for x in s.reads if 0] , "")
    if not on:
        expect(e is None and (w is f.npv or same(w, f.npv)), "loaded %s (%s), expected the stand-in %s", w, e, f.npv)
        expect(s.tell() == len(pre), "consumed %s bytes of an absent field", s.tell() - len(pre))
        expect(not [x for x in log if x[0] == "validate"], "validators of an absent field ran")
    else:
        try:
            want, end = f.from_stream(b, 0, loaded, want_ctx)
        except Refuse:
            return
        expect(e is None and same(w, want) and s.tell() == len(pre) + end, "loaded %s (%s) at %s, expected %s", w, e, s.tell() - len(pre), want)
    expect(given == loaded, "the loaded values were changed to %s", given)


@scen("C08", 3)
def absent_struct(r):
    log = []
    ss = gen.struct_ss(r, n=r.randrange(2, 6), log=log, raw=True)
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    try:
        vals, end, offs = ss.load_all(b, 0, ctx)
        ss.validate(vals)
    except Refuse:
        return
    if end != len(b):
        return
    ss.build()
    note("%s bytes %s context %s", ss, b, ctx)
    s, p, _ = stream_at(r, b)
    w, e = call(ss.cls.from_stream, s, ctx)
    expect(e is None and same(w, {f.name: vals[f.name] for f in ss.fields if not f.discard}), "loaded %s (%s), expected %s", w, e, vals)
    expect(s.tell() == p + len(b), "stream at %s, expected %s", s.tell() - p, len(b))
    # Conditions: at the field's start, with everything before it.
    names = [f.name for f in ss.fields]
    for f in ss.fields:
        if f.present is None:
            continue
        calls = [x for x in log if x[0] == "present" and x[1] == f.name and x[4] is not None]
        expect(calls, "the condition of %s was not evaluated with the stream", f.name)
        want = ("present", f.name, tuple(sorted(names[:names.index(f.name)])), ctx, p + dict(offs)[f.name])
        expect(calls[0] == want, "the condition of %s was called with %s, expected %s", f.name, calls[0][2:], want[2:])


# ---- C09 ------------------------------------------------------------------------------------
def predicate(r, good=()):
    """A predicate on values; True for `good` values."""
    k = r.randrange(4)
    if k == 0:
        return lambda v: True
    return lambda v: v is None or isinstance(v, (list, dict, binobj.Struct)) or gen.hash_val(v) % 5 != 1 if k < 3 else v is not None


@scen("C09", 3)
def field_validators(r):
    f = gen.simple(r)
    log = []
    f.name, f.log = "x", log
    f.validators = [predicate(r) for _ in range(r.randrange(1, 4))]
    f.bare_validator = r.random() < 0.5
    if r.random() < 0.4 and f.own_size():
        f.null = gen.null_for(r, f)
    v = None if f.null is not UNSET and r.random() < 0.3 else f.value(r)
    dflt = r.random() < 0.25
    if dflt and r.random() < 0.5:
        f.default = v
    elif dflt:
        f.factory = lambda: v
    o = f.build()
    ok = all(p(v) for p in f.validators)
    note("%s value %s", f, v)
    s = Rec()
    _, e = call(o.to_stream, s, v) if not dflt else call(o.to_stream, s)
    check_validation("dump", ok, e, log, f, o, v)
    if not ok:
        expect(s.getvalue() == b"", "wrote %s although refused", s.getvalue())
    try:
        data = f.null_repr({}) if v is None else f.enc(v, {}, None)
        lv = f.dec(data, 0, {}, None)[0] if v is not None else None
        if f.null is not UNSET and data.startswith(f.null_repr({})):
            lv = None
        if f.null is not UNSET and equal(lv, f.null):
            lv = None
    except Refuse:
        return
    del log[:]
    ok = all(p(lv) for p in f.validators)
    w, e = call(o.from_bytes, data, None, False)
    check_validation("load", ok, e, log, f, o, lv)
    # Assignment.
    cls = type("V", (binobj.Struct,), {"y": fields.UInt8(default=0), "x": o})
    first = next((c for c in (f.value(r) for _ in range(20)) if all(p(c) for p in f.validators)), UNSET)
    inst = cls(**({} if first is UNSET else {"x": first}))
    del log[:]
    before = snapshot(inst)
    ok = all(p(v) for p in f.validators)
    if r.random() < 0.5:
        _, e = call(setattr, inst, "x", v)
    else:
        _, e = call(inst.__setitem__, "x", v)
    check_validation("assignment", ok, e, log, f, o, v)
    if ok:
        expect(same(inst.__values__["x"], v), "assigned %s, stored %s", v, inst.__values__.get("x"))
    else:
        expect(snapshot(inst) == before or same(snapshot(inst), before), "a refused assignment stored %s", snapshot(inst))


@scen("C09", 1)
def other_null_forms(r):
    """A value loaded as None because it equals the null value, from bytes other than those of the null value."""
    log = []
    if r.random() < 0.6:
        f = VliF(fmt=r.choice(list(VE)))
        f.null = v = abs(vli_value(r, f.fmt))
        b = vli_encode(f.fmt, v)
        k = r.randrange(1, 4)
        if f.fmt is VE.VLQ:
            data = b"\x80" * k + b
        elif f.fmt is VE.COMPACT_INDICES:
            data = cont([0] * k + groups(v, 7))
        else:
            data = b[:-1] + bytes([b[-1] | 0x80]) + b"\x80" * (k - 1) + b"\0"
    else:
        f = FloatF(fmt=r.choice("efd"), endian=r.choice(["big", "little"]))
        f.null = 0.0
        data = f.enc(-0.0, {}, None)
    f.name, f.log = "x", log
    f.validators = [predicate(r) for _ in range(r.randrange(1, 4))]
    f.bare_validator = r.random() < 0.5
    if r.random() < 0.2:
        f.const = f.null
    o = f.build()
    note("%s loading %s", f, data)
    ok = all(p(None) for p in f.validators) and f.const is UNSET
    if r.random() < 0.5:
        w, e = call(o.from_bytes, data)
    else:
        cls = type("V", (binobj.Struct,), {"y": fields.UInt8(), "x": o})
        w, e = call(cls.from_bytes, b"\x07" + data)
        w = w and w.x
    if f.const is not UNSET:
        expect(e is not None, "loaded %s for the constant %s", w, f.const)
        return
    check_validation("load", ok, e, log, f, o, None)
    expect(not ok or w is None, "loaded %s, the null value is %s", w, f.null)


def check_validation(what, ok, e, log, f, o, v):
    calls = [x for x in log if x[0] == "validate"]
    if ok:
        expect(e is None, what + " of %s was refused: %s", v, e)
        for i in range(len(f.validators)):
            mine = [x for x in calls if x[2] == i]
            expect(mine and mine[0][3] is o and same(mine[0][4], v), what + ": validator %s was called with %s for %s", i, [x[3:] for x in mine], v)
    else:
        expect(isinstance(e, errors.ValidationError), what + ": %s fails a validator, but the outcome was %s", v, e)


@scen("C09", 4)
def struct_validators(r):
    log = []
    ss = gen.struct_ss(r, n=r.randrange(1, 5), log=log, ctxcond=True, npvs=True, raw=True)
    names, ctx = [], gen.context(r)
    for s in ss.chain():
        s.log = log
        names += [f.name for f in s.own]
        for _ in range(r.randrange(0, 3)):
            if not names:
                continue
            s.fvals.append((tuple(r.sample(names, min(len(names), r.randrange(1, 3)))), predicate(r)))
        if r.random() < 0.4:
            n = r.choice([f.name for f in ss.fields if f.present is None] or [None])
            s.svals.append(r.choice([lambda get: True, lambda get, n=n: n is None or gen.hash_val(get(n)) % 4 != 1]))
    for f in ss.fields:
        if r.random() < 0.3:
            f.validators = [predicate(r)]
    v = None
    for _ in range(10):
        v = ss.values(r)
        try:
            vals = ss.resolve(v, ctx)
            if all(x is not UNSET for x in vals.values()):
                break
        except Refuse:
            pass
    if any(x is UNSET for x in vals.values()):
        return
    drop_absent(v, vals)
    ss.build()
    note("%s values %s context %s", ss, v, ctx)
    try:
        ss.validate(vals)
        ok = True
    except Refuse:
        ok = False
    inst, e = call(lambda: ss.cls(**v))
    got_or(e, "constructing")
    del log[:]
    s = Rec()
    _, e = call(inst.to_stream, s, ctx)
    check_struct_validation("dump", ss, vals, ok, e, log)
    if not ok:
        expect(s.getvalue() == b"", "wrote %s although refused", s.getvalue())
    # Loading.
    clean = SS([f for f in ss.fields])
    saved = [f.validators for f in ss.fields]
    try:
        for f in ss.fields:
            f.validators = []
        b = clean.dump(v, ctx)
        lv, end, _ = clean.load_all(b, 0, ctx)
    except Refuse:
        return
    finally:
        for f, x in zip(ss.fields, saved):
            f.validators = x
    if end != len(b):
        return
    try:
        ss.validate(lv)
        ok = True
    except Refuse:
        ok = False
    del log[:]
    w, e = call(ss.cls.from_bytes, b, ctx)
    check_struct_validation("load", ss, lv, ok, e, log)


def drop_absent(v, vals):
    """Leave values of absent fields out: what validators make of them is not settled."""
    for n, x in vals.items():
        if x is NP:
            v.pop(n, None)


def check_struct_validation(what, ss, vals, ok, e, log):
    if not ok:
        expect(isinstance(e, errors.ValidationError), what + ": a validator refuses %s, but the outcome was %s", vals, e)
        return
    if e is not None:
        expect(not isinstance(e, errors.ValidationError), what + ": refused %s: %s", vals, e)
        return
    for f in ss.fields:
        if vals[f.name] is NP:
            expect(not [x for x in log if x[0] == "fv" and x[3] == f.name], what + ": validators of the absent %s ran", f.name)
            continue
        for i in range(len(f.validators)):
            expect([x for x in log if x[0] == "validate" and x[1] == f.name and x[2] == i and same(x[4], vals[f.name])], what + ": validator %s of %s was not called", i, f.name)
        for s in ss.chain():
            for i, (names, _) in enumerate(s.fvals):
                if f.name in names:
                    expect([x for x in log if x[0] == "fv" and x[1] == s.name and x[2] == i and x[3] == f.name and same(x[4], vals[f.name])],
                           what + ": validator method %s of %s was not called for %s", i, s.name, f.name)
    for s in ss.chain():
        for i in range(len(s.svals)):
            expect([x for x in log if x[:3] == ("sv", s.name, i)], what + ": structure validator %s of %s was not called", i, s.name)


# ---- C10 ------------------------------------------------------------------------------------
@scen("C10", 3)
def constants(r):
    f = gen.simple(r)
    v = f.value(r)
    if isinstance(v, float) and v != v:
        return
    f.name, f.const = "x", v
    if isinstance(f, StrZF):
        f.size = f.pad = None
    elif isinstance(f, (BytesF, StrF)):
        f.size = None if r.random() < 0.7 else f.size_of(v)
    if isinstance(f, StrF) and r.random() < 0.3 and not isinstance(f, StrZF):
        f.pad, f.size = b"~", f.size_of(v)
    if r.random() < 0.3:
        f.discard = True
    if r.random() < 0.3:
        f.present = lambda get, ctx: True
    o = f.build()
    cls = type("K", (binobj.Struct,), {"a": fields.UInt8(default=1), "x": o, "z": fields.UInt8(default=2)})
    b = f.enc(v, {}, None)
    note("%s", f)
    inst = cls()
    got, e = call(inst.to_bytes)
    expect(e is None and got == b"\x01" + b + b"\x02", "dumped %s (%s), expected the constant %s", got, e, b)
    if isinstance(f, (BytesF, StrF, VliF)):
        expect(o.size == len(b), "size is %s, the constant takes %s", o.size, len(b))
    if (isinstance(f, (BytesF, StrF, VliF)) or f.fixed) and f.present is None:
        expect(cls.z.offset == 1 + len(b), "offset after the constant is %s, expected %s", cls.z.offset, 1 + len(b))
    before = snapshot(inst)
    if r.random() < 0.3:
        # A default of its own does not make the constant assignable.
        kw = {"const": v, "default": copy.deepcopy(v)}
        o2 = type(o)(**kw) if type(o) in (fields.Int8, fields.UInt8, fields.Int32, fields.UInt64, fields.Float32) else fields.Bytes(const=b, default=bytes(bytearray(b)))
        cls2 = type("K2", (binobj.Struct,), {"a": fields.UInt8(default=1), "x": o2, "z": fields.UInt8(default=2)})
        i2 = cls2()
        for nv in (o2.const, None):
            _, e = call(setattr, i2, "x", nv) if r.random() < 0.5 else call(i2.__setitem__, "x", nv)
            expect(isinstance(e, errors.ImmutableFieldError), "assigning %s to a constant with a default was not refused: %s", nv, e)
            expect(not snapshot(i2), "a refused assignment changed the structure")
    for how in ("attr", "item"):
        nv = r.choice([v, f.value(r), None])
        _, e = call(setattr, inst, "x", nv) if how == "attr" else call(inst.__setitem__, "x", nv)
        expect(isinstance(e, errors.ImmutableFieldError), "assigning %s to the constant was not refused: %s", nv, e)
        expect(snapshot(inst) == before, "a refused assignment changed the structure")
    w, e = call(cls.from_bytes, b"\x05" + b + b"\x06")
    expect(e is None and same(w.x, v) and w.z == 6, "loading the constant gave %s (%s)", w, e)
    for _ in range(5):
        other = f.value(r)
        if isinstance(f, (BytesF, StrF)):
            if len(f.enc_free(other) if hasattr(f, "enc_free") else b) != len(b):
                pass
            k = list(b)
            if not k:
                return
            j = r.choice([0, -1, r.randrange(len(k))])
            k[j] = r.choice([k[j] ^ r.choice([1, 2, 4, 8, 32]), 0, 32, r.randrange(256)])
            data = bytes(k)
        else:
            data = f.enc(other, {}, None)
        try:
            ov, end = f.dec(data, 0, {}, None)
        except Refuse:
            continue
        if end != len(data) or ov == v:
            continue
        w, e = call(o.from_bytes, data)
        expect(isinstance(e, errors.ValidationError), "loading %s as the constant %s gave %s (%s)", data, v, w, e)
        w, e = call(cls.from_bytes, b"\x05" + data + b"\x06")
        expect(isinstance(e, errors.ValidationError), "loading a structure with %s for the constant %s gave %s (%s)", data, v, w, e)


@scen("C10", 1)
def constant_null(r):
    """A null is not the constant, however it is recognized."""
    f = gen.simple(r)
    v = f.value(r)
    if isinstance(v, float) and v != v:
        return
    f.name, f.const = "x", v
    if isinstance(f, (BytesF, StrF)) and not isinstance(f, StrZF):
        f.size = f.size_of(v)
    f.null = gen.null_for(r, f) if r.random() < 0.6 else f.value(r)
    if f.null is DEFAULT and not isinstance(f.own_size(), int) or same(f.null, v):
        return
    note("%s", f)
    o = f.build()
    cls = type("K", (binobj.Struct,), {"a": fields.UInt8(default=1), "x": o, "z": fields.UInt8(default=2)})
    try:
        data = f.null_repr({})
    except Refuse:
        return
    if isinstance(f, VliF) and isinstance(f.null, int) and r.random() < 0.7:
        data = {VE.VLQ: b"\x80" + data, VE.ULEB128: data[:-1] + bytes([data[-1] | 0x80, 0])}.get(f.fmt, data)
    if data == f.enc(v, {}, None):
        return
    for load in (lambda: o.from_bytes(data), lambda: o.from_stream(io.BytesIO(data + b"\0")), lambda: cls.from_bytes(b"\1" + data + b"\2", exact=False)):
        w, e = call(load)
        expect(e is not None, "loading the null %s for the constant %s gave %s", data, v, w)
        try:
            f.from_stream(data, 0, {}, None)
        except Refuse as rf:
            expect("val" not in rf.kinds or isinstance(e, errors.ValidationError), "loading the null %s for the constant %s raised %s", data, v, e)


@scen("C10", 1)
def computed_immutable(r):
    o = fields.UInt8(name="x")
    o.computes(lambda f, vals: 5)
    cls = type("K", (binobj.Struct,), {"a": fields.UInt8(default=1), "x": o})
    inst = cls(**({"x": 9} if r.random() < 0.5 else {}))
    before = snapshot(inst)
    for nv in (5, 6, None):
        _, e = call(setattr, inst, "x", nv) if r.random() < 0.5 else call(inst.__setitem__, "x", nv)
        expect(isinstance(e, errors.ImmutableFieldError), "assigning %s to a computed field was not refused: %s", nv, e)
        expect(snapshot(inst) == before, "a refused assignment changed the structure")


@scen("C10", 1)
def constant_padded(r):
    """Explicit sizes, arrays and nulls with constants."""
    pad = r.choice([b" ", b"\0"])
    n = r.randrange(3, 7)
    cls = type("K", (binobj.Struct,), {"x": fields.String(const="abc", size=n, pad_byte=pad), "z": fields.UInt8(default=2)})
    note("padded constant in %s bytes", n)
    b, e = call(lambda: cls().to_bytes())
    expect(e is None and b == b"abc" + pad * (n - 3) + b"\x02", "dumped %s (%s)", b, e)
    vals = [r.randrange(256) for _ in range(r.randrange(0, 4))]
    o = fields.Array(fields.UInt8(), const=vals, count=len(vals))
    w, e = call(o.from_bytes, bytes(vals))
    expect(e is None and w == vals, "array constant loaded as %s (%s)", w, e)
    if vals:
        bad = list(vals)
        bad[-1] ^= 1
        w, e = call(o.from_bytes, bytes(bad))
        expect(isinstance(e, errors.ValidationError), "array constant accepted %s (%s)", w, e)
    b, e = call(o.to_bytes)
    expect(e is None and b == bytes(vals), "array constant dumped as %s (%s)", b, e)
    o = fields.UInt8(const=5, null_value=5 if r.random() < 0.5 else b"\x07")
    w, e = call(o.from_bytes, b"\x08")
    expect(isinstance(e, errors.ValidationError), "constant accepted %s (%s)", w, e)


# ---- C11 ------------------------------------------------------------------------------------
@scen("C11", 4)
def concat(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 7), discards=r.random() < 0.3)
    ctx = gen.context(r)
    ss.build()
    for _ in range(2):
        v, b = gen.valid_values(r, ss, ctx)
        if v is None:
            return
        note("%s values %s context %s", ss, v, ctx)
        check_dump(ss, v, ctx)
        for f in ss.fields:
            if isinstance(f, RawF):
                vals = ss.resolve(v, ctx)
                calls = [x for x in f.seen if x[0] == "dump"]
                if vals[f.name] is NP:
                    expect(not calls, "the absent %s was dumped", f.name)
                elif vals[f.name] is not None:
                    expect(calls, "%s was not dumped", f.name)
                    expect(calls[-1][2] == ctx and set(calls[-1][3]) >= set(vals), "%s was dumped with context %s and values %s", f.name, calls[-1][2], calls[-1][3])
                    for n, x in vals.items():
                        if x is not NP:
                            expect(same(plain(calls[-1][3][n]), plain(x)), "%s was dumped with %s=%s instead of %s", f.name, n, calls[-1][3][n], x)
            if isinstance(f, RawF):
                del f.seen[:]
        check_load(r, ss, b, ctx)


def plain(x):
    if isinstance(x, binobj.Struct):
        return dict_of(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def check_load(r, ss, b, ctx, init=None):
    tail = junk(r)
    try:
        want, end = ss.load(b + tail, 0, ctx, init)
        vals, _, offs = ss.load_all(b + tail, 0, ctx, init)
        ref = None
    except Refuse as rf:
        want, ref = None, rf
    pre = junk(r)
    s = Rec(pre + b + tail)
    s.seek(len(pre))
    kw = {} if init is None else {"init_kwargs": dict(init)}
    w, e = call(ss.cls.from_stream, s, ctx, **kw)
    if ref is not None:
        expect(e is not None, "loaded %s, expected a refusal (%s)", w, ref.kinds)
        return
    expect(e is None and type(w) is ss.cls and same(w, want), "loaded %s (%s), expected %s", w, e, want)
    expect(s.tell() == len(pre) + end, "stream at %s, expected %s", s.tell() - len(pre), end)
    names = [f.name for f in ss.fields]
    for f in ss.fields:
        if isinstance(f, RawF):
            calls = [x for x in f.seen if x[0] == "load"]
            if calls:
                prior = {n: vals[n] for n in set(names[:names.index(f.name)]) | set(init or {})}
                expect(calls[-1][1] == len(pre) + dict(offs)[f.name] and calls[-1][2] == ctx, "%s was loaded from %s with context %s", f.name, calls[-1][1], calls[-1][2])
                expect(set(calls[-1][3]) == set(prior) and all(same(plain(calls[-1][3][n]), plain(prior[n])) for n in prior), "%s was loaded with values %s, expected %s", f.name, calls[-1][3], prior)
            del f.seen[:]
    return w


@scen("C11", 2)
def load_override(r):
    ss = gen.struct_ss(r, n=r.randrange(2, 6), refs=True, comps=True, discards=r.random() < 0.4, nest=True, conds=True)
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    ss.build()
    init = {}
    for f in r.sample(ss.fields, r.randrange(1, len(ss.fields) + 1)):
        if f.const is UNSET and (f.own_size() is not None or isinstance(f, (VliF, StrZF, RawF))):
            init[f.name] = f.value(r)
            if f.null is not UNSET and r.random() < 0.5:
                init[f.name] = None
            elif r.random() < 0.15 and isinstance(f, IntF):
                init[f.name] = 0
    note("%s bytes %s overrides %s", ss, b, init)
    keep = dict(init)
    check_load(r, ss, b, ctx, init)
    w, e = call(ss.cls.from_bytes, b, ctx, init_kwargs=init)
    try:
        want, end = ss.load(b, 0, ctx, init)
    except Refuse:
        return
    if end == len(b):
        expect(e is None and same(w, want), "from_bytes loaded %s (%s), expected %s", w, e, want)
    expect(same(init, keep), "the given values were changed to %s", init)


@scen("C11", 2)
def round_trip(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 6), npvs=True)
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    try:
        want, end = ss.load(b, 0, ctx)
    except Refuse:
        return
    vals = ss.resolve(v, ctx)
    if end != len(b) or not all(same(plain(want[n]), plain(vals[n])) or null_like(ss.field(n), vals[n]) for n in want if vals[n] is not NP and not isinstance(ss.field(n), (NestF, ArrF))):
        return
    ss.build()
    full = {n: x for n, x in vals.items()}
    note("%s values %s", ss, full)
    inst = ss.cls(**full)
    d, e = call(inst.to_bytes, ctx)
    got_or(e, "dumping")
    back, e = call(ss.cls.from_bytes, d, ctx)
    got_or(e, "loading")
    if same(back, want) and same(want, {n: plain(x) for n, x in vals.items()}):
        eq, e = call(lambda: back == inst)
        expect(eq is True, "loading the dump of %s gives %s (%s)", inst, back, e)
    expect(same(back, want), "loading the dump gives %s, expected %s", back, want)


def null_like(f, v):
    return f.null is not UNSET


# ---- C12 ------------------------------------------------------------------------------------
@scen("C12", 5)
def get_field(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 7), npvs=True)
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    ss.build()
    if r.random() < 0.15 and b:
        b = b[:r.randrange(len(b))]
    s, p, _ = stream_at(r, b)
    try:
        want, ref = ss.load(s.getvalue(), p, ctx)[0], None
    except Refuse as rf:
        want, ref = None, rf
    note("%s bytes %s at %s context %s", ss, b, p, ctx)
    order = list(ss.fields)
    r.shuffle(order)
    for f in order:
        w, e = call(ss.cls.get_field, s, f.name, ctx)
        expect(s.tell() == p, "reading %s left the stream at %s instead of %s", f.name, s.tell(), p)
        if ref is None and not f.discard:
            expect(e is None and same(w, want[f.name]), "%s is %s (%s), a full load gives %s", f.name, w, e, want[f.name])
        elif ref is not None and not f.discard and f.present is None and f.const is UNSET and isinstance(f, (IntF, VliF, FloatF, UuidF, TsF)):
            try:
                ss.load_all(s.getvalue(), p, ctx, upto=f.name)
            except Refuse as rf:
                if rf.kinds == {"eof"}:
                    expect(isinstance(e, errors.UnexpectedEOFError), "reading %s, which is cut short, gave %s / %s", f.name, w, e)
    full, e = call(ss.cls.from_stream, s, ctx)
    expect((e is None) == (ref is None), "full load: %s", e)


@scen("C12", 1)
def get_field_fail(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 4))
    ss.build()
    b = junk(r, 3)
    pre = junk(r)
    s = io.BytesIO(pre + b)
    s.seek(len(pre))
    note("%s bytes %s", ss, b)
    for f in ss.fields:
        call(ss.cls.get_field, s, f.name)
        expect(s.tell() == len(pre), "reading %s left the stream at %s instead of %s", f.name, s.tell(), len(pre))
    _, e = call(ss.cls.get_field, s, "nosuch")
    expect(e is not None and s.tell() == len(pre), "reading an unknown field: %s, stream at %s", e, s.tell())


@scen("C12", 2)
def get_field_dependent(r):
    """Fields at fixed offsets whose interpretation depends on fields before them."""
    def dep(k):
        if k == "present":
            dv, m = r.choice([0, 1, None]), r.choice([0, 1])
            return r.choice([fields.UInt8, fields.Int16, fields.UInt32])(
                present=lambda v, c, s: (v.get("n", dv) or 0) % 2 == m, not_present_value=r.choice([fields.NOT_PRESENT, None, 7]))
        if k == "present_item":
            return fields.UInt8(present=lambda v, c, s: v["n"] % 2 == 1)
        if k == "present_strict":
            return fields.Bytes(size=2, present=lambda v, c, s: "n" in v and bool(v["n"]))
        if k == "bytes":
            return fields.Bytes(size=r.choice(["n", cnt]))
        if k == "text":
            return fields.String(size=r.choice(["n", cnt]), null_value=r.choice([DEFAULT, b"\0", UNDEF]))
        if k == "array":
            return fields.Array(fields.UInt8(), count=r.choice(["n", cnt]))
        if k == "array_halt":
            return fields.Array(fields.UInt8(), halt_check=lambda seq, stream, vals, ctx, loaded: len(vals) >= loaded.get("n", 0))
        sized = r.random() < 0.3
        inner = [fields.UInt16(endian="big"), fields.Int16(endian="little") if sized else fields.UInt8()]
        if k == "union_get":
            dec = lambda v: 0 if v.get("n", 1) % 2 else 1
        else:
            dec = lambda v: 0 if v["n"] % 2 else 1
        return fields.Union(*inner, load_decider=lambda s, cs, ctx, loaded: cs[dec(loaded)],
                            dump_decider=lambda d, cs, ctx, al: cs[dec(al)], **({"size": 2} if sized else {}))
    kinds = ["present", "present_item", "present_strict", "bytes", "text", "array", "array_halt", "union_get", "union_item"]
    cnt = fields.UInt8(null_value=r.choice([UNDEF, 5]))
    ks = [r.choice(kinds) for _ in range(r.randrange(1, 4))]
    ns = {"n": cnt, "o": fields.UInt8(discard=r.random() < 0.3)}
    for i, k in enumerate(ks):
        ns["d%d" % i] = dep(k)
    if r.random() < 0.4:
        ns["e"] = fields.UInt8(present=lambda v, c, s: bool(c))
    cls = type("D", (binobj.Struct,), ns)
    if r.random() < 0.3:
        cls = type("D2", (cls,), {"z": fields.UInt8()})
    data = bytes([r.randrange(0, 7), r.randrange(256)] + [r.randrange(3) for _ in range(r.choice([3, 12, 24]))])
    ctx = gen.context(r)
    s, p, _ = stream_at(r, data)
    full, fe = call(cls.from_stream, s, ctx)
    s.seek(p)
    note("%s fields %s data %s at %s: %s", cls.__name__, ks, data, p, full)
    order = [f for f in cls.__binobj_struct__.components if not (f == "o" and cls.o.discard)]
    r.shuffle(order)
    for n in order:
        w, e = call(cls.get_field, s, n, ctx)
        expect(s.tell() == p, "reading %s left the stream at %s instead of %s", n, s.tell(), p)
        if fe is None:
            expect(e is None and same(w, full[n]), "%s is %s (%s), a full load gives %s", n, w, e, full[n])


# ---- C13 ------------------------------------------------------------------------------------
@scen("C13", 4)
def partial_load(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 7))
    if r.random() < 0.3:
        refd = {g.size[1] for g in ss.fields if isinstance(g.size, tuple)} | {g.count[1] for g in ss.fields if isinstance(g, ArrF) and isinstance(g.count, tuple)}
        for f in ss.fields:
            if f.name not in refd and not isinstance(f, IntF) and r.random() < 0.3:
                f.discard = True
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    ss.build()
    if r.random() < 0.5 and b:
        b = b[:r.randrange(len(b) + 1)]
    pre = junk(r)
    last = r.choice([None] + [f.name for f in ss.fields])
    note("%s bytes %s up to %s context %s", ss, b, last, ctx)
    vals, pos, stop = {}, 0, None
    for f in ss.fields:
        try:
            x, end = f.from_stream(b, pos, vals, ctx)
        except Refuse as rf:
            stop = rf
            break
        vals[f.name], pos = x, end
        if f.name == last:
            break
    s = io.BytesIO(pre + b)
    s.seek(len(pre))
    w, e = call(ss.cls.partial_load, s, last, ctx) if r.random() < 0.5 else call(ss.cls.partial_load, s, last_field=last, context=ctx)
    if stop is not None and (last is not None or "eof" not in stop.kinds):
        expect(e is not None, "partial load gave %s, expected an error (%s)", w, stop.kinds)
        if stop.kinds == {"eof"}:
            expect(isinstance(e, errors.UnexpectedEOFError), "raised %s, expected the end-of-file error", e)
        return
    want = {n: x for n, x in vals.items() if not ss.field(n).discard}
    expect(e is None and same(w, want), "partial load gave %s (%s), expected %s", w, e, want)
    expect(s.tell() == len(pre) + pos, "stream at %s, expected %s", s.tell() - len(pre), pos)


@scen("C13", 4)
def partial_dump(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 7), npvs=True)
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    ss.build()
    last = r.choice([None] + [f.name for f in ss.fields])
    if r.random() < 0.6:
        # Leave out the fields from some point on.
        names = [f.name for f in ss.fields]
        cut = r.randrange(len(names) + 1)
        for n in names[cut:]:
            v.pop(n, None)
    if r.random() < 0.25:
        # A value that cannot be dumped, maybe.
        f = r.choice(ss.fields)
        v[f.name] = r.choice([None, 1 << 128, -1 << 128] if isinstance(f, IntF) else [None])
    note("%s values %s up to %s context %s", ss, v, last, ctx)
    try:
        vals = ss.resolve(v, ctx)
    except Exception:
        return
    out, ref = b"", None
    for f in ss.fields:
        x = vals[f.name]
        if x is UNSET:
            if last is not None:
                ref = Refuse("missing")
            break
        if x is not NP:
            try:
                out += f.to_stream(x, {n: y for n, y in vals.items() if y is not UNSET}, ctx)
            except Refuse:
                ref = Refuse("refused")
                break
            except Exception:
                return
        if f.name == last:
            break
    pre = junk(r)
    s = io.BytesIO()
    s.write(pre)
    inst = ss.cls(**v)
    _, e = call(inst.partial_dump, s, last, ctx)
    got = s.getvalue()[len(pre):]
    expect(s.getvalue()[:len(pre)] == pre, "existing data was changed")
    if ref is not None and ref.kinds == {"refused"}:
        expect(e is not None, "partial dump wrote %s without an error, although a field before its end has no serialization", got)
        expect(out.startswith(got), "partial dump wrote %s before failing, not a prefix of %s", got, out)
    elif ref is not None:
        expect(isinstance(e, errors.MissingRequiredValueError), "partial dump wrote %s (%s), expected the missing-value error", got, e)
        expect(out.startswith(got) or got == out, "partial dump wrote %s, not a prefix of %s", got, out)
    else:
        expect(e is None and got == out, "partial dump wrote %s (%s), expected %s", got, e, out)


@scen("C13", 1)
def partial_prefix(r):
    """Against the real full dump and load."""
    ss = gen.struct_ss(r, n=r.randrange(2, 6), npvs=True)
    v, b = gen.valid_values(r, ss)
    if v is None:
        return
    ss.build()
    inst = ss.cls(**v)
    full, e = call(inst.to_bytes)
    note("%s values %s", ss, v)
    got_or(e, "dumping")
    prev = b""
    for f in ss.fields:
        s = io.BytesIO()
        _, e = call(inst.partial_dump, s, f.name)
        got_or(e, "partial dump up to " + f.name)
        expect(full.startswith(s.getvalue()) and s.getvalue().startswith(prev), "partial dump up to %s wrote %s, the full dump is %s", f.name, s.getvalue(), full)
        prev = s.getvalue()
    expect(prev == full, "partial dump up to the last field wrote %s instead of %s", prev, full)
    s = io.BytesIO()
    _, e = call(inst.partial_dump, s)
    expect(e is None and s.getvalue() == full, "partial dump without limit wrote %s (%s), expected %s", s.getvalue(), e, full)


# ---- C14 ------------------------------------------------------------------------------------
@scen("C14", 2)
def exact_field(r):
    f = gen.simple(r) if r.random() < 0.7 else r.choice([gen.arr_f, gen.nest_f])(r)
    if r.random() < 0.3 and f.own_size() and not isinstance(f, (ArrF, NestF)):
        f.null = gen.null_for(r, f)
    if r.random() < 0.2:
        f.present = lambda get, ctx: False
    f.name = "x"
    v = f.value(r)
    b = f.enc(v, {}, None)
    extra = r.choice([b"", b"\0", b"\xff", bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))])
    data = b + extra
    o = f.build()
    note("%s data %s + %s", f, b, extra)
    try:
        want, end = f.from_stream(data, 0, {}, None)
    except Refuse:
        return
    check_exact(r, lambda **k: o.from_bytes(data, **k), want, end, len(data))


def check_exact(r, load, want, end, n):
    for kw in ({}, {"exact": True}, {"exact": False}):
        w, e = call(load, **kw)
        if kw.get("exact", True) and end < n:
            expect(isinstance(e, errors.ExtraneousDataError), "%s of %s bytes are used, exact loading (%s) gave %s / %s", end, n, kw, w, e)
        else:
            expect(e is None and same(w, want), "loading (%s) gave %s / %s, expected %s", kw, w, e, want)


@scen("C14", 3)
def exact_struct(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 5))
    ctx = gen.context(r)
    v, b = gen.valid_values(r, ss, ctx)
    if v is None:
        return
    ss.build()
    extra = r.choice([b"", b"\0", b"\xff", bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))])
    data = b + extra
    note("%s data %s + %s", ss, b, extra)
    try:
        want, end = ss.load(data, 0, ctx)
    except Refuse:
        return
    check_exact(r, lambda **k: ss.cls.from_bytes(data, ctx, **k), want, end, len(data))


# ---- C15 ------------------------------------------------------------------------------------
def null_fills(ss):
    for f in ss.fields:
        if f.null is not UNSET and isinstance(f.null, bytes) and f.own_size() is not None and len(f.null) != f.own_size():
            return False
        if f.null is not UNSET and isinstance(f.size, tuple):
            return False
        sub = f.comp if isinstance(f, ArrF) else None
        while sub is not None:
            if sub.null is not UNSET:
                nb = None
                try:
                    nb = sub.null_repr({})
                except Refuse:
                    pass
                if sub.own_size() is not None and (nb is None or len(nb) != sub.own_size()):
                    return False
            sub = sub.comp if isinstance(sub, ArrF) else None
        if isinstance(f, NestF) and not null_fills(f.ss):
            return False
        if isinstance(f, VliF) and f.null is not UNSET:
            continue
    return True


@scen("C15", 4)
def lengths(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 7), npvs=True, fixed=r.random() < 0.4)
    if not null_fills(ss):
        return
    ss.build()
    for _ in range(2):
        v, b = gen.valid_values(r, ss)
        if v is None:
            return
        note("%s values %s", ss, v)
        inst = ss.cls(**v)
        d, e = call(inst.to_bytes)
        got_or(e, "dumping")
        n, e = call(len, inst)
        expect(e is None and n == len(d), "len() is %s (%s), the dump has %s bytes", n, e, len(d))
        check_layout(r, ss, v, d)


def check_layout(r, ss, v, d):
    cs, e = call(ss.cls.get_size)
    got_or(e, "get_size")
    if cs is not None:
        expect(cs == len(d), "the class size is %s, the dump has %s bytes", cs, len(d))
    expect(cs is not None or ss.class_size() is None, "the class has no size although all fields have a fixed one (%s)", ss.class_size())
    pos = 0
    for f, b in ss.pieces(v, None):
        off = ss.cls.__binobj_struct__.components[f.name].offset
        if off is not None:
            expect(off == pos, "the offset of %s is %s, but it starts at %s", f.name, off, pos)
        pos += len(b)


@scen("C15", 1)
def length_inherited(r):
    ss = gen.struct_ss(r, n=r.randrange(2, 6), npvs=True, fixed=r.random() < 0.6)
    if ss.parent is None or not null_fills(ss):
        return
    ss.build()
    v, b = gen.valid_values(r, ss)
    if v is None:
        return
    note("%s values %s", ss, v)
    check_layout(r, ss, v, b)
    n, e = call(len, ss.cls(**v))
    expect(e is None and n == len(b), "len() is %s (%s), the dump has %s bytes", n, e, len(b))


@scen("C15", 1)
def length_dataclass(r):
    A, want = annotated(r)
    if A is None:
        return
    cls, ss = A
    v, b = gen.valid_values(r, ss)
    if v is None or not null_fills(ss):
        return
    ss.cls = cls
    note("dataclass %s values %s", ss, v)
    check_layout(r, ss, v, b)
    n, e = call(len, cls(**v))
    expect(e is None and n == len(b), "len() is %s (%s), the dump has %s bytes", n, e, len(b))


# ---- C16 ------------------------------------------------------------------------------------
class Once:
    """An iterable without length."""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


@scen("C16", 3)
def array_dump(r):
    c = gen.simple(r) if r.random() < 0.8 else gen.arr_f(r, 1)
    if r.random() < 0.3 and not isinstance(c, (ArrF, RawF)):
        c.null = gen.null_for(r, c)
    how = r.choice(["none", "const", "name", "field"])
    n = r.randrange(0, 5)
    m = r.choice([n, n, n, n + 1, max(0, n - 1), n + 3])
    f = ArrF(comp=c, count={"none": None, "const": n, "name": ("name", "n"), "field": ("field", "n")}[how], name="x")
    cnt = IntF(n=1, signed=False, name="n")
    cnt.build()
    cnt.obj.name = "n"
    o = f.build({"n": cnt})
    vs = f.value(r, m)
    form = r.choice(["list", "tuple", "gen", "iter", "once", "inf"])
    if form == "inf" and how == "none":
        form = "gen"
    data = {"list": list, "tuple": tuple, "gen": lambda x: (y for y in x), "iter": iter, "once": Once, "inf": lambda x: itertools.chain(x, itertools.repeat(vs[-1] if vs else c.value(r)))}[form](vs)
    note("%s with %s values as %s, count %s", f, m, form, n)
    s = Rec()
    _, e = call(o.to_stream, s, data, all_fields={"n": n})
    bad = how != "none" and (m != n or form == "inf")
    if bad:
        expect(isinstance(e, errors.ArraySizeError), "%s elements for a count of %s: wrote %s (%s)", m, n, s.getvalue(), e)
        expect(s.getvalue() == b"", "wrote %s although refused", s.getvalue())
    else:
        want = b"".join(c.to_stream(x, {"n": n}, None) for x in vs)
        expect(e is None and s.getvalue() == want, "wrote %s (%s), expected %s", s.getvalue(), e, want)


@scen("C16", 3)
def array_load(r):
    c = gen.simple(r) if r.random() < 0.8 else gen.arr_f(r, 1)
    if r.random() < 0.3 and not isinstance(c, (ArrF, RawF)):
        c.null = gen.null_for(r, c)
    how = r.choice(["none", "const", "name", "field"])
    n = r.randrange(0, 5)
    if how != "none" and c.null is UNSET and r.random() < 0.15:
        # Absent elements with a stand-in: they consume nothing and count.
        c.present, c.npv = (lambda get, ctx: get("n") % 2 == 0), r.choice([None, 0, "absent", False])
    f = ArrF(comp=c, count={"none": None, "const": n, "name": ("name", "n"), "field": ("field", "n")}[how], name="x")
    cnt = IntF(n=1, signed=False, name="n")
    cnt.build()
    cnt.obj.name = "n"
    o = f.build({"n": cnt})
    vs = f.value(r, n)
    if how == "none" and any(len(c.to_stream(x, {}, None)) == 0 for x in vs + [c.value(r)]):
        return
    b = b"".join(c.to_stream(x, {}, None) for x in vs)
    tail = b"" if how == "none" else junk(r)
    note("%s count %s bytes %s", f, n, b)
    try:
        want, end = f.dec(b + tail, 0, {"n": n}, None)
    except Refuse:
        return
    pre = junk(r)
    s = Rec(pre + b + tail)
    s.seek(len(pre))
    w, e = call(o.from_stream, s, None, {"n": n})
    expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)
    expect(s.tell() == len(pre) + end, "stream at %s, expected %s", s.tell() - len(pre), end)
    if how in ("name", "field") and c.present is None:
        _, e = call(o.from_stream, io.BytesIO(b), None, {})
        expect(e is not None, "a missing count was accepted")


@scen("C16", 2)
def array_halt(r):
    calls = []
    data = bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 8)))
    stop = r.choice([r.randrange(0, 6), "zero"])
    comp = fields.UInt8()
    loaded, ctx = {"q": 1}, object()

    def halt(seq, stream, values, context, loaded_fields):
        calls.append((seq, stream.tell(), list(values), context, dict(loaded_fields)))
        if stop == "zero":
            return bool(values) and values[-1] % 3 == 0
        return len(values) >= stop
    o = fields.Array(comp, halt_check=halt, name="x")
    note("custom stopping rule %s data %s", stop, data)
    pre = junk(r)
    s = io.BytesIO(pre + data)
    s.seek(len(pre))
    w, e = call(o.from_stream, s, ctx, dict(loaded))
    want, i = [], 0
    while not (bool(want) and want[-1] % 3 == 0 if stop == "zero" else len(want) >= stop):
        if i >= len(data):
            want = None
            break
        want.append(data[i])
        i += 1
    if want is None:
        expect(isinstance(e, errors.UnexpectedEOFError), "loaded %s (%s), expected the end-of-file error", w, e)
        i = len(data)
    else:
        expect(e is None and w == want, "loaded %s (%s), expected %s", w, e, want)
        expect(s.tell() == len(pre) + i, "stream at %s, expected %s", s.tell() - len(pre), i)
    exp = [(o, len(pre) + k, list(data[:k]), ctx, loaded) for k in range(i + 1)]
    expect(len(calls) == len(exp) and all(a[0] is x[0] and a[1:] == x[1:] for a, x in zip(calls, exp)), "the stopping rule was consulted with %s", [c[1:3] for c in calls])


@scen("C16", 2)
def array_struct(r):
    how = r.choice(["const", "name", "field", "computed", "none"])
    c = gen.simple(r, FIXED + [vli_f, strz_f])
    n = r.randrange(0, 5)
    cnt = IntF(n=2, signed=False, endian="big", name="n")
    arr = ArrF(comp=c, count=n if how == "const" else None if how == "none" else ("field" if how == "field" else "name", "n"), name="x")
    if how == "computed":
        cnt.compute = lambda get: len(get("x"))
    ss = SS([cnt, arr] if how == "none" or r.random() < 0.5 else [cnt, arr, IntF(n=1, signed=False, name="z")])
    ss.build()
    for _ in range(2):
        m = r.choice([n, n, n + 1, max(0, n - 1)])
        vs = arr.value(r, m)
        if how == "none" and any(len(c.to_stream(x, {}, None)) == 0 for x in vs):
            return
        v = {"x": vs, "z": 3}
        if how != "computed":
            v["n"] = n
        v = {k: x for k, x in v.items() if k in [f.name for f in ss.fields]}
        note("%s values %s", ss, v)
        try:
            want, ref = ss.dump(v), None
        except Refuse as rf:
            want, ref = None, rf
        b, e = call(lambda: ss.cls(**v).to_bytes())
        if ref is not None:
            expect(isinstance(e, errors.ArraySizeError), "%s elements for a count of %s: %s (%s)", m, n, b, e)
            continue
        expect(e is None and b == want, "dumped %s (%s), expected %s", b, e, want)
        try:
            lv, end = ss.load(want)
        except Refuse:
            continue
        w, e = call(ss.cls.from_bytes, want)
        expect(e is None and same(w, lv), "loaded %s (%s), expected %s", w, e, lv)


# ---- C17 ------------------------------------------------------------------------------------
@scen("C17", 4)
def subclassing(r):
    log = []
    base_ss = gen.struct_ss(r, n=r.randrange(1, 4), inherit=False, npvs=True, raw=True, fixed=r.random() < 0.5)
    rename(base_ss, "b")
    for _ in range(r.randrange(0, 2)):
        base_ss.fvals.append(((r.choice(base_ss.own).name,), predicate(r)))
    base_ss.build()
    metas = base_ss.cls.__binobj_struct__
    v, b = gen.valid_values(r, base_ss)
    if v is None:
        return
    note("parent %s values %s", base_ss, v)
    b0 = observe(base_ss, v, b)
    kids, with_meta = [], r.random() < 0.4
    for k in range(r.randrange(1, 3)):
        own = gen.struct_ss(r, n=r.randrange(1, 4), inherit=False, npvs=True, raw=True, fixed=r.random() < 0.5)
        rename(own, "k%d" % k)
        kid = SS(own.own, parent=r.choice([base_ss] + kids[:1]))
        if with_meta:
            # Defaults of a subclass, inherited by its own subclasses only.
            for f in kid.own:
                explicit_endian(r, f)
        if with_meta and r.random() < 0.7:
            kid.meta = {r.choice(["endian", "UInt16__endian", "Int32__endian", "Float32__endian"]): r.choice(["big", "little"])}
        names = [f.name for f in kid.fields]
        for _ in range(r.randrange(0, 3)):
            kid.fvals.append(((r.choice(names),), predicate(r)))
        if r.random() < 0.3:
            kid.svals.append(lambda get: False)
        kid.build()
        note("child %s", kid)
        kids.append(kid)
        b1 = observe(base_ss, v, b)
        expect(b0 == b1, "defining a subclass changed the parent: %s before, %s after", b0, b1)
        for kk in kids:
            check_class(kk)
    check_class(base_ss)
    for kk in kids:
        kv, kb = gen.valid_values(r, kk, tries=3)
        if kv is not None:
            drop_absent(kv, kk.resolve(kv, None))
            d, e = call(lambda: kk.cls(**kv).to_bytes())
            expect(e is None and d == kb, "child dumped %s (%s), expected %s", d, e, kb)
    # Children's own validators and the inherited ones apply to the child only.
    for kk in kids + [base_ss]:
        kv = kk.values(r)
        drop_absent(kv, kk.resolve(kv, None))
        check_dump(kk, kv, None)


def explicit_endian(r, f):
    """Make a field independent of the defaults of its structure."""
    if isinstance(f, ArrF):
        explicit_endian(r, f.comp)
    elif isinstance(f, (IntF, FloatF, TsF)) and f.endian is None:
        f.endian = r.choice(["big", "little"])


def rename(ss, p):
    """Prefix all names of a declaration without references between fields."""
    m = {}
    for f in ss.own:
        old = f.name
        f.name = f.name if f.name.startswith(p) else p + f.name
        m[old] = f.name
    fixrefs(ss, m)


def fixrefs(ss, m):
    for f in ss.own:
        if isinstance(f.size, tuple):
            f.size = (f.size[0], m.get(f.size[1], f.size[1]))
        if isinstance(f, ArrF) and isinstance(f.count, tuple):
            f.count = (f.count[0], m.get(f.count[1], f.count[1]))
        for at in ("compute", "present"):
            fn = getattr(f, at)
            if fn is not None and not getattr(fn, "renamed", None):
                if at == "compute":
                    g = lambda get, fn=fn, m=dict(m): fn(lambda n: get(m.get(n, n)))
                else:
                    # Conditions close over the field declarations themselves.
                    g = fn
                setattr(f, at, g)


def observe(ss, v, b):
    """What a class does: layout, dumps, loads and refusals."""
    c = ss.cls
    out = [tuple(c.__binobj_struct__.components), tuple((f.name, f.index, f.offset) for f in c.__binobj_struct__.components.values())]
    out.append(repr(call(c.get_size)))
    d, e = call(lambda: c(**v).to_bytes())
    out.append((d, type(e).__name__))
    w, e = call(c.from_bytes, b)
    out.append((repr(w), type(e).__name__))
    out.append(repr(call(lambda: len(c(**v)))))
    return out


def check_class(ss):
    comps = list(ss.cls.__binobj_struct__.components.values())
    expect([f.name for f in comps] == [f.name for f in ss.fields], "fields are %s, expected %s", [f.name for f in comps], [f.name for f in ss.fields])
    expect([f.index for f in comps] == list(range(len(comps))), "indices are %s", [f.index for f in comps])
    offs = ss.offsets()
    expect([f.offset for f in comps] == [offs[f.name] for f in ss.fields], "offsets are %s, expected %s", [f.offset for f in comps], [offs[f.name] for f in ss.fields])


@scen("C17", 1)
def refusals(r):
    a = type("A", (binobj.Struct,), {"x": fields.UInt8(), "y": fields.UInt16()})
    b = type("B", (binobj.Struct,), {"z": fields.UInt8()})
    k = r.randrange(4)
    note("refusal %d" % k)
    if k == 0:
        c, e = call(type, "C", (a,), {r.choice(["x", "y"]): fields.UInt32()})
        expect(isinstance(e, errors.FieldRedefinedError), "redefining a field gave %s / %s", c, e)
    elif k == 1:
        m = type("E", (binobj.Struct,), r.choice([{}, {"sv": psv(lambda s: True)}]))
        m2 = type("E2", (m,), {})
        bases = r.choice([(a, b), (b, a), (a, m), (m, a), (m2, a), (a, m2), (type("M", (), {}), a, m), (m, type("E3", (binobj.Struct,), {}))])
        c, e = call(type, "C", bases, r.choice([{"w": fields.UInt8()}, {}]))
        expect(isinstance(e, errors.MultipleInheritanceError), "two structures as bases gave %s / %s", c, e)
    elif k == 2:
        d = type("D", (a,), {"w": fields.UInt8()})
        c, e = call(type, "C", (d,), {r.choice(["x", "w"]): fields.UInt32()})
        expect(isinstance(e, errors.FieldRedefinedError), "redefining a grandparent's field gave %s / %s", c, e)
    else:
        mixin = type("M", (), {"helper": lambda self: 1})
        c, e = call(type, "C", (mixin, a), {"w": fields.UInt8()})
        expect(e is None and list(c.__binobj_struct__.components) == ["x", "y", "w"], "a mixin gave %s (%s)", c, e)
    expect(list(a.__binobj_struct__.components) == ["x", "y"], "the parent changed")
    d, e = call(lambda: a(x=1, y=2).to_bytes())
    expect(e is None and len(d) == 3, "the parent dumps %s (%s)", d, e)


@scen("C17", 2)
def sibling_validators(r):
    """Validators of a subclass, on inherited fields too, stay in the subclass."""
    a = type("A", (binobj.Struct,), {"x": fields.UInt8(), "y": fields.UInt8(), "chk": pv("x", lambda v: v != 1)})
    b = type("B", (a,), {"w": fields.UInt8(), "chk_b": pv("x", lambda v: v != 2), "chk_w": pv("w", lambda v: v != 3), "sv": psv(lambda s: s["y"] != 4)})
    c = type("C", (a,), {"u": fields.UInt8(), "chk_c": pv("y", lambda v: v != 5)})
    d = type("D", (b,), {"chk_d": pv("y", lambda v: v != 6)})
    rules = {a: lambda v: v["x"] != 1, b: lambda v: v["x"] not in (1, 2) and v["w"] != 3 and v["y"] != 4, c: lambda v: v["x"] != 1 and v["y"] != 5,
             d: lambda v: v["x"] not in (1, 2) and v["w"] != 3 and v["y"] not in (4, 6)}
    for cls, rule in rules.items():
        v = {n: r.randrange(0, 8) for n in cls.__binobj_struct__.components}
        note("%s %s", cls.__name__, v)
        s, e = call(lambda: cls(**v).to_bytes())
        expect((e is None) == rule(v), "%s with %s: dump gave %s / %s", cls.__name__, v, s, e)
        s, e = call(cls.from_bytes, bytes(v.values()))
        expect((e is None) == rule(v), "%s with %s: load gave %s / %s", cls.__name__, v, s, e)


@scen("C17", 2)
def tree_validators(r):
    """Validator methods for any number of own and inherited fields, in a tree of classes, refuse in their class and its subclasses only."""
    tree, classes = [], []
    for k in range(r.randrange(2, 6)):
        up = r.choice(tree) if tree and r.random() < 0.8 else None
        ns = {}
        names = list(up[1]) if up else []
        for _ in range(r.randrange(0 if up else 1, 4)):
            n = "f%d_%d" % (k, len(names))
            ns[n] = fields.UInt8()
            names.append(n)
        rules = list(up[2]) if up else []
        for j in range(r.randrange(0, 4)):
            on = r.sample(names, r.choice([1, 1, len(names), r.randrange(1, len(names) + 1)]))
            bad = r.randrange(0, 12)
            ns["chk%d_%d" % (k, j)] = pv(*on, (lambda bad: lambda v: v != bad)(bad))
            rules.append((on, bad))
        if r.random() < 0.3:
            n, bad = r.choice(names), r.randrange(0, 12)
            ns["sv%d" % k] = psv((lambda n, bad: lambda s: s[n] != bad)(n, bad))
            rules.append(([n], bad))
        cls = type("T%d" % k, (up[0] if up else binobj.Struct,), ns)
        tree.append((cls, names, rules))
        note("%s(%s): %s, refuses %s", cls.__name__, up[0].__name__ if up else "", names, rules)
    for cls, names, rules in tree:
        for _ in range(3):
            v = {n: r.randrange(0, 12) for n in names}
            ok = all(v[n] != bad for on, bad in rules for n in on)
            note("%s %s", cls.__name__, v)
            d, e = call(lambda: cls(**v).to_bytes())
            expect((e is None) == ok and (not ok or d == bytes(v.values())), "%s with %s: dump gave %s / %s", cls.__name__, v, d, e)
            d, e = call(cls.from_bytes, bytes(v.values()))
            expect((e is None) == ok, "%s with %s: load gave %s / %s", cls.__name__, v, d, e)


def pv(*n):
    pred, n = n[-1], n[:-1]

    @validates(*n)
    def check(self, field, value):
        if not pred(value):
            raise errors.ValidationError(field=field, value=value)
    return check


def psv(pred):
    @validates_struct
    def check(self, s):
        if not pred(s):
            raise errors.ValidationError(message="s", field=None, value=None)
    return check


# ---- C18 ------------------------------------------------------------------------------------
ANN = [fields.UInt8, fields.Int8, fields.UInt16, fields.Int32, fields.UInt64, fields.StringZ, fields.Float32, fields.Float64, fields.UUID4, fields.Timestamp32]


def ann_spec(r, cls, name, **o):
    import sys
    e = None
    if cls in (fields.UInt8, fields.Int8, fields.UInt16, fields.Int32, fields.UInt64):
        n = {fields.UInt8: 1, fields.Int8: 1, fields.UInt16: 2, fields.Int32: 4, fields.UInt64: 8}[cls]
        return IntF(name=name, n=n, signed=cls in (fields.Int8, fields.Int32), endian=e, **o)
    if cls is fields.StringZ:
        return StrZF(name=name, **o)
    if cls in (fields.Float32, fields.Float64):
        return FloatF(name=name, fmt="f" if cls is fields.Float32 else "d", endian=e, **o)
    if cls is fields.UUID4:
        return UuidF(name=name, layout="BINARY_VARIANT_1", implicit=True, **o)
    return TsF(name=name, n=4, res="s", signed=True, endian=e, aware=False, named=True, **o)


def annotated(r, parent=None, prefix="", inherited=True):
    """((class, spec), None) of a random annotated structure."""
    import typing
    ann, ns, own = {}, {"__module__": __name__}, []
    base = None
    if inherited and parent is None and r.random() < 0.4:
        base = r.choice(["assigned", "annotated"])
        if base == "assigned":
            parent = gen.struct_ss(r, n=r.randrange(1, 3), inherit=False, npvs=True, raw=True, fixed=r.random() < 0.6)
            rename(parent, "p")
            parent.build()
        else:
            got, _ = annotated(r, None, "p", False)
            got[1].cls = got[0]
            parent = got[1]
    n = r.randrange(1, 5)
    if r.random() < 0.5:
        ann["ignored"] = r.choice([int, str, typing.Optional[int], typing.ClassVar[int], "int"])
        if r.random() < 0.5:
            ns["ignored"] = 5
    for i in range(n):
        nm = "%sa%d" % (prefix, i)
        if r.random() < 0.1:
            nm = [["popitem", "clear", "setdefault"], ["update", "pop", "from_file"]][prefix == "p"][i % 3]
            if nm in ann:
                continue
        k = r.random()
        if k < 0.5:
            c = r.choice(ANN)
            f = ann_spec(r, c, nm)
            a = c
            if r.random() < 0.3:
                f.default = f.value(r)
                ns[nm] = f.default
            if r.random() < 0.3:
                a = r.choice([lambda: typing.Optional[c], lambda: c | None, lambda: None | c])()
                f.null = DEFAULT
        elif k < 0.85:
            f = gen.simple(r, [gen.int_f, gen.bytes_f, gen.str_f, gen.strz_f, gen.vli_f])
            f.name = nm
            if r.random() < 0.3:
                gen.with_default(r, f)
            if r.random() < 0.2 and not prefix:
                f.present = lambda get, ctx, b=r.random() < 0.5: b
            a = typing.Annotated[r.choice([int, str, bytes, typing.Any]), f.build()] if r.random() < 0.8 else f.build()
            if r.random() < 0.15 and a is not f.obj:
                a = typing.Annotated[int, "some note", f.obj]
            if r.random() < 0.3 and f.factory is None and f.const is UNSET:
                f.default = ns[nm] = f.value(r)
        else:
            f = gen.nest_f(r)
            f.name = nm
            f.ss.build()
            a = f.ss.cls
            if r.random() < 0.3:
                f.default = ns[nm] = f.value(r)
            if r.random() < 0.3:
                a = r.choice([lambda: typing.Optional[f.ss.cls], lambda: f.ss.cls | None])()
                f.null = DEFAULT
        ann[nm] = a
        own.append(f)
    ns["__annotations__"] = ann
    ss = SS(own, parent=parent)
    for _ in range(r.randrange(0, 2)):
        names = (r.choice(own).name,)
        pred = predicate(r)
        ss.fvals.append((names, pred))
        ns["chk%d" % len(ss.fvals)] = ss._fv(len(ss.fvals) - 1, names, pred)
    from binobj import pep526
    cls, e = call(lambda: pep526.dataclass(type("DC" + prefix, (parent.cls if parent else binobj.Struct,), ns)))
    note("annotations %s defaults %s parent %s", {k: str(v) for k, v in ann.items()}, {k: v for k, v in ns.items() if k in ann}, parent)
    got_or(e, "declaring")
    return (cls, ss), None


@scen("C18", 4)
def dataclass_equiv(r):
    (cls, ss), _ = annotated(r)
    ss.cls = cls
    comps = list(cls.__binobj_struct__.components.values())
    expect([f.name for f in comps] == [f.name for f in ss.fields], "fields are %s, expected %s", [f.name for f in comps], [f.name for f in ss.fields])
    expect([f.index for f in comps] == list(range(len(comps))), "indices are %s", [f.index for f in comps])
    offs = ss.offsets()
    expect([f.offset for f in comps] == [offs[f.name] for f in ss.fields], "offsets are %s, expected %s", [f.offset for f in comps], [offs[f.name] for f in ss.fields])
    for f, o in zip(ss.fields, comps):
        expect((f.null is not UNSET) == o.allow_null, "%s: allow_null is %s", f.name, o.allow_null)
        d = f.dflt()
        expect(same(o.default, UNDEF if d is UNSET else d) or d != d, "%s: default is %s, expected %s", f.name, o.default, d)
    # The same declaration by assignment.
    twin = SS(ss.own, parent=ss.parent, fvals=ss.fvals, svals=ss.svals)
    objs = [f.obj for f in ss.own]
    twin.build()
    size = call(cls.get_size)[0]
    expect(size == twin.cls.get_size(), "class size is %s, by assignment %s", size, twin.cls.get_size())
    for _ in range(2):
        v = ss.values(r)
        b1, e1 = call(lambda: cls(**v).to_bytes())
        b2, e2 = call(lambda: twin.cls(**v).to_bytes())
        note("values %s", v)
        expect(b1 == b2 and type(e1) is type(e2), "dumped %s (%s), by assignment %s (%s)", b1, e1, b2, e2)
        if e1 is None:
            w1, e1 = call(cls.from_bytes, b1)
            w2, e2 = call(twin.cls.from_bytes, b1)
            expect(type(e1) is type(e2) and (e1 is not None or same(dict_of(w1), dict_of(w2))), "loaded %s (%s), by assignment %s (%s)", w1, e1, w2, e2)
    for f, o in zip(ss.own, objs):
        f.obj = o
    ss.cls = cls


@scen("C18", 1)
def dataclass_refused(r):
    import typing
    from binobj import pep526
    k = r.randrange(6)
    note("refusal %d" % k)
    mk = lambda ns, ann, base=binobj.Struct: call(lambda: pep526.dataclass(type("DC", (base,), dict(ns, __annotations__=ann, __module__=__name__))))
    if k == 0:
        c, e = mk({"b": fields.UInt8()}, {"a": fields.UInt8})
        expect(isinstance(e, errors.MixedDeclarationsError), "mixed declarations gave %s / %s", c, e)
    elif k == 1:
        c, e = mk({}, {"a": typing.Annotated[int, fields.UInt8(), fields.UInt16()]})
        expect(isinstance(e, errors.ConfigurationError), "two field annotations gave %s / %s", c, e)
    elif k == 2:
        c, e = mk({}, r.choice([{}, {"a": int, "b": typing.ClassVar[int]}]))
        expect(isinstance(e, errors.NoDefinedFieldsError), "no fields gave %s / %s", c, e)
    elif k == 3:
        base = type("P", (binobj.Struct,), {"a": fields.UInt8()})
        c, e = mk({}, {r.choice(["a"]): fields.UInt16}, base)
        expect(isinstance(e, errors.FieldRedefinedError), "redefining gave %s / %s", c, e)
    elif k == 4:
        base = type("P", (binobj.Struct,), {"a": fields.UInt8()})
        c, e = mk({"q": fields.UInt8()}, {"b": fields.UInt16}, base)
        expect(isinstance(e, errors.MixedDeclarationsError), "mixed declarations gave %s / %s", c, e)
    else:
        c, e = mk({}, {"a": typing.Union[fields.UInt8, fields.UInt16]})
        expect(isinstance(e, errors.Error), "a union of fields gave %s / %s", c, e)


@scen("C18", 1)
def dataclass_defaults(r):
    """Meta defaults and string annotations."""
    from binobj import pep526
    e1 = r.choice(["big", "little"])
    meta = type("Meta", (), {"argument_defaults": {r.choice(["endian", "UInt16__endian"]): e1}})
    ns = {"__module__": "binobj.pep526", "Meta": meta}
    ann = {"a": "fields.UInt16", "b": "Optional[fields.UInt32]"}
    cls, e = call(lambda: pep526.dataclass(type("DS", (binobj.Struct,), dict(ns, __annotations__=ann))))
    got_or(e, "declaring")
    twin = type("TS", (binobj.Struct,), {"Meta": meta, "a": fields.UInt16(), "b": fields.UInt32(null_value=DEFAULT)})
    v = {"a": r.randrange(65536), "b": r.choice([None, r.randrange(1 << 32)])}
    note("values %s", v)
    b1, b2 = call(lambda: cls(**v).to_bytes()), call(lambda: twin(**v).to_bytes())
    expect(b1[0] == b2[0] and b1[1] is None, "dumped %s, by assignment %s", b1, b2)


# ---- C19 ------------------------------------------------------------------------------------
@scen("C19", 4)
def arg_defaults(r):
    import sys
    kinds = {"UInt16": (2, False, fields.UInt16), "Int32": (4, True, fields.Int32), "Integer": (3, True, fields.Integer), "Int8": (1, True, fields.Int8), "UInt64": (8, False, fields.UInt64),
             "UnsignedInteger": (5, False, fields.UnsignedInteger)}

    class MyInt(fields.UInt16):
        pass
    kinds["MyInt"] = (2, False, MyInt)

    def defaults():
        d = {}
        if r.random() < 0.6:
            d["endian"] = r.choice(["big", "little"])
        for n in kinds:
            if r.random() < 0.3:
                d[n + "__endian"] = r.choice(["big", "little"])
        if r.random() < 0.2:
            d["signed"] = False
        return d

    def decl(prefix, d, parent=None):
        out, ns = [], {"__module__": __name__}
        if d is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(d)})
        if r.random() < 0.3:
            # From here on, there are no fixed offsets.
            f = VliF(name=prefix + "v", fmt=VE.VLQ)
            ns[f.name] = f.build()
            out.append(f)
        for i in range(r.randrange(1, 4)):
            nm = r.choice(list(kinds))
            n, sg, c = kinds[nm]
            kw = {}
            if c in (fields.Integer, fields.UnsignedInteger):
                kw["size"] = n
            ex = r.choice([None, None, "big", "little"])
            if ex:
                kw["endian"] = ex
            fn = "%s%d" % (prefix, i)
            dd = d or {}
            eff = ex or dd.get(nm + "__endian") or dd.get("endian") or sys.byteorder
            f = IntF(name=fn, n=n, signed=sg, endian=eff)
            k = r.random()
            if k < 0.15:
                kw["const"] = f.const = f.value(r)
            elif k < 0.3:
                kw["default"] = f.default = f.value(r)
            elif k < 0.4:
                kw["null_value"] = f.null = f.value(r)
            if r.random() < 0.1:
                kw["discard"] = f.discard = True
            if r.random() < 0.1:
                kw["present"], f.present = (lambda v, c, s: True), (lambda get, ctx: True)
            ns[fn] = c(**kw)
            out.append(f)
        return type("S" + prefix, (parent or binobj.Struct,), ns), out
    d1 = defaults() if r.random() < 0.8 else None
    p, pf = decl("p", d1)
    d2 = defaults()
    c, cf = decl("c", d2, p)
    d3 = defaults() if r.random() < 0.8 else None
    note("parent defaults %s fields %s; child defaults %s fields %s", d1, pf, d2, cf)
    for cls, fs in ((p, pf), (c, pf + cf)):
        ss = SS(fs)
        v = {f.name: f.value(r) for f in fs if f.const is UNSET and (f.default is UNSET or r.random() < 0.5)}
        b, e = call(lambda: cls(**v).to_bytes())
        d = ss.dump(v)
        expect(e is None and b == d, "dumped %s of %s (%s), expected %s", b, v, e, d)
        w, e = call(cls.from_bytes, d)
        want = ss.load(d)[0]
        expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)


# ---- C20 ------------------------------------------------------------------------------------
@scen("C20", 3)
def nested(r):
    inner = gen.struct_ss(r, n=r.randrange(1, 4), npvs=True, inherit=r.random() < 0.3)
    for _ in range(r.randrange(0, 2)):
        inner.fvals.append(((r.choice(inner.fields).name,), lambda v: True))
    inner.build()
    ctx = gen.context(r)
    v, b = gen.valid_values(r, inner, ctx)
    if v is None:
        return
    note("nested %s values %s context %s", inner, v, ctx)
    o = fields.Nested(inner.cls, name="x")
    cls = type("Outer", (binobj.Struct,), {"h": fields.UInt8(), "x": fields.Nested(inner.cls), "t": fields.UInt8()})
    raw, e = call(lambda: inner.cls(**v).to_bytes(ctx))
    got_or(e, "dumping the structure")
    for form in ("instance", "mapping"):
        x = inner.cls(**v) if form == "instance" else dict(v)
        d, e = call(o.to_bytes, x, ctx)
        expect(e is None and d == raw, "nested %s dumped %s (%s), the structure dumps %s", form, d, e, raw)
        d, e = call(lambda: cls(h=1, x=x, t=2).to_bytes(ctx))
        expect(e is None and d == b"\x01" + raw + b"\x02", "structure with nested %s dumped %s (%s), expected %s", form, d, e, raw)
    for f in inner.fields:
        if isinstance(f, RawF):
            expect(all(c[2] == ctx for c in f.seen if c[0] == "dump" and c[1] is not None), "the context was not passed on")
            del f.seen[:]
    s, p, whole = stream_at(r, raw)
    w0, e0 = call(inner.cls.from_stream, s, ctx)
    end = s.tell()
    s.seek(p)
    w1, e1 = call(o.from_stream, s, ctx)
    expect(type(e0) is type(e1), "nested loading gave %s / %s, the structure %s / %s", w1, e1, w0, e0)
    if e0 is None:
        expect(type(w1) is inner.cls and same(w1, w0) and s.tell() == end, "nested loading gave %s at %s, the structure %s at %s", w1, s.tell(), w0, end)
    for f in inner.fields:
        if isinstance(f, RawF):
            expect(all(c[2] == ctx for c in f.seen if c[0] == "load"), "the context was not passed on")


@scen("C20", 3)
def union(r):
    kind = r.choice(["fields", "structs", "mixed"])
    mkf = lambda: gen.simple(r)
    mks = lambda: gen.struct_ss(r, n=r.randrange(1, 3), npvs=True, inherit=False, comps=False)
    cs = [mkf() if kind == "fields" or (kind == "mixed" and i == 0) else mks() for i in range(r.randrange(2, 4))]
    for i, c in enumerate(cs):
        if isinstance(c, FS):
            c.name = "c%d" % i
            if r.random() < 0.3:
                c.null = gen.null_for(r, c)
            if r.random() < 0.2:
                c.validators = [predicate(r)]
    ctx = gen.context(r)
    at = r.randrange(len(cs))
    u = UniF(choices=cs, pick=lambda ctx, vals: at, name="x")
    o = u.build()
    c = cs[at]
    if isinstance(c, FS):
        v = c.value(r)
        if r.random() < 0.15:
            c.const = v if v == v and not isinstance(c, RawF) else UNSET
            o = u.build()
        try:
            b = c.to_stream(v, {}, ctx)
        except Refuse:
            d, e = call(o.to_bytes, v, ctx, {})
            expect(e is not None, "dumped %s, the choice refuses it", d)
            return
    else:
        v, b = gen.valid_values(r, c, ctx)
        if v is None:
            return
    note("union %s choosing %s value %s", cs, at, v)
    allf = {"k": 3}
    d, e = call(o.to_bytes, v, ctx, dict(allf))
    expect(e is None and d == b, "dumped %s (%s), the choice dumps %s", d, e, b)
    calls = [x for x in u.seen if x[0] == "dump"]
    expect(len(calls) == 1, "the dump decider was consulted %s times", len(calls))
    expect(calls[0][1] is v and all(a is x for a, x in zip(calls[0][2], u.real)) and len(calls[0][2]) == len(u.real) and calls[0][3] == ctx and calls[0][4] == allf,
           "the dump decider got %s", calls[0])
    if isinstance(c, FS) and c.null is not UNSET and r.random() < 0.5:
        try:
            b = c.null_repr({})
        except Refuse:
            pass
    elif isinstance(c, FS) and r.random() < 0.3:
        b = c.enc(c.value(r), {}, ctx)
    s, p, whole = stream_at(r, b)
    try:
        if isinstance(c, FS):
            want, end = c.from_stream(whole, p, {}, ctx)
        else:
            want, end = c.load(whole, p, ctx)
    except Refuse as rf:
        w, e = call(o.from_stream, s, ctx, dict(allf))
        expect(e is not None, "loaded %s, the choice refuses it (%s)", w, rf.kinds)
        return
    w, e = call(o.from_stream, s, ctx, dict(allf))
    expect(e is None and same(w, want) and s.tell() == end, "loaded %s (%s) at %s, the choice loads %s", w, e, s.tell() - p, want)
    calls = [x for x in u.seen if x[0] == "load"]
    expect(len(calls) == 1 and calls[0][1] == p and all(a is x for a, x in zip(calls[0][2], u.real)) and calls[0][3] == ctx and calls[0][4] == allf, "the load decider got %s", calls)


@scen("C20", 2)
def union_struct(r):
    """A union chosen by an earlier field, in a structure."""
    cs = [gen.simple(r, FIXED + [strz_f]), gen.small_ss(r)]
    if r.random() < 0.5:
        cs.reverse()
    for i, c in enumerate(cs):
        if isinstance(c, FS):
            c.name = "c%d" % i
            if r.random() < 0.5:
                # A choice that depends on the other fields.
                d = r.choice([BytesF(size=("name", "k")), StrF(size=("name", "k"), encoding="ascii"), ArrF(comp=IntF(n=1, signed=False), count=("name", "k"))])
                d.name, cs[i] = c.name, d
    k = IntF(n=1, signed=False, name="k")
    u = UniF(choices=cs, pick=lambda ctx, vals: vals["k"] % 2, name="x")
    ss = SS([k, u, IntF(n=1, signed=False, name="t")])
    ss.build()
    for _ in range(2):
        kv = r.randrange(0, 4)
        c = cs[kv % 2]
        v = {"k": kv, "x": (c.value(r, kv) if isinstance(c, (BytesF, StrF, ArrF)) and (isinstance(c.size, tuple) or isinstance(c, ArrF)) else c.value(r)) if isinstance(c, FS) else c.values(r), "t": 7}
        note("%s values %s", ss, v)
        try:
            b = ss.dump(v)
        except Refuse:
            continue
        d, e = call(lambda: ss.cls(**v).to_bytes())
        expect(e is None and d == b, "dumped %s (%s), expected %s", d, e, b)
        want, end = ss.load(b)
        w, e = call(ss.cls.from_bytes, b)
        expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)


@scen("C20", 1)
def union_refused(r):
    sc = type("U", (binobj.Struct,), {"a": fields.UInt8()})
    bad = r.choice([5, None, "x", object(), int, fields.UInt8])
    note("decider returns %s", bad)
    o = fields.Union(fields.UInt8(), sc, load_decider=lambda *a: bad, dump_decider=lambda *a: bad)
    d, e = call(o.to_bytes, 5)
    expect(e is not None, "a bad dump choice was accepted: %s", d)
    w, e = call(o.from_bytes, b"\x05")
    expect(e is not None, "a bad load choice was accepted: %s", w)
    o = fields.Union(fields.UInt8(), sc, load_decider=lambda *a: sc, dump_decider=lambda *a: sc)
    v = r.choice([5, "a", [("a", 1)], b"\x05", (1,)])
    d, e = call(o.to_bytes, v)
    expect(e is not None, "%s was dumped as a structure: %s", v, d)
    d, e = call(o.to_bytes, {"a": 5})
    expect(e is None and d == b"\x05", "a mapping dumped as %s (%s)", d, e)
    v = {"a": 5, r.choice(["b", "A", "a ", "to_bytes", "__values__"]): r.choice([1, None])}
    w, e = call(sc, **v)
    expect(e is not None, "the structure accepts %s", v)
    d, e = call(o.to_bytes, v)
    expect(e is not None, "%s was dumped as a structure that refuses it: %s", v, d)


# ---- C21 ------------------------------------------------------------------------------------
@scen("C21", 3)
def floats(r):
    f = gen.float_f(r)
    o = f.build()
    raw = bytes(r.choice([0, 0xFF, 0x7F, 0x80, r.randrange(256)]) for _ in range(f.fixed))
    want = f.dec(raw, 0, {}, None)[0]
    note("%s bytes %s", f, raw)
    v, e = call(o.from_bytes, raw)
    expect(e is None and same(v, want), "loaded %s (%s), expected %s", v, e, want)
    b, e = call(o.to_bytes, v)
    expect(e is None and (b == raw or v != v and f.enc(want, {}, None) != raw), "dumping %s gave %s (%s), expected %s", v, b, e, raw)
    x = r.choice([f.value(r), r.uniform(-1e3, 1e3), r.uniform(-1, 1) * 10.0 ** r.randrange(-12, 60), 1e5, -7e4, 1e39, -1e308, r.randrange(-500, 500)])
    s = Rec()
    _, e = call(o.to_stream, s, x)
    try:
        want, ref = f.enc(x, {}, None), None
    except Refuse as rf:
        want, ref = None, rf
    note("value %s", x)
    if ref is None:
        expect(e is None and s.getvalue() == want, "dumped %s as %s (%s), expected %s", x, s.getvalue(), e, want)
    else:
        expect(isinstance(e, errors.SerializationError) and s.getvalue() == b"", "%s does not fit: wrote %s (%s)", x, s.getvalue(), e)


@scen("C21", 4)
def timestamps(r):
    f = gen.ts_f(r)
    if r.random() < 0.3:
        f.n = r.choice([5, 6, 7, 8])
    if f.res in ("us", "ns") and f.n < 8:
        f.n = 8
    o = f.build()
    v = f.value(r)
    note("%s value %s", f, v)
    b, e = call(o.to_bytes, v)
    want = f.enc(v, {}, None)
    expect(e is None and b == want, "dumped %s as %s (%s), expected %s", v, b, e, want)
    w, e = call(o.from_bytes, want)
    expect(e is None and w == v and (w.tzinfo is not None) == f.aware, "loaded %s as %s (%s), expected %s", want, w, e, v)
    # Finer than the resolution.
    us = r.randrange(-10**12, 4 * 10**15) if r.random() < 0.7 else r.randrange(-3 * 10**6, 3 * 10**6)
    if f.aware:
        tz = datetime.timezone(datetime.timedelta(minutes=r.choice([0, 60, -330, 345])))
        t = (datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)).astimezone(tz)
    else:
        t = datetime.datetime.fromtimestamp(us // 10**6).replace(microsecond=us % 10**6)
    note("value %s", t)
    s = Rec()
    _, e = call(o.to_stream, s, t)
    try:
        want, ref = f.enc(t, {}, None), None
    except Refuse as rf:
        want, ref = None, rf
    if ref is None:
        expect(e is None and s.getvalue() == want, "dumped %s as %s (%s), expected %s", t, s.getvalue(), e, want)
    else:
        expect(isinstance(e, errors.SerializationError) and s.getvalue() == b"", "%s does not fit: wrote %s (%s)", t, s.getvalue(), e)


@scen("C21", 1)
def timestamp_bytes(r):
    f = gen.ts_f(r)
    o = f.build()
    lim = 2 * 10**9 * TsF.UN[f.res]
    lo, hi = f.raw().rng()
    n = r.randrange(max(lo, -lim), min(hi, lim))
    if f.res == "ns":
        n = n // 1000 * 1000
        if n < lo:
            return
    raw = f.raw().enc(n, {}, None)
    note("%s bytes %s", f, raw)
    v, e = call(o.from_bytes, raw)
    got_or(e, "loading")
    expect(v == f.dec(raw, 0, {}, None)[0], "loaded %s, expected %s", v, f.dec(raw, 0, {}, None)[0])
    b, e = call(o.to_bytes, v)
    expect(e is None and b == raw, "dumping the loaded %s gave %s (%s), expected %s", v, b, e, raw)


@scen("C21", 2)
def uuids_bytes(r):
    f = gen.uuid_f(r) if r.random() < 0.7 else gen.bytes_f(r)
    o = f.build()
    v = f.value(r)
    note("%s value %s", f, v)
    b, e = call(o.to_bytes, v)
    want = f.enc(v, {}, None)
    expect(e is None and b == want, "dumped %s as %s (%s), expected %s", v, b, e, want)
    s, p, _ = stream_at(r, want)
    w, e = call(o.from_stream, s)
    expect(e is None and same(w, v) and s.tell() == p + len(want), "loaded %s (%s), expected %s", w, e, v)
    if isinstance(f, BytesF):
        bad = v + b"x" * r.randrange(1, 3) if r.random() < 0.5 or not v else v[:-1]
        st = Rec()
        _, e = call(o.to_stream, st, bad)
        expect(isinstance(e, errors.SerializationError) and st.getvalue() == b"", "%s does not fit: wrote %s (%s)", bad, st.getvalue(), e)
        w, e = call(o.from_bytes, bytearray(v) if 0 else v)
        expect(e is None and same(w, v), "loaded %s (%s), expected %s", w, e, v)


@scen("C21", 1)
def native_struct(r):
    fs = [r.choice([gen.float_f, gen.ts_f, gen.uuid_f, gen.bytes_f])(r) for _ in range(r.randrange(1, 4))]
    for i, f in enumerate(fs):
        f.name = "f%d" % i
    ss = SS(fs)
    ss.build()
    v, b = gen.valid_values(r, ss)
    if v is None:
        return
    note("%s values %s", ss, v)
    d, e = call(lambda: ss.cls(**v).to_bytes())
    expect(e is None and d == b, "dumped %s (%s), expected %s", d, e, b)
    w, e = call(ss.cls.from_bytes, b)
    expect(e is None and same(w, v), "loaded %s (%s), expected %s", w, e, v)


# ---- C22 ------------------------------------------------------------------------------------
ENC2 = ENC + ["utf-8", "utf-16", "utf-32-be", "cp1252", "euc_jp", "gb18030", "utf-8-sig"]


@scen("C22", 3)
def stringz(r):
    f = StrZF(encoding=r.choice(ENC2), name="x")
    t = f.text(r, 8 if r.random() < 0.95 else 100 + gen.big(r) % 900) if f.encoding not in ("cp1252", "euc_jp", "gb18030") else "".join(r.choice("abc 09") for _ in range(r.randrange(0, 8)))
    term = "\0".encode(f.encoding) if f.encoding not in ("utf-16", "utf-8-sig") else None
    b = (t + "\0").encode(f.encoding)
    note("%s text %s", f.encoding, t)
    o = f.build()
    d, e = call(o.to_bytes, t)
    expect(e is None and d == b, "dumped %s as %s (%s), expected %s", t, d, e, b)
    s, p, _ = stream_at(r, b)
    w, e = call(o.from_stream, s)
    expect(e is None and w == t, "loaded %s (%s), expected %s", w, e, t)
    expect(s.tell() == p + len(b), "stream at %s, expected %s", s.tell() - p, len(b))
    expect(max(a + n for a, n in s.reads) <= p + len(b), "read past the terminator")
    # Sized.
    n = max(0, len(b) + r.choice([-2, -1, 0, 1, 3, r.randrange(4, 700)]))
    tail = b"q" * max(4, n - len(b) + r.choice([0, 1]))
    f2 = StrZF(encoding=f.encoding, size=n, name="x")
    try:
        want, ref = f2.dec(b + tail, 0, {}, None), None
    except Refuse as rf:
        want, ref = None, rf
    note("size %s", n)
    s, p, _ = stream_at(r, b, tail)
    w, e = call(f2.build().from_stream, s)
    if ref is None:
        expect(e is None and w == want[0] and s.tell() == p + want[1], "loaded %s (%s), expected %s", w, e, want[0])
    else:
        expect(e is not None, "loaded %s although the terminator is not within %s bytes of %s", w, n, b)
    # No terminator at all.
    cut = b[:-1]
    w, e = call(o.from_bytes, cut)
    expect(e is not None, "loaded %s without a terminator", w)


@scen("C22", 2)
def strings(r):
    f = gen.str_f(r, padok=True)
    if r.random() < 0.4:
        f.size = r.randrange(0, 8)
    o = f.build()
    v = f.value(r)
    note("%s text %s", f, v)
    try:
        b, ref = f.enc(v, {}, None), None
    except Refuse as rf:
        b, ref = None, rf
    d, e = call(o.to_bytes, v)
    if ref is not None:
        expect(e is not None, "dumped %s, expected a refusal", d)
        return
    expect(e is None and d == b, "dumped %s (%s), expected %s", d, e, b)
    try:
        want = b.decode(f.encoding)
    except UnicodeDecodeError:
        return
    s, p, _ = stream_at(r, b)
    w, e = call(o.from_stream, s)
    expect(e is None and w == want and s.tell() == p + len(b), "loaded %s (%s) at %s, expected %s", w, e, s.tell() - p, want)


@scen("C22", 2)
def string_struct(r):
    fs = [r.choice([gen.strz_f, gen.str_f])(r) for _ in range(r.randrange(1, 4))] + [IntF(n=1, signed=False)]
    for i, f in enumerate(fs):
        f.name = "f%d" % i
        if isinstance(f, StrF) and r.random() < 0.3:
            gen.with_default(r, f)
            if f.const is not UNSET:
                gen.const_to_default(f)
    ss = SS(fs)
    ss.build()
    v, b = gen.valid_values(r, ss)
    if v is None:
        return
    note("%s values %s", ss, v)
    d, e = call(lambda: ss.cls(**v).to_bytes())
    expect(e is None and d == b, "dumped %s (%s), expected %s", d, e, b)
    try:
        want, end = ss.load(b)
    except Refuse:
        return
    w, e = call(ss.cls.from_bytes, b)
    expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)


@scen("C22", 1)
def stringz_sized_struct(r):
    n = r.randrange(1, 9)
    enc = r.choice(["ascii", "utf-8", "utf-16-le"])
    t = "".join(r.choice("ab\xe9" if enc != "ascii" else "ab") for _ in range(r.randrange(0, 7)))
    b = (t + "\0").encode(enc)
    how = r.choice(["name", "field", "const"])
    cnt = fields.UInt8()
    pad = r.choice([None, None, b" ", b"\0"])
    cls = type("Z", (binobj.Struct,), {"n": cnt, "x": fields.StringZ(encoding=enc, size={"name": "n", "field": cnt, "const": n}[how], pad_byte=pad), "t": fields.UInt8()})
    note("sized null-terminated string %s in %s bytes (%s)", b, n, how)
    data = bytes([n]) + b + bytes(r.choice(b"\0ab") for _ in range(n - len(b))) + b"\x09"
    w, e = call(cls.from_bytes, data)
    if len(b) <= n:
        expect(e is None and w.x == t and w.t == 9, "loaded %s (%s), expected %s", w, e, t)
        for k in range(1, len(data)):
            w, e = call(cls.from_bytes, data[:k])
            expect(isinstance(e, errors.UnexpectedEOFError), "loaded %s (%s) from the first %s bytes", w, e, k)
    else:
        expect(e is not None, "loaded %s although the terminator is not within %s bytes", w, n)
    d, e = call(lambda: cls(n=n, x=t, t=9).to_bytes())
    if pad is not None and len(b) <= n:
        expect(e is None and d == bytes([n]) + b + pad * (n - len(b)) + b"\x09", "dumped %s (%s)", d, e)
        w, e = call(cls.from_bytes, d)
        expect(e is None and w.x == t and w.t == 9, "loaded %s (%s) from the dump %s", w, e, d)
    elif len(b) == n:
        expect(e is None and d == data, "dumped %s (%s), expected %s", d, e, data)
    else:
        expect(e is not None, "dumped %s in a size of %s", d, n)


# ---- C23 ------------------------------------------------------------------------------------
@scen("C23", 4)
def mapping(r):
    ss = gen.struct_ss(r, n=r.randrange(1, 6), discards=True, raw=True, npvs=True)
    ss.build()
    names = [f.name for f in ss.fields]
    v, b = gen.valid_values(r, ss)
    if v is None:
        return
    note("%s values %s", ss, v)
    inst, e = call(lambda: ss.cls(**v))
    got_or(e, "constructing")
    bad = r.choice(["nosuch", "to_bytes", "__values__", "to_dict", "__class__", "get_size", "__binobj_struct__", "Meta", "f99", ""])
    _, e = call(lambda: ss.cls(**v, **{bad: 1}))
    expect(isinstance(e, errors.UnexpectedValueError), "an unknown value (%s) was accepted (%s)", bad, e)
    vals = ss.resolve(v, None)
    setv = dict(v)
    for step in range(r.randrange(1, 7)):
        k = r.randrange(8)
        n = r.choice(names)
        f = ss.field(n)
        before = snapshot(inst)
        vals = ss.resolve(setv, None)
        if k == 0:
            expect({x for x in inst} == set(setv) and len([x for x in inst]) == len(setv), "iteration yields %s, set are %s", [x for x in inst], list(setv))
        elif k == 1:
            a, e1 = call(getattr, inst, n)
            i, e2 = call(inst.__getitem__, n)
            expect(type(e1) is type(e2) and (e1 is not None or same(plain(a), plain(i)) or f.factory), "attribute gives %s (%s), item gives %s (%s)", a, e1, i, e2)
            if n in setv:
                expect(e1 is None and a is setv[n] or same(a, setv[n]), "%s is %s, set to %s", n, a, setv[n])
            elif vals[n] is not UNSET and not (f.compute and any(x is UNSET for x in vals.values())):
                expect(e1 is None and same(plain(a), plain(vals[n])), "%s is %s (%s), a dump uses %s", n, a, e1, vals[n])
        elif k == 2:
            for keep in (False, True):
                d, e = call(inst.to_dict, keep)
                if any(x is UNSET for x in vals.values()):
                    expect(e is not None, "to_dict gave %s without a value for every field", d)
                    continue
                want = {g.name: (setv[g.name] if g.name in setv and vals[g.name] is NP else vals[g.name]) for g in ss.fields if keep or not g.discard}
                expect(e is None and isinstance(d, dict) and set(d) == set(want), "to_dict(%s) gave %s (%s), expected %s", keep, d, e, want)
                for g in ss.fields:
                    if g.name in d and vals[g.name] is not NP:
                        x = d[g.name]
                        expect(no_structs(x), "to_dict left a structure in %s", x)
                        expect(same(x, deep(g, vals[g.name])), "to_dict gives %s for %s, expected %s", x, g.name, vals[g.name])
        elif k == 3:
            _, e = call(inst.__delitem__, n) if r.random() < 0.6 else call(inst.__delitem__, n)
            got_or(e, "deleting")
            setv.pop(n, None)
            expect({x for x in inst} == set(setv), "after deleting %s, set are %s", n, [x for x in inst])
            continue
        elif k == 4:
            if f.const is UNSET and f.compute is None:
                x = f.value(r)
                _, e = call(setattr, inst, n, x) if r.random() < 0.5 else call(inst.__setitem__, n, x)
                got_or(e, "assigning")
                setv[n] = x
                expect(same(plain(inst[n]), plain(x)) and {x for x in inst} == set(setv), "assigned %s to %s, got %s", x, n, inst[n])
            continue
        elif k == 5:
            for op in (lambda: inst["nosuch"], lambda: inst.__setitem__("nosuch", 1), lambda: inst.__delitem__("nosuch"), lambda: inst["__values__"]):
                x, e = call(op)
                expect(isinstance(e, KeyError), "access to an unknown name gave %s / %s", x, e)
        elif k == 6:
            if any(isinstance(x, (list, dict, float)) for x in setv.values()):
                continue
            o = ss.cls(**setv)
            if not any(x is NP or x != x for x in setv.values()):
                expect((inst == o) is True, "equal values compare unequal: %s %s", inst, o)
                d = dict(setv)
                expect((inst == d) is True, "the structure differs from a mapping with its values")
                if d and f.const is UNSET:
                    m = r.choice(list(d))
                    d2 = dict(d)
                    del d2[m]
                    expect((inst == ss.cls(**d2)) is False and (ss.cls(**d2) == inst) is False, "equal although %s is not set in the other", m)
                    expect((inst == d2) is False and (ss.cls(**d2) == d) is False, "equal to a mapping although %s is not set in one of them", m)
                    x = ss.field(m).value(r)
                    if not same(x, d[m]) and x != d[m]:
                        d2[m] = x
                        expect((inst == ss.cls(**d2)) is False, "equal although %s differs", m)
        else:
            call(len, inst)
            call(repr, inst)
        after = snapshot(inst)
        expect(set(after) == set(before) and all(after[x] is before[x] for x in before), "a query changed the structure from %s to %s", before, after)


def no_structs(x):
    if isinstance(x, binobj.Struct):
        return False
    if isinstance(x, dict):
        return all(no_structs(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return all(no_structs(y) for y in x)
    return True


def deep(f, v):
    return v


@scen("C23", 2)
def nested_dicts(r):
    inner = type("In", (binobj.Struct,), {"a": fields.UInt8(), "b": fields.UInt8(default=4), "d": fields.UInt8(discard=True, default=6)})
    cls = type("Out", (binobj.Struct,), {"x": fields.Nested(inner), "l": fields.Array(fields.Nested(inner)), "m": fields.Array(fields.Array(fields.Nested(inner)))})
    mk = lambda: inner(a=r.randrange(5), **({"d": 7} if r.random() < 0.5 else {}))
    x, l, m = mk(), [mk() for _ in range(r.randrange(0, 3))], [[mk() for _ in range(r.randrange(0, 2))] for _ in range(r.randrange(0, 2))]
    if r.random() < 0.3:
        l = tuple(l)
    inst = cls(x=x, l=l, m=m)
    keep = r.random() < 0.5
    conv = lambda s: dict({"a": s.a, "b": 4}, **({"d": s.d} if keep else {}))
    want = {"x": conv(x), "l": [conv(s) for s in l], "m": [[conv(s) for s in q] for q in m]}
    note("nested to_dict keep=%s", keep)
    d, e = call(inst.to_dict, keep)
    expect(e is None and d == want and no_structs(d), "to_dict gave %s (%s), expected %s", d, e, want)
    expect(inst.x is x and inst.l is l and set(x) <= {"a", "d"}, "to_dict changed the structure")
    two = cls(x=inner(**dict_of(x)), l=[inner(**dict_of(s)) for s in l], m=[[inner(**dict_of(s)) for s in q] for q in m])
    expect((inst == two) is True, "structures with equal values compare unequal")
    other = cls(x=inner(a=9), l=list(l), m=m)
    expect((inst == other) is False, "structures with different nested values compare equal")
    expect((inst == r.choice([5, None, "x", [1], object()])) is False, "equal to something that is no structure")


@scen("C23", 1)
def constructor(r):
    cls = type("Out", (binobj.Struct,), {"x": fields.UInt8(), "y": fields.UInt8(default=2)})
    sub = type("Sub", (cls,), {"z": fields.UInt8()})
    names = ["x", "y", "z", "q"]
    v = {n: r.randrange(5) for n in r.sample(names, r.randrange(0, 4))}
    for c, known in ((cls, {"x", "y"}), (sub, {"x", "y", "z"})):
        inst, e = call(lambda: c(**v))
        note("%s(%s)", c.__name__, v)
        if set(v) <= known:
            expect(e is None and dict_of(inst) == v, "constructed %s (%s) from %s", inst, e, v)
        else:
            expect(isinstance(e, errors.UnexpectedValueError), "accepted %s: %s %s", v, inst, e)


# ---- C24 ------------------------------------------------------------------------------------
@scen("C24", 4)
def ref_sizes(r):
    how = r.choice(["name", "field"])
    kind = r.choice(["bytes", "str", "strz", "blob"])
    n = r.randrange(0, 7)
    case = r.choice(["ok", "ok", "missing", "type"])
    cnt = fields.UInt8(name="cnt", **r.choice([{}, {}, {"default": r.choice([2, 3, 4])}, {"factory": lambda: 3}, {"const": 3}, {"null_value": b"\xff"}, {"null_value": 3, "default": None}]))
    size = "cnt" if how == "name" else cnt
    o = {"bytes": lambda: fields.Bytes(size=size, name="x"), "str": lambda: fields.String(size=size, encoding="ascii", name="x"),
         "strz": lambda: fields.StringZ(size=size, encoding="ascii", name="x"), "blob": lambda: Blob(size=size, name="x")}[kind]()
    vals = {"other": 3}
    badv = r.choice(["4", None, 2.0, b"\x04", [1]])
    if case != "missing":
        vals["cnt"] = n if case == "ok" else badv
    data = bytes(r.choice(b"abc") for _ in range(n + 3))
    if kind == "strz":
        data = b"ab\0cdefgh"
    note("%s size by %s, values %s", kind, how, vals)
    s = io.BytesIO(data)
    w, e = call(o.from_stream, s, None, dict(vals))
    check_ref(case, e, "load")
    if case == "ok":
        if kind == "strz":
            expect((e is None) == (n >= 3) and (e is not None or w == "ab"), "loaded %s (%s) with size %s", w, e, n)
        else:
            want = data[:n] if kind in ("bytes", "blob") else data[:n].decode()
            expect(e is None and w == want and s.tell() == n, "loaded %s (%s), expected %s", w, e, want)
    for m in (n, n + 1, max(0, n - 1)):
        v = b"abcdefgh"[:m] if kind in ("bytes", "blob") else "abcdefgh"[:m]
        ln = m + (kind == "strz")
        s = Rec()
        _, e = call(o.to_stream, s, v, all_fields=dict(vals))
        check_ref(case, e, "dump")
        if case == "ok":
            if ln == n:
                expect(e is None and len(s.getvalue()) == n, "wrote %s (%s) for a size of %s", s.getvalue(), e, n)
            else:
                expect(e is not None and s.getvalue() == b"", "wrote %s for a size of %s", s.getvalue(), n)
        else:
            expect(s.getvalue() == b"", "wrote %s", s.getvalue())
    # What earlier operations saw is not remembered, and nothing given means nothing available.
    for kw in ({}, {"all_fields": None}, {"all_fields": {}}, {"all_fields": {"other": 3}}):
        s = Rec()
        for v in (b"abcdefgh"[:n] if kind in ("bytes", "blob") else "abcdefgh"[:n], b"" if kind in ("bytes", "blob") else ""):
            _, e = call(o.to_stream, s, v, **kw)
            check_ref("missing", e, "dump")
            expect(s.getvalue() == b"", "wrote %s", s.getvalue())
            _, e = call(o.to_bytes, v, **kw)
            check_ref("missing", e, "dump")
            _, e = call(o.to_bytes, v, all_fields={"x": v})
            check_ref("missing", e, "dump")
    for kw in ({}, {"loaded_fields": None}, {"loaded_fields": {}}, {"loaded_fields": {"other": 3}}):
        _, e = call(o.from_stream, io.BytesIO(data), **kw)
        check_ref("missing", e, "load")
        _, e = call(o.from_bytes, data, exact=False, **kw)
        check_ref("missing", e, "load")


def check_ref(case, e, what):
    if case == "missing":
        expect(isinstance(e, errors.MissingRequiredValueError), what + " without the size: %s", e)
        expect(getattr(e.field, "name", e.field) == "cnt", what + ": the error names %s", e.field)
    elif case == "type":
        expect(isinstance(e, TypeError), what + " with a size that is no integer: %s", e)


@scen("C24", 3)
def ref_struct(r):
    ss = gen.struct_ss(r, n=r.randrange(2, 6), nulls=r.random() < 0.3, conds=r.random() < 0.3, npvs=True, dflts=False)
    if not any(isinstance(f.size, tuple) for f in ss.fields):
        return
    ss.build()
    ctx = gen.context(r)
    for _ in range(3):
        v, b = gen.valid_values(r, ss, ctx)
        if v is None:
            return
        note("%s values %s", ss, v)
        check_dump(ss, v, ctx)
        try:
            want, end = ss.load(b, 0, ctx)
        except Refuse:
            continue
        if end != len(b):
            continue
        w, e = call(ss.cls.from_bytes, b, ctx)
        expect(e is None and same(w, want), "loaded %s (%s), expected %s", w, e, want)


@scen("C24", 1)
def ref_later(r):
    """A size declared after its user is not available when loading."""
    late = fields.UInt8(name="n")
    how = r.choice(["name", "field"])
    cls = type("L", (binobj.Struct,), {"x": fields.Bytes(size="n" if how == "name" else late), "n": late})
    note("size declared later, by %s", how)
    w, e = call(cls.from_bytes, b"ab\x02")
    expect(isinstance(e, errors.MissingRequiredValueError) and getattr(e.field, "name", e.field) == "n", "loaded %s (%s)", w, e)
    d, e = call(lambda: cls(x=b"ab", n=2).to_bytes())
    expect(e is None and d == b"ab\x02", "dumped %s (%s)", d, e)
    d, e = call(lambda: cls(x=b"ab", n=3).to_bytes())
    expect(isinstance(e, errors.ValueSizeError), "dumped %s (%s)", d, e)


# ---- histories: one class, many operations -------------------------------------------------
def history(r):
    """Interleaved operations on one class; each has to behave as on a fresh class."""
    ss = gen.struct_ss(r, n=r.randrange(2, 6), npvs=True)
    ss.build()
    for _ in range(r.randrange(2, 6)):
        ctx = gen.context(r)
        v, b = gen.valid_values(r, ss, ctx, tries=3)
        if v is None:
            continue
        k = r.randrange(6)
        note("%s: operation %s values %s context %s", ss, k, v, ctx)
        inst = ss.cls(**v)
        if k == 0:
            check_dump(ss, v, ctx, unchanged=True)
        elif k == 1:
            for f in ss.fields:
                if isinstance(f, RawF):
                    del f.seen[:]
            check_load(r, ss, b, ctx)
        elif k == 2:
            call(len, inst)
            call(inst.to_dict)
            call(ss.cls.get_size)
        elif k == 3:
            call(ss.cls.get_field, io.BytesIO(b), r.choice(ss.fields).name, ctx)
        elif k == 4:
            call(ss.cls.partial_load, io.BytesIO(b[:r.randrange(len(b) + 1)]), None, ctx)
        else:
            call(inst.partial_dump, io.BytesIO(), r.choice(ss.fields).name, ctx)
    v, b = gen.valid_values(r, ss, None)
    if v is not None:
        check_dump(ss, v, None)
        for f in ss.fields:
            if isinstance(f, RawF):
                del f.seen[:]
        check_load(r, ss, b, None)


for _p in ("C07", "C11", "C24", "C08"):
    SCEN.setdefault(_p, []).append((1, history))


@scen("C23", 1)
def nested_equality(r):
    """Structures are compared by the values set in them, at every level."""
    inner = type("I", (binobj.Struct,), {"a": fields.UInt8(), "b": fields.UInt8(present=lambda v, c, s: bool(c)), "c": fields.UInt8(default=1),
                                         "d": fields.UInt8(discard=True), "k": fields.UInt8(const=3)})
    outer = type("O", (binobj.Struct,), {"x": fields.Nested(inner), "l": fields.Array(fields.Nested(inner)), "s": fields.Nested(inner)})

    def vals():
        return {n: r.choice([0, 1]) for n in "abcd" if r.random() < 0.4}

    def outer_vals():
        o = {"x": vals(), "l": [vals() for _ in range(r.randrange(0, 3))], "s": vals()}
        return {n: o[n] for n in o if r.random() < 0.8}

    def make(o):
        some = lambda v: inner(**v) if r.random() < 0.6 else v
        return {n: [some(x) for x in v] if n == "l" else some(v) for n, v in o.items()}
    a = outer_vals()
    b = outer_vals() if r.random() < 0.3 else copy.deepcopy(a)
    if r.random() < 0.5 and b:
        n = r.choice(list(b))
        t = r.choice(b[n] or [{}]) if n == "l" else b[n]
        t[r.choice("abcd")] = r.choice([0, 1])
    p, q = outer(**make(a)), outer(**make(b))
    note("%s and %s", p, q)
    for x, y in ((p, q), (q, p), (p, make(b)), (p, b)):
        eq, e = call(lambda: x == y)
        expect(e is None and eq is (a == b), "%s == %s is %s (%s)", x, y, eq, e)
        ne, e = call(lambda: x != y)
        expect(e is None and ne is (a != b), "%s != %s is %s (%s)", x, y, ne, e)
