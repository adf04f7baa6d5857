"""Contracts of the built-in field types, through Field.to_stream and Field.from_stream."""
from .lib import *
from pyvc.engine import decode, dec_ok, encode, enc_ok, strcat
from pyvc.models import (DateTime, U_FROM, U_FROM_OK, U_HEX, U_STR, U_VIEWS, UUIDv, fits, inc_ok, inc_out, pack, pack_ok, ts_ok, unpack)

BASE = ["binobj.fields.base.Field.to_stream", "binobj.fields.base.Field.from_stream", "binobj.fields.base.Field.get_expected_size"]


def make(vm, cls, **kw):
    """A field made by the real constructor."""
    f, e = raises(vm, "x", cls, [], dict(kw, name="fld"))
    if e is not None:
        vm.prove("the configuration is accepted", z3.BoolVal(False))
        raise PathEnd()
    return f


def dump(vm, f, x, d=None):
    """(bytes written or None, exception, values)."""
    s = out_stream(vm)
    d0 = s.data
    d = d if d is not None else sym_dict(vm, "vals")
    r, e, public = dump_it(vm, f, s, x, context(vm), d)
    if e is not None:
        if public:
            vm.prove("refused: nothing is written", z3.And(s.data == d0, s.pos == z3.Length(d0)))
        return None, e
    w = z3.Const("w", SeqS)
    if not vm.valid(z3.PrefixOf(d0, s.data)):
        vm.prove("existing contents are kept", False)
    vm.assume(s.data == z3.Concat(d0, w))
    vm.assume(z3.Length(s.data) == z3.Length(d0) + z3.Length(w))
    return w, None


def load(vm, f, d=None):
    """(value, exception, data, start, stream)."""
    s = in_stream(vm)
    data, p0 = s.data, s.pos
    d = d if d is not None else sym_dict(vm, "vals")
    r, e = load_it(vm, f, s, context(vm), d)
    return r, e, data, p0, s


def eof(vm, e, f, data, p0, n):
    """Loading failed: exactly because fewer than n bytes are left, and says so."""
    vm.cover("truncated")
    vm.prove("truncated: the unexpected-end-of-file error, naming the field",
             z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError) and (e.attrs.get("field") is f or not vm.public)))
    vm.prove("truncated: only if the input ends before the value is complete", p0 + n > z3.Length(data))


def chunk(vm, data, p0, n, s):
    """The n bytes at p0, proved to be there and to be all that was consumed."""
    vm.prove("all bytes were there", p0 + n <= z3.Length(data))
    vm.prove("exactly its bytes are consumed", s.pos == p0 + n)
    return z3.SubSeq(data, p0, n)


# ---- fixed-width integers (C03, C05) --------------------------------------------------------
def pick_int(vm):
    cls, n, sg = vm.pick((fields.Integer, None, True), (fields.Integer, None, False), (fields.UnsignedInteger, None, False),
                         (fields.Int8, 1, True), (fields.Int16, 2, True), (fields.Int32, 4, True), (fields.Int64, 8, True),
                         (fields.UInt8, 1, False), (fields.UInt16, 2, False), (fields.UInt32, 4, False), (fields.UInt64, 8, False))
    endian = vm.pick("big", "little")
    kw = {"endian": endian}
    if cls is fields.Integer:
        kw["signed"] = sg
    if n is None:
        nt = z3.Int("size")
        vm.assume(nt >= 0)
        kw["size"] = SInt(nt)
    else:
        nt = z3.IntVal(n)
    return make(vm, cls, **kw), nt, z3.BoolVal(endian == "big"), z3.BoolVal(sg)


@unit("types.integer_dump", ["C03", "C04"], under=BASE + ["binobj.fields.numeric.Integer._do_dump", "binobj.helpers.write_int"])
def u_int_dump(vm):
    reset(vm)
    f, n, big, sg = pick_int(vm)
    x = z3.Int("value")
    w, e = dump(vm, f, SInt(x))
    ok = fits(vm, x, n, sg)
    if e is None:
        vm.cover("written")
        vm.prove("only values in range are written", ok)
        vm.prove("exactly the two's-complement bytes of the width and byte order are written", z3.And(w == i2b(x, n, big, sg), z3.Length(w) == n))
    else:
        vm.cover("refused")
        vm.prove("refused only out of range, as unserializable", z3.And(z3.BoolVal(issubclass(e.cls, errors.UnserializableValueError) and (e.attrs.get("field") is f or not vm.public)), z3.Not(ok)))


@unit("types.integer_load", ["C03", "C05"], under=BASE + ["binobj.fields.numeric.Integer._do_load", "binobj.helpers.read_int"])
def u_int_load(vm):
    reset(vm)
    f, n, big, sg = pick_int(vm)
    r, e, data, p0, s = load(vm, f)
    if e is not None:
        eof(vm, e, f, data, p0, n)
        return
    vm.cover("loaded")
    t = chunk(vm, data, p0, n, s)
    vm.prove("the value is the one the bytes represent in the byte order", vm.int_t(r) == b2i(t, big, sg))


def reload(vm, f, w, d, n=None):
    """Load what was written, with anything behind it, from anywhere in a stream."""
    rest = z3.Const("rest", SeqS)
    s = SStream(z3.Concat(w, rest), z3.IntVal(0), z3.Int("rt_base"), kind="seq", mode="r", name="rt")
    vm.assume(z3.Int("rt_base") >= 0)
    vm.assume(z3.SubSeq(s.data, 0, z3.Length(w)) == w)
    if n is not None:
        vm.prove("the size is written", z3.Length(w) == n)
        vm.assume(z3.SubSeq(s.data, 0, n) == w)
    vm.assume(z3.Length(s.data) == z3.Length(w) + z3.Length(rest))
    r, e = raises(vm, "load", Field.from_stream, [f, s], {"context": context(vm), "loaded_fields": d})
    return r, e, s


@unit("types.integer_round_trip", ["C03"], under=BASE + ["binobj.fields.numeric.Integer._do_load", "binobj.fields.numeric.Integer._do_dump"])
def u_int_rt(vm):
    reset(vm)
    f, n, big, sg = pick_int(vm)
    x = z3.Int("value")
    w, e = dump(vm, f, SInt(x))
    if e is not None:
        raise PathEnd()
    r, e, s = reload(vm, f, w, sym_dict(vm, "vals"))
    vm.cover("loaded")
    vm.prove("what was written loads", z3.BoolVal(e is None))
    if e is None:
        vm.prove("as the value that was dumped, whatever follows", z3.And(vm.int_t(r) == x, s.pos == z3.Length(w)))


# ---- variable-length integer fields (C01, C02, C05) ----------------------------------------------
ENC_OK = z3.Function("vli_encode_ok", StrS, IntS, BoolS)
ENC = z3.Function("vli_encode", StrS, IntS, SeqS)
DEC_OK = z3.Function("vli_decode_ok", StrS, SeqS, IntS, BoolS)
DECV = z3.Function("vli_decode_value", StrS, SeqS, IntS, IntS)
DECP = z3.Function("vli_decode_end", StrS, SeqS, IntS, IntS)
FORMATS = {varints.VarIntEncoding.VLQ: (varints.encode_integer_vlq, varints.decode_integer_vlq),
           varints.VarIntEncoding.COMPACT_INDICES: (varints.encode_integer_compact, varints.decode_integer_compact),
           varints.VarIntEncoding.ULEB128: (varints.encode_integer_uleb128, varints.decode_integer_uleb128),
           varints.VarIntEncoding.LEB128: (varints.encode_integer_leb128, varints.decode_integer_leb128)}


def vli_contracts():
    """The encoders and decoders, which have their own proofs (units/varints.py)."""
    out = {}
    for k, (enc, dec) in FORMATS.items():
        def h_enc(vm, args, kw, k=k):
            t, x = vm.strlit(k.name), vm.int_t(args[0])
            if not vm.branch(ENC_OK(t, x)):
                raise vm.pyerr(ValueError, "negative")
            r = ENC(t, x)
            vm.assume(z3.Length(r) >= 1)
            return SBytes(r)

        def h_dec(vm, args, kw, k=k):
            t, s = vm.strlit(k.name), args[0]
            p0 = s.pos
            if not vm.branch(DEC_OK(t, s.data, p0)):
                s.pos = vm.fresh("junk", IntS)
                raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=None, offset=None)
            s.pos = DECP(t, s.data, p0)
            vm.assume(z3.And(s.pos > p0, s.pos <= z3.Length(s.data)))
            return SInt(DECV(t, s.data, p0))
        out[enc], out[dec] = h_enc, h_dec
    return out


@unit("types.vli", ["C01", "C02", "C05", "C15"], contracts=vli_contracts,
      under=BASE + ["binobj.fields.numeric.VariableLengthInteger.__init__", "binobj.fields.numeric.VariableLengthInteger._do_load", "binobj.fields.numeric.VariableLengthInteger._do_dump",
                    "binobj.fields.numeric.VariableLengthInteger._size_for_value"])
def u_vli(vm):
    reset(vm)
    fmt = vm.pick(*FORMATS)
    t = vm.strlit(fmt.name)
    kw = {"vli_format": fmt}
    m = None
    if vm.pick(True, False):
        m = z3.Int("max_bytes")
        kw["max_bytes"] = SInt(m)
    f = make(vm, fields.VariableLengthInteger, **kw)
    what = vm.pick("dump", "load", "size")
    if what == "size":
        x = z3.Int("value")
        r, e = raises(vm, "x", f.cls._size_for_value, [f, SInt(x)])
        vm.cover("size" if e is None else "no size")
        vm.prove("the size of a value is the length of its encoding", z3.And(ENC_OK(t, x), vm.int_t(r) == z3.Length(ENC(t, x))) if e is None else z3.Not(ENC_OK(t, x)))
        return
    if what == "dump":
        x = z3.Int("value")
        w, e = dump(vm, f, SInt(x))
        ok = ENC_OK(t, x)
        small = z3.Length(ENC(t, x)) <= m if m is not None else z3.BoolVal(True)
        if e is None:
            vm.cover("written")
            vm.prove("exactly the encoding in the field's format is written", z3.And(ok, w == ENC(t, x)))
            vm.prove("never more than the maximum width is written", small)
        else:
            vm.cover("refused")
            vm.prove("refused only if it can't be encoded or is too wide", z3.Or(z3.Not(ok), z3.Not(small)))
            vm.prove("refused as unserializable", z3.BoolVal(issubclass(e.cls, errors.UnserializableValueError)))
        return
    r, e, data, p0, s = load(vm, f)
    if e is None:
        vm.cover("loaded")
        vm.prove("the value is the one the field's format decodes", z3.And(DEC_OK(t, data, p0), vm.int_t(r) == DECV(t, data, p0)))
        vm.prove("exactly the encoding is consumed", s.pos == DECP(t, data, p0))
    else:
        vm.cover("truncated")
        vm.prove("truncated: unexpected end of file naming the field", z3.And(z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError) and (e.attrs.get("field") is f or not vm.public)), z3.Not(DEC_OK(t, data, p0))))


# ---- floats (C21, C05) ----------------------------------------------------------------------------
@unit("types.float", ["C21", "C05"], under=BASE + ["binobj.fields.numeric.Float.__init__", "binobj.fields.numeric.Float._do_load", "binobj.fields.numeric.Float._do_dump",
                                                   "binobj.fields.base.Field._read_exact_size"])
def u_float(vm):
    reset(vm)
    cls, ch, n = vm.pick((fields.Float16, "e", 2), (fields.Float32, "f", 4), (fields.Float64, "d", 8))
    endian = vm.pick("big", "little")
    fmt = vm.strlit({"big": ">", "little": "<"}[endian] + ch)
    f = make(vm, cls, endian=endian)
    if vm.pick("dump", "load") == "dump":
        x = any_value(vm, "value")
        vm.assume(z3.Not(Val.is_VNone(x.t)))
        w, e = dump(vm, f, x)
        if e is None:
            vm.cover("written")
            vm.prove("the IEEE 754 bytes in the declared byte order are written", z3.And(pack_ok(fmt, x.t), w == pack(fmt, x.t), z3.Length(w) == n))
            vm.prove("they load as the value that was dumped", unpack(fmt, w) == x.t)
        else:
            vm.cover("refused")
            vm.prove("refused only if it does not fit, as a serialization error", z3.And(z3.Not(pack_ok(fmt, x.t)), z3.BoolVal(issubclass(e.cls, errors.SerializationError))))
        return
    r, e, data, p0, s = load(vm, f)
    if e is not None:
        eof(vm, e, f, data, p0, n)
        return
    vm.cover("loaded")
    t = chunk(vm, data, p0, z3.IntVal(n), s)
    vm.prove("the value is the one the bytes denote", vm.to_val(r) == unpack(fmt, t))


# ---- timestamps (C21, C05) ------------------------------------------------------------------------
def pick_ts(vm):
    cls, n = vm.pick((fields.Timestamp, None), (fields.Timestamp32, 4), (fields.Timestamp64, 8))
    res, units = vm.pick(("s", 1), ("ms", 10 ** 3), ("us", 10 ** 6), ("ns", 10 ** 9))
    endian, sg, aware = vm.pick("big", "little"), vm.pick(True, False), vm.pick(True, False)
    kw = dict(resolution=res, endian=endian, signed=sg, tz_aware=aware)
    if n is None:
        nt = z3.Int("size")
        vm.assume(nt >= 0)
        kw["size"] = SInt(nt)
    else:
        nt = z3.IntVal(n)
    return make(vm, cls, **kw), nt, units, z3.BoolVal(endian == "big"), z3.BoolVal(sg), aware


@unit("types.timestamp_dump", ["C21"], under=BASE + ["binobj.fields.numeric.Timestamp.__init__", "binobj.fields.numeric.Timestamp._do_dump", "binobj.helpers.write_int"])
def u_ts_dump(vm):
    reset(vm)
    f, n, units, big, sg, aware = pick_ts(vm)
    S, us = z3.Int("seconds"), z3.Int("microseconds")
    vm.assume(z3.And(0 <= us, us < 10 ** 6))
    w, e = dump(vm, f, DateTime(S, us, vm.pick(True, False)))
    T = S * 10 ** 6 + us
    x = T * (units // 10 ** 6) if units >= 10 ** 6 else z3.If(T >= 0, T / (10 ** 6 // units), -((-T) / (10 ** 6 // units)))
    ok = fits(vm, x, n, sg)
    if e is None:
        vm.cover("written")
        vm.prove("the offset from the epoch in the declared resolution, truncated toward zero, is written in the declared layout",
                 z3.And(ok, w == i2b(x, n, big, sg), z3.Length(w) == n))
    else:
        vm.cover("refused")
        vm.prove("refused only out of range, as a serialization error", z3.And(z3.Not(ok), z3.BoolVal(issubclass(e.cls, errors.UnserializableValueError))))


@unit("types.timestamp_load", ["C21", "C05"], under=BASE + ["binobj.fields.numeric.Timestamp._do_load", "binobj.helpers.read_int"])
def u_ts_load(vm):
    reset(vm)
    f, n, units, big, sg, aware = pick_ts(vm)
    r, e, data, p0, s = load(vm, f)
    v = b2i(z3.SubSeq(data, p0, n), big, sg)
    if e is not None:
        if issubclass(e.cls, errors.Error):
            eof(vm, e, f, data, p0, n)
        else:
            vm.prove("other errors only for moments a datetime can't represent",
                     z3.And(p0 + n <= z3.Length(data), z3.Not(ts_ok(v / units, z3.BoolVal(aware)))))
        return
    vm.cover("loaded")
    chunk(vm, data, p0, n, s)
    if not isinstance(r, DateTime):
        vm.prove("a datetime is loaded", False)
        return
    T = v * (10 ** 6 // units) if units <= 10 ** 6 else v / (units // 10 ** 6)
    vm.prove("the moment is the one the integer denotes in the declared resolution", r.s * 10 ** 6 + r.us == T)
    vm.prove("zone-aware exactly if declared so", z3.BoolVal(r.aware == aware))


# ---- UUIDs (C21, C05) ------------------------------------------------------------------------------
@unit("types.uuid", ["C21", "C05"], under=BASE + ["binobj.fields.stringlike.UUID4.__init__", "binobj.fields.stringlike.UUID4._do_load", "binobj.fields.stringlike.UUID4._do_dump"])
def u_uuid(vm):
    reset(vm)
    F = fields.UUIDFormat
    fmt, n = vm.pick((F.BINARY_VARIANT_1, 16), (F.BINARY_VARIANT_2, 16), (F.CANONICAL_STRING, 36), (F.HEX_STRING, 32))
    kw = {"stored_as": fmt}
    if fmt is F.BINARY_VARIANT_1 and vm.pick(True, False):
        kw = {}
    f = make(vm, fields.UUID4, **kw)
    a = vm.strlit("ascii")
    U = z3.Const("uuid", Val)
    if vm.pick("dump", "load") == "dump":
        w, e = dump(vm, f, UUIDv(U))
        vm.prove("every UUID is written", z3.BoolVal(e is None))
        if e is not None:
            return
        vm.cover("written")
        want = {F.BINARY_VARIANT_1: lambda: U_VIEWS["bytes"][0](U), F.BINARY_VARIANT_2: lambda: U_VIEWS["bytes_le"][0](U),
                F.CANONICAL_STRING: lambda: encode(U_STR(U), a), F.HEX_STRING: lambda: encode(U_HEX(U), a)}[fmt]()
        vm.prove("the declared layout is written", z3.And(w == want, z3.Length(w) == n))
        return
    r, e, data, p0, s = load(vm, f)
    t = z3.SubSeq(data, p0, n)
    if e is not None:
        if issubclass(e.cls, errors.Error):
            eof(vm, e, f, data, p0, n)
        else:
            vm.prove("other errors only for text that is no UUID", z3.And(z3.BoolVal(n > 16), p0 + n <= z3.Length(data),
                                                                      z3.Or(z3.Not(dec_ok(t, a)), z3.Not(U_FROM_OK(decode(t, a))))))
        return
    vm.cover("loaded")
    chunk(vm, data, p0, z3.IntVal(n), s)
    want = {F.BINARY_VARIANT_1: lambda: U_VIEWS["bytes"][1](t), F.BINARY_VARIANT_2: lambda: U_VIEWS["bytes_le"][1](t)}.get(fmt, lambda: U_FROM(decode(t, a)))()
    vm.prove("the UUID is the one the bytes denote in the declared layout", vm.to_val(r) == want)


# ---- byte strings and sized strings (C04, C05, C21, C22, C24) ------------------------------------------
def sized(vm, kind, d):
    """(size known and an int, size, explanation of failure)."""
    if kind == "const":
        return z3.BoolVal(True), z3.BoolVal(True), z3.Int("size")
    a, i, n = expected_size(vm, kind, d.dom, d.val)
    return a, i, n


def size_error(vm, e, avail, isint):
    vm.cover("size unknown")
    if issubclass(e.cls, errors.MissingRequiredValueError):
        fld = e.attrs.get("field")
        nm = fld.attrs.get("name") if isinstance(fld, SObj) else fld
        vm.prove("missing size: the error names the field it depends on", z3.And(z3.Not(avail), z3.BoolVal(nm == "other")))
    else:
        vm.prove("a size that is no integer gives a type error", z3.And(avail, z3.Not(isint), z3.BoolVal(issubclass(e.cls, TypeError))))


@unit("types.bytes", ["C04", "C05", "C21", "C24"], under=BASE + ["binobj.fields.stringlike.Bytes._do_load", "binobj.fields.stringlike.Bytes._do_dump", "binobj.fields.base.Field._read_exact_size"])
def u_bytes(vm):
    reset(vm)
    kind, size = pick_size(vm, ("const", "name", "field"))
    f = make(vm, fields.Bytes, size=size)
    d = sym_dict(vm, "vals")
    avail, isint, n = sized(vm, kind, d)
    vm.assume(n >= 0)
    if vm.pick("dump", "load") == "dump":
        x = z3.Const("value", SeqS)
        w, e = dump(vm, f, SBytes(x), d)
        if e is None:
            vm.cover("written")
            vm.prove("exactly the bytes are written, and they are the size", z3.And(avail, isint, w == x, z3.Length(x) == n))
        elif issubclass(e.cls, errors.ValueSizeError):
            vm.cover("wrong size")
            vm.prove("size error only for another number of bytes", z3.And(avail, isint, z3.Length(x) != n))
        else:
            size_error(vm, e, avail, isint)
        return
    r, e, data, p0, s = load(vm, f, d)
    if e is None:
        vm.cover("loaded")
        vm.prove("the size is known", z3.And(avail, isint))
        t = chunk(vm, data, p0, n, s)
        vm.prove("exactly the bytes are loaded", vm.seq(r) == t)
    elif issubclass(e.cls, errors.UnexpectedEOFError):
        eof(vm, e, f, data, p0, n)
    else:
        size_error(vm, e, avail, isint)


@unit("types.string_dump", ["C04", "C22", "C24"], under=BASE + ["binobj.fields.stringlike.String._do_dump", "binobj.fields.stringlike.String._encode_and_resize",
                                                               "binobj.fields.stringlike.String._add_padding", "binobj.fields.stringlike.String.__init__"])
def u_string_dump(vm):
    reset(vm)
    kind, size = pick_size(vm, ("const", "name", "field"))
    enc = z3.Const("encoding", StrS)
    pad = vm.pick(True, False)
    kw = {"pad_byte": SBytes(z3.Unit(z3.Int("pad")))} if pad else {}
    vm.assume(z3.And(z3.Int("pad") >= 0, z3.Int("pad") < 256))
    f = make(vm, fields.String, size=size, encoding=SStr(enc), **kw)
    d = sym_dict(vm, "vals")
    avail, isint, n = sized(vm, kind, d)
    vm.assume(n >= 0)
    x = z3.Const("text", StrS)
    w, e = dump(vm, f, SStr(x), d)
    b = encode(x, enc)
    ln = z3.Length(b)
    if e is None:
        vm.cover("written")
        vm.prove("exactly the size is written", z3.And(avail, isint, enc_ok(x, enc), z3.Length(w) == n))
        if vm.branch(ln == n):
            vm.prove("text that fills the field is written encoded", w == b)
        else:
            vm.cover("padded")
            vm.prove("shorter text is padded only with a pad byte", z3.And(z3.BoolVal(pad), ln < n))
            if pad:
                vm.prove("the encoded text is followed by exactly the pad bytes", w == z3.Concat(b, rep(z3.Int("pad"), z3.simplify(n - ln))))
    elif issubclass(e.cls, errors.ValueSizeError):
        vm.cover("wrong size")
        vm.prove("size error only for text that is too long, or too short without pad byte", z3.And(avail, isint, z3.Or(ln > n, z3.And(z3.BoolVal(not pad), ln < n))))
    elif issubclass(e.cls, UnicodeEncodeError):
        vm.prove("encoding errors only for text the encoding can't express", z3.Not(enc_ok(x, enc)))
    else:
        size_error(vm, e, avail, isint)


@unit("types.string_load", ["C05", "C22", "C24"], under=BASE + ["binobj.fields.stringlike.String._do_load", "binobj.fields.base.Field._read_exact_size"])
def u_string_load(vm):
    reset(vm)
    kind, size = pick_size(vm, ("const", "name", "field"))
    enc = z3.Const("encoding", StrS)
    kw = {"pad_byte": SBytes(z3.Unit(z3.Int("pad")))} if vm.pick(True, False) else {}
    f = make(vm, fields.String, size=size, encoding=SStr(enc), **kw)
    d = sym_dict(vm, "vals")
    avail, isint, n = sized(vm, kind, d)
    vm.assume(n >= 0)
    r, e, data, p0, s = load(vm, f, d)
    if e is None:
        vm.cover("loaded")
        vm.prove("the size is known", z3.And(avail, isint))
        t = chunk(vm, data, p0, n, s)
        vm.prove("exactly the text its bytes encode, padding included", z3.And(dec_ok(t, enc), vm.str_t(r) == decode(t, enc)))
    elif issubclass(e.cls, errors.UnexpectedEOFError):
        eof(vm, e, f, data, p0, n)
    elif issubclass(e.cls, UnicodeDecodeError):
        vm.prove("decoding errors only for bytes that are no text", z3.And(p0 + n <= z3.Length(data), z3.Not(dec_ok(z3.SubSeq(data, p0, n), enc))))
    else:
        size_error(vm, e, avail, isint)


# ---- values survive a round trip (C21, C22) ----------------------------------------------------------
@unit("types.round_trip", ["C21", "C22"], under=BASE + ["binobj.fields.%s._do_%s" % (t, d) for t in ("numeric.Float", "numeric.Timestamp", "stringlike.UUID4", "stringlike.Bytes", "stringlike.String") for d in ("load", "dump")])
def u_round_trip(vm):
    reset(vm)
    what = vm.pick("float", "timestamp", "uuid", "bytes", "string")
    d = sym_dict(vm, "vals")
    extra = z3.BoolVal(True)
    if what == "float":
        cls = vm.pick(fields.Float16, fields.Float32, fields.Float64)
        f, x = make(vm, cls, endian=vm.pick("big", "little")), any_value(vm, "value")
        vm.assume(z3.Not(Val.is_VNone(x.t)))
        same = lambda r: vm.to_val(r) == x.t
    elif what == "timestamp":
        f, n, units, big, sg, aware = pick_ts(vm)
        S, us = z3.Int("seconds"), z3.Int("microseconds")
        vm.assume(z3.And(0 <= us, us < 10 ** 6))
        x = DateTime(S, us, aware)
        T = S * 10 ** 6 + us
        # what the resolution can represent
        vm.assume(T % max(10 ** 6 // units, 1) == 0)
        vm.assume(ts_ok(S, z3.BoolVal(aware)))
        same = lambda r: z3.And(z3.BoolVal(isinstance(r, DateTime) and r.aware == aware), r.s * 10 ** 6 + r.us == T) if isinstance(r, DateTime) else z3.BoolVal(False)
    elif what == "uuid":
        f, U = make(vm, fields.UUID4, stored_as=vm.pick(*fields.UUIDFormat)), z3.Const("uuid", Val)
        x = UUIDv(U)
        same = lambda r: vm.to_val(r) == U
    elif what == "bytes":
        kind, size = pick_size(vm, ("const", "name", "field"))
        f, b = make(vm, fields.Bytes, size=size), z3.Const("value", SeqS)
        x = SBytes(b)
        same = lambda r: vm.seq(r) == b
    else:
        kind, size = pick_size(vm, ("const", "name", "field"))
        enc, t = z3.Const("encoding", StrS), z3.Const("text", StrS)
        f = make(vm, fields.String, size=size, encoding=SStr(enc))
        x = SStr(t)
        # the codec's part
        vm.assume(z3.Implies(enc_ok(t, enc), z3.And(dec_ok(encode(t, enc), enc), decode(encode(t, enc), enc) == t)))
        same = lambda r: vm.str_t(r) == t
    if what in ("bytes", "string"):
        vm.assume(sized(vm, kind, d)[2] >= 0)
    w, e = dump(vm, f, x, d)
    if e is not None or not vm.public:
        raise PathEnd()
    r, e, s = reload(vm, f, w, d, f.attrs["_size"] if what in ("float", "uuid") else None)
    vm.cover(what)
    vm.prove("what was written loads", z3.BoolVal(e is None))
    if e is None:
        vm.prove("as the value that was dumped, whatever follows", z3.And(same(r), s.pos == z3.Length(w)))


# ---- null-terminated strings (C22, C05) ------------------------------------------------------------------
@unit("types.stringz_dump", ["C22", "C04"], under=BASE + ["binobj.fields.stringlike.StringZ._do_dump"])
def u_stringz_dump(vm):
    reset(vm)
    kind, size = pick_size(vm, ("none", "const", "name"))
    enc = z3.Const("encoding", StrS)
    kw = {"size": size} if size is not None else {}
    f = make(vm, fields.StringZ, encoding=SStr(enc), **kw)
    d = sym_dict(vm, "vals")
    if kind != "none":
        avail, isint, n = sized(vm, kind, d)
        vm.assume(n >= 0)
    x = z3.Const("text", StrS)
    vm.assume(z3.And(x != vm.strlit("")))
    w, e = dump(vm, f, SStr(x), d)
    xt = strcat(x, vm.strlit("\0"))
    b = encode(xt, enc)
    if e is None:
        vm.cover("written")
        vm.prove("the encoded text and its encoded terminator are written, and nothing else", z3.And(enc_ok(xt, enc), w == b))
        if kind != "none" and vm.public:
            vm.prove("and they are exactly the size, if there is one", z3.And(avail, isint, z3.Length(w) == n))
    elif issubclass(e.cls, errors.ValueSizeError):
        vm.cover("wrong size")
        vm.prove("size error only for another size", z3.And(avail, isint, z3.Length(b) != n) if kind != "none" else False)
    elif issubclass(e.cls, UnicodeEncodeError):
        vm.prove("encoding errors only for text the encoding can't express", z3.Not(enc_ok(xt, enc)))
    else:
        if kind == "none":
            vm.prove("other errors concern the size", False)
        else:
            size_error(vm, e, avail, isint)


@unit("types.stringz_padded", ["C04", "C22", "C24"], under=BASE + ["binobj.fields.stringlike.StringZ._do_dump", "binobj.fields.stringlike.String._add_padding"])
def u_stringz_padded(vm):
    reset(vm)
    kind, size = pick_size(vm, ("const", "name", "field"))
    enc, pad = z3.Const("encoding", StrS), z3.Int("pad")
    vm.assume(z3.And(pad >= 0, pad < 256))
    f = make(vm, fields.StringZ, encoding=SStr(enc), size=size, pad_byte=SBytes(z3.Unit(pad)))
    d = sym_dict(vm, "vals")
    avail, isint, n = sized(vm, kind, d)
    vm.assume(n >= 0)
    x = z3.Const("text", StrS)
    w, e = dump(vm, f, SStr(x), d)
    if not vm.public:
        # The size and the padding are to_stream()'s part
        raise PathEnd()
    xt = strcat(x, vm.strlit("\0"))
    b = encode(xt, enc)
    ln = z3.Length(b)
    if e is None:
        vm.cover("written")
        vm.prove("exactly the size is written", z3.And(avail, isint, enc_ok(xt, enc), z3.Length(w) == n))
        if vm.branch(ln == n):
            vm.prove("terminated text that fills the field is written encoded", w == b)
        else:
            vm.cover("padded")
            vm.prove("the terminated text is followed by exactly the pad bytes", z3.And(ln < n, w == z3.Concat(b, rep(pad, z3.simplify(n - ln)))))
    elif issubclass(e.cls, errors.ValueSizeError):
        vm.cover("too long")
        vm.prove("size error only for text that is too long", z3.And(avail, isint, ln > n))
    elif issubclass(e.cls, UnicodeEncodeError):
        vm.prove("encoding errors only for text the encoding can't express", z3.Not(enc_ok(xt, enc)))
    else:
        size_error(vm, e, avail, isint)


def out_at(vm, enc, data, p0, i):
    """What the decoder emits for the i-th byte after p0, having been fed those before it."""
    return inc_out(enc, z3.SubSeq(data, p0, i), z3.SubSeq(data, p0 + i, 1))


TXT = z3.Function("decoded_prefix", IntS, StrS)     # concatenation of the decoder's first k outputs


def seq_step(d, p, k):
    return z3.Implies(z3.And(p >= 0, k >= 0, p + k + 1 <= z3.Length(d)), z3.Concat(z3.SubSeq(d, p, k), z3.SubSeq(d, p + k, 1)) == z3.SubSeq(d, p, k + 1))


def txt_defs(vm, k):
    enc, data, p0 = vm.sz
    e = vm.strlit("")
    step = strcat(TXT(k), out_at(vm, enc, data, p0, k))
    vm.fact1(("seqstep", str(k)), lambda: seq_step(data, p0, k))
    vm.fact1(("txt", str(k)), lambda: z3.And(TXT(0) == e, z3.Implies(k >= 0, TXT(k + 1) == step), z3.Implies(TXT(k) == e, step == out_at(vm, enc, data, p0, k)),
                                             z3.Implies(out_at(vm, enc, data, p0, k) == e, step == TXT(k))))


def inv_stringz(L):
    vm, k = L.vm, L.k
    if not hasattr(vm, "sz"):
        return []
    enc, data, p0 = vm.sz
    vm.sz_k.append(k)
    txt_defs(vm, k)
    j = z3.Int("jz")
    out = [("no terminator yet", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), out_at(vm, enc, data, p0, j) != vm.strlit("\0")))),
           ("all bytes are there", p0 + k <= z3.Length(data))]
    for n, t in L.streams.items():
        if not isinstance(t, z3.ExprRef):
            continue
        if t.sort() == IntS:
            out.append((n + " is one per byte", t == p0 + k))
        elif t.sort() == StrS:
            out.append((n + " is the text so far", t == TXT(k)))
        elif t.sort() == SeqS:
            out.append((n + " is what was fed", t == z3.SubSeq(data, p0, k)))
    for n, t in L.ints.items():
        out.append((n + " counts the bytes", t == k))
        if vm.sz_max is not None:
            out.append((n + " stays within the size", z3.And(t >= 0, t <= vm.sz_max)))
    return out


@unit("types.stringz_load", ["C22", "C05", "C24"], inv=inv_stringz, under=BASE + ["binobj.fields.stringlike.StringZ._do_load", "binobj.helpers.iter_bytes"])
def u_stringz_load(vm):
    reset(vm)
    if vm.unroll is not None:
        # The text is a fold over the decoder's outputs that only the invariant relates; the
        # search for failing inputs stands in.
        raise Unsupported("no unrolled instance")
    kind, size = pick_size(vm, ("none", "const", "name"))
    enc = z3.Const("encoding", StrS)
    kw = {"size": size} if size is not None else {}
    vm.lemma("lemma: n bytes and the next are n+1 bytes", seq_step(z3.Const("ld", SeqS), z3.Int("lp"), z3.Int("lk")))
    f = make(vm, fields.StringZ, encoding=SStr(enc), **kw)
    d = sym_dict(vm, "vals")
    n = avail = isint = None
    if kind != "none":
        avail, isint, n = sized(vm, kind, d)
        vm.assume(n >= 0)
    data, p0 = z3.Const("data", SeqS), z3.Int("data_p0")
    vm.sz, vm.sz_max, vm.sz_k = (enc, data, p0), n, []
    r, e, data, p0, s = load(vm, f, d)
    nul = vm.strlit("\0")
    j = z3.Int("jf")
    used = z3.simplify(s.pos - p0)
    none_before = lambda u: z3.Implies(z3.And(0 <= j, j < u), out_at(vm, enc, data, p0, j) != nul)
    if e is None:
        vm.cover("loaded")
        # The index of the terminator: without a size it is the last byte read, otherwise
        # the iteration the loop was left in.
        k = z3.simplify(used - 1) if kind == "none" else z3.simplify(vm.sz_k[-1]) if vm.sz_k else z3.IntVal(0)
        vm.prove("a null character was found in the input", z3.And(k >= 0, p0 + k < z3.Length(data), s.pos <= z3.Length(data), out_at(vm, enc, data, p0, k) == nul))
        vm.prove("it is the first one", none_before(k))
        vm.prove("the text is what the bytes before it decode to", vm.str_t(r) == TXT(k))
        if kind == "none":
            vm.prove("nothing behind it was consumed", used == k + 1)
        else:
            vm.prove("the terminator is within the size", z3.And(avail, isint, k + 1 <= n))
            vm.prove("exactly the size was consumed", used == n)
    elif issubclass(e.cls, UnicodeDecodeError):
        k = z3.simplify(used - 1)
        vm.prove("decoding errors only for bytes that are no text", z3.Not(inc_ok(enc, z3.SubSeq(data, p0, k), z3.SubSeq(data, p0 + k, 1))))
    elif issubclass(e.cls, errors.DeserializationError):
        vm.cover("no terminator")
        short = z3.And(s.pos == z3.Length(data), used < n) if n is not None else z3.BoolVal(False)
        vm.prove("an error only if there is no null character within the size, or less input than the size",
                 z3.Or(short, z3.And(none_before(used), z3.Or(s.pos == z3.Length(data), used == n if n is not None else z3.BoolVal(False)))))
        ends = s.pos == z3.Length(data) if n is None else z3.And(s.pos == z3.Length(data), used < n)
        vm.prove("end of data is reported as unexpected end of file naming the field",
                 z3.Implies(ends, z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError) and (e.attrs.get("field") is f or not vm.public))))
    elif kind != "none":
        size_error(vm, e, avail, isint)
    else:
        vm.prove("no other errors", False)
