"""Construction of the built-in field types: what is given arrives in the field."""
import sys

from binobj.structures import Struct
from binobj.varints import VarIntEncoding, INTEGER_ENCODING_MAP

from pyvc.engine import encode, enc_ok, strcat

from .containers import *

NAMED = {
    fields.Int8: (1, True), fields.Int16: (2, True), fields.Int32: (4, True), fields.Int64: (8, True),
    fields.UInt8: (1, False), fields.UInt16: (2, False), fields.UInt32: (4, False), fields.UInt64: (8, False),
    fields.Float16: (2, None), fields.Float32: (4, None), fields.Float64: (8, None),
    fields.Timestamp32: (4, True), fields.Timestamp64: (8, True),
}
SIZED = (fields.Integer, fields.UnsignedInteger, fields.Timestamp, fields.Bytes, fields.String, fields.StringZ)


def common(vm):
    """Keyword arguments every field takes, and what has to become of them."""
    kw = {"name": "fld", "discard": True}
    null, npv, dflt = (any_value(vm, n) for n in ("null", "npv", "dflt"))
    vm.assume(z3.Not(Val.is_VObj(dflt.t)))
    kw.update(null_value=null, not_present_value=npv)
    kw["present"] = present_fn(vm)
    kw["validate"] = SList([SFn("validator", lambda vm, a, k: ev(vm, "v", *a)) for _ in range(2)])
    if vm.pick(True, False):
        kw["default"] = dflt
    else:
        kw["factory"] = SFn("factory", lambda vm, a, k: any_value(vm, "fact"))
    return kw


def recorded(vm, f, kw):
    a = f.attrs
    same = lambda x, y: vm.to_val(x) == vm.to_val(y)
    vm.prove("null value, stand-in, name, presence condition and discard flag arrive", z3.And(
        same(a["null_value"], kw["null_value"]), same(a["not_present_value"], kw["not_present_value"]),
        z3.BoolVal(a["present"] is kw["present"] and a["discard"] is True and a["name"] == "fld")))
    vm.prove("default or factory arrive", z3.And(same(a["_default"], kw.get("default", UNDEFINED)), z3.BoolVal(a["factory"] is kw.get("factory"))))
    vs = vm.iterate(a["validators"])
    x = any_value(vm, "x")
    for v in list(vs) if vs is not None else []:
        vm.call(v, [x], {})
    got = [(e[1], e[2]) for e in vm.events if e[0] == "v"]
    vm.prove("every validator arrives, for this field", z3.And(z3.BoolVal(len(got) == 2 and all(g[0] is f for g in got)), *[same(g[1], x) for g in got]))
    vm.prove("no constant, nothing computed", z3.BoolVal(a["const"] is UNDEFINED and a["_compute_fn"] is None))


@unit("construct.types", ["C06", "C07", "C08", "C09", "C10", "C19"],
      under=["binobj.fields.numeric.%s.__init__" % c.__name__ for c in list(NAMED) + [fields.Integer, fields.UnsignedInteger, fields.VariableLengthInteger, fields.Timestamp, fields.Float]]
      + ["binobj.fields.stringlike.String.__init__", "binobj.fields.stringlike.UUID4.__init__", "binobj.fields.base.Field.__init__"])
def u_construct(vm):
    reset(vm)
    cls = vm.pick(*NAMED, *SIZED, fields.VariableLengthInteger, fields.UUID4)
    kw = common(vm)
    given = dict(kw)
    endian = vm.pick("big", "little", None, "absent") if issubclass(cls, (fields.Integer, fields.Float, fields.Timestamp)) and cls is not fields.VariableLengthInteger else "absent"
    if endian != "absent":
        given["endian"] = endian
    want = {}
    if cls in NAMED:
        want["_size"], sg = NAMED[cls]
        if sg is not None:
            want["signed"] = sg
        if issubclass(cls, fields.Timestamp) and vm.pick(True, False):
            given["signed"] = want["signed"] = False
    elif cls in SIZED:
        _, size = pick_size(vm, ("const", "name", "field"))
        given["size"] = want["_size"] = size
        if cls is fields.UnsignedInteger:
            want["signed"] = False
        elif issubclass(cls, (fields.Integer, fields.Timestamp)):
            s = vm.pick("absent", True, False)
            want["signed"] = s != False    # noqa: E712
            if s != "absent":
                given["signed"] = s
    if issubclass(cls, (fields.Integer, fields.Float, fields.Timestamp)):
        want["endian"] = endian if endian in ("big", "little") else sys.byteorder
    if issubclass(cls, fields.Timestamp):
        r = vm.pick("absent", "s", "ms", "us", "ns")
        want["resolution"] = "s" if r == "absent" else r
        if r != "absent":
            given["resolution"] = r
        t = vm.pick("absent", True)
        want["tz_aware"] = t is True
        if t is True:
            given["tz_aware"] = True
    if cls is fields.VariableLengthInteger:
        v = vm.pick(*VarIntEncoding)
        given["vli_format"] = want["vli_format"] = v
        mb = vm.pick("absent", SInt(z3.Int("max_bytes")))
        want["max_bytes"] = None if mb == "absent" else mb
        if mb != "absent":
            given["max_bytes"] = mb
        want["_size"] = None
        want["endian"] = "big" if v in (VarIntEncoding.VLQ, VarIntEncoding.COMPACT_INDICES) else "little"
        want["signed"] = v in (VarIntEncoding.LEB128, VarIntEncoding.COMPACT_INDICES)
    if issubclass(cls, fields.String):
        e = vm.pick("absent", "utf-8", "utf-16-le")
        want["encoding"] = "iso-8859-1" if e == "absent" else e
        if e != "absent":
            given["encoding"] = e
        p = vm.pick("absent", b"\0", b"x")
        want["pad_byte"] = None if p == "absent" else p
        if p != "absent":
            given["pad_byte"] = p
    if cls is fields.UUID4:
        u = vm.pick("absent", *fields.UUIDFormat)
        want["stored_as"] = fields.UUIDFormat.BINARY_VARIANT_1 if u == "absent" else u
        if u != "absent":
            given["stored_as"] = u
        want["_size"] = {fields.UUIDFormat.CANONICAL_STRING: 36, fields.UUIDFormat.HEX_STRING: 32}.get(u, 16)
    f, e = raises(vm, "x", cls, [], given)
    vm.cover(cls.__name__)
    vm.prove("the configuration is accepted", z3.BoolVal(e is None))
    if e is not None:
        return
    recorded(vm, f, kw)
    for n, w in want.items():
        x = f.attrs.get(n, "nothing")
        vm.prove("%s is the one given, or the documented one" % n.lstrip("_"), z3.BoolVal(x is w) if isinstance(w, (SObj, VarIntEncoding, fields.UUIDFormat)) else vm.to_val(x) == vm.to_val(w))
    vm.prove("exactly the given arguments count as explicit", z3.BoolVal(set(f.attrs["__explicit_init_args__"]) == set(given)))


@unit("construct.refused", ["C02", "C21", "C22", "C16", "C20"], under=["binobj.fields.numeric.Timestamp.__init__", "binobj.fields.numeric.Float.__init__", "binobj.fields.numeric.VariableLengthInteger.__init__",
      "binobj.fields.stringlike.String.__init__", "binobj.fields.containers.Array.__init__", "binobj.fields.containers.Union.__init__", "binobj.fields.base.Field.computes"], contracts=abstract_contracts)
def u_refused(vm):
    reset(vm)
    k = vm.pick("resolution", "byte order", "format", "pad", "pads", "count", "count flag", "choice", "no vli", "computed twice", "computed constant", "computed")
    fn = lambda n: SFn(n, lambda vm, a, k: None)
    mk = {"resolution": lambda: raises(vm, "x", fields.Timestamp, [], {"size": 4, "resolution": "min"}),
          "byte order": lambda: raises(vm, "x", fields.Float32, [], {"endian": "middle"}),
          "format": lambda: raises(vm, "x", fields.VariableLengthInteger, [], {"vli_format": "vlq?"}),
          "no vli": lambda: raises(vm, "x", fields.VariableLengthInteger, [], {"vli_format": None}),
          "pad": lambda: raises(vm, "x", fields.String, [], {"size": 4, "pad_byte": " "}),
          "pads": lambda: raises(vm, "x", fields.String, [], {"size": 4, "pad_byte": b"ab"}),
          "count": lambda: raises(vm, "x", fields.Array, [mkfield(vm, AbstractField, name=None)], {"count": b"3"}),
          "count flag": lambda: raises(vm, "x", fields.Array, [mkfield(vm, AbstractField, name=None)], {"count": True}),
          "choice": lambda: raises(vm, "x", fields.Union, [fields.UInt8], {"load_decider": fn("l"), "dump_decider": fn("d")})}
    if k in mk:
        r, e = mk[k]()
        vm.cover(k)
        vm.prove("the configuration is refused: " + k, z3.BoolVal(e is not None and issubclass(e.cls, TypeError if k.startswith("count") else errors.ConfigurationError)))
        return
    g, h = fn("g"), fn("h")
    f = mkfield(vm, AbstractField, _compute_fn=g if k == "computed twice" else None, const=any_value(vm, "const") if k == "computed constant" else UNDEFINED)
    r, e = raises(vm, "x", Field.computes, [f, h])
    vm.cover(k)
    if k == "computed":
        vm.prove("the computing function is recorded", z3.BoolVal(e is None and f.attrs["_compute_fn"] is h))
    else:
        vm.prove("a second computing function, or one for a constant, is refused", z3.BoolVal(e is not None and issubclass(e.cls, errors.ConfigurationError)
                 and f.attrs["_compute_fn"] is (g if k == "computed twice" else None)))


@unit("construct.containers", ["C15", "C16", "C20"], contracts=lambda: {**abstract_contracts(), Struct.get_size.__func__: h_struct_size},
      under=["binobj.fields.containers.Array.__init__", "binobj.fields.containers.Nested.__init__", "binobj.fields.containers.Union.__init__"])
def u_containers(vm):
    reset(vm)
    k = vm.pick("array", "nested", "union")
    kw = common(vm)
    given = dict(kw)
    vm.cover(k)
    if k == "array":
        _, csize = pick_size(vm, ("none", "const", "name"))
        always = vm.pick(True, False)
        null = vm.pick(UNDEFINED, DEFAULT, SBytes(z3.Const("nullrepr", SeqS)))
        c = mkfield(vm, AbstractField, name=None, _size=csize, present=base._always_present if always else present_fn(vm), null_value=null)
        ck, count = pick_size(vm, ("none", "const", "name", "field"))
        if ck != "none" or vm.pick(True, False):
            given["count"] = count
        halt = vm.pick(None, SFn("halt", lambda vm, a, k: None))
        if halt is not None:
            given["halt_check"] = halt
        f, e = raises(vm, "x", fields.Array, [c], given)
        vm.prove("the configuration is accepted", z3.BoolVal(e is None))
        if e is not None:
            return
        recorded(vm, f, kw)
        a = f.attrs
        vm.prove("component and count are the ones given", z3.And(z3.BoolVal(a["component"] is c), z3.BoolVal(a["count"] is count) if ck != "const" else vm.to_val(a["count"]) == vm.to_val(count)))
        if halt is not None:
            vm.prove("the stopping rule is the one given", z3.BoolVal(a["halt_check"] is halt))
        full = z3.BoolVal(True) if not isinstance(null, SBytes) else z3.Length(null.t) == vm.int_t(csize) if isinstance(csize, SInt) else z3.BoolVal(False)
        if ck == "const" and isinstance(csize, SInt) and always:
            vm.prove("the size is known if every element always has the same", z3.If(full, vm.to_val(a["_size"]) == vm.to_val(SInt(vm.int_t(count) * vm.int_t(csize))), vm.to_val(a["_size"]) == vm.to_val(None)))
        else:
            vm.prove("the size is unknown otherwise", vm.to_val(a["_size"]) == vm.to_val(None))
    elif k == "nested":
        vm.class_size = vm.pick(None, SInt(z3.Int("class_size")))
        f, e = raises(vm, "x", fields.Nested, [AnyNested], given)
        vm.prove("the configuration is accepted", z3.BoolVal(e is None))
        if e is not None:
            return
        recorded(vm, f, kw)
        vm.prove("structure and size are those of the class given", z3.And(z3.BoolVal(f.attrs["struct_class"] is AnyNested), vm.to_val(f.attrs["_size"]) == vm.to_val(vm.class_size)))
    else:
        cs = [mkfield(vm, AbstractField), mkfield(vm, AbstractField)] if vm.pick(True, False) else [AnyNested]
        l, d = (SFn(n, lambda vm, a, k: None) for n in ("l", "d"))
        f, e = raises(vm, "x", fields.Union, cs, dict(given, load_decider=l, dump_decider=d))
        vm.prove("the configuration is accepted", z3.BoolVal(e is None))
        if e is not None:
            return
        recorded(vm, f, kw)
        got = vm.iterate(f.attrs["choices"])
        vm.prove("choices and deciders are the ones given", z3.BoolVal(list(got) == cs and f.attrs["load_decider"] is l and f.attrs["dump_decider"] is d))


class AnyNested(Struct):
    __pyvc__ = True


def h_struct_size(vm, args, kw):
    return vm.class_size


@unit("construct.const_size", ["C10", "C04"], under=["binobj.fields.base.Field.__init__", "binobj.fields.stringlike.String._size_for_value", "binobj.fields.stringlike.StringZ._size_for_value", "binobj.fields.stringlike.Bytes._size_for_value"])
def u_const_size(vm):
    reset(vm)
    cls = vm.pick(fields.Bytes, fields.String, fields.StringZ)
    given = {"name": "fld"}
    size = vm.pick(None, SInt(z3.Int("size")))
    if size is not None:
        vm.assume(size.t >= 0)
        given["size"] = size
    if cls is fields.Bytes:
        c = SBytes(z3.Const("const", SeqS))
        n = z3.Length(c.t)
    else:
        c = SStr(z3.Const("const", StrS))
        enc = SStr(z3.Const("enc", StrS))
        given["encoding"] = enc
        t = c.t if cls is fields.String else strcat(c.t, vm.strlit("\0"))
        n = z3.Length(encode(t, enc.t))
        vm.assume(enc_ok(t, enc.t))
    f, e = raises(vm, "x", cls, [], dict(given, const=c))
    vm.prove("a constant is accepted", z3.BoolVal(e is None))
    if e is not None:
        return
    vm.cover("%s %s" % (cls.__name__, size is None))
    a = f.attrs
    vm.prove("the constant is the default", z3.And(vm.to_val(a["const"]) == vm.to_val(c), vm.to_val(a["_default"]) == vm.to_val(c)))
    vm.prove("the size is the one given, or that of the constant", vm.int_t(a["_size"]) == (n if size is None else size.t))
