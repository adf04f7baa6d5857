"""Symbolic environments and abstract collaborators shared by the proof units."""
import z3
from pyvc import models
from pyvc.engine import UNBOUND, i2b, b2i, pow2, rep
from pyvc.models import pow2_facts
from pyvc.terms import *
from pyvc.unit import unit

from binobj import errors, fields, helpers, structures, varints
from binobj.fields import base, containers, numeric, stringlike

UNDEFINED, DEFAULT, NOT_PRESENT = base.UNDEFINED, base.DEFAULT, base.NOT_PRESENT
Field = base.Field


class AbstractField(Field):
    """A field type about whose hooks only their contract is known."""
    __pyvc__ = True

    def _do_load(self, stream, context, loaded_fields):
        raise NotImplementedError

    def _do_dump(self, stream, data, context, all_fields):
        raise NotImplementedError

    def _size_for_value(self, value):
        raise NotImplementedError


class DefaultSizeField(AbstractField):
    """An abstract field type that inherits Field._size_for_value."""
    __pyvc__ = True
    _size_for_value = Field._size_for_value


class Ctx:
    """The opaque context object handed in by the user."""


# Contract of the hooks of a field type: functions of the data, position, values and context.
LD_OK = z3.Function("load_ok", SeqS, IntS, DomS, MapS, Val, BoolS)
LD_EOF = z3.Function("load_eof", SeqS, IntS, DomS, MapS, Val, BoolS)
LV = z3.Function("load_value", SeqS, IntS, DomS, MapS, Val, Val)
LP = z3.Function("load_end", SeqS, IntS, DomS, MapS, Val, IntS)
DU_OK = z3.Function("dump_ok", Val, DomS, MapS, Val, BoolS)
DU = z3.Function("dump_bytes", Val, DomS, MapS, Val, SeqS)
SZ_OK = z3.Function("size_for_value_ok", Val, BoolS)
SZ = z3.Function("size_for_value", Val, IntS)
VOK = z3.Function("validator_ok", IntS, Val, BoolS)
PRES = z3.Function("present", DomS, MapS, Val, BoolS, BoolS)

ARGS_STREAM = "hook called with the stream and values of the call"


def ev(vm, *e):
    vm.__dict__.setdefault("events", []).append(e)


def reset(vm):
    vm.events = []


def events(vm, kind):
    return [e for e in vm.events if e[0] == kind]


def bind(names, args, kw):
    out = dict(zip(names, args))
    out.update(kw)
    return [out.get(n) for n in names]


def h_do_load(vm, args, kw):
    self, stream, context, lf = bind(("self", "stream", "context", "loaded_fields"), args, kw)
    dom, val = vm.dict_arrays(lf if isinstance(lf, SDict) else models.as_mapping(vm, lf))
    c = vm.to_val(context)
    ev(vm, "load", stream, stream.pos, (dom, val), c)
    a = (stream.data, stream.pos, dom, val, c)
    ln = z3.Length(stream.data)
    if vm.branch(LD_OK(*a)):
        p = LP(*a)
        vm.assume(z3.And(p >= stream.pos, p <= ln))
        stream.pos = p
        return vm.from_val(LV(*a))
    stream.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(stream.pos >= a[1], stream.pos <= ln))
    if vm.branch(LD_EOF(*a)):
        raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=None, offset=None)
    raise vm.pyerr(errors.DeserializationError, "load", field=None, offset=None)


def h_do_dump(vm, args, kw):
    self, stream, data, context, af = bind(("self", "stream", "data", "context", "all_fields"), args, kw)
    dom, val = vm.dict_arrays(af if isinstance(af, SDict) else models.as_mapping(vm, af))
    c, d = vm.to_val(context), vm.to_val(data)
    a = (d, dom, val, c)
    ev(vm, "dump", d, (dom, val), c)
    if vm.branch(DU_OK(*a)):
        models.st_write(vm, stream, SBytes(DU(*a)))
        return None
    # May have written anything before it fails.
    models.st_write(vm, stream, SBytes(vm.fresh("junk", SeqS)))
    raise vm.pyerr(errors.UnserializableValueError, "dump", field=self, value=data, struct=None)


def h_size_for_value(vm, args, kw):
    self, value = bind(("self", "value"), args, kw)
    v = vm.to_val(value)
    if vm.branch(SZ_OK(v)):
        vm.assume(SZ(v) >= 0)
        return SInt(SZ(v))
    return None


def abstract_contracts():
    return {AbstractField._do_load: h_do_load, AbstractField._do_dump: h_do_dump,
            AbstractField._size_for_value: h_size_for_value}


def validators(vm, name="nval", fn=VOK):
    n = z3.Int(name)
    vm.assume(n >= 0)

    def elem(k):
        def call(vm, args, kw):
            v = vm.to_val(args[-1])
            ev(vm, "validator", k, v)
            if vm.branch(fn(k, v)):
                return None
            raise vm.pyerr(errors.ValidationError, "validator", field=None, value=args[-1])
        return SFn("validator", call)
    return SSeq(n, elem, "validators", kind=list)


def all_valid(v, n=None, fn=VOK):
    """Every validator accepts v (for a fresh index, to be proved)."""
    j = z3.Int("jv")
    return z3.Implies(z3.And(0 <= j, j < (n if n is not None else z3.Int("nval"))), fn(j, v))


def some_invalid(vm, v, n=None, fn=VOK):
    j = z3.Int("jw")
    return z3.Exists([j], z3.And(0 <= j, j < (n if n is not None else z3.Int("nval")), z3.Not(fn(j, v))))


def inv_validators(L):
    """Loop invariant: the validators so far accept one of the values in scope."""
    vm, k = L.vm, L.k
    j = z3.Int("jq")
    out, seen = [], set()
    pool = {}
    fr = L.frame
    while fr is not None:
        for nm, x in fr.locals.items():
            if L.level.get("local " + nm, 0) or isinstance(x, (SObj, SDict, SList, SFn)) or nm in pool:
                continue
            try:
                pool[nm] = vm.to_val(x)
            except Unsupported:
                pass
        fr = fr.parent
    pool["None"] = Val.VNone
    for nm, t in pool.items():
        t = z3.simplify(t)
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        for fnm, fn in getattr(vm, "vfuns", {"": VOK}).items():
            out.append(("validators%s accept %s" % (fnm, nm), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), fn(j, t)))))
    return out


def present_fn(vm, fn=PRES):
    def call(vm, args, kw):
        allv, ctx, stream = args
        d = allv if isinstance(allv, SDict) else models.as_mapping(vm, allv)
        dom, val = vm.dict_arrays(d)
        c = vm.to_val(ctx)
        t = fn(dom, val, c, z3.BoolVal(stream is not None))
        ev(vm, "present", t, (dom, val), c, stream, stream.pos if stream is not None else None)
        return SBool(t)
    return SFn("present", call)


def sym_dict(vm, name):
    return SDict(None, z3.Const(name + "_dom", DomS), z3.Const(name + "_val", MapS))


def in_stream(vm, name="data"):
    data, p, b = z3.Const(name, SeqS), z3.Int(name + "_p0"), z3.Int(name + "_base")
    vm.assume(z3.And(0 <= p, p <= z3.Length(data), b >= 0))
    s = SStream(data, p, b, kind="seq", mode="r", name=name)
    vm.roots.append(s)
    return s


def out_stream(vm, name="out"):
    d = z3.Const(name, SeqS)
    b = z3.Int(name + "_base")
    vm.assume(b >= 0)
    n = z3.Int(name + "_len")
    vm.assume(z3.And(z3.Length(d) == n, n >= 0))
    s = SStream(d, n, b, kind="seq", mode="w", name=name)
    vm.roots.append(s)
    return s


def context(vm):
    return SVal(z3.Const("ctx", Val))


def written(s, d0):
    """Bytes written since the data was d0, as an equation left to the caller."""
    return s.data


def mkfield(vm, cls, **kw):
    a = dict(const=UNDEFINED, discard=False, null_value=UNDEFINED, present=base._always_present, factory=None,
             not_present_value=NOT_PRESENT, validators=validators(vm), _default=UNDEFINED, name=SStr(vm.strlit("fld")),
             index=0, offset=None, _compute_fn=None, _size=None)
    a["name"] = "fld"
    a.update(kw)
    o = SObj(cls, a, name="field")
    vm.oid(o)
    return o


CONFIG = ("const", "discard", "null_value", "present", "factory", "not_present_value", "_default", "_compute_fn", "index", "offset")


def arbitrary(vm, f, names=CONFIG):
    """Let a field have any configuration in these respects; each is chosen when it is first looked at."""
    for n in names:
        f.attrs.pop(n, None)

    def lazy(vm, n):
        if n not in names:
            return NotImplemented
        if n == "discard":
            return SBool(z3.Bool("any_discard"))
        if n == "present":
            return vm.pick(base._always_present, present_fn(vm, z3.Function("any_present", DomS, MapS, Val, BoolS, BoolS)))
        if n in ("factory", "_compute_fn"):
            return vm.pick(None, SFn("any" + n, lambda vm, a, k: SVal(vm.fresh("made", Val))))
        if n == "index":
            return SInt(z3.Int("any_index"))
        if n == "offset":
            return vm.pick(None, SInt(z3.Int("any_offset")))
        return SVal(z3.Const("any_" + n, Val))
    f.lazy = lazy
    return f


def any_value(vm, name, *, sentinels=False):
    """An ordinary Python value: none of the library's markers."""
    t = z3.Const(name, Val)
    if not sentinels:
        vm.assume(z3.Not(z3.Or(Val.is_VUndef(t), Val.is_VDefault(t), Val.is_VNotPresent(t))))
    return SVal(t)


def raises(vm, name, fn, args, kw=None):
    """Call and return (result, exception)."""
    try:
        return vm.call(fn, args, kw or {}), None
    except PyRaise as e:
        return None, e.exc


def load_it(vm, f, s, ctx, d):
    """Load with a plain field, or with the type's own part of loading and any other configuration."""
    vm.public = vm.pick("public", "hook") == "public"
    saved, lazy = dict(f.attrs), f.lazy
    if vm.public:
        arbitrary(vm, f, ("discard", "_compute_fn", "index", "offset"))
        out = raises(vm, "load", Field.from_stream, [f, s], {"context": ctx, "loaded_fields": d})
    else:
        arbitrary(vm, f)
        out = raises(vm, "load", f.cls._do_load, [f, s, ctx, d])
    f.attrs.update({n: saved[n] for n in CONFIG if n in saved})
    f.lazy = lazy
    return out


def dump_it(vm, f, s, data, ctx, d):
    """(Result, exception, whether it was the public method) of a dump, likewise."""
    vm.public = vm.pick("public", "hook") == "public"
    saved, lazy = dict(f.attrs), f.lazy
    if vm.public:
        arbitrary(vm, f, ("discard", "not_present_value", "_compute_fn", "index", "offset", "present", "const"))
        out = raises(vm, "dump", Field.to_stream, [f, s], {"data": data, "context": ctx, "all_fields": d})
    else:
        arbitrary(vm, f)
        out = raises(vm, "dump", f.cls._do_dump, [f, s, data, ctx, d])
    f.attrs.update({n: saved[n] for n in CONFIG if n in saved})
    f.lazy = lazy
    return out + (vm.public,)


# ---- kinds of configuration -------------------------------------------------------------
def pick_size(vm, kinds=("none", "const", "name", "field")):
    k = vm.pick(*kinds)
    if k == "none":
        return k, None
    if k == "const":
        n = z3.Int("size")
        vm.assume(n >= 0)
        return k, SInt(n)
    if k == "name":
        return k, "other"
    # The field referred to may have any default and null value: neither may stand in for its value.
    other = SObj(AbstractField, dict(
        name="other", _size=None, const=UNDEFINED, discard=False, null_value=SVal(z3.Const("other_null", Val)), present=base._always_present, factory=None,
        not_present_value=NOT_PRESENT, validators=SList([]), _default=SVal(z3.Const("other_default", Val)), index=0, offset=None, _compute_fn=None), name="sizefield")
    vm.oid(other)
    return k, other


def expected_size(vm, kind, dom, val):
    """(available, is an int, size) of a configured size, as terms."""
    if kind == "const":
        return z3.BoolVal(True), z3.BoolVal(True), z3.Int("size")
    k = vm.strlit("other")
    t = val[k]
    isint = z3.Or(Val.is_VInt(t), Val.is_VBool(t))
    return dom[k], isint, z3.If(Val.is_VInt(t), Val.int_of(t), z3.If(Val.bool_of(t), z3.IntVal(1), z3.IntVal(0)))


def zeros(n):
    """n zero bytes (the term the model of b"\0" * n and bytes(n) produces)."""
    return rep(z3.IntVal(0), z3.simplify(n))
