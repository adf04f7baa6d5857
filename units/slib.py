"""A structure class with any number of fields, and the contracts of its fields.

Field k of the class (0 <= k < N) has the name NAME(k); names are distinct.  What its public
methods do is given by uninterpreted functions of k and of exactly the arguments the
documentation says they depend on."""
from .lib import *
from .containers import arrays

SM = structures.StructMetadata
Struct = structures.Struct
N = z3.Int("n_fields")
NAME = z3.Function("field_name", IntS, StrS)
IDX = z3.Function("field_index", StrS, IntS)
DISC = z3.Function("field_discard", IntS, BoolS)
COND = z3.Function("field_is_conditional", IntS, BoolS)
NFILL = z3.Function("field_null_fills", IntS, BoolS)
SIZEV = z3.Function("field_size", IntS, Val)
OFFV = z3.Function("field_offset", IntS, Val)
# Field.from_stream(stream, context, loaded): 0 value, 1 end of file, 2 other deserialization error,
# 3 a value it depends on is missing
FK = z3.Function("fld_load_outcome", IntS, SeqS, IntS, DomS, MapS, Val, IntS)
FV = z3.Function("fld_load_value", IntS, SeqS, IntS, DomS, MapS, Val, Val)
FP = z3.Function("fld_load_end", IntS, SeqS, IntS, DomS, MapS, Val, IntS)
# Field.to_stream(stream, value, context, all_fields)
WOK = z3.Function("fld_dump_ok", IntS, Val, DomS, MapS, Val, BoolS)
W = z3.Function("fld_dump_bytes", IntS, Val, DomS, MapS, Val, SeqS)
# Field.compute_value_for_dump(values, context): values are a structure ("s") or a dictionary ("d");
# 0 value, 1 an error of the library, 2 another exception
CK = {x: z3.Function("fld_compute_outcome_" + x, IntS, DomS, MapS, Val, IntS) for x in "sd"}
CV = {x: z3.Function("fld_compute_value_" + x, IntS, DomS, MapS, Val, Val) for x in "sd"}
CUND = z3.Function("fld_compute_undefined_size", IntS, DomS, MapS, Val, BoolS)
# Field.get_expected_size(values)
EK = z3.Function("fld_size_outcome", IntS, DomS, MapS, IntS)
ES = z3.Function("fld_expected_size", IntS, DomS, MapS, IntS)
# reading an attribute that isn't set: its default or computed value
GK = z3.Function("fld_get_outcome", IntS, DomS, MapS, IntS)
GV = z3.Function("fld_get_value", IntS, DomS, MapS, Val)
VA = z3.Function("fld_validator_accepts", IntS, IntS, Val, BoolS)
NV = z3.Function("fld_number_of_validators", IntS, IntS)


class SymStruct(Struct):
    """The structure class under study."""
    __pyvc__ = True


class SymField(AbstractField):
    """Field number attrs["fi"] of the class under study."""
    __pyvc__ = True

    def from_stream(self, stream, context=None, loaded_fields=None):
        raise NotImplementedError

    def to_stream(self, stream, data=DEFAULT, context=None, all_fields=None):
        raise NotImplementedError

    def to_bytes(self, data=DEFAULT, context=None, all_fields=None):
        raise NotImplementedError

    def compute_value_for_dump(self, all_values, context=None):
        raise NotImplementedError

    def get_expected_size(self, field_values):
        raise NotImplementedError

    @property
    def is_conditional(self):
        raise NotImplementedError

    @property
    def null_fills_field(self):
        raise NotImplementedError

    def __set__(self, instance, value):
        raise NotImplementedError


FINITE = [None]     # the names of the fields in a bounded instance


def comp(s):
    """s is the name of a field."""
    if FINITE[0] is not None:
        return z3.Or([s == n for n in FINITE[0]] or [z3.BoolVal(False)])
    return z3.And(0 <= IDX(s), IDX(s) < N, NAME(IDX(s)) == s)


def key(vm, k):
    if z3.is_expr(k):
        vm.fact1(("name", k.get_id()), lambda: IDX(NAME(k)) == k)
    return NAME(k)


def field_at(vm, k):
    k = z3.simplify(k if z3.is_expr(k) else z3.IntVal(k))
    cache = vm.sym_fields
    if str(k) in cache:
        return cache[str(k)]
    key(vm, k)
    vm.fact1(("field", k.get_id()), lambda: z3.And(
        NV(k) >= 0, z3.Or(Val.is_VNone(SIZEV(k)), Val.is_VInt(SIZEV(k)), Val.is_VStr(SIZEV(k))),
        z3.Implies(Val.is_VInt(SIZEV(k)), Val.int_of(SIZEV(k)) >= 0),
        z3.Or(Val.is_VNone(OFFV(k)), z3.And(Val.is_VInt(OFFV(k)), Val.int_of(OFFV(k)) >= 0))))

    def lazy(vm, name):
        if vm.find_class_attr(SymField, name) is UNBOUND:
            raise Unsupported("attribute %s of a field" % name)
        return NotImplemented

    def validator(j):
        def call(vm, args, kw):
            v = vm.to_val(args[-1])
            if vm.branch(VA(k, j, v)):
                return None
            raise vm.pyerr(errors.ValidationError, "validator", field=f, value=args[-1])
        return SFn("validator", call)
    f = SObj(SymField, {"fi": k, "name": SStr(NAME(k)), "discard": SBool(DISC(k)), "index": SInt(k), "_size": SVal(SIZEV(k)),
                        "offset": SVal(OFFV(k)), "validators": SSeq(NV(k), validator, "field validators", kind=list, tag=("field", k))}, lazy=lazy, oid=3000000 + k, name="field")
    cache[str(k)] = f
    return f


class Components(Sym):
    """The ordered dictionary of the fields."""
    pyvc_class = dict

    def pyvc_method(self, vm, name):
        if name in ("values", "items", "keys"):
            if name == "keys":
                return Native(name, lambda vm, a, k: models.KeysView(self))
            return Native(name, lambda vm, a, k: self.seq(vm, name))
        if name == "get":
            def get(vm, a, k):
                if vm.branch(self.pyvc_contains(vm, a[0])):
                    return self.pyvc_getitem(vm, a[0])
                return a[1] if len(a) > 1 else None
            return Native(name, get)
        raise Unsupported("components.%s" % name)

    def seq(self, vm, what):
        if what == "values":
            return SSeq(N, lambda k: field_at(vm, k), "components", kind=list)
        if what == "items":
            return SSeq(N, lambda k: (SStr(key(vm, k)), field_at(vm, k)), "components", kind=list)
        return SSeq(N, lambda k: SStr(key(vm, k)), "components", kind=list)

    def pyvc_seq(self, vm):
        return self.seq(vm, "keys")

    def keys_dom(self, vm):
        return comp_dom(vm)

    def pyvc_contains(self, vm, x):
        return comp(models.key_t(vm, x))

    def pyvc_getitem(self, vm, x):
        t = models.key_t(vm, x)
        if not vm.branch(comp(t)):
            raise vm.pyerr(KeyError, "no such field")
        vm.fact1(("idx", t.get_id()), lambda: z3.Implies(comp(t), NAME(IDX(t)) == t))
        return field_at(vm, IDX(t))


def comp_dom(vm):
    d = z3.Const("component_names", DomS)
    vm.fact1("component_names", lambda: vm.forall_s(lambda s: d[s] == comp(s), lambda s: [d[s]]))
    return d


def setup(vm, **meta):
    """The class under study, with its metadata."""
    reset(vm)
    vm.sym_fields = {}
    vm.assume(N >= 0)
    if vm.unroll is not None:
        n = vm.pick(2, 1, 0)
        FINITE[0] = [vm.strlit("f%d" % i) for i in range(n)]
        vm.universe = FINITE[0] + [vm.strlit("other")]
        vm.assume(N == n)
        for i in range(n):
            vm.assume(z3.And(NAME(i) == FINITE[0][i], IDX(FINITE[0][i]) == i))
    else:
        FINITE[0] = None
        i = z3.Int("i!n")
        vm.assume(z3.ForAll([i], IDX(NAME(i)) == i, patterns=[NAME(i)]))
    m = SObj(SM, dict({"name": "SymStruct", "components": Components(), "argument_defaults": SDict({})}, **meta), name="metadata")
    vm.class_attrs = {(SymStruct, "__binobj_struct__"): m}
    return m


def struct_instance(vm, name="inst"):
    """An instance: values for some of the fields, possibly the UNDEFINED marker."""
    d = sym_dict(vm, name)
    vm.assume(vm.forall_s(lambda s: z3.Implies(d.dom[s], comp(s)), lambda s: [d.dom[s]]))
    o = SObj(SymStruct, {"__values__": d}, name=name)
    vm.oid(o)
    vm.roots.append(o)
    return o, d.dom, d.val


def values_of(vm, o):
    return arrays(vm, o.attrs["__values__"])


def source(vm, x):
    """(kind, keys, values) of the mapping a field's value is computed from."""
    if isinstance(x, SObj) and issubclass(x.cls, Struct):
        return ("s",) + tuple(values_of(vm, x))
    if isinstance(x, Proxy):
        return ("s",) + tuple(values_of(vm, x.struct))
    return ("d",) + tuple(arrays(vm, x))


class Proxy(Sym):
    """StructMappingProxy: its keys are the names of the set values."""
    pyvc_class = structures.MutableStructMappingProxy

    def __init__(self, struct):
        self.struct = struct

    def pyvc_mapping(self, vm):
        dom, val = values_of(vm, self.struct)
        return SDict(None, set_dom(vm, dom, val), val)

    def pyvc_contains(self, vm, x):
        dom, val = values_of(vm, self.struct)
        t = models.key_t(vm, x)
        return z3.And(dom[t], val[t] != Val.VUndef)


def set_dom(vm, dom, val):
    """Names of the values that are set: the UNDEFINED marker doesn't count."""
    d = z3.Function("set_names", DomS, MapS, DomS)(dom, val)
    vm.fact1(("set", dom.get_id(), val.get_id()), lambda: vm.forall_s(lambda s: d[s] == z3.And(dom[s], val[s] != Val.VUndef), lambda s: [d[s]]))
    return d


def no_marker(v):
    return z3.Not(z3.Or(Val.is_VUndef(v), Val.is_VDefault(v)))


def h_load(vm, args, kw):
    self, stream, ctx, lf = bind(("self", "stream", "context", "loaded_fields"), args, kw)
    dom, val = arrays(vm, lf)
    a = (self.attrs["fi"], stream.data, stream.pos, dom, val, vm.to_val(ctx))
    ev(vm, "load", self, a)
    vm.assume(z3.And(FK(*a) >= 0, FK(*a) <= 3))
    if vm.branch(FK(*a) == 0):
        vm.assume(z3.And(FP(*a) >= stream.pos, FP(*a) <= z3.Length(stream.data), no_marker(FV(*a))))
        stream.pos = FP(*a)
        return vm.from_val(FV(*a))
    stream.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(stream.pos >= a[2], stream.pos <= z3.Length(stream.data)))
    if vm.branch(FK(*a) == 1):
        raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=self, offset=None)
    if vm.branch(FK(*a) == 2):
        raise vm.pyerr(errors.DeserializationError, "load", field=self, offset=None)
    raise vm.pyerr(vm.missing_error, "missing", field=self)


def h_dump(vm, args, kw):
    self, stream, data, ctx, af = bind(("self", "stream", "data", "context", "all_fields"), args, kw)
    dom, val = arrays(vm, af)
    a = (self.attrs["fi"], vm.to_val(data), dom, val, vm.to_val(ctx))
    ev(vm, "dump", self, a)
    if vm.branch(WOK(*a)):
        models.st_write(vm, stream, SBytes(W(*a)))
        return None
    raise vm.pyerr(errors.UnserializableValueError, "dump", field=self, value=data)


def h_tobytes(vm, args, kw):
    self, data, ctx, af = bind(("self", "data", "context", "all_fields"), args, kw)
    dom, val = arrays(vm, af)
    a = (self.attrs["fi"], vm.to_val(data), dom, val, vm.to_val(ctx))
    if vm.branch(WOK(*a)):
        return SBytes(W(*a))
    raise vm.pyerr(errors.UnserializableValueError, "dump", field=self, value=data)


def h_compute(vm, args, kw):
    self, vals, ctx = bind(("self", "all_values", "context"), args, kw)
    x, dom, val = source(vm, vals)
    a = (self.attrs["fi"], dom, val, vm.to_val(ctx))
    vm.assume(z3.And(CK[x](*a) >= 0, CK[x](*a) <= 2))
    if vm.branch(CK[x](*a) == 0):
        vm.assume(no_marker(CV[x](*a)))
        return vm.from_val(CV[x](*a))
    if vm.branch(CK[x](*a) == 1):
        if vm.branch(CUND(*a)):
            raise vm.pyerr(errors.UndefinedSizeError, "size", field=self)
        raise vm.pyerr(errors.MissingRequiredValueError, "missing", field=self)
    raise vm.pyerr(ZeroDivisionError, "an exception of a computing function")


def h_expected(vm, args, kw):
    self, vals = bind(("self", "field_values"), args, kw)
    x, dom, val = source(vm, vals)
    if x != "d":
        raise Unsupported("expected size from a structure")
    a = (self.attrs["fi"], dom, val)
    k = self.attrs["fi"]
    if vm.branch(Val.is_VInt(SIZEV(k))):
        return SInt(Val.int_of(SIZEV(k)))
    vm.assume(z3.And(EK(*a) >= 0, EK(*a) <= 2))
    if vm.branch(EK(*a) == 0):
        # By reference, or the size of the field's own value (proved in field.get_expected_size).
        vm.assume(z3.And(ES(*a) >= 0, z3.Implies(Val.is_VStr(SIZEV(k)), dom[Val.str_of(SIZEV(k))]), z3.Implies(Val.is_VNone(SIZEV(k)), dom[NAME(k)])))
        return SInt(ES(*a))
    if vm.branch(EK(*a) == 1):
        raise vm.pyerr(errors.UndefinedSizeError, "size", field=self)
    raise vm.pyerr(errors.MissingRequiredValueError, "missing", field=self)


def h_set(vm, args, kw):
    self, inst, value = args
    v = vm.to_val(value)
    ok = z3.Function("fld_assign_ok", IntS, Val, BoolS)(self.attrs["fi"], v)
    if not vm.branch(ok):
        raise vm.pyerr(errors.ValidationError, "validator", field=self, value=value)
    models.setitem(vm, inst.attrs["__values__"], self.attrs["name"], value)


def read(vm, inst, k):
    """Field.__get__ on an instance (contract; the code is proved in struct.get)."""
    dom, val = values_of(vm, inst)
    n = key(vm, k)
    if vm.branch(dom[n]):
        return vm.from_val(val[n])
    a = (k, dom, val, Val.VNone)
    vm.assume(z3.And(CK["s"](*a) >= 0, CK["s"](*a) <= 2))
    if vm.branch(CK["s"](*a) == 0):
        vm.assume(no_marker(CV["s"](*a)))
        return vm.from_val(CV["s"](*a))
    if vm.branch(CK["s"](*a) == 1):
        raise vm.pyerr(errors.MissingRequiredValueError, "missing", field=field_at(vm, k))
    raise vm.pyerr(ZeroDivisionError, "an exception of a computing function")


def getattr_sym(vm, inst, n):
    t = models.key_t(vm, n)
    if not vm.branch(comp(t)):
        raise Unsupported("attribute that isn't a field")
    f = field_at(vm, IDX(t))
    return vm.call(Bound(vm.find_class_attr(SymField, "__get__"), f), [inst, SymStruct], {})


def setattr_sym(vm, inst, n, v):
    t = models.key_t(vm, n)
    if not vm.branch(comp(t)):
        raise Unsupported("attribute that isn't a field")
    f = field_at(vm, IDX(t))
    return vm.call(Bound(vm.find_class_attr(SymField, "__set__"), f), [inst, v], {})


def s_contains(vm, inst, x):
    """`name in structure`: the name of a set value (Struct.__iter__, proved in struct.iter)."""
    dom, val = values_of(vm, inst)
    t = models.key_t(vm, x)
    return z3.And(dom[t], val[t] != Val.VUndef)


def stubs():
    return {(SymStruct, "getattr_sym"): getattr_sym, (SymStruct, "setattr_sym"): setattr_sym, (SymStruct, "iter_contains"): s_contains}


def h_unexpected(vm, args, kw):
    return vm.pyerr(errors.UnexpectedValueError, "unexpected", struct=kw["struct"], names=kw["name"]).exc


def field_contracts():
    return {errors.UnexpectedValueError: h_unexpected, SymField.from_stream: h_load, SymField.to_stream: h_dump, SymField.to_bytes: h_tobytes, SymField.__set__: h_set,
            SymField.compute_value_for_dump: h_compute, SymField.get_expected_size: h_expected,
            SymField.is_conditional.fget: lambda vm, a, k: SBool(COND(a[0].attrs["fi"])),
            SymField.null_fills_field.fget: lambda vm, a, k: SBool(NFILL(a[0].attrs["fi"])),
            structures.MutableStructMappingProxy: lambda vm, a, k: Proxy(a[0]), structures.StructMappingProxy: lambda vm, a, k: Proxy(a[0])}
