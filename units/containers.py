"""Contracts of arrays, nested structures and unions (C16, C20, C05)."""
import collections.abc
import types as _types
from .lib import *

# Contract of Field.to_stream / from_stream of a component or choice (proved in units/field.py).
TS_OK = z3.Function("to_stream_ok", IntS, Val, DomS, MapS, Val, BoolS)
TS = z3.Function("to_stream_bytes", IntS, Val, DomS, MapS, Val, SeqS)
FS_OK = z3.Function("from_stream_ok", IntS, SeqS, IntS, DomS, MapS, Val, BoolS)
FS_EOF = z3.Function("from_stream_eof", IntS, SeqS, IntS, DomS, MapS, Val, BoolS)
FSV = z3.Function("from_stream_val", IntS, SeqS, IntS, DomS, MapS, Val, Val)
FSP = z3.Function("from_stream_pos", IntS, SeqS, IntS, DomS, MapS, Val, IntS)


class Component(AbstractField):
    """A field about which only the contract of its public methods is known."""
    __pyvc__ = True

    def to_stream(self, stream, data=DEFAULT, context=None, all_fields=None):
        raise NotImplementedError

    def from_stream(self, stream, context=None, loaded_fields=None):
        raise NotImplementedError


def arrays(vm, d):
    if d is None:
        d = SDict({})
    return vm.dict_arrays(d if isinstance(d, SDict) else models.as_mapping(vm, d))


def h_ts(vm, args, kw):
    self, stream, data, ctx, af = bind(("self", "stream", "data", "context", "all_fields"), args, kw)
    dom, val = arrays(vm, af)
    a = (self.attrs["cid"], vm.to_val(data), dom, val, vm.to_val(ctx))
    ev(vm, "to_stream", self, a)
    if vm.branch(TS_OK(*a)):
        if self.attrs.get("csize") is not None:
            vm.assume(z3.Length(TS(*a)) == self.attrs["csize"])
        models.st_write(vm, stream, SBytes(TS(*a)))
        return None
    raise vm.pyerr(errors.UnserializableValueError, "component", field=self, value=data)


def h_fs(vm, args, kw):
    self, stream, ctx, lf = bind(("self", "stream", "context", "loaded_fields"), args, kw)
    dom, val = arrays(vm, lf)
    a = (self.attrs["cid"], stream.data, stream.pos, dom, val, vm.to_val(ctx))
    ev(vm, "from_stream", self, a)
    if vm.branch(FS_OK(*a)):
        vm.assume(z3.And(FSP(*a) >= stream.pos, FSP(*a) <= z3.Length(stream.data)))
        vm.assume(z3.Not(z3.Or(Val.is_VNotPresent(FSV(*a)), Val.is_VUndef(FSV(*a)), Val.is_VDefault(FSV(*a)))))
        stream.pos = FSP(*a)
        return vm.from_val(FSV(*a))
    stream.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(stream.pos >= a[2], stream.pos <= z3.Length(stream.data)))
    if vm.branch(FS_EOF(*a)):
        raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=self, offset=None)
    raise vm.pyerr(errors.DeserializationError, "component", field=self, offset=None)


def component(vm, cid=0, size=None, **kw):
    f = mkfield(vm, Component, name=None, _size=SInt(size) if size is not None else None, cid=z3.IntVal(cid), csize=size, **kw)
    return f


def contracts():
    return {**abstract_contracts(), Component.to_stream: h_ts, Component.from_stream: h_fs}


def mk(vm, cls, *args, **kw):
    f, e = raises(vm, "x", cls, list(args), dict(kw, name="fld"))
    if e is not None:
        vm.prove("the configuration is accepted", z3.BoolVal(False))
        raise PathEnd()
    return f


ARR = ["binobj.fields.containers.Array.__init__", "binobj.fields.containers.Array.get_final_element_count"]


def pick_array(vm, fixed=(True, False)):
    kind = vm.pick("none", "const", "name", "field")
    cnt = {"none": None, "const": SInt(z3.Int("count")), "name": "other"}.get(kind)
    if kind == "field":
        cnt = SObj(AbstractField, {"name": "other", "_size": None}, name="countfield")
        vm.oid(cnt)
    if kind == "const":
        vm.assume(z3.Int("count") >= 0)
    cs = None
    if vm.pick(*fixed):
        cs = z3.Int("component_size")
        vm.assume(cs >= 0)
    comp = component(vm, 0, cs)
    kw = {"count": cnt} if cnt is not None or vm.pick(True, False) else {}
    return kind, comp, kw


def count_of(vm, kind, d):
    """(available, is an int, number) of the announced count."""
    if kind == "const":
        return z3.BoolVal(True), z3.BoolVal(True), z3.Int("count")
    return expected_size(vm, kind, d.dom, d.val)


BCAT = z3.Function("bytes_of_first", IntS, SeqS)


def elem(vm, k):
    return vm.arr_a[k]


def bcat_defs(vm, k):
    dom, val, ctx, cs = vm.arr
    vm.fact1(("bcat", str(k)), lambda: z3.And(BCAT(0) == z3.Empty(SeqS), z3.Implies(k >= 0, BCAT(k + 1) == z3.Concat(BCAT(k), TS(0, elem(vm, k), dom, val, ctx)))))


def unrolled_defs(vm, defs):
    """In an unrolled instance there are no invariants to unfold the recursion in."""
    for i in range(vm.unroll + 2 if vm.unroll is not None else 0):
        defs(vm, z3.IntVal(i))


def inv_dump(L):
    vm, k = L.vm, L.k
    if not hasattr(vm, "arr"):
        return []
    dom, val, ctx, cs = vm.arr
    bcat_defs(vm, k)
    j = z3.Int("je")
    out = [("elements so far can be written", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), TS_OK(0, elem(vm, j), dom, val, ctx))))]
    for n, x in L.streams.items():
        if isinstance(x, z3.ExprRef) and x.sort() == SeqS:
            out.append((n + " is the elements so far", x == BCAT(k)))
            if vm.arr_d0 is not None:
                out.append((n + " has the elements so far appended", x == z3.Concat(vm.arr_d0, BCAT(k))))
        elif isinstance(x, z3.ExprRef) and x.sort() == IntS:
            out.append((n + " is their length", x == z3.Length(BCAT(k))))
            if vm.arr_d0 is not None:
                out.append((n + " is after the elements", x == z3.Length(vm.arr_d0) + z3.Length(BCAT(k))))
            if cs is not None:
                out.append((n + " is count times size", x == k * cs))
    for n, x in L.ints.items():
        out.append((n + " counts the elements", x == k))
        if vm.arr_n is not None:
            out.append((n + " does not pass the count (%s)" % vm.arr_kind, z3.Implies(z3.And(vm.arr_int, vm.arr_n >= 0), x <= vm.arr_n)))
    return out


@unit("containers.array_dump", ["C16", "C24"], inv=inv_dump, contracts=contracts,
      under=ARR + ["binobj.fields.containers.Array._do_dump", "binobj.fields.containers.Array._dump_unsized", "binobj.fields.base.Field.to_stream"])
def u_array_dump(vm):
    reset(vm)
    kind, comp, kw = pick_array(vm)
    f = mk(vm, fields.Array, comp, **kw)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    n = z3.Int("n_elems")
    vm.assume(n >= 0)
    vm.arr_a = z3.Const("elems", LstS)
    how = vm.pick("list", "tuple", "iterator")
    if how == "list":
        data = SList(None, n, vm.arr_a)
    else:
        a = vm.arr_a
        data = SSeq(n, lambda k: vm.from_val(a[k]), "elems", kind=tuple if how == "tuple" else _types.GeneratorType)
    avail = isint = want = None
    if kind != "none":
        avail, isint, want = count_of(vm, kind, d)
    vm.arr = (d.dom, d.val, ctx.t, comp.attrs["csize"])
    vm.arr_n, vm.arr_int, vm.arr_kind = want, isint, kind
    unrolled_defs(vm, bcat_defs)
    s = out_stream(vm)
    d0 = vm.arr_d0 = s.data
    r, e, public = dump_it(vm, f, s, data, ctx, d)
    ok = lambda j: TS_OK(0, elem(vm, j), d.dom, d.val, ctx.t)
    if e is None:
        vm.cover("written " + how)
        j = z3.Int("jd")
        vm.prove("only elements that can be written are", z3.Implies(z3.And(0 <= j, j < n), ok(j)))
        vm.prove("exactly the elements are written, in order", s.data == z3.Concat(d0, BCAT(n)))
        if kind != "none":
            vm.prove("there are exactly as many as announced", z3.And(avail, z3.Implies(isint, n == want)))
        return
    if public:
        vm.prove("refused: nothing is written", z3.And(s.data == d0, s.pos == z3.Length(d0)))
    if issubclass(e.cls, errors.ArraySizeError):
        vm.cover("wrong number")
        vm.prove("the array-size error only if the number differs", z3.And(z3.BoolVal(kind != "none"), z3.Or(z3.Not(isint), n != want) if kind != "none" else False))
    elif issubclass(e.cls, errors.FieldReferenceError):
        vm.cover("missing count")
        vm.prove("reference error only if the count isn't available", z3.And(z3.BoolVal(kind in ("name", "field")), z3.Not(avail) if kind != "none" else False, z3.BoolVal(e.attrs.get("field") == "other")))
    elif issubclass(e.cls, errors.UnserializableValueError):
        vm.cover("bad element")
        j = z3.Int("jx")
        vm.prove("other refusals are those of an element", z3.Exists([j], z3.And(0 <= j, j < n, z3.Not(ok(j)))))
    else:
        vm.prove("type errors only for a count that is no number", z3.And(z3.BoolVal(issubclass(e.cls, TypeError)), z3.Not(isint) if isint is not None else False))


POS = z3.Function("element_start", IntS, IntS)
HALT = z3.Function("halt_check", IntS, BoolS)


def largs(vm, i):
    data, p0, dom, val, ctx = vm.ld
    return (0, data, POS(i), dom, val, ctx)


def pos_defs(vm, k):
    p0 = vm.ld[1]
    vm.fact1(("pos", str(k)), lambda: z3.And(POS(0) == p0, z3.Implies(k >= 0, POS(k + 1) == FSP(*largs(vm, k)))))


def inv_load(L):
    vm, k = L.vm, L.k
    if not hasattr(vm, "ld"):
        return []
    data, p0, dom, val, ctx = vm.ld
    pos_defs(vm, k)
    j = z3.Int("jl")
    q = lambda b: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), b))
    out = [("elements so far were loaded", q(FS_OK(*largs(vm, j)))),
           ("at least no element", k >= 0)]
    if vm.arr_kind == "custom":
        out.append(("no halt so far", q(z3.Not(HALT(j)))))
    elif vm.arr_kind == "none":
        out.append(("there was data for each", q(POS(j) < z3.Length(data))))
    else:
        out.append(("at most the announced number", z3.Implies(z3.And(vm.arr_int, k > 0), k <= vm.arr_n)))
    for n, x in L.streams.items():
        if isinstance(x, z3.ExprRef) and x.sort() == IntS:
            out.append((n + " is after the last element", x == POS(k)))
    for n, x in L.lists.items():
        out.append((n + " has one value per element", x[1] == k))
        out.append((n + " are the elements in order", q(x[2][j] == FSV(*largs(vm, j)))))
    for n, x in L.ints.items():
        out.append((n + " counts the elements", x == k))
    return out


@unit("containers.array_load", ["C16", "C05", "C24"], inv=inv_load, contracts=contracts,
      under=ARR + ["binobj.fields.containers.Array._do_load", "binobj.fields.containers.Array.should_halt", "binobj.fields.base.Field.from_stream"])
def u_array_load(vm):
    reset(vm)
    kind, comp, kw = pick_array(vm, (False,))
    custom = vm.pick(False, True)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    s = in_stream(vm)
    data, p0 = s.data, s.pos
    vm.ld = (data, p0, d.dom, d.val, ctx.t)
    vm.fact1("pos0", lambda: POS(0) == p0)
    unrolled_defs(vm, pos_defs)
    avail = isint = want = None
    if kind != "none":
        avail, isint, want = count_of(vm, kind, d)
    vm.arr_n, vm.arr_int, vm.arr_kind = want, isint, "custom" if custom else kind
    if custom:
        def halt(vm, args, kw2):
            arr, st, values, c, lf = args
            k = vm.length(values)
            dom, val = arrays(vm, lf)
            vm.prove("the stopping rule gets the array, stream, values so far, context and loaded values",
                     z3.And(z3.BoolVal(arr is f and st is s), st.pos == POS(k), vm.to_val(c) == ctx.t, dom == d.dom, val == d.val))
            return SBool(HALT(k))
        kw = dict(kw, halt_check=SFn("halt", halt))
    f = mk(vm, fields.Array, comp, **kw)
    r, e = load_it(vm, f, s, ctx, d)
    j = z3.Int("jr")
    if e is None:
        vm.cover("loaded")
        n = vm.length(r)
        vm.symbolize(r)
        a = r.a
        vm.prove("every element is the one loaded where the previous ended, in order", z3.Implies(z3.And(0 <= j, j < n), z3.And(FS_OK(*largs(vm, j)), a[j] == FSV(*largs(vm, j)))))
        vm.prove("the stream is after the last element", s.pos == POS(n))
        if custom:
            vm.prove("the stopping rule decided before each element", z3.And(HALT(n), z3.Implies(z3.And(0 <= j, j < n), z3.Not(HALT(j)))))
        elif kind != "none":
            vm.prove("exactly the announced number of elements", z3.And(avail, z3.Implies(isint, n == z3.If(want > 0, want, z3.IntVal(0)))))
        else:
            vm.prove("elements up to the end of the data", z3.And(s.pos >= z3.Length(data), z3.Implies(z3.And(0 <= j, j < n), POS(j) < z3.Length(data))))
        return
    if issubclass(e.cls, errors.FieldReferenceError):
        vm.cover("missing count")
        vm.prove("reference error only if the count isn't available", z3.And(z3.BoolVal(kind in ("name", "field") and not custom), z3.Not(avail) if kind != "none" else False, z3.BoolVal(e.attrs.get("field") == "other")))
    elif issubclass(e.cls, errors.DeserializationError):
        vm.cover("bad element")
        i = z3.Int("jx")
        vm.prove("other errors are those of an element, and end-of-file stays end-of-file",
                 z3.Exists([i], z3.And(0 <= i, z3.Not(FS_OK(*largs(vm, i))), FS_EOF(*largs(vm, i)) == z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError)))))
    elif issubclass(e.cls, errors.UndefinedSizeError):
        vm.prove("undefined size only if the count's value is missing", z3.And(z3.BoolVal(kind in ("name", "field") and not custom), Val.is_VNone(d.val[vm.strlit("other")])))
    else:
        vm.prove("type errors only for a count that is no number", z3.And(z3.BoolVal(issubclass(e.cls, TypeError)), z3.Not(isint) if isint is not None else False))


# ---- nested structures and unions (C20) -----------------------------------------------------
class AStruct(structures.Struct):
    """A structure class about which only the contract of its public methods is known."""
    __pyvc__ = True

    def __init__(self, **values):
        raise NotImplementedError

    def to_stream(self, stream, context=None):
        raise NotImplementedError

    @classmethod
    def from_stream(cls, stream, context=None, init_kwargs=None):
        raise NotImplementedError

    @classmethod
    def get_size(cls):
        raise NotImplementedError


SI_OK = z3.Function("struct_init_ok", DomS, MapS, BoolS)
ST_OK = z3.Function("struct_to_stream_ok", DomS, MapS, Val, BoolS)
ST = z3.Function("struct_to_stream_bytes", DomS, MapS, Val, SeqS)
SF_OK = z3.Function("struct_from_stream_ok", SeqS, IntS, Val, BoolS)
SF_EOF = z3.Function("struct_from_stream_eof", SeqS, IntS, Val, BoolS)
SFP = z3.Function("struct_from_stream_pos", SeqS, IntS, Val, IntS)


def h_s_init(vm, args, kw):
    self = args[0]
    sym = kw.pop("**sym", None)
    if sym is not None and kw:
        raise Unsupported("mixed values of a structure")
    dom, val = arrays(vm, sym if sym is not None else SDict(kw))
    ev(vm, "struct_init", self)
    if not vm.branch(SI_OK(dom, val)):
        raise vm.pyerr(errors.UnexpectedValueError, "values", struct=self, name=None)
    self.attrs["svals"] = (dom, val)


def h_s_to(vm, args, kw):
    self, stream, ctx = bind(("self", "stream", "context"), args, kw)
    dom, val = self.attrs["svals"]
    c = vm.to_val(ctx)
    ev(vm, "struct_to", self, c)
    if vm.branch(ST_OK(dom, val, c)):
        if vm.ssize is not None:
            vm.assume(z3.Length(ST(dom, val, c)) == vm.ssize)
        models.st_write(vm, stream, SBytes(ST(dom, val, c)))
        return None
    models.st_write(vm, stream, SBytes(vm.fresh("junk", SeqS)))
    raise vm.pyerr(errors.UnserializableValueError, "struct", field=None, value=None)


def h_s_from(vm, args, kw):
    cls, stream, ctx, init = bind(("cls", "stream", "context", "init_kwargs"), args, kw)
    vm.prove("the nested structure is loaded without preset values", z3.BoolVal(init is None or (isinstance(init, (dict, SDict)) and not vm.truth(init))))
    c = vm.to_val(ctx)
    a = (stream.data, stream.pos, c)
    ev(vm, "struct_from", cls, stream, a)
    if vm.branch(SF_OK(*a)):
        vm.assume(z3.And(SFP(*a) >= stream.pos, SFP(*a) <= z3.Length(stream.data)))
        stream.pos = SFP(*a)
        o = SObj(AStruct, {"svals": None}, name="loaded struct")
        vm.oid(o)
        vm.loaded_struct = o
        return o
    stream.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(stream.pos >= a[1], stream.pos <= z3.Length(stream.data)))
    if vm.branch(SF_EOF(*a)):
        raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=None, offset=None)
    raise vm.pyerr(errors.DeserializationError, "struct", field=None, offset=None)


def h_s_size(vm, args, kw):
    return SInt(vm.ssize) if vm.ssize is not None else None


def struct_contracts():
    return {**contracts(), AStruct.__init__: h_s_init, AStruct.to_stream: h_s_to,
            AStruct.from_stream.__func__: h_s_from, AStruct.get_size.__func__: h_s_size}


def pick_ssize(vm, *alts):
    vm.ssize = None
    if vm.pick(*(alts or (False, True))):
        vm.ssize = z3.Int("struct_size")
        vm.assume(vm.ssize >= 0)


def instance(vm):
    o = SObj(AStruct, {"svals": (z3.Const("inst_dom", DomS), z3.Const("inst_val", MapS))}, name="instance")
    vm.oid(o)
    return o


@unit("containers.nested_dump", ["C20"], contracts=struct_contracts,
      under=["binobj.fields.containers.Nested.__init__", "binobj.fields.containers.Nested._do_dump", "binobj.fields.base.Field.to_stream"])
def u_nested_dump(vm):
    reset(vm)
    pick_ssize(vm)
    f = mk(vm, fields.Nested, AStruct)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    if vm.pick(True, False):
        inst = instance(vm)
        data, (dom, val) = inst, inst.attrs["svals"]
    else:
        data, inst = sym_dict(vm, "mapping"), None
        dom, val = data.dom, data.val
    s = out_stream(vm)
    d0 = s.data
    r, e, public = dump_it(vm, f, s, data, ctx, d)
    if inst is not None:
        vm.prove("an instance is dumped itself", z3.BoolVal(not events(vm, "struct_init") and all(x[1] is inst for x in events(vm, "struct_to"))))
    ok = ST_OK(dom, val, ctx.t)
    if inst is None:
        ok = z3.And(SI_OK(dom, val), ok)
    if e is None:
        vm.cover("written")
        vm.prove("exactly the bytes its structure dumps with the context are written", z3.And(ok, s.data == z3.Concat(d0, ST(dom, val, ctx.t))))
    else:
        vm.cover("refused")
        vm.prove("refused only what the structure refuses", z3.Not(ok))
        if public:
            vm.prove("refused: nothing is written", z3.And(s.data == d0, s.pos == z3.Length(d0)))


@unit("containers.nested_load", ["C20", "C05", "C08"], contracts=struct_contracts, inv=inv_validators,
      under=["binobj.fields.containers.Nested.__init__", "binobj.fields.containers.Nested._do_load", "binobj.fields.base.Field.from_stream"])
def u_nested_load(vm):
    reset(vm)
    pick_ssize(vm)
    f = mk(vm, fields.Nested, AStruct)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    s = in_stream(vm)
    a = (s.data, s.pos, ctx.t)
    r, e = load_it(vm, f, s, ctx, d)
    x = events(vm, "struct_from")
    vm.prove("its structure is loaded once, from the stream's position, with the context",
             z3.And(z3.BoolVal(len(x) == 1 and x[0][1] is AStruct and x[0][2] is s), *[p == q for p, q in zip(x[0][3], a)]) if x else z3.BoolVal(False))
    if e is None:
        vm.cover("loaded")
        vm.prove("the loaded structure itself is the value", z3.And(SF_OK(*a), z3.BoolVal(r is vm.loaded_struct)))
        vm.prove("exactly what the structure consumes is consumed", s.pos == SFP(*a))
    else:
        vm.cover("refused")
        vm.prove("fails only if the structure fails to load", z3.Not(SF_OK(*a)))
        vm.prove("truncated data stays truncated data", SF_EOF(*a) == z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError)))


@unit("containers.nested_size", ["C15", "C20"], contracts=struct_contracts,
      under=["binobj.fields.containers.Nested.__init__", "binobj.fields.base.Field.size"])
def u_nested_size(vm):
    reset(vm)
    pick_ssize(vm)
    f = mk(vm, fields.Nested, AStruct)
    z = vm.getattr(f, "size")
    vm.cover("size")
    if vm.ssize is None:
        vm.prove("the size of a nested structure is that of its class", z3.BoolVal(z is None))
    else:
        vm.prove("the size of a nested structure is that of its class", vm.int_t(z) == vm.ssize if z is not None else False)
    vm.prove("it has a fixed size exactly if the structure has", z3.BoolVal(vm.truth(vm.getattr(f, "has_fixed_size")) is (vm.ssize is not None)))


def pick_choice(vm):
    choices = (component(vm, 0), component(vm, 1), AStruct)
    k = vm.pick(0, 1, 2, 3)
    return choices, k, (choices + (component(vm, 7),))[k]


def same_seq(vm, x, choices):
    return isinstance(x, tuple) and len(x) == len(choices) and all(p is q for p, q in zip(x, choices))


@unit("containers.union_dump", ["C20"], contracts=struct_contracts,
      under=["binobj.fields.containers.Union.__init__", "binobj.fields.containers.Union._do_dump", "binobj.fields.base.Field.to_stream"])
def u_union_dump(vm):
    reset(vm)
    vm.ssize = None
    choices, k, choice = pick_choice(vm)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    ismap = vm.pick(True, False)
    data = sym_dict(vm, "mapping") if ismap else any_value(vm, "value")
    if not ismap:
        vm.assume(data.t != Val.VNone)
    dt = vm.to_val(data)

    def decide(vm, args, kw):
        ev(vm, "decide", args, kw)
        return choice
    f = mk(vm, fields.Union, *choices, load_decider=SFn("load_decider", lambda vm, a, k: vm.prove("the load decider isn't called", False)), dump_decider=SFn("dump_decider", decide))
    s = out_stream(vm)
    d0 = s.data
    r, e, public = dump_it(vm, f, s, data, ctx, d)
    x = events(vm, "decide")
    good = len(x) == 1 and not x[0][2] and len(x[0][1]) == 4 and same_seq(vm, x[0][1][1], choices)
    if good:
        dom, val = arrays(vm, x[0][1][3])
        good = z3.And(vm.to_val(x[0][1][0]) == dt, vm.to_val(x[0][1][2]) == ctx.t, dom == d.dom, val == d.val)
    vm.prove("the decider is asked once, with the value, the choices, the context and the values", vm.z(good))
    if k == 2:
        dom, val = (data.dom, data.val) if ismap else (models.MDOM(dt), models.MVAL(dt))
        ok, w = z3.And(SI_OK(dom, val), ST_OK(dom, val, ctx.t)), ST(dom, val, ctx.t)
        if not ismap:
            ok = z3.And(models.val_isinstance(vm, dt, collections.abc.Mapping), ok)
    else:
        a = (choice.attrs["cid"], dt, d.dom, d.val, ctx.t)
        ok, w = TS_OK(*a), TS(*a)
    if e is None:
        vm.cover("written")
        vm.prove("exactly the bytes of the chosen field or structure are written", z3.And(ok, s.data == z3.Concat(d0, w)))
    else:
        vm.cover("refused")
        vm.prove("refused only what the chosen field or structure refuses", z3.Not(ok))
        if public:
            vm.prove("refused: nothing is written", z3.And(s.data == d0, s.pos == z3.Length(d0)))


@unit("containers.union_load", ["C20", "C05"], contracts=struct_contracts, inv=inv_validators,
      under=["binobj.fields.containers.Union.__init__", "binobj.fields.containers.Union._do_load", "binobj.fields.base.Field.from_stream"])
def u_union_load(vm):
    reset(vm)
    vm.ssize = None
    choices, k, choice = pick_choice(vm)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    s = in_stream(vm)
    p0 = s.pos

    def decide(vm, args, kw):
        ev(vm, "decide", args, kw, s.pos)
        return choice
    f = mk(vm, fields.Union, *choices, dump_decider=SFn("dump_decider", lambda vm, a, k: vm.prove("the dump decider isn't called", False)), load_decider=SFn("load_decider", decide))
    r, e = load_it(vm, f, s, ctx, d)
    x = events(vm, "decide")
    good = len(x) == 1 and not x[0][2] and len(x[0][1]) == 4 and x[0][1][0] is s and same_seq(vm, x[0][1][1], choices)
    if good:
        dom, val = arrays(vm, x[0][1][3])
        good = z3.And(vm.to_val(x[0][1][2]) == ctx.t, dom == d.dom, val == d.val, x[0][3] == p0)
    vm.prove("the decider is asked once, with the stream, the choices, the context and the values", vm.z(good))
    if k == 2:
        a = (s.data, p0, ctx.t)
        ok, end, eofc = SF_OK(*a), SFP(*a), SF_EOF(*a)
    else:
        a = (choice.attrs["cid"], s.data, p0, d.dom, d.val, ctx.t)
        ok, end, eofc = FS_OK(*a), FSP(*a), FS_EOF(*a)
    if e is None:
        vm.cover("loaded")
        vm.prove("the value is exactly what the chosen field or structure loads",
                 z3.And(ok, s.pos == end, z3.BoolVal(r is vm.loaded_struct) if k == 2 else vm.to_val(r) == FSV(*a)))
    else:
        vm.cover("refused")
        vm.prove("fails only if the choice fails to load", z3.Not(ok))
        vm.prove("truncated data stays truncated data", eofc == z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError)))
