"""Contracts of structures: any number of fields, any values (C07, C09, C11-C15, C23)."""
from binobj import decorators

from .slib import *


def inv(L):
    """Invariants chosen by the driver of the path."""
    f = getattr(L.vm, "tmpl", None)
    return f(L) if f is not None else []


def all_below(vm, k, body):
    return vm.forall_i(0, k, body)


def unchanged(vm, what, o, dom, val):
    d, v = values_of(vm, o)
    vm.prove(what, z3.And(d == dom, v == val))


# ---- construction and the mapping protocol (C23) ------------------------------------------------
@unit("struct.init", ["C23", "C11"], quant=True, stubs=stubs, contracts=field_contracts, under=["binobj.structures.Struct.__init__"])
def u_init(vm):
    setup(vm)
    d = sym_dict(vm, "given")
    s = vm.name_var("s!x")
    r, e = raises(vm, "x", SymStruct, [], {"**sym": d})
    if e is None:
        vm.cover("accepted")
        vm.prove("values are accepted only for the structure's own fields", z3.Implies(d.dom[s], comp(s)))
        dom, val = values_of(vm, r)
        vm.prove("exactly the given values are set", z3.And(dom[s] == d.dom[s], z3.Implies(dom[s], val[s] == d.val[s])))
    else:
        vm.cover("refused")
        vm.prove("other names are refused", z3.And(z3.BoolVal(issubclass(e.cls, errors.UnexpectedValueError)), vm.exists_s(lambda s: z3.And(d.dom[s], z3.Not(comp(s))))))
        if issubclass(e.cls, errors.UnexpectedValueError):
            vm.prove("the error names exactly them", vm.z(models.contains(vm, e.attrs["names"], SStr(s))) == z3.And(d.dom[s], z3.Not(comp(s))))


@unit("struct.getitem", ["C23", "C07"], quant=True, stubs=stubs, contracts=field_contracts, under=["binobj.structures.Struct.__getitem__", "binobj.fields.base.Field.__get__"])
def u_getitem(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    n = vm.name_var("name")
    how = vm.pick("item", "attribute", "proxy")
    if how == "attribute":
        vm.assume(comp(n))
        vm.feasible()
    if how == "item":
        r, e = raises(vm, "x", Struct.__getitem__, [o, SStr(n)])
    elif how == "attribute":
        r, e = raises(vm, "x", models.b_getattr and getattr, [o, SStr(n)])
    else:
        p = SObj(structures.StructMappingProxy, {"struct": o}, name="proxy")
        r, e = raises(vm, "x", structures.StructMappingProxy.__getitem__, [p, SStr(n)])
    unchanged(vm, "reading a value changes nothing", o, dom, val)
    a = (IDX(n), dom, val, Val.VNone)
    if e is None:
        vm.cover(how)
        vm.prove("only fields can be read", comp(n))
        vm.prove("reading gives the value set, or else what a dump would use", vm.to_val(r) == z3.If(dom[n], val[n], CV["s"](*a)))
    elif issubclass(e.cls, KeyError):
        vm.cover("unknown " + how)
        vm.prove("unknown names are refused, and only those", z3.Not(comp(n)))
    else:
        vm.prove("fails only if the field has no value", z3.And(comp(n), z3.Not(dom[n]), CK["s"](*a) != 0))


@unit("struct.setitem", ["C23"], quant=True, stubs=stubs, contracts=field_contracts, under=["binobj.structures.Struct.__setitem__"])
def u_setitem(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    n, v = vm.name_var("name"), any_value(vm, "value")
    how = vm.pick("item", "proxy")
    if how == "item":
        r, e = raises(vm, "x", Struct.__setitem__, [o, SStr(n), v])
    else:
        p = SObj(structures.MutableStructMappingProxy, {"struct": o}, name="proxy")
        r, e = raises(vm, "x", structures.MutableStructMappingProxy.__setitem__, [p, SStr(n), v])
    ok = z3.Function("fld_assign_ok", IntS, Val, BoolS)(IDX(n), v.t)
    if e is None:
        vm.cover("assigned " + how)
        d, w = values_of(vm, o)
        vm.prove("only fields are assigned, by the field", z3.And(comp(n), ok))
        vm.prove("exactly this value is changed", z3.And(d == z3.Store(dom, n, z3.BoolVal(True)), w == z3.Store(val, n, v.t)))
    else:
        vm.cover("refused " + how)
        unchanged(vm, "a refused assignment changes nothing", o, dom, val)
        if issubclass(e.cls, KeyError):
            vm.prove("unknown names are refused, and only those", z3.Not(comp(n)))
        else:
            vm.prove("other refusals are the field's", z3.And(comp(n), z3.Not(ok)))


@unit("struct.delitem", ["C23"], quant=True, stubs=stubs, contracts=field_contracts, under=["binobj.structures.Struct.__delitem__"])
def u_delitem(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    n = vm.name_var("name")
    how = vm.pick("item", "proxy")
    if how == "item":
        r, e = raises(vm, "x", Struct.__delitem__, [o, SStr(n)])
    else:
        p = SObj(structures.MutableStructMappingProxy, {"struct": o}, name="proxy")
        r, e = raises(vm, "x", structures.MutableStructMappingProxy.__delitem__, [p, SStr(n)])
    d, w = values_of(vm, o)
    s = vm.name_var("s!x")
    if e is None:
        vm.cover("deleted " + how)
        vm.prove("only fields are deleted", comp(n))
        vm.prove("the field is unset and nothing else changes", z3.And(d[s] == z3.And(dom[s], s != n), z3.Implies(d[s], w[s] == val[s])))
    else:
        vm.cover("refused " + how)
        vm.prove("unknown names are refused, and only those", z3.And(z3.BoolVal(issubclass(e.cls, KeyError)), z3.Not(comp(n))))
        unchanged(vm, "a refused deletion changes nothing", o, dom, val)


def collect(s):
    out = {}
    for n in s:
        out[n] = True
    return out


def t_collect(L):
    vm, k = L.vm, L.k
    o, dom, val = vm.it
    out = []
    at = vm.key_at
    if at is None:
        return []
    pos = z3.Function(at.name().replace("at", "pos"), StrS, IntS)
    for n, x in L.dicts.items():
        if "inst" in n or "values" in n:
            continue
        out.append((n + " has the set names so far", vm.forall_s(lambda s: x[1][s] == z3.And(dom[s], val[s] != Val.VUndef, pos(s) < k))))
    return out


@unit("struct.iter", ["C23"], quant=True, stubs=stubs, contracts=field_contracts, inv=inv, under=["binobj.structures.Struct.__iter__", "binobj.structures.StructMappingProxy.__iter__"])
def u_iter(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    vm.it, vm.key_at = (o, dom, val), None
    enum = models.dict_enum

    def rec(L):
        i = vm.nfresh.get("enum", 0)
        vm.key_at = z3.Function("key_at!%d" % (i - 1), IntS, StrS) if i else None
        return t_collect(L)
    vm.tmpl = rec
    how = vm.pick("struct", "proxy")
    x = o if how == "struct" else SObj(structures.StructMappingProxy, {"struct": o}, name="proxy")
    r = vm.call_function(collect, [x], {})
    d, v = arrays(vm, r)
    s = vm.name_var("s!x")
    vm.cover(how)
    vm.prove("iteration yields exactly the fields with set values", d[s] == z3.And(dom[s], val[s] != Val.VUndef))
    unchanged(vm, "iterating changes nothing", o, dom, val)


# ---- converting to a dictionary (C07, C23) ------------------------------------------------------
def changed(L):
    """The dictionaries the loop changes."""
    return [(n, x) for n, x in L.dicts.items() if L.level.get(n, 0)]


def ck(x, k, dom, val, ctx):
    return CK[x](k, dom, val, ctx)


def t_whatever(vm, dom, val, ctx):
    def t(L):
        k = L.k
        out = [("no other errors so far", all_below(vm, k, lambda j: ck("s", j, dom, val, ctx) != 2))]
        for n, x in changed(L):
            out.append((n + " has the fields so far that have values", vm.forall_s(lambda s: x[1][s] == z3.And(comp(s), IDX(s) < k, ck("s", IDX(s), dom, val, ctx) == 0))))
            out.append((n + " has the values a dump would use", vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == CV["s"](IDX(s), dom, val, ctx)))))
        return out
    return t


@unit("struct.whatever", ["C07", "C13", "C23"], quant=True, stubs=stubs, contracts=field_contracts, inv=inv, under=["binobj.structures.Struct._to_dict_whatever_possible"])
def u_whatever(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    ctx = context(vm)
    vm.tmpl = t_whatever(vm, dom, val, ctx.t)
    r, e = raises(vm, "x", Struct._to_dict_whatever_possible, [o, ctx])
    unchanged(vm, "converting changes nothing", o, dom, val)
    s = vm.name_var("s!x")
    if e is None:
        vm.cover("converted")
        d, v = arrays(vm, r)
        ok = z3.And(comp(s), ck("s", IDX(s), dom, val, ctx.t) == 0)
        vm.prove("the names are those of the fields that have values", d[s] == z3.Or(ok, z3.And(dom[s], val[s] != Val.VUndef)))
        vm.prove("the values are those a dump would use", z3.Implies(ok, v[s] == CV["s"](IDX(s), dom, val, ctx.t)))
        vm.prove("explicitly set values are kept", z3.Implies(z3.And(d[s], z3.Not(ok)), v[s] == val[s]))
    else:
        vm.cover("failed")
        vm.prove("only unrelated exceptions get out", z3.BoolVal(issubclass(e.cls, ZeroDivisionError)))


WH_OK = z3.Function("whatever_ok", DomS, MapS, Val, BoolS)
WH_D = z3.Function("whatever_names", DomS, MapS, Val, DomS)
WH_V = z3.Function("whatever_values", DomS, MapS, Val, MapS)


def h_whatever(vm, args, kw):
    self, ctx = bind(("self", "context"), args, kw)
    dom, val = values_of(vm, self)
    a = (dom, val, vm.to_val(ctx))
    ev(vm, "whatever", self, a)
    if not vm.branch(WH_OK(*a)):
        raise vm.pyerr(ZeroDivisionError, "an exception of a computing function")
    vm.fact1(("wh", a[0].get_id(), a[1].get_id(), a[2].get_id()), lambda: vm.forall_s(lambda s: z3.Implies(WH_D(*a)[s], comp(s)), lambda s: [WH_D(*a)[s]]))
    return SDict(None, WH_D(*a), WH_V(*a))


# recursive_to_dicts(item, keep_discardable, context)
REC = z3.Function("to_dicts", Val, BoolS, Val, Val)
REC_MAP = z3.Function("to_dicts_values", DomS, MapS, BoolS, Val, MapS)


def h_recursive(vm, args, kw):
    item, keep, ctx = bind(("item", "keep_discardable", "context"), args, kw)
    k, c = vm.z(vm.truth_t(keep if keep is not None else False)), vm.to_val(ctx)
    if isinstance(item, (SDict, dict)):
        dom, val = arrays(vm, item)
        v = REC_MAP(dom, val, k, c)
        vm.fact1(("rec", v.get_id()), lambda: vm.forall_s(lambda s: z3.Implies(dom[s], v[s] == REC(val[s], k, c)), lambda s: [v[s]]))
        return SDict(None, dom, v)
    return SVal(REC(vm.to_val(item), k, c))


def t_todict(vm, D, V, ctx):
    """Two loops: values for the names that lack one, then the discarded fields."""
    def t(L):
        k = L.k
        out = [("computing succeeded so far", all_below(vm, k, lambda j: z3.Or(D[NAME(j)], ck("d", j, D, V, ctx) == 0)))]
        for n, x in changed(L):
            out.append((n + " has the missing names so far", vm.forall_s(lambda s: x[1][s] == z3.And(comp(s), IDX(s) < k, z3.Not(D[s])))))
            out.append((n + " has the computed values", vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == CV["d"](IDX(s), D, V, ctx)))))
            out.append((n + " lacks the discarded fields so far", vm.forall_s(lambda s: x[1][s] == z3.And(comp(s), z3.Not(z3.And(IDX(s) < k, DISC(IDX(s))))))))
            out.append((n + " keeps the values", vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == z3.If(D[s], V[s], CV["d"](IDX(s), D, V, ctx))))))
            out.append((n + " has all names there are so far", vm.forall_s(lambda s: x[1][s] == z3.Or(D[s], z3.And(comp(s), IDX(s) < k)))))
        return out
    return t


def dict_contracts():
    return {**field_contracts(), Struct._to_dict_whatever_possible: h_whatever, structures.recursive_to_dicts: h_recursive}


@unit("struct.to_dict", ["C07", "C23"], quant=True, stubs=stubs, contracts=dict_contracts, inv=inv, under=["binobj.structures.Struct.to_dict"])
def u_to_dict(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    ctx, keep = context(vm), SBool(z3.Bool("keep"))
    a = (dom, val, ctx.t)
    D, V = WH_D(*a), WH_V(*a)
    vm.tmpl = t_todict(vm, D, V, ctx.t)
    r, e = raises(vm, "x", Struct.to_dict, [o], {"keep_discardable": keep, "context": ctx})
    unchanged(vm, "converting changes nothing", o, dom, val)
    s = vm.name_var("s!x")
    if e is None:
        vm.cover("converted")
        d, v = arrays(vm, r)
        vm.prove("it has all fields, the discarded ones only if asked for", d[s] == z3.And(comp(s), z3.Or(keep.t, z3.Not(DISC(IDX(s))))))
        vm.prove("each value is the one a dump uses, nested structures converted with the same options",
                 z3.Implies(d[s], v[s] == REC(z3.If(D[s], V[s], CV["d"](IDX(s), D, V, ctx.t)), keep.t, ctx.t)))
        vm.prove("all fields have values", z3.Implies(comp(s), z3.Or(D[s], ck("d", IDX(s), D, V, ctx.t) == 0)))
    else:
        vm.cover("failed")
        vm.prove("it fails only if a value can't be had", z3.Or(z3.Not(WH_OK(*a)), vm.exists_i(0, N, lambda k: z3.And(z3.Not(D[NAME(k)]), ck("d", k, D, V, ctx.t) != 0))))


# ---- dumping (C11, C09) -------------------------------------------------------------------------
TD_OK = z3.Function("to_dict_ok", DomS, MapS, BoolS, Val, BoolS)
TD_D = z3.Function("to_dict_names", DomS, MapS, BoolS, Val, DomS)
TD_V = z3.Function("to_dict_values", DomS, MapS, BoolS, Val, MapS)
VALID = z3.Function("contents_valid", DomS, MapS, Val, BoolS)
OUT = z3.Function("dump_of_first", IntS, SeqS)


def h_todict(vm, args, kw):
    self, keep, ctx = bind(("self", "keep_discardable", "context"), args, kw)
    dom, val = values_of(vm, self)
    a = (dom, val, vm.z(vm.truth_t(keep if keep is not None else False)), vm.to_val(ctx))
    ev(vm, "to_dict", self, a)
    if vm.branch(TD_OK(*a)):
        return SDict(None, TD_D(*a), TD_V(*a))
    raise vm.pyerr(errors.MissingRequiredValueError, "missing", field=None)


def h_validate(vm, args, kw):
    self, ctx = bind(("self", "context"), args, kw)
    dom, val = values_of(vm, self)
    ev(vm, "validate", self, dom, val, vm.to_val(ctx))
    if vm.branch(VALID(dom, val, vm.to_val(ctx))):
        return None
    raise vm.pyerr(errors.ValidationError, "validator", field=None, value=None)


def loaded_ctx(vm):
    """The context the validation of a load was given: all values are set, so it does not matter."""
    e = events(vm, "validate")
    return e[-1][-1] if e else Val.VNone


def dump_contracts():
    return {**field_contracts(), Struct.to_dict: h_todict, Struct.validate_contents: h_validate}


def t_dump(vm, kind, D, V, ctx, value, ok):
    """Output so far is OUT(k), the concatenation of what the first k fields give."""
    def piece(j):
        return z3.If(value(j) == Val.VNotPresent, z3.Empty(SeqS), W(j, value(j), D, V, ctx))

    def t(L):
        k = L.k
        vm.fact1(("out", str(k)), lambda: z3.And(OUT(0) == z3.Empty(SeqS), z3.Implies(k >= 0, OUT(k + 1) == z3.Concat(OUT(k), piece(k)))))
        out = [("fields so far could be written", all_below(vm, k, lambda j: z3.And(ok(j), z3.Or(value(j) == Val.VNotPresent, WOK(j, value(j), D, V, ctx)))))]
        if getattr(vm, "stop", None) is not None:
            out.append(("not yet the last field", all_below(vm, k, lambda j: z3.Not(vm.stop(j)))))
        for n, x in L.streams.items():
            if isinstance(x, z3.ExprRef) and x.sort() == SeqS:
                out.append((n + " has the fields so far", x == z3.Concat(vm.d0, OUT(k))))
                out.append((n + " is the fields so far", x == OUT(k)))
            elif isinstance(x, z3.ExprRef) and x.sort() == IntS:
                out.append((n + " is behind them", x == z3.Length(vm.d0) + z3.Length(OUT(k))))
                out.append((n + " is behind the fields so far", x == z3.Length(OUT(k))))
        return out
    return t


def unrolled(vm):
    """The definitional facts of the recursive functions for a bounded instance."""
    if vm.universe is not None:
        for k in range(vm.max_index):
            vm.tmpl(type("L0", (), {"k": z3.IntVal(k), "streams": {}, "level": {}, "dicts": {}}))


@unit("struct.to_stream", ["C11", "C09", "C07"], quant=True, stubs=stubs, contracts=dump_contracts, inv=inv, under=["binobj.structures.Struct.to_stream", "binobj.structures.Struct.to_bytes", "binobj.structures.Struct.__bytes__"])
def u_to_stream(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    ctx = context(vm)
    how = vm.pick("stream", "bytes", "bytes()")
    if how == "bytes()":
        ctx = SVal(Val.VNone)
    a = (dom, val, z3.BoolVal(True), ctx.t)
    D, V = TD_D(*a), TD_V(*a)
    value = lambda j: CV["d"](j, D, V, ctx.t)
    ok = lambda j: ck("d", j, D, V, ctx.t) == 0
    vm.d0 = z3.Empty(SeqS)
    if how == "stream":
        st = out_stream(vm)
        vm.d0 = st.data
    vm.tmpl = t_dump(vm, "d", D, V, ctx.t, value, ok)
    unrolled(vm)
    vm.tmpl(type("L0", (), {"k": z3.IntVal(0), "streams": {}, "level": {}, "dicts": {}}))
    if how == "stream":
        r, e = raises(vm, "x", Struct.to_stream, [o, st], {"context": ctx})
        got = st.data
    elif how == "bytes":
        r, e = raises(vm, "x", Struct.to_bytes, [o], {"context": ctx})
    else:
        r, e = raises(vm, "x", Struct.__bytes__, [o])
    unchanged(vm, "dumping changes no value", o, dom, val)
    k = z3.Int("k!x")
    inr = z3.And(0 <= k, k < N)
    if e is None:
        vm.cover("dumped")
        if how != "stream":
            got = vm.seq(r)
        vm.prove("the structure was validated", VALID(dom, val, ctx.t))
        vm.prove("the dump is what the present fields produce, in order, given all values and the context", got == z3.Concat(vm.d0, OUT(N)))
        vm.prove("every field could be dumped", z3.Implies(inr, z3.And(ok(k), z3.Or(value(k) == Val.VNotPresent, WOK(k, value(k), D, V, ctx.t)))))
    else:
        vm.cover("refused")
        if how == "stream":
            vm.prove("nothing is written unless the structure is valid and all values are known", z3.Or(got == vm.d0, z3.And(VALID(dom, val, ctx.t), TD_OK(*a))))
        vm.prove("refused only if invalid, a value is missing, or a field can't be written",
                 z3.Or(z3.Not(VALID(dom, val, ctx.t)), z3.Not(TD_OK(*a)), vm.exists_i(0, N, lambda k: z3.Or(z3.Not(ok(k)), z3.And(value(k) != Val.VNotPresent, z3.Not(WOK(k, value(k), D, V, ctx.t)))))))


# ---- validation (C09) ---------------------------------------------------------------------------
MFV = z3.Int("n_validated_names")
FVN = z3.Function("validated_name", IntS, StrS)
FVP = z3.Function("validated_name_pos", StrS, IntS)
MV = z3.Function("n_method_validators", IntS, IntS)                # by field
MVA = z3.Function("method_validator_accepts", IntS, IntS, Val, BoolS)
FOK = z3.Function("field_validators_accept", IntS, Val, BoolS)
MOK = z3.Function("method_validators_accept", IntS, Val, BoolS)
CUR = z3.Function("current_value", IntS, Val)
NSV = z3.Int("n_struct_validators")
SVA = z3.Function("struct_validator_accepts", IntS, BoolS)


class FieldValidators(Sym):
    """metadata.field_validators: for each field (in some order) its validator methods."""
    pyvc_class = dict

    def __init__(self, vm, o):
        self.o = o
        if vm.universe is not None:
            names = FINITE[0]
            vm.assume(MFV == len(names))
            for i, n in enumerate(names):
                vm.assume(FVN(i) == names[-1 - i])
        else:
            vm.assume(MFV >= 0)
            j, s = z3.Int("j!fv"), z3.Const("s!fv", StrS)
            vm.assume(z3.ForAll([j], z3.And(FVP(FVN(j)) == j, z3.Implies(z3.And(0 <= j, j < MFV), comp(FVN(j)))), patterns=[FVN(j)]))
            vm.assume(z3.ForAll([s], z3.Implies(comp(s), z3.And(0 <= FVP(s), FVP(s) < MFV, FVN(FVP(s)) == s)), patterns=[IDX(s)]))

    def methods(self, vm, k):
        field_at(vm, k)
        vm.fact1(("mv", k.get_id()), lambda: MV(k) >= 0)

        def method(i):
            def call(vm, args, kw):
                vm.prove("a validator method gets the structure, the field and its value", z3.And(z3.BoolVal(len(args) == 3 and args[0] is self.o), args[1].attrs["fi"] == k, vm.to_val(args[2]) == vm.value_of(k)))
                if vm.branch(MVA(k, i, vm.value_of(k))):
                    return None
                raise vm.pyerr(errors.ValidationError, "method", field=args[1], value=args[2])
            return SFn("method validator", call)
        return SSeq(MV(k), method, "method validators", kind=list, tag=("method", k))

    def pyvc_method(self, vm, name):
        if name == "items":
            return Native(name, lambda vm, a, k: SSeq(MFV, lambda j: (SStr(FVN(j)), self.methods(vm, IDX(FVN(j)))), "items", tag=("outer", None)))
        if name == "keys":
            return Native(name, lambda vm, a, k: self.pyvc_seq(vm))
        if name == "get":
            return Native(name, lambda vm, a, k: self.pyvc_getitem(vm, a[0]) if vm.branch(comp(models.key_t(vm, a[0]))) else (a[1] if len(a) > 1 else None))
        raise Unsupported("field_validators.%s" % name)

    def pyvc_seq(self, vm):
        return SSeq(MFV, lambda j: SStr(FVN(j)), "names", tag=("outer", None))

    def pyvc_contains(self, vm, x):
        return comp(models.key_t(vm, x))

    def pyvc_getitem(self, vm, x):
        t = models.key_t(vm, x)
        if not vm.branch(comp(t)):
            raise vm.pyerr(KeyError, "no such field")
        return self.methods(vm, IDX(t))


def h_getitem(vm, args, kw):
    """Struct.__getitem__ (proved in struct.getitem)."""
    self, n = args
    t = models.key_t(vm, n)
    if not vm.branch(comp(t)):
        raise vm.pyerr(KeyError, "no such field")
    vm.fact1(("idx", t.get_id()), lambda: z3.Implies(comp(t), NAME(IDX(t)) == t))
    return read(vm, self, IDX(t))


def defs(vm, k):
    v = vm.value_of(k)
    vm.fact1(("fok", str(k)), lambda: z3.And(FOK(k, v) == vm.forall_i(0, NV(k), lambda i: VA(k, i, v), lambda i: [VA(k, i, v)]),
                                             MOK(k, v) == vm.forall_i(0, MV(k), lambda i: MVA(k, i, v), lambda i: [MVA(k, i, v)])))


def t_validate(L):
    vm, k = L.vm, L.k
    tag = getattr(L.seq, "tag", None) if L.seq is not None else None
    if tag is None:
        return [("the struct validators so far accept", all_below(vm, k, lambda i: SVA(i))),
                ("the fields so far are valid", all_below(vm, k, vm.valid_field))]
    what, fk = tag
    if what == "outer":
        return [("the fields so far are valid", vm.forall_i(0, k, lambda j: vm.valid_field(IDX(FVN(j))), lambda j: [FVN(j)]))]
    defs(vm, fk)
    f = VA if what == "field" else MVA
    return [("the validators so far accept", vm.forall_i(0, k, lambda i: f(fk, i, vm.value_of(fk)), lambda i: [f(fk, i, vm.value_of(fk))]))]


@unit("struct.validate_contents", ["C09"], quant=True, stubs=stubs, contracts=lambda: {**field_contracts(), Struct.__getitem__: h_getitem}, inv=inv,
      under=["binobj.structures.Struct.validate_contents"])
def u_validate(vm):
    m = setup(vm)
    o, dom, val = struct_instance(vm)
    how = vm.pick("with context", "without")
    ctx = context(vm) if how == "with context" else SVal(Val.VNone)
    m.attrs["field_validators"] = FieldValidators(vm, o)
    vm.assume(NSV >= 0)

    def sv(i):
        def call(vm, args, kw):
            vm.prove("a structure's validator gets the structure and its values", z3.BoolVal(len(args) == 2 and args[0] is o and args[1] is o))
            if vm.branch(SVA(i)):
                return None
            raise vm.pyerr(errors.ValidationError, "struct validator", field=None, value=None)
        return SFn("struct validator", call)
    m.attrs["struct_validators"] = SSeq(NSV, sv, "struct validators", kind=list)
    vm.value_of = CUR
    vm.assume(vm.forall_i(0, N, lambda k: CUR(k) == z3.If(dom[NAME(k)], val[NAME(k)], CV["s"](k, dom, val, ctx.t)), lambda k: [CUR(k)]))
    vm.valid_field = lambda k: z3.Or(vm.value_of(k) == Val.VNotPresent, z3.And(FOK(k, vm.value_of(k)), MOK(k, vm.value_of(k))))
    if vm.universe is not None:
        for i in range(len(FINITE[0])):
            defs(vm, z3.IntVal(i))
        vm.assume(z3.And(NSV <= 1, MV(0) <= 1, MV(1) <= 1, NV(0) <= 1, NV(1) <= 1))
    vm.tmpl = t_validate
    r, e = raises(vm, "x", Struct.validate_contents, [o, ctx] if how == "with context" else [o])
    unchanged(vm, "validating changes nothing", o, dom, val)
    if e is None:
        vm.cover("valid")
        s = vm.name_var("s!x")
        i = z3.Int("i!x")
        vm.prove("every present field's validators and validator methods accept its value", z3.Implies(comp(s), vm.valid_field(IDX(s))))
        vm.prove("every validator of the structure accepts it", z3.Implies(z3.And(0 <= i, i < NSV), SVA(i)))
    elif issubclass(e.cls, errors.ValidationError):
        vm.cover("invalid")
        vm.prove("refused only if some validator refuses", z3.Or(vm.exists_i(0, NSV, lambda i: z3.Not(SVA(i))), vm.exists_i(0, N, lambda k: z3.Not(vm.valid_field(k)))))
    else:
        vm.prove("otherwise a value can't be had", vm.exists_i(0, N, lambda k: z3.And(z3.Not(dom[NAME(k)]), ck("s", k, dom, val, ctx.t) != 0)))


# ---- loading (C11, C09, C05) --------------------------------------------------------------------
RD = z3.Function("loaded_names_before", IntS, DomS)
RV = z3.Function("loaded_values_before", IntS, MapS)
RP = z3.Function("start_of_field", IntS, IntS)


def f_args(vm, j):
    """Arguments of loading field j: the values of the fields before it."""
    return (j, vm.ld_data, RP(j), RD(j), RV(j), vm.ld_ctx)


def given(vm, j):
    return vm.ld_init[0][NAME(j)] if vm.ld_init is not None else z3.BoolVal(False)


def kept(vm, j):
    """Whether the value of field j gets into the result while loading."""
    return z3.BoolVal(True) if vm.ld_keep is None else vm.ld_keep(j)


def r_defs(vm, k):
    """The recursion of loading in declaration order."""
    d0 = vm.ld_init[0] if vm.ld_init is not None else z3.K(StrS, z3.BoolVal(False))
    v0 = vm.ld_init[1] if vm.ld_init is not None else z3.K(StrS, Val.VNone)
    vm.fact1("rec0", lambda: z3.And(RD(0) == d0, RV(0) == v0, RP(0) == vm.ld_p0))
    use = z3.And(kept(vm, k), z3.Not(given(vm, k)))
    vm.fact1(("rec", str(k)), lambda: z3.Implies(z3.And(0 <= k, k < N), z3.And(
        RD(k + 1) == z3.If(use, z3.Store(RD(k), NAME(k), z3.BoolVal(True)), RD(k)),
        RV(k + 1) == z3.If(use, z3.Store(RV(k), NAME(k), FV(*f_args(vm, k))), RV(k)),
        RP(k + 1) == FP(*f_args(vm, k)))))


def t_load(L):
    vm, k = L.vm, L.k
    r_defs(vm, k)
    loaded = lambda s: z3.And(comp(s), IDX(s) < k, kept(vm, IDX(s)))
    init = (lambda s: vm.ld_init[0][s]) if vm.ld_init is not None else (lambda s: z3.BoolVal(False))
    out = [("fields so far were loaded", all_below(vm, k, lambda j: FK(*f_args(vm, j)) == 0)),
           ("not yet the last field", all_below(vm, k, lambda j: z3.Not(vm.ld_stop(j)))),
           ("the next field starts in the data", z3.And(vm.ld_p0 <= RP(k), RP(k) <= z3.Length(vm.ld_data))),
           ("names so far", vm.forall_s(lambda s: RD(k)[s] == z3.Or(init(s), loaded(s)))),
           ("values so far", vm.forall_s(lambda s: z3.Implies(RD(k)[s], RV(k)[s] == z3.If(init(s), vm.ld_init[1][s] if vm.ld_init is not None else Val.VNone, FV(*f_args(vm, IDX(s)))))))]
    for n, x in changed(L):
        out.append((n + " is what was loaded so far", z3.And(x[1] == RD(k), x[2] == RV(k))))
        out.append((n + " has everything but the discarded so far", vm.forall_s(lambda s: z3.And(x[1][s] == z3.And(RD(N)[s], z3.Not(z3.And(comp(s), IDX(s) < k, DISC(IDX(s))))), z3.Implies(x[1][s], x[2][s] == RV(N)[s])))))
        out.append((n + " lacks the discarded so far", vm.forall_s(lambda s: z3.And(x[1][s] == z3.And(RD(k)[s], z3.Not(z3.And(comp(s), IDX(s) < k, DISC(IDX(s))))), z3.Implies(x[1][s], x[2][s] == RV(k)[s])))))
    for n, x in L.streams.items():
        if isinstance(x, z3.ExprRef) and x.sort() == IntS and L.level.get(n, 0):
            out.append((n + " is where the next field starts", x == RP(k)))
    return out


def ld_setup(vm, init=None, keep=None, stop=None):
    s, ctx = in_stream(vm), context(vm)
    vm.ld_data, vm.ld_p0, vm.ld_ctx, vm.ld_init, vm.ld_keep = s.data, s.pos, ctx.t, init, keep
    vm.ld_stop = stop or (lambda j: z3.BoolVal(False))
    vm.missing_error = vm.pick(errors.FieldReferenceError, KeyError) if vm.universe is None else errors.FieldReferenceError
    if vm.universe is not None:
        for k in range(vm.max_index):
            r_defs(vm, z3.IntVal(k))
    else:
        r_defs(vm, z3.IntVal(0))
        r_defs(vm, N)
    vm.tmpl = t_load
    return s, ctx


@unit("struct.from_stream", ["C11", "C09", "C05"], quant=True, stubs=stubs, contracts=dump_contracts, inv=inv, under=["binobj.structures.Struct.from_stream"])
def u_from_stream(vm):
    setup(vm)
    init = vm.pick(False, True)
    d = sym_dict(vm, "init") if init else None
    arr = (d.dom, d.val) if init else None
    if init:
        vm.roots.append(d)
        # An empty dictionary has one representation.
        vm.assume(z3.Or(vm.exists_s(lambda s: d.dom[s]), z3.And(d.dom == z3.K(StrS, z3.BoolVal(False)), d.val == z3.K(StrS, Val.VNone))))
    s, ctx = ld_setup(vm, arr)
    r, e = raises(vm, "x", Bound(Struct.from_stream.__func__, SymStruct), [s], dict({"context": ctx}, **({"init_kwargs": d} if init else {})))
    nm = vm.name_var("s!x")
    k = z3.Int("k!x")
    isinit = arr[0][nm] if init else z3.BoolVal(False)
    if init:
        vm.prove("the given values are not changed", z3.And(d.dom == arr[0], d.val == arr[1]))
    vm.prove("nothing is written", s.data == vm.ld_data)
    if e is None:
        vm.cover("loaded")
        dom, val = values_of(vm, r)
        vm.prove("it has all fields but the discarded ones", dom[nm] == z3.And(comp(nm), z3.Not(DISC(IDX(nm)))))
        vm.prove("each value was loaded where the previous field ended, with the values before it, unless given",
                 z3.Implies(dom[nm], val[nm] == z3.If(isinit, arr[1][nm] if init else Val.VNone, FV(*f_args(vm, IDX(nm))))))
        vm.prove("each field was loaded", z3.Implies(z3.And(0 <= k, k < N), FK(*f_args(vm, k)) == 0))
        vm.prove("the stream is behind the last field", s.pos == RP(N))
        vm.prove("the complete structure was validated, before anything was discarded", z3.And(z3.BoolVal(bool(events(vm, "validate"))), VALID(RD(N), RV(N), loaded_ctx(vm))))
    else:
        if issubclass(e.cls, errors.UnexpectedEOFError):
            vm.cover("end of file")
            vm.prove("the end of file is reported for a field that met it", vm.exists_i(0, N, lambda j: FK(*f_args(vm, j)) == 1))
        elif issubclass(e.cls, errors.ValidationError):
            vm.cover("invalid")
            vm.prove("refused only if invalid", z3.Not(VALID(RD(N), RV(N), loaded_ctx(vm))))
        elif issubclass(e.cls, errors.UnexpectedValueError):
            vm.prove("only given values can be unexpected", vm.exists_s(lambda s: z3.And(arr[0][s] if init else z3.BoolVal(False), z3.Not(comp(s)))))
        else:
            vm.prove("otherwise a field failed to load", vm.exists_i(0, N, lambda j: FK(*f_args(vm, j)) >= 2))


def u_last(vm, named):
    last = vm.name_var("last")
    return last, (lambda j: NAME(j) == last) if named else None


@unit("struct.partial_load", ["C13", "C05", "C12"], quant=True, stubs=stubs, contracts=dump_contracts, inv=inv, under=["binobj.structures.Struct.partial_load"])
def u_partial_load(vm):
    setup(vm)
    named = vm.pick(False, True)
    last, stop = u_last(vm, named)
    s, ctx = ld_setup(vm, None, lambda j: z3.Not(DISC(j)), stop)
    r, e = raises(vm, "x", Bound(Struct.partial_load.__func__, SymStruct), [s], dict({"context": ctx}, **({"last_field": SStr(last)} if named else {})))
    nm = vm.name_var("s!x")
    j = z3.Int("j!x")
    vm.prove("nothing is written", s.data == vm.ld_data)
    if named:
        known = comp(last)
    if e is None:
        dom, val = values_of(vm, r)
        if named:
            vm.cover("loaded up to the named field")
            m = IDX(last) + 1
            vm.prove("only for the name of a field", known)
        else:
            vm.cover("loaded what there is")
            ld = [x[2][0] for x in events(vm, "load")]
            m = ld[-1] if ld and vm.universe is None else N
            if vm.universe is not None:
                # the first field that met the end of the data, or all
                m = z3.IntVal(len(FINITE[0]))
                for i in reversed(range(len(FINITE[0]))):
                    m = z3.If(FK(*f_args(vm, z3.IntVal(i))) == 1, z3.IntVal(i), m)
            elif ld:
                vm.prove("stops only at a field that meets the end of the data", FK(*f_args(vm, m)) == 1)
        vm.prove("exactly the fields up to there have values, except discarded ones", dom[nm] == z3.And(comp(nm), IDX(nm) < m, z3.Not(DISC(IDX(nm)))))
        vm.prove("the values are those of a full load", z3.Implies(dom[nm], val[nm] == FV(*f_args(vm, IDX(nm)))))
        vm.prove("each of them was loaded completely", z3.Implies(z3.And(0 <= j, j < m), FK(*f_args(vm, j)) == 0))
        vm.prove("the stream is directly behind the last complete field", s.pos == RP(m))
    else:
        if issubclass(e.cls, errors.UnexpectedEOFError):
            vm.cover("end of file")
            vm.prove("end of file only for a field up to the named one", z3.And(z3.BoolVal(named), vm.exists_i(0, N, lambda i: z3.And(i <= IDX(last), FK(*f_args(vm, i)) == 1))))
        elif issubclass(e.cls, ValueError) and not issubclass(e.cls, errors.Error):
            vm.cover("unknown name")
            vm.prove("unknown names are refused without reading", z3.And(z3.Not(comp(last)) if named else z3.BoolVal(False), s.pos == vm.ld_p0))
        else:
            vm.prove("otherwise a field failed to load", vm.exists_i(0, N, lambda i: FK(*f_args(vm, i)) >= 2))


# ---- reading one field (C12) --------------------------------------------------------------------
def h_partial_load(vm, args, kw):
    """Struct.partial_load up to a named field (proved in struct.partial_load), with the recursion R*."""
    cls, s, last, ctx = bind(("cls", "stream", "last_field", "context"), args, kw)
    ev(vm, "partial_load", last)
    t = models.key_t(vm, last)
    vm.prove("loaded from where the structure starts", s.pos == vm.ld_p0)
    vm.prove("loaded with the context", vm.to_val(ctx) == vm.ld_ctx)
    if not vm.branch(comp(t)):
        raise vm.pyerr(ValueError, "no such field")
    m = IDX(t) + 1
    ok = vm.forall_i(0, m, lambda j: FK(*f_args(vm, j)) == 0)
    if vm.branch(ok):
        s.pos = RP(m)
        return vm.call(cls, [], {"**sym": SDict(None, RD(m), RV(m))})
    s.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(s.pos >= vm.ld_p0, s.pos <= z3.Length(s.data)))
    raise vm.pyerr(vm.pick(errors.UnexpectedEOFError, errors.ValidationError, KeyError), "load", field=None)


CONS = z3.Function("fld_load_consults_values", IntS, SeqS, IntS, Val, BoolS)


def h_load_alone(vm, args, kw):
    """Field.from_stream without the structure's values: if loading looks at the values it is given,
    in whatever way, the outcome is arbitrary; otherwise it is the one with any values."""
    self, stream, ctx, lf = bind(("self", "stream", "context", "loaded_fields"), args, kw)
    k = self.attrs["fi"]
    c = (k, stream.data, stream.pos, vm.to_val(ctx))
    ev(vm, "load", self, c)
    if vm.branch(CONS(*c)):
        how = vm.pick("item", "in", "get", "iterate", "length", "truth")
        nm = SStr(vm.fresh("consulted", StrS))
        try:
            if how == "item":
                models.getitem(vm, lf, nm)
            elif how == "in":
                vm.branch(models.contains(vm, lf, nm))
            elif how == "get":
                vm.call(vm.getattr(lf, "get"), [nm], {})
            elif how == "iterate":
                list(vm.iterate(lf) or ())
            elif how == "length":
                vm.call(len, [lf], {})
            else:
                vm.branch(vm.truth_t(lf))
        except PyRaise:
            pass
        stream.pos = vm.fresh("junkpos", IntS)
        vm.assume(z3.And(stream.pos >= c[2], stream.pos <= z3.Length(stream.data)))
        if vm.pick("value", "error") == "value":
            return vm.from_val(vm.fresh("someval", Val))
        raise vm.pyerr(vm.pick(errors.MissingRequiredValueError, errors.UnexpectedEOFError, ZeroDivisionError), "load", field=self)
    a = (k, stream.data, stream.pos, RD(k), RV(k), c[3])
    vm.assume(z3.And(FK(*a) >= 0, FK(*a) <= 2))
    if vm.branch(FK(*a) == 0):
        vm.assume(z3.And(FP(*a) >= stream.pos, FP(*a) <= z3.Length(stream.data), no_marker(FV(*a))))
        stream.pos = FP(*a)
        return vm.from_val(FV(*a))
    stream.pos = vm.fresh("junkpos", IntS)
    vm.assume(z3.And(stream.pos >= c[2], stream.pos <= z3.Length(stream.data)))
    raise vm.pyerr(vm.pick(errors.UnexpectedEOFError, ZeroDivisionError), "load", field=self, offset=None)


@unit("struct.get_field", ["C12"], quant=True, stubs=stubs, inv=inv, contracts=lambda: {**dump_contracts(), SymField.from_stream: h_load_alone, Struct.partial_load.__func__: h_partial_load, Struct.__getitem__: h_getitem},
      under=["binobj.structures.Struct.get_field", "binobj.structures._NothingLoaded"],
      assumes=["loading a field that looks nothing up in the mapping of loaded values gives the same result whatever the mapping is",
               "a recorded offset is where the field starts (struct.collect, C15)"])
def u_get_field(vm):
    setup(vm)
    s, ctx = ld_setup(vm, None, lambda j: z3.Not(DISC(j)))
    n = vm.name_var("name")
    k = IDX(n)
    m = k + 1
    full = vm.forall_i(0, m, lambda j: FK(*f_args(vm, j)) == 0)
    case = vm.pick("complete", "other")
    if case == "complete":
        vm.assume(comp(n))
        field_at(vm, k)
        vm.assume(z3.And(full, z3.Not(DISC(k))))
        if vm.universe is not None:
            for j in range(len(FINITE[0])):
                vm.assume(z3.Implies(FK(*f_args(vm, z3.IntVal(j))) == 0, no_marker(FV(*f_args(vm, z3.IntVal(j))))))
        # What struct.partial_load proves of a successful load.
        vm.assume(z3.And(RD(m)[n], RV(m)[n] == FV(*f_args(vm, k)), z3.Or(vm.forall_s(lambda s: z3.Implies(RD(m)[s], comp(s))))))
        vm.assume(vm.forall_i(0, m + 1, lambda j: z3.And(vm.ld_p0 <= RP(j), RP(j) <= z3.Length(vm.ld_data))))
        # The recorded offset.
        vm.assume(z3.Implies(Val.is_VInt(OFFV(k)), RP(k) == vm.ld_p0 + Val.int_of(OFFV(k))))
        vm.feasible()
    else:
        vm.assume(vm.forall_s(lambda s: z3.Implies(RD(m)[s], comp(s))))
    r, e = raises(vm, "x", Bound(Struct.get_field.__func__, SymStruct), [s, SStr(n)], {"context": ctx})
    vm.prove("the stream is where it was", z3.And(s.pos == vm.ld_p0, s.data == vm.ld_data))
    if case == "complete":
        vm.cover("read")
        vm.prove("a field that can be loaded can be read", z3.BoolVal(e is None))
        if e is None:
            vm.prove("the value is the one of the full load", vm.to_val(r) == FV(*f_args(vm, k)))
    elif e is not None and issubclass(e.cls, ValueError) and not issubclass(e.cls, errors.Error):
        vm.cover("unknown name")
        vm.prove("only unknown names are refused as such", z3.Not(comp(n)))
    else:
        vm.cover("other")
        vm.prove("unknown names are refused", comp(n))


# ---- dumping a part (C13) -----------------------------------------------------------------------
@unit("struct.partial_dump", ["C13"], quant=True, stubs=stubs, inv=inv, contracts=lambda: {**field_contracts(), Struct._to_dict_whatever_possible: h_whatever},
      under=["binobj.structures.Struct.partial_dump"])
def u_partial_dump(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    ctx = context(vm)
    named = vm.pick(False, True)
    last, stop = u_last(vm, named)
    a = (dom, val, ctx.t)
    D, V = WH_D(*a), WH_V(*a)
    has = lambda j: z3.And(D[NAME(j)], V[NAME(j)] != Val.VUndef)
    value = lambda j: V[NAME(j)]
    st = out_stream(vm)
    vm.d0, vm.stop = st.data, stop
    vm.tmpl = t_dump(vm, "d", D, V, ctx.t, value, has)
    if vm.universe is None:
        vm.tmpl(type("L0", (), {"k": z3.IntVal(0), "streams": {}, "level": {}, "dicts": {}}))
        vm.tmpl(type("L0", (), {"k": IDX(last), "streams": {}, "level": {}, "dicts": {}}))
    unrolled(vm)
    r, e = raises(vm, "x", Struct.partial_dump, [o, st], dict({"context": ctx}, **({"last_field": SStr(last)} if named else {})))
    unchanged(vm, "dumping changes no value", o, dom, val)
    j = z3.Int("j!x")
    wrote = lambda i: z3.Or(value(i) == Val.VNotPresent, WOK(i, value(i), D, V, ctx.t))
    if e is None:
        if named:
            vm.cover("dumped up to the named field")
            m = z3.If(comp(last), IDX(last) + 1, N)
        else:
            vm.cover("dumped what is set")
            m = z3.Int("m!stop")
            # the first field without a value
            vm.assume(z3.And(0 <= m, m <= N, vm.forall_i(0, m, has), z3.Or(m == N, z3.Not(has(m)))))
            vm.tmpl(type("L0", (), {"k": m, "streams": {}, "level": {}, "dicts": {}}))
        vm.prove("every field up to there has a value and was written", z3.Implies(z3.And(0 <= j, j < m), z3.And(has(j), wrote(j))))
        vm.prove("exactly the fields up to there are written, as in a full dump", st.data == z3.Concat(vm.d0, OUT(m)))
    else:
        if issubclass(e.cls, errors.MissingRequiredValueError):
            vm.cover("missing")
            f = e.attrs.get("field")
            vm.prove("the missing value's field is named", z3.And(z3.BoolVal(named and isinstance(f, SObj)), z3.Not(has(f.attrs["fi"])) if isinstance(f, SObj) else False))
        else:
            vm.prove("otherwise a field can't be written", z3.Or(z3.Not(WH_OK(*a)), vm.exists_i(0, N, lambda i: z3.And(has(i), z3.Not(wrote(i))))))


# ---- exact loading (C14) ------------------------------------------------------------------------
LK = z3.Function("struct_loads", SeqS, Val, BoolS)
LE = z3.Function("struct_end", SeqS, Val, IntS)


def h_from_stream(vm, args, kw):
    cls, s, ctx, init = bind(("cls", "stream", "context", "init_kwargs"), args, kw)
    ev(vm, "from_stream", cls, init)
    vm.prove("loaded from the start of the data", s.pos == 0)
    a = (s.data, vm.to_val(ctx))
    if vm.branch(LK(*a)):
        vm.assume(z3.And(LE(*a) >= 0, LE(*a) <= z3.Length(s.data)))
        s.pos = LE(*a)
        return vm.loaded
    raise vm.pyerr(errors.DeserializationError, "load", field=None, offset=None)


@unit("struct.from_bytes", ["C14"], quant=True, stubs=stubs, contracts=lambda: {**field_contracts(), Struct.from_stream.__func__: h_from_stream}, under=["binobj.structures.Struct.from_bytes"])
def u_from_bytes(vm):
    setup(vm)
    data, ctx = z3.Const("data", SeqS), context(vm)
    vm.loaded, dom, val = struct_instance(vm, "loaded")
    ex = vm.pick(None, True, False, "sym")
    init = sym_dict(vm, "init") if vm.pick(False, True) else None
    kw = {"context": ctx}
    if init is not None:
        kw["init_kwargs"] = init
    if ex is not None:
        kw["exact"] = SBool(z3.Bool("exact")) if ex == "sym" else ex
    exact = z3.Bool("exact") if ex == "sym" else z3.BoolVal(ex is not False)
    r, e = raises(vm, "x", Bound(Struct.from_bytes.__func__, SymStruct), [SBytes(data)], kw)
    a = (data, ctx.t)
    for x in events(vm, "from_stream"):
        vm.prove("the given values are passed on", z3.BoolVal(x[2] is init and x[1] is SymStruct))
    if e is None:
        vm.cover("loaded")
        vm.prove("the result is what was loaded", z3.BoolVal(r is vm.loaded))
        vm.prove("in exact mode everything was consumed", z3.And(LK(*a), z3.Implies(exact, LE(*a) == z3.Length(data))))
    elif issubclass(e.cls, errors.ExtraneousDataError):
        vm.cover("extraneous data")
        vm.prove("refused only in exact mode with data left", z3.And(LK(*a), exact, LE(*a) < z3.Length(data)))
    else:
        vm.cover("can't be loaded")
        vm.prove("other errors are those of loading", z3.Not(LK(*a)))


# ---- sizes (C15) --------------------------------------------------------------------------------
TOTAL = z3.Function("size_of_first", IntS, IntS)


def t_total(L):
    vm, k = L.vm, L.k
    vm.total_def(k)
    out = []
    if getattr(vm, "so_far", None) is not None:
        for what, f in vm.so_far.items():
            out.append((what + " so far", all_below(vm, k, f)))
    for n, x in L.ints.items():
        if L.level.get(n, 0):
            out.append((n + " is the size so far", x == TOTAL(k)))
    return out


def total(vm, piece):
    def d(k):
        vm.fact1(("total", str(k)), lambda: z3.And(TOTAL(0) == 0, z3.Implies(z3.And(0 <= k, k < N), TOTAL(k + 1) == TOTAL(k) + piece(k))))
    vm.total_def = d
    if vm.universe is not None:
        for i in range(vm.max_index):
            d(z3.IntVal(i))
    else:
        d(z3.IntVal(0))
        d(N)
    vm.tmpl = t_total


@unit("struct.len", ["C15"], quant=True, stubs=stubs, inv=inv, contracts=lambda: {**field_contracts(), Struct._to_dict_whatever_possible: h_whatever},
      under=["binobj.structures.Struct.__len__"],
      assumes=["a field writes as many bytes as its fixed or expected size says (C04, proved in field.to_stream; null values that don't fill their field are excluded)"])
def u_len(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    a = (dom, val, Val.VNone)
    D, V = WH_D(*a), WH_V(*a)
    v = lambda k: V[NAME(k)]
    w = lambda k: W(k, v(k), D, V, Val.VNone)
    pres = lambda k: v(k) != Val.VNotPresent
    # The structure can be dumped ...
    vm.assume(z3.And(WH_OK(*a), vm.forall_i(0, N, lambda k: z3.And(D[NAME(k)], no_marker(v(k)), z3.Implies(pres(k), WOK(k, v(k), D, V, Val.VNone))))))
    # ... the value of a field that has one is it, and its size is what its serialization has.
    vm.assume(vm.forall_i(0, N, lambda k: z3.And(CK["d"](k, D, V, Val.VNone) == 0, CV["d"](k, D, V, Val.VNone) == v(k))))
    vm.assume(vm.forall_i(0, N, lambda k: z3.Implies(pres(k), z3.And(z3.Implies(Val.is_VInt(SIZEV(k)), z3.Length(w(k)) == Val.int_of(SIZEV(k))),
                                                             z3.Implies(z3.And(z3.Not(Val.is_VInt(SIZEV(k))), EK(k, D, V) == 0), z3.Length(w(k)) == ES(k, D, V))))))
    total(vm, lambda k: z3.If(pres(k), z3.Length(w(k)), z3.IntVal(0)))
    r, e = raises(vm, "x", Struct.__len__, [o])
    unchanged(vm, "taking the length changes nothing", o, dom, val)
    vm.cover("sized")
    vm.prove("the length can be had", z3.BoolVal(e is None))
    if e is None:
        vm.prove("it is the number of bytes the present fields dump", vm.int_t(r) == TOTAL(N))


@unit("struct.get_size", ["C15"], quant=True, stubs=stubs, inv=inv, contracts=field_contracts, under=["binobj.structures.StructMetadata.get_size", "binobj.structures.Struct.get_size"])
def u_get_size(vm):
    m = setup(vm)
    case = vm.pick("class", "values")
    fixed = lambda k: z3.And(Val.is_VInt(SIZEV(k)), z3.Not(COND(k)), NFILL(k))
    if case == "class":
        vm.so_far = {"fixed extents": fixed, "no varying ones": lambda k: z3.And(z3.Not(Val.is_VNone(SIZEV(k))), z3.Not(COND(k)), NFILL(k))}
        total(vm, lambda k: Val.int_of(SIZEV(k)))
        how = vm.pick("metadata", "struct")
        if how == "struct":
            r, e = raises(vm, "x", Bound(Struct.get_size.__func__, SymStruct), [])
        else:
            r, e = raises(vm, "x", SM.get_size, [m])
    else:
        d = sym_dict(vm, "vals")
        known = lambda k: z3.Or(d.dom[NAME(k)], z3.And(z3.Not(Val.is_VNone(SIZEV(k))), z3.Not(COND(k)), NFILL(k)))
        vm.so_far = {"values or fixed extents": known}
        size = lambda k: z3.If(Val.is_VInt(SIZEV(k)), Val.int_of(SIZEV(k)), ES(k, d.dom, d.val))
        total(vm, size)
        r, e = raises(vm, "x", SM.get_size, [m, d])
    vm.prove("it never fails", z3.BoolVal(e is None))
    if e is not None:
        return
    j = z3.Int("j!x")
    if r is None:
        vm.cover("unknown " + case)
        if case == "class":
            vm.prove("unknown only if some field may have different extents", vm.exists_i(0, N, lambda k: z3.Not(fixed(k))))
    else:
        vm.cover("known " + case)
        if case == "class":
            vm.prove("known only if every field always has the same extent", z3.Implies(z3.And(0 <= j, j < N), fixed(j)))
        else:
            vm.prove("known only if every field has a value or always the same extent", z3.Implies(z3.And(0 <= j, j < N), known(j)))
        vm.prove("it is the sum of the fields' sizes", vm.int_t(r) == TOTAL(N))


# ---- equality (C23) -----------------------------------------------------------------------------
def h_iter(vm, args, kw):
    """Struct.__iter__ (proved in struct.iter): the names of the set values."""
    dom, val = values_of(vm, args[0])
    return models.KeysView(SDict(None, set_dom(vm, dom, val), val)).pyvc_seq(vm)


def t_eq(L):
    vm, k = L.vm, L.k
    if L.seq is None or vm.nfresh.get("enum", 0) == 0:
        return []
    out = []
    i = vm.nfresh["enum"] - 1
    pos = z3.Function("key_pos!%d" % i, StrS, IntS)
    for n, x in changed(L):
        for w, (d, v) in vm.eq_of.items():
            out.append((n + " has the set names so far of " + w, vm.forall_s(lambda s: x[1][s] == z3.And(d[s], v[s] != Val.VUndef, pos(s) < k))))
            out.append((n + " has the values so far of " + w, vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == v[s]))))
    return out


# set_values_to_dicts(item)
SETS = z3.Function("set_values", Val, Val)
SETS_MAP = z3.Function("set_values_of_map", DomS, MapS, MapS)


def h_sets(vm, args, kw):
    (item,) = bind(("item",), args, kw)
    if isinstance(item, SObj) and issubclass(item.cls, Struct):
        dom, val = values_of(vm, item)
        dom = set_dom(vm, dom, val)
    elif isinstance(item, (SDict, dict)):
        dom, val = arrays(vm, item)
    else:
        return SVal(SETS(vm.to_val(item)))
    v = SETS_MAP(dom, val)
    vm.fact1(("sets", v.get_id()), lambda: vm.forall_s(lambda s: z3.Implies(dom[s], v[s] == SETS(val[s])), lambda s: [v[s]]))
    return SDict(None, dom, v)


@unit("struct.eq", ["C23"], quant=True, stubs=stubs, inv=inv,
      contracts=lambda: {**field_contracts(), Struct.__iter__: h_iter, Struct.__getitem__: h_getitem, structures.set_values_to_dicts: h_sets},
      under=["binobj.structures.Struct.__eq__"])
def u_eq(vm):
    setup(vm)
    o, dom, val = struct_instance(vm)
    what = vm.pick("struct", "mapping", "other")
    vm.eq_of = {"self": (dom, val)}
    if what == "struct":
        p, d2, v2 = struct_instance(vm, "other")
        vm.eq_of["other"] = (d2, v2)
    elif what == "mapping":
        p = sym_dict(vm, "other")
        d2, v2 = p.dom, p.val
        vm.assume(vm.forall_s(lambda s: v2[s] != Val.VUndef))
        vm.eq_of["other"] = (d2, v2)
    else:
        p = SVal(z3.Const("thing", Val))
        vm.assume(z3.And(z3.Not(models.val_isinstance(vm, p.t, structures.Mapping)), p.t != Val.VUndef, z3.Not(models.val_isinstance(vm, p.t, Struct))))
    vm.tmpl = t_eq
    r, e = raises(vm, "x", Struct.__eq__, [o, p])
    unchanged(vm, "comparing changes nothing", o, dom, val)
    vm.cover(what)
    vm.prove("comparing never fails", z3.BoolVal(e is None))
    if e is None:
        t = vm.z(vm.truth_t(r))
        if what == "other":
            vm.prove("not equal to what is no mapping", z3.Not(t))
        else:
            rec = SETS
            st1, st2 = lambda s: z3.And(dom[s], val[s] != Val.VUndef), lambda s: z3.And(d2[s], v2[s] != Val.VUndef)
            vm.prove("equal exactly if the same values are set, nested structures compared in the same way",
                     t == vm.forall_s(lambda s: z3.And(st1(s) == st2(s), z3.Implies(st1(s), vm.val_eq(rec(val[s]), rec(v2[s]))))))


# ---- building a structure class (C15, C17, C19) -------------------------------------------------
MNS = z3.Int("n_namespace")
NSN = z3.Function("namespace_name", IntS, StrS)
NSP = z3.Function("namespace_pos", StrS, IntS)
ISF = z3.Function("namespace_is_field", IntS, BoolS)
CNT = z3.Function("fields_before", IntS, IntS)
OFFS = z3.Function("offset_before", IntS, Val)
NS_OID = 4000000


class Namespace(Sym):
    """The class body: names (distinct) and objects, some of them fields."""
    pyvc_class = dict

    def __init__(self, vm):
        self.vm = vm

    def item(self, j):
        vm = self.vm
        if not vm.branch(ISF(j)):
            return SFn("something else", lambda vm, a, k: None)
        return self.field(j)

    def field(self, j):
        vm = self.vm
        vm.fact1(("nsf", j.get_id()), lambda: z3.And(z3.Or(Val.is_VNone(SIZEV(j)), Val.is_VInt(SIZEV(j)), Val.is_VStr(SIZEV(j))),
                                                     z3.Implies(Val.is_VInt(SIZEV(j)), Val.int_of(SIZEV(j)) >= 0)))
        return SObj(SymField, {"fi": j, "name": None, "_size": SVal(SIZEV(j)), "discard": SBool(DISC(j))}, oid=NS_OID + j, name="field of the class")

    def pyvc_method(self, vm, name):
        if name == "items":
            return Native(name, lambda vm, a, k: SSeq(MNS, lambda j: (SStr(NSN(j)), self.item(j)), "namespace"))
        raise Unsupported("namespace.%s" % name)


def ns_name(vm, s):
    if vm.universe is not None:
        return z3.Or([z3.And(i < MNS, NSN(i) == s) for i in range(2)])
    return z3.And(0 <= NSP(s), NSP(s) < MNS, NSN(NSP(s)) == s)


def fixed_extent(j):
    return z3.And(Val.is_VInt(SIZEV(j)), z3.Not(COND(j)), NFILL(j))


def c_defs(vm, k):
    vm.fact1(("cnt", str(k)), lambda: z3.And(CNT(0) == 0, OFFS(0) == vm.ns_off, z3.Implies(z3.And(0 <= k, k < MNS), z3.And(
        CNT(k + 1) == CNT(k) + z3.If(ISF(k), 1, 0),
        OFFS(k + 1) == z3.If(ISF(k), z3.If(z3.And(Val.is_VInt(OFFS(k)), fixed_extent(k)), Val.VInt(Val.int_of(OFFS(k)) + Val.int_of(SIZEV(k))), Val.VNone), OFFS(k))))))


def t_collect_fields(L):
    vm, k = L.vm, L.k
    c_defs(vm, k)
    out = [("counts", CNT(k) >= 0), ("unknown offsets stay unknown", z3.Implies(Val.is_VNone(vm.ns_off), Val.is_VNone(OFFS(k)))),
           ("offsets are numbers or unknown", z3.Or(Val.is_VNone(OFFS(k)), Val.is_VInt(OFFS(k)))),
           ("nothing inherited is redefined so far", all_below(vm, k, lambda j: z3.Implies(ISF(j), z3.Not(vm.ns_base[0][NSN(j)]))))]
    for n, x in L.ints.items():
        if L.level.get(n, 0):
            out.append((n + " counts all fields", x == vm.ns_index + CNT(k)))
            out.append((n + " counts the fields found", x == CNT(k)))
            out.append((n + " is the offset", Val.VInt(x) == OFFS(k)))
    for n, x in L.vals.items():
        if L.level.get(n, 0):
            out.append((n + " is the offset", x == OFFS(k)))
    for n, x in changed(L):
        new = lambda s: z3.And(ns_name(vm, s), NSP(s) < k, ISF(NSP(s)))
        out.append((n + " has the fields so far", vm.forall_s(lambda s: z3.And(x[1][s] == z3.Or(vm.ns_base[0][s], new(s)), x[2][s] == z3.If(new(s), Val.VObj(NS_OID + NSP(s)), vm.ns_base[1][s])))))
    return out


def h_bind(vm, args, kw):
    self, info, name, index, offset = bind(("self", "struct_info", "name", "index", "offset"), args, kw)
    k = self.attrs["fi"]
    c_defs(vm, k)
    ev(vm, "bind", k)
    vm.prove("every field so far was bound, once", vm.int_t(info.attrs["ghost_bound"]) == CNT(k))
    info.attrs["ghost_bound"] = SInt(CNT(k) + 1)
    vm.prove("a field is bound to its structure with its own name", z3.And(z3.BoolVal(info is vm.ns_meta), vm.str_t(name) == NSN(k)))
    vm.prove("it is numbered behind the inherited and preceding fields", vm.int_t(index) == vm.ns_index + CNT(k))
    vm.prove("its offset is the sum of the preceding sizes, if all are fixed, else unknown", vm.to_val(offset) == OFFS(k))


def class_setup(vm, **ghosts):
    """The class body and the inherited fields."""
    reset(vm)
    vm.sym_fields = {}
    if vm.unroll is not None:
        FINITE[0] = [vm.strlit("f0"), vm.strlit("f1")]
        vm.universe = FINITE[0] + [vm.strlit("other")]
        n = vm.pick(2, 1, 0)
        vm.assume(MNS == n)
        for i in range(2):
            vm.assume(z3.And(NSN(i) == FINITE[0][i], NSP(FINITE[0][i]) == i))
    else:
        vm.assume(MNS >= 0)
        j = z3.Int("j!ns")
        vm.assume(z3.ForAll([j], NSP(NSN(j)) == j, patterns=[NSN(j)]))
    base = sym_dict(vm, "inherited")
    m = SObj(SM, {"name": "Sub", "components": base, "argument_defaults": SDict({}), "num_own_fields": 0, "size_bytes": 0, "ghost_bound": 0, **ghosts}, name="metadata")
    vm.ns_meta, vm.ns_base = m, (base.dom, base.val)
    vm.ns_index = z3.Function("n_names", DomS, IntS)(base.dom)
    vm.roots.append(m)
    off = z3.Int("base_size")
    given = vm.pick("known", "unknown")
    vm.assume(off >= 0)
    vm.ns_off = Val.VInt(off) if given == "known" else Val.VNone
    vm.tmpl = t_collect_fields
    c_defs(vm, z3.IntVal(0))
    c_defs(vm, MNS)
    if vm.universe is not None:
        for i in range(3):
            c_defs(vm, z3.IntVal(i))
    return m, SInt(off) if given == "known" else None


def redefined(vm, i):
    return z3.And(ISF(i), vm.ns_base[0][NSN(i)])


def prove_collected(vm, m):
    s, j = vm.name_var("s!x"), z3.Int("j!x")
    d, v = arrays(vm, m.attrs["components"])
    own = z3.And(ns_name(vm, s), ISF(NSP(s)))
    vm.prove("the fields are the inherited ones and all of the class body", z3.And(d[s] == z3.Or(vm.ns_base[0][s], own), z3.Implies(d[s], v[s] == z3.If(own, Val.VObj(NS_OID + NSP(s)), vm.ns_base[1][s]))))
    vm.prove("no inherited field is redefined", z3.Implies(z3.And(0 <= j, j < MNS), z3.Not(redefined(vm, j))))
    vm.prove("every field is bound", vm.int_t(m.attrs["ghost_bound"]) == CNT(MNS))


@unit("struct.collect", ["C15", "C17", "C12"], quant=True, stubs=stubs, inv=inv, contracts=lambda: {**field_contracts(), SymField.bind_to_container: h_bind},
      under=["binobj.structures.collect_assigned_fields"])
def u_collect(vm):
    m, off = class_setup(vm)
    r, e = raises(vm, "x", structures.collect_assigned_fields, [Namespace(vm), m, off])
    if e is None:
        vm.cover("collected")
        prove_collected(vm, m)
        vm.prove("the number of own fields is returned", vm.int_t(r) == CNT(MNS))
    else:
        vm.cover("redefined")
        vm.prove("refused only if an inherited field is redefined", z3.And(z3.BoolVal(issubclass(e.cls, errors.FieldRedefinedError)), vm.exists_i(0, MNS, lambda i: redefined(vm, i))))


# ---- validator methods of a class (C09, C17) -------------------------------------------------------
ISW = z3.Function("namespace_is_validator", IntS, BoolS)
NWF = z3.Function("n_fields_of_validator", IntS, IntS)
WN = z3.Function("field_of_validator", IntS, IntS, StrS)
APT = z3.Function("pairs_before", IntS, IntS)                 # (validator, field name) pairs of the items before
SVT = z3.Function("struct_validators_before", IntS, IntS)
NBI = z3.Function("named_before", IntS, IntS, StrS, BoolS)    # by the items before k and the first i names of k
ANNS = z3.Function("annotated_name", StrS, BoolS)
W_OID = 4500000


def w_defs(vm, k, i=None):
    i0 = z3.IntVal(0)
    vm.fact1(("wd", str(k)), lambda: z3.And(
        APT(0) == 0, SVT(0) == 0, NWF(k) >= 0, vm.forall_s(lambda s: z3.Not(NBI(0, 0, s))),
        z3.Implies(z3.And(0 <= k, k < MNS), z3.And(
            APT(k + 1) == APT(k) + z3.If(ISW(k), NWF(k), 0), SVT(k + 1) == SVT(k) + z3.If(z3.And(ISW(k), NWF(k) == 0), 1, 0),
            vm.forall_s(lambda s: NBI(k + 1, i0, s) == z3.If(ISW(k), NBI(k, NWF(k), s), NBI(k, i0, s)))))))
    if i is not None:
        vm.fact1(("wd", str(k), str(i)), lambda: z3.Implies(z3.And(0 <= i, i < NWF(k)), vm.forall_s(lambda s: NBI(k, i + 1, s) == z3.Or(NBI(k, i, s), WN(k, i) == s))))


class ClassBody(Sym):
    """The class body: objects under names, some of them wrapped validator methods."""
    pyvc_class = dict

    def __init__(self, ann):
        self.ann = ann

    def item(self, vm, j):
        vm.ns_cur = j
        w_defs(vm, j)
        if not vm.branch(ISW(j)):
            return SFn("something else", lambda vm, a, k: None)
        return SObj(decorators.ValidatorMethodWrapper, {"wi": j, "func": SFn("method", lambda vm, a, k: None),
                    "field_names": SSeq(NWF(j), lambda i: SStr(WN(j, i)), "field names", kind=tuple, tag=("names", j))}, oid=W_OID + j, name="validator")

    def pyvc_method(self, vm, name):
        if name == "values":
            return Native(name, lambda vm, a, k: SSeq(MNS, lambda j: self.item(vm, j), "namespace", tag=("items", None)))
        if name == "items":
            return Native(name, lambda vm, a, k: SSeq(MNS, lambda j: (SStr(NSN(j)), self.item(vm, j)), "namespace", tag=("items", None)))
        if name == "get":
            return Native(name, lambda vm, a, k: self.annotations(vm, a[1] if len(a) > 1 else None) if a[0] == "__annotations__" else unsupported("namespace"))
        raise Unsupported("namespace.%s" % name)

    def annotations(self, vm, other):
        return AnnotatedNames() if self.ann else other

    def pyvc_contains(self, vm, x):
        if x == "__annotations__":
            return z3.BoolVal(self.ann)
        raise Unsupported("membership in the namespace")

    def pyvc_getitem(self, vm, x):
        if x == "__annotations__":
            if not self.ann:
                raise vm.pyerr(KeyError, "no annotations")
            return AnnotatedNames()
        raise Unsupported("an item of the namespace")


def unsupported(what):
    raise Unsupported(what)


class AnnotatedNames(Sym):
    pyvc_class = dict

    def pyvc_contains(self, vm, x):
        return ANNS(models.key_t(vm, x))

    def pyvc_truth(self, vm):
        return True


class MethodLists(Sym):
    """metadata.field_validators, of which only the names and what is appended matter."""
    pyvc_class = dict

    def __init__(self, d):
        self.d = d

    def pyvc_contains(self, vm, x):
        return arrays(vm, self.d)[0][models.key_t(vm, x)]

    def lookup(self, vm, t):
        return MethodList(t)

    def pyvc_getitem(self, vm, x):
        t = models.key_t(vm, x)
        if not vm.branch(self.pyvc_contains(vm, x)):
            m = vm.ns_meta
            w_defs(vm, vm.ns_cur)
            i = vm.int_t(m.attrs["ghost_app"]) - APT(vm.ns_cur)
            named = z3.Or(z3.And(0 <= i, i < NWF(vm.ns_cur), ISW(vm.ns_cur), t == WN(vm.ns_cur, i)),
                          vm.exists_i(0, MNS, lambda j: z3.And(ISW(j), vm.exists_i(0, NWF(j), lambda i: WN(j, i) == t))))
            vm.prove("refused only if a validator method names no field of the class", z3.And(named, z3.Not(vm.mb_dom[t]), z3.Not(ANNS(t)) if vm.mb_ann else z3.BoolVal(True)))
            raise vm.pyerr(KeyError, "no such field")
        return MethodList(t)

    def pyvc_method(self, vm, name):
        if name == "setdefault":
            def setdefault(vm, a, k):
                t = models.key_t(vm, a[0])
                if not vm.branch(self.pyvc_contains(vm, a[0])):
                    vm.prove("a new entry has no validator methods", z3.BoolVal(len(a) == 2 and isinstance(a[1], (SList, list)) and not vm.branch(vm.truth_t(a[1]))))
                    models.setitem(vm, self.d, a[0], None)
                return MethodList(t)
            return Native(name, setdefault)
        if name == "get":
            return Native(name, lambda vm, a, k: MethodList(models.key_t(vm, a[0])) if vm.branch(self.pyvc_contains(vm, a[0])) else (a[1] if len(a) > 1 else None))
        raise Unsupported("field_validators.%s" % name)


class MethodList(Sym):
    pyvc_class = list

    def __init__(self, t):
        self.t = t

    def pyvc_method(self, vm, name):
        if name == "append":
            def append(vm, a, k):
                m = vm.ns_meta
                mine = isinstance(a[0], SObj) and "wi" in a[0].attrs
                j = a[0].attrs["wi"] if mine else vm.ns_cur
                n = vm.int_t(m.attrs["ghost_app"])
                w_defs(vm, j, n - APT(j))
                vm.prove("a validator method is added, as it is, once to each field it names, in order",
                         z3.And(z3.BoolVal(mine), 0 <= j, j < MNS, ISW(j), 0 <= n - APT(j), n - APT(j) < NWF(j), self.t == WN(j, n - APT(j))))
                m.attrs["ghost_app"] = SInt(n + 1)
            return Native(name, append)
        raise Unsupported("a list of validator methods: %s" % name)


class Unused(Sym):
    """Nothing here may be looked at or changed."""
    pyvc_class = dict


class StructMethods(Sym):
    pyvc_class = list

    def pyvc_method(self, vm, name):
        if name == "append":
            def append(vm, a, k):
                m = vm.ns_meta
                mine = isinstance(a[0], SObj) and "wi" in a[0].attrs
                j = a[0].attrs["wi"] if mine else vm.ns_cur
                w_defs(vm, j)
                n = vm.int_t(m.attrs["ghost_sv"])
                vm.prove("a validator method without field names is added, as it is, once to the structure's, in order",
                         z3.And(z3.BoolVal(mine), 0 <= j, j < MNS, ISW(j), NWF(j) == 0, n == SVT(j)))
                m.attrs["ghost_sv"] = SInt(n + 1)
            return Native(name, append)
        raise Unsupported("the list of struct validators: %s" % name)


def t_methods(L):
    vm, k = L.vm, L.k
    tag = getattr(L.seq, "tag", None) if L.seq is not None else None
    if tag is None:
        return []
    what, j = tag
    if what == "items":
        w_defs(vm, k)
        app, named = APT(k), lambda s: NBI(k, 0, s)
        st = SVT(k)
    else:
        w_defs(vm, j, k)
        app, named = APT(j) + k, lambda s: NBI(j, k, s)
        st = SVT(j)
    out = []
    for n, x in L.ints.items():
        if L.level.get(n, 0):
            out.append((n + " counts the methods added to fields", x == app))
            out.append((n + " counts the methods added to the structure", x == st))
    for n, x in changed(L):
        out.append((n + " has the fields, and the annotated names seen", vm.forall_s(lambda s: x[1][s] == z3.Or(vm.mb_dom[s], z3.And(ANNS(s), named(s)) if vm.mb_ann else z3.BoolVal(False)))))
    return out


@unit("struct.bind_validators", ["C09", "C17"], quant=True, stubs=stubs, inv=inv, contracts=field_contracts, under=["binobj.structures.bind_validators_to_struct"])
def u_bind_validators(vm):
    """Any class body with any number of validator methods, for any number of names each."""
    reset(vm)
    vm.sym_fields = {}
    if vm.unroll is not None:
        FINITE[0] = [vm.strlit("f0"), vm.strlit("f1")]
        vm.universe = FINITE[0] + [vm.strlit("other")]
        n = vm.pick(2, 1, 0)
        vm.assume(MNS == n)
        for i in range(2):
            vm.assume(z3.And(NWF(i) <= 2, NWF(i) >= 0))
            for q in range(2):
                vm.assume(z3.Or([WN(i, q) == x for x in vm.universe]))
    else:
        vm.assume(MNS >= 0)
    keys = sym_dict(vm, "validated")
    vm.mb_dom = keys.dom
    vm.mb_ann = vm.pick(True, False)
    m = SObj(SM, {"name": "Sub", "components": Unused(), "field_validators": MethodLists(keys), "struct_validators": StructMethods(), "argument_defaults": SDict({}),
                  "num_own_fields": 0, "size_bytes": 0, "ghost_app": 0, "ghost_sv": 0}, name="metadata")
    vm.ns_meta, vm.ns_cur = m, z3.IntVal(0)
    vm.roots.extend([m, keys])
    vm.tmpl = t_methods
    w_defs(vm, z3.IntVal(0))
    w_defs(vm, MNS)
    if vm.unroll is not None:
        for i in range(2):
            w_defs(vm, z3.IntVal(i), z3.IntVal(0))
            w_defs(vm, z3.IntVal(i), z3.IntVal(1))
    r, e = raises(vm, "x", structures.bind_validators_to_struct, [ClassBody(vm.mb_ann), m])
    if e is not None:
        vm.cover("refused")
        vm.prove("nothing else makes it fail", z3.BoolVal(e.cls is KeyError))
        return
    vm.cover("bound")
    vm.prove("every validator method is added to every field it names", vm.int_t(m.attrs["ghost_app"]) == APT(MNS))
    vm.prove("every validator method without names is added to the structure's", vm.int_t(m.attrs["ghost_sv"]) == SVT(MNS))


# ---- conversion of nested values (C23) ----------------------------------------------------------
def t_rec(L):
    vm, k = L.vm, L.k
    out = []
    i = vm.nfresh.get("enum", 0)
    pos = z3.Function("key_pos!%d" % (i - 1), StrS, IntS) if i else None
    keep, ctx = vm.rec_args
    for n, x in changed(L):
        d, v = vm.rec_map
        if pos is not None:
            out.append((n + " has the keys so far", vm.forall_s(lambda s: x[1][s] == z3.And(d[s], pos(s) < k))))
        out.append((n + " has the converted values", vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == REC(v[s], keep, ctx)))))
    for n, x in L.lists.items():
        if L.level.get(n, 0):
            out.append((n + " has one value per element", x[1] == k))
            out.append((n + " has the converted elements", all_below(vm, k, lambda j: x[2][j] == REC(vm.rec_list[j], keep, ctx))))
    return out


def h_rec_inner(vm, args, kw):
    """A recursive call: on an element of the item (assumed by induction on the nesting)."""
    item, keep, ctx = bind(("item", "keep_discardable", "context"), args, kw)
    if isinstance(item, (SStr, str)):
        return item
    return SVal(REC(vm.to_val(item), vm.z(vm.truth_t(keep if keep is not None else False)), vm.to_val(ctx)))


@unit("struct.recursive_to_dicts", ["C23"], quant=True, stubs=stubs, inv=inv, contracts=lambda: {**field_contracts(), Struct.to_dict: h_todict, structures.recursive_to_dicts: h_rec_inner},
      under=["binobj.structures.recursive_to_dicts"])
def u_recursive(vm):
    setup(vm)
    keep, ctx = SBool(z3.Bool("keep")), context(vm)
    vm.rec_args = (keep.t, ctx.t)
    what = vm.pick("struct", "mapping", "list", "tuple", "other")
    vm.tmpl = t_rec
    s, j = vm.name_var("s!x"), z3.Int("j!x")
    n, a = z3.Int("n_items"), z3.Const("items", LstS)
    vm.rec_list = a
    if vm.universe is not None:
        vm.assume(n <= 2)
    vm.assume(n >= 0)
    if what == "struct":
        item, dom, val = struct_instance(vm)
    elif what == "mapping":
        item = sym_dict(vm, "mapping")
        vm.rec_map = (item.dom, item.val)
    elif what == "list":
        item = SList(None, n, a)
    elif what == "tuple":
        item = SSeq(n, lambda k: vm.from_val(a[k]), "elements", kind=tuple)
    else:
        item = vm.pick(SInt(z3.Int("i")), SBytes(z3.Const("b", SeqS)), SStr(z3.Const("t", StrS)), None)
    r = e = None
    try:
        r = vm.call_function(structures.recursive_to_dicts, [item, keep, ctx], {})
    except PyRaise as exc:
        e = exc.exc
    t = (dom, val, keep.t, ctx.t) if what == "struct" else None
    if e is not None:
        vm.prove("only the conversion of a structure can fail", z3.BoolVal(False) if t is None else z3.Not(TD_OK(*t)))
        return
    vm.cover(what)
    if what == "struct":
        d, v = arrays(vm, r)
        vm.prove("a structure becomes its dictionary, with the same options", z3.And(d == TD_D(*t), v == TD_V(*t)))
    elif what == "mapping":
        d, v = arrays(vm, r)
        vm.prove("a mapping keeps its keys and has its values converted", z3.And(d[s] == vm.rec_map[0][s], z3.Implies(d[s], v[s] == REC(vm.rec_map[1][s], keep.t, ctx.t))))
        vm.prove("the original isn't changed", z3.And(item.dom == vm.rec_map[0], item.val == vm.rec_map[1]))
    elif what in ("list", "tuple"):
        vm.symbolize(r)
        vm.prove("a sequence becomes a list of its converted elements, in order", z3.And(r.n == n, z3.Implies(z3.And(0 <= j, j < n), r.a[j] == REC(a[j], keep.t, ctx.t))))
    else:
        vm.prove("anything else stays as it is", z3.BoolVal(r is item))


def t_sets(L):
    vm, k = L.vm, L.k
    out = []
    i = vm.nfresh.get("enum", 0)
    pos = z3.Function("key_pos!%d" % (i - 1), StrS, IntS) if i else None
    for n, x in changed(L):
        d, v = vm.rec_map
        if pos is not None:
            out.append((n + " has the set names so far", vm.forall_s(lambda s: x[1][s] == z3.And(d[s], pos(s) < k))))
        out.append((n + " has the converted values", vm.forall_s(lambda s: z3.Implies(x[1][s], x[2][s] == SETS(v[s])))))
    for n, x in L.lists.items():
        if L.level.get(n, 0):
            out.append((n + " has one value per element", x[1] == k))
            out.append((n + " has the converted elements", all_below(vm, k, lambda j: x[2][j] == SETS(vm.rec_list[j]))))
    return out


def h_sets_inner(vm, args, kw):
    """A recursive call: on an element of the item (assumed by induction on the nesting)."""
    (item,) = bind(("item",), args, kw)
    return item if isinstance(item, (SStr, str)) else SVal(SETS(vm.to_val(item)))


@unit("struct.set_values_to_dicts", ["C23"], quant=True, stubs=stubs, inv=inv,
      contracts=lambda: {**field_contracts(), Struct.__iter__: h_iter, Struct.__getitem__: h_getitem, structures.set_values_to_dicts: h_sets_inner},
      under=["binobj.structures.set_values_to_dicts"])
def u_set_values(vm):
    setup(vm)
    what = vm.pick("struct", "mapping", "list", "tuple", "other")
    vm.tmpl = t_sets
    s, j = vm.name_var("s!x"), z3.Int("j!x")
    n, a = z3.Int("n_items"), z3.Const("items", LstS)
    vm.rec_list = a
    if vm.universe is not None:
        vm.assume(n <= 2)
    vm.assume(n >= 0)
    if what == "struct":
        item, dom, val = struct_instance(vm)
        vm.rec_map = (set_dom(vm, dom, val), val)
    elif what == "mapping":
        item = sym_dict(vm, "mapping")
        vm.rec_map = (item.dom, item.val)
    elif what == "list":
        item = SList(None, n, a)
    elif what == "tuple":
        item = SSeq(n, lambda k: vm.from_val(a[k]), "elements", kind=tuple)
    else:
        item = vm.pick(SInt(z3.Int("i")), SBytes(z3.Const("b", SeqS)), SStr(z3.Const("t", StrS)), None)
    r = e = None
    try:
        r = vm.call_function(structures.set_values_to_dicts, [item], {})
    except PyRaise as exc:
        e = exc.exc
    vm.prove("the conversion never fails", z3.BoolVal(e is None))
    if e is not None:
        return
    vm.cover(what)
    if what in ("struct", "mapping"):
        d, v = arrays(vm, r)
        vm.prove("the names are those of the set values, the values are converted", z3.And(d[s] == vm.rec_map[0][s], z3.Implies(d[s], v[s] == SETS(vm.rec_map[1][s]))))
        if what == "struct":
            unchanged(vm, "the structure isn't changed", item, dom, val)
        else:
            vm.prove("the original isn't changed", z3.And(item.dom == vm.rec_map[0], item.val == vm.rec_map[1]))
    elif what in ("list", "tuple"):
        vm.symbolize(r)
        vm.prove("a sequence becomes a list of its converted elements, in order", z3.And(r.n == n, z3.Implies(z3.And(0 <= j, j < n), r.a[j] == SETS(a[j]))))
    else:
        vm.prove("anything else stays as it is", z3.BoolVal(r is item))


# ---- the dump of a structure loads as the values dumped (C11), a lemma over the contracts above ------
TAIL = z3.Function("dump_of_the_rest", IntS, SeqS)


@unit("struct.round_trip", ["C11", "C13"], under=[])
def u_round_trip(vm):
    """By induction over the fields, given that each field that is present loads what it dumped as the
    value dumped, leaving the stream behind it (types.round_trip, types.integer_round_trip,
    varints.round_trip for the library's fields), and an absent one loads as its stand-in."""
    k, s = z3.Int("k"), z3.Const("s", StrS)
    d0, rest, D, V, ctx = z3.Const("before", SeqS), z3.Const("rest", SeqS), z3.Const("D", DomS), z3.Const("V", MapS), z3.Const("ctx", Val)
    vm.ld_data, vm.ld_p0, vm.ld_ctx, vm.ld_init, vm.ld_keep = z3.Const("data", SeqS), z3.Length(d0), ctx, None, None
    value = lambda j: CV["d"](j, D, V, ctx)
    STAND = z3.Function("stand_in", IntS, Val)
    loads = lambda j: z3.If(value(j) == Val.VNotPresent, STAND(j), value(j))
    piece = lambda j: z3.If(value(j) == Val.VNotPresent, z3.Empty(SeqS), W(j, value(j), D, V, ctx))
    known = z3.And(comp(s), IDX(s) < k)
    names = z3.And(IDX(NAME(k)) == k, comp(NAME(k)), z3.Implies(IDX(s) == k, z3.Implies(comp(s), NAME(k) == s)))
    # What is loaded of the first k fields
    inv_ = z3.And(RP(k) == z3.Length(d0) + z3.Length(OUT(k)), RD(k)[s] == known, z3.Implies(known, RV(k)[s] == loads(IDX(s))))
    inv_1 = z3.And(RP(k + 1) == z3.Length(d0) + z3.Length(OUT(k + 1)), RD(k + 1)[s] == z3.And(comp(s), IDX(s) < k + 1), z3.Implies(z3.And(comp(s), IDX(s) < k + 1), RV(k + 1)[s] == loads(IDX(s))))
    r0 = z3.And(RD(0) == z3.K(StrS, z3.BoolVal(False)), RV(0) == z3.K(StrS, Val.VNone), RP(0) == z3.Length(d0), OUT(0) == z3.Empty(SeqS))
    rk = z3.And(RD(k + 1) == z3.Store(RD(k), NAME(k), z3.BoolVal(True)), RV(k + 1) == z3.Store(RV(k), NAME(k), FV(*f_args(vm, k))), RP(k + 1) == FP(*f_args(vm, k)),
                OUT(k + 1) == z3.Concat(OUT(k), piece(k)))
    vm.prove("base: nothing is loaded and the stream is in front of the dump", z3.Implies(z3.And(r0, k == 0, z3.Implies(comp(s), IDX(s) >= 0)), inv_))
    # The whole dump is what was dumped so far and the rest, for every k
    tail = lambda j: z3.Concat(OUT(j), TAIL(j))
    tk = TAIL(k) == z3.Concat(piece(k), TAIL(k + 1))
    vm.prove("the dump is the fields so far and the rest (step)", z3.Implies(z3.And(tk, OUT(k + 1) == z3.Concat(OUT(k), piece(k)), OUT(N) == tail(k)), OUT(N) == tail(k + 1)))
    vm.prove("the dump is the fields so far and the rest (base)", z3.Implies(z3.And(OUT(0) == z3.Empty(SeqS), TAIL(0) == OUT(N)), OUT(N) == tail(0)))
    # Where field k's bytes are
    a, w, t, r = (z3.Const(n, SeqS) for n in ("a", "w", "t", "r"))
    vm.prove("the bytes of a field are found behind those of the fields before it",
             z3.SubSeq(z3.Concat(d0, a, w, t, r), z3.Length(d0) + z3.Length(a), z3.Length(w)) == w)
    here = z3.And(vm.ld_data == z3.Concat(d0, OUT(k), piece(k), TAIL(k + 1), rest), z3.SubSeq(vm.ld_data, z3.Length(d0) + z3.Length(OUT(k)), z3.Length(piece(k))) == piece(k))
    # The field's own round trip, at the place it is loaded from and with the values loaded before it
    own = z3.Implies(z3.SubSeq(vm.ld_data, RP(k), z3.Length(piece(k))) == piece(k),
                     z3.And(FK(*f_args(vm, k)) == 0, FV(*f_args(vm, k)) == loads(k), FP(*f_args(vm, k)) == RP(k) + z3.Length(piece(k))))
    pre = z3.And(0 <= k, k < N, inv_, rk, here, own, names)
    vm.prove("step: the field is loaded", z3.Implies(pre, FK(*f_args(vm, k)) == 0))
    vm.prove("step: it ends where it was dumped to", z3.Implies(pre, RP(k + 1) == z3.Length(d0) + z3.Length(OUT(k + 1))))
    vm.prove("step: and has the value that was dumped", z3.Implies(pre, inv_1))
    vm.prove("conclusion: every field loads, as the value dumped, up to the end of the dump", z3.Implies(z3.And(k == N, inv_, comp(s), IDX(s) < N), z3.And(RD(N)[s], RV(N)[s] == loads(IDX(s)), RP(N) == z3.Length(d0) + z3.Length(OUT(N)))))
    vm.cover("lemma")
