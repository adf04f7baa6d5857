"""Contracts of binobj.fields.base.Field, for every field type obeying the hook contract."""
from .lib import *


# ---- get_expected_size (C24) -------------------------------------------------------------
@unit("field.get_expected_size", ["C24", "C04", "C15"], contracts=abstract_contracts,
      under=["binobj.fields.base.Field.get_expected_size"])
def u_expected(vm):
    reset(vm)
    kind, size = pick_size(vm)
    has_default = vm.pick(False, True)
    f = mkfield(vm, AbstractField, _size=size, null_value=UNDEFINED,
                _default=any_value(vm, "dflt") if has_default else UNDEFINED)
    d = sym_dict(vm, "vals")
    r, e = raises(vm, "size", Field.get_expected_size, [f, d])
    if kind == "none":
        key = vm.strlit("fld")
        v = z3.If(d.dom[key], d.val[key], vm.to_val(f.attrs["_default"]))
        have = z3.Or(d.dom[key], z3.BoolVal(has_default))
        if e is None:
            vm.cover("computed from the value")
            vm.prove("no size: the size is that of the field's own value", z3.And(have, SZ_OK(v), vm.int_t(r) == SZ(v)))
        else:
            vm.cover("undefined size")
            vm.prove("no size: failure only without a value or a size for it",
                     z3.Or(z3.Not(have), z3.Not(SZ_OK(v)), Val.is_VNone(v)))
            vm.prove("no size: UndefinedSizeError, or the null representation is refused",
                     issubclass(e.cls, (errors.UndefinedSizeError, errors.UnserializableValueError)))
        return
    avail, isint, n = expected_size(vm, kind, d.dom, d.val)
    if e is None:
        vm.cover("size " + kind)
        vm.prove("size %s: exactly the referenced value" % kind, z3.And(avail, isint, vm.int_t(r) == n))
    elif issubclass(e.cls, errors.MissingRequiredValueError):
        vm.cover("missing")
        vm.prove("size %s: missing only if the value isn't available" % kind, z3.Not(avail))
        fld = e.attrs.get("field")
        nm = fld.attrs.get("name") if isinstance(fld, SObj) else fld
        vm.prove("size %s: the error names the other field" % kind, z3.BoolVal(nm == "other"))
    else:
        vm.cover("wrong type")
        vm.prove("size %s: type error only for a non-integer" % kind, z3.And(avail, z3.Not(isint), z3.BoolVal(issubclass(e.cls, TypeError))))


# ---- compute_value_for_dump (C07) ---------------------------------------------------------
@unit("field.compute_value_for_dump", ["C07"], contracts=abstract_contracts,
      under=["binobj.fields.base.Field.compute_value_for_dump", "binobj.fields.base.Field.default"])
def u_compute(vm):
    reset(vm)
    dk = vm.pick("none", "default", "factory", "const")
    ck = vm.pick(False, True)
    pk = vm.pick(False, True)
    d = sym_dict(vm, "vals")
    ctx = context(vm)
    dv, cv, fv = any_value(vm, "dflt"), any_value(vm, "comp"), any_value(vm, "fact")
    key = vm.strlit("fld")
    vm.assume(z3.Not(Val.is_VDefault(d.val[key])))

    def factory(vm, a, k):
        ev(vm, "factory")
        return fv

    def compute(vm, a, k):
        ev(vm, "compute")
        dd = models.as_mapping(vm, a[1]) if not isinstance(a[1], SDict) else a[1]
        dom, val = vm.dict_arrays(dd)
        vm.prove("computed values get the field and all values", z3.And(z3.BoolVal(a[0] is f), dom == d.dom, val == d.val))
        return cv
    kw = {}
    if dk == "default":
        kw["_default"] = dv
    if dk == "factory":
        kw["factory"], kw["_default"] = SFn("factory", factory), UNDEFINED
    if dk == "const":
        kw["const"] = kw["_default"] = dv
    if ck and dk != "const":
        kw["_compute_fn"] = SFn("compute", compute)
    if pk:
        kw["present"] = present_fn(vm)
    f = arbitrary(vm, mkfield(vm, AbstractField, **kw), ("discard", "null_value", "not_present_value", "index", "offset"))
    dom0, val0 = d.dom, d.val
    r, e = raises(vm, "compute", Field.compute_value_for_dump, [f, d, ctx])
    vm.prove("the values are unchanged", z3.And(d.dom == dom0, d.val == val0) if d.conc is None else z3.BoolVal(False))
    pres = PRES(dom0, val0, ctx.t, z3.BoolVal(False)) if pk else z3.BoolVal(True)
    dflt = {"none": None, "default": dv, "const": dv, "factory": fv}[dk]
    # A factory may be the only source, in which case _default stays UNDEFINED.
    if dk == "factory":
        chosen = z3.If(dom0[key], val0[key], fv.t)
        have = z3.BoolVal(True)
    elif dflt is not None:
        chosen, have = z3.If(dom0[key], val0[key], dflt.t), z3.BoolVal(True)
    elif kw.get("_compute_fn"):
        chosen, have = z3.If(dom0[key], val0[key], cv.t), z3.BoolVal(True)
    else:
        chosen, have = val0[key], dom0[key]
    marker = z3.And(have, Val.is_VNotPresent(chosen))
    if e is not None:
        vm.cover("missing")
        vm.prove("missing value: error only if there is no value and the field is present",
                 z3.And(z3.Or(z3.Not(have), Val.is_VUndef(chosen)), pres))
        vm.prove("missing value: the error names the field", z3.BoolVal(issubclass(e.cls, errors.MissingRequiredValueError) and e.attrs.get("field") is f))
        return
    rt = vm.to_val(r)
    vm.cover("value")
    absent = z3.Or(z3.Not(pres), marker)
    vm.prove("absent fields give the marker and present ones the value by precedence",
             z3.If(absent, Val.is_VNotPresent(rt), z3.And(have, z3.Not(Val.is_VUndef(chosen)), rt == chosen)))


# ---- null representation ---------------------------------------------------------------------
def pick_null(vm, f):
    """Null configuration; returns its kind."""
    nk = vm.pick("undefined", "default", "none", "bytes", "value")
    if nk == "undefined":
        nv = UNDEFINED
    elif nk == "default":
        nv = DEFAULT
    elif nk == "none":
        nv = None
    elif nk == "bytes":
        nv = SBytes(z3.Const("null_bytes", SeqS))
    else:
        nv = any_value(vm, "null_val")
        vm.assume(z3.Not(z3.Or(Val.is_VNone(nv.t), Val.is_VBytes(nv.t), Val.is_VObj(nv.t))))
    f.attrs["null_value"] = nv
    return nk, nv


def null_repr(vm, nk, nv, skind, dom, val, has_default=False, dflt=None):
    """(defined, bytes) terms of the null representation; zeros are given by length."""
    if nk == "bytes":
        return z3.BoolVal(True), nv.t, None
    if nk == "value":
        a = (nv.t, dom, val, Val.VNone)
        return DU_OK(*a), DU(*a), None
    if skind == "none":
        # Size of the field's own value, if it has one that isn't None.
        key = vm.strlit("fld")
        v = z3.If(dom[key], val[key], dflt) if dflt is not None else val[key]
        have = z3.Or(dom[key], z3.BoolVal(dflt is not None))
        return z3.And(have, z3.Not(Val.is_VNone(v)), SZ_OK(v)), None, SZ(v)
    avail, isint, n = expected_size(vm, skind, dom, val)
    return z3.And(avail, isint), None, n


# ---- from_stream (C05, C06, C08, C09, C10) -----------------------------------------------------
@unit("field.from_stream", ["C06", "C08", "C09", "C10", "C24"], inv=inv_validators, contracts=abstract_contracts,
      under=["binobj.fields.base.Field.from_stream", "binobj.fields.base.Field._get_null_repr",
             "binobj.fields.base.Field.get_expected_size", "binobj.helpers.peek_bytes"])
def u_from_stream(vm):
    reset(vm)
    skind, size = pick_size(vm, ("none", "const", "name"))
    s = in_stream(vm)
    p0, data = s.pos, s.data
    d = sym_dict(vm, "vals")
    dom0, val0 = d.dom, d.val
    ctx = context(vm)
    npv = any_value(vm, "npv", sentinels=True)
    f = arbitrary(vm, mkfield(vm, AbstractField, _size=size, present=present_fn(vm), not_present_value=npv), ("discard", "_compute_fn", "index", "offset"))
    nk, nv = pick_null(vm, f)
    const = None
    if vm.pick(False, True):
        const = any_value(vm, "const")
        vm.assume(z3.Not(Val.is_VObj(const.t)))
        f.attrs["const"] = f.attrs["_default"] = const
    r, e = raises(vm, "load", Field.from_stream, [f, s], {"context": ctx, "loaded_fields": d})
    pres = PRES(dom0, val0, ctx.t, z3.BoolVal(True))
    la = (data, p0, dom0, val0, ctx.t)
    V = LV(*la)
    vm.prove("the condition is evaluated first, on the values so far, the context and the stream",
             z3.And(z3.BoolVal(len(vm.events) > 0 and vm.events[0][0] == "present" and vm.events[0][4] is s),
                    vm.events[0][5] == p0, vm.events[0][3] == ctx.t, vm.events[0][2][0] == dom0, vm.events[0][2][1] == val0)
             if vm.events and vm.events[0][0] == "present" and vm.events[0][5] is not None else z3.BoolVal(False))
    vm.prove("the loaded values are not changed", z3.And(d.dom == dom0, d.val == val0) if d.conc is None else z3.BoolVal(False))
    loads = events(vm, "load")
    if loads:
        vm.prove("only present fields are loaded", pres)
        vm.prove("the hook gets the stream where the field starts, the values and the context",
                 z3.And(z3.BoolVal(all(l[1] is s for l in loads) and len(loads) == 1), loads[0][2] == p0, loads[0][3][0] == dom0,
                        loads[0][3][1] == val0, loads[0][4] == ctx.t))
    if events(vm, "validator"):
        vm.prove("only validators of present fields run", pres)
    # Null representation.
    dflt = const.t if const is not None else None
    if nk != "undefined":
        rdef, rb, rn = null_repr(vm, nk, nv, skind, dom0, val0, dflt=dflt)
        if rb is not None:
            ln = z3.Length(rb)
            matches = z3.And(rdef, p0 + ln <= z3.Length(data), z3.SubSeq(data, p0, ln) == rb)
        else:
            ln = z3.If(rn > 0, rn, 0)
            matches = None
    if e is None:
        rt = vm.to_val(r)
        vm.prove("a value is returned only if the field is absent or all validators accept it",
                 z3.Or(z3.Not(pres), all_valid(rt)))
        if not loads:
            if vm.branch(z3.Not(pres)):
                vm.cover("absent")
                vm.prove("absent: the stand-in value, nothing read", z3.And(rt == npv.t, s.pos == p0))
                return
            vm.cover("null")
            vm.prove("without loading, only a null is returned, for fields that have a null representation", z3.And(Val.is_VNone(rt), z3.BoolVal(nk != "undefined")))
            if const is not None:
                vm.prove("null: a constant other than None is not accepted as null", Val.is_VNone(const.t))
            if nk == "undefined":
                return
            if matches is not None:
                vm.prove("null: the input continues with the representation", matches)
            else:
                t = z3.SubSeq(data, p0, ln)
                vm.prove("null: the input continues with zero bytes filling the size", z3.And(rdef, p0 + ln <= z3.Length(data), t == zeros(rn)))
            vm.prove("null: exactly the representation is consumed", s.pos == p0 + ln)
            return
        vm.cover("loaded")
        vm.prove("loaded: the stream is where loading the value ended", s.pos == LP(*la))
        if nk == "undefined":
            vm.prove("loaded: the value the type loads", rt == V)
        else:
            isnull = vm.val_eq(V, vm.to_val(nv))
            vm.prove("loaded: the value the type loads, or None for the null value", z3.If(isnull, Val.is_VNone(rt), rt == V))
            if matches is not None:
                vm.prove("loaded: the input does not continue with the null representation", z3.Not(matches))
            else:
                vm.prove("loaded: the input does not continue with zero bytes filling the size",
                         z3.Not(z3.And(rdef, p0 + ln <= z3.Length(data), z3.SubSeq(data, p0, ln) == zeros(rn))))
        if const is not None:
            vm.prove("loaded: a constant field returns its constant", vm.val_eq(rt, const.t))
        return
    vm.prove("absent fields load without error", pres)
    if issubclass(e.cls, errors.CannotDetermineNullError):
        vm.cover("cannot determine null")
        vm.prove("undeterminable null: only for a default null without size", z3.And(z3.BoolVal(nk == "default"), z3.Not(rdef) if nk == "default" else z3.BoolVal(False)))
    elif issubclass(e.cls, errors.ValidationError):
        vm.cover("validation")
        ok = [z3.BoolVal(False)]
        if const is not None and loads:
            ok.append(z3.Not(vm.val_eq(V, const.t)))
            if nk != "undefined":
                ok.append(vm.val_eq(V, vm.to_val(nv)))
        if const is not None and not loads:
            ok.append(z3.Not(Val.is_VNone(const.t)))
        vals = [t for t in (V, Val.VNone)]
        ok += [some_invalid(vm, t) for t in vals]
        vm.prove("validation error only if a validator or the constant refuses the value", z3.Or(*ok))
    elif issubclass(e.cls, errors.DeserializationError):
        vm.cover("load error")
        vm.prove("load errors are those of the type", z3.And(z3.BoolVal(len(loads) == 1), z3.Not(LD_OK(*la)),
                                                          LD_EOF(*la) == z3.BoolVal(issubclass(e.cls, errors.UnexpectedEOFError))))
        vm.prove("load errors name the field", z3.BoolVal(e.attrs.get("field") is f))
    else:
        vm.cover("other error")
        ok = nk in ("default", "none", "value") and issubclass(e.cls, (errors.MissingRequiredValueError, TypeError, errors.Error))
        vm.prove("other errors only if the null representation can't be determined", z3.And(z3.BoolVal(ok), z3.Not(rdef) if nk != "undefined" else z3.BoolVal(False)))


# ---- to_stream (C04, C06, C09, C10) ---------------------------------------------------------------
def to_stream_driver(cls):
    def driver(vm):
        reset(vm)
        skind, size = pick_size(vm)
        d = sym_dict(vm, "vals")
        dom0, val0 = d.dom, d.val
        ctx = context(vm)
        f = arbitrary(vm, mkfield(vm, cls, _size=size), ("discard", "not_present_value", "_compute_fn", "index", "offset", "present", "const"))
        nk, nv = pick_null(vm, f)
        dk = vm.pick("given", "none", "default", "undefined")
        dv = z3.Const("value", Val)
        if dk == "given":
            data = any_value(vm, "value")
            vm.assume(z3.Not(Val.is_VNone(dv)))
        elif dk == "none":
            data = None
        elif dk == "default":
            data = DEFAULT
        else:
            data = UNDEFINED
        s = out_stream(vm)
        d0 = s.data
        if dk == "default":
            f.attrs["_default"] = vm.pick(UNDEFINED, any_value(vm, "dflt"))
        r, e = raises(vm, "dump", Field.to_stream, [f, s], {"data": data, "context": ctx, "all_fields": d})
        vm.prove("the values are not changed", z3.And(d.dom == dom0, d.val == val0) if d.conc is None else z3.BoolVal(False))
        if dk == "default":
            eff = f.attrs["_default"]
        else:
            eff = data
        evt = vm.to_val(eff)
        da = (evt, dom0, val0, ctx.t)
        if e is not None:
            vm.prove("refused: nothing is written", z3.And(s.data == d0, s.pos == z3.Length(d0)))
            if eff is UNDEFINED:
                vm.cover("no value")
                vm.prove("no value: missing-value error naming the field",
                         z3.BoolVal(issubclass(e.cls, errors.MissingRequiredValueError) and e.attrs.get("field") is f))
                return
            vm.cover("refused")
            bad = [some_invalid(vm, evt)]
            if skind == "none":
                sized = z3.BoolVal(True)
                need = z3.Length(DU(*da))
            else:
                avail, isint, need = expected_size(vm, skind, dom0, val0)
                sized = z3.And(avail, isint)
            isnone = Val.is_VNone(evt)
            if nk == "undefined":
                bad.append(isnone)
            else:
                rdef, rb, rn = null_repr(vm, nk, nv, skind, dom0, val0, dflt=vm.to_val(f.attrs["_default"]) if f.attrs["_default"] is not UNDEFINED else None)
                bad.append(z3.And(isnone, z3.Not(rdef)))
            bad.append(z3.And(z3.Not(isnone), z3.Or(z3.Not(DU_OK(*da)), z3.Not(sized), z3.Length(DU(*da)) != need)))
            vm.prove("refused only for a rejected, unserializable, unsized or wrongly sized value", z3.Or(*bad))
            if issubclass(e.cls, errors.ValueSizeError):
                vm.cover("size error")
                vm.prove("size error only for a wrong size", z3.And(DU_OK(*da), z3.Length(DU(*da)) != need))
            return
        vm.cover("written")
        vm.prove("without a value nothing is dumped", z3.BoolVal(eff is not UNDEFINED))
        vm.prove("every validator accepted the value", all_valid(evt))
        w = z3.Const("w", SeqS)
        vm.assume(s.data == z3.Concat(d0, w)) if vm.valid(z3.PrefixOf(d0, s.data)) else vm.prove("existing contents are kept", False)
        vm.assume(z3.Length(s.data) == z3.Length(d0) + z3.Length(w))
        if vm.branch(Val.is_VNone(evt)):
            vm.cover("null written")
            vm.prove("null: only with a null representation", z3.BoolVal(nk != "undefined"))
            if nk == "undefined":
                return
            rdef, rb, rn = null_repr(vm, nk, nv, skind, dom0, val0, dflt=vm.to_val(f.attrs["_default"]) if f.attrs["_default"] is not UNDEFINED else None)
            if rb is not None:
                vm.prove("null: exactly the representation is written", z3.And(rdef, w == rb))
            else:
                vm.prove("null: zero bytes filling the size are written", z3.And(rdef, w == zeros(rn)))
            return
        vm.prove("value: exactly its serialization is written", z3.And(DU_OK(*da), w == DU(*da)))
        if skind != "none":
            avail, isint, need = expected_size(vm, skind, dom0, val0)
            vm.prove("value: exactly the configured size is written", z3.And(avail, isint, z3.Length(w) == need))
    return driver


unit("field.to_stream", ["C04", "C06", "C09", "C24"], inv=inv_validators, contracts=abstract_contracts,
     under=["binobj.fields.base.Field.to_stream", "binobj.fields.base.Field._get_null_repr", "binobj.fields.base.Field._add_padding",
            "binobj.fields.base.Field.get_expected_size"])(to_stream_driver(AbstractField))


# ---- from_bytes (C14) --------------------------------------------------------------------------
FS_KIND = z3.Function("from_stream_outcome", SeqS, DomS, MapS, Val, IntS)     # 0 value, 1 EOF, 2 other error
FS_V = z3.Function("from_stream_value", SeqS, DomS, MapS, Val, Val)
FS_P = z3.Function("from_stream_end", SeqS, DomS, MapS, Val, IntS)


def h_from_stream(vm, args, kw):
    self, stream, ctx, lf = bind(("self", "stream", "context", "loaded_fields"), args, kw)
    if lf is None:
        lf = SDict({})
    dom, val = vm.dict_arrays(lf)
    vm.prove("the stream handed over starts at the first byte", stream.pos == 0)
    a = (stream.data, dom, val, vm.to_val(ctx))
    ev(vm, "from_stream", a)
    n = z3.Length(stream.data)
    vm.assume(z3.And(0 <= FS_P(*a), FS_P(*a) <= n))
    if vm.branch(FS_KIND(*a) == 0):
        stream.pos = FS_P(*a)
        return vm.from_val(FS_V(*a))
    if vm.branch(FS_KIND(*a) == 1):
        raise vm.pyerr(errors.UnexpectedEOFError, "eof", field=self, offset=None)
    raise vm.pyerr(errors.DeserializationError, "err", field=self, offset=None)


def exactness(vm, nm, call, a, exact, data):
    r, e = call
    end = FS_P(*a)
    left = end < z3.Length(data)
    if e is None:
        vm.cover("loaded")
        vm.prove(nm + ": the loaded value is returned", z3.And(FS_KIND(*a) == 0, vm.to_val(r) == FS_V(*a)))
        if exact:
            vm.prove(nm + ": exact mode accepts the data only if all of it was consumed", z3.Not(left))
    elif issubclass(e.cls, errors.ExtraneousDataError):
        vm.cover("extraneous")
        vm.prove(nm + ": extraneous data only in exact mode with bytes left", z3.And(z3.BoolVal(exact), left, FS_KIND(*a) == 0))
    else:
        vm.cover("failed")
        vm.prove(nm + ": other errors are those of loading from a stream",
                 FS_KIND(*a) == 1 if issubclass(e.cls, errors.UnexpectedEOFError) else z3.And(FS_KIND(*a) != 0, FS_KIND(*a) != 1))


@unit("field.from_bytes", ["C14"], contracts=lambda: {Field.from_stream: h_from_stream}, under=["binobj.fields.base.Field.from_bytes"])
def u_from_bytes(vm):
    reset(vm)
    f = arbitrary(vm, mkfield(vm, AbstractField))
    data = z3.Const("data", SeqS)
    d, ctx = sym_dict(vm, "vals"), context(vm)
    mode = vm.pick("default", True, False)
    given = vm.pick(True, False)
    kw = {"context": ctx}
    if given:
        kw["loaded_fields"] = d
    if mode != "default":
        kw["exact"] = mode
    call = raises(vm, "x", Field.from_bytes, [f, SBytes(data)], kw)
    dom, val = (d.dom, d.val) if given else vm.dict_arrays(SDict({}))
    exactness(vm, "Field.from_bytes", call, (data, dom, val, ctx.t), mode is not False, data)


# ---- to_bytes -----------------------------------------------------------------------------------
@unit("field.to_bytes", ["C04"], contracts=lambda: {Field.to_stream: h_to_stream}, under=["binobj.fields.base.Field.to_bytes"])
def u_to_bytes(vm):
    reset(vm)
    f = arbitrary(vm, mkfield(vm, AbstractField))
    d, ctx = sym_dict(vm, "vals"), context(vm)
    v = any_value(vm, "value")
    given = vm.pick(True, False)
    kw = {"context": ctx}
    if given:
        kw["all_fields"] = d
    r, e = raises(vm, "x", Field.to_bytes, [f, v], kw)
    dom, val = (d.dom, d.val) if given else vm.dict_arrays(SDict({}))
    a = (v.t, dom, val, ctx.t)
    if e is None:
        vm.cover("bytes")
        vm.prove("Field.to_bytes: exactly what to_stream writes", z3.And(DU_OK(*a), vm.seq(r) == DU(*a)))
    else:
        vm.cover("error")
        vm.prove("Field.to_bytes: fails only if to_stream does", z3.Not(DU_OK(*a)))


def h_to_stream(vm, args, kw):
    self, stream, data, ctx, af = bind(("self", "stream", "data", "context", "all_fields"), args, kw)
    dom, val = vm.dict_arrays(af if af is not None else SDict({}))
    a = (vm.to_val(data), dom, val, vm.to_val(ctx))
    if vm.branch(DU_OK(*a)):
        models.st_write(vm, stream, SBytes(DU(*a)))
        return None
    raise vm.pyerr(errors.SerializationError, "dump", field=self)


# ---- assignment and access (C09, C10, C23) ------------------------------------------------------
@unit("field.assign", ["C09", "C10", "C23"], inv=inv_validators, contracts=abstract_contracts,
      under=["binobj.fields.base.Field.__set__"])
def u_set(vm):
    reset(vm)
    kind = vm.pick("plain", "const", "computed")
    v = any_value(vm, "value", sentinels=True)
    f = arbitrary(vm, mkfield(vm, AbstractField), [n for n in CONFIG if n not in ("const", "_compute_fn")])
    if kind == "const":
        f.attrs["const"] = any_value(vm, "const")
    if kind == "computed":
        f.attrs["_compute_fn"] = SFn("compute", lambda vm, a, k: any_value(vm, "comp"))
    vals = sym_dict(vm, "vals")
    inst = SObj(structures.Struct, {"__values__": vals}, name="instance")
    dom0, val0 = vals.dom, vals.val
    key = vm.strlit("fld")
    r, e = raises(vm, "x", Field.__set__, [f, inst, v])
    dom, val = vm.dict_arrays(inst.attrs["__values__"])
    if e is None:
        vm.cover("assigned")
        vm.prove("constant and computed fields can't be assigned", z3.BoolVal(kind == "plain"))
        vm.prove("assigned values are accepted by every validator", all_valid(v.t))
        vm.prove("only this field is changed", z3.And(dom == z3.Store(dom0, key, z3.BoolVal(True)), val == z3.Store(val0, key, v.t)))
        return
    vm.cover("refused")
    vm.prove("a refused assignment changes nothing", z3.And(dom == dom0, val == val0))
    if kind == "plain":
        vm.prove("refused only by a validator", z3.And(z3.BoolVal(issubclass(e.cls, errors.ValidationError)), some_invalid(vm, v.t)))
    else:
        vm.prove("constant and computed fields are refused as immutable", z3.BoolVal(issubclass(e.cls, errors.ImmutableFieldError)))


# ---- structure-wide argument defaults (C19) -----------------------------------------------------------
@unit("field.bind_to_container", ["C19", "C17"], under=["binobj.fields.base.Field.bind_to_container"])
def u_bind(vm):
    reset(vm)
    cls = vm.pick(numeric.Integer, numeric.UInt16, numeric.Int8)
    explicit = vm.pick(True, False)
    typed, general = vm.pick(True, False), vm.pick(True, False)
    ex, ty, ge, mach = (any_value(vm, n) for n in ("explicit", "typed", "general", "machine"))
    f = mkfield(vm, cls, name=vm.pick(None, "fld"), index=None, endian=ex if explicit else mach,
                __explicit_init_args__=frozenset({"endian"} if explicit else ()))
    arbitrary(vm, f)
    dd = {"signed": True, "Int64__endian": any_value(vm, "unrelated")}
    if typed:
        dd[cls.__name__ + "__endian"] = ty
    if general:
        dd["endian"] = ge
    info = SObj(structures.StructMetadata, {"argument_defaults": SDict(dd), "name": "S"})
    idx, off = SInt(z3.Int("idx")), vm.pick(None, SInt(z3.Int("off")))
    signed0 = f.attrs.setdefault("signed", any_value(vm, "signed"))
    r, e = raises(vm, "x", Field.bind_to_container, [f, info, "fld", idx, off])
    vm.prove("binding succeeds", z3.BoolVal(e is None))
    if e is not None:
        return
    vm.cover("bound")
    want = ex if explicit else ty if typed else ge if general else mach
    vm.prove("byte order: explicit, else default for the type, else general default, else the machine's", vm.to_val(f.attrs["endian"]) == want.t)
    vm.prove("name, index and offset are recorded", z3.And(z3.BoolVal(f.attrs["name"] == "fld"), vm.int_t(f.attrs["index"]) == z3.Int("idx"),
             z3.BoolVal(f.attrs["offset"] is None) if off is None else vm.int_t(f.attrs["offset"]) == z3.Int("off")))
    vm.prove("arguments that can't be defaulted are left alone", vm.to_val(f.attrs["signed"]) == signed0.t)


# ---- construction (C07, C08, C10, C19) ---------------------------------------------------------------
@unit("field.init", ["C07", "C08", "C10", "C06", "C19"], contracts=abstract_contracts, under=["binobj.fields.base.Field.__init__", "binobj.fields.base.Field.__new__"])
def u_init(vm):
    reset(vm)
    kw = {}
    const, dflt, null, npv = (any_value(vm, n) for n in ("const", "dflt", "null", "npv"))
    vm.assume(z3.Not(Val.is_VObj(dflt.t)))
    if vm.pick(True, False):
        kw["const"] = const
    if vm.pick(True, False):
        kw["default"] = dflt
    fac = SFn("factory", lambda vm, a, k: any_value(vm, "fact"))
    if vm.pick(True, False):
        kw["factory"] = fac
    skind, size = pick_size(vm, ("none", "const", "name"))
    if size is not None:
        kw["size"] = size
    rest = vm.pick(True, False)
    pf = present_fn(vm)
    v1, v2 = (SFn("validator", lambda vm, a, k: ev(vm, "v", *a)) for _ in range(2))
    if rest:
        kw.update(null_value=null, not_present_value=npv, present=pf, validate=SList([v1, v2]), discard=True, name="fld")
    f, e = raises(vm, "x", AbstractField, [], kw)
    if e is not None:
        vm.cover("refused")
        vm.prove("only a default together with a factory is refused", z3.BoolVal("default" in kw and "factory" in kw and issubclass(e.cls, errors.ConfigurationError)))
        return
    vm.cover("created")
    a = f.attrs
    same = lambda x, y: vm.to_val(x) == vm.to_val(y)
    vm.prove("default and factory together are refused", z3.BoolVal(not ("default" in kw and "factory" in kw)))
    vm.prove("the constant is recorded", same(a["const"], kw.get("const", UNDEFINED)))
    want = kw.get("default", kw.get("const", UNDEFINED))
    vm.prove("the default is the one given, or the constant", same(a["_default"], want))
    vm.prove("the factory is recorded", z3.BoolVal(a["factory"] is kw.get("factory")))
    if size is not None:
        vm.prove("the size is the one given", same(a["_size"], size))
    elif "const" in kw:
        vm.prove("a constant without size takes the size of the constant",
                 z3.If(SZ_OK(const.t), same(a["_size"], SInt(SZ(const.t))), same(a["_size"], None)))
    else:
        vm.prove("no size", same(a["_size"], None))
    if rest:
        vm.prove("null value, stand-in and discard flag are recorded", z3.And(same(a["null_value"], null), same(a["not_present_value"], npv), z3.BoolVal(a["discard"] is True and a["name"] == "fld")))
        vm.prove("the presence condition is recorded", z3.BoolVal(a["present"] is pf))
        vs = vm.iterate(a["validators"])
        vs = list(vs) if vs is not None else []
        x = any_value(vm, "x")
        for v in vs:
            vm.call(v, [x], {})
        got = [(e[1], e[2]) for e in vm.events if e[0] == "v"]
        vm.prove("every validator is kept and called with the field and the value", z3.And(z3.BoolVal(len(got) == 2 and all(g[0] is f for g in got)), *[same(g[1], x) for g in got]))
    else:
        vm.prove("no null, not-present marker, always present by default", z3.And(same(a["null_value"], UNDEFINED), same(a["not_present_value"], NOT_PRESENT), z3.BoolVal(a["present"] is base._always_present and a["discard"] is False)))
    vm.prove("the arguments given explicitly are recorded", z3.BoolVal(set(a["__explicit_init_args__"]) == set(kw)))
