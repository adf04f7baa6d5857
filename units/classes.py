"""Declaring structure classes: annotations (C18) and inheritance (C17)."""
import dataclasses
import typing

from binobj import pep526

from .structs import *

OWN = z3.Function("annotated_here", IntS, BoolS)          # in the class's own annotations
META = z3.Function("annotation_parts", IntS, IntS)        # 1..3 parts (typing.Annotated)
PART = z3.Function("part_is_field", IntS, IntS, BoolS)    # make_field_instance gives a field


def n_fields(j):
    return z3.Sum([z3.If(z3.And(i < META(j), PART(j, i)), 1, 0) for i in range(3)])


def ann_facts(vm, j):
    vm.fact1(("ann", j.get_id()), lambda: z3.And(META(j) >= 1, META(j) <= 3, ISF(j) == z3.And(OWN(j), n_fields(j) == 1)))


class Annotations(Sym):
    """typing.get_type_hints(class): all annotations, inherited ones included, in order."""
    pyvc_class = dict

    def __init__(self, own=False):
        self.own = own

    def pyvc_contains(self, vm, x):
        # Membership in vars(class)["__annotations__"].
        if not self.own:
            raise Unsupported("membership in all annotations")
        t = models.key_t(vm, x)
        return z3.And(ns_name(vm, t), OWN(NSP(t)))

    def pyvc_method(self, vm, name):
        if self.own:
            raise Unsupported("annotations.%s" % name)
        if name == "items":
            return Native(name, lambda vm, a, k: SSeq(MNS, lambda j: self.item(vm, j), "annotations"))
        raise Unsupported("annotations.%s" % name)

    def item(self, vm, j):
        ann_facts(vm, j)
        return SStr(NSN(j)), Annotation(j)


class Annotation(Sym):
    def __init__(self, j, i=None):
        self.j, self.i = j, i


class ClassVars(Sym):
    pyvc_class = dict

    def pyvc_method(self, vm, name):
        if name == "get":
            def get(vm, a, k):
                if a[0] != "__annotations__":
                    raise Unsupported("class namespace")
                return Annotations(own=True)
            return Native(name, get)
        raise Unsupported("class namespace")


class ClassObject(Sym):
    """The decorated structure class."""
    pyvc_class = type

    def __init__(self, meta):
        self.meta = meta

    def pyvc_truth(self, vm):
        return True

    def pyvc_vars(self, vm):
        return ClassVars()

    def pyvc_method(self, vm, name):
        if name == "__binobj_struct__":
            return self.meta
        if name in ("__name__", "__qualname__"):
            return "Sub"
        raise Unsupported("class attribute %s" % name)

    def pyvc_setattr(self, vm, name, value):
        k = value.attrs["fi"]
        vm.prove("the field becomes the class attribute of its name", vm.str_t(name) == NSN(k))
        vm.prove("exactly the fields become class attributes, in order", vm.int_t(self.meta.attrs["ghost_set"]) == CNT(k))
        self.meta.attrs["ghost_set"] = SInt(CNT(k) + 1)


class ValidatorsByField(Sym):
    pyvc_class = dict

    def pyvc_method(self, vm, name):
        if name == "setdefault":
            def setdefault(vm, a, k):
                m = vm.ns_meta
                vm.prove("each field gets an entry for its validator methods", z3.Exists([z3.Int("w!v")], z3.And(z3.Int("w!v") == vm.ns_k, vm.str_t(a[0]) == NSN(vm.ns_k))))
                m.attrs["ghost_val"] = SInt(CNT(vm.ns_k) + 1)
                return a[1]
            return Native(name, setdefault)
        raise Unsupported("field_validators.%s" % name)


def several(i):
    return z3.And(OWN(i), n_fields(i) > 1)


def t_dataclass(L):
    return t_collect_fields(L) + [("no name has several fields so far", all_below(L.vm, L.k, lambda i: z3.Not(several(i))))]


def h_flatten(vm, args, kw):
    a = args[0]
    ann_facts(vm, a.j)
    vm.ns_k = a.j
    for n in (1, 2):
        if vm.branch(META(a.j) == n):
            return SList([Annotation(a.j, i) for i in range(n)])
    return SList([Annotation(a.j, i) for i in range(3)])


def h_from_annotation(vm, args, kw):
    cls, name, ann, struct = bind(("cls", "field_name", "annotation", "struct_class"), args, kw)
    vm.prove("an annotation is interpreted for its own name and class", z3.And(vm.str_t(name) == NSN(ann.j), z3.BoolVal(struct is vm.ns_class)))
    return SObj(pep526.AnnotationInfo, {"ann": ann})


def h_make(vm, args, kw):
    a = args[0].attrs["ann"]
    return vm.ns_item(a.j) if vm.branch(PART(a.j, a.i)) else None


def h_bind_ann(vm, args, kw):
    vm.prove("only own annotations make fields", OWN(args[0].attrs["fi"]))
    return h_bind(vm, args, kw)


@unit("classes.dataclass", ["C18", "C15"], quant=True, stubs=stubs, inv=inv,
      contracts=lambda: {**field_contracts(), SymField.bind_to_container: h_bind_ann, typing.get_type_hints: lambda vm, a, k: Annotations(),
                         pep526.flatten_annotations: h_flatten, pep526.AnnotationInfo.from_annotation.__func__: h_from_annotation,
                         pep526.AnnotationInfo.make_field_instance: h_make, SM.get_size: h_class_size},
      under=["binobj.pep526.dataclass"],
      assumes=["typing.get_type_hints gives the annotations of the class and its parents; an annotation has at most three parts"])
def u_dataclass(vm):
    m, off = class_setup(vm, ghost_set=0, ghost_val=0)
    m.attrs["field_validators"] = ValidatorsByField()
    ns = Namespace(vm)
    vm.ns_item = ns.field
    vm.ns_class = ClassObject(m)
    vm.ns_size = off
    ann_facts(vm, z3.Int("j!x"))
    mixed = vm.pick(False, True)
    if mixed:
        own = z3.Int("own")
        vm.assume(own > 0)
        m.attrs["num_own_fields"] = SInt(own)
    vm.tmpl = t_dataclass
    if vm.universe is not None:
        vm.assume(z3.And(META(0) <= 2, META(1) <= 2))
    r, e = raises(vm, "x", pep526.dataclass, [vm.ns_class])
    if mixed:
        vm.prove("fields assigned in the class body are refused", z3.BoolVal(e is not None and issubclass(e.cls, errors.MixedDeclarationsError)))
        vm.cover("mixed")
        return
    if e is None:
        vm.cover("declared")
        vm.prove("the class itself is returned", z3.BoolVal(r is vm.ns_class))
        prove_collected(vm, m)
        vm.prove("the number of own fields is recorded, there is one at least", z3.And(vm.int_t(m.attrs["num_own_fields"]) == CNT(MNS), CNT(MNS) >= 1))
        vm.prove("every field became a class attribute", vm.int_t(m.attrs["ghost_set"]) == CNT(MNS))
        vm.prove("every field has an entry for validator methods", vm.int_t(m.attrs["ghost_val"]) == CNT(MNS))
        j = z3.Int("j!x")
        vm.prove("no name has several fields", z3.Implies(z3.And(0 <= j, j < MNS), z3.Not(several(j))))
    else:
        vm.cover(e.cls.__name__)
        if issubclass(e.cls, errors.FieldRedefinedError):
            vm.prove("refused only if an inherited field is redefined", vm.exists_i(0, MNS, lambda i: redefined(vm, i)))
        elif issubclass(e.cls, errors.NoDefinedFieldsError):
            vm.prove("refused only if no annotation is a field", CNT(MNS) == 0)
        else:
            vm.prove("refused otherwise only if several annotations of a name are fields", z3.And(z3.BoolVal(e.cls is errors.ConfigurationError), vm.exists_i(0, MNS, several)))


def h_class_size(vm, args, kw):
    """StructMetadata.get_size (struct.get_size), here of the inherited fields."""
    vm.prove("the offsets start behind the inherited fields", vm.int_t(args[0].attrs["ghost_bound"]) == 0)
    return vm.ns_size


# ---- interpretation of one annotation ------------------------------------------------------------
class AnyStruct(Struct):
    __pyvc__ = True


class OtherClass:
    pass


def h_nested(vm, args, kw):
    ev(vm, "nested", list(args), dict(kw))
    return SObj(containers.Nested, {"what": "nested"}, name="nested")


def h_new_field(vm, args, kw):
    ev(vm, "field", list(args), dict(kw))
    return SObj(AbstractField, {"what": "field"}, name="created field")


def make_args(vm, kw, nullable, dflt):
    same = lambda x, y: vm.to_val(x) == vm.to_val(y)
    null = kw.get("null_value", UNDEFINED)
    extra = set(kw) - {"name", "default", "null_value", "struct_class"}
    return z3.And(z3.BoolVal(not extra), same(kw.get("default", UNDEFINED), dflt), z3.If(nullable.t, same(null, DEFAULT), same(null, UNDEFINED)))


@unit("classes.make_field", ["C18"], contracts=lambda: {containers.Nested: h_nested, AbstractField: h_new_field},
      under=["binobj.pep526.AnnotationInfo.make_field_instance"])
def u_make(vm):
    reset(vm)
    kind = vm.pick("structure class", "field class", "other class", "field", "something else")
    dflt, nullable = any_value(vm, "dflt"), SBool(z3.Bool("nullable"))
    has = vm.pick(True, False)
    f = mkfield(vm, AbstractField, name=None, _default=vm.pick(UNDEFINED, any_value(vm, "own")), factory=None)
    own = f.attrs["_default"]
    vm.assume(z3.Not(Val.is_VObj(dflt.t)))
    what = {"structure class": AnyStruct, "field class": AbstractField, "other class": OtherClass, "field": f, "something else": "note"}[kind]
    info = SObj(pep526.AnnotationInfo, {"name": "fld", "type_class": what, "type_args": (), "has_default": has, "default_value": dflt if has else UNDEFINED, "nullable": nullable})
    r, e = raises(vm, "x", pep526.AnnotationInfo.make_field_instance, [info])
    vm.prove("interpreting an annotation doesn't fail", z3.BoolVal(e is None))
    if e is not None:
        return
    vm.cover(kind)
    made = [x for x in vm.events if x[0] in ("nested", "field")]
    d = dflt if has else UNDEFINED
    if kind == "structure class":
        vm.prove("a structure class makes a nested field of it", z3.BoolVal(len(made) == 1 and made[0][0] == "nested" and r.attrs["what"] == "nested"
                 and (made[0][1] or [made[0][2].get("struct_class")])[0] is AnyStruct))
        vm.prove("with the default given, nullable if the annotation is optional", make_args(vm, made[0][2], nullable, d))
    elif kind == "field class":
        vm.prove("a field class makes a field of that class", z3.BoolVal(len(made) == 1 and made[0][0] == "field" and r.attrs["what"] == "field" and not made[0][1]))
        vm.prove("with the default given, nullable if the annotation is optional", make_args(vm, made[0][2], nullable, d))
    elif kind == "field":
        vm.prove("a field is used as it is", z3.BoolVal(r is f and not made))
        vm.prove("with the default given, or its own", vm.to_val(f.attrs["_default"]) == vm.to_val(d if has else own))
    else:
        vm.prove("other annotations are no fields", z3.BoolVal(r is None and not made))


def new_dataclass(cls):
    """The constructor generated by dataclasses.dataclass: stores its arguments."""
    def h(vm, args, kw):
        fs = [f for f in dataclasses.fields(cls)]
        a = dict(zip([f.name for f in fs], args))
        a.update(kw)
        for f in fs:
            if f.name not in a:
                if f.default is not dataclasses.MISSING:
                    a[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    a[f.name] = vm.call(f.default_factory, [], {})
                else:
                    raise vm.pyerr(TypeError, "missing argument " + f.name)
        return SObj(cls, a, name=cls.__name__)
    return h


FORMS = {
    "class": (fields.UInt8, fields.UInt8, False), "structure": (AnyStruct, AnyStruct, False), "other": (int, int, False),
    "optional": (typing.Optional[fields.UInt8], fields.UInt8, True), "optional structure": (typing.Optional[AnyStruct], AnyStruct, True),
    "none first": (typing.Union[None, fields.UInt8], fields.UInt8, True),
    "bar": (fields.UInt8 | None, fields.UInt8, True), "bar structure": (AnyStruct | None, AnyStruct, True), "bar, none first": (None | fields.StringZ, fields.StringZ, True),
    "one of a union": (typing.Union[fields.UInt8], fields.UInt8, False), "list": (typing.List[int], typing.List[int], False),
    "instance": (fields.UInt8(), None, False),
    "two of a union": (typing.Union[fields.UInt8, fields.UInt16], errors.InvalidTypeAnnotationError, False),
    "two of an optional union": (typing.Optional[typing.Union[fields.UInt8, fields.UInt16]], errors.InvalidTypeAnnotationError, False),
}


class DefaultsClass(Sym):
    """The class being decorated: at most the attribute with the default, and one it inherits."""
    pyvc_class = type

    def __init__(self, default, inherited):
        self.default, self.inherited = default, inherited

    def pyvc_vars(self, vm):
        return SDict({} if self.default is None else {"fld": self.default})

    def pyvc_method(self, vm, name):
        if name == "fld" and self.default is not None:
            return self.default
        if name == "fld" and self.inherited:
            return OtherClass
        raise vm.pyerr(AttributeError, name)


@unit("classes.annotation", ["C18"], contracts=lambda: {pep526.AnnotationInfo: new_dataclass(pep526.AnnotationInfo), typing.get_args: lambda vm, a, k: typing.get_args(a[0]), typing.get_origin: lambda vm, a, k: typing.get_origin(a[0])}, under=["binobj.pep526.AnnotationInfo.from_annotation"],
      assumes=["typing.get_args/get_origin on the listed forms of annotations (run as they are)"])
def u_annotation(vm):
    reset(vm)
    form = vm.pick(*FORMS)
    ann, want, nullable = FORMS[form]
    dflt = vm.pick(None, any_value(vm, "dflt"))
    r, e = raises(vm, "x", pep526.AnnotationInfo.from_annotation, ["fld", ann, DefaultsClass(dflt, vm.pick(False, True))])
    vm.cover(form)
    if isinstance(want, type) and issubclass(want, errors.Error):
        vm.prove("a union of several types is refused", z3.BoolVal(e is not None and issubclass(e.cls, want)))
        return
    vm.prove("the annotation is accepted", z3.BoolVal(e is None))
    if e is not None:
        return
    a = r.attrs
    vm.prove("the type is the annotated one, without None", z3.BoolVal(a["name"] == "fld" and (a["type_class"] is ann if want is None or not isinstance(want, type) else a["type_class"] is want)))
    vm.prove("nullable exactly if None is allowed", vm.z(vm.truth_t(a["nullable"])) == z3.BoolVal(nullable))
    vm.prove("the default is the attribute of this very class, if there is one", z3.And(vm.z(vm.truth_t(a["has_default"])) == z3.BoolVal(dflt is not None), vm.to_val(a["default_value"]) == vm.to_val(UNDEFINED if dflt is None else dflt)))


@unit("classes.flatten", ["C18"], under=["binobj.pep526.flatten_annotations"])
def u_flatten(vm):
    reset(vm)
    form = vm.pick("plain", "annotated")
    t = typing.Annotated[int, "note", fields.UInt8]
    r, e = raises(vm, "x", pep526.flatten_annotations, [t if form == "annotated" else fields.UInt8])
    vm.cover(form)
    want = ["note", fields.UInt8] if form == "annotated" else [fields.UInt8]
    l = vm.iterate(r) if e is None else None
    vm.prove("the metadata of typing.Annotated, or the annotation itself", z3.BoolVal(l is not None and list(l) == want))


# ---- inheritance (C17, C09, C19) -----------------------------------------------------------------
from binobj import decorators


class SomeClass(Sym):
    """A class object: attributes and what vars() gives."""
    pyvc_class = type

    def __init__(self, attrs, ns=None):
        self.attrs, self.ns = attrs, ns

    def pyvc_truth(self, vm):
        return True

    def pyvc_vars(self, vm):
        return self.ns

    def pyvc_method(self, vm, name):
        if name in self.attrs:
            return self.attrs[name]
        raise vm.pyerr(AttributeError, name)


def h_collect(vm, args, kw):
    ns, meta, off = bind(("namespace", "class_metadata", "byte_offset"), args, kw)
    ev(vm, "collect", ns, meta, off, list(meta.attrs["components"].conc))
    n = 0
    for k, v in ns.conc.items():
        if isinstance(v, SObj) and issubclass(v.cls, Field):
            meta.attrs["components"].conc[k] = v
            n += 1
    return n


def items(d):
    return list(d.conc.items()) if isinstance(d, SDict) else list(d.items())


def elems(vm, l):
    x = vm.iterate(l)
    return list(x) if x is not None else None


@unit("classes.from_class", ["C17", "C09", "C19"], bounded="at most 2 inherited fields, 2 own fields and 2 validator methods",
      contracts=lambda: {SM: new_dataclass(SM), structures.collect_assigned_fields: h_collect,
                         SM.get_size: lambda vm, a, k: vm.parent_size},
      under=["binobj.structures.StructMetadata.from_class", "binobj.structures.bind_validators_to_struct", "binobj.structures.StructMetadata.load_meta_options"])
def u_from_class(vm):
    reset(vm)
    nbases = vm.pick(0, 1, 2)
    fld = lambda n: SObj(AbstractField, {"name": n}, name="field " + n)
    fn = lambda n: SFn(n, lambda vm, a, k: None)
    wrap = lambda n, names: SObj(decorators.ValidatorMethodWrapper, {"func": fn(n), "field_names": tuple(names)}, name=n)
    plain = SomeClass({"__name__": "object"})
    parents, metas = [], []
    for b in range(nbases):
        n = vm.pick(1, 2) if b == 0 else 1
        fs = {"p%d" % i: fld("p%d" % i) for i in range(n)}
        fv = {"p%d" % i: [fn("v%d%d" % (i, j)) for j in range(vm.pick(0, 1) if i == 0 else 1)] for i in range(n)}
        sv = [fn("sv%d" % j) for j in range(vm.pick(0, 1) if b == 0 else 1)]
        m = SObj(SM, {"name": "Parent", "components": SDict(dict(fs)), "field_validators": SDict({k: SList(list(v)) for k, v in fv.items()}),
                      "struct_validators": SList(list(sv)), "num_own_fields": n, "size_bytes": 0,
                      "argument_defaults": SDict({"endian": "parent's"})}, name="parent")
        parents.append(SomeClass({"__binobj_struct__": m, "__name__": "Parent"}))
        metas.append((m, fs, fv, sv))
    m0, fs, fv, sv = metas[0] if metas else (None, {}, {}, [])
    vm.parent_size = vm.pick(None, SInt(z3.Int("parent_size"))) if nbases == 1 and len(fs) == 1 else SInt(z3.Int("parent_size"))
    own = {"o%d" % i: fld("o%d" % i) for i in range(vm.pick(0, 2))}
    ann = not own and vm.pick(False, True)          # to be declared by pep526.dataclass later
    targets = [()] + ([("a0",)] if ann else []) + [(n,) for n in list(fs)[:1] + list(own)[:1]] + ([(list(fs)[0], list(own)[0])] if fs and own else [])
    ws = [wrap("w%d" % i, vm.pick(*targets)) for i in range(vm.pick(0, 1, 2))]
    # Validators may stand before, between or behind the fields.
    ns = {"__module__": "m"}
    if ann:
        ns["__annotations__"] = SDict({"a0": fields.UInt8})
    first = bool(ws) and vm.pick(True, False)
    if ws and first:
        ns["w0"] = ws[0]
    ns.update(own)
    for i, w in enumerate(ws):
        ns.setdefault("w%d" % i, w)
    meta = "own" if ws else vm.pick("none", "own", "empty")
    dd = {"endian": any_value(vm, "default_endian"), "UInt16__endian": any_value(vm, "typed_endian")}
    attrs = {"__name__": "Sub", "__bases__": tuple([plain][:0 if ws else vm.pick(0, 1)] + parents)}
    if meta == "own":
        attrs["Meta"] = SomeClass({"argument_defaults": SDict(dict(dd))})
    elif meta == "empty":
        attrs["Meta"] = SomeClass({})
    c = SomeClass(attrs, SDict(ns))
    ns0 = dict(ns)
    r, e = raises(vm, "x", SM.from_class, [c])
    if nbases > 1:
        vm.cover("two parents")
        vm.prove("two parents are refused", z3.BoolVal(e is not None and issubclass(e.cls, errors.MultipleInheritanceError)))
    else:
        vm.prove("a class with at most one parent is accepted", z3.BoolVal(e is None))
    for m, f0, v0, s0 in metas:
        a = m.attrs
        vm.prove("the parent's fields are not changed", z3.BoolVal(items(a["components"]) == list(f0.items()) and a["num_own_fields"] == len(f0) and a["name"] == "Parent"))
        vm.prove("the parent's validators are not changed", z3.BoolVal([(k, elems(vm, v)) for k, v in items(a["field_validators"])] == list(v0.items()) and elems(vm, a["struct_validators"]) == s0))
        vm.prove("the parent's argument defaults are not changed", z3.BoolVal(items(a["argument_defaults"]) == [("endian", "parent's")]))
    vm.prove("the class body is not changed", z3.BoolVal(items(c.ns) == list(ns0.items())))
    if e is not None:
        return
    vm.cover("created")
    a = r.attrs
    vm.prove("the metadata is the class's own", z3.BoolVal(r is not m0 and a["name"] == "Sub"))
    vm.prove("the fields are the inherited ones, then its own", z3.BoolVal(items(a["components"]) == list(fs.items()) + list(own.items())))
    col = [x for x in vm.events if x[0] == "collect"]
    vm.prove("own fields are collected once, behind the inherited ones", z3.BoolVal(len(col) == 1 and col[0][2] is r and col[0][4] == list(fs) and items(col[0][1]) == list(ns0.items())))
    if col:
        off = 0 if not nbases else vm.parent_size
        vm.prove("their offsets continue at the end of the parent", z3.BoolVal(col[0][3] is None) if off is None else vm.to_val(col[0][3]) == vm.to_val(off))
    vm.prove("the number of own fields is recorded", z3.BoolVal(a["num_own_fields"] == len(own)))
    order = [w for w in ns.values() if w in ws]
    want = {n: list(fv.get(n, [])) + [w for w in order if n in w.attrs["field_names"]] for n in list(fs) + list(own)}
    for w in order:
        if "a0" in w.attrs["field_names"]:
            want.setdefault("a0", []).append(w)
    vm.prove("a field has the inherited validator methods, then those of the class", z3.BoolVal({k: elems(vm, v) for k, v in items(a["field_validators"])} == want))
    vm.prove("the structure has the inherited validators, then those of the class", z3.BoolVal(elems(vm, a["struct_validators"]) == sv + [w for w in order if not w.attrs["field_names"]]))
    d = items(a["argument_defaults"])
    wd = list(dd.items()) if meta == "own" else []
    vm.prove("the argument defaults are those of the class's Meta", z3.And(z3.BoolVal([x[0] for x in d] == [x[0] for x in wd]), *[vm.to_val(x[1]) == vm.to_val(y[1]) for x, y in zip(d, wd)]))
