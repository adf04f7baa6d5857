"""Small pieces of declarations: validator decorators (C09), registration of a class (C17), presence of bindings."""
import functools

from binobj import decorators

from .classes import *

VMW = decorators.ValidatorMethodWrapper


@unit("declare.validates", ["C09", "C17"], contracts=lambda: {functools.wraps: lambda vm, a, k: SFn("update", lambda vm, a, k: a[0])},
      under=["binobj.decorators.validates", "binobj.decorators.validates_struct", "binobj.decorators.ValidatorMethodWrapper.__init__", "binobj.decorators.ValidatorMethodWrapper.__call__"])
def u_validates(vm):
    """Up to three names of any text; any function."""
    reset(vm)
    res = any_value(vm, "result")
    fails = vm.pick(False, True)

    def body(vm, a, k):
        ev(vm, "called", list(a), dict(k))
        if fails:
            raise vm.pyerr(errors.ValidationError, "no", field=None)
        return res
    fn = SFn("validator", body)
    kind = vm.pick("struct", "one", "three", "none", "bare", "field", "mixed")
    names = []
    if kind == "struct":
        w, e = raises(vm, "x", decorators.validates_struct, [fn])
    else:
        name = lambda i: SStr(z3.Const("name%d" % i, StrS))
        names = {"one": [name(0)], "three": [name(0), name(1), name(2)], "none": [], "bare": [fn],
                 "field": [SObj(AbstractField, {"name": "f"})], "mixed": [name(0), SObj(AbstractField, {"name": "f"})]}[kind]
        d, e = raises(vm, "x", decorators.validates, list(names))
        if kind not in ("one", "three"):
            vm.cover("refused")
            vm.prove("only names are taken, and at least one", z3.BoolVal(e is not None and issubclass(e.cls, TypeError)))
            return
        vm.prove("names are taken", z3.BoolVal(e is None))
        if e is not None:
            return
        w, e = raises(vm, "x", d, [fn])
    vm.prove("the method is wrapped", z3.BoolVal(e is None and isinstance(w, SObj) and issubclass(w.cls, VMW)))
    if e is not None:
        return
    vm.cover("wrapped " + kind)
    got = vm.iterate(vm.getattr(w, "field_names"))
    vm.prove("exactly the names given, in order, are recorded", z3.And(z3.BoolVal(got is not None and len(list(got)) == len(names)),
             *[vm.to_val(x) == vm.to_val(y) for x, y in zip(list(got), names)]))
    args = [any_value(vm, "self"), any_value(vm, "field"), any_value(vm, "value")][:2 if kind == "struct" else 3]
    vm.events.clear()
    r, e = raises(vm, "x", w, args)
    calls = [x for x in vm.events if x[0] == "called"]
    vm.prove("calling it calls the method once, with just these arguments", z3.And(z3.BoolVal(len(calls) == 1 and len(calls[0][1]) == len(args) and not calls[0][2]),
             *([vm.to_val(x) == vm.to_val(y) for x, y in zip(calls[0][1], args)] if calls else [])))
    if e is None:
        vm.prove("what the method returns is returned, its failure is not hidden", z3.And(z3.BoolVal(not fails), vm.to_val(r) == res.t))
    else:
        vm.prove("it fails only if the method does", z3.BoolVal(fails and issubclass(e.cls, errors.ValidationError)))


class NewClass(SomeClass):
    pyvc_mro = structures.Struct.__mro__        # a class below Struct, for super()

    def pyvc_setattr(self, vm, name, v):
        self.attrs[name] = v
        ev(vm, "set", name, v)
        return True


PROTO = typing.Protocol.__init_subclass__
PROTO = getattr(PROTO, "__func__", PROTO)


def h_from_class(vm, args, kw):
    ev(vm, "from_class", args[-1])
    if not vm.accepts:
        raise vm.pyerr(errors.FieldRedefinedError, "no", field=None, struct=None)
    return vm.new_meta


@unit("declare.register", ["C17"], contracts=lambda: {SM.from_class.__func__: h_from_class, PROTO: lambda vm, a, k: None}, bounded="at most 3 fields",
      under=["binobj.structures.Struct.__init_subclass__"], assumes=["typing.Protocol.__init_subclass__ leaves the class's fields and metadata alone"])
def u_register(vm):
    reset(vm)
    vm.accepts = vm.pick(True, False)
    fs = {"f%d" % i: SObj(AbstractField, {"name": "f%d" % i}) for i in range(vm.pick(0, 1, 3))}
    vm.new_meta = SObj(SM, {"name": "S", "components": SDict(dict(fs)), "num_own_fields": len(fs)}, name="new metadata")
    old = SObj(SM, {"name": "P", "components": SDict({})}, name="the parent's metadata")
    c = NewClass({"__name__": "S", "__binobj_struct__": old}, SDict({}))
    r, e = raises(vm, "x", structures.Struct.__init_subclass__.__func__, [c])
    made = [x for x in vm.events if x[0] == "from_class"]
    vm.prove("the metadata is made once, for the new class", z3.BoolVal(len(made) == 1 and made[0][1] is c))
    if e is not None:
        vm.cover("refused")
        vm.prove("fails only if the metadata cannot be made", z3.BoolVal(not vm.accepts and issubclass(e.cls, errors.FieldRedefinedError)))
        return
    vm.cover("registered")
    vm.prove("the class gets its own metadata", z3.BoolVal(vm.accepts and c.attrs["__binobj_struct__"] is vm.new_meta))
    vm.prove("the parent's metadata is left alone", z3.BoolVal(items(old.attrs["components"]) == []))
    vm.prove("the fields stay what they are", z3.BoolVal(items(vm.new_meta.attrs["components"]) == list(fs.items())))
