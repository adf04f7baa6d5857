"""Logical sorts and symbolic values used by the verifier."""
import itertools
import z3

IntS = z3.IntSort()
BoolS = z3.BoolSort()
SeqS = z3.SeqSort(IntS)
StrS = z3.DeclareSort("Str")
ArrS = z3.ArraySort(IntS, IntS)

_V = z3.Datatype("Val")
_V.declare("VNone")
_V.declare("VUndef")
_V.declare("VDefault")
_V.declare("VNotPresent")
_V.declare("VInt", ("int_of", IntS))
_V.declare("VBool", ("bool_of", BoolS))
_V.declare("VBytes", ("bytes_of", SeqS))
_V.declare("VStr", ("str_of", StrS))
_V.declare("VObj", ("obj_of", IntS))
Val = _V.create()

DomS = z3.ArraySort(StrS, BoolS)
MapS = z3.ArraySort(StrS, Val)
LstS = z3.ArraySort(IntS, Val)


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


class Sym:
    """Base class of everything that isn't an ordinary Python value."""
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SBytes(Sym):
    """Immutable bytes as a z3 sequence of integers."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBytes(%s)" % self.t


class BList(Sym):
    """Immutable bytes of known length; a list of integer terms."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = list(e)

    def __repr__(self):
        return "BList(%s)" % self.e


class ABytes(Sym):
    """Immutable bytes as length + array."""
    __slots__ = ("n", "a")

    def __init__(self, n, a):
        self.n, self.a = n, a

    def __repr__(self):
        return "ABytes(%s)" % (self.n,)


class BArr(Sym):
    """A bytearray: mutable length + array."""
    __slots__ = ("n", "a")

    def __init__(self, n, a):
        self.n, self.a = n, a


class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SStr(%s)" % self.t


class SVal(Sym):
    """Any Python value; sentinels are distinguished constructors of the datatype."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SVal(%s)" % self.t


class SFloat(Sym):
    """Opaque float (an uninterpreted Val term)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Rational(Sym):
    """Exact quotient of an integer term by a positive integer constant.

    Only produced for int/int where the result feeds ceil/floor/trunc; valid because the
    driver proves the operands are below 2**53 or records the assumption."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


class SFn(Sym):
    """A callable supplied by the environment (validator, present function, ...)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "SFn(%s)" % self.name


_oid = itertools.count(1)


class SObj(Sym):
    """An instance of a real class, with its instance attributes.

    `lazy` may be a function (vm, name) -> value or NotImplemented consulted before the
    class is searched."""

    def __init__(self, cls, attrs=None, lazy=None, oid=None, name=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.lazy = lazy
        self.complete = False   # made by the real constructor
        self.oid = oid          # z3 term identifying the object when embedded in Val
        self.name = name

    def __repr__(self):
        return "SObj(%s)" % (self.name or self.cls.__name__)


class SSeq(Sym):
    """Immutable sequence of symbolic length; elem(k) gives the element at index term k."""
    __slots__ = ("n", "elem", "name", "kind", "tag")

    def __init__(self, n, elem, name="seq", kind=tuple, tag=None):
        self.tag = tag
        self.n, self.elem, self.name, self.kind = n, elem, name, kind


class SList(Sym):
    """list: concrete Python list, or (length, array of Val)."""

    def __init__(self, conc=None, n=None, a=None):
        self.conc = list(conc) if conc is not None else None
        self.n, self.a = n, a

    def __repr__(self):
        return "SList(%s)" % (self.conc if self.conc is not None else self.n)


class SDict(Sym):
    """dict: concrete Python dict (keys concrete), or domain/value arrays over Str."""

    def __init__(self, conc=None, dom=None, val=None, view=None):
        self.conc = dict(conc) if conc is not None else None
        self.dom, self.val = dom, val

    def __repr__(self):
        return "SDict(%s)" % (self.conc if self.conc is not None else "sym")


class SStream(Sym):
    """A binary stream.

    Input: `data` is the content from the position at which the stream was handed over,
    `pos` is relative to that; `base` is that absolute position.  Output: `data` is what
    has been written since.  `kind` is 'seq' (data: Seq) or 'arr' (data: Array, n)."""

    def __init__(self, data, pos, base, kind="seq", n=None, mode="r", name="stream"):
        self.data, self.pos, self.base, self.kind = data, pos, base, kind
        self.n, self.mode, self.name = n, mode, name


class Closure(Sym):
    def __init__(self, node, frame, name, defaults, kwdefaults, owner=None):
        self.node, self.frame, self.name = node, frame, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner
        self.attrs = {}


class Bound(Sym):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Partial(Sym):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Native(Sym):
    """A method of a modelled object: fn(vm, args, kwargs)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class SuperObj(Sym):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SIter(Sym):
    """A concrete iterator over interpreter values."""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = iter(it)


class SGen(Sym):
    """A generator object: the interpreter's own generator plus its frame."""

    def __init__(self, gen, frame):
        self.gen, self.frame, self.done = gen, frame, False
        self.consumer, self.cut = None, False


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc          # SObj whose cls is an exception class
        super().__init__(repr(exc))

    @property
    def cls(self):
        return self.exc.cls


class Unsupported(Exception):
    """The program left the subset the verifier understands."""


class PathEnd(BaseException):
    """This path is finished or infeasible."""


class Restart(BaseException):
    """Loop-invariant candidates changed; explore again."""


class OutOfTime(Exception):
    pass
