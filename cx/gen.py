"""Random declarations."""
import copy

from .model import *

EVEN = lambda v: not (isinstance(v, int) and v % 2)


def context(r):
    """A context: often falsy, never relevant but to conditions."""
    return r.choice([None, None, 1, 2, 1, 2, 0, "", False, {}, (), "c", {"k": 1}])


def odd(c):
    return isinstance(c, int) and c % 2 == 1


CTX_CONDS = [lambda get, ctx: odd(ctx), lambda get, ctx: ctx is not None, lambda get, ctx: ctx is None, lambda get, ctx: ctx == 0 and ctx is not None,
             lambda get, ctx: isinstance(ctx, (str, dict)), lambda get, ctx: bool(ctx)]


def ends(r):
    return r.choice(["big", "little", None])


def int_f(r, **o):
    n = o.pop("n", None) or r.choice([1, 1, 2, 2, 4, 8, 3, 5, 7, 16])
    return IntF(n=n, signed=o.pop("signed", r.random() < 0.5), endian=o.pop("endian", ends(r)), named=r.random() < 0.8, unsigned_cls=r.random() < 0.5, **o)


def vli_f(r, **o):
    return VliF(fmt=r.choice(list(VE)), **o)


def float_f(r, **o):
    return FloatF(fmt=r.choice("efd"), endian=ends(r), **o)


def big(r):
    """An unusually large size."""
    return min(2000, abs(r.choice([lit(r), lit(r), 127, 128, 255, 256, 257, 1023, 1024, 1025])))


def bytes_f(r, **o):
    if "size" not in o:
        o["size"] = r.randrange(0, 6) if r.random() < 0.97 else big(r)
    return BytesF(**o)


ENC = ["iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "shift_jis"]


def str_f(r, **o):
    if "size" not in o:
        o["size"] = r.randrange(0, 5) * 4 or 4
    return StrF(encoding=r.choice(ENC), pad=r.choice([None, b" ", b"\0", b"*"]) if o.pop("padok", False) else None, **o)


def strz_f(r, **o):
    sizes = o.pop("sizes", True)
    if sizes and "size" not in o and r.random() < 0.2:
        o["size"] = r.randrange(1, 4) * 4
        o["pad"] = r.choice([None, b" ", b"\0", b"x"])
    return StrZF(encoding=r.choice(ENC), **o)


def uuid_f(r, **o):
    return UuidF(layout=r.choice(["BINARY_VARIANT_1", "BINARY_VARIANT_2", "CANONICAL_STRING", "HEX_STRING"]), implicit=r.random() < 0.5, **o)


def ts_f(r, **o):
    n, res, sg = r.choice([(4, "s", True), (4, "s", False), (8, "s", True), (8, "ms", True), (8, "us", True), (8, "ns", True), (8, "us", False), (8, "ns", False), (6, "ms", True)])
    if r.random() < 0.4:
        n, res, sg = r.randrange(2, 9), r.choice(["s", "ms", "us", "ns"]), r.random() < 0.5
    return TsF(n=n, res=res, signed=sg, endian=ends(r), aware=r.random() < 0.7, explicit=r.random() < 0.5, named=r.random() < 0.5, **o)


def raw_f(r, **o):
    return RawF(**o)


SIMPLE = [int_f, int_f, int_f, vli_f, float_f, bytes_f, str_f, strz_f, uuid_f, ts_f, raw_f]
FIXED = [int_f, int_f, int_f, float_f, bytes_f, str_f, uuid_f, ts_f]


def simple(r, pool=SIMPLE, **o):
    return r.choice(pool)(r, **o)


def arr_f(r, depth=0, **o):
    k = r.random()
    ctxcond = o.pop("ctxcond", False)
    if k < 0.75 or depth > 1:
        c = simple(r, FIXED if r.random() < 0.5 else SIMPLE)
    elif k < 0.9:
        c = NestF(ss=small_ss(r, ctxcond=ctxcond))
    else:
        c = arr_f(r, depth + 1, count=r.randrange(0, 3))
    if "count" not in o:
        o["count"] = r.randrange(0, 4) if r.random() < 0.98 else big(r) % 400
    if c.null is UNSET and not isinstance(c, (ArrF, NestF, RawF)) and r.random() < 0.2:
        c.null = null_for(r, c)
    return ArrF(comp=c, **o)


def small_ss(r, depth=0, ctxcond=False):
    fs = [simple(r, FIXED + [strz_f, vli_f]) for _ in range(r.randrange(1, 4))]
    for i, f in enumerate(fs):
        f.name = "n%d" % i
    if r.random() < 0.3:
        with_default(r, fs[-1])
    if ctxcond and r.random() < 0.2:
        r.choice(fs).present = r.choice(CTX_CONDS)
    return SS(fs)


def nest_f(r, ctxcond=False, **o):
    return NestF(ss=small_ss(r, ctxcond=ctxcond), **o)


def with_default(r, f):
    v = f.value(r)
    k = r.random()
    if isinstance(f, (ArrF, NestF)):
        k /= 2   # never constant
    if k < 0.4 and not (isinstance(f, (ArrF, NestF)) and k > 0.1):
        f.default = v
    elif k < 0.8:
        f.factory = lambda v=v: copy.deepcopy(v)
    else:
        f.const = v
        if isinstance(f, (BytesF, StrF)) and not isinstance(f.size, tuple) and r.random() < 0.5:
            f.size = None
    return f


def const_to_default(f):
    f.default, f.const = f.const, UNSET
    if f.size is None and isinstance(f, (BytesF, StrF)) and not isinstance(f, StrZF):
        f.size = f.size_of(f.default)  # only a constant implies a size


def null_for(r, f):
    """A null representation that ordinary values rarely collide with."""
    s = f.own_size()
    k = r.random()
    if isinstance(f, (VliF, StrZF, RawF)):
        return r.choice([b"\x7e", b"zz"]) if not isinstance(f, RawF) else b"\xfe\xfe"
    if k < 0.35 and s:
        return DEFAULT
    if k < 0.6 and s:
        return bytes(r.choice([0xFF, 0xFE, 0x7A]) for _ in range(s))
    if k < 0.75:
        return b"\xfd" * r.randrange(1, 4)
    v = f.value(r)
    if isinstance(f, FloatF) and (v != v or not v):
        v = 1.0
    return v


def struct_ss(r, n=None, *, nulls=True, conds=True, refs=True, comps=True, dflts=True, nest=True, inherit=True, discards=True, ctxcond=True,
              fixed=False, npvs=True, raw=True, log=None, unsized=True, consts=True):
    """A random structure declaration, with up to two levels of inheritance."""
    n = n or r.randrange(1, 6)
    fs, i = [], 0
    pool = list(FIXED if fixed else SIMPLE)
    if not raw:
        pool = [p for p in pool if p is not raw_f]

    def add(f):
        nonlocal i
        f.name = "f%d" % i
        f.log = log
        i += 1
        fs.append(f)
        return f
    while i < n:
        k = r.random()
        if refs and not fixed and k < 0.22:
            # A size or count and what depends on it.
            pre = "f%d" % i
            how = r.choice(["name", "field"])
            kind = r.choice(["bytes", "str", "strz", "array"])
            cnt = int_f(r, n=r.choice([1, 2]), signed=False)
            if kind == "bytes":
                d = BytesF(size=(how, pre))
            elif kind == "str":
                d = StrF(size=(how, pre), encoding=r.choice(["ascii", "iso-8859-1", "utf-8"]))
            elif kind == "strz":
                d = StrZF(encoding="ascii")
            else:
                d = arr_f(r, count=(how, pre))
            add(cnt)
            if kind != "strz" and comps and r.random() < 0.4:
                dn = "f%d" % i
                if kind == "bytes":
                    cnt.compute = lambda get, dn=dn: len(get(dn))
                elif kind == "str":
                    cnt.compute = lambda get, dn=dn, e=d.encoding: len(get(dn).encode(e))
                else:
                    cnt.compute = lambda get, dn=dn: len(get(dn))
            add(d)
            continue
        if nest and k < 0.36:
            f = arr_f(r, ctxcond=ctxcond and not fixed) if r.random() < 0.6 else nest_f(r, ctxcond=ctxcond and not fixed)
            if fixed and f.own_size() is None:
                f = simple(r, pool)
        else:
            f = simple(r, pool)
        f = add(f)
        srcs = [g for g in fs[:-1] if g.present is None and not g.discard]
        if dflts and r.random() < 0.3 and not isinstance(getattr(f, "count", None), tuple):
            with_default(r, f)
            if not consts and f.const is not UNSET:
                const_to_default(f)
        elif comps and r.random() < 0.15 and isinstance(f, IntF) and f.default is UNSET and f.const is UNSET and srcs:
            src, m = r.choice(srcs).name, f.rng()[1]
            f.compute = lambda get, src=src, m=m: hash_val(get(src)) % min(m, 100)
        if nulls and r.random() < 0.25 and f.const is UNSET and not isinstance(f, (ArrF, NestF)):
            f.null = null_for(r, f)
            if unsized is False and f.null is DEFAULT and f.own_size() is None:
                f.null = UNSET
        if conds and r.random() < 0.25 and not any(refers(g, f.name) for g in fs):
            ints = [g for g in fs[:-1] if isinstance(g, IntF) and not g.discard and g.present is None]
            c = r.random()
            if ints and c < 0.55:
                g = r.choice(ints)
                f.present = lambda get, ctx, g=g: EVEN(get(g.name))
            elif ctxcond and c < 0.8:
                f.present = r.choice(CTX_CONDS)
            else:
                b = r.random() < 0.5
                f.present = lambda get, ctx, b=b: b
            if npvs and r.random() < 0.3 and f.null is UNSET:
                f.npv = r.choice([None, 0, "absent", False])
        if discards and r.random() < 0.2:
            f.discard = True
    if not inherit or r.random() < 0.6 or len(fs) < 2:
        return SS(fs)
    cut = r.randrange(1, len(fs))
    # A size and its user may be split over parent and child.
    p = SS(fs[:cut])
    if r.random() < 0.3 and cut > 1:
        c2 = r.randrange(1, cut)
        p = SS(fs[c2:cut], parent=SS(fs[:c2]))
    if r.random() < 0.2:
        p = SS([], parent=p)    # a level without fields of its own
    if r.random() < 0.1:
        q = p
        while q.parent:
            q = q.parent
        q.parent = SS([])
    s = SS(fs[cut:], parent=p)
    return SS([], parent=s) if r.random() < 0.1 else s


def refers(f, n):
    return isinstance(f.size, tuple) and f.size[1] == n or isinstance(f, ArrF) and isinstance(f.count, tuple) and f.count[1] == n


def hash_val(v):
    """A small deterministic number for any value."""
    if isinstance(v, bool) or v is None or v is NP:
        return 3
    if isinstance(v, int):
        return abs(v) % 97
    if isinstance(v, (bytes, str, list, tuple)):
        return len(v)
    return 5


def valid_values(r, ss, ctx=None, tries=20):
    """Values the structure accepts, with their dump; None if unlucky."""
    for _ in range(tries):
        v = ss.values(r)
        try:
            return v, ss.dump(v, ctx)
        except Refuse:
            continue
    return None, None
