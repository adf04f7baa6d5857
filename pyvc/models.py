"""Models of Python's built-in operations on symbolic values (part of the trusted base)."""
import ast
import codecs
import collections
import contextlib
import copy
import datetime as _datetime
import functools
import io
import math
import sys
import types
import typing
import uuid as _uuid
import warnings

import collections.abc
import z3

from . import engine
from .engine import (UNBOUND, band, b2i, bitlen, bor, dec_ok, decode, enc_ok, encode, i2b, pow2, rep, strcat)
from .terms import *
from .terms import I


# --------------------------------------------------------------------------------------
# Operators
# --------------------------------------------------------------------------------------
_native = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
}


def pow2_facts(vm, n):
    """Definitional facts about 2**n for a non-negative exponent term."""
    n = z3.simplify(n)
    if z3.is_int_value(n):
        v = n.as_long()
        if 0 <= v <= 4096:
            return z3.IntVal(1 << v)
    t = pow2(n)
    vm.fact1(("pow2", str(n)), lambda: z3.Implies(n >= 0, t >= 1))
    vm.fact1(("pow2lin", str(n)), lambda: z3.Implies(n >= 0, t > n))
    # pow2(a + c) = pow2(a) * 2**c
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ADD:
        cs = [c for c in n.children() if z3.is_int_value(c)]
        if cs and cs[0].as_long() > 0:
            c = cs[0].as_long()
            rest = [x for x in n.children() if not z3.is_int_value(x)]
            r = rest[0] if len(rest) == 1 else z3.Sum(rest)
            vm.fact1(("pow2add", str(n)), lambda: z3.Implies(r >= 0, t == pow2(z3.simplify(r)) * (1 << c)))
    return t


def const_int(t):
    t = z3.simplify(I(t))
    return t.as_long() if z3.is_int_value(t) else None


def is_pow2_minus1(t):
    """n if t is syntactically pow2(n) - 1, else None."""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and t.num_args() == 2:
        a, b = t.children()
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(x) and x.as_long() == -1 and z3.is_app(y) and y.decl().eq(pow2):
                return y.arg(0)
    return None


def bit_and(vm, a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return z3.IntVal(ca & cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 0:
            return z3.IntVal(0)
        if cb > 0 and (cb & (cb + 1)) == 0:          # 2**n - 1
            return a % (cb + 1)
        if cb > 0:
            # A sum over the set bits: each run of ones is (a div 2**lo mod 2**len) * 2**lo.
            out, i = z3.IntVal(0), 0
            while (cb >> i):
                if (cb >> i) & 1:
                    j = i
                    while (cb >> j) & 1:
                        j += 1
                    out = out + ((a / (1 << i)) % (1 << (j - i))) * (1 << i)
                    i = j
                else:
                    i += 1
            return out
        if cb < 0 and ((-cb) & (-cb - 1)) == 0:      # clears the low bits
            return a - a % (-cb)
    n = is_pow2_minus1(b)
    if n is None and is_pow2_minus1(a) is not None:
        a, b = b, a
        n = is_pow2_minus1(b)
    if n is not None:
        p = pow2_facts(vm, n)
        r = band(a, b)
        vm.fact1(("bandp", str(a), str(n)), lambda: z3.And(
            0 <= r, r < p, z3.Implies(z3.And(0 <= a, a < p), r == a),
            z3.Implies(z3.And(a < 0, a >= -p), r == a + p)))
        return r
    r = band(a, b)
    vm.fact1(("band", str(a), str(b)), lambda: z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a, r <= b)))
    return r


def bit_or(vm, a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return z3.IntVal(ca | cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    for x, y in ((a, b), (b, a)):
        # x multiple of 2**n and 0 <= y < 2**n: disjoint.
        c = const_int(x)
        if c is not None and c > 0:
            low = c & -c
            if vm.valid(z3.And(y >= 0, y < low)):
                return x + y
            if vm.valid(z3.And(y >= 0, y < 256)) and c < 256:
                # Set the bits of c that are not set yet.
                out = y
                for i in range(8):
                    if (c >> i) & 1:
                        out = out + (1 << i) * (1 - (y / (1 << i)) % 2)
                return out
        sh = shift_amount(x)
        if sh is not None:
            p = pow2_facts(vm, sh) if const_int(sh) is None else z3.IntVal(1 << const_int(sh))
            if vm.valid(z3.And(y >= 0, y < p)):
                return x + y
    # Both 8-bit: split into constant multiple of a power of two.
    for x, y in ((a, b), (b, a)):
        for n in (7, 6, 5, 4, 8, 3, 2, 1):
            if vm.valid(z3.And(y >= 0, y < (1 << n), x % (1 << n) == 0)):
                return x + y
    r = bor(a, b)
    vm.fact1(("bor", str(a), str(b)), lambda: z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= a, r >= b, r <= a + b)))
    return r


_shl = z3.Function("shl_tag", IntS, IntS, IntS)
_shifts = {}


def shift_amount(x):
    return _shifts.get(x.get_id(), (None, None))[1]


def note_shift(t, n):
    _shifts[t.get_id()] = (t, n)
    return t


def binop(vm, op, a, b, inplace=False):
    T = type(op)
    h = getattr(a, "pyvc_binop", None)
    if h is not None:
        return h(vm, T, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, (SObj,)) or isinstance(b, SObj):
            raise Unsupported("operator on objects")
        try:
            return _native[T](a, b)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            raise vm.pyerr(type(e), str(e))
    # bytes
    if T is ast.Add and (vm.isbytes(a) or vm.isbytes(b) or isinstance(a, BArr)):
        if isinstance(a, BArr):
            if not inplace:
                raise Unsupported("bytearray concatenation")
            barr_extend(vm, a, b)
            return a
        if isinstance(a, (BList, bytes)) and isinstance(b, (BList, bytes)):
            el = lambda x: list(x) if isinstance(x, bytes) else x.e
            return BList([I(x) for x in el(a) + el(b)])
        sa, sb = vm.seq(a), vm.seq(b)
        return mkbytes(z3.Concat(sa, sb))
    if T is ast.Mult and (vm.isbytes(a) or vm.isbytes(b)):
        if vm.isbytes(b):
            a, b = b, a
        n = vm.int_t(b)
        return repeat_bytes(vm, a, n)
    # strings
    if T is ast.Add and (isinstance(a, (SStr, str)) or isinstance(b, (SStr, str))):
        if isinstance(a, SVal) or isinstance(b, SVal) or True:
            return SStr(strcat(vm.str_t(a), vm.str_t(b)))
    if T is ast.Mod and isinstance(a, (str, SStr)):
        return SStr(vm.fresh("fmt", StrS))
    # lists
    if T is ast.Add and isinstance(a, SList) and isinstance(b, SList):
        if a.conc is not None and b.conc is not None:
            if inplace:
                a.conc.extend(b.conc)
                return a
            return SList(a.conc + b.conc)
        if b.conc is not None:
            r = a if inplace else SList(n=a.n, a=a.a)
            for x in b.conc:
                list_append(vm, r, x)
            return r
    if T is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if T is ast.BitOr and isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        d = SDict({}) if not inplace else a
        if not inplace:
            dict_update(vm, d, a)
        dict_update(vm, d, b)
        return d
    h = keyset_binop(vm, T, a, b)
    if h is not NotImplemented:
        return h
    # objects with operators
    if isinstance(a, SObj) or isinstance(b, SObj):
        h = obj_binop(vm, T, a, b)
        if h is not NotImplemented:
            return h
    if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)) or isinstance(a, Rational) or isinstance(b, Rational):
        return float_binop(vm, T, a, b)
    # Bound: set operations on keys etc.
    if not all(isinstance(x, (SInt, SBool, int, SVal)) for x in (a, b)):
        for x in (a, b):
            if x is None or isinstance(x, (str, bytes, SBytes, SStr)) or vm.sentinel_term(x) is not None:
                raise vm.pyerr(TypeError, "unsupported operand types")
        raise Unsupported("%s of %r and %r" % (T.__name__, a, b))
    x, y = vm.int_t(a), vm.int_t(b)
    if T is ast.Add:
        return vm.mkint(x + y)
    if T is ast.Sub:
        return vm.mkint(x - y)
    if T is ast.Mult:
        r = x * y
        return vm.mkint(r)
    if T in (ast.FloorDiv, ast.Mod):
        c = const_int(y)
        if c is not None and c > 0:
            return vm.mkint(x / c if T is ast.FloorDiv else x % c)
        if c == 0 or (c is None and vm.branch(y == 0)):
            raise vm.pyerr(ZeroDivisionError, "division by zero")
        if c is not None and c < 0:
            return vm.mkint((-x) / (-c) if T is ast.FloorDiv else -((-x) % (-c)))
        if vm.branch(y > 0):
            return vm.mkint(x / y if T is ast.FloorDiv else x % y)
        return vm.mkint((-x) / (-y) if T is ast.FloorDiv else -((-x) % (-y)))
    if T is ast.LShift:
        c = const_int(y)
        if c is not None:
            if c < 0:
                raise vm.pyerr(ValueError, "negative shift count")
            t = z3.simplify(x * (1 << c))
            note_shift(t, z3.IntVal(c))
            return SInt(t) if const_int(t) is None else vm.mkint(t)
        if vm.branch(y < 0):
            raise vm.pyerr(ValueError, "negative shift count")
        p = pow2_facts(vm, y)
        t = z3.simplify(x * p)
        note_shift(t, y)
        return SInt(t)
    if T is ast.RShift:
        c = const_int(y)
        if c is not None:
            if c < 0:
                raise vm.pyerr(ValueError, "negative shift count")
            return vm.mkint(x / (1 << c))
        if vm.branch(y < 0):
            raise vm.pyerr(ValueError, "negative shift count")
        return vm.mkint(x / pow2_facts(vm, y))
    if T is ast.BitAnd:
        return vm.mkint(bit_and(vm, x, y))
    if T is ast.BitOr:
        if isinstance(a, SInt):
            x = a.t
        if isinstance(b, SInt):
            y = b.t
        return vm.mkint(bit_or(vm, x, y))
    if T is ast.BitXor:
        cx, cy = const_int(x), const_int(y)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None and cy > 0:
            # x ^ c = (x | c) - (x & c)
            return vm.mkint(bit_or(vm, x, y) - bit_and(vm, x, y))
        raise Unsupported("xor")
    if T is ast.Pow:
        cx, cy = const_int(x), const_int(y)
        if cy is not None and 0 <= cy <= 8:
            r = z3.IntVal(1)
            for _ in range(cy):
                r = r * x
            return vm.mkint(r)
        if cx == 2:
            if vm.branch(y < 0):
                raise Unsupported("negative power")
            return vm.mkint(pow2_facts(vm, y))
        raise Unsupported("power")
    if T is ast.Div:
        c = const_int(y)
        if c is not None and c > 0:
            vm.assumptions.add("float division int/int followed by rounding is treated as exact (operands below 2**53)")
            return Rational(x, c)
        raise Unsupported("true division")
    raise Unsupported("operator %s" % T.__name__)


def keyset_binop(vm, T, a, b):
    if not (isinstance(a, (SymKeySet, KeysView)) or isinstance(b, (SymKeySet, KeysView))) or T not in (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor):
        return NotImplemented
    x, y = keyset(vm, a).dom, keyset(vm, b).dom
    i = vm.nfresh.get("kset", 0)
    vm.nfresh["kset"] = i + 1
    d = z3.Const("key_set!%d" % i, DomS)
    body = {ast.Sub: lambda s: z3.And(x[s], z3.Not(y[s])), ast.BitAnd: lambda s: z3.And(x[s], y[s]),
            ast.BitOr: lambda s: z3.Or(x[s], y[s]), ast.BitXor: lambda s: x[s] != y[s]}[T]
    vm.assume(vm.forall_s(lambda s: d[s] == body(s), lambda s: [d[s]]))
    return SymKeySet(d)


def keyset_compare(vm, T, a, b):
    x, y = keyset(vm, a).dom, keyset(vm, b).dom
    le, ge = vm.forall_s(lambda s: z3.Implies(x[s], y[s])), vm.forall_s(lambda s: z3.Implies(y[s], x[s]))
    return vm.mkbool({ast.LtE: le, ast.GtE: ge, ast.Lt: z3.And(le, z3.Not(ge)), ast.Gt: z3.And(ge, z3.Not(le))}[T])


def obj_binop(vm, T, a, b):
    names = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.FloorDiv: ("__floordiv__", "__rfloordiv__"),
             ast.Mult: ("__mul__", "__rmul__"), ast.BitOr: ("__or__", "__ror__")}
    n = names.get(T)
    if n is None:
        return NotImplemented
    if isinstance(a, SObj):
        m = vm.find_class_attr(a.cls, n[0])
        if isinstance(m, (types.FunctionType, SFn, Native)):
            return vm.call(Bound(m, a), [b], {})
    if isinstance(b, SObj):
        m = vm.find_class_attr(b.cls, n[1])
        if isinstance(m, (types.FunctionType, SFn, Native)):
            return vm.call(Bound(m, b), [a], {})
    return NotImplemented


def float_binop(vm, T, a, b):
    if isinstance(a, Rational) and isinstance(b, (int, SInt)) and T in (ast.Add, ast.Sub):
        y = vm.int_t(b)
        return Rational(a.n + y * a.d if T is ast.Add else a.n - y * a.d, a.d)
    if isinstance(b, Rational) and isinstance(a, (int, SInt)) and T is ast.Add:
        return float_binop(vm, T, b, a)
    vm.havocked = True      # over-approximated: a refutation from here on isn't definite
    f = z3.Function("float_%s" % T.__name__, Val, Val, Val)
    return SFloat(f(fval(vm, a), fval(vm, b)))


def fval(vm, x):
    if isinstance(x, Rational):
        f = z3.Function("rational", IntS, IntS, Val)
        return f(x.n, z3.IntVal(x.d))
    if isinstance(x, float):
        return z3.Const("float:%r" % x, Val)
    return vm.to_val(x)


def mkbytes(t):
    return SBytes(z3.simplify(t))


def repeat_bytes(vm, x, n):
    c = const_int(n)
    if isinstance(x, bytes) and c is not None:
        return x * c
    if isinstance(x, BList) and c is not None and c < 64:
        return BList(x.e * max(0, c))
    if isinstance(x, bytes) and len(x) == 1:
        b = z3.IntVal(x[0])
    elif isinstance(x, BList) and len(x.e) == 1:
        b = I(x.e[0])
    elif isinstance(x, (SBytes, SVal)):
        s = vm.seq(x)
        if not vm.valid(z3.Length(s) == 1):
            raise Unsupported("repetition of byte strings of unknown length")
        b = s[0]
    else:
        raise Unsupported("repetition of byte strings")
    t = rep(b, n)
    vm.fact1(("rep", str(b), str(n)), lambda: z3.Length(t) == z3.If(n > 0, n, z3.IntVal(0)))
    return SBytes(t)


def unop(vm, op, a):
    T = type(op)
    if T is ast.Not:
        t = vm.truth_t(a)
        return (not t) if isinstance(t, bool) else vm.mkbool(z3.Not(t))
    if not isinstance(a, Sym):
        try:
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[T](a)
        except TypeError as e:
            raise vm.pyerr(TypeError, str(e))
    x = vm.int_t(a)
    if T is ast.USub:
        return vm.mkint(-x)
    if T is ast.UAdd:
        return vm.mkint(x)
    return vm.mkint(-x - 1)


def compare(vm, op, a, b):
    T = type(op)
    if T is ast.Is:
        return vm.mkbool(vm.ident(a, b))
    if T is ast.IsNot:
        r = vm.ident(a, b)
        return (not r) if isinstance(r, bool) else vm.mkbool(z3.Not(r))
    if T is ast.Eq:
        return vm.mkbool(vm.eq(a, b))
    if T is ast.NotEq:
        r = vm.eq(a, b)
        return (not r) if isinstance(r, bool) else vm.mkbool(z3.Not(r))
    if T is ast.In:
        return vm.mkbool(contains(vm, b, a))
    if T is ast.NotIn:
        r = contains(vm, b, a)
        return (not r) if isinstance(r, bool) else vm.mkbool(z3.Not(r))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                    ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[T](a, b)
        except TypeError as e:
            raise vm.pyerr(TypeError, str(e))
    if isinstance(a, Rational) and isinstance(b, (int, SInt)):
        x, y = a.n, vm.int_t(b) * a.d
    elif isinstance(b, Rational) and isinstance(a, (int, SInt)):
        x, y = vm.int_t(a) * b.d, b.n
    elif isinstance(a, (SymKeySet, KeysView)) or isinstance(b, (SymKeySet, KeysView)):
        return keyset_compare(vm, T, a, b)
    elif isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
        vm.havocked = True
        f = z3.Function("float_%s" % T.__name__, Val, Val, BoolS)
        return SBool(f(fval(vm, a), fval(vm, b)))
    else:
        x, y = vm.int_t(a), vm.int_t(b)
    return vm.mkbool({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[T]())


def contains(vm, c, x):
    """`x in c` as bool or z3 Bool."""
    if isinstance(c, SDict):
        if c.conc is not None:
            if not isinstance(x, Sym):
                return x in c.conc
            if not c.conc:
                return False
            return z3.Or(*[vm.z(vm.eq(k, x)) for k in c.conc])
        return c.dom[key_t(vm, x)]
    if isinstance(c, (tuple, list)) or (isinstance(c, SList) and c.conc is not None):
        es = list(c) if not isinstance(c, SList) else c.conc
        ts = []
        for e in es:
            try:
                i = vm.ident(x, e)
            except Unsupported:
                i = False
            if i is True:
                return True
            q = vm.eq(x, e)
            if q is True:
                return True
            ts += [vm.z(i), vm.z(q)]
        return z3.Or(*ts) if ts else False
    if isinstance(c, (set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "mappingproxy"):
        if not isinstance(x, Sym):
            return x in c
        return z3.Or(*[vm.z(vm.eq(x, e)) for e in c]) if len(c) else False
    if isinstance(c, (str, bytes)) and not isinstance(x, Sym):
        return x in c
    if isinstance(c, SObj):
        m = vm.find_class_attr(c.cls, "__contains__")
        if isinstance(m, (types.FunctionType, SFn, Native)):
            return vm.truth_t(vm.call(Bound(m, c), [x], {}))
        it = vm.find_class_attr(c.cls, "__iter__")
        if it is not UNBOUND:
            return contains_iter(vm, c, x)
        raise vm.pyerr(TypeError, "argument is not iterable")
    if isinstance(c, SSeq):
        h = getattr(c, "contains", None)
        raise Unsupported("membership in a symbolic sequence")
    if isinstance(c, SVal) or c is None or vm.is_int(c):
        if isinstance(c, SVal):
            raise Unsupported("membership in an opaque value")
        raise vm.pyerr(TypeError, "argument is not iterable")
    h = getattr(c, "pyvc_contains", None)
    if h is not None:
        return h(vm, x)
    raise Unsupported("membership in %r" % (c,))


def contains_iter(vm, c, x):
    h = vm.stubs.get((c.cls, "iter_contains"))
    if h is not None:
        return h(vm, c, x)
    it = vm.iterate(c)
    if it is None:
        raise Unsupported("membership by iteration")
    for e in it:
        if vm.branch(vm.eq(e, x)):
            return True
    return False


def key_t(vm, k):
    if isinstance(k, (str, SStr)):
        return vm.str_t(k)
    if isinstance(k, SVal):
        return vm.str_t(k)
    raise Unsupported("dictionary key %r" % (k,))


# --------------------------------------------------------------------------------------
# Subscripts
# --------------------------------------------------------------------------------------
def getitem(vm, o, i):
    if isinstance(o, SDict):
        return dict_get(vm, o, i)
    if isinstance(o, SList):
        if o.conc is not None:
            if isinstance(i, (int, slice)):
                try:
                    r = o.conc[i]
                except IndexError:
                    raise vm.pyerr(IndexError, "list index out of range")
                return SList(r) if isinstance(i, slice) else r
            vm.symbolize(o)
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        k = norm_index(vm, i, o.n)
        return vm.from_val(o.a[k])
    if isinstance(o, SSeq):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        k = norm_index(vm, i, o.n)
        return o.elem(k)
    if isinstance(o, BArr):
        if isinstance(i, slice):
            if i.start is None and i.step is None and i.stop is None:
                return BArr(o.n, o.a)
            if i.start is None and i.stop is None and i.step == -1:
                n, a0 = o.n, o.a
                return reversed_arr(vm, n, a0)
            raise Unsupported("slice of a bytearray")
        k = norm_index(vm, i, o.n)
        b = o.a[k]
        return vm.mkint(b)
    if isinstance(o, BList):
        if isinstance(i, int):
            try:
                return vm.mkint(I(o.e[i]))
            except IndexError:
                raise vm.pyerr(IndexError, "index out of range")
        if isinstance(i, slice):
            try:
                return BList(o.e[i])
            except TypeError:
                pass
        o = SBytes(vm.seq(o))
    if isinstance(o, ABytes):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step == -1:
                r = reversed_arr(vm, o.n, o.a)
                return ABytes(r.n, r.a)
            raise Unsupported("slice of array bytes")
        return vm.mkint(o.a[norm_index(vm, i, o.n)])
    if isinstance(o, (bytes, SBytes)) and (isinstance(o, SBytes) or isinstance(i, Sym) or (isinstance(i, slice) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)))):
        t = vm.seq(o)
        if isinstance(i, slice):
            return slice_bytes(vm, t, i)
        k = norm_index(vm, i, z3.Length(t))
        return vm.byte_at(t, k)
    if isinstance(o, SVal):
        if vm.branch(Val.is_VBytes(o.t)):
            return getitem(vm, SBytes(Val.bytes_of(o.t)), i)
        if vm.branch(z3.Or(Val.is_VNone(o.t), Val.is_VInt(o.t), Val.is_VUndef(o.t), Val.is_VNotPresent(o.t))):
            raise vm.pyerr(TypeError, "not subscriptable")
        raise Unsupported("subscript of an opaque value")
    if isinstance(o, SObj):
        m = vm.find_class_attr(o.cls, "__getitem__")
        if m is not UNBOUND:
            return vm.call(Bound(m, o), [i], {})
        raise vm.pyerr(TypeError, "not subscriptable")
    h = getattr(o, "pyvc_getitem", None)
    if h is not None:
        return h(vm, i)
    if isinstance(o, Sym):
        raise Unsupported("subscript of %r" % (o,))
    if isinstance(i, Sym):
        if isinstance(o, dict):
            for k in o:
                if vm.branch(vm.z(vm.eq(k, i))):
                    return o[k]
            raise vm.pyerr(KeyError, "key")
        if isinstance(o, (tuple, list)):
            n = z3.IntVal(len(o))
            k = norm_index(vm, i, n)
            for j, x in enumerate(o):
                if vm.branch(k == j):
                    return x
            raise PathEnd()
        raise Unsupported("symbolic subscript")
    try:
        return o[i]
    except (KeyError, IndexError, TypeError) as e:
        raise vm.pyerr(type(e), str(e))


def reversed_arr(vm, n, a0):
    r = vm.fresh("rev", ArrS)
    j = z3.Int("j!rev")
    vm.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), r[j] == a0[n - 1 - j]), patterns=[r[j]]))
    vm.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a0[j] == r[n - 1 - j]), patterns=[a0[j]]))
    return BArr(n, r)


def norm_index(vm, i, n):
    t = vm.int_t(i)
    c = const_int(t)
    if c is not None:
        if c < 0:
            t = z3.simplify(n + c)
    elif vm.branch(t < 0):
        t = t + n
    if not vm.branch(z3.And(0 <= t, t < n)):
        raise vm.pyerr(IndexError, "index out of range")
    return t


def slice_bytes(vm, t, s):
    n = z3.Length(t)
    if s.step is not None and s.step != 1:
        raise Unsupported("slice step")

    def clamp(x, default):
        if x is None:
            return default
        y = vm.int_t(x)
        c = const_int(y)
        if c is not None and c >= 0:
            return z3.If(y > n, n, y)
        if c is not None:
            return z3.If(y + n < 0, z3.IntVal(0), y + n)
        return z3.If(y < 0, z3.If(y + n < 0, z3.IntVal(0), y + n), z3.If(y > n, n, y))
    a, b = clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)
    a, b = z3.simplify(a), z3.simplify(b)
    ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    r = z3.SubSeq(t, a, ln)
    vm.assume(z3.Length(r) == ln)
    return SBytes(r)


def setitem(vm, o, i, v):
    if isinstance(o, SDict):
        if o.conc is not None:
            if not isinstance(i, Sym) and all(not isinstance(k, Sym) for k in o.conc):
                o.conc[i] = v
                return
            if isinstance(i, (SStr, SVal, str)):
                vm.symbolize(o)
            else:
                # e.g. keys that are objects
                for k in list(o.conc):
                    if k is i:
                        o.conc[k] = v
                        return
                raise Unsupported("dictionary key %r" % (i,))
        k = key_t(vm, i)
        o.dom = z3.Store(o.dom, k, z3.BoolVal(True))
        o.val = z3.Store(o.val, k, vm.to_val(v))
        return
    if isinstance(o, BArr):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        k = norm_index(vm, i, o.n)
        b = vm.int_t(v)
        if not vm.branch(z3.And(0 <= b, b < 256)):
            raise vm.pyerr(ValueError, "byte must be in range(0, 256)")
        o.a = z3.Store(o.a, k, b)
        return
    if isinstance(o, SList):
        if o.conc is not None and isinstance(i, int):
            try:
                o.conc[i] = v
            except IndexError:
                raise vm.pyerr(IndexError, "list assignment index out of range")
            return
        vm.symbolize(o)
        k = norm_index(vm, i, o.n)
        o.a = z3.Store(o.a, k, vm.to_val(v))
        return
    if isinstance(o, SObj):
        m = vm.find_class_attr(o.cls, "__setitem__")
        if m is not UNBOUND:
            vm.call(Bound(m, o), [i, v], {})
            return
    if isinstance(o, (bytes, str, tuple, SBytes, SStr, BList, ABytes)):
        raise vm.pyerr(TypeError, "does not support item assignment")
    h = getattr(o, "pyvc_setitem", None)
    if h is not None:
        h(vm, i, v)
        return
    raise Unsupported("item assignment on %r" % (o,))


def delitem(vm, o, i):
    if isinstance(o, SDict):
        if o.conc is not None and not isinstance(i, Sym):
            if i not in o.conc:
                raise vm.pyerr(KeyError, i)
            del o.conc[i]
            return
        vm.symbolize(o)
        k = key_t(vm, i)
        if not vm.branch(o.dom[k]):
            raise vm.pyerr(KeyError, "key")
        o.dom = z3.Store(o.dom, k, z3.BoolVal(False))
        return
    if isinstance(o, SObj):
        m = vm.find_class_attr(o.cls, "__delitem__")
        if m is not UNBOUND:
            vm.call(Bound(m, o), [i], {})
            return
    if isinstance(o, SList) and o.conc is not None and isinstance(i, int):
        del o.conc[i]
        return
    raise Unsupported("del on %r" % (o,))


def dict_get(vm, o, i, default=UNBOUND):
    if o.conc is not None:
        if not isinstance(i, Sym):
            if i in o.conc:
                return o.conc[i]
        else:
            for k in o.conc:
                if vm.branch(vm.z(vm.eq(k, i))):
                    return o.conc[k]
    else:
        k = key_t(vm, i)
        if vm.branch(o.dom[k]):
            return vm.from_val(o.val[k])
    if default is UNBOUND:
        raise vm.pyerr(KeyError, "key")
    return default


def dict_update(vm, d, other):
    if isinstance(other, dict):
        for k, v in other.items():
            setitem(vm, d, k, v)
        return
    if isinstance(other, SDict):
        if other.conc is not None:
            for k, v in list(other.conc.items()):
                setitem(vm, d, k, v)
            return
        if d.conc == {}:
            d.conc, d.dom, d.val = None, other.dom, other.val
            return
        vm.symbolize(d)
        k = z3.Const("k!upd", StrS)
        d.dom, d.val = merge(vm, other.dom, other.val, d.dom, d.val)
        return
    m = as_mapping(vm, other)
    dict_update(vm, d, m)


def merge(vm, d1, v1, d2, v2):
    """Dictionary union where the first operand wins."""
    dom = vm.fresh("mdom", DomS)
    val = vm.fresh("mval", MapS)
    vm.assume(vm.forall_s(lambda k: dom[k] == z3.Or(d1[k], d2[k]), lambda k: [dom[k]]))
    vm.assume(vm.forall_s(lambda k: val[k] == z3.If(d1[k], v1[k], v2[k]), lambda k: [val[k]]))
    return dom, val


MDOM = z3.Function("mapping_keys", Val, DomS)
MVAL = z3.Function("mapping_values", Val, MapS)


def as_mapping(vm, x):
    """Snapshot of a mapping-like object as SDict."""
    if isinstance(x, SVal) and vm.valid(val_isinstance(vm, x.t, collections.abc.Mapping)):
        return SDict(None, MDOM(x.t), MVAL(x.t))
    if isinstance(x, SDict):
        return x
    if isinstance(x, dict):
        return SDict(x)
    h = getattr(x, "pyvc_mapping", None)
    if h is not None:
        return h(vm)
    if isinstance(x, SObj):
        for c in x.cls.__mro__:
            h = vm.stubs.get((c, "as_mapping"))
            if h is not None:
                return h(vm, x)
    raise Unsupported("%r as a mapping" % (x,))


def list_append(vm, l, v):
    if l.conc is not None:
        l.conc.append(v)
        return
    l.a = z3.Store(l.a, l.n, vm.to_val(v))
    l.n = l.n + 1


def barr_extend(vm, a, b):
    if isinstance(b, (bytes, BList)):
        for x in (list(b) if isinstance(b, bytes) else b.e):
            a.a = z3.Store(a.a, a.n, I(x))
            a.n = z3.simplify(a.n + 1)
        return
    raise Unsupported("extending a bytearray")


# --------------------------------------------------------------------------------------
# Methods
# --------------------------------------------------------------------------------------
def method(vm, o, name):
    if isinstance(o, SStream):
        f = _stream.get(name)
        if getattr(o, "closed", False) and f is not None:
            raise vm.pyerr(ValueError, "I/O operation on closed file.")
    elif isinstance(o, (SInt, SBool)) or (isinstance(o, int) and name in ("to_bytes",)):
        f = _int.get(name)
    elif isinstance(o, (SBytes, BList, ABytes)) or (isinstance(o, bytes) and name == "decode"):
        f = _bytes.get(name)
    elif isinstance(o, BArr):
        f = _barr.get(name)
    elif isinstance(o, SStr) or (isinstance(o, str) and name == "encode"):
        f = _str.get(name)
    elif isinstance(o, SDict):
        f = _dict.get(name)
    elif isinstance(o, SList):
        f = _list.get(name)
    elif isinstance(o, SFloat):
        f = _float.get(name)
    else:
        f = None
    if f is None:
        h = getattr(o, "pyvc_method", None)
        if h is not None:
            return h(vm, name)
        return NotImplemented
    return Native(name, lambda vm, args, kw: f(vm, o, *args, **kw))


# ---- streams
def avail(s):
    n = z3.Length(s.data) if s.kind == "seq" else s.n
    return z3.simplify(n - s.pos)


def st_read(vm, s, n=None):
    if s.mode == "w":
        raise Unsupported("reading an output stream")
    if n is None:
        n = -1
    nt = vm.int_t(n)
    av = avail(s)
    c = const_int(nt)
    if s.kind == "arr":
        if c is None:
            raise Unsupported("symbolic read from an array stream")
        if c < 0:
            raise Unsupported("read-all from an array stream")
        for k in range(c, -1, -1):
            if k == 0 or vm.branch(av >= k):
                out = []
                for i in range(k):
                    b = s.data[s.pos + i]
                    vm.assume(z3.And(b >= 0, b < 256))
                    out.append(z3.simplify(b))
                s.pos = z3.simplify(s.pos + k)
                return BList(out)
    if c is not None and c < 0 or (c is None and vm.branch(nt < 0)):
        ln = z3.simplify(z3.If(av > 0, av, z3.IntVal(0)))
    else:
        ln = z3.simplify(z3.If(av <= 0, z3.IntVal(0), z3.If(nt <= av, nt, av)))
    r = z3.SubSeq(s.data, s.pos, ln)
    vm.assume(z3.Length(r) == ln)
    s.pos = z3.simplify(s.pos + ln)
    return SBytes(r)


def st_write(vm, s, b):
    if isinstance(b, ABytes):
        raise Unsupported("writing array bytes")
    t = vm.seq(b)
    n = z3.Length(t)
    cur = z3.Length(s.data)
    if not vm.valid(s.pos == cur):
        raise Unsupported("overwriting stream contents")
    s.data = z3.simplify(z3.Concat(s.data, t))
    s.pos = z3.simplify(s.pos + n)
    vm.assume(z3.Length(s.data) == s.pos)
    return vm.mkint(n)


def st_tell(vm, s):
    return vm.mkint(s.base + s.pos)


def st_seek(vm, s, off, whence=0):
    o = vm.int_t(off)
    if whence == 0:
        new = o - s.base
    elif whence == 1:
        new = s.pos + o
    elif whence == 2:
        n = z3.Length(s.data) if s.kind == "seq" else s.n
        new = n + o
    else:
        raise Unsupported("whence")
    new = z3.simplify(new)
    if s.mode == "r" and not vm.valid(new >= 0):
        # Before the point where the stream was handed over (or before its start).
        if vm.branch(s.base + new < 0):
            raise vm.pyerr(ValueError, "negative seek value")
        if vm.branch(new < 0):
            raise Unsupported("seek before the starting position")
    s.pos = new
    return vm.mkint(s.base + new)


def st_getvalue(vm, s):
    if s.kind == "arr":
        return ABytes(s.n, s.data)
    return SBytes(s.data)


def st_close(vm, s):
    s.closed = True


_stream = {"read": st_read, "write": st_write, "tell": st_tell, "seek": st_seek, "getvalue": st_getvalue,
           "close": st_close, "flush": lambda vm, s: None,
           "readable": lambda vm, s: True, "seekable": lambda vm, s: True}


# ---- integers
def int_bit_length(vm, o):
    x = vm.int_t(o)
    a = z3.If(x < 0, -x, x)
    t = bitlen(x)
    p = pow2
    vm.fact1(("bitlen", str(x)), lambda: z3.And(
        t >= 0, (t == 0) == (x == 0), a < pow2_facts(vm, t),
        z3.Implies(t > 0, a >= p(t - 1)), z3.Implies(t > 0, p(t) == 2 * p(t - 1)), p(0) == 1))
    return SInt(t)


def endian_t(vm, e):
    """'big' as a Bool term; ValueError in the program for anything else."""
    if isinstance(e, str):
        if e not in ("big", "little"):
            raise vm.pyerr(ValueError, "byteorder must be either 'little' or 'big'")
        return z3.BoolVal(e == "big")
    if isinstance(e, (SStr, SVal)):
        t = vm.str_t(e)
        if vm.branch(t == vm.strlit("big")):
            return z3.BoolVal(True)
        if vm.branch(t == vm.strlit("little")):
            return z3.BoolVal(False)
        raise vm.pyerr(ValueError, "byteorder must be either 'little' or 'big'")
    raise vm.pyerr(TypeError, "byteorder")


def int_to_bytes(vm, o, length=1, byteorder="big", signed=False):
    x = vm.int_t(o)
    n = vm.int_t(length)
    big = endian_t(vm, byteorder)
    sg = vm.truth_t(signed)
    sg = z3.BoolVal(sg) if isinstance(sg, bool) else sg
    if vm.branch(n < 0):
        raise vm.pyerr(ValueError, "length argument must be non-negative")
    if not vm.branch(fits(vm, x, n, sg)):
        raise vm.pyerr(OverflowError, "int too big to convert")
    t = i2b(x, n, big, sg)
    vm.fact1(("i2b", str(t)), lambda: z3.And(z3.Length(t) == n, b2i(t, big, sg) == x))
    return SBytes(t)


def fits(vm, x, n, sg):
    """x is representable in n bytes (n >= 0)."""
    P = pow2_facts(vm, z3.simplify(8 * n))
    H = z3.Function("pow2_half", IntS, IntS)      # 2**(8n-1), only meaningful for n >= 1
    h = H(n)
    vm.fact1(("half", str(n)), lambda: z3.And(z3.Implies(n >= 1, 2 * h == P), z3.Implies(n == 0, P == 1)))
    return z3.If(n == 0, x == 0, z3.If(sg, z3.And(x >= -h, x < h), z3.And(x >= 0, x < P)))


def int_from_bytes(vm, data, byteorder="big", signed=False):
    big = endian_t(vm, byteorder)
    sg = vm.truth_t(signed)
    sg = z3.BoolVal(sg) if isinstance(sg, bool) else sg
    if isinstance(data, BList):
        es = [I(x) for x in data.e]
        if z3.is_true(z3.simplify(big)) or z3.is_false(z3.simplify(big)) or len(es) <= 1:
            if z3.is_false(z3.simplify(big)):
                es = es[::-1]
            v = z3.IntVal(0)
            for e in es:
                v = v * 256 + e
            m = 1 << (8 * len(es))
            s = z3.If(z3.And(sg, v >= m // 2), v - m, v) if es else v
            return vm.mkint(s)
    t = vm.seq(data)
    x = b2i(t, big, sg)
    n = z3.Length(t)
    vm.fact1(("b2i", str(x)), lambda: z3.And(fits(vm, x, n, sg), i2b(x, n, big, sg) == t))
    return SInt(x)


_int = {"bit_length": int_bit_length, "to_bytes": int_to_bytes}


# ---- bytes
def by_decode(vm, o, encoding="utf-8", errors="strict"):
    t = vm.seq(o)
    e = vm.str_t(encoding)
    if errors != "strict":
        raise Unsupported("decode(errors=...)")
    if not vm.branch(dec_ok(t, e)):
        raise vm.pyerr(UnicodeDecodeError, "decode")
    r = decode(t, e)
    return SStr(r)


def by_startswith(vm, o, p):
    return vm.mkbool(z3.PrefixOf(vm.seq(p), vm.seq(o)))


def by_endswith(vm, o, p):
    return vm.mkbool(z3.SuffixOf(vm.seq(p), vm.seq(o)))


def by_ljust(vm, o, width, fill=b" "):
    t = vm.seq(o)
    w = vm.int_t(width)
    if vm.branch(w <= z3.Length(t)):
        return SBytes(t)
    r = repeat_bytes(vm, fill, z3.simplify(w - z3.Length(t)))
    return mkbytes(z3.Concat(t, vm.seq(r)))


_bytes = {"decode": by_decode, "startswith": by_startswith, "endswith": by_endswith, "ljust": by_ljust}


def ba_append(vm, o, v):
    b = vm.int_t(v)
    if not vm.branch(z3.And(0 <= b, b < 256)):
        raise vm.pyerr(ValueError, "byte must be in range(0, 256)")
    o.a = z3.Store(o.a, o.n, b)
    o.n = z3.simplify(o.n + 1)


def ba_reverse(vm, o):
    r = reversed_arr(vm, o.n, o.a)
    o.a = r.a


_barr = {"append": ba_append, "extend": barr_extend, "reverse": ba_reverse}


# ---- strings
def s_encode(vm, o, encoding="utf-8", errors="strict"):
    t = vm.str_t(o)
    e = vm.str_t(encoding)
    if errors != "strict":
        raise Unsupported("encode(errors=...)")
    if not vm.branch(enc_ok(t, e)):
        raise vm.pyerr(UnicodeEncodeError, "encode")
    return SBytes(encode(t, e))


_str = {"encode": s_encode, "lstrip": lambda vm, o, c=None: SStr(vm.fresh("lstrip", StrS)),
        "format": lambda vm, o, *a, **k: SStr(vm.fresh("fmt", StrS)),
        "join": lambda vm, o, it: SStr(vm.fresh("join", StrS))}


# ---- dicts
class Items(Sym):
    def __init__(self, d, what):
        self.d, self.what = d, what


def d_items(what):
    def f(vm, o):
        if o.conc is not None:
            if what == "items":
                return SList([(k, v) for k, v in o.conc.items()])
            if what == "keys":
                return KeysView(o)
            return SList(list(o.conc.values()))
        if what == "keys":
            return KeysView(o)
        return DictView(o, what)
    return f


def dict_enum(vm, d):
    """The iteration order of a symbolic dictionary: an unknown enumeration of its keys.

    at is a bijection between the integers and a set of strings in which the keys are at 0..n-1."""
    i = vm.nfresh.get("enum", 0)
    vm.nfresh["enum"] = i + 1
    at, pos, n = z3.Function("key_at!%d" % i, IntS, StrS), z3.Function("key_pos!%d" % i, StrS, IntS), vm.fresh("n_keys", IntS)
    j, s, dom, val = z3.Int("j!e"), z3.Const("s!e", StrS), d.dom, d.val
    vm.assume(n >= 0)
    if vm.universe is not None:
        for i in range(vm.max_index):
            vm.assume(z3.And(pos(at(i)) == i, z3.Implies(i < n, z3.And(dom[at(i)], z3.Or([at(i) == u for u in vm.universe])))))
        for u in vm.universe:
            vm.assume(z3.Implies(dom[u], z3.And(0 <= pos(u), pos(u) < n, at(pos(u)) == u)))
        vm.assume(n < vm.max_index)
        return n, at, dom, val
    vm.assume(z3.ForAll([j], z3.And(pos(at(j)) == j, z3.Implies(z3.And(0 <= j, j < n), dom[at(j)])), patterns=[at(j)]))
    vm.assume(z3.ForAll([s], z3.Implies(dom[s], z3.And(0 <= pos(s), pos(s) < n, at(pos(s)) == s)), patterns=[pos(s)]))
    vm.assume(z3.ForAll([s], z3.Implies(dom[s], z3.And(0 <= pos(s), pos(s) < n, at(pos(s)) == s)), patterns=[dom[s]]))
    return n, at, dom, val


class KeysView(Sym):
    def __init__(self, d):
        self.d = d

    def pyvc_truth(self, vm):
        return keyset(vm, self).pyvc_truth(vm)

    def pyvc_contains(self, vm, x):
        return contains(vm, self.d, x)

    def pyvc_seq(self, vm):
        if not isinstance(self.d, SDict):
            return self.d.pyvc_seq(vm)
        n, at, dom, val = dict_enum(vm, self.d)
        return SSeq(n, lambda k: SStr(at(k)), "keys")


class DictView(Sym):
    def __init__(self, d, what):
        self.d, self.what = d, what

    def pyvc_seq(self, vm):
        n, at, dom, val = dict_enum(vm, self.d)
        if self.what == "values":
            return SSeq(n, lambda k: vm.from_val(val[at(k)]), "values")
        return SSeq(n, lambda k: (SStr(at(k)), vm.from_val(val[at(k)])), "items")


def d_get(vm, o, k, default=None):
    return dict_get(vm, o, k, default)


def d_setdefault(vm, o, k, default=None):
    v = dict_get(vm, o, k, UNBOUND_DEFAULT)
    if v is UNBOUND_DEFAULT:
        setitem(vm, o, k, default)
        return default
    return v


UNBOUND_DEFAULT = Native("unbound", None)


def d_pop(vm, o, k, *default):
    v = dict_get(vm, o, k, UNBOUND_DEFAULT)
    if v is UNBOUND_DEFAULT:
        if default:
            return default[0]
        raise vm.pyerr(KeyError, "key")
    delitem(vm, o, k)
    return v


def d_update(vm, o, *args, **kw):
    if args:
        dict_update(vm, o, args[0])
    for k, v in kw.items():
        setitem(vm, o, k, v)


def d_copy(vm, o):
    d = SDict(o.conc) if o.conc is not None else SDict(dom=o.dom, val=o.val)
    return d


_dict = {"items": d_items("items"), "keys": d_items("keys"), "values": d_items("values"), "get": d_get,
         "setdefault": d_setdefault, "pop": d_pop, "update": d_update, "copy": d_copy}


# ---- lists
def l_extend(vm, o, v):
    it = vm.iterate(v)
    if it is None:
        raise Unsupported("extend with a symbolic sequence")
    for x in it:
        list_append(vm, o, x)


def l_pop(vm, o, i=-1):
    if o.conc is not None:
        try:
            return o.conc.pop(i)
        except IndexError:
            raise vm.pyerr(IndexError, "pop from empty list")
    raise Unsupported("pop")


def l_insert(vm, o, i, v):
    if o.conc is not None and isinstance(i, int):
        o.conc.insert(i, v)
        return
    raise Unsupported("insert")


_list = {"append": list_append, "extend": l_extend, "pop": l_pop, "insert": l_insert,
         "copy": lambda vm, o: SList(o.conc) if o.conc is not None else SList(n=o.n, a=o.a)}

_float = {}


# --------------------------------------------------------------------------------------
# Builtin functions and classes
# --------------------------------------------------------------------------------------
def b_len(vm, args, kw):
    return vm.mkint(vm.length(args[0]))


def val_isinstance(vm, t, cls):
    """isinstance of an opaque value for the classes the code asks about."""
    from binobj.fields.base import Field
    if cls is int:
        return z3.Or(Val.is_VInt(t), Val.is_VBool(t))
    if cls is bool:
        return Val.is_VBool(t)
    if cls is bytes:
        return Val.is_VBytes(t)
    if cls is str:
        return Val.is_VStr(t)
    if cls in (bytearray,):
        f = z3.Function("isinstance_" + cls.__name__, IntS, BoolS)
        return z3.And(Val.is_VObj(t), f(Val.obj_of(t)))
    if cls is type(None):
        return Val.is_VNone(t)
    nm = cls.__module__ + "." + cls.__qualname__
    f = z3.Function("isinstance_" + nm, IntS, BoolS)
    base = z3.And(Val.is_VObj(t), f(Val.obj_of(t)))
    if nm in ("collections.abc.Sequence", "collections.abc.Sized", "collections.abc.Iterable"):
        return z3.Or(Val.is_VBytes(t), Val.is_VStr(t), base)
    return base


def b_isinstance(vm, args, kw):
    x, c = args
    if isinstance(c, tuple):
        out = [b_isinstance(vm, [x, k], {}) for k in c]
        if any(r is True for r in out):
            return True
        ts = [r.t for r in out if isinstance(r, SBool)]
        return vm.mkbool(z3.Or(*ts)) if ts else False
    if isinstance(c, types.UnionType):
        return b_isinstance(vm, [x, tuple(c.__args__)], {})
    if not isinstance(c, type):
        try:
            return isinstance(x, c)
        except TypeError as e:
            raise vm.pyerr(TypeError, str(e))
    if isinstance(x, SVal):
        return vm.mkbool(val_isinstance(vm, x.t, c))
    if isinstance(x, DateTime):
        return issubclass(_datetime.datetime, c)
    if isinstance(x, UUIDv):
        return issubclass(_uuid.UUID, c)
    pc = pyclass(vm, x)
    if pc is None:
        raise Unsupported("isinstance of %r" % (x,))
    if pc is NotImplemented:
        return isinstance(x, c)
    try:
        return issubclass(pc, c)
    except TypeError as e:
        raise vm.pyerr(TypeError, str(e))


def pyclass(vm, x):
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, (SBytes, BList, ABytes)):
        return bytes
    if isinstance(x, BArr):
        return bytearray
    if isinstance(x, SStr):
        return str
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SList):
        return list
    if isinstance(x, (SFloat, Rational)):
        return float
    if isinstance(x, (SFn, Closure, Native)):
        return types.FunctionType
    if isinstance(x, Bound):
        return types.MethodType
    if isinstance(x, SSeq):
        return x.kind
    if isinstance(x, SStream):
        return io.BytesIO
    if isinstance(x, SGen):
        return types.GeneratorType
    h = getattr(x, "pyvc_class", None)
    if h is not None:
        return h
    if isinstance(x, Sym):
        return None
    return NotImplemented


def b_issubclass(vm, args, kw):
    a, b = args
    if isinstance(a, Sym):
        raise vm.pyerr(TypeError, "issubclass() arg 1 must be a class") if isinstance(a, (SObj, SInt, SBytes, SStr)) else Unsupported("issubclass")
    try:
        return issubclass(a, b)
    except TypeError as e:
        raise vm.pyerr(TypeError, str(e))


def b_type(vm, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    c = pyclass(vm, args[0])
    if c is None or isinstance(args[0], SVal):
        raise Unsupported("type of %r" % (args[0],))
    return type(args[0]) if c is NotImplemented else c


def b_int(vm, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, Rational):
        return vm.mkint(z3.If(x.n >= 0, x.n / x.d, -((-x.n) / x.d)))
    if isinstance(x, (SInt, SBool, SVal)):
        return vm.mkint(vm.int_t(x))
    if isinstance(x, SFloat):
        f = z3.Function("int_of_float", Val, IntS)
        return SInt(f(x.t))
    if isinstance(x, Sym):
        raise Unsupported("int(%r)" % (x,))
    try:
        return int(*args)
    except (TypeError, ValueError, OverflowError) as e:
        raise vm.pyerr(type(e), str(e))


def b_bool(vm, args, kw):
    return vm.mkbool(vm.z(vm.truth_t(args[0]))) if args else False


def b_bytes(vm, args, kw):
    if not args:
        return b""
    x = args[0]
    if isinstance(x, BArr):
        return ABytes(x.n, x.a)
    if isinstance(x, (SBytes, BList, ABytes, bytes)):
        return x
    if isinstance(x, (int, SInt)):
        return repeat_bytes(vm, b"\0", vm.int_t(x))
    if isinstance(x, SObj):
        m = vm.find_class_attr(x.cls, "__bytes__")
        if m is not UNBOUND:
            return vm.call(Bound(m, x), [], {})
    it = vm.iterate(x)
    if it is not None:
        out = []
        for e in it:
            b = vm.int_t(e)
            if not vm.branch(z3.And(0 <= b, b < 256)):
                raise vm.pyerr(ValueError, "bytes must be in range(0, 256)")
            out.append(b)
        return BList(out)
    if isinstance(x, SVal) and vm.valid(Val.is_VBytes(x.t)):
        return SBytes(Val.bytes_of(x.t))
    raise Unsupported("bytes(%r)" % (x,))


def b_bytearray(vm, args, kw):
    if not args:
        return BArr(z3.IntVal(0), z3.K(IntS, z3.IntVal(0)))
    x = args[0]
    if isinstance(x, (int, SInt)):
        n = vm.int_t(x)
        if vm.branch(n < 0):
            raise vm.pyerr(ValueError, "negative count")
        return BArr(n, z3.K(IntS, z3.IntVal(0)))
    if isinstance(x, (bytes, BList)):
        r = BArr(z3.IntVal(0), z3.K(IntS, z3.IntVal(0)))
        barr_extend(vm, r, x)
        return r
    if isinstance(x, ABytes):
        return BArr(x.n, x.a)
    raise Unsupported("bytearray(%r)" % (x,))


def b_range(vm, args, kw):
    if not any(isinstance(a, Sym) for a in args):
        return range(*args)
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0], args[1], 1
    else:
        a, b, s = args
    if isinstance(s, Sym) or abs(s) != 1:
        if not isinstance(s, int) or s == 0:
            raise Unsupported("range step")
    at, bt = vm.int_t(a), vm.int_t(b)
    d = (bt - at) if s > 0 else (at - bt)
    n = z3.simplify(z3.If(d > 0, (d + (abs(s) - 1)) / abs(s), z3.IntVal(0)))
    return SSeq(n, lambda k: vm.mkint(at + s * k), "range", kind=range)


def b_minmax(ismin):
    def f(vm, args, kw):
        if len(args) == 1:
            it = vm.iterate(args[0])
            if it is None:
                raise Unsupported("min/max")
            args = list(it)
            if not args and "default" in kw:
                return kw["default"]
        if kw:
            raise Unsupported("min/max keywords")
        if not any(isinstance(a, Sym) for a in args):
            return (min if ismin else max)(args)
        t = vm.int_t(args[0])
        for a in args[1:]:
            u = vm.int_t(a)
            t = z3.If(u < t, u, t) if ismin else z3.If(u > t, u, t)
        return vm.mkint(t)
    return f


def b_abs(vm, args, kw):
    x = args[0]
    if not isinstance(x, Sym):
        return abs(x)
    if isinstance(x, (SInt, SBool, SVal)):
        t = vm.int_t(x)
        return vm.mkint(z3.If(t < 0, -t, t))
    raise Unsupported("abs")


def b_sum(vm, args, kw):
    it = vm.iterate(args[0])
    if it is None:
        if len(args) == 1 and not kw and not isinstance(args[0], engine.CompSeq):
            return vm.fold_seq(sum, args[0])
        raise Unsupported("sum over a symbolic sequence")
    acc = args[1] if len(args) > 1 else kw.get("start", 0)
    for x in it:
        acc = binop(vm, ast.Add(), acc, x)
    return acc


def b_anyall(isall):
    def f(vm, args, kw):
        it = vm.iterate(args[0])
        if it is None:
            if not isinstance(args[0], engine.CompSeq):
                return vm.fold_seq(all if isall else any, args[0])
            raise Unsupported("any/all over a symbolic sequence")
        for x in it:
            if vm.truth(x) != isall:
                return not isall
        return isall
    return f


def b_enumerate(vm, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    it = vm.iterate(args[0])
    if it is not None:
        return SIter((binop(vm, ast.Add(), start, i), x) for i, x in enumerate(it))
    s = vm.as_seq(args[0])
    st = vm.int_t(start)
    return SSeq(s.n, lambda k: (vm.mkint(st + k), s.elem(k)), "enumerate")


def b_zip(vm, args, kw):
    its = [vm.iterate(a) for a in args]
    if all(i is not None for i in its):
        return SIter(zip(*its))
    raise Unsupported("zip")


def b_reversed(vm, args, kw):
    it = vm.iterate(args[0])
    if it is not None:
        return SIter(list(it)[::-1])
    s = vm.as_seq(args[0])
    return SSeq(s.n, lambda k: s.elem(s.n - 1 - k), "reversed")


def b_getattr(vm, args, kw):
    o, n = args[0], args[1]
    if isinstance(n, Sym):
        h = getattr(o, "pyvc_getattr_sym", None)
        if h is not None:
            try:
                return h(vm, n)
            except PyRaise as e:
                if len(args) > 2 and issubclass(e.cls, AttributeError):
                    return args[2]
                raise
        if isinstance(o, SObj):
            for c in o.cls.__mro__:
                h = vm.stubs.get((c, "getattr_sym"))
                if h is not None:
                    return h(vm, o, n)
        raise Unsupported("getattr with a symbolic name")
    try:
        return vm.getattr(o, n, len(args) < 3)
    except PyRaise as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError):
            return args[2]
        raise


def b_setattr(vm, args, kw):
    o, n, v = args
    h = getattr(o, "pyvc_setattr", None)
    if h is not None and isinstance(o, Sym):
        return h(vm, n, v)
    if isinstance(n, Sym):
        if isinstance(o, SObj):
            for c in o.cls.__mro__:
                h = vm.stubs.get((c, "setattr_sym"))
                if h is not None:
                    return h(vm, o, n, v)
        raise Unsupported("setattr with a symbolic name")
    if isinstance(o, type):
        h = vm.stubs.get((o, "setattr"))
        if h is not None:
            return h(vm, o, n, v)
    vm.setattr(o, n, v)


def b_hasattr(vm, args, kw):
    o, n = args
    if isinstance(n, Sym):
        if hasattr(o, "pyvc_getattr_sym"):
            try:
                o.pyvc_getattr_sym(vm, n)
                return True
            except PyRaise as e:
                if issubclass(e.cls, AttributeError):
                    return False
                raise
        raise Unsupported("hasattr with a symbolic name")
    return vm.hasattr(o, n)


def b_callable(vm, args, kw):
    x = args[0]
    if isinstance(x, (SFn, Closure, Bound, Partial, Native)):
        return True
    if isinstance(x, SObj):
        return vm.find_class_attr(x.cls, "__call__") is not UNBOUND
    if isinstance(x, SVal):
        f = z3.Function("py_callable", IntS, BoolS)
        return vm.mkbool(z3.And(Val.is_VObj(x.t), f(Val.obj_of(x.t))))
    if isinstance(x, Sym):
        return False
    return callable(x)


def b_iter(vm, args, kw):
    if len(args) != 1:
        raise Unsupported("iter(callable, sentinel)")
    x = vm.iterator_of(args[0])
    it = vm.iterate(x)
    if it is not None:
        return SIter(it) if not isinstance(x, (SIter, SGen)) else x
    return x if isinstance(x, SSeq) else vm.as_seq(x)


def b_next(vm, args, kw):
    it = args[0]
    g = vm.iterate(it) if isinstance(it, (SIter, SGen)) else None
    if g is None:
        h = getattr(it, "pyvc_next", None)
        if h is not None:
            return h(vm, *args[1:])
        raise Unsupported("next()")
    for x in g:
        return x
    if len(args) > 1:
        return args[1]
    raise vm.pyerr(StopIteration)


def b_list(vm, args, kw):
    if not args:
        return SList([])
    x = args[0]
    it = vm.iterate(x)
    if it is not None:
        return SList(list(it))
    if isinstance(x, SList):
        return SList(n=x.n, a=x.a)
    h = getattr(x, "pyvc_list", None)
    if h is not None:
        return h(vm)
    s = vm.as_seq(x)
    return SSeq(s.n, s.elem, s.name, kind=list)


def b_tuple(vm, args, kw):
    if not args:
        return ()
    it = vm.iterate(args[0])
    if it is not None:
        return tuple(it)
    s = vm.as_seq(args[0])
    return SSeq(s.n, s.elem, s.name, kind=tuple)


def b_dict(vm, args, kw):
    d = SDict({})
    if args:
        x = args[0]
        if isinstance(x, (SDict, dict)) or hasattr(x, "pyvc_mapping") or isinstance(x, SObj):
            dict_update(vm, d, x)
        else:
            it = vm.iterate(x)
            if it is None:
                raise Unsupported("dict(%r)" % (x,))
            for kv in it:
                k, v = vm.unpack(kv)
                setitem(vm, d, k, v)
    for k, v in kw.items():
        if k == "**sym":
            dict_update(vm, d, v)
        else:
            setitem(vm, d, k, v)
    return d


def b_set(vm, args, kw):
    if not args:
        return set()
    x = args[0]
    if isinstance(x, (SymKeySet,)):
        return x
    if isinstance(x, KeysView):
        return keyset(vm, x)
    if isinstance(x, SDict) and x.conc is None:
        return SymKeySet(x.dom)
    it = vm.iterate(x)
    if it is None:
        raise Unsupported("set(%r)" % (x,))
    vs = list(it)
    if any(isinstance(v, Sym) for v in vs):
        if all(isinstance(v, (SStr, str)) for v in vs):
            dom = z3.K(StrS, z3.BoolVal(False))
            for v in vs:
                dom = z3.Store(dom, vm.str_t(v), z3.BoolVal(True))
            return SymKeySet(dom)
        raise Unsupported("set of symbolic values")
    return set(vs)


class SymKeySet(Sym):
    """A set of strings given by its characteristic function."""

    pyvc_class = set

    def __init__(self, dom):
        self.dom = dom

    def pyvc_truth(self, vm):
        f, k = z3.Function("dom_nonempty", DomS, BoolS), z3.Const("k!dn", StrS)
        vm.fact1(("nonempty", self.dom.get_id()), lambda: f(self.dom) == vm.exists_s(lambda k: self.dom[k]))
        return f(self.dom)

    def pyvc_contains(self, vm, x):
        return self.dom[key_t(vm, x)]

    def pyvc_method(self, vm, name):
        op = {"difference": ast.Sub, "union": ast.BitOr, "intersection": ast.BitAnd, "symmetric_difference": ast.BitXor}.get(name)
        if op is not None:
            return Native(name, lambda vm, a, k: keyset_binop(vm, op, self, keyset(vm, a[0])))
        if name == "issubset":
            return Native(name, lambda vm, a, k: keyset_compare(vm, ast.LtE, self, keyset(vm, a[0])))
        raise Unsupported("set.%s" % name)


def keyset(vm, x):
    if isinstance(x, SymKeySet):
        return x
    if isinstance(x, KeysView):
        d = x.d
        if isinstance(d, SDict):
            return SymKeySet(vm.dict_arrays(d)[0])
        return SymKeySet(d.keys_dom(vm))
    if isinstance(x, (set, frozenset)) or type(x).__name__ == "dict_keys":
        return SymKeySet(vm.conc_arrays({k: None for k in x})[0])
    if isinstance(x, SDict):
        return SymKeySet(vm.dict_arrays(x)[0])
    raise Unsupported("key set of %r" % (x,))


def b_repr(vm, args, kw):
    x = args[0]
    if isinstance(x, (int, str, bytes)):
        return repr(x)
    return SStr(vm.fresh("repr", StrS))


def b_str(vm, args, kw):
    if not args:
        return ""
    x = args[0]
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, UUIDv):
        return x.text(vm, U_STR, 36)
    if isinstance(x, SObj):
        for c in x.cls.__mro__:
            h = vm.stubs.get((c, "str"))
            if h is not None:
                return h(vm, x)
    return SStr(vm.fresh("str", StrS))


def b_divmod(vm, args, kw):
    return (binop(vm, ast.FloorDiv(), *args), binop(vm, ast.Mod(), *args))


def b_pow(vm, args, kw):
    return binop(vm, ast.Pow(), *args)


def b_sorted(vm, args, kw):
    it = vm.iterate(args[0])
    vs = list(it) if it is not None else None
    if vs is None or any(isinstance(v, Sym) for v in vs) or kw:
        raise Unsupported("sorted")
    return SList(sorted(vs))


def b_map(vm, args, kw):
    it = vm.iterate(args[1])
    if it is None or len(args) > 2:
        raise Unsupported("map")
    return SIter(vm.call(args[0], [x], {}) for x in it)


def b_filter(vm, args, kw):
    it = vm.iterate(args[1])
    if it is None:
        raise Unsupported("filter")
    return SIter(x for x in it if (vm.truth(vm.call(args[0], [x], {})) if args[0] is not None else vm.truth(x)))


def b_vars(vm, args, kw):
    if len(args) == 1 and not isinstance(args[0], Sym):
        return vars(args[0])
    if len(args) == 1 and isinstance(args[0], SObj):
        return SDict(args[0].attrs)
    if len(args) == 1 and hasattr(args[0], "pyvc_vars"):
        return args[0].pyvc_vars(vm)
    raise Unsupported("vars")


def b_cast(vm, args, kw):
    return args[1]


def b_warn(vm, args, kw):
    return None


def b_ceil(vm, args, kw):
    x = args[0]
    if isinstance(x, Rational):
        return vm.mkint(-((-x.n) / x.d))
    if isinstance(x, (SInt, int)):
        return x
    if not isinstance(x, Sym):
        return math.ceil(x)
    raise Unsupported("ceil")


def b_floor(vm, args, kw):
    x = args[0]
    if isinstance(x, Rational):
        return vm.mkint(x.n / x.d)
    if isinstance(x, (SInt, int)):
        return x
    if not isinstance(x, Sym):
        return math.floor(x)
    raise Unsupported("floor")


def b_bytesio(vm, args, kw):
    if args and args[0] is not None and not (isinstance(args[0], bytes) and not args[0]):
        x = args[0]
        if isinstance(x, ABytes):
            return SStream(x.a, z3.IntVal(0), z3.IntVal(0), "arr", x.n, "r", "BytesIO")
        return SStream(vm.seq(x), z3.IntVal(0), z3.IntVal(0), "seq", None, "r", "BytesIO")
    return SStream(z3.Empty(SeqS), z3.IntVal(0), z3.IntVal(0), "seq", None, "rw", "BytesIO")


class StrBuf(Sym):
    """io.StringIO that is only written to."""

    def __init__(self, vm):
        self.t = vm.strlit("")

    def pyvc_method(self, vm, name):
        def write(vm, args, kw):
            s = vm.str_t(args[0])
            e = vm.strlit("")
            r = strcat(self.t, s)
            vm.assume(z3.And(z3.Implies(self.t == e, r == s), z3.Implies(s == e, r == self.t)))
            self.t = r
            return None
        if name == "write":
            return Native(name, write)
        if name == "getvalue":
            return Native(name, lambda vm, a, k: vm.mkstr(self.t))
        raise Unsupported("StringIO." + name)


inc_out = z3.Function("incremental_decoder_output", StrS, SeqS, SeqS, StrS)
inc_ok = z3.Function("incremental_decoder_ok", StrS, SeqS, SeqS, BoolS)


class IncDec(Sym):
    """An incremental decoder; its state is what it was fed so far."""

    def __init__(self, enc):
        self.enc, self.t = enc, z3.Empty(SeqS)

    def pyvc_method(self, vm, name):
        def decode(vm, args, kw):
            if len(args) != 1 or kw:
                raise Unsupported("IncrementalDecoder.decode(final)")
            b = vm.seq(args[0])
            if not vm.branch(inc_ok(self.enc, self.t, b)):
                raise vm.pyerr(UnicodeDecodeError, "decode")
            r = SStr(inc_out(self.enc, self.t, b))
            self.t = z3.simplify(z3.Concat(self.t, b))
            return r
        if name == "decode":
            return Native(name, decode)
        raise Unsupported("IncrementalDecoder." + name)


def b_getincdec(vm, args, kw):
    enc = vm.str_t(args[0])

    def make(vm, args, kw):
        if args and args != ["strict"] or kw:
            raise Unsupported("incremental decoder arguments")
        return IncDec(enc)
    return Native("IncrementalDecoder", make)


# ---- struct: packing is a function of the format and the value; unpacking of exactly as many
# bytes is its inverse.
pack_ok = z3.Function("struct_pack_ok", StrS, Val, BoolS)
pack_big = z3.Function("struct_pack_overflows", StrS, Val, BoolS)
pack = z3.Function("struct_pack", StrS, Val, SeqS)
unpack = z3.Function("struct_unpack", StrS, SeqS, Val)


def b_pack(vm, args, kw):
    fmt = args[0]
    if not isinstance(fmt, str) or len(args) != 2:
        raise Unsupported("struct.pack")
    v = vm.to_val(args[1])
    f = vm.strlit(fmt)
    if not vm.branch(pack_ok(f, v)):
        if vm.branch(pack_big(f, v)):
            raise vm.pyerr(OverflowError, "too large to pack")
        raise vm.pyerr(_struct.error, "pack")
    t = pack(f, v)
    vm.fact1(("pack", str(t)), lambda: z3.And(z3.Length(t) == _struct.calcsize(fmt), unpack(f, t) == v))
    return SBytes(t)


def b_unpack(vm, args, kw):
    fmt = args[0]
    if not isinstance(fmt, str):
        raise Unsupported("struct.unpack")
    t = vm.seq(args[1])
    if not vm.branch(z3.Length(t) == _struct.calcsize(fmt)):
        raise vm.pyerr(_struct.error, "unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
    return (vm.from_val(unpack(vm.strlit(fmt), t)),)


# ---- datetime: a moment is (whole seconds since the epoch, microseconds, zone-aware).  The whole
# seconds of a naive one are those of the local time zone (datetime.timestamp / fromtimestamp).
class DateTime(Sym):
    def __init__(self, s, us, aware):
        self.s, self.us, self.aware = s, us, aware

    def __repr__(self):
        return "DateTime(%s, %s, %s)" % (self.s, self.us, self.aware)

    def pyvc_method(self, vm, name):
        if name == "tzinfo":
            return SObj(object, name="tz") if self.aware else None
        if name == "microsecond":
            return vm.mkint(self.us)
        if name == "second":
            return vm.mkint(self.s % 60)
        if name == "replace":
            def replace(vm, args, kw):
                if args or set(kw) != {"microsecond"}:
                    raise Unsupported("datetime.replace")
                u = vm.int_t(kw["microsecond"])
                if not vm.branch(z3.And(0 <= u, u < 10 ** 6)):
                    raise vm.pyerr(ValueError, "microsecond must be in 0..999999")
                return DateTime(self.s, u, self.aware)
            return Native(name, replace)
        if name == "timestamp":
            def timestamp(vm, args, kw):
                if not vm.valid(self.us == 0):
                    raise Unsupported("timestamp() of fractional seconds (inexact)")
                return Rational(self.s, z3.IntVal(1))
            return Native(name, timestamp)
        raise Unsupported("datetime." + name)


    def pyvc_binop(self, vm, T, b):
        if T is ast.Sub and isinstance(b, _datetime.datetime):
            if (b.tzinfo is not None) != self.aware:
                raise vm.pyerr(TypeError, "can't subtract offset-naive and offset-aware datetimes")
            if self.aware:
                d = b - _datetime.datetime(1970, 1, 1, tzinfo=_datetime.timezone.utc)
                return TimeDelta(z3.simplify(self.s * 10 ** 6 + self.us - d // _datetime.timedelta(microseconds=1)))
        raise Unsupported("datetime arithmetic")


class TimeDelta(Sym):
    def __init__(self, us):
        self.us = us

    def pyvc_binop(self, vm, T, b):
        if isinstance(b, _datetime.timedelta):
            b = TimeDelta(z3.IntVal(b // _datetime.timedelta(microseconds=1)))
        if T is ast.FloorDiv and isinstance(b, TimeDelta):
            return binop(vm, ast.FloorDiv(), vm.mkint(self.us), vm.mkint(b.us))
        raise Unsupported("timedelta arithmetic")

    def pyvc_method(self, vm, name):
        if name == "days":
            return vm.mkint(self.us / (86400 * 10 ** 6))
        if name == "seconds":
            return vm.mkint(self.us / 10 ** 6 % 86400)
        if name == "microseconds":
            return vm.mkint(self.us % 10 ** 6)
        raise Unsupported("timedelta." + name)


ts_ok = z3.Function("fromtimestamp_ok", IntS, BoolS, BoolS)


def b_fromtimestamp(vm, args, kw):
    s = vm.int_t(args[0])
    tz = args[1] if len(args) > 1 else kw.get("tz")
    if tz is not None and tz is not _datetime.timezone.utc:
        raise Unsupported("time zone")
    if not vm.branch(ts_ok(s, z3.BoolVal(tz is not None))):
        raise vm.pyerr(vm.pick(ValueError, OverflowError, OSError), "year out of range")
    return DateTime(s, z3.IntVal(0), tz is not None)


def b_timedelta(vm, args, kw):
    if args or set(kw) - {"microseconds", "seconds", "milliseconds"}:
        raise Unsupported("timedelta")
    return TimeDelta(sum((vm.int_t(v) * {"microseconds": 1, "milliseconds": 1000, "seconds": 10 ** 6}[k] for k, v in kw.items()), z3.IntVal(0)))


# ---- uuid: four views of one value, each determining it.
U_VIEWS = {"bytes": (z3.Function("uuid_bytes", Val, SeqS), z3.Function("uuid_from_bytes", SeqS, Val)),
           "bytes_le": (z3.Function("uuid_bytes_le", Val, SeqS), z3.Function("uuid_from_bytes_le", SeqS, Val))}
U_HEX = z3.Function("uuid_hex", Val, StrS)
U_STR = z3.Function("uuid_str", Val, StrS)
U_FROM = z3.Function("uuid_from_hex", StrS, Val)
U_FROM_OK = z3.Function("uuid_from_hex_ok", StrS, BoolS)


class UUIDv(Sym):
    pyvc_val = True

    def __init__(self, t):
        self.t = t

    def pyvc_method(self, vm, name):
        if name in U_VIEWS:
            g, mk = U_VIEWS[name]
            r = g(self.t)
            vm.fact1((name, str(r)), lambda: z3.And(z3.Length(r) == 16, mk(r) == self.t))
            return SBytes(r)
        if name == "hex":
            return self.text(vm, U_HEX, 32)
        raise Unsupported("UUID." + name)

    def text(self, vm, fn, n):
        r = fn(self.t)
        a = vm.strlit("ascii")
        vm.fact1((str(fn), str(r)), lambda: z3.And(U_FROM_OK(r), U_FROM(r) == self.t, enc_ok(r, a), dec_ok(encode(r, a), a), decode(encode(r, a), a) == r,
                                                  z3.Length(encode(r, a)) == n))
        return SStr(r)


def b_uuid(vm, args, kw):
    if args:
        kw = dict(kw, hex=args[0])
    if len(kw) != 1:
        raise Unsupported("UUID()")
    k, v = next(iter(kw.items()))
    if k in U_VIEWS:
        t = vm.seq(v)
        if not vm.branch(z3.Length(t) == 16):
            raise vm.pyerr(ValueError, "bytes is not a 16-char string")
        return UUIDv(U_VIEWS[k][1](t))
    if k == "hex":
        t = vm.str_t(v)
        if not vm.branch(U_FROM_OK(t)):
            raise vm.pyerr(ValueError, "badly formed hexadecimal UUID string")
        return UUIDv(U_FROM(t))
    raise Unsupported("UUID(%s)" % k)


def b_partial(vm, args, kw):
    return Partial(args[0], args[1:], kw)


def b_objnew(vm, args, kw):
    return SObj(args[0])


def b_always_iterable(vm, args, kw):
    x = args[0]
    if isinstance(x, (tuple, list, SList, SSeq, SIter, set, frozenset)):
        return x
    if x is None:
        return ()
    if isinstance(x, (SymKeySet, KeysView, DictView)):
        return x
    if isinstance(x, (SFn, Closure, Bound, Partial)) or callable(x):
        return (x,)
    raise Unsupported("always_iterable(%r)" % (x,))


def b_chainmap(vm, args, kw):
    return ChainM(list(args))


class ChainM(Sym):
    def __init__(self, maps):
        self.maps = maps

    def pyvc_mapping(self, vm):
        ms = [as_mapping(vm, m) for m in self.maps]
        if all(m.conc is not None for m in ms):
            out = {}
            for m in ms[::-1]:
                for k in m.conc:
                    out[k] = None
            for k in out:
                for m in ms:
                    if k in m.conc:
                        out[k] = m.conc[k]
                        break
            return SDict(out)
        d, v = vm.dict_arrays(ms[0])
        for m in ms[1:]:
            d2, v2 = vm.dict_arrays(m)
            d, v = merge(vm, d, v, d2, v2)
        return SDict(dom=d, val=v)

    def pyvc_getitem(self, vm, i):
        return dict_get(vm, self.pyvc_mapping(vm), i)


def b_deepcopy(vm, args, kw):
    x = args[0]
    if isinstance(x, SDict):
        return d_copy(vm, x)
    if isinstance(x, Sym):
        return x
    return copy.deepcopy(x)


def b_frozenset(vm, args, kw):
    if args and isinstance(args[0], KeysView) and isinstance(args[0].d, SDict) and args[0].d.conc is not None:
        return frozenset(args[0].d.conc)
    s = b_set(vm, args, kw)
    return frozenset(s) if isinstance(s, set) else s


def b_exc_init(vm, args, kw):
    return None


def native_ok(f):
    return f in _native_ok


import struct as _struct
import dataclasses as _dc
import enum as _enum
_native_ok = {_struct.calcsize}

_builtins = {
    len: b_len, isinstance: b_isinstance, issubclass: b_issubclass, type: b_type, int: b_int, bool: b_bool,
    bytes: b_bytes, bytearray: b_bytearray, range: b_range, min: b_minmax(True), max: b_minmax(False),
    abs: b_abs, sum: b_sum, any: b_anyall(False), all: b_anyall(True), enumerate: b_enumerate, zip: b_zip,
    reversed: b_reversed, getattr: b_getattr, setattr: b_setattr, hasattr: b_hasattr, callable: b_callable,
    iter: b_iter, next: b_next, list: b_list, tuple: b_tuple, dict: b_dict, set: b_set, frozenset: b_frozenset,
    repr: b_repr, str: b_str, divmod: b_divmod, pow: b_pow, sorted: b_sorted, map: b_map, filter: b_filter,
    vars: b_vars, typing.cast: b_cast, warnings.warn: b_warn, math.ceil: b_ceil, math.floor: b_floor,
    io.BytesIO: b_bytesio, functools.partial: b_partial, collections.ChainMap: b_chainmap,
    copy.deepcopy: b_deepcopy, copy.copy: b_deepcopy, object: lambda vm, a, k: SObj(object),
    io.StringIO: lambda vm, a, k: StrBuf(vm),
    codecs.getincrementaldecoder: b_getincdec, _struct.pack: b_pack, _struct.unpack: b_unpack, _datetime.timedelta: b_timedelta, _uuid.UUID: b_uuid,
    _datetime.datetime.fromtimestamp: b_fromtimestamp,
}
try:
    import more_itertools
    _builtins[more_itertools.always_iterable] = b_always_iterable
except ImportError:
    pass
try:
    import typing_extensions
    _builtins[typing_extensions.override] = lambda vm, a, k: a[0]
except ImportError:
    pass


def b_cm(f):
    def make(vm, a, k):
        o = f.__new__(f)
        if f is contextlib.suppress:
            if not all(isinstance(x, type) for x in a):
                raise Unsupported("suppress")
            o._exceptions = tuple(a)
        elif f is contextlib.nullcontext:
            o.enter_result = a[0] if a else k.get("enter_result")
        return o
    return make


for _f in (contextlib.suppress, contextlib.nullcontext, warnings.catch_warnings):
    _builtins[_f] = b_cm(_f)


def builtin(vm, f):
    try:
        m = _builtins.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m
    if f is int.from_bytes or (getattr(f, "__self__", None) is int and getattr(f, "__name__", "") == "from_bytes"):
        return lambda vm, a, k: int_from_bytes(vm, *a, **k)
    if isinstance(f, types.MethodDescriptorType) and f in (int.to_bytes,):
        return lambda vm, a, k: int_to_bytes(vm, *a, **k)
    # object.__new__ / object.__init__ / Exception.__init__ reached through super()
    nm = getattr(f, "__name__", "")
    if nm == "__new__" and isinstance(f, types.BuiltinFunctionType):
        return b_objnew
    if nm == "__init__" and isinstance(f, types.WrapperDescriptorType):
        def init(vm, a, k):
            if isinstance(a[0], SObj):
                a[0].attrs.setdefault("args", tuple(a[1:]))
        return init
    if nm in ("__init_subclass__", "__setattr__") and isinstance(f, (types.BuiltinFunctionType, types.WrapperDescriptorType)):
        return lambda vm, a, k: None
    if f in _native_ok and not isinstance(f, type):
        def nat(vm, a, k):
            if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
                raise Unsupported("native call with symbolic arguments")
            return f(*a, **k)
        return nat
    s = getattr(f, "__self__", None)
    if isinstance(f, types.BuiltinMethodType) and isinstance(s, (str, bytes, int, tuple, dict, frozenset)) and not isinstance(s, type):
        def nat2(vm, a, k):
            if isinstance(s, dict) and nm in ("get",):
                if any(isinstance(x, Sym) for x in a[:1]):
                    for kk in s:
                        if vm.branch(vm.z(vm.eq(kk, a[0]))):
                            return s[kk]
                    return a[1] if len(a) > 1 else None
                return f(*a, **k)
            if nm in ("setdefault", "pop", "update", "clear", "popitem"):
                raise Unsupported("mutation of a real dictionary")
            if isinstance(s, str) and nm in ("format", "join"):
                if any(isinstance(x, Sym) for x in a):
                    return SStr(vm.fresh("fmt", StrS))
            if isinstance(s, str) and nm in ("format", "join", "format_map"):
                return SStr(vm.fresh("fmt", StrS))
            if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
                raise Unsupported("method %s with symbolic arguments" % nm)
            try:
                return f(*a, **k)
            except Exception as e:
                raise vm.pyerr(type(e), str(e))
        return nat2
    for c, h in vm.stubs.get("calls", ()):
        if f is c:
            return h
    return NotImplemented


def symbolic_seq(vm, v):
    h = getattr(v, "pyvc_seq", None)
    if h is not None:
        return h(vm)
    if isinstance(v, SDict):
        return KeysView(v).pyvc_seq(vm)
    return NotImplemented
