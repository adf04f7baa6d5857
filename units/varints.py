"""C01/C02: contracts of the variable-length integer functions."""
import z3
from pyvc.engine import bitlen, pow2
from pyvc.models import pow2_facts
from pyvc.terms import *
from pyvc.unit import unit

from binobj import errors, helpers, varints

# ---- logical functions --------------------------------------------------------------
D = z3.Function("D", IntS, IntS, IntS)            # D(v, k) = v div 128**k
P = z3.Function("P", IntS, IntS)                  # P(k) = 128**k
VB = z3.Function("VB", ArrS, IntS, IntS, IntS)    # value of k big-endian groups from p
VL = z3.Function("VL", ArrS, IntS, IntS, IntS)    # value of k little-endian groups from p
VC = z3.Function("VC", ArrS, IntS, IntS, IntS)    # the same as VB with a 6-bit first group
j_ = z3.Int("j")


def S(t):
    return z3.simplify(t)


def dD(v, k):
    """Definition of D at k (and its predecessor)."""
    k1 = S(k - 1)
    return z3.And(D(v, z3.IntVal(0)) == v, z3.Implies(k >= 1, D(v, k) == D(v, k1) / 128))


def dP(k):
    return z3.And(P(z3.IntVal(0)) == 1, z3.Implies(k >= 1, P(k) == 128 * P(S(k - 1))), z3.Implies(k >= 0, P(k) >= 1))


def dVB(a, p, k):
    k1 = S(k - 1)
    return z3.And(VB(a, p, z3.IntVal(0)) == 0,
                  z3.Implies(k >= 1, VB(a, p, k) == VB(a, p, k1) * 128 + a[S(p + k1)] % 128))


def dVC(a, p, k):
    k1 = S(k - 1)
    return z3.And(VC(a, p, z3.IntVal(1)) == a[p] % 64,
                  z3.Implies(k >= 2, VC(a, p, k) == VC(a, p, k1) * 128 + a[S(p + k1)] % 128))


def dVL(a, p, k):
    k1 = S(k - 1)
    return z3.And(VL(a, p, z3.IntVal(0)) == 0,
                  z3.Implies(k >= 1, VL(a, p, k) == VL(a, p, k1) + (a[S(p + k1)] % 128) * P(k1)))


# ---- lemmas (each proved by induction in the unit below; used as instances) --------------
def lem_D_bounds(v, k):
    """v >= 0: D(v,k)*P(k) <= v < (D(v,k)+1)*P(k), D >= 0."""
    return z3.Implies(z3.And(v >= 0, k >= 0),
                      z3.And(D(v, k) >= 0, D(v, k) * P(k) <= v, v < (D(v, k) + 1) * P(k)))


def lem_P_pow2(k):
    return z3.Implies(k >= 0, P(k) == pow2(S(7 * k)))


def lem_pow2_mono(a, b):
    return z3.Implies(z3.And(0 <= a, a <= b), pow2(a) <= pow2(b))


def lem_pow2_add(a, c):
    """pow2(a + c) = pow2(a) * 2**c for a constant c."""
    return z3.Implies(a >= 0, pow2(S(a + c)) == pow2(a) * (1 << c))


def lem_VL_bounds(a, p, k):
    return z3.Implies(k >= 0, z3.And(VL(a, p, k) >= 0, VL(a, p, k) < P(k)))


@unit("varints.lemmas", ["C01", "C02"])
def lemmas(vm):
    v, k, p, c = z3.Ints("v k p c")
    a = z3.Const("a", ArrS)
    vm.prove("lemma D bounds: base", z3.Implies(z3.And(dD(v, z3.IntVal(0)), dP(z3.IntVal(0))), lem_D_bounds(v, z3.IntVal(0))))
    hyp = z3.And(v >= 0, k >= 0, dD(v, k + 1), dP(k + 1), dP(k), lem_D_bounds(v, k))
    # Products with the common factor P(k), named to keep the query linear.
    X, Y, q = z3.Ints("X Y q")
    vm.prove("lemma D bounds: step (linear part)",
             z3.Implies(z3.And(hyp, q == D(v, k + 1), D(v, k) == 128 * q + z3.Int("r"), z3.Int("r") >= 0, z3.Int("r") < 128),
                        z3.And(128 * q <= D(v, k), D(v, k) + 1 <= 128 * q + 128, q >= 0)))
    d, t, u = z3.Ints("d t u")
    vm.prove("lemma D bounds: step (product part)",
             z3.Implies(z3.And(t >= 1, d * t <= v, v < (d + 1) * t, 128 * q <= d, d + 1 <= 128 * q + 128),
                        z3.And(q * (128 * t) <= v, v < (q + 1) * (128 * t))))
    # pow2: defining equation pow2(n+1) = 2*pow2(n), pow2(0) = 1.
    n, m = z3.Ints("n m")
    d2 = lambda n: z3.And(pow2(z3.IntVal(0)) == 1, z3.Implies(n >= 0, pow2(n + 1) == 2 * pow2(n)))
    vm.prove("lemma pow2 positive: step", z3.Implies(z3.And(d2(n), n >= 0, pow2(n) >= 1), pow2(n + 1) >= 1))
    vm.prove("lemma pow2 monotone: base", lem_pow2_mono(n, n))
    vm.prove("lemma pow2 monotone: step", z3.Implies(z3.And(d2(m), n >= 0, m >= n, pow2(m) >= 1, lem_pow2_mono(n, m)), lem_pow2_mono(n, m + 1)))
    vm.prove("lemma P(k) = pow2(7k): base", z3.Implies(z3.And(dP(z3.IntVal(0)), d2(z3.IntVal(0))), lem_P_pow2(z3.IntVal(0))))
    vm.prove("lemma P(k) = pow2(7k): step", z3.Implies(z3.And(k >= 0, dP(k + 1), *[d2(7 * k + i) for i in range(7)], P(k) == pow2(7 * k)),
                                                       P(k + 1) == pow2(7 * k + 7)))
    for c in (1, 6, 7):
        vm.prove("lemma pow2(a+%d)" % c, z3.Implies(z3.And(n >= 0, *[d2(n + i) for i in range(c)]), pow2(n + c) == pow2(n) * (1 << c)))
    vm.prove("lemma VL bounds: base", z3.Implies(z3.And(dVL(a, p, z3.IntVal(0)), dP(z3.IntVal(0))), lem_VL_bounds(a, p, z3.IntVal(0))))
    x, w, y = z3.Ints("x w y")
    vm.prove("lemma VL bounds: step", z3.Implies(z3.And(y >= 1, 0 <= w, w < y, 0 <= x, x < 128), z3.And(w + x * y >= 0, w + x * y < 128 * y)))
    vm.cover("lemmas")


# ---- decoders ------------------------------------------------------------------------
def in_stream(vm):
    a, n, p, base = z3.Const("data", ArrS), z3.Int("n"), z3.Int("p0"), z3.Int("base")
    vm.assume(z3.And(0 <= p, p <= n, base >= 0))
    s = SStream(a, p, base, kind="arr", n=n)
    vm.roots.append(s)
    return s, a, n, p


def cont(a, p, k):
    """The k bytes from p all have the continuation bit."""
    return z3.ForAll([j_], z3.Implies(z3.And(p <= j_, j_ < p + k), a[j_] >= 128), patterns=[a[j_]])


def dec_inv(kind):
    def inv(L):
        vm, k = L.vm, L.k
        a, p = z3.Const("data", ArrS), z3.Int("p0")
        # The number of bytes read so far.
        pos = [t for nm, t in L.streams.items() if nm.endswith(".pos")]
        k = S(pos[0] - p) if pos else S(k)
        for d in (dVB(a, p, k), dVL(a, p, k), dVC(a, p, k), dP(k), dP(S(k + 1)), lem_P_pow2(k)):
            vm.assume(d)
        out = []
        out.append(("position", z3.And(k >= 0, p + k <= z3.Int("n"))))
        out.append(("continuation", cont(a, p, k)))
        out.append(("continuation but for the last", z3.And(k >= 0, cont(a, p, S(k - 1)))))
        for nm, t in L.bools.items():
            if L.level.get(nm, 0):
                # A flag that the loop goes on.
                more = z3.Or(k == 0, a[S(p + k - 1)] >= 128)
                out += [(nm + " = more", t == more), (nm + " = no more", t != more)]
        for nm, v in L.ints.items():
            if L.level.get(nm, 0) == 0:
                continue
            out += [(nm + " = VB", v == VB(a, p, k)), (nm + " = VL", v == VL(a, p, k)),
                    (nm + " = VC", z3.And(k >= 1, v == VC(a, p, k))), (nm + " = 7k", v == 7 * k), (nm + " = k", v == k),
                    (nm + " = 128^k", v == P(k)), (nm + " >= 0", v >= 0), (nm + " < 128^k", z3.And(v >= 0, v < P(k)))]
        return out
    return inv


def decode_driver(fn, name, spec):
    def driver(vm):
        s, a, n, p = in_stream(vm)
        for k in range(vm.unroll + 2 if vm.unroll is not None else 0):
            k = z3.IntVal(k)
            for d in (dVB(a, p, k), dVL(a, p, k), dVC(a, p, k), dP(k), lem_P_pow2(k)):
                vm.assume(d)
        try:
            r = vm.call(fn, [s], {})
        except PyRaise as e:
            vm.prove(name + ": raises UnexpectedEOFError only", issubclass(e.cls, errors.UnexpectedEOFError))
            vm.cover("eof")
            j = z3.Int("jj")
            vm.assume(z3.And(p <= j, j < n))
            vm.prove(name + ": end of data only if every byte has the continuation bit", a[j] >= 128)
            return
        vm.cover("returned")
        m = S(s.pos - p)
        vm.prove(name + ": at least one byte, all available", z3.And(m >= 1, s.pos <= n))
        vm.prove(name + ": last byte has no continuation bit", a[p + m - 1] < 128)
        j = z3.Int("jj")
        vm.prove(name + ": other bytes have the continuation bit", z3.Implies(z3.And(p <= j, j < p + m - 1), a[j] >= 128))
        spec(vm, name, vm.int_t(r), a, p, m)
    return driver


def spec_vlq(vm, name, r, a, p, m):
    vm.assume(dVB(a, p, m))
    vm.prove(name + ": value is the big-endian sum of the groups", r == VB(a, p, m))


def spec_uleb(vm, name, r, a, p, m):
    vm.assume(z3.And(dVL(a, p, m), dP(m)))
    vm.prove(name + ": value is the little-endian sum of the groups", r == VL(a, p, m))


def spec_compact(vm, name, r, a, p, m):
    vm.assume(dVC(a, p, m))
    vm.prove(name + ": value is the signed sum of the groups", r == z3.If((a[p] / 64) % 2 == 1, -VC(a, p, m), VC(a, p, m)))


def SL(a, p, m):
    return z3.If((a[p + m - 1] / 64) % 2 == 1, VL(a, p, m) - P(m), VL(a, p, m))


def spec_leb(vm, name, r, a, p, m):
    m1 = S(m - 1)
    vm.assume(z3.And(dVL(a, p, m), dP(m), dP(m1), lem_VL_bounds(a, p, m), lem_VL_bounds(a, p, m1), lem_P_pow2(m), lem_P_pow2(m1)))
    x, y = S(a[S(p + m1)] % 128), P(m1)
    # Product facts for a 7-bit group x and y = 128**(m-1) >= 1.
    vm.prove(name + ": group product", z3.Implies(z3.And(y >= 1), z3.And(
        z3.Implies(x >= 64, x * y >= 64 * y), z3.Implies(x <= 63, x * y <= 63 * y))))
    v = VL(a, p, m)
    b = bitlen(v)
    n6 = S(7 * m1 + 6)
    vm.assume(z3.And(lem_pow2_add(S(7 * m1), 6), lem_pow2_add(n6, 1), lem_pow2_mono(n6, S(b - 1)), lem_pow2_mono(b, n6), pow2(z3.IntVal(0)) == 1))
    vm.prove(name + ": value is the two's-complement sum of the groups", r == SL(a, p, m))


for _n, _f, _s in (("vlq", varints.decode_integer_vlq, spec_vlq), ("uleb128", varints.decode_integer_uleb128, spec_uleb),
                   ("compact", varints.decode_integer_compact, spec_compact), ("leb128", varints.decode_integer_leb128, spec_leb)):
    unit("varints.decode_" + _n, ["C01", "C02", "C05"], inv=dec_inv(_n),
         under=["binobj.varints.decode_integer_" + _n, "binobj.helpers.read_int"])(decode_driver(_f, "decode_" + _n, _s))


# ---- encoders ------------------------------------------------------------------------
def as_arr(vm, r):
    """(length, array) of returned bytes."""
    if isinstance(r, ABytes):
        return r.n, r.a
    if isinstance(r, (bytes, BList)):
        es = list(r) if isinstance(r, bytes) else r.e
        a = z3.K(IntS, z3.IntVal(0))
        for i, x in enumerate(es):
            a = z3.Store(a, i, x if isinstance(x, z3.ExprRef) else z3.IntVal(x))
        return z3.IntVal(len(es)), a
    raise Unsupported("result %r is not bytes" % (r,))


def group_facts(vm, v, k):
    k = S(k)
    for t in (dD(v, k), dD(v, S(k + 1)), dP(k), dP(S(k + 1)), lem_P_pow2(k), lem_D_bounds(v, k)):
        vm.assume(t)


def len_facts(vm, w, b, n):
    """Number of groups against the bit length b of w > 0, for n groups."""
    for k in (n, S(n - 1), S(n - 2)):
        group_facts(vm, w, k)
    vm.assume(pow2(z3.IntVal(0)) == 1)
    for x, y in ((b, S(7 * n)), (S(7 * n - 7), S(b - 1)), (b, S(7 * n - 1)), (S(7 * n - 8), S(b - 1))):
        vm.assume(lem_pow2_mono(x, y))
    for x, c in ((S(7 * n - 7), 6), (S(7 * n - 14), 6), (S(7 * n - 1), 1), (S(7 * n - 8), 1)):
        vm.assume(lem_pow2_add(x, c))
    # D*P <= w < (D+1)*P with D an integer: comparisons of w with multiples of P.
    for k in (n, S(n - 1), S(n - 2)):
        d, p = D(w, k), P(k)
        for c in (1, 64):
            vm.assume(lem_quot(w, d, p, c))


def lem_quot(w, d, p, c):
    """d*p <= w < (d+1)*p, p >= 1: w < c*p <=> d < c."""
    return z3.Implies(z3.And(p >= 1, d * p <= w, w < (d + 1) * p), (w < c * p) == (d < c))


@unit("varints.lemma_quotient", ["C01", "C02"])
def lemma_quot(vm):
    w, d, p, e = z3.Ints("w d p e")
    for c in (1, 64):
        # d >= c: w >= d*p >= c*p; d <= c-1: w < (d+1)*p <= c*p.
        vm.prove("lemma quotient %d: monotone product" % c, z3.Implies(z3.And(p >= 1, d >= c), d * p >= c * p))
        vm.prove("lemma quotient %d: monotone product (upper)" % c, z3.Implies(z3.And(p >= 1, d < c), (d + 1) * p <= c * p))
        vm.prove("lemma quotient %d" % c, z3.Implies(
            z3.And(z3.Implies(z3.And(p >= 1, d >= c), d * p >= c * p), z3.Implies(z3.And(p >= 1, d < c), (d + 1) * p <= c * p)),
            lem_quot(w, d, p, c)))
    vm.cover("lemma")


def named(vm, t):
    """t, under a name if it holds an if-then-else: patterns take no interpreted connectives."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = z3.Const("named:%s" % t.sexpr(), t.sort())
            vm.assume(c == t)
            return c
        todo += x.children()
    return t


def enc_inv(L):
    vm, k = L.vm, S(L.k)
    out = []
    j = j_
    srcs = [("v", z3.Int("v"))]
    for nm, e in L.entry.items():
        # The integers the loop changes, as they were when it was entered.
        if nm in L.ints and L.level.get(nm, 0) and vm.is_int(e) and not isinstance(e, (bool, SBool)):
            e = S(vm.int_t(e))
            if not z3.is_int_value(e):
                srcs.append((nm, named(vm, e)))
    for tag, w in srcs:
        group_facts(vm, w, k)
        for nm, v in L.ints.items():
            if L.level.get(nm, 0):
                out.append(("%s = D(%s)" % (nm, tag), v == D(w, k)))
        out.append(("earlier groups of %s nonzero" % tag, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), D(w, j) > 0), patterns=[D(w, j)])))
        out.append(("D(%s) >= 0" % tag, D(w, k) >= 0))
        for nm, a in L.barrs.items():
            n = L.streams.get(nm + ".n")
            if n is None or not (L.level.get(nm + ".a", 0) or L.level.get(nm + ".n", 0)):
                continue
            a = named(vm, a)
            out.append(("%s suffix of %s" % (nm, tag), z3.ForAll([j], z3.Implies(z3.And(n - k <= j, j < n), a[j] == 128 + D(w, n - 1 - j) % 128), patterns=[a[j]])))
            out.append(("%s prefix of %s" % (nm, tag), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == 128 + D(w, j) % 128), patterns=[a[j]])))
            out.append(("%s prefix with continuation of %s" % (nm, tag), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == D(w, j) % 128 + z3.If(D(w, j) > 127, 128, 0)), patterns=[a[j]])))
    for nm in L.barrs:
        n = L.streams.get(nm + ".n")
        if n is not None and L.level.get(nm + ".n", 0):
            out.append((nm + " length = k", n == k))
    for nm, v in L.ints.items():
        if L.level.get(nm, 0):
            out += [(nm + " = k", v == k), (nm + " = -k", v == -k)]
            e = L.entry.get(nm)
            if vm.is_int(e) and not isinstance(e, (bool, SBool)):
                e = vm.int_t(e)
                out += [(nm + " = start - k", v == e - k), (nm + " = start + k", v == e + k), (nm + " bounded", v >= -1)]
    return out


def encode_driver(fn, name, spec, signed):
    def driver(vm):
        v = z3.Int("v")
        zero = vm.pick(True, False)
        vm.assume(v == 0 if zero else v != 0)
        for k in range(vm.unroll + 2 if vm.unroll is not None else 0):
            group_facts(vm, v, z3.IntVal(k))
            group_facts(vm, -v, z3.IntVal(k))
        try:
            r = vm.call(fn, [SInt(v)], {})
        except PyRaise as e:
            vm.cover("refused")
            vm.prove(name + ": only negative integers are refused, by unsigned encodings, with ValueError",
                     z3.BoolVal(not signed and issubclass(e.cls, ValueError)))
            vm.prove(name + ": non-negative integers are not refused", v < 0)
            return
        if not signed:
            vm.prove(name + ": negative integers are refused", v >= 0)
        vm.cover("encoded")
        n, a = as_arr(vm, r)
        spec(vm, name, v, n, a)
    return driver


def be_groups(vm, name, w, n, a, first_mask, first_extra):
    """n bytes, most significant group first."""
    j = z3.Int("jj")
    vm.assume(z3.And(0 <= j, j < n))
    i = S(n - 1 - j)
    for k in (i, z3.IntVal(0)):
        group_facts(vm, w, k)
    g = D(w, i) % 128
    cont_ = z3.If(j < n - 1, 128, 0)
    if first_extra is None:
        vm.prove(name + ": byte j is group n-1-j with the continuation bit except on the last", a[j] == cont_ + g)
    else:
        vm.prove(name + ": byte j is group n-1-j with the continuation bit except on the last, sign in bit 6 of the first",
                 a[j] == cont_ + z3.If(j == 0, D(w, i) % 64 + first_extra, g))


def sp_vlq(vm, name, v, n, a):
    b = bitlen(v)
    len_facts(vm, v, b, n)
    vm.prove(name + ": at least one byte", n >= 1)
    vm.prove(name + ": all groups are written", D(v, n) == 0)
    vm.prove(name + ": fewest bytes", z3.Or(n == 1, D(v, S(n - 1)) > 0))
    be_groups(vm, name, v, n, a, 128, None)


def sp_uleb(vm, name, v, n, a):
    group_facts(vm, v, n)
    group_facts(vm, v, S(n - 1))
    vm.assume(pow2(z3.IntVal(0)) == 1)
    vm.prove(name + ": at least one byte", n >= 1)
    vm.prove(name + ": all groups are written", D(v, n) == 0)
    vm.prove(name + ": fewest bytes", z3.Or(n == 1, D(v, S(n - 1)) > 0))
    j = z3.Int("jj")
    vm.assume(z3.And(0 <= j, j < n))
    group_facts(vm, v, j)
    group_facts(vm, v, S(j + 1))
    vm.prove(name + ": byte j is group j with the continuation bit except on the last",
             a[j] == D(v, j) % 128 + z3.If(j < n - 1, 128, 0))


def sp_compact(vm, name, v, n, a):
    w = z3.If(v < 0, -v, v)
    w = S(-v) if vm.valid(v < 0) else v
    if not vm.valid(w >= 0):
        vm.assume(z3.Or(v < 0, v >= 0))
        if vm.branch(v < 0):
            w = S(-v)
        else:
            w = v
    b = bitlen(w)
    len_facts(vm, w, b, n)
    vm.prove(name + ": at least one byte", n >= 1)
    vm.prove(name + ": all groups are written, 6 bits in the first", D(w, S(n - 1)) < 64)
    vm.prove(name + ": fewest bytes", z3.Or(n == 1, D(w, S(n - 2)) >= 64))
    be_groups(vm, name, w, n, a, 64, z3.If(v < 0, 64, 0))


def sp_leb(vm, name, v, n, a):
    """Two's complement of v in 7n bits, least significant group first."""
    w = z3.If(v < 0, v + P(n), v)
    vm.assume(z3.And(dP(n), lem_P_pow2(n), dP(S(n - 1)), lem_P_pow2(S(n - 1)), pow2(z3.IntVal(0)) == 1))
    b = bitlen(v)
    for x, y in ((b, S(7 * n - 1)), (S(b), S(7 * n)), (S(7 * n - 8), S(b - 1))):
        vm.assume(lem_pow2_mono(x, y))
    vm.assume(z3.And(lem_pow2_add(S(7 * n - 1), 1), lem_pow2_add(S(7 * n - 7), 6)))
    vm.prove(name + ": at least one byte", n >= 1)
    vm.prove(name + ": the value fits 7n-bit two's complement", z3.And(2 * v < P(n), -2 * v <= P(n)))
    ww = z3.Int("w")
    vm.assume(ww == w)
    j = z3.Int("jj")
    vm.assume(z3.And(0 <= j, j < n))
    for k in range(vm.unroll + 2 if vm.unroll is not None else 1):
        group_facts(vm, ww, z3.IntVal(k))
    g = D(ww, j)
    ok = vm.prove(name + ": byte j is group j of the two's complement with the continuation bit except on the last",
                  a[j] == g % 128 + z3.If(j < n - 1, 128, 0))


for _n, _f, _s, _sg in (("vlq", varints.encode_integer_vlq, sp_vlq, False), ("uleb128", varints.encode_integer_uleb128, sp_uleb, False),
                        ("compact", varints.encode_integer_compact, sp_compact, "compact"),
                        ("leb128", varints.encode_integer_leb128, sp_leb, True)):
    unit("varints.encode_" + _n, ["C01", "C02"], inv=enc_inv,
         under=["binobj.varints.encode_integer_" + _n])(encode_driver(_f, "encode_" + _n, _s, _sg))


# ---- round trips, as lemmas over the contracts above -----------------------------------
@unit("varints.round_trip", ["C01", "C02"])
def round_trip(vm):
    a = z3.Const("a", ArrS)
    v, w, n, k, m, j = z3.Ints("v w n k m jj")
    zero = z3.IntVal(0)
    pre = z3.And(n >= 1, v >= 0)
    cont_n = z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n - 1), a[j_] >= 128), patterns=[a[j_]])
    cont_m = z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < m - 1), a[j_] >= 128), patterns=[a[j_]])
    vm.prove("round trip: the decoder stops after the encoder's last byte",
             z3.Implies(z3.And(n >= 1, m >= 1, cont_n, a[n - 1] < 128, cont_m, a[m - 1] < 128), m == n))
    be = lambda i: z3.Implies(z3.And(0 <= i, i < n), a[i] == z3.If(i < n - 1, 128, 0) + D(v, S(n - 1 - i)) % 128)
    le = lambda i: z3.Implies(z3.And(0 <= i, i < n), a[i] == z3.If(i < n - 1, 128, 0) + D(v, i) % 128)
    be6 = lambda i, s: z3.Implies(z3.And(0 <= i, i < n), a[i] == z3.If(i < n - 1, 128, 0) + z3.If(i == 0, D(v, S(n - 1 - i)) % 64 + s, D(v, S(n - 1 - i)) % 128))
    # VLQ: VB(a, 0, k) = D(v, n - k)
    vm.prove("round trip vlq: base", z3.Implies(z3.And(pre, D(v, n) == 0, dVB(a, zero, zero)), VB(a, zero, zero) == D(v, n)))
    vm.prove("round trip vlq: step", z3.Implies(z3.And(pre, 0 <= k, k < n, be(k), dD(v, S(n - k)), dVB(a, zero, S(k + 1)), VB(a, zero, k) == D(v, S(n - k))),
                                                VB(a, zero, S(k + 1)) == D(v, S(n - k - 1))))
    vm.prove("round trip vlq: conclusion", z3.Implies(z3.And(dD(v, zero), VB(a, zero, n) == D(v, S(n - n))), VB(a, zero, n) == v))
    # compact indices: VC(a, 0, k) = D(v, n - k) for k >= 1, v the magnitude
    for s in (0, 64):
        vm.prove("round trip compact: base (sign bit %d)" % s, z3.Implies(
            z3.And(pre, D(v, S(n - 1)) < 64, D(v, S(n - 1)) >= 0, be6(zero, s), dVC(a, zero, z3.IntVal(1))), VC(a, zero, z3.IntVal(1)) == D(v, S(n - 1))))
        vm.prove("round trip compact: step (sign bit %d)" % s, z3.Implies(
            z3.And(pre, 1 <= k, k < n, be6(k, s), dD(v, S(n - k)), dVC(a, zero, S(k + 1)), VC(a, zero, k) == D(v, S(n - k))),
            VC(a, zero, S(k + 1)) == D(v, S(n - k - 1))))
        vm.prove("round trip compact: sign (sign bit %d)" % s, z3.Implies(z3.And(pre, be6(zero, s)), ((a[0] / 64) % 2 == 1) == z3.BoolVal(s == 64)))
    # ULEB128: VL(a, 0, k) + D(v, k) * P(k) = v; the product step is separate.
    x, y, q, d = z3.Ints("x y q d")
    vm.prove("round trip uleb128: base", z3.Implies(z3.And(dVL(a, zero, zero), dD(v, zero), dP(zero)), VL(a, zero, zero) + D(v, zero) * P(zero) == v))
    vm.prove("round trip uleb128: group", z3.Implies(z3.And(pre, 0 <= k, k < n, le(k)), a[k] % 128 == D(v, k) % 128))
    vm.prove("round trip uleb128: step (product part)", z3.Implies(z3.And(q == d / 128, x + d * y == v), (x + (d % 128) * y) + q * (128 * y) == v))
    vm.prove("round trip uleb128: conclusion", z3.Implies(z3.And(D(v, n) == 0, VL(a, zero, n) + D(v, n) * P(n) == v), VL(a, zero, n) == v))
    # LEB128: v = w or w + P(n) is the two's complement of w in 7n bits; VL = v as above.
    n1 = S(n - 1)
    vm.prove("round trip leb128: all groups are there", z3.Implies(z3.And(n >= 1, 0 <= v, v < P(n), P(n) >= 1, lem_D_bounds(v, n), D(v, n) * P(n) <= v,
                                                                        z3.Implies(D(v, n) >= 1, D(v, n) * P(n) >= P(n))), D(v, n) == 0))
    vm.prove("round trip leb128: product", z3.Implies(z3.And(y >= 1, d >= 1), d * y >= y))
    vm.prove("round trip leb128: last group decides the sign", z3.Implies(
        z3.And(pre, P(n1) >= 1, P(n) == 128 * P(n1), v < P(n), D(v, n1) < 128, D(v, n1) >= 0, lem_quot(v, D(v, n1), P(n1), 64),
               D(v, n1) * P(n1) <= v, v < (D(v, n1) + 1) * P(n1), le(n1)),
        ((a[n1] / 64) % 2 == 1) == (2 * v >= P(n))))
    vm.prove("round trip leb128: conclusion", z3.Implies(
        z3.And(n >= 1, 2 * w < P(n), -2 * w <= P(n), v == z3.If(w < 0, w + P(n), w), P(n) >= 2), z3.If(2 * v >= P(n), v - P(n), v) == w))
    vm.cover("lemma")
