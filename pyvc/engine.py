"""A deductive verifier for the Python subset binobj is written in.

The verifier symbolically executes the *real* function objects of the imported package: it
finds the syntax tree of a function in the file it was loaded from, resolves names through
the function's real globals, closures and class hierarchies, and explores all paths by
re-execution.  Loops whose number of iterations is symbolic are cut at their head: all
mutable state is havocked, invariants are inferred from candidate templates (Houdini) and
every used invariant is an obligation (entry and preservation).  Calls to functions that
have a contract use the contract, other package functions are executed symbolically.
"""
import ast
import builtins
import contextlib
import functools
import inspect
import os
import sys
import time
import types
import warnings

import z3

from .terms import *
from .terms import I

# --------------------------------------------------------------------------------------
# Source lookup
# --------------------------------------------------------------------------------------
_modcache = {}


def module_index(filename):
    if filename in _modcache:
        return _modcache[filename]
    with open(filename, "rb") as f:
        src = f.read()
    tree = ast.parse(src, filename)
    index = {}

    class Vis(ast.NodeVisitor):
        def __init__(self):
            self.stack = []

        def visit_ClassDef(self, n):
            self.stack.append(n.name)
            self.generic_visit(n)
            self.stack.pop()

        def visit_FunctionDef(self, n):
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            index.setdefault((first, n.name), n)
            n._cls = self.stack[-1] if self.stack else None
            self.stack.append(self.stack[-1] if self.stack else None)
            self.generic_visit(n)
            self.stack.pop()

        def visit_Lambda(self, n):
            index.setdefault((n.lineno, "<lambda>"), n)
            n._cls = self.stack[-1] if self.stack else None
            self.generic_visit(n)

    Vis().visit(tree)
    _modcache[filename] = index
    return index


def is_generator_node(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in _walk_own(node.body):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_own(nodes):
    todo = list(nodes)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                out.add(m.id)
            elif isinstance(m, ast.ExceptHandler) and m.name:
                out.add(m.name)
    return out


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


UNBOUND = object()


class Frame:
    __slots__ = ("locals", "parent", "fn", "globals", "node", "cls", "qualname", "vm", "nonlocals")

    def __init__(self, fn, node, globs, parent=None, cls=None, qualname=""):
        self.locals = {}
        self.parent = parent
        self.fn = fn
        self.node = node
        self.globals = globs
        self.cls = cls
        self.qualname = qualname
        self.nonlocals = set()


class GenCM(Sym):
    """What a function decorated with contextlib.contextmanager gives."""

    def __init__(self, gen):
        self.gen, self.it = gen, None


class Obl:
    __slots__ = ("name", "status", "solver", "time", "model", "detail", "trace", "havoc")

    def __init__(self, name, status, solver, t, model=None, detail=None, trace=(), havoc=False):
        self.havoc = havoc
        self.name, self.status, self.solver, self.time = name, status, solver, t
        self.model, self.detail, self.trace = model, detail, trace


class LoopInfo:
    """What a loop-invariant template sees: the ghost iteration count and the state."""

    def __init__(self, vm, qualname, k, n, frame, ordinal):
        self.vm, self.qualname, self.k, self.n = vm, qualname, k, n
        self.frame = frame
        self.ordinal = ordinal
        self.ints, self.vals, self.bytess = {}, {}, {}
        self.streams, self.dicts, self.lists, self.barrs = {}, {}, {}, {}
        self.consts, self.bools = {}, {}
        self.seq = None


pow2 = z3.Function("pow2", IntS, IntS)
bitlen = z3.Function("bitlen", IntS, IntS)
bor = z3.Function("bit_or", IntS, IntS, IntS)
band = z3.Function("bit_and", IntS, IntS, IntS)
rep = z3.Function("rep_byte", IntS, IntS, SeqS)
eqobj = z3.Function("py_eq", Val, Val, BoolS)
truthv = z3.Function("py_truth", Val, BoolS)
encode = z3.Function("str_encode", StrS, StrS, SeqS)
enc_ok = z3.Function("str_encode_ok", StrS, StrS, BoolS)
decode = z3.Function("bytes_decode", SeqS, StrS, StrS)
dec_ok = z3.Function("bytes_decode_ok", SeqS, StrS, BoolS)
strcat = z3.Function("str_cat", StrS, StrS, StrS)
i2b = z3.Function("int_to_bytes", IntS, IntS, BoolS, BoolS, SeqS)   # value, n, big, signed
b2i = z3.Function("int_from_bytes", SeqS, BoolS, BoolS, IntS)


class VM:
    def __init__(self, name, contracts=None, loop_inv=None, unroll=None, sentinels=None,
                 budget=240.0, prove_ms=10000, branch_ms=1500, max_paths=4000,
                 classmap=None):
        self.name = name
        self.contracts = contracts or {}
        self.loop_inv = loop_inv
        self.unroll = unroll
        self.deadline = time.time() + budget
        self.prove_ms, self.branch_ms = prove_ms, branch_ms
        self.max_paths = max_paths
        self.sent = sentinels or {}
        self.loop_state = {}
        self.obls = {}
        self.ocache = {}
        self.covers = {}
        self.assumptions = set()
        self.functions = set()
        self.solver_time = 0.0
        self.n_checks = 0
        self.paths = 0
        self.bounded = False
        self.quant = False      # the unit's facts are quantified: decide by E-matching alone
        self.stubs = {}
        self.universe, self.max_index = None, 4

    # ---------------------------------------------------------------- exploration
    def explore(self, driver):
        for _ in range(200):
            self.obls, self.ocache, self.covers = {}, {}, {}
            self.paths = 0
            try:
                work = [[]]
                while work:
                    prefix = work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise OutOfTime("more than %d paths" % self.max_paths)
                    self._start(prefix, work)
                    try:
                        driver(self)
                    except PathEnd:
                        pass
                return
            except Restart:
                continue
        raise Unsupported("invariant inference does not converge")

    def _start(self, prefix, work):
        self.prefix = prefix
        self.work = work
        self.trace = []
        self.solver = z3.Solver()
        self.pc = []
        self.nfresh = {}
        self.ocount = 0
        self.strs = {}
        self.objs = {}
        self.noid = 0
        self.frames = []
        self.roots = []
        self.loop_occ = {}
        self.known = set()
        self.depth = 0
        self.active = []
        self.gens = []
        self.havocked = False
        self.class_attrs = {}
        self.universe = None
        self.handling = []

    def fresh(self, base, sort):
        i = self.nfresh.get(base, 0)
        self.nfresh[base] = i + 1
        return z3.Const("%s!%d" % (base, i), sort)

    def assume(self, t):
        if z3.is_true(t):
            return
        key = t.get_id()
        self.pc.append(t)
        self.solver.add(t)

    fact = assume

    def fact1(self, key, t):
        """Add a definitional fact once per path."""
        if key in self.known:
            return
        self.known.add(key)
        self.assume(t() if callable(t) else t)

    def _check(self, extra, ms):
        self.tick()
        t0 = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            self.solver.set("timeout", ms)
            if self.quant:
                self.solver.set("mbqi", False)
            r = self.solver.check()
            m = None
            if r == z3.sat:
                m = self.solver.model()
            return str(r), m
        except z3.Z3Exception as e:
            return "unknown", None
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t0
            self.n_checks += 1

    # Quantification over names and indices; over a finite universe in a bounded instance.
    def forall_s(self, body, pat=None):
        if self.universe is not None:
            return z3.And([body(u) for u in self.universe] or [z3.BoolVal(True)])
        s = z3.Const("s!all", StrS)
        return z3.ForAll([s], body(s), patterns=pat(s) if pat else [])

    def exists_s(self, body):
        if self.universe is not None:
            return z3.Or([body(u) for u in self.universe] or [z3.BoolVal(False)])
        s = z3.Const("s!ex", StrS)
        return z3.Exists([s], body(s))

    def forall_i(self, lo, hi, body, pat=None):
        if self.universe is not None:
            return z3.And([z3.Implies(z3.And(lo <= j, j < hi), body(z3.IntVal(j))) for j in range(self.max_index)])
        j = z3.Int("j!all")
        return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), body(j)), patterns=pat(j) if pat else [])

    def exists_i(self, lo, hi, body):
        if self.universe is not None:
            return z3.Or([z3.And(lo <= j, j < hi, body(z3.IntVal(j))) for j in range(self.max_index)])
        j = z3.Int("j!ex")
        return z3.Exists([j], z3.And(lo <= j, j < hi, body(j)))

    def name_var(self, n):
        """Any name (one of the universe in a bounded instance)."""
        s = z3.Const(n, StrS)
        if self.universe is not None:
            self.assume(z3.Or([s == u for u in self.universe]))
        return s

    def tick(self):
        if time.time() > self.deadline:
            raise OutOfTime("time budget used up")

    def branch(self, t, why=""):
        """Decide a condition, forking when both outcomes are feasible."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            v = bool(d & 1)
            self.assume(t if v else z3.Not(t))
            return v
        r1, _ = self._check([t], self.branch_ms)
        if r1 == "unsat":
            self.trace.append(2)
            self.assume(z3.Not(t))
            return False
        r0, _ = self._check([z3.Not(t)], self.branch_ms)
        if r0 == "unsat":
            self.trace.append(3)
            self.assume(t)
            return True
        self.work.append(self.trace + [0])
        self.trace.append(1)
        self.assume(t)
        return True

    def choose(self, n, why=""):
        """Demonic choice between n alternatives (all are explored)."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d - 100
        for alt in range(n - 1, 0, -1):
            self.work.append(self.trace + [100 + alt])
        self.trace.append(100)
        return 0

    def pick(self, *alts):
        return alts[self.choose(len(alts))]

    def feasible(self):
        """End the path if its condition is contradictory."""
        r, _ = self._check([], self.branch_ms)
        if r == "unsat":
            raise PathEnd()

    def cover(self, name):
        """Record that a point is reachable (guards against vacuity)."""
        if self.covers.get(name) == "sat":
            return
        r, _ = self._check([], self.branch_ms)
        if r == "sat" or name not in self.covers:
            self.covers[name] = r
        if r == "unsat":
            raise PathEnd()

    def prove(self, name, t, soft=False):
        """Obligation: t follows from the path condition."""
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        key = (tuple(self.trace), self.ocount, name)
        self.ocount += 1
        if key in self.ocache:
            ob = self.ocache[key]
        else:
            ob = self._prove(name, t)
            self.ocache[key] = ob
            if not soft:
                self.obls.setdefault(name, []).append(ob)
        if ob.status == "proved":
            self.assume(t)
            return True
        return False

    def lemma(self, name, t):
        """Prove t from nothing (once per run); it becomes an obligation of the unit."""
        cache = self.__dict__.setdefault("_lemmas", {})
        if name not in cache:
            t0 = time.time()
            s = z3.Solver()
            s.add(z3.Not(t))
            r, who = self._cvc5(s), "cvc5"
            if r != "unsat":
                s.set("timeout", self.prove_ms)
                r, who = str(s.check()), "z3"
            cache[name] = Obl(name, {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), who, time.time() - t0, detail=None if r == "unsat" else str(t)[:2000])
        self.obls[name] = [cache[name]]

    def _prove(self, name, t):
        t0 = time.time()
        ts = z3.simplify(t)
        if z3.is_true(ts):
            return Obl(name, "proved", "simplifier", time.time() - t0, trace=tuple(self.trace))
        r, m = self._check([z3.Not(t)], self.prove_ms)
        who = "z3"
        if r == "unknown":
            # A second attempt in a fresh solver; then cvc5.
            s = z3.Solver()
            s.add(*self.pc)
            s.add(z3.Not(t))
            if self.quant:
                # In its own process: with quantifiers z3 at times ignores its time limit.
                r, m = self._external(s, ["z3-new", "-T:%d" % max(1, self.prove_ms // 1000)]), None
            else:
                s.set("timeout", self.prove_ms)
                t1 = time.time()
                r = str(s.check())
                m = s.model() if r == "sat" else None
                self.solver_time += time.time() - t1
            if r == "unknown":
                r = self._cvc5(s)
                who = "cvc5"
                if r == "sat":
                    r = "unknown"
        st = {"unsat": "proved", "sat": "refuted"}.get(r, "unknown")
        return Obl(name, st, who, time.time() - t0, m if st == "refuted" else None,
                   None if st == "proved" else str(ts)[:2000], trace=tuple(self.trace), havoc=self.havocked)

    def _cvc5(self, s):
        return self._external(s, ["cvc5", "--tlimit=%d" % self.prove_ms])

    def _external(self, s, cmd):
        import subprocess
        import tempfile
        t0 = time.time()
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=self.prove_ms / 1000 + 5)
                out = p.stdout.strip().split("\n")[0]
            finally:
                os.unlink(f.name)
            return out if out in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t0

    def valid(self, t, ms=None):
        """Is t implied by the path condition?  (Query only; not an obligation.)"""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        r, _ = self._check([z3.Not(t)], ms or max(1500, self.branch_ms * 2))
        return r == "unsat"

    # ---------------------------------------------------------------- values
    def strlit(self, s):
        """The Str constant of a concrete string; distinct strings are distinct."""
        if s not in self.strs:
            c = z3.Const("str:" + (s if s.isascii() and s.isprintable() else repr(s)), StrS)
            for other in self.strs.values():
                self.assume(c != other)
            self.strs[s] = c
        return self.strs[s]

    def oid(self, o):
        if o.oid is None:
            self.noid += 1
            o.oid = z3.IntVal(1000000 + self.noid)
        key = str(o.oid)
        self.objs.setdefault(key, o)
        return o.oid

    def real_oid(self, x):
        """Identity for a real (opaque) Python object embedded in Val."""
        for k, (o, t) in self.__dict__.setdefault("_reals", {}).items():
            if o is x:
                self.objs[str(t)] = x
                return t
        t = z3.IntVal(2000000 + len(self._reals))
        self._reals[len(self._reals)] = (x, t)
        self.objs[str(t)] = x
        return t

    def to_val(self, x):
        if isinstance(x, SVal):
            return x.t
        if x is None:
            return Val.VNone
        s = self.sentinel_term(x)
        if s is not None:
            return s
        if isinstance(x, bool):
            return Val.VBool(z3.BoolVal(x))
        if isinstance(x, int):
            return Val.VInt(z3.IntVal(x))
        if isinstance(x, SInt):
            return Val.VInt(x.t)
        if isinstance(x, SBool):
            return Val.VBool(x.t)
        if isinstance(x, (bytes, SBytes, BList)):
            return Val.VBytes(self.seq(x))
        if isinstance(x, str):
            return Val.VStr(self.strlit(x))
        if isinstance(x, SStr):
            return Val.VStr(x.t)
        if isinstance(x, SFloat) or hasattr(x, "pyvc_val"):
            return x.t
        if isinstance(x, (SObj, SDict, SList, SFn)):
            if not hasattr(x, "oid") or x.oid is None:
                return Val.VObj(self.real_oid(x))
            return Val.VObj(self.oid(x))
        return Val.VObj(self.real_oid(x))

    def sentinel_term(self, x):
        try:
            n = self.sent.get(x)
        except TypeError:
            return None
        return getattr(Val, n) if n else None

    def from_val(self, t):
        """Wrap a Val term, unwrapping constructors that are syntactically evident."""
        t = z3.simplify(t)
        if z3.is_app(t):
            n = t.decl().name()
            if n == "VNone":
                return None
            if n in ("VUndef", "VDefault", "VNotPresent"):
                for k, v in self.sent.items():
                    if v == n:
                        return k
            if n == "VInt":
                return self.mkint(t.arg(0))
            if n == "VBool":
                return self.mkbool(t.arg(0))
            if n == "VBytes":
                return SBytes(t.arg(0))
            if n == "VStr":
                return self.mkstr(t.arg(0))
            if n == "VObj":
                o = self.objs.get(str(t.arg(0)))
                if o is not None:
                    return o
        return SVal(t)

    def mkint(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def mkbool(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def mkstr(self, t):
        for s, c in self.strs.items():
            if c.eq(t):
                return s
        return SStr(t)

    def str_t(self, x):
        if isinstance(x, str):
            return self.strlit(x)
        if isinstance(x, SStr):
            return x.t
        if isinstance(x, SVal):
            if self.branch(Val.is_VStr(x.t)):
                return Val.str_of(x.t)
            raise self.pyerr(TypeError, "not a string")
        raise Unsupported("string expected, got %r" % (x,))

    def is_int(self, x):
        return isinstance(x, (int, SInt, SBool))

    def int_t(self, x):
        """Integer term of a number; TypeError in the program if it isn't one."""
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, SInt):
            return x.t
        if isinstance(x, SBool):
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(x, SVal):
            if self.branch(Val.is_VInt(x.t)):
                return Val.int_of(x.t)
            if self.branch(Val.is_VBool(x.t)):
                return z3.If(Val.bool_of(x.t), z3.IntVal(1), z3.IntVal(0))
            raise self.pyerr(TypeError, "an integer is required")
        if x is None or isinstance(x, (str, bytes, SBytes, SStr, SObj, SList, SDict)) or \
                self.sentinel_term(x) is not None:
            raise self.pyerr(TypeError, "an integer is required")
        raise Unsupported("integer expected, got %r" % (x,))

    def seq(self, x):
        """Sequence term of a bytes-like value."""
        if isinstance(x, SBytes):
            return x.t
        if isinstance(x, (bytes, bytearray)):
            if not x:
                return z3.Empty(SeqS)
            us = [z3.Unit(z3.IntVal(b)) for b in x]
            return us[0] if len(us) == 1 else z3.Concat(*us)
        if isinstance(x, BList):
            if not x.e:
                return z3.Empty(SeqS)
            us = [z3.Unit(I(b)) for b in x.e]
            return us[0] if len(us) == 1 else z3.Concat(*us)
        if isinstance(x, SVal):
            if self.branch(Val.is_VBytes(x.t)):
                return Val.bytes_of(x.t)
            raise self.pyerr(TypeError, "a bytes-like object is required")
        if isinstance(x, ABytes):
            raise Unsupported("array bytes used as a sequence")
        if x is None or isinstance(x, (int, str, SInt, SStr, SObj)) or self.sentinel_term(x) is not None:
            raise self.pyerr(TypeError, "a bytes-like object is required")
        raise Unsupported("bytes expected, got %r" % (x,))

    def isbytes(self, x):
        return isinstance(x, (bytes, bytearray, SBytes, BList, ABytes))

    def length(self, x):
        """Length term."""
        if isinstance(x, (str, bytes, tuple, list, dict, set, frozenset, bytearray, range)):
            return z3.IntVal(len(x))
        if isinstance(x, SBytes):
            return z3.Length(x.t)
        if isinstance(x, BList):
            return z3.IntVal(len(x.e))
        if isinstance(x, (ABytes, BArr, SSeq)):
            return x.n
        if isinstance(x, SList):
            return z3.IntVal(len(x.conc)) if x.conc is not None else x.n
        if isinstance(x, SDict):
            if x.conc is not None:
                return z3.IntVal(len(x.conc))
        if type(x).__name__ in ("SymKeySet", "KeysView", "DictView") or isinstance(x, SDict):
            from . import models
            d = models.keyset(self, x.d if type(x).__name__ == "DictView" else x)
            n = z3.Function("n_names", DomS, IntS)(d.dom)
            self.assume(z3.And(n >= 0, (n != 0) == self.z(d.pyvc_truth(self))))
            return n
        if isinstance(x, SVal):
            if self.branch(Val.is_VBytes(x.t)):
                return z3.Length(Val.bytes_of(x.t))
            if self.branch(z3.Or(Val.is_VNone(x.t), Val.is_VInt(x.t), Val.is_VBool(x.t),
                                 Val.is_VUndef(x.t), Val.is_VNotPresent(x.t), Val.is_VDefault(x.t))):
                raise self.pyerr(TypeError, "object has no len()")
            f = z3.Function("py_len", Val, IntS)
            self.assume(f(x.t) >= 0)
            return f(x.t)
        if isinstance(x, SStr):
            f = z3.Function("str_len", StrS, IntS)
            self.assume(f(x.t) >= 0)
            return f(x.t)
        if isinstance(x, SObj):
            m = self.find_class_attr(x.cls, "__len__")
            if m is not UNBOUND:
                return self.int_t(self.call(Bound(m, x), [], {}))
        if x is None or self.is_int(x):
            raise self.pyerr(TypeError, "object has no len()")
        raise Unsupported("len of %r" % (x,))

    def pyerr(self, cls, msg="", **attrs):
        o = SObj(cls, {"args": (msg,), **attrs}, name="%s(%s)" % (cls.__name__, msg))
        return PyRaise(o)

    # ---------------------------------------------------------------- equality, truth
    def ident(self, a, b):
        """`a is b` as bool or z3 Bool."""
        if a is b:
            return True
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, (SStr, SInt, SBytes)) or isinstance(b, (SStr, SInt, SBytes)):
                raise Unsupported("identity of immutable values")
            return self.to_val(a) == self.to_val(b)
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.t == b
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.t == a
        if isinstance(a, SObj) and isinstance(b, SObj) and a.oid is not None and b.oid is not None:
            return a.oid == b.oid
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        return False

    def eq(self, a, b):
        """`a == b` as bool or z3 Bool."""
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                return z3.And(*[self.z(self.eq(x, y)) for x, y in zip(a, b)]) if a else True
            return bool(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj):
                m = self.find_class_attr(x.cls, "__eq__")
                if isinstance(m, types.FunctionType):
                    return self.truth_t(self.call(Bound(m, x), [y], {}))
        if isinstance(a, SVal) or isinstance(b, SVal):
            return self.val_eq(self.to_val(a), self.to_val(b))
        if isinstance(a, SFloat) or isinstance(b, SFloat):
            return self.val_eq(self.to_val(a), self.to_val(b))
        if self.is_int(a) and self.is_int(b):
            return self.int_t(a) == self.int_t(b)
        if self.isbytes(a) and self.isbytes(b):
            return self.bytes_eq(a, b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.str_t(a) == self.str_t(b)
        if isinstance(a, SObj) and isinstance(b, SObj):
            if a is b:
                return True
            x, y = self.to_val(a), self.to_val(b)
            return z3.Or(eqobj(x, y), eqobj(y, x))
        if isinstance(a, SList) and isinstance(b, SList) and a.conc is not None and b.conc is not None:
            if len(a.conc) != len(b.conc):
                return False
            return z3.And(*[self.z(self.eq(x, y)) for x, y in zip(a.conc, b.conc)]) if a.conc else True
        if isinstance(a, SDict) and isinstance(b, SDict):
            return self.dict_eq(a, b)
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != kb:
            return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def dict_eq(self, a, b):
        if a.conc is not None and b.conc is not None:
            if set(a.conc) != set(b.conc):
                return False
            ts = [self.z(self.eq(a.conc[k], b.conc[k])) for k in a.conc]
            return z3.And(*ts) if ts else True
        da, va = self.dict_arrays(a)
        db, vb = self.dict_arrays(b)
        f = z3.Function("py_dict_eq", DomS, MapS, DomS, MapS, BoolS)
        t = f(da, va, db, vb)
        self.fact1(("dict_eq", t.get_id()), lambda: t == self.forall_s(lambda s: z3.And(da[s] == db[s], z3.Implies(da[s], self.val_eq(va[s], vb[s])))))
        return t

    def kind(self, x):
        if x is None:
            return "none"
        if self.sentinel_term(x) is not None:
            return "sentinel"
        if self.is_int(x):
            return "int"
        if self.isbytes(x):
            return "bytes"
        if isinstance(x, (str, SStr)):
            return "str"
        if isinstance(x, (list, SList)):
            return "list"
        if isinstance(x, tuple):
            return "tuple"
        if isinstance(x, (dict, SDict)):
            return "dict"
        return None

    def bytes_eq(self, a, b):
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(b, BList) and isinstance(a, (bytes, BList)):
            a, b = b, a
        if isinstance(a, BList) and isinstance(b, (bytes, BList)):
            eb = list(b) if isinstance(b, bytes) else b.e
            if len(a.e) != len(eb):
                return False
            return z3.And(*[I(x) == I(y) for x, y in zip(a.e, eb)]) if eb else True
        if isinstance(a, ABytes) and isinstance(b, ABytes):
            j = z3.Int("j!beq")
            return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), a.a[j] == b.a[j])))
        return self.seq(a) == self.seq(b)

    def val_eq(self, a, b):
        """Python's == on Val terms: structural on ints, bytes, strings and sentinels."""
        isnum = lambda t: z3.Or(Val.is_VInt(t), Val.is_VBool(t))
        num = lambda t: z3.If(Val.is_VInt(t), Val.int_of(t), z3.If(Val.bool_of(t), z3.IntVal(1), z3.IntVal(0)))
        return z3.simplify(z3.If(z3.And(isnum(a), isnum(b)), num(a) == num(b),
                                 z3.If(z3.Or(Val.is_VObj(a), Val.is_VObj(b)), z3.Or(eqobj(a, b), eqobj(b, a)), a == b)))

    def z(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def truth_t(self, x):
        """Truth value as bool or z3 Bool."""
        if isinstance(x, (SBool,)):
            return x.t
        if isinstance(x, SInt):
            return x.t != 0
        if isinstance(x, (SBytes, BList, ABytes, BArr, SSeq)):
            return self.length(x) != 0
        if isinstance(x, SList):
            return bool(x.conc) if x.conc is not None else x.n != 0
        if isinstance(x, SDict):
            if x.conc is not None:
                return bool(x.conc)
            # Non-empty iff some key is in the domain.
            f = z3.Function("dom_nonempty", DomS, BoolS)
            k = z3.Const("k!dn", StrS)
            self.assume(f(x.dom) == self.exists_s(lambda k: x.dom[k]))
            return f(x.dom)
        if isinstance(x, SVal):
            t = x.t
            return z3.If(Val.is_VNone(t), z3.BoolVal(False),
                         z3.If(Val.is_VInt(t), Val.int_of(t) != 0,
                               z3.If(Val.is_VBool(t), Val.bool_of(t),
                                     z3.If(Val.is_VBytes(t), z3.Length(Val.bytes_of(t)) != 0,
                                           z3.If(z3.Or(Val.is_VObj(t), Val.is_VStr(t)), truthv(t), z3.BoolVal(True))))))
        if isinstance(x, SStr):
            return x.t != self.strlit("")
        if isinstance(x, SObj):
            for nm in ("__bool__", "__len__"):
                m = self.find_class_attr(x.cls, nm)
                if m is not UNBOUND:
                    return self.truth_t(self.call(Bound(m, x), [], {}))
            return True
        h = getattr(x, "pyvc_truth", None)
        if isinstance(x, Sym) and h is not None:
            return h(self)
        if isinstance(x, (SFn, Closure, Native, Bound, Partial, SIter, SGen, SStream, SuperObj)):
            return True
        if isinstance(x, Sym):
            raise Unsupported("truth value of %r" % (x,))
        return bool(x)

    def truth(self, x):
        return self.branch(self.truth_t(x))

    # ---------------------------------------------------------------- attributes
    def find_class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in vars(c):
                return vars(c)[name]
        return UNBOUND

    def class_attr(self, cls, name):
        """A class attribute the unit gave a symbolic value."""
        if self.class_attrs:
            for c in cls.__mro__:
                if (c, name) in self.class_attrs:
                    return self.class_attrs[c, name]
        return UNBOUND

    def getattr(self, o, name, strict=True):
        from . import models
        if isinstance(o, SVal):
            raise Unsupported("attribute %s of an opaque value" % name)
        if isinstance(o, SObj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return SDict(o.attrs)
            v = self.class_attr(o.cls, name)
            if v is not UNBOUND:
                return v
            ca = self.find_class_attr(o.cls, name)
            if isinstance(ca, property):
                return self.call(ca.fget, [o], {})
            st = self.stubs.get((o.cls, name))
            if name in o.attrs:
                return o.attrs[name]
            if o.lazy is not None:
                v = o.lazy(self, name)
                if v is not NotImplemented:
                    o.attrs[name] = v
                    return v
            if ca is UNBOUND:
                ga = self.find_class_attr(o.cls, "__getattr__")
                if ga is not UNBOUND:
                    return self.call(Bound(ga, o), [name], {})
                if strict and not o.complete:
                    # A pre-state made by a unit may lack what the real constructor sets.
                    raise Unsupported("attribute %s of %r" % (name, o))
                raise self.pyerr(AttributeError, name)
            return self.bind_class_attr(ca, o, o.cls, name)
        if isinstance(o, SuperObj):
            if isinstance(o.obj, Sym) and hasattr(o.obj, "pyvc_mro"):
                mro = o.obj.pyvc_mro
            else:
                mro = (o.obj.cls if isinstance(o.obj, SObj) else o.obj).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in vars(c):
                    ca = vars(c)[name]
                    if isinstance(ca, property):
                        return self.call(ca.fget, [o.obj], {})
                    if isinstance(o.obj, SObj):
                        return self.bind_class_attr(ca, o.obj, c, name)
                    return self.bind_class_attr(ca, None, o.obj, name)
            raise self.pyerr(AttributeError, name)
        if isinstance(o, Closure):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            raise Unsupported("attribute %s of a nested function" % name)
        if isinstance(o, (SInt, SBool, SBytes, BList, ABytes, BArr, SStr, SStream, SDict, SList, SSeq, SFloat, Rational, SGen)):
            m = models.method(self, o, name)
            if m is not NotImplemented:
                return m
            if isinstance(o, (SInt, SBool, SBytes, BList, ABytes, SStr, SFloat)):
                raise self.pyerr(AttributeError, name)
            raise Unsupported("attribute %s of %r" % (name, o))
        h = getattr(o, "pyvc_method", None)
        if h is not None and isinstance(o, Sym):
            return h(self, name)
        if isinstance(o, Sym):
            raise Unsupported("attribute %s of %r" % (name, o))
        # Real objects.
        if isinstance(o, type):
            v = self.class_attr(o, name)
            if v is not UNBOUND:
                return v
            ca = None
            for c in o.__mro__:
                if name in vars(c):
                    ca = vars(c)[name]
                    break
            if isinstance(ca, classmethod):
                return Bound(ca.__func__, o)
            if isinstance(ca, staticmethod):
                return ca.__func__
            if isinstance(ca, types.FunctionType):
                return ca
        if isinstance(o, (int, bytes, str)) and not isinstance(o, bool) and type(o) in (int, bytes, str):
            m = models.method(self, o, name)
            if m is not NotImplemented:
                return m
        if isinstance(o, functools.partial) and name in ("func", "args", "keywords"):
            return getattr(o, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise self.pyerr(AttributeError, str(e))

    def bind_class_attr(self, ca, o, cls, name):
        if name == "__new__":
            return ca.__func__ if isinstance(ca, staticmethod) else ca
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, classmethod):
            return Bound(ca.__func__, cls)
        if isinstance(ca, types.FunctionType):
            return Bound(ca, o) if o is not None else ca
        if isinstance(ca, (SFn, Native)):
            return Bound(ca, o) if o is not None else ca
        if isinstance(ca, property):
            return ca
        if isinstance(ca, (types.WrapperDescriptorType, types.MethodDescriptorType,
                           types.BuiltinFunctionType, types.ClassMethodDescriptorType)):
            return Bound(ca, o)
        if isinstance(ca, functools.cached_property):
            v = self.call(ca.func, [o], {})
            o.attrs[name] = v
            return v
        if hasattr(type(ca), "__get__") and not isinstance(ca, type):
            g = type(ca).__get__
            if isinstance(g, types.FunctionType) and o is not None:
                raise Unsupported("descriptor %s" % name)
        return ca

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            ca = self.find_class_attr(o.cls, name)
            if isinstance(ca, property):
                if ca.fset is None:
                    raise self.pyerr(AttributeError, "can't set " + name)
                self.call(ca.fset, [o, v], {})
                return
            if o.lazy is not None:
                pass
            o.attrs[name] = v
            return
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        h = getattr(o, "pyvc_setattr", None)
        if h is not None and isinstance(o, Sym):
            h(self, name, v)
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    def hasattr(self, o, name):
        try:
            self.getattr(o, name, False)
            return True
        except PyRaise as e:
            if issubclass(e.cls, AttributeError):
                return False
            raise

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        from . import models
        self.depth += 1
        try:
            if self.depth > 300:
                raise Unsupported("call depth")
            return self._call(f, args, kw, models)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw, models):
        if isinstance(f, Bound):
            h = self.contracts.get(f.fn)
            if h is not None:
                return h(self, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, SFn):
            return f.fn(self, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Closure):
            return self.call_node(f.node, f, args, kw)
        if isinstance(f, SObj):
            m = self.find_class_attr(f.cls, "__call__")
            if m is UNBOUND:
                raise self.pyerr(TypeError, "not callable")
            return self.call(Bound(m, f), args, kw)
        if isinstance(f, Sym):
            raise Unsupported("call of %r" % (f,))
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kw})
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kw)
        m = models.builtin(self, f)
        if m is not NotImplemented:
            return m(self, list(args), kw)
        if isinstance(f, types.FunctionType):
            mod = f.__module__ or ""
            if f.__code__.co_name == "helper" and f.__code__.co_filename == contextlib.__file__ and hasattr(f, "__wrapped__"):
                g = self.call(f.__wrapped__, args, kw)
                if not isinstance(g, SGen):
                    raise Unsupported("context manager")
                return GenCM(g)
            if mod == "binobj" or mod.startswith("binobj."):
                return self.call_function(f, args, kw)
            if mod == "collections.abc" and f.__qualname__ in ("Mapping.get", "Mapping.__contains__") and len(args) >= 2:
                # The mixin methods: by looking the key up.
                try:
                    r = models.getitem(self, args[0], args[1])
                    return r if f.__name__ == "get" else True
                except PyRaise as e:
                    if not issubclass(e.exc.cls, KeyError):
                        raise
                    return False if f.__name__ != "get" else args[2] if len(args) > 2 else kw.get("default")
            raise Unsupported("call of %s.%s" % (mod, f.__qualname__))
        if isinstance(f, type):
            return self.construct(f, args, kw)
        raise Unsupported("call of %r" % (f,))

    def construct(self, cls, args, kw):
        from . import models
        mod = cls.__module__ or ""
        if not (mod == "binobj" or mod.startswith("binobj.") or cls.__dict__.get("__pyvc__")
                or issubclass(cls, BaseException)):
            raise Unsupported("construction of %s" % cls)
        new = self.find_class_attr(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(new, [cls] + list(args), kw)
        else:
            o = SObj(cls)
        if isinstance(o, SObj):
            o.complete = True
            o.cls = o.cls or cls
            self.oid(o)
            init = self.find_class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kw)
            elif issubclass(cls, BaseException):
                o.attrs.setdefault("args", tuple(args))
        return o

    def node_of(self, f):
        code = f.__code__
        idx = module_index(code.co_filename)
        node = idx.get((code.co_firstlineno, code.co_name))
        if node is None:
            raise Unsupported("no source for %s" % f.__qualname__)
        return node

    def call_function(self, f, args, kw):
        node = self.node_of(f)
        key = (f, tuple(self.akey(a) for a in args), tuple(sorted((k, self.akey(a)) for k, a in kw.items())))
        if self.active.count(key) >= 2:
            # The same call with the same arguments is already being executed.
            raise self.pyerr(RecursionError, "maximum recursion depth exceeded")
        self.functions.add("%s.%s" % (f.__module__, f.__qualname__))
        fr = Frame(f, node, f.__globals__, None, getattr(node, "_cls", None),
                   f.__module__ + "." + f.__qualname__)
        self.bind_args(fr, node, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)
        self.active.append(key)
        try:
            return self.run(fr, node)
        finally:
            self.active.pop()

    def akey(self, a):
        """Identity of an argument, including the state of mutable objects."""
        if isinstance(a, SDict):
            if a.conc is None:
                return ("d", a.dom.get_id(), a.val.get_id())
            return ("dc", id(a), len(a.conc))
        if isinstance(a, SStream):
            return ("s", id(a), z3.simplify(a.pos).get_id(), a.data.get_id())
        if isinstance(a, (SVal, SInt, SStr, SBool)):
            return ("t", a.t.get_id())
        if isinstance(a, (int, str, bytes)) or a is None:
            return ("c", repr(a))
        return id(a)

    def call_node(self, node, clo, args, kw):
        fr = Frame(clo, node, clo.frame.globals, clo.frame, clo.frame.cls,
                   clo.frame.qualname + "." + clo.name)
        self.bind_args(fr, node, args, kw, clo.defaults, clo.kwdefaults, clo.name)
        return self.run(fr, node)

    def bind_args(self, fr, node, args, kw, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        loc = fr.locals
        if len(args) > len(pos) and not a.vararg:
            raise self.pyerr(TypeError, "%s() takes %d arguments" % (name, len(pos)))
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kw and i >= len(a.posonlyargs):
                    raise self.pyerr(TypeError, "multiple values for %s" % p)
                loc[p] = args[i]
            elif p in kw:
                loc[p] = kw.pop(p)
            else:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    raise self.pyerr(TypeError, "%s() missing argument %s" % (name, p))
                loc[p] = defaults[j]
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise self.pyerr(TypeError, "%s() missing keyword argument %s" % (name, x.arg))
        extra = kw.pop("**sym", None)
        if a.kwarg:
            loc[a.kwarg.arg] = SDict(conc=extra.conc, dom=extra.dom, val=extra.val) if extra is not None and not kw else SDict(kw)
            if extra is not None and kw:
                raise Unsupported("mixed symbolic keyword arguments")
        elif kw or extra is not None:
            raise self.pyerr(TypeError, "%s() got unexpected keyword arguments %s" % (name, list(kw)))

    def run(self, fr, node):
        if isinstance(node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(node.body, fr)
            finally:
                self.frames.pop()
        if is_generator_node(node):
            return SGen(self.exec_gen(node.body, fr), fr)
        g = self.exec_body(node.body, fr)
        self.frames.append(fr)
        try:
            for _ in g:
                raise Unsupported("yield outside a generator")
        except _Return as r:
            return r.v
        finally:
            self.frames.pop()
        return None

    def exec_gen(self, body, fr):
        try:
            yield from self.exec_body(body, fr)
        except _Return:
            return

    # ---------------------------------------------------------------- statements
    def exec_body(self, stmts, fr):
        for s in stmts:
            yield from self.exec(s, fr)

    def exec(self, s, fr):
        self.cur = s
        T = type(s)
        if T is ast.Expr:
            if isinstance(s.value, ast.Yield):
                v = self.ev(s.value.value, fr) if s.value.value else None
                yield v
                return
            if isinstance(s.value, ast.YieldFrom):
                if isinstance(s.value.value, ast.GeneratorExp):
                    yield from self.exec(self.yield_loop(s, s.value.value.generators, s.value.value.elt), self.comp_frame(fr))
                    return
                it = self.iterator_of(self.ev(s.value.value, fr))
                if isinstance(it, SGen) and it.consumer is None and self.gens:
                    it.consumer = self.gens[-1].consumer
                src, it = it, self.iterate(it)
                if it is None:
                    sub = self.comp_frame(fr)
                    sub.locals["_pyvc_src"] = src
                    g = ast.comprehension(ast.Name("_pyvc_x", ast.Store()), ast.Name("_pyvc_src", ast.Load()), [], 0)
                    yield from self.exec(self.yield_loop(s, [g], ast.Name("_pyvc_x", ast.Load())), sub)
                    return
                while True:
                    try:
                        v = next(it)
                    except StopIteration:
                        return
                    yield v
                return
            self.ev(s.value, fr)
        elif T is ast.Return:
            raise _Return(self.ev(s.value, fr) if s.value else None)
        elif T is ast.Assign:
            v = self.ev(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
        elif T is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif T is ast.AugAssign:
            self.augassign(s, fr)
        elif T is ast.If:
            if self.truth(self.ev(s.test, fr)):
                yield from self.exec_body(s.body, fr)
            else:
                yield from self.exec_body(s.orelse, fr)
        elif T is ast.While:
            yield from self.exec_while(s, fr)
        elif T is ast.For:
            yield from self.exec_for(s, fr)
        elif T is ast.Raise:
            self.do_raise(s, fr)
        elif T is ast.Try:
            yield from self.exec_try(s, fr)
        elif T is ast.Pass:
            pass
        elif T is ast.Break:
            raise _Break()
        elif T is ast.Continue:
            raise _Continue()
        elif T is ast.FunctionDef:
            d = [self.ev(x, fr) for x in s.args.defaults]
            kd = {a.arg: self.ev(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
            f = Closure(s, fr, s.name, d, kd)
            for dec in reversed(s.decorator_list):
                f = self.call(self.ev(dec, fr), [f], {})
            self.store(s.name, f, fr)
        elif T is ast.Delete:
            for t in s.targets:
                self.delete(t, fr)
        elif T is ast.Assert:
            if not self.truth(self.ev(s.test, fr)):
                raise self.pyerr(AssertionError)
        elif T in (ast.Import, ast.ImportFrom):
            self.do_import(s, fr)
        elif T is ast.Nonlocal or T is ast.Global:
            fr.nonlocals.update(s.names)
            if T is ast.Global:
                raise Unsupported("global statement")
        elif T is ast.With:
            yield from self.exec_with(s, fr)
        else:
            raise Unsupported("statement %s" % T.__name__)
        return
        yield

    def yield_loop(self, s, generators, elt):
        """The loop that `yield from` a sequence or a generator expression stands for."""
        if not hasattr(s, "pyvc_loop"):
            body = [ast.Expr(ast.Yield(elt))]
            for g in reversed(generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            s.pyvc_loop = ast.fix_missing_locations(ast.copy_location(body[0], s))
        return s.pyvc_loop

    def do_import(self, s, fr):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                self.store(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]), fr)
        else:
            if s.level:
                raise Unsupported("relative import")
            m = importlib.import_module(s.module)
            for a in s.names:
                self.store(a.asname or a.name, getattr(m, a.name), fr)

    def exec_with(self, s, fr, i=0):
        if i == len(s.items):
            yield from self.exec_body(s.body, fr)
            return
        item = s.items[i]
        cm = self.ev(item.context_expr, fr)
        enter, leave = self.context_manager(cm)
        v = enter()
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            yield from self.exec_with(s, fr, i + 1)
        except PyRaise as e:
            if self.truth(leave(e)):
                return
            raise
        except (_Return, _Break, _Continue):
            leave(None)
            raise
        else:
            leave(None)

    def context_manager(self, cm):
        """(what entering it does, what leaving it does given the PyRaise or None; true = swallow)."""
        from . import models
        if isinstance(cm, SStream):
            def leave(e):
                cm.closed = True
                return False
            return lambda: cm, leave
        if isinstance(cm, contextlib.suppress):
            return lambda: None, lambda e: e is not None and issubclass(e.cls, cm._exceptions)
        if isinstance(cm, contextlib.nullcontext):
            return lambda: cm.enter_result, lambda e: False
        if isinstance(cm, warnings.catch_warnings):
            return lambda: None, lambda e: False
        if isinstance(cm, GenCM):
            g = cm.gen

            def enter():
                cm.it = self.gen_iter(g)
                try:
                    return next(cm.it)
                except StopIteration:
                    raise self.pyerr(RuntimeError, "generator didn't yield")

            def leave(e):
                self.frames.append(g.frame)
                self.gens.append(g)
                try:
                    if e is None:
                        try:
                            next(g.gen)
                        except StopIteration:
                            return False
                    else:
                        try:
                            g.gen.throw(e)
                        except StopIteration:
                            return True
                        except PyRaise as e2:
                            if e2.exc is e.exc:
                                return False
                            raise
                    raise self.pyerr(RuntimeError, "generator didn't stop")
                finally:
                    self.gens.pop()
                    self.frames.pop()
            return enter, leave
        if isinstance(cm, SObj):
            en, ex = self.find_class_attr(cm.cls, "__enter__"), self.find_class_attr(cm.cls, "__exit__")
            if en is not UNBOUND and ex is not UNBOUND:
                def leave(e):
                    return self.call(Bound(ex, cm), [None] * 3 if e is None else [e.cls, e.exc, None], {})
                return lambda: self.call(Bound(en, cm), [], {}), leave
        raise Unsupported("with statement over %r" % (cm,))

    def do_raise(self, s, fr):
        if s.exc is None:
            if not getattr(self, "handling", None):
                raise Unsupported("bare raise")
            raise PyRaise(self.handling[-1])
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, SObj) and issubclass(e.cls, BaseException):
            e.attrs.setdefault("__where__", getattr(s, "lineno", None))
            raise PyRaise(e)
        raise Unsupported("raise %r" % (e,))

    def exec_try(self, s, fr):
        def inner():
            try:
                yield from self.exec_body(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.ev(h.type, fr)
                        cs = c if isinstance(c, tuple) else (c,)
                        ok = any(issubclass(e.cls, x) for x in cs)
                    if ok:
                        if h.name:
                            self.store(h.name, e.exc, fr)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(e.exc)
                        try:
                            yield from self.exec_body(h.body, fr)
                        finally:
                            self.handling.pop()
                        return
                raise
            else:
                yield from self.exec_body(s.orelse, fr)
        if not s.finalbody:
            yield from inner()
            return
        try:
            yield from inner()
        except (PyRaise, _Return, _Break, _Continue):
            yield from self.exec_body(s.finalbody, fr)
            raise
        else:
            yield from self.exec_body(s.finalbody, fr)

    # ---------------------------------------------------------------- assignment
    def store(self, name, v, fr):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
            raise Unsupported("nonlocal %s" % name)
        fr.locals[name] = v

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls:
            return "_%s%s" % (fr.cls.lstrip("_"), name)
        return name

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            from . import models
            models.setitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise self.pyerr(ValueError, "not enough values to unpack")
                vs = vs[:i] + [SList(vs[i:len(vs) - after])] + vs[len(vs) - after:]
            if len(vs) != len(t.elts):
                raise self.pyerr(ValueError, "unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SList) and v.conc is not None:
            return list(v.conc)
        if isinstance(v, SIter):
            return list(v.it)
        raise Unsupported("unpacking %r" % (v,))

    def augassign(self, s, fr):
        from . import models
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = models.binop(self, s.op, cur, self.ev(s.value, fr), inplace=True)
            self.store(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr(o, nm)
            self.setattr(o, nm, models.binop(self, s.op, cur, self.ev(s.value, fr), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = models.getitem(self, o, i)
            models.setitem(self, o, i, models.binop(self, s.op, cur, self.ev(s.value, fr), inplace=True))
        else:
            raise Unsupported("augmented assignment")

    def delete(self, t, fr):
        from . import models
        if isinstance(t, ast.Name):
            fr.locals.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            models.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, SObj):
                if t.attr not in o.attrs:
                    raise self.pyerr(AttributeError, t.attr)
                del o.attrs[t.attr]
            else:
                raise Unsupported("del attribute")
        else:
            raise Unsupported("del")

    # ---------------------------------------------------------------- expressions
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            last = f
            f = f.parent
        fn = last.fn
        if isinstance(fn, types.FunctionType) and name in fn.__code__.co_freevars:
            c = fn.__closure__[fn.__code__.co_freevars.index(name)]
            try:
                return c.cell_contents
            except ValueError:
                raise Unsupported("empty cell %s" % name)
        if isinstance(fn, types.FunctionType) and name in fn.__code__.co_varnames and \
                name not in last.globals and not hasattr(builtins, name):
            raise self.pyerr(UnboundLocalError, name)
        if name in last.globals:
            return last.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise self.pyerr(NameError, name)

    def ev(self, e, fr):
        from . import models
        T = type(e)
        if T is ast.Constant:
            return e.value
        if T is ast.Name:
            return self.lookup(e.id, fr)
        if T is ast.Attribute:
            return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))
        if T is ast.Call:
            return self.ev_call(e, fr)
        if T is ast.BinOp:
            return models.binop(self, e.op, self.ev(e.left, fr), self.ev(e.right, fr))
        if T is ast.UnaryOp:
            return models.unop(self, e.op, self.ev(e.operand, fr))
        if T is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            v = None
            for i, x in enumerate(e.values):
                v = self.ev(x, fr)
                if i == len(e.values) - 1:
                    return v
                if self.truth(v) != isand:
                    return v
            return v
        if T is ast.Compare:
            left = self.ev(e.left, fr)
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                right = self.ev(r, fr)
                res = models.compare(self, op, left, right)
                if i == len(e.ops) - 1:
                    return res
                if not self.truth(res):
                    return False
                left = right
        if T is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)
        if T is ast.Subscript:
            return models.getitem(self, self.ev(e.value, fr), self.ev_index(e.slice, fr))
        if T is ast.Tuple:
            return tuple(self.ev_elts(e.elts, fr))
        if T is ast.List:
            return SList(self.ev_elts(e.elts, fr))
        if T is ast.Set:
            vs = self.ev_elts(e.elts, fr)
            if any(isinstance(v, Sym) for v in vs):
                raise Unsupported("set of symbolic values")
            return set(vs)
        if T is ast.Dict:
            d = SDict({})
            for k, v in zip(e.keys, e.values):
                if k is None:
                    models.dict_update(self, d, self.ev(v, fr))
                else:
                    kk = self.ev(k, fr)
                    models.setitem(self, d, kk, self.ev(v, fr))
            return d
        if T is ast.JoinedStr:
            return self.ev_fstring(e, fr)
        if T is ast.Lambda:
            d = [self.ev(x, fr) for x in e.args.defaults]
            kd = {a.arg: self.ev(x, fr) for a, x in zip(e.args.kwonlyargs, e.args.kw_defaults) if x is not None}
            return Closure(e, fr, "<lambda>", d, kd)
        if T in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            return self.ev_comp(e, fr)
        if T is ast.NamedExpr:
            v = self.ev(e.value, fr)
            f = fr
            while getattr(f, "qualname", "").endswith("<comp>") and f.parent is not None:
                f = f.parent
            self.store(e.target.id, v, f)
            return v
        if T is ast.Starred:
            raise Unsupported("starred expression")
        if T is ast.Slice:
            return self.ev_index(e, fr)
        raise Unsupported("expression %s" % T.__name__)

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, fr)

    def ev_fstring(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int, type)) and v.conversion in (-1, None) and v.format_spec is None:
                    parts.append(format(x))
                elif isinstance(x, (str, int, bytes)) and v.conversion == 114 and v.format_spec is None:
                    parts.append(repr(x))
                else:
                    parts.append(None)
        if all(p is not None for p in parts):
            return "".join(parts)
        return SStr(self.fresh("fstr", StrS))

    def ev_call(self, e, fr):
        from . import models
        # super() needs the frame.
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = self.lookup("__class__", fr)
            f = fr
            while f.parent is not None:
                f = f.parent
            first = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return SuperObj(cls, f.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec") and not e.args:
            raise Unsupported(e.func.id)
        f = self.ev(e.func, fr)
        # Folds over comprehensions are evaluated as loops.
        if f in (sum, any, all, list, tuple, set, dict, sorted) and len(e.args) == 1 and not e.keywords \
                and isinstance(e.args[0], ast.GeneratorExp):
            r = self.fold_comp(f, e.args[0], fr)
            if r is not NotImplemented:
                return r
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                args.extend(self.unpack(v))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, SDict):
                    if v.conc is not None and all(isinstance(x, str) for x in v.conc):
                        kw.update(v.conc)
                    else:
                        kw["**sym"] = v
                elif isinstance(v, dict):
                    kw.update(v)
                else:
                    from . import models
                    kw["**sym"] = models.as_mapping(self, v)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        """A Python iterator over an iterable of concrete length, or None if symbolic."""
        from . import models
        if isinstance(v, (tuple, list, range, set, frozenset, str)):
            return iter(list(v))
        if isinstance(v, (bytes, bytearray)):
            return iter(list(v))
        if isinstance(v, dict):
            return iter(list(v))
        if type(v).__name__ in ("dict_items", "dict_keys", "dict_values", "mappingproxy", "odict_items", "odict_values", "odict_keys"):
            return iter(list(v))
        if isinstance(v, BList):
            return iter([self.mkint(I(x)) for x in v.e])
        if isinstance(v, SList) and v.conc is not None:
            return iter(list(v.conc))
        if isinstance(v, SDict) and v.conc is not None:
            return iter(list(v.conc))
        if isinstance(v, SIter):
            return v.it
        if isinstance(v, SGen):
            return self.gen_iter(v)
        if isinstance(v, SSeq):
            n = z3.simplify(v.n)
            if z3.is_int_value(n):
                return iter([v.elem(z3.IntVal(i)) for i in range(max(0, n.as_long()))])
            return None
        if isinstance(v, SObj):
            m = self.find_class_attr(v.cls, "__iter__")
            if m is not UNBOUND:
                return self.iterate(self.call(Bound(m, v), [], {}))
        if hasattr(v, "__iter__") and not isinstance(v, Sym):
            if type(v).__module__ in ("builtins", "more_itertools.more", "itertools"):
                return iter(list(v))
        return None

    def iterator_of(self, v):
        """The iterator of an object that defines one."""
        while isinstance(v, SObj):
            m = self.find_class_attr(v.cls, "__iter__")
            if m is UNBOUND:
                return v
            v = self.call(Bound(m, v), [], {})
        return v

    def gen_iter(self, g):
        while True:
            self.frames.append(g.frame)
            self.gens.append(g)
            try:
                v = next(g.gen)
            except StopIteration:
                g.done = True
                return
            finally:
                self.gens.pop()
                self.frames.pop()
            yield v

    def as_seq(self, v):
        from . import models
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SList) and v.conc is None:
            n, a = v.n, v.a
            return SSeq(n, lambda k: self.from_val(a[k]), "list")
        if isinstance(v, SBytes):
            t = v.t
            return SSeq(z3.Length(t), lambda k: self.byte_at(t, k), "bytes")
        if isinstance(v, ABytes):
            return SSeq(v.n, lambda k: SInt(v.a[k]), "bytes")
        s = models.symbolic_seq(self, v)
        if s is not NotImplemented:
            return s
        raise Unsupported("iteration over %r" % (v,))

    def byte_at(self, t, k):
        b = t[k]
        self.assume(z3.And(b >= 0, b < 256))
        return SInt(b)

    def exec_for(self, s, fr):
        v = self.iterator_of(self.ev(s.iter, fr))
        it = self.iterate(v)
        if it is not None:
            if isinstance(v, SGen):
                v.consumer = (fr, s)
            yield from self.concrete_for(s, it, fr)
            if isinstance(v, SGen) and v.cut:
                for n in assigned_names([s.target]):
                    fr.locals.pop(n, None)      # its value after the loop isn't tracked
            return
        seq = self.as_seq(v)
        yield from self.sym_for(s, seq, fr)

    def concrete_for(self, s, it, fr):
        n = 0
        while True:
            try:
                x = next(it)
            except StopIteration:
                break
            n += 1
            if n > 200:
                raise Unsupported("loop does not end")
            self.assign(s.target, x, fr)
            try:
                yield from self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        yield from self.exec_body(s.orelse, fr)

    def sym_for(self, s, seq, fr):
        if self.unroll is not None:
            self.bounded = True
            k = 0
            while self.branch(z3.IntVal(k) < seq.n):
                if k >= self.unroll:
                    raise PathEnd()
                self.assign(s.target, seq.elem(z3.IntVal(k)), fr)
                k += 1
                try:
                    yield from self.exec_body(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    pass
            yield from self.exec_body(s.orelse, fr)
            return
        key = Loop.key_of(self, s, fr)
        peel = self.loop_state.setdefault(key, {}).setdefault("peel", 0)
        for i in range(peel):
            if not self.branch(z3.IntVal(i) < seq.n):
                yield from self.exec_body(s.orelse, fr)
                return
            self.assign(s.target, seq.elem(z3.IntVal(i)), fr)
            try:
                yield from self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        loop = Loop(self, s, fr, seq)
        loop.enter()
        if self.branch(loop.k < seq.n):
            self.assign(s.target, seq.elem(loop.k), fr)
            try:
                yield from self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            loop.preserve()
        self.assume(loop.k == z3.If(seq.n > 0, seq.n, z3.IntVal(0)))
        yield from self.exec_body(s.orelse, fr)

    def exec_while(self, s, fr):
        # Conditions without calls are evaluated as long as they are concrete.
        pure = not any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(s.test))
        if pure and not isinstance(s.test, ast.Constant):
            n, len0 = 0, len(self.trace)
            cut = self.loop_state.setdefault(Loop.key_of(self, s, fr), {})
            while not cut.get("cut"):
                cond = self.ev(s.test, fr)
                if isinstance(cond, Sym):
                    break
                if not self.truth(cond):
                    yield from self.exec_body(s.orelse, fr)
                    return
                n += 1
                if n > 5 and len(self.trace) - len0 >= n - 1 and self.unroll is None:
                    # Every iteration depends on symbolic data: cut instead.
                    cut["cut"] = True
                    raise Restart()
                if n > 60:
                    raise Unsupported("loop does not end")
                try:
                    yield from self.exec_body(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    pass
        key = Loop.key_of(self, s, fr)
        peel = self.loop_state.setdefault(key, {}).setdefault("peel", 0)
        limit = self.unroll if self.unroll is not None else peel
        for _ in range(limit):
            if not self.truth(self.ev(s.test, fr)):
                yield from self.exec_body(s.orelse, fr)
                return
            try:
                yield from self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        if self.unroll is not None:
            self.bounded = True
            if not self.truth(self.ev(s.test, fr)):
                yield from self.exec_body(s.orelse, fr)
                return
            raise PathEnd()
        loop = Loop(self, s, fr, None)
        loop.enter()
        if self.truth(self.ev(s.test, fr)):
            try:
                yield from self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            loop.preserve()
        yield from self.exec_body(s.orelse, fr)

    # ---------------------------------------------------------------- comprehensions
    def ev_comp(self, e, fr):
        from . import models
        if isinstance(e, ast.GeneratorExp):
            first = self.ev(e.generators[0].iter, fr)
            it = self.iterate(first)
            if it is None:
                return CompSeq(self, e, fr, first)
            return SGen(self.comp_gen(e, fr, it), self.comp_frame(fr))
        if isinstance(e, ast.SetComp):
            r = self.filtered_keys(e, fr)
            if r is not None:
                return r
        acc = SDict({}) if isinstance(e, ast.DictComp) else SList([])
        sub = self.comp_frame(fr)
        sub.locals[".acc"] = acc
        self.run_comp(e, sub, fr)
        acc = sub.locals[".acc"]
        if isinstance(e, ast.SetComp):
            if acc.conc is None or any(isinstance(x, Sym) for x in acc.conc):
                raise Unsupported("set comprehension")
            return set(acc.conc)
        return acc

    def comp_frame(self, fr):
        f = Frame(None, None, fr.globals, fr, fr.cls, fr.qualname + ".<comp>")
        return f

    def comp_gen(self, e, fr, it0):
        sub = self.comp_frame(fr)

        def level(i, it):
            g = e.generators[i]
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    return
                self.assign(g.target, x, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    if i + 1 < len(e.generators):
                        it2 = self.iterate(self.ev(e.generators[i + 1].iter, sub))
                        if it2 is None:
                            raise Unsupported("nested symbolic comprehension")
                        yield from level(i + 1, it2)
                    else:
                        yield self.ev(e.elt, sub)
        yield from level(0, it0)

    def fold_seq(self, f, v):
        """sum, any or all of a sequence of unknown length: as of a comprehension over it."""
        fr = self.frames[-1]
        e = ast.parse("(x for x in _pyvc_src)", mode="eval").body
        old = fr.locals.get("_pyvc_src", UNBOUND)
        fr.locals["_pyvc_src"] = v
        try:
            return self.fold_comp(f, e, fr)
        finally:
            if old is UNBOUND:
                fr.locals.pop("_pyvc_src", None)
            else:
                fr.locals["_pyvc_src"] = old

    def filtered_keys(self, e, fr):
        """{s for s in keys if cond(s)} over an unknown set of strings: its characteristic function."""
        from . import models
        g = e.generators[0]
        if len(e.generators) != 1 or not isinstance(g.target, ast.Name) or not isinstance(e.elt, ast.Name) or e.elt.id != g.target.id:
            return None
        src = self.ev(g.iter, fr)
        if not isinstance(src, (models.SymKeySet, models.KeysView)) and not (isinstance(src, SDict) and src.conc is None):
            return None
        x = models.b_set(self, [src], {}).dom
        sub = self.comp_frame(fr)

        def body(s):
            sub.locals[g.target.id] = SStr(s)
            n, out = len(self.trace), [x[s]]
            for c in g.ifs:
                t = self.truth_t(self.ev(c, sub))
                out.append(z3.BoolVal(t) if isinstance(t, bool) else t)
            if len(self.trace) != n:
                raise Unsupported("set comprehension with a condition that branches")
            return z3.And(out)
        i = self.nfresh.get("kset", 0)
        self.nfresh["kset"] = i + 1
        d = z3.Const("key_set!%d" % i, DomS)
        self.assume(self.forall_s(lambda s: d[s] == body(s), lambda s: [d[s]]))
        return models.SymKeySet(d)

    def quantified(self, f, e, first, sub):
        """any() or all() of conditions that do not branch: a quantifier."""
        from . import models
        g = e.generators[0]
        if len(e.generators) != 1:
            return None
        names = isinstance(first, (models.SymKeySet, models.KeysView)) or isinstance(first, SDict) and first.conc is None
        if not names:
            try:
                seq = self.as_seq(first)
            except Unsupported:
                return None

        def body(x):
            n = len(self.trace)
            self.assign(g.target, x, sub)
            out = [self.truth_t(self.ev(c, sub)) for c in g.ifs]
            t = self.truth_t(self.ev(e.elt, sub))
            if len(self.trace) != n:
                raise Unsupported("a condition that branches")
            out, t = [self.z(c) for c in out], self.z(t)
            return z3.And(out + [t if f is any else z3.Not(t)])
        state = len(self.trace)
        try:
            if names:
                dom = models.b_set(self, [first], {}).dom
                t = self.exists_s(lambda s: z3.And(dom[s], body(SStr(s))))
            else:
                t = self.exists_i(0, seq.n, lambda j: body(seq.elem(j)))
        except (Unsupported, PyRaise):
            self.cur.pyvc_branches = True
            if len(self.trace) != state:
                raise Restart()
            return None
        return self.mkbool(t if f is any else z3.Not(t))

    def run_comp(self, e, sub, outer, stmt=None):
        """Evaluate a comprehension as nested for-loops that add to `.acc`."""
        if stmt is None:
            if isinstance(e, ast.DictComp):
                stmt = _CompStore(e.key, e.value)
            else:
                stmt = _CompAppend(e.elt)
        body = [stmt]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), e)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), e)]
        for _ in self.exec_comp_body(body, sub):
            raise Unsupported("yield in comprehension")

    def exec_comp_body(self, stmts, fr):
        yield from self.exec_body(stmts, fr)

    def fold_comp(self, f, e, fr):
        first = self.ev(e.generators[0].iter, fr)
        if self.iterate(first) is not None and not isinstance(first, (SIter, SGen)):
            # Concrete: evaluate through the ordinary path (the iterable is re-evaluated).
            it = self.iterate(first)
            g = SGen(self.comp_gen(e, fr, it), self.comp_frame(fr))
            from . import models
            return models.builtin(self, f)(self, [g], {})
        if isinstance(first, (SIter, SGen)):
            g = SGen(self.comp_gen(e, fr, self.iterate(first)), self.comp_frame(fr))
            from . import models
            return models.builtin(self, f)(self, [g], {})
        sub = self.comp_frame(fr)
        if f is sum:
            sub.locals[".acc"] = 0
            self.run_comp(e, sub, fr, _CompAdd(e.elt))
            return sub.locals[".acc"]
        if f in (list, tuple):
            sub.locals[".acc"] = SList([])
            self.run_comp(e, sub, fr, _CompAppend(e.elt))
            return sub.locals[".acc"]
        if f in (any, all):
            r = self.quantified(f, e, first, sub) if self.quant and not getattr(self.cur, "pyvc_branches", False) else None
            if r is not None:
                return r
            sub.locals[".acc"] = f is all
            try:
                self.run_comp(e, sub, fr, _CompQuant(e.elt, f is all))
            except _Return as r:
                return r.v
            return sub.locals[".acc"]
        return NotImplemented


class CompSeq(Sym):
    """A generator expression over a sequence of symbolic length."""

    def __init__(self, vm, e, fr, first):
        self.vm, self.e, self.fr, self.first = vm, e, fr, first


class _CompStmt(ast.stmt):
    _fields = ()


class _CompStore(ast.stmt):
    _fields = ("key", "value")

    def __init__(self, key, value):
        self.key, self.value = key, value


class _CompAppend(ast.stmt):
    _fields = ("elt",)

    def __init__(self, elt):
        self.elt = elt


class _CompAdd(_CompAppend):
    pass


class _CompQuant(ast.stmt):
    _fields = ("elt",)

    def __init__(self, elt, isall):
        self.elt, self.isall = elt, isall


_old_exec = VM.exec


def _exec(self, s, fr):
    from . import models
    T = type(s)
    if T is _CompStore:
        k = self.ev(s.key, fr)
        models.setitem(self, fr.locals[".acc"], k, self.ev(s.value, fr))
        return
    if T is _CompAppend:
        models.list_append(self, fr.locals[".acc"], self.ev(s.elt, fr))
        return
    if T is _CompAdd:
        fr.locals[".acc"] = models.binop(self, ast.Add(), fr.locals[".acc"], self.ev(s.elt, fr))
        return
    if T is _CompQuant:
        if self.truth(self.ev(s.elt, fr)) != s.isall:
            raise _Return(not s.isall)
        return
    yield from _old_exec(self, s, fr)


VM.exec = _exec


# --------------------------------------------------------------------------------------
# Loops
# --------------------------------------------------------------------------------------
class Loop:
    """The cut at the head of a loop with a symbolic number of iterations."""

    @staticmethod
    def key_of(vm, node, fr):
        fns = tuple("%s" % f.qualname for f in vm.frames[-6:])
        line = getattr(node, "lineno", 0)
        return (fns, fr.qualname, line, getattr(node, "col_offset", 0))

    def __init__(self, vm, node, fr, seq):
        self.vm, self.node, self.fr, self.seq = vm, node, fr, seq
        self.key = self.key_of(vm, node, fr)
        self.st = vm.loop_state.setdefault(self.key, {})
        self.st.setdefault("level", {})     # location -> 0 unchanged, 1 typed, 2 Val
        self.st.setdefault("dropped", set())
        self.st.setdefault("peel", 0)

    # -- locations -----------------------------------------------------------------
    def locations(self):
        """Deterministic list of (name, getter, setter) for everything mutable."""
        vm = self.vm
        locs = []
        frames = []
        f = self.fr
        while f is not None:
            frames.append(f)
            f = f.parent
        names = assigned_names([self.node])
        if isinstance(self.node, ast.For):
            names -= assigned_names([self.node.target])
            self.targets = assigned_names([self.node.target])
        else:
            self.targets = set()
        # A loop in a generator also runs the body of the loop that consumes the generator.
        done = set()
        for g in vm.gens:
            if g.consumer is None:
                raise Unsupported("a generator with a symbolic loop that isn't consumed by a for-loop")
            g.cut = True
            cf, cs = g.consumer
            if (id(cf), id(cs)) in done:
                continue
            done.add((id(cf), id(cs)))
            for n in sorted(assigned_names(cs.body) - assigned_names([cs.target])):
                f = cf
                while f is not None:
                    if n in f.locals:
                        locs.append(("local %s/%s" % (f.qualname.split(".")[-1], n), functools.partial(self._getl, f, n), functools.partial(self._setl, f, n)))
                        break
                    f = f.parent
        for n in sorted(names | {".acc"}):
            for f in frames:
                if n in f.locals:
                    locs.append(("local " + n, functools.partial(self._getl, f, n), functools.partial(self._setl, f, n)))
                    break
        seen = set()

        def walk(path, v, d):
            if d > 5:
                return
            if isinstance(v, (SStream, BArr, SList, SDict, SObj)):
                if id(v) in seen:
                    return
                seen.add(id(v))
            if isinstance(v, SStream):
                locs.append((path + ".pos", functools.partial(getattr, v, "pos"), functools.partial(setattr, v, "pos")))
                locs.append((path + ".data", functools.partial(getattr, v, "data"), functools.partial(setattr, v, "data")))
                if v.kind == "arr":
                    locs.append((path + ".n", functools.partial(getattr, v, "n"), functools.partial(setattr, v, "n")))
            elif type(v).__name__ in ("StrBuf", "IncDec"):
                locs.append((path + ".t", functools.partial(getattr, v, "t"), functools.partial(setattr, v, "t")))
            elif isinstance(v, BArr):
                locs.append((path + ".n", functools.partial(getattr, v, "n"), functools.partial(setattr, v, "n")))
                locs.append((path + ".a", functools.partial(getattr, v, "a"), functools.partial(setattr, v, "a")))
            elif isinstance(v, SList):
                locs.append((path + ".list", functools.partial(self._getlist, v), functools.partial(self._setlist, v)))
                if v.conc is not None:
                    for i, x in enumerate(v.conc):
                        walk("%s[%d]" % (path, i), x, d + 1)
            elif isinstance(v, SDict):
                locs.append((path + ".dict", functools.partial(self._getdict, v), functools.partial(self._setdict, v)))
                if v.conc is not None:
                    for k, x in v.conc.items():
                        walk("%s[%r]" % (path, k), x, d + 1)
            elif isinstance(v, SObj):
                for k in sorted(v.attrs):
                    if not isinstance(v.attrs[k], Sym) or isinstance(v.attrs[k], (SInt, SBool, SBytes, SVal, SStr)):
                        locs.append((path + "." + k, functools.partial(v.attrs.get, k, UNBOUND), functools.partial(v.attrs.__setitem__, k)))
                    else:
                        walk(path + "." + k, v.attrs[k], d + 1)
            elif isinstance(v, Bound):
                walk(path + ".self", v.self_, d + 1)
            elif isinstance(v, Closure):
                for k in sorted(v.frame.locals):
                    walk(path + ".<%s>" % k, v.frame.locals[k], d + 2)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    walk("%s[%d]" % (path, i), x, d + 1)
            elif isinstance(v, SGen):
                for k in sorted(v.frame.locals):
                    walk(path + ".<%s>" % k, v.frame.locals[k], d + 1)
        for f in vm.frames + frames[::-1]:
            for n in sorted(f.locals):
                if n in self.targets and f is self.fr:
                    continue
                walk("%s/%s" % (f.qualname.split(".")[-1], n), f.locals[n], 0)
        for i, r in enumerate(vm.roots):
            walk("root%d" % i, r, 0)
        return locs

    @staticmethod
    def _getl(f, n):
        return f.locals.get(n, UNBOUND)

    @staticmethod
    def _setl(f, n, v):
        f.locals[n] = v

    @staticmethod
    def _getlist(v):
        return ("conc", list(v.conc)) if v.conc is not None else ("sym", v.n, v.a)

    @staticmethod
    def _setlist(v, x):
        if x[0] == "conc":
            v.conc, v.n, v.a = list(x[1]), None, None
        else:
            v.conc, v.n, v.a = None, x[1], x[2]

    @staticmethod
    def _getdict(v):
        return ("conc", dict(v.conc)) if v.conc is not None else ("sym", v.dom, v.val)

    @staticmethod
    def _setdict(v, x):
        if x[0] == "conc":
            v.conc, v.dom, v.val = dict(x[1]), None, None
        else:
            v.conc, v.dom, v.val = None, x[1], x[2]

    # -- protocol --------------------------------------------------------------------
    def same(self, a, b):
        """Provably the same value?"""
        vm = self.vm
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return True
            if a.sort() != b.sort():
                return False
            return vm.valid(a == b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ("conc", "sym"):
            if a[0] == "conc" and b[0] == "conc":
                if isinstance(a[1], list):
                    return len(a[1]) == len(b[1]) and all(x is y or self.same(x, y) for x, y in zip(a[1], b[1]))
                return list(a[1]) == list(b[1]) and all(self.same(a[1][k], b[1][k]) for k in a[1])
            if a[0] == "sym" and b[0] == "sym":
                return all(self.same(x, y) for x, y in zip(a[1:], b[1:]))
            return False
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return vm.valid(vm.z(a.t if isinstance(a, SBool) else a) == vm.z(b.t if isinstance(b, SBool) else b))
            return a is b
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return self.same(vm.int_t(a), vm.int_t(b))
        if isinstance(a, (SVal,)) and isinstance(b, SVal):
            return self.same(a.t, b.t)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return a == b if isinstance(a, str) and isinstance(b, str) else self.same(vm.str_t(a), vm.str_t(b))
        if isinstance(a, (bytes, SBytes, BList)) and isinstance(b, (bytes, SBytes, BList)):
            return self.same(vm.seq(a), vm.seq(b))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        try:
            return not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b) and bool(a == b)
        except Exception:
            return False

    def havoc(self, name, v, level):
        vm = self.vm
        if level == 0:
            return v
        if isinstance(v, z3.ExprRef):
            return vm.fresh("h", v.sort())
        if isinstance(v, tuple) and v and v[0] in ("conc", "sym"):
            isd = isinstance(v[1], dict) or (v[0] == "sym" and v[1].sort() == DomS)
            if isd:
                return ("sym", vm.fresh("hd", DomS), vm.fresh("hm", MapS))
            n = vm.fresh("hn", IntS)
            vm.assume(n >= 0)
            return ("sym", n, vm.fresh("hl", LstS))
        if level == 1:
            if isinstance(v, (bool, SBool)):
                return SBool(vm.fresh("hb", BoolS))
            if isinstance(v, (int, SInt)):
                return SInt(vm.fresh("hi", IntS))
            if isinstance(v, (bytes, SBytes, BList)):
                return SBytes(vm.fresh("hs", SeqS))
            if isinstance(v, (str, SStr)):
                return SStr(vm.fresh("ht", StrS))
        if v is UNBOUND:
            raise Unsupported("loop variable")
        if isinstance(v, (SVal, SObj, SStr)) or v is None or vm.kind(v):
            return SVal(vm.fresh("hv", Val))
        raise Unsupported("havoc of %s = %r" % (name, v))

    def info(self, k):
        L = LoopInfo(self.vm, self.fr.qualname, k, self.seq.n if self.seq else None, self.fr, self.node)
        L.seq = self.seq
        L.entry = self.entry
        for name, get, _ in self.locs:
            v = get()
            lvl = self.st["level"].get(name, 0)
            if name.endswith(".dict"):
                L.dicts[name] = v
                L.dicts[name] = v if v[0] == "sym" else ("sym",) + self.vm.conc_arrays(v[1])
            elif name.endswith(".list"):
                L.lists[name] = v if v[0] == "sym" else ("sym",) + self.vm.conc_list(v[1])
            elif name.endswith(".a") and isinstance(v, z3.ExprRef):
                L.barrs[name[:-2]] = v
            elif isinstance(v, z3.ExprRef) and v.sort() == IntS:
                L.streams[name] = v
            elif isinstance(v, z3.ExprRef):
                L.streams[name] = v
            elif lvl == 0:
                L.consts[name] = v
            elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
                L.ints[name] = self.vm.int_t(v)
            elif isinstance(v, (SBool, bool)):
                L.bools[name] = z3.BoolVal(v) if isinstance(v, bool) else v.t
                L.vals[name] = self.vm.to_val(v)
            elif isinstance(v, (SBytes, bytes, BList)):
                L.bytess[name] = self.vm.seq(v)
            else:
                try:
                    L.vals[name] = self.vm.to_val(v)
                except Unsupported:
                    pass
        L.level = self.st["level"]
        return L

    def candidates(self, k):
        vm = self.vm
        if vm.loop_inv is None:
            return []
        out = []
        for name, t in vm.loop_inv(self.info(k)) or []:
            if name not in self.st["dropped"]:
                out.append((name, t))
        return out

    def enter(self):
        vm = self.vm
        self.locs = self.locations()
        self.entry = {n: g() for n, g, _ in self.locs}
        # Invariants hold on entry (k = 0).
        bad = False
        k0 = z3.IntVal(self.st["peel"])
        for name, t in self.candidates(k0):
            if not vm.valid(t, 2500):
                self.st["dropped"].add(name)
                bad = True
        if bad:
            raise Restart()
        for n, t in self.candidates(k0):
            vm.prove("%s: loop %s: %s [entry]" % (vm.name, self.fr.qualname.split(".")[-1], n), t)
        self.k = vm.fresh("k", IntS)
        vm.assume(self.k >= self.st["peel"])
        if self.seq is not None:
            vm.assume(self.k <= z3.If(self.seq.n > 0, self.seq.n, z3.IntVal(0)))
        self.head = {}
        for name, get, set_ in self.locs:
            v = self.havoc(name, get(), self.st["level"].get(name, 0))
            set_(v)
            self.head[name] = v
            if self.st["level"].get(name, 0):
                vm.havocked = True
        for name, t in self.candidates(self.k):
            vm.assume(t)
        vm.feasible()

    def preserve(self):
        """End of an arbitrary iteration: check frame and invariants, then stop."""
        vm = self.vm
        vm.feasible()
        after = self.locations_now()
        bad = False
        for name, get, set_ in self.locs:
            lvl = self.st["level"].get(name, 0)
            v = get()
            h = self.head[name]
            if lvl == 0:
                if not self.same(h, v):
                    self.st["level"][name] = self.next_level(name, h, v)
                    bad = True
            else:
                c = self.coerce(h, v)
                if c is UNBOUND:
                    if lvl == 1:
                        if self.can_val(h, v):
                            self.st["level"][name] = 2
                        elif self.st["peel"] < 2:
                            self.st["peel"] += 1
                            self.st["level"].clear()
                            self.st["dropped"].clear()
                        else:
                            raise Unsupported("loop changes the type of %s" % name)
                        bad = True
                    else:
                        raise Unsupported("loop changes the type of %s" % name)
                else:
                    set_(c)
        if bad:
            # What other loops dropped may hold with the invariants on what has just been found to change.
            for st in vm.loop_state.values():
                st.get("dropped", set()).clear()
            raise Restart()
        cands = self.candidates(self.k + 1)
        for name, t in cands:
            if not vm.valid(t, 2500):
                self.st["dropped"].add(name)
                bad = True
        if bad:
            raise Restart()
        for n, t in cands:
            vm.prove("%s: loop %s: %s [preserved]" % (vm.name, self.fr.qualname.split(".")[-1], n), t)
        raise PathEnd()

    def locations_now(self):
        return None

    def next_level(self, name, h, v):
        if isinstance(h, z3.ExprRef) or (isinstance(h, tuple) and h and h[0] in ("conc", "sym")):
            return 1
        if self.coerce_kind(h, v):
            return 1
        if self.st["peel"] < 1:
            self.st["peel"] += 1
            self.st["level"].clear()
            self.st["dropped"].clear()
            raise Restart()
        return 2

    def coerce_kind(self, h, v):
        for ks in ((bool, SBool), (int, SInt, bool, SBool), (bytes, SBytes, BList), (str, SStr), (SVal,)):
            if isinstance(h, ks) and isinstance(v, ks):
                if ks == (int, SInt, bool, SBool) and (isinstance(h, (bool, SBool)) or isinstance(v, (bool, SBool))):
                    return False
                return True
        return False

    def can_val(self, h, v):
        return (self.vm.kind(v) is not None or isinstance(v, (SVal, SObj))) and not isinstance(v, (list, dict, SList, SDict))

    def coerce(self, h, v):
        """Value v in the representation of h, or UNBOUND if impossible."""
        vm = self.vm
        if isinstance(h, z3.ExprRef):
            return v if isinstance(v, z3.ExprRef) and v.sort() == h.sort() else UNBOUND
        if isinstance(h, tuple) and h and h[0] == "sym":
            if v[0] == "conc":
                if isinstance(v[1], dict):
                    return ("sym",) + vm.conc_arrays(v[1])
                return ("sym",) + vm.conc_list(v[1])
            return v
        if isinstance(h, SVal):
            try:
                return SVal(vm.to_val(v))
            except Unsupported:
                return UNBOUND
        if self.coerce_kind(h, v):
            return v
        return UNBOUND


def _conc_arrays(self, d):
    dom = z3.K(StrS, z3.BoolVal(False))
    val = z3.K(StrS, Val.VNone)
    for k, v in d.items():
        if not isinstance(k, (str, SStr)):
            raise Unsupported("dictionary key %r" % (k,))
        kt = self.str_t(k)
        dom = z3.Store(dom, kt, z3.BoolVal(True))
        val = z3.Store(val, kt, self.to_val(v))
    return dom, val


def _conc_list(self, l):
    a = z3.K(IntS, Val.VNone)
    for i, v in enumerate(l):
        a = z3.Store(a, z3.IntVal(i), self.to_val(v))
    return z3.IntVal(len(l)), a


def _dict_arrays(self, d):
    """Domain and value arrays of a dictionary (without changing it)."""
    if d.conc is None:
        return d.dom, d.val
    return self.conc_arrays(d.conc)


def _symbolize(self, d):
    if isinstance(d, SDict) and d.conc is not None:
        d.dom, d.val = self.conc_arrays(d.conc)
        d.conc = None
    elif isinstance(d, SList) and d.conc is not None:
        d.n, d.a = self.conc_list(d.conc)
        d.conc = None


VM.conc_arrays = _conc_arrays
VM.conc_list = _conc_list
VM.dict_arrays = _dict_arrays
VM.symbolize = _symbolize
