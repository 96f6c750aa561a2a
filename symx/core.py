"""Path-wise symbolic execution engine (values + explorer).

The real functions of /repo run natively (instrumented by symx.instrument) on the
symbolic values defined here.  Every Python-level decision on a symbolic value
(`bool(x)`, an index, a hash, a character test, ...) ends in Engine.branch, which asks z3
which outcomes are possible under the current path condition and explores each of
them.  Engine.check asks z3 whether the negation of an assertion is satisfiable
under the path condition: unsat on all paths = holds for all values in the bounds.
"""
import math
import operator
import os
import random
import struct
import time

import z3


# --------------------------------------------------------------------------
# control flow signals (BaseException: code under test must not swallow them)
# --------------------------------------------------------------------------
class Signal(BaseException):
    pass


class Infeasible(Signal):
    """An assumption is unsatisfiable on this path."""


class Inconclusive(Signal):
    """The engine cannot decide something; never counted as success."""


class RestartUniverse(Signal):
    """A concrete string has to join the string universe of hash()."""


class SolverGaveUp(Inconclusive):
    pass


class Refuted(Signal):
    def __init__(self, message, assignment):
        super().__init__(message)
        self.message = message
        self.assignment = assignment


ENGINE = None  # the engine of the running process
SOURCE_STRINGS = set()  # string constants and identifiers of the instrumented code


# --------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------
class Engine:
    def __init__(self, query_timeout_ms=60000, seed=0):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        if seed:
            self.solver.set("random_seed", seed)
        self.query_timeout_ms = query_timeout_ms
        self.trail = []  # [kind, choice, cond, open?]
        self.pos = 0
        self.prefix = []  # shipped prefix still to be replayed
        self.model = None
        self.vars = {}  # name -> (kind, z3 exprs...) declared on this path
        self.universe = {}  # length -> {str: None}
        self.learned = set()  # strings added by RestartUniverse
        self.eager = False  # numbers are formatted value by value
        self.observations = []
        self.notes = []
        self.stats = dict(
            queries=0, solver_s=0.0, branches=0, forced=0, paths=0, infeasible=0,
            checks=0, checks_solver=0, concretisations=0,
        )
        self.functions = set()
        self.reached = set()
        self.path_checks = 0
        self.reset_path()

    # -- path life cycle ----------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.order = "reversed"  # how sets are iterated
        self.order_used = False
        self.order_seen = []
        self.decided = {}
        self.vars = {}
        self.hash_cache = {}
        self.hash_reps = {}
        self.path_strings = {}
        self.nreps = 0
        self.float_reps = []
        self.products = {}
        self.observations = []
        self.notes = []
        self.path_checks = 0

    def start_job(self, prefix):
        while self.solver.num_scopes():
            self.solver.pop()
        self.solver.reset()
        self.trail = []
        self.prefix = list(prefix)
        self.model = None

    def start_path(self):
        self.reset_path()

    def next_path(self):
        """Backtrack to the deepest open decision; False when there is none."""
        while self.trail:
            e = self.trail.pop()
            if e[0] == "B":
                self.solver.pop()
                if e[3]:
                    self.solver.push()
                    self.solver.add(z3.Not(e[2]) if e[1] else e[2])
                    self.trail.append(["B", not e[1], e[2], False])
                    self.model = None
                    return True
        return False

    def path_so_far(self):
        """The prefix of the current path up to its last decision"""
        return ["A" if e[0] == "A" else "V%d" % e[1] if e[0] == "V" else
                e[0] + ("1" if e[1] else "0") for e in self.trail]

    def open_prefixes(self):
        """Prefixes of all unexplored subtrees (and forget them here)."""
        out = []
        codes = []
        for e, code in zip(self.trail, self.path_so_far()):
            if e[0] == "B" and e[3]:
                out.append(codes + ["B" + ("0" if e[1] else "1")])
                e[3] = False
            codes.append(code)
        return out

    # -- solver -------------------------------------------------------------
    def _sat(self, *extra):
        """Is path condition + extra satisfiable?  Keeps the model when sat."""
        self.stats["queries"] += 1
        t = time.perf_counter()
        if extra:
            self.solver.push()
            for c in extra:
                self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            raise SolverGaveUp("solver: " + self.solver.reason_unknown())
        return m

    def _replay(self, kind):
        """Entry to follow at this position, or None at the frontier."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] == "V" or (e[0] == "A") != (kind == "A"):
                raise Inconclusive("nondeterministic execution (trail mismatch)")
            self.pos += 1
            return e
        return None

    def branch(self, cond):
        """Decide a symbolic condition; explores both outcomes over time."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        d = self.decided.get(key)
        if d is not None:
            return d[0]
        choice = self._branch(cond)
        self.decided[key] = (choice, cond)
        return choice

    def _branch(self, cond):
        e = self._replay("B")
        if e is not None:
            if e[2] is not None and e[2].get_id() != cond.get_id():
                raise Inconclusive("nondeterministic execution (condition mismatch)")
            return e[1]
        if self.pos < len(self.prefix):
            code = self.prefix[self.pos]
            if code[0] not in "BF":
                raise Inconclusive("nondeterministic execution (prefix mismatch)")
            self.pos += 1
            choice = code[1] == "1"
            if code[0] == "B":
                self.solver.push()
                self.solver.add(cond if choice else z3.Not(cond))
                self.trail.append(["B", choice, cond, False])
            else:
                self.trail.append(["F", choice, cond, False])
            return choice
        # frontier
        self.stats["branches"] += 1
        known = None
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            known = True if z3.is_true(v) else False if z3.is_false(v) else None
        m_true = m_false = None
        can_true = can_false = True
        if known is not True:
            m_true = self._sat(cond)
            can_true = m_true is not None
        if known is not False:
            m_false = self._sat(z3.Not(cond))
            can_false = m_false is not None
        if known is True:
            m_true = self.model
        elif known is False:
            m_false = self.model
        if not can_true and not can_false:
            raise Infeasible()
        self.pos += 1
        if can_true and can_false:
            choice = True
            self.solver.push()
            self.solver.add(cond)
            self.trail.append(["B", True, cond, True])
            self.model = m_true
        else:
            choice = can_true
            self.stats["forced"] += 1
            self.trail.append(["F", choice, cond, False])
            self.model = m_true if choice else m_false
        return choice

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.expr
        if cond is True or cond is False:
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        e = self._replay("A")
        if e is not None:
            return
        if self.pos < len(self.prefix):
            if self.prefix[self.pos] != "A":
                raise Inconclusive("nondeterministic execution (prefix mismatch)")
            self.pos += 1
            self.solver.add(cond)
            self.trail.append(["A", True, cond, False])
            return
        self.pos += 1
        self.solver.add(cond)
        self.trail.append(["A", True, cond, False])
        if self.model is not None and z3.is_true(
            self.model.eval(cond, model_completion=True)
        ):
            return
        self.model = self._sat()
        if self.model is None:
            raise Infeasible()

    def check(self, cond, message):
        """Assert cond for every value on this path."""
        self.stats["checks"] += 1
        self.path_checks += 1
        if isinstance(cond, SymBool):
            cond = cond.expr
        if isinstance(cond, z3.ExprRef):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
            self.stats["checks_solver"] += 1
            m = self._sat(z3.Not(cond))
            if m is not None and self.products:
                m = self.exact_model(z3.Not(cond), m)
            if m is None:
                return
            raise Refuted(message, self.assignment(m))
        if isinstance(cond, (SymInt, SymFloat)):
            cond = bool(cond)
        if cond:
            return
        raise Refuted(message, self.assignment(self.real_model()))

    def exact_model(self, extra, m, complete=True):
        """A model of the path condition and extra in which products are exact; None if
        there is none (or, unless complete, if none is found quickly)"""
        leaves = [p.expr for kind, p in self.vars.values()
                  if kind == "float" and p.table is None]
        exact = []
        for a, b, v in self.products.values():
            exact.append(v == fmul_exact(a, b))
        conds = exact + ([extra] if extra is not None else [])
        rng = random.Random(7)
        values = [2.0, 0.5, 3.0, -1.5, 1.0, 0.0, 0.1, -1.0]
        for attempt in range(12):
            fixed = []
            for x in leaves:
                if attempt == 0:
                    val = m.eval(x, model_completion=True)
                else:
                    val = fpconst(rng.choice(values))
                fixed.append(x == val)
            r = self._sat(*(fixed + conds))
            if r is not None:
                return r
        if not complete:
            return None
        self.solver.set("timeout", 30000)
        try:
            return self._sat(*conds)
        finally:
            self.solver.set("timeout", self.query_timeout_ms)

    def real_model(self, complete=True):
        m = self.current_model()
        if self.products:
            m = self.exact_model(None, m, complete)
            if m is None and complete:
                raise Infeasible()
        return m

    def current_model(self):
        if self.model is None:
            self.model = self._sat()
            if self.model is None:
                raise Infeasible()
        return self.model

    # -- variables ----------------------------------------------------------
    def unique(self, name):
        if name in self.vars:
            raise Inconclusive("harness declares %s twice" % name)

    def assignment(self, model):
        """Values of all inputs declared on this path, JSON-able."""
        out = {}
        for name, (kind, payload) in self.vars.items():
            if kind == "str":
                out[name] = concretise(payload, model)
            else:
                v = concretise(payload, model)
                if kind == "float":
                    v = {"f": struct.pack(">d", v).hex()}
                out[name] = v
        return out

    # -- hashing of symbolic strings ----------------------------------------
    def add_universe(self, s):
        if s == EAGER:
            self.eager = True
        elif isinstance(s, str) and not is_sym(s):
            self.universe.setdefault(len(s), {})[str(s)] = None

    def concrete_string(self, s):
        """A new concrete string was computed by the code under test."""
        n = len(s)
        if s in self.universe.get(n, ()) or s in self.path_strings.get(n, ()):
            return
        self.path_strings.setdefault(n, {})[s] = None
        if n in self.hash_reps:
            for r in self.hash_reps[n]:
                if is_sym(r):
                    c = str_eq(r, s)
                    if c is False:
                        continue
                    if c is True or self._sat(c) is not None:
                        self.learned.add(s)
                        raise RestartUniverse(s)

    def set_order(self, s):
        """The elements of a set, in the order this run iterates over them: any fixed
        order is as good as any other, as it depends on the hash seed of the process"""
        keys = {}
        for x in s:
            k = order_key(x)
            if k is None:
                return list(s)
            keys[k] = x
        self.order_used = True
        names = sorted(keys)
        if self.order == "reversed":
            names.reverse()
        elif self.order == "any":
            seen = self.order_seen
            for k in names:
                if k not in seen:
                    n = len(seen)
                    # any order of three elements, all others before or after them
                    at = 0
                    if n < 3:
                        v = z3.Int("hash order %d" % n)
                        if n:
                            self.assume(z3.And(v >= 0, v <= n))
                        while at < n and not self.branch(v == at):
                            at += 1
                    elif self.branch(z3.Bool("hash order of others")):
                        at = n
                    seen.insert(at, k)
            names.sort(key=seen.index)
        return [keys[k] for k in names]

    def str_hash(self, s):
        content = str.__str__(s)
        needed(content)
        h = self.hash_cache.get(content)
        if h is not None:
            return h
        n = len(content)
        reps = self.hash_reps.setdefault(n, [])
        for r in reps:
            if self.branch(str_eq(content, r)):
                h = self.hash_cache[r]
                self.hash_cache[content] = h
                return h
        known = list(self.universe.get(n, ())) + list(self.path_strings.get(n, ()))
        for r in known:
            c = str_eq(content, r)
            if c is False:
                continue
            if self.branch(c):
                h = hash(r)
                self.hash_cache[content] = h
                self.hash_cache[r] = h
                reps.append(r)
                return h
        self.nreps += 1
        h = (self.nreps * 2654435761 + 97) % ((1 << 61) - 1)
        self.hash_cache[content] = h
        reps.append(content)
        return h


def order_key(x):
    if isinstance(x, str):
        raw = str.__str__(x)
        return "str", tuple(
            c if ord(c) < PUA_BASE else CHARS[ord(c) - PUA_BASE].key for c in raw)
    if x is None or type(x) in (int, float, bool):
        return type(x).__name__, (repr(x),)
    if type(x) is tuple:
        parts = [order_key(y) for y in x]
        return None if None in parts else ("tuple", tuple(map(repr, parts)))
    return None


# --------------------------------------------------------------------------
# concretisation of results under a model
# --------------------------------------------------------------------------
def fp_value(v):
    v = z3.simplify(v)
    if z3.is_fp(v) and v.isNaN():
        return float("nan")
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack(">d", struct.pack(">Q", bv.as_long()))[0]


def concretise(obj, model):
    if isinstance(obj, str):
        if not is_sym(obj):
            return str.__str__(obj)
        out = []
        for c in str.__iter__(obj):
            cp = ord(c)
            if cp >= PUA_BASE:
                sc = CHARS[cp - PUA_BASE]
                if sc.opaque:
                    out.append("\N{REPLACEMENT CHARACTER}")
                else:
                    out.append(
                        chr(model.eval(sc.expr, model_completion=True).as_long())
                    )
            else:
                out.append(c)
        return "".join(out)
    t = type(obj)
    if t is SymBool:
        return z3.is_true(model.eval(obj.expr, model_completion=True))
    if t is SymInt:
        return model.eval(obj.expr, model_completion=True).as_long()
    if t is SymFloat:
        return fp_value(model.eval(obj.expr, model_completion=True))
    if isinstance(obj, dict):
        return {concretise(k, model): concretise(v, model) for k, v in obj.items()}
    if isinstance(obj, list):
        return [concretise(x, model) for x in obj]
    if isinstance(obj, tuple):
        return [concretise(x, model) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((concretise(x, model) for x in obj), key=repr)
    if obj is None or isinstance(obj, (bool, int, float)):
        return obj
    return "<%s>" % t.__name__


# --------------------------------------------------------------------------
# booleans and numbers
# --------------------------------------------------------------------------
def boolish(cond):
    """z3 Bool or bool -> SymBool or bool"""
    if cond is True or cond is False:
        return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    return SymBool(cond)


def bexpr(x):
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymBool:
        return x.expr
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ("expr",)
    __class__ = property(lambda self: bool)

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return ENGINE.branch(self.expr)

    def __eq__(self, other):
        if type(other) is SymBool:
            return boolish(self.expr == other.expr)
        if type(other) is bool:
            return boolish(self.expr if other else z3.Not(self.expr))
        if type(other) in (int, float, SymInt, SymFloat):
            return self._int() == other
        return False

    def __ne__(self, other):
        return sym_not(self == other)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.expr, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return boolish(z3.And(self.expr, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return boolish(z3.Or(self.expr, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return boolish(z3.Xor(self.expr, bexpr(o)))

    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return formatted(self)

    __repr__ = __str__

    def __format__(self, spec):
        return str.__str__(formatted(self, spec))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o


def sym_not(x):
    if type(x) is SymBool:
        return boolish(z3.Not(x.expr))
    return not x


F64 = z3.Float64()
RNE = z3.RNE()


def fpconst(x):
    x = float(x)
    if math.isnan(x):
        return z3.fpNaN(F64)
    if math.isinf(x):
        return z3.fpInfinity(F64, x < 0)
    if x == 0 and math.copysign(1, x) < 0:
        return z3.fpMinusZero(F64)
    return z3.FPVal(x, F64)


def _is_int_like(x):
    return type(x) in (int, bool, SymInt, SymBool)


def iexpr(x):
    if type(x) is SymInt:
        return x.expr
    if type(x) is SymBool:
        return z3.If(x.expr, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def fexpr(x):
    if type(x) is SymFloat:
        return x.expr
    if type(x) in (SymInt, SymBool):
        e = z3.simplify(iexpr(x))
        if z3.is_int_value(e):
            return fpconst(e.as_long())
        return z3.fpRealToFP(RNE, z3.ToReal(e), F64)
    return fpconst(x)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt:
    __slots__ = ("expr",)
    __class__ = property(lambda self: int)

    def __init__(self, expr):
        self.expr = expr

    # -- comparisons
    def _cmp(self, other, op):
        t = type(other)
        if _is_int_like(other):
            return boolish(op(self.expr, iexpr(other)))
        if t is float:
            if math.isnan(other):
                return False
            if math.isinf(other):
                return op(0, 1) if other > 0 else op(1, 0)
            if other == int(other):
                return boolish(op(self.expr, z3.IntVal(int(other))))
            n, d = other.as_integer_ratio()
            return boolish(op(self.expr * d, z3.IntVal(n)))
        if t is SymFloat:
            fe = other.expr
            finite = z3.Not(z3.Or(z3.fpIsNaN(fe), z3.fpIsInf(fe)))
            real = op(z3.ToReal(self.expr), z3.fpToReal(fe))
            posinf = z3.And(z3.fpIsInf(fe), z3.fpIsPositive(fe))
            neginf = z3.And(z3.fpIsInf(fe), z3.fpIsNegative(fe))
            return boolish(
                z3.Or(
                    z3.And(finite, real),
                    z3.And(posinf, bool(op(0, 1))),
                    z3.And(neginf, bool(op(1, 0))),
                )
            )
        return NotImplemented

    def __eq__(self, other):
        r = self._cmp(other, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, other):
        return sym_not(self == other)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def __bool__(self):
        return ENGINE.branch(self.expr != 0)

    # -- arithmetic
    def _arith(self, other, iop, fop, swap=False):
        if _is_int_like(other):
            a, b = self.expr, iexpr(other)
            if swap:
                a, b = b, a
            return mkint(iop(a, b))
        if type(other) in (float, SymFloat):
            a, b = fexpr(self), fexpr(other)
            if swap:
                a, b = b, a
            return mkfloat(fop(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, fadd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, fsub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, fsub, True)

    def __mul__(self, o):
        if type(o) in (str, SymStr, list, tuple):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b, fmul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.expr / o)
        return self.__index__() // (o if not isinstance(o, SymInt) else o.__index__())

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.expr % o)
        return self.__index__() % (o if not isinstance(o, SymInt) else o.__index__())

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return mkfloat(fdiv(fexpr(self), fexpr(o)))

    def __rtruediv__(self, o):
        return mkfloat(fdiv(fexpr(o), fexpr(self)))

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.expr % (o + 1))  # floor mod: also right for negatives
        return self.__index__() & int(o)

    __rand__ = __and__

    def __rshift__(self, o):
        return mkint(self.expr / (1 << int(o)))

    def __lshift__(self, o):
        return mkint(self.expr * (1 << int(o)))

    def __or__(self, o):
        return self.__index__() | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ int(o)

    __rxor__ = __xor__

    def __neg__(self):
        return mkint(-self.expr)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.expr < 0, -self.expr, self.expr))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __index__(self):
        """Concretise by exploring every feasible value."""
        e = z3.simplify(self.expr)
        if z3.is_int_value(e):
            return e.as_long()
        ENGINE.stats["concretisations"] += 1
        n = 0
        while True:
            # replay must offer the same candidate: remember it in the trail
            v = _candidate(e)
            if ENGINE.branch(e == v):
                return v
            n += 1
            if n > 4096:
                raise Inconclusive("unbounded concretisation of an integer")

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return formatted(self)

    __repr__ = __str__

    def __format__(self, spec):
        return str.__str__(formatted(self, spec))

    def is_integer(self):
        return True


def _candidate(e):
    """The next value to try for a symbolic integer; remembered in the trail, so that
    replaying a path offers the same one."""
    eng = ENGINE
    if eng.pos < len(eng.trail):
        entry = eng.trail[eng.pos]
        if entry[0] != "V":
            raise Inconclusive("nondeterministic execution (trail mismatch)")
        eng.pos += 1
        return entry[1]
    if eng.pos < len(eng.prefix):
        code = eng.prefix[eng.pos]
        if code[0] != "V":
            raise Inconclusive("nondeterministic execution (prefix mismatch)")
        v = int(code[1:])
    else:
        v = _smallest(e)
    eng.pos += 1
    eng.trail.append(["V", v, None, False])
    return v


def _smallest(e):
    eng = ENGINE
    m = eng._sat()
    if m is None:
        raise Infeasible()
    v = m.eval(e, model_completion=True).as_long()
    step = 1
    # descend to the minimum (galloping); inputs are bounded by the harness
    for _ in range(200):
        m = eng._sat(e <= v - step)
        if m is not None:
            v = m.eval(e, model_completion=True).as_long()
            step *= 2
        elif step == 1:
            return v
        else:
            step = max(1, step // 2)
    raise Inconclusive("unbounded concretisation of an integer")


def _comm(f):
    def g(a, b):
        if a.get_id() > b.get_id():
            a, b = b, a
        return f(RNE, a, b)

    return g


fadd = _comm(z3.fpAdd)
fmul_exact = _comm(z3.fpMul)


def fmul(a, b):
    """Product of doubles.  A product of two unknown doubles is a fresh unknown with a
    few of its laws (deciding over the exact circuit takes minutes); models are made
    exact before they count (Engine.exact_model)."""
    for x, y in ((a, b), (b, a)):
        if z3.is_fp_value(x) and fp_value(x) == 1.0:
            return y
    if z3.is_fp_value(a) and z3.is_fp_value(b):
        return fmul_exact(a, b)
    if a.get_id() > b.get_id():
        a, b = b, a
    eng = ENGINE
    key = (a.get_id(), b.get_id())
    p = eng.products.get(key)
    if p is not None:
        return p[2]
    v = z3.FP("mul!%d" % len(eng.products), F64)
    eng.products[key] = (a, b, v)
    one = fpconst(1.0)
    finite = [z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))) for x in (a, b)]
    eng.assume(z3.And(
        z3.Implies(z3.fpEQ(a, one), v == b),
        z3.Implies(z3.fpEQ(b, one), v == a),
        z3.Implies(z3.And(z3.Or(z3.fpIsZero(a), z3.fpIsZero(b)), *finite), z3.fpIsZero(v)),
        z3.Implies(z3.And(finite), z3.Not(z3.fpIsNaN(v))),
    ))
    return v


def fsub(a, b):
    return z3.fpSub(RNE, a, b)


def fdiv(a, b):
    return z3.fpDiv(RNE, a, b)


def mkfloat(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        return fp_value(e)
    return SymFloat(e)


def mktable(entries):
    """entries: [(float, condition)], exhaustive and exclusive"""
    groups = {}
    for v, c in entries:
        groups.setdefault(struct.pack(">d", v), []).append(c)
    table = [(struct.unpack(">d", k)[0], z3.simplify(z3.Or(cs)) if len(cs) > 1 else cs[0])
             for k, cs in groups.items()]
    table = [(v, c) for v, c in table if not z3.is_false(c)]
    if len(table) == 1:
        return table[0][0]
    return SymFloat(None, table)


class SymFloat:
    """A double.  With a table [(value, condition)] it is known to be one of few values:
    arithmetic and comparisons are then computed on the values."""

    __slots__ = ("_expr", "table")
    __class__ = property(lambda self: float)

    def __init__(self, expr, table=None):
        self._expr = expr
        self.table = table

    @property
    def expr(self):
        if self._expr is None:
            e = None
            for v, c in self.table:
                e = fpconst(v) if e is None else z3.If(c, fpconst(v), e)
            self._expr = e
        return self._expr

    def _pairs(self, other, swap=False):
        """[(a, b, condition)] over the tables of both operands, or None"""
        if self.table is None:
            return None
        if type(other) is SymFloat:
            if other.table is None or len(self.table) * len(other.table) > 4096:
                return None
            pairs = [(v, w, z3.And(c, d)) for v, c in self.table for w, d in other.table]
        elif type(other) in (int, float, bool):
            pairs = [(v, other, c) for v, c in self.table]
        else:
            return None
        return [(w, v, c) for v, w, c in pairs] if swap else pairs

    def _cmp(self, other, fop, iop):
        t = type(other)
        pairs = self._pairs(other)
        if pairs is not None:
            return disj([boolish(c) for v, w, c in pairs if iop(v, w)])
        if t is SymFloat or t is float:
            return boolish(fop(self.expr, fexpr(other)))
        if t in (int, bool):
            if abs(int(other)) <= 1 << 53:
                return boolish(fop(self.expr, fexpr(int(other))))
            raise Inconclusive("comparison of a float with a huge int")
        if t in (SymInt, SymBool):
            o = SymInt(iexpr(other))
            return o._cmp(self, lambda a, b: iop(b, a))
        return NotImplemented

    def __eq__(self, other):
        r = self._cmp(other, z3.fpEQ, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, other):
        return sym_not(self == other)

    def __lt__(self, other):
        return self._cmp(other, z3.fpLT, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, z3.fpLEQ, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, z3.fpGT, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, z3.fpGEQ, lambda a, b: a >= b)

    def __bool__(self):
        if self.table is not None:
            return bool(self != 0)
        return ENGINE.branch(z3.Not(z3.fpIsZero(self.expr)))

    def _arith(self, other, fop, pop, swap=False):
        pairs = self._pairs(other, swap)
        if pairs is not None:
            try:
                return mktable([(pop(v, w), c) for v, w, c in pairs])
            except (ZeroDivisionError, OverflowError):
                pass
        if type(other) in (int, float, bool, SymInt, SymFloat, SymBool):
            a, b = self.expr, fexpr(other)
            if swap:
                a, b = b, a
            return mkfloat(fop(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, fadd, operator.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, fsub, operator.sub)

    def __rsub__(self, o):
        return self._arith(o, fsub, operator.sub, True)

    def __mul__(self, o):
        return self._arith(o, fmul, operator.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, fdiv, operator.truediv)

    def __rtruediv__(self, o):
        return self._arith(o, fdiv, operator.truediv, True)

    def __neg__(self):
        return mkfloat(z3.fpNeg(self.expr))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkfloat(z3.fpAbs(self.expr))

    def _value(self):
        """Concretise a float that has few feasible values"""
        eng = ENGINE
        eng.stats["concretisations"] += 1
        e = self.expr
        for _ in range(64):
            if eng.pos < len(eng.trail) or eng.pos < len(eng.prefix):
                bits = _candidate(None)
            else:
                m = eng._sat()
                if m is None:
                    raise Infeasible()
                v = fp_value(m.eval(e, model_completion=True))
                bits = struct.unpack(">Q", struct.pack(">d", v))[0]
                eng.pos += 1
                eng.trail.append(["V", bits, None, False])
            v = struct.unpack(">d", struct.pack(">Q", bits))[0]
            if eng.branch(e == fpconst(v)):
                return v
        raise Inconclusive("a symbolic float with many values reaches code that needs "
                           "a concrete one")

    def __hash__(self):
        return hash(self._value())

    def __float__(self):
        return self._value()

    def __int__(self):
        return int(self._value())

    __trunc__ = __int__

    def __round__(self, *n):
        return round(self._value(), *n)

    def is_integer(self):
        e = self.expr
        return boolish(
            z3.And(
                z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))),
                z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), e), e),
            )
        )

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return formatted(self)

    __repr__ = __str__

    def __format__(self, spec):
        return str.__str__(formatted(self, spec))


# --------------------------------------------------------------------------
# strings: a SymStr is a str whose symbolic characters are private-use code
# points, each standing for a z3 integer with a finite domain.
# --------------------------------------------------------------------------
PUA_BASE = 0xF0000


class Char:
    __slots__ = ("expr", "domain", "opaque", "key")

    def __init__(self, expr, domain, opaque=False, key=None):
        self.key = repr(key)
        self.expr = expr
        self.domain = domain
        self.opaque = opaque


CHARS = []
CHAR_BY_KEY = {}


def new_char(key, expr, domain, opaque=False):
    i = CHAR_BY_KEY.get(key)
    if i is None:
        i = len(CHARS)
        CHARS.append(Char(expr, domain, opaque, key))
        CHAR_BY_KEY[key] = i
    return chr(PUA_BASE + i)


OPAQUE = new_char("opaque", None, None, True)
EAGER = "\0formatted numbers"  # in the universe: numbers are formatted value by value


def formatted(x, spec=""):
    """The text of a symbolic number: nothing known of it until it is looked at"""
    if ENGINE.eager and type(x) is not SymFloat:
        x = bool(x) if type(x) is SymBool else x.__index__()
        return wrap(format(x, spec) if spec else str(x))
    return SymStr(OPAQUE)


def needed(s=OPAQUE):
    """Content or length of a text is needed, and it contains a formatted number"""
    if str.__contains__(s, OPAQUE):
        if ENGINE.eager:
            raise Inconclusive("inspection of a formatted symbolic number")
        ENGINE.learned.add(EAGER)
        raise RestartUniverse(EAGER)


def is_sym(s):
    if not isinstance(s, str) or str.isascii(s):
        return False
    return any(c >= "\U000f0000" for c in str.__iter__(s))


def char_eq(a, b):
    """a, b: code points -> bool or z3 Bool"""
    if a == b:
        if a >= PUA_BASE and CHARS[a - PUA_BASE].opaque:
            needed()
        return True
    sa = CHARS[a - PUA_BASE] if a >= PUA_BASE else None
    sb = CHARS[b - PUA_BASE] if b >= PUA_BASE else None
    if sa is None and sb is None:
        return False
    for s in (sa, sb):
        if s is not None and s.opaque:
            needed()
    if sa is None:
        return sb.expr == a if a in sb.domain else False
    if sb is None:
        return sa.expr == b if b in sa.domain else False
    if sa.domain.isdisjoint(sb.domain):
        return False
    return sa.expr == sb.expr


def char_in(c, cps):
    """Membership of code point c in a set of code points -> bool or z3 Bool"""
    if c < PUA_BASE:
        return c in cps
    s = CHARS[c - PUA_BASE]
    if s.opaque:
        needed()
    inter = [x for x in sorted(s.domain) if x in cps]
    if not inter:
        return False
    if len(inter) == len(s.domain):
        return True
    return _ranges(s.expr, inter)


def _ranges(e, values):
    """values sorted -> disjunction of intervals"""
    out = []
    lo = hi = values[0]
    for v in values[1:]:
        if v == hi + 1:
            hi = v
        else:
            out.append((lo, hi))
            lo = hi = v
    out.append((lo, hi))
    parts = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in out]
    return parts[0] if len(parts) == 1 else z3.Or(parts)


_EQ_CACHE = {}


def str_eq(a, b):
    """contents a, b -> bool or z3 Bool"""
    needed(a)
    needed(b)
    if len(a) != len(b):
        return False
    if str.__eq__(a, b) is True and not is_sym(a):
        return True
    key = (str.__str__(a), str.__str__(b))
    r = _EQ_CACHE.get(key)
    if r is not None:
        return r
    parts = []
    for x, y in zip(str.__iter__(a), str.__iter__(b)):
        c = char_eq(ord(x), ord(y))
        if c is False:
            _EQ_CACHE[key] = False
            return False
        if c is not True:
            parts.append(c)
    if not parts:
        r = True
    elif len(parts) == 1:
        r = z3.simplify(parts[0])
    else:
        r = z3.simplify(z3.And(parts))
    _EQ_CACHE[key] = r
    return r


def wrap(s):
    """Result of a native string operation -> SymStr when it is symbolic."""
    if type(s) is str:
        if is_sym(s):
            return SymStr(s)
        ENGINE.concrete_string(s)
    return s


WS = frozenset(map(ord, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"))
LINE_ENDS = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))
DIGITS = frozenset(range(48, 58))
UPPER = frozenset(range(65, 91))
LOWER = frozenset(range(97, 123))
ALPHA = UPPER | LOWER


def yes(cond):
    if type(cond) is SymBool:
        return bool(cond)
    return ENGINE.branch(cond)


def str_lt(a, b, or_equal):
    """Lexicographic a < b (or <=) as formula."""
    acc = len(a) <= len(b) if or_equal else len(a) < len(b)
    acc = z3.BoolVal(acc)
    for x, y in reversed(list(zip(str.__iter__(a), str.__iter__(b)))):
        x, y = ord(x), ord(y)
        eq = char_eq(x, y)
        ex = CHARS[x - PUA_BASE].expr if x >= PUA_BASE else z3.IntVal(x)
        ey = CHARS[y - PUA_BASE].expr if y >= PUA_BASE else z3.IntVal(y)
        if eq is True:
            continue
        if eq is False:
            acc = ex < ey
        else:
            acc = z3.Or(ex < ey, z3.And(eq, acc))
    return boolish(acc)


class SymStr(str):
    __slots__ = ()

    def __eq__(self, other):
        if not isinstance(other, str):
            return False
        return boolish(str_eq(self, other))

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __hash__(self):
        return ENGINE.str_hash(self)

    def __lt__(self, o):
        return str_lt(self, o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return str_lt(self, o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return str_lt(o, self, False) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return str_lt(o, self, True) if isinstance(o, str) else NotImplemented

    def __str__(self):
        return self

    def __repr__(self):
        return "'" + str.__str__(self) + "'"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return wrap(str.__add__(str.__str__(self), str.__str__(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return wrap(str.__add__(str.__str__(o), str.__str__(self)))

    def __mul__(self, n):
        return wrap(str.__str__(self) * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return wrap(str.__mod__(str.__str__(self), args))

    def __rmod__(self, o):
        return wrap(str.__mod__(str.__str__(o), self))

    def __getitem__(self, k):
        return wrap(str.__getitem__(str.__str__(self), k))

    def __iter__(self):
        for c in str.__iter__(self):
            yield wrap(c)

    def __contains__(self, sub):
        return self.find(sub) != -1

    # -- matching
    def _match_at(self, sub, i):
        return str_eq(str.__str__(self)[i : i + len(sub)], sub)

    @staticmethod
    def _bounds(n, start, end):
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        start, end = self._bounds(len(self), start, end)
        for i in range(start, end - len(sub) + 1):
            if yes(self._match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        start, end = self._bounds(len(self), start, end)
        for i in range(end - len(sub), start - 1, -1):
            if yes(self._match_at(sub, i)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        start, end = self._bounds(len(self), start, end)
        n, i = 0, start
        if len(sub) == 0:
            return end - start + 1
        while i <= end - len(sub):
            if yes(self._match_at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(s.startswith(x) for x in p)
        if len(p) > len(s):
            return False
        return boolish(str_eq(str.__str__(s)[: len(p)], p))

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(s.endswith(x) for x in p)
        if len(p) > len(s):
            return False
        return boolish(str_eq(str.__str__(s)[len(s) - len(p) :], p))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        s = str.__str__(self)
        if len(old) == 0:
            return wrap(s.replace("", str.__str__(new), count))
        out, i, n = [], 0, 0
        while i < len(s):
            if (count < 0 or n < count) and i + len(old) <= len(s) and yes(
                self._match_at(old, i)
            ):
                out.append(str.__str__(new))
                i += len(old)
                n += 1
            else:
                out.append(s[i])
                i += 1
        return wrap("".join(out))

    def split(self, sep=None, maxsplit=-1):
        s = str.__str__(self)
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(s) and yes(char_in(ord(s[i]), WS)):
                    i += 1
                if i >= len(s):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(wrap(s[i:]).rstrip())
                    return out
                j = i
                while j < len(s) and not yes(char_in(ord(s[j]), WS)):
                    j += 1
                out.append(wrap(s[i:j]))
                i = j
            return out
        if len(sep) == 0:
            raise ValueError("empty separator")
        i = start = 0
        while i + len(sep) <= len(s):
            if (maxsplit < 0 or len(out) < maxsplit) and yes(self._match_at(sep, i)):
                out.append(wrap(s[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(wrap(s[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        s = str.__str__(self)
        if sep is None:
            raise Inconclusive("rsplit on whitespace")
        out = []
        end = len(s)
        i = end - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if yes(self._match_at(sep, i)):
                out.append(wrap(s[i + len(sep) : end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(wrap(s[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def splitlines(self, keepends=False):
        out, start, i = [], 0, 0
        while i < len(self):
            if yes(char_in(ord(str.__getitem__(self, i)), LINE_ENDS)):
                end = i + 1
                if end < len(self) and yes(str_eq(str.__str__(self)[i : end + 1], "\r\n")):
                    end += 1
                out.append(self[start : end if keepends else i])
                start = i = end
            else:
                i += 1
        if start < len(self):
            out.append(self[start:])
        return out

    def _strip(self, chars, left, right):
        s = str.__str__(self)
        cps = None if chars is None else [ord(c) for c in str.__str__(chars)]

        def hit(c):
            if cps is None:
                return yes(char_in(ord(c), WS))
            return any(yes(char_eq(ord(c), k)) for k in cps)

        i, j = 0, len(s)
        if left:
            while i < j and hit(s[i]):
                i += 1
        if right:
            while j > i and hit(s[j - 1]):
                j -= 1
        return wrap(s[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    # -- character classes / case
    def _all(self, cps):
        if len(self) == 0:
            return False
        parts = []
        for c in str.__iter__(self):
            r = char_in(ord(c), cps)
            if r is False:
                return False
            if r is not True:
                parts.append(r)
        return boolish(z3.And(parts)) if parts else True

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA | DIGITS)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return self._all(frozenset(range(128))) if len(self) else True

    def _cased(self, wanted, other):
        seen = False
        for c in str.__iter__(self):
            if yes(char_in(ord(c), other)):
                return False
            seen = yes(char_in(ord(c), wanted)) or seen
        return seen

    def isupper(self):
        return self._cased(UPPER, LOWER)

    def islower(self):
        return self._cased(LOWER, UPPER)

    def isidentifier(self):
        if len(self) == 0:
            return False
        first = char_in(ord(str.__getitem__(self, 0)), ALPHA | {95})
        return yes(first) and yes(self._all(ALPHA | DIGITS | {95}))

    def zfill(self, width):
        fill = "0" * max(0, int(width) - len(self))
        if fill and len(self) and yes(char_in(ord(str.__getitem__(self, 0)), {43, 45})):
            return self[:1] + fill + self[1:]
        return wrap(fill + str.__str__(self))

    def translate(self, table):
        out = SymStr("")
        for c in self:
            for k, v in table.items():
                if yes(char_eq(ord(str.__str__(c)), k if isinstance(k, int) else ord(k))):
                    c = "" if v is None else chr(v) if isinstance(v, int) else v
                    break
            out = out + c
        return out

    def _map(self, f, tag):
        out = []
        for c in str.__iter__(self):
            cp = ord(c)
            if cp < PUA_BASE:
                out.append(f(c))
                continue
            sc = CHARS[cp - PUA_BASE]
            if sc.opaque:
                needed()
            moved = [x for x in sorted(sc.domain) if f(chr(x)) != chr(x)]
            if not moved:
                out.append(c)
                continue
            e = sc.expr
            for x in moved:
                e = z3.If(sc.expr == x, z3.IntVal(ord(f(chr(x)))), e)
            dom = frozenset(ord(f(chr(x))) for x in sc.domain)
            out.append(new_char((tag, cp), z3.simplify(e), dom))
        return wrap("".join(out))

    def lower(self):
        return self._map(str.lower, "lower")

    casefold = lower

    def upper(self):
        return self._map(str.upper, "upper")

    def swapcase(self):
        return self._map(str.swapcase, "swap")

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        out, inside = SymStr(""), False
        for c in self:
            out = out + (c.lower() if inside else c.upper())
            inside = yes(char_in(ord(str.__str__(c)), ALPHA))
        return out

    # -- content-independent operations: native on the placeholder content
    def join(self, it):
        return wrap(str.join(str.__str__(self), it))

    def format(self, *a, **k):
        return wrap(str.format(str.__str__(self), *a, **k))

    def ljust(self, *a):
        return wrap(str.ljust(str.__str__(self), *a))

    def rjust(self, *a):
        return wrap(str.rjust(str.__str__(self), *a))

    def center(self, *a):
        return wrap(str.center(str.__str__(self), *a))


def _looks(f):
    def g(self, *a, **k):
        needed(self)
        return f(self, *a, **k)

    return g


for _n in ("__getitem__ __iter__ find rfind count startswith endswith replace split rsplit "
           "splitlines zfill ljust rjust center _strip _all").split():
    setattr(SymStr, _n, _looks(SymStr.__dict__[_n]))


def _unsupported(name):
    def f(self, *a, **k):
        raise Inconclusive("str.%s on a symbolic string" % name)

    return f


for _n in dir(str):
    if _n.startswith("__") or _n in SymStr.__dict__ or _n == "maketrans":
        continue
    setattr(SymStr, _n, _unsupported(_n))


# --------------------------------------------------------------------------
# conversions of symbolic strings to numbers
# --------------------------------------------------------------------------
def _digit_value(cp, base):
    """-> (is-digit condition, value expr or int)"""
    valid = set(range(48, 48 + min(base, 10)))
    if base > 10:
        valid |= set(range(65, 65 + base - 10)) | set(range(97, 97 + base - 10))
    cond = char_in(cp, valid)
    if cp < PUA_BASE:
        return cond, (int(chr(cp), base) if cond else None)
    e = CHARS[cp - PUA_BASE].expr
    v = e - 48
    if base > 10:
        v = z3.If(e >= 97, e - 87, z3.If(e >= 65, e - 55, e - 48))
    return cond, v


def parse_int(s, base=10):
    t = s.strip() if type(s) is SymStr else s.strip()
    if not is_sym(t):
        return int(str.__str__(t), base)
    body = t
    neg = False
    err = ValueError("invalid literal for int() with base %d: %s" % (base, repr(s)))
    if len(body) and yes(char_in(ord(str.__str__(body)[0]), {43, 45})):
        neg = yes(char_eq(ord(str.__str__(body)[0]), 45))
        body = body[1:]
    if base == 16 and len(body) >= 2:
        if yes(str_eq(str.__str__(body)[0], "0")) and yes(
            char_in(ord(str.__str__(body)[1]), {120, 88})
        ):
            body = body[2:]
            if len(body) > 1 and yes(char_eq(ord(str.__str__(body)[0]), 95)):
                body = body[1:]
    if len(body) == 0:
        raise err
    acc = 0
    prev_us = True
    for c in str.__iter__(str.__str__(body)):
        cp = ord(c)
        cond, v = _digit_value(cp, base)
        if yes(cond):
            acc = acc * base + v
            prev_us = False
        elif not prev_us and yes(char_eq(cp, 95)):
            prev_us = True
        else:
            raise err
    if prev_us:
        raise err
    if isinstance(acc, int):
        return -acc if neg else acc
    return mkint(-acc if neg else acc)


def parse_float(s):
    t = s.strip()
    if not is_sym(t):
        return float(str.__str__(t))
    err = ValueError("could not convert string to float: %s" % repr(s))
    c = str.__str__(t)
    cps = [ord(x) for x in c]
    i = 0
    if yes(char_in(cps[0], {43, 45})):
        i = 1
    rest = SymStr(c[i:]).lower()
    for word in ("inf", "nan", "infinity"):
        if len(rest) == len(word) and yes(str_eq(rest, word)):
            neg = i == 1 and yes(char_eq(cps[0], 45))
            v = float(word)
            return -v if neg else v

    def digits(i):
        n = 0
        last_us = False
        while i < len(cps):
            if yes(char_in(cps[i], DIGITS)):
                n += 1
                last_us = False
                i += 1
            elif n and not last_us and i + 1 < len(cps) and yes(char_eq(cps[i], 95)):
                last_us = True
                i += 1
            else:
                break
        if last_us:
            raise err
        return i, n

    i, n1 = digits(i)
    n2 = 0
    if i < len(cps) and yes(char_eq(cps[i], 46)):
        i, n2 = digits(i + 1)
    if n1 + n2 == 0:
        raise err
    if i < len(cps) and yes(char_in(cps[i], {101, 69})):
        i += 1
        if i < len(cps) and yes(char_in(cps[i], {43, 45})):
            i += 1
        i, n3 = digits(i)
        if n3 == 0:
            raise err
    if i != len(cps):
        raise err
    v = _strtod_table(c, cps)
    if v is not None:
        return v
    # value of the numeral: an unknown float per distinct text (strtod itself is
    # CPython's, not the code under test)
    for other, val in ENGINE.float_reps:
        if yes(str_eq(other, c)):
            return val
    name = "strtod!%d" % len(ENGINE.float_reps)
    v = SymFloat(z3.FP(name, F64))
    ENGINE.assume(z3.Not(z3.Or(z3.fpIsNaN(v.expr), z3.fpIsInf(v.expr))))
    ENGINE.float_reps.append((c, v))
    return v


NUMERAL = "0123456789+-.eE_infatyINFATY"


def _strtod_table(text, cps):
    """Exact value of a numeral with few possible texts, else None"""
    syms = {}
    for cp in cps:
        if cp >= PUA_BASE:
            syms[cp] = CHARS[cp - PUA_BASE]
    n = 1
    domains = {cp: [d for d in sorted(sc.domain) if chr(d) in NUMERAL or d > 127]
               for cp, sc in syms.items()}
    for d in domains.values():
        n *= len(d)
    if n > 600:
        return None
    keys = list(syms)
    entries = []

    def build(i, current, conds):
        if i == len(keys):
            try:
                entries.append((float(current), z3.And(conds)))
            except ValueError:
                pass
            return
        sc = syms[keys[i]]
        for d in domains[keys[i]]:
            build(i + 1, current.replace(chr(keys[i]), chr(d)), conds + [sc.expr == d])

    build(0, str.__str__(text), [])
    return mktable(entries)


def same(a, b):
    """Identical JSON value (numbers by value, NaN == NaN) -> bool or SymBool"""
    ta, tb = type(a), type(b)
    num = (int, float, SymInt, SymFloat)
    if ta in (bool, SymBool) or tb in (bool, SymBool):
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            return boolish(bexpr(a) == bexpr(b)) if SymBool in (ta, tb) else a == b
        return False
    if ta in num and tb in num:
        if ta is SymFloat or tb is SymFloat:
            if ta in (SymFloat, float) and tb in (SymFloat, float):
                x, y = (a, b) if ta is SymFloat else (b, a)
                if x._pairs(y) is not None:
                    return x._cmp(y, None, lambda v, w: v == w or (v != v and w != w))
                ea, eb = fexpr(a), fexpr(b)
                return boolish(
                    z3.Or(z3.fpEQ(ea, eb), z3.And(z3.fpIsNaN(ea), z3.fpIsNaN(eb)))
                )
            return a == b
        if ta is float and tb is float and math.isnan(a) and math.isnan(b):
            return True
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        parts = []
        for k, v in a.items():
            if k not in b:
                return False
            parts.append(same(v, b[k]))
        return conj(parts)
    return False


def conj(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        if type(p) is SymBool:
            out.append(p.expr)
        elif not p:
            return False
    if not out:
        return True
    return boolish(z3.And(out))


def disj(parts):
    out = []
    for p in parts:
        if p is True:
            return True
        if p is False:
            continue
        if type(p) is SymBool:
            out.append(p.expr)
        elif p:
            return True
    if not out:
        return False
    return boolish(z3.Or(out))
