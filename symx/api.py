"""The interface harnesses are written against: once symbolic, once concrete."""
import contextlib
import copy
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile

import z3

from symx import core
from symx.core import SymBool, SymFloat, SymInt, SymStr


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class Diverged(BaseException):
    pass


class Base:
    symbolic = False

    def choice(self, name, options):
        """One of the options (explored one by one)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    @contextlib.contextmanager
    def scratch(self, depth=3):
        """Run in a new directory, `depth` levels below a new one that is removed"""
        before = os.getcwd()
        top = tempfile.mkdtemp(prefix="scratch", dir=before)
        inner = os.path.join(top, *["d%d" % i for i in range(depth)])
        os.makedirs(inner)
        os.chdir(inner)
        try:
            yield top
        finally:
            os.chdir(before)
            shutil.rmtree(top, ignore_errors=True)

    def subset(self, name, items):
        return [x for x in items if self.flag("%s:%s" % (name, x))]


class SymbolicSX(Base):
    symbolic = True

    def __init__(self, engine):
        self.e = engine

    def _declare(self, name, kind, payload):
        self.e.unique(name)
        self.e.vars[name] = (kind, payload)
        return payload

    def flag(self, name):
        return self._declare(name, "flag", SymBool(z3.Bool(name)))

    def int(self, name, lo, hi):
        v = z3.Int(name)
        x = self._declare(name, "int", SymInt(v))
        self.e.assume(z3.And(v >= lo, v <= hi))
        return x

    def float(self, name, lo=None, hi=None):
        """Any finite double (within [lo, hi])"""
        v = z3.FP(name, core.F64)
        x = self._declare(name, "float", SymFloat(v))
        conds = [z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v))]
        if lo is not None:
            conds.append(z3.fpGEQ(v, core.fpconst(lo)))
        if hi is not None:
            conds.append(z3.fpLEQ(v, core.fpconst(hi)))
        self.e.assume(z3.And(conds))
        return x

    def str(self, name, n, alphabet):
        """A string of exactly n characters out of the alphabet."""
        dom = sorted(set(map(ord, alphabet)))
        chars = []
        conds = []
        for i in range(n):
            v = z3.Int("%s[%d]" % (name, i))
            conds.append(core._ranges(v, dom))
            chars.append(
                core.new_char(("var", name, i, tuple(dom)), v, frozenset(dom))
            )
        s = SymStr("".join(chars)) if n else ""
        self._declare(name, "str", s)
        if conds:
            self.e.assume(z3.And(conds))
        return s

    def process(self, calls, order="sorted"):
        """The results of the calls [(function of a harness, arguments)] one after the
        other in a new process; order "any": with any order of the elements of sets"""
        from symx import explore

        explore.SNAPSHOT.restore()
        self.e.order = order
        try:
            return [f(*copy.deepcopy(a)) for f, a in calls]
        finally:
            self.e.order = "reversed"
            explore.SNAPSHOT.restore()

    def concrete(self, s):
        """The text s, every possible one explored"""
        from symx import runtime

        return runtime.concrete_str(s) if core.is_sym(s) else s

    def assume(self, cond):
        if isinstance(cond, (SymInt, SymFloat)):
            cond = bool(cond)
        self.e.assume(cond)

    def check(self, cond, message):
        self.e.check(cond, message)

    def observe(self, name, value):
        self.e.observations.append((name, value))

    def reach(self, label):
        self.e.notes.append(label)

    def same(self, a, b):
        return core.same(a, b)

    def all(self, parts):
        return core.conj(list(parts))

    def any(self, parts):
        return core.disj(list(parts))

    def no(self, x):
        r = core.sym_not(x)
        return (not r) if r is x else r


def real_same(a, b):
    num = (int, float)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, num) and isinstance(b, num):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(real_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and real_same(v, b[k]) for k, v in a.items())
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is None and b is None


class ConcreteSX(Base):
    def __init__(self, assignment, partial=False):
        self.a = assignment
        self.partial = partial  # inputs that are missing are the first value
        self.observations = []
        self.failed = None

    def concrete(self, s):
        return s

    def process(self, calls, order="sorted"):
        seed = int(os.environ.get("PYTHONHASHSEED", "0"))
        here = os.path.dirname(os.path.abspath(__file__))
        r = subprocess.run(
            [sys.executable, os.path.join(here, "replay.py"), sys.path[0], "--calls"],
            input=json.dumps([[f.__module__, f.__name__, a] for f, a in calls]),
            env=dict(os.environ, PYTHONHASHSEED=str(seed + 1000 * (order == "any")),
                     PYTHONDONTWRITEBYTECODE="1"),
            stdout=subprocess.PIPE, text=True, check=True)
        return json.loads(r.stdout)

    def _get(self, name, default):
        if name not in self.a:
            if self.partial:
                return default
            raise Diverged("input %s not in the assignment" % name)
        v = self.a[name]
        if isinstance(v, dict):
            v = struct.unpack(">d", bytes.fromhex(v["f"]))[0]
        return v

    def flag(self, name):
        return self._get(name, False)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def float(self, name, lo=None, hi=None):
        return self._get(name, 0.5 if lo is None and hi is None else
                         lo if lo is not None else hi)

    def str(self, name, n, alphabet):
        return self._get(name, n * sorted(alphabet)[0])

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, message):
        if not cond:
            raise CheckFailed(message)

    def observe(self, name, value):
        self.observations.append((name, value))

    def reach(self, label):
        pass

    def same(self, a, b):
        return real_same(a, b)

    def all(self, parts):
        return all(list(parts))

    def any(self, parts):
        return any(list(parts))

    def no(self, x):
        return not x


class Case:
    def __init__(self, name, fn, bounds, must_reach=(), path_limit=20.0, **params):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.must_reach = list(must_reach)
        self.path_limit = path_limit
        self.params = params
