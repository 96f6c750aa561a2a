"""Operations that CPython performs in C, extended to symbolic operands."""
import builtins
import collections
import copy
import functools
import io
import itertools
import json
import operator
import os
import pathlib
import re
import types

from symx import core, symre
from symx.core import SymBool, SymFloat, SymInt, SymStr, is_sym

SYMS = (SymBool, SymInt, SymFloat, SymStr)
Builtin = types.BuiltinFunctionType
CMethod = type(re.compile("").match)  # C methods that take their defining class
MethodDesc = type(str.lower)
WrapperDesc = type(str.__add__)
MethodWrapper = type("".__add__)
Pattern = re.Pattern
STR_PASS = {"format", "join", "format_map"}  # content-independent: native, then wrapped
REAL_TYPE = {SymBool: bool, SymInt: int, SymFloat: float, SymStr: str}


# -- shims -----------------------------------------------------------------
def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return REAL_TYPE.get(t, t)
    return type(*a)


def sx_int(*a, **k):
    if a:
        x = a[0]
        t = type(x)
        if t is SymStr:
            base = a[1] if len(a) > 1 else k.get("base", 10)
            return core.parse_int(x, int(base)) if int(base) != 0 else _inc("int base 0")
        if t is SymInt:
            return x
        if t is SymBool:
            return x._int()
    return int(*a, **k)


def _inc(m):
    raise core.Inconclusive(m)


def sx_float(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymStr:
            return core.parse_float(x)
        if t is SymFloat:
            return x
        if t in (SymInt, SymBool):
            return core.mkfloat(core.fexpr(x))
    return float(*a)


def sx_bool(*a):
    if a and type(a[0]) in (SymBool,):
        return a[0]
    return bool(*a)


def sx_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymStr:
            return x
        if t in (SymInt, SymFloat, SymBool):
            return core.formatted(x)
    return core.wrap(str(*a, **k))


def sx_print(*a, **k):
    return None


TOKENS = {}


def contains_sym(o, depth=0):
    t = type(o)
    if t in SYMS:
        return True
    if t is str or o is None or t in (int, float, bool):
        return False
    if isinstance(o, dict):
        return any(contains_sym(k) or contains_sym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(contains_sym(x) for x in o)
    return False


def jsonify(o):
    """What json.loads(json.dumps(o)) yields"""
    if isinstance(o, dict):
        return {jsonify(k): jsonify(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonify(x) for x in o]
    t = type(o)
    if t in SYMS or o is None or isinstance(o, (str, int, float, bool)):
        return o
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


def json_token(o):
    """A text that json.loads maps back to o (text itself is opaque)."""
    tok = core.new_char(("json", len(TOKENS)), None, None, True)
    TOKENS[tok] = jsonify(o)
    return SymStr(tok)


def sx_dumps(o, **k):
    if contains_sym(o):
        return json_token(o)
    return json.dumps(o, **k)


# Text with symbolic characters is kept in (scratch) files with every such character as
# an escape, so that it can be read back whatever the encoding of the file.
def to_file(s):
    return "".join(c if ord(c) < core.PUA_BASE else "\0%d\0" % ord(c)
                   for c in str.__iter__(s))


def from_file(s):
    if type(s) is bytes:
        if b"\0" in s:
            _inc("symbolic text read as bytes")
        return s
    if isinstance(s, (list, tuple)):
        return type(s)(from_file(x) for x in s)
    if not isinstance(s, str):
        return s
    parts = s.split("\0")
    if len(parts) % 2 == 0:
        _inc("part of a symbolic text read")
    for i in range(1, len(parts), 2):
        parts[i] = chr(int(parts[i]))
    return core.wrap("".join(parts))


def sx_loads(s, **k):
    if isinstance(s, (bytes, bytearray)):
        s = from_file(bytes(s).decode("utf-8"))
    if is_sym(s):
        text = str.__str__(s).strip(" \t\r\n")
        tokens = [c for c in text if c in TOKENS]
        if len(tokens) == 1 and text in TOKENS and not k:
            return copy.deepcopy(TOKENS[text])
        if len(tokens) > 1 and all(c in TOKENS or c in " \t\r\n" for c in text):
            raise json.JSONDecodeError("Extra data", "documents", 1)
        _inc("json.loads of symbolic text")
    return json.loads(s, **k)


def sx_load(fp, **k):
    return sx_loads(from_file(fp.read()), **k)


def sx_dump(o, fp, **k):
    if contains_sym(o):
        sx_call(fp.write, json_token(o))
        return None
    return json.dump(o, fp, **k)


def sx_repr(x):
    return core.wrap(repr(x))


def sx_format(x, spec=""):
    return core.wrap(format(x, spec))


def sx_ord(c):
    if type(c) is SymStr:
        cp = ord(str.__str__(c))
        if cp >= core.PUA_BASE:
            return core.mkint(core.CHARS[cp - core.PUA_BASE].expr)
        return cp
    return ord(c)


def sx_len(x):
    if type(x) is SymStr:
        core.needed(x)
    return len(x)


def sx_divmod(a, b):
    if type(a) in (SymInt,):
        return (a // b, a % b)
    return divmod(a, b)


def re_func(name):
    real = getattr(re, name)

    def f(pattern, *a, **k):
        if name in ("sub", "subn"):
            if any(is_sym(x) for x in a):
                p = re.compile(pattern, k.pop("flags", 0)) if isinstance(pattern, str) else pattern
                return getattr(symre, name)(p, *a, **k)
            return wrap_any(real(pattern, *a, **k))
        if a and is_sym(a[0]):
            flags = k.pop("flags", a[1] if len(a) > 1 and name != "split" else 0)
            p = re.compile(pattern, flags) if isinstance(pattern, str) else pattern
            return symre.call(p, name, a[0])
        return real(pattern, *a, **k)

    return f


def sx_isinstance(o, c):
    return isinstance(o, c)


SHIMS = {
    type: sx_type, int: sx_int, float: sx_float, str: sx_str, bool: sx_bool,
    print: sx_print, repr: sx_repr, format: sx_format, ord: sx_ord, divmod: sx_divmod,
    json.dumps: sx_dumps, json.loads: sx_loads, json.dump: sx_dump,
    json.load: sx_load,
    re.match: re_func("match"), re.search: re_func("search"),
    re.fullmatch: re_func("fullmatch"), re.findall: re_func("findall"),
    re.finditer: re_func("finditer"), re.split: re_func("split"), re.sub: re_func("sub"),
    re.subn: re_func("subn"), operator.contains: lambda c, x: sx_in(x, c),
    operator.mod: lambda a, b: sx_mod(a, b), operator.is_: lambda a, b: sx_is(a, b),
    operator.is_not: lambda a, b: not sx_is(a, b),
}
SPECIAL = BY_ID = {id(k): v for k, v in SHIMS.items()}


HIGHER = {id(x) for x in (
    map, filter, sorted, min, max, functools.reduce, itertools.filterfalse,
    itertools.takewhile, itertools.dropwhile, itertools.starmap, itertools.accumulate,
    itertools.groupby)}

ITERATING = HIGHER | {id(x) for x in (
    list, tuple, iter, enumerate, zip, sum, collections.deque, itertools.chain,
    itertools.product, itertools.permutations, itertools.combinations, itertools.zip_longest,
    itertools.islice, itertools.cycle, itertools.compress, itertools.pairwise)}

# C functions that treat a str argument as an opaque object (or through its overridable
# methods), so symbolic strings may be passed as they are
SAFE_MODULES = {
    "builtins", "_functools", "itertools", "_operator", "_collections", "copy",
    "functools", "collections", "operator", "typing", "abc", "enum", "dataclasses",
    "contextlib", "types", "_abc", "math",
}
SAFE_POSIXPATH = {"dirname", "basename", "split", "join", "splitext", "isabs", "fspath"}
UNSAFE_BUILTINS = {"open", "compile", "eval", "exec", "ascii", "hex", "oct", "bin"}


def concrete_str(s):
    """Explore every value of a symbolic string handed to code outside the model."""
    out = []
    for c in str.__iter__(s):
        cp = ord(c)
        if cp < core.PUA_BASE:
            out.append(c)
            continue
        sc = core.CHARS[cp - core.PUA_BASE]
        if sc.opaque:
            _inc("formatted symbolic number leaves the model")
        for v in sorted(sc.domain):
            if core.yes(sc.expr == v):
                out.append(chr(v))
                break
        else:
            raise core.Infeasible()
    return "".join(out)


def concrete_args(a, k):
    a = tuple(concrete_str(x) if is_sym(x) else x for x in a)
    k = {n: concrete_str(x) if is_sym(x) else x for n, x in k.items()}
    return a, k


def strmethod(name):
    def f(recv, *a, **k):
        if not isinstance(recv, str):
            return getattr(str, name)(recv, *a, **k)
        if name in STR_PASS:
            return core.wrap(getattr(str, name)(str.__str__(recv), *a, **k))
        if is_sym(recv) or any(is_sym(x) for x in a):
            return getattr(SymStr(str.__str__(recv)), name)(*a, **k)
        return wrap_any(getattr(str, name)(recv, *a, **k))

    return f


def wrap_any(r):
    if type(r) is str:
        return core.wrap(r)
    if type(r) in (list, tuple) and r and type(r[0]) is str:
        return type(r)(core.wrap(x) if type(x) is str else x for x in r)
    return r


def shim_value(f):
    """A callable handed to map/filter/sorted/..."""
    try:
        s = BY_ID.get(id(f))
    except TypeError:
        return f
    if s is not None:
        return s
    if type(f) is MethodDesc and f.__objclass__ is str:
        return strmethod(f.__name__)
    t = type(f)
    if (
        (t is Builtin or t is CMethod or t is MethodWrapper)
        and isinstance(f.__self__, (str, Pattern))
        or t is functools.partial
    ):
        return lambda *a, **k: sx_call(f, *a, **k)
    return f


def has_sym_str(a, k):
    for x in a:
        if isinstance(x, str) and is_sym(x):
            return True
    for x in k.values():
        if isinstance(x, str) and is_sym(x):
            return True
    return False


OWN = ("spine_json_lib.", "harness.")
PLAIN = {dict, list, set, frozenset, tuple}
MethodType = types.MethodType


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is MethodType:
        if isinstance(f.__self__, pathlib.PurePath):
            if f.__name__ == "write_text":
                a = tuple(to_file(x) if is_sym(x) else x for x in a)
            elif f.__name__ in ("read_text", "read_bytes"):
                return from_file(f(*a, **k))
            elif has_sym_str(a, k):
                a, k = concrete_args(a, k)
        return f(*a, **k)
    elif t is Builtin and type(f.__self__) in PLAIN and f.__name__ != "sort":
        if f.__name__ == "extend":
            a = tuple(map(sx_iter, a))
        elif f.__name__ == "pop" and type(f.__self__) is set and len(f.__self__) > 1:
            x = core.ENGINE.set_order(f.__self__)[0]
            f.__self__.remove(x)
            return x
        return f(*a, **k)
    elif t is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    elif t is CMethod and type(f.__self__) is Pattern:
        if not has_sym_str(a, k):
            return f(*a, **k)
        if f.__name__ in ("sub", "subn"):
            return getattr(symre, f.__name__)(f.__self__, *a, **k)
        return symre.call(f.__self__, f.__name__, *a, **k)
    elif t is MethodWrapper and type(f.__self__) is str and has_sym_str(a, k):
        return getattr(SymStr(f.__self__), f.__name__)(*a, **k)
    i = id(f)
    s = SPECIAL.get(i)
    if s is not None:
        return s(*a, **k)
    if i in ITERATING or t is Builtin and f.__name__ in ("join", "fromkeys"):
        a = tuple(map(sx_iter, a))
    if t is Builtin:
        recv = f.__self__
        if type(recv) is str or type(recv) is SymStr:
            name = f.__name__
            if name not in STR_PASS and any(
                is_sym(x) or type(x) is tuple and any(is_sym(y) for y in x)
                for x in a
                if type(x) in (SymStr, str, tuple)
            ):
                return getattr(SymStr(recv), name)(*a, **k)
            return wrap_any(f(*a, **k))
        if type(recv) is Pattern:
            if has_sym_str(a, k):
                return symre.call(recv, f.__name__, *a, **k)
            return f(*a, **k)
        if i in HIGHER or f.__name__ == "sort":
            a = tuple(shim_value(x) if callable(x) else x for x in a)
            k = {n: shim_value(x) if callable(x) else x for n, x in k.items()}
            return f(*a, **k)
        if isinstance(recv, types.ModuleType):
            if (
                recv.__name__ not in SAFE_MODULES or f.__name__ in UNSAFE_BUILTINS
            ) and has_sym_str(a, k):
                if f.__name__ == "fspath":
                    return a[0]
                if recv.__name__ == "_json":
                    _inc("json internals on symbolic text")
                a, k = concrete_args(a, k)
            return wrap_any(f(*a, **k))
        if isinstance(recv, io.IOBase):
            if f.__name__ == "write" and has_sym_str(a, k):
                a = tuple(to_file(x) if is_sym(x) else x for x in a)
            elif has_sym_str(a, k):
                a, k = concrete_args(a, k)
            elif f.__name__ in ("read", "readline", "readlines", "getvalue"):
                return from_file(f(*a, **k))
        return f(*a, **k)
    if t is MethodDesc and f.__objclass__ is str:
        return strmethod(f.__name__)(*a, **k)
    if t is type:
        if i in HIGHER:
            a = tuple(shim_value(x) if callable(x) else x for x in a)
            return f(*a, **k)
        mod = (f.__module__ or "").split(".")[0]
        if mod not in INSTRUMENTED and mod not in SAFE_MODULES and has_sym_str(a, k):
            a, k = concrete_args(a, k)
        return f(*a, **k)
    if t is types.FunctionType:
        mod = f.__module__ or ""
        if mod.startswith(OWN):
            return f(*a, **k)
        if mod.split(".")[0] not in INSTRUMENTED and mod not in SAFE_MODULES:
            if has_sym_str(a, k):
                if not (mod == "posixpath" and f.__name__ in SAFE_POSIXPATH) and not (
                    mod == "genericpath"
                    and f.__name__ in ("commonprefix", "_splitext")
                ):
                    if mod.split(".")[0] != "symx":
                        a, k = concrete_args(a, k)
            return wrap_any(f(*a, **k))
    return f(*a, **k)


INSTRUMENTED = {"spine_json_lib", "harness", "symx"}


def sx_iter(x):
    if (type(x) is frozenset or type(x) is set) and len(x) > 1:
        return core.ENGINE.set_order(x)
    return x


def sx_mod(a, b):
    if isinstance(a, str):
        return core.wrap(str.__mod__(str.__str__(a), b))
    return a % b


def sx_in(x, c):
    if type(c) is str and type(x) is SymStr:
        if len(x) == 1:
            return core.boolish(core.char_in(ord(str.__str__(x)), set(map(ord, c))))
        return SymStr(c).find(x) != -1
    return x in c


def sx_is(a, b):
    if a is b:
        return True
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    return False


def sx_fn(label):
    core.ENGINE.functions.add(label)


def install():
    builtins.__sx_call__ = sx_call
    builtins.__sx_wrap__ = core.wrap
    builtins.__sx_mod__ = sx_mod
    builtins.__sx_in__ = sx_in
    builtins.__sx_iter__ = sx_iter
    builtins.__sx_is__ = sx_is
    builtins.__sx_fn__ = sx_fn
