"""Backtracking regular-expression matcher over symbolic strings.

Interprets the parse tree of CPython's own parser (re._parser); every test of a symbolic
character is a solver-decided branch, so each path yields re's leftmost, priority-ordered
match.
"""
import re
from re import _constants as C
from re import _parser as P

from symx import core

LINE_END = 10
WORD = core.ALPHA | core.DIGITS | {95}


def _category(cat, cp):
    """bool or z3 condition"""
    neg = False
    if cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD):
        neg = True
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        base = core.DIGITS
        py = str.isdecimal
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        base = core.WS
        py = str.isspace
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        base = WORD

        def py(c):
            return c.isalnum() or c == "_"

    else:
        raise core.Inconclusive("regex category %s" % cat)
    if cp < core.PUA_BASE:
        r = py(chr(cp))
    else:
        r = core.char_in(cp, domain_filter(cp, py))
    return _not(r) if neg else r


def domain_filter(cp, py):
    sc = core.CHARS[cp - core.PUA_BASE]
    if sc.opaque:
        core.needed()
    return frozenset(x for x in sc.domain if py(chr(x)))


def _not(r):
    if r is True or r is False:
        return not r
    import z3

    return z3.Not(r)


class Matcher:
    def __init__(self, pattern):
        self.tree = P.parse(pattern.pattern, pattern.flags & ~re.UNICODE if isinstance(
            pattern.pattern, bytes) else pattern.flags)
        self.flags = pattern.flags
        self.groups = pattern.groups
        self.groupindex = pattern.groupindex
        if self.flags & (re.IGNORECASE | re.LOCALE):
            raise core.Inconclusive("regex flags")

    # -- single characters
    def _in(self, items, cp):
        neg = False
        hit = False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
                continue
            if op is C.LITERAL:
                r = core.char_eq(cp, av)
            elif op is C.RANGE:
                if cp < core.PUA_BASE:
                    r = av[0] <= cp <= av[1]
                else:
                    r = core.char_in(cp, range(av[0], av[1] + 1))
            elif op is C.CATEGORY:
                r = _category(av, cp)
            else:
                raise core.Inconclusive("regex set item %s" % op)
            if core.yes(r):
                hit = True
                break
        return hit != neg

    def _one(self, op, av, cp):
        if op is C.LITERAL:
            return core.yes(core.char_eq(cp, av))
        if op is C.NOT_LITERAL:
            return not core.yes(core.char_eq(cp, av))
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return True
            return not core.yes(core.char_eq(cp, LINE_END))
        if op is C.IN:
            return self._in(av, cp)
        return None

    # -- sequences; generator of (end, groups)
    def seq(self, s, nodes, k, i, groups):
        if k == len(nodes):
            yield i, groups
            return
        op, av = nodes[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < len(s) and self._one(op, av, ord(s[i])):
                yield from self.seq(s, nodes, k + 1, i + 1, groups)
            return
        if op is C.AT:
            if self._at(av, s, i):
                yield from self.seq(s, nodes, k + 1, i, groups)
            return
        if op is C.SUBPATTERN:
            group, _add, _del, sub = av
            for j, g in self.seq(s, list(sub), 0, i, groups):
                if group is not None:
                    g = dict(g)
                    g[group] = (i, j)
                yield from self.seq(s, nodes, k + 1, j, g)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for j, g in self.seq(s, list(alt), 0, i, groups):
                    yield from self.seq(s, nodes, k + 1, j, g)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            for j, g in self.repeat(s, sub, lo, hi, i, groups, op is C.MAX_REPEAT, 0):
                yield from self.seq(s, nodes, k + 1, j, g)
            return
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            for j, g in self.repeat(s, list(sub), lo, hi, i, groups, True, 0):
                yield from self.seq(s, nodes, k + 1, j, g)
                return
            return
        if op is C.GROUPREF:
            if av in groups:
                a, b = groups[av]
                text = s[a:b]
                if i + len(text) <= len(s) and core.yes(
                    core.str_eq(s[i : i + len(text)], text)
                ):
                    yield from self.seq(s, nodes, k + 1, i + len(text), groups)
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            found = None
            if direction == 1:
                for r in self.seq(s, sub, 0, i, groups):
                    found = r
                    break
            else:
                for a in range(i, -1, -1):
                    for j, g in self.seq(s, sub, 0, a, groups):
                        if j == i:
                            found = (j, g)
                            break
                    if found:
                        break
            if op is C.ASSERT and found:
                yield from self.seq(s, nodes, k + 1, i, found[1])
            elif op is C.ASSERT_NOT and not found:
                yield from self.seq(s, nodes, k + 1, i, groups)
            return
        raise core.Inconclusive("regex construct %s" % op)

    def repeat(self, s, sub, lo, hi, i, groups, greedy, n):
        if n < lo:
            for j, g in self.seq(s, sub, 0, i, groups):
                yield from self.repeat(s, sub, lo, hi, j, g, greedy, n + 1)
            return
        more = hi is C.MAXREPEAT or n < hi
        if not greedy:
            yield i, groups
        if more:
            for j, g in self.seq(s, sub, 0, i, groups):
                if j > i:
                    yield from self.repeat(s, sub, lo, hi, j, g, greedy, n + 1)
        if greedy:
            yield i, groups

    def _at(self, at, s, i):
        if at is C.AT_BEGINNING or at is C.AT_BEGINNING_STRING:
            if i == 0:
                return True
            return (
                at is C.AT_BEGINNING
                and bool(self.flags & re.MULTILINE)
                and core.yes(core.char_eq(ord(s[i - 1]), LINE_END))
            )
        if at is C.AT_END_STRING:
            return i == len(s)
        if at is C.AT_END:
            if i == len(s):
                return True
            if i == len(s) - 1 or self.flags & re.MULTILINE:
                return core.yes(core.char_eq(ord(s[i]), LINE_END))
            return False
        if at in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and core.yes(_category(C.CATEGORY_WORD, ord(s[i - 1])))
            b = i < len(s) and core.yes(_category(C.CATEGORY_WORD, ord(s[i])))
            return (a != b) == (at is C.AT_BOUNDARY)
        raise core.Inconclusive("regex anchor %s" % at)

    def match_at(self, s, i, full=False):
        for j, g in self.seq(s, list(self.tree), 0, i, {}):
            if full and j != len(s):
                continue
            return j, g
        return None


class Match:
    def __init__(self, pattern, string, start, end, groups):
        self.re = pattern
        self.string = string
        self._s, self._e, self._g = start, end, groups
        self.pos, self.endpos = 0, len(string)

    def _key(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        return int(k)

    def span(self, k=0):
        k = self._key(k)
        if k == 0:
            return (self._s, self._e)
        if k > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _get(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._get(0)
        r = tuple(self._get(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, default=None):
        return tuple(self._get(k + 1, default) for k in range(self.re.groups))

    def groupdict(self, default=None):
        return {n: self._get(k, default) for n, k in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None


_CACHE = {}


def call(pattern, name, string, *args, **kw):
    """pattern.<name>(string, ...) for a symbolic string"""
    m = _CACHE.get(pattern)
    if m is None:
        m = _CACHE[pattern] = Matcher(pattern)
    if not isinstance(string, str):
        raise core.Inconclusive("regex on %s" % type(string))
    maxsplit = start = 0
    if name == "split":
        maxsplit = int(args[0] if args else kw.pop("maxsplit", 0))
        args = args[1:]
    elif args or "pos" in kw:
        start = int(args[0] if args else kw.pop("pos"))
        args = args[1:]
    if args or kw:
        raise core.Inconclusive("regex call with endpos")
    s = str.__str__(string)
    start = min(max(start, 0), len(s))
    string = core.SymStr(s)
    if name in ("match", "fullmatch"):
        r = m.match_at(s, start, name == "fullmatch")
        return None if r is None else Match(pattern, string, start, r[0], r[1])

    def it():
        i = start
        while i <= len(s):
            r = m.match_at(s, i)
            if r is None:
                i += 1
                continue
            j, g = r
            yield Match(pattern, string, i, j, g)
            if j == i:
                i += 1
            else:
                i = j

    if name == "search":
        for x in it():
            return x
        return None
    if name == "finditer":
        return it()
    if name == "findall":
        out = []
        for x in it():
            if pattern.groups == 0:
                out.append(x.group())
            elif pattern.groups == 1:
                out.append(x.groups("")[0])
            else:
                out.append(x.groups(""))
        return out
    if name == "split":
        out, at = [], 0
        for n, x in enumerate(it()):
            if maxsplit and n == maxsplit:
                break
            out.append(string[at : x.start()])
            out.extend(x.groups())
            at = x.end()
        out.append(string[at:])
        return out
    raise core.Inconclusive("regex method %s" % name)


def subn(pattern, repl, string, count=0):
    s = core.SymStr(str.__str__(string))
    if "\\" in str.__str__(repl) if isinstance(repl, str) else False:
        raise core.Inconclusive("regex template")
    out, at, n = core.SymStr(""), 0, 0
    for x in call(pattern, "finditer", s):
        out = out + s[at : x.start()] + (repl(x) if callable(repl) else repl)
        at = x.end()
        n += 1
        if count and n >= count:
            break
    return out + s[at:], n


def sub(pattern, repl, string, count=0):
    return subn(pattern, repl, string, count)[0]
