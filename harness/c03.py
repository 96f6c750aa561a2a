"""C03: Spine versions form one consistent total order and malformed ones are refused."""
from symx.api import Case

from spine_json_lib.data.spine_version_type import SpineVersion

ASSUMPTIONS = [
    "version components are ASCII decimal numbers of at most 5 digits (7 thorough)",
]


def components(sx, tag, lens):
    return [sx.str("%s%d" % (tag, i), n, "0123456789") for i, n in enumerate(lens)]


def shape(sx, tag, maxlen):
    n = 3 if sx.flag(tag + ".three") else 2
    return [
        sx.choice("%s.len%d" % (tag, i), list(range(1, maxlen + 1))) for i in range(n)
    ]


def wide_shape(sx, tag, maxlen):
    """one long component, the others of one digit"""
    n = 3 if sx.flag(tag + ".three") else 2
    where = sx.choice(tag + ".long", list(range(n)))
    length = sx.choice(tag + ".digits", [1] + list(range(4, maxlen + 1)))
    return [length if i == where else 1 for i in range(n)]


def order_case(sx, maxlen, shape=shape):
    a = components(sx, "a", shape(sx, "a", maxlen))
    b = components(sx, "b", shape(sx, "b", maxlen))
    ta = [int(x) for x in a] + [0] * (3 - len(a))
    tb = [int(x) for x in b] + [0] * (3 - len(b))
    text_a, text_b = ".".join(a), ".".join(b)
    va, vb = SpineVersion(text_a), SpineVersion(text_b)
    other = text_b if sx.flag("text operand") else vb
    # the order of (major, minor, patch), most significant first
    less, equal = False, True
    for x, y in reversed(list(zip(ta, tb))):
        eq = sx.same(x, y)
        less = sx.any([sx.any([x < y]), sx.all([eq, less])])
        equal = sx.all([eq, equal])
    op = sx.choice("operator", ["<", "<=", ">", ">=", "==", "!="])
    if op == "<":
        got, want = va < other, less
    elif op == "<=":
        got, want = va <= other, sx.any([less, equal])
    elif op == ">":
        got, want = va > other, sx.no(sx.any([less, equal]))
    elif op == ">=":
        got, want = va >= other, sx.no(less)
    elif op == "==":
        got, want = va == other, equal
    else:
        got, want = va != other, sx.no(equal)
    sx.check(
        sx.same(got, want) if isinstance(got, bool) else False,
        "%s %s %s is wrong" % (text_a, op, text_b),
    )
    sx.check(sx.same(str(va), text_a), "str() does not give the version back")
    if len(a) == 3:
        sx.reach("three components")
    else:
        sx.reach("two components")


def well_formed(sx, s):
    """digits '.' digits ['.' digits], decided without regular expressions"""
    dots = 0
    run = 0
    for ch in s:
        if ch == ".":
            if run == 0:
                return False
            dots += 1
            run = 0
        elif ch.isdigit():
            run += 1
        else:
            return False
    return run > 0 and (dots == 1 or dots == 2)


def text_case(sx, n):
    s = sx.str("s", n, "09.-+ \n_vx")
    ok = well_formed(sx, s)
    try:
        v = SpineVersion(s)
    except ValueError:
        sx.reach("refused")
        sx.check(not ok, "a well-formed version is refused")
        sx.observe("refused", True)
        return
    sx.check(ok, "a malformed version is accepted")
    parts = s.split(".")
    sx.check(sx.same(v.major, int(parts[0])), "major")
    sx.check(sx.same(v.minor, int(parts[1])), "minor")
    sx.check(sx.same(v.patch, int(parts[2]) if len(parts) == 3 else 0), "patch")
    sx.observe("parts", [v.major, v.minor, v.patch])


def cases(tier):
    deep = tier == "thorough"
    m = 3 if deep else 2
    out = [
        Case(
            "order", order_case,
            "two versions, 2 or 3 components each of 1..%d symbolic digits, all six "
            "operators, text or object operand" % m,
            must_reach=["three components", "two components"], maxlen=m,
        )
    ]
    out.append(
        Case(
            "wide", order_case,
            "two versions, 2 or 3 components, one of them of 4..%d symbolic digits, all six "
            "operators, text or object operand" % (7 if deep else 5),
            must_reach=["three components", "two components"],
            maxlen=7 if deep else 5, shape=wide_shape,
        )
    )
    for n in range(0, 8 if deep else 7):
        out.append(
            Case("text%d" % n, text_case,
                 "every text of %d characters over 09.-+ \\n_vx" % n,
                 must_reach=["refused"], n=n)
        )
    return out
