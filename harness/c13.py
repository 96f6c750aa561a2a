"""C13: Tags in names are parsed exactly."""
from symx.api import Case

from spine_json_lib.utils import get_tags_from_name

ASSUMPTIONS = [
    "names of ASCII characters out of the stated alphabets; a number is what Python's "
    "float() reads, except inf, nan and digit separators, which are outside the alphabets",
]
KEY = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
VALUE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_. \t\n"


def groups(name):
    """The bracketed key:value groups of a name, scanned by hand"""
    out = []
    start = colon = None
    body = []
    for c in name:
        if c == "[":
            start, colon, body = True, None, []
        elif start is None:
            continue
        elif c == "]":
            if colon is not None:
                key = "".join(body[:colon]).strip()
                value = "".join(body[colon + 1:])
                if key and all(k in KEY for k in key) and value and all(
                    v in VALUE for v in value
                ):
                    out.append((key, value.strip()))
            start = None
        else:
            if c == ":":
                if colon is not None:
                    start = None  # two colons: no group
                    continue
                colon = len(body)
            body.append(c)
    return out


def expected(name):
    """The tags, or None when the name has to be refused"""
    tags = {}
    for key, value in groups(name):
        if key in tags or key != "scale":
            return None
        try:
            tags[key] = float(value)
        except ValueError:
            return None
    return tags


def check(sx, name):
    want = expected(name)
    try:
        got = get_tags_from_name(name)
    except ValueError:
        sx.reach("refused")
        sx.check(want is None, "a valid name is refused")
        return
    sx.check(want is not None, "an invalid tag is accepted")
    if want:
        sx.reach("scale")
    else:
        sx.reach("no tag")
    sx.observe("tags", got)
    sx.check(sx.same(got, want), "wrong tags")


def text(sx, n, alphabet):
    check(sx, sx.str("name", n, alphabet))


def around(sx, parts):
    """A scale tag with symbolic characters in and around it"""
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, str):
            out.append(p)
        else:
            lo, hi, alphabet = p
            n = sx.choice("len%d" % i, list(range(lo, hi + 1)))
            if n:
                out.append(sx.str("part%d" % i, n, alphabet))
    check(sx, "".join(out))


def cases(tier):
    deep = tier == "thorough"
    free = "[]:a1 .-"
    out = [
        Case("text %d" % n, text, "every text of %d characters over '%s'" % (n, free), n=n,
             alphabet=free)
        for n in range(0, 8 if deep else 7)
    ]
    more = 1 if deep else 0
    out += [
        Case("value", around, "[scale:v], v of up to 4 characters over '12. e[]:'",
             must_reach=["scale", "refused", "no tag"],
             parts=["a[scale:", (0, 3 + more, "12. e[]:-"), "]"]),
        Case("spaces", around, "spaces and other characters inside the brackets",
             must_reach=["scale", "refused", "no tag"],
             parts=["[", (0, 1 + more, " \t[x"), "scale", (0, 1 + more, " \n-:"), ":",
                    (0, 1, " ["), "2", (0, 1 + more, " \t.5]"), "]"]),
        Case("surroundings", around, "any characters before and after a tag",
             must_reach=["scale"],
             parts=[(0, 2 + more, "a[]: \t"), "[scale:0.5]", (0, 2 + more, "a[]: ")]),
        Case("two", around, "two groups, with any character in the names",
             must_reach=["scale", "refused", "no tag"],
             parts=[(1, 1, "[x"), "scale:2", (1, 1, "]x"), (0, 1, "x]"), "[",
                    (1, 1, "sSt"), "cal", (1, 1, "eE "), ":", (1, 1, "3x["), "]"]),
        Case("repeated", around, "two groups with any value each",
             must_reach=["refused", "scale"],
             parts=["[scale:", (1, 2 + more, "1.2"), "]", (0, 1, "x "), "[scale:",
                    (0, 2 + more, "1.2"), "]"]),
        Case("key", around, "a key of up to 7 (8) characters",
             must_reach=["scale", "refused"],
             parts=["[", (3, 8 if deep else 7, "scalezE-_09 "), ":1]"]),
    ]
    return out
