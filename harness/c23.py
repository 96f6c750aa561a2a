"""C23: files are written where asked and hold exactly the exported data."""
import copy
import json
import os

from harness import doc as D
from harness import graphs as G
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

UNPRIVILEGED = True
ASSUMPTIONS = [
    "the file system calls are the real ones, made by an unprivileged user in a scratch "
    "directory; every text handed to them is explored",
    "text of symbolic values is opaque: json.dump/json.load are assumed inverse to each "
    "other on finite numbers, texts, booleans, null, lists and string-keyed objects",
    "paths name a file that is not a directory, below directories that are no files, and "
    "use '..' only after existing directories",
]
OLD = "x" * 20000


def keys(o):
    """The keys of all objects, in order"""
    if isinstance(o, dict):
        return [[k, keys(v)] for k, v in o.items()]
    return [keys(x) for x in o] if isinstance(o, list) else None


def tree(top):
    """All directories and files below top, with the content of files"""
    out = {}
    for base, dirs, files in os.walk(top):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), top)] = None
        for name in files:
            path = os.path.join(base, name)
            out[os.path.relpath(path, top)] = os.path.getsize(path)
    return out


def target(top, path, before):
    """(the file that path names, directories to create) or None"""
    here = os.path.relpath(os.getcwd(), top).split("/")
    if path.startswith("/"):
        path = os.path.relpath(path, top)
        here = []
        if path.startswith(".."):
            return None
    parts = path.split("/")
    if parts[-1] in ("", ".", ".."):
        return None
    new = []
    for x in parts[:-1]:
        if x in ("", "."):
            continue
        if x == "..":
            if new or not here:
                return None
            here = here[:-1]
            continue
        here = here + [x]
        name = "/".join(here)
        if name in before:
            if before[name] is not None:
                return None
        elif name not in new:
            new.append(name)
    name = "/".join(here + [parts[-1]])
    if name in new or (name in before and before[name] is None):
        return None
    return name, new


def prepare(sx, names):
    """Directories and files that exist already"""
    for name in names:
        if name.endswith("/"):
            os.makedirs(name)
        else:
            with open(name, "w") as f:
                f.write(OLD)


def write(sx, top, editor, what, path, wanted):
    before = tree(top)
    error = None
    try:
        if what == "document":
            editor.to_json(path)
        else:
            editor.save_images_json(path)
    except Exception as e:
        error = e
    where = target(top, sx.concrete(path), before)
    sx.assume(where is not None)
    sx.check(error is None, "cannot write: %r" % type(error).__name__)
    name, new = where
    after = tree(top)
    sx.check(name in after and after[name] is not None, "no file where asked")
    expected = dict(before)
    for d in new:
        expected[d] = None
    expected[name] = after[name]
    sx.check(after == expected, "other files or directories changed")
    with open(os.path.join(top, name)) as f:
        found = json.load(f)
    sx.check(sx.same(found, wanted), "the file holds something else")
    sx.check(keys(found) == keys(wanted), "the file holds the same in another order")
    return name


STATES = [
    [], ["a/"], ["a/", "a/a/"], ["a"], ["a/", "a/a"], ["aa"], ["a/", "aa/", "a/aa"],
]


def paths(sx, what, length, alphabet, states):
    """Every path of some length"""
    editor = SpineAnimationEditor(D.base())
    wanted = editor.to_json_data() if what == "document" else editor.images_references
    wanted = copy.deepcopy(wanted)
    state = sx.choice("state", states)
    path = sx.str("path", length, alphabet)
    sx.assume(path[0] != "/")
    with sx.scratch() as top:
        prepare(sx, state)
        name = write(sx, top, editor, what, path, wanted)
        sx.reach("written")
        if what == "document":
            loaded = SpineAnimationEditor.from_json_file(path)
            sx.check(sx.same(loaded.to_json_data(), wanted), "loads as something else")
    sx.observe("name", name)


LEAVES = ["out.json", "\xe9 \u4e2d", ".hidden", "noextension"]
PARTS = ["dir", "x.json", ".", "sp ace"]


def nested(sx, what, depth, full):
    """Paths of some components, relative or absolute, with a prefix of the directories
    existing already, written twice"""
    editor = SpineAnimationEditor(D.base())
    wanted = editor.to_json_data() if what == "document" else editor.images_references
    wanted = copy.deepcopy(wanted)
    n = sx.int("directories", 0, depth)
    parts = []
    for i in range(depth):
        if n > i:
            parts.append(sx.choice("part%d" % i, PARTS[:4 if full else 3]))
    have = sx.int("existing", 0, depth)
    sx.assume(have <= n)
    existing = []
    for i in range(depth):
        if have > i and n > i:
            existing.append(parts[i])
    base = sx.choice("base", ["relative", "absolute", "./", "../"])
    leaf = sx.choice("file", LEAVES[:4 if full else 2])
    old = sx.flag("file exists")
    with sx.scratch() as top:
        if existing:
            os.makedirs("/".join(existing), exist_ok=True)
        start = "/".join(parts + [leaf])
        if old and have == n:
            prepare(sx, [start])
        path = {"absolute": os.path.join(os.getcwd(), start), "relative": start}.get(base)
        if path is None:
            path = base + start
        name = write(sx, top, editor, what, path, wanted)
        sx.check(write(sx, top, editor, what, path, wanted) == name, "written elsewhere")
        sx.reach("written twice")
    sx.observe("name", name)


def content(sx, full):
    """What is read back is what is exported, whatever the values"""
    d = D.base()
    d["bones"][1]["x"] = sx.float("x")
    d["bones"][1]["rotation"] = sx.float("rotation")
    variant = sx.int("variant", 0, 4)
    for i in range(5):
        if variant == i:
            break
    d["bones"][1]["shearX"] = [1e-320, 1.7976931348623157e308, 0.1, -0.0, 3][i]
    d["skeleton"]["images"] = ["./", "./images/", "", "\xe9/", "a/b"][i]
    key = ["a", "\xe9\u4e2d", '"\\', "\U0001f600", "a[scale:0.5]"][i]
    d["skins"][0]["attachments"]["s1"] = {key: W.region(x=sx.float("rx"))}
    if i % 2:
        d["skins"][0]["attachments"]["s1"][key]["path"] = sx.str("path", 2, G.RARE)
    d["events"] = {"e": {"int": sx.int("int", -10**9, 10**9), "string": sx.str("s", 3, G.RARE)}}
    d["animations"] = {"one": {"bones": {"b1": {"rotate": [
        {"time": sx.float("t", 0.0, 100.0), "angle": sx.float("angle")}]}}}, "two": {},
        "Three": {}, "3": {}}
    editor = SpineAnimationEditor(copy.deepcopy(d))
    edit = sx.choice("edit", ["none", "erase", "scale", "clean", "skin"])
    if edit == "erase":
        editor.erase_animations(["two"])
    elif edit == "scale":
        editor.scale_animation(0.5, 2.0)
    elif edit == "clean":
        editor.clean_animation()
    elif edit == "skin" and len(d["skins"]) > 1:
        editor.erase_skins([d["skins"][1]["name"]])
    wanted = copy.deepcopy(editor.to_json_data())
    images = copy.deepcopy(editor.images_references)
    with sx.scratch() as top:
        write(sx, top, editor, "document", "out/doc.json", wanted)
        write(sx, top, editor, "images", "out/images.json", images)
        with open("out/images.json") as f:
            sx.check(sx.same(json.load(f), images), "images list holds something else")
        sx.check(sx.same(editor.to_json_data(), wanted), "writing changed the editor")
        sx.check(sx.same(editor.images_references, images), "writing changed the images")
        loaded = SpineAnimationEditor.from_json_file("out/doc.json")
        sx.check(sx.same(loaded.to_json_data(), wanted), "loads as something else")
        sx.check(sx.same(loaded.images_references, images), "other images after loading")
        loaded.to_json("out/again.json")
        with open("out/again.json") as f:
            sx.check(sx.same(json.load(f), wanted), "second save differs")
        sx.reach("reloaded")
    sx.observe("images", sorted(images))


def load(sx):
    """Loading from a file is loading the document in it"""
    d = D.base()
    d["bones"][1]["x"] = sx.float("x")
    d["slots"][0]["color"] = sx.str("color", 8, D.HEX)
    d["skins"][0]["attachments"]["s1"] = {"a": W.region(x=sx.float("rx"))}
    expected = SpineAnimationEditor(copy.deepcopy(d))
    name = sx.choice("name", ["in.json", "sub/in.json", "./sub/../in", "in put"])
    with sx.scratch() as top:
        if "sub" in name:
            os.makedirs("sub")
        with open(name, "w") as f:
            json.dump(d, f)
        before = tree(top)
        editor = SpineAnimationEditor.from_json_file(name)
        sx.check(tree(top) == before, "loading changed files")
        with open(name) as f:
            sx.check(sx.same(json.load(f), d), "loading changed the file")
    sx.check(sx.same(editor.to_json_data(), expected.to_json_data()), "another document")
    sx.check(sx.same(editor.images_references, expected.images_references), "other images")
    sx.reach("loaded")
    sx.observe("version", editor.to_json_data()["skeleton"]["spine"])


def cases(tier):
    deep = tier == "thorough"
    out = []
    for what in ("document", "images"):
        for n in range(1, 6 if deep else 5):
            out.append(Case(
                "paths of %d, %s" % (n, what), paths,
                "every path of %d characters of 'a', '.' and '/', 7 states of the "
                "directory" % n, must_reach=["written"], what=what, length=n,
                alphabet="a./", states=STATES if deep or n < 4 else STATES[::3]))
        for n in range(1, 4 if deep else 3):
            out.append(Case(
                "names of %d, %s" % (n, what), paths,
                "every path of %d characters of several kinds" % n, must_reach=["written"],
                what=what, length=n, alphabet="a~%$ \\*\n:\xe9\u4e2d./", states=[[], ["a/"]]))
        out.append(Case(
            "nested, " + what, nested, "up to %d directories, any prefix existing" % (
                4 if deep else 3), must_reach=["written twice"], what=what,
            depth=4 if deep else 3, full=deep))
    out.append(Case("content", content, "any numbers, colours and texts in the document",
                    must_reach=["reloaded"], full=deep))
    out.append(Case("load", load, "any numbers in the loaded document",
                    must_reach=["loaded"]))
    return out
