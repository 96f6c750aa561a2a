"""Module and class level state of the library: every path starts from the imported state."""
import collections
import functools
import sys
import types

SKIP_ATTR = {"__dict__", "__weakref__", "__doc__", "__module__", "__abstractmethods__",
             "_abc_impl", "__annotations__", "__parameters__"}
LRU = type(functools.lru_cache(lambda: None))


def _mine(obj):
    return (getattr(obj, "__module__", "") or "").split(".")[0] == "spine_json_lib"


class Snapshot:
    def __init__(self, package="spine_json_lib"):
        self.dicts, self.seqs, self.sets, self.classes, self.caches = [], [], [], [], []
        self.cells = []
        self.seen = {}
        for name, module in sorted(sys.modules.items()):
            if name.split(".")[0] == package and module is not None:
                self._visit(vars(module))

    def _visit(self, root):
        todo = [root]
        while todo:
            o = todo.pop()
            if id(o) in self.seen:
                continue
            self.seen[id(o)] = o
            t = type(o)
            if isinstance(o, dict):
                self.dicts.append((o, list(o.items())))
                todo.extend(v for k, v in o.items() if k != "__builtins__")
            elif isinstance(o, (list, collections.deque, bytearray)):
                self.seqs.append((o, list(o)))
                todo.extend(o)
            elif isinstance(o, set):
                self.sets.append((o, list(o)))
            elif t in (tuple, frozenset):
                todo.extend(o)
            elif t is LRU:
                self.caches.append(o)
                todo.append(o.__wrapped__)
            elif t is types.FunctionType:
                if _mine(o):
                    todo.extend(o.__defaults__ or ())
                    if o.__kwdefaults__:
                        todo.append(o.__kwdefaults__)
                    if o.__dict__:
                        todo.append(o.__dict__)
                    for cell in o.__closure__ or ():
                        try:
                            self.cells.append((cell, cell.cell_contents))
                            todo.append(cell.cell_contents)
                        except ValueError:
                            pass
            elif t in (staticmethod, classmethod):
                todo.append(o.__func__)
            elif t is property:
                todo.extend(x for x in (o.fget, o.fset, o.fdel) if x)
            elif isinstance(o, type):
                if _mine(o):
                    attrs = {k: v for k, v in vars(o).items() if k not in SKIP_ATTR}
                    self.classes.append((o, attrs))
                    todo.extend(attrs.values())
            elif _mine(t) and isinstance(getattr(o, "__dict__", None), dict):
                todo.append(o.__dict__)

    def restore(self):
        for d, items in self.dicts:
            if len(d) != len(items) or any(
                k is not k0 or v is not v0 for (k, v), (k0, v0) in zip(d.items(), items)
            ):
                d.clear()
                d.update(items)
        for s, items in self.seqs:
            if len(s) != len(items) or any(a is not b for a, b in zip(s, items)):
                s.clear()
                s.extend(items)
        for s, items in self.sets:
            if len(s) != len(items) or any(a is not b for a, b in zip(s, items)):
                s.clear()
                s.update(items)
        for cls, attrs in self.classes:
            now = vars(cls)
            for k in [k for k in now if k not in SKIP_ATTR and k not in attrs]:
                delattr(cls, k)
            for k, v in attrs.items():
                if now.get(k) is not v:
                    setattr(cls, k, v)
        for cell, v in self.cells:
            cell.cell_contents = v
        for c in self.caches:
            c.cache_clear()
