"""State the toolkit keeps outside of its objects: module globals, class attributes, default arguments, closures, caches.

Every path (and every replay) starts from the state right after import, so that paths do not influence each other; the
"after" harnesses start from the state another run of the same harness left behind."""
import collections
import types

import numpy as np

from .inject import osml_modules

SIMPLE = (int, float, complex, str, bytes, bool, type(None), types.ModuleType)


class Guard:
    def __init__(self):
        self.saved = []
        self.clear = []
        seen = set()
        for m in osml_modules():
            self._namespace(m, m.__name__, seen)

    def _namespace(self, m, name, seen):
        d = vars(m)
        self.saved.append(("ns", d, dict(d)))
        for k, v in list(d.items()):
            if not k.startswith("__"):
                self._value(v, seen, 0)

    def _value(self, v, seen, depth):
        if isinstance(v, SIMPLE) or id(v) in seen or depth > 5:
            return
        seen.add(id(v))
        if hasattr(v, "cache_clear") and callable(v.cache_clear) and not isinstance(v, type):
            self.clear.append(v)
            v = getattr(v, "__wrapped__", v)
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._value(f, seen, depth)
        elif isinstance(v, types.FunctionType):
            if not (v.__module__ or "").startswith("aws.osml") or (v.__module__ or "").startswith("aws.osml.formats"):
                return
            if v.__dict__:
                pass
            self.saved.append(("dict", v.__dict__, dict(v.__dict__)))
            for x in [*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), *list(v.__dict__.values())]:
                self._value(x, seen, depth + 1)
            for c in v.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                self.saved.append(("cell", c, x))
                self._value(x, seen, depth + 1)
        elif isinstance(v, type):
            if not v.__module__.startswith("aws.osml") or v.__module__.startswith("aws.osml.formats"):
                return
            self.saved.append(("class", v, dict(vars(v))))
            for k, x in list(vars(v).items()):
                if k not in ("__dict__", "__weakref__", "__doc__", "_abc_impl"):
                    self._value(x, seen, depth + 1)
        elif isinstance(v, np.ndarray):
            if v.dtype != object:
                self.saved.append(("array", v, v.copy()))
        elif isinstance(v, collections.abc.MutableMapping):
            try:
                self.saved.append(("dict", v, dict(v)))
            except Exception:  # noqa - library mapping
                return
            for x in list(v.values()):
                self._value(x, seen, depth + 1)
        elif isinstance(v, (list, collections.deque)):
            self.saved.append(("list", v, list(v)))
            for x in list(v):
                self._value(x, seen, depth + 1)
        elif isinstance(v, set):
            self.saved.append(("set", v, set(v)))
        elif isinstance(v, tuple):
            for x in v:
                self._value(x, seen, depth + 1)
        elif type(v).__module__.startswith("aws.osml") and not type(v).__module__.startswith("aws.osml.formats"):
            if isinstance(getattr(v, "__dict__", None), dict):
                self.saved.append(("dict", v.__dict__, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self._value(x, seen, depth + 1)

    def restore(self):
        for v in self.clear:
            v.cache_clear()
        for kind, o, s in self.saved:
            if kind in ("ns", "dict"):
                for k in [k for k in list(o) if k not in s]:
                    del o[k]
                for k, x in s.items():
                    if k not in o or o[k] is not x:
                        o[k] = x
            elif kind == "class":
                now = vars(o)
                for k in [k for k in now if k not in s]:
                    delattr(o, k)
                for k, x in s.items():
                    if now.get(k) is not x and k not in ("__dict__", "__weakref__", "_abc_impl"):
                        setattr(o, k, x)
            elif kind == "array":
                o[...] = s
            elif kind == "list":
                if len(o) != len(s) or any(a is not b for a, b in zip(o, s)):
                    o.clear()
                    o.extend(s)
            elif kind == "set":
                if o != s:
                    o.clear()
                    o.update(s)
            elif kind == "cell":
                o.cell_contents = s
