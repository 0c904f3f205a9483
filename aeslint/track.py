"""Effect tracking: runs the entry-point calls of another check and reports which of them change what they are given.

usage: python3-vt -m aeslint.track PID   (prints one JSON document)

Every call a check makes from outside the program is an entry-point call.  The abstract heap reachable from its arguments
(arrays, lists, dictionaries, to any depth) is compared before and after the call, and so are the containers that belong to
the program itself: module-level tables, class attributes and default values of parameters.
"""
import importlib
import json
import os
import sys
import threading

from . import framework
from .interp import Arr, Bound, Choice, ClassM, ClassVal, Dict, Env, Func, Interp, List, Obj, Partial, Ref, StaticM

REPO = framework.REPO
calls, muts, globs, seen_fn = {}, {}, {}, set()
# documented outputs: the normaliser rescales the eigenfunctions of the object it is given
OUT = {("GYREEigenFunctionNormalizer", "my_obj")}
# documented in-place interfaces: the compiled histogram conversions and the raw integrator fill the array they are given;
# the logging helper takes its two switches out of the settings it is handed
INPLACE = {("compute", 1), ("adjust_root_logger_level", 1)}


def inplace(name, i):
    return (name, i) in INPLACE or (i == 0 and name.startswith("cython_") and "_hist" in name)


def snap(it, v, seen):
    """structure and values reachable from v; identity for everything that is no container."""
    try:
        v = it.res(v)
    except Exception:
        return ("?",)
    if isinstance(v, Choice):
        return ("?",)
    if isinstance(v, tuple):
        return ("tuple", tuple(snap(it, x, seen) for x in v))
    if not isinstance(v, Ref):
        return ("val", v)
    if v.id in seen:
        return ("seen", v.id)
    seen.add(v.id)
    c = it.get(v)
    if isinstance(c, Arr):
        return ("arr", c.shape, tuple(snap(it, x, seen) for x in c.data), c.dtype)
    if isinstance(c, Dict):
        return ("dict", tuple((k, snap(it, x, seen)) for k, x in c.d.items()))
    if isinstance(c, List):
        return ("list", tuple(snap(it, x, seen) for x in c.items))
    if isinstance(c, Obj):
        return ("obj", tuple((k, snap(it, x, seen)) for k, x in c.attrs.items()))
    return ("ref", v.id)


def holds(s):
    return s[0] in ("arr", "dict", "list", "obj") or s[0] == "tuple" and any(holds(x) for x in s[1])


def differ(a, b):
    """first difference between two snapshots, or None."""
    from .terms import Node, equal
    if a[0] == "?" or b[0] == "?":
        return None
    if a[0] != b[0]:
        return f"{a[0]} became {b[0]}"
    if a[0] == "val":
        x, y = a[1], b[1]
        if x is y or (isinstance(x, Node) and isinstance(y, Node) and equal(x, y)):
            return None
        if isinstance(x, Node) or isinstance(y, Node):
            try:
                from .terms import N
                if equal(N(x), N(y)):
                    return None
            except Exception:
                pass
            return f"{str(x)[:60]} became {str(y)[:60]}"
        try:
            return None if x == y else f"{str(x)[:60]} became {str(y)[:60]}"
        except Exception:
            return None
    if a[0] in ("seen", "ref"):
        return None if a[1] == b[1] else "another object"
    if a[0] == "arr":
        if a[1] != b[1]:
            return f"shape {a[1]} became {b[1]}"
        return next((f"element {i}: {d}" for i, (x, y) in enumerate(zip(a[2], b[2])) if (d := differ(x, y))), None)
    if a[0] in ("tuple", "list"):
        if len(a[1]) != len(b[1]):
            return f"length {len(a[1])} became {len(b[1])}"
        return next((f"element {i}: {d}" for i, (x, y) in enumerate(zip(a[1], b[1])) if (d := differ(x, y))), None)
    x, y = dict(a[1]), dict(b[1])
    gone = [k for k in x if k not in y]
    new = [k for k in y if k not in x] if a[0] == "dict" else []
    if gone or new:
        return f"entries removed {gone[:3]}, added {new[:3]}"
    # an attribute of an object that was not filled in yet may be (a value kept for later use)
    return next((f"entry {k}: {d}" for k in x if not (a[0] == "obj" and x[k] == ("val", None)) and (d := differ(x[k], y[k]))), None)


def target(f):
    while True:
        if isinstance(f, Bound):
            f = f.func
        elif isinstance(f, Partial):
            f = f.f
        elif isinstance(f, (StaticM, ClassM)):
            f = f.f
        else:
            return f


def label(it, g):
    if isinstance(g, ClassVal):
        init, _ = g.find("__init__")
        init = target(init)
        return g.name, str(getattr(g.module, "file", "")), init if isinstance(init, Func) else None
    cls = getattr(g, "cls", None)
    nm = g.name if cls is None else f"{getattr(cls, 'name', cls)}.{g.name}"
    return nm, str(getattr(g, "file", None) or g.module.file), g


def own_tables(it):
    """containers that belong to modules of the program (not to the stand-ins of a check): id -> description."""
    out, done = {}, set()

    def walk(v, what, depth=0):
        if isinstance(v, (StaticM, ClassM, Bound, Partial)):
            v = target(v)
        if isinstance(v, Func):
            if id(v) in done:
                return
            done.add(id(v))
            for x in list(v.defaults) + list(v.kwdefaults.values()):
                walk(x, f"default value of {v.name}", depth + 1)
            return
        if isinstance(v, ClassVal):
            if id(v) in done:
                return
            done.add(id(v))
            for k, x in (v.ns.items() if isinstance(v.ns, dict) else it.get(v.ns).vars.items() if isinstance(v.ns, Ref) else ()):
                walk(x, f"{v.name}.{k}", depth + 1)
            return
        if isinstance(v, tuple):
            for x in v:
                walk(x, what, depth + 1)
            return
        if not isinstance(v, Ref) or v.id in out or v.id not in it.base or depth > 6:
            return
        c = it.base[v.id]
        if isinstance(c, (Arr, Dict, List)):
            out[v.id] = what
            for x in (c.d.values() if isinstance(c, Dict) else c.items if isinstance(c, List) else c.data):
                walk(x, what, depth + 1)
    for name, m in list(it.modules.items()):
        f = str(getattr(m, "file", ""))
        if f.startswith(REPO + "/") and getattr(m, "env", None) is not None:
            e = it.base.get(m.env.id)
            for k, v in (e.vars.items() if e is not None else ()):
                walk(v, f"{name}.{k}")
    return out


def tracked(original):
    def call(self, f, args=(), kwargs=None):
        if self.stack:
            return original(self, f, args, kwargs)
        try:
            g = target(self.res(f))
        except Exception:
            g = None
        if not isinstance(g, (Func, ClassVal)):
            return original(self, f, args, kwargs)
        try:
            name, file, fn_ = label(self, g)
        except Exception:
            return original(self, f, args, kwargs)
        if not file.startswith(REPO + "/") or name.endswith(".__init__"):
            return original(self, f, args, kwargs)
        given = [(i, None, v) for i, v in enumerate(args)] + [(None, k, v) for k, v in (kwargs or {}).items()]
        before = [snap(self, v, set()) for _, _, v in given]
        held = []
        if isinstance(f, Bound) and isinstance(f.self_, Ref):      # what the object was given when it was made
            held = [(key, v, snap(self, v, set())) for key, v in self.__dict__.setdefault("_made", {}).get(f.self_.id, ())]
        made = None
        try:
            made = original(self, f, args, kwargs)
            return made
        finally:
            for key, v, b in held:
                if tuple(key.split(": ")) in OUT:
                    continue
                kk = f"{name}, after {key}"
                calls[kk] = [calls.get(kk, [0])[0] + 1, os.path.relpath(file, REPO)]
                d = differ(b, snap(self, v, set()))
                if d:
                    muts.setdefault(kk, [os.path.relpath(file, REPO), d])
            file = os.path.relpath(file, REPO)
            off = 1 if isinstance(f, Bound) or isinstance(g, ClassVal) else 0
            pn = [p.arg for p in (fn_.node.args.posonlyargs + fn_.node.args.args)] if fn_ is not None and hasattr(fn_.node, "args") else []
            for (i, k, v), b in zip(given, before):
                if not holds(b):
                    continue
                p = k or (pn[i + off] if i + off < len(pn) else str(i))
                key = f"{name}: {p}"
                calls[key] = [calls.get(key, [0])[0] + 1, file]
                if isinstance(g, ClassVal) and isinstance(made, Ref):
                    self.__dict__.setdefault("_made", {}).setdefault(made.id, []).append((key, v))
                short = name.split(".")[-1]
                if inplace(short, i if i is not None else (pn.index(k) - off if k in pn else -1)):
                    continue
                d = differ(b, snap(self, v, set()))
                if d:
                    muts.setdefault(key, [file, d])
            ch = [r for r in self.heap if r in self.base and self.heap[r] is not self.base[r] and not isinstance(self.heap[r], Env)]
            globs.setdefault(name, [file, None])
            if ch:
                t = own_tables(self)
                for r in ch:
                    if r in t:
                        ref = Ref.__new__(Ref)
                        new, old = self.heap[r], self.base[r]
                        same = (lambda c: c.d if isinstance(c, Dict) else list(c.items) if isinstance(c, List) else (c.shape, list(c.data)))
                        try:
                            eq = same(new) == same(old)
                        except Exception:
                            eq = False
                        if not eq:
                            globs[name] = [file, f"changes {t[r]}"]
            for x in self.functions_seen:
                seen_fn.add(tuple(map(str, x)))
    return call


def main():
    pid = sys.argv[1]
    Interp.call = tracked(Interp.call)
    c = framework.Check(pid, "quick", 1)
    err = None
    m = importlib.import_module("aeslint.props." + pid.lower())
    try:
        m.run(c)
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    json.dump({"calls": calls, "muts": muts, "globs": globs, "seen": sorted(seen_fn), "err": err}, open(sys.argv[2], "w"))


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
