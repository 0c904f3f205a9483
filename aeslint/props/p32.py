"""What an omitted argument means: documented defaults against the defaults that take effect."""
import ast
import re
import warnings
from ..framework import REPO
from ..linker import Program

EXPL = ("Every function, method and constructor of the Python sources (tests excluded) is read with its documentation: for each optional parameter whose documentation states a default, the stated value and the value that takes effect when the argument is left out "
        "(constants, constants of the module, sentinels replaced at the start of the body) are evaluated on the syntax tree and compared.")
NUM = {"zero": 0, "one": 1, "two": 2, "three": 3, "four": 4, "five": 5}
NO = object()


class Sym(tuple):
    pass


def const(node, env, depth=0):
    """value of a constant expression; symbolic for products of a number and an external constant."""
    if depth > 8 or node is None:
        return NO
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        v = [const(x, env, depth + 1) for x in node.elts]
        return NO if any(x is NO for x in v) else ("seq", *v)
    if isinstance(node, ast.Dict):
        v = [(const(k, env, depth + 1), const(x, env, depth + 1)) for k, x in zip(node.keys, node.values)]
        return NO if any(a is NO or b is NO for a, b in v) else ("map", *sorted(v, key=repr))
    if isinstance(node, ast.UnaryOp):
        v = const(node.operand, env, depth + 1)
        try:
            return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Not: lambda: not v, ast.Invert: lambda: ~v}[type(node.op)]() if v is not NO and not isinstance(v, tuple) else NO
        except Exception:
            return NO
    if isinstance(node, ast.BinOp):
        a, b = const(node.left, env, depth + 1), const(node.right, env, depth + 1)
        if isinstance(b, Sym) and isinstance(a, (int, float)) and isinstance(node.op, ast.Mult):
            return Sym((b[0] * a, b[1]))
        if isinstance(a, Sym) and isinstance(b, (int, float)) and isinstance(node.op, ast.Mult):
            return Sym((a[0] * b, a[1]))
        if any(x is NO or isinstance(x, tuple) for x in (a, b)):
            return NO
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b if abs(b) < 64 else NO}[type(node.op)]()
        except Exception:
            return NO
    if isinstance(node, ast.Call) and not node.keywords and isinstance(node.func, ast.Name) and node.func.id in ("tuple", "list", "dict", "frozenset", "set", "bool", "int", "float", "str"):
        if not node.args:
            return {"tuple": ("seq",), "list": ("seq",), "set": ("seq",), "frozenset": ("seq",), "dict": ("map",), "bool": False, "int": 0, "float": 0.0, "str": ""}[node.func.id]
        v = const(node.args[0], env, depth + 1)
        try:
            return v if v is NO or node.func.id in ("tuple", "list", "set", "frozenset", "dict") else {"bool": bool, "int": int, "float": float, "str": str}[node.func.id](v)
        except Exception:
            return NO
    if isinstance(node, ast.Name):
        if node.id in env:
            return const(env[node.id], {k: v for k, v in env.items() if k != node.id}, depth + 1)
        return NO
    if isinstance(node, ast.Attribute):
        t = ast.unparse(node)
        m = re.match(r"(?:\w+\.)*([MRL]_sun)\.(?:cgs\.value|value|si\.value)$", t)
        return Sym((1.0, m.group(1))) if m else NO
    if isinstance(node, ast.JoinedStr):
        return NO
    return NO


def stated(text):
    """the value a documentation states, or NO when it is no value."""
    s = text.strip().strip("`").strip()
    m = re.match(r"([\d.]+)\s+solar\s+(mass|radi|lumin)", s)
    if m:
        return Sym((float(m.group(1)), {"mass": "M_sun", "radi": "R_sun", "lumin": "L_sun"}[m.group(2)]))
    if re.match(r"(an )?empty string\b", s):
        return ""
    if re.match(r"(an )?empty (list|tuple)\b", s):
        return ("seq",)
    w = re.match(r"[a-z]+", s)
    if w and w.group(0) in NUM:
        return NUM[w.group(0)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for end in [len(s)] + [i for i in range(len(s) - 1, 0, -1) if s[i] in ".,;( \n:" or s[i - 1] in "])}'\""]:
            t = s[:end].strip().rstrip(".,;").strip()
            if not t:
                continue
            try:
                return const(ast.parse(t, mode="eval").body, {})
            except (SyntaxError, ValueError):
                continue
    return NO


def same(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a[1] == b[1] and abs(a[0] - b[0]) < 1e-12 * max(1, abs(a[0]))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1] and all(same(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, str) and isinstance(b, str):     # names of units and options are read without regard to case
        return a.strip().lower() == b.strip().lower()
    if isinstance(a, bool) != isinstance(b, bool) or (a is None) != (b is None) or isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def replaced(fn, name):
    """values that a body puts in place of a left-out argument (x = v if x is None, x = x or v ...)."""
    out = []

    def is_none(t, pos=True):
        return (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq) if pos else (ast.IsNot, ast.NotEq))
                and isinstance(t.left, ast.Name) and t.left.id == name)
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and is_none(n.test):
            for s in n.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    out.append(s.value)
        elif isinstance(n, ast.If) and is_none(n.test, False):
            for s in n.orelse:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    out.append(s.value)
        elif isinstance(n, ast.IfExp):
            if is_none(n.test):
                out.append(n.body)
            elif is_none(n.test, False):
                out.append(n.orelse)
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[0], ast.Name) and n.values[0].id == name:
            out.append(n.values[-1])
    return out


def entry(doc, name):
    """the description of a parameter in a documentation text."""
    m = re.search(r"^([ \t]*)(?:\w+\s*,\s*)*\*{0,2}%s(?:\s*,\s*\w+)*\s*:.*\n((?:(?:\1[ \t]+.*)?\n)*)" % re.escape(name), doc + "\n", re.M)
    return m.group(0) if m else None


DEF = re.compile(r"\bby\s+default\s*(?:it is|is|equals?|,|:|=|=>|-->)?\s*(?!\w+s? the\b)(\S[^\n]*)|\bdefaults?(?:\s+value)?\s*(?:to|is|:|=)\s*(\S[^\n]*)", re.I)


def run(chk):
    chk.rule("documented default", "the value that takes effect when an argument is left out is the one its documentation states")
    p = Program(REPO)
    unread = []
    for f, m in sorted(p.byfile.items()):
        chk.files.add(p.rel(f))
        env = {}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                env[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                env[n.target.id] = n.value

        def visit(node, cls, env):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    own = {t.id: s.value for s in n.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                    visit(n, n, {**env, **own})
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    function(n, cls if node is cls else None, env)
                    visit(n, None, env)
                else:
                    visit(n, cls, env)

        def function(fn, cls, env):
            docs = [ast.get_docstring(fn) or ""]
            if fn.name == "__init__" and cls is not None:
                docs.append(ast.get_docstring(cls) or "")
                # an option described with the class it is inherited from
                for b in getattr(cls, "_cls").mro()[1:]:
                    docs.append(ast.get_docstring(b.node) or "")
                    i = next((x for x in b.node.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
                    docs.append(i is not None and ast.get_docstring(i) or "")
            a = fn.args
            pos = a.posonlyargs + a.args
            given = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
            given.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            where = f"{p.rel(f)}:{fn.lineno}"
            q = f"{cls.name}.{fn.name}" if cls is not None else fn.name
            for name, node in given.items():
                e = next((x for d in docs if (x := entry(d, name))), None)
                if e is None:
                    continue
                found = [stated(x or y) for x, y in DEF.findall(e)]
                found = [x for x in found if x is not NO]
                if not found:
                    if DEF.search(e):
                        unread.append(f"{q}: {name}")
                    continue
                want = found[0]
                got = const(node, env)
                inst = f"{p.rel(f)}: {q}: {name}"
                if got is NO:
                    chk.undecided("documented default", inst, where, f"default {ast.unparse(node)[:60]} is no constant")
                    continue
                ok = any(same(got, w) for w in found[:1])
                if not ok:
                    rep = [const(v, env) for v in replaced(fn, name)]
                    ok = any(v is not NO and same(v, want) for v in rep)
                    if not ok and rep and got is None and any(v is NO for v in rep):
                        chk.undecided("documented default", inst, where, "default computed in the body")
                        continue
                chk.functions.add(f"{p.rel(f)}:{q}")
                chk.verdict("documented default", inst, ok, where, f"{q}: argument {name} left out means {ast.unparse(node)[:60]}, documented is {want!r}")
        visit(m.tree, None, env)
    chk.notes.append(f"documented defaults that state no value: {unread[:20]}")
    chk.floor = 400
