"""Abstract interpreter for the Fortran sources: reals are terms (or exact rationals), integers concrete, every array access bounds-checked."""
from __future__ import annotations
import re
from fractions import Fraction
from . import terms as T
from .terms import Node, N, num
from .interp import Unsupported


class FError(Exception):
    """undefined behaviour or STOP of the analysed program"""
    def __init__(self, msg, stop=False):
        Exception.__init__(self, msg)
        self.stop = stop


UN = type("Un", (), {"__repr__": lambda s: "<undefined>"})()


class FArr:
    def __init__(self, l, off, dims, isint=False):
        self.l, self.off, self.dims, self.isint = l, off, dims, isint

    def pos(self, idx, where):
        if len(idx) != len(self.dims):
            raise Unsupported("rank mismatch")
        p, st = 0, 1
        for i, (lo, hi) in zip(idx, self.dims):
            if not lo <= i <= hi:
                raise FError(f"subscript {i} outside {lo}:{hi} at {where}")
            p += (i - lo) * st
            st *= hi - lo + 1
        p += self.off
        if not 0 <= p < len(self.l):
            raise FError(f"access outside the storage of the actual argument at {where}")
        return p

    def size(self):
        n = 1
        for lo, hi in self.dims:
            n *= max(0, hi - lo + 1)
        return n


TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[deDE][+-]?\d+)?(?:_\w+)?|\.\d+(?:[deDE][+-]?\d+)?|\d+(?:[deDE][+-]?\d+)(?:_\w+)?|\d+(?:_\w+)?(?!\.[a-zA-Z]))|(\d+)|([A-Za-z_]\w*)|(\.[A-Za-z]+\.)|(\*\*|==|/=|<=|>=|=>|::|//|[-+*/()<>,:=%])|('[^']*'|\"[^\"]*\"))")
REL = {".gt.": ">", ".lt.": "<", ".ge.": ">=", ".le.": "<=", ".eq.": "==", ".ne.": "/="}


def toks(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("fortran token " + s[i:i + 20])
        n1, n2, nm, dot, op, st = m.groups()
        if n1 is not None or n2 is not None:
            t = (n1 or n2).lower().split("_")[0]
            out.append(("int", int(t)) if re.fullmatch(r"\d+", t) else ("real", Fraction(t.replace("d", "e"))))
        elif nm:
            out.append(("id", nm.lower()))
        elif dot:
            d = dot.lower()
            out.append(("op", REL.get(d, d)))
        elif st:
            out.append(("str", st[1:-1]))
        else:
            out.append(("op", op))
        i = m.end()
    return out


class P:
    def __init__(self, ts):
        self.t, self.i = ts, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, op):
        if self.peek() == ("op", op):
            self.i += 1
            return True
        return False

    def need(self, op):
        if not self.acc(op):
            raise Unsupported(f"fortran syntax: expected {op}, found {self.peek()}")

    def expr(self):
        return self.bin(0)
    LV = [(".eqv.", ".neqv."), (".or.",), (".and.",), "not", ("==", "/=", "<", ">", "<=", ">="), ("+", "-"), ("*", "/")]

    def bin(self, l):
        if l == len(self.LV):
            return self.pw()
        ops = self.LV[l]
        if ops == "not":
            if self.acc(".not."):
                return ("not", self.bin(l))
            return self.bin(l + 1)
        if ops == ("+", "-") and self.peek() in (("op", "-"), ("op", "+")):
            s = self.next()[1]
            a = self.bin(l + 1)
            a = ("neg", a) if s == "-" else a
        else:
            a = self.bin(l + 1)
        while self.peek()[0] == "op" and self.peek()[1] in ops:
            o = self.next()[1]
            a = ("b", o, a, self.bin(l + 1))
        return a

    def pw(self):
        a = self.prim()
        if self.acc("**"):
            if self.peek() == ("op", "-"):
                self.next()
                return ("b", "**", a, ("neg", self.pw()))
            return ("b", "**", a, self.pw())
        return a

    def prim(self):
        k, v = self.next()
        if k in ("int", "real", "str"):
            return (k, v)
        if (k, v) == ("op", "("):
            e = self.expr()
            self.need(")")
            return e
        if (k, v) == ("op", "-"):
            return ("neg", self.prim())
        if k == "op" and v in (".true.", ".false."):
            return ("bool", v == ".true.")
        if k == "id":
            if self.acc("("):
                return ("ref", v, self.args())
            return ("id", v)
        raise Unsupported(f"fortran expression at {v}")

    def args(self):
        out = []
        if self.acc(")"):
            return out
        while True:
            if self.peek()[0] == "id" and self.i + 1 < len(self.t) and self.t[self.i + 1] == ("op", "="):
                nm = self.next()[1]
                self.next()
                out.append(("kw", nm, self.expr()))
            else:
                lo = None if self.peek() == ("op", ":") else self.expr()
                if self.acc(":"):
                    hi = None if self.peek() in (("op", ")"), ("op", ","), ("op", ":")) else self.expr()
                    st = self.expr() if self.acc(":") else None
                    out.append(("sec", lo, hi, st))
                else:
                    out.append(lo)
            if self.acc(")"):
                return out
            self.need(",")


def expr(s):
    p = P(toks(s))
    e = p.expr()
    if p.peek()[0] != "end":
        raise Unsupported("fortran syntax: " + s)
    return e


class Sub:
    def __init__(self, name, args, path, mod):
        self.name, self.args, self.decls, self.body, self.path, self.mod = name, args, {}, [], path, mod
        self.result = None


class _Exit(Exception):
    pass


class _Cycle(Exception):
    pass


class _Ret(Exception):
    pass


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        d += c == "("
        d -= c == ")"
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


class Program:
    def __init__(self):
        self.subs, self.params, self.files, self.functions = {}, {}, set(), set()
        self.steps = 0

    def load(self, path):
        self.files.add(path)
        lines, cur, start = [], "", None
        for no, raw in enumerate(open(path), 1):
            s, q = "", None
            for c in raw.rstrip("\n"):
                if q:
                    q = None if c == q else q
                elif c in "'\"":
                    q = c
                elif c == "!":
                    break
                s += c
            s = s.strip()
            if not s:
                continue
            if s.startswith("&"):
                s = s[1:]
            start = start or no
            if s.endswith("&"):
                cur += s[:-1] + " "
                continue
            for part in (cur + s).split(";"):
                if part.strip():
                    lines.append((start, part.strip()))
            cur, start = "", None
        self.i, self.lines, self.path = 0, lines, path
        sub, stack = None, []
        mod = None
        while self.i < len(lines):
            no, s = lines[self.i]
            l = s.lower()
            self.i += 1
            if m := re.match(r"module\s+(\w+)$", l):
                mod = m.group(1)
            elif re.match(r"(use\b|implicit\b|contains\b|private\b|public\b|end\s*module\b|program\b)", l):
                continue
            elif m := re.match(r"(?:pure\s+|recursive\s+)*subroutine\s+(\w+)\s*(?:\((.*)\))?$", l):
                sub = Sub(m.group(1), [a.strip() for a in (m.group(2) or "").split(",") if a.strip()], path, mod)
                self.subs[sub.name] = sub
                sub.body = self.block(sub, ("end subroutine", "endsubroutine", "end"))
            elif m := re.match(r"((?:pure|elemental|recursive|integer|logical|real|double\s+precision|\([^()]*\)|\*\d|\s)*)function\s+(\w+)\s*\(([^()]*)\)\s*(?:result\s*\(\s*(\w+)\s*\))?$", l):
                sub = Sub(m.group(2), [a.strip() for a in m.group(3).split(",") if a.strip()], path, mod)
                sub.result = m.group(4) or m.group(2)
                ty = re.sub(r"\b(pure|elemental|recursive)\b", "", m.group(1)).strip()
                if ty:
                    self.declare(sub, f"{ty} :: {sub.result}")
                self.subs[sub.name] = sub
                sub.body = self.block(sub, ("end function", "endfunction", "end"))
            elif "::" in l:
                self.declare(None, l)
            else:
                raise Unsupported(f"fortran line {no}: {s}")

    def declare(self, sub, l):
        head, tail = l.split("::", 1)
        attrs = [a.strip() for a in split_top(head)]
        ty = attrs[0]
        dim = next((a[a.index("(") + 1:-1] for a in attrs if a.startswith("dimension")), None)
        intent = next((a[a.index("(") + 1:-1].strip() for a in attrs if a.startswith("intent")), None)
        for d in split_top(tail):
            d = d.strip()
            ini = None
            if "=" in d:
                d, ini = (x.strip() for x in d.split("=", 1))
            m = re.match(r"(\w+)\s*(?:\((.*)\))?$", d)
            nm, dm = m.group(1), m.group(2) or dim
            dims = None
            if dm:
                dims = []
                for x in split_top(dm):
                    if ":" in x:
                        a, b = x.split(":")
                        dims.append((expr(a) if a.strip() else ("int", 1), expr(b) if b.strip() else None))
                    else:
                        dims.append((("int", 1), expr(x)))
            rec = {"int": ty.startswith("integer"), "log": ty.startswith("logical"), "dims": dims, "intent": intent, "init": expr(ini) if ini else None}
            if sub is None:
                if "parameter" in attrs:
                    self.params[nm] = rec
                else:
                    raise Unsupported("module variable " + nm)
            else:
                rec["param"] = "parameter" in attrs
                sub.decls[nm] = rec

    def block(self, sub, ends):
        out = []
        while self.i < len(self.lines):
            no, s = self.lines[self.i]
            l = s.lower()
            key = re.sub(r"\s+", " ", l)
            if any(key == e or key.startswith(e + " ") or (e in ("else", "case") and key.startswith(e)) for e in ends):
                self.end = (no, l)
                self.i += 1
                return out
            self.i += 1
            out += self.stmt(sub, no, l, s)
        raise Unsupported("unterminated block")

    def stmt(self, sub, no, l, s):
        if re.match(r"(use\b|implicit\b|contains\b)", l):
            return []
        if "::" in l and re.match(r"(integer|real|logical|double)", l):
            self.declare(sub, l)
            return []
        if re.match(r"integer\s+\w", l):
            self.declare(sub, l.replace("integer", "integer ::", 1))
            return []
        if m := re.match(r"do\s+(\w+)\s*=\s*(.*)$", l):
            a = [expr(x) for x in split_top(m.group(2))]
            b = self.block(sub, ("enddo", "end do"))
            return [("do", no, m.group(1), a, b)]
        if m := re.match(r"do\s+while\s*\((.*)\)$", l):
            b = self.block(sub, ("enddo", "end do"))
            return [("while", no, expr(m.group(1)), b)]
        if m := re.match(r"select\s*case\s*\((.*)\)$", l):
            sel = expr(m.group(1))
            arms, els = [], []
            ends = ("end select", "endselect", "case")
            if self.block(sub, ends):
                raise Unsupported("statement before the first case")
            while (e := self.end[1]).startswith("case"):
                conds = None if re.match(r"case\s*default$", e) else [x.strip() for x in split_top(e[e.index("(") + 1:e.rindex(")")])]
                b = self.block(sub, ends)
                if conds is None:
                    els = b
                    continue
                c = None
                for x in conds:
                    if ":" in x:
                        lo, hi = (y.strip() for y in x.split(":"))
                        one = None
                        for op, y in ((">=", lo), ("<=", hi)):
                            if y:
                                z = ("b", op, sel, expr(y))
                                one = z if one is None else ("b", ".and.", one, z)
                    else:
                        one = ("b", "==", sel, expr(x))
                    c = one if c is None else ("b", ".or.", c, one)
                arms.append((c, b))
            return [("if", no, arms, els)]
        if m := re.match(r"if\s*\((.*)\)\s*then$", l):
            arms, els = [], []
            c = expr(m.group(1))
            while True:
                b = self.block(sub, ("endif", "end if", "else"))
                arms.append((c, b))
                e = self.end[1]
                if m2 := re.match(r"else\s*if\s*\((.*)\)\s*then$", e):
                    c = expr(m2.group(1))
                    continue
                if re.match(r"else$", e):
                    els = self.block(sub, ("endif", "end if"))
                break
            return [("if", no, arms, els)]
        if l.startswith("if") and l[2:].lstrip().startswith("("):
            k = l.index("(")
            d = 0
            for j in range(k, len(l)):
                d += l[j] == "("
                d -= l[j] == ")"
                if d == 0:
                    break
            return [("if", no, [(expr(l[k + 1:j]), self.stmt(sub, no, l[j + 1:].strip(), s))], [])]
        if m := re.match(r"call\s+(\w+)\s*(?:\((.*)\))?$", l):
            p = P(toks("(" + (m.group(2) or "") + ")"))
            p.next()
            return [("call", no, m.group(1), p.args())]
        if re.match(r"(error\s+)?stop\b", l):
            return [("stop", no)]
        if l in ("return", "exit", "cycle", "continue"):
            return [(l, no)]
        p = P(toks(l))
        lhs = p.prim()
        p.need("=")
        rhs = p.expr()
        if p.peek()[0] != "end":
            raise Unsupported("fortran statement: " + s)
        return [("=", no, lhs, rhs)]

    # ---------- execution
    def call(self, name, args):
        """args: list of FArr | number | ('elem', FArr, pos) in dummy order"""
        sub = self.subs.get(name)
        if sub is None:
            raise Unsupported("subroutine " + name)
        self.functions.add((sub.path, name))
        env = {"__sub": sub}
        pend = []
        for d, a in zip(sub.args, args):
            rec = sub.decls.get(d)
            if rec is None:
                raise Unsupported("implicitly typed " + d)
            if rec["dims"] is None:
                env[d] = a
            else:
                pend.append((d, rec, a))
        if len(args) != len(sub.args):
            raise Unsupported("argument count of " + name)
        for d, rec, a in pend:
            dims = [(self.ival(lo, env), None if hi is None else self.ival(hi, env)) for lo, hi in rec["dims"]]
            if dims[-1][1] is None:
                dims = [(lo, lo + n - 1) for (lo, _), n in zip(dims, [h - l + 1 for l, h in a.dims])]
            v = FArr(a.l, a.off, dims, rec["int"])
            if v.off < 0 or v.off + v.size() > len(v.l):
                raise FError(f"argument {d} of {name} extends beyond its storage")
            env[d] = v
            if rec["intent"] == "out":
                for k in range(v.off, v.off + v.size()):
                    v.l[k] = UN
        for nm, rec in sub.decls.items():
            if nm in env:
                continue
            if rec["dims"] is None:
                env[nm] = self.ev(rec["init"], env) if rec["init"] is not None else UN
                if not rec.get("param") and rec["init"] is not None:
                    raise Unsupported("saved local " + nm)
            else:
                dims = [(self.ival(lo, env), self.ival(hi, env)) for lo, hi in rec["dims"]]
                n = 1
                for lo, hi in dims:
                    n *= hi - lo + 1
                env[nm] = FArr([UN] * n, 0, dims, rec["int"])
        try:
            self.run(sub.body, env)
        except _Ret:
            pass
        return env

    def ival(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, Node) and v.op == "num":
            v = v.args[0]
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        if not isinstance(v, int):
            raise Unsupported("integer expression depends on the data")
        return v

    def where(self, env, no):
        import os
        return f"{os.path.relpath(env['__sub'].path, os.environ.get('AES_REPO', '/repo'))}:{no}"

    def run(self, body, env):
        for st in body:
            self.steps += 1
            if self.steps > 4_000_000:
                raise Unsupported("step budget exceeded")
            k, no = st[0], st[1]
            self.no = no
            if k == "=":
                self.assign(st[2], self.ev(st[3], env), env)
            elif k == "do":
                a = [self.ival(x, env) for x in st[3]]
                step = a[2] if len(a) > 2 else 1
                cnt = max(0, (a[1] - a[0] + step) // step)
                i = a[0]
                try:
                    for _ in range(cnt):
                        env[st[2]] = i
                        try:
                            self.run(st[4], env)
                        except _Cycle:
                            pass
                        i += step
                    env[st[2]] = i
                except _Exit:
                    pass
            elif k == "while":
                try:
                    while self.truth(self.ev(st[2], env)):
                        try:
                            self.run(st[3], env)
                        except _Cycle:
                            pass
                except _Exit:
                    pass
            elif k == "if":
                for c, b in st[2]:
                    if self.truth(self.ev(c, env)):
                        self.run(b, env)
                        break
                else:
                    self.run(st[3], env)
            elif k == "call":
                self.docall(st, env)
            elif k == "stop":
                raise FError(f"STOP at {self.where(env, no)}", True)
            elif k == "return":
                raise _Ret()
            elif k == "exit":
                raise _Exit()
            elif k == "cycle":
                raise _Cycle()

    def docall(self, st, env):
        sub = self.subs.get(st[2])
        if sub is None or sub.result is not None:
            raise Unsupported("subroutine " + st[2])
        self.invoke(sub, st, env)

    def funcall(self, name, args, env):
        sub = self.subs[name]
        no = self.no
        e2 = self.invoke(sub, ("call", no, name, args), env)
        v = e2.get(sub.result, UN)
        if isinstance(v, FArr):
            return self.whole(v)
        return self.defd(v, "the result of " + name, self.where(env, no))

    def invoke(self, sub, st, env):
        vals = [None] * len(sub.args)
        back = []
        for i, a in enumerate(st[3]):
            if a[0] == "kw":
                i, a = sub.args.index(a[1]), a[2]
            rec = sub.decls[sub.args[i]]
            if rec["dims"] is not None:
                if a[0] == "id":
                    vals[i] = env[a[1]]
                elif a[0] == "ref" and isinstance(env.get(a[1]), FArr):
                    arr = env[a[1]]
                    if any(x[0] == "sec" for x in a[2]):
                        if len(a[2]) != 1:
                            raise Unsupported("array section argument")
                        lo, hi = self.sect(a[2][0], arr, env)
                        vals[i] = FArr(arr.l, arr.off + lo - arr.dims[0][0], [(1, hi - lo + 1)], arr.isint)
                        if hi >= lo:
                            arr.pos([lo], self.where(env, st[1]))
                            arr.pos([hi], self.where(env, st[1]))
                    else:
                        p = arr.pos([self.ival(x, env) for x in a[2]], self.where(env, st[1]))
                        end = arr.off + arr.size()
                        vals[i] = FArr(arr.l[:] if end < len(arr.l) and False else arr.l, p, [(1, end - p)], arr.isint)
                else:
                    raise Unsupported("array argument expression")
            else:
                element = a[0] == "ref" and isinstance(env.get(a[1]), FArr) and not any(x[0] == "sec" for x in a[2])
                if rec["intent"] == "out" and (element or a[0] == "id"):
                    vals[i] = UN
                    if element:
                        arr = env[a[1]]
                        arr.pos([self.ival(x, env) for x in a[2]], self.where(env, st[1]))
                else:
                    vals[i] = self.ev(a, env)
                if rec["intent"] in ("out", "inout") or rec["intent"] is None:
                    if element:
                        # the place is fixed before the call
                        arr = env[a[1]]
                        back.append((sub.args[i], ("at", arr, arr.pos([self.ival(x, env) for x in a[2]], self.where(env, st[1])))))
                    elif a[0] == "id":
                        back.append((sub.args[i], a))
        if any(v is None for v in vals):
            raise Unsupported("missing argument")
        no = st[1]
        e2 = self.call(st[2], vals)
        self.no = no
        for d, a in back:
            if a[0] == "id" and e2[d] is not UN:
                env[a[1]] = e2[d]
            elif a[0] == "at":
                if e2[d] is not UN:
                    a[1].l[a[2]] = e2[d]
                elif sub.decls[d]["intent"] == "out":
                    a[1].l[a[2]] = UN
        return e2

    def truth(self, v):
        if isinstance(v, bool):
            return v
        raise Unsupported("condition depends on the data")

    def sect(self, s, arr, env, dim=0):
        lo = arr.dims[dim][0] if s[1] is None else self.ival(s[1], env)
        hi = arr.dims[dim][1] if s[2] is None else self.ival(s[2], env)
        if s[3] is not None:
            raise Unsupported("strided section")
        return lo, hi

    def assign(self, lhs, v, env):
        w = self.where(env, self.no)
        if lhs[0] == "id":
            cur = env.get(lhs[1])
            if isinstance(cur, FArr):
                vs = v if isinstance(v, list) else [v] * cur.size()
                if len(vs) != cur.size():
                    raise FError(f"shapes differ at {w}")
                cur.l[cur.off:cur.off + cur.size()] = vs
                return
            rec = env["__sub"].decls.get(lhs[1])
            if rec and rec["int"]:
                v = self.toint(v)
            elif rec and rec.get("log"):
                pass
            elif isinstance(v, int) and not isinstance(v, bool):
                v = Fraction(v)
            env[lhs[1]] = v
            return
        arr = env.get(lhs[1])
        if not isinstance(arr, FArr):
            raise Unsupported("assignment to " + lhs[1])
        if any(x[0] == "sec" for x in lhs[2]):
            places = [()]
            rank = 0
            for d, x in enumerate(lhs[2]):
                if x[0] == "sec":
                    lo, hi = self.sect(x, arr, env, d)
                    rank += 1
                    rng = range(lo, hi + 1)
                else:
                    rng = [self.ival(x, env)]
                places = [p + (i,) for i in rng for p in places]
            if isinstance(v, list):
                if rank != 1:
                    raise Unsupported("section assignment")
                if len(v) != len(places):
                    raise FError(f"shapes differ at {w}")
            vs = v if isinstance(v, list) else [v] * len(places)
            for p, x in zip(places, vs):
                arr.l[arr.pos(list(p), w)] = Fraction(x) if isinstance(x, int) and not isinstance(x, bool) and not arr.isint else x
            return
        arr.l[arr.pos([self.ival(x, env) for x in lhs[2]], w)] = Fraction(v) if isinstance(v, int) and not arr.isint else v

    def toint(self, v):
        if isinstance(v, Node):
            if v.op != "num":
                raise Unsupported("integer depends on the data")
            v = v.args[0]
        return int(v)

    def ev(self, e, env):
        k = e[0]
        if k == "int":
            return e[1]
        if k == "real":
            return Fraction(e[1])
        if k in ("str", "bool"):
            return e[1]
        if k == "id":
            if e[1] in env:
                v = env[e[1]]
                if isinstance(v, FArr):
                    return self.whole(v)
                if v is UN:
                    raise FError(f"use of undefined {e[1]} at {self.where(env, self.no)}")
                return v
            if e[1] in self.params:
                return self.ev(self.params[e[1]]["init"], env)
            raise Unsupported("name " + e[1])
        if k == "neg":
            v = self.ev(e[1], env)
            return [self.ar("*", -1, x) for x in v] if isinstance(v, list) else self.ar("*", -1, v)
        if k == "not":
            return not self.truth(self.ev(e[1], env))
        if k == "b":
            o = e[1]
            if o == ".and.":
                return self.truth(self.ev(e[2], env)) and self.truth(self.ev(e[3], env))
            if o == ".or.":
                return self.truth(self.ev(e[2], env)) or self.truth(self.ev(e[3], env))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if isinstance(a, list) or isinstance(b, list):
                n = len(a) if isinstance(a, list) else len(b)
                a, b = (x if isinstance(x, list) else [x] * n for x in (a, b))
                if len(a) != len(b):
                    raise FError(f"shapes differ at {self.where(env, self.no)}")
                return [self.ar(o, x, y) for x, y in zip(a, b)]
            return self.ar(o, a, b)
        if k == "ref":
            v = env.get(e[1])
            if isinstance(v, FArr):
                w = self.where(env, self.no)
                if any(x[0] == "sec" for x in e[2]):
                    if len(e[2]) != 1:
                        fixed = []
                        rng = None
                        for d, x in enumerate(e[2]):
                            if x[0] == "sec":
                                if rng is not None:
                                    raise Unsupported("section of rank > 1")
                                rng = (d, *self.sect(x, v, env, d))
                                fixed.append(None)
                            else:
                                fixed.append(self.ival(x, env))
                        out = []
                        for i in range(rng[1], rng[2] + 1):
                            idx = list(fixed)
                            idx[rng[0]] = i
                            out.append(self.defd(v.l[v.pos(idx, w)], e[1], w))
                        return out
                    lo, hi = self.sect(e[2][0], v, env)
                    return [self.defd(v.l[v.pos([i], w)], e[1], w) for i in range(lo, hi + 1)]
                return self.defd(v.l[v.pos([self.ival(x, env) for x in e[2]], w)], e[1], w)
            if e[1] in self.subs and self.subs[e[1]].result is not None:
                return self.funcall(e[1], e[2], env)
            a = [self.ev(x, env) for x in e[2] if x[0] != "kw" or x[1] != "kind"]
            if e[1] in ("size", "lbound", "ubound") and e[2][0][0] == "id" and isinstance(env.get(e[2][0][1]), FArr):
                v = env[e[2][0][1]]
                d = v.dims[a[1] - 1] if len(a) > 1 else v.dims[0]
                if e[1] == "size":
                    return d[1] - d[0] + 1 if len(a) > 1 else v.size()
                if len(v.dims) == 1 or len(a) > 1:
                    return d[0] if e[1] == "lbound" else d[1]
            return self.intrinsic(e[1], a)
        if k == "kw":
            return self.ev(e[2], env)
        raise Unsupported("expression " + k)

    def defd(self, v, nm, w):
        if v is UN:
            raise FError(f"use of an undefined element of {nm} at {w}")
        return v

    def whole(self, v):
        return [self.defd(x, "array", "") for x in v.l[v.off:v.off + v.size()]]

    def intrinsic(self, f, a):
        if f in ("min", "max"):
            r = a[0]
            for x in a[1:]:
                r = x if self.ar("<" if f == "min" else ">", x, r) else r
            return r
        if f == "mod":
            x, y = a
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unsupported("mod of reals")
            return abs(x) % abs(y) * (1 if x >= 0 else -1)
        if f in ("dfloat", "dble", "real", "float"):
            if isinstance(a[0], list):
                return [Fraction(x) if isinstance(x, int) else x for x in a[0]]
            return Fraction(a[0]) if isinstance(a[0], int) else a[0]
        if f == "int":
            return self.toint(a[0])
        if f == "dot_product":
            if len(a[0]) != len(a[1]):
                raise FError("dot_product of different sizes")
            r = Fraction(0)
            for x, y in zip(*a):
                r = self.ar("+", r, self.ar("*", x, y))
            return r
        if f == "sum":
            r = Fraction(0)
            for x in a[0]:
                r = self.ar("+", r, x)
            return r
        if f == "size":
            return len(a[0])
        if f == "abs" and not isinstance(a[0], list):
            return abs(a[0])
        if f == "merge":
            x, y, c = a
            if isinstance(c, list):
                n = len(c)
                x, y = (v if isinstance(v, list) else [v] * n for v in (x, y))
                return [p if self.truth(q) else r for p, r, q in zip(x, y, c)]
            return x if self.truth(c) else y
        if f == "product":
            r = Fraction(1)
            for x in a[0]:
                r = self.ar("*", r, x)
            return r
        raise Unsupported("intrinsic " + f)

    def ar(self, o, a, b):
        if isinstance(a, Node) and a.op == "num":
            a = a.args[0]
        if isinstance(b, Node) and b.op == "num":
            b = b.args[0]
        if o in ("==", "/=", "<", ">", "<=", ">="):
            if isinstance(a, Node) or isinstance(b, Node):
                raise Unsupported("comparison depends on the data")
            return {"==": a == b, "/=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
        ints = isinstance(a, int) and isinstance(b, int)
        if isinstance(a, Node) or isinstance(b, Node):
            a, b = N(a), N(b)
        if o == "/":
            if not isinstance(b, Node) and b == 0:
                raise FError("division by zero")
            if ints:
                return abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
            return a / b
        if o == "**":
            if ints and b < 0:
                return int(Fraction(a) ** b)
            return a ** b
        return a + b if o == "+" else a - b if o == "-" else a * b
