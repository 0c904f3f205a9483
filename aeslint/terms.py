"""Hash-consed term DAG (the abstract value domain) and its equality decision.

Terms are the value numbers of the analysis.  Two terms are decided equal by
random interpretation (Gulwani & Necula, POPL 2004): leaves are mapped to
random numbers, uninterpreted operators to random functions, and the DAG is
evaluated in high precision arithmetic.  No code of the analysed repository is
ever executed: only terms that were derived from its source are interpreted.
"""
from __future__ import annotations
import hashlib
from fractions import Fraction
import mpmath
from mpmath import mpf, mpc

mpmath.mp.dps = 34

_TABLE = {}
_COUNT = [0]


class Node:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a term: " + show(self)[:200])

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return self.id


def _k(a):
    if isinstance(a, Node):
        return ("n", a.id)
    if isinstance(a, tuple):
        return ("t",) + tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    try:
        n = _TABLE.get(key)
    except TypeError:
        args = tuple(a if isinstance(a, (Node, str, int, Fraction, tuple)) else repr(a) for a in args)
        key = (op,) + tuple(_k(a) for a in args)
        n = _TABLE.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.op = op
        n.args = args
        _COUNT[0] += 1
        n.id = _COUNT[0]
        _TABLE[key] = n
    return n


def num(x):
    return mk("num", Fraction(x))


I = mk("I")
PI = mk("sym", "pi", "pi", False)
NAN = mk("sym", "nan", "pos", False)
INF = mk("sym", "inf", "pos", False)


def sym(name, kind="real", arr=False):
    return mk("sym", name, kind, arr)


def N(x):
    """Coerce a concrete python number to a term."""
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return num(1 if x else 0)
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(Fraction(str(x)))
    raise TypeError(f"not numeric: {x!r}")


def isnum(x):
    return isinstance(x, (int, Fraction)) or isinstance(x, Node) or isinstance(x, bool)


def cval(n):
    """Concrete value (Fraction) of a term or None."""
    if isinstance(n, Node):
        return n.args[0] if n.op == "num" else None
    if isinstance(n, (bool, int, Fraction)):
        return Fraction(int(n) if isinstance(n, bool) else n)
    return None


def back(n):
    """Node -> concrete python number where possible (keeps Node otherwise)."""
    if isinstance(n, Node) and n.op == "num":
        f = n.args[0]
        return f
    return n


def add(a, b):
    a, b = N(a), N(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return num(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    return mk("add", a, b)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    a, b = N(a), N(b)
    if a is b:
        return num(0)
    return add(a, neg(b))


def mul(a, b):
    a, b = N(a), N(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return num(ca * cb)
    if ca == 0 or cb == 0:
        return num(0)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if a is I and b is I:
        return num(-1)
    return mk("mul", a, b)


def div(a, b):
    a, b = N(a), N(b)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return num(ca / cb)
        return mul(a, num(1 / cb))
    if ca == 0:
        return num(0)
    return mk("div", a, b)


def power(a, b):
    a, b = N(a), N(b)
    ca, cb = cval(a), cval(b)
    if cb is not None:
        if cb == 0:
            return num(1)
        if cb == 1:
            return a
        if ca is not None and cb.denominator == 1 and (ca != 0 or cb > 0) and abs(cb) < 400:
            return num(ca ** int(cb))
    return mk("pow", a, b)


# functions interpreted by the evaluator -------------------------------------
ELEMENTWISE = {
    "sqrt", "exp", "log", "log10", "log1p", "sin", "cos", "tan", "arccos", "arcsin", "arctan",
    "abs", "conj", "real", "imag", "angle", "floor", "ceil", "sign", "maximum", "minimum",
    "isnan", "isfinite", "trunc", "float", "arctan2", "complex", "cint",
}
SCALAR_FN = {"len", "asum", "any", "all", "nansum", "amin", "amax", "mean", "ptp", "argmax", "argmin", "nanmax", "dot"}
BOOL_FN = {"isnan", "isfinite", "any", "all", "bool", "contains", "isinstance", "isclose", "allclose", "isnone", "strtest", "callbool", "isdir", "isfile", "exists"}


def ccval(n):
    """(re, im) of a constant built from numbers and the imaginary unit."""
    v = cval(n)
    if v is not None:
        return (v, Fraction(0))
    if not isinstance(n, Node):
        return None
    if n.op == "I":
        return (Fraction(0), Fraction(1))
    if n.op in ("add", "mul"):
        r = None
        for a in n.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                c = ccval(x)
                if c is None:
                    return None
                r = c if r is None else (r[0] + c[0], r[1] + c[1]) if n.op == "add" else (r[0] * c[0] - r[1] * c[1], r[0] * c[1] + r[1] * c[0])
        return r
    return None


def fn(name, *args):
    if name == "sqrt" and len(args) == 1:
        c = cval(args[0])
        if c is not None and c >= 0:
            import math
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return num(Fraction(p, q))
    if name in ("real", "imag") and len(args) == 1:
        c = ccval(args[0])
        if c is not None:
            return num(c[0] if name == "real" else c[1])
    if name in ("conj", "real") and len(args) == 1 and cval(args[0]) is not None:
        return N(args[0])
    if name in ("floor", "ceil", "trunc", "cint", "rint") and len(args) == 1 and cval(args[0]) is not None:
        import math
        c = Fraction(cval(args[0]))
        return num({"floor": math.floor, "ceil": math.ceil, "rint": round}.get(name, math.trunc)(c))
    if name in ("maximum", "minimum") and len(args) == 2 and all(isinstance(x, (Node, int, Fraction)) and cval(N(x)) is not None for x in args):
        return num((max if name == "maximum" else min)(cval(N(x)) for x in args))
    if name == "abs" and cval(args[0]) is not None:
        return num(abs(cval(args[0])))
    return mk("fn", name, *[N(a) if isinstance(a, (int, Fraction)) and not isinstance(a, bool) else a for a in args])


Node.__add__ = lambda a, b: add(a, b)
Node.__radd__ = lambda a, b: add(b, a)
Node.__sub__ = lambda a, b: sub(a, b)
Node.__rsub__ = lambda a, b: sub(b, a)
Node.__mul__ = lambda a, b: mul(a, b)
Node.__rmul__ = lambda a, b: mul(b, a)
Node.__truediv__ = lambda a, b: div(a, b)
Node.__rtruediv__ = lambda a, b: div(b, a)
Node.__pow__ = lambda a, b: power(a, b)
Node.__neg__ = lambda a: neg(a)


def intify(x):
    """conversion of a number to integer (truncation), also under if-then-else"""
    n = N(x)
    todo, seen = [n], set()
    while todo:
        q = todo.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        if q.op == "ite":
            todo += [q.args[1], q.args[2]]
        elif q.op in ("add", "mul", "div", "pow"):
            todo += list(q.args)
        elif q.op != "num":
            return x
    return back(fn("cint", n))


def sqrt(x):
    return fn("sqrt", N(x))


def diff(n, rules, memo=None):
    """Total derivative of a term; rules maps leaf terms to their derivative."""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    o, a = n.op, n.args
    if n in rules:
        r = N(rules[n])
    elif o in ("num", "I", "sym"):
        r = num(0)
    elif o == "add":
        r = add(diff(a[0], rules, memo), diff(a[1], rules, memo))
    elif o == "mul":
        r = add(mul(diff(a[0], rules, memo), a[1]), mul(a[0], diff(a[1], rules, memo)))
    elif o == "div":
        r = div(sub(mul(diff(a[0], rules, memo), a[1]), mul(a[0], diff(a[1], rules, memo))), mul(a[1], a[1]))
    elif o == "pow":
        db = diff(a[0], rules, memo)
        de = diff(a[1], rules, memo)
        if not (de.op == "num" and de.args[0] == 0):
            raise ValueError("variable exponent")
        r = mul(mul(a[1], power(a[0], sub(a[1], 1))), db)
    elif o == "fn" and a[0] in ("sqrt", "sin", "cos", "exp", "log"):
        d = diff(a[1], rules, memo)
        k = {"sqrt": lambda x: div(num(1), mul(2, fn("sqrt", x))), "sin": lambda x: fn("cos", x), "cos": lambda x: neg(fn("sin", x)),
             "exp": lambda x: fn("exp", x), "log": lambda x: div(num(1), x)}[a[0]](a[1])
        r = mul(k, d)
    else:
        raise ValueError("diff " + o)
    memo[n.id] = r
    return r


def ite(c, a, b):
    if isinstance(c, Node) and c.op == "bool":
        c = c.args[0]
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else lnot(c)
    return mk("ite", c, asterm(a), asterm(b))


def asterm(a):
    if isinstance(a, Node):
        return a
    if isinstance(a, bool):
        return mk("bool", a)
    return N(a)


def isboolterm(n):
    if isinstance(n, bool):
        return True
    if not isinstance(n, Node):
        return False
    if n.op in ("cmp", "not", "and", "or", "bool"):
        return True
    if n.op == "fn":
        return n.args[0] in BOOL_FN
    if n.op == "sym":
        return n.args[1] == "bool"
    if n.op == "ite":
        return isboolterm(n.args[1]) and isboolterm(n.args[2])
    return False


def unb(n):
    if isinstance(n, Node) and n.op == "bool":
        return n.args[0]
    return n


def lnot(c):
    c = unb(c)
    if isinstance(c, bool):
        return not c
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def land(a, b):
    a, b = unb(a), unb(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    if lnot(a) is b:
        return False
    return mk("and", a, b)


def lor(a, b):
    a, b = unb(a), unb(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    if lnot(a) is b:
        return True
    return mk("or", a, b)


def missing(x):
    """a missing value, or arithmetic on one"""
    if x is NAN:
        return True
    if x.op in ("num", "sym") or NAN not in syms_of(x):
        return False
    if x.op in ("add", "mul", "pow", "div"):
        return any(isinstance(y, Node) and missing(y) for y in x.args)
    return x.op == "fn" and x.args[0] in ("abs", "sqrt", "exp", "log", "sin", "cos") and missing(x.args[1])


def cmp(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op == "!=":
        return lnot(cmp("==", a, b))
    a, b = N(a), N(b)
    if missing(a) or missing(b):                             # comparisons with a missing value do not hold
        return False
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return {"<": ca < cb, "<=": ca <= cb, "==": ca == cb}[op]
    if a is b:
        return op != "<"
    for x, y, left in ((a, b, True), (b, a, False)):         # symbols stand for finite values
        sg = 1 if x is INF else -1 if x.op == "mul" and x.args[1] is INF and cval(x.args[0]) == -1 else 0
        if sg and INF not in syms_of(y) and NAN not in syms_of(y):
            return False if op == "==" else (sg < 0) == left
    if op == "==" and a.id > b.id:
        a, b = b, a
    return mk("cmp", op, a, b)


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if depth == 0:
        return "…"
    o, a = n.op, n.args
    s = lambda x: show(x, depth - 1)
    if o == "num":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "I":
        return "1j"
    if o == "add":
        return "(" + s(a[0]) + " + " + s(a[1]) + ")"
    if o == "mul":
        return s(a[0]) + "*" + s(a[1])
    if o == "div":
        return s(a[0]) + "/(" + s(a[1]) + ")"
    if o == "pow":
        return s(a[0]) + "**" + s(a[1])
    if o == "fn":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if o == "cmp":
        return s(a[1]) + a[0] + s(a[2])
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def syms_of(n, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym":
            acc.add(x)
        else:
            st.extend(x.args)
    return acc


def fns_of(n):
    acc, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fn":
            acc.add(x.args[0])
        st.extend(x.args)
    return acc


def subst(n, mp, memo=None):
    """Substitute terms (dict Node->Node)."""
    memo = {} if memo is None else memo
    if isinstance(n, tuple):
        return tuple(subst(x, mp, memo) for x in n)
    if not isinstance(n, Node):
        return n
    if n in mp:
        return mp[n]
    if n.id in memo:
        return memo[n.id]
    if n.op in ("sym", "num", "I", "bool"):
        r = n
    else:
        na = tuple(subst(x, mp, memo) for x in n.args)
        o = n.op
        if o == "add":
            r = add(*na)
        elif o == "mul":
            r = mul(*na)
        elif o == "div":
            r = div(*na)
        elif o == "pow":
            r = power(*na)
        elif o == "cmp":
            r = cmp(*na)
        elif o == "ite":
            r = ite(*na)
        elif o == "not":
            r = lnot(na[0])
        elif o == "and":
            r = land(*na)
        elif o == "or":
            r = lor(*na)
        elif o == "fn":
            r = fn(*na)
        else:
            r = mk(o, *na)
        if isinstance(r, bool):
            r = asterm(r)
    memo[n.id] = r
    return r


# ---------------------------------------------------------------- evaluation
def _h(*parts):
    m = hashlib.blake2b(digest_size=24)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"\0")
    return int.from_bytes(m.digest(), "big")


_MAXH = mpf(2) ** 192


def _u(*parts):
    return mpf(_h(*parts)) / _MAXH


def key(v):
    """Rounded, hashable key of an evaluated value."""
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (mpf, int)):
        v = mpf(v)
        if v == 0 or abs(v) < mpf(10) ** -22:
            return ("r", "0")
        return ("r", mpmath.nstr(v, 18))
    if isinstance(v, mpc):
        if abs(v.imag) <= mpf(10) ** -22 * (1 + abs(v.real)):
            return key(v.real)
        return ("c", key(v.real), key(v.imag))
    if isinstance(v, tuple):
        return ("t",) + tuple(key(x) for x in v)
    return ("o", repr(v))


class EvalError(Exception):
    pass


class Sampler:
    """One random interpretation of the leaves and uninterpreted operators."""

    def __init__(self, seed, over=None, kinds=None, fnhook=None, force=None):
        self.seed = seed
        self.force = force
        self.over = over or {}
        self.kinds = kinds or {}
        self.fnhook = fnhook
        self.memo = {}

    def leaf(self, name, kind, extra):
        s = self.seed
        if name in self.kinds:
            kind = self.kinds[name]
        if name == "pi":
            return mpf(mpmath.pi)
        if kind == "int":
            return mpf(int(_h(s, name, extra) % 7) - 3)
        if kind == "nat":
            return mpf(int(_h(s, name, extra) % 6) + 1)
        if kind == "bool":
            return bool(_h(s, name, extra) % 2)
        if kind == "pos":
            return mpf("0.3") + 2 * _u(s, name, extra)
        if kind == "unit":
            return mpf("0.02") + mpf("0.96") * _u(s, name, extra)
        if kind == "complex":
            return mpc(4 * _u(s, name, extra, "re") - 2, 4 * _u(s, name, extra, "im") - 2)
        return 4 * _u(s, name, extra) - 2

    def ev(self, n, ctx=(), env=()):
        if isinstance(n, tuple):
            return tuple(self.ev(x, ctx, env) for x in n)
        if not isinstance(n, Node):
            if isinstance(n, bool) or isinstance(n, str) or n is None:
                return n
            if isinstance(n, (int, Fraction)):
                f = Fraction(n)
                return mpf(f.numerator) / mpf(f.denominator)
            return n
        k = (n.id, ctx, env)
        r = self.memo.get(k)
        if r is None:
            r = self._ev(n, ctx, env)
            self.memo[k] = r
        return r

    def _ev(self, n, ctx, env):
        o, a = n.op, n.args
        if o == "num":
            f = a[0]
            return mpf(f.numerator) / mpf(f.denominator)
        if o == "bool":
            return a[0]
        if o == "I":
            return mpc(0, 1)
        if o == "sym":
            for nm, v in env:
                if nm == a[0]:
                    return v
            if a[0] in self.over:
                v = self.over[a[0]]
                if callable(v):
                    return v(self, ctx)
                return v
            return self.leaf(a[0], a[1], self.cut(ctx, int(a[2])) if a[2] else ())
        if o == "add":
            return self.ev(a[0], ctx, env) + self.ev(a[1], ctx, env)
        if o == "mul":
            return self.ev(a[0], ctx, env) * self.ev(a[1], ctx, env)
        if o == "div":
            d = self.ev(a[1], ctx, env)
            if d == 0:
                return mpf(_h(self.seed, "div0", key(self.ev(a[0], ctx, env)))) / _MAXH + 1000
            return self.ev(a[0], ctx, env) / d
        if o == "pow":
            b, e = self.ev(a[0], ctx, env), self.ev(a[1], ctx, env)
            if b == 0 and (isinstance(e, mpc) or e < 0):
                return mpf(_u(self.seed, "pow0", key(e))) + 1000
            if isinstance(e, mpf) and e == int(e):
                return b ** int(e)
            return mpmath.power(b, e)
        if o == "cmp":
            x, y = self.ev(a[1], ctx, env), self.ev(a[2], ctx, env)
            return self.compare(a[0], x, y)
        if o == "not":
            return not self.ev(a[0], ctx, env)
        if o == "and":
            x, y = self.ev(a[0], ctx, env), self.ev(a[1], ctx, env)
            return bool(x) and bool(y)
        if o == "or":
            x, y = self.ev(a[0], ctx, env), self.ev(a[1], ctx, env)
            return bool(x) or bool(y)
        if o == "ite":
            c = self.ev(a[0], ctx, env)
            return self.ev(a[1], ctx, env) if c else self.ev(a[2], ctx, env)
        if o == "sum":
            s, lo, hi, st, body = a
            lo, hi, st = (int(self.ev(x, ctx, env)) for x in (lo, hi, st))
            t = mpf(0)
            for i in range(lo, hi, st):
                t = t + self.ev(body, ctx, env + ((s.args[0], mpf(i)),))
            return t
        if o == "fn":
            return self.fneval(n, a[0], a[1:], ctx, env)
        raise EvalError(o)

    @staticmethod
    def cut(ctx, rank):
        """keep the part of an index path that an array of this rank consumes."""
        if not ctx:
            return ctx
        out = []
        for e in ctx:
            if rank <= 0:
                break
            out.append(e)
            if e[0] == "i":
                rank -= len(e) - 1
        return tuple(out)

    def compare(self, op, x, y):
        if isinstance(x, (str, type(None), tuple)) or isinstance(y, (str, type(None), tuple)):
            if op == "==":
                return x == y
            return bool(_h(self.seed, op, key(x), key(y)) % 2)
        if isinstance(x, bool):
            x = mpf(int(x))
        if isinstance(y, bool):
            y = mpf(int(y))
        d = x - y
        tol = mpf(10) ** -22 * (1 + abs(x) + abs(y))
        if abs(d) <= tol:
            return op != "<"
        if op == "==":
            return False
        if isinstance(d, mpc):
            if abs(d.imag) <= tol:
                d = d.real
            else:
                # ordering of complex values: uninterpreted but antisymmetric
                return bool(_h(self.seed, "clt", key(x), key(y)) % 2)
        return d < 0

    def fneval(self, n, name, args, ctx, env):
        if self.fnhook is not None:
            r = self.fnhook(self, n, name, args, ctx, env)
            if r is not NotImplemented:
                return r
        if name == "idx":
            # idx(A, i): push the index into A's leaves
            sub = ("i",) + tuple(key(self.ev(x, (), env)) for x in args[1:])
            return self.ev(args[0], (sub,) + ctx, env)
        if name == "slice":
            sub = ("s",) + tuple(key(self.ev(x, (), env)) for x in args[1:])
            if ctx and ctx[0][0] == "i" and len(ctx[0]) == 2:
                # (A[a:b:c])[i] == A[a + c*i] for a non-negative start
                st = self.ev(args[1], (), env)
                step = self.ev(args[3], (), env)
                st = mpf(0) if st is None else st
                step = mpf(1) if step is None else step
                iv = ctx[0][1]
                if isinstance(st, mpf) and st >= 0 and isinstance(step, mpf) and iv[0] == "r":
                    i = mpf(iv[1])
                    if i >= 0:
                        sub = ("i", key(st + step * i))
                        return self.ev(args[0], (sub,) + ctx[1:], env)
            return self.ev(args[0], (sub,) + ctx, env)
        if name in ELEMENTWISE:
            v = [self.ev(x, ctx, env) for x in args]
            if not any(isinstance(x, (str, tuple, type(None))) for x in v):
                v = [mpf(int(x)) if isinstance(x, bool) else x for x in v]
                f = getattr(self, "f_" + name, None)
                if f is not None:
                    try:
                        r = f(*v)
                        if r is not None:
                            return r
                    except (ValueError, ZeroDivisionError, TypeError, OverflowError):
                        pass
            return self.unint(name, tuple(v), ctx=())
        v = tuple(self.ev(x, (), env) for x in args)
        return self.unint(name, v, () if name in SCALAR_FN else ctx)

    def unint(self, name, v, ctx):
        if name in BOOL_FN:
            return bool(_h(self.seed, "F", name, key(v), ctx) % 2)
        return 4 * _u(self.seed, "F", name, key(v), ctx) - 2

    def f_sqrt(self, x):
        return mpmath.sqrt(x)

    def f_exp(self, x):
        return mpmath.exp(x)

    def f_log(self, x):
        return mpmath.log(x) if x != 0 else None

    def f_log10(self, x):
        return mpmath.log(x) / mpmath.log(10) if x != 0 else None

    def f_log1p(self, x):
        return mpmath.log(1 + x)

    def f_sin(self, x):
        return mpmath.sin(x)

    def f_cos(self, x):
        return mpmath.cos(x)

    def f_tan(self, x):
        return mpmath.tan(x)

    def f_arccos(self, x):
        return mpmath.acos(x)

    def f_arcsin(self, x):
        return mpmath.asin(x)

    def f_arctan(self, x):
        return mpmath.atan(x)

    def f_arctan2(self, y, x):
        return mpmath.atan2(y, x)

    def f_abs(self, x):
        return abs(x)

    def f_conj(self, x):
        return mpmath.conj(x)

    def f_real(self, x):
        return mpmath.re(x)

    def f_imag(self, x):
        return mpmath.im(x)

    def f_angle(self, x):
        return mpmath.arg(x)

    def f_floor(self, x):
        return mpf(mpmath.floor(x + mpf(10) ** -25)) if isinstance(x, mpf) else None

    def f_ceil(self, x):
        return mpf(mpmath.ceil(x - mpf(10) ** -25)) if isinstance(x, mpf) else None

    def f_trunc(self, x):
        if not isinstance(x, mpf):
            return None
        return self.f_floor(x) if x >= 0 else self.f_ceil(x)

    def f_cint(self, x):
        return self.f_trunc(x)

    def f_sign(self, x):
        return mpf(mpmath.sign(x)) if isinstance(x, mpf) else None

    def f_maximum(self, x, y):
        return max(x, y)

    def f_minimum(self, x, y):
        return min(x, y)

    def f_float(self, x):
        return x

    def f_isnan(self, x):
        return bool(_h(self.seed, "isnan", key(x)) % 2)


def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, (str, tuple, type(None))) or isinstance(y, (str, tuple, type(None))):
            return x is y
        return (x == y)
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return x == y
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    return abs(x - y) <= mpf(10) ** -15 * (abs(x) + abs(y) + mpf(10) ** -9)


def cond_atoms(*roots, kinks=None):
    """comparison / boolean atoms occurring anywhere in the terms (and the branches of absolute values and the like)."""
    cmps, bools, seen, st = [], [], set(), list(roots)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "cmp":
            cmps.append(x)
        elif (x.op == "fn" and x.args[0] in BOOL_FN) or (x.op == "sym" and x.args[1] == "bool"):
            bools.append(x)
        elif x.op == "fn" and kinks is not None and x.args[0] in ("abs", "sign", "maximum", "minimum"):
            c = cmp("<", x.args[1], x.args[2] if len(x.args) > 2 else num(0))      # the two branches of a kink
            if isinstance(c, Node) and c.op == "cmp":
                kinks.append(c)
        if x.op != "sym":
            st.extend(x.args)
    return cmps, bools


def _solve(atom, mk_sampler, over, seed):
    """find a leaf override making the two sides of a comparison equal."""
    leaves = sorted((s for s in syms_of(atom) if s.args[1] not in ("bool", "pi", "opaque", "complex") and not s.args[0].startswith(("loop#",))), key=lambda n: n.id)
    out = []
    for lf in leaves[:6]:
        if lf.args[0] in over and callable(over[lf.args[0]]):
            continue
        if lf.args[0] in ("pi", "nan", "inf"):
            continue

        def f(x):
            o = dict(over)
            o[lf.args[0]] = x
            sm = mk_sampler(seed, o)
            p, q = sm.ev(atom.args[1]), sm.ev(atom.args[2])
            p = mpf(int(p)) if isinstance(p, bool) else p
            q = mpf(int(q)) if isinstance(q, bool) else q
            d = p - q
            return d.real if isinstance(d, mpc) else d
        try:
            x0 = over.get(lf.args[0])
            if x0 is None:
                x0 = mk_sampler(seed, over).leaf(lf.args[0], lf.args[1], ())
            if isinstance(x0, (bool, mpc, str)):
                continue
            x1 = x0 + mpf("0.37")
            f0, f1 = f(x0), f(x1)
            if f0 == f1:
                continue
            for _ in range(40):
                if f1 == f0:
                    break
                x2 = x1 - f1 * (x1 - x0) / (f1 - f0)
                x0, f0, x1 = x1, f1, x2
                f1 = f(x1)
                if abs(f1) < mpf(10) ** -30:
                    break
            if abs(f1) < mpf(10) ** -24:
                ok = True
                if lf.args[1] in ("pos", "nat", "unit") and x1 <= 0:
                    ok = False
                if lf.args[1] == "unit" and x1 >= 1:
                    ok = False
                if lf.args[1] in ("int", "nat"):
                    r = mpf(round(float(x1)))
                    if abs(r - x1) > mpf(10) ** -12:
                        ok = False
                    x1 = r
                if ok:
                    out.append((lf, x1))
        except (ValueError, ZeroDivisionError, EvalError, TypeError, OverflowError):
            continue
    return out


def equal(a, b, rounds=4, over=None, kinds=None, fnhook=None, seed0=0, boundary=True):
    """Decide term equality by random interpretation.

    Comparisons inside the terms are additionally driven to both outcomes (and
    to their boundary) by moving one leaf, so that a special case guarded by a
    comparison is interpreted on both sides.
    """
    getover = lambda s: dict((over(s) if callable(over) else over) or {})
    mks = lambda s, o, force=None: Sampler((seed0, s), over=o, kinds=kinds, fnhook=fnhook, force=force)
    kinks = []
    cmps, bools = cond_atoms(a, b, kinks=kinks) if boundary else ([], [])
    seen = {c.id: set() for c in cmps + kinks}
    seenb = {}
    for s in range(rounds):
        sm = mks(s, getover(s))
        if not close(sm.ev(a), sm.ev(b)):
            return False
        for c in cmps + kinks:
            try:
                seen[c.id].add(sm.ev(c))
            except (EvalError, TypeError, ValueError):
                pass
        for c in bools:
            try:
                seenb.setdefault(c.id, set()).add(sm.ev(c))
            except EvalError:
                pass
    for c in bools[:24]:
        for val in (True, False):
            if val in seenb.get(c.id, ()):
                continue
            for s in range(rounds, rounds + 24):
                sm = mks(s, getover(s))
                if not close(sm.ev(a), sm.ev(b)):
                    return False
                if sm.ev(c) is val:
                    break
    for c in cmps[:60] + [k for k in kinks[:24] if len(seen[k.id]) == 1]:
        if "loop#" in show(c, 12):
            continue
        o0 = getover(0)
        n = 0
        for lf, x in _solve(c, mks, o0, 0):
            step = 1 if lf.args[1] in ("int", "nat") else mpf("0.05")
            eps = mpf(10) ** -9 * (1 + abs(x))
            pts = [x] if c.args[0] == "==" and False in seen[c.id] else [x, x + step, x - step]
            if lf.args[1] not in ("int", "nat"):
                pts += [x + eps, x - eps]
            if any(c is k for k in kinks):
                pts = [x + step, x - step, x + 1, x - 1]     # the sides of a kink, not the kink itself
            for v in pts:
                if lf.args[1] in ("pos", "nat", "unit") and v <= 0:
                    continue
                o = dict(o0)
                o[lf.args[0]] = v
                sm = mks(0, o)
                try:
                    if not close(sm.ev(a), sm.ev(b)):
                        return False
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
            n += 1
            if n >= 3:
                break
    return True


def outcomes(b, rounds=8, over=None, kinds=None, fnhook=None):
    """boolean outcomes of a condition term over the sampled interpretations."""
    r = set()
    for s in range(rounds):
        o = dict((over(s) if callable(over) else over) or {})
        try:
            r.add(Sampler((0, s), over=o, kinds=kinds, fnhook=fnhook).ev(b))
        except EvalError:
            pass
    return r


def calls_of(n, name):
    """distinct function-application nodes with the given name inside a term"""
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fn" and x.args[0] == name:
            out.append(x)
        if x.op != "sym":
            st.extend(x.args)
    return out
