"""Cython sources -> Python syntax trees understood by the interpreter.

The .pyx file is parsed with Cython's own parser; C-level constructs become calls of `cyrt.*` helpers: typed views (element type and
dimension are checked), integer casts (truncation), addresses of elements, C++ objects.  prange loops run sequentially; `pranges`
checks that they are free of races (stores only at the loop index, reductions only through one in-place operator).
"""
from __future__ import annotations
import ast
import os
import sys
from .interp import Unsupported

BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}


def parse(path):
    try:
        import Cython  # noqa: F401
    except ImportError:
        sys.path.append("/opt/vp/venv/lib/python3.12/site-packages")
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    with open(path) as f:
        src = f.read()
    try:
        return parse_from_strings(os.path.basename(path)[:-4], src)
    except Errors.CompileError as e:
        raise Unsupported("source does not parse: " + str(e)[:200])


class Conv:
    def __init__(self):
        self.pranges = []      # (function, line, problems)
        self.fun = ""
        self.line = 1

    def module(self, tree):
        body = self.block(tree.body)
        m = ast.Module(body=[ast.parse("import cyrt").body[0]] + body, type_ignores=[])
        return ast.fix_missing_locations(m)

    def loc(self, n, a):
        pos = getattr(n, "pos", None)
        if pos:
            self.line = pos[1]
        a.lineno = a.end_lineno = self.line
        a.col_offset = a.end_col_offset = 0
        return a

    def block(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k == "StatListNode":
            out = []
            for s in n.stats:
                out += self.block(s)
            return out
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("cython statement " + k)
        r = m(n)
        r = r if isinstance(r, list) else [r]
        return [self.loc(n, x) for x in r]

    def body(self, n):
        return self.block(n) or [self.loc(n, ast.Pass())] if n is not None else [ast.Pass(lineno=self.line, col_offset=0, end_lineno=self.line, end_col_offset=0)]

    def cy(self, name, *args):
        f = ast.Attribute(value=ast.Name(id="cyrt", ctx=ast.Load()), attr=name, ctx=ast.Load())
        return ast.Call(func=f, args=list(args), keywords=[])

    # types
    def tname(self, t):
        k = type(t).__name__
        if k == "CSimpleBaseTypeNode":
            return ".".join([*t.module_path, t.name or "object"])
        if k == "MemoryViewSliceTypeNode":
            c = "c" if t.axes and type(t.axes[-1].step).__name__ == "IntNode" else "s"
            return self.tname(t.base_type_node) + "[" + str(len(t.axes)) + c + "]"
        if k == "TemplatedTypeNode":
            return self.tname(t.base_type_node) + "<>"
        if k == "CTupleBaseTypeNode":
            return "tuple"
        if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.tname(t.base_type)
        return "object"

    def convert(self, tn, e):
        tn = tn.replace("cnp.", "").replace("np.", "").replace("_t", "")
        if tn.endswith("]"):
            return self.cy("view", ast.Constant(tn.split("[")[0]), ast.Constant(int(tn[-3])), ast.Constant(tn[-2] == "c"), e)
        if tn in ("int", "long", "Py_ssize", "int32", "int64", "size", "unsigned int"):
            return self.cy("as_int", e)
        if tn in ("double", "float64", "float"):
            return self.cy("as_double", e)
        return e

    # statements
    def skip(self, n):
        return []
    s_CImportStatNode = s_FromCImportStatNode = s_PassStatNode = s_CDefExternNode = s_CTypeDefNode = skip

    def s_FromCImportStatNode(self, n):
        out = []
        for it in n.imported_names:
            name, as_name = it[1], it[2] or it[1]
            out.append(ast.ImportFrom(module="cimport:" + n.module_name, names=[ast.alias(name=name, asname=as_name)], level=0))
        # rendered as plain assignments to C-level names
        return [ast.Assign(targets=[ast.Name(id=str(x.names[0].asname), ctx=ast.Store())], value=self.cy("cname", ast.Constant(x.module[8:]), ast.Constant(str(x.names[0].name)))) for x in out]

    def s_CImportStatNode(self, n):
        nm = n.as_name or n.module_name.split(".")[0]
        if n.module_name == "numpy" or nm in ("np",):
            return [] if nm == "np" else []
        return []

    def decls(self, args):
        pos, defaults, pre = [], [], []
        for a in args:
            d = a.declarator
            while not hasattr(d, "name"):
                d = d.base
            name = str(d.name)
            tn = self.tname(a.base_type)
            if not name:      # untyped python argument: the type node holds the name
                name, tn = a.base_type.name, "object"
            pos.append(ast.arg(arg=str(name)))
            if a.default is not None:
                defaults.append(self.ex(a.default))
            c = self.convert(tn, ast.Name(id=str(name), ctx=ast.Load()))
            if not isinstance(c, ast.Name):
                pre.append(self.loc(a, ast.Assign(targets=[ast.Name(id=str(name), ctx=ast.Store())], value=c)))
        return ast.arguments(posonlyargs=[], args=pos, kwonlyargs=[], kw_defaults=[], defaults=defaults), pre

    def s_DefNode(self, n):
        old, self.fun = self.fun, str(n.name)
        a, pre = self.decls(n.args)
        r = ast.FunctionDef(name=str(n.name), args=a, body=pre + self.body(n.body), decorator_list=[])
        self.fun = old
        return r

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        name = str(d.base.name)
        old, self.fun = self.fun, name
        a, pre = self.decls(d.args)
        r = ast.FunctionDef(name=name, args=a, body=pre + self.body(n.body), decorator_list=[])
        self.fun = old
        return r

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            x = d
            while not hasattr(x, "name"):
                x = x.base
            if getattr(x, "default", None) is not None:
                out.append(ast.Assign(targets=[ast.Name(id=str(x.name), ctx=ast.Store())], value=self.convert(self.tname(n.base_type), self.ex(x.default))))
        return out

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = str(n.rhs.module_name.value)
            nm = str(n.lhs.name)
            if mod == nm or "." not in mod:
                return ast.Import(names=[ast.alias(name=mod, asname=nm)])
            return ast.Import(names=[ast.alias(name=mod, asname=nm)])
        return ast.Assign(targets=[self.ex(n.lhs, ast.Store())], value=self.ex(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.ex(x, ast.Store()) for x in n.lhs_list], value=self.ex(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.ex(n.lhs, ast.Store()), op=BIN[n.operator](), value=self.ex(n.rhs))

    def s_FromImportStatNode(self, n):
        return ast.ImportFrom(module=str(n.module.module_name.value), names=[ast.alias(name=str(a), asname=str(b.name)) for a, b in n.items], level=max(0, n.module.level or 0))

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.ex(n.expr))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.ex(n.value) if n.value is not None else None)

    def s_IfStatNode(self, n):
        els = self.block(n.else_clause)
        for c in reversed(n.if_clauses):
            els = [self.loc(c, ast.If(test=self.ex(c.condition), body=self.body(c.body), orelse=els))]
        return els

    def s_WhileStatNode(self, n):
        return ast.While(test=self.ex(n.condition), body=self.body(n.body), orelse=[])

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        return ast.Expr(value=self.cy("delete", *[self.ex(a) for a in n.args]))

    def s_GILStatNode(self, n):
        return self.block(n.body)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.ex(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.ex(n.condition), msg=None)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        it = self.ex(seq)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "prange" or (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "prange"):
            r = ast.For(target=self.ex(n.target, ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=it.args, keywords=[]), body=self.body(n.body), orelse=self.block(n.else_clause))
            self.prange(r)
            return r
        return ast.For(target=self.ex(n.target, ast.Store()), iter=it, body=self.body(n.body), orelse=self.block(n.else_clause))

    def prange(self, f):
        """race conditions of one parallel loop (names assigned are thread-private, names updated in place are reductions)."""
        bad = []
        i = f.target.id if isinstance(f.target, ast.Name) else None
        stored, loads, red, plain = {}, {}, {}, set()
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Subscript):
                    d = stored if isinstance(x.ctx, ast.Store) else loads
                    d.setdefault(ast.dump(x.value), []).append(x)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    red.setdefault(x.target.id, []).append(x)
                if isinstance(x, ast.Assign):
                    plain |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                if isinstance(x, (ast.Break, ast.Return)):
                    bad.append("leaves the loop early")
        isidx = lambda x: isinstance(x.slice, ast.Name) and x.slice.id == i
        for k, xs in stored.items():
            if not all(isidx(x) for x in xs):
                bad.append("stores to an element other than the loop index")
            if not all(isidx(x) for x in loads.get(k, [])):
                bad.append("reads elements written by other iterations")
        for v, xs in red.items():
            if len({type(x.op) for x in xs}) > 1:
                bad.append(f"reduction {v} with different operators")
            if v in plain:
                bad.append(f"reduction {v} is assigned")
            if isinstance(xs[0].op, ast.Div):
                bad.append(f"reduction {v} by division")
            for s in f.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load):
                        bad.append(f"reduction {v} is read in the loop")
        self.pranges.append((self.fun, self.line, bad))

    # expressions
    def ex(self, n, ctx=None):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        ctx = ctx or ast.Load()
        if m is None:
            if hasattr(n, "operand1") and hasattr(n, "operator") and n.operator in BIN:
                return self.loc(n, ast.BinOp(left=self.ex(n.operand1), op=BIN[n.operator](), right=self.ex(n.operand2)))
            raise Unsupported("cython expression " + k)
        return self.loc(n, m(n, ctx))

    def e_NameNode(self, n, c):
        return ast.Name(id=str(n.name), ctx=c)

    def e_AttributeNode(self, n, c):
        return ast.Attribute(value=self.ex(n.obj), attr=str(n.attribute), ctx=c)

    def e_IndexNode(self, n, c):
        return ast.Subscript(value=self.ex(n.base), slice=self.ex(n.index), ctx=c)

    def e_SliceIndexNode(self, n, c):
        return ast.Subscript(value=self.ex(n.base), slice=ast.Slice(lower=self.ex(n.start) if n.start is not None else None, upper=self.ex(n.stop) if n.stop is not None else None, step=None), ctx=c)

    def e_SliceNode(self, n, c):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.ex(x)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def e_SimpleCallNode(self, n, c):
        return ast.Call(func=self.ex(n.function), args=[self.ex(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, c):
        kws = []
        if n.keyword_args is not None:
            for p in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=str(p.key.value), value=self.ex(p.value)))
        return ast.Call(func=self.ex(n.function), args=[self.ex(a) for a in n.positional_args.args], keywords=kws)

    def e_IntNode(self, n, c):
        return ast.Constant(int(str(n.value).rstrip("uUlL"), 0))

    def e_FloatNode(self, n, c):
        return ast.Constant(float(n.value))

    def e_UnicodeNode(self, n, c):
        return ast.Constant(str(n.value))
    e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n, c):
        return ast.Constant(str(n.value))

    def e_BoolNode(self, n, c):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, c):
        return ast.Constant(None)

    def e_TupleNode(self, n, c):
        return ast.Tuple(elts=[self.ex(a, c) for a in n.args], ctx=c)

    def e_ListNode(self, n, c):
        return ast.List(elts=[self.ex(a, c) for a in n.args], ctx=c)

    def e_NewExprNode(self, n, c):
        return self.cy("cls", ast.Constant(self.tname(n.cppclass)))

    def e_AmpersandNode(self, n, c):
        o = n.operand
        if type(o).__name__ == "IndexNode":
            return self.cy("addr", self.ex(o.base), self.ex(o.index))
        raise Unsupported("address of a scalar")

    def e_TypecastNode(self, n, c):
        tn = self.tname(n.base_type).replace("cnp.", "").replace("np.", "").replace("_t", "")
        v = self.ex(n.operand)
        if tn in ("int", "long", "Py_ssize", "int32", "int64", "size"):
            return self.cy("trunc", v)
        if tn in ("double", "float64", "float"):
            return self.cy("as_double", v)
        return v

    def e_PrimaryCmpNode(self, n, c):
        ops, cs, x = [CMP[n.operator]()], [self.ex(n.operand2)], n.cascade
        while x is not None:
            ops.append(CMP[x.operator]())
            cs.append(self.ex(x.operand2))
            x = x.cascade
        return ast.Compare(left=self.ex(n.operand1), ops=ops, comparators=cs)

    def e_BoolBinopNode(self, n, c):
        return ast.BoolOp(op=ast.And() if n.operator == "and" else ast.Or(), values=[self.ex(n.operand1), self.ex(n.operand2)])

    def e_NotNode(self, n, c):
        return ast.UnaryOp(op=ast.Not(), operand=self.ex(n.operand))

    def e_UnaryMinusNode(self, n, c):
        return ast.UnaryOp(op=ast.USub(), operand=self.ex(n.operand))

    def e_UnaryPlusNode(self, n, c):
        return self.ex(n.operand)

    def e_CondExprNode(self, n, c):
        return ast.IfExp(test=self.ex(n.test if hasattr(n, "test") else n.condition), body=self.ex(n.true_val), orelse=self.ex(n.false_val))


def load(path):
    """(python syntax tree, parallel loops)"""
    c = Conv()
    return c.module(parse(path)), c.pranges
