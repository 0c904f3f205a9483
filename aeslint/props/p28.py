"""Custom-format text inputs: inlists with their defaults, information folder files."""
import ast
import itertools
import re
import shlex as hostshlex
from fractions import Fraction
from .common import *
from ..interp import StaticM, Partial, UNDEF
from . import stubs
from .p19 import plain

EXPL = ("Abstract interpretation of the two text readers on files generated from a grammar of entries (every kind of literal, nested one level, in every spelling of the format, between comments and blank lines), with models of the standard library's lexer, "
        "regular expressions and literal evaluation; each key must hold the value and type that was written.")
W = "util-tools/inlist_handler/inlist_handler.py"
WF = "aesolver/aesolver/read_load_info/read_info_dirs.py"

SHLEX = '''
class shlex:
    def __init__(self, instream=None, infile=None, posix=False, punctuation_chars=False):
        self.posix = posix
        self.punctuation_chars = punctuation_chars
        self.text = instream if isinstance(instream, str) else instream.read()
        self.pos = 0
        self.mem = ((), ' ')
        self.commenters = '#'
        self.wordchars = 'abcdfeghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
        self.whitespace = ' \\t\\r\\n'
        self.whitespace_split = False
        self.quotes = '\\'"'
        self.escape = '\\\\'
        self.escapedquotes = '"'
        self.eof = None if posix else ''
    def get_token(self):
        return TOKEN[0](self)
    def __iter__(self):
        return self
    def __next__(self):
        t = self.get_token()
        if t == self.eof:
            raise StopIteration
        return t
'''
STREAM = '''
LOG = []

class Stream:
    def __init__(self, path, mode, text):
        self.path = path
        self.mode = mode
        self.text = text
        self.open = True
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.open = False
    def close(self):
        self.open = False
    def read(self):
        return self.text
    def readlines(self):
        return self.text.splitlines(keepends=True)
    def __iter__(self):
        return iter(self.text.splitlines(keepends=True))
'''


def abstract(it, x):
    """a Python literal as a value of the interpreter"""
    if isinstance(x, float):
        return num(Fraction(repr(x)) if "e" not in repr(x) else Fraction(x).limit_denominator(10 ** 12) if abs(x) < 1 else Fraction(int(x)))
    if isinstance(x, list):
        return it.list([abstract(it, v) for v in x])
    if isinstance(x, tuple):
        return tuple(abstract(it, v) for v in x)
    if isinstance(x, dict):
        return it.new(Dict({k: abstract(it, v) for k, v in x.items()}))
    return x


def concrete(it, x):
    x = it.res(x)
    if isinstance(x, Ref):
        c = it.get(x)
        if isinstance(c, List):
            return [concrete(it, v) for v in c.items]
        if isinstance(c, Dict):
            return {concrete(it, k): concrete(it, v) for k, v in c.d.items()}
    if isinstance(x, tuple):
        return tuple(concrete(it, v) for v in x)
    if isinstance(x, Node) and x.op == "num":
        return ("float", Fraction(x.args[0]))
    if isinstance(x, Fraction):
        return ("float", x)
    return x


def spec(x):
    """the same for a Python value"""
    if isinstance(x, float):
        return ("float", None, x)
    if isinstance(x, list):
        return [spec(v) for v in x]
    if isinstance(x, tuple):
        return tuple(spec(v) for v in x)
    return x


def same(g, w):
    if isinstance(w, tuple) and len(w) == 3 and w[0] == "float" and w[1] is None:
        return isinstance(g, tuple) and len(g) == 2 and g[0] == "float" and abs(float(g[1]) - w[2]) <= 1e-12 * abs(w[2])
    if isinstance(w, (list, tuple)):
        return type(g) is type(w) and len(g) == len(w) and all(same(a, b) for a, b in zip(g, w))
    return type(g) is type(w) and g == w


def world(files, argv=("/run/x.py",)):
    it = Interp(REPO)
    v = stubs.install(it, list(argv), "/home/u", list(files))
    for n, s in (("shlex", SHLEX), ("text streams", STREAM)):
        it.load_file(n, f"<stand-in for {n}>", ast.parse(s))
    st = v("text streams")["Stream"]
    log = []

    def opened(i, a, k):
        a = [i.res(x) for x in a]
        p = a[0] if isinstance(a[0], str) else plain(i, a[0])
        if p not in files:
            raise AbsRaise(("FileNotFoundError", p), i.where())
        o = i.call(st, [p, k.get("mode", a[1] if len(a) > 1 else "r"), files[p]], {})
        log.append(o)
        return o
    it.overrides[("ext", "builtins.open")] = opened

    def token(i, a, k):
        A = lambda n: i.res(i.getattr(a[0], n))
        if A("posix") or A("punctuation_chars") or A("whitespace_split"):
            raise Unsupported("lexer mode")
        L = hostshlex.shlex(A("text")[A("pos"):])
        for n in ("commenters", "wordchars", "whitespace", "quotes"):
            setattr(L, n, A(n))
        L.pushback.extend(A("mem")[0])
        L.state = A("mem")[1]
        try:
            t = L.get_token()
        except ValueError as e:
            raise AbsRaise(("ValueError", str(e)), i.where())
        i.setattr(a[0], "mem", (tuple(L.pushback), L.state))
        i.setattr(a[0], "pos", A("pos") + L.instream.tell())
        return t
    v("shlex")["TOKEN"] = it.list([Lam(token)])

    def leval(i, a, k):
        x = i.res(a[0])
        if not isinstance(x, str):
            raise AbsRaise(("ValueError", "malformed node"), i.where())
        try:
            return abstract(i, ast.literal_eval(x))
        except (SyntaxError, ValueError) as e:
            raise AbsRaise((type(e).__name__, str(e)), i.where())
    it.overrides[("ext", "ast.literal_eval")] = leval

    def pmethod(i, a, k):
        f = a[0]
        if not isinstance(f, StaticM):
            raise Unsupported("partial method of a bound function")
        return StaticM(Partial(f.f, list(a[1:]), dict(k)))
    it.overrides[("ext", "functools.partialmethod")] = pmethod
    return it, v, log


SCALARS = [("True", True), ("False", False), ("TRUE", True), ("FALSE", False), ("None", None), ("0", 0), ("8", 8), ("-3", -3), ("1234567", 1234567), ("1.5", 1.5), ("-0.25", -0.25), (".5", .5), ("-.5", -.5), ("2.", 2.0),
           ("1e5", 1e5), ("2E3", 2e3), ("1e-5", 1e-5), ("-1e5", -1e5), ("-2E-3", -2e-3), ("1.5e3", 1.5e3), ("-1.5e-3", -1.5e-3), ("0.0", 0.0), ("12e2", 12e2), ("-12e2", -12e2)]
STRINGS = ["", "a string", "/path/to/some-where", "True", "None", "[1,2]", "(a)", "a (b) [c]", "1.5", "1e5", "-3", "x = y", "50% off", "a,b", "-", "a.b", "a#b", "False alarm", "r[0]", "(0]"]
ELEMS = [("True", True), ("False", False), ("None", None), ("0", 0), ("-7", -7), ("1.5", 1.5), ("-2e3", -2e3), ("'s'", "s"), ('"True"', "True"), ("'None'", "None"), ("'1.5'", "1.5"), ("[1,2]", [1, 2]), ("(1,2.5)", (1, 2.5)), ("[]", [])]


def values():
    yield from SCALARS
    for s in STRINGS:
        yield f"'{s}'", s
        yield f'"{s}"', s
    yield '"it\'s"', "it's"
    yield "'say \"x\" now'", 'say "x" now'
    for o, c, T_ in (("[", "]", list), ("(", ")", tuple)):
        yield o + c, T_()
        for (a, x) in ELEMS:
            yield f"{o}{a}{',' if T_ is tuple else ''}{c}", T_([x])
        for (a, x), (b, y) in itertools.product(ELEMS, ELEMS):
            yield f"{o}{a},{b}{c}", T_([x, y])


def inlists(chk):
    def read(files, path):
        it, v, log = world(files)
        H = getname(it, "inlist_handler", "InlistHandler")
        r = it.call(it.getattr(H, "get_inlist_values"), [path], {})
        chk.saw(it)
        return it, concrete(it, r), log
    P, D = "/proj/user_input/run.in", "/proj/defaults/run.defaults"
    # every kind of value, several per file; the two files are lists of entries in a random-looking but fixed layout
    vals = list(values())
    step = 24
    for k in range(0, len(vals), step):
        part = vals[k:k + step]
        lines = ["% header", "%%%%%", ""]
        for j, (t, _) in enumerate(part):
            if j % 3 == 0:
                lines.append(f"  % comment on key_{j} = 'x' (it s [fine], 3.5)")
            lines.append((f"key_{j} = {t}", f"  key_{j}={t}", f"\tkey_{j}   =   {t}  % trailing [comment] 7")[j % 3])
        text = "\n".join(lines) + "\n"

        def go():
            it, got, log = read({P: text, D: "other = 1\n"}, P)
            ok = isinstance(got, dict)
            if not ok:
                chk.bad("value", f"entries {k}..: read", W, f"{got!r} is not a dictionary")
                return
            for j, (t, x) in enumerate(part):
                g = got.get(f"key_{j}", UNDEF)
                chk.verdict("value", f"{t}", same(g, spec(x)), W, f"reads as {g!r} instead of {x!r}")
            chk.verdict("value", f"entries {k}..: no others", set(got) == {"other", *(f"key_{j}" for j in range(len(part)))}, W, f"{sorted(map(str, set(got)))[:5]}")
            chk.verdict("files", f"entries {k}..: files", all(it.res(it.getattr(o, "open")) is False and it.res(it.getattr(o, "mode")) in ("r", "rt") for o in log), W, "files are left open or opened for writing")
        one = lambda: [chk.guard("value", t, lambda t=t, x=x: single(t, x), W) for t, x in part]

        def single(t, x):
            it, got, log = read({P: f"key = {t}\n", D: ""}, P)
            chk.verdict("value", f"{t}", isinstance(got, dict) and same(got.get("key", UNDEF), spec(x)), W, f"reads as {got!r} instead of {x!r}")
        try:
            go()
        except AbsRaise as e:
            # find the entries it is about
            one()
            chk.bad("value", f"entries {k}..: read", W, f"{e.exc}")
        except Unsupported:
            one()
    # defaults
    cases = [
        ("override", "a = 2\n", "a = 1\nb = 'x'\n", {"a": 2, "b": "x"}),
        ("other type", "a = 'y'\n", "a = 1\n", {"a": "y"}),
        ("new entry", "c = [1,2]\n", "a = 1\n", {"a": 1, "c": [1, 2]}),
        ("empty inlist", "", "a = 1\nb = 2\n", {"a": 1, "b": 2}),
        ("only comments", "% a = 3\n", "a = 1\n", {"a": 1}),
        ("None overrides", "a = None\n", "a = 1\n", {"a": None}),
        ("False overrides", "a = False\n", "a = True\n", {"a": False}),
        ("last one counts", "a = 2\na = 3\n", "a = 1\n", {"a": 3}),
        ("empty defaults", "a = 2\n", "", {"a": 2}),
        ("no final newline", "a = 2\nb = 3", "c = 4", {"a": 2, "b": 3, "c": 4}),
        ("reordered", "b = 2\na = 1\n", "a = 3\nb = 4\n", {"a": 1, "b": 2}),
    ]
    for nm, a, b, want in cases:
        def go():
            it, got, log = read({P: a, D: b}, P)
            chk.verdict("defaults", nm, got == want, W, f"{got!r} instead of {want!r}")
        chk.guard("defaults", nm, go, W)
    for p, d in (("/proj/user_input/run.in", "/proj/defaults/run.defaults"), ("inlists/user/solve.inlist", "inlists/defaults/solve.defaults"), ("/a/b.c/d.e/my.run.in", "/a/b.c/defaults/my.run.defaults"), ("/x/y/z.in", "/x/defaults/z.defaults"),
                 ("../in/user_input/q_1.txt", "../in/defaults/q_1.defaults")):
        def go():
            it, got, log = read({p: "a = 2\n", d: "b = 1\n"}, p)
            o = [it.res(it.getattr(x, "path")) for x in log]
            chk.verdict("files", f"{p}: defaults in {d}", got == {"a": 2, "b": 1} and o == [d, p], W, f"read {o}: {got!r}")
        chk.guard("files", p, go, W)

    def refused(nm, rule, files, p):
        def go():
            try:
                it, got, log = read(files, p)
            except AbsRaise as e:
                chk.ok(rule, nm, W)
                return
            chk.bad(rule, nm, W, f"accepted: {got!r}")
        chk.guard(rule, nm, go, W)
    refused("a path without a place for defaults", "refused", {"run.in": "a = 1\n"}, "run.in")
    refused("no defaults file", "refused", {P: "a = 1\n"}, P)
    refused("no inlist", "refused", {D: "a = 1\n"}, P)
    for t in ("word", "1x", "[1,2", "'open"):
        refused(f"value {t}", "refused", {P: f"a = {t}\n", D: ""}, P)
    # two reads in one process do not share entries
    def twice():
        it, v, log = world({P: "a = 2\n", D: "b = 1\n", "/proj/user_input/two.in": "c = 3\n", "/proj/defaults/two.defaults": "d = 4\n"})
        H = getname(it, "inlist_handler", "InlistHandler")
        f = it.getattr(H, "get_inlist_values")
        r1 = it.call(f, [P], {})
        r2 = concrete(it, it.call(f, ["/proj/user_input/two.in"], {}))
        chk.verdict("defaults", "a second inlist", r2 == {"c": 3, "d": 4} and concrete(it, r1) == {"a": 2, "b": 1}, W, f"{r2!r}")
    chk.guard("defaults", "a second inlist", twice, W)


FOLD = {
    "MESA base folder/directory": "base_dir", "MESA default output folder/directory": "mesa_output_dir", "MESA default profile substrings": "mesa_profile_substrings", "MESA default suffix": "mesa_suffix",
    "GYRE base folder/directory": "gyre_base_dir", "GYRE default output folder/directory": "gyre_output_dir", "GYRE default detail substring": "gyre_detail_substring", "GYRE default summary substring": "gyre_summary_substring",
    "POLYTROPE structure base folder/directory": "poly_base_dir", "POLYTROPE structure default output folder/directory": "poly_struct_dir", "POLYTROPE default structure substrings": "poly_struct_substrings",
    "POLYTROPE default structure suffix": "poly_struct_suffix", "POLYTROPE mode base folder/directory": "poly_mode_base_dir", "POLYTROPE mode default output folder/directory": "poly_mode_dir",
    "POLYTROPE mode default detail substring": "poly_mode_substrings", "POLYTROPE mode default summary substring": "poly_summary_substring"}
LOAD = {"base_dir", "mesa_output_dir", "mesa_profile_substrings", "mesa_suffix", "gyre_detail_substring", "gyre_summary_substring", "gyre_output_dir"}


def folders(chk):
    def read(files, argv=("/run/x.py",), **kw):
        it, v, log = world(files, argv)
        o = it.call(getname(it, "aesolver.read_load_info", "InfoDirHandler"), [it.list(list(argv))], kw)
        it.call(it.getattr(o, "parse_info_directories"), [], {})
        chk.saw(it)
        return it, o, log
    F = "/home/u/data/setup_data/information_folders.dat"
    val = {k: ("('%s_a.x1','b')" % v, (v + "_a.x1", "b")) if "substring" in v and i % 2 else (f"'/dir of/{v}/'", f"/dir of/{v}/") for i, (k, v) in enumerate(FOLD.items())}
    val["MESA default suffix"] = ('"dat"', "dat")
    text = lambda ks: "\n".join(f"# {k}\n{val[k][0]}\n" for k in ks) + "\n"
    perm = [list(FOLD), list(reversed(FOLD)), sorted(FOLD), sorted(FOLD, key=lambda k: k[::-1])]
    for n, ks in enumerate(perm + [["GYRE base folder/directory"], []]):
        def go():
            it, o, log = read({F: text(ks)})
            got = concrete(it, it.getattr(o, "full_info"))
            want = {FOLD[k]: val[k][1] for k in ks}
            for k in ks:
                chk.verdict("folders", f"order {n}: {k}", same(got.get(FOLD[k], UNDEF), want[FOLD[k]]), WF, f"{got.get(FOLD[k])!r} instead of {want[FOLD[k]]!r}")
            chk.verdict("folders", f"order {n}: no others", set(got) == set(want), WF, f"{sorted(set(got) ^ set(want))}")
            li, ci = concrete(it, it.getattr(o, "load_info")), concrete(it, it.getattr(o, "gyre_comparison_info"))
            chk.verdict("selection", f"order {n}: load", li == {k: x for k, x in want.items() if k in LOAD}, WF, f"{sorted(li)}")
            chk.verdict("selection", f"order {n}: comparison", ci == {k: x for k, x in want.items() if k in LOAD - {"gyre_output_dir"}}, WF, f"{sorted(ci)}")
            chk.verdict("files", f"folder file, order {n}", [it.res(it.getattr(x, "path")) for x in log] == [F] and all(it.res(it.getattr(x, "open")) is False and it.res(it.getattr(x, "mode")) in ("r", "rt") for x in log), WF, "another file, or left open")
        chk.guard("folders", f"order {n}", go, WF)

    def where(nm, files, want, argv=("/run/x.py",), **kw):
        def go():
            try:
                it, o, log = read(files, argv, **kw)
            except AbsRaise as e:
                chk.verdict("files", nm, want is None, WF, f"{e.exc}")
                return
            r = [it.res(it.getattr(x, "path")) for x in log]
            chk.verdict("files", nm, want is not None and r == [want], WF, f"{r} instead of {want or 'a refusal'}")
        chk.guard("files", nm, go, WF)
    one = text(["GYRE base folder/directory"])
    where("default place", {F: one}, F)
    where("other directory", {"/home/u/mine/information_folders.dat": one, F: one}, "/home/u/mine/information_folders.dat", alternative_directory_path="mine/")
    where("other name", {"/home/u/data/setup_data/f.dat": one, F: one}, "/home/u/data/setup_data/f.dat", alternative_file_name="f.dat")
    where("both", {"/else/f.dat": one, F: one}, "/else/f.dat", alternative_file_name="f.dat", alternative_directory_path="/else")
    where("two levels above the run script", {"/w/data/setup_data/information_folders.dat": one}, "/w/data/setup_data/information_folders.dat", argv=("/w/a/b/x.py",))
    where("nowhere", {"/w/x.dat": one}, None, argv=("/w/a/b/x.py",))
    where("unknown comment", {F: "# MESA bse folder/directory\n'/x'\n"}, None)
    where("unknown comment after a known one", {F: one + "# something\n'/x'\n"}, None)
    where("unreadable value", {F: "# MESA base folder/directory\n('a',\n"}, None)


def parser(chk):
    w = "util-tools/generic_parser/generic_parser.py"
    D = "/home/u/proj/"
    BODY = {"in/user_input/go.in": "a = 2\nflag = False\n", "in/defaults/go.defaults": "a = 1\nb = (1,'x')\n",
            "inlists/user_input/go.in": "a = 3\nflag = True\n", "inlists/defaults/go.defaults": "a = 4\nb = [2]\n",
            "in/user_input/dir.in/file": "", "in/user_input/other.in": "a = 5\nflag = True\n", "in/defaults/other.defaults": "a = 6\nb = 'y'\n"}
    A = {"a": 2, "b": (1, "x"), "flag": False}
    B = {"a": 3, "b": [2], "flag": True}
    C = {"a": 5, "b": "y", "flag": True}
    M2 = dict(base_dir=D[:-1], inlist_name="go", inlist_dir="in/user_input", inlist_suffix="in")
    M2d = dict(base_dir=D[:-1], inlist_name="go")
    cmdline = ("x.py", "--inlist_name", D + "in/user_input/other.in")

    def made(kw, full, argv):
        it, v, log = world({D + k: b for k, b in BODY.items()}, argv=argv)
        if full is not None:
            kw = dict(kw, full_inlist_path=it.call(v("pathlib")["Path"], [full], {}))
        return it, log, lambda: it.call(getname(it, "generic_parser", "GenericParser"), [], dict(kw, base_directory_name="proj"))

    def go(tag, kw, full, argv, want, used):
        it, log, mk = made(kw, full, argv)
        o = mk()
        L = it.list
        got = concrete(it, it.call(it.getattr(o, "read_in_to_dict"), [L([(k, L([k])) for k in ("a", "b", "flag")])], {}))
        chk.verdict("runs", tag, got == want, w, f"{got!r}")
        neg = concrete(it, it.call(it.getattr(o, "read_in_to_dict"), [L([("p", L(["a"]), False), ("q", L(["flag"]), True)])], {}))
        chk.verdict("runs", f"{tag}: negated switches", neg == {"p": want["a"], "q": not want["flag"]}, w, f"{neg!r}")
        lst = list(concrete(it, it.call(it.getattr(o, "read_in_to_list"), [L([L(["flag"]), L(["b"])])], {})))
        chk.verdict("runs", f"{tag}: as a list", lst == [want["flag"], want["b"]], w, f"{lst!r}")
        lst = list(concrete(it, it.call(it.getattr(o, "read_in_to_list"), [L([(L(["flag"]), True), (L(["a"]), False)])], {})))
        chk.verdict("runs", f"{tag}: as a list, negated switches", lst == [not want["flag"], want["a"]], w, f"{lst!r}")
        path = it.res(it.getattr(o, "inlist_path"))
        chk.verdict("runs", f"{tag}: inlist named", path == D + used, w, f"{path!r}")
        chk.saw(it)
    GO, DEF, OTH = "in/user_input/go.in", "inlists/user_input/go.in", "in/user_input/other.in"
    X = ("x.py",)
    for tag, kw, full, argv, want, used in [
            ("custom inlist of a run", M2, None, X, A, GO), ("default inlist folder", M2d, None, X, B, DEF), ("full inlist path", {}, D + GO, X, A, GO), ("full inlist path, other file", {}, D + OTH, X, C, OTH),
            ("full path preferred over its parts", M2, D + OTH, X, C, OTH), ("unusable full path, usable parts", M2, "/srv/else/go.in", X, A, GO), ("inlist named on the command line", M2, None, cmdline, C, OTH), ("inlist named on the command line, full path", {}, D + GO, cmdline, C, OTH)]:
        chk.guard("runs", tag, lambda: go(tag, kw, full, argv, want, used), w)

    def refused(tag, kw, full):
        it, log, mk = made(kw, full, X)
        try:
            mk()
            how = None
        except AbsRaise as e:
            how = e.exc
        chk.verdict("refused", tag, how is not None, w, "the parser of the run is set up")
        chk.verdict("refused", f"{tag}: nothing read", not log, w, f"{len(log)} files opened")
        chk.saw(it)
    for tag, kw, full in [
            ("missing inlist file", dict(M2, inlist_name="none"), None), ("missing inlist folder", dict(M2, inlist_dir="nowhere"), None), ("inlist is a folder", dict(M2, inlist_name="dir"), None), ("missing inlist file, full path", {}, D + "in/user_input/none.in"), ("neither path nor parts", {}, None), ("full path outside the base folder", {}, "/srv/else/go.in"), ("parts without a name", dict(base_dir=D[:-1]), None)]:
        chk.guard("refused", tag, lambda: refused(tag, kw, full), w)


def run(chk):
    R = chk.rule
    R("value", "each entry of a custom inlist reads as the value and type written, whatever surrounds it")
    R("defaults", "the entries of the defaults file hold unless the inlist gives another value; nothing else is kept between reads")
    R("files", "the files named are the ones read, for reading only, and they are closed")
    R("refused", "unreadable values and missing files are refused")
    R("folders", "each folder entry holds the value under the comment that describes it")
    R("selection", "the loading and comparison selections hold exactly their entries")
    R("runs", "the parser of a run takes its values from the custom inlist")
    inlists(chk)
    folders(chk)
    parser(chk)
    chk.floor = 300
