"""Small Python stand-ins, interpreted like the analysed source, for the library modules a run script touches (file system, command line, process exit)."""
import ast

PATHLIB = '''
FILES = []
CWD = ['/']

def clean(s):
    comps = [c for c in s.split('/') if c != '' and c != '.']
    r = '/'.join(comps)
    if s.startswith('/'):
        return '/' + r
    return r if r != '' else '.'

def collapse(s):
    if not s.startswith('/'):
        s = CWD[0] + '/' + s
    out = []
    for c in clean(s).split('/'):
        if c == '':
            continue
        if c == '..':
            out = out[:-1]
        else:
            out = out + [c]
    return '/' + '/'.join(out)

class Path:
    def __init__(self, *parts):
        s = ''
        for p in parts:
            q = str(p)
            if q.startswith('/') or s == '':
                s = q
            else:
                s = s + '/' + q
        self.s = clean(s)
    @property
    def name(self):
        if self.s == '.' or self.s == '/':
            return ''
        return self.s.split('/')[-1]
    @property
    def suffix(self):
        n = self.name
        i = n.rfind('.')
        if i > 0 and i < len(n) - 1:
            return n[i:]
        return ''
    @property
    def suffixes(self):
        return ['.' + x for x in self.name.lstrip('.').split('.')[1:]]
    @property
    def stem(self):
        n = self.name
        k = len(self.suffix)
        return n[:len(n) - k] if k > 0 else n
    @property
    def parent(self):
        i = self.s.rfind('/')
        if i < 0:
            return Path('.')
        if i == 0:
            return Path('/')
        return Path(self.s[:i])
    @property
    def parents(self):
        out = []
        p = self
        while p.s != '/' and p.s != '.':
            p = p.parent
            out = out + [p]
        return tuple(out)
    @property
    def parts(self):
        return tuple((['/'] if self.s.startswith('/') else []) + [c for c in self.s.split('/') if c != ''])
    def __str__(self):
        return self.s
    def __fspath__(self):
        return self.s
    def as_posix(self):
        return self.s
    def __truediv__(self, o):
        return Path(self.s, o)
    def __rtruediv__(self, o):
        return Path(o, self.s)
    def joinpath(self, *o):
        return Path(self.s, *o)
    def __eq__(self, o):
        return isinstance(o, Path) and self.s == o.s
    def resolve(self, strict=False):
        return Path(collapse(self.s))
    def absolute(self):
        return Path(self.s if self.s.startswith('/') else CWD[0] + '/' + self.s)
    def is_absolute(self):
        return self.s.startswith('/')
    def is_file(self):
        return collapse(self.s) in FILES
    def is_dir(self):
        c = collapse(self.s)
        for f in FILES:
            if f.startswith(c.rstrip('/') + '/'):
                return True
        return False
    def exists(self):
        return self.is_file() or self.is_dir()
    def open(self, mode='r', *a, **k):
        return open(self.s, mode)
    def read_text(self, *a, **k):
        with open(self.s, 'r') as f:
            return f.read()
    def mkdir(self, mode=511, parents=False, exist_ok=False):
        return None
    def relative_to(self, *o):
        b = Path(*o).s
        if self.s == b:
            return Path('.')
        if b == '.':
            return self
        if not self.s.startswith(b.rstrip('/') + '/'):
            raise ValueError('not in the subpath')
        return Path(self.s[len(b.rstrip('/')) + 1:])
    def with_suffix(self, x):
        return Path(str(self.parent), self.stem + x)
    def with_name(self, x):
        return Path(str(self.parent), x)
    @classmethod
    def cwd(cls):
        return Path(CWD[0])

PurePath = Path
PosixPath = Path
'''
OSPATH = '''
from pathlib import collapse, Path

def abspath(p):
    return collapse(str(p))

def realpath(p):
    return collapse(str(p))

def normpath(p):
    return collapse(str(p)) if str(p).startswith('/') else Path(p).s

def dirname(p):
    p = str(p)
    i = p.rfind('/')
    return '' if i < 0 else (p[:i] if i > 0 else '/')

def basename(p):
    return str(p).split('/')[-1]

def join(a, *b):
    r = str(a)
    for x in b:
        x = str(x)
        if x.startswith('/') or r == '':
            r = x
        else:
            r = r.rstrip('/') + '/' + x
    return r

def exists(p):
    return Path(p).exists()

def isfile(p):
    return Path(p).is_file()

def isdir(p):
    return Path(p).is_dir()

def splitext(p):
    p = str(p)
    n = p.split('/')[-1]
    i = n.rfind('.')
    if i <= 0:
        return (p, '')
    k = len(n) - i
    return (p[:len(p) - k], p[len(p) - k:])
'''
OS = '''
import pathlib
import os.path
sep = '/'
linesep = '\\n'

def getcwd():
    return pathlib.CWD[0]

def fspath(p):
    return str(p)

def strerror(n):
    return 'error'

def makedirs(*a, **k):
    return None
'''
SYS = '''
argv = []
path = []
modules = {}

def exit(status=None):
    raise SystemExit(status)
'''
ARGPARSE = '''
import sys

class Namespace:
    def __init__(self, **k):
        for a in k:
            setattr(self, a, k[a])

class Group:
    def __init__(self, parser):
        self.parser = parser
    def add_argument(self, *names, **kw):
        self.parser.specs.append((names, kw))
    def add_argument_group(self, *a, **k):
        return Group(self.parser)
    def add_mutually_exclusive_group(self, *a, **k):
        return Group(self.parser)

class ArgumentParser:
    def __init__(self, *a, **k):
        self.specs = []
    def add_argument_group(self, *a, **k):
        return Group(self)
    def add_mutually_exclusive_group(self, *a, **k):
        return Group(self)
    def add_argument(self, *names, **kw):
        self.specs.append((names, kw))
    def parse(self, args, known):
        argv = sys.argv[1:] if args is None else args
        ns = Namespace()
        rest = []
        table = {}
        for names, kw in self.specs:
            long = [n for n in names if n.startswith('--')]
            dest = kw.get('dest') or (long + list(names))[0].lstrip('-').replace('-', '_')
            act = kw.get('action', 'store')
            d = kw.get('default', False if act == 'store_true' else None)
            setattr(ns, dest, d)
            for n in names:
                table[n] = (dest, act)
        i = 0
        while i < len(argv):
            a = argv[i]
            v = None
            if a.startswith('--') and '=' in a:
                a, _, v = a.partition('=')
            if a in table:
                dest, act = table[a]
                if act == 'store_true':
                    setattr(ns, dest, True)
                elif act == 'store_false':
                    setattr(ns, dest, False)
                else:
                    if v is None:
                        i = i + 1
                        v = argv[i]
                    setattr(ns, dest, v)
            else:
                rest.append(a)
            i = i + 1
        return ns, rest
    def parse_known_args(self, args=None, namespace=None):
        return self.parse(args, True)
    def parse_args(self, args=None, namespace=None):
        return self.parse(args, False)[0]
'''
TOMLLIB = '''
READ = []
TABLE = [None]

class Stream:
    def __init__(self, path, mode):
        self.path = str(path)
        self.mode = mode
        self.open = True
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.open = False
    def close(self):
        self.open = False
    def read(self):
        return self

def load(fp):
    READ.append((fp.path, fp))
    return TABLE[0]()

def loads(s):
    READ.append((s.path, s))
    return TABLE[0]()
'''


def install(it, argv, cwd, files):
    """install the stand-ins in the interpreter and set up the command line and the file system"""
    for n, s in (("pathlib", PATHLIB), ("sys", SYS), ("os.path", OSPATH), ("os", OS), ("argparse", ARGPARSE), ("tomllib", TOMLLIB)):
        it.load_file(n, f"<stand-in for {n}>", ast.parse(s))
    v = lambda m: it.get(it.modules[m].env).vars
    v("os")["path"] = it.modules["os.path"]
    v("sys")["argv"] = it.list(list(argv))
    v("pathlib")["CWD"] = it.list([cwd])
    v("pathlib")["FILES"] = it.list(list(files))
    st = v("tomllib")["Stream"]
    it.overrides[("ext", "builtins.open")] = lambda i, a, k: i.call(st, [a[0], k.get("mode", a[1] if len(a) > 1 else "r")], {})
    return v
