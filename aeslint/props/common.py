from __future__ import annotations
from .. import terms as T
from ..terms import Node, N, num, fn, sym, sqrt, diff, equal, show, PI, I
from ..interp import (Interp, Ref, List, Dict, Obj, Arr, Guarded, Func, Bound, ClassVal, ModuleVal, Ext, Partial, Choice, SliceV, Lam,
                      Unsupported, AbsRaise, UNDEF, NOTIMPL, conc)
from ..framework import Check, REPO


def getmod(it, name):
    m = it.module(name)
    if m is None:
        raise Unsupported("module not found: " + name)
    return m


def getname(it, mod, name):
    v = it.get(getmod(it, mod).env).vars.get(name, UNDEF)
    if v is UNDEF:
        raise Unsupported(f"{mod}.{name} not found")
    return v


def unk(n):
    """does the term contain leaves the analysis could not resolve?"""
    return [s.args[0] for s in T.syms_of(n) if s.args[0].startswith("unk:")]


class Entries(dict):
    """the entries of a result; a missing one counts as no value"""

    def __missing__(self, k):
        return None


def check_eq(chk, rule, inst, got, want, where="", over=None, kinds=None, rounds=4, fnhook=None, it=None):
    """obligation: term `got` (from the source) equals `want` (specification)."""
    if it is not None:
        got = it.res(got)
    if isinstance(got, Ref) and it is not None and isinstance(it.get(got), Arr) and len(it.get(got).data) == 1:
        got = it.get(got).data[0]
    if isinstance(got, bool) or isinstance(want, bool) or (isinstance(want, Node) and T.isboolterm(want)):
        got = T.asterm(got) if isinstance(got, (bool,)) else got
        want = T.asterm(want) if isinstance(want, bool) else want
    if not T.isnum(got):
        if got is None or isinstance(got, (str, tuple, Func, Bound, ClassVal, ModuleVal, Partial)) or (isinstance(got, Ref) and it is not None and isinstance(it.get(got), (Dict, List, Arr, Func, Bound, ClassVal))):
            chk.bad(rule, inst, where, f"value is {got!r}, expected {show(N(want))[:200]}")
        else:
            chk.undecided(rule, inst, where, f"non-numeric value {got!r}")
        return False
    g, w = (T.asterm(got), T.asterm(want))
    u = unk(g) or sorted(f for f in T.fns_of(g) - T.fns_of(w) if f == "call" or f.startswith("call:"))
    if u:
        chk.undecided(rule, inst, where, "unresolved leaves " + ", ".join(u[:3]))
        return None
    if T.isboolterm(w) and T.cond_atoms(w)[0] and not T.outcomes(w, max(rounds, 8), over, kinds, fnhook) >= {True, False}:
        chk.undecided(rule, inst, where, "the sampled interpretations reach only one outcome of the condition")
        return None
    e = equal(g, w, rounds=rounds, over=over, kinds=kinds, fnhook=fnhook)
    if e:
        chk.ok(rule, inst, where)
    else:
        chk.bad(rule, inst, where, f"computed term {show(g, 7)[:300]} differs from required {show(w, 7)[:300]}")
    return e
