"""Entry points leave what they are given, and the program's own tables, as they were."""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .common import *

EXPL = ("Effect analysis over the abstract heap: every entry-point call that the other checks analyse is repeated with the heap reachable from its arguments, and every container owned by a module, a class or a default "
        "value of the program, compared before and after the call on each path.")
# check whose entry-point calls are followed -> least number of (entry point, argument) pairs it must contribute
SOURCES = {"P01": 1, "P03": 3, "P04": 3, "P05": 3, "P06": 1, "P07": 4, "P08": 2, "P09": 1, "P10": 5, "P11": 4, "P12": 1, "P13": 1, "P14": 1, "P15": 20, "P16": 4, "P20": 3, "P21": 3, "P24": 3, "P25": 2, "P27": 4, "P28": 2}
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def follow(pid):
    fd, out = tempfile.mkstemp(prefix="aestrack", suffix=".json")
    os.close(fd)
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "aeslint.track", pid, out], cwd=ROOT, capture_output=True, text=True, timeout=800, env=dict(os.environ, AES_TRACK="1"))
        with open(out) as f:
            t = f.read()
        return json.loads(t) if t else {"err": (r.stderr or "no result").strip().splitlines()[-1][:200]}
    except subprocess.TimeoutExpired:
        return {"err": "time limit"}
    finally:
        os.unlink(out)


class Seen:
    def __init__(self, s):
        self.functions_seen = {(a, b, int(c) if c.isdigit() else 0) for a, b, c in s}


def run(chk):
    chk.rule("argument unchanged", "every array, list and dictionary handed to an entry point holds after the call, on every path, what it held before, to any depth; documented output arguments excepted")
    chk.rule("own tables unchanged", "no entry point changes a container that belongs to a module, a class or a default value, so no call depends on the calls before it")
    order = sorted(SOURCES, key=lambda p: p not in ("P07", "P15", "P24", "P10", "P08", "P14", "P21"))
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(order, ex.map(follow, order)))
    for pid, floor in SOURCES.items():
        r = res[pid]
        if r.get("calls") is None or r.get("err"):
            chk.undecided("argument unchanged", f"entry points of {pid}", "", str(r.get("err")))
            if r.get("calls") is None:
                continue
        if len(r["calls"]) < floor and not r["muts"]:
            chk.undecided("argument unchanged", f"entry points of {pid}", "", f"only {len(r['calls'])} arguments followed")
        for key, (n, file) in sorted(r["calls"].items()):
            m = r["muts"].get(key)
            chk.verdict("argument unchanged", f"{pid}: {key} ({n} calls)" if m is None else f"{pid}: {key}", m is None, file, m and m[1])
        for name, (file, d) in sorted(r["globs"].items()):
            chk.verdict("own tables unchanged", f"{pid}: {name}", d is None, file, d)
        chk.saw(Seen(r["seen"]))
    chk.floor = 100
