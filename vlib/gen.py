"""Test programs generated from the specification (spec/ChannelGen.tla).

TLC enumerates the states of Channel one thread can bring about by itself, with
a shortest script to each and the calls possible there.  From these come
  scripts: every call in every state (and after every K-1 calls before it),
  pairs:   every two calls of different threads at once, in every state.
"""
import json, os, re, shutil, tempfile, threading
from . import tv

CFG = """SPECIFICATION Spec
CONSTANTS
  Cap = %d
  Kind = "%s"
  K = %d
  SRefs = {%s}
  RRefs = {%s}
  SFuts = {%s}
  RFuts = {%s}
  MaxTx = %d
VIEW view
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
"""
_cache, _lock = {}, threading.Lock()
STATS = []


def q(names):
    return ", ".join('"%s"' % n for n in names)


def states(kind, cap, k, srefs="", rrefs="", sfuts="", rfuts="", maxtx=1):
    """[(script, [calls])]"""
    key = (kind, cap, k, srefs, rrefs, sfuts, rfuts, maxtx)
    with _lock:
        if key in _cache:
            return _cache[key]
        os.makedirs(tv.WORK, exist_ok=True)
        fd, cfg = tempfile.mkstemp(prefix="gen", suffix=".cfg", dir=tv.WORK)
        with os.fdopen(fd, "w") as f:
            f.write(CFG % (cap, kind, k, q(srefs), q(rrefs), q(sfuts), q(rfuts), maxtx))
        try:
            rc, out = tv.tlc("ChannelGen", cfg, workers=1, heap="3g")
        finally:
            os.unlink(cfg)
        st = tv.tlc_stats(out)
        res = []
        for m in re.finditer(r'<<"GEN", "(.*)">>', out):
            d = json.loads(m.group(1).replace('\\"', '"'))
            res.append(([tuple(o) for o in d["p"]], sorted(tuple(o) for o in d["c"])))
        if rc != 0 or st is None or len(res) != st[1]:
            raise tv.ToolError("ChannelGen: rc %s, %d of %s states\n%s" % (rc, len(res), st, out[-2000:]))
        res.sort(key=lambda x: (len(x[0]), x[0]))
        _cache[key] = res
        STATS.append({"name": "ChannelGen %s cap %d K %d" % (kind, cap, k), "states": st[1], "transitions": st[0]})
        return res


BUF = dict(kind="buf", srefs="ab", rrefs="cd")
ASY = dict(kind="asy", srefs="a", rrefs="c", sfuts="fk", rfuts="r", maxtx=2)
ASY3 = dict(kind="asy", srefs="", rrefs="c", sfuts="fkl", rfuts="", maxtx=1)
BLK = dict(kind="asy", srefs="ab", rrefs="cd", maxtx=2)


def pick(rng, xs, n):
    if n is None or len(xs) <= n:
        return xs
    return rng.sample(xs, n)


def watch(kind, s):
    """look at the queue after every call"""
    out = []
    for o in s:
        out.append(o)
        out += [("len",), ("isempty",), ("remaining",)] if kind == "buf" else [("isc",)]
    return out


def scripts(b, rng, what, fls, cap, k, n=None, faults=None, **kw):
    all_ = set()
    for p, cs in states(cap=cap, k=k, **what):
        for c in cs:
            all_.add(tuple(p) + (c,))
    # a script which is the beginning of another one adds nothing
    pre = {s[:-1] for s in all_}
    todo = sorted(s for s in all_ if s not in pre)
    for fl in fls:
        for s in pick(rng, todo, n):
            if fl[0] == "b":
                s = [timed(rng, o) for o in s]
            kw1 = dict(kw)
            if fl in ("tb", "ts", "ad", "bd"):
                kw1.setdefault("pol", not faults)
            if faults:
                kw1["faults"] = faults(rng)
            b.add(fl, cap, [], watch(what["kind"], s), budget=0, execs=1, rand=0, cap_uniq=2, seqq=True, td=rng.choice(["tx", "rx"]), **kw1)


def timed(rng, o):
    """the same with a timeout of zero"""
    t = {"try": ("sendt", "#", 0), "get": ("recvt", 0)}
    if rng.random() < 0.3:
        if o[0] in t:
            return t[o[0]]
        if o[0] == "tryr":
            return ("sendrt", o[1], 0)
        if o[0] == "getr":
            return ("recvrt", o[1], 0)
    return o


RXH = {"get", "getr", "drx", "frecv", "popw"}
LOCAL = {"fsend", "frecv"}  # only makes an object
OWNED = {"relp", "relc", "poll", "drop"}


def more(rng, x, calls):
    """sometimes a second call of the same thread"""
    o = x[0]
    if o == "poll" and rng.random() < 0.5:
        return [x, rng.choice([x, ("drop", x[1])])]
    if o == "tryr" and rng.random() < 0.7:
        return [x, ("relp", x[1], "#")]
    if o == "getr" and rng.random() < 0.7:
        return [x, ("relc", x[1])]
    if o in ("try", "get") and rng.random() < 0.4:
        return [x, x]
    return [x]


def programs(what, cap):
    """every pair of calls of two threads in every state"""
    out = []
    for p, cs in states(cap=cap, k=0, **what):
        cs = [c for c in cs if c[0] not in LOCAL]
        for i, x in enumerate(cs):
            for y in cs[i:]:
                if what["kind"] != "buf" and x[0] in RXH and y[0] in RXH:
                    continue
                if len(x) > 1 and len(y) > 1 and x[1] == y[1] and x[1] != "#":
                    continue
                if {x[0], y[0]} <= {"dtx"} and x == y:
                    continue
                out.append((p, x, y))
    return out


OBS = [("len",), ("isempty",), ("remaining",)]


def pairs(b, rng, what, fls, cap, n=None, has=None, obs=False, faults=None, **kw):
    if obs:
        todo = [(p, x, y) for p, cs in states(cap=cap, k=0, **what) for x in cs if x[0] not in LOCAL for y in OBS]
    else:
        todo = programs(what, cap)
    if has:
        todo = [(p, x, y) for p, x, y in todo if has(x) or has(y)]
    for fl in fls:
        for p, x, y in pick(rng, todo, n):
            th = [[x], [y]]
            if rng.random() < 0.6:
                th = [more(rng, x, None), more(rng, y, None)]
            names = {o[1]: i + 1 for i, t in enumerate(th) for o in t if o[0] in OWNED}
            # whoever has futures or references keeps the handle they borrow alive
            mk = any(o[0] in ("fsend", "tryr") for o in p) or rng.random() < 0.2
            kw1 = dict(budget=3, execs=400, rand=60, cap_uniq=4)
            kw1.update(kw)
            if kw.get("freeze") and rng.random() < 0.5:
                th = th[::-1]
                names = {n: 3 - i for n, i in names.items()}
            if faults:
                kw1["faults"] = faults(rng)
            b.add(fl, cap, th, p, own=names, mk=mk, seqq=True, drain=rng.random() < 0.5, td=rng.choice(["tx", "rx"]), **kw1)


def calls(*names):
    return lambda x: x[0] in names


def on(*objs):
    return lambda x: len(x) > 1 and x[1] in objs
