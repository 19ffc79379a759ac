"""Scenarios: small multi-threaded programs over the public API.

Each scenario is explored by the harness (every interleaving within a bound on
the number of deviations, plus random ones).  Values sent are unique within a
scenario, so that the specification can tell the messages apart.
"""
import random

BUF = ["tb", "tbd", "ts", "tsd"]
ASY = ["ad", "add", "as"]
BLK = ["bd", "bdd", "bs"]
# microseconds
FOREVER = 1000000000
DUR = [10250, 20500, 30750, 20500, 10250, 700, 0]
POLFL = ["tb", "ts", "ad", "bd"]


class B:
    """Collects scenarios with increasing ids and fresh values."""

    def __init__(self, prefix, execs=3000, rand=1000):
        self.out = []
        self.prefix = prefix
        self.execs, self.rand = execs, rand

    def add(self, fl, cap, th=(), pre=(), post=(), **kw):
        n = [0]

        def val(o):
            o = list(o)
            for k in range(1, len(o)):
                if o[k] == "#":
                    n[0] += 1
                    o[k] = n[0]
                elif isinstance(o[k], (tuple, list)):
                    o[k] = val(o[k])
            return o

        sc = {
            "id": "%s%03d-%s-c%d" % (self.prefix, len(self.out), fl, cap),
            "fl": fl,
            "cap": cap,
            "pre": [val(o) for o in pre],
            "th": [[val(o) for o in t] for t in th],
            "post": [val(o) for o in post],
            "budget": kw.pop("budget", 3),
            "execs": kw.pop("execs", self.execs),
            "rand": kw.pop("rand", self.rand),
        }
        sc.update(kw)
        self.out.append(sc)
        return sc


def fill(n):
    return [("try", "#") for _ in range(n)]


def laps(n):
    """n messages through the queue, so that it starts somewhere inside a lap"""
    out = []
    for _ in range(n):
        out += [("try", "#"), ("get",)]
    return out


P1 = {"v": [("try", "#")], "r": [("tryr", "h"), ("relp", "h", "#")], "w": [("pushw", "#")]}
C1 = {"v": [("get",)], "r": [("getr", "g"), ("relc", "g")], "w": [("popw",)]}


def rep(x, n):
    return [o for _ in range(n) for o in x]


# --------------------------------------------------------------------------
# curated families
# --------------------------------------------------------------------------
def mpmc(b, fls=("tb", "ts"), caps=(1, 2, 3), kinds=("v", "r"), drain=True, **kw):
    """ThingBuf: producers and consumers in every small arrangement"""
    post = [("getall",)] if drain else []
    for fl in fls:
        for cap in caps:
            for k in kinds:
                P, C = P1[k], C1[k]
                b.add(fl, cap, [P, P, C], fill(0), post, **kw)
                b.add(fl, cap, [P, C, C], fill(cap), post, **kw)
                b.add(fl, cap, [P + P, C + C], laps(cap - 1) + fill(1), post, **kw)
                b.add(fl, cap, [P + C, P + C], laps(1), post, **kw)
                if cap <= 2:
                    b.add(fl, cap, [P + C, P + C, P + C], fill(cap - 1), post, **kw)
                    b.add(fl, cap, [P, P, C, C], laps(cap) + fill(cap - 1), post, **kw)


def heldrefs(b, fls=("tb", "ts"), caps=(1, 2, 3), **kw):
    """references held across other operations, released in any order"""
    for fl in fls:
        for cap in caps:
            post = [("getall",)]
            b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#")], [("try", "#"), ("get",)], [("get",)]], post=post, **kw)
            b.add(fl, cap, [[("getr", "h"), ("relc", "h")], [("try", "#"), ("try", "#")], [("get",)]], pre=fill(cap), post=post, **kw)
            if cap > 1:
                b.add(fl, cap, [[("tryr", "a"), ("tryr", "b"), ("relp", "b", "#"), ("relp", "a", "#")], [("get",), ("get",)]], post=post, **kw)
                b.add(fl, cap, [[("getr", "a"), ("getr", "b"), ("relc", "b"), ("relc", "a")], [("try", "#"), ("try", "#")]], pre=fill(cap), post=post, **kw)
                b.add(fl, cap, [[("getr", "a")], [("getr", "b"), ("relc", "b")], [("try", "#"), ("try", "#"), ("try", "#")]], pre=fill(2), post=post, **kw)


def mpsc_try(b, fls=("ad", "bd"), caps=(1, 2), kinds=("v", "r"), **kw):
    for fl in fls:
        for cap in caps:
            for k in kinds:
                P, C = P1[k], C1[k]
                b.add(fl, cap, [P + P, P, C + C], post=[("getall",)], **kw)
                b.add(fl, cap, [P, P, C + C], laps(cap) + fill(cap), post=[("getall",)], **kw)


def waits(b, fls=("ad", "bd"), caps=(1, 2), **kw):
    """senders and receiver waiting for each other"""
    for fl in fls:
        for cap in caps:
            b.add(fl, cap, [[("send", "#"), ("send", "#")], [("recv",), ("recv",)]], **kw)
            b.add(fl, cap, [[("send", "#")], [("send", "#")], [("recvall",)]], pre=fill(cap), **kw)
            b.add(fl, cap, [[("send", "#"), ("send", "#")], [("send", "#")], [("recv",), ("recv",)]], pre=fill(cap - 1), **kw)
            b.add(fl, cap, [[("try", "#"), ("try", "#")], [("recv",)], [("send", "#")]], mk=True, **kw)
            b.add(fl, cap, [[("sendr", "h"), ("relp", "h", "#")], [("send", "#")], [("recvr", "g"), ("relc", "g"), ("recv",)]], pre=fill(cap - 1), **kw)
            b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#")], [("recv",)]], mk=True, **kw)
            b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#")], [("try", "#")], [("recv",), ("recv",)]], mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("getr", "g"), ("relc", "g")]], pre=fill(cap), mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("get",), ("get",)]], pre=fill(cap), mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("send", "#")], [("get",), ("get",)]], pre=fill(cap), mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("send", "#")], [("get",)], ], pre=fill(cap), post=[("recv",)] * (cap + 1), **kw)
            b.add(fl, cap, [[("send", "#"), ("send", "#"), ("send", "#")], [("recvrall",)]], **kw)
            b.add(fl, cap, [[("send", "#")], [("send", "#")], [("send", "#")], [("recvall", cap + 2)]], pre=fill(cap), mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("try", "#")], [("get",), ("sync",), ("get",)]], pre=fill(cap), mk=True, **kw)


def overtaking(b, fls=("ad", "as"), caps=(1, 2), n=12, **kw):
    """a send which waits while others come and go"""
    for fl in fls:
        for cap in caps:
            for held in (0, 1, 2):
                o = [("fsend", "f", "#"), ("poll", "f")]
                o += [x for h in range(held) for x in (("fsend", "h%d" % h, "#"), ("poll", "h%d" % h))]
                for k in range(n):
                    f = "k%d" % k
                    o += [("fsend", f, "#"), ("poll", f), ("get",), ("poll", f)]
                b.add(fl, cap, pre=fill(cap) + o, mk=True, **kw)
                b.add(fl, cap, [o], pre=fill(cap), mk=True, execs=20, rand=20, **kw)
                # one which comes back after each of its turns
                o = [("fsendr", "f", "g"), ("poll", "f")]
                for k in range(n):
                    f, r = "k%d" % k, "r%d" % k
                    o += [("fsendr", f, r), ("poll", f), ("getr", "x"), ("relc", "x"), ("poll", f), ("relp", r, "#")]
                b.add(fl, cap, [o], pre=fill(cap), mk=True, execs=20, rand=20, **kw)


def sharedrx(b, fls=("ad", "as", "bd", "bs"), caps=(1, 2), **kw):
    """a receiver used by reference from several threads (one of them waiting)"""
    for fl in fls:
        for cap in caps:
            G, GR = [("get",)], [("getr", "g"), ("relc", "g")]
            k = dict(kw, shrx=True, mk=True, td="tx")
            b.add(fl, cap, [G, G, [("try", "#")]], pre=fill(cap), **k)
            b.add(fl, cap, [G + G, GR, [("try", "#")]], pre=laps(cap) + fill(cap), **k)
            b.add(fl, cap, [GR, GR, [("send", "#")]], pre=fill(cap), **k)
            b.add(fl, cap, [G + [("try", "#")], GR + [("try", "#")], G], pre=fill(cap), post=[("getall",)], **k)
            b.add(fl, cap, [[("recv",)], G, [("try", "#"), ("try", "#")]], **k)
            b.add(fl, cap, [[("recv",)], GR, [("send", "#")]], pre=fill(1), **k)
            b.add(fl, cap, [[("recvr", "h"), ("relc", "h")], G + G, [("send", "#"), ("send", "#")]], pre=fill(cap), **k)
            b.add(fl, cap, [[("isc",)], G, GR, [("try", "#"), ("dtx",)]], pre=fill(1), **dict(k, mk=False))
            b.add(fl, cap, [[("recv",), ("isc",)], G, [("try", "#"), ("dtx",)]], **dict(k, mk=False))


def tworx(b, fls=("ad", "as", "bd", "bs"), **kw):
    """several threads wait in the same receiver: not its purpose (only one of
    them is woken), but safe code, so it must not corrupt anything"""
    for fl in fls:
        k = dict(kw, shrx=True, mk=True, td="tx", memonly=True, weak=1)
        b.add(fl, 1, [[("recv",)], [("recv",)], [("try", "#"), ("try", "#")]], **k)
        b.add(fl, 1, [[("recv",)], [("recv",)], [("send", "#"), ("send", "#"), ("send", "#")]], **k)
        b.add(fl, 1, [[("recvr", "g"), ("relc", "g")], [("recv",)], [("recv",)], [("send", "#"), ("send", "#"), ("send", "#")]], **k)
        b.add(fl, 1, [[("recv",)], [("recv",)], [("try", "#"), ("dtx",)]], **dict(k, mk=False))


def closing(b, fls=("ad", "bd"), caps=(1, 2), panics=True, **kw):
    for fl in fls:
        for cap in caps:
            for d in ("dtx", "pdtx") if panics else ("dtx",):
                b.add(fl, cap, [[(d,)], [("recv",), ("recv",)]], pre=fill(1), **kw)
                b.add(fl, cap, [[("try", "#"), (d,)], [("recvall",)]], **kw)
                b.add(fl, cap, [[("send", "#"), (d,)], [("try", "#"), ("dtx",)], [("recvall",)]], **kw)
                b.add(fl, cap, [[(d,)], [("dtx",)], [("get",), ("recv",), ("get",)]], pre=fill(1), **kw)
                b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#"), (d,)], [("get",), ("recvall",)]], **kw)
                b.add(fl, cap, [[(d,)], [("recvr", "g"), ("relc", "g"), ("recvr", "g"), ("relc", "g")]], pre=fill(1), **kw)
                b.add(fl, cap, [[("clone",), (d,), ("try", "#"), ("dtx",)], [("recvall",), ("isc",)]], **kw)
            for d in ("drx", "pdrx") if panics else ("drx",):
                b.add(fl, cap, [[("send", "#"), ("try", "#")], [(d,)]], pre=fill(cap), **kw)
                b.add(fl, cap, [[("send", "#")], [("send", "#")], [(d,)]], pre=fill(cap), **kw)
                b.add(fl, cap, [[("send", "#")], [("send", "#")], [("get",), (d,)]], pre=fill(cap), **kw)
                b.add(fl, cap, [[("try", "#"), ("send", "#")], [("get",), (d,)]], **kw)
                b.add(fl, cap, [[("sendr", "h"), ("relp", "h", "#"), ("tryr", "k"), ("relp", "k", "#")], [(d,)]], pre=fill(cap), **kw)
                b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#"), ("send", "#")], [("recv",), (d,)]], **kw)
                b.add(fl, cap, [[("clone",), ("dtx",), ("send", "#")], [("dtx",)], [(d,)]], pre=fill(cap), **kw)
            b.add(fl, cap, [], fill(cap) + [("drx",), ("try", "#"), ("tryr", "h"), ("send", "#"), ("sendr", "k")], **kw)
            b.add(fl, cap, [], fill(cap) + [("dtx",)] + [("get",)] * cap + [("get",), ("recv",), ("recvr", "g"), ("getr", "k"), ("get",)], **kw)


def cancels(b, fls=("ad",), caps=(1, 2), **kw):
    """futures dropped after any number of polls"""
    for fl in fls:
        for cap in caps:
            F = [("fsend", "f", "#"), ("poll", "f")]
            FR = [("fsendr", "f", "h"), ("poll", "f")]
            D = [("drop", "f")]
            PF = [("poll", "f")]
            S = [("sync",)]
            pf = fill(cap)
            b.add(fl, cap, [F + D, [("send", "#")], [("get",), ("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + S + D, [("send", "#")], [("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [FR + S + D, [("send", "#")], [("getr", "g"), ("relc", "g")]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + PF + D + [("try", "#")], [("get",), ("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + [("fsend", "k", "#"), ("poll", "k")] + D + S + [("poll", "k")], [("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + [("fsend", "k", "#"), ("poll", "k"), ("drop", "k")] + S + PF, [("get",), ("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + D, F + D, [("send", "#")], [("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [F + D, [("drx",)]], pre=pf, **kw)
            b.add(fl, cap, [F + D, [("send", "#")], [("drx",)]], pre=pf, **kw)
            b.add(fl, cap, [F + S + PF + PF, [("send", "#")], [("get",), ("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [FR + [("drop", "f"), ("fsendr", "f", "h"), ("poll", "f"), ("drop", "f")], [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
            # receives
            b.add(fl, cap, [[("frecv", "f"), ("poll", "f"), ("drop", "f"), ("recv",)], [("try", "#")]], mk=True, **kw)
            b.add(fl, cap, [[("frecv", "f"), ("poll", "f"), ("sync",), ("drop", "f"), ("get",)], [("try", "#")]], mk=True, **kw)
            b.add(fl, cap, [[("frecvr", "f", "g"), ("poll", "f"), ("drop", "f"), ("recvr", "k"), ("relc", "k")], [("send", "#")]], mk=True, **kw)
            b.add(fl, cap, [[("frecv", "f"), ("poll", "f"), ("drop", "f")], [("try", "#"), ("dtx",)]], post=[("getall",)], **kw)
            b.add(fl, cap, [[("frecv", "f"), ("drop", "f"), ("get",)], [("try", "#")]], mk=True, **kw)
            b.add(fl, cap, [[("fsend", "f", "#"), ("drop", "f"), ("try", "#")], [("get",), ("get",)]], mk=True, **kw)


def wakers(b, fls=("ad",), caps=(1, 2), **kw):
    """futures polled with changing wakers; poll functions"""
    for fl in fls:
        for cap in caps:
            pf = fill(cap)
            for w1, w2 in (("", ""), ("w", "w"), ("w", "x")):
                b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f", w1), ("poll", "f", w2)], [("get",)]], pre=pf, mk=True, **kw)
                b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f", w1), ("poll", "f", w2), ("sync",), ("poll", "f")], [("send", "#")], [("get",), ("get",)]], pre=pf, mk=True, **kw)
                b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f", w1), ("poll", "f", w2)], [("drx",)]], pre=pf, **kw)
                b.add(fl, cap, [[("frecv", "f"), ("poll", "f", w1), ("poll", "f", w2)], [("try", "#")]], mk=True, **kw)
                b.add(fl, cap, [[("prx", w1), ("prx", w2), ("sync",), ("prx", w1)], [("try", "#")]], mk=True, **kw)
                b.add(fl, cap, [[("prxr", "g", w1), ("prxr", "g", w2)], [("tryr", "h"), ("relp", "h", "#")]], mk=True, **kw)
                b.add(fl, cap, [[("prx", w1), ("prx", w2)], [("dtx",)]], **kw)
                b.add(fl, cap, [[("frecv", "f"), ("poll", "f", w1), ("poll", "f", w2), ("drop", "f"), ("prx", w2)], [("send", "#"), ("dtx",)]], **kw)
                b.add(fl, cap, [[("frecv", "f"), ("poll", "f", w1), ("drop", "f"), ("prx", w2), ("prx", w1)], [("try", "#")]], mk=True, **kw)
                b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f", w1)], [("fsend", "k", "#"), ("poll", "k", w1), ("poll", "k", w2)], [("get",), ("get",)]], pre=pf, mk=True, **kw)
            b.add(fl, cap, [[("send", "#")], [("recv",)]], wk="same", **kw)
            b.add(fl, cap, [[("send", "#")], [("send", "#")], [("recvall",)]], pre=pf, wk="same", **kw)


def timeouts(b, fls=("bd",), caps=(1, 2), **kw):
    for fl in fls:
        for cap in caps:
            pf = fill(cap)
            for sp in (False, True):
                k = dict(kw, spurious=sp)
                b.add(fl, cap, [[("sendt", "#", 20500), ("try", "#")], [("get",), ("get",)]], pre=pf, mk=True, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)], [("sendt", "#", 30250)], [("get",)]], pre=pf, mk=True, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)], [("send", "#")], [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("sendrt", "h", 20500), ("relp", "h", "#")], [("try", "#")], [("get",)]], pre=pf, mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("sendt", "#", 20500), ("sendt", "#", 20500)], [("get",)]], pre=pf, mk=True, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)], [("drx",)]], pre=pf, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)], [("send", "#")], [("drx",)]], pre=pf, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)], [("try", "#"), ("try", "#")], [("get",), ("get",), ("get",)]], pre=pf, mk=True, **k)
                b.add(fl, cap, [[("recvt", 20500)], [("try", "#")]], mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("recvt", 20500), ("recvt", 20500)], [("try", "#")], [("try", "#")]], mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("recvrt", "g", 20500), ("relc", "g"), ("recvt", 10750)], [("send", "#")]], mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("recvt", 20500)], [("dtx",)]], **k)
                b.add(fl, cap, [[("recvt", 20500)], [("tryr", "h"), ("relp", "h", "#"), ("dtx",)]], post=[("getall",)], **k)
                b.add(fl, cap, [[("recvt", 20500), ("recvt", 30250)], [("sendt", "#", 15125), ("sendt", "#", 15125)]], pre=pf, mk=True, post=[("getall",)], **k)
                b.add(fl, cap, [[("recvt", 20500)]], mk=True, **k)
                b.add(fl, cap, [[("sendt", "#", 20500)]], pre=pf, mk=True, **k)
            for d in (0, 300, FOREVER):
                b.add(fl, cap, [[("sendt", "#", d), ("sendrt", "h", d), ("relp", "h", "#")], [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                b.add(fl, cap, [[("recvt", d), ("recvrt", "g", d), ("relc", "g")], [("try", "#"), ("send", "#")]], mk=True, post=[("getall",)], **kw)
                b.add(fl, cap, [[("sendt", "#", d)], [("get",), ("drx",)]], pre=pf, **kw)
                b.add(fl, cap, [[("recvt", d), ("recvt", d)], [("try", "#"), ("dtx",)]], **kw)


def teardown(b, fls=("tb", "ts", "ad", "bd"), caps=(1, 2, 3, 4), **kw):
    """whatever is left in the queue when everything goes away"""
    for fl in fls:
        ch = fl[0] in "ab"
        for cap in caps:
            for td in ("tx", "rx"):
                for n in range(cap + 1):
                    b.add(fl, cap, [], fill(n), td=td, **kw)
                    b.add(fl, cap, [], laps(cap - 1) + fill(n), td=td, **kw)
                b.add(fl, cap, [], laps(cap + 1) + fill(1), td=td, **kw)
                b.add(fl, cap, [[("tryr", "h")], [("try", "#")]], td=td, **kw)
                b.add(fl, cap, [[("getr", "h")], [("try", "#")]], pre=fill(cap), td=td, **kw)
                b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#"), ("try", "#")], [("get",)]], td=td, **kw)
                if ch:
                    b.add(fl, cap, [[("try", "#"), ("dtx",)], [("get",), ("drx",)]], td=td, **kw)
                    b.add(fl, cap, [[("send", "#"), ("dtx",)], [("dtx",)], [("drx",)]], td=td, **kw)
                if fl[0] == "a":
                    b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f")], [("get",)]], pre=fill(cap), mk=True, td=td, **kw)
                    b.add(fl, cap, [[("frecv", "f"), ("poll", "f")], [("try", "#")]], mk=True, td=td, **kw)
                    b.add(fl, cap, [[("fsend", "f", "#"), ("fsend", "k", "#"), ("poll", "k")]], pre=fill(cap), mk=True, td=td, **kw)
                if not ch:
                    break


def unsplit(b, fls=("as", "bs"), caps=(1, 2, 3), **kw):
    for fl in fls:
        for cap in caps:
            b.add(fl, cap, [], rawsplit=True, **kw)
            b.add(fl, cap, [[("split",)], [("split",)]], rawsplit=True, **kw)
            b.add(fl, cap, [[("split",), ("try", "#"), ("get",)], [("split",), ("split",)], [("split",)]], rawsplit=True, **kw)


def policy(b, fls=("tb", "ts"), caps=(1, 2, 3), **kw):
    """element identities and policy calls are checked (single users at a time where calls overlap)"""
    for fl in fls:
        for cap in caps:
            P = [P1[k] for k in ("v", "r")] + ([P1["w"]] if fl[0] == "t" else [])
            C = [C1[k] for k in ("v", "r")] + ([C1["w"]] if fl[0] == "t" else [])
            kw2 = dict(kw, pol=True)
            for p in P:
                for c in C:
                    b.add(fl, cap, [], rep(p + c, 2 * cap + 1), **kw2)
                    b.add(fl, cap, [p + p, c + c], post=[("getall",)], **kw2)
                    b.add(fl, cap, [p, p, c], pre=rep(p, cap - 1), post=rep(c, cap), **kw2)
            for p in P:
                b.add(fl, cap, [], rep(p, cap) + rep(C1["r"], cap) + rep(p, cap) + rep(C1["v"], cap) + rep(p, cap), **kw2)
            # refused attempts must not touch elements
            b.add(fl, cap, [[("try", "#"), ("tryr", "h"), ("relp", "h", "#")], [("get",), ("get",)]], pre=fill(cap), post=[("getall",)], **kw2)


def lens(b, fls=("tb", "ts", "tbd", "tsd"), caps=(1, 2, 3), **kw):
    L = [("len",), ("isempty",), ("remaining",), ("capacity",)]
    for fl in fls:
        for cap in caps:
            seq = list(L)
            for k in range(cap + 1):
                seq += [("try", "#")] + L
            for k in range(cap + 1):
                seq += [("get",)] + L
            b.add(fl, cap, [], seq + seq, **kw)
            b.add(fl, cap, [], L + [("tryr", "h")] + L + [("try", "#")] + L + [("relp", "h", "#")] + L + [("getr", "g")] + L + [("try", "#")] + L + [("relc", "g")] + L + [("getall",)] + L, **kw)
            b.add(fl, cap, [[("try", "#"), ("get",)], [("len",), ("len",)]], pre=laps(cap - 1), **kw)
            b.add(fl, cap, [[("try", "#"), ("try", "#")], [("get",), ("get",)], [("len",), ("remaining",)]], pre=fill(1), **kw)
            b.add(fl, cap, [[("get",), ("try", "#"), ("get",)], [("isempty",), ("remaining",)]], pre=laps(1) + fill(cap), **kw)
            b.add(fl, cap, [[("get",), ("get",), ("get",)], [("len",), ("isempty",)]], pre=laps(cap) + fill(cap), **kw)
            b.add(fl, cap, [[("try", "#"), ("try", "#"), ("try", "#")], [("len",), ("remaining",)]], pre=laps(2 * cap - 1), **kw)
            b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#")], [("getr", "g"), ("relc", "g")], [("len",), ("isempty",)]], pre=laps(cap - 1), **kw)


def counting(b, fls=("ad", "bd"), caps=(1, 2), **kw):
    for fl in fls:
        for cap in caps:
            b.add(fl, cap, [[("dtx",)], [("isc",), ("isc",)]], mk=True, **kw)
            b.add(fl, cap, [[("dtx",)], [("dtx",)], [("isc",), ("isc",), ("isc",)]], **kw)
            b.add(fl, cap, [[("clone",), ("dtx",), ("dtx",)], [("isc",), ("get",), ("isc",)]], **kw)
            b.add(fl, cap, [[("clone",), ("dtx",), ("dtx",)], [("clone",), ("dtx",), ("dtx",)], [("isc",), ("recv",), ("isc",)]], **kw)
            b.add(fl, cap, [[("clone",), ("dtx",), ("try", "#"), ("dtx",)], [("dtx",)], [("recvall",), ("isc",)]], **kw)
            b.add(fl, cap, [[("clone",), ("clone",), ("dtx",), ("dtx",), ("dtx",)], [("isc",), ("recvall",), ("isc",)]], **kw)
            b.add(fl, cap, [], [("isc",), ("clone",), ("isc",), ("dtx",), ("isc",), ("clone",), ("clone",), ("dtx",), ("dtx",), ("isc",), ("get",), ("try", "#"), ("dtx",), ("isc",), ("get",), ("get",), ("isc",)], **kw)
            b.add(fl, cap, [[("pdtx",)], [("clone",), ("pdtx",), ("dtx",)], [("isc",), ("recv",), ("isc",)]], **kw)
            b.add(fl, cap, [[("dtx",)], [("send", "#")], [("isc",), ("recvall",), ("isc",)]], pre=fill(1), **kw)


def freezes(b, fls=("tb", "ts", "ad", "bd"), caps=(1, 2), **kw):
    """one thread stops for good somewhere inside an operation"""
    for fl in fls:
        buf = fl[0] == "t"
        for cap in caps:
            ks = ("v", "r", "w") if buf else ("v", "r")
            for k in ks:
                P, C = P1[k], C1[k]
                if buf:
                    b.add(fl, cap, [P + C, [("try", "#"), ("get",), ("try", "#"), ("get",), ("len",)]], freeze=1, **kw)
                    b.add(fl, cap, [P, [("try", "#"), ("get",)], [("get",), ("try", "#")]], freeze=1, **kw)
                    b.add(fl, cap, [C + P, [("try", "#"), ("get",), ("try", "#"), ("get",)]], pre=fill(cap), freeze=1, **kw)
                    b.add(fl, cap, [C, [("get",), ("try", "#"), ("get",), ("isempty",)]], pre=laps(cap) + fill(cap), freeze=1, **kw)
                else:
                    b.add(fl, cap, [P, [("try", "#"), ("try", "#")], [("get",), ("get",), ("isc",)]], freeze=1, **kw)
                    b.add(fl, cap, [C, [("try", "#"), ("try", "#")], [("try", "#")]], pre=fill(cap), freeze=1, **kw)
            if not buf:
                b.add(fl, cap, [[("dtx",)], [("get",), ("isc",), ("get",)]], pre=fill(1), freeze=1, **kw)
                b.add(fl, cap, [[("drx",)], [("try", "#"), ("try", "#")]], pre=fill(cap - 1), freeze=1, **kw)
            if fl[0] == "a":
                b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f")], [("get",), ("frecv", "r"), ("poll", "r"), ("get",)]], pre=fill(cap), freeze=1, **kw)
                b.add(fl, cap, [[("get",)], [("fsend", "f", "#"), ("poll", "f"), ("poll", "f"), ("try", "#")]], pre=fill(cap), freeze=1, **kw)


def panics(b, fls=("tb", "ts", "ad", "bd"), caps=(1, 2, 3), **kw):
    """panicking closures, policies and wakers"""
    for fl in fls:
        buf = fl[0] == "t"
        for cap in caps:
            if buf:
                b.add(fl, cap, [], [("pushwp", "#"), ("try", "#"), ("get",), ("get",), ("getr", "g"), ("relc", "g")], **kw)
                b.add(fl, cap, [], fill(cap) + [("popwp",), ("try", "#"), ("get",), ("get",)], **kw)
                b.add(fl, cap, [[("pushwp", "#")], [("try", "#")], [("get",), ("get",)]], post=[("getall",)], **kw)
                b.add(fl, cap, [[("popwp",)], [("try", "#")], [("get",)]], pre=fill(cap), post=[("getall",)], **kw)
                b.add(fl, cap, [], rep([("pushwp", "#"), ("popwp",)], 2 * cap + 1) + [("try", "#"), ("get",)], **kw)
            for k in range(1, cap + 2):
                b.add(fl, cap, [], fill(cap) + [("get",)] * cap + fill(1) + [("get",)], faults={"new": k}, **kw)
                b.add(fl, cap, [], fill(cap) + [("getr", "g"), ("relc", "g")] * cap + fill(cap) + [("get",)] * cap, faults={"rec": k}, **kw)
                b.add(fl, cap, [], rep(P1["r"], cap) + rep(C1["r"], cap) + rep(P1["r"], cap), faults={"rec": k}, **kw)
                b.add(fl, cap, [[("try", "#")], [("try", "#")], [("get",)]], post=[("getall",)], faults={"new": k}, **kw)
            # the policy fails while a message is taken out: nothing gets stuck
            b.add(fl, cap, [], fill(cap) + [("get",), ("get",), ("try", "#"), ("get",), ("get",)], faults={"new": cap + 1}, **kw)
            b.add(fl, cap, [[("get",), ("get",)], [("try", "#")]], pre=fill(cap), faults={"new": cap + 1}, **kw)
            if fl[0] == "a":
                for k in (1, 2, 3):
                    b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f"), ("poll", "f")], [("send", "#")], [("get",), ("get",)]], pre=fill(cap), mk=True, faults={"wclone": k}, **kw)
                    b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f", "w"), ("poll", "f", "x")], [("get",)]], pre=fill(cap), mk=True, faults={"wclone": k}, **kw)
                    b.add(fl, cap, [[("frecv", "f"), ("poll", "f"), ("prx",)], [("try", "#"), ("try", "#")]], mk=True, post=[("getall",)], faults={"wclone": k}, **kw)
                    b.add(fl, cap, [[("prx",), ("prx",), ("sync",), ("prx",)], [("try", "#"), ("dtx",)]], post=[("getall",)], faults={"wclone": k}, **kw)
                    b.add(fl, cap, [[("fsend", "f", "#"), ("poll", "f")], [("fsend", "g", "#"), ("poll", "g")], [("get",), ("get",)]], pre=fill(cap), mk=True, faults={"wclone": k}, **kw)


UNW = {"relp": "prelp", "relc": "prelc", "relw": "prelw", "drop": "pdrop", "dtx": "pdtx", "drx": "pdrx"}


def unwinding(ops, p=lambda: True):
    """the same operations, what is dropped is dropped by a thread which unwinds"""
    return [[UNW[o[0]]] + list(o[1:]) if o[0] in UNW and p() else o for o in ops]


def unwinds(b, fams, fls, rng=None, **kw):
    for fam in fams:
        t = type(b)(b.prefix, b.execs, b.rand)
        fam(t, fls, **kw)
        for s in t.out:
            if any(o[0] in UNW for o in s["pre"] + s["post"] + sum(s["th"], [])):
                s["pre"], s["post"], s["th"] = unwinding(s["pre"]), unwinding(s["post"]), [unwinding(x) for x in s["th"]]
                s["id"] = "%s%03d-%s-c%d" % (b.prefix, len(b.out), s["fl"], s["cap"])
                b.out.append(s)


def reentrant(b, fls=("ad", "as"), caps=(1, 2), **kw):
    """Callbacks which use the queue: wakers which own the waiting future (its
    executor is gone, or it is polled inside the wake-up), closures."""
    for fl in fls:
        for cap in caps:
            pf = fill(cap)
            for m in ("lost", "inl"):
                for D in ([], [("clone",)]):
                    T = [("fsend", "f", "#"), ("spawn", "f", m)]
                    T2 = [("clone",), ("fsend", "f", "#"), ("spawn", "f", m), ("fsend", "g", "#"), ("spawn", "g", m)]
                    R = [("fsendr", "f", "h"), ("spawn", "f", m)]
                    b.add(fl, cap, [D + T, [("drx",)]], pre=pf, **kw)
                    b.add(fl, cap, [D + T2, [("drx",)]], pre=pf, **kw)
                    b.add(fl, cap, [D + T2, [("get",), ("drx",)]], pre=pf, **kw)
                    b.add(fl, cap, [D + T2, [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [D + T, D + T, [("get",), ("drx",)]], pre=pf, **kw)
                    b.add(fl, cap, [D + T, [("send", "#")], [("get",), ("recv",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [D + T2, [("getr", "g"), ("relc", "g"), ("get",), ("sync",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [D + R, [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [D + T, [("fsend", "k", "#"), ("poll", "k"), ("poll", "k", "w"), ("drop", "k")], [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [[("frecv", "r"), ("spawn", "r", m)], [("try", "#"), ("try", "#")]], mk=True, post=[("getall",)], **kw)
                    b.add(fl, cap, [[("frecv", "r"), ("spawn", "r", m)], [("try", "#"), ("dtx",)]], **kw)
                    b.add(fl, cap, [[("frecvr", "r", "g"), ("spawn", "r", m)], [("try", "#"), ("send", "#"), ("dtx",)]], post=[("getall",)], **kw)
                    b.add(fl, cap, [[("frecv", "s"), ("poll", "s"), ("poll", "s", "x"), ("drop", "s"), ("frecv", "r"), ("poll", "r"), ("spawn", "r", m)], [("try", "#"), ("dtx",)]], post=[("getall",)], **kw)
                    b.add(fl, cap, [D + T + [("dtx",)], [("frecv", "r"), ("spawn", "r", m), ("get",)]], pre=pf, post=[("getall",)], **kw)


            F = [("fsend", "f", "#"), ("poll", "f"), ("clone",), ("fsend", "g", "#"), ("poll", "g"), ("pollo", "f", "g")]
            for x in ([("poll", "f")], [("poll", "f", "w"), ("sync",), ("poll", "f")], [("drop", "f")], []):
                b.add(fl, cap, [F + x, [("get",), ("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                b.add(fl, cap, [F + x, [("send", "#")], [("get",)]], pre=pf, mk=True, post=[("getall",)], **kw)
                b.add(fl, cap, [F + x, [("drx",)]], pre=pf, **kw)
            R = [("frecv", "r"), ("poll", "r")]
            S = [("fsend", "g", "#"), ("poll", "g")]
            for x in ([("poll", "r")], [("poll", "r", "w")], [("drop", "r"), ("prx",)], []):
                b.add(fl, cap, [S + R + [("pollo", "r", "g")] + x, [("try", "#")]], pre=pf, mk=True, post=[("getall",)], **kw)
                b.add(fl, cap, [S + [("getall",)] + R + [("pollo", "r", "g")] + x, [("try", "#"), ("dtx",)]], pre=pf, post=[("getall",)], **kw)


def closures(b, fls=("tb", "ts"), caps=(1, 2, 3), **kw):
    for fl in fls:
        for cap in caps:
            po = [("getall",)]
            for inner in (("get",), ("try", "#"), ("len",), ("pushw", "#"), ("popw",), ("pushwn", "#", ("get",))):
                b.add(fl, cap, [[("pushwn", "#", inner)], [("try", "#"), ("get",)]], post=po, **kw)
                b.add(fl, cap, [[("popwn", inner)], [("try", "#"), ("get",)]], pre=fill(cap), post=po, **kw)
                b.add(fl, cap, [], laps(1) + [("pushwn", "#", inner), ("popwn", inner), ("pushwn", "#", inner, inner), ("popwn", inner, inner)] + po, **kw)


def bigscripts(b, rng, fls, caps, n=60, count=1, **kw):
    """long single-threaded scripts over many laps"""
    for fl in fls:
        buf = fl[0] == "t"
        for cap in caps:
            for _ in range(count):
                ops, held_s, held_r, k = [], [], [], 0
                phase = rng.random()
                for j in range(n):
                    fullish = (j // max(1, cap)) % 2 == 0
                    x = rng.random()
                    if x < (0.62 if fullish else 0.25):
                        y = rng.random()
                        if y < 0.5:
                            ops.append(("try", "#"))
                        elif y < 0.8 and len(held_s) < 2:
                            k += 1
                            ops.append(("tryr", "s%d" % k))
                            held_s.append("s%d" % k)
                        elif buf:
                            ops.append(("pushw", "#"))
                        else:
                            ops.append(("try", "#"))
                    elif x < 0.87:
                        y = rng.random()
                        if y < 0.5:
                            ops.append(("get",))
                        elif y < 0.8 and len(held_r) < 2:
                            k += 1
                            ops.append(("getr", "r%d" % k))
                            held_r.append("r%d" % k)
                        elif buf:
                            ops.append(("popw",))
                        else:
                            ops.append(("get",))
                    elif x < 0.92:
                        ops.append((rng.choice(["len", "isempty", "remaining", "capacity"]),) if buf else ("isc",))
                    if held_s and rng.random() < 0.45:
                        h = held_s.pop(rng.randrange(len(held_s)))
                        ops.append((rng.choice(["relp", "relw"]), h, "#"))
                    if held_r and rng.random() < 0.45:
                        h = held_r.pop(rng.randrange(len(held_r)))
                        ops.append(("relc", h))
                b.add(fl, cap, [], ops, budget=0, rand=0, **kw)


def longlaps(b, fls, caps, n, **kw):
    """Many laps at full speed, then ordinary operations."""
    for fl in fls:
        for cap in caps:
            kw1 = dict(kw, execs=1, rand=0, budget=0, cap_uniq=2)
            end = fill(cap + 1) + [("get",)] * (cap + 1) + laps(cap + 1)
            b.add(fl, cap, [], [("warp", n)] + end, **kw1)
            b.add(fl, cap, [], fill(cap) + [("warp", n // cap + 1) + tuple(range(1, cap + 1))] + [("try", "#")] + [("get",)] * (cap + 1) + end, **kw1)


def zero(b, fls=("tb", "tbd", "ts", "tsd", "ad", "add", "as", "bd", "bdd", "bs")):
    for fl in fls:
        b.add(fl, 0, [])


# --------------------------------------------------------------------------
# random programs
# --------------------------------------------------------------------------
def randprog(b, rng, fl, cap=None, feats=(), weak=None, **kw):
    """A random small program.  feats: any of
    ref, with, wait, fut, poll, close, panicdrop, timed, clone, isc, len, held, mk, sync"""
    feats = set(feats)
    buf = fl[0] == "t"
    asy = fl[0] == "a"
    cap = cap or rng.choice([1, 1, 1, 2, 2, 3])
    F = lambda f: f in feats

    def send_op(st):
        c = [[("try", "#")]] * 2
        if F("ref"):
            c.append([("tryr", "h"), (rng.choice(["relp", "relp", "relw"]), "h", "#")])
        if F("with") and buf:
            c.append([("pushw", "#")])
        if F("held"):
            c.append([("tryr", "h"), rng.choice([("try", "#"), ("yield",), ("tryr", "i")]), ("relp", "h", "#")])
        if not buf:
            if F("wait"):
                c += [[("send", "#")]] * 3
                if F("ref"):
                    c.append([("sendr", "h"), ("relp", "h", "#")])
            if F("timed") and not asy:
                c += [[("sendt", "#", rng.choice(DUR))]] * 3
                if F("ref"):
                    c.append([("sendrt", "h", rng.choice(DUR)), ("relp", "h", "#")])
            if F("fut") and asy:
                st["n"] += 1
                f = "f%d" % st["n"]
                s = [("fsend", f, "#")] if rng.random() < 0.7 or not F("ref") else [("fsendr", f, "h" + f)]
                for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
                    s.append(("poll", f, rng.choice(["", "", "w", "x"])))
                    if F("sync") and rng.random() < 0.25:
                        s.append(("sync",))
                if F("spawn") and rng.random() < 0.6:
                    s.append(("spawn", f, rng.choice(["lost", "inl"])))
                    if rng.random() < 0.6:
                        s.insert(0, ("clone",))
                elif rng.random() < 0.65:
                    s.append(("drop", f))
                if s[0][0] == "fsendr":
                    s.append(("relp", "h" + f, "#"))
                c += [s] * 4
        return list(rng.choice(c))

    def recv_op(st):
        c = [[("get",)]] * 2
        if F("ref"):
            c.append([("getr", "g"), ("relc", "g")])
        if F("with") and buf:
            c.append([("popw",)])
        if F("held"):
            c.append([("getr", "g"), rng.choice([("get",), ("yield",), ("getr", "k")]), ("relc", "g"), ("relc", "k")])
        if F("len") and buf:
            c += [[(rng.choice(["len", "isempty", "remaining", "capacity"]),)]] * 3
        if not buf:
            if F("isc"):
                c.append([("isc",)])
            if F("wait"):
                c += [[("recv",)]] * 3
                if F("ref"):
                    c.append([(rng.choice(["recvr", "iter"]) if not asy else "recvr", "g"), ("relc", "g")])
            if F("timed") and not asy:
                c += [[("recvt", rng.choice(DUR))]] * 2
                if F("ref"):
                    c.append([("recvrt", "g", rng.choice(DUR)), ("relc", "g")])
            if F("fut") and asy:
                st["n"] += 1
                f = "r%d" % st["n"]
                s = [("frecv", f)] if rng.random() < 0.7 or not F("ref") else [("frecvr", f, "g" + f)]
                for _ in range(rng.choice([0, 1, 1, 2, 2])):
                    s.append(("poll", f, rng.choice(["", "", "w", "x"])))
                    if F("sync") and rng.random() < 0.25:
                        s.append(("sync",))
                s.append(("spawn", f, rng.choice(["lost", "inl"])) if F("spawn") and rng.random() < 0.5 else ("drop", f))
                if s[0][0] == "frecvr":
                    s.append(("relc", "g" + f))
                c += [s] * 2
            if F("poll") and asy:
                w = rng.choice(["", "w", "x"])
                c.append([("prx", w)])
                if F("ref"):
                    c.append([("prxr", "q", w), ("relc", "q")])
        return list(rng.choice(c))

    def dtx():
        return rng.choice(["dtx", "pdtx"]) if F("panicdrop") else "dtx"

    th = []
    st = {"n": 0}
    if buf:
        for _ in range(rng.choice([2, 2, 3, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                ops += send_op(st) if rng.random() < 0.5 else recv_op(st)
            th.append(ops[:7])
    else:
        ns = rng.choice([1, 1, 2, 2, 2, 3])
        for _ in range(ns):
            ops = []
            if F("clone") and rng.random() < 0.4:
                ops.append(("clone",))
            for _ in range(rng.choice([1, 1, 2, 2, 3]) if ns < 3 else 1):
                ops += send_op(st)
                if F("close") and rng.random() < 0.2:
                    ops.append((dtx(),))
            if F("close") and rng.random() < 0.5:
                ops.append((dtx(),))
            th.append(ops)
        ops = []
        # a receive future which is pending stays so: at most one per program is left
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops += recv_op(st)
        if F("wait") and rng.random() < 0.25:
            ops.append(("recvall",))
        if F("close") and rng.random() < 0.4:
            ops.append((rng.choice(["drx", "pdrx"]) if F("panicdrop") else "drx",))
        th.append(ops)
        rng.shuffle(th)
    pre = []
    x = rng.random()
    if x < 0.4:
        pre = fill(cap)
    elif x < 0.7:
        pre = laps(rng.randrange(0, 2 * cap + 1)) + fill(rng.randrange(0, cap + 1))
    if rng.random() < 0.15 and cap > 1:
        pre = rep([("try", "#")], cap) + [("get",)] * rng.randrange(1, cap + 1)
    mk = F("mk") and rng.random() < 0.5
    post = [("getall",)] if rng.random() < 0.4 else []
    kw = dict(kw)
    if weak is None:
        weak = rng.choice([0, 0, 0, 0, 1, 1, 2])
    kw.update(weak=weak, weakcas=rng.random() < 0.2, spurious=rng.random() < 0.2, mk=mk, td=rng.choice(["tx", "rx"]))
    if rng.random() < 0.2 and asy:
        kw["wk"] = "same"
    kw["drain"] = rng.random() < 0.6
    return b.add(fl, cap, th, pre, post, **kw)
