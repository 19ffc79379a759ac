"""Which scenarios decide which property, and which kinds of rejected
histories violate it."""
import random
from . import scen, gen
from .scen import ASY, BLK, BUF

ALLF = "ref with wait fut poll close panicdrop timed clone isc len held mk sync".split()
CORE = ("tb", "ts", "tbd")
CH = ("ad", "as", "bd", "bs")


def rnd(b, rng, n, fls, base, opt=(), p=0.5, **kw):
    """n random programs per flavour, with the features base and some of opt"""
    for _ in range(n):
        for fl in fls:
            fe = list(base) + [f for f in opt if rng.random() < p]
            scen.randprog(b, rng, fl, feats=fe, **kw)


def weakly(f, b, modes=(1, 2), **kw):
    """a family again, with stale loads allowed"""
    for w in modes:
        f(b, weak=w, **kw)


# Each entry: (builder(b, rng, k), extra) where k scales the number of random programs.
def c01(b, rng, k):
    scen.mpmc(b)
    scen.mpmc(b, fls=("tbd", "tsd"), caps=(2,), kinds=("v", "r", "w"))
    scen.heldrefs(b)
    scen.mpsc_try(b, fls=CH, caps=(1, 2))
    scen.waits(b, fls=("as", "bs"), caps=(1,), drain=True)
    scen.cancels(b, caps=(1,), drain=True)
    scen.timeouts(b, caps=(1,), drain=True)
    scen.sharedrx(b)
    rnd(b, rng, 30 * k, ("tb", "ts", "ad", "bd"), ("ref", "held"), ("with", "wait", "fut", "close", "timed", "sync", "poll"), weak=0)
    rnd(b, rng, 12 * k, ("tb", "ad", "bs"), ("ref", "wait"), ("held", "fut", "timed", "with"), weak=2)


def c02(b, rng, k):
    scen.mpmc(b, caps=(1, 2, 3, 4))
    scen.heldrefs(b, caps=(2, 3, 4))
    scen.mpsc_try(b, fls=CH, caps=(1, 2, 3))
    scen.waits(b, caps=(2, 3), drain=True)
    scen.bigscripts(b, rng, ("tb", "ts", "ad", "bs"), (1, 2, 3, 5, 8), cap_uniq=4)
    rnd(b, rng, 35 * k, ("tb", "ts", "ad", "bd"), ("ref", "wait"), ("held", "with", "fut", "timed"), weak=0, drain=True)
    rnd(b, rng, 10 * k, ("tb", "as"), ("ref",), ("held", "wait"), weak=1, drain=True)


def c03(b, rng, k):
    scen.mpmc(b, caps=(1, 2, 3, 4))
    scen.heldrefs(b, caps=(1, 2, 3, 4))
    scen.mpsc_try(b, fls=("ad", "bs"), caps=(1, 2, 3))
    scen.freezes(b, fls=("tb", "ts"), caps=(1, 2, 3))
    scen.bigscripts(b, rng, ("tb", "ts", "ad", "bs"), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17), cap_uniq=4)
    rnd(b, rng, 35 * k, ("tb", "ts", "ad", "bd"), ("ref", "held"), ("with", "fut", "close", "len"), weak=0)
    rnd(b, rng, 10 * k, ("tb", "bs"), ("ref",), ("held", "with"), weak=1)


def c04(b, rng, k):
    scen.mpmc(b, caps=(1, 2, 3, 4))
    scen.heldrefs(b, caps=(1, 2, 3))
    scen.mpsc_try(b, fls=("ad", "bs"), caps=(1, 2, 3))
    scen.closing(b, fls=("ad", "bs"), caps=(1, 2), panics=False)
    scen.sharedrx(b, fls=("ad", "bs"))
    scen.freezes(b, fls=("tb", "ad"), caps=(1, 2))
    scen.bigscripts(b, rng, ("tb", "ts", "ad", "bs"), (1, 2, 3, 4, 5, 7, 8, 9), cap_uniq=4)
    rnd(b, rng, 35 * k, ("tb", "ts", "ad", "bd"), ("ref", "held"), ("with", "close", "poll", "timed"), weak=0)
    rnd(b, rng, 10 * k, ("tb", "as"), ("ref",), ("held", "with"), weak=1)


def c05(b, rng, k):
    kw = dict(weak=2, cap_uniq=4)
    scen.mpmc(b, caps=(1, 2), kinds=("v", "r", "w"), **kw)
    scen.heldrefs(b, caps=(1, 2), **kw)
    scen.mpsc_try(b, caps=(1, 2), **kw)
    scen.waits(b, fls=("ad", "bd"), caps=(1, 2), **kw)
    scen.closing(b, fls=("ad", "bd"), caps=(1,), **kw)
    scen.cancels(b, caps=(1, 2), **kw)
    scen.wakers(b, caps=(1,), **kw)
    scen.timeouts(b, caps=(1,), **kw)
    scen.teardown(b, caps=(1, 2), **kw)
    scen.unsplit(b, caps=(1,), **kw)
    scen.sharedrx(b, caps=(1, 2), **kw)
    scen.tworx(b)
    rnd(b, rng, 60 * k, ("tb", "ad", "bd"), ("ref", "wait"), ALLF, weak=2, cap_uniq=4)
    rnd(b, rng, 25 * k, ("ad", "bd"), ("wait", "fut", "timed", "close"), ALLF, weak=0, cap_uniq=8)


def c06(b, rng, k):
    scen.freezes(b, fls=("tb", "ts", "ad", "bd"), caps=(1, 2, 3))
    scen.heldrefs(b, caps=(1, 2))
    scen.closing(b, fls=("ad", "bd"), caps=(1,), panics=False)
    scen.cancels(b, caps=(1,))
    scen.bigscripts(b, rng, ("tb", "ad", "bs"), (1, 2, 3, 4), cap_uniq=4)
    for _ in range(25 * k):
        for fl in ("tb", "ts", "ad", "bd"):
            s = scen.randprog(b, rng, fl, feats=["ref", "held"] + [f for f in ("with", "fut", "poll", "close", "isc", "len") if rng.random() < 0.6], weak=rng.choice([0, 0, 0, 2]))
            # (a poll of the receiver waits for a sender which is just waking it)
            if rng.random() < 0.7 and not any(o[0] in ("frecv", "frecvr", "prx", "prxr") for t in s["th"] for o in t):
                s["freeze"] = 1
    rnd(b, rng, 12 * k, ("tb", "ad", "bs"), ("ref", "held"), ("with", "fut", "poll", "close", "isc", "len"), weakcas=True)


def c07(b, rng, k):
    scen.waits(b, fls=("ad", "as", "bd", "bs"))
    scen.closing(b, fls=("ad", "bd"))
    scen.wakers(b, caps=(1,))
    scen.timeouts(b, caps=(1,))
    scen.sharedrx(b)
    weakly(scen.waits, b, caps=(1,), cap_uniq=8)
    weakly(scen.closing, b, caps=(1,), panics=False, cap_uniq=8)
    rnd(b, rng, 30 * k, CH, ("wait",), ("ref", "held", "fut", "poll", "close", "timed", "sync", "clone"))


def c08(b, rng, k):
    scen.waits(b, fls=("ad", "as", "bd", "bs"))
    scen.cancels(b, caps=(1, 2))
    scen.wakers(b, caps=(1,))
    scen.timeouts(b, caps=(1, 2))
    scen.overtaking(b)
    weakly(scen.waits, b, caps=(1,), cap_uniq=8)
    for fl in ("ad", "bd"):
        for cap in (1, 2):
            for w in (0, 2):
                S = [("send", "#")]
                b.add(fl, cap, [S, S, S, [("recvall", cap + 3)]], pre=scen.fill(cap), mk=True, weak=w, cap_uniq=12)
                b.add(fl, cap, [S + S, S + S, [("recvall", cap + 4)]], pre=scen.fill(cap), mk=True, weak=w, cap_uniq=12)
                b.add(fl, cap, [[("try", "#"), ("try", "#")], S, [("get",), ("sync",), ("get",), ("sync",), ("get",), ("get",)]], pre=scen.fill(cap), mk=True, weak=w)
                b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#")], S, [("getr", "g"), ("relc", "g"), ("sync",), ("get",), ("get",)]], pre=scen.fill(cap - 1), mk=True, weak=w)
    rnd(b, rng, 30 * k, CH, ("wait",), ("ref", "held", "fut", "timed", "sync"))


def c09(b, rng, k):
    scen.cancels(b, fls=("ad", "as"), caps=(1, 2, 3))
    scen.cancels(b, caps=(1,), drain=True)
    scen.timeouts(b, fls=("bd", "bs"), caps=(1, 2))
    weakly(scen.cancels, b, modes=(2,), caps=(1,), cap_uniq=4)
    weakly(scen.timeouts, b, modes=(2,), caps=(1,), cap_uniq=4)
    rnd(b, rng, 70 * k, ("ad", "as"), ("fut", "wait"), ("ref", "sync", "close", "held", "poll"), drain=True)
    rnd(b, rng, 45 * k, ("bd", "bs"), ("timed", "wait"), ("ref", "sync", "close", "held"), drain=True)


def c10(b, rng, k):
    scen.closing(b, fls=CH, caps=(1, 2))
    scen.closing(b, fls=("ad", "bd"), caps=(3,), drain=True)
    scen.counting(b, fls=("ad", "bd"))
    weakly(scen.closing, b, caps=(1,), panics=False, cap_uniq=8)
    rnd(b, rng, 40 * k, CH, ("close", "wait"), ("ref", "held", "fut", "poll", "panicdrop", "clone", "isc", "timed"), drain=True)


def c11(b, rng, k):
    scen.closing(b, fls=CH, caps=(1, 2))
    scen.cancels(b, caps=(1, 2))
    scen.timeouts(b, fls=("bd", "bs"), caps=(1,))
    scen.mpsc_try(b, fls=CH, caps=(1,))
    weakly(scen.closing, b, modes=(2,), caps=(1,), panics=False, cap_uniq=8)
    for fl in CH + ("add", "bdd"):
        for cap in (1, 2):
            S = [("send", "#")]
            for d in ("drx", "pdrx"):
                b.add(fl, cap, [S, S, S, [(d,)]], pre=scen.fill(cap))
                b.add(fl, cap, [S + [("try", "#")], [("sendr", "h"), ("relp", "h", "#"), ("tryr", "k")], [("get",), (d,)]], pre=scen.fill(cap))
                b.add(fl, cap, [[("tryr", "h"), ("relp", "h", "#"), ("try", "#")], S, [(d,)]], pre=scen.fill(cap - 1))
    rnd(b, rng, 40 * k, CH, ("close", "wait"), ("ref", "held", "fut", "panicdrop", "clone", "timed"))


def c12(b, rng, k):
    scen.teardown(b, fls=("tb", "tbd", "ts", "tsd", "ad", "bd"), caps=(1, 2, 3, 4))
    scen.teardown(b, fls=("tb", "ad"), caps=(5, 8), execs=200, rand=50)
    scen.unsplit(b)
    scen.heldrefs(b, caps=(2,))
    scen.cancels(b, caps=(1,))
    scen.closing(b, fls=("ad", "bd"), caps=(1,))
    scen.panics(b, fls=("tb", "ts"), caps=(1, 2))
    rnd(b, rng, 40 * k, ("tb", "ts", "ad", "bd"), ("ref",), ALLF)


def c13(b, rng, k):
    scen.policy(b, fls=("tb", "ts", "ad", "bd"))
    scen.policy(b, fls=("tb",), caps=(4, 5), execs=300, rand=100)
    for cap in (1, 2, 3, 5):
        scen.bigscripts(b, rng, ("tb", "ts", "ad", "bd"), (cap,), count=2, pol=True, cap_uniq=4)
    rnd(b, rng, 40 * k, ("tb", "ts", "ad", "bd"), ("ref",), ("with", "held", "wait", "fut", "close", "timed"), weak=0, pol=True)


def c14(b, rng, k):
    scen.lens(b, caps=(1, 2, 3, 4))
    scen.lens(b, fls=("tb",), caps=(5, 7, 8, 9), execs=400, rand=200)
    scen.heldrefs(b, caps=(1, 2, 3))
    scen.bigscripts(b, rng, ("tb", "ts", "tbd", "tsd"), (1, 2, 3, 4, 5, 7, 8, 16), cap_uniq=4)
    rnd(b, rng, 60 * k, ("tb", "ts", "tbd"), ("len",), ("ref", "held", "with"), weak=0)


def c15(b, rng, k):
    scen.timeouts(b, fls=("bd", "bs"), caps=(1, 2, 3))
    weakly(scen.timeouts, b, modes=(1,), caps=(1,), cap_uniq=8)
    rnd(b, rng, 90 * k, ("bd", "bs"), ("timed",), ("ref", "wait", "held", "close", "sync", "mk"))


def c16(b, rng, k):
    scen.wakers(b, fls=("ad", "as"), caps=(1, 2))
    scen.cancels(b, caps=(1,))
    weakly(scen.wakers, b, modes=(1, 2), caps=(1,), cap_uniq=8)
    rnd(b, rng, 80 * k, ("ad", "as"), ("fut", "poll"), ("wait", "ref", "sync", "close", "mk"))


def c17(b, rng, k):
    scen.unsplit(b)
    scen.unsplit(b, caps=(1,), weak=2)
    scen.mpmc(b, fls=("ts", "tsd"), caps=(1, 2, 3), kinds=("v", "r", "w"))
    scen.waits(b, fls=("as", "bs"), caps=(1, 2))
    scen.closing(b, fls=("as", "bs"), caps=(1, 2))
    scen.timeouts(b, fls=("bs",), caps=(1,))
    scen.wakers(b, fls=("as",), caps=(1,))
    scen.cancels(b, fls=("as",), caps=(1,))
    scen.counting(b, fls=("as", "bs"), caps=(1,))
    scen.teardown(b, fls=("ts", "tsd"), caps=(1, 2, 3))
    scen.lens(b, fls=("ts", "tsd"), caps=(1, 2))
    scen.policy(b, fls=("ts",), caps=(1, 2))
    scen.bigscripts(b, rng, BUF + ASY + BLK, (1, 2, 3, 5, 8), cap_uniq=4)
    scen.zero(b)
    rnd(b, rng, 20 * k, ("ts", "as", "bs"), (), ALLF)


def c17_nostd(b, rng, k):
    """the same without std (spin lock, no unwinding, no blocking channel)"""
    scen.mpmc(b, fls=("tb", "ts"), caps=(1, 2))
    scen.waits(b, fls=("ad", "as"), caps=(1, 2))
    scen.closing(b, fls=("ad", "as"), caps=(1,), panics=False)
    scen.cancels(b, fls=("ad",), caps=(1, 2))
    scen.wakers(b, fls=("ad",), caps=(1,))
    scen.unsplit(b, fls=("as",))
    scen.teardown(b, fls=("tb", "ad"), caps=(1, 2))
    weakly(scen.waits, b, modes=(2,), fls=("ad",), caps=(1,), cap_uniq=4)
    weakly(scen.cancels, b, modes=(2,), fls=("ad",), caps=(1,), cap_uniq=4)
    scen.bigscripts(b, rng, BUF + ASY, (1, 2, 3, 5), cap_uniq=4)
    rnd(b, rng, 15 * k, ("tb", "ad", "as"), (), [f for f in ALLF if f not in ("timed", "panicdrop")])


def c18(b, rng, k):
    scen.zero(b)
    scen.longlaps(b, ("tb", "tsd", "ad", "bs"), (1, 2, 3, 4, 5, 7), 150000 * k)
    scen.bigscripts(b, rng, BUF + ASY + BLK, (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32, 33), n=100, cap_uniq=4)
    scen.bigscripts(b, rng, ("tb", "ad", "bs"), (1, 2, 3, 4, 5, 7), n=300, cap_uniq=4)
    scen.mpmc(b, caps=(1, 2, 3, 4, 5))
    scen.teardown(b, fls=("tb", "ad"), caps=(3, 5, 6, 7), execs=200, rand=50)
    for fl in ("tb", "ts", "ad", "bd"):
        for cap in (1, 2, 3, 4, 5, 6, 7):
            # start after any number of laps
            for n in (cap - 1, cap, 2 * cap - 1, 2 * cap, 3 * cap + 1, 9 * cap):
                b.add(fl, cap, [[("try", "#"), ("try", "#")], [("get",), ("get",)]], pre=scen.laps(n), post=scen.fill(cap + 1) + [("getall",)], execs=400, rand=200, cap_uniq=6)
                b.add(fl, cap, [], scen.laps(n) + scen.fill(cap + 1) + [("get",)] * (cap + 1))
    rnd(b, rng, 15 * k, ("tb", "ts", "ad", "bd"), ("ref",), ("held", "with", "wait"), weak=0)


def c19(b, rng, k):
    scen.counting(b, fls=CH, caps=(1, 2))
    scen.closing(b, fls=("ad", "bd"), caps=(1,))
    weakly(scen.counting, b, modes=(1,), caps=(1,), cap_uniq=8)
    weakly(scen.counting, b, modes=(2,), caps=(1,), cap_uniq=8)
    rnd(b, rng, 60 * k, CH, ("clone", "close", "isc"), ("wait", "panicdrop", "fut", "poll"))


def c21(b, rng, k):
    scen.panics(b)
    scen.panics(b, fls=("ad", "bd"), caps=(1,), drain=True)
    scen.closing(b, fls=("ad", "bd"), caps=(1,))
    scen.unwinds(b, (scen.waits, scen.closing), ("ad", "bd"), caps=(1,))
    scen.unwinds(b, (scen.cancels,), ("ad",), caps=(1,))
    for fl in ("ad", "as", "bd", "tb"):
        for _ in range(30 * k):
            s = scen.randprog(b, rng, fl, feats=["ref"] + [f for f in ("fut", "wait", "poll", "sync", "close", "mk") if rng.random() < 0.5], weak=0)
            u = rng.choice([0.3, 0.6, 1])
            s["th"] = [scen.unwinding(t, lambda: rng.random() < u) for t in s["th"]]
    for fl in ("ad", "as"):
        for _ in range(60 * k):
            s = scen.randprog(b, rng, fl, feats=["fut"] + [f for f in ("wait", "poll", "ref", "sync", "close", "mk") if rng.random() < 0.5], weak=0)
            s["faults"] = {"wclone": rng.choice([1, 1, 2, 2, 3, 4])}
    for fl in ("tb", "ts"):
        for _ in range(40 * k):
            s = scen.randprog(b, rng, fl, feats=["with", "ref"], weak=0)
            for t in s["th"]:
                for o in t:
                    if o[0] in ("pushw", "popw") and rng.random() < 0.6:
                        o[0] += "p"
    for fl in ("tb", "ad", "bd"):
        for _ in range(15 * k):
            s = scen.randprog(b, rng, fl, feats=["ref"], weak=0)
            s["faults"] = {rng.choice(["new", "rec"]): rng.choice([1, 2, 3, 4])}


def c22(b, rng, k):
    scen.reentrant(b)
    scen.reentrant(b, fls=("ad",), caps=(1,), weak=2, cap_uniq=4)
    scen.closures(b)
    for _ in range(60 * k):
        for fl in ("ad", "as"):
            s = scen.randprog(b, rng, fl, feats=["fut", "spawn"] + [f for f in ("wait", "poll", "ref", "sync", "close", "mk", "clone", "held") if rng.random() < 0.5])


# Programs generated from the specification: (builder(b, rng, n)), n scales the samples;
# None: all of them.
def buffers(b, rng, n, caps=(1, 2, 3), fls=("tb", "ts")):
    gen.scripts(b, rng, gen.BUF, fls, 1, 2 if n else 3, n and 3 * n)
    for cap in caps:
        if cap > 1:
            gen.scripts(b, rng, gen.BUF, fls, cap, 1 if n else 2, n and 2 * n)
        gen.pairs(b, rng, gen.BUF, fls, cap, n)


def channels(b, rng, n, has=None, caps=(1, 2), fls=("ad", "as"), what=gen.ASY, **kw):
    for cap in caps:
        gen.pairs(b, rng, what, fls if cap == 1 else fls[:1], cap, n, has=has, **kw)


def g_ring(b, rng, n):
    buffers(b, rng, n and n // 2)
    gen.scripts(b, rng, gen.BLK, ("bd", "bs"), 2, 0 if n else 1, n)
    gen.pairs(b, rng, gen.BLK, ("bd",), 2, n)


def g05(b, rng, n):
    gen.pairs(b, rng, gen.BUF, ("tb",), 1, n, weak=2)
    gen.pairs(b, rng, gen.BUF, ("tb",), 2, n, weak=2)
    channels(b, rng, n and 2 * n, weak=2, fls=("ad",))
    gen.pairs(b, rng, gen.ASY3, ("ad",), 1, n, weak=2)


def g06(b, rng, n):
    for cap in (1, 2, 3):
        gen.pairs(b, rng, gen.BUF, ("tb", "ts"), cap, n, freeze=1)
    gen.pairs(b, rng, gen.BLK, ("bd", "bs"), 1, n, freeze=1)
    gen.pairs(b, rng, gen.BLK, ("bd",), 2, n, freeze=1)
    gen.pairs(b, rng, dict(gen.ASY, rfuts=""), ("ad",), 1, n, freeze=1)


def g07(b, rng, n):
    channels(b, rng, n and 2 * n, gen.on("r"))
    channels(b, rng, n, gen.on("r"), weak=1, caps=(1,), fls=("ad",))


def g08(b, rng, n):
    channels(b, rng, n and 2 * n, gen.on("f", "k"))
    gen.pairs(b, rng, gen.ASY3, ("ad",), 1, n)
    channels(b, rng, n, gen.on("f", "k"), weak=1, caps=(1,), fls=("ad",))


def g09(b, rng, n):
    channels(b, rng, n and 2 * n, gen.calls("drop"))
    gen.pairs(b, rng, gen.ASY3, ("ad", "as"), 1, n, has=gen.calls("drop"))
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0 if n else 2, n and 2 * n)
    gen.scripts(b, rng, gen.ASY3, ("ad", "as"), 1, 0 if n else 2, n and 2 * n)


def g10(b, rng, n):
    channels(b, rng, n and 2 * n, gen.calls("dtx"))
    gen.pairs(b, rng, gen.BLK, ("bd",), 1, n, has=gen.calls("dtx"))
    gen.pairs(b, rng, gen.BLK, ("bs",), 2, n, has=gen.calls("dtx"))
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0 if n else 1, n and 2 * n)
    gen.scripts(b, rng, gen.BLK, ("bd", "bs"), 2, 0 if n else 1, n)


def g11(b, rng, n):
    channels(b, rng, n and 2 * n, gen.calls("drx"))
    gen.pairs(b, rng, gen.ASY3, ("ad",), 1, n, has=gen.calls("drx"))
    gen.pairs(b, rng, gen.BLK, ("bd",), 1, n, has=gen.calls("drx"))
    gen.pairs(b, rng, gen.BLK, ("bs",), 2, n, has=gen.calls("drx"))
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0 if n else 1, n and 2 * n)
    gen.scripts(b, rng, gen.BLK, ("bd", "bs"), 2, 0 if n else 1, n)


def g12(b, rng, n):
    for cap in (1, 2, 3, 4):
        gen.scripts(b, rng, gen.BUF, ("tb", "ts"), cap, 1, n and 2 * n)
    gen.scripts(b, rng, gen.ASY, ("ad",), 1, 0 if n else 1, n and 2 * n)
    gen.scripts(b, rng, gen.ASY, ("ad",), 2, 0 if n else 1, n and 2 * n)
    gen.scripts(b, rng, gen.BLK, ("bd",), 2, 0 if n else 1, n and 2 * n)


def g14(b, rng, n):
    for cap in (1, 2, 3, 4, 5):
        gen.scripts(b, rng, gen.BUF, ("tb", "ts"), cap, 1 if cap < 4 else 0, n and 3 * n)
        gen.pairs(b, rng, gen.BUF, ("tb", "ts"), cap, n, obs=True)


def g15(b, rng, n):
    gen.scripts(b, rng, gen.BLK, ("bd", "bs"), 1, 2, n and 2 * n)
    gen.scripts(b, rng, gen.BLK, ("bd", "bs"), 2, 0 if n else 1, n and 2 * n)


def g16(b, rng, n):
    channels(b, rng, n and 2 * n, gen.calls("poll"))
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0 if n else 1, n and 2 * n)


def g17(b, rng, n):
    buffers(b, rng, n, fls=("ts", "tsd"))
    channels(b, rng, n, fls=("as",))
    gen.pairs(b, rng, gen.BLK, ("bs",), 1, n)
    gen.pairs(b, rng, gen.BLK, ("bs",), 2, n)


def g17_nostd(b, rng, n):
    buffers(b, rng, n, caps=(1, 2))
    channels(b, rng, n)
    gen.pairs(b, rng, gen.ASY3, ("ad",), 1, n)
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0, n)


def g18(b, rng, n):
    for cap in (1, 2, 3, 4, 5):
        gen.scripts(b, rng, gen.BUF, ("tb", "ts"), cap, 1 if cap < 4 else 0, n and 3 * n)
        gen.scripts(b, rng, gen.BLK, ("bd",), cap, 0, n)
    for cap in (3, 4, 5):
        gen.pairs(b, rng, gen.BUF, ("tb",), cap, n)


def g19(b, rng, n):
    channels(b, rng, n and 2 * n, gen.calls("dtx", "clone"))
    gen.pairs(b, rng, dict(gen.BLK, maxtx=3), ("bd", "bs"), 1, n, has=gen.calls("dtx", "clone"))
    gen.scripts(b, rng, dict(gen.BLK, maxtx=3), ("bd", "bs"), 1, 1, n and 2 * n)


def g21(b, rng, n):
    fw = lambda r: {"wclone": r.choice([1, 1, 2, 2, 3])}
    gen.scripts(b, rng, gen.ASY, ("ad", "as"), 1, 0 if n else 1, n and 3 * n, faults=fw)
    gen.pairs(b, rng, gen.ASY, ("ad", "as"), 1, n, has=gen.calls("poll"), faults=fw)


FROMSPEC = {"C01": g_ring, "C02": g_ring, "C03": g_ring, "C04": g_ring, "C05": g05, "C06": g06, "C07": g07, "C08": g08, "C09": g09, "C10": g10,
       "C11": g11, "C12": g12, "C13": g12, "C14": g14, "C15": g15, "C16": g16, "C17": g17, "C18": g18, "C19": g19, "C21": g21}
FROMSPEC_NOSTD = {"C17": g17_nostd}
NGEN = 400

BUILD = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
         "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C21": c21, "C22": c22}
NOSTD = {"C17": c17_nostd}

# Kinds of rejections (see run.kind) which are evidence against a property.
MEM = {"race", "uaf", "doubledrop", "baddrop", "badval", "crash"}
GEN = MEM | {"panic", "stuck"}
LEAK = {"leak", "wleak"}
LIN = {"lin:send", "lin:recv", "lin:rel", "lin:pend"}
SLEEP = {"sleep:recv", "sleep:send", "hang"}
KINDS = {
    "C01": GEN | LIN | {"leak", "back"},
    "C02": GEN | LIN,
    "C03": GEN | LIN | {"made"},
    "C04": GEN | LIN,
    "C05": GEN | {"hang"},
    "C06": GEN | LIN | SLEEP,
    "C07": GEN | LIN | {"sleep:recv", "hang"},
    "C08": GEN | LIN | {"sleep:send", "hang"},
    "C09": GEN | LIN | LEAK | SLEEP | {"back"},
    "C10": GEN | LIN | SLEEP | {"lin:isc"},
    "C11": GEN | LIN | LEAK | SLEEP | {"class", "back"},
    "C12": GEN | LEAK | {"back"},
    "C13": GEN | LIN | LEAK | {"pol"},
    "C14": GEN | {"lin:obs"},
    "C15": GEN | LIN | SLEEP | {"time", "class"},
    "C16": GEN | LIN | LEAK | SLEEP,
    "C17": None,  # everything
    "C18": GEN | LIN | LEAK | {"lin:obs", "made", "pol"},
    "C19": GEN | LIN | SLEEP | {"lin:isc", "made"},
    "C21": GEN | LIN | LEAK | SLEEP,
    "C22": GEN | LIN | LEAK | SLEEP,
}
