"""Behaviours of the specifications performed by thingbuf as users build it."""
import json, os, re, subprocess, threading, time
from . import tv

CRATE = os.path.join(tv.V, "native")


def build():
    tgt = os.path.join(CRATE, "target")
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    stamp, fp = os.path.join(tgt, "verif-stamp"), tv.fingerprint(CRATE) + "+" + tv.fingerprint()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != fp:
        if os.path.exists(stamp):
            os.unlink(stamp)
        subprocess.run(["cargo", "clean", "--release", "--offline", "-q", "-p", "thingbuf", "-p", "tbnative"], cwd=CRATE, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise tv.ToolError("native build failed:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(fp)
    return os.path.join(tgt, "release", "tbnative")


# --------------------------------------------------------------------------
N32 = 1_080_000_000  # pairs after which a capacity-1 queue has passed 2^32
LAPS = {
    "quick": [("tb", 1, N32), ("tbr", 2, 200_000_000), ("ts", 3, 100_000_000), ("bd", 1, 100_000_000)],
    "thorough": [("tb", 1, N32), ("tb", 2, N32), ("tbr", 1, 4 * N32), ("tbr", 3, 2 * N32), ("ts", 1, N32), ("ts", 3, N32), ("ad", 1, N32), ("bd", 1, N32), ("bd", 2, N32)],
}


def laps(tier, hists, res, errs):
    """Very many laps; the pair of operations which goes wrong becomes a history."""
    try:
        exe = build()
        total, todo, lock = [0], list(LAPS[tier]), threading.Lock()

        def worker():
            while True:
                with lock:
                    if not todo or hists:
                        return
                    fl, cap, n = todo.pop(0)
                sc = {"id": "laps-%s-c%d" % (fl, cap), "fl": fl[:2], "cap": cap, "pre": [["laps", n]], "th": []}
                try:
                    p = subprocess.run([exe, "laps", fl, str(cap), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700 if tier == "quick" else 3000)
                except subprocess.TimeoutExpired:
                    hists.append(tv.Hist(sc, [{"k": "stuck", "i": -1, "s": "no end after a long time"}], [], 0, None))
                    continue
                try:
                    d = json.loads(p.stdout)
                except ValueError:
                    hists.append(tv.Hist(sc, [{"k": "crash" if p.returncode < 0 else "panic", "i": -1, "s": p.stderr[-200:]}], [], 0, None))
                    continue
                if "stuck" in d:
                    hists.append(tv.Hist(sc, [{"k": "stuck", "i": -1, "s": "after %d pairs, an operation which must not wait did not return" % d["stuck"]}], [], 0, None))
                    continue
                if "ok" in d:
                    total[0] += d["ok"]
                    continue
                v = d["v"] % 1000 + 1
                sc["pre"] = [["laps", d["bad"]]]
                r = "ok" if d["push"] else "full"
                ev = [{"k": "made", "i": -1}, {"k": "c", "i": 1, "o": "try", "r": r, "v": v, "s": "0" if d["push"] else str(v)}]
                ev.append({"k": "r", "i": 1, "n": 16, "r": "ok"} if d["push"] else {"k": "r", "i": 1, "n": 9, "r": "full", "v": v})
                if d["push"]:
                    g = 0 if d["pop"] is None else (v if d["pop"] == d["v"] else -1)
                    r = "empty" if d["pop"] is None else "ok"
                    ev += [{"k": "c", "i": 2, "o": "get", "r": r, "s": str(g)}, {"k": "r", "i": 2, "n": 16 if g else 0, "r": r, "v": g}]
                hists.append(tv.Hist(sc, ev, [], 0, None))

        ts = [threading.Thread(target=worker) for _ in range(2 if tier == "quick" else 4)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        res.laps = total[0]
    except Exception as e:  # noqa
        errs.append(e)


FILLS = {
    "quick": [("tb", c) for c in (1, 2, 3, 5, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000003)]
    + [("ad", c) for c in (1, 2, 63, 64, 65, 100, 128, 257, 1000, 1025, 4097, 65536, 65537)] + [("bd", c) for c in (1, 3, 64, 100, 129, 256, 1000, 1024, 65537)]
    + [(f, c) for f in ("ts", "bs") for c in (64, 100, 257, 1025)]
    + [("%s:%s" % (f, e), c) for e in ("zst", "byte", "wide", "align", "heap") for f, c in (("tb", 1), ("tb", 3), ("ts", 3), ("ad", 1), ("ad", 2), ("bd", 2), ("bs", 3))],
    "thorough": [("tb", c) for c in list(range(1, 700)) + [2 ** k + d for k in range(10, 22) for d in (-1, 0, 1)]] + [("ad", c) for c in range(1, 300)] + [("bd", c) for c in range(1, 300)]
    + [("ad", 2 ** k + d) for k in range(9, 21) for d in (-1, 0, 1)] + [(f, c) for f in ("ts", "bs") for c in (64, 100, 257, 1025)]
    + [("%s:%s" % (f, e), c) for e in ("zst", "byte", "wide", "align", "heap") for f, c in [(f, c) for f in ("tb", "ad", "bd") for c in (1, 2, 3, 4, 5, 8, 100)] + [("ts", 3), ("bs", 3), ("ts", 64), ("bs", 64)]],
}


def fills(tier, seed, hists, res, errs):
    """Large capacities. A wrong step becomes the same wrong step of a small queue:
    the specification is the same for every capacity."""
    try:
        exe = build()
        for fl, cap in FILLS[tier]:
            n = (100000 if ":" not in fl else 20000) if tier == "quick" else 600000
            sc = {"id": "fills-%s-c%d" % (fl.replace(":", "-"), cap), "fl": fl.split(":")[0], "cap": 1, "pre": [["fills", fl, cap, seed]], "th": []}
            try:
                p = subprocess.run([exe, "fills", fl, str(cap), str(n), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                hists.append(tv.Hist(sc, [{"k": "stuck", "i": -1, "s": "no end after a long time"}], [], 0, None))
                continue
            ls = [l for l in p.stdout.splitlines() if l.startswith("{")]
            d = json.loads(ls[-1]) if ls else {}
            if p.returncode != 0 or not d:
                hists.append(tv.Hist(sc, [{"k": "crash" if p.returncode < 0 else "panic", "i": -1, "s": p.stderr[-200:]}], [], 0, None))
            elif "bad" in d:
                hists.append(tv.Hist(sc, small(d["bad"], d["want"], d["got"]), [], 0, None))
            else:
                res.laps += d["ok"]
    except Exception as e:  # noqa
        errs.append(e)


def small(what, want, got):
    """the step of a queue of capacity 1"""
    def op(i, o, r, v=0, n=16, a=0):
        return [{"k": "c", "i": i, "o": o, "r": r, "v": a, "s": str(v)}, {"k": "r", "i": i, "n": n, "r": r, "v": v}]
    ev = [{"k": "made", "i": -1}]
    if what == "push":
        # want: there is room
        if not want:
            ev += op(1, "try", "ok", a=1)
        return ev + (op(2, "try", "ok", a=2) if got else op(2, "try", "full", v=2, n=9, a=2))
    if what == "pop":
        if want:
            ev += op(1, "try", "ok", a=1)
        # (a wrong value, if both are there)
        return ev + (op(2, "get", "ok", v=-1) if got else op(2, "get", "empty", n=0))
    if what == "end":
        return ev + [{"k": "end", "i": -1, "n": got}]
    ref = {"len": 0, "isempty": 1, "remaining": 1, "capacity": 1}[what]
    return ev + op(1, what, "ok", v=ref + got - want)


# --------------------------------------------------------------------------
def policies(tier, seed, res):
    exe = build()
    cfg = "RecyclePolicyGen.cfg" if tier == "quick" else "RecyclePolicyGenDeep.cfg"
    rc, out = tv.tlc("RecyclePolicyGen", cfg, workers=1)
    st = tv.tlc_stats(out)
    if rc != 0 or st is None:
        raise tv.ToolError("RecyclePolicyGen: %s" % out[-2000:])
    scripts = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"SCRIPT", "(.*)">>', out)]
    if not scripts:
        raise tv.ToolError("no scripts: %s" % out[-2000:])
    res.states += st[1]
    res.trans += st[0]
    p = subprocess.run([exe, "policies"], input="\n".join(json.dumps(s) for s in scripts), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    traces = [json.loads(l) for l in p.stdout.splitlines() if l]
    res.execs += len(traces)
    res.uniq += len(traces)
    res.scen += len(scripts)
    if p.returncode != 0:
        # the library panicked or crashed
        k = "crash" if p.returncode < 0 else "panic"
        res.viol.append((k, {"k": k, "stderr": p.stderr[-400:]}, None, []))
        return
    CH = 60000
    for o in range(0, len(traces), CH):
        part = traces[o:o + CH]
        path = os.path.join(tv.WORK, "pol-%d.ndjson" % os.getpid())
        with open(path, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        rc, out = tv.tlc("RecyclePolicyTrace", "RecyclePolicyTrace.cfg", env={"TRACES": path}, workers=8)
        os.unlink(path)
        st = tv.tlc_stats(out)
        if rc != 0 or st is None:
            raise tv.ToolError("RecyclePolicyTrace: %s" % out[-2000:])
        rej = sorted({(int(a), int(b)) for a, b in re.findall(r'<<"REJ", (\d+), (\d+)>>', out)})
        exp = sum(len(t["st"]) + 1 for t in part) - sum(len(part[a - 1]["st"]) - b for a, b in rej)
        if st[1] != exp:
            raise tv.ToolError("RecyclePolicyTrace visited %d states, expected %d" % (st[1], exp))
        res.states += st[1]
        res.trans += st[0]
        res.traces += len(part)
        for a, b in rej:
            t = part[a - 1]
            res.viol.append(("policy", {"policy": t["pol"], "collection": t["kind"], "min": t["min"], "max": t["max"], "amax": t["amax"], "step": b, "trace": t["st"][:b]}, None, []))
    res.samples.append({"script": scripts[len(scripts) // 2], "trace": traces[len(traces) // 2]})


# --------------------------------------------------------------------------
# programs for real threads
NB_S, NB_R = ["try", "tryr"], ["get", "getr"]
W_S, W_R = ["send", "send", "sendr"], ["recv", "recv", "recvr"]
#       flavours, what senders do, what the receiver does, receiver stops early
STRESS = {
    "C01": ("tb ts bd bs ad as", W_S + NB_S, W_R + NB_R, 0.3),
    "C02": ("tb ts bd ad as", W_S + NB_S, W_R + NB_R, 0.1),
    "C03": ("tb ts bd ad", NB_S * 3 + W_S, NB_R + W_R, 0.2),
    "C04": ("tb ts bd ad", NB_S + W_S, NB_R * 3 + W_R, 0.1),
    "C05": ("tb ts bd bs ad as", W_S + NB_S, W_R + NB_R, 0.4),
    "C06": ("tb tb ts bd ad", NB_S, NB_R, 0.2),
    "C07": ("bd bs ad as", W_S + ["try"], W_R, 0.1),
    "C08": ("bd bs ad as", W_S * 2 + ["try"], W_R + NB_R, 0.1),
    "C09": ("ad as bd", W_S, W_R, 0.2),
    "C10": ("bd bs ad as", W_S + NB_S, W_R, 0.0),
    "C11": ("bd bs ad as", W_S * 2 + NB_S, W_R + ["get"], 1.0),
    "C12": ("tb ts bd bs ad as", W_S + NB_S, W_R + NB_R, 0.7),
    "C14": ("tb ts", [], [], 0),
    "C15": ("bd bs", W_S, W_R, 0.2),
    "C16": ("ad as", W_S, W_R, 0.1),
    "C17": ("ts bs as", W_S + NB_S, W_R + NB_R, 0.3),
    "C18": ("tb ts bd", NB_S * 2 + W_S, NB_R * 2 + W_R, 0.1),
    "C19": ("bd bs ad as", ["clone", "clone", "send", "try", "send"], W_R + ["isc"], 0.2),
}


def stress_programs(pid, rng, n):
    fls, ss, rs, early = STRESS[pid]
    fls, out = fls.split(), []
    for k in range(n):
        fl = fls[k % len(fls)]
        cap = rng.choice([1, 1, 2, 2, 3, 4])
        if pid == "C18":
            cap = rng.choice([1, 2, 3, 4] if fl[1] == "s" else [1, 2, 3, 5, 7, 8])
        th = []
        val = [0]

        def op(names):
            o = rng.choice(names)
            if pid in ("C09", "C15") and fl[0] == "b" and o in ("send", "sendr", "recv", "recvr") and rng.random() < 0.7:
                return [o + "t", 0, rng.choice([0, 1, 20, 50, 100, 300])]
            if pid in ("C09", "C16") and fl[0] == "a" and o in ("send", "recv") and rng.random() < 0.7:
                return [o + "x", 0, rng.choice([1, 1, 2, 3, 40])]
            return [o, 0, rng.choice([0, 0, 0, 10, 100])]

        def sends(ops):
            for o in ops:
                if o[0].startswith(("send", "try", "pushw")):
                    val[0] += 1
                    o[1] = val[0]
            return ops

        if fl in ("tb", "ts"):
            for t in range(rng.choice([2, 2, 3, 3, 4])):
                w = ["try", "tryr", "pushw"] if t == 0 else ["get", "getr", "popw"] if t == 1 else ["try", "pushw", "get", "popw", "getr", "tryr"]
                if pid == "C14":
                    w = w + ["len", "len", "isempty", "capacity"]
                th.append(sends([op(w) for _ in range(rng.randint(2, 4))]))
        else:
            ns = rng.choice([1, 2, 2, 2, 3])
            tot = 0
            for t in range(ns):
                o = [op(ss) for _ in range(rng.randint(1, 4 if ns < 3 else 3))]
                if not any(x[0] not in ("clone",) for x in o):
                    o.append(["send", 0, 0])
                tot += sum(x[0] != "clone" for x in o)
                th.append(sends(o))
            m = rng.randint(0, tot) if rng.random() < early else tot + rng.choice([0, 1, 2])
            o = [op(rs) for _ in range(min(m, 8))]
            if not o:
                o = [["drx", 0, 0]]
            th.insert(rng.randint(0, ns), o)
        out.append({"id": "real-%s-%d" % (pid.lower(), k), "fl": fl, "cap": cap, "th": th})
    return out


def stress(pid, tier, seed, res):
    """Runs programs with real threads; returns the histories TLC is to judge."""
    import random
    exe = build()
    n, ms, par = (60, 220, 3) if tier == "quick" else (500, 1000, 3)
    progs = stress_programs(pid, random.Random("%s/%s/real" % (pid, seed)), n)
    todo, lock, hists, errs = list(progs), threading.Lock(), [], []
    tot = [0, 0]

    def worker():
        p = None
        while True:
            with lock:
                if not todo or len([h for h in hists if h.bud]) > 3:
                    break
                sc = todo.pop(0)
            if p is None or p.poll() is not None:
                p = subprocess.Popen([exe, "stress"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            p.stdin.write(json.dumps(dict(sc, ms=ms, seed=seed * 1000 + len(todo), cap_uniq=12 if tier == "quick" else 40)) + "\n")
            p.stdin.flush()
            mine, ok = [], False
            for line in p.stdout:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "done" in d:
                    ok = True
                    with lock:
                        tot[0] += d["execs"]
                        tot[1] += d["uniq"]
                    if d.get("restart"):
                        p.wait()
                        p = None
                    break
                # bud marks histories which the triage did not accept
                mine.append(tv.Hist(sc, d["h"], [], 0 if d["f"] else 1, None))
            if not ok:
                p.wait()
                if p.returncode < 0 and p.returncode != -9:
                    mine.append(tv.Hist(sc, [{"k": "crash", "i": -1, "s": "signal %d" % -p.returncode}], [], 1, None))
                else:
                    with lock:
                        errs.append("native run of %s ended with %s" % (json.dumps(sc), p.returncode))
                p = None
            with lock:
                hists.extend(mine)
        if p is not None:
            p.stdin.close()
            p.wait()

    ts = [threading.Thread(target=worker) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise tv.ToolError("; ".join(errs[:3]))
    res.execs += tot[0]
    res.uniq += tot[1]
    res.notes.append("%d programs run by real threads (uninstrumented), %d executions, %d distinct histories" % (n, tot[0], tot[1]))
    return hists
