"""Runs the check of one property; see DESIGN.md."""
import json, os, random, sys, threading, time, traceback
from . import tv, scen, props, gen

EVID = os.path.join(tv.V, "evidence")
TITLES = {}


def opnames(path):
    return {e["i"]: e["o"] for e in path if e["k"] == "c"}


SENDS = {"try", "send", "sendt", "pushw", "pushwp", "tryr", "sendr", "sendrt"}
RECVS = {"get", "recv", "recvt", "popw", "popwp", "getr", "recvr", "recvrt"}
BACK = {"try", "send", "sendt"}


def klass(nm, r):
    b = 8 if nm in BACK else 0
    return {"full": 1 + b, "closed": 2 + b, "timeout": 4 + b, "empty": 0}.get(r, 16)


def kind(n, path):
    """What a rejected event says is wrong."""
    k = n["k"]
    if k in tv.BAD:
        return k
    if k == "end":
        return "leak" if n["n"] else "wleak"
    if k in ("made", "rejected"):
        return "made"
    ops = opnames(path)
    if k == "q":
        nm = {ops.get(i, "") for i in n["b"]}
        if nm & RECVS and nm & SENDS:
            return "sleep:both"
        return "sleep:recv" if nm & RECVS else "sleep:send"
    nm = ops.get(n["i"], "")
    if k == "r":
        if n["r"] == "panic":
            return "panic"
        call = next(e for e in path if e["k"] == "c" and e["i"] == n["i"])
        if n["n"] != klass(nm, n["r"]):
            return "class"
        if nm in BACK and n["r"] in ("full", "closed", "timeout") and n["v"] != call["v"]:
            return "back"
        if n["t"] >= 0 and (n["t"] > call["n"] + 2000 or (n["r"] == "timeout" and n["t"] < call["n"])):
            return "time"
        if n["v"] in (-1, -3):
            return "badval"
    if nm in SENDS:
        return "lin:send"
    if nm in RECVS:
        return "lin:recv"
    if nm in ("relp", "relc"):
        return "lin:rel"
    if nm in ("len", "isempty", "remaining", "capacity"):
        return "lin:obs"
    if nm == "isc":
        return "lin:isc"
    if nm == "split":
        return "made"
    return "lin:pend"


def describe(n, ex, path):
    ops = opnames(path)
    s = {k: v for k, v in n.items() if v not in (0, "", [], -1)}
    return "%s: %s at %s of %s" % (kind(n, path), n.get("s", "") or n["k"], json.dumps(s), ops.get(n["i"], "?"))


class Result:
    def __init__(self):
        self.viol, self.other, self.known = [], [], []
        self.states = self.trans = self.traces = self.execs = self.uniq = 0
        self.scen = self.complete = self.skipped = 0
        self.samples = []
        self.models = []
        self.notes = []
        self.laps = 0
        self.generated = 0


def design(pid, tier, res, errs):
    """Model-checks the specifications themselves (in the background)."""
    from . import models

    def one(m):
        try:
            res.models.append(models.run(m))
        except Exception as e:  # noqa
            errs.append(e)

    ms = models.for_property(pid, tier)
    # the big ones one after another
    for m in [m for m in ms if m.get("thorough")]:
        one(m)
    ts = [threading.Thread(target=one, args=(m,)) for m in ms if not m.get("thorough")]
    [t.start() for t in ts]
    [t.join() for t in ts]


def accepts(pid, kd):
    ks = props.KINDS[pid]
    if ks is None:
        return True
    if kd == "sleep:both":
        return bool(ks & {"sleep:recv", "sleep:send"})
    return kd in ks


def traces(pid, tier, seed, res, scale=None):
    k = scale or (1 if tier == "quick" else 6)
    ex, rn = (2000, 1200) if tier == "quick" else (12000, 12000)
    jobs = []
    todo = [(props.BUILD[pid], False)]
    if pid in props.NOSTD:
        todo.append((props.NOSTD[pid], True))
    for f, nostd in todo:
        exe = tv.build(nostd=nostd)
        b = scen.B(("n" if nostd else "") + pid.lower() + "-", execs=ex, rand=rn)
        f(b, random.Random("%s/%s/%s" % (pid, seed, nostd)), k)
        g = (props.FROMSPEC_NOSTD if nostd else props.FROMSPEC).get(pid)
        if g:
            n0 = len(b.out)
            g(b, random.Random("%s/%s/%s/gen" % (pid, seed, nostd)), props.NGEN if tier == "quick" else None)
            res.generated += len(b.out) - n0
        for s in b.out:
            s.setdefault("cap_uniq", 14 if tier == "quick" else 60)
            if tier != "quick":
                s["budget"] = 4
        jobs += [(exe, s) for s in b.out]
    t0 = time.time()
    lapth, laph, laperr = None, [], []
    if pid in ("C01", "C02", "C03", "C04", "C12", "C14", "C18"):
        from . import native
        lapth = threading.Thread(target=lambda: (pid == "C18" and native.laps(tier, laph, res, laperr), native.fills(tier, seed, laph, res, laperr)))
        lapth.start()
    hist, summ = tv.explore(jobs, seed, deadline=t0 + (420 if tier == "quick" else 5400))
    res.scen += len(jobs)
    res.execs += sum(s["execs"] + s["rand"] for s in summ)
    res.uniq += sum(s["uniq"] for s in summ)
    res.complete += sum(1 for s in summ if s.get("complete"))
    res.skipped += sum(1 for s in summ if s.get("skipped"))
    res.t_explore = round(time.time() - t0, 1)
    if lapth:
        lapth.join()
        if laperr:
            raise laperr[0]
        hist += laph
        res.notes.append("%d further send/receive pairs at full speed, uninstrumented" % res.laps)
    from . import native
    if pid in native.STRESS:
        hist += native.stress(pid, tier, seed, res)
    CH = 40000
    rej = []
    for i in range(0, len(hist), CH):
        r, info = tv.validate(hist[i:i + CH], "%s-%d" % (pid, i))
        rej += r
        res.states += info["states"]
        res.trans += info["transitions"]
        res.traces += info["histories"]
        if len(rej) > 400:
            break
    # recycling: is it only the policy calls which are wrong?
    pol = [(n, h, p) for n, h, p in rej if h.sc.get("pol")]
    polonly = set()
    if pol:
        again = []
        for n, h, p in pol[:60]:
            sc = dict(h.sc)
            sc["pol"] = False
            again.append(tv.Hist(sc, h.ev, h.trail, h.bud, h.exe))
        r2, _ = tv.validate(again, pid + "-p")
        bad2 = {id(h.ev) for _, h, _ in r2}
        polonly = {id(h.ev) for _, h, _ in pol[:60]} - bad2
    # the known deviation
    flt = [(n, h, p) for n, h, p in rej if set(h.sc.get("faults", {})) & {"new", "rec"}]
    known = set()
    if flt:
        r3, _ = tv.validate([h for _, h, _ in flt], pid + "-k", env={"DEVIATION": "wedge"})
        bad3 = {id(h.ev) for _, h, _ in r3}
        known = {id(h.ev) for _, h, _ in flt} - bad3
    for n, h, p in rej:
        if id(h.ev) in known:
            res.known.append((n, h, p))
            continue
        kd = "pol" if id(h.ev) in polonly else kind(n, p)
        (res.viol if accepts(pid, kd) else res.other).append((kd, n, h, p))
    good = [h for h in hist if len(h.ev) > 8]
    if good:
        h = good[len(good) // 2]
        res.samples.append({"scenario": {k: v for k, v in h.sc.items() if k in ("id", "fl", "cap", "pre", "th", "post", "weak", "faults", "freeze")},
                            "schedule": h.trail[:60], "history": h.ev[:30]})
    res.samples.append({"explored": sorted(({k: s[k] for k in ("sc", "execs", "rand", "uniq", "budget", "complete")} for s in summ if not s.get("skipped")),
                                           key=lambda s: -s["uniq"])[:3]})


def main(pid, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(tv.WORK, exist_ok=True)
    res, errs = Result(), []
    th = threading.Thread(target=design, args=(pid, tier, res, errs))
    th.start()
    if pid in props.BUILD:
        traces(pid, tier, seed, res)
    if pid == "C20":
        from . import native
        native.policies(tier, seed, res)
    th.join()
    if errs:
        raise errs[0]
    cov = {
        "states": res.states + sum(m["states"] for m in res.models + gen.STATS),
        "transitions": res.trans + sum(m["transitions"] for m in res.models + gen.STATS),
        "traces_validated_against_impl": res.traces,
        "samples": res.samples,
        "executions_of_the_implementation": res.execs,
        "distinct_histories": res.uniq,
        "scenarios": res.scen,
        "of_which_generated_from_the_specification": res.generated,
        "scenarios_explored_completely": res.complete,
        "scenarios_skipped_for_time": res.skipped,
        "models": res.models + gen.STATS,
    }
    if res.notes:
        cov["notes"] = res.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME.get(pid, []) + ASSUME["*"], "wall_s": round(time.time() - t0, 1), "violations": len(res.viol)}
    if res.known:
        n, h, p = res.known[0]
        for line in open(os.path.join(tv.V, "known_findings.txt")):
            if line.startswith("finding: property=%s " % pid):
                print("KNOWN-FINDING: property=%s %s (%d histories, e.g. scenario %s)" % (pid, line.split(" ", 2)[2].strip(), len(res.known), h.sc["id"]))
        cov["known_finding_histories"] = len(res.known)
    for kd, n, h, p in res.other[:3]:
        print("NOTE: %s: a rejected history which is not about this property: %s" % (h.sc["id"], describe(n, h, p)))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if res.viol:
        kd, n, h, p = min(res.viol, key=lambda x: (len(x[3]), len(x[2].trail) if x[2] else len(json.dumps(x[1]))))
        rp = os.path.join(EVID, "replay-%s.json" % pid)
        if h is not None:
            json.dump({"property": pid, "kind": kd, "nostd": "nostd" in (h.exe or ""), "sc": h.sc, "trail": h.trail, "bud": h.bud,
                       "rejected": n, "history": p[1:]}, open(rp, "w"), indent=1)
            print("scenario %s" % json.dumps({k: v for k, v in h.sc.items() if k in ("id", "fl", "cap", "pre", "th", "post", "weak", "faults", "freeze")}))
            print(describe(n, h, p))
        else:
            json.dump({"property": pid, "kind": kd, "case": n}, open(rp, "w"), indent=1)
            print("%s: %s" % (kd, json.dumps(n)))
        print("%d rejected histories" % len(res.viol))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: %d scenarios, %d executions, %d distinct histories, %d validated with TLC (%d states), models %s; %.0f s" % (
        pid, tier, res.scen, res.execs, res.uniq, res.traces, res.states, [m["name"] for m in res.models], time.time() - t0))
    return 0


ASSUME = {
    "*": ["schedules are explored up to a bounded number of deviations from round-robin, plus random ones; scenarios are small programs",
          "stale loads are modelled per location with vector clocks (no out-of-thin-air, no store buffering of SeqCst operations)",
          "the harness's Rust transcription of Channel.tla only selects histories; every verdict is TLC's"],
}


def replay(path):
    import subprocess
    d = json.load(open(path))
    if "case" in d or not d.get("trail") and d["sc"]["id"].startswith(("laps", "fills", "real")):
        print(json.dumps(d, indent=1))
        return main(d["property"], "quick", 1)
    exe = tv.build(nostd=d.get("nostd", False))
    p = subprocess.run([exe, "replay", path], text=True, capture_output=True)
    sys.stdout.write(p.stderr)
    ev = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    r, _ = tv.validate([tv.Hist(d["sc"], ev, d["trail"], d["bud"], exe)], "replay")
    for n, h, q in r:
        print("REJECTED by the specification: " + describe(n, h, q))
    return 1 if r else 0
