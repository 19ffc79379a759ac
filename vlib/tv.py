"""Building blocks: build the harness, explore scenarios, validate histories with TLC."""
import json, os, re, subprocess, sys, threading, time, queue, shutil, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(V, "work")
HARN = os.path.join(V, "harness")
SPEC = os.path.join(V, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class ToolError(Exception):
    pass


# --------------------------------------------------------------------------
def fingerprint(crate=HARN):
    """of everything the harness is built from"""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), os.path.join(crate, "src"), os.path.join(crate, "Cargo.toml")):
        files = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build(nostd=False):
    """Builds the harness against /repo's working tree; returns the binary."""
    tgt = os.path.join(HARN, "target-nostd" if nostd else "target-std")
    env = dict(os.environ, RUSTFLAGS="--cfg thingbuf_verif -Awarnings", CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "build", "--release", "--offline", "-q"]
    if nostd:
        cmd += ["--no-default-features"]
    # do not depend on file times
    stamp, fp = os.path.join(tgt, "verif-stamp"), fingerprint()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != fp:
        if os.path.exists(stamp):
            os.unlink(stamp)
        subprocess.run(["cargo", "clean", "--release", "--offline", "-q", "-p", "thingbuf", "-p", "tbharness"], cwd=HARN, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(cmd, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(fp)
    return os.path.join(tgt, "release", "tbharness")


# --------------------------------------------------------------------------
class Hist:
    __slots__ = ("sc", "ev", "trail", "bud", "exe")

    def __init__(self, sc, ev, trail, bud, exe):
        self.sc, self.ev, self.trail, self.bud, self.exe = sc, ev, trail, bud, exe


def explore(jobs, seed, ncpu=NCPU, deadline=None):
    """jobs: list of (binary, scenario).  Returns (histories, summaries)."""
    q = queue.Queue()
    # long ones first
    for j in sorted(jobs, key=lambda j: -(j[1].get("execs", 2000) + j[1].get("rand", 0))):
        q.put(j)
    hist, summ, errs = [], [], []
    lock = threading.Lock()

    def worker():
        procs = {}
        while True:
            try:
                exe, sc = q.get_nowait()
            except queue.Empty:
                break
            if deadline and time.time() > deadline:
                with lock:
                    summ.append({"done": sc["id"], "skipped": True, "execs": 0, "rand": 0, "uniq": 0, "budget": -1, "complete": False})
                continue
            p = procs.get(exe)
            if p is None or p.poll() is not None:
                p = subprocess.Popen([exe, "explore"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                procs[exe] = p
            s = dict(sc)
            s["seed"] = seed
            try:
                p.stdin.write(json.dumps(s) + "\n")
                p.stdin.flush()
            except BrokenPipeError:
                with lock:
                    errs.append("harness died before %s" % sc["id"])
                procs.pop(exe, None)
                continue
            mine, ok = [], False
            for line in p.stdout:
                line = line.strip()
                if not line:
                    continue
                try:
                    d = json.loads(line)
                except ValueError:
                    continue  # a line cut off by a crash
                if "done" in d:
                    d["sc"] = sc["id"]
                    with lock:
                        summ.append(d)
                    ok = True
                    if d.get("restart"):
                        p.wait()
                        procs.pop(exe, None)
                    break
                if "crash" in d:
                    kind = "stuck" if d["crash"] == 14 else "crash"
                    mine.append(Hist(sc, [{"k": kind, "i": -1, "s": "signal %d" % d["crash"]}], d.get("trail", []), d.get("bud", 0), exe))
                    break
                mine.append(Hist(sc, d["h"], d["trail"], d["bud"], exe))
            with lock:
                hist.extend(mine)
            if not ok:
                p.wait()
                err = p.stderr.read()
                procs.pop(exe, None)
                if not (mine and mine[-1].ev[0]["k"] in ("stuck", "crash")):
                    with lock:
                        errs.append("harness failed on %s (exit %s): %s" % (sc["id"], p.returncode, err[-500:]))
                else:
                    with lock:
                        summ.append({"done": sc["id"], "sc": sc["id"], "execs": 0, "rand": 0, "uniq": len(mine), "budget": -1, "complete": False, "crashed": True})
        for p in procs.values():
            try:
                p.stdin.close()
                p.wait(timeout=10)
            except Exception:
                p.kill()

    ts = [threading.Thread(target=worker) for _ in range(ncpu)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise ToolError("; ".join(errs[:3]))
    return hist, summ


# --------------------------------------------------------------------------
BAD = {"race", "uaf", "stuck", "panic", "doubledrop", "baddrop", "hang", "crash", "badval"}
BUFFL = {"tb", "tbd", "ts", "tsd"}


def spec_events(h):
    """The events of one history in the form ChannelTrace reads."""
    sc = h.sc
    if sc.get("weak", 0) == 2 or sc.get("memonly"):
        # executions without any ordering between calls are not expected to be
        # linearisable in real time: only what is wrong by itself is kept
        out = []
        for e in h.ev:
            if e["k"] in BAD or (e["k"] == "end"):
                out.append(e)
            elif e["k"] == "r" and (e.get("v", 0) in (-1, -3) or e.get("r") == "panic"):
                out.append({"k": "badval" if e.get("r") != "panic" else "panic", "i": e["i"], "s": e.get("s", "")})
        ev = out
    else:
        ev = h.ev
    pe = {}
    for e in ev:
        if e["k"] == "r":
            pe[e["i"]] = (e.get("b", []), e.get("e", 0))
    res = []
    for e in ev:
        k = e["k"]
        n = {"k": k, "i": e["i"], "o": "", "v": e.get("v", 0), "r": e.get("r", ""), "n": e.get("n", 0), "w": 0, "b": [], "e": 0, "t": -1, "s": ""}
        if k in ("c", "a"):
            n["o"] = e.get("o", "")
            n["w"] = int(e.get("s", "0") or 0)
            if k == "c":
                n["b"], n["e"] = pe.get(e["i"], ([], 0))
            else:
                n["o"], n["v"], n["n"] = "", 0, 0
        elif k == "r":
            if e.get("o"):
                n["t"] = int(e["o"])
            n["s"] = e.get("s", "")
        elif k == "q":
            n["b"] = e.get("b", [])
        elif k in BAD:
            n["s"] = e.get("s", "")
            n["b"] = []
        res.append(n)
    return res


class Trie:
    def __init__(self):
        self.nodes = []  # dicts
        self.kids = []  # dict key -> idx
        self.parent = []
        self.ex = []  # example history
        self.roots = {}
        self.n_hist = 0

    def _new(self, d, parent, h):
        self.nodes.append(d)
        self.kids.append({})
        self.parent.append(parent)
        self.ex.append(h)
        return len(self.nodes) - 1

    def add(self, h):
        sc = h.sc
        trk = bool(sc.get("pol"))
        snd = 1 if not sc.get("rawsplit") else 0
        rk = (sc["cap"], trk, snd)
        if rk not in self.roots:
            self.roots[rk] = self._new({"k": "root", "cap": sc["cap"], "trk": trk, "n": snd}, -1, h)
        cur = self.roots[rk]
        self.n_hist += 1
        for e in spec_events(h):
            key = (e["k"], e["i"], e["o"], e["v"], e["r"], e["n"], e["w"], tuple(e["b"]), e["e"], e["t"], e["s"])
            nx = self.kids[cur].get(key)
            if nx is None:
                nx = self._new(e, cur, h)
                self.kids[cur][key] = nx
            cur = nx
        return cur

    def write(self, path):
        with open(path, "w") as f:
            for i, d in enumerate(self.nodes):
                d = dict(d)
                d.pop("s", None)
                d["ch"] = [c + 1 for c in self.kids[i].values()]
                f.write(json.dumps(d, separators=(",", ":")) + "\n")

    def descend(self, n):
        out, st = 0, [n]
        while st:
            x = st.pop()
            out += 1
            st.extend(self.kids[x].values())
        return out

    def path(self, n):
        p = []
        while n >= 0:
            p.append(self.nodes[n])
            n = self.parent[n]
        return p[::-1]


def tlc(module, cfg, cwd=SPEC, env=None, workers=NCPU, extra=(), timeout=1500, heap="10g"):
    md = os.path.join(WORK, "tlc-%s-%d-%d" % (module, os.getpid(), threading.get_ident() % 100000))
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        e = ToolError("TLC timed out on %s: %s" % (module, str(o)[-300:]))
        e.partial = o.decode("utf8", "replace") if isinstance(o, bytes) else o
        raise e
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if not m:
        return None
    return int(m.group(1)), int(m.group(2)), int(m.group(3))


def validate(hists, tag, workers=NCPU, env=None):
    """Returns (rejections [(node, Hist, path)], info)."""
    t0 = time.time()
    tr = Trie()
    for h in hists:
        tr.add(h)
    if not tr.nodes:
        return [], {"nodes": 0, "states": 0, "transitions": 0, "histories": 0}
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, "trie-%s-%d.json" % (tag, os.getpid()))
    tr.write(path)
    try:
        rc, out = tlc("ChannelTrace", "ChannelTrace.cfg", env=dict(env or {}, TRIE=path), workers=workers)
    finally:
        if not os.environ.get("KEEP"):
            os.unlink(path)
    st = tlc_stats(out)
    rej = sorted({int(x) - 1 for x in re.findall(r'<<"REJ", (\d+)>>', out)})
    if st is None or rc not in (0,):
        raise ToolError("TLC failed on recorded histories (rc %s):\n%s" % (rc, out[-3000:]))
    expect = len(tr.nodes) - sum(tr.descend(n) - 1 for n in rej)
    if st[1] != expect or st[2] != 0:
        raise ToolError("TLC visited %d nodes, expected %d" % (st[1], expect))
    return [(tr.nodes[n], tr.ex[n], tr.path(n)) for n in rej], {
        "nodes": len(tr.nodes), "states": st[1], "transitions": st[0], "histories": tr.n_hist, "s": round(time.time() - t0, 1)}
