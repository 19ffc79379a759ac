"""The design-level models: which of them a check runs."""
import os, re, time
from . import tv

def ch(cfg, **kw):
    return dict(module="MCChannel", cfg=cfg + ".cfg", **kw)


def q(cfg, **kw):
    return dict(module="MCQueue", cfg=cfg + ".cfg", **kw)


def deep(m):
    return dict(m, thorough=True, workers=8, heap="16g", timeout=3000)


# the abstract queue has the properties; the design refines the abstract queue
BUFFER, CHAN, LIVE = ch("MCBuffer"), ch("MCChannel"), ch("MCChannelLive")
RING, MPMC, WAIT, CLOSE, CANCEL = q("MCQueueRingQ"), q("MCQueueMpmcQ"), q("MCQueueWaitQ"), q("MCQueueCloseQ"), q("MCQueueCancelQ")
TSEND, TRECV, MSEND, MRECV, LEN, COUNT = (q("MCQueue%sQ" % x) for x in ("TimedSend", "TimedRecv", "MoveSend", "MoveRecv", "Len", "Count"))
DEEP = {k: deep(v) for k, v in dict(
    buffer=ch("MCBufferDeep"), chan=ch("MCChannelDeep"), ring=q("MCQueueRing"), mpmc=q("MCQueueMpmc"), wait=q("MCQueueWait"),
    close=q("MCQueueClose"), cancel=q("MCQueueCancel"), timed=q("MCQueueTimed"), moves=q("MCQueueMoves"), len=q("MCQueueLen"), count=q("MCQueueCount")).items()}
MODELS = {
    "C01": [BUFFER, MPMC, DEEP["buffer"], DEEP["mpmc"]],
    "C02": [BUFFER, RING, DEEP["buffer"], DEEP["ring"]],
    "C03": [BUFFER, RING, DEEP["buffer"]],
    "C04": [BUFFER, CLOSE, DEEP["chan"]],
    "C06": [MPMC, DEEP["ring"]],
    "C07": [LIVE, WAIT, DEEP["wait"]],
    "C08": [LIVE, WAIT, DEEP["wait"]],
    "C09": [CANCEL, DEEP["cancel"]],
    "C10": [CHAN, CLOSE, DEEP["close"]],
    "C11": [CHAN, CLOSE, DEEP["close"], DEEP["chan"]],
    "C12": [RING, DEEP["mpmc"]],
    "C13": [RING, DEEP["ring"]],
    "C14": [BUFFER, LEN, DEEP["len"]],
    "C15": [TSEND, TRECV, DEEP["timed"]],
    "C16": [LIVE, MSEND, MRECV, DEEP["moves"]],
    "C18": [BUFFER, RING, DEEP["ring"]],
    "C19": [CHAN, CLOSE, COUNT, DEEP["count"]],
    "C20": [dict(module="MCRecyclePolicy", cfg="MCRecyclePolicy.cfg")],
}


def for_property(pid, tier):
    return [m for m in MODELS.get(pid, []) if tier == "thorough" or not m.get("thorough")]


def run(m):
    t0 = time.time()
    try:
        rc, out = tv.tlc(m["module"], m["cfg"], workers=m.get("workers", 2), extra=m.get("extra", ()), heap=m.get("heap", "4g"), timeout=m.get("timeout", 600))
    except tv.ToolError as e:
        # the time of a thorough run may be over before the model is: what TLC
        # has seen of it (breadth first) is reported as such
        p = re.findall(r"Progress\((\d+)\) at .*?: ([\d,]+) states generated.*?, ([\d,]+) distinct", getattr(e, "partial", ""))
        if not m.get("thorough") or not p or "Error:" in e.partial:
            raise
        d, gen, dist = p[-1]
        return {"name": m["cfg"].replace(".cfg", "") + " (not finished: depth %s)" % d, "states": int(dist.replace(",", "")),
                "transitions": int(gen.replace(",", "")), "s": round(time.time() - t0, 1)}
    st = tv.tlc_stats(out)
    if rc != 0 or st is None:
        raise tv.ToolError("model %s: rc %s\n%s" % (m["cfg"], rc, out[-3000:]))
    return {"name": m["cfg"].replace(".cfg", ""), "states": st[1], "transitions": st[0], "s": round(time.time() - t0, 1)}
