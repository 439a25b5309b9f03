"""Connections of the agent (C05, C07 - C14, C21) against Conn."""
import copy, itertools
from . import gen
from .core import ToolError

M = gen.b


# ------------------------------------------------------------------ building scenarios
def cfg(versions=(), caps=(), mfs=None, maxt=None, via=0):
    return {"versions": [list(v) for v in versions], "caps": list(caps),
            "mfs": [] if mfs is None else [mfs] if mfs < 1 << 30 else gen.limbs(mfs),
            "maxt": [] if maxt is None else [maxt], "via": via}


def hello(versions=((2, 0),), mfs=16384, caps=(), hc=(), eid=None):
    if eid is None:      # all connections come from the same engine
        eid = [M("engine")] if caps else ()
    return {"t": "hhello", "versions": [list(v) for v in versions], "mfs": gen.w32(mfs), "caps": list(caps),
            "hc": list(hc), "eid": [list(e) for e in eid]}


def msg(name="m", args=()):
    return {"name": M(name) if isinstance(name, str) else name, "args": [{"n": M(n), "v": v} for n, v in args]}


def u32(n):
    return {"k": "u32", "v": gen.limbs(n)}


def notify(sid=1, fid=1, msgs=None, frag=False):
    return {"t": "notify", "frag": frag, "sid": gen.limbs(sid), "fid": gen.limbs(fid),
            "msgs": [msg()] if msgs is None else msgs}


def ack(sid=1, fid=1):
    return {"t": "ack", "frag": False, "abort": False, "sid": gen.limbs(sid), "fid": gen.limbs(fid), "acts": []}


def disc(t="hdisc", code=0, text="bye"):
    return {"t": t, "code": gen.w32(code), "msg": M(text)}


def fb(f):
    return gen.framed(gen.encode(f))


def abort(f):
    body = gen.encode(f)
    body[4] |= 2
    return gen.framed(body)


def act(n):
    return {"a": "set", "scope": 1, "name": M("v"), "v": u32(n)}


def sized_notify(total, sid=1, fid=1):
    """A NOTIFY whose frame is exactly that many bytes."""
    for pad in range(max(0, total - 40), total):
        f = notify(sid, fid, [{"name": M("m"), "args": [{"n": M("a"), "v": {"k": "bin", "v": [7] * pad}}]}])
        if len(gen.encode(f)) == total:
            return f
    for pad in range(max(0, total - 40), total):
        f = notify(sid, fid, [{"name": M("mm"), "args": [{"n": M("a"), "v": {"k": "bin", "v": [7] * pad}}]}])
        if len(gen.encode(f)) == total:
            return f
    raise ToolError("no notify of %d bytes" % total)


def sized_acts(total, sid=1, fid=1):
    """Actions whose ACK frame is exactly that many bytes."""
    for name in ("v", "vv"):
        for pad in range(max(0, total - 40), total):
            a = [{"a": "set", "scope": 1, "name": M(name), "v": {"k": "bin", "v": [9] * pad}}]
            f = ack(sid, fid)
            f["acts"] = a
            if len(gen.encode(f)) == total:
                return a
    raise ToolError("no ack of %d bytes" % total)


def chunks(r, data, mode=None):
    """Split bytes (a list of parts) into read items."""
    flat = [x for p in data for x in p]
    mode = mode if mode is not None else r.randint(0, 6)
    if mode == 0 or not flat:
        return [{"d": flat}] if flat else []
    if mode == 1:
        return [{"d": p} for p in data if p]
    if mode == 2 and len(flat) < 400:
        out = []
        for x in flat:
            out.append({"d": [x]})
            if r.random() < 0.05:
                out.append({"pend": 1})
        return out
    cuts = sorted({r.randrange(1, len(flat)) for _ in range(r.choice([1, 2, 4, 8, 20]))}) if len(flat) > 1 else []
    out, prev = [], 0
    for c in cuts + [len(flat)]:
        out.append({"d": flat[prev:c]})
        prev = c
        k = r.random()
        if k < 0.2:
            out.append({"pend": r.randint(1, 2)})
        elif k < 0.3 and mode > 3:
            out.append({"sleep": r.choice([1, 7, 100, 5000, 30000, 600000])})
    return out


def conn(reads, calls=(), ready=(), make=None, **kw):
    return {"reads": reads, "calls": list(calls), "ready": list(ready), "make": make or {}, **kw}


def case(c, *conns):
    return {"op": "conn", "cfg": c, "conns": list(conns)}


def ok(acts=(), **kw):
    return {"acts": list(acts), **kw}


# ------------------------------------------------------------------ running and judging
def split(recs, cases):
    """One trace per connection, with the case it came from."""
    traces, of = [], []
    for r, k in zip(recs, cases):
        if r["op"] != "conn":            # panic, crash, hang of the whole case
            traces.append({"cfg": k["cfg"], "ev": [{"e": r["op"], "t": 0}]})
            of.append(k)
            continue
        for ev in r["conns"]:
            if len(ev) > 6000 and k["conns"][0].get("fold"):    # it does not repeat itself: judged as far as time allows
                ev = ev[:5000] + [{"e": "cut", "t": ev[4999]["t"]}]
            traces.append({"cfg": {x: k["cfg"][x] for x in ("versions", "caps", "mfs", "maxt")}, "ev": ev})
            of.append(k)
    return traces, of


def run(c, cases, what, cfgname=None, known=None):
    recs = c.run("conn", cases)
    traces, of = split(recs, cases)
    bad = c.judge_traces("ConnTrace", traces, what, cfg=cfgname, cases=of, known=known)
    kinds = {}
    for t in traces:
        for e in t["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.events = {k: c.events.get(k, 0) + n for k, n in kinds.items()} if hasattr(c, "events") else kinds
    return [t for i, t in enumerate(traces) if i not in set(bad)]


def model(c, **kw):
    """Model check MCConn in one configuration."""
    p = dict(MaxFrames=2, Cfg="CfgA", HelloFirst="TRUE", Failures="TRUE", MAXT=1, Slow="FALSE", Script="FALSE", DropAborted="TRUE")
    live = kw.pop("live", False)
    p.update(kw)
    text = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nVIEW view\nCONSTANTS %s\nINVARIANT Theorems\n" % (
        "Live" if live else "Spec", " ".join(("Cfg <- %s" % v) if k == "Cfg" else "%s = %s" % (k, v) for k, v in p.items()))
    if live:
        text += "PROPERTIES Stops Answered\n"
    c.model("MCConn", text, "connection, %s%s" % (" ".join("%s=%s" % x for x in sorted(p.items())), " with liveness" if live else ""), timeout=800)


def scenarios(c, num, depth=60, aborts=False, **kw):
    """Scenarios from random behaviours of MCConn, as harness cases."""
    p = dict(MaxFrames=6, Cfg="CfgA", HelloFirst="FALSE", Failures="TRUE", MAXT=3, Slow="TRUE", Script="TRUE", DropAborted="TRUE")
    p.update(kw)
    text = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\nINVARIANT Theorems\n" % (
        " ".join(("Cfg <- %s" % v) if k == "Cfg" else "%s = %s" % (k, v) for k, v in p.items()))
    r = c.tlc("MCConn", text, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.seed)], workers=8, timeout=600)
    if "Error" in r.out and "violated" in r.out:
        raise ToolError("simulation of MCConn: " + r.out[-2000:])
    seen, out = set(), []
    conf = cfg(((2, 0),), ("fragmentation", "pipelining"), 150, 100) if p["Cfg"] == "CfgA" else cfg(maxt=100)
    if p["Cfg"] == "CfgB":
        conf = cfg(maxt=100)
    for sc in r.jsons():
        k = repr(sc)
        if k not in seen:
            seen.add(k)
            k = from_script(c.rng, sc, aborts)
            if k:
                out.append(case(conf, k))
    if not out:
        raise ToolError("no scenarios from MCConn: " + r.out[-1500:])
    c.log("%d distinct scenarios from %d random behaviours of MCConn" % (len(out), num))
    return out


TICK = 100


def from_script(r, sc, aborts=False):
    reads, calls, ready, make, kw = [], [], [], {}, {}
    for x in sc:
        at = x["at"] * TICK
        if x["k"] == "d":
            q = x["r"]
            if q["res"] == "frame" and q["abort"] and not aborts:
                return None
            if q["res"] == "size":
                b = [255, 0, 0, 1] if r.random() < 0.5 else [0, 0, 255, 255]
            elif q["res"] == "invalid":
                b = gen.framed(r.choice([[], [3, 0, 0, 0, 1, 1, 1, 9], [77, 0, 0, 0, 1, 0, 0], [3, 0, 0, 0, 1, 240]]))
            elif q["abort"]:
                b = abort(q["frame"])
            else:
                b = fb(q["frame"])
            reads.append({"at": at})
            reads += chunks(r, [b], r.choice([0, 1, 3]))
        elif x["k"] == "eof":
            reads += [{"at": at}, {"eof": 1} if r.random() < 0.7 else {"err": 1}]
        elif x["k"] == "cancel":
            kw["cancel_at"] = at
        elif x["k"] == "block":
            slow = kw.setdefault("wslow", [])
            slow.append({"f": x["f"], "never": 1, "at": at})
            slow[-1].update({"flush": True} if x["flush"] else {"off": r.choice([0, 0, 1, 4, 6, 11])})
        elif x["k"] == "unblock":
            q = kw["wslow"][-1]
            q.pop("never")
            q["ms"] = at - q.pop("at")
        elif x["k"] == "ready":
            while len(ready) < x["i"]:
                ready.append({})
            step = ready[x["i"] - 1]
            if x["r"] == "pend":
                step["never"] = 1
            elif x["r"] == "ok":
                if step.pop("never", None):
                    step["delay"] = (x["at"] - x["t0"]) * TICK
            else:
                step.pop("never", None)
                step.update({"r": "err", "delay": (x["at"] - x["t0"]) * TICK, "m": [1]})
        elif x["k"] in ("ret", "fail", "timeout"):
            while len(calls) < x["i"]:
                calls.append({"acts": []})
            if x["i"] == 0:
                continue
            if x["k"] == "timeout":
                if "set" not in calls[x["i"] - 1]:
                    calls[x["i"] - 1] = {"r": "never", "set": 1}
            elif x["k"] == "fail":
                calls[x["i"] - 1] = {"r": "err", "m": [2], "delay": (x["at"] - x["t0"]) * TICK, "set": 1}
            else:
                a = {"a": "unset", "scope": 0, "name": [97] * 200 if x["big"] else [x["i"]], "v": {"k": "null", "v": []}}
                calls[x["i"] - 1] = {"acts": [a], "delay": (x["at"] - x["t0"]) * TICK, "set": 1}
        elif x["k"] == "made" and not x["ok"]:
            make["r"] = "err"
        elif x["k"] == "mkready":
            make["ready"] = {"r": "err"}
    for s in ready:
        if s.pop("never", None):
            s["r"] = "never"
    for s in kw.get("wslow", ()):
        if "never" in s:
            s["never"] = True
    if r.random() < 0.3:
        kw["wmax"] = r.choice([1, 3, 50])
    if r.random() < 0.3:
        kw["wpend"] = True
    return conn(reads, calls, ready, make, **kw)


# ------------------------------------------------------------------ corrupted traces
def corrupt(traces, limit=150):
    """Deviations the specification must not be able to explain."""
    bad = []
    for t in traces:
        ev = t["ev"]
        if any(e["e"] in ("wrerr", "cancel", "eof", "rderr") for e in ev):
            continue
        cut = len(ev)
        for i, e in enumerate(ev):
            def put(new):
                x = copy.deepcopy(t)
                x["ev"] = new
                bad.append(x)
            if e["e"] == "wr" and len(e["b"]) > 12:
                # a whole ACK: nothing in its head is free (the text of a DISCONNECT is)
                if e["b"][4] == 103 and e["b"][:4] == gen.framed(e["b"][4:])[:4]:
                    for k in (0, 3, 4, 8, 9):
                        y = copy.deepcopy(e)
                        y["b"][k] ^= 4
                        put(ev[:i] + [y] + ev[i + 1:])
                put(ev[:i] + ev[i + 1:])
                put(ev[:i] + [e, e] + ev[i + 1:])
            elif e["e"] == "call":
                put(ev[:i] + ev[i + 1:])
                put(ev[:i] + [e, e] + ev[i + 1:])
                y = copy.deepcopy(e)
                y["msgs"] = y["msgs"] + [msg("zz")]
                put(ev[:i] + [y] + ev[i + 1:])
            elif e["e"] == "ret" and e["r"] == "ok" and ev[i + 1]["e"] == "wr" and ev[i + 1]["b"][4:5] == [103]:
                y = copy.deepcopy(e)
                y["acts"] = y["acts"] + [act(7777)]
                put(ev[:i] + [y] + ev[i + 1:])
            elif e["e"] == "ready" and e["r"] == "ok" and i + 1 < len(ev) and ev[i + 1]["e"] == "call" and ev[i - 1]["e"] != "ready":
                put(ev[:i] + ev[i + 1:])
            elif e["e"] == "flush" and i < cut and (ev[i + 1]["t"] > e["t"] + 5 or ev[i + 1]["e"] in ("end", "stuck")):
                put(ev[:i] + ev[i + 1:])
            elif e["e"] == "end" and i < cut:
                put(ev[:i] + [{"e": "stuck", "t": e["t"]}])
                put(ev[:i] + [{"e": "panic", "t": e["t"]}])
            elif e["e"] == "mk":
                put(ev[:i] + ev[i + 1:])
                put(ev[:i] + [e, e] + ev[i + 1:])
        if len(bad) > limit:
            break
    return bad


def selftest(c, good, kinds=("wr", "call")):
    good = [t for t in good if any(e["e"] in kinds for e in t["ev"]) and len(t["ev"]) < 60]
    c.rng.shuffle(good)
    c.must_reject("ConnTrace", corrupt(good), "events removed, repeated or altered", traces=True)


def need(c, *kinds):
    """The recorded traces have to contain these kinds of events, or the check shows nothing."""
    for k in kinds:
        if not c.events.get(k):
            raise ToolError("no %s event was recorded" % k)
