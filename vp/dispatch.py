"""C17 and C18: the dispatcher and its streams, against Dispatch."""
import copy, itertools
from . import gen
from .core import ToolError

L = gen.limbs
MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {%s} PerThread = %d Keys = {%s} Msgs = %d Reading = "%s" Locking = %s
INVARIANTS Once InOrder Content NoMore EndIsEnd
%s
"""
LIVE = "PROPERTIES EveryoneReads"
FINAL = ("-lncheck", "final")


def mc(c, live):
    if live:
        c.model("DispatchMC", MC % ("1,2", 1, "1", 1, "right", "TRUE", LIVE), "two threads, sleeping readers", extra=FINAL)
        c.model("DispatchMC", MC % ("1", 2, "1,2", 1, "right", "TRUE", LIVE), "one thread, two submissions, sleeping readers", extra=FINAL)
        c.model_breaks("DispatchMC", MC % ("1,2", 1, "1", 1, "blind", "TRUE", LIVE), "readers that do not look again", "", extra=FINAL)
        c.model_breaks("DispatchMC", MC % ("1", 2, "1", 1, "mute", "TRUE", LIVE), "readers that leave no waker", "", extra=FINAL)
        if c.thorough:
            c.model("DispatchMC", MC % ("1,2", 1, "1,2", 2, "right", "TRUE", LIVE), "two threads, two requests, two messages", extra=FINAL, timeout=3000)
            c.model("DispatchMC", MC % ("1", 3, "1", 1, "right", "TRUE", LIVE), "one thread, three submissions", extra=FINAL, timeout=3000)
    else:
        c.model("DispatchMC", MC % ("1,2", 2, "1,2", 1, "none", "TRUE", ""), "two threads, two submissions each")
        c.model("DispatchMC", MC % ("1,2,3", 1, "1", 2, "none", "TRUE", ""), "three threads, two messages")
        c.model("DispatchMC", MC % ("1,2", 1, "1,2", 2, "right", "TRUE", ""), "two threads and readers")
        c.model_breaks("DispatchMC", MC % ("1,2", 1, "1", 1, "none", "FALSE", ""), "without locks", "Once")
        if c.thorough:
            c.model("DispatchMC", MC % ("1,2", 3, "1,2", 1, "none", "TRUE", ""), "two threads, three submissions each", timeout=3000)


def notify(sid, fid, frag, names, r=None):
    ms = [dict(gen.message(r), name=list(n.encode())) if r else {"name": list(n.encode()), "args": []} for n in names]
    for m in ms:
        m["args"] = m["args"][:3]
    return {"t": "notify", "frag": frag, "sid": L(sid), "fid": L(fid), "msgs": ms}


def short(c, depth):
    """Every history of that many steps over a small alphabet."""
    def make(seq):
        ops, n = [], 0
        for s in seq:
            if s[0] == "submit":
                ops.append({"o": "submit", "n": notify(1, s[1], s[2], ["m%d" % n])})
                n += 1
            else:
                ops.append({"o": s[0], **({"i": s[1]} if len(s) > 1 else {})})
        # and in the end whatever is left
        return {"op": "dispatch", "ops": ops + [{"o": "next"}, {"o": "msg", "i": 0}, {"o": "msg", "i": 0}, {"o": "next"}, {"o": "msg", "i": 1}, {"o": "acked", "i": 0}]}
    alpha = [("submit", 1, True), ("submit", 1, False), ("submit", 2, True), ("next",), ("msg", 0), ("msg", 1), ("msgdrop", 0), ("acked", 0), ("drop", 0), ("close",), ("down",)]
    return [make(q) for q in itertools.product(alpha, repeat=depth)]


def longer(c, count, waits):
    r, cases = c.rng, []
    for x in range(count):
        ids = r.sample([(1, 2), (2, 1), (1, 1), (0, 0), (gen.M64, 1), (1, gen.M64), (1 << 32, 1), (12, 3), (1, 23)], r.randint(1, 5))
        ops, n, items, name = [], 0, 0, gen.labels(r)
        pending = list(range(3))
        for j in range(r.choice([4, 10, 25, 60])):
            o = r.choice(["submit"] * 6 + ["next"] * 4 + ["msg"] * (10 if waits else 6) + ["acked"] * 2 + ["set", "complete", "abort", "drop", "msgdrop", "rxdrop"])
            if r.random() < 0.01:
                o = r.choice(["close", "down"])
            if o == "submit":
                k = r.choice([0, 1, 1, 2, 4])
                ops.append({"o": o, "n": notify(*r.choice(ids), r.random() < 0.6, [name(n + q) for q in range(k)], r if r.random() < 0.3 else None)})
                n += k
                items += 1
            elif o in ("next", "close", "down"):
                ops.append({"o": o})
            else:
                q = {"o": o, "i": r.randrange(max(1, min(items, 6) if r.random() < 0.7 else items))}
                if o == "set":
                    q["act"] = {"a": "set", "scope": r.randrange(5), "name": [120], "v": gen.typed(r)}
                ops.append(q)
        end = r.choice(["down", "close", "none", "down"])
        ops += [{"o": end}] if end != "none" else []
        for k in range(min(items, 12)):
            ops.append({"o": "next"})
        for k in range(min(items, 12)):
            ops += [{"o": "msg", "i": k}] * r.choice([1, 3, 8]) + [{"o": "drop", "i": k}, {"o": "acked", "i": k}]
        cases.append({"op": "dispatch", "ops": ops})
    return cases


def bulk(c, k):
    """Much of everything: messages in a frame, frames of a request, requests at a time."""
    r, cases = c.rng, []
    look = lambda i, n: [{"o": "msg", "i": i}] * n
    # identifiers that are easily confused
    for x, y in gen.confusable():
        sub = lambda q, frag, name: {"o": "submit", "n": notify(*q, frag, [name])}
        cases.append({"op": "dispatch", "ops": [sub(x, True, "a"), sub(y, True, "b"), {"o": "next"}, {"o": "next"}, sub(x, False, "c"), sub(y, False, "d")]
                      + look(0, 3) + look(1, 3) + [{"o": "next"}, sub(y, False, "e"), {"o": "next"}] + look(2, 2)})
    for n in (17, 33, 65, 100, 129, 257, k, 1100):
        name = gen.labels(r)
        names = [name(j) for j in range(n)]
        cases.append({"op": "dispatch", "ops": [{"o": "submit", "n": notify(1, 1, False, names)}, {"o": "next"}] + look(0, n + 2)})
        cases.append({"op": "dispatch", "ops": [{"o": "submit", "n": notify(1, 1, True, names)}, {"o": "next"}] + look(0, n // 2)
                      + [{"o": "submit", "n": notify(1, 1, False, names)}] + look(0, 2 * n - n // 2 + 2)})
        # fragments nobody looks at until the end; a request the consumer left in between
        ops = [{"o": "submit", "n": notify(1, 1, j < n - 1, ["m%d" % j])} for j in range(n)]
        cases.append({"op": "dispatch", "ops": ops + [{"o": "next"}] + look(0, n + 2) + [{"o": "next"}]})
        cases.append({"op": "dispatch", "ops": [ops[0], {"o": "next"}] + look(0, 2) + ops[1:-1] + look(0, n) + [ops[-1]] + look(0, 3)})
        cases.append({"op": "dispatch", "ops": [ops[0], {"o": "next"}, {"o": "msgdrop", "i": 0}] + ops[1:] + [{"o": "submit", "n": notify(1, 1, False, ["new"])}, {"o": "next"}] + look(1, 3)})
        if n <= 129 or n == 1100:
            # requests at a time, finished in the other order
            ids = [(j % 3, j + 1) for j in range(n)]
            ops = [{"o": "submit", "n": notify(s, f, True, ["a%d" % f])} for s, f in ids]
            ops += [{"o": "submit", "n": notify(s, f, False, ["b%d" % f])} for s, f in reversed(ids)]
            ops += [{"o": "next"}] * (n + 1) + [x for j in r.sample(range(n), 12) for x in look(j, 3)]
            ops += [x for j in r.sample(range(n), 12) for x in ({"o": "drop", "i": j}, {"o": "acked", "i": j})]
            cases.append({"op": "dispatch", "ops": ops})
            cases.append({"op": "dispatch", "ops": ops[:n] + [{"o": "down"}] + [{"o": "next"}] * (n + 1) + look(0, 2) + look(n - 1, 2)})
    return cases


def judge(c, cases, what, wakes):
    recs = c.run("dispatch", cases)
    bad = set(c.judge_each("DispatchTrace", recs, what, cases=cases, cfg="DispatchTraceWakes.cfg" if wakes else None))
    return [x for i, x in enumerate(recs) if i not in bad]


def corrupt(recs, wakes):
    bad = []
    for t in recs:
        done = set()
        for k, x in enumerate(t["res"]):
            o = t["ops"][k]

            def put(**y):
                z = copy.deepcopy(t)
                z["res"][k].update(y)
                bad.append(z)
            if wakes:
                if x["msgs"]:
                    put(msgs=[])
                if x["next"]:
                    put(next=False)
                if x["acks"]:
                    put(acks=[])
                continue
            if x["r"] == "msg":
                put(m=dict(x["m"], name=[1]))
                put(r="pend")
                put(r="end")
            elif x["r"] in ("new", "none"):
                put(r="none" if x["r"] == "new" else "new")
            elif x["r"] == "pend":
                put(r="end")
            elif x["r"] == "end":
                put(r="pend")
            elif x["r"] == "item":
                put(r="pend")
            elif x["r"] == "err" and o["o"] == "submit":
                put(r="new")
    return bad


def crowds(c, n, rounds, live):
    r, cases = c.rng, []
    for x in range(n):
        nth = r.choice([2, 2, 3, 4])
        per = r.choice([1, 2, 3]) if nth == 2 else r.choice([1, 2]) if nth == 3 else 1
        keys = r.choice([1, 1, 2])
        ths, m = [], 0
        name = gen.labels(r, r.randrange(2))    # CrowdTrace takes them to be distinct
        for t in range(nth):
            ops = []
            for q in range(per):
                k = r.choice([1, 2, 0, 3, 30])
                ops.append(notify(1, 1 + r.randrange(keys), r.random() < 0.5, [name(m + j) for j in range(k)]))
                m += k
            ths.append(ops)
        cases.append({"op": "crowd", "rounds": rounds, "threads": ths, "live": live})
    return cases


def traces(recs, cases):
    out, of = [], []
    for r, k in zip(recs, cases):
        if r["op"] != "crowd":
            out.append({"ev": [{"e": r["op"]}]})
            of.append(k)
            continue
        for h in r["histories"]:
            at, ev = {}, []
            for e in h:
                if e["e"] == "inv":
                    at[e["th"], e["i"]] = len(ev) + 1
                    ev.append({"e": "inv", "op": k["threads"][e["th"]][e["i"]]})
                elif e["e"] == "res":
                    y = {"e": "res", "of": at[e["th"], e["i"]], "res": e["res"]}
                    if "ack" in e:
                        y["ack"] = e["ack"]
                    ev.append(y)
                else:
                    ev.append(e)
            out.append({"ev": ev})
            of.append(k)
    return out, of


def crowd(c, cases, what, most=2500):
    recs = c.run("dispatch", cases, jobs=2)
    ts, of = traces(recs, cases)
    odd = [i for i, t in enumerate(ts) if t["ev"][-1]["e"] != "items"]
    pick = sorted(set(odd) | set(c.rng.sample(range(len(ts)), min(most, len(ts)))))
    ts, of = [ts[i] for i in pick], [of[i] for i in pick]
    bad = set(c.judge_traces("CrowdTrace", ts, what, cases=of))
    good = [t for i, t in enumerate(ts) if i not in bad]
    if not any(t["ev"][0]["e"] == t["ev"][1]["e"] == "inv" for t in good) and not bad:
        raise ToolError("no submissions overlapped")
    return good


def corrupt_crowd(ts):
    bad = []
    for t in ts:
        ev = t["ev"]

        def put(k, e):
            bad.append({"ev": ev[:k] + [e] + ev[k + 1:]})
        last = ev[-1]
        its = last["items"]
        put(len(ev) - 1, {"e": "stuck"})
        for j, q in enumerate(its):
            if q:
                put(len(ev) - 1, dict(last, items=its[:j] + [q[1:]] + its[j + 1:]))
                put(len(ev) - 1, dict(last, items=its[:j] + [q + q[:1]] + its[j + 1:]))
        if its:
            put(len(ev) - 1, dict(last, items=its[:-1]))
            put(len(ev) - 1, dict(last, items=its + [[]]))
        if len(its) > 1 and its[0] != its[-1] and all(x["e"] == ("inv", "res")[k % 2] for k, x in enumerate(ev[:-1])):
            put(len(ev) - 1, dict(last, items=its[::-1])) if its != its[::-1] else None
        for k, e in enumerate(ev):
            if e["e"] == "res":
                if e["res"] == "new":
                    put(k, dict(e, ack=[]))
                    y = copy.deepcopy(e)
                    y["ack"][0]["sid"][0] ^= 1
                    put(k, y)
                    y = copy.deepcopy(e)
                    y["ack"][0]["acts"][0]["v"]["v"][0] += 1
                    put(k, y)
                    put(k, {"e": "res", "of": e["of"], "res": "err"})
    return bad


def some(c, bad, n=500):
    c.rng.shuffle(bad)
    return bad[:n]


def c17(c):
    mc(c, False)
    good = judge(c, short(c, 4), "every history of four steps", False)
    good = c.rng.sample(good, min(400, len(good)))
    good += judge(c, longer(c, 6000 if c.thorough else 700, False), "random longer histories", False)[:100]
    judge(c, bulk(c, 2000 if c.thorough else 400), "much of everything", False)
    conc = crowd(c, crowds(c, 40 if c.thorough else 10, 8000 if c.thorough else 1200, False), "histories of several threads", 40000 if c.thorough else 2500)
    conc += crowd(c, crowds(c, 20 if c.thorough else 4, 4000 if c.thorough else 600, True), "histories of several threads, with running consumers", 20000 if c.thorough else 1000)
    c.must_reject("DispatchTrace", some(c, corrupt(good, False)), "replies altered")
    c.must_reject("CrowdTrace", some(c, corrupt_crowd([t for t in conc if len(t["ev"]) < 12][:60])), "results altered", traces=True)
    c.assumptions += ["overlap of real threads is what the scheduler gives: the distinct histories of many rounds, not all schedules"]


def c18(c):
    mc(c, True)
    good = judge(c, short(c, 4), "every history of four steps", True)
    good += judge(c, longer(c, 8000 if c.thorough else 900, True), "random longer histories", True)[:150]
    judge(c, bulk(c, 1000 if c.thorough else 300), "much of everything", True)
    crowd(c, crowds(c, 40 if c.thorough else 8, 6000 if c.thorough else 800, True), "waiting consumers, several threads", 40000 if c.thorough else 2000)
    bad = corrupt(good, True)
    for f in ("msgs", "next", "acks"):
        if not any(z["res"] for z in bad):
            raise ToolError("nobody was woken")
    c.must_reject("DispatchTrace", some(c, bad), "wake-ups left out", cfg="DispatchTraceWakes.cfg")
    c.assumptions += ["wakers that count show whether a waiting task is woken; overlap of real threads is what the scheduler gives"]
