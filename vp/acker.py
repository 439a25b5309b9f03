"""C16: acknowledgers, against Acker."""
import copy
from . import gen
from .core import ToolError

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Length = %d Tell = %s Twice = %s
INVARIANTS One Early Exact Delivered Closed NeverAsleep Told
"""


def ops_of(r, names):
    """Operations with an action where one is needed."""
    return [{"o": o, "act": gen.action(r)} if o in ("set", "unset") else {"o": o} for o in names]


def fit(o):
    """set with a set, unset with an unset."""
    if "act" not in o:
        return o
    a = dict(o["act"], a=o["o"])
    a["v"] = {"k": "null", "v": []} if o["o"] == "unset" else a.get("v") or {"k": "bool", "v": [1]}
    return dict(o, act=a)


def corrupt(recs):
    bad = []
    for t in recs:
        for k, x in enumerate(t["res"]):
            def put(y):
                z = copy.deepcopy(t)
                z["res"][k] = y
                bad.append(z)
            if x["r"] == "ack":
                put({"r": "pend", "woken": False})
                put({"r": "closed", "woken": False})
                put(dict(x, ack=dict(x["ack"], abort=not x["ack"]["abort"])))
                put(dict(x, ack=dict(x["ack"], sid=x["ack"]["fid"][::-1] + [])) if x["ack"]["fid"][::-1] != x["ack"]["sid"] else dict(x, r="pend"))
                put(dict(x, ack=dict(x["ack"], acts=x["ack"]["acts"] + [{"a": "unset", "scope": 0, "name": [120]}])))
                if x["ack"]["acts"]:
                    put(dict(x, ack=dict(x["ack"], acts=x["ack"]["acts"][:-1])))
                if len(x["ack"]["acts"]) > 1 and x["ack"]["acts"][0] != x["ack"]["acts"][-1]:
                    put(dict(x, ack=dict(x["ack"], acts=x["ack"]["acts"][::-1])) if x["ack"]["acts"] != x["ack"]["acts"][::-1] else dict(x, r="pend"))
            elif x["r"] in ("ok", "closed") and t["ops"][k]["o"] in ("complete", "abort"):
                put(dict(x, r="closed" if x["r"] == "ok" else "ok"))
            elif x["r"] == "pend":
                put(dict(x, r="closed"))
            if x["woken"]:
                put(dict(x, woken=False))
    return bad


def c16(c):
    r = c.rng
    n = 6 if c.thorough else 5
    m = c.model("AckerMC", MC % (n, "TRUE", "FALSE"), "every history of %d steps" % n, timeout=2400)
    c.model_breaks("AckerMC", MC % (5, "FALSE", "TRUE"), "an ACK when dropped after completion, too", "", )
    names = [x["ops"] for x in m.jsons()]
    if len(names) != 7 ** n:
        raise ToolError("%d histories printed" % len(names))
    cases = []
    ids = [(1, 2), (0, 0), (7, 7), (gen.M64, 1), (1, gen.M64), (1 << 32, 1 << 48)]
    for q in names:
        s, f = r.choice(ids)
        q = ["unwind" if o == "drop" and r.random() < 0.3 else o for o in q]
        cases.append({"op": "acker", "sid": gen.limbs(s), "fid": gen.limbs(f), "ops": [fit(o) for o in ops_of(r, q)]})
    recs = judge(c, cases, "every history of %d steps, replayed" % n)
    good = r.sample(recs, min(len(recs), 600))
    cases = []
    for i in range(4000 if c.thorough else 1500):
        q = [r.choice(["set", "set", "unset", "poll"]) for j in range(r.choice([0, 1, 3, 10, 30]))]
        for j in range(r.choice([1, 1, 2, 3])):
            q.append(r.choice(["complete", "abort", "drop", "unwind", "complete", "rxdrop"]))
            q += [r.choice(["set", "unset", "poll", "complete", "abort"]) for j in range(r.choice([0, 1, 3]))]
        q += r.choice([[], ["poll"], ["drop", "poll"], ["unwind", "poll"], ["drop", "poll", "poll"]])
        cases.append({"op": "acker", "sid": gen.limbs(gen.num(r)), "fid": gen.limbs(gen.num(r)), "ops": [fit(o) for o in ops_of(r, q)]})
    cases.append({"op": "acker", "sid": gen.limbs(3), "fid": gen.limbs(4),
                  "ops": [fit(o) for o in ops_of(r, ["set", "unset"] * 300 + ["abort", "drop", "poll"])]})
    for k in (255, 256, 257, 1025, 4097) + ((70000,) if c.thorough else ()):
        acts = [fit(ops_of(r, ["set"])[0])["act"] if j % 100 == 0 else {"a": "unset", "scope": j % 5, "name": list(b"v%d" % j), "v": {"k": "null", "v": []}} for j in range(k)]
        for end in ("complete", "abort", "drop", "unwind"):
            cases.append({"op": "acker", "sid": gen.limbs(k), "fid": gen.limbs(1), "ops": [{"o": "all", "acts": acts[:k // 3]}, {"o": "poll"}, {"o": "all", "acts": acts[k // 3:]}]
                          + [fit(o) for o in ops_of(r, [end, "complete", "drop", "poll"])]})
    good += r.sample(judge(c, cases, "random longer histories"), 100)
    bad = corrupt(good)
    r.shuffle(bad)
    c.must_reject("AckerTrace", bad[:800], "replies altered")


def judge(c, cases, what):
    recs = c.run("acker", cases)
    bad = set(c.judge_each("AckerTrace", recs, what, cases=cases))
    return [x for i, x in enumerate(recs) if i not in bad]
