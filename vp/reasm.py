"""C15: fragment reassembly, against Reassembly."""
import copy, itertools
from . import gen
from .core import ToolError

L = gen.limbs


def op(sid, fid, frag, items):
    return {"sid": L(sid), "fid": L(fid), "frag": frag, "items": list(items)}


def mc(c):
    text = lambda th, per, locked, inv: ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = {%s} PerThread = %d Keys = {1,2} Locked = %s\nINVARIANTS %s\n"
                                         % (th, per, locked, inv))
    c.model("ReassemblyMC", text("1,2", 2, "TRUE", "Explained Conserved OwnKey RealTime"), "two threads, two submissions each")
    c.model("ReassemblyMC", text("1,2,3", 1, "TRUE", "Explained Conserved OwnKey RealTime"), "three threads, one submission each")
    if c.thorough:
        c.model("ReassemblyMC", text("1,2", 3, "TRUE", "Explained Conserved OwnKey").replace("{1,2}\n", "{1}\n"), "two threads, three submissions each", timeout=3000)
    c.model_breaks("ReassemblyMC", text("1,2", 2, "FALSE", "Conserved"), "without locks", "Conserved")


def traces(recs, cases):
    """Sequential and threaded records as histories of events."""
    out, of = [], []
    for r, k in zip(recs, cases):
        if r["op"] == "table":
            ops = r["ops"]
        elif r["op"] == "frames":
            ops = [{"kind": r["kind"], "f": f} for f in r["frames"]]
        elif r["op"] == "threads":
            plan = k["threads"] + [k["drain"]]
            for h in r["histories"]:
                at, ev = {}, []
                for e in h:
                    if e["e"] == "inv":
                        at[e["th"], e["i"]] = len(ev) + 1
                        ev.append({"e": "inv", "op": plan[e["th"]][e["i"]]})
                    else:
                        ev.append({"e": "res", "of": at[e["th"], e["i"]], "res": e["res"]})
                out.append({"ev": ev})
                of.append(k)
            continue
        else:
            out.append({"ev": [{"e": r["op"]}]})
            of.append(k)
            continue
        ev = []
        for o, x in zip(ops, r["res"]):
            ev += [{"e": "inv", "op": o}, {"e": "res", "of": len(ev) + 1, "res": x}]
        out.append({"ev": ev})
        of.append(k)
    return out, of


def relabel(r, case):
    """Items need not be different from each other, nor come in any order."""
    if "ops" in case:
        how = r.choice(["same", "few", "falling", "pairs"])
        new = {"same": lambda x: 7, "few": lambda x: r.randrange(2), "falling": lambda x: 100000 - x, "pairs": lambda x: x // 2}[how]
        return dict(case, ops=[dict(o, items=[new(x) for x in o["items"]]) if "items" in o else o for o in case["ops"]])
    return case


def judge(c, cases, what, jobs=8):
    recs = c.run("reasm", cases, jobs=jobs)
    ts, of = traces(recs, cases)
    bad = set(c.judge_traces("ReassemblyTrace", ts, what, cases=of))
    return [t for i, t in enumerate(ts) if i not in bad]


def corrupt(ts):
    bad = []
    for t in ts:
        ev = t["ev"]
        for i, e in enumerate(ev):
            if e["e"] != "res":
                continue
            for edit in ("none", "drop", "twice", "swap", "err"):
                r = copy.deepcopy(e["res"])
                if edit == "none" and r["r"] == "some":
                    r = {"r": "none", "items": []}
                elif edit == "drop" and r["items"]:
                    r["items"].pop()
                elif edit == "twice" and r["items"]:
                    r["items"].append(r["items"][0])
                elif edit == "swap" and len(r["items"]) > 1 and r["items"][0] != r["items"][-1] and all(x["e"] == ("inv", "res")[j % 2] for j, x in enumerate(ev)):
                    r["items"].reverse()
                elif edit == "err" and r["r"] in ("Normal", "Invalid"):
                    r["r"] = "Invalid" if r["r"] == "Normal" else "Normal"
                else:
                    continue
                if r != e["res"]:
                    bad.append({"ev": ev[:i] + [dict(e, res=r)] + ev[i + 1:]})
        if len(bad) > 300:
            break
    return bad


def c15(c):
    r = c.rng
    mc(c)
    cases = []
    # every short history over two requests
    for n in range(1, 6 if c.thorough else 5):
        for seq in itertools.product([(0, True), (0, False), (1, True), (1, False)], repeat=n):
            cases.append({"op": "table", "ops": [op(1 + w, 2 - w, fr, [j * 10, j * 10 + 1]) for j, (w, fr) in enumerate(seq)]})
    ids = [(1, 2), (2, 1), (1, 1), (2, 2), (0, 1), (1, 0), (0, 0), (1 << 32, 1), (1, 1 << 32), (gen.M64, 1), (1, gen.M64), (1 << 63, 5), (12, 3), (1, 23), (3, 0), (0, 3), (240, 1), (1, 240)]
    for a, b in list(itertools.combinations(ids, 2)) + gen.confusable():
        for order in ("abAB", "abBA", "aAaAbB", "AaBbA"):
            cases.append({"op": "table", "ops": [op(*(a if ch in "aA" else b), ch.islower(), [j]) for j, ch in enumerate(order)]})
    for i in range(6000 if c.thorough else 800):
        pool = r.sample(ids, r.randint(1, 6)) + [(gen.num(r), gen.num(r)) for _ in range(r.randint(0, 2))]
        ops, n = [], 0
        for j in range(r.choice([3, 8, 20, 60])):
            k = r.choice([0, 1, 1, 2, 5])
            ops.append(op(*r.choice(pool), r.random() < 0.65, range(n, n + k)))
            n += k
        cases.append({"op": "table", "ops": ops})
    cases.append({"op": "table", "ops": [op(1, 1, j < 400, [j]) for j in range(401)]})
    cases.append({"op": "table", "ops": [op(j, 1, True, [j]) for j in range(200)] + [op(j, 1, False, []) for j in range(200)]})
    cases.append({"op": "table", "ops": [op(1, 1, True, range(300)), op(1, 1, True, []), op(1, 1, False, range(300, 500))]})
    n = 3000 if c.thorough else 1100
    cases.append({"op": "table", "ops": [op(1, 1, j < n - 1, [j]) for j in range(n)]})
    cases.append({"op": "table", "ops": [op(1, j, True, [j]) for j in range(n)] + [op(1, j, False, [n]) for j in reversed(range(n))]})
    cases.append({"op": "table", "ops": [op(1, 1, True, range(66000)), op(2, 1, True, [1]), op(1, 1, True, range(3)), op(1, 1, False, range(66000, 66010)), op(2, 1, False, [2])]})
    # copies of a table
    for i in range(1500 if c.thorough else 250):
        pool, ops, n, tables = r.sample(ids, r.randint(1, 3)), [], 0, 1
        for j in range(r.choice([6, 15, 40])):
            if r.random() < 0.2:
                to = r.randrange(min(tables + 1, 4))
                ops.append({"clone": to, "on": r.choice([x for x in range(tables) if x != to] or [0])} if to or tables > 1 else {"clone": 1, "on": 0})
                tables = max(tables, ops[-1]["clone"] + 1)
            else:
                k = r.choice([0, 1, 1, 2])
                ops.append(dict(op(*r.choice(pool), r.random() < 0.7, range(n, n + k)), on=r.randrange(tables)))
                n += k
        cases.append({"op": "table", "ops": ops})
    few = [k for k in cases if len(k["ops"]) < 6]
    cases += [relabel(r, k) for k in [k for k in cases if len(k["ops"]) >= 6] + r.sample(few, len(few) // 2)]
    good = judge(c, cases, "sequential histories of the table and its copies")
    # frames
    cases = []
    for i in range(5000 if c.thorough else 700):
        kind = r.choice(["msg", "act"])
        few = [(1, 2), (2, 1), (1, 1), (7, 1 << 40)]
        fs, alike = [], r.random() < 0.3
        twin = {"msgs": [gen.message(r)], "acts": [gen.action(r)]}
        for j in range(r.choice([1, 3, 6, 12])):
            f = gen.frame(r, kinds=["notify"] * 5 + ["ack"] * 5 + ["hdisc", "adisc", "hhello", "ahello", "unset"])
            if f["t"] in ("notify", "ack"):
                s, g = r.choice(few)
                f.update(sid=L(s), fid=L(g), frag=r.random() < 0.6)
                for q, x in enumerate(f.get("msgs") or []):
                    x["args"] = x["args"][:3]
                if "acts" in f and len(f["acts"]) > 8:
                    f["acts"] = f["acts"][:8]
                if "msgs" in f and len(f["msgs"]) > 8:
                    f["msgs"] = f["msgs"][:8]
                if alike:
                    for q in ("msgs", "acts"):
                        if f.get(q):
                            f[q] = twin[q] * len(f[q])
            fs.append(f)
        cases.append({"op": "frames", "kind": kind, "frames": fs})
    for a, b in list(itertools.combinations([i for i in ids if i[1]], 2)) + gen.confusable():
        for kind in ("msg", "act"):
            fs = []
            for j, ch in enumerate("abAB"):
                s, g = a if ch in "aA" else b
                one = {"sid": L(s), "fid": L(g), "frag": ch.islower()}
                fs.append({"t": "notify", **one, "msgs": [{"name": gen.b("m%d" % j), "args": []}]} if kind == "msg" else
                          {"t": "ack", **one, "abort": False, "acts": [{"a": "unset", "scope": 1, "name": gen.b("m%d" % j), "v": {"k": "null", "v": []}}]})
            cases.append({"op": "frames", "kind": kind, "frames": fs})
    good += judge(c, cases, "sequential histories of the frame handlers")
    # threads
    cases = []
    rounds = 20000 if c.thorough else 2500
    for i in range(60 if c.thorough else 14):
        nth = r.choice([2, 2, 3, 4])
        per = 2 if nth < 4 else 1
        keys = r.choice([1, 1, 2])
        big = r.choice([0, 0, 40])
        ths, n = [], 0
        for t in range(nth):
            ops = []
            for q in range(per):
                ops.append(op(1, 1 + r.randrange(keys), r.random() < 0.55, range(n, n + 1 + r.choice([0, 1, big]))))
                n += 100
            ths.append(ops)
        cases.append({"op": "threads", "rounds": rounds, "threads": ths, "drain": [op(1, 1 + k, False, []) for k in range(keys)]})
    conc = judge(c, cases, "histories of several threads, %d rounds each, distinct ones" % rounds, jobs=2)
    if not any(t["ev"][0]["e"] == t["ev"][1]["e"] == "inv" for t in conc):
        raise ToolError("no submissions overlapped")
    good += conc
    r.shuffle(good)
    c.must_reject("ReassemblyTrace", corrupt([t for t in good if len(t["ev"]) < 30]), "results altered", traces=True)
    c.assumptions += ["overlap of real threads is what the scheduler gives: the distinct histories of many rounds, not all schedules"]
