"""C22: what is finished is not kept, against Held."""
import itertools
from .core import ToolError

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {%s} MaxSteps = %d Rounds = %d Wrong = "%s"
INVARIANTS Empty Bounded Needed
"""
KINDS = ["ok", "bye", "half", "fail", "panic", "frag", "part", "bad", "check", "mute", "reset"]

ENDS = ["idle", "mute", "ok", "bye", "half", "frag", "late", "first", "again", "ack", "fail", "panic", "never", "big", "failopen", "junk", "bad", "long", "part", "nover",
        "check", "cancelmute", "cancelidle", "cancelfrag", "cancelcall", "killed", "nevergone", "mkfail", "mkgone", "mkcancel"]


def closes(script):
    return all(any(t["sid"] == s["sid"] and t["fid"] == s["fid"] and not t["frag"] for t in script[j + 1:]) for j, s in enumerate(script) if s["frag"])


def step(sid, fid, frag):
    return {"sid": sid, "fid": fid, "frag": frag}


def scripts(r, n):
    """Short ones, all of them, and longer random ones."""
    out = []
    for k in range(1, 4):
        out += [list(x) for x in itertools.product([step(1, 1, True), step(1, 1, False), step(2, 1, True), step(2, 1, False)], repeat=k)]
    out = [s for s in out if closes(s)]
    for _ in range(n):
        ids = [(r.randint(1, 3), r.randint(1, 2)) for _ in range(r.randint(1, 4))]
        s = [step(*r.choice(ids), r.random() < 0.7) for _ in range(r.randint(2, 12))]
        rest = [i for i in set(ids) if not closes([x for x in s if (x["sid"], x["fid"]) == i])]
        r.shuffle(rest)
        out.append(s + [step(*i, False) for i in rest])
    return out


def c22(c):
    r, big = c.rng, c.thorough
    c.model("HeldMC", MC % ("1,2", 6 if big else 4, 3, ""), "scripts over two requests, three rounds")
    c.model_breaks("HeldMC", MC % ("1,2", 3, 2, "husk"), "a table that keeps the empty entry", "Empty")
    c.model_breaks("HeldMC", MC % ("1,2", 3, 2, "tally"), "a table that remembers what was finished", "Empty")
    cases = []
    some = scripts(r, 60 if big else 12)
    for what, rounds in (("table", 20000 if big else 3000), ("dispatch", 10000 if big else 2000), ("conn", 5000 if big else 400)):
        pick = some if big or what != "conn" else r.sample(some, 14) + [[step(1, 1, False)], [step(1, 1, True), step(1, 1, False)]]
        cases += [{"op": "held", "what": what, "script": s, "rounds": rounds, "windows": 5} for s in pick]
        if what == "dispatch":
            cases += [{"op": "held", "what": what, "how": h, "script": s, "rounds": rounds, "windows": 5} for s in pick for h in ("early", "unheard")]
    n = 150 if big else 25
    cases += [{"op": "held", "what": "agent", "kinds": [k], "rounds": n * 3, "windows": 5, "secs": 150} for k in KINDS]
    cases += [{"op": "held", "what": "agent", "kinds": r.sample(KINDS, 5), "rounds": n, "windows": 5, "secs": 150} for _ in range(3)]
    cases += [{"op": "held", "what": "ends", "kinds": [k], "rounds": 3000 if big else 300, "windows": 5} for k in ENDS]
    cases += [{"op": "held", "what": "ends", "kinds": r.sample(ENDS, 8), "rounds": 500 if big else 60, "windows": 5} for _ in range(20 if big else 4)]
    recs = c.run("held", cases, limit=800)
    # a connection that was lost says nothing about this property
    live = [i for i, x in enumerate(recs) if not x.get("lost")]
    c.judge_each("HeldTrace", [recs[i] for i in live], "bytes allocated after windows of rounds", cases=[cases[i] for i in live])
    bad = []
    for i in live:
        x = recs[i]
        if x["op"] == "held":
            per = x["rounds"] * len(x.get("kinds", [1]))
            bad.append(dict(x, grown=[g + 8 * k * per for k, g in enumerate(x["grown"])]))
            bad.append(dict(x, grown=x["grown"][:-1] + [x["grown"][-1] + 8 * per]))
    c.must_reject("HeldTrace", bad, "kept a word for each round, or half of them")
    if len(live) < len(recs) // 2:
        raise ToolError("most connections were lost")
    c.assumptions += ["what is kept is seen as allocated heap memory of the process (a counting allocator); kernel resources such as sockets are not counted here (C20 opens thousands)"]
