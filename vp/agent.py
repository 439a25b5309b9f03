"""C20 and the whole-agent parts of C13 and C14, against Agent."""
import copy
import resource
from . import gen
from .connprops import hello, notify, msg, fb, cfg, disc, FRAG
from .core import ToolError

L = gen.limbs
MC = """SPECIFICATION %s
CHECK_DEADLOCK FALSE
CONSTANTS Conns = {%s} Wrong = "%s" Scripts = {%s} MayStarve = %s Serves = %d
INVARIANTS %s
%s
"""
LIVE = "PROPERTIES Returns Greeted"
FINAL = ("-lncheck", "final")


def model(c, scripts, what, conns="1,2", wrong="", starve=False, serves=1, live=False, inv="Accepted Drained NoneLate", **kw):
    text = MC % ("Fair" if live else "Spec", conns, wrong, ",".join('"%s"' % s for s in scripts), str(starve).upper(), serves, "Accepted" if wrong else inv if serves == 1 else "Accepted NoneLate", LIVE if live else "")
    if wrong:
        c.model_breaks("AgentMC", text, "%s (wrong: %s)" % (what, wrong), "" if live else "Accepted", extra=FINAL, **kw)
    else:
        c.model("AgentMC", text, what, extra=FINAL, **kw)


# ------------------------------------------------------------------ scenarios
class Plan:
    """Steps of several clients, each in its own order, put together in some order."""

    def __init__(self, r, limited=None, serves=1, patience=8000, virtual=False, mfs=None):
        self.mfs = mfs
        self.virtual = virtual
        self.r, self.limited, self.serves, self.patience = r, limited, serves, patience
        self.n, self.names = 0, 0
        self.steps = []

    def client(self):
        self.n += 1
        return self.n - 1

    def name(self, c):
        self.names += 1
        return "c%d.%d" % (c, self.names)

    def case(self):
        return {"op": "agent", "cfg": cfg(caps=FRAG, maxt=self.limited or FOREVER, mfs=self.mfs), "serves": self.serves, "clients": self.n, "patience": self.patience, "steps": self.steps, **({"virtual": True} if self.virtual else {})}

    def add(self, *steps):
        self.steps += steps
        return self


def s(_s, c=None, **kw):
    return {"s": _s, **({} if c is None else {"c": c}), **kw}


def send(c, data, **d):
    return s("send", c, b=data, d=d)


def greet(c, mfs=16384):
    return [s("connect", c), send(c, fb(hello(caps=FRAG, mfs=mfs)), t="hello"), s("recv", c)]


def req(c, name, kind="ok", sid=1, fid=1, frag=False, first=True):
    return send(c, fb(notify(sid, fid, [msg((kind + "." if first else "") + name)], frag=frag)), t="req", frag=frag, sid=L(sid), fid=L(fid), m=name, kind=kind)


def bytes_of(*steps):
    return [x for st in steps for x in st["b"]]


def conversation(p, c, ends=None):
    """What one client does, as a list of groups of steps; a group stays together."""
    r, g = p.r, [greet(c)]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        sid, fid = r.choice([0, 1, 1, 2]), r.choice([1, 1, 2])
        k = r.random()
        if k < 0.35:
            g += [[req(c, p.name(c), "ok", sid, fid)], [s("recv", c)]]
        elif k < 0.6:
            n = p.name(c)
            g += [[req(c, n, "gate", sid, fid), s("call", k=n)], [s("open", k=n)], [s("recv", c)]]
        elif k < 0.85:
            ns = [p.name(c) for _ in range(r.choice([2, 3]))]
            for j, n in enumerate(ns):
                g.append([req(c, n, "ok", sid, fid, j + 1 < len(ns), j == 0)])
            g.append([s("recv", c)])
        else:
            ns = [p.name(c) for _ in range(3)]
            g.append([req(c, n, "ok", j, 1) for j, n in enumerate(ns)])
            g += [[s("recv", c)]] * 3
    end = r.choice(ends or ["none", "none", "bye", "bad", "half", "drop", "reset", "fail", "panic", "part", "open", "gone"])
    if end == "bye":
        g += [[send(c, fb(disc()), t="bye")], [s("recv", c), s("recv", c)]]
    elif end == "bad":
        g += [[send(c, r.choice([gen.framed([3, 0, 0, 0, 1, 240]), gen.framed([9] * 8), [0, 200, 0, 0], gen.framed([1, 0, 0, 0, 1, 0, 0])]), t="bad")], [s("recv", c), s("recv", c)]]
    elif end == "half":
        g += [[s("half", c)], [s("recv", c)]]
    elif end in ("drop", "reset"):
        g += [[s(end, c)]]
    elif end in ("fail", "panic"):
        g += [[req(c, p.name(c), end)], [s("recv", c)], [s("recv", c)]] if end == "fail" else [[req(c, p.name(c), end)], [s("recv", c)]]
    elif end == "part":
        b = fb(notify(1, 1, [msg("x")]))
        g += [[send(c, b[:r.randrange(1, len(b))], t="part")]]
        g += r.choice([[], [[s("half", c)], [s("recv", c)]], [[s("drop", c)]]])
    elif end == "open":      # fragments without an end
        g += [[req(c, p.name(c), "ok", 1, 1, True)]]
    elif end == "gone":      # leaves while its call runs
        n = p.name(c)
        g += [[req(c, n, "gate"), s("call", k=n)], [s(r.choice(["drop", "reset"]), c)], [s("open", k=n)]]
    elif end == "never":
        n = p.name(c)
        g += [[req(c, n, "never"), s("call", k=n)], [s("recv", c)], [s("recv", c)]]
    return g


def weave(r, groups, part=None):
    """Every client in its own order; cut off after a part of it."""
    left = [list(g) for g in groups]
    total = sum(map(len, left))
    out = []
    for _ in range(total if part is None else int(total * part)):
        g = r.choice([x for x in left if x])
        out += g.pop(0)
    return out, left


def mixed(r, k, ends=None, limited=None):
    p = Plan(r, limited)
    out, _ = weave(r, [conversation(p, p.client(), ends) for _ in range(k)])
    return p.add(*out).case()


FOREVER = 1 << 30
BIG = 1 << 26
LONG = [5, 100, 1000, 5000, 30000, 61000, 301000, 3600000, 10800000, 86400000]


def patient(r, k, ends=None):
    """Some conversations, with long times between what is said."""
    p = Plan(r, virtual=True)
    groups = [conversation(p, p.client(), ends) for _ in range(k)]
    out, _ = weave(r, groups)
    cuts = set(r.sample(range(len(out) + 1), min(len(out), r.choice([1, 2, 4]))))
    for i, st in enumerate(out + [None]):
        if i in cuts:
            p.add(s("sleep", ms=15), s("advance", ms=r.choice(LONG)))
        if st:
            p.add(st)
    return p.case()


def closing(p, busy=(), idle=(), late=0):
    """Shutdown while the named calls run; the rest is idle."""
    if p.virtual:
        p.add(s("advance", ms=p.r.choice(LONG)))
    p.add(s("shutdown"))
    for c in idle:
        p.add(s("recv", c))
    if busy:
        p.add(s("returned", i=0, ms=60))
        if p.virtual:
            p.add(s("advance", ms=p.r.choice(LONG)), s("returned", i=0, ms=20))
    for c, k in busy:
        p.add(s("open", k=k), s("recv", c), s("recv", c))
    for i in range(p.serves):
        p.add(s("returned", i=i))
    for _ in range(late):
        c = p.client()
        p.add(s("connect", c), send(c, fb(hello(caps=FRAG)), t="hello"), s("quiet", c, ms=120), send(c, fb(hello(caps=FRAG)), t="hello"), s("quiet", c, ms=30))
    return p.case()


def stops(r, virtual=False):
    """Agents that are stopped with connections in every condition."""
    cases = []
    hs = fb(hello(caps=FRAG))
    nt = fb(notify(1, 1, [msg("ok.zz")]))

    def idlers(p, kinds):
        out = []
        for kind in kinds:
            c = p.client()
            out.append(c)
            if kind == "mute":
                p.add(s("connect", c))
            elif kind == "prefix":
                p.add(s("connect", c), send(c, hs[:r.randrange(1, len(hs))], t="part"))
            else:
                p.add(*greet(c))
                if kind == "part":
                    p.add(send(c, nt[:r.randrange(1, len(nt))], t="part"))
                elif kind == "frag":
                    p.add(req(c, p.name(c), "ok", 1, 1, True))
                elif kind == "done":
                    p.add(req(c, p.name(c)), s("recv", c))
        return out

    def callers(p, n, kind="gate"):
        out = []
        for _ in range(n):
            c, k = p.client(), p.name(0)
            p.add(*greet(c), req(c, k, kind, r.choice([0, 1, 7]), r.choice([1, 2])), s("call", k=k))
            out.append((c, k))
        return out
    for kinds in ([], ["mute"], ["prefix"], ["greeted"], ["part"], ["frag"], ["done"], ["mute", "prefix", "greeted", "part", "frag", "done"], ["greeted"] * 12):
        for busy in (0, 1, 3):
            for serves in (1, 2):
                if serves == 2 and len(kinds) > 1 and busy == 1:
                    continue
                p = Plan(r, serves=serves, virtual=virtual)
                idle = idlers(p, kinds)
                b = callers(p, busy)
                p.add(s("settle", ms=150))
                cases.append(closing(p, b, idle, late=r.choice([0, 1, 2])))
    # a crowd of either kind when the stop comes
    for busy, idle in ((40, 0), (0, 40), (40, 40), (100, 30)):
        p = Plan(r, virtual=virtual)
        quiet = idlers(p, [r.choice(["mute", "greeted", "part", "frag"]) for _ in range(idle)])
        b = callers(p, busy)
        p.add(s("settle", ms=150))
        cases.append(closing(p, b, quiet, late=1))
    # more requests behind the running one, failing ones, callers that left
    for how in ("behind", "fail", "left", "reset", "half", "partial", "never", "panic"):
        if virtual and how == "never":
            continue
        p = Plan(r, limited=700 if how == "never" else None, virtual=virtual)
        idle = idlers(p, ["greeted", "part"])
        b = callers(p, 1, {"fail": "gatefail", "never": "never"}.get(how, "gate"))
        c, k = b[0]
        more = []
        if how == "behind":
            p.add(*[req(c, p.name(c), "ok", j, 2) for j in range(3)])
            more = [s("recv", c)] * 4
        elif how in ("left", "reset"):
            p.add(s({"left": "drop"}.get(how, how), c))
        elif how == "half":
            p.add(s("half", c))
        elif how == "partial":
            p.add(send(c, nt[:9], t="part"))
        elif how == "panic":
            d = p.client()
            p.add(*greet(d), req(d, p.name(d), "panic"), s("recv", d))
        if how == "never":
            p.add(s("shutdown"), s("returned", i=0, ms=100))
            for d in idle:
                p.add(s("recv", d))
            p.add(s("recv", c), s("recv", c), s("returned", i=0))
            cases.append(p.case())
            continue
        case = closing(p, b, idle, late=1)
        if more:
            at = case["steps"].index(s("returned", i=0))
            case["steps"][at:at] = more
        cases.append(case)
    if virtual:
        return cases
    # twice, and before anything
    cases.append(Plan(r).add(s("shutdown"), s("returned", i=0)).case())
    p = Plan(r)
    b = callers(p, 2)
    p.add(s("shutdown"), s("shutdown"), s("open", k=b[0][1]), s("recv", b[0][0]), s("recv", b[0][0]), s("returned", i=0, ms=80), s("open", k=b[1][1]), s("recv", b[1][0]), s("recv", b[1][0]), s("returned", i=0))
    cases.append(p.case())
    return cases


def unread(r, virtual=False):
    """Agents that are stopped while an answer is on its way to clients that do not take it yet."""
    cases = []
    for limited in (300, None):
        for n, idle, end in ((1, 0, "recv"), (1, 1, "recv"), (2, 0, "recv"), (2, 1, "drop"), (1, 0, "drop")):
            p = Plan(r, limited=limited, virtual=virtual, mfs=BIG, patience=30000)
            full = [p.client() for _ in range(n)]
            rest = [p.client() for _ in range(idle)]
            for c in full:
                k = p.name(c)
                p.add(*greet(c, BIG), req(c, k, "fat"), s("call", k=k))
            for c in rest:
                p.add(*greet(c))
            p.add(s("settle", ms=150))
            if virtual:
                p.add(s("advance", ms=r.choice(LONG)))
            p.add(s("shutdown"))
            for c in rest:
                p.add(s("recv", c))
            p.add(s("returned", i=0, ms=50 if virtual else 900))
            if virtual:
                p.add(s("advance", ms=r.choice(LONG)), s("returned", i=0, ms=100))
            for j, c in enumerate(full):
                if j or end == "recv":
                    p.add(s("recv", c, full=True), s("recv", c))
                else:
                    p.add(s("drop", c))
            p.add(s("returned", i=0))
            cases.append(p.case())
    return cases


def stop_anywhere(r, k):
    """Some conversations, cut off at any point by the shutdown."""
    p = Plan(r)
    groups = [conversation(p, p.client()) for _ in range(k)]
    out, left = weave(r, groups, r.random())
    p.add(*out, s("shutdown"))
    opened = {st["k"] for st in out if st["s"] == "open"}
    called = [st["k"] for st in out if st["s"] == "call"]
    for k in called:
        if k not in opened:
            if r.random() < 0.5:
                p.add(s("returned", i=0, ms=20))
            p.add(s("open", k=k))
    began = {st["c"] for st in out if "c" in st}
    away = {st["c"] for st in out if st["s"] in ("drop", "reset")}
    for c in sorted(began - away):
        p.add(*[s("recv", c)] * 4)
    p.add(s("returned", i=0))
    return p.case()


def many(r, n, each):
    """Many connections, a few at a time, each of its own kind, with one that stays."""
    p = Plan(r)
    stay = p.client()
    p.add(*greet(stay))
    for i in range(n):
        p.add(*weave(r, [conversation(p, p.client(), each) for _ in range(r.choice([1, 1, 2]))])[0])
        if i % 10 == 0:
            p.add(req(stay, p.name(stay), "ok", 1, 1), s("recv", stay))
    p.add(req(stay, p.name(stay), "ok", 1, 1), s("recv", stay))
    return p.case()


def crowd(r, n):
    """Many at the same time."""
    p = Plan(r)
    cs = [p.client() for _ in range(n)]
    p.add(*[s("connect", c) for c in cs])
    p.add(*[send(c, fb(hello(caps=FRAG)), t="hello") for c in cs])
    r.shuffle(cs)
    p.add(*[s("recv", c) for c in cs])
    for c in cs[:10] + cs[10::29]:
        p.add(req(c, p.name(c)), s("recv", c))
    return p.case()


def lives(r, n, kinds, p=None, most=24):
    """n clients, one after the other, that do one of a few things; one that is there all the time."""
    p = p or Plan(r)
    stay = p.client()
    p.add(*greet(stay), req(stay, p.name(stay)), s("recv", stay))
    c = p.client()
    p.n += most
    hi, name = greet(c), "life"
    do = {"ok": hi + [req(c, name), s("recv", c), s("drop", c)],
          "two": hi + [req(c, name), s("recv", c), req(c, name, sid=2), s("recv", c), s("reset", c)],
          "check": [s("connect", c), send(c, fb(hello(hc=[True])), t="check"), s("recv", c), s("recv", c), s("drop", c)],
          "reset": [s("connect", c), s("reset", c)],
          "mute": [s("connect", c), s("drop", c)],
          "bad": hi + [send(c, [0, 0, 0, 1, 99], t="bad"), s("recv", c), s("recv", c), s("drop", c)],
          "early": [s("connect", c), req(c, name), s("recv", c), s("recv", c), s("drop", c)],
          "fail": hi + [req(c, name, "fail"), s("recv", c), s("recv", c), s("drop", c)],
          "panic": hi + [req(c, name, "panic"), s("recv", c), s("drop", c)],
          "bye": hi + [send(c, fb(disc()), t="bye"), s("recv", c), s("recv", c), s("drop", c)],
          "half": hi + [s("half", c), s("recv", c), s("drop", c)],
          "open": hi + [req(c, name, "ok", 1, 1, True), s("reset", c)],
          "part": hi + [send(c, fb(notify(1, 1, [msg("x")]))[:9], t="part"), s("reset", c)]}
    p.add(s("lives", c, n=n, most=most, kinds=[do[k] for k in (kinds or do)]))
    p.add(req(stay, p.name(stay)), s("recv", stay))
    x = p.client()
    p.add(*greet(x), req(x, p.name(x)), s("recv", x), s("shutdown"), s("recv", x), s("recv", stay), s("returned", i=0))
    return p.case()


def room(n):
    """So many connections that both their ends have a file descriptor."""
    return max(50, min(n, (min(resource.getrlimit(resource.RLIMIT_NOFILE)[1], 4500) - 200) // 2))


def starved(r, rounds=1, waiting=3, end=True, virtual=False):
    """The process runs out of file descriptors for a while."""
    p = Plan(r, virtual=virtual)
    a = p.client()
    p.add(*greet(a))
    g = p.client()
    k = p.name(g)
    p.add(*greet(g), req(g, k, "gate"), s("call", k=k))
    for _ in range(rounds):
        p.add(s("starve"))
        ws = [p.client() for _ in range(waiting)]
        for w in ws:
            p.add(s("connect", w), send(w, fb(hello(caps=FRAG)), t="hello"))
        p.add(s("quiet", ws[0], ms=r.choice([30, 120])) if ws else s("sleep", ms=60))
        # those who are there go on
        if virtual:
            p.add(s("advance", ms=r.choice(LONG)))
            # time enough to try again and again
            p.add(*[s("advance", ms=500)] * r.choice([1, 100]))
        p.add(req(a, p.name(a)), s("recv", a))
        gone = []
        if waiting > 1 and r.random() < 0.7:
            gone = [ws[1]]
            p.add(s(r.choice(["drop", "reset"]), ws[1]))
        p.add(s("feed"))
        if virtual:
            p.add(s("advance", ms=60000))
        for w in ws:
            if w not in gone:
                p.add(s("recv", w), req(w, p.name(w)), s("recv", w))
        n = p.client()
        p.add(*greet(n), req(n, p.name(n)), s("recv", n))
    p.add(s("open", k=k), s("recv", g))
    if end:
        p.add(s("shutdown"), s("recv", a), s("recv", g), s("returned", i=0))
    return p.case()


def starved_stop(r):
    """Stopped while it cannot accept."""
    p = Plan(r)
    a, k = p.client(), "z"
    p.add(*greet(a), req(a, k, "gate"), s("call", k=k), s("starve"))
    w = p.client()
    p.add(s("connect", w), send(w, fb(hello(caps=FRAG)), t="hello"), s("quiet", w, ms=50), s("shutdown"), s("returned", i=0, ms=50), s("open", k=k), s("recv", a), s("recv", a), s("returned", i=0), s("feed"))
    return p.case()


# ------------------------------------------------------------------ judging
def plain(f):
    """A frame as the observer sees it."""
    if f["t"] == "ack":
        k = "?"
        a = f["acts"]
        if len(a) == 1 and a[0]["a"] == "set" and a[0]["scope"] == 3 and a[0]["name"] == [107] and a[0]["v"]["k"] == "str":
            k = bytes(a[0]["v"]["v"]).decode("utf-8", "replace")
        return {"t": "ack", "frag": f["frag"], "abort": f["abort"], "sid": f["sid"], "fid": f["fid"], "k": k}
    if f["t"] == "adisc":
        return {"t": "adisc", "code": gen.unw32(f["code"]) if gen.unw32(f["code"]) < 1 << 30 else -1}
    return {"t": f["t"]}


def judge(c, cases, what, jobs=4):
    recs = c.run("agent", cases, jobs=jobs, limit=800)
    out = []
    for r, k in zip(recs, cases):
        if r["op"] == "agent":
            ev = [dict(e, f=plain(e["f"])) if e["e"] == "frame" else e for e in r["ev"]]
            r = {"op": "agent", "ev": ev, "clients": k["clients"], "serves": k["serves"], "limited": k["cfg"]["maxt"][0] < FOREVER}
        out.append(r)
    bad = set(c.judge_each("AgentTrace", out, what, cases=cases))
    return [x for i, x in enumerate(out) if i not in bad]


def corrupt(recs):
    bad = []
    for t in recs:
        ev = t["ev"]

        def put(e):
            bad.append(dict(t, ev=copy.deepcopy(e)))
        shut = next((i for i, e in enumerate(ev) if e["e"] == "shutdown"), len(ev))
        for i, e in enumerate(ev):
            if e["e"] == "frame":
                put(ev[:i] + [e] + ev[i:])
                others = {x["c"] for x in ev if "c" in x} - {e["c"]}
                if others and e["f"]["t"] == "ack":
                    put(ev[:i] + [dict(e, c=sorted(others)[0])] + ev[i + 1:])
                if e["f"]["t"] == "ack":
                    put(ev[:i] + [dict(e, f=dict(e["f"], k=e["f"]["k"] + "x"))] + ev[i + 1:])
                    put(ev[:i] + [dict(e, f=dict(e["f"], abort=True))] + ev[i + 1:])
                    put(ev[:i] + [{"e": "eof", "c": e["c"]}])
                if i < shut:
                    put(ev[:i] + [{"e": "nothing", "c": e["c"]}])
                    put(ev[:i] + [{"e": "eof", "c": e["c"]}])
            elif e["e"] == "ret":
                put(ev[:i] + ev[i + 1:]) if any(x["e"] == "frame" and x["f"].get("k") == e["k"] for x in ev[i:]) else None
                put(ev[:i] + [e] + ev[i:])
                if not t["limited"]:
                    drop = {"e": "drop", "k": e["k"]}
                    owner = next((x["c"] for x in ev if x["e"] == "send" and x["d"]["t"] == "req" and x["d"]["m"] == e["k"].split("+")[0]), None)
                    if not any(x["e"] == "gone" and x["c"] == owner for x in ev[:i]):
                        put(ev[:i] + [drop])
            elif e["e"] == "returned":
                put([e] + ev[:i])
                put(ev[:i] + [{"e": "notreturned", "i": e["i"]}])
                calls = [j for j in range(i) if ev[j]["e"] == "call"]
                for j in calls[-1:]:
                    put(ev[:j + 1] + [dict(e)])
            elif e["e"] == "call":
                put(ev[:i] + [e] + ev[i:])
                if i < shut and not any(x["e"] == "starve" for x in ev):
                    put(ev[:i] + [{"e": "nocall", "k": e["k"]}])
        if len(bad) > 700:
            break
    return bad


def selftest(c, good):
    c.rng.shuffle(good)
    bad = corrupt(good)
    c.rng.shuffle(bad)
    c.must_reject("AgentTrace", bad[:400], "events altered")


def need(c, recs, *kinds):
    have = {e["e"] for r in recs for e in r["ev"]}
    for k in kinds:
        if k not in have:
            raise ToolError("no run of the agent has the event " + k)


def part(c, prop):
    r = c.rng
    big = c.thorough
    if prop == "C13":
        model(c, ["ok", "frags"], "requests and fragments of two clients")
        model(c, ["ok", "panic", "bad"], "one fails, the other does not")
        for w in ("mix", "share", "spread"):
            model(c, ["frags", "ok", "fail"], "two clients", wrong=w)
        if big:
            model(c, ["two", "frags", "fail", "panic", "bye", "half", "part"], "two clients of all kinds", timeout=3000)
        cases = [mixed(r, r.choice([2, 3, 5, 9])) for _ in range(600 if big else 60)]
        cases += [mixed(r, 4, ["panic", "fail", "reset", "bad", "none"]) for _ in range(200 if big else 20)]
        cases += [mixed(r, 3, ["never", "none"], limited=1500) for _ in range(60 if big else 6)]
        cases += [patient(r, r.choice([1, 2, 4])) for _ in range(200 if big else 24)]
        cases += [lives(r, 5000, None), lives(r, 2000, ["open"]), lives(r, 2000, ["panic", "ok"])]
        good = judge(c, cases, "several clients of a real agent")
    else:
        model(c, ["gate", "idle"], "shutdown with idle and running connections", serves=1)
        model(c, ["gate", "idle", "part"], "shutdown comes to an end", conns="1", live=True)
        model(c, ["gate"], "two serve calls", serves=2)
        for w in ("nowait", "kill", "idle", "late"):
            model(c, ["gate", "idle"], "two clients", wrong=w)
        if big:
            model(c, ["gate", "idle"], "shutdown with two clients comes to an end", live=True, timeout=3000)
            model(c, ["two", "idle", "mute", "part", "fail", "frags"], "shutdown with everything", timeout=3000)
        cases = stops(r)
        for _ in range(8 if big else 0):
            cases += stops(r)
        v = stops(r, virtual=True)
        cases += v if big else r.sample(v, 14)
        cases += unread(r) + unread(r, virtual=True)
        cases += [stop_anywhere(r, r.choice([1, 2, 4])) for _ in range(800 if big else 60)]
        cases += [lives(r, 5000, None), lives(r, 1000, ["two", "half"])]
        good = judge(c, cases, "shutdown of a real agent")
        need(c, good, "returned", "ret", "eof")
    selftest(c, good)
    c.assumptions += ["the agent runs in real time on loopback sockets: what has not happened after 8 s is taken not to happen"]


def c20(c):
    r = c.rng
    big = c.thorough
    model(c, ["ok", "idle"], "accept failures", starve=True)
    model(c, ["gate", "idle", "mute"], "every connection is taken in the end", conns="1", starve=True, live=True)
    model(c, ["ok", "idle"], "accept failures", wrong="stop", starve=True)
    model(c, ["gate", "idle"], "accept failures", wrong="stop", starve=True, conns="1", live=True)
    if big:
        model(c, ["ok", "fail", "bad", "idle", "half"], "accept failures and failing connections", starve=True, timeout=3000)
        model(c, ["idle", "mute", "ok"], "three clients", conns="1,2,3", timeout=3000)
    cases = []
    for _ in range(20 if big else 3):
        cases += [starved(r, 1, 3), starved(r, 2, 2), starved(r, 1, 0), starved(r, 3, 1, end=False), starved_stop(r)]
    cases += [many(r, 400 if big else 70, None), many(r, 400 if big else 60, ["reset"]), many(r, 100, ["fail", "panic"]), many(r, 100, ["bad", "part"]), many(r, 100, ["drop", "half"])]
    cases += [crowd(r, n) for n in ((10, 50, 100, 300, 600, room(2000)) if big else (10, 100, room(1200)))]
    cases += [mixed(r, 6) for _ in range(300 if big else 20)]
    cases += [starved(r, 2, n, n > 1, virtual=True) for n in (1, 2, 3, 3)] * (6 if big else 1)
    cases += [patient(r, r.choice([1, 2, 4])) for _ in range(100 if big else 12)]
    # those that leave at once, before they are greeted
    p = Plan(r)
    for _ in range(40):
        x = p.client()
        p.add(s("connect", x), s(r.choice(["drop", "reset"]), x))
        if r.random() < 0.3:
            y = p.client()
            p.add(*greet(y))
    cases.append(p.case())
    cases += [lives(r, 70000, None), lives(r, 20000, ["ok"]), lives(r, 20000, ["check", "reset", "mute"]), lives(r, 5000, ["fail", "panic", "bad"])]
    good = judge(c, cases, "a real agent with many connections and failing accepts")
    need(c, good, "starve", "feed", "frame", "eof")
    selftest(c, [g for g in good if len(g["ev"]) < 150])
    c.assumptions += ["the agent runs in real time on loopback sockets: what has not happened after 8 s is taken not to happen"]
