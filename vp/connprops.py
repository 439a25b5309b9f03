"""The scenarios of C05 and C07 - C14 and C21 on single (and several) connections."""
import itertools
from . import api, gen, conn as K
from .conn import *
from .core import ToolError

FRAG = ["fragmentation"]


def opts(r):
    """Variations of the transport that must not matter."""
    kw = {}
    k = r.random()
    if k < 0.15:
        kw["wmax"] = r.choice([1, 2, 5, 30])
    elif k < 0.25:
        kw["wpend"] = True
    elif k < 0.3:
        kw.update(wmax=3, wpend=True)
    if r.random() < 0.15:
        kw["wslow"] = slow(r)
    if r.random() < 0.04:
        kw["ferr"] = r.randint(1, 4)
    return kw


def slow(r, n=None, cancel=0.0):
    """A peer that takes its time."""
    fs = sorted(r.sample(range(6), n or r.choice([1, 1, 2, 3])))
    out = [{"f": f, "ms": r.choice([0, 1, 20, 300, 5000, 14900, 15100, 40000, 200000, 4000000])} for f in fs]
    for x in out:
        x.update({"flush": True} if x["f"] and r.random() < 0.2 else {"off": r.choice([0, 0, 1, 3, 4, 5, 9, 11, 15])})
        if r.random() < cancel:
            x["cancel"] = True
    return out


def mk(c, conf, data, calls=(), ready=(), make=None, tail=(), mode=None, **kw):
    return case(conf, K.conn(chunks(c.rng, data, mode) + list(tail), calls, ready, make, **{**opts(c.rng), **kw}))


def rmsgs(r, n=None):
    if r.random() < 0.15:
        return [msg(r.choice("xy")) for _ in range(r.randint(0, 4) if n is None else n)]
    return [gen.message(r) if r.random() < 0.3 else msg("m%d" % r.randint(0, 9), [("a%d" % j, gen.typed(r)) for j in range(r.randint(0, 3))])
            for _ in range(r.randint(0, 3) if n is None else n)]


def racts(r):
    if r.random() < 0.15:
        return [act(r.randrange(2)) for _ in range(r.randint(0, 5))]
    return [gen.action(r) for _ in range(r.randint(0, 3))]


def rids(r, few=False):
    if few:
        return r.choice([0, 1, 2]), r.choice([1, 2, 3])
    return r.choice([0, 1, 2, 300, gen.num(r)]), r.choice([1, 2, 300, gen.num(r) or 1])


# ------------------------------------------------------------------ anything at all
SPEEDS = ("now", "now", "soon", "edge", "late")


def wild_step(r, T, fails=0.06):
    """How a call, a question of readiness, or the making of a service turns out."""
    k = r.random()
    if k < fails:
        return {"r": "err", "m": r.choice([[], M("no"), gen.text(r, True), M("e" * r.randint(1, 400))]), **r.choice([{}, {"pend": 1}, {"delay": r.randint(0, T)}])}
    if k < fails + 0.02:
        return {"r": "never"}
    speed = r.choice(SPEEDS)
    if speed == "now":
        return r.choice([{}, {}, {"pend": r.randint(1, 3)}])
    return {"delay": r.randint(1, max(1, T // 6)) if speed == "soon" else max(0, T // 2 + r.choice([-1, 0, -T // 4])) if speed == "edge" else r.choice([0, T // 3])}


def wild_one(r):
    """One connection on which anything may happen, in any combination."""
    T = r.choice([20, 100, 700, 15000, 90000])
    vs = r.choice([(), (), ((2, 0),), ((1, 9), (2, 0)), ((3, 1), (2, 0), (2, 10))])
    caps = r.choice([FRAG, FRAG, gen.CAPS, gen.caps(r)])
    own, peer = (r.choice([None, 16384, 200, 333, 2000, 65536, r.randint(64, 4000)]) for _ in range(2))
    peer = peer or 16384
    conf = cfg(vs, caps, own, None if T == 15000 else T, via=r.randint(0, 2))
    pvs = [v for v in [(2, 0), (2, 10), (1, 9), (9, 0)] if r.random() < 0.4]
    if r.random() < 0.97 and (2, 0) not in pvs:
        pvs.insert(r.randint(0, len(pvs)), (2, 0))
    h = hello(pvs or ((1, 0),), peer, r.choice([FRAG, gen.CAPS, gen.caps(r)]), r.choice([[]] * 9 + [[False]] * 4 + [[True]]), r.choice([[], [gen.text(r)]]))
    data = [fb(h)]
    pool = [rids(r, True) for _ in range(r.randint(1, 3))] + [rids(r) for _ in range(r.randint(0, 2))]
    both = "fragmentation" in caps and "fragmentation" in h["caps"]
    n = r.choice([1, 2, 3, 4, 6, 10])
    for j in range(n):
        s, f = r.choice(pool)
        x = notify(s, f, rmsgs(r), frag=r.random() < (0.45 if both else 0.03))
        if r.random() < 0.08:
            lim = min(own or 16384, peer)
            if lim < 5000:
                x = sized_notify(max(40, lim + r.choice([-1, 0, 0, 0, 1])), s, f)
        data.append(fb(x))
    # something out of the ordinary
    k = r.random()
    at = r.randint(0, n + 1)
    kw, tail = {}, []
    if k < 0.06:
        data.insert(at, fb(disc(code=r.choice([0, 1, 2, 99, gen.num(r, 32)]), text=r.choice(["", "bye", "x" * 60]))))
    elif k < 0.14:
        x = gen.damage(r, gen.encode(gen.frame(r, kinds=["notify", "ack", "hdisc", "adisc", "ahello", "unset"])))
        if len(x) > 4:
            x[4] &= 253          # an aborted fragment is a finding of its own (C10)
        data.insert(at, gen.framed(x))
    elif k < 0.2:
        data.insert(at, fb(gen.frame(r, kinds=["ahello", "ack", "hdisc", "adisc", "hhello"])) if at else fb(notify()))
    elif k < 0.24:
        data.insert(at, r.choice([[255] * 4, [0, 1, 0, 1], [1, 0, 0, 0, 3], [127, 255, 255, 255]]))
    elif k < 0.3:
        flat = [y for d in data for y in d]
        data = [flat[:r.randrange(len(flat) + 1)]]
        tail = [r.choice([{"eof": 1}, {"err": 1}])]
    elif k < 0.34:
        tail = [r.choice([{"eof": 1}, {"err": 1}])]
    elif k < 0.4:
        kw["werr"] = r.randint(0, 200)
    elif k < 0.47:
        kw["cancel_at"] = r.choice([0, 1, r.randint(0, 3 * T), r.randint(0, 10 * T)])
    calls = []
    for j in range(n):
        x = wild_step(r, T)
        if x.get("r") is None:
            x["acts"] = racts(r) + [act(j)]
            lim = min(own or 16384, peer)
            if r.random() < 0.05 and lim < 5000:
                x["acts"] = sized_acts(max(40, lim + r.choice([-1, 0, 0, 1])), 1, 1)
        calls.append(x)
    ready = [wild_step(r, T, 0.03) if r.random() < 0.4 else {} for _ in range(n)]
    make = {}
    if r.random() < 0.3:
        make = wild_step(r, T, 0.1)
    if r.random() < 0.3:
        make["ready"] = wild_step(r, T, 0.1)
    return conf, K.conn(chunks(r, data, r.choice([0, 1, 1, 2, 3, 4, 5, 6])) + tail, calls, ready, make, **{**opts(r), **kw})


def wild(c, n, thorough, what="anything at all on a connection"):
    """Connections on which anything may happen."""
    return K.run(c, [case(*wild_one(c.rng)) for _ in range(thorough if c.thorough else n)], what)


LONG = 66000             # more than a counter of 16 bits can tell apart


def lives(c, *which, n=LONG):
    """Connections and agents that have seen a great many requests and connections already:
    repetitions are recorded once, and have to lead the specification back to where they began."""
    hs, end = fb(hello(caps=FRAG)), fb(notify(3, 9))
    blocks = {"plain": fb(notify()), "frag": fb(notify(1, 1, frag=True)) + fb(notify(1, 1)), "two": fb(notify(4, 4, frag=True)) + fb(notify(4, 5)) + fb(notify(4, 4))}
    tails = {"eof": ([{"eof": 1}], {}), "bye": ([{"d": fb(disc()) + end}], {}), "junk": ([{"d": gen.framed([3, 0, 0, 0, 1, 240]) + end}], {}),
             "long": ([{"d": [1, 0, 0, 0]}], {}), "cut": ([{"d": end[:7]}, {"eof": 1}], {}), "wait": ([{"sleep": 40}, {"d": end}, {"sleep": 700}, {"d": end}, {"eof": 1}], {}),
             "cancel": ([{"sleep": 40}, {"cancel": 1}, {"d": end}], {}), "part": ([{"d": fb(notify(3, 9, frag=True))}, {"d": end}, {"eof": 1}], {}),
             "late": ([{"d": end}, {"d": end}], {"slow": {"r": "never"}}), "fail": ([{"d": end}, {"d": end}], {"slow": {"r": "err", "m": M("so late"), "delay": 9}}),
             "edge": ([{"d": end}, {"eof": 1}], {"slow": ok([act(8)], delay=99)}), "unready": ([{"d": end}], {"unready": {"r": "never"}}), "sorry": ([{"d": end}], {"unready": {"r": "err", "m": M("no more")}})}
    conf = cfg(caps=FRAG, maxt=100)
    cases = []
    for name in which:
        kind, tail = name.split("-")
        if kind in blocks:
            reads, kw = tails[tail]
            m = n * (2 if kind == "two" else 1)
            calls = {str(m): kw["slow"]} if "slow" in kw else {}
            ready = {str(m): kw["unready"]} if "unready" in kw else {}
            cases.append(case(conf, K.conn([{"d": hs}, {"rep": n, "d": blocks[kind]}] + reads, fold=True, at_calls=calls, at_ready=ready, every=ok([act(3)]))))
        else:
            before = {"good": K.conn([{"d": hs + fb(notify())}, {"eof": 1}]), "open": K.conn([{"d": hs + fb(notify(1, 1, frag=True)) + fb(notify(5, 5, frag=True))}, {"eof": 1}]),
                      "check": K.conn([{"d": fb(hello(caps=FRAG, hc=[True]))}]), "mkerr": K.conn([{"d": hs}], make={"r": "err"}), "down": K.conn([{"d": hs}], make={"ready": {"r": "err"}}),
                      "nover": K.conn([{"d": fb(hello(versions=[(1, 0)]))}]), "gone": K.conn([{"d": hs + fb(disc())}]), "none": K.conn([{"eof": 1}]),
                      "slow": K.conn([{"d": hs + fb(notify())}], [{"r": "never"}]), "failed": K.conn([{"d": hs + fb(notify())}], [{"r": "err", "m": M("x")}]),
                      "bad": K.conn([{"d": hs + gen.framed([9])}]), "dead": K.conn([{"d": hs + fb(notify())}, {"d": fb(notify())}], werr=100)}[kind]
            now = {"one": [K.conn([{"d": hs}, {"d": fb(notify(1, 1, [msg("new")], frag=True)) + fb(notify(1, 1)) + end}, {"eof": 1}], [ok([act(1)]), ok([act(2)])])],
                   "check": [K.conn([{"d": fb(hello(caps=FRAG, hc=[True]))}, {"d": end}])],
                   "cancel": [K.conn([{"d": hs + end}, {"sleep": 20}, {"cancel": 1}], [ok([act(1)], delay=60)])],
                   "two": [K.conn([{"d": hs}, {"d": fb(notify(1, 1, [msg("c%d" % j)]))}, {"eof": 1}], [ok([act(j)], delay=5)]) for j in range(2)],
                   "late": [K.conn([{"d": hs}, {"d": end}], [{"r": "never"}])],
                   "mkerr": [K.conn([{"d": hs + end}], make={"r": "err", "m": M("none left")})],
                   "down": [K.conn([{"d": hs + end}], make={"ready": {"r": "err", "m": M("down")}})],
                   "bad": [K.conn([{"d": hs}, {"d": gen.framed([9]) + end}])],
                   "nover": [K.conn([{"d": fb(hello(versions=[(1, 0)])) + end}])],
                   "gone": [K.conn([{"d": hs}, {"d": fb(disc()) + end}])],
                   "fail": [K.conn([{"d": hs}, {"d": end}], [{"r": "err", "m": M("late")}])]}[tail]
            cases.append({**case(conf, *now), "warm": {"n": n, "conn": before}})
    for x in cases:
        x["secs"] = 150
    good = K.run(c, cases, "after %d requests, or as many connections" % n)
    folded = [t for t in good if any(e["e"] == "again" for e in t["ev"])]
    if sum(name.split("-")[0] in blocks for name in which) and len(folded):
        bad = []
        for t in folded:
            i, j = (next(q for q, e in enumerate(t["ev"]) if e["e"] == w) for w in ("mark", "again"))
            for q in range(i + 1, j):
                if t["ev"][q]["e"] in ("rd", "call", "wr"):
                    bad += [dict(t, ev=t["ev"][:q] + t["ev"][q + 1:]), dict(t, ev=t["ev"][:q + 1] + t["ev"][q:])]
        c.must_reject("ConnTrace", bad, "repetitions that do not lead back", traces=True)
    return good


def crowd(r):
    """Several such connections of one agent.  They share its maker: when that is not ready, it is ready for nobody."""
    conf, first = wild_one(r)
    conns = [first] + [dict(wild_one(r)[1], start=r.choice([0, 0, 3, 100])) for _ in range(r.choice([1, 1, 2, 3]))]
    for k in conns:
        step = k["make"].get("ready")
        if step and (step.get("delay") or step.get("r") == "never"):
            del k["make"]["ready"]
    return case(conf, *conns)


# ------------------------------------------------------------------ C05
def c05(c):
    from . import wire, framing
    K.model(c, MaxFrames=2, MAXT=0)
    # the framer: every frame under limits around its own size
    cases = []
    for i in range(2500 if c.thorough else 350):
        f = gen.frame(c.rng, big=i % 10 == 0)
        n = len(gen.encode(f))
        for lim in {n - 1, n, n + 1, max(0, n // 2), 0, 3 * n}:
            if lim >= 0:
                cases.append(wire.wcase(f, lim))
                cases.append({"op": "read", "b": gen.framed(gen.encode(f)), "max": lim})
    for lim in (0, 10, 16384, 65535, 65536, 1 << 20):
        for n in (lim, lim + 1, lim + 2, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
            hd = [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]
            cases.append({"op": "read", "b": hd, "max": lim})
            cases.append({"op": "read", "b": hd + [3, 0, 0, 0, 1, 1, 1], "max": lim})
    # no limit at all
    for i in range(60):
        f = gen.frame(c.rng, big=i % 5 == 0)
        cases.append(dict(wire.wcase(f, 1 << 30), unlimited=True))
        cases.append({"op": "read", "b": gen.framed(gen.encode(f)), "max": 1 << 30, "unlimited": True})
    wire.judge(c, cases, "frames written and read under limits around their size")
    wire.bulks(c, "frames of millions of bytes under limits around their size", rooms=(-1, 0, 1), modes=("whole", "cut"))
    # refused as soon as the length is known: nothing follows the length
    st = []
    for api in ("framer", "codec", "buf"):
        for lim in (10, 300, 16384):
            for n in (lim, lim + 1, 1 << 30):
                hd = [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]
                f = fb(notify())
                st.append(framing.stream(api, lim, chunks(c.rng, [f, hd] if lim > 30 else [hd])))
                st.append(framing.stream(api, lim, chunks(c.rng, [hd], 2)))
    framing.judge(c, st, "over-long frames announced to a waiting reader")
    # connections
    cases = []
    for mine, peer in ((None, 16384), (None, 1000), (256, 16384), (300, 300), (1000, 256), (64, 64), (100, 1 << 31), (65536, 0xffffffff),
                       (65536, 20000), (20000, 65536), (1 << 32, 300), ((1 << 32) + 200, 16384), (gen.M64, 1000), (gen.M64, 0xffffffff)):
        conf = cfg(mfs=mine)
        own = 16384 if mine is None else mine
        lim = min(own, peer)
        hs = fb(hello(mfs=peer))
        if len(hs) - 4 > own:
            hs = None
        sizes = [60000 if own > 1 << 20 else 64, lim - 1, lim, lim + 1, lim + 2, own, own + 1, peer]
        for n in sorted({x for x in sizes if 20 < x < 70000}):
            if n > 10000 and not c.thorough and n not in (lim, lim + 1):
                continue
            if hs:
                cases.append(mk(c, conf, [hs, fb(sized_notify(n)), fb(notify(5, 6))]))
                cases.append(mk(c, conf, [hs, fb(sized_notify(n))[:4]]))                      # only its length
                cases.append(mk(c, conf, [hs, fb(notify()), fb(sized_notify(n)), fb(notify(9, 9))], [ok([act(1)])]))
                cases.append(mk(c, conf, [hs, fb(notify(7, 8)), fb(notify(8, 9))], [ok(sized_acts(n, 7, 8)), ok()]))
                cases.append(mk(c, conf, [hs, fb(notify(1, 8)), fb(notify(8, 9))], [ok([act(1)]), ok(sized_acts(n, 8, 9))]))
                if n > 60:
                    if n > 10000 and not c.thorough:
                        continue
                    for d in (-45, -40, -36, -35, -34, -33, -32, -31, -30, -20, 0):
                        cases.append(mk(c, conf, [hs, fb(notify(1, 8))], [{"r": "err", "m": [120] * max(0, n + d)}]))
        # the HELLO itself is held to the configured maximum
        base = len(gen.encode(hello(mfs=peer, eid=[[]])))
        for n in (own - 1, own, own + 1) if own < 17000 or c.thorough else ():
            for d in range(-4, 3):
                if 0 <= n - base + d < 70000:
                    h = hello(mfs=peer, eid=[[101] * (n - base + d)])
                    if abs(len(gen.encode(h)) - own) <= 1:
                        cases.append(mk(c, conf, [fb(h), fb(notify())]))
        if own > 1 << 30:
            continue
        cases.append(mk(c, conf, [[0, 0, (own + 1) >> 8 & 255, (own + 1) & 255] if own < 65535 else [0, 1, 0, 1]]))
        for hd in ([0, 0, 255, 255], [1, 0, 0, 0], [255, 255, 255, 255], [128, 0, 0, 0]):
            cases.append(mk(c, conf, [hd]))
            if hs:
                cases.append(mk(c, conf, [hs, hd]))
                cases.append(mk(c, conf, [hs, fb(notify()), hd + [0] * 50]))
    cases = [x for x in cases if x]
    if not c.thorough and len(cases) > 900:
        cases = c.rng.sample(cases, 900)
    good = K.run(c, cases, "frames around the agreed limit on connections")
    good += lives(c, "plain-long", "frag-long", "good-one")
    good += wild(c, 250, 6000)
    K.selftest(c, good)


# ------------------------------------------------------------------ C07
def c07(c):
    r = c.model("MCNegotiate", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS DropAborted = TRUE Emitting = TRUE\n"
                "INVARIANTS Best None Least Both OrderFree Emit\n", "all handshakes of a small universe")
    cases = []
    for i, x in enumerate(r.jsons()):
        conf = dict(x["cfg"], via=i % 3)
        data = [fb(x["hello"])]
        if i % 3 == 0:
            data.append(fb(notify()))
        cases.append(mk(c, conf, data))
    for _ in range(15000 if c.thorough else 1200):
        r_ = c.rng
        vs = [gen.version(r_) for _ in range(r_.randint(0, 4))]
        vs = [list(v) for v in sorted({tuple(v) for v in vs})]
        r_.shuffle(vs)
        hv = [r_.choice(vs + [[2, 0]]) if r_.random() < 0.6 else gen.version(r_) for _ in range(r_.randint(1, 5))]
        own = r_.choice([None, 256, 300, 1000, 16384, 65536, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 300, 1 << 48, gen.M64])
        h = hello(hv, r_.choice([256, 300, 16383, 16384, 16385, 65535, 65536, (1 << 31) - 1, 1 << 31, 0xffffffff, r_.randint(64, (1 << 32) - 1)]),
                  [r_.choice(gen.CAPS) for _ in range(r_.randint(0, 5))], r_.choice([[], [], [False], [True]]), r_.choice([[], [M("engine")]]))
        conf = cfg(vs, gen.caps(r_), own, via=r_.randint(0, 2))
        cases.append(mk(c, conf, [fb(h), fb(notify())]))
    # long lists of versions on either side, the common ones anywhere in them
    every = [[a, b] for a in range(20) for b in range(20)]
    for n in (6, 16, 17, 33, 65, 130, 257, 300):
        for m in (1, 3, 17, 64, 129, 257):
            for shared in (0, 1, 2, 9):
                pool = c.rng.sample(every, min(len(every), n + m))
                both = pool[:min(shared, n, m)]
                theirs, ours = both + pool[len(both):n], both + pool[n:n + m - len(both)]
                for order in (sorted, lambda x: sorted(x, reverse=True), lambda x: c.rng.sample(x, len(x))):
                    if len(theirs) + len(ours) > 150 and c.rng.random() > (1 if c.thorough else 0.3):
                        continue
                    h = hello(order(theirs), 1 << 16, [c.rng.choice(gen.CAPS) for _ in range(c.rng.choice([0, 3, 40]))])
                    cases.append(mk(c, cfg(order(ours), gen.caps(c.rng), 1 << 16, via=c.rng.randint(0, 2)), [fb(h), fb(notify())]))
    # HELLOs as a real HAProxy writes them: spaces, unknown capabilities, any order
    from .wire import hello as raw
    for _ in range(4000 if c.thorough else 400):
        body = raw(c.rng)
        d = gen.tail_limit(body)
        if d is not None and d < 64:       # no room for any DISCONNECT
            continue
        cases.append(mk(c, cfg(((1, 0), (2, 0), (255, 255)), gen.caps(c.rng), 300, via=1), [gen.framed(body), fb(notify())]))
    good = K.run(c, cases, "handshakes")
    good += lives(c, "good-one", "check-one", "mkerr-two")
    good += wild(c, 250, 6000)
    K.need(c, "mk", "wr")
    K.selftest(c, good)


# ------------------------------------------------------------------ C08
def c08(c):
    K.model(c, MaxFrames=3 if c.thorough else 2, HelloFirst="FALSE", MAXT=0)
    K.model(c, MaxFrames=3 if c.thorough else 2, HelloFirst="FALSE", MAXT=0, Cfg="CfgB")
    kinds = {
        "hello": fb(hello(caps=FRAG)), "check": fb(hello(caps=FRAG, hc=[True])), "nocheck": fb(hello(hc=[False])),
        "notify": fb(notify()), "frag": fb(notify(frag=True)), "hdisc": fb(disc()), "adisc": fb(disc("adisc")),
        "ahello": fb({"t": "ahello", "version": [2, 0], "mfs": gen.w32(16384), "caps": []}), "ack": fb(ack()),
        "unset": gen.framed([0, 0, 0, 0, 1, 1, 1]), "junk": gen.framed([3, 0, 0, 0, 1, 1]), "long": [0, 1, 0, 0], "empty": gen.framed([]),
    }
    cases = []
    for n in (1, 2, 3):
        for seq in itertools.product(kinds, repeat=n):
            if n == 3 and seq[0] not in ("hello", "check", "nocheck") and c.rng.random() > (1 if c.thorough else 0.1):
                continue
            for conf in (cfg(caps=FRAG), cfg()):
                if n == 3 and not c.thorough and c.rng.random() < 0.5:
                    continue
                cases.append(mk(c, conf, [kinds[k] for k in seq]))
    # what follows the end is never looked at, also when it arrives later or the end takes its time
    for k in ("check", "junk", "hdisc", "ack"):
        for wait in (0, 50, 20000):
            pre = [] if k == "check" else [{"d": kinds["hello"]}]
            reads = pre + [{"d": kinds[k]}, {"sleep": wait}, {"d": kinds["hello"]}, {"d": kinds["notify"]}]
            cases.append(case(cfg(), K.conn(reads)))
            cases.append(case(cfg(), K.conn(reads, wmax=1, wpend=True)))
    for d in (0, 1, 100, 60000):
        cases.append(mk(c, cfg(), [kinds["hello"], kinds["notify"], kinds["notify"]], make={"delay": d, "ready": {"delay": d // 2, "pend": 2}}))
        cases.append(mk(c, cfg(), [kinds["check"], kinds["notify"]], make={"delay": d, "r": "err"}))
        cases.append(mk(c, cfg(), [kinds["hello"], kinds["notify"]], make={"delay": d, "r": "err"}))
        cases.append(mk(c, cfg(), [kinds["hello"], kinds["notify"]], make={"ready": {"delay": d, "r": "err"}}))
    cases.append(mk(c, cfg(), [kinds["hello"], kinds["notify"]], make={"r": "never"}))
    good = K.run(c, cases, "sequences of all frame kinds")
    good += lives(c, "check-check", "good-check", "plain-bye", "none-one")
    good += wild(c, 250, 6000)
    good += K.run(c, K.scenarios(c, 4000 if c.thorough else 300, HelloFirst="FALSE", MaxFrames=3), "scenarios from the specification")
    K.selftest(c, good)


# ------------------------------------------------------------------ C09
def c09(c):
    K.model(c, MaxFrames=4 if c.thorough else 3, Failures="FALSE", MAXT=1)
    cases = []
    for i in range(6000 if c.thorough else 500):
        r = c.rng
        n = r.choice([1, 2, 3, 5, 8, 20])
        used, data, calls = [], [], []
        for j in range(n):
            ident = r.choice(used) if used and r.random() < 0.2 else rids(r, r.random() < 0.3)
            used.append(ident)
            data.append(fb(notify(*ident, msgs=rmsgs(r))))
            calls.append(ok(racts(r) + [act(j)], **({"delay": r.choice([0, 1, 5, 100, 3000])} if r.random() < 0.5 else {"pend": r.randint(0, 2)})))
        caps = gen.caps(r)
        cases.append(mk(c, cfg(caps=caps, mfs=65536), [fb(hello(caps=gen.caps(r), mfs=60000))] + data, calls))
    # identifiers that are easily confused
    for a, b in ((1, 2), (1, 1 << 32), (239, 240), (255, 256), (0, 1), (2287, 2288), (1 << 63, 1), (gen.M64, gen.M64 - 1), ((1 << 32) + 5, 5)):
        for x, y in ((a, b), (b, a)):
            if y:
                cases.append(mk(c, cfg(), [fb(hello()), fb(notify(x, y)), fb(notify(y, x or 7)), fb(notify(x, y))], [ok([act(j)]) for j in range(3)]))
    big = 600 if c.thorough else 150
    data = [fb(notify(j % 7, j + 1, [msg("m%d" % j, [("n", u32(j))])])) for j in range(big)]
    cases.append(mk(c, cfg(), [fb(hello(caps=["pipelining"]))] + data, [ok([act(j)], delay=(j * 37) % 50) for j in range(big)], mode=0))
    cases.append(mk(c, cfg(), [fb(hello(caps=["pipelining"]))] + data, [ok([act(j)]) for j in range(big)], mode=3))
    # many messages, arguments and actions in one request
    cases.append(mk(c, cfg(), [fb(hello()), fb(notify(msgs=[msg("m%d" % j) for j in range(300)])), fb(notify(2, 2))], [ok([act(j) for j in range(300)])]))
    for n in (70, 130, 300, 1000):
        for how in range(5):
            name = gen.labels(c.rng, how)
            cases.append(mk(c, cfg(mfs=1 << 20), [fb(hello(mfs=1 << 20)), fb(notify(msgs=[msg(name(j)) for j in range(n)])), fb(notify(2, 2))],
                            [ok([act(int(name(j)[1:] or 0)) for j in range(n)]), ok([act(j % 2) for j in range(n)])]))
    for n in (16, 127, 128, 129, 255):
        for how in range(5):
            name = gen.labels(c.rng, how)
            cases.append(mk(c, cfg(), [fb(hello()), fb(notify(msgs=[msg("m", [(name(j), u32(j % 3)) for j in range(n)])]))]))
    # requests that are equal in every respect, and large ones
    for n in (2, 3, 10, 40):
        cases.append(mk(c, cfg(), [fb(hello())] + [fb(notify(1, 1, [msg()]))] * n, [ok([act(j)]) for j in range(n)]))
        cases.append(mk(c, cfg(), [fb(hello())] + [fb(notify(1, 1, [msg()]))] * n, [ok([act(1)]) for j in range(n)]))
        cases.append(mk(c, cfg(), [fb(hello())] + [fb(notify(1, 1, []))] * n, [ok([]) for j in range(n)]))
    for n in (4000, 8170, 8192, 8210, 16000, 16384, 20000, 65000):
        cases.append(mk(c, cfg(mfs=70000), [fb(hello(mfs=70000)), fb(sized_notify(n)), fb(notify(2, 2)), fb(sized_notify(n + 1, 3, 3))],
                        [ok(sized_acts(n)), ok(sized_acts(n + 7, 2, 2)), ok([act(1)])]))
    # answers of very many actions
    for n in (1025, 2049, 3000):
        for how in range(2):
            name = gen.labels(c.rng, how)
            big = [dict(act(j % 200), name=M(name(j))) for j in range(n)]
            cases.append(mk(c, cfg(mfs=1 << 20), [fb(hello(mfs=1 << 20)), fb(notify()), fb(notify(2, 2))], [ok(big), ok(big[::-1])], mode=1))
    for n, how in ((5000, 0), (5000, 1)) + (((17000, 0),) if c.thorough else ()):
        name = gen.labels(c.rng, how)
        big = [dict(act(j % 200), name=M(name(j))) for j in range(n)]
        cases.append(mk(c, cfg(mfs=1 << 22), [fb(hello(mfs=1 << 22)), fb(notify(msgs=[msg(name(j)) for j in range(n)]))], [ok(big)], mode=1))
    # a peer that takes its time to read the answers
    for n in (1, 2, 3, 5):
        for ms in (1, 100, 4999, 5001, 10001, 14999, 15001, 30001, 61000, 601000, 3700000):
            data = [fb(notify(j, j + 1)) for j in range(n)]
            calls = [ok([act(j)], delay=c.rng.choice([0, 50])) for j in range(n)]
            cases.append(mk(c, cfg(), [fb(hello())] + data, calls, wslow=[{"f": f, "off": c.rng.choice([0, 1, 4, 7]), "ms": ms} for f in range(n + 1)], tail=c.rng.choice([[], [{"eof": 1}], [{"err": 1}]])))
            cases.append(mk(c, cfg(), [fb(hello())] + data, calls, wslow=[{"f": f, "flush": True, "ms": ms} for f in range(1, n + 2)]))
    cases.append(mk(c, cfg(), [fb(hello()), fb(notify(msgs=[])), fb(notify(msgs=[msg(), msg()])), fb(notify(msgs=[msg("x"), msg("x")]))]))
    good = K.run(c, cases, "pipelined requests")
    good += lives(c, "plain-eof", "plain-wait", "two-eof", "good-one", "failed-two")
    good += wild(c, 250, 6000)
    K.need(c, "call", "ret")
    good += K.run(c, K.scenarios(c, 4000 if c.thorough else 250, HelloFirst="TRUE", Failures="FALSE"), "scenarios from the specification")
    K.selftest(c, good)


# ------------------------------------------------------------------ C10
KNOWN_ABORT = ("aborted-notify-delivered", "ConnTraceKnown.cfg")


def c10(c):
    K.model(c, MaxFrames=6 if c.thorough else 4, Failures="FALSE", MAXT=0)
    K.model(c, MaxFrames=3, Cfg="CfgB", Failures="FALSE", HelloFirst="FALSE", MAXT=0)
    conf = cfg(caps=FRAG)
    hs = fb(hello(caps=FRAG))
    cases = []
    # every sequence of fragments of two requests
    for n in range(1, 6 if c.thorough else 5):
        for seq in itertools.product([(0, True), (0, False), (1, True), (1, False)], repeat=n):
            name = gen.labels(c.rng)
            data = [fb(notify(1 + who, 3 - who, [msg(name(j))], frag=fr)) for j, (who, fr) in enumerate(seq)]
            cases.append(mk(c, conf, [hs] + data, [ok([act(j)]) for j in range(n)]))
    # identifiers that are easily confused, interleaved
    pairs = [((1, 2), (2, 1)), ((1, 1), (1, 2)), ((1, 1), (2, 1)), ((0, 1), (1, 1)), ((1 << 32, 1), (0, 1)), ((1, 1 << 32), (1, (1 << 32) + 1)),
             ((1, 1), (1, 1 << 32)), ((240, 1), (1, 240)), ((12, 3), (1, 23)), ((gen.M64, 1), (1, gen.M64)), ((5, 1 << 63), (5, 1)),
             ((1 << 16, 1), (1, 1 << 16)), ((3, 4), (4, 3)), ((256, 1), (1, 1)), ((1, 256), (1, 512)), ((6, 6), (7, 7)), ((1, 3), (2, 2)), ((0, 3), (3, 1))]
    for a, b in pairs + gen.confusable():
        for order in ("abAB", "abBA", "abaABb", "aAbBaA", "babBA", "abbaBA") if (a, b) in pairs else ("abAB",):
            data = []
            for j, ch in enumerate(order):
                s, f = a if ch in "aA" else b
                data.append(fb(notify(s, f, [msg("m%d" % j)], frag=ch.islower())))
            cases.append(mk(c, conf, [hs] + data, [ok([act(j)]) for j in range(len(order))]))
    for _ in range(5000 if c.thorough else 400):
        r = c.rng
        pool = [rids(r, True) for _ in range(r.randint(1, 4))] + [rids(r) for _ in range(r.randint(0, 2))]
        data, name, value = [], gen.labels(r), gen.typed(r)
        for j in range(r.randint(1, 14)):
            s, f = r.choice(pool)
            data.append(fb(notify(s, f, [msg(name(2 * j + q), [("a", value if r.random() < 0.7 else gen.typed(r))]) for q in range(r.randint(0, 2))], frag=r.random() < 0.6)))
        cases.append(mk(c, conf, [fb(hello(caps=FRAG + gen.caps(r)))] + data, [ok([act(j)], delay=r.choice([0, 0, 3, 200])) for j in range(15)]))
    # a long one, and many at a time
    n = 1100
    for how in range(4 if c.thorough else 2):
        name = gen.labels(c.rng, how)
        cases.append(mk(c, conf, [hs] + [fb(notify(1, 1, [msg(name(j))], frag=j < n - 1)) for j in range(n)], mode=0))
    # fragments of many messages
    for n, k in ((70, 3), (300, 3), (1000, 6)):
        for how in range(4 if n < 1000 else 1):
            name = gen.labels(c.rng, how)
            cases.append(mk(c, conf, [hs] + [fb(notify(1, 1, [msg(name(3 * j + q // 100)) for q in range(n)], frag=j < k - 1)) for j in range(k)]))
    n = 1100
    cases.append(mk(c, conf, [hs] + [fb(notify(j, 1, [msg("a%d" % j)], frag=True)) for j in range(n)]
                    + [fb(notify(j, 1, [msg("b%d" % j)])) for j in reversed(range(n))], [ok([act(j)]) for j in range(n)], mode=0))
    # not agreed: by the agent, by the peer, by both
    for ac, pc in (([], FRAG), (FRAG, []), ([], []), (["async", "pipelining"], gen.CAPS), (gen.CAPS, ["pipelining"])):
        for seq in ("a", "Aa", "AAaA", "aA"):
            data = [fb(notify(1, 1 + j, [msg("m%d" % j)], frag=ch == "a")) for j, ch in enumerate(seq)]
            cases.append(mk(c, cfg(caps=ac), [fb(hello(caps=pc))] + data))
    good = K.run(c, cases, "fragmented requests")
    good += lives(c, "frag-part", "frag-eof", "two-wait", "open-one", "open-two")
    good += wild(c, 250, 6000)
    good += K.run(c, K.scenarios(c, 4000 if c.thorough else 250, HelloFirst="TRUE", Failures="FALSE", MaxFrames=7), "scenarios from the specification")
    K.selftest(c, good)
    # aborted requests
    cases = []
    for body in ([], [msg("x")]):
        for before in (1, 2, 3):
            data = [fb(notify(1, 1, [msg("m%d" % j)], frag=True)) for j in range(before)] + [abort(notify(1, 1, body))]
            cases.append(mk(c, conf, [hs] + data + [fb(notify(2, 2))], [ok([act(1)]), ok([act(2)])]))
            cases.append(mk(c, conf, [hs] + data + [fb(notify(1, 1, [msg("new")]))], [ok([act(1)]), ok([act(2)])]))
            cases.append(mk(c, conf, [hs, fb(notify(3, 3, [msg("other")], frag=True))] + data + [fb(notify(3, 3, [msg("end")]))], [ok([act(1)]), ok([act(2)])]))
    K.run(c, cases, "aborted fragmented requests", known=KNOWN_ABORT)


# ------------------------------------------------------------------ C11
def c11(c):
    K.model(c, MaxFrames=3 if c.thorough else 2, MAXT=1)
    K.model(c, MaxFrames=2, MAXT=1, Cfg="CfgB", HelloFirst="FALSE")
    hs = fb(hello(caps=FRAG))
    conf = cfg(caps=FRAG)
    texts = [[], M("no"), M("x" * 239), M("x" * 240), M("y" * 1000), list("ünïcode 🦀".encode()), M("line\nbreak, comma"), [0], M("closed"), M("Timeout"),
             M(" "), M(" lead"), M("trail \n"), M("\t\r\n"), M("a  b"), M("\"quoted\" \\ {x} %s"), M("MiXed CaSe"), [0xef, 0xbb, 0xbf, 97], [97, 0]]
    cases = []
    for t in texts:
        for pre in ([], [fb(notify(5, 5))], [fb(notify(6, 6, frag=True))]):
            n = sum(1 for p in pre if p[8] & 1)
            cases.append(mk(c, conf, [hs] + pre + [fb(notify()), fb(notify(2, 2))], [ok([act(1)])] * n + [{"r": "err", "m": t, "delay": c.rng.choice([0, 10])}]))
            cases.append(mk(c, conf, [hs] + pre + [fb(notify()), fb(notify(2, 2))], [ok([act(1)])] * n, [{}] * n + [{"r": "err", "m": t, "pend": 1}]))
        cases.append(mk(c, conf, [hs, fb(notify())], make={"r": "err", "m": t}))
        cases.append(mk(c, conf, [hs, fb(notify())], make={"ready": {"r": "err", "m": t}}))
        cases.append(mk(c, conf, [hs, fb(disc(text="", code=c.rng.choice([0, 2, 99])))]))
    from .wire import CHARS
    for ch in CHARS:
        t = list(c.rng.choice([ch + "no", "no" + ch, "n" + ch + "o"]).encode())
        cases.append(mk(c, conf, [hs, fb(notify())], [{"r": "err", "m": t}]))
    bad = [gen.framed(b) for b in ([], [0], [3, 0, 0, 0, 1], [3, 0, 0, 0, 1, 1, 0], [3, 0, 0, 0, 1, 240, 1], [1, 0, 0, 0, 1, 0, 0], [99, 0, 0, 0, 1, 0, 0],
                                   gen.head(3, 1, 1, 1) + [1, 97, 1, 1, 98, 10], gen.head(3, 1, 1, 1) + [1, 255, 0], gen.head(2, 1, 0, 0) + [5, 1],
                                   gen.head(103, 1, 1, 1) + [9, 3, 0, 1, 97])]
    bad += [fb(ack()), fb(disc("adisc")), fb({"t": "ahello", "version": [2, 0], "mfs": gen.w32(100), "caps": []}), hs, gen.framed([0, 0, 0, 0, 1, 1, 1])]
    bad += [[0, 1, 0, 0], [255] * 8, [0, 0, 64, 1, 3]]
    for b in bad:
        cases.append(mk(c, conf, [b, hs, fb(notify())]))
        cases.append(mk(c, conf, [hs, b, fb(notify())]))
        cases.append(mk(c, conf, [hs, fb(notify()), b, fb(notify())], [ok([act(1)], delay=c.rng.choice([0, 30]))]))
        cases.append(mk(c, conf, [hs, fb(notify(3, 3, frag=True)), b]))
        cases.append(mk(c, conf, [hs, fb(notify()), b], [ok([act(1)])], tail=[{"eof": 1}]))
    for h in (hello(versions=[(1, 0)]), hello(versions=[(2, 1), (1, 9)]), hello(versions=[(1, 0)], hc=[True])):
        cases.append(mk(c, conf, [fb(h), fb(notify())]))
    for f in (disc(), disc(code=2, text=""), disc(code=0xffffffff), disc(code=99, text="z" * 300)):
        cases.append(mk(c, conf, [hs, fb(f), fb(notify())]))
        cases.append(mk(c, conf, [hs, fb(notify()), fb(f), fb(notify())], [ok([act(1)], delay=5)]))
        cases.append(mk(c, conf, [fb(f), hs]))
    # a disconnect without items
    cases.append(mk(c, conf, [hs, gen.framed(gen.head(2, 1, 0, 0))]))
    cases.append(mk(c, cfg(), [fb(hello()), fb(notify(frag=True)), fb(notify())]))
    cases.append(mk(c, cfg(maxt=100), [fb(hello()), fb(notify()), fb(notify(2, 2))], [{"r": "never"}]))
    cases.append(mk(c, cfg(maxt=100), [fb(hello()), fb(notify()), fb(notify(2, 2))], [], [{"r": "never"}]))
    # the transport fails or ends, everywhere
    data = [hs, fb(notify(1, 1)), fb(notify(2, 2, frag=True)), fb(notify(2, 2))]
    flat = [x for d in data for x in d]
    for n in range(0, len(flat) + 1, 1 if c.thorough else 2):
        cases.append(mk(c, conf, [flat[:n]], [ok([act(1)])], tail=[{"eof": 1} if n % 4 else {"err": 1}]))
    for n in range(0, 140, 1 if c.thorough else 2):
        cases.append(mk(c, conf, data, [ok([act(1)]), ok([act(2)])], werr=n, wmax=c.rng.choice([1, 7, 1000])))
        if n < 60:
            cases.append(mk(c, conf, [hs, bad[n % len(bad)]], werr=n + 60))
    # it is written, but can not be flushed
    for n in range(1, 5):
        for tail in ([], [{"eof": 1}]):
            cases.append(mk(c, conf, [hs, fb(notify()), fb(notify(2, 2)), fb(disc())], [ok([act(1)]), ok([act(2)])], ferr=n, tail=tail))
            cases.append(mk(c, conf, [hs, fb(notify()), bad[n % len(bad)]], [ok([act(1)])], ferr=n, tail=tail))
    cases.append(mk(c, conf, [fb(hello(hc=[True]))], ferr=1))
    good = K.run(c, cases, "failing connections")
    good += lives(c, "plain-fail", "frag-junk", "plain-cut", "plain-sorry", "failed-fail", "bad-fail", "dead-one", "mkerr-mkerr", "down-down",
                  "nover-nover", "bad-bad", "gone-gone", "slow-late", "good-mkerr")
    good += wild(c, 250, 6000)
    K.need(c, "wrerr", "eof", "rderr", "drop")
    good += K.run(c, K.scenarios(c, 4000 if c.thorough else 250, HelloFirst="TRUE", MaxFrames=3), "scenarios from the specification")
    K.selftest(c, good)
    api.judge(c, api.byes(c, 3000 if c.thorough else 300), "connections told to disconnect")


# ------------------------------------------------------------------ C12
def c12(c):
    K.model(c, MaxFrames=3, MAXT=2 if c.thorough else 1, Failures="FALSE")
    K.model(c, MaxFrames=2, MAXT=1, live=True)
    cases = []
    hs = fb(hello(caps=FRAG))
    for maxt in (None, 1, 50, 100, 15000, 20000, 600000):
        T = 15000 if maxt is None else maxt
        conf = cfg(caps=FRAG, maxt=maxt)
        for d in (0, 1, T // 2, T - 1, T, T + 1, T + 50, 2 * T, None):
            step = {"r": "never"} if d is None else ok([act(1)], delay=max(d, 0))
            three = [fb(notify(1, 1)), fb(notify(2, 2)), fb(notify(3, 3))]
            cases.append(mk(c, conf, [hs] + three, [step]))
            cases.append(mk(c, conf, [hs] + three, [ok([act(0)], delay=T * 2 // 3), ok([act(1)], delay=T * 2 // 3), step]))      # each gets all of it
            cases.append(case(conf, K.conn([{"d": hs}, {"sleep": T * 3}, {"d": three[0]}, {"sleep": T + 7}, {"d": three[1]}], [ok([act(0)], delay=T - 1), step])))
            cases.append(case(conf, K.conn([{"d": hs}, {"d": fb(notify(1, 1, frag=True))}, {"sleep": T * 2}, {"d": three[0]}], [step])))  # starts when complete
            cases.append(case(conf, K.conn([{"d": hs + three[0] + three[1]}], [{"r": "err", "m": M("late"), "delay": d or 0}])))
            # readiness and call share the allowance
            cases.append(mk(c, conf, [hs] + three, [ok([act(1)], delay=T // 2)], [{"delay": T // 2 - 1}]))
            cases.append(mk(c, conf, [hs] + three, [ok([act(1)], delay=T // 2)], [{"delay": T // 2 + 2}]))
            cases.append(mk(c, conf, [hs] + three, [step], [{"r": "never"}]))
        cases.append(mk(c, conf, [hs, fb(notify())], make={"delay": T * 2}))
        cases.append(mk(c, conf, [hs, fb(notify())], [{"r": "never"}], tail=[{"eof": 1}]))
        cases.append(mk(c, conf, [hs, fb(notify())], [{"r": "never"}], cancel_at=T // 2))
        cases.append(mk(c, conf, [hs, fb(notify())], [ok([act(1)], delay=T - 1)], wmax=1, wpend=True))
    # no time at all, a lot of it, and no deadline (the harness takes 2^30 for Duration::MAX, or what maxt_ms says)
    for maxt in (0, 3000000, 1 << 30, 1 << 31, 1 << 32, (1 << 32) + 7, 1000 << 32, 1 << 53, (1 << 63) + 5, (1 << 64) - 1):
        conf = cfg(caps=FRAG, maxt=min(maxt, 1 << 30))
        if maxt > 1 << 30:
            conf["maxt_ms"] = maxt
        for d in (0, 1, 14999, 15001, 60001, 2999999):
            cases.append(mk(c, conf, [hs] + three, [ok([act(1)], delay=d), ok([act(2)]), ok([act(3)], delay=d)]))
            cases.append(mk(c, conf, [hs] + three, [ok([act(1)]), {"r": "err", "m": M("late"), "delay": d}]))
            cases.append(mk(c, conf, [hs] + three, [ok([act(1)])], [{"delay": d}]))
    for _ in range(3000 if c.thorough else 250):
        r = c.rng
        T = r.choice([10, 100, 15000])
        n = r.randint(1, 5)
        reads = [{"d": hs}]
        for j in range(n):
            reads += [{"sleep": r.choice([0, 1, T // 2, T, 3 * T])}, {"d": fb(notify(j, j + 1))}]
        cases.append(case(cfg(caps=FRAG, maxt=T), K.conn(reads, [ok([act(j)], delay=r.choice([0, T // 3, T - 1, T - 1, T - 1, T + 1])) for j in range(n)],
                                                         [{"delay": r.choice([0, 0, 0, T // 2])} for _ in range(n)])))
    # the time a peer takes to read does not count
    for T in (50, 15000):
        for x in ({}, {"off": 3}, {"flush": True}):
            for ms in (T // 2, T - 1, T + 1, 3 * T, 100 * T):
                for f in (0, 1, 2):
                    cases.append(mk(c, cfg(caps=FRAG, maxt=T), [hs] + three, [ok([act(1)], delay=T - 1), ok([act(2)], delay=T - 2), {"r": "never"}],
                                    wslow=[dict(x, f=f, ms=ms)] + [dict(x, f=3, ms=ms)]))
    good = K.run(c, cases, "calls around their deadline, in virtual time")
    good += lives(c, "plain-late", "plain-edge", "frag-late", "slow-late", "slow-one", "plain-wait")
    good += wild(c, 250, 6000)
    K.need(c, "drop", "ret")
    K.selftest(c, good)


# ------------------------------------------------------------------ C13
def some_conn(r, seed):
    """A connection of some temper; all use the same identifiers."""
    hs = fb(hello(caps=r.choice([FRAG, [], FRAG]), mfs=r.choice([16384, 300, 1000])))
    n = r.randint(1, 5)
    data = [hs]
    for j in range(n):
        data.append(fb(notify(r.choice([1, 2]), r.choice([1, 2]), [msg("c%d.%d" % (seed, j))], frag=r.random() < 0.4)))
    kind = r.choice(["good", "good", "good", "slow", "fail", "never", "junk", "long", "eof", "err", "werr", "bye", "early", "check", "make", "mkerr", "partial", "cancel", "readyerr", "tired", "deaf"])
    calls = [ok([act(seed * 100 + j)], delay=r.choice([0, 0, 5, 50])) for j in range(n)]
    ready, make, kw, tail = [], {}, {"start": r.choice([0, 0, 3, 40])}, []
    if kind == "slow":
        calls = [ok([act(seed * 100 + j)], delay=r.choice([90, 400])) for j in range(n)]
    elif kind == "fail":
        calls[r.randrange(n)] = {"r": "err", "m": M("conn %d" % seed)}
    elif kind == "never":
        calls[r.randrange(n)] = {"r": "never"}
    elif kind == "junk":
        data.insert(r.randint(0, n), gen.framed([3, 0, 0, 0, 1, 240]))
    elif kind == "long":
        data.insert(r.randint(0, n), [0, 200, 0, 0])
    elif kind in ("eof", "err"):
        flat = [x for d in data for x in d]
        data = [flat[:r.randrange(len(flat))]]
        tail = [{kind: 1}]
    elif kind == "werr":
        kw["werr"] = r.randint(0, 120)
    elif kind == "tired":
        kw["wslow"] = slow(r)
    elif kind == "deaf":
        kw["wslow"] = [{"f": r.randint(0, n), "off": r.choice([0, 4, 9]), "never": True}]
    elif kind == "bye":
        data.insert(r.randint(1, n), fb(disc()))
    elif kind == "early":
        data[0] = fb(notify())
    elif kind == "check":
        data[0] = fb(hello(hc=[True]))
    elif kind == "make":
        make = {"delay": r.choice([10, 3000, 60000])}
    elif kind == "mkerr":
        make = {"r": "err", "delay": r.choice([0, 20])}
    elif kind == "partial":
        data.append(fb(notify())[:9])
    elif kind == "cancel":
        kw["cancel_at"] = kw["start"] + r.choice([0, 1, 20, 100])
    elif kind == "readyerr":
        ready = [{"delay": r.choice([0, 9])} for _ in range(n - 1)] + [{"r": "err", "m": M("not %d" % seed)}]
    return K.conn(chunks(r, data, r.choice([0, 1, 3, 4, 5, 6])) + tail, calls, ready, make, **{**opts(r), **kw})


def c13(c):
    K.model(c, MaxFrames=2, MAXT=1)
    cases = []
    hs0 = fb(hello(caps=FRAG))
    for i in range(4000 if c.thorough else 450):
        k = c.rng.choice([2, 2, 3, 4, 8])
        cases.append(case(cfg(caps=FRAG, mfs=2000, maxt=200), *[some_conn(c.rng, j) for j in range(k)]))
    # fragments with the same identifiers on several connections at the same time
    for k in (2, 3, 6):
        cs = []
        for j in range(k):
            reads = [{"d": fb(hello(caps=FRAG))}]
            for q in range(4):
                reads += [{"sleep": 10 + j}, {"d": fb(notify(1, 1, [msg("c%d.%d" % (j, q))], frag=q < 3))}]
            cs.append(K.conn(reads, [ok([act(j)])]))
        cases.append(case(cfg(caps=FRAG), *cs))
    # different handshakes
    for _ in range(40):
        cs = []
        for j in range(4):
            data = [fb(hello(caps=gen.caps(c.rng), mfs=c.rng.choice([256, 300, 400]))), fb(sized_notify(c.rng.choice([250, 256, 257, 300, 301]))), fb(notify(1, 1, frag=True))]
            cs.append(K.conn(chunks(c.rng, data), [ok([act(j)])]))
        cases.append(case(cfg(caps=gen.CAPS), *cs))
    # one that never gets its service, one whose service never answers: the rest goes on
    for make in ({"r": "never"}, {"delay": 100000}, {"r": "err"}):
        cs = [K.conn([{"d": fb(hello())}, {"d": fb(notify())}], make=make)]
        cs += [K.conn([{"sleep": 5}, {"d": fb(hello())}, {"d": fb(notify(j, 9))}], [ok([act(j)], delay=3)]) for j in range(3)]
        cases.append(case(cfg(), *cs))
    # a great many that get nowhere, in every way there is, and some that come after them
    hold = {"call": K.conn([{"d": hs0 + fb(notify())}], [{"r": "never"}]),
            "ready": K.conn([{"d": hs0 + fb(notify())}], [], [{"r": "never"}]),
            "make": K.conn([{"d": hs0}], make={"r": "never"}),
            "open": K.conn([{"d": hs0 + fb(notify(1, 1, frag=True))}]),
            "half": K.conn([{"d": hs0 + fb(notify())[:9]}]),
            "mute": K.conn([]),
            "idle": K.conn([{"d": hs0}]),
            "deaf": K.conn([{"d": hs0 + fb(notify())}], wslow=[{"f": 1, "off": 3, "never": True}]),
            "dumb": K.conn([{"d": hs0}], wslow=[{"f": 0, "never": True}]),
            "slow": K.conn([{"d": hs0 + fb(notify())}], wslow=[{"f": 0, "ms": 5000}, {"f": 1, "off": 3, "ms": 50000}])}
    later = [K.conn([{"d": hs0}, {"d": fb(notify(j, 9))}, {"sleep": 40}, {"d": fb(notify(1, 1))}], [ok([act(j)], delay=3), ok([act(9)])], start=5 + j) for j in range(5)]
    for k in hold:
        cases.append(case(cfg(caps=FRAG, maxt=10 ** 8), *([hold[k]] * (600 if c.thorough else 150) + later)))
    for n in (20, 70, 300):
        cases.append(case(cfg(caps=FRAG, maxt=10 ** 8), *(c.rng.choices(list(hold.values()), k=n) + later)))
    good = K.run(c, cases, "several connections of one agent, one trace each")
    good += lives(c, "good-two", "failed-two", "bad-two", "dead-two", "none-two", "mkerr-two", "open-two", "slow-two", "mkerr-mkerr", "down-two", "nover-bad", "gone-two")
    good += K.run(c, [crowd(c.rng) for _ in range(3000 if c.thorough else 120)], "several connections on which anything may happen")
    K.need(c, "drop", "wrerr", "eof", "block")
    K.selftest(c, good)
    agent_part(c, "C13")


# ------------------------------------------------------------------ C14
def c14(c):
    K.model(c, MaxFrames=2, MAXT=1, live=True)
    K.model(c, MaxFrames=3, MAXT=1, Failures="FALSE", Slow="TRUE")
    if c.thorough:
        K.model(c, MaxFrames=2, MAXT=1, live=True, Slow="TRUE")
        K.model(c, MaxFrames=3, MAXT=1, live=True)
    cases = []
    hs = fb(hello(caps=FRAG))
    conf = cfg(caps=FRAG, maxt=200)
    plans = [
        K.conn([]), K.conn([{"d": hs[:3]}]), K.conn([{"d": hs[:30]}]), K.conn([{"d": hs}]),
        K.conn([{"d": hs}, {"d": fb(notify())[:2]}]), K.conn([{"d": hs}, {"d": fb(notify())[:9]}]),
        K.conn([{"d": hs}, {"d": fb(notify(frag=True))}]),
        K.conn([{"d": hs}], make={"delay": 50}), K.conn([{"d": hs}], make={"ready": {"delay": 50}}),
        K.conn([{"d": hs + fb(notify())}], [ok([act(1)], delay=60)]),
        K.conn([{"d": hs + fb(notify()) + fb(notify(2, 2))}], [ok([act(1)], delay=60), ok([act(2)], delay=60)]),
        K.conn([{"d": hs + fb(notify()) + fb(notify(2, 2))[:7]}], [ok([act(1)], delay=60), ok([act(2)], delay=60)]),
        K.conn([{"d": hs + fb(notify())}], [{"r": "never"}]), K.conn([{"d": hs + fb(notify())}], [{"r": "err", "m": M("x"), "delay": 60}]),
        K.conn([{"d": hs + fb(notify())}], [ok([act(1)], delay=60)], wmax=1, wpend=True),
        K.conn([{"d": hs + fb(notify())}], [ok([act(1)], delay=20)], [{"delay": 40}]),
        K.conn([{"d": hs}, {"sleep": 30}, {"d": fb(notify())}, {"sleep": 30}, {"d": fb(notify(2, 2))}, {"eof": 1}], [ok(delay=20), ok(delay=20)]),
    ]
    for p in plans:
        for t in (0, 1, 5, 29, 30, 31, 45, 50, 55, 60, 61, 100, 120, 199, 200, 201, 300):
            cases.append(case(conf, dict(p, cancel_at=t)))
    for when in ("start", "end"):
        for d in (None, 0, 1, 50, 199):
            step = ok([act(1)], cancel=when, **({} if d is None else {"delay": d}))
            cases.append(mk(c, conf, [hs, fb(notify()), fb(notify(2, 2))], [step, ok([act(2)])]))
            cases.append(mk(c, conf, [hs, fb(notify()), fb(notify(2, 2))], [ok([act(0)]), step]))
            cases.append(mk(c, conf, [hs, fb(notify())], [dict(step, r="err", m=M("e"))]))
        cases.append(mk(c, conf, [hs, fb(notify())], make={"cancel": when, "delay": 3}))
    cases.append(mk(c, conf, [hs, fb(notify()), fb(notify(2, 2))], [ok([act(1)], cancel="start", delay=80), ok([act(2)], delay=80)]))
    for i in range(3000 if c.thorough else 300):
        r = c.rng
        x = some_conn(r, 1)
        x["cancel_at"] = r.randint(0, 260)
        cases.append(case(cfg(caps=FRAG, mfs=2000, maxt=200), x))
    # after every byte of a conversation
    flat = hs + fb(notify()) + fb(notify(2, 2, frag=True)) + fb(notify(2, 2))
    for n in range(0, len(flat) + 1, 1 if c.thorough else 3):
        cases.append(case(conf, K.conn([{"d": flat[:n]}, {"cancel": 1}, {"d": flat[n:]}], [ok([act(1)], delay=5), ok([act(2)])])))
        cases.append(case(conf, K.conn([{"d": flat[:n]}, {"sleep": 4}, {"cancel": 1}], [ok([act(1)], delay=5), ok([act(2)])])))
    # while something is being written to a peer that takes its time, or that never gets on
    some = K.conn([{"d": hs + fb(notify())}, {"d": fb(notify(2, 2))}], [ok([act(1)]), ok([act(2)])])
    for f in range(3):
        for x in [{"off": k} for k in (0, 1, 4, 5, 9, 11, 12, 20)] + [{"flush": True}]:
            for ms in (0, 30, 6000, 70000, 4000000):
                cases.append(case(conf, dict(some, wslow=[dict(x, f=f, ms=ms, cancel=True)])))
            cases.append(case(conf, dict(some, wslow=[dict(x, f=f, ms=100)], cancel_at=c.rng.choice([1, 99]))))
            cases.append(case(conf, dict(some, wslow=[dict(x, f=f, never=True, cancel=True)])))
    for _ in range(1500 if c.thorough else 100):
        x = some_conn(c.rng, 1)
        cases.append(case(cfg(caps=FRAG, mfs=2000, maxt=200), dict(x, wslow=slow(c.rng, cancel=0.5))))
    good = K.run(c, cases, "shutdown at every point of a connection")
    good += lives(c, "plain-cancel", "frag-cancel", "good-cancel", "slow-cancel")
    good += wild(c, 250, 6000)
    K.need(c, "cancel", "ret", "block", "unblock")
    K.selftest(c, good)
    agent_part(c, "C14")


# ------------------------------------------------------------------ C21
def c21(c):
    K.model(c, MaxFrames=3, MAXT=1, Failures="FALSE")
    K.model(c, MaxFrames=2, MAXT=1)
    cases = []
    hs = fb(hello(caps=FRAG))
    readies = [{}, {"pend": 1}, {"pend": 3}, {"delay": 1}, {"delay": 70}, {"delay": 99}, {"delay": 150}, {"r": "never"},
               {"r": "err", "m": M("not today")}, {"r": "err", "pend": 2, "m": M("no")}, {"r": "err", "delay": 40, "m": []}, {"r": "err", "delay": 140, "m": M("late")}]
    for a in readies:
        for b in readies:
            cases.append(mk(c, cfg(caps=FRAG, maxt=100), [hs, fb(notify(1, 1)), fb(notify(2, 2)), fb(notify(3, 3))],
                            [ok([act(j)], delay=c.rng.choice([0, 10])) for j in range(3)], [a, b]))
            cases.append(mk(c, cfg(caps=FRAG, maxt=100), [hs, fb(notify(1, 1, frag=True)), fb(notify(1, 1)), fb(notify(2, 2))], [ok([act(1)], delay=50)], [a, b]))
    for a in readies:
        for m in ({}, {"delay": 30}, {"r": "err"}, {"pend": 2}):
            cases.append(mk(c, cfg(maxt=100), [fb(hello()), fb(notify())], make=dict(m, ready=a)))
            cases.append(mk(c, cfg(maxt=100), [fb(hello(hc=[True]))], make=dict(m, ready=a)))
    for i in range(2500 if c.thorough else 200):
        n = c.rng.randint(1, 6)
        cases.append(mk(c, cfg(maxt=100), [fb(hello())] + [fb(notify(j, j + 1)) for j in range(n)], [ok([act(j)], delay=c.rng.choice([0, 5, 60])) for j in range(n)],
                        [c.rng.choice(readies) for _ in range(n)], make={"ready": c.rng.choice(readies[:5])}))
    # polled in vain many times, waited for very long, unready before each of many requests
    for a in ({"pend": 17}, {"pend": 65}, {"pend": 300}, {"pend": 1100}, {"pend": 40, "delay": 20}, {"pend": 1100, "r": "err", "m": M("after all")}):
        for conf in (cfg(maxt=100), cfg(maxt=10 ** 7, caps=FRAG)):
            cases.append(mk(c, conf, [hs, fb(notify(1, 1)), fb(notify(2, 2))], [ok([act(1)]), ok([act(2)], delay=3)], [{}, a]))
            cases.append(mk(c, conf, [hs, fb(notify(1, 1)), fb(notify(2, 2))], [ok([act(1)]), ok([act(2)], delay=3)], make={"ready": a}))
    for d in (1000, 5001, 15001, 30001, 61000, 301000, 3000000):
        for r_ in ("ok", "err"):
            w = dict({"delay": d}, **({"r": "err", "m": M("at last")} if r_ == "err" else {}))
            for conf in (cfg(maxt=d + 1000, caps=FRAG), cfg(maxt=1 << 30, caps=FRAG)):
                cases.append(mk(c, conf, [hs, fb(notify(1, 1)), fb(notify(2, 2))], [ok([act(1)]), ok([act(2)])], [w, {"delay": 1}]))
                cases.append(mk(c, conf, [hs, fb(notify(1, 1)), fb(notify(2, 2))], [ok([act(1)]), ok([act(2)])], make={"ready": w}))
    for n in (40, 130):
        for some in ([{"pend": 1}], [{"delay": 2}], readies[:5], [{}, {}, {"pend": 2}]):
            cases.append(mk(c, cfg(maxt=100, caps=FRAG), [hs] + [fb(notify(j, j + 1, frag=j % 7 == 3)) for j in range(n)],
                            [ok([act(j % 100)], delay=c.rng.choice([0, 0, 5])) for j in range(n)], [c.rng.choice(some) for _ in range(n)]))
    good = K.run(c, cases, "services and makers that are not ready")
    good += lives(c, "plain-unready", "plain-sorry", "frag-wait", "mkerr-one")
    good += wild(c, 250, 6000)
    K.need(c, "ready", "mkready", "drop")
    K.selftest(c, good, kinds=("call",))


def agent_part(c, prop):
    try:
        from . import agent
    except ImportError:
        return
    agent.part(c, prop)
