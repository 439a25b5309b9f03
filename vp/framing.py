"""C04 (and parts of C05): framing over a transport, against Framing."""
import copy
from . import gen, wire
from .core import ToolError

MC = """SPECIFICATION %s
CHECK_DEADLOCK FALSE
CONSTANTS MaxFrames = %d Cut = %s
INVARIANTS CutFree Complete Early
"""


def stream(api, max, reads, writes=(), **kw):
    return {"op": "stream", "api": api, "max": max, "reads": list(reads), "writes": list(writes), **kw}


def judge(c, cases, what):
    recs = c.run("wire", cases)
    bad = set(c.judge_traces("FramingTrace", recs, what, cases=cases))
    return [r for i, r in enumerate(recs) if i not in bad]


def corrupt(recs, limit=250):
    bad = []
    for t in recs:
        if t["op"] != "stream":
            continue
        ev = t["ev"]

        def put(new):
            x = copy.deepcopy({k: v for k, v in t.items() if k != "ev"})
            x["ev"] = copy.deepcopy(new)
            bad.append(x)
        failed = any(e["e"] == "wrerr" for e in ev)
        ended = any(e["e"] in ("eof", "rderr") for e in ev)
        for i, e in enumerate(ev):
            if e["e"] == "got":
                put(ev[:i] + ev[i + 1:])
                if e["res"] == "frame":
                    put(ev[:i] + [e, e] + ev[i + 1:])
                    if e["frame"]["t"] in ("notify", "ack"):
                        y = copy.deepcopy(e)
                        y["frame"]["fid"][0] ^= 1
                        put(ev[:i] + [y] + ev[i + 1:])
                    put(ev[:i] + [{"e": "got", "res": "err", "err": "Invalid"}])
                    put(ev[:i] + [{"e": "stuck"}])
                else:
                    put(ev[:i] + [{"e": "stuck"}])
                    put(ev[:i] + [dict(e, err="Bogus" if e["err"] == "Io" else "Io")])
            elif e["e"] == "wrote":
                put(ev[:i] + [dict(e, r="Io" if not failed else "ok", n=e["n"] if not failed else 1)] + ev[i + 1:])
                if e["r"] == "ok":
                    put(ev[:i] + [dict(e, n=e["n"] + 1)] + ev[i + 1:])
                    put(ev[:i] + [dict(e, r="BadFrameSize")] + ev[i + 1:])
            elif e["e"] == "flush" and i + 1 < len(ev) and ev[i + 1]["e"] == "wrote":
                put(ev[:i] + ev[i + 1:])
            elif e["e"] == "wr" and not failed:
                put(ev[:i] + ev[i + 1:])
                put(ev[:i] + [e, e] + ev[i + 1:])
            elif e["e"] == "stuck" and not ended:
                put(ev[:i] + [{"e": "got", "res": "err", "err": "Io"}])
            elif e["e"] in ("eof", "rderr") and i + 1 < len(ev) and ev[i + 1].get("err") == "Io":
                put(ev[:i] + ev[i + 1:])
        if len(bad) > limit:
            break
    return bad


def selftest(c, recs):
    good = [r for r in recs if r["op"] == "stream" and len(r["ev"]) < 60]
    c.rng.shuffle(good)
    c.must_reject("FramingTrace", corrupt(good), "transport events removed, repeated, altered", traces=True)


def be(n):
    return [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]


def cut(r, flat, mode):
    """The same bytes in different pieces, with waits between them."""
    if mode == 0:
        return [{"d": flat}]
    if mode == 1:
        return [{"d": [x]} for x in flat]
    if mode == 2:
        return [y for x in flat for y in ({"d": [x]}, {"pend": 1})]
    if mode == 3:
        return [y for x in flat for y in ({"d": [x]}, {"sleep": 10})]
    n = r.randint(1, 8)
    at = sorted({r.randrange(len(flat) + 1) for _ in range(n)} | {0, len(flat)})
    out = []
    for a, b in zip(at, at[1:]):
        out.append({"d": flat[a:b]})
        k = r.random()
        if k < 0.3:
            out.append({"pend": r.randint(1, 3)})
        elif k < 0.4:
            out.append({"sleep": 5})
    return out


def c04(c):
    r = c.rng
    c.model("FramingMC", MC % ("Spec", 3 if c.thorough else 2, "TRUE"), "every cut of every short stream")
    c.model("FramingMC", MC % ("Live", 1, "TRUE") + "PROPERTY Settles\n", "every stream settles")
    apis = ("framer", "codec", "buf")
    BIG = 1 << 20
    cases = []
    small = lambda: gen.frame(r, kinds=["notify", "ack", "hhello", "ahello", "hdisc", "adisc"])
    # every cut point of a few frames, every end point
    for i in range(12 if c.thorough else 4):
        flat = [x for _ in range(2) for x in gen.framed(gen.encode(small()))]
        if len(flat) > 120:
            flat = flat[:120]
        for p in range(len(flat) + 1):
            cases.append(stream(apis[(i + p) % 3], BIG, [{"d": flat[:p]}, {"pend": 1}, {"d": flat[p:]}, {"eof": 1}]))
            cases.append(stream(apis[(i + p + 1) % 3], BIG, [{"d": flat[:p]}, {"eof": 1} if p % 3 else {"err": 1}]))
            cases.append(stream(apis[(i + p + 2) % 3], BIG, [{"d": flat[:p]}]))
    for i in range(8000 if c.thorough else 700):
        n = r.choice([1, 1, 2, 3, 6])
        frames = [gen.frame(r, big=r.random() < 0.1, kinds=["notify", "ack", "hhello", "ahello", "hdisc", "adisc"]) for _ in range(n)]
        parts = [gen.framed(gen.encode(f)) for f in frames]
        lim = r.choice([BIG, BIG, max(len(p) for p in parts) - 4, max(len(p) for p in parts) - 5, 16384])
        k = r.random()
        if k < 0.12:
            parts.insert(r.randint(0, n), gen.framed(r.choice([[], [3], [0, 0, 0, 0, 1, 0, 0], [3, 0, 0, 0, 1, 240], [200] * 30])))
        elif k < 0.2:
            parts.insert(r.randint(0, n), be(r.choice([lim + 1, lim + 2, 1 << 24, 1 << 31, (1 << 32) - 1])))
        flat = [x for p in parts for x in p]
        if r.random() < 0.15:
            flat = flat[:r.randrange(len(flat))]
        mode = r.choice([0, 1, 2, 3, 4, 4, 4, 5, 5]) if len(flat) < 300 else r.choice([0, 4, 5])
        reads = cut(r, flat, mode)
        t = r.random()
        if t < 0.5:
            reads.append({"eof": 1})
        elif t < 0.6:
            reads.append({"err": 1})
        cases.append(stream(r.choice(apis), lim, reads))
    # long runs of frames in one chunk and in uneven ones
    for api in apis:
        flat = [x for j in range(40) for x in gen.framed(gen.encode(small()))]
        for mode in (0, 4, 5):
            cases.append(stream(api, BIG, cut(r, flat, mode) + [{"eof": 1}]))
        # larger than any buffer on the way
        for n in (8180, 8191, 8192, 8193, 16384, 20000):
            big = {"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(2),
                   "msgs": [{"name": [109], "args": [{"n": [97], "v": {"k": "bin", "v": [j % 251 for j in range(n)]}}]}]}
            flat = gen.framed(gen.encode(big)) + gen.framed(gen.encode(small()))
            cases.append(stream(api, BIG, cut(r, flat, 0) + [{"eof": 1}]))
            cases.append(stream(api, BIG, cut(r, flat, 5), [big] if n < 9000 else []))
    good = judge(c, cases, "frames arriving in pieces")
    # writing
    cases = []
    for i in range(4000 if c.thorough else 450):
        frames = [gen.frame(r, big=r.random() < 0.1, kinds=["notify", "ack", "hhello", "ahello", "hdisc", "adisc"]) for _ in range(r.choice([1, 2, 4]))]
        sizes = [len(gen.encode(f)) for f in frames]
        kw = {}
        if r.random() < 0.6:
            kw["wmax"] = r.choice([1, 2, 3, 4, 5, 7, 50, 1000])
        if r.random() < 0.4:
            kw["wpend"] = True
        if r.random() < 0.3:
            kw["werr"] = r.randint(0, sum(sizes) + 4 * len(sizes))
        elif r.random() < 0.2:
            kw["ferr"] = r.randint(0, len(frames))
        if r.random() < 0.3:
            kw["wslow"] = [{"f": k, "ms": r.choice([1, 500, 6000, 70000, 4000000]), **r.choice([{"off": r.choice([0, 1, 4, 9, 30])}, {"flush": True}])}
                           for k in range(len(frames)) if r.random() < 0.6]
        lim = r.choice([BIG, BIG, max(sizes), max(sizes) - 1, min(sizes)])
        cases.append(stream(r.choice(apis), max(lim, 0), [{"eof": 1}] if r.random() < 0.5 else [], frames, **kw))
    for f in [small() for _ in range(6)]:
        for n in range(len(gen.encode(f)) + 5):
            if n < 70:
                cases.append(stream(apis[n % 3], BIG, [], [f], werr=n, wmax=1000 if n % 2 else 1))
    good += judge(c, cases, "frames written to slow and failing transports")
    wire.bulks(c, "frames of millions of bytes, in pieces", rooms=(0,), modes=("whole", "short"), steps=(0, 1000, 4096, 8192, 65536, 65537, 300001, 1 << 20))
    seen = {e["e"] for t in good for e in t["ev"]}
    for k in ("rd", "wait", "eof", "rderr", "wr", "wrerr", "flush", "block", "unblock", "wrote", "got", "stuck"):
        if k not in seen:
            raise ToolError("no %s event was recorded" % k)
    selftest(c, good)
