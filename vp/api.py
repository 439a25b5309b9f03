"""C23: constructors and conversions, against Api."""
import copy
from . import gen
from .core import ToolError

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS %s Emit
"""
THEOREMS = {"message": "SameMessage", "builder": "Turned Twice LastWins NeverEmpty"}
CODES = list(range(14)) + [99]


def mc(c, part, depth):
    r = c.model("ApiMC", MC % (part, depth, THEOREMS[part]), "part %s, depth %d" % (part, depth), timeout=600)
    cases = r.jsons()
    if len(cases) != r.states:
        raise ToolError("ApiMC emitted %d cases for %d states" % (len(cases), r.states))
    return cases


def judge(c, cases, what):
    recs = c.run("api", cases)
    bad = set(c.judge_each("ApiTrace", recs, what, cases=cases))
    return [x for i, x in enumerate(recs) if i not in bad]


def typeds(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        x = gen.typed(r, r.random() < 0.2)
        out.append({"op": "typed", "from": x["k"], "x": x})
        if x["k"] in ("ip4", "ip6"):
            out.append({"op": "typed", "from": "ipaddr", "x": x})
        if x["k"] == "str":
            out.append({"op": "typed", "from": "str", "x": x})
        if x["k"] == "bin":
            out += [{"op": "typed", "from": f, "x": x} for f in ("slice", "box", "bytes", "bytesmut")]
    for e in gen.EDGES:
        for k in ("i32", "u32", "i64", "u64"):
            v = e
            if k[1:] == "32":
                v &= 0xffffffff
            if k == "i32" and v >> 31:
                v |= gen.M64 ^ 0xffffffff
            out.append({"op": "typed", "from": k, "x": {"k": k, "v": gen.limbs(v)}})
    # addresses of either family that look like one of the other
    four = [127, 0, 0, 1]
    for six in ([0] * 10 + [255, 255] + four, [0] * 12 + four, [0] * 15 + [1], [0] * 16, four + [0] * 12, [0, 100, 255, 155] + [0] * 8 + four):
        for f in ("ip6", "ipaddr"):
            out.append({"op": "typed", "from": f, "x": {"k": "ip6", "v": six}})
    for f in ("ip4", "ipaddr"):
        for v in (four, [0] * 4, [255] * 4, [10, 0, 0, 1]):
            out.append({"op": "typed", "from": f, "x": {"k": "ip4", "v": v}})
    return out


def messages(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        pool = [gen.text(r) for _ in range(r.randint(1, 3))]
        steps = [[{"n": r.choice(pool) if r.random() < 0.6 else gen.text(r), "v": gen.typed(r)} for _ in range(r.choice([0, 1, 1, 1, 2, 3, 9]))]
                 for _ in range(r.choice([0, 1, 2, 3, 5, 12]))]
        out.append({"op": "message", "name": gen.text(r, True), "steps": steps, "new": r.random() < 0.3})
    for n in (127, 128, 200, 255, 256, 300, 1000):
        kv = [{"n": gen.b("a%d" % (i % 7)), "v": {"k": "u32", "v": gen.limbs(i)}} for i in range(n)]
        out += [{"op": "message", "name": gen.b("m"), "steps": [[x] for x in kv], "new": False},
                {"op": "message", "name": gen.b("m"), "steps": [kv], "new": False},
                {"op": "message", "name": gen.b("m"), "steps": [kv], "new": True}]
    return out


def frames(c, n):
    r = c.rng
    out = []

    def put(make, **kw):
        q = {"op": "frame", "make": make, "sid": gen.limbs(0), "fid": gen.limbs(0), "msgs": [], "acts": [], "code": [0, 0], "msg": [],
             "frame": {"t": "unset"}}
        q.update(kw)
        out.append(q)
    for i in range(n):
        s, f = gen.ids(r)
        if r.random() < 0.1:
            s = gen.limbs(0)
        k = r.choice(["notify", "ack", "acknew", "raw", "raw", "hdisc"])
        if k == "notify":
            put(k, sid=s, fid=f, msgs=[gen.message(r) for _ in range(r.choice([0, 1, 2, 5]))])
        elif k == "ack":
            put(k, sid=s, fid=f, acts=[gen.action(r) for _ in range(r.choice([0, 1, 2, 5]))])
        elif k == "acknew":
            put(k, sid=s, fid=f)
        elif k == "raw":
            put(k, frame=gen.frame(r))
        else:
            put(r.choice(["hdisc", "adisc", "disc"]), code=gen.w32(r.choice(CODES)), msg=gen.text(r, True))
    for x in CODES:
        for k in ("hdisc", "adisc", "disc"):
            put(k, code=gen.w32(x), msg=gen.b("why"))
    for e in gen.EDGES:
        for k in ("notify", "ack", "acknew"):
            put(k, sid=gen.limbs(e), fid=gen.limbs(r.choice(gen.EDGES)))
            put(k, sid=gen.limbs(r.choice(gen.EDGES)), fid=gen.limbs(e))
    for _ in range(60):
        out.append({"op": "notifymeta", "frame": gen.frame(r, kinds=["notify"])})
    for _ in range(100):
        out.append({"op": "action", "x": gen.action(r)})
    return out


def names(c, n):
    r = c.rng
    ns = set(range(300)) | {k for e in gen.EDGES for k in (e & 0xffffffff,)} | {x + (1 << k) for x in CODES for k in (7, 8, 16, 24, 31)}
    ns |= {r.getrandbits(32) for _ in range(n)}
    out = [{"op": "status", "n": gen.w32(x)} for x in sorted(ns)]
    out += [{"op": "scope", "n": x} for x in range(256)]
    vs = [[a, b] for a in range(256) for b in range(256)]
    if not c.thorough:
        vs = [v for v in vs if v[0] in (0, 1, 2, 9, 10, 11, 99, 100, 255) or v[1] in (0, 9, 10, 100, 255)]
    texts = {"%d.%d" % (a, b) for a, b in vs}
    odd = ["", ".", "2", "2.", ".0", "2.0.0", "2.0.", ".2.0", "256.0", "0.256", "255.256", "2.00", "02.0", "+2.0", "2.+0", "-2.0", "2.-0", " 2.0", "2.0 ",
           "2 .0", "2. 0", "2,0", "2:0", "2.0\n", "2.0\0", "v2.0", "2.x", "x.2", "2.0a", "0x2.0", "2e0.0", "65538.0", "4294967298.0", "2.65536",
           "18446744073709551618.0", "٢.٠", "２.０", "2..0", "2.0,1.0", "000000000002.0", "2.0000000000"]
    texts |= set(odd)
    for _ in range(n):
        t = list("%d.%d" % (r.randrange(300), r.randrange(300)))
        if r.random() < 0.6:
            t[r.randrange(len(t))] = r.choice("0123456789.,+- ")
        texts.add("".join(t))
    out += [{"op": "version", "s": gen.b(t)} for t in sorted(texts)]
    for _ in range(n):
        a, b = gen.version(r), gen.version(r)
        out.append({"op": "order", "a": a, "b": r.choice([a, b, a[::-1], [a[0], b[1]]])})
    ts = {"", "fragmentatio", "fragmentations", "Fragmentation", "FRAGMENTATION", " async", "async ", "asynchronous", "pipeline", "pipelining,async",
          "sync", "a", "fragmentation\0", "async\n", "Async", "PIPELINING", "ásync"} | set(gen.CAPS)
    for x in gen.CAPS:
        ts |= {x[:k] for k in range(len(x))} | {x[:k] + x[k].upper() + x[k + 1:] for k in range(len(x))} | {x[:k] + x[k + 1:] for k in range(len(x))}
    out += [{"op": "cap", "s": gen.b(t)} for t in sorted(ts)]
    return out


def failures(c, n):
    r = c.rng
    out = []

    def put(layers):
        out.append({"op": "failure", "layers": layers})
    for x in CODES:
        put([["status", gen.w32(x)]])
        for bare in (True, False):
            put([["ctx", gen.b("one"), bare], ["status", gen.w32(x)]])
            put([["ctx", gen.b("two"), False], ["ctx", gen.b("one"), bare], ["status", gen.w32(x)]])
    for _ in range(n):
        cause = r.choice([["status", gen.w32(r.choice(CODES))], ["status", gen.w32(r.choice(CODES))], ["closed"], ["io", gen.text(r)]])
        put([["ctx", gen.text(r, True), r.random() < 0.5] for _ in range(r.choice([0, 1, 2, 3, 4, 8, 20]))] + [cause])
    return out


def builders(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        steps = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 15])):
            steps.append(r.choice([lambda: ["version", gen.version(r)], lambda: ["cap", r.choice(gen.CAPS)], lambda: ["caps", r.choices(gen.CAPS, k=r.randint(0, 4))],
                                   lambda: ["fragmentation"], lambda: ["pipelining"], lambda: ["async"], lambda: ["mfs", gen.limbs(gen.num(r))],
                                   lambda: ["maxt", gen.limbs(gen.num(r, 50))]])())
        out.append({"op": "builder", "steps": steps})
    return out


def varints(c, n):
    """For C02: integers put and got without a frame around them."""
    r = c.rng
    out = [{"op": "varint", "n": gen.limbs(e)} for e in gen.EDGES + [gen.num(r) for _ in range(n)]]
    for k in range(65):
        for d in range(-3, 4):
            out.append({"op": "varint", "n": gen.limbs(((1 << k) + d) & gen.M64)})
    tails = [[255] * k + [e] for k in range(12) for e in (0, 1, 3, 7, 15, 31, 127)]
    tails += [[240 + j] + [128 + x] * k + [e] for j in (0, 7, 15) for x in (0, 1, 127) for k in range(12) for e in (0, 1, 2, 14, 15, 16, 127)]
    tails += [[], [0], [239], [240], [255]] + [[255] * k for k in range(1, 13)] + [[240] + [128] * k for k in range(13)]
    for e in gen.EDGES:
        tails += [gen.varint(e) + [7, 255, 0][:k] for k in (0, 3)] + [gen.varint(e)[:-1]]
    for t in tails:
        out.append({"op": "getvar", "b": t, "cut": 0})
        if len(t) > 1:
            out.append({"op": "getvar", "b": t, "cut": r.randint(1, len(t))})
    return out


def byes(c, n):
    """For C11: a connection told to disconnect, whatever the limit, the text and the transport."""
    r = c.rng
    out = []
    for i in range(n):
        m = gen.text(r, True) if r.random() < 0.7 else [97] * r.choice([300, 1000, 5000, 40000])
        whole = len(gen.encode({"t": "adisc", "code": gen.w32(CODES[i % 15]), "msg": m}))
        out.append({"op": "bye", "code": gen.w32(CODES[i % 15]), "msg": m, "reads": [],
                    "max": max(1, r.choice([16384, whole, whole - 1, whole + 1, whole // 2, 256, 31, 32, 30, 40, 64])),
                    "wmax": r.choice([1, 3, 7, 4096, 4096, 100000]), "wpend": r.random() < 0.3})
    return out


def corrupt(recs):
    """Every leaf of what came out, altered; what is free is left alone."""
    free = {"typed": set(), "version": set(), "failure": {"text", "msg"}, "order": {"max"}, "frame": set(), "builder": set()}
    bad = []

    def leaves(x, path=()):
        if isinstance(x, dict):
            for k in sorted(x):
                yield from leaves(x[k], path + (k,))
        elif isinstance(x, list):
            for k in range(len(x)):
                yield from leaves(x[k], path + (k,))
        else:
            yield path, x
    for t in recs:
        if t["op"] in ("typed", "message", "frame", "status", "scope", "order", "cap", "failure", "builder", "varint", "action", "notifymeta"):
            for path, x in list(leaves(t["out"]))[:40]:
                if path[0] in free.get(t["op"], ()):
                    continue
                if t["op"] in ("status", "scope", "cap") and not t["out"].get("known", t["out"].get("ok")) and path[0] not in ("known", "ok"):
                    continue
                y = copy.deepcopy(t)
                z = y["out"]
                for k in path[:-1]:
                    z = z[k]
                k = path[-1]
                z[k] = (not x) if isinstance(x, bool) else x ^ 1 if isinstance(x, int) else x + "x"
                if t["op"] in ("status", "scope", "cap") and path[0] in ("known", "ok") and z[k] is True:
                    y["out"].update({"back": 0, "name": "", "disc": 0})
                bad.append(y)
        if t["op"] == "message" and t["out"]["got"]["args"]:
            for f in (lambda a: a[:-1], lambda a: a + a[-1:], lambda a: a[1:]):
                y = copy.deepcopy(t)
                y["out"]["got"]["args"] = f(y["out"]["got"]["args"])
                bad.append(y)
    return bad


def c23(c):
    cases = mc(c, "message", 4 if c.thorough else 3) + mc(c, "builder", 4 if c.thorough else 3)
    good = judge(c, cases, "messages and agents built in every way, enumerated by ApiMC")
    k = 10 if c.thorough else 1
    good += judge(c, typeds(c, 400 * k), "values of every type, made into typed ones and back")
    good += judge(c, messages(c, 300 * k), "messages built one way or another")
    good += judge(c, frames(c, 600 * k), "frames made by the constructors, their kind and their metadata")
    good += judge(c, names(c, 200 * k), "numbers and texts with a name, and all the others")
    good += judge(c, failures(c, 300 * k), "errors under layers of context")
    good += judge(c, builders(c, 300 * k), "agents built in random ways")
    c.rng.shuffle(good)
    bad = corrupt([t for t in good if len(str(t)) < 3000])
    c.rng.shuffle(bad)
    c.must_reject("ApiTrace", bad[:1500], "what came out altered")
