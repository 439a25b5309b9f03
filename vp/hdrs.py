"""C19: binary header lists, against HdrsBin."""
import copy
from . import gen
from .core import ToolError

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS %s Emit
"""
TOKEN = list(b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")


def mc(c, part, depth):
    r = c.model("HdrsMC", MC % (part, depth, "Whole Tail1 Cuts" if part == "lists" else "Faithful"), "part %s, depth %d" % (part, depth), timeout=2400)
    cases = r.jsons()
    if len(cases) != r.states:
        raise ToolError("HdrsMC emitted %d cases for %d states" % (len(cases), r.states))
    return cases


def judge(c, cases, what):
    recs = c.run("hdrs", cases)
    bad = set(c.judge_each("HdrsTrace", recs, what, cases=cases))
    return [x for i, x in enumerate(recs) if i not in bad]


def name(r):
    n = r.choice([1, 1, 2, 3, 5, 14, 30, 238, 239, 240, 241, 255, 256, 300, 2287, 2288]) if r.random() < 0.4 else r.randint(1, 6)
    return [r.choice(TOKEN) for _ in range(n)]


def value(r):
    n = r.choice([0, 1, 2, 5, 40, 238, 239, 240, 241, 255, 256, 2287, 2288, 3000]) if r.random() < 0.4 else r.randint(0, 8)
    return [r.choice([9, 32, 33, 97, 126, 128, 255]) if r.random() < 0.5 else r.choice([x for x in range(32, 256) if x != 127]) for _ in range(n)]


def hdr_list(r):
    pool = [name(r) for _ in range(r.randint(1, 4))] + [list(b"set-cookie"), list(b"Set-Cookie"), list(b"HOST")]
    return [(r.choice(pool), value(r)) for _ in range(r.choice([0, 1, 2, 3, 6, 15]))]


def encode(hs):
    return [x for n, v in hs for x in gen.pstr(n) + gen.pstr(v)]


def corrupt(recs):
    bad = []
    for t in recs:
        if t["op"] != "hdrs" or t["res"] != "ok":
            continue
        h = t["hdrs"]

        def put(hdrs):
            bad.append(dict(t, hdrs=hdrs))
        put(h + [{"n": [122, 122], "v": []}])
        for k in range(min(len(h), 4)):
            put(h[:k] + h[k + 1:])
            put(h[:k] + [dict(h[k], v=h[k]["v"] + [33])] + h[k + 1:])
            put(h[:k] + [dict(h[k], n=h[k]["n"] + [33])] + h[k + 1:])
            put(h + [h[k]])
            for j in range(k):
                if h[j]["n"] == h[k]["n"] and h[j]["v"] != h[k]["v"]:
                    z = copy.deepcopy(h)
                    z[j], z[k] = z[k], z[j]
                    put(z)
        if t["whole"]:
            bad.append(dict(t, res="err", hdrs=[]))
    for t in bad:
        t.pop("whole", None)
    return bad


def c19(c):
    r = c.rng
    lists = mc(c, "lists", 4 if c.thorough else 3)
    good = judge(c, lists, "lists enumerated by HdrsMC")
    for t in good:
        t["whole"] = True
    raws = mc(c, "bytes", 6 if c.thorough else 5)
    judge(c, raws, "all short byte strings over eight bytes")
    # repeated names in every arrangement, in one piece and in two
    cases = []
    for i in range(6000 if c.thorough else 1000):
        b = encode(hdr_list(r)) + [0, 0]
        cases.append({"op": "hdrs", "b": b})
        if r.random() < 0.5:
            cases.append({"op": "hdrs", "b": b, "cut": r.randint(0, len(b))})
        if r.random() < 0.3:
            cases.append({"op": "hdrs", "b": b + [r.randrange(256) for _ in range(r.choice([1, 2, 5]))]})
    g2 = judge(c, cases, "random lists, whole or as two pieces, with and without a tail")
    for t in g2:
        t["whole"] = True
    good += g2
    # damage
    cases = []
    for i in range(6000 if c.thorough else 1000):
        hs = hdr_list(r)
        b = encode(hs) + [0, 0]
        k = r.random()
        if k < 0.3:
            b = b[:r.randrange(len(b))]
        elif k < 0.6:
            for _ in range(r.choice([1, 1, 3])):
                b[r.randrange(len(b))] = r.choice([0, 1, 9, 10, 13, 32, 58, 127, 128, 239, 240, 255, r.randrange(256)])
        elif k < 0.8:
            n, v = name(r), value(r)
            bad = r.choice([[32], [0], [58], [127], [200], [34], [40]])
            at = r.randint(0, len(n))
            b = encode(hs) + gen.pstr(n[:at] + bad + n[at:]) + gen.pstr(v) + encode(hdr_list(r)) + [0, 0]
        else:
            b = encode(hs) + r.choice([gen.pstr([]) + gen.pstr([118]), gen.pstr([97]) + gen.pstr([10]), gen.pstr([97]) + gen.pstr([118, 0]),
                                       [255] * 10 + [127], [255] * 9 + [1], gen.varint(gen.M64), gen.varint(1 << 40), [240], [0], [97]]) \
                + encode(hdr_list(r)) + [0, 0]
        q = {"op": "hdrs", "b": b}
        if r.random() < 0.3:
            q["cut"] = r.randint(0, len(b))
        cases.append(q)
    judge(c, cases, "damaged lists")
    big = [{"op": "hdrs", "b": encode([([97] * n, [98] * m)]) + [0, 0]} for n, m in ((65535, 0), (1, 65536), (65536, 3), (40000, 40000))]
    judge(c, big, "very long strings")
    judge(c, [{"op": "many", "n": n} for n in (0, 1, 100, 768, 1000, 5000, 20000, 24576, 24577, 32768, 32769, 40000)], "very long lists")
    tails = []
    for n in (100, 1000, 4096, 4097, 8192, 20000, 66000):
        for hs in ([], hdr_list(r), hdr_list(r) + hdr_list(r)):
            b = encode(hs) + [0, 0]
            tails.append({"op": "hdrs", "b": b + [r.choice([0, 255, 97, 13])] * n})
            tails.append({"op": "hdrs", "b": b + [r.randrange(256) for _ in range(n)], "cut": len(b)})
            t = b
            while len(t) < n:
                t = t + encode(hdr_list(r)) + r.choice([[], [0, 0]])
            tails.append({"op": "hdrs", "b": t})
    judge(c, tails, "long tails behind the end")
    late = []
    for n in (50, 300, 1500):
        hs = [([97 + i % 26, 97 + i // 26 % 26, 97 + i // 676], [48 + i % 10]) for i in range(n)]
        b = encode(hs)
        for bad in (gen.pstr([32]) + gen.pstr([]), gen.pstr([97]) + gen.pstr([10]), [255] * 10, [240], [97], gen.pstr([]) + gen.pstr([97]), gen.pstr([97])):
            late.append({"op": "hdrs", "b": b + bad})
            late.append({"op": "hdrs", "b": b + bad + encode(hs[:3]) + [0, 0]})
    judge(c, late, "damage behind many headers")
    bad = corrupt([t for t in good if len(t["b"]) < 700])
    r.shuffle(bad)
    c.must_reject("HdrsTrace", bad[:600], "headers altered")
