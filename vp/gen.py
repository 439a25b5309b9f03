"""Seeded generators of frames and byte strings, with an encoder of their own."""

M64 = (1 << 64) - 1
THRESH = [240]
for _k in range(1, 9):
    THRESH.append(THRESH[-1] + (1 << (4 + 7 * _k)))
EDGES = sorted({x for t in THRESH for x in (t - 1, t, t + 1)} | {0, 1, 2, 127, 128, 255, 256, M64, M64 - 1}
               | {x for k in (7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
EDGES = [e for e in EDGES if 0 <= e <= M64]
LENS = [0, 1, 2, 3, 15, 16, 127, 128, 238, 239, 240, 241, 255, 256, 2286, 2287, 2288, 2289]


def limbs(n):
    return [(n >> (16 * i)) & 0xffff for i in range(4)]


def unlimbs(v):
    return sum(x << (16 * i) for i, x in enumerate(v))


def w32(n):
    return [n & 0xffff, n >> 16]


def unw32(v):
    return v[0] + (v[1] << 16)


# ------------------------------------------------------------------ encoder
def varint(n):
    if n < 240:
        return [n]
    out = [(n & 15) | 240]
    n = (n - 240) >> 4
    while n >= 128:
        out.append((n & 127) | 128)
        n = (n - 128) >> 7
    return out + [n]


def confusable():
    """Pairs of different (stream, frame) identifiers that some way of combining the two maps to the same."""
    out = [((1, k + 1), (2, 1)) for k in (2, 3, 7, 10, 16, 31, 32, 33, 37, 64, 100, 127, 128, 131, 255, 256, 257, 1000, 1024, 4096, 65535,
                                          65536, 65599, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 48)]
    out += [(a[::-1], b[::-1]) for a, b in out]
    out += [((1, 1), (1 ^ (3 << k), 2)) for k in (0, 8, 16, 31, 32, 48)] + [((1, 1), (2, 1 ^ (3 << k))) for k in (8, 16, 31, 32, 48)]
    out += [((1, 1), (1 + (1 << k), 1)) for k in (8, 16, 20, 24, 31, 32, 48, 63)] + [((1, 1), (1, 1 + (1 << k))) for k in (8, 16, 20, 24, 31, 32, 48, 63)]
    return out + [((6, 1), (3, 2)), ((5, 12), (51, 2)), ((1, 4), (3, 2)), ((M64, 2), (1, 1)), ((M64, M64), (1, 1)), ((2, 2), (3, 3))]


def labels(r, how=None):
    """Names for the j-th of something: rising, falling, all the same, few different ones in any order."""
    how = r.randrange(5) if how is None else how
    return (lambda j: "m%d" % j, lambda j: "m%d" % (9999 - j), lambda j: "m", lambda j: r.choice("ab"), lambda j: "m%d" % (j // 2))[how]


def pstr(b):
    return varint(len(b)) + list(b)


KIND = {k: i for i, k in enumerate(["null", "bool", "i32", "u32", "i64", "u64", "ip4", "ip6", "str", "bin"])}


def ptyped(x):
    k, v = x["k"], x["v"]
    if k == "null":
        return [0]
    if k == "bool":
        return [1 + 16 * v[0]]
    if k in ("i32", "u32", "i64", "u64"):
        return [KIND[k]] + varint(unlimbs(v))
    if k in ("ip4", "ip6"):
        return [KIND[k]] + v
    return [KIND[k]] + pstr(v)


def pmsg(m):
    return pstr(m["name"]) + [len(m["args"])] + [b for a in m["args"] for b in pstr(a["n"]) + ptyped(a["v"])]


def pact(a):
    if a["a"] == "set":
        return [1, 3, a["scope"]] + pstr(a["name"]) + ptyped(a["v"])
    return [2, 2, a["scope"]] + pstr(a["name"])


CODE = {"unset": 0, "hhello": 1, "hdisc": 2, "notify": 3, "ahello": 101, "adisc": 102, "ack": 103}


def item(n, k, v):
    return {"n": list(n.encode()), "v": {"k": k, "v": v}}


def b(s):
    return list(s.encode())


def items(f):
    t = f["t"]
    if t == "hhello":
        its = [item("supported-versions", "str", b(",".join("%d.%d" % tuple(v) for v in f["versions"]))),
               item("max-frame-size", "u32", limbs(unw32(f["mfs"]))),
               item("capabilities", "str", b(",".join(f["caps"])))]
        its += [item("healthcheck", "bool", [int(h)]) for h in f["hc"]]
        its += [item("engine-id", "str", e) for e in f["eid"]]
        return its
    if t == "ahello":
        return [item("version", "str", b("%d.%d" % tuple(f["version"]))),
                item("max-frame-size", "u32", limbs(unw32(f["mfs"]))),
                item("capabilities", "str", b(",".join(f["caps"])))]
    return [item("status-code", "u32", limbs(unw32(f["code"]))), item("message", "str", f["msg"])]


def payload(f):
    t = f["t"]
    if t == "unset":
        return []
    if t == "notify":
        return [x for m in f["msgs"] for x in pmsg(m)]
    if t == "ack":
        return [x for a in f["acts"] for x in pact(a)]
    return [x for it in items(f) for x in pstr(it["n"]) + ptyped(it["v"])]


def head(code, flags, sid, fid):
    return [code, 0, 0, 0, flags] + varint(sid) + varint(fid)


def encode(f):
    fl, sid, fid = 1, 0, 0
    if f["t"] in ("notify", "ack"):
        fl = (0 if f["frag"] else 1) + (2 if f.get("abort") else 0)
        sid, fid = unlimbs(f["sid"]), unlimbs(f["fid"])
    return head(CODE[f["t"]], fl, sid, fid) + payload(f)


def framed(body):
    n = len(body)
    return [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255] + list(body)


# ------------------------------------------------------------------ random values
def num(r, bits=64):
    m = (1 << bits) - 1
    c = r.random()
    if c < 0.5:
        return r.choice(EDGES) & m
    if c < 0.75:
        return r.getrandbits(r.randint(1, bits))
    return r.getrandbits(bits)


def text(r, big=False):
    c = r.random()
    if c < 0.35:
        return b("".join(r.choice("abcXYZ09_-.,: ") for _ in range(r.randint(0, 12))))
    if c < 0.7:
        s = "".join(r.choice(["a", "é", "€", "🦀", "\0", "\x7f", "߿", "\ufffd", "z"]) for _ in range(r.randint(0, 8)))
        return b(s)
    n = r.choice(LENS if big else LENS[:14])
    return [r.randint(97, 122)] * n


def blob(r, big=False):
    n = r.choice(LENS if big else LENS[:14]) if r.random() < 0.4 else r.randint(0, 20)
    return [r.getrandbits(8) for _ in range(n)]


def typed(r, big=False):
    k = r.choice(list(KIND))
    if k == "null":
        v = []
    elif k == "bool":
        v = [r.randint(0, 1)]
    elif k == "i32":
        n = num(r, 32)
        v = limbs(n | (M64 ^ 0xffffffff) if n >> 31 else n)
    elif k == "u32":
        v = limbs(num(r, 32))
    elif k in ("i64", "u64"):
        v = limbs(num(r))
    elif k == "ip4":
        v = [r.getrandbits(8) for _ in range(4)]
    elif k == "ip6":
        v = [r.getrandbits(8) if r.random() < 0.5 else 0 for _ in range(16)]
    elif k == "str":
        v = text(r, big)
    else:
        v = blob(r, big)
    return {"k": k, "v": v}


def message(r, big=False):
    c = r.random()
    n = r.choice([127, 128, 239, 240, 254, 255]) if c < 0.03 else r.randint(0, 4)
    if n > 4:
        args = [{"n": [97 + i % 26], "v": {"k": "u32", "v": limbs(i)}} for i in range(n)]
    else:
        args = [{"n": text(r) if r.random() < 0.3 else b("a%d" % i), "v": typed(r, big)} for i in range(n)]
    return {"name": text(r, big), "args": args}


def action(r, big=False):
    if r.random() < 0.7:
        return {"a": "set", "scope": r.randint(0, 4), "name": text(r), "v": typed(r, big)}
    return {"a": "unset", "scope": r.randint(0, 4), "name": text(r), "v": {"k": "null", "v": []}}


def ids(r):
    s, f = num(r), num(r) or 1
    return limbs(s), limbs(f)


def version(r):
    return [r.choice([0, 1, 2, 3, 9, 10, 99, 100, 255]), r.choice([0, 1, 2, 9, 10, 255])]


CAPS = ["fragmentation", "pipelining", "async"]


def caps(r):
    return r.sample(CAPS, r.randint(0, 3))


def frame(r, big=False, kinds=None):
    t = r.choice(kinds or ["hhello", "ahello", "notify", "notify", "notify", "ack", "ack", "hdisc", "adisc", "unset"])
    if t == "unset":
        return {"t": t}
    if t == "hhello":
        return {"t": t, "versions": [version(r) for _ in range(r.choice([1, 1, 2, 3, 6]))], "mfs": w32(num(r, 32)),
                "caps": caps(r), "hc": r.choice([[], [True], [False]]), "eid": [] if r.random() < 0.5 else [text(r, big)]}
    if t == "ahello":
        return {"t": t, "version": version(r), "mfs": w32(num(r, 32)), "caps": caps(r)}
    if t in ("hdisc", "adisc"):
        return {"t": t, "code": w32(num(r, 32)), "msg": text(r, True)}
    s, i = ids(r)
    many = r.choice([0, 1, 1, 2, 3, 5, 40]) if r.random() < 0.97 else 130
    if t == "notify":
        return {"t": t, "frag": r.random() < 0.4, "sid": s, "fid": i,
                "msgs": [message(r, big) if many < 10 else {"name": b("m%d" % j), "args": []} for j in range(many)]}
    return {"t": t, "frag": r.random() < 0.3, "abort": r.random() < 0.3, "sid": s, "fid": i,
            "acts": [action(r, big) for _ in range(many)]}


def damage(r, body):
    """A few random edits of an encoded frame body."""
    x = list(body)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        op = r.randint(0, 5)
        p = r.randrange(len(x)) if x else 0
        if op == 0:
            x = x[:p]
        elif op == 1 and x:
            x[p] = r.choice([0, 1, 2, 3, 8, 9, 10, 15, 127, 128, 239, 240, 241, 255, r.getrandbits(8)])
        elif op == 2 and x:
            del x[p]
        elif op == 3:
            x.insert(p, r.choice([0, 1, 240, 255, r.getrandbits(8)]))
        elif op == 4:
            x = x + [r.getrandbits(8) for _ in range(r.randint(1, 4))]
        elif x:
            x[p] ^= 1 << r.randrange(8)
    return x


def odd_varints(r):
    """Frames whose integers are over-long, truncated or too large."""
    out = []
    tails = [[255] * k + [e] for k in (1, 4, 8, 9, 10, 11, 20) for e in (0, 1, 3, 7, 15, 31, 127)]
    tails += [[240] + [128] * k + [0] for k in (0, 1, 5, 8, 9, 10, 12)]
    tails += [[240 + j] + [255] * 8 + [e] for j in (0, 15) for e in (0, 1, 2, 14, 15, 16, 127, 128)]
    tails += [[255] * k for k in (1, 2, 9, 10, 11)]
    tails += [[240], [255], [240, 128], [255, 255, 255]]
    for t in tails:
        out.append([3, 0, 0, 0, 1] + t + [5])                        # stream id
        out.append([3, 0, 0, 0, 1, 5] + t)                           # frame id
        for k in (2, 3, 4, 5):
            out.append(head(3, 1, 1, 1) + pstr(b("m")) + [1] + pstr(b("a")) + [k] + t)
        out.append(head(3, 1, 1, 1) + pstr(b("m")) + [1] + pstr(b("a")) + [8] + t)      # string length
        out.append(head(3, 1, 1, 1) + pstr(b("m")) + [1] + pstr(b("a")) + [9] + t + [0] * 40)
        out.append(head(3, 1, 1, 1) + t + [0])                       # message name length
        out.append(head(103, 1, 1, 1) + [1, 3, 0] + pstr(b("v")) + [5] + t)
        out.append(head(103, 1, 1, 1) + [2, 2, 0] + t + [0] * 3)
        out.append(head(2, 1, 0, 0) + pstr(b("status-code")) + [3] + t)
        out.append(head(1, 1, 0, 0) + pstr(b("max-frame-size")) + [3] + t)
    return out


def tail_limit(body):
    """The max-frame-size announced in an encoded HELLO, or None."""
    k = pstr(b("max-frame-size"))
    for i in range(len(body) - len(k)):
        if body[i:i + len(k)] == k and body[i + len(k)] in (2, 3, 4, 5):
            p = i + len(k) + 1
            n, sh = body[p], 4
            if n >= 240:
                while True:
                    p += 1
                    n += body[p] << sh
                    sh += 7
                    if body[p] < 128:
                        break
            return n & 0xffffffff
    return None
