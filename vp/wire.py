"""C01, C02, C03 and C06: the wire format."""
import copy
import ipaddress
from . import api, gen

ALL = "RoundTrip Truncation Faithful HelloOrder HelloUnknown HelloMandatory"
BIG = 1 << 24


def mc(c, part, depth, timeout=600):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Part = \"%s\" Depth = %d\nINVARIANTS %s Emit\n" % (part, depth, ALL)
    r = c.model("WireMC", cfg, "part %s, depth %d" % (part, depth), timeout=timeout)
    cases = r.jsons()
    if len(cases) != r.states:
        from .core import ToolError
        raise ToolError("WireMC emitted %d cases for %d states" % (len(cases), r.states))
    return cases


def wcase(f, max=BIG):
    return {"op": "write", "frame": f, "max": max}


def rcase(body, max=BIG):
    return {"op": "read", "b": gen.framed(body), "max": max}


def judge(c, cases, what):
    recs = c.run("wire", cases)
    c.judge_each("WireTrace", recs, what, cases=cases)
    return recs


def selftest(c, recs):
    """The judge has to notice every kind of deviation."""
    bad = []
    for r in recs:
        if r["op"] == "write" and r["res"] == "ok" and r["frame"]["t"] != "unset":
            for k in range(len(r["b"])):
                x = copy.deepcopy(r)
                x["b"][k] ^= 1
                bad.append(x)
            for edit in ({"n": r["n"] + 1}, {"b": r["b"] + [0]}, {"b": r["b"][:-1]}, {"ftype": r["ftype"] ^ 1},
                         {"left": 1}, {"back": {"res": "err", "err": "Invalid", "same": False}},
                         {"msize": [1] if not r["msize"] else []}, {"res": "TooBig", "b": []}):
                bad.append({**copy.deepcopy(r), **edit})
        elif r["op"] == "read" and r["res"] == "frame":
            for edit in ({"left": r["left"] + 1}, {"res": "err", "err": "Invalid"}):
                bad.append({**copy.deepcopy(r), **edit})
            for t in ("notify", "ack"):
                if r["frame"]["t"] == t:
                    x = copy.deepcopy(r)
                    x["frame"]["sid"][0] ^= 1
                    bad.append(x)
                    x = copy.deepcopy(r)
                    x["frame"]["frag"] = not x["frame"]["frag"]
                    bad.append(x)
        elif r["op"] == "read" and r["res"] == "err":
            bad.append({**{k: v for k, v in r.items() if k != "err"}, "res": "frame",
                        "frame": {"t": "hdisc", "code": [0, 0], "msg": []}, "left": 0})
        if len(bad) > 400:
            break
    # flipping the low bit of a payload byte may exchange equal items of a HELLO, but not here
    c.must_reject("WireTrace", bad, "flipped bytes, counts, results")


def small(recs):
    return [r for r in recs if r["op"] in ("write", "read") and len(r.get("b", [])) < 60]


def c01(c):
    cases = [wcase(x["frame"]) for x in mc(c, "frames", 3 if c.thorough else 2)]
    if not c.thorough:
        fixed, grown = cases[:1400], cases[1400:]
        cases = fixed + c.rng.sample(grown, min(6000, len(grown)))
    recs = judge(c, cases, "frames enumerated by WireMC, written and read back")
    rnd = [wcase(gen.frame(c.rng, big=i % 8 == 0)) for i in range(40000 if c.thorough else 3000)]
    rnd += [wcase(arity(n)) for n in (0, 1, 126, 127, 128, 129, 239, 240, 241, 254, 255)]
    recs += judge(c, rnd, "random frames, written and read back")
    judge(c, [wcase(f) for f in long_frames(c.rng, 4097 if c.thorough else 1025)], "long frames, written and read back")
    odd = []
    for ch in CHARS:
        for t in (ch, ch + "ab", "ab" + ch, "a" + ch + "b"):
            t = list(t.encode())
            odd.append(wcase({"t": c.rng.choice(["hdisc", "adisc"]), "code": gen.w32(gen.num(c.rng, 32)), "msg": t}))
            odd.append(wcase(dict(gen.frame(c.rng, kinds=["hhello"]), eid=[t])))
    judge(c, odd, "DISCONNECTs and HELLOs with texts that mean something to somebody")
    bulks(c, "frames of millions of bytes and tens of thousands of items", rooms=(0, 1000), modes=("whole",))
    # identifiers in every position of the number space
    ids = []
    for e in gen.EDGES:
        for o in (1, 240, gen.M64, 1 << 32):
            for s, f in ((e, o), (o, e)):
                if f:
                    ids.append(wcase({"t": "notify", "frag": c.rng.random() < 0.5, "sid": gen.limbs(s), "fid": gen.limbs(f), "msgs": []}))
                    ids.append(wcase({"t": "ack", "frag": c.rng.random() < 0.5, "abort": c.rng.random() < 0.5,
                                      "sid": gen.limbs(s), "fid": gen.limbs(f), "acts": []}))
    judge(c, ids, "boundary identifiers, written and read back")
    c.rng.shuffle(recs)
    selftest(c, small(recs))
    c.assumptions += ["frames as the public API can build them: identifiers are 64 bit, at most 255 arguments per message"]


def long_frames(r, most):
    """Frames of every type that are long in one respect or another."""
    out = []
    some = lambda n: long_text(r, n)
    for n in (1000, 4080, 4095, 4096, 4097, 8191, 8192, 16368, 16383, 16384, 16385, 32768, 65535, 65536, 66000, 70001):
        out.append({"t": r.choice(["hdisc", "adisc"]), "code": gen.w32(r.choice([0, 4, 99, 1 << 31])), "msg": some(n)})
        out.append({"t": "hhello", "versions": [[2, 0]], "mfs": gen.w32(16384), "caps": gen.caps(r), "hc": [True], "eid": [some(n)]})
        for k in ("str", "bin"):
            out.append(one_value({"k": k, "v": some(n)}, r.random() < 0.5))
        out.append({"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(1), "msgs": [
            {"name": some(n), "args": [{"n": gen.b("a"), "v": {"k": "u64", "v": gen.limbs(gen.M64)}}]}, {"name": gen.b("z"), "args": []}]})
        out.append({"t": "ack", "frag": False, "abort": False, "sid": gen.limbs(1), "fid": gen.limbs(1), "acts": [
            {"a": "unset", "scope": 4, "name": some(n), "v": {"k": "null", "v": []}}, {"a": "set", "scope": 1, "name": gen.b("z"), "v": {"k": "bool", "v": [1]}}]})
    for n in [n for n in (100, 255, 256, 257, 1000, 1024, 1025, 2049, 4097) if n <= most]:
        out.append({"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(1), "msgs": [
            {"name": gen.b("m%d" % i), "args": [{"n": gen.b("a"), "v": {"k": "u32", "v": gen.limbs(i)}}] if i % 3 == 0 else []} for i in range(n)]})
        out.append({"t": "ack", "frag": False, "abort": False, "sid": gen.limbs(1), "fid": gen.limbs(1), "acts": [
            {"a": "set", "scope": i % 5, "name": gen.b("v%d" % i), "v": {"k": "u32", "v": gen.limbs(i)}} if i % 3 else
            {"a": "unset", "scope": i % 5, "name": gen.b("v"), "v": {"k": "null", "v": []}} for i in range(n)]})
        out.append({"t": "hhello", "versions": [[i % 256, i // 256] for i in range(n)], "mfs": gen.w32(16384), "caps": [], "hc": [], "eid": []})
    return out


def bulk(r, sizes, counts, rooms=(0, -1, 1000), modes=("whole", "cut", "short"), steps=(0, 0, 5000, 65536, 300001, 1 << 20)):
    """Frames of millions of bytes or items."""
    out = []

    def add(kind, f, n, h, block, rest=0):
        size = h + n * block + rest
        for mode in modes:
            for room in rooms:
                if mode != "whole" and room < 0 and r.random() < 0.7:
                    continue
                out.append({"op": "bulk", "kind": kind, "n": n, "frame": f, "max": size + room, "h": h, "p": block, "mode": mode,
                            "step": r.choice(steps), "buf": r.random() < 0.4})
    ids = lambda: {"frag": False, "sid": gen.limbs(gen.num(r)), "fid": gen.limbs(gen.num(r) or 1)}
    hlen = lambda code, f: len(gen.head(code, 1, gen.unlimbs(f["sid"]), gen.unlimbs(f["fid"])))
    plen = lambda n: len(gen.varint(n))
    for n in sizes:
        f = dict(ids(), t="notify", msgs=[{"name": [], "args": []}])
        add("name", f, n, hlen(3, f) + plen(n), 1, 1)
        f = dict(ids(), t="ack", abort=False, acts=[{"a": "unset", "scope": r.randrange(5), "name": [], "v": {"k": "null", "v": []}}])
        add("name", f, n, hlen(103, f) + 3 + plen(n), 1)
        for k in ("str", "bin"):
            f = dict(ids(), t="ack", abort=False, acts=[{"a": "set", "scope": r.randrange(5), "name": gen.b("v"), "v": {"k": k, "v": []}}])
            add(k, f, n, hlen(103, f) + 3 + 2 + 1 + plen(n), 1)
    for n in counts:
        m = gen.message(r)
        m["name"] = gen.b("m")
        m["args"] = m["args"][:2]
        f = dict(ids(), t="notify", msgs=[m])
        add("items", f, n, hlen(3, f), len(gen.pmsg(m)))
        a = {"a": "set", "scope": r.randrange(5), "name": gen.b("v"), "v": {"k": "u32", "v": gen.limbs(r.randrange(1 << 32))}}
        f = dict(ids(), t="ack", abort=False, acts=[a])
        add("items", f, n, hlen(103, f), len(gen.pact(a)))
    return out


def bulks(c, what, **kw):
    big = c.thorough
    cases = bulk(c.rng, [65536, 264431, 264432, (1 << 20) + 1, (1 << 22) + c.rng.randrange(400000, 700000), (1 << 24) - 20, (1 << 24) + 5] + ([33818863, 33818864, 1 << 26] if big else []),
                 [5000, 65536, 70000] + ([1 << 20] if big else []), **kw)
    recs = judge(c, cases, what)
    bad = []
    for x in recs[:12]:
        for path, v in (("n", x["n"] + 1), ("max", 10), ("max", 1 << 30), ("out", dict(x["out"], times=x["n"] - 1)), ("out", dict(x["out"], rest=[1])),
                        ("w", dict(x["w"], n=7)), ("back", {"res": "err", "err": "Unknown"}), ("back", {"res": "frame", "same": False, "count": 0, "text": 0})):
            y = dict(x, **{path: v})
            if (x["w"]["res"] == "ok") == (path == "max" and v > 10):
                continue
            if path == "w" and x["w"]["res"] != "ok":
                continue
            if path == "back" and v["res"] == "err" and x["mode"] == "cut":
                continue
            bad.append(y)
    c.must_reject("WireTrace", bad, "bulk frames altered")


def long_text(r, n):
    """Text in which every stretch differs from its neighbours."""
    o = r.randrange(26)
    return [97 + (o + i * 7 + i // 26 + i // 251) % 26 for i in range(n)]


def long_lists(r):
    """HELLO and DISCONNECT frames with many items, unknown ones before and after those that count."""
    out = []
    for n in (10, 100, 255, 256, 600):
        for t in ("hhello", "ahello", "hdisc", "adisc"):
            its = gen.items({"t": t, "versions": [[1, 9], [2, 0]], "version": [2, 0], "mfs": gen.w32(70000), "caps": ["async"], "hc": [True],
                             "eid": [gen.b("e")], "code": gen.w32(99), "msg": gen.b("why")})
            more = [{"n": gen.b("x-%d" % i), "v": gen.typed(r)} for i in range(n)]
            for order in (more + its, its + more, more[:n // 2] + its + more[n // 2:]):
                out.append(gen.head(gen.CODE[t], 1, 0, 0) + [x for it in order for x in gen.pstr(it["n"]) + gen.ptyped(it["v"])])
    return out


def arity(n):
    return {"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(1),
            "msgs": [{"name": gen.b("m"), "args": [{"n": gen.b("a"), "v": {"k": "bool", "v": [i % 2]}} for i in range(n)]},
                     {"name": gen.b("after"), "args": []}]}


def one_value(x, ack):
    if ack:
        return {"t": "ack", "frag": False, "abort": False, "sid": gen.limbs(1), "fid": gen.limbs(1),
                "acts": [{"a": "set", "scope": 2, "name": gen.b("v"), "v": x}]}
    return {"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(1),
            "msgs": [{"name": gen.b("m"), "args": [{"n": gen.b("a"), "v": x}]}]}


CHARS = ([chr(n) for n in list(range(33)) + list(range(127, 162))] + list("\"'\\,;:=%$#&<>/?@{}|~+-_.*^`()[]!")
         + [chr(n) for n in (0xad, 0xdf, 0xe9, 0x130, 0x131, 0x17f, 0x1c5, 0x300, 0x301, 0x34f, 0x378, 0x61c, 0x7ff, 0x800, 0x1680, 0x180e, 0x1e9e,
                             0x2000, 0x2009, 0x200b, 0x200c, 0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x202f, 0x2060, 0x212b, 0x2126, 0x3000, 0xac00, 0xd7ff,
                             0xe000, 0xf8ff, 0xfb01, 0xfdd0, 0xfe0f, 0xfeff, 0xff21, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d400, 0x1f600, 0xe0001, 0x10fffd, 0x10ffff)])
ADDRS = ["::", "::1", "::2", "::ffff:0:0", "::ffff:10.1.2.3", "::10.1.2.3", "::ffff:127.0.0.1", "::ffff:0:1.2.3.4", "64:ff9b::1.2.3.4", "2002:102:304::1",
         "2001:db8::1", "fe80::1", "fec0::1", "fc00::1", "ff02::1", "ff0e::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "100::", "2001::1", "::ffff:255.255.255.255",
         "0.0.0.0", "127.0.0.1", "127.255.255.255", "255.255.255.255", "10.0.0.0", "169.254.1.1", "192.168.0.1", "224.0.0.1", "240.0.0.1", "100.64.0.1",
         "192.0.2.1", "1.0.0.0", "0.0.0.1", "172.16.0.0", "198.18.0.1"]


def remarkable(r):
    """Texts and addresses that somebody could take for something else than what they are."""
    out = []
    texts = [t for ch in CHARS for t in (ch, ch + "ab", "ab" + ch, "a" + ch + "b", ch + ch, "A" + ch)]
    texts += [w for x in ("true", "null", "Hello", "HELLO", "0", "-1", "1.5", "nan", "e\u0301", "\u1100\u1161", "%00", "\\n", "a=b", "txn.var", "sess.a.b") for w in (x, " " + x, x + " ")]
    for t in texts:
        v = list(t.encode())
        k = r.randrange(4)
        if k < 2:
            out.append(wcase(one_value({"k": "str", "v": v}, k == 0)))
        elif k == 2:
            out.append(wcase({"t": "notify", "frag": False, "sid": gen.limbs(1), "fid": gen.limbs(1),
                              "msgs": [{"name": v, "args": [{"n": v, "v": {"k": "str", "v": v}}, {"n": [], "v": {"k": "bin", "v": v}}]}]}))
        else:
            out.append(wcase({"t": "ack", "frag": False, "abort": False, "sid": gen.limbs(1), "fid": gen.limbs(1),
                              "acts": [{"a": "set", "scope": 1, "name": v, "v": {"k": "str", "v": v}},
                                       {"a": "unset", "scope": 2, "name": v, "v": {"k": "null", "v": []}}]}))
    for a in ADDRS:
        a = ipaddress.ip_address(a)
        for half in (False, True):
            out.append(wcase(one_value({"k": "ip%d" % a.version, "v": list(a.packed)}, half)))
    return out


def c02(c):
    cases = [wcase(x["frame"]) for x in mc(c, "values", 0)]
    recs = judge(c, cases, "boundary values enumerated by WireMC")
    rnd = []
    # every bit length and its neighbours, in every integer type
    for k in range(65):
        for d in (-2, -1, 0, 1, 2):
            n = ((1 << k) + d) & gen.M64
            for kind in ("u64", "i64", "u32", "i32"):
                v = n
                if kind == "u32":
                    v = n & 0xffffffff
                elif kind == "i32":
                    v = n & 0xffffffff
                    v |= (gen.M64 ^ 0xffffffff) if v >> 31 else 0
                rnd.append(wcase(one_value({"k": kind, "v": gen.limbs(v)}, (k + d) % 2 == 0)))
    for n in list(range(0, 300)) + list(range(2270, 2300)) + [
            4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131071, 131072, 264431, 264432] + (
            [1048575, 1048576] if c.thorough else []):
        rnd.append(wcase(one_value({"k": "str", "v": long_text(c.rng, n)}, n % 2 == 0)))
        rnd.append(wcase(one_value({"k": "bin", "v": [(n + i * 7 + i // 256) % 256 for i in range(n)]}, n % 2 == 1)))
    for _ in range(30000 if c.thorough else 2500):
        rnd.append(wcase(one_value(gen.typed(c.rng, c.rng.random() < 0.1), c.rng.random() < 0.5)))
    recs += judge(c, rnd, "random and boundary values, written and read back")
    recs += judge(c, remarkable(c.rng), "texts and addresses that mean something to somebody, written and read back")
    # reading: what the wire format means, independent of the library's writer
    reads = []
    for nib in range(16):
        for hi in range(16):
            for tail in ([], [5], [0] * 16, [1, 97], [240, 0], [255] * 20):
                reads.append(rcase(gen.head(3, 1, 1, 1) + gen.pstr(gen.b("m")) + [1] + gen.pstr(gen.b("a")) + [nib + 16 * hi] + tail))
    for e in gen.EDGES:
        for k in (2, 3, 4, 5):
            reads.append(rcase(gen.head(103, 1, 1, 1) + [1, 3, 1] + gen.pstr(gen.b("v")) + [k] + gen.varint(e)))
        reads.append(rcase(gen.head(3, 1, e, 1)))
        reads.append(rcase(gen.head(3, 1, 1, e or 1)))
    judge(c, reads, "every type byte and boundary integers, read")
    api.judge(c, api.varints(c, 20000 if c.thorough else 500), "integers put and got by themselves, whole or in two pieces")
    c.rng.shuffle(recs)
    selftest(c, small(recs))


def c03(c):
    cases = [rcase(x["b"]) for x in mc(c, "bytes", 1)]
    recs = judge(c, cases, "damaged encodings enumerated by WireMC, read")
    rnd = [rcase(b) for b in gen.odd_varints(c.rng)]
    for _ in range(60000 if c.thorough else 6000):
        f = gen.frame(c.rng, big=c.rng.random() < 0.05)
        rnd.append(rcase(gen.damage(c.rng, gen.encode(f))))
    for _ in range(20000 if c.thorough else 1500):
        n = c.rng.choice([0, 1, 4, 5, 6, 7, 8, 10, 20, 60])
        body = [c.rng.getrandbits(8) for _ in range(n)]
        if n > 7:
            body[:7] = [c.rng.choice([1, 2, 3, 101, 102, 103]), 0, 0, 0, c.rng.choice([0, 1, 2, 3]), c.rng.choice([0, 1]), c.rng.choice([0, 1])]
        rnd.append(rcase(body))
    # every single truncation of some frames
    for _ in range(400 if c.thorough else 40):
        body = gen.encode(gen.frame(c.rng))
        rnd += [rcase(body[:n]) for n in range(min(len(body), 120))]
    # counts that do not match
    for nb in range(256):
        rnd.append(rcase(gen.head(3, 1, 1, 1) + gen.pstr(gen.b("m")) + [nb] + gen.pstr(gen.b("a")) + [0]))
        rnd.append(rcase(gen.head(3, 1, 1, 1) + gen.pstr(gen.b("m")) + [nb]))
        rnd.append(rcase(gen.head(103, 1, 1, 1) + [1, nb, 0] + gen.pstr(gen.b("v")) + [0]))
        rnd.append(rcase(gen.head(103, 1, 1, 1) + [2, nb, 0] + gen.pstr(gen.b("v"))))
        rnd.append(rcase(gen.head(103, 1, 1, 1) + [nb, 3, 0] + gen.pstr(gen.b("v")) + [0]))
        rnd.append(rcase(gen.head(103, 1, 1, 1) + [1, 3, nb] + gen.pstr(gen.b("v")) + [0]))
        rnd.append(rcase([nb, 0, 0, 0, 1, 0, 0]))
        rnd.append(rcase([nb, 0, 0, 0, 1, 1, 1]))
        rnd.append(rcase(gen.head(3, nb, 1, 1)))
        rnd.append(rcase(gen.head(103, nb, 1, 1)))
        for s in ([nb], [nb, 128], [97, nb], [nb, 160, 128], [nb, 144, 128, 128], [nb, 191, 191, 191]):
            rnd.append(rcase(gen.head(3, 1, 1, 1) + gen.pstr(s) + [1] + gen.pstr(gen.b("a")) + [0]))
            rnd.append(rcase(gen.head(103, 1, 1, 1) + [1, 3, 0] + gen.pstr(gen.b("v")) + [8] + gen.pstr(s)))
    recs += judge(c, rnd, "damaged, truncated and random frames, read")
    rnd = []
    for b in [gen.encode(f) for f in long_frames(c.rng, 2049 if c.thorough else 1025)] + long_lists(c.rng):
        q = [rcase(b), rcase(b[:-1]), rcase(b + [0]), rcase(b + [c.rng.getrandbits(8)]), rcase(b[:c.rng.randrange(len(b))]),
             rcase(b[:-1] + [b[-1] ^ 128])]
        rnd += q if c.thorough else c.rng.sample(q[:3], 2) + c.rng.sample(q[3:], 1)
    judge(c, rnd, "long frames, whole, damaged at the end, or cut")
    bulks(c, "frames of millions of bytes and tens of thousands of items, cut", rooms=(0, 1000), modes=("cut", "short"))
    rnd = []
    for _ in range(4000 if c.thorough else 400):
        f = gen.frame(c.rng, kinds=["hdisc", "adisc"])
        its = gen.items(f)
        k = c.rng.choice(["i32", "u32", "i64", "u64"])
        its[0] = gen.item("status-code", k, gen.limbs(gen.num(c.rng, 31 if k == "i32" else 32)))
        for i in range(2):
            if c.rng.random() < 0.15:
                its[i] = dict(its[i], v=other(c.rng, i))
        its += [{"n": gen.text(c.rng), "v": gen.typed(c.rng)} for _ in range(c.rng.choice([0, 0, 1, 3]))]
        c.rng.shuffle(its)
        if c.rng.random() < 0.2:
            its = [x for x in its if c.rng.random() < 0.6]
        if len({tuple(x["n"]) for x in its}) == len(its):
            rnd.append(rcase(gen.head(gen.CODE[f["t"]], 1, 0, 0) + [x for it in its for x in gen.pstr(it["n"]) + gen.ptyped(it["v"])]))
    judge(c, rnd, "DISCONNECT frames with items in any order, missing, of other types")
    c.rng.shuffle(recs)
    selftest(c, small(recs))


def other(r, i):
    """A value of a type that is none of an integer (0), or not a string (1)."""
    while True:
        x = gen.typed(r)
        if x["k"] not in (("i32", "u32", "i64", "u64"), ("str",))[i]:
            return x


def c06(c):
    cases = [rcase(x["b"]) for x in mc(c, "hello", 1, timeout=800)]
    if c.thorough:
        more = mc(c, "hello", 2, timeout=800)
        cases += [rcase(x["b"]) for x in c.rng.sample(more, min(len(more), 60000))]
    recs = judge(c, cases, "HELLO item lists enumerated by WireMC, read")
    rnd = []
    for _ in range(30000 if c.thorough else 3000):
        rnd.append(rcase(hello(c.rng)))
    recs += judge(c, rnd, "random HELLO item lists, read")
    judge(c, [rcase(b) for b in long_lists(c.rng)], "long HELLO item lists, read")
    w = [wcase(gen.frame(c.rng, kinds=["hhello", "ahello"])) for _ in range(500)]
    recs += judge(c, w, "HELLO frames, written and read back")
    c.rng.shuffle(recs)
    selftest(c, small(recs) or [r for r in recs if r["op"] in ("read", "write")][:8])


def hello(r):
    ag = r.random() < 0.4
    sp = lambda s: " " * r.choice([0, 0, 0, 1, 2]) + s + " " * r.choice([0, 0, 0, 1, 3])
    ver = lambda: "%d.%d" % tuple(gen.version(r))
    bad = r.choice([0, 0, 0, 0, 1, 2, 3])
    if ag:
        v = gen.item("version", "str", gen.b(ver() if bad != 1 else r.choice(["2", "", "2.", ".0", "2.0.0", "256.1", "x.y", "-1.0", "2.0,1.0"])))
    else:
        vs = [sp(ver()) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        if bad == 1:
            vs.insert(r.randint(0, len(vs)), r.choice(["2", "", "2.", ".0", "2.0.0", "256.1", "x.y", "1.256", "2 .0"]))
        v = gen.item("supported-versions", "str", gen.b(",".join(vs)))
    k = r.choice(["u32", "u32", "u32", "i32", "i64", "u64"])      # any integer type will do
    m = gen.item("max-frame-size", k, gen.limbs(gen.num(r, 31 if k == "i32" else 32)))
    if bad == 2:
        m = gen.item("max-frame-size", r.choice(["str", "bin"]), gen.b("16384"))
    cs = [sp(x) for x in r.sample(["fragmentation", "pipelining", "async", "async ", "zip", "", "Pipelining", "fragment", "async\t"], r.randint(0, 5))]
    k = gen.item("capabilities", "str", gen.b(",".join(cs)))
    if bad == 3:
        k = gen.item("capabilities", "bin", gen.b("async"))
    its = [v, m, k]
    if r.random() < 0.15:
        del its[r.randrange(3)]
    if r.random() < 0.5:
        its.append(gen.item("healthcheck", "bool", [r.randint(0, 1)]))
    if r.random() < 0.5:
        its.append(gen.item("engine-id", "str", gen.text(r, True)))
    for _ in range(r.choice([0, 0, 1, 2])):
        its.append({"n": r.choice([gen.text(r), gen.b("x-future"), gen.b("version" if not ag else "supported-versions"), gen.b("healthchecks")]), "v": gen.typed(r)})
    seen, out = set(), []
    for it in its:
        if tuple(it["n"]) not in seen:
            seen.add(tuple(it["n"]))
            out.append(it)
    r.shuffle(out)
    return gen.head(101 if ag else 1, 1, 0, 0) + [x for it in out for x in gen.pstr(it["n"]) + gen.ptyped(it["v"])]
