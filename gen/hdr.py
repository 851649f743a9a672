from .util import *
NM = ["a", "A", "b", "ab", "Ab", "aB", "x-y", "X-Y", "x_y", "x-y ", "", "@", "`", "[", "{", "a[", "a{", "A@", "host", "HOST", "Host", "hosT", "content-length", "Content-Length", "connection", "é", "É", "k", "\u212a", "a\x00", "a\x20"]
VL = [B(x) for x in ["", "1", "x", "X", "a, b", "x;y", "é", "z" * 50, "A", "a"]] + [[255], [226, 130], [0], [13, 10]]
NUMS = ["0", "1", "7", "10", "00", "007", "-1", "-0", "+1", "", " ", " 1", "1 ", "1x", "x", "0x10", "1e3", "1.0", "٣", "4294967295", "4294967296", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "9223372036854775809",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "100000000000000000000", "1" + "0" * 40, "0" * 40 + "5", "36893488147419103232", "-", "--1", "1-", "1,1", "1;1", "1, 1", "12345678901234567890", "-12345678901234567890", "-5", "65536", "\t3"]
def name_ok(b):
    try: bytes(b).decode(); return True
    except UnicodeDecodeError: return False
def lookup(rng, n):
    return {"n": n, "via": pick(rng, [0, 1, 2, 3]) if name_ok(n) else 2, "form": rng.randrange(3)}
def put(rng, op, n, v):
    o = {"op": op, "n": n, "v": v, "form": rng.randrange(3), "vform": pick(rng, [0, 2]), "api": 0}
    if name_ok(v):
        o["api"] = rng.randrange(3)
        t = bytes(v).decode()
        if len(t) < 20 and t.isascii() and t.isdigit() and str(int(t)) == t and int(t) < 1 << 63 and rng.random() < .6: o["api"] = pick(rng, [3, 4])
    return o
def vary(rng, n):
    """another spelling of a name, or a name that is nearly the same"""
    n = list(n)
    for k in range(len(n)):
        if rng.random() < .4 and chr(n[k]).isalpha() and n[k] < 128: n[k] ^= 32
    if rng.random() < .15 and n:
        k = rng.randrange(len(n)); m = n[:]; m[k] ^= pick(rng, [32, 1, 64, 2])
        if 32 < m[k] < 127: n = m
    return n
def rname(rng): return vary(rng, B(pick(rng, NM)))
def rval(rng): return pick(rng, VL) if rng.random() < .8 else rbytes(rng, rng.randrange(6), range(32, 127))
def one(rng, names):
    n = vary(rng, pick(rng, names)); k = rng.random()
    if k < .25: return put(rng, "ins", n, rval(rng))
    if k < .38: return put(rng, "push", n, rval(rng))
    if k < .5: return dict(lookup(rng, n), op="rem")
    if k < .65: return dict(lookup(rng, n), op="get")
    if k < .75: return dict(lookup(rng, n), op="cont", v=pick(rng, [[], [59], rval(rng), rval(rng)[:1]]))
    if k < .88: return {"op": "mut", "n": n, "v": rval(rng), "vform": pick(rng, [0, 2]), "how": rng.randrange(4)}
    if k < .9: return {"op": "clear"}
    if k < .92: return {"op": "bad", "n": n, "v": rval(rng), "bad": pick(rng, [0, 1, 2, 3]), "how": rng.randrange(2)}
    if k < .94: return {"op": "sysins", "k": pick(rng, [B("a"), B("A"), B("b")]), "v": B(pick(rng, ["1", "2", ""]))}
    if k < .965: return {"op": "sysget", "k": pick(rng, [B("a"), B("A"), B("b")])}
    return {"op": "show"}
def collection(rng, tier):
    """C08"""
    n = 15 if tier == "thorough" else 1
    for a in range(3):
        for b in range(3): yield "hdr", [{"op": "bits", "af": a, "bf": b}]
    for _ in range(700 * n):
        names = [B(pick(rng, NM)) for _ in range(pick(rng, [1, 2, 3, 6]))]
        # an insert through the &'static str forms and its lookups through the others
        yield "hdr", [one(rng, names) for _ in range(pick(rng, [4, 8, 16, 30]))] + [{"op": "show"}]
    for a in NM:
        yield "hdr", [{"op": "name", "a": B(a), "af": rng.randrange(3), "b": x, "bf": rng.randrange(3)} for x in [B(b) for b in NM] + [vary(rng, B(a)) for _ in range(4)]]
    for a in VL + [B(x) for x in NUMS]:
        yield "hdr", [{"op": "value", "a": a, "af": pick(rng, [0, 2]), "b": b, "bf": pick(rng, [0, 2])} for b in VL + [a, a[:1], a[1:], a[:-1], a + [0]]]
    # names that differ in one byte
    for _ in range(100 * n):
        a = rname(rng) + rbytes(rng, 3, range(33, 127))
        yield "hdr", [put(rng, "ins", a, [49])] + [o for k in range(len(a)) for x in (32, 1) for c in [a[:k] + [a[k] ^ x] + a[k + 1:]] if name_ok(c) for o in (dict(lookup(rng, c), op="get"), put(rng, "ins", c, [50]))][:24] + [{"op": "show"}]
TOK = ["keep-alive", "Keep-Alive", "KEEP-ALIVE", "keep-alive2", "xkeep-alive", "keep alive", "close", "upgrade", "Upgrade", "UPGRADE", "upgrades", "chunked", "Chunked", "CHUNKED", "chunke", "xchunked", "gzip", "", "HTTP2-Settings", "chunkedx", "not-chunked", "te", "identity"]
def toklist(rng):
    return B(pick(rng, ["", " ", "\t", ""]) + pick(rng, [", ", ",", " , ", ";", ",,", ",\t"]).join(pick(rng, TOK) for _ in range(pick(rng, [1, 1, 2, 3]))) + pick(rng, ["", " ", "", ","]))
QN = ["content-length", "connection", "transfer-encoding", "upgrade", "host", ":authority", "referer", "user-agent", "cookie", "content-type", "x-a", "te"]
def qval(rng, n):
    if n == "content-length": return B(pick(rng, NUMS)) if rng.random() < .7 else B(str(rng.randrange(1 << pick(rng, [8, 31, 63, 64, 66]))))
    if n in ("connection", "transfer-encoding"): return toklist(rng)
    if n == "upgrade": return B(pick(rng, ["h2c", "websocket", "", "WebSocket, h2c"])) if rng.random() < .9 else [255]
    if n in ("host", ":authority"): return B(pick(rng, ["h", "h:80", "", "é.example", "[::1]:80", "a:b:c"]))
    return rval(rng)
def queries(rng, tier):
    """C09"""
    n = 15 if tier == "thorough" else 1
    q = {"op": "q"}
    def ins(nm, v, op="ins"): return put(rng, op, vary2(rng, nm), v)
    def vary2(rng, nm): return [c ^ 32 if chr(c).isalpha() and rng.random() < .3 else c for c in B(nm)]
    for t in NUMS:
        yield "hdr", [ins("content-length", B(t)), q, {"op": "value", "a": B(t), "af": 0, "b": B(t), "bf": 2}, {"op": "num", "v": B(str(int(t)) if t.isascii() and t.isdigit() else "0")}, dict(lookup(rng, B("Content-Length")), op="rem"), q]
    # around every power of ten and of two the machine knows
    edges = sorted({x for b in (7, 8, 15, 16, 31, 32, 63, 64, 65, 66) for x in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {10 ** k + d for k in range(1, 22) for d in (-1, 0, 1)})
    for v in edges:
        yield "hdr", [ins("content-length", B(str(v))), q] + [{"op": "value", "a": B(t), "af": 0, "b": [], "bf": 0} for t in (str(v), "-" + str(v), "0" + str(v), str(v) + "0")] + [{"op": "num", "v": B(str(v))}, {"op": "num", "v": B("-" + str(v))}]
    for c in range(256):
        yield "hdr", [{"op": "value", "a": x, "af": 0, "b": [c], "bf": 0} for x in ([c], [49, c], [c, 49], [49, c, 50])] + [ins("content-length", [49, c]), q, ins("content-length", [c, 50]), q]
    for t in TOK:
        for nm in ("connection", "transfer-encoding"):
            yield "hdr", [ins(nm, B(t)), q, ins(nm, B("x"), "push"), q, ins("upgrade", B("h2c")), q, ins(nm, B("x, " + t)), q, dict(lookup(rng, B(nm)), op="rem"), q]
    # all cases of the tokens
    for t, nm in (("upgrade", "connection"), ("chunked", "transfer-encoding")):
        for m in range(0, 1 << len(t), 1 if n > 1 else 5):
            yield "hdr", [ins("upgrade", B("p")), ins(nm, [c ^ 32 if m >> k & 1 else c for k, c in enumerate(B(t))]), q]
    for k in range(len("keep-alive")):
        for d in (1, 2, 32, 64):
            x = B("keep-alive"); x[k] ^= d
            yield "hdr", [ins("connection", x), q]
    for _ in range(800 * n):
        ops = []
        for _ in range(pick(rng, [1, 2, 4, 8])):
            nm = pick(rng, QN); k = rng.random()
            v = qval(rng, nm)
            ops.append(ins(nm, v) if k < .6 else ins(nm, v, "push") if k < .75 else dict(lookup(rng, vary2(rng, nm)), op="rem") if k < .85 else {"op": "mut", "n": vary2(rng, nm), "v": v, "vform": 0, "how": rng.randrange(4)} if k < .97 else {"op": "clear"})
            ops.append(q)
        yield "hdr", ops
