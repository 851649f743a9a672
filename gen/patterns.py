"""Structured inputs: every ordered pair of symbols somewhere in one text, every small number of repetitions at every
place, and families of long texts that differ in one octet"""
from .util import *
from . import http1, url, hdr, hp, h2, ws, msg, out, octs
UN = [chr(c) for c in range(33, 127) if chr(c) not in "\"%<>\\^`{|}#"]
NM = [chr(c) for c in b"!#$&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"]
VC = [chr(c) for c in range(32, 127)]
def twice(rng, xs, m=2):
    """m orders of the symbols, one after the other: with two, each symbol stands before each other one"""
    o = []
    for _ in range(m):
        y = list(xs); rng.shuffle(y); o += y
    return "".join(o)
def part(rng, xs):
    """all of them twice, or a few of them, many times"""
    xs = list(xs)
    if rng.random() < .5: return twice(rng, xs)
    y = some(rng, xs, pick(rng, [1, 2, 2, 3, 4]))
    return "".join(pick(rng, y) for _ in range(rng.randrange(1, 30)))
LENS = [1, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200]
def family(rng, xs, n=None):
    """long texts that share all but little: lists of octets"""
    n = pick(rng, LENS) if n is None else n
    b = [ord(pick(rng, xs)) if isinstance(xs[0], str) else pick(rng, xs) for _ in range(n)]
    o = [b]
    for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
        c = b[k]
        while c == b[k]: c = ord(pick(rng, xs)) if isinstance(xs[0], str) else pick(rng, xs)
        o.append(b[:k] + [c] + b[k + 1:])
    o += [b + b[-1:], b[:-1], b + b, b[::-1]]
    return o

# ---- URLs ----
SCHEMES = ["http", "https", "ws", "wss", "ftp", "foo", "HTTP"]
PORTS = [0, 1, 9, 20, 21, 22, 79, 80, 81, 82, 88, 180, 280, 336, 8080, 442, 443, 444, 445, 699, 65534, 65535]
def path(rng): return "/" + part(rng, [c for c in UN if c not in "?[]"] + ["%2B", "%20", "%25", "%C3%A9", "/"])
def query(rng): return part(rng, [c for c in UN if c not in "[]"] + ["%2B", "%26", "%3D", "%00", "%e2%82%ac"])
def info(rng): return part(rng, [c for c in UN if c not in ":@/?[]"] + ["%3A", "%40", "%2f", "%25"])
def target(rng):
    k = rng.random()
    p = path(rng) if k < .7 else "/"
    return p + ("?" + query(rng) if k > .4 else "")
def rich_url(rng):
    return pick(rng, ["", "http://", "https://", "ftp://", "foo://"]) and (pick(rng, url.SCH) + "://" + (info(rng) + ":" + info(rng) + "@" if rng.random() < .5 else "") + pick(rng, url.HOSTS) + pick(rng, url.PORTS)) + target(rng) or target(rng)
REP = [("http://h", "/", ""), ("/", "/", "x"), ("/a", "?", ""), ("/a?", "&", ""), ("/a?", "=", "&b"), ("/?a=", "+", "b"), ("/", "+", "/"), ("/", "%2B", ""), ("/", "%41", "%"), ("/", "%4", ""), ("http:", "/", "h"), ("http", ":", "//h"), ("http://h:", "0", "80"), ("http://h:8", "0", ""), ("http://h:", "9", "/"),
       ("http://u:p", "@", "h"), ("http://u", ":", "p@h"), ("http://", "a.", "b"), ("http://", "%68", ""), ("", "a", "://h"), ("", "a+", "://h"), ("http://[", ":", "]"), ("/", ".", "/"), ("/", "../", "x"), ("/", ";", ""), ("/", "é", ""), ("/?", "%C3%A9", "%C3"), ("/", "&a=b", ""), ("", "/?", ""), ("http://h/", "http://h/", "")]
def long_url(rng, tier):
    n = 8 if tier == "thorough" else 1
    for _ in range(120 * n): yield "url", [url.P(B(rich_url(rng)), rng) for _ in range(3)] + [{"op": "auth", "b": B(rich_url(rng))}]
    for a, u, z in REP: yield "url", [url.P(B(a + u * k + z), rng) for k in list(range(0, 13)) + [16, 17, 31, 32, 33, 64, 65]]
    for _ in range(15 * n):
        for pre, xs in (("/", UN), ("/?", UN), ("http://", [chr(c) for c in b"abcxyz019.-"]), ("http://h/", [c for c in UN if c != "?"]), ("http://u:", [c for c in UN if c not in ":@/?[]"])):
            yield "url", [url.P(B(pre) + b + (B("@h/") if pre.endswith(":") else []), rng) for b in family(rng, xs)]
    for sc in SCHEMES: yield "url", [url.P(B("%s://h:%d%s" % (sc, p, pick(rng, ["", "/", "?q", "/x"]))), rng) for p in PORTS] + [{"op": "auth", "b": B("%s://h:%d/" % (sc, p))} for p in PORTS]
def long_format(rng, tier):
    n = 8 if tier == "thorough" else 1
    ch = VC + ["é", "€", "\x00", "\x7f"]
    for _ in range(120 * n):
        calls = [{"c": "scheme", "v": B(pick(rng, url.SCH))}, {"c": "domain", "v": B("h")}, {"c": "path", "v": B("/" + part(rng, ch))}, {"c": "query", "v": B(part(rng, ch))}]
        if rng.random() < .6: calls += [{"c": "username", "v": B(part(rng, ch))}, {"c": "password", "v": B(part(rng, ch))}]
        yield "url", [{"op": "build", "calls": calls}, {"op": "enc", "b": B(part(rng, ch))}, {"op": "dec", "b": B(part(rng, UN + ["%41", "%2B", "%25", "%c3%a9", "é"]))}, {"op": "dec", "b": B(part(rng, UN + ["%41", "%", "%4"]))}, {"op": "merge", "a": B(rich_url(rng)), "b": B(rich_url(rng))}, url.P(B(rich_url(rng)), rng)]
    for sc in SCHEMES: yield "url", [{"op": "build", "calls": [{"c": "scheme", "v": B(sc)}, {"c": "domain", "v": B("h")}, {"c": "port", "n": p}]} for p in PORTS] + [{"op": "merge", "a": B("%s://h:%d/" % (sc, p)), "b": B("http://g:81/")} for p in PORTS[::3]]
    for u in ["a", "+", " ", "%", "/", "é", "%41", "&", "="]:
        yield "url", [{"op": o, "b": B(u * k)} for k in list(range(0, 11)) + [31, 32, 33, 64, 100] for o in ("enc", "dec")]

# ---- heads ----
def fields(rng, n=None):
    fs = []
    for _ in range(pick(rng, [0, 1, 2, 4]) if n is None else n):
        nm = twice(rng, NM, 1) if rng.random() < .3 else "".join(pick(rng, NM) for _ in range(pick(rng, LENS[:16]))) if rng.random() < .3 else pick(rng, ["a", "x-q", "accept", "cookie"])
        fs.append((nm, part(rng, VC + ["\t"]).strip()))
    return fs
def rich_head(rng, kind, extra=()):
    sl, fs = http1.head_parts(rng, kind, pick(rng, [0, 0, 1]))
    fs = [f for f in fs if f[0].lower() not in ("transfer-encoding", "content-length")] + fields(rng) + list(extra)
    if kind == "req":
        if sl[0] != "CONNECT" and rng.random() < .8: sl[1] = (pick(rng, ["", "", "http://h", "http://u:p@h:81"]) + target(rng))
    elif rng.random() < .7: sl[2] = part(rng, VC)
    return http1.text(sl, fs, rng)
def repeated(rng, kind):
    """(head as octets) with one thing there k times"""
    sl, fs = http1.head_parts(rng, kind, 1)
    sl[2 if kind == "req" else 0] = "HTTP/1.1"
    b = http1.text(sl, [("a", "b")])
    fst = http1.text(sl, [])[:-2]
    for u in ([13, 10], [10], [13, 10, 10], [32], [13], [9], [0]):
        yield lambda k, u=u: u * k + b
    sp = [i for i in range(len(b)) if b[i] == 32]
    for i in sp:
        for u in ([32], [9]): yield lambda k, i=i, u=u: b[:i] + u * k + b[i + 1:]
        yield lambda k, i=i: b[:i] + [32] * k + b[i:]
    for f in ("a: b\r\n", "n\r\n", "c:\r\n", "A:1\r\n", ":\r\n", "\r\n", " x\r\n"): yield lambda k, f=f: fst + B(f) * k + [13, 10]
    yield lambda k: fst + B("".join("f%d: %d\r\n" % (j, j) for j in range(k))) + [13, 10]
    yield lambda k: fst + B("".join("f%d: %d\r\n" % (j % 3, j) for j in range(k))) + [13, 10]
    for c in (32, 9, 58, 44, 59, 195, 97, 48): yield lambda k, c=c: fst + [97, 58] + [c] * k + [13, 10, 13, 10]
    for c in (32, 9, 44): yield lambda k, c=c: fst + [97, 58, 98] + [c] * k + [13, 10, 13, 10]
    for c in (32, 9, 44): yield lambda k, c=c: fst + [97, 58, 98] + [c] * k + [99, 13, 10, 13, 10]
    for c in (97, 45, 58, 32): yield lambda k, c=c: fst + [97] + [c] * k + [58, 98, 13, 10, 13, 10]
    yield lambda k: fst[:-2] + [13] * k + [10, 13, 10]
    yield lambda k: fst[:-2] + [13, 10] + [10] * k + [13, 10]
KS = list(range(0, 13)) + [16, 17, 32, 33, 64, 65]
def long_segments(rng, tier):
    n = 6 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for _ in range(35 * n):
            ops = [http1.obj(kind)]
            for _ in range(2): ops += [http1.feed(p) for p in http1.pieces(rng, rich_head(rng, kind) + pick(rng, http1.JUNK), pick(rng, [0, 1, 3, 6]))] + [{"op": "next"}]
            yield "http1", ops
        for r in repeated(rng, kind):
            ops = [http1.obj(kind)]
            for k in some(rng, KS, 4): ops += [http1.feed(p) for p in http1.pieces(rng, r(k), pick(rng, [1, 2, 4]))] + [{"op": "next"}]
            yield "http1", ops
def long_whole(kind):
    def g(rng, tier):
        n = 6 if tier == "thorough" else 1
        for _ in range(70 * n):
            yield "http1", [http1.obj(kind)] + [o for _ in range(2) for b in [rich_head(rng, kind)] for o in (http1.parse(b), {"op": "pbuf", "b": b + pick(rng, http1.JUNK), "form": rng.randrange(2)})]
        if kind == "req":
            for sc in SCHEMES: yield "http1", [http1.obj(kind)] + [http1.parse(http1.text(pick(rng, [["GET", "%s://h:%d/" % (sc, p), "HTTP/1.1"], ["CONNECT", "h:%d" % p, "HTTP/1.1"], ["GET", "/", "HTTP/1.1"]]), [("Host", "g:%d" % pick(rng, PORTS))])) for p in PORTS]
        for r in repeated(rng, kind): yield "http1", [http1.obj(kind)] + [http1.parse(r(k)) if k % 2 else {"op": "pbuf", "b": r(k), "form": k // 2 % 2} for k in KS]
        for _ in range(12 * n):
            sl, _ = http1.head_parts(rng, kind, 0)
            yield "http1", [http1.obj(kind)] + [http1.parse(http1.text(sl, [("a", v)])) for v in map(bytes, family(rng, VC))]
            yield "http1", [http1.obj(kind)] + [http1.parse(http1.text(sl, [(v.decode(), "x")])) for v in map(bytes, family(rng, NM))]
            fm = [bytes(v).decode() for v in family(rng, NM)]
            yield "http1", [http1.obj(kind), http1.parse(http1.text(sl, [(v, str(j)) for j, v in enumerate(fm)])), http1.parse(http1.text(sl, [(v, str(j)) for j, v in enumerate(fm + fm[::-1])]))]
    g.__name__ = "long_patterns_" + kind
    return g
def long_roundtrip(rng, tier):
    n = 6 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for _ in range(100 * n): yield "http1", [http1.obj(kind), http1.parse(rich_head(rng, kind)), {"op": "ser", "body": rbytes(rng, pick(rng, [0, 1, 20]))}]
        for r in repeated(rng, kind): yield "http1", [http1.obj(kind)] + [o for k in KS for o in (http1.parse(r(k)), {"op": "ser", "body": [97] * k})]
        for _ in range(15 * n):
            fm = [bytes(v).decode() for v in family(rng, NM)]; fv = [bytes(v).decode().strip() for v in family(rng, VC)]
            sl, _ = http1.head_parts(rng, kind, 0)
            yield "http1", [http1.obj(kind), http1.parse(http1.text(sl, [(fm[j % len(fm)], fv[j % len(fv)]) for j in range(12)])), {"op": "ser", "body": []}]
def long_reuse(rng, tier):
    n = 6 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        rs = list(repeated(rng, kind))
        for _ in range(60 * n):
            ops = [http1.obj(kind)]
            for _ in range(pick(rng, [2, 4, 8])):
                b = rich_head(rng, kind) if rng.random() < .5 else pick(rng, rs)(pick(rng, KS))
                if rng.random() < .3: b = b[:rng.randrange(len(b) + 1)]
                ops.append(http1.parse(b) if rng.random() < .6 else {"op": "pbuf", "b": b, "form": rng.randrange(2)})
            yield "http1", ops
def long_streams(rng, tier):
    n = 6 if tier == "thorough" else 1
    def one(kind):
        body = rbytes(rng, pick(rng, [0, 1, 5, 64, 130])) if rng.random() < .5 else B(part(rng, ["\r\n", "0", "\r", "\n", "GET / HTTP/1.1\r\n", "a"]))
        k = rng.random()
        if k < .4: return rich_head(rng, kind, [("Content-Length", str(len(body)))]) + body
        if k < .8: return rich_head(rng, kind, [("Transfer-Encoding", "chunked")]) + http1.enc_chunks(rng, body)
        return rich_head(rng, kind)
    for kind in ("req", "resp"):
        for _ in range(40 * n):
            b = []
            for _ in range(pick(rng, [2, 3])): b += [13, 10] * pick(rng, [0, 0, 0, 1, 2, 5]) + one(kind)
            yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, b, pick(rng, [0, 2, 6, 12]))]
        for u in ([13, 10], [10]):
            for k in range(0, 9):
                m = http1.text(["GET", "/", "HTTP/1.1"] if kind == "req" else ["HTTP/1.1", "200", "OK"], [("Content-Length", "3")]) + [1, 2, 3]
                yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, u * k + m + u * k + m + u * (8 - k) + m, pick(rng, [0, 2, 5]))]
        # leading zeros in the length, many messages, many chunks
        for k in KS:
            st = ["GET", "/", "HTTP/1.1"] if kind == "req" else ["HTTP/1.1", "200", "OK"]
            yield "http1", [http1.obj(kind), {"op": "recv", "b": http1.text(st, [("Content-Length", "0" * k + "3")]) + [1, 2, 3] + http1.text(st, [("X", "y" * k)])}]
            yield "http1", [http1.obj(kind), {"op": "recv", "b": http1.text(st, [("X", "1")]) * k}]
            yield "http1", [http1.obj(kind), {"op": "recv", "b": http1.text(st, [("Transfer-Encoding", "chunked")]) + B("1\r\nz\r\n") * k + B("0\r\n\r\n") + http1.text(st, [])}]
def long_chunks(rng, tier):
    n = 6 if tier == "thorough" else 1
    top = 25 if tier == "thorough" else 24
    for k in range(0, top + 1): yield "http1", [{"op": "cbig", "n": x} for x in sorted({max(0, (1 << k) + d) for d in (-1, 0, 1)})]
    for _ in range(12 * n): yield "http1", [{"op": "cbig", "n": rng.randrange(1 << pick(rng, range(1, top)))} for _ in range(3)]
    for x in [10 ** k for k in range(0, 8)] + [0xabc, 0xabcd, 0xabcdef, 0x10000f, 0xf0000, 0x100000, 0xa0a0a0, 0x0f0f0f]: yield "http1", [{"op": "cbig", "n": x}]
    for k in KS:
        cd = lambda b: {"op": "cdec", "b": b, "form": rng.randrange(2)}
        yield "http1", [cd(B("0" * k + "3") + [13, 10, 1, 2, 3, 13, 10]), cd(B("3" + " " * k + "\r\nabc\r\n")), cd(B("3" + ";x" * k + "\r\nabc\r\n")), cd(B("3;" + "x" * k + "\r\nabc\r\n")), cd(B("\r\n" * k + "3\r\nabc\r\n")), cd(B("3\r\nabc" + "\r\n" * k)), cd(B("3" + "\r" * k + "\nabc\r\n")), cd(B("f" * k + "\r\nabc\r\n")), cd(B("0" * k)), cd(B("3;" + part(rng, VC) + "\r\nabc\r\n"))]

# ---- fields ----
def long_collection(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(60 * n):
        ns = family(rng, NM) if rng.random() < .6 else [B("a"), B("b")]
        ns += [[c ^ 32 if chr(c).isalpha() else c for c in ns[0]]]
        vs = family(rng, pick(rng, [VC, list(range(256))]))
        ops = []
        for j in range(12):
            nm, v = pick(rng, ns), pick(rng, vs); k = rng.randrange(6)
            ops.append(hdr.put(rng, "ins", nm, v) if k < 2 else hdr.put(rng, "push", nm, v) if k == 2 else dict(hdr.lookup(rng, nm), op="get") if k == 3 else dict(hdr.lookup(rng, nm), op="cont", v=v) if k == 4 else dict(hdr.lookup(rng, nm), op="rem") if rng.random() < .4 else {"op": "mut", "n": nm, "v": v, "vform": pick(rng, [0, 2]), "how": rng.randrange(4)})
        yield "hdr", ops + [{"op": "show"}]
        yield "hdr", [{"op": "name", "a": ns[0], "af": rng.randrange(3), "b": x, "bf": rng.randrange(3)} for x in ns] + [{"op": "value", "a": vs[0], "af": pick(rng, [0, 2]), "b": x, "bf": pick(rng, [0, 2])} for x in vs]
    for k in range(0, 70, 3): yield "hdr", [hdr.put(rng, "ins" if j % 3 else "push", B("n%d" % (j % (k // 2 + 1))), B(str(j))) for j in range(k)] + [{"op": "show"}] + [dict(hdr.lookup(rng, B("N%d" % j)), op="get") for j in range(0, k, 7)]
def long_queries(rng, tier):
    n = 6 if tier == "thorough" else 1
    q = {"op": "q"}
    low = lambda nm, v: hdr.put(rng, "ins", B(nm), v)
    for t in ("keep-alive", "chunked", "upgrade", "close", "Upgrade", "CHUNKED", "Keep-Alive"):
        for nm in ("connection", "transfer-encoding"):
            ops = [low("upgrade", B("p"))]
            for k in range(0, 9):
                ws_ = [pick(rng, hdr.TOK + ["x"]) for _ in range(8)]
                ops += [low(nm, B(pick(rng, [",", ", ", ";"]).join(ws_[:k] + [t] + ws_[k:]))), q, low(nm, B("," * k + t + "," * k)), q, low(nm, B(" " * k + t + " " * k)), q, low(nm, B("\t" * k + t + ",x")), q]
            yield "hdr", ops
    for _ in range(60 * n):
        yield "hdr", [o for _ in range(5) for nm in [pick(rng, ["connection", "transfer-encoding", "upgrade", "host", "cookie", "referer", "user-agent"])] for o in (low(nm, B(part(rng, VC) if rng.random() < .5 else twice(rng, [t + pick(rng, [",", ", ", ";", " "]) for t in hdr.TOK], 1))), q)]
    for k in KS: yield "hdr", [o for t in ("0" * k + "7", "7" + "0" * k, "-" * k + "1", " " * k + "1", "1" * k, "9" * k, "1" + " " * k) for o in (low("content-length", B(t)), q)]

# ---- HPACK ----
def long_decode(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(40 * n):
        fm, ops = family(rng, NM), []
        fv = family(rng, pick(rng, [VC, list(range(256))]))
        for _ in range(4):
            b = []
            for _ in range(5):
                v = pick(rng, fv); nm = pick(rng, fm)
                sv = hp.st(v) if len(v) < 127 and rng.random() < .5 else hp.ienc(len(v), 7, 0) + v if rng.random() < .5 else hp.ienc(len(hp.huff(v)), 7, 128) + hp.huff(v)
                sn = hp.ienc(len(nm), 7, 0) + nm if rng.random() < .5 else hp.ienc(len(hp.huff(nm)), 7, 128) + hp.huff(nm)
                b += pick(rng, [[64] + sn + sv, [64] + sn + sv, [0] + sn + sv, hp.ienc(pick(rng, [62, 63, 64, 65]), 7, 128), hp.ienc(pick(rng, [62, 63]), 6, 64) + sv, [16] + sn + sv])
            ops.append(hp.dec(b))
        yield "hp", ops
def long_sync(rng, tier):
    n = 6 if tier == "thorough" else 1
    def ed(hs, form=0): return {"op": "encdec", "hs": hs, "form": form}
    for l in LENS:
        for _ in range(2 * n):
            form = rng.randrange(3)
            fv = family(rng, pick(rng, [VC, list(range(256))]), l)
            nm = pick(rng, hp.NAMES + [pick(rng, hp.STATIC)[0]])
            for hs in ([[nm, v] for v in fv], [[v, B("x")] for v in family(rng, NM, l)], [[v, pick(rng, fv)] for v in family(rng, NM, l)]):
                ops = [ed([h], form) for h in hs]
                rng.shuffle(ops)
                yield "hp", ([{"op": "resize", "who": "both", "n": pick(rng, [200, 400, 1000])}] if rng.random() < .4 else []) + [ed(hs, form)] + ops + [ed(hs[::-1], form)]
    for _ in range(25 * n):
        yield "hp", [ed([[B(pick(rng, ["a", "cookie", "x-q"])), B(part(rng, VC))] for _ in range(4)], rng.randrange(3)) for _ in range(3)]
    for k in KS: yield "hp", [ed([[B("a"), B("b")]] * k + [[B("a"), B("c")]]), ed([[B("a"), B("c")]] * k + [[B("a"), B("b")]]), ed([[B("n%d" % j), B("v")] for j in range(k)] * 2)]
def long_table(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(50 * n):
        fm, fv = family(rng, NM), family(rng, VC)
        ops = [{"op": "tresize", "n": pick(rng, [200, 500, 1000, 4096])}] if rng.random() < .5 else []
        for _ in range(4): ops += [{"op": "tadd", "n": pick(rng, fm), "v": pick(rng, fv), "form": rng.randrange(3)}, {"op": "tfind", "n": pick(rng, fm), "v": pick(rng, fv), "form": rng.randrange(3)}, {"op": "tget", "i": pick(rng, [62, 63, 64, 65])}]
        ops += [{"op": "tfind", "n": fm[0], "v": v, "form": 0} for v in fv] + [{"op": "tfind", "n": nm, "v": fv[0], "form": 0} for nm in fm]
        yield "hp", ops
def long_huffman(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(4 * n):
        a = list(range(256)); rng.shuffle(a); b = a[:]; rng.shuffle(b)
        yield "hp", [{"op": "henc", "b": a + b}, {"op": "hdec", "b": hp.huff(a + b)}]
    for c in (0, 48, 97, 92, 10, 255, 249):
        yield "hp", [o for k in KS for x in ([c] * k, [97] * k + [c], [c] + [97] * k) for o in ({"op": "henc", "b": x}, {"op": "hdec", "b": hp.huff(x)})]
    for _ in range(30 * n):
        f = family(rng, pick(rng, [VC, list(range(256))]))
        yield "hp", [o for x in f for o in ({"op": "henc", "b": x}, {"op": "hdec", "b": hp.huff(x)})]

# ---- HTTP/2 ----
def long_messages(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(40 * n):
        f = [[pick(rng, [B("x-q"), B("cookie"), B("accept")]), v] for v in family(rng, VC)] if rng.random() < .5 else [[v, B("x")] for v in family(rng, NM)]
        o = h2.xreq(rng) if rng.random() < .6 else h2.xresp(rng)
        o = dict(o, hs=some(rng, f, 4), max=h2.HUGE)
        if o["op"] == "xreq":
            if o["form"] == 1: o["url"] = B(pick(rng, ["http://h", "https://h:444", ""]) + target(rng))
            else: o["pa"] = [B(target(rng))]
        yield "h2", [o, dict(o, hs=some(rng, f, 4)), dict(o, hs=some(rng, f, 8))]
    for k in KS:
        yield "h2", [dict(h2.xreq(rng), hs=[[B("a"), B("b" * k)]], max=h2.HUGE), dict(h2.xresp(rng), hs=[[B("a%d" % j), B("b")] for j in range(k)], max=h2.HUGE), dict(h2.xresp(rng), body=[7] * k, max=h2.HUGE)]
    for sc in SCHEMES[:-1]:
        yield "h2", [dict(h2.xreq(rng), form=f, max=h2.HUGE, url=B("%s://%s:%d/x" % (sc, h, p)), sc=[B(sc)], au=[B("%s:%d" % (h, p))], pa=[B("/x")]) for p in PORTS for f in (0, 1) for h in ("h", "[::1]") if h == "h" or rng.random() < .3]
def long_frames(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(40 * n):
        live = [] if rng.random() < .6 else None
        f = [[pick(rng, [B("x-q"), B("cookie")]), v] for v in family(rng, VC)] if rng.random() < .5 else [[v, B("x")] for v in family(rng, NM)]
        b = []
        for _ in range(4):
            blk = h2.block(rng, h2.pseudo(rng) + some(rng, f, 4), live); ps = h2.split(rng, blk, pick(rng, [0, 0, 1, 3, 8]))
            b += h2.fr(h2.HEADERS, 4 if len(ps) == 1 else 0, 5, ps[0])
            for k, p in enumerate(ps[1:]): b += h2.fr(h2.CONT, 4 if k == len(ps) - 2 else 0, 5, p)
        yield "h2", [h2.rd(b)]
    for k in KS:
        # many continuations, many settings, long padding
        blk = h2.block(rng, h2.pseudo(rng, "resp") + [[B("a%d" % j), B("b")] for j in range(k)])
        ps = h2.split(rng, blk, k)
        b = h2.fr(h2.HEADERS, 4 if len(ps) == 1 else 0, 5, ps[0])
        for j, p in enumerate(ps[1:]): b += h2.fr(h2.CONT, 4 if j == len(ps) - 2 else 0, 5, p)
        yield "h2", [h2.rd(b), h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, 3, 0, 0, 0, 1] * k)), h2.rd(h2.fr(h2.DATA, 8, 1, [k] + [1, 2] + [0] * k)), h2.rd(h2.fr(h2.PING, 0, 0, [k] * 8) * k), h2.rd(h2.fr(h2.GOAWAY, 0, 0, [0, 0, 0, 1, 0, 0, 0, 2] + [k] * k))]
def long_fragment(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(30 * n):
        m = pick(rng, [16, 17, 40])
        f = family(rng, VC)
        yield "h2", [h2.enc(h2.F("headers", sid=3, fl=pick(rng, [0, 1, 8, 9]), hs=[[B("x-q"), v] for v in some(rng, f, 4)]), m) for _ in range(3)] + [h2.enc(h2.F("data", sid=3, fl=pick(rng, [0, 1]), p=v), m) for v in some(rng, f, 4)]
    for k in range(0, 40): yield "h2", [h2.enc(h2.F("data", sid=1, fl=1, p=[k] * (16 * k)), 16), h2.enc(h2.F("headers", sid=1, fl=1, hs=[[B("a%d" % j), B("b" * j)] for j in range(k)]), 16), h2.enc(h2.F("push", sid=1, fl=4, id=2, hs=[[B("a%d" % j), B("b" * j)] for j in range(k)]), 20)]

# ---- WebSocket ----
def long_ws(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(30 * n):
        d = list(range(256)); rng.shuffle(d); d = d[:pick(rng, [40, 125, 126, 127, 200, 256])]
        m = pick(rng, [[], rbytes(rng, 4), [0, 0, 0, 1], [255] * 4])
        w = ws.header(pick(rng, [0x81, 0x82, 1, 2]), len(d), m) + ws.xor(m, d)
        yield "ws", [{"op": "wr", "fin": 1, "rsv": [0, 0, 0], "opc": 2, "data": d, "mask": m}, ws.rd(w), ws.rd(w + w), ws.rd(w[:-1]), ws.hd(w)] + [ws.rd(ws.header(0x82, len(x), m) + ws.xor(m, x)) for x in family(rng, list(range(256)))]
    for k in list(range(0, 130)) if tier == "thorough" else list(range(0, 70, 3)) + [124, 125, 126, 127]:
        for m in ([1, 2, 3, 4], []): yield "ws", [{"op": "wr", "fin": 1, "rsv": [0, 0, 0], "opc": 1, "data": [97] * k, "mask": m}, ws.rd(ws.header(0x81, k, m) + ws.xor(m, [97] * k)), ws.rd(ws.header(0x81, k, m) + ws.xor(m, [97] * k), k), ws.rd(ws.header(0x89, k, m) + ws.xor(m, [97] * k), max(0, k - 1))]
def utext(rng): return "".join(pick(rng, ["é", "€", "\U0001F600", "a", "\x00", "\x7f", "߿", "ࠀ", "￿", "\U00010000", "\u2028", "\ufeff"]) for _ in range(rng.randrange(1, 40)))
def long_assembly(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(60 * n):
        d = B(utext(rng)); ps = h2.split(rng, d, pick(rng, [0, 1, 3, 8, 20]))
        if rng.random() < .3: ps.insert(rng.randrange(len(ps) + 1), [])
        if rng.random() < .2: k = rng.randrange(len(ps)); ps[k] = ps[k] + pick(rng, ws.BADUTF)
        o = pick(rng, [1, 1, 2])
        yield "ws", [{"op": "asm", "frames": [ws.fr(1 if k == len(ps) - 1 else 0, o if k == 0 else 0, p) for k, p in enumerate(ps)]}]
    for k in KS: yield "ws", [{"op": "asm", "frames": [ws.fr(0, o, z)] + [ws.fr(0, 0, z)] * k + [ws.fr(1, 0, [33])]} for o in (1, 2) for z in ([], [97])]
def long_wsmsg(rng, tier):
    n = 6 if tier == "thorough" else 1
    def m(kind, d, code=None): return {"kind": kind, "data": d, "hascode": int(code is not None), "code": code or 0}
    for _ in range(50 * n):
        d = B(utext(rng)); mask = pick(rng, [[], rbytes(rng, 4)])
        yield "ws", [dict(m("text", d), op="msg", api=pick(rng, ["owned", "borrowed", "conv"]), mask=mask), dict(m("binary", d), op="msg", api=pick(rng, ["owned", "borrowed", "conv"]), mask=mask), dict(m("close", B("r" * pick(rng, [0, 1, 60, 122, 123])), 1000), op="msg", api="owned", mask=mask)]
        ops = []
        for x in some(rng, family(rng, VC), 5): ops.append(dict(m(pick(rng, ["text", "binary"]), x), op="txm", mask=pick(rng, [[], rbytes(rng, 4)])))
        for _ in range(8): ops += [{"op": "mv", "n": pick(rng, [1, 3, 20, 100])}, {"op": "rx"}]
        yield "ws", ops + [{"op": "mv", "n": 100000}] + [{"op": "rx"}, {"op": "take"}] * 6

# ---- messages as values, writers, octets ----
FN = ["Host", ":authority", "Referer", "Origin", "Cookie", "Date", "Accept", "Upgrade", "Content-Length", "Content-Type", "User-Agent", "Server", "Connection", "Transfer-Encoding", "X-Forwarded-For", "host2", "hos", "Via"]
def long_builders(rng, tier):
    n = 6 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for a in FN:
            for b in some(rng, FN, 3): yield "msg", [msg.new(rng, kind), {"op": "header", "k": B(a), "v": B("h9"), "as": rng.randrange(3)}] + ([{"op": "url", "v": B("http://q:8/x"), "as": 0}] if kind == "req" else []) + [{"op": "header", "k": B(b), "v": B("5"), "as": 0}, {"op": "body", "b": B("x"), "str": rng.randrange(3)}]
        for _ in range(40 * n):
            f = family(rng, pick(rng, [VC[1:], NM])); calls = [{"op": "header", "k": B("x-q"), "v": v, "as": 0} for v in some(rng, f, 3)] + [{"op": "header", "k": nm, "v": B("v"), "as": 0} for nm in some(rng, family(rng, NM), 4)]
            if kind == "req": calls.append({"op": "url", "v": B(rich_url(rng)), "as": rng.randrange(4)})
            rng.shuffle(calls)
            yield "msg", [msg.new(rng, kind)] + calls + [{"op": "body", "b": B(part(rng, VC)), "str": rng.randrange(3)}, {"op": "write"}]
        for k in KS: yield "msg", [msg.new(rng, kind)] + [{"op": "header", "k": B("n%d" % (j % 9)), "v": B(str(j)), "as": 0} for j in range(k)] + [{"op": "body", "b": B("x" * k), "str": k % 3}, {"op": "write"}]
def long_values(rng, tier):
    n = 6 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for a in FN:
            yield "msg", [{"op": "plain", "kind": kind, "how": rng.randrange(4), "b": B("x")}, {"op": "hset", "k": B(a), "v": B("v"), "as": rng.randrange(2)}, {"op": "seturl", "calls": [{"c": "domain", "v": B("h")}, {"c": "scheme", "v": B("http")}, {"c": "port", "n": 81}]}, {"op": "hrem", "k": B(pick(rng, FN))}, {"op": "seturl", "calls": msg.uval(rng)}, {"op": "copy", "b": B("y")}]
            yield "msg", msg.chain(rng, kind, 2, True) + [{"op": "header", "k": B(a), "v": B("v"), "as": 0}, msg.body(rng)] + [msg.mop(rng, kind) for _ in range(6)]
        for _ in range(40 * n):
            ops = [{"op": "plain", "kind": kind, "how": rng.randrange(4), "b": B(part(rng, VC))}]
            fm, fv = family(rng, NM), family(rng, VC[1:])
            for _ in range(8):
                k = rng.randrange(6)
                ops.append({"op": "hset", "k": pick(rng, fm), "v": pick(rng, fv), "as": rng.randrange(2)} if k < 3 else {"op": "hrem", "k": pick(rng, fm)} if k == 3 else {"op": "bset", "b": B(part(rng, VC)), "as": rng.randrange(3)} if k == 4 else msg.mop(rng, kind))
            yield "msg", ops + [{"op": "write"}]
def long_out(rng, tier):
    n = 6 if tier == "thorough" else 1
    for _ in range(50 * n):
        fm, fv = family(rng, NM), family(rng, VC)
        hs = [[pick(rng, fm), pick(rng, fv)]] + [[B("z"), B(part(rng, VC))]]
        yield "out", [out.w(rng, k, hs=hs) for k in ("map", "req", "resph", "reqh", "resp")] + [out.w(rng, "chunk", b=pick(rng, fv)), out.w(rng, "hn", b=pick(rng, fm)), out.w(rng, "hv", b=pick(rng, fv))]
        yield "out", [out.w(rng, "mask", ps=[rbytes(rng, rng.randrange(10)) for _ in range(pick(rng, [1, 5, 20]))]), out.w(rng, "mask", ps=[rbytes(rng, pick(rng, [63, 64, 65, 130]))])]
    for k in KS: yield "out", [out.w(rng, "chunk", b=[97] * k, times=1), out.w(rng, "lit", b=[97] * k), out.w(rng, "vec", b=[255] * k), out.w(rng, "map", hs=[[B("n%d" % j), B("v")] for j in range(k)]), out.w(rng, "bin", b=[1] * k, skip=k // 2)]
def long_octets(rng, tier):
    n = 6 if tier == "thorough" else 1
    C = lambda a, b: {"op": "cmp", "a": a, "b": b}
    for l in LENS:
        for al in (VC, list(range(256)), ["a", "A"]):
            f = family(rng, al, l)
            yield "oct", [C(f[0], x) for x in f + [octs.swap(f[0])]] + [C(x, f[0][:3]) for x in f] + [C(f[0], f[0][-5:])]
    for _ in range(3 * n):
        d = list(range(256)); rng.shuffle(d)
        yield "oct", [{"op": "unhex", "b": octs.hexed(rng, d)}]
def long_sizes(rng, tier):
    """C19: settings in every order and number"""
    import base64
    n = 6 if tier == "thorough" else 1
    for _ in range(40 * n):
        ids = [1, 2, 3, 4, 5, 6, 8, 7, 9, 255]; rng.shuffle(ids); jds = ids[:]; rng.shuffle(jds)
        p = []
        for i in ids + jds[:rng.randrange(11)]: p += [0, i] + be4(pick(rng, h2.SET.get(i, [0, 5])))
        yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, p)), {"op": "b64", "b": list(base64.urlsafe_b64encode(bytes(p)).rstrip(b"="))}]
    for k in KS:
        p = [0, 3, 0, 0, 0, 1] * k
        yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, p)), {"op": "b64", "b": list(base64.urlsafe_b64encode(bytes(p)).rstrip(b"="))}, h2.rd(h2.fr(h2.SETTINGS, 0, 0, p + [0, 2, 0, 0, 0, 2])), h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, 9, 0, 0, 0, k] * k + [0, 4, 0, 0, 0, k]))]
