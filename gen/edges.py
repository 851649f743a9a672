"""One part of an input made very large while the rest stays small: every part in turn, at sizes around the powers of two
and the round numbers. What the code does must not depend on how large a part is."""
from .util import *
from . import http1, url, hdr, hp, h2, ws, msg, out, octs, ext
NEAR = [99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513]
FAR = [999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8192, 8193, 10001, 16384, 16385, 20000]
FORCED = []
def sizes(rng, tier, far=3, most=20000):
    if FORCED: return FORCED[:]
    return NEAR + [x for x in (FAR if tier == "thorough" else some(rng, FAR[:-4], far) + [4097, 16385]) if x <= most]
def groups(xs, k):
    for j in range(0, len(xs), k): yield xs[j:j + k]
def texts(rng, n, xs=b"abcxyz019-"):
    """two texts of n octets that differ in the last one, a third in the middle"""
    b = [pick(rng, xs) for _ in range(n)]; c = b[:]; c[-1] = xs[0] if b[-1] != xs[0] else xs[1]; d = b[:]; d[n // 2] = xs[0] if b[n // 2] != xs[0] else xs[1]
    return b, c, d
def s_(b): return bytes(b).decode()

# ---- heads: which part is large ----
def heads(rng, kind, n):
    t = s_(texts(rng, n)[0]); F = [("a", "b")]
    if kind == "req":
        G = lambda tg, fs=F, m="GET", sep=None: http1.text([m, tg, "HTTP/1.1"], fs, sep)
        yield G("/" + t)
        yield G("/?" + t)
        yield G("/" + "%41" * (n // 3 + 1) + "?" + "&" * n)
        yield G("http://" + t + ":81/")
        yield G("http://u:" + t + "@h/")
        yield G("http://" + t + ":p@h/")
        yield G("/", [("Host", t + ":82")])
        yield G(t + ":83", F, "CONNECT")
        yield B("GET") + [32] * n + B("/ HTTP/1.1\r\n\r\n")
        yield B("GET /") + [32] * n + B("HTTP/1.1\r\n\r\n")
    else:
        G = lambda tg, fs=F: http1.text(["HTTP/1.1", "200", tg], fs)
        yield G(t)
        yield G("x" * n + " y")
        yield B("HTTP/1.1") + [32] * n + B("200 OK\r\n\r\n")
        yield B("HTTP/1.1 200") + [32] * n + B("OK\r\n\r\n")
    z = "/" if kind == "req" else "OK"
    yield G(z, [("n" + t, "v")])
    yield G(z, [("n", t)])
    yield G(z, [("n", t), ("N", "w"), ("m", t[::-1])])
    yield G(z, [("n" + t, "1"), ("N" + t.upper(), "2"), ("n" + t[:-1] + "~", "3")])
    if n <= 600: yield G(z, [("f%d" % j, str(j)) for j in range(n)])
    if n <= 600: yield G(z, [("f%d" % (j % 7), str(j)) for j in range(n)])
    yield G(z, [("n", "a" + " " * n + "b")])
    yield http1.text([*(["GET", "/", "HTTP/1.1"] if kind == "req" else ["HTTP/1.1", "200", "OK"])], [])[:-2] + B("n:") + [32] * n + B("v") + [32] * n + [13, 10, 13, 10]
def bodyhead(kind, fs): return http1.text(["GET", "/", "HTTP/1.1"] if kind == "req" else ["HTTP/1.1", "200", "OK"], fs)
def big_whole(kind):
    def g(rng, tier):
        for n in sizes(rng, tier, 2):
            hs = list(heads(rng, kind, n))
            for x in groups(hs, 5): yield "http1", [http1.obj(kind)] + [http1.parse(b) if rng.random() < .6 else {"op": "pbuf", "b": b + pick(rng, http1.JUNK), "form": rng.randrange(2)} for b in x]
    g.__name__ = "long_edges_" + kind
    return g
def big_segments(rng, tier):
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 1, 4100):
            for x in groups(list(heads(rng, kind, n)), 5):
                ops = [http1.obj(kind)]
                for b in x: ops += [http1.feed(p) for p in http1.pieces(rng, b, pick(rng, [1, 2]))] + [{"op": "next"}]
                yield "http1", ops
def big_roundtrip(rng, tier):
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 2):
            for x in groups(list(heads(rng, kind, n)), 5): yield "http1", [http1.obj(kind)] + [o for b in x for o in (http1.parse(b), {"op": "ser", "body": [pick(rng, range(256))] * pick(rng, [0, n])})]
def big_reuse(rng, tier):
    small = {"req": B("GET /s HTTP/1.0\r\nQ: 1\r\n\r\n"), "resp": B("HTTP/1.0 404 No\r\nQ: 1\r\n\r\n")}
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 1, 4100):
            hs = list(heads(rng, kind, n)); rng.shuffle(hs)
            for x in groups(hs, 4):
                ops = [http1.obj(kind)]
                for b in x: ops += [http1.parse(b if rng.random() < .7 else b[:-rng.randrange(1, 5)]), http1.parse(small[kind])]
                yield "http1", ops
def big_streams(rng, tier):
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 3):
            d = rbytes(rng, n); cl = bodyhead(kind, [("Content-Length", str(n))]) + d; e = bodyhead(kind, [("E", "1")])
            ck = bodyhead(kind, [("Transfer-Encoding", "chunked")]) + B("%x\r\n" % n) + d + B("\r\n0\r\n\r\n")
            long_ = pick(rng, list(heads(rng, kind, n)))
            yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, cl + e + ck + e, pick(rng, [0, 1, 4]))]
            if n < 5000: yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, long_ + ck + cl, pick(rng, [0, 1, 4]))]
def big_chunks(rng, tier):
    for n in sizes(rng, tier, 4):
        d = rbytes(rng, n); x = B("%x\r\n" % n) + d + [13, 10]
        yield "http1", [{"op": "cdec", "b": b, "form": rng.randrange(2)} for b in (x, x + d[:5], x[:-1], x[:-2], x[:-2] + [13, 13], B("%x\r\n" % (n + 1)) + d + [13, 10], B("%x\r\n" % (n - 1)) + d + [13, 10], B("%x;" % n) + [97] * n + [13, 10] + d + [13, 10])] + [{"op": "cbig", "n": n}]

# ---- field collection ----
def big_collection(rng, tier):
    for n in sizes(rng, tier, 3):
        a, b, c = texts(rng, n, b"abcXYZ019-"); U = octs.swap(a)
        for x, y, z in ((a, b, U), (a, c, U), (b, a, octs.swap(b))):
            yield "hdr", [hdr.put(rng, "ins", x, B("1")), hdr.put(rng, "ins", z, B("2")), hdr.put(rng, "push", x, B("3")), hdr.put(rng, "ins", y, B("4")), dict(hdr.lookup(rng, z), op="get"), dict(hdr.lookup(rng, y), op="get"), {"op": "mut", "n": z, "v": B("5"), "vform": 0, "how": rng.randrange(4)}, {"op": "show"},
                          dict(hdr.lookup(rng, x), op="rem"), dict(hdr.lookup(rng, y), op="cont", v=B("4")), hdr.put(rng, "ins", z, B("6")), {"op": "show"}]
        v, w, u = texts(rng, n, bytes(range(32, 127))); k = B("k")
        yield "hdr", [hdr.put(rng, "ins", k, v), dict(hdr.lookup(rng, k), op="get"), dict(hdr.lookup(rng, k), op="cont", v=v[-9:]), dict(hdr.lookup(rng, k), op="cont", v=w), hdr.put(rng, "push", k, w), hdr.put(rng, "push", k, B("t")), dict(hdr.lookup(rng, k), op="cont", v=w), dict(hdr.lookup(rng, k), op="cont", v=u), {"op": "show"}, hdr.put(rng, "ins", k, B("s")), {"op": "show"}]
        yield "hdr", [{"op": "name", "a": a, "af": rng.randrange(3), "b": y, "bf": rng.randrange(3)} for y in (a, b, c, U, a[:-1], a + a[-1:])] + [{"op": "value", "a": v, "af": pick(rng, [0, 2]), "b": y, "bf": pick(rng, [0, 2])} for y in (v, w, u, v[:-1], v + v[-1:])]
    for n in [127, 128, 129, 255, 256, 257, 300, 513] + ([1025, 2049] if tier == "thorough" else []):
        yield "hdr", [hdr.put(rng, "ins", B("n%d" % j), B(str(j))) for j in range(n)] + [{"op": "show"}] + [o for j in (0, 1, n // 2, n - 2, n - 1) for o in (dict(hdr.lookup(rng, B("N%d" % j)), op="get"), hdr.put(rng, "ins", B("N%d" % j), B("x")), dict(hdr.lookup(rng, B("n%d" % j)), op="rem"))] + [{"op": "show"}, {"op": "clear"}, {"op": "show"}]
        yield "hdr", [hdr.put(rng, "push", B("p"), B(str(j))) for j in range(n)] + [{"op": "show"}]
def big_queries(rng, tier):
    q = {"op": "q"}; low = lambda nm, v: hdr.put(rng, "ins", B(nm), B(v))
    for n in sizes(rng, tier, 3, 4100):
        t = s_(texts(rng, n)[0])
        for nm, tok in (("connection", "keep-alive"), ("connection", "upgrade"), ("transfer-encoding", "chunked")):
            yield "hdr", [low("upgrade", "p")] + [o for v in (t + "," + tok, tok + "," + t, "," * n + tok, tok + " " * n, " " * n + tok, t + tok, tok + t, "x," * n + tok if n < 3000 else tok) for o in (low(nm, v), q)]
        yield "hdr", [o for nm in ("host", "cookie", "referer", "user-agent", "upgrade") for o in (low(nm, t),)] + [low("connection", "upgrade"), q, low("content-length", "0" * n + "5"), q, low("content-length", "1" + "0" * n), q, {"op": "show"}]

# ---- URLs ----
def big_url(rng, tier):
    for n in sizes(rng, tier, 3):
        t, u, _ = map(s_, texts(rng, n)); h = n // 3 + 1
        for x in groups(["/" + t, "/?" + t, "/x?" + t + "?" + u, "/" + "%41" * h, "/" + "%c3%a9" * h, "/" + t + "%4", "/" + t + "%zz", "/" + t + "%ff", "http://" + t, "http://" + t + "/", "http://" + t + ":81/x", "http://" + t + ":p@h", "http://u:" + t + "@h/", "http://u:p@" + t + "/" + u, "http://h?" + t, "http://h:" + "0" * n + "80", "http://h:80" + "0" * n, t.replace("-", "x") + "://h",
                         "http://h/" + "/" * n, "http://h/" + "?" * n, "http://h/" + "@:" * h, "http://" + "@" * n, "/" + t + "\x7f", "/" + t + " "], 6): yield "url", [url.P(B(y), rng) for y in x]
def big_format(rng, tier):
    for n in sizes(rng, tier, 3, 10001):
        t, u, _ = map(s_, texts(rng, n)); ch = [t, "é" * (n // 2 + 1), t + "é", "%" * n, t + "%41", "a b" * (n // 3 + 1), t + "/", "+" * n]
        for c in ch: yield "url", [{"op": "enc", "b": B(c)}, {"op": "dec", "b": B(c)}, {"op": "build", "calls": [{"c": "scheme", "v": B(pick(rng, url.SCH))}, {"c": pick(rng, ["path"]), "v": B("/" + c)}, {"c": "domain", "v": B("h")}] + ([{"c": "query", "v": B(c)}] if rng.random() < .5 else [{"c": "username", "v": B(c)}, {"c": "password", "v": B(c[::-1])}])}]
        yield "url", [{"op": "merge", "a": B("http://h/" + t), "b": B("/" + u + "?" + t)}, {"op": "merge", "a": B("http://" + t + "/a?b"), "b": B("/c")}]

# ---- HPACK ----
def lit(rng, s): return (hp.ienc(len(s), 7, 0) + s) if rng.random() < .5 else hp.ienc(len(hp.huff(s)), 7, 128) + hp.huff(s)
def big_decode(rng, tier):
    for n in sizes(rng, tier, 3):
        a, b, c = texts(rng, n); r = rbytes(rng, n)
        for nm, v in ((a, [1]), ([97], a), (b, c), ([98], r)):
            yield "hp", [hp.dec([lead] + lit(rng, nm) + lit(rng, v) + [130, 0xbe]) for lead in (0, 16, 64)] + [hp.dec([0xbe])]
        yield "hp", [hp.dec([64] + lit(rng, [97]) + lit(rng, v) + [0x7e] + lit(rng, [98])) for v in (a, b)] + [hp.dec([0xbe, 0xbf])]
        yield "hp", [hp.dec([0, 1, 97] + hp.ienc(n, 7, 0) + a[:-1]), hp.dec([0, 1, 97] + hp.ienc(n, 7, 128) + hp.huff(a)[:n]), hp.dec([0, 1, 97] + hp.ienc(n, 7, 0) + a + [0, 1])]
        # so many representations in one block; indices that far
        if n <= 2100: yield "hp", [hp.dec([130] * n), hp.dec(([64] + hp.st([97]) + hp.st([98])) * n), hp.dec([0xbe] * n), hp.dec(hp.ienc(n, 7, 128)), hp.dec(hp.ienc(62 + n, 6, 64) + hp.st([98]))]
    for n in [127, 128, 129, 255, 256, 257]:
        yield "hp", [hp.dec([64] + hp.st([]) * 0 + hp.st(B("n")) + hp.st([])) for _ in range(0)] + [hp.dec(sum(([64] + hp.st(B("%x" % j)) + hp.st([]) for j in range(n)), [])), hp.dec(sum((hp.ienc(61 + j, 7, 128) for j in (1, 2, 66, 67, n - 1, n)), [])), hp.dec(hp.ienc(62 + n, 7, 128))]
def big_sync(rng, tier):
    def ed(hs, form): return {"op": "encdec", "hs": hs, "form": form}
    for n in sizes(rng, tier, 3):
        a, b, c = texts(rng, n); f = rng.randrange(3)
        for hs in ([[B("a"), a], [B("a"), b], [B("a"), c]], [[a, B("v")], [b, B("v")], [c, B("v")]], [[a, c], [b, a]]):
            yield "hp", ([{"op": "resize", "who": "both", "n": pick(rng, [0, 200, 4096, 20000, 100000])}] if rng.random() < .5 else []) + [ed(hs, f), ed(hs[::-1], f), ed([[B("z"), B("y")]] + hs[:1], f), ed([[B("z"), B("y")]], f)]
    for n in [127, 128, 129, 255, 256, 257] + ([600, 1000] if tier == "thorough" else []):
        yield "hp", ([{"op": "resize", "who": "both", "n": 100000}] if rng.random() < .5 else []) + [ed([[B("n%d" % j), B("v")] for j in range(n)], 0), ed([[B("n%d" % j), B("v")] for j in (0, 1, n // 2, n - 2, n - 1)], 0), ed([[B("n%d" % (j % 9)), B(str(j % 5))] for j in range(n)], 1)]
def big_table(rng, tier):
    for n in sizes(rng, tier, 3):
        a, b, c = texts(rng, n)
        for m in {n, n + 31, n + 32, n + 33, n + 34, 2 * n + 66, 2 * n + 65, 4096}:
            yield "hp", [{"op": "tresize", "n": m}, {"op": "tadd", "n": B("a"), "v": B("b"), "form": 0}, {"op": "tadd", "n": B("a"), "v": a, "form": rng.randrange(3)}, {"op": "tfind", "n": B("a"), "v": a, "form": rng.randrange(3)}, {"op": "tadd", "n": b, "v": B("a"), "form": rng.randrange(3)}, {"op": "tfind", "n": B("a"), "v": c, "form": 0}, {"op": "tfind", "n": b, "v": B("a"), "form": 0}, {"op": "tget", "i": 62}, {"op": "tget", "i": 63}, {"op": "tget", "i": 64}]
    for n in [127, 128, 129, 255, 256, 257]:
        yield "hp", [{"op": "tresize", "n": 33 * n + pick(rng, [-1, 0, 1, 5000])}] + [{"op": "tadd", "n": [97 + j % 26], "v": [], "form": 0} for j in range(n)] + [{"op": "tget", "i": i} for i in (61, 62, 63, 61 + n - 1, 61 + n, 62 + n)] + [{"op": "tfind", "n": [97 + j], "v": [], "form": 0} for j in range(0, 26, 5)] + [{"op": "tresize", "n": pick(rng, [33, 34, 66, 1000])}, {"op": "tget", "i": 62}]
def big_huffman(rng, tier):
    for n in sizes(rng, tier, 3):
        for x in (texts(rng, n)[0], rbytes(rng, n), [pick(rng, range(256))] * n): yield "hp", [{"op": "henc", "b": x}, {"op": "hdec", "b": hp.huff(x)}, {"op": "hdec", "b": hp.huff(x)[:-1]}, {"op": "hdec", "b": hp.huff(x) + [255]}]

# ---- HTTP/2 ----
def big_frames(rng, tier):
    for n in sizes(rng, tier, 3, 16384):
        d = rbytes(rng, n); p = pick(rng, [1, 255, 100])
        yield "h2", [h2.rd(h2.fr(h2.DATA, pick(rng, [0, 1]), 3, d) + h2.fr(h2.PING, 0, 0, [1] * 8)), h2.rd(h2.fr(h2.GOAWAY, 0, 0, [0, 0, 0, 1, 0, 0, 0, 2] + d[:n - 8]) + h2.fr(h2.PING, 1, 0, [1] * 8)), h2.rd(h2.fr(h2.DATA, 8, 1, [min(p, n - 2)] + d[:n - 1 - min(p, n - 2)] + [0] * min(p, n - 2)))]
        blk = h2.block(rng, h2.pseudo(rng, "resp") + [[B("x-q"), texts(rng, n)[0]], [texts(rng, 1 + n // 2)[0], B("v")]])
        ps = h2.split(rng, blk, pick(rng, [0, 1, 3]))
        b = h2.fr(h2.HEADERS, 4 if len(ps) == 1 else 0, 5, ps[0])
        for j, x in enumerate(ps[1:]): b += h2.fr(h2.CONT, 4 if j == len(ps) - 2 else 0, 5, x)
        yield "h2", [h2.rd(b + h2.fr(h2.PING, 0, 0, [2] * 8))]
        yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, 9, 0, 0, 0, 1] * (n // 6) + [0, 4, 0, 0, 0, 9])), h2.rd(h2.fr(h2.WINDOW if hasattr(h2, "WINDOW") else 8, 0, 1, [0, 0, 0, 1]) * (n // 6))]
def big_fragment(rng, tier):
    for n in sizes(rng, tier, 3):
        for m in (n - 1, n, n + 1, 16384):
            yield "h2", [h2.enc(h2.F("data", sid=3, fl=pick(rng, [0, 1, 8, 9]), p=rbytes(rng, k)), m) for k in {n, 2 * n, 2 * n + 1}] + [h2.enc(h2.F("headers", sid=3, fl=pick(rng, [0, 1]), hs=[[B("x-q"), texts(rng, n)[0]], [B("z"), B("1")]]), m)]
def big_messages(rng, tier):
    for n in sizes(rng, tier, 2, 10001):
        a, b, c = texts(rng, n)
        for hs in ([[B("x-q"), a], [B("x-r"), b]], [[a, B("1")], [b, B("2")]]):
            o = pick(rng, [h2.xreq, h2.xresp])(rng); yield "h2", [dict(o, hs=hs, max=h2.HUGE), dict(o, hs=hs[::-1], body=c, max=h2.HUGE), dict(o, hs=hs, max=h2.lsize(hs))]
        o = dict(h2.xreq(rng), max=h2.HUGE, hs=[])
        yield "h2", [dict(o, form=0, sc=[B("http")], au=[B("h")], pa=[B("/") + a]), dict(o, form=0, sc=[B("https")], au=[a], pa=[B("/?") + b]), dict(o, form=1, url=B("http://h:81/") + a), dict(o, form=1, url=B("http://" + s_(a) + "/?") + b), dict(h2.xresp(rng), body=rbytes(rng, n), max=h2.HUGE)]

# ---- WebSocket ----
def big_ws(rng, tier):
    for n in sizes(rng, tier, 4) + [65534, 65535, 65536, 65537] + ([131072] if tier == "thorough" else []):
        d = rbytes(rng, n); m = pick(rng, [[], rbytes(rng, 4)])
        yield "ws", [{"op": "wr", "fin": rng.randrange(2), "rsv": [rng.randrange(2) for _ in range(3)], "opc": pick(rng, [0, 1, 2, 5]), "data": d, "mask": m}]
        yield "ws", [ws.rd(ws.header(0x82, n, m) + ws.xor(m, d), pick(rng, [-1, n, n + 1]))]
        if n < 20000: yield "ws", [ws.rd(ws.header(0x82, n, m) + ws.xor(m, d), n - 1), ws.rd(ws.header(2, n, m) + ws.xor(m, d)[:-1])]
def big_assembly(rng, tier):
    for n in sizes(rng, tier, 3):
        t = B(s_(texts(rng, n)[0]) + "é"); k = rng.randrange(len(t) + 1)
        for o in (1, 2): yield "ws", [{"op": "asm", "frames": [ws.fr(1, o, t)]}, {"op": "asm", "frames": [ws.fr(0, o, t[:k]), ws.fr(1, 0, t[k:])]}, {"op": "asm", "frames": [ws.fr(0, o, t[:-1]), ws.fr(1, 0, t[-1:])]}, {"op": "asm", "frames": [ws.fr(0, o, t[:-1]), ws.fr(1, 0, [])]}, {"op": "asm", "frames": [ws.fr(0, o, t), ws.fr(1, 0, [255])]}]
        if n <= 1100: yield "ws", [{"op": "asm", "frames": [ws.fr(0, 1, [97])] + [ws.fr(0, 0, [98])] * n + [ws.fr(1, 0, [99])]}]
def big_wsmsg(rng, tier):
    for n in sizes(rng, tier, 3) + [65535, 65536]:
        d = texts(rng, n)[0]; mask = pick(rng, [[], rbytes(rng, 4)])
        yield "ws", [{"kind": k, "data": d, "hascode": 0, "code": 0, "op": "msg", "api": pick(rng, ["owned", "borrowed", "conv"]), "mask": mask} for k in some(rng, ["text", "binary"], 1 if n > 60000 else 2)]
        if n < 20000: yield "ws", [{"kind": k, "data": d, "hascode": 0, "code": 0, "op": "txm", "mask": rbytes(rng, 4)} for k in ("text", "binary")] + [{"op": "mv", "n": n}, {"op": "rx"}, {"op": "mv", "n": 100000}, {"op": "rx"}, {"op": "take"}, {"op": "rx"}, {"op": "take"}]

# ---- builders, values, writers, octets ----
def big_builders(rng, tier):
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 2, 10001):
            a, b, c = texts(rng, n)
            calls = [{"op": "header", "k": B("x-q"), "v": a, "as": 0}, {"op": "header", "k": b, "v": B("v"), "as": 0}, {"op": "header", "k": b, "v": B("w"), "as": 1}] + ([{"op": "url", "v": B("http://h/") + c, "as": rng.randrange(4)}] if kind == "req" else [])
            rng.shuffle(calls); yield "msg", [msg.new(rng, kind)] + calls + [{"op": "body", "b": c, "str": rng.randrange(3)}, {"op": "write"}]
def big_values(rng, tier):
    for kind in ("req", "resp"):
        for n in sizes(rng, tier, 2, 10001):
            a, b, c = texts(rng, n)
            yield "msg", [{"op": "plain", "kind": kind, "how": rng.randrange(4), "b": a}, {"op": "hset", "k": B("x-q"), "v": b, "as": 0}, {"op": "hset", "k": c, "v": B("v"), "as": 1}, {"op": "copy", "b": b}, {"op": "hrem", "k": octs.swap(c)}, {"op": "bset", "b": c, "as": rng.randrange(3)}] + [msg.mop(rng, kind) for _ in range(4)] + [{"op": "write"}]
def big_out(rng, tier):
    for n in (15, 16, 255, 256, 4095, 4096, 65535, 65536): yield "out", [out.w(rng, "chunk", b=rbytes(rng, n))]
    for n in sizes(rng, tier, 3, 10001):
        a, b, c = texts(rng, n); r = rbytes(rng, n)
        yield "out", [out.w(rng, "chunk", b=r), out.w(rng, "lit", b=a), out.w(rng, "vec", b=r), out.w(rng, "bin", b=r, skip=pick(rng, [0, 1, n - 1, n])), out.w(rng, "hn", b=b), out.w(rng, "hv", b=c)]
        yield "out", [out.w(rng, k, hs=[[B("x-q"), a], [b, B("v")]]) for k in ("map", "req", "resph", "reqh", "resp")] + [out.w(rng, "mask", ps=[r[:n // 2], r[n // 2:]]), out.w(rng, "mask", ps=[r, [1, 2, 3]])]
def big_octets(rng, tier):
    for n in sizes(rng, tier, 3, 4100):
        a, b, c = texts(rng, n, b"abcXYZ"); C = lambda x, y: {"op": "cmp", "a": x, "b": y}
        yield "oct", [C(a, y) for y in (a, b, c, octs.swap(a), a[:-1], a + a[:1], a[1:], b[1:], a[-7:], c[n // 2:n // 2 + 9], b[-1:], [])] + [C([97] * n + [98], [97] * k + [98]) for k in (0, 1, 5, n // 2, n - 1, n)]
        yield "oct", [{"op": "unhex", "b": octs.hexed(rng, rbytes(rng, n))}]

# ---- beyond sixteen bits ----
def octets_in(x): return sum(octets_in(v) for v in (x.values() if isinstance(x, dict) else x)) if isinstance(x, dict) or (isinstance(x, list) and x and isinstance(x[0], (list, dict))) else len(x) if isinstance(x, list) else 1
def huge(g, quick=2):
    """a few of the generator's scripts with the part grown past 65535 octets"""
    def h(rng, tier):
        FORCED[:] = [pick(rng, [65535, 65536, 65537])]
        try: xs = list(g(rng, "quick"))
        finally: FORCED[:] = []
        xs = [x for x in xs if octets_in(x[1]) > 60000]
        for fam, ops in rng.sample(xs, min(len(xs), quick * (6 if tier == "thorough" else 1))):
            t, keep = 0, []
            for o in ops:
                t += octets_in(o)
                if keep and t > 300000: break
                keep.append(o)
            yield fam, keep
    h.__name__ = "long_huge_" + g.__name__
    return h
