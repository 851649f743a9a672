"""C24 and the long inputs of the other properties"""
from .util import *
from . import http1, url, h2, hp, hdr, ws
def K(dec, pre, unit, post, n): return {"op": "bulk", "dec": dec, "pre": B(pre), "unit": B(unit), "post": B(post), "n": n}
G, R = "GET / HTTP/1.1\r\n", "HTTP/1.1 200 OK\r\n"
# (pre, unit, post): every place where an input can go on and on
LONG = {
    "req": [("", "\r\n", "GET / HTTP/1.1\r\n\r\n"), ("", "A", ""), ("", "A", " / HTTP/1.1\r\n\r\n"), ("GET ", "a", ""), ("GET /", "a", " HTTP/1.1\r\n\r\n"), ("GET /", "%41", " HTTP/1.1\r\n\r\n"), ("GET /?", "&a=b", " HTTP/1.1\r\n\r\n"),
            ("GET /", "/", " HTTP/1.1\r\n\r\n"), ("GET ", "/?", " HTTP/1.1\r\n\r\n"), ("GET", " ", "/ HTTP/1.1\r\n\r\n"), ("GET / ", " ", "HTTP/1.1\r\n\r\n"), ("GET / HTTP/1.", "1", "\r\n\r\n"), ("GET / HTTP", "/", ""),
            (G, "a: b\r\n", "\r\n"), (G, "a: b\r\n", ""), (G + "a", "b", ": c\r\n\r\n"), (G + "a: ", "b", "\r\n\r\n"), (G + "a: ", " ", "b\r\n\r\n"), (G + "a: b", " ", "\r\n\r\n"), (G + "a: ", "\t", "\r\n\r\n"), (G + "a", " ", ": b\r\n\r\n"),
            (G + "a: ", "é", "\r\n\r\n"), (G + "a:", ":", "\r\n\r\n"), (G + "Host: ", "h", "\r\n\r\n"), (G + "Host: ", "h:", "\r\n\r\n"), (G + "Host: h:", "8", "\r\n\r\n"), (G + "Host: h:", "0", "80\r\n\r\n"), (G + "Host: ", "[", "\r\n\r\n"),
            (G + "Content-Length: ", "9", "\r\n\r\n"), (G + "Transfer-Encoding: ", "gzip, ", "chunked\r\n\r\n"), (G + "a: b\r\n\r\n", "x", ""), (G, "\r\n", ""), (G + "a: b", "\r", "\n\r\n"), ("CONNECT ", "h", ":80 HTTP/1.1\r\n\r\n"), ("OPTIONS ", "*", " HTTP/1.1\r\n\r\n"),
            ("GET http://", "h", "/ HTTP/1.1\r\n\r\n"), ("GET http://h:", "0", "1/ HTTP/1.1\r\n\r\n"), ("GET http", "://h", "/ HTTP/1.1\r\n\r\n"), ("GET ", "a", "://h HTTP/1.1\r\n\r\n"), ("GET http://", "@", "/ HTTP/1.1\r\n\r\n"), ("\x00", "\x00", "\x00")],
    "resp": [("", "\n", "HTTP/1.1 200 OK\r\n\r\n"), ("H", "T", ""), ("HTTP/1.1", " ", "200 OK\r\n\r\n"), ("HTTP/1.1 ", "2", "00 OK\r\n\r\n"), ("HTTP/1.1 200 ", "O", "\r\n\r\n"), ("HTTP/1.1 200 ", " ", "\r\n\r\n"), ("HTTP/1.1 200 ", "é", ""), ("HTTP/1.1 ", "0", ""),
             (R, "a: b\r\n", "\r\n"), (R, "a: b\r\n", "\r"), (R + "a: ", "b ", "\r\n\r\n"), (R + "a", "-", ":\r\n\r\n"), (R + "Content-Length: ", "0", "1\r\n\r\n"), (R, "\n", ""), (R, ": \r\n", "\r\n")],
    "url": [("/", "a", ""), ("/", "/", ""), ("/", "%20", ""), ("/", "%c3%a9", ""), ("/", "%", ""), ("/?", "a", ""), ("/?", "?", ""), ("", "a", "://h"), ("", "a:", "//h"), ("http://", "h", ""), ("http://", "a.", "b"), ("http://h:", "0", "80"), ("http://h:", "8", ""), ("http://", "u:", "p@h"),
            ("http://u:p", "@", "h"), ("http://", "%41", "/"), ("http://[", ":", "]"), ("http://", "[", "]"), ("http://h/", "@:", ""), ("http", ":", "//"), ("http:", "/", "h"), ("", "/", ""), ("", "?", ""), ("", " ", ""), ("", "\x00", ""), ("http://h?", "%zz", ""), ("/", "é", "")],
    "pct": [("", "a", ""), ("", "%41", ""), ("", "%", ""), ("", "%4", ""), ("", "+", ""), ("", "%ff", ""), ("", "%c3%a9", "%c3"), ("%", "4", "")],
    "chunk": [("", "0", "\r\n\r\n"), ("", "0", "1\r\na\r\n"), ("", "1", "\r\n"), ("", "f", ""), ("1", ";a", "\r\na\r\n"), ("1;", " ", "\r\na\r\n"), ("1", " ", "\r\na\r\n"), ("1", "\r", "\n"), ("f", "f", "\r\n"), ("5\r\n", "a", ""), ("5\r\nhello\r\n", "x", ""), ("0\r\n", "\r\n", ""), ("", "\r\n", ""), ("", ";", "")],
    "chunks": [("", "1\r\na\r\n", "0\r\n\r\n"), ("", "2;x\r\nab\r\n", "0\r\n\r\nrest"), ("", "1\r\na\r\n", ""), ("", "1\r\na\r\n", "x"), ("", "01\r\na\r\n", "00\r\n\r\n"), ("", "1\r\na\r\n", "5\r\nab"), ("0\r\n\r\n", "1\r\na\r\n", "")],
    "hpack": [("", [130], ""), ([0x40, 1, 97, 1, 98], [0xbe], ""), ("", [0x40, 1, 97, 1, 98], ""), ("", [0, 1, 97, 1, 98], ""), ("", [0x10, 1, 97, 0], ""), ("", [0x20], ""), ("", [0x3f, 0xe1, 0x1f], [130]), ([0xff], [0x80], [1]), ([0xff], [0xff], [1]), ([0xff], [0x80], ""), ([0x7f], [0x80], [0, 0]), ([0x0f], [0xff], ""),
              ([0, 0x7f], [0x80], [0, 97]), ([0, 1, 97, 0x7f], [0xff], ""), ([0, 0xff], [0x80], [1]), ("", [0x41, 0x81, 0x1f], ""), ("", [0x44, 0x81, 0xff], ""), ([0, 1, 97, 0], [0, 0, 0], ""), ([0, 1, 97, 0], [0, 0, 0], [0]), ("", [128], ""), ("", [0xc0], ""), ([0x40, 1, 97, 1, 98] * 2, [0xbe, 0xbf], ""), ([0x3f], [0x80], [0]), ("", [0x40, 0, 0], "")],
    "huff": [("", [0x18, 0xc6, 0x31, 0x8c, 0x63], ""), ("", [0xff], ""), ("", [0] * 5, ""), ([0x1f], [0xff], ""), ("", [0] * 5, [7]), ("", [0xff, 0xff, 0xff, 0xfc], "")],
    "h2": [("", h2.fr(6, 0, 0, [7] * 8), ""), ("", h2.fr(0, 0, 1, []), ""), ("", h2.fr(0, 8, 1, [0]), ""), ("", h2.fr(1, 4, 1, [130]), ""), ("", h2.fr(1, 4, 1, [0x40, 1, 97, 1, 98]), ""), ("", h2.fr(4, 0, 0, []), ""), ("", h2.fr(4, 1, 0, []), ""), ("", h2.fr(8, 0, 1, [0, 0, 0, 1]), ""), ("", h2.fr(2, 0, 1, [0, 0, 0, 2, 1]), ""),
           ("", h2.fr(3, 0, 1, [0, 0, 0, 8]), ""), ("", h2.fr(7, 0, 0, [0] * 8), ""), ("", h2.fr(5, 4, 1, [0, 0, 0, 2, 130]), ""), ("", h2.fr(6, 0, 0, [7] * 8), [0, 0]), ("", h2.fr(6, 0, 0, [7] * 8), h2.fr(6, 0, 0, [7] * 7)), ("", h2.fr(9, 0, 1, []), ""), ("", [0], ""), ("", [255], ""), ("", h2.fr(6, 0, 0, [7] * 8), h2.fr(0, 0, 1, [1] * 4)[:-1])],
    "b64": [("", "AAMAAABk", ""), ("", "AAEAABAA", ""), ("", "AAAAAAAA", ""), ("", "=", ""), ("", "AAAAAAAA", "A"), ("AAMAAABk", "AAkAAAAA", ""), ("", "AAIAAAAC", ""), ("", "________", ""), ("AAMAAABk", "AAYAAAAB", "A")],
    "len": [("", "1", ""), ("", "0", "5"), ("", "0", ""), ("", "-", "1"), ("", " ", "1"), ("1", "0", ""), ("", "9", "x"), ("1", " ", "")],
    "tok": [("", "a,", "chunked"), ("", ",", "chunked"), ("", " ", "chunked"), ("chunked", ",", ""), ("", "chunked", ""), ("chunke", "d", ""), ("", ";", ""), ("", "a, ", "chunked2")],
    "ws": [("", [0x81, 1, 97], ""), ("", [0x82, 0], ""), ("", [0, 0], ""), ("", [0x89, 0], ""), ("", [0x81, 0x81, 1, 2, 3, 4, 97], ""), ("", [0x81, 1, 97], [0x81]), ("", [0x82, 126, 0, 1, 9], ""), ("", [0x8f, 0x7f], ""), ("", [0xff], ""), ("", [0], [1]), ("", [0x02, 2, 1], "")],
    "wsmsg": [([1, 0], [0, 1, 97], [0x80, 0]), ([2, 1, 1], [0, 2, 3, 4], [0x80, 0]), ([1, 0], [0, 2, 0xc3, 0xa9], [0x80, 1, 0xc3]), ([1, 1, 0xe2], [0, 2, 0x82, 0xac, 0, 1, 0xe2], [0x80, 2, 0x82, 0xac]), ([2, 0], [0, 0x81, 1, 2, 3, 4, 97], [0x80, 0]), ("", [0x81, 1, 97], ""), ([2, 0], [0, 0], [0x81, 0]), ([2, 0, 0, 0], [0, 0], [0xc0, 0])],
}
def long(*decs):
    def g(rng, tier):
        ns = [0, 1, 2, 3, 17, 80, 81, 127, 128, 300, 3000, 20000]
        for d in decs:
            for pre, unit, post in LONG[d]:
                for n in (ns + [100000] if tier == "thorough" else [pick(rng, [0, 1, 2, 3]), pick(rng, [17, 41, 127]), 300, 20000]):
                    if len(B(unit)) * n > 400000: n = 400000 // len(B(unit))
                    yield "bulk", [K(d, pre, unit, post, n)]
    g.__name__ = "long_" + "_".join(decs)
    return g
everything_long = long(*LONG)

def junk(rng):
    return rbytes(rng, rng.randrange(40), pick(rng, [None, http1.ALPHA, [0, 255, 127, 128, 1], [255]]))
def spoil(rng, b, alpha=None):
    """a random edit, a cut, or something appended"""
    for _ in range(rng.randrange(3)): b = mutate(rng, b, alpha)
    if rng.random() < .3: b = b[:rng.randrange(len(b) + 1)]
    if rng.random() < .2: b = b + junk(rng)
    return b
NB = [0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff]
def hostile(rng, tier):
    """C24: damaged input of every kind, one after the other, on the same objects"""
    n = 12 if tier == "thorough" else 1
    for _ in range(350 * n):
        kind = pick(rng, ["req", "resp"])
        ops = [http1.obj(kind)]
        for _ in range(pick(rng, [2, 4, 8])):
            b = junk(rng) if rng.random() < .2 else spoil(rng, pick(rng, [http1.head, http1.bad_head, http1.message])(rng, kind), http1.ALPHA)
            r = rng.random()
            if r < .35: ops.append(http1.parse(b))
            elif r < .5: ops.append({"op": "pbuf", "b": b, "form": rng.randrange(2)})
            elif r < .65: ops += [http1.feed(p) for p in http1.pieces(rng, b, 3)]
            elif r < .75: ops += [{"op": "ser", "body": junk(rng)}]
            else: ops += [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, b, 4)] + [http1.obj(kind)]
        yield "http1", ops
    for _ in range(250 * n):
        sizes = ["0", "1", "5", "ff", "ffff", "7fffffff", "80000000", "ffffffff", "7fffffffffffffff", "fffffffffffffff0", "ffffffffffffffff", "fffffffffffffffd", "fffffffffffffffe", "10000000000000000"]
        b = spoil(rng, B(pick(rng, sizes) + pick(rng, ["", ";x", " "]) + "\r\n") + rbytes(rng, rng.randrange(8)) + [13, 10], list(b"0123456789abcdef\r\n; "))
        yield "http1", [{"op": "cdec", "b": b[:k], "form": k % 2} for k in sorted({rng.randrange(len(b) + 1) for _ in range(4)} | {len(b)})]
    for _ in range(250 * n):
        yield "url", [url.P(spoil(rng, B(url.good(rng)), url.ALPHA) if rng.random() < .6 else spoil(rng, url.bad(rng), url.ALPHA) if rng.random() < .8 else junk(rng), rng) for _ in range(5)] + \
            [{"op": "dec", "b": B(url.some(rng, ["%41", "%", "%4", "%zz", "%ff", "é", "€%e2", "%é", "%4é", "a", "%%%"], 6))} for _ in range(2)] + [{"op": "auth", "b": spoil(rng, B(url.good(rng)))}]
    for _ in range(250 * n):
        ops = []
        for _ in range(pick(rng, [1, 3, 6])):
            nm = pick(rng, hdr.QN)
            v = junk(rng) if rng.random() < .4 else spoil(rng, hdr.qval(rng, nm))
            ops += [hdr.put(rng, pick(rng, ["ins", "push"]), B(nm), v), {"op": "q"}, {"op": "show"}, {"op": "value", "a": v, "af": 0, "b": junk(rng), "bf": 0}]
        yield "hdr", ops
    for _ in range(350 * n):
        ops = []
        for _ in range(pick(rng, [2, 5, 10])):
            r = rng.random()
            if r < .15: ops.append({"op": "resize", "who": "dec", "n": pick(rng, [0, 1, 31, 32, 33, 64, 4096, 65536, 1 << 30])})
            elif r < .3: ops.append({"op": "hdec", "b": junk(rng) if rng.random() < .5 else spoil(rng, hp.huff(rbytes(rng, rng.randrange(12))))})
            elif r < .5: ops.append({"op": "dec", "b": junk(rng)})
            else:
                b = h2.block(rng, h2.pseudo(rng) + h2.rfields(rng))
                if rng.random() < .4: b = pick(rng, [[0x3f], [0x20], [0xff], [0x7f], [0x0f], [0x1f]]) + rbytes(rng, rng.randrange(12), NB) + b
                ops.append({"op": "dec", "b": spoil(rng, b, NB)})
        yield "hp", ops
    for _ in range(400 * n):
        ops = []
        for _ in range(pick(rng, [1, 3, 6])):
            r = rng.random()
            if r < .1: ops.append({"op": "hdr", "b": junk(rng)[:12], "form": rng.randrange(2)})
            elif r < .2: ops.append({"op": "b64", "b": B(url.some(rng, ["AAMAAABk", "A", "=", "-", "_", "AAE", " ", "é", "AAIAAAAC", "AAUAAAAA"], 5))})
            elif r < .25: ops.append({"op": "resize", "n": pick(rng, [0, 33, 4096])})
            else:
                b = h2.good(rng) if rng.random() < .5 else h2.bad(rng)
                if rng.random() < .15: b = h2.be3(pick(rng, [0, 1, 16384, 16385, (1 << 24) - 1])) + b[3:]
                ops.append(h2.rd(spoil(rng, b, NB + [4, 8, 12, 32]), pick(rng, [0, 40, 16384, h2.HUGE])))
        yield "h2", ops
    for _ in range(350 * n):
        ops = []
        for _ in range(pick(rng, [1, 3, 5])):
            k = pick(rng, [0, 1, 5, 125])
            l = pick(rng, [k, k, k + 1, 1 << 16, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
            w = ws.header(rng.randrange(256), l, pick(rng, ws.MASKS)) + rbytes(rng, k)
            w = spoil(rng, w, NB + [125, 126])
            r = rng.random()
            if r < .35: ops.append(ws.rd(w, pick(rng, [-1, -1, 0, 125, 65536])))
            elif r < .5: ops.append(ws.hd(w))
            elif r < .7: ops += [{"op": "raw", "b": w}, {"op": "mv", "n": rng.randrange(len(w) + 1)}, {"op": "rx"}, {"op": "mv", "n": 1000}, {"op": "rx"}, {"op": "take"}]
            else: ops.append({"op": "asm", "frames": [ws.fr(rng.randrange(2), pick(rng, [0, 0, 1, 2, 8, rng.randrange(16)]), junk(rng), [pick(rng, [0, 0, 0, 1]) for _ in range(3)]) for _ in range(rng.randrange(4))]})
        yield "ws", ops
