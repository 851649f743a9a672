from .util import *
METHODS = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH"]
BADM = ["get", "Get", "FOO", "GETT", "GE", "PRI", "", "G\x00T", "PROPFIND", "P0ST", "M-SEARCH"]
VERS = ["HTTP/1.0", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1"]
BADV = ["HTTP/1.2", "HTTP/0.9", "HTTP/2", "HTTP/3", "http/1.1", "HTTP/1.", "HTTP/11", "HTTP1.1", "HTTP/1.1x", "", "HTTP/2.0", "HTTP/1.10", "HTTPS/1.1", "HTTP/1,1"]
TARGETS = ["/", "/a", "/a/b/c", "/index.html?x=1&y=2", "/?", "/?a?b", "/a%20b", "/%C3%A9", "/a:b@c", "/a?b=c/d", "//x", "/a//b", "/~u;p=1", "/a?x=%2F%3f", "http://h/", "http://h", "http://h:8080/p?q",
           "https://u:p@h.example/x", "http://h?q", "/a!$&'()*+,=", "/[x]", "/a|b", "/a#f", "http://h:80/", "http://[::1]/x", "http://[::1]:81/"]
BADT = ["", "*", "/%", "/%4", "/%zz", "/a b", "/\x00", "/é", "x", "h:80", "http:/h", "http:///", "http://h:99999/", "http://h:a/", "http://a@b@c/", "http://u@h/", "://h", "/%ff", "/%c3", "%2f", "http://h:/"]
NAMES = ["Host", "host", "HOST", "Accept", "a", "X", "x-y", "Content-Type", "content-type", "Connection", "Cookie", "X-Long-Header-Name-1234567890", "!#$%&'*+-.^_`|~09az", "accept-charset", "etag", "Transfer-Encoding"]
BADN = ["", " a", "a b", "a\x00", "a@b", "a(b", "é", "a\t", "a\x7f", "[", "a/b", "a\"", "a,b", "a{", "a=b"]
VALS = ["", "a", "text/html", "  b  ", "\tc\t", "a b  c", "x, y;q=1", "\"q\"", ":", "a:b", "é", "%00", "0", "keep-alive", "a\tb", ";", "h.example", "h:81", "gzip, chunked", "=?", "~" * 40]
HOSTS = ["h", "h.example", "h:80", "h:8080", "127.0.0.1:65535", "[::1]", "[::1]:443", "H.Example:1"]
BADH = ["", "h:", ":80", "h:65536", "h:x", "h:80:80", "[::1", "[::1]x", "h:-1", "h: 80", "é", "u@h", "h:080"]
REASONS = ["OK", "", "Not Found", "a\tb", "é", "I'm a teapot", " x", "x ", "200", "HTTP/1.1"]
ALPHA = list(b"\r\n \t:/?%@#*,;=.-HTP1aG0\x00\x7f\x80\xff\x01\x0b")

def field(rng):
    n = pick(rng, NAMES) if rng.random() < .85 else "".join(pick(rng, "abcxyzABC019-_!~") for _ in range(rng.randrange(1, 12)))
    if n.lower() == "host": return n, pick(rng, HOSTS) if rng.random() < .9 else pick(rng, VALS)
    if n.lower() == "transfer-encoding": return n, pick(rng, ["chunked", "gzip, chunked", "identity", "Chunked", "xchunked", "gzip"])
    v = pick(rng, VALS) if rng.random() < .8 else "".join(chr(pick(rng, [32, 9, 97, 122, 126, 33, 58, 44, 48])) for _ in range(rng.randrange(0, 20)))
    return n, v
def head_parts(rng, kind, nf=None):
    fs = [field(rng) for _ in range(pick(rng, [0, 0, 1, 1, 2, 3, 5]) if nf is None else nf)]
    if kind == "req":
        m = pick(rng, METHODS)
        t = pick(rng, ["h:80", "h.example:443", "[::1]:8080", "1.2.3.4:1"]) if m == "CONNECT" else "*" if m == "OPTIONS" and rng.random() < .5 else pick(rng, TARGETS)
        if rng.random() < .15 and m != "CONNECT":
            t = "/" + "".join(pick(rng, ["a", "/", "%41", "%2F", "?", "=", "&", ":", "@", ".", "%e2%82%ac", "+", "-"]) for _ in range(rng.randrange(0, 14)))
        return [m, t, pick(rng, VERS)], fs
    return [pick(rng, VERS), str(pick(rng, [200, 404, 100, 999, 204, 301, 500, 418, 101, 599, 200 + rng.randrange(700)])), pick(rng, REASONS)], fs
def text(sl, fs, sep=None):
    b = [B(x) for x in sl]
    out = b[0] + [32] + b[1] + [32] + b[2] + [13, 10]
    for n, v in fs:
        out += B(n) + [58] + B(pick(sep, ["", " ", "  ", "\t"]) if sep else " ") + B(v) + [13, 10]
    return out + [13, 10]
def head(rng, kind, nf=None):
    sl, fs = head_parts(rng, kind, nf)
    return text(sl, fs, rng)
def bad_head(rng, kind):
    """a head with one part replaced by a doubtful one, or a random edit"""
    sl, fs = head_parts(rng, kind)
    k = rng.randrange(12)
    if kind == "req":
        if k == 0: sl[0] = pick(rng, BADM)
        elif k <= 2: sl[1] = pick(rng, BADT)
        elif k == 3: sl[2] = pick(rng, BADV)
    else:
        if k == 0: sl[0] = pick(rng, BADV)
        elif k <= 2: sl[1] = pick(rng, ["", "20", "2000", "099", "000", "20a", "-20", "+20", "1e2", "99", "100 ", "65736", "2 0", "२००"])
        elif k == 3: sl[2] = pick(rng, ["\x00", "a\x7f", "\x01", "\r", "a\rb", "\n", "a\nb"])
    if k == 4: fs.insert(rng.randrange(len(fs) + 1), (pick(rng, BADN), "v"))
    elif k == 5: fs.insert(rng.randrange(len(fs) + 1), ("a", pick(rng, ["\x00", "a\x00b", "a\rb", "a\r", "\r", "a\nb", "\x01", "\x7f", "a\x0bb", "a\r\n b", "\r\n"])))
    elif k == 6: fs.insert(rng.randrange(len(fs) + 1), ("Host", pick(rng, BADH)))
    b = text(sl, fs, rng)
    if k == 7:
        p = [i for i in range(len(b) - 1) if b[i] == 13]
        i = pick(rng, p); b[i:i + 2] = pick(rng, [[10], [13], [13, 13, 10], [10, 13], [13, 120], [13, 32], [32, 13, 10], [13, 0], []])
    elif k == 8: b = pick(rng, [[13, 10], [10], [13], [32], [13, 10, 13, 10], [0]]) + b
    elif k == 9:
        p = [i for i in range(len(b)) if b[i] == 32]
        i = pick(rng, p); b[i:i + 1] = pick(rng, [[32, 32], [], [9], [0], [13, 10], [10], [11]])
    elif k >= 10: b = mutate(rng, b, ALPHA)
    return b
def obj(kind): return {"op": "obj", "kind": kind}
def feed(b): return {"op": "feed", "b": b}
def parse(b): return {"op": "parse", "b": b}
def pieces(rng, b, n):
    out, at = [], 0
    for l in cuts(rng, len(b), n):
        out.append(b[at:at + l]); at += l
    return out
JUNK = [[], [71], B("GET / HTTP/1.1\r\n\r\n"), [0, 255, 13, 10], B("HTTP/1.1 200 OK\r\n\r\n"), [13, 10], [10], [58], [32, 97]]

def segments(rng, tier):
    """C01: heads arriving byte by byte or in arbitrary pieces, with anything behind them"""
    n = 8 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for _ in range(170 * n):
            b = head(rng, kind) if rng.random() < .6 else bad_head(rng, kind)
            yield "http1", [obj(kind)] + [feed([c]) for c in b] + [feed(pick(rng, JUNK)), feed([rng.randrange(256)])]
        for _ in range(700 * n):
            b = head(rng, kind) if rng.random() < .5 else bad_head(rng, kind)
            ops = [obj(kind)]
            for _ in range(3):
                ops += [feed(p) for p in pieces(rng, b + pick(rng, JUNK), pick(rng, [0, 1, 2, 4, 8]))] + [{"op": "next"}]
            yield "http1", ops
        # every single cut of some heads, both sides on one object
        for _ in range(25 * n):
            b = head(rng, kind, 1)
            for k in range(0, len(b), 12):
                ops = [obj(kind)]
                for c in range(k, min(k + 12, len(b))): ops += [feed(b[:c]), feed(b[c:]), {"op": "next"}]
                yield "http1", ops
def whole(kind):
    def g(rng, tier):
        n = 10 if tier == "thorough" else 1
        for _ in range(450 * n):
            ops = []
            for _ in range(5):
                b = head(rng, kind) if rng.random() < .35 else bad_head(rng, kind)
                b = b + pick(rng, JUNK) if rng.random() < .5 else b
                ops += [obj(kind), parse(b) if rng.random() < .6 else {"op": "pbuf", "b": b, "form": rng.randrange(2)}]
            yield "http1", ops
        # every byte value at every interesting place
        base = {"req": [["GET", "/a?b", "HTTP/1.1"], [("Host", "h"), ("ab", "cd")]], "resp": [["HTTP/1.1", "404", "Not it"], [("Host", "h"), ("ab", "cd")]]}[kind]
        b = text(*base)
        for p in range(len(b)):
            alts = range(256) if tier == "thorough" else sorted({0, 1, 9, 10, 13, 11, 32, 33, 34, 37, 47, 58, 63, 64, 65, 48, 57, 91, 97, 123, 126, 127, 128, 255, rng.randrange(256)})
            ops = []
            for c in alts:
                ops.append(parse(b[:p] + [c] + b[p + 1:]))
                if rng.random() < .3: ops.append(parse(b[:p] + [c] + b[p:]))
            ops += [parse(b[:p]), parse(b[:p] + b[p + 1:])]
            for k in range(0, len(ops), 8): yield "http1", [obj(kind)] + ops[k:k + 8]
        # alternatives of each part
        if kind == "req":
            alt = [[text([m, "/", "HTTP/1.1"], []) for m in METHODS + BADM], [text(["GET", t, "HTTP/1.1"], [("Host", "h:81")]) for t in TARGETS + BADT],
                   [text(["OPTIONS", t, "HTTP/1.1"], []) for t in TARGETS + BADT], [text(["CONNECT", t, "HTTP/1.1"], [("Host", "x")]) for t in TARGETS + BADT + HOSTS + BADH],
                   [text(["GET", "/", v], []) for v in VERS + BADV], [text(["GET", "/", "HTTP/1.1"], [("Host", h)]) for h in HOSTS + BADH + VALS]]
        else:
            alt = [[text([v, "200", "OK"], []) for v in VERS + BADV], [text(["HTTP/1.1", str(s), ""], []) for s in (range(0, 1100) if tier == "thorough" else range(90, 1010, 7))],
                   [text(["HTTP/1.1", "200", r], []) for r in REASONS], [B("HTTP/1.1 200" + x) for x in ("\r\n\r\n", "\n\n", " \r\n\r\n", "\t\r\n\r\n", "OK\r\n\r\n", "  OK\r\n\r\n", "")]]
        alt.append([text(base[0], [(x, "v")]) for x in NAMES + BADN]); alt.append([text(base[0], [("n", v)]) for v in VALS])
        # many fields, repeated names
        alt.append([text(base[0], [("n%d" % (i % m), str(i)) for i in range(k)]) for k in (2, 10, 40) for m in (1, 3, 50)])
        alt.append([text(base[0], [("n", "v" * k)]) for k in (1, 127, 128, 255, 256, 1000, 5000)])
        alt.append([text(base[0], [("n" * k, "v")]) for k in (1, 127, 128, 255, 256, 1000)])
        for a in alt:
            for k in range(0, len(a), 8): yield "http1", [obj(kind)] + [parse(x) for x in a[k:k + 8]]
    g.__name__ = "whole_" + kind
    return g

def roundtrip(rng, tier):
    """C04: parsed messages written again with a body"""
    n = 10 if tier == "thorough" else 1
    bodies = [[], B("body"), [0, 255, 13, 10, 13, 10], B("GET / HTTP/1.1\r\n\r\n")]
    for kind in ("req", "resp"):
        for _ in range(900 * n):
            b = head(rng, kind) if rng.random() < .8 else bad_head(rng, kind)
            yield "http1", [obj(kind), parse(b), {"op": "ser", "body": pick(rng, bodies) if rng.random() < .9 else rbytes(rng, 300)}]
        if kind == "req":
            # every byte value in path and query, escaped
            for c in range(256):
                for t in ("/a%%%02xb" % c, "/x?q%%%02X=1" % c, "/%%%02x%%%02x" % (c, 128 + c % 64)):
                    yield "http1", [obj(kind), parse(text(["GET", t, "HTTP/1.1"], [("Host", "h")])), {"op": "ser", "body": []}]
        for c in range(256):
            yield "http1", [obj(kind), parse(text([["GET", "/", "HTTP/1.1"], ["HTTP/1.1", "200", "OK"]][kind == "resp"], [("n", bytes([97, c, 98]))])), {"op": "ser", "body": []}]
        if kind == "resp":
            for s in range(100, 1000):
                if n > 1 or s % 5 == rng.randrange(5): yield "http1", [obj(kind), parse(text(["HTTP/1.1", str(s), "x"], [])), {"op": "ser", "body": B("b")}]
def reuse(rng, tier):
    """C05: one object, many parses with every kind of outcome"""
    n = 10 if tier == "thorough" else 1
    def one(kind):
        k = rng.random()
        if k < .4: return head(rng, kind)
        if k < .65: return bad_head(rng, kind)
        b = head(rng, kind)
        return b[:rng.randrange(len(b))]
    for kind in ("req", "resp"):
        for _ in range(700 * n):
            ops = [obj(kind)]
            for _ in range(pick(rng, [2, 3, 4, 6])):
                b = one(kind)
                r = rng.random()
                if r < .7: ops.append(parse(b))
                elif r < .9: ops.append({"op": "pbuf", "b": b, "form": rng.randrange(2)})
                else:
                    ops += [feed(p) for p in pieces(rng, b, 2)] + [{"op": "next"}]
            yield "http1", ops

def enc_chunks(rng, body, fancy=False):
    out = []
    for l in cuts(rng, len(body), pick(rng, [0, 1, 3])):
        d, body = body[:l], body[l:]
        h = "%x" % l if rng.random() < .6 else "%X" % l if rng.random() < .6 else "%04x" % l
        ext = pick(rng, ["", "", ";a", ";a=b", ";a=\"q\"", ";"]) if fancy else ""
        out += B(h + ext) + [13, 10] + d + [13, 10]
    return out + B(pick(rng, ["0", "00", "0;x"]) if fancy else "0") + [13, 10, 13, 10]
def message(rng, kind):
    """head and body that agree"""
    sl, fs = head_parts(rng, kind)
    fs = [(n, v) for n, v in fs if n.lower() not in ("content-length", "transfer-encoding")]
    k = rng.random()
    body = rbytes(rng, pick(rng, [0, 1, 2, 5, 17, 40, 200])) if rng.random() < .7 else pick(rng, [B("GET / HTTP/1.1\r\n\r\n"), B("0\r\n\r\n"), [13, 10], B("\r\n\r\n")])
    at = rng.randrange(len(fs) + 1)
    if k < .35:
        fs.insert(at, (pick(rng, ["Content-Length", "content-length", "CONTENT-LENGTH"]), str(len(body))))
        return text(sl, fs, rng) + body
    if k < .75:
        fs.insert(at, (pick(rng, ["Transfer-Encoding", "transfer-encoding"]), pick(rng, ["chunked", "gzip, chunked", "Chunked"])))
        return text(sl, fs, rng) + enc_chunks(rng, body, rng.random() < .4)
    return text(sl, fs, rng)
def streams(rng, tier):
    """C06: pipelined messages in arbitrary segmentation"""
    n = 8 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for _ in range(450 * n):
            b = []
            for _ in range(pick(rng, [1, 2, 3, 5])): b += message(rng, kind)
            if rng.random() < .1: b = mutate(rng, b, ALPHA)
            k = pick(rng, [0, 1, 3, 8, 20, 20])
            yield "http1", [obj(kind)] + [{"op": "recv", "b": p} for p in pieces(rng, b, k)]
        for _ in range(40 * n):
            b = message(rng, kind) + message(rng, kind)
            yield "http1", [obj(kind)] + [{"op": "recv", "b": [c]} for c in b[:500]]
def chunks(rng, tier):
    """C07"""
    n = 8 if tier == "thorough" else 1
    def cdec(b): return {"op": "cdec", "b": b, "form": rng.randrange(2)}
    sizes = [0, 1, 2, 9, 10, 15, 16, 17, 31, 32, 100, 127, 128, 200, 255, 256, 257, 511, 512] + ([1000, 4095, 4096, 5000, 65535, 65536] if n > 1 else [4095, 4096, 4097])
    for s in sizes:
        d = rbytes(rng, s)
        yield "http1", [{"op": "cenc", "ds": [d]}, {"op": "cenc", "ds": [d[: s // 2], d[s // 2:]] + [[]]}]
        for h in ("%x" % s, "%X" % s, "000%x" % s, "%016x" % s, "%020x" % s):
            for e in ("", ";x", ";a=b;c", " ", "\t", " ;x", ";\"q\""):
                w = B(h + e) + [13, 10] + d + [13, 10]
                ops = [cdec(w), cdec(w + [48]), cdec(w[:-1]), cdec(w[:-2]), cdec(w[:-2] + [10]), cdec(w[:-2] + [13, 120]), cdec(w[:-2] + [120, 13, 10]), cdec(w[:rng.randrange(len(w))])]
                yield "http1", ops if s < 600 else ops[:3]
                if s >= 600: break
    for h in ["", "g", "-1", "+1", "0x1", " 1", "1 1", "1g", ":", ";", "\r\n", "\n", "ffffffffffffffff", "fffffffffffffffe", "7fffffffffffffff", "8000000000000000", "10000000000000000", "ffffffffffffffffffff", "fffffffffffffff",
              "00000000000000000000001", "1\x00", "1;\x00", "1;\x7f", "1;é", "1\r", "1\rx", "1 \n", "1;a\n", "F" * 17, "1" + "0" * 15, "1" + "0" * 16, "fffffffd", "ffffffff", "100000000", "80000000", "7ffffffffffffffd", "ffffffffffffff00"]:
        for t in ("", "\r\n", "\n", "\r\nab", "\r\na\r\n", "\na\n", "\r\n\r\n"):
            yield "http1", [cdec(B(h + t)), cdec(B(h + t) + rbytes(rng, 20))]
    for c in range(256):
        yield "http1", [cdec(x) for x in ([c] + B("\r\na\r\n"), [49, c] + B("\r\na\r\n"), [49, c, 10] + B("a\r\n"), [49, 13, c] + B("a\r\n"), B("1\r\n") + [c, 13, 10], B("1\r\na") + [c, 10], B("1\r\na\r") + [c], B("1;") + [c] + B("\r\na\r\n"), B("0\r\n") + [c, 10])]
    for _ in range(600 * n):
        b = enc_chunks(rng, rbytes(rng, pick(rng, [0, 1, 5, 20, 70])), True)
        if rng.random() < .6: b = mutate(rng, b, list(b"0123456789abcdefABF\r\n; \tx"))
        yield "http1", [cdec(b)] + [cdec(b[:rng.randrange(len(b) + 1)]) for _ in range(3)]
    for _ in range(150 * n):
        yield "http1", [{"op": "cenc", "ds": [rbytes(rng, pick(rng, [0, 1, 3, 16, 40])) for _ in range(rng.randrange(1, 6))]}]
    hd = text(["POST", "/", "HTTP/1.1"], [("Transfer-Encoding", "chunked")])
    for _ in range(250 * n):
        b = hd + enc_chunks(rng, rbytes(rng, pick(rng, [0, 1, 5, 20, 300])), True)
        if rng.random() < .4: b = hd + mutate(rng, b[len(hd):], list(b"0123456789abcdef\r\n; x"))
        yield "http1", [obj("req")] + [{"op": "recv", "b": p} for p in pieces(rng, b, pick(rng, [0, 2, 10, 30]))]
