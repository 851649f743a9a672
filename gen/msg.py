from .util import *
from . import url as U
import itertools
SIZES = itertools.count(5000)       # no two HPACK contexts of the same size
METH = ["GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "OPTIONS"]
BADM = ["", "get", "GETS", "GE", "Post", "MERGE", " GET", "GET ", "é"]
NAMES = ["Host", "host", "Content-Length", "content-length", "Content-Type", "User-Agent", "user-agent", "Server", "server", "X", "x", "x-a", "Connection", "Upgrade", "HTTP2-Settings", "Transfer-Encoding", "Accept"]
VALS = ["", "a", "0", "5", "12", "chunked", "h:1", "text/plain", "x;y", "keep-alive", "é", " p", "-3", "7x", "2147483647", "4294967295"]
VERS = [10, 11, 2, 3, 0]
TXT = ["", "a", "body", "é", "日本", "GET / HTTP/1.1\r\n\r\n", "0\r\n\r\n"]
CHARS = ["a", "/", "?", "%", " ", "é", "1", "&", "=", ":"]
def some(rng, xs, m): return "".join(pick(rng, xs) for _ in range(rng.randrange(m + 1)))
def uval(rng):
    cs = []
    if rng.random() < .6: cs += [{"c": "domain", "v": B(pick(rng, ["h", "h.example", "[::1]", "é"]))}]
    if rng.random() < .6: cs += [{"c": "scheme", "v": B(pick(rng, ["http", "https", "ws", "ftp", "foo"]))}]
    if rng.random() < .5: cs += [{"c": "port", "n": pick(rng, [0, 1, 80, 443, 8080, 65535])}]
    for w in ("username", "password", "query"):
        if rng.random() < .25: cs.append({"c": w, "v": B(some(rng, CHARS, 3))})
    if rng.random() < .6: cs.append({"c": "path", "v": B("/" + some(rng, CHARS, 4))})
    rng.shuffle(cs)
    return cs
def utext(b):
    try: bytes(b).decode(); return True
    except UnicodeDecodeError: return False
def bcall(rng, kind, sane):
    """one builder call; sane ones cannot fail"""
    while True:
        k = rng.randrange(13)
        if k == 0 and kind == "req": return {"op": "method", "v": B(pick(rng, METH if sane or rng.random() < .7 else BADM)), "as": rng.randrange(3)}
        if k == 1 and kind == "req":
            t = B(U.good(rng)) if sane or rng.random() < .75 else U.bad(rng)
            if utext(t): return {"op": "url", "v": t, "as": rng.randrange(4)}
        if k == 2 and kind == "req": return {"op": "uval", "calls": uval(rng)}
        if k in (3, 4) : return {"op": "version", "n": pick(rng, VERS)}
        if k in (5, 6): return {"op": "header", "k": B(pick(rng, NAMES)), "v": B(pick(rng, VALS)), "as": rng.randrange(3)}
        if k == 7: return {"op": "headers", "hs": [[B(pick(rng, NAMES)), B(pick(rng, VALS))] for _ in range(rng.randrange(4))]}
        if k == 8 and (sane or True): return {"op": "hmut", "k": B(pick(rng, NAMES)), "v": B(pick(rng, VALS))}
        if k == 9 and kind == "req": return {"op": "up2", "ss": [[pick(rng, [2, 3, 4, 6]), pick(rng, [0, 1, 100, 65535, (1 << 31) - 1])] for _ in range(rng.randrange(3))]}
        if k in (0, 1) and kind == "resp":
            a = rng.randrange(4)
            good = ["200", "404", "100", "999", "204", "299", "500"]
            bad = ["99", "1000", "0", "65535", "10"] if a == 0 else ["99", "1000", "", "20x", "2 0", "-20", "0200"]
            return {"op": "status", "v": B(pick(rng, good if sane or rng.random() < .75 else bad)), "as": a}
        if k == 2 and kind == "resp": return {"op": "rmethod", "v": B(pick(rng, METH))}
        if k == 11 and kind == "resp" and rng.random() < .5: return {"op": "ext", "k": 3, "n": next(SIZES)}
        if k == 10 and kind == "resp": return {"op": "ext", "k": rng.randrange(1, 3), "n": rng.randrange(100)}
def new(rng, kind): return {"op": "new", "kind": kind, "how": rng.randrange(3) if kind == "req" else rng.randrange(9)}
def body(rng): return {"op": "body", "b": B(pick(rng, TXT)), "str": rng.randrange(3)}
def chain(rng, kind, m, sane): return [new(rng, kind)] + [bcall(rng, kind, sane) for _ in range(rng.randrange(m + 1))]
def builders(rng, tier):
    """C27"""
    n = 15 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for how in range(3 if kind == "req" else 9):
            for s in range(3): yield "msg", [{"op": "new", "kind": kind, "how": how}, {"op": "body", "b": B("x"), "str": s}, {"op": "write"}]
    for _ in range(500 * n):
        kind = pick(rng, ["req", "resp"])
        ops = []
        for _ in range(2):
            sane = rng.random() < .6
            ops += chain(rng, kind, 10, sane) + [body(rng)]
            if sane: ops.append({"op": "write"})
        if kind == "req" and rng.random() < .6:
            # a builder from a request
            ops += chain(rng, "req", 4, True) + [body(rng), {"op": "from"}] + [bcall(rng, "req", rng.random() < .8) for _ in range(rng.randrange(4))] + [body(rng)]
        yield "msg", ops
    # one invalid call, alone and followed by everything valid
    for kind, bads in (("req", [{"op": "method", "v": B("x"), "as": a} for a in (0, 1)] + [{"op": "url", "v": B("%"), "as": a} for a in range(4)] + [{"op": "url", "v": B(t), "as": 0} for t in ("", "/%zz", "http://h:65536/", "/ x", "/\xff")]),
                       ("resp", [{"op": "status", "v": B(t), "as": a} for t in ("99", "1000", "0") for a in range(4)])):
        for x in bads:
            for m in (0, 1, 3):
                yield "msg", [new(rng, kind)] + [bcall(rng, kind, True) for _ in range(m)] + [x] + [bcall(rng, kind, True) for _ in range(m + 1)] + [body(rng)]
    for _ in range(150 * n):
        ops = []
        for _ in range(6):
            cs = uval(rng)
            if rng.random() < .3: cs.insert(rng.randrange(len(cs) + 1), {"c": "scheme", "v": B("s" * pick(rng, [63, 64, 65, 66, 200]))})
            if rng.random() < .4: cs += uval(rng)
            ops.append({"op": "ubuild", "calls": cs})
        yield "msg", ops
def mop(rng, kind):
    k = rng.randrange(18)
    a = {"as": rng.randrange(2)}
    if k == 0: return {"op": "seturl", "calls": uval(rng)}
    if k == 1:
        p = pick(rng, ["path", "scheme", "query", "port"])
        return {"op": "uset", "part": p, "v": B({"path": "/" + some(rng, CHARS, 3), "scheme": pick(rng, ["http", "https", "foo"]), "query": some(rng, CHARS, 3), "port": pick(rng, ["0", "80", "9"])}[p]), **a}
    if k == 2: return {"op": "mset", "v": B(pick(rng, METH)), **a}
    if k == 3: return {"op": "vset", "n": pick(rng, VERS), **a}
    if k == 4: return {"op": "sset", "n": pick(rng, [100, 200, 299, 404, 500, 999])}
    if k in (5, 6): return {"op": "hset", "k": B(pick(rng, NAMES)), "v": B(pick(rng, VALS)), **a}
    if k == 7: return {"op": "hrem", "k": B(pick(rng, NAMES))}
    if k == 16: return {"op": "eset", "k": 3, "n": next(SIZES)}
    if k == 17: return {"op": "etouch", "n": next(SIZES)}
    if k == 8: return {"op": "eset", "k": rng.randrange(1, 3), "n": rng.randrange(100)}
    if k == 9: return {"op": "bset", "b": B(pick(rng, TXT)), "as": rng.randrange(3)}
    if k == 10: return {"op": "into", "b": B(pick(rng, TXT)), "str": rng.randrange(2 if kind == "req" else 3)}
    if k == 11: return {"op": "type", "how": rng.randrange(4)}
    if k in (12, 13): return {"op": "copy", "b": B(pick(rng, TXT))}
    if k == 14: return {"op": "write"}
    return {"op": "parts"}
HEADS = {"req": ["GET /a?b HTTP/1.1\r\nHost: h:81\r\nX: 1\r\n\r\n", "POST http://u:p@h/z HTTP/1.0\r\nContent-Length: 3\r\n\r\n", "CONNECT h:443 HTTP/1.1\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: q\r\n\r\n"],
         "resp": ["HTTP/1.1 404 Not Found\r\nX: 1\r\nServer: s\r\n\r\n", "HTTP/1.0 200 \r\n\r\n"]}
def messages(rng, tier):
    """C28"""
    n = 15 if tier == "thorough" else 1
    for kind in ("req", "resp"):
        for how in range(4):
            for x in range(16):
                yield "msg", [{"op": "plain", "kind": kind, "how": how, "b": B("x")}] + [mop(rng, kind) for _ in range(3)] + [{"op": "write"}]
    for _ in range(700 * n):
        kind = pick(rng, ["req", "resp"])
        ops = chain(rng, kind, 5, True) + [body(rng)] if rng.random() < .7 else [{"op": "plain", "kind": kind, "how": rng.randrange(4), "b": B(pick(rng, TXT))}]
        have_c = False
        for _ in range(rng.randrange(3, 14)):
            x = rng.random()
            if x < .08:
                b = B(pick(rng, HEADS[kind]))
                if rng.random() < .6: b = b[:rng.randrange(len(b))]
                elif rng.random() < .3: b = mutate(rng, b)
                ops.append({"op": "fill", "b": b})
            elif x < .2 and have_c: ops.append({"op": "swap"})
            else:
                o = mop(rng, kind)
                if o["op"] == "copy": have_c = True
                elif o["op"] == "parts": have_c = kind == "req"
                ops.append(o)
        if rng.random() < .3: ops += [{"op": "last"}] + ([{"op": "swap"}, {"op": "write"}, {"op": "last"}] if have_c else [])
        yield "msg", ops
