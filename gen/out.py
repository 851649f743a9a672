from .util import *
METH = "OPTIONS GET POST PUT DELETE HEAD TRACE CONNECT PATCH".split()
RMETH = [m for m in METH if m != "CONNECT"]
SCH = ["http", "https", "ws", "wss", "ftp"]
TXT = ["", "a", "abc", "é", "€ x", "\U0001F600", "a\r\nb", "{}", "%s", "\x00"]
NAMES = ["Host", "content-length", "X-a", "accept", "SET-COOKIE", "n", "Transfer-Encoding", "x-long-name-0123456789"]
VALS = ["", "v", "a, b", "0", "5", "é", "x y", ": ", "chunked"]
PATHS = ["/", "/a", "/a?b", "/?q=1", "/a/b/c", "/x?y=z&w"]
RAW = [[0], [255], [13, 10], [128, 0, 255], [195], [10]]
CODES = list(range(100, 600, 1)) + [600, 799, 999, 208, 226, 418, 451, 511]
FLAGS = [0, 1, 4, 5, 8, 9, 12, 13, 32, 36, 37, 40, 41, 44, 45]
def word(rng):
    return pick(rng, [[0, 0, 0, 0], [0, 0, 0, 1], [127, 255, 255, 255], [128, 0, 0, 0], [255, 255, 255, 255], [1, 2, 3, 4], [128, 0, 0, 7], [0, 128, 0, 0], [0, 0, 128, 0]]) if rng.random() < .5 else rbytes(rng, 4)
def pos(rng):
    w = word(rng); w[0] &= 127
    return w if any(w) else [0, 0, 0, 1]
def text(rng, top=40):
    return B(pick(rng, TXT)) if rng.random() < .6 else rbytes(rng, rng.randrange(top), list(range(32, 127)))
def octets(rng, top=40):
    return pick(rng, [B(pick(rng, TXT)), pick(rng, RAW), rbytes(rng, rng.randrange(top))])
def fields(rng, top=4):
    ns, out = set(), []
    for _ in range(rng.randrange(top + 1)):
        n = pick(rng, NAMES)
        if n.lower() not in ns: ns.add(n.lower()); out.append([B(n), B(pick(rng, VALS)) if rng.random() < .9 else pick(rng, [[128], [233, 32, 0], [255]])])
    return out
KINDS = ["lit", "str", "vec", "sl", "bin", "bm", "unit", "mth", "ver", "sch", "st", "hn", "hv", "map", "req", "reqh", "resp", "resph", "chunk", "fh", "inc", "erc", "sid", "u24", "ping", "wu", "rst", "goaway", "prio", "ack", "mask"]
def w(rng, k, **x):
    o = {"op": "w", "k": k, "times": pick(rng, [1, 1, 1, 2, 3])}
    if k in ("lit", "str"): o["b"] = text(rng)
    elif k in ("vec", "sl"): o["b"] = octets(rng)
    elif k in ("bin", "bm"): o["b"] = octets(rng); o["skip"] = rng.randrange(len(o["b"]) + 1) if rng.random() < .6 else 0
    elif k == "unit": o["b"] = []
    elif k == "mth": o["b"] = B(pick(rng, METH + ["", "MERGE", "x"]))
    elif k == "ver": o["n"] = rng.randrange(5)
    elif k == "sch": o["b"] = B(pick(rng, SCH + ["", "custom", "a+b", "x1"]))
    elif k == "st": o["n"] = pick(rng, CODES)
    elif k == "hn": o["b"] = B(pick(rng, NAMES)); o["form"] = rng.randrange(3)
    elif k == "hv": o["b"] = octets(rng); o["form"] = rng.randrange(3)
    elif k == "map": o["hs"] = fields(rng)
    elif k in ("req", "reqh"): o.update(m=B(pick(rng, RMETH + ["MERGE", ""] if rng.random() < .3 else RMETH)), p=B(pick(rng, PATHS)), n=pick(rng, [1, 2, 2, 2, 3, 4, 0]), hs=fields(rng), b=text(rng))
    elif k in ("resp", "resph"): o.update(c=pick(rng, CODES), n=pick(rng, [1, 2, 2, 2, 3, 4, 0]), hs=fields(rng), b=text(rng))
    elif k == "chunk": o["b"] = octets(rng) if rng.random() < .7 else rbytes(rng, pick(rng, [15, 16, 17, 255, 256, 257]))
    elif k == "fh": o.update(len=rbytes(rng, 3) if rng.random() < .7 else pick(rng, [[0, 0, 0], [255, 255, 255], [0, 64, 0]]), kind=rng.randrange(10), fl=pick(rng, FLAGS), sid=pos(rng) if rng.random() < .9 else [0, 0, 0, 0])
    elif k in ("inc", "erc", "sid"): o["b"] = word(rng)
    elif k == "u24": o["b"] = word(rng)
    elif k == "ping": o.update(ack=rng.randrange(2), b=rbytes(rng, 8))
    elif k == "wu": o.update(sid=pos(rng) if rng.random() < .7 else [0, 0, 0, 0], b=pos(rng))
    elif k == "rst": o.update(sid=pos(rng), b=word(rng))
    elif k == "goaway": o.update(sid=pos(rng) if rng.random() < .7 else [0, 0, 0, 0], b=word(rng), d=octets(rng))
    elif k == "prio":
        s = pos(rng); d = pos(rng)
        while d == s: d = pos(rng)
        o.update(sid=s, b=d, x=rng.randrange(2), w=rng.randrange(256))
    elif k == "mask": o.update(b=word(rng), ps=[rbytes(rng, pick(rng, [0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 13])) for _ in range(rng.randrange(1, 7))])
    if k in ("inc", "ping", "map", "req", "reqh", "resp", "resph"): o["form"] = rng.randrange(3)
    o.update(x)
    return o
def rd(k): return {"op": "rd", "k": k}
READS = ["sid", "inc", "erc", "u31", "u24", "u64", "fh"]
def read(rng):
    return rd(pick(rng, READS)) if rng.random() < .75 else {"op": "drop", "n": rng.randrange(30)}
def writers(rng, tier):
    """C29: histories of writers and readers on one buffer"""
    n = 20 if tier == "thorough" else 1
    # each writer in each company
    for _ in range(8 * n):
        for k in KINDS:
            yield "out", [w(rng, pick(rng, KINDS)) for _ in range(rng.randrange(3))] + [w(rng, k), read(rng), w(rng, k), w(rng, pick(rng, KINDS))]
    for _ in range(250 * n):
        yield "out", [w(rng, pick(rng, KINDS)) if rng.random() < .65 else read(rng) for _ in range(rng.randrange(2, 14))]
    # what was written is read back
    for _ in range(150 * n):
        ks = [pick(rng, ["inc", "erc", "sid", "u24", "fh"]) for _ in range(rng.randrange(1, 6))]
        yield "out", [w(rng, k, times=1) for k in ks] + [rd(k) for k in ks] + [rd(pick(rng, READS))]
    # too little to read
    for k in READS:
        for l in range(0, 10): yield "out", [w(rng, "vec", b=rbytes(rng, l), times=1), rd(k), rd(pick(rng, READS)), w(rng, pick(rng, KINDS)), rd(k)]
    # every word with its top octets, in each place
    for c in range(0, 256, 1 if tier == "thorough" else 5):
        yield "out", [w(rng, k, b=[c] + rbytes(rng, 3), times=1) for k in ("sid", "inc", "erc", "u24")] + [rd("sid"), rd("inc"), rd("erc"), rd("u24")]
        yield "out", [w(rng, "fh", kind=c % 10, fl=pick(rng, FLAGS), times=1), rd("fh"), w(rng, "prio", w=c)]
    for c in range(100, 1000, 1 if tier == "thorough" else 7): yield "out", [w(rng, "st", n=c + j) for j in range(min(7, 1000 - c))] + [w(rng, "resp", c=c)]
    for v in range(1, 5):
        for m in RMETH: yield "out", [w(rng, "mth", b=B(m)), w(rng, "ver", n=v), w(rng, pick(rng, ["req", "reqh"]), m=B(m), n=v), w(rng, "resph", n=v)]
