from .util import *
METH = "OPTIONS GET POST PUT DELETE HEAD TRACE CONNECT PATCH".split()
VERS = ["HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"]
SCH = ["http", "https", "ws", "wss", "ftp"]
def case(rng, w): return "".join(c.swapcase() if rng.random() < .5 else c for c in w)
def near(rng, w):
    b = mutate(rng, B(w)); 
    try: bytes(b).decode(); return b
    except UnicodeDecodeError: return B(w)
def words(rng, tier):
    """C26: the whole finite domains and texts near them"""
    n = 20 if tier == "thorough" else 1
    yield "tab", [{"op": x} for x in ("stall", "mtall", "verall", "schall", "hnall", "rsnall")]
    ns = list(range(0, 1100)) + [65535, 65536 - 100, 1 << 15, 10000, 2000, 9999, 1 << 10]
    for k in range(0, len(ns), 50): yield "tab", [{"op": "stn", "n": x} for x in ns[k:k + 50]]
    for k in range(0, 1100, 25): yield "tab", [o for x in range(k, k + 25) for o in ({"op": "stt", "b": B(str(x))}, {"op": "stt", "b": B("%03d" % x)}, {"op": "stt", "b": B(pick(rng, ["%d ", " %d", "+%d", "-%d", "%d\x00", "%d.", "0%d", "%d0", "0x%d", "%de"]) % x)})]
    if tier == "thorough":
        for k in range(0, 65536, 64): yield "tab", [{"op": "stn", "n": x} for x in range(k, k + 64)]
    # each digit replaced by each byte
    for p in range(3):
        for c0 in range(0, 256, 32):
            yield "tab", [{"op": "stt", "b": b[:p] + [c] + b[p + 1:]} for c in range(c0, c0 + 32) for b in (B("204"), B("999"))]
    yield "tab", [{"op": "stt", "b": b} for b in [[], [50], B("20"), B("2000"), B("٢٠٠"), B("²⁰⁰"), B("200"), [200, 48, 48], [50, 48, 176]]]
    for op, ws in (("mtd", METH), ("ver", VERS), ("sch", SCH)):
        for w in ws:
            for c0 in range(0, 128, 16):
                yield "tab", [{"op": op, "b": B(w[:p] + chr(c) + w[p + d:])} for c in range(c0, c0 + 16) for p in range(len(w) + 1) for d in (0, 1)]
            yield "tab", [{"op": op, "b": b} for b in [B(w), B(w.lower()), B(w.upper()), B(w.title()), B(w + w), B(w[:-1]), B(w[1:]), B(" " + w), B(w + " "), B(w + "\r\n"), B(w + "\x00")] + [B(case(rng, w)) for _ in range(10 * n)]]
            yield "tab", [{"op": op, "b": near(rng, w)} for _ in range(40 * n)]
            yield "tab", [{"op": op, "b": B(w + x)} for x in ["://h", ":", ":x", "://", "/", "?", "+x:", "-:", ".:", "1:", "_:", " :", "é:", "s:", "%:", "A:"]]
        yield "tab", [{"op": op, "b": B(x)} for x in ["", "None", "none", "NONE", "poſt", "PoſT", "optıons", "trace", "ﬀ", "é", "POſT", "İ", "K", "HTTP/1", "HTTP/2.0", "HTTP/1.2", "HTTP/11", "http/1.1", "LINK", "MERGE", "PRI", "a" * 63, "a" * 64, "a" * 65, "http" + "s" * 60, "http" + "s" * 61, "HTTP/4", "HTTP/0.9", "é" * 32, "é" * 33, "a" * 64 + ":", "a" * 65 + ":", ":", "1:", "+:", "-a:", "a1+-.:"]]
    yield "tab", [{"op": "mtx", "b": B(x)} for x in ["", "GET", "MERGE", "é", "x y", "HEAD", "CONNECT"]]
    hs = []
    import re, os
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Tables.tla")).read().split("FieldWords")[1]
    for m in re.finditer(r"\\\* (\S+)", t): hs.append(m.group(1))
    for h in hs:
        yield "tab", [{"op": "hn", "b": b} for b in [B(h), B(h.upper()), B(h.title()), B(case(rng, h)), B(h[:-1]), B(h + "x"), B(h.replace("-", "_")), B(h + " "), B(h[:-1] + h[-1] * 2)] + [near(rng, h) for _ in range(3 * n)]]
    yield "tab", [{"op": "hn", "b": b} for b in [[], [0], [255], B("é"), B(":path"), [104, 111, 115, 116, 255], B("x" * 300)]]
    vals = list(range(0, 40)) + [255, 256, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 0x0d000000, 0x0100000d, 13 << 8] + [rng.randrange(1 << 32) for _ in range(20 * n)]
    yield "tab", [{"op": "rsn", "b": be4(v)} for v in vals]
