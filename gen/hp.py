from .util import *
import re, os
def _static():
    t = open(os.path.join(os.path.dirname(__file__), "..", "spec", "HpackTables.tla")).read()
    t = t[t.index("StaticTable"):]
    out = []
    for m in re.finditer(r"<<<<([\d, ]*)>>, <<([\d, ]*)>>>>", t):
        out.append(tuple([int(x) for x in g.split(",") if x.strip()] for g in m.groups()))
    assert len(out) == 61
    return out
STATIC = _static()
def ienc(v, n, lead=0):
    m = (1 << n) - 1
    if v < m: return [lead + v]
    o = [lead + m]; v -= m
    while v >= 128: o.append(128 + v % 128); v //= 128
    return o + [v]
def st(s): return ienc(len(s), 7, 0) + list(s)
def dec(b): return {"op": "dec", "b": list(b)}
NAMES = [B(x) for x in ["a", "b", "x-long-header-name", "cookie", ":status", ":path", "accept", "host", "", "é", "x-1", "x-q", "etag", "accept-charset", "accept-"]]
VALS = [B(x) for x in ["", "a", "200", "/", "gzip, deflate", "x" * 20, "\x00\xff", "GET"]] + [[0, 1, 2, 255, 254, 13, 10]]
WNAMES = NAMES + [B("Cookie"), B("X-Mixed-Case"), B("HOST"), B("ETag")]

def decode(rng, tier):
    """C12"""
    big = tier == "thorough"
    # every static index as indexed field and as literal name, in every literal form
    for k in range(0, 64):
        yield "hp", [dec(ienc(k, 7, 128))]
        for lead, n in ((64, 6), (0, 4), (16, 4)):
            yield "hp", [dec(ienc(k, n, lead) + (st(B("nn")) if k == 0 else []) + st(B("v1")))]
    # a dynamic table of 140 entries: multi-byte indices in every representation; then out of range ones
    for cnt in (66, 140, 300) if big else (70,140):
        fill = [dec(sum(([64] + st(B("n%d" % i)) + st(B("v%d" % (i % 7))) for i in range(a, min(a + 40, cnt))), [])) for a in range(0, cnt, 40)]
        cap = 4096 // 36
        live = [k for k in (62, 63, 64, 77, 78, 79, 100, 125, 126, 127, 128, 129, 130, 160, 170, 171, 172, 173, 174, 175, 176, 189, 190, 191, 200, 254, 255, 256, 300)]
        for k in live:
            yield "hp", fill + [dec(ienc(k, 7, 128))]
            for lead, n in ((64, 6), (0, 4), (16, 4)):
                yield "hp", fill + [dec(ienc(k, n, lead) + st(B("w"))), dec([190])]
    # integers: every prefix, boundaries, overlong, truncated
    for k in list(range(0, 300, 7)) + [30, 31, 32, 62, 63, 126, 127, 128, 16383, 16384, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 28) + 126, (1 << 31) - 1, 1 << 31, 1 << 35, 1 << 63, 1 << 64, 1 << 70]:
        for lead, n in ((128, 7), (64, 6), (32, 5), (16, 4), (0, 4)):
            e = ienc(k, n, lead)
            yield "hp", [dec(e + st(B("v")))]
            for cut in range(1, len(e)): yield "hp", [dec(e[:cut])]
        yield "hp", [dec([64] + ienc(k, 7) + B("zz"))]
        yield "hp", [dec([64] + ienc(k, 7, 128) + B("zz"))]
        yield "hp", [dec([64] + st(B("q")) + ienc(k, 7) + [97] * min(k, 400))]
    for pad in range(0, 12):
        for lead, n in ((128, 7), (64, 6), (32, 5), (0, 4)):
            yield "hp", [dec([lead + (1 << n) - 1] + [128] * pad + [0] + (st(B("v")) if n in (6, 4) else []))]
            yield "hp", [dec([lead + (1 << n) - 1] + [255] * pad + [127] + (st(B("v")) if n in (6, 4) else []))]
            yield "hp", [dec([lead + (1 << n) - 1] + [255] * pad)]
    # strings: all lengths around the prefix boundary, huffman or raw, truncated
    for l in [0, 1, 2, 125, 126, 127, 128, 129, 254, 255, 256, 300]:
        v = [97 + (i % 26) for i in range(l)]
        e = [64] + st(v) + st(v)
        yield "hp", [dec(e), dec([190])]
        for cut in (1, 2, 3, len(e) // 2, len(e) - 1):
            if cut < len(e): yield "hp", [dec(e[:cut])]
    # every way a string's declared length can disagree with the bytes that follow
    for l in (0, 1, 2, 3, 4, 127, 130):
        for h in (0, 128):
            yield "hp", [dec([64] + ienc(l, 7, h) + [0x1f] * 3)]
            yield "hp", [dec([0x0f, 0x10] + ienc(l, 7, h) + [0x1f] * 3)]
    # size updates: to every boundary of the current content, several at once, over the limit, mid-block
    for lim in (0, 1, 33, 34, 100, 4096, 5000):
        for u in {0, 1, lim - 1, lim, lim + 1, 33, 34, 35, 68, 4095, 4096, 4097, 100000} | ({65536} if big else set()):
            if u < 0: continue
            pre = [{"op": "resize", "who": "dec", "n": lim}, dec([64] + st(B("a")) + st(B("b"))), dec([64] + st(B("c")) + st(B("d")))]
            yield "hp", pre + [dec(ienc(u, 5, 32)), dec([64] + st(B("e")) + st(B(""))), dec([190]), dec([191])]
            yield "hp", pre + [dec(ienc(0, 5, 32) + ienc(u, 5, 32) + [64] + st(B("e")) + st(B("f"))), dec([190])]
            yield "hp", pre + [dec([130] + ienc(u, 5, 32)), dec([130])]
    # Huffman strings inside literals: every byte, and damaged codes
    for c in range(256):
        yield "hp", [dec([64, 1, 120] + [0x80 + len(h)] + h) for h in [huff([c]), huff([c, c, 48])]] + [dec([190]), dec([191])]
    for bad in ([0xff], [0xff, 0xff], [0xff, 0xff, 0xff, 0xfc], [0xff, 0xff, 0xff, 0xff], [0x00], [0x1f], [0x1e], [0x18], [0xfe], [0x1f, 0xff], [0x07, 0xff, 0xff, 0xff, 0xff]):
        yield "hp", [dec([64, 1, 120, 0x80 + len(bad)] + bad)]
        yield "hp", [dec([64, 0x80 + len(bad)] + bad + [0])]
    # random histories of blocks: mostly valid, some mutated
    for _ in range(6000 if big else 1200):
        ops, live = [], 0
        if rng.random() < .5: ops.append({"op": "resize", "who": "dec", "n": pick(rng, [0, 40, 64, 100, 128, 200, 500])})
        for _ in range(rng.randrange(1, 6)):
            b = []
            if rng.random() < .2: b += ienc(pick(rng, [0, 33, 64, 70, 100, 200, 500, 4096]), 5, 32)
            for _ in range(rng.randrange(1, 5)):
                k = rng.randrange(6)
                v = pick(rng, VALS); n = pick(rng, NAMES)
                sv = st(v) if rng.random() < .5 else ienc(len(huff(v)), 7, 128) + huff(v)
                sn = st(n) if rng.random() < .5 else ienc(len(huff(n)), 7, 128) + huff(n)
                idx = pick(rng, [rng.randrange(1, 62), 62, 63, 64, 65, rng.randrange(62, 75)])
                if k == 0: b += ienc(idx, 7, 128)
                elif k in (1, 2): b += [64] + sn + sv
                elif k == 3: b += ienc(idx, 6, 64) + sv
                elif k == 4: b += ienc(idx, 4, pick(rng, [0, 16])) + sv
                else: b += [pick(rng, [0, 16])] + sn + sv
            if rng.random() < .25: b = mutate(rng, b, [0, 63, 64, 127, 128, 190, 255, 31, 32])
            ops.append(dec(b))
        yield "hp", ops

_CODES = None
def huff(s):
    global _CODES
    if _CODES is None:
        t = open(os.path.join(os.path.dirname(__file__), "..", "spec", "HpackTables.tla")).read()
        t = t[t.index("HuffBits == <<") + 14:t.index("HuffTree")]
        _CODES = ["".join(m.replace(" ", "").split(",")) for m in re.findall(r"<<([01, ]+)>>", t)]
        assert len(_CODES) == 257
    b = "".join(_CODES[c] for c in s)
    b += "1" * (-len(b) % 8)
    return [int(b[i:i + 8], 2) for i in range(0, len(b), 8)]

def sync(rng, tier):
    """C13"""
    big = tier == "thorough"
    def ed(hs, form=0): return {"op": "encdec", "hs": hs, "form": form}
    def rs(n): return {"op": "resize", "who": "both", "n": n}
    # every static entry, with its own and another value, twice
    for n, v in STATIC:
        for form in (0, 1, 2):
            yield "hp", [ed([[n, v]], form), ed([[n, B("other")], [n, v]], form), ed([[n, B("other")]], form)]
    # every byte in names and values
    for c in range(0, 256):
        nm = B(chr(c)) if c < 128 else B(chr(c))
        yield "hp", [ed([[B("x-") + nm, [c, c ^ 32]], [B("y"), [c] * 3]]), ed([[B("x-") + nm, [c, c ^ 32]], [B("y"), [c ^ 32] * 3]])]
    # tables that grow beyond one- and two-octet indices
    many = [[B("k%d" % i), B("v")] for i in range(200)]
    for form in (0, 1):
        yield "hp", [rs(100000), ed(many[:100], form), ed(many[100:], form)] + [ed([many[k]], form) for k in (0, 1, 66, 67, 68, 69, 70, 71, 72, 73, 133, 134, 135, 136, 137, 138, 199)] + [ed(many, form), ed(many[::-1], form)]
    # entries that just fit, just do not fit, replace everything
    for cap in [0, 32, 33, 34, 35, 36, 64, 66, 67, 68, 69, 70, 100, 102, 104, 4095, 4096, 4097]:
        for extra in range(-3, 4):
            l = cap - 32 - 1 + extra
            if l < 0: continue
            ops = [rs(cap), ed([[B("p"), B("q")], [B("r"), B("s")]]), ed([[B("z"), [120] * l]]), ed([[B("z"), [120] * l]]), ed([[B("p"), B("q")], [B("z"), [120] * l], [B("r"), B("s")]]), ed([[B("r"), B("s")]])]
            yield "hp", ops
    for l in (4000, 4063, 4064, 5000, 20000) if big else (4063, 4064, 5000):
        yield "hp", [ed([[B("a"), B("b")]]), ed([[B("big"), [97] * l], [B("a"), B("b")]]), ed([[B("big"), [97] * l]]), ed([[B("a"), B("b")]])]
    for _ in range(5000 if big else 1200):
        ops = []
        form = rng.randrange(3)
        if rng.random() < .7: ops.append(rs(pick(rng, [0, 33, 40, 64, 70, 80, 100, 120, 160, 250, 400])))
        pool = [[pick(rng, WNAMES), pick(rng, VALS)] for _ in range(rng.randrange(2, 7))]
        if rng.random() < .3: pool += [[pick(rng, STATIC)[0], pick(rng, VALS)], list(pick(rng, STATIC))]
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < .12: ops.append(rs(pick(rng, [0, 33, 64, 70, 100, 200, 4096])))
            ops.append(ed([list(pick(rng, pool)) for _ in range(rng.randrange(0, 5))], form))
        yield "hp", ops
    for v in list(range(0, 400, 3)) + [30, 31, 62, 63, 126, 127, 128, 254, 255, 256, 16383, 16384, 16510, 16511, 2097151, 2097152, 268435455, 2147483647]:
        for n in range(1, 9):
            yield "hp", [{"op": "int", "v": v, "n": n, "lead": (0xff << n) & 0xff & pick(rng, [0, 0xff, 0x80, 0x40])}]

def table(rng, tier):
    """C14"""
    big = tier == "thorough"
    def add(n, v, form=0): return {"op": "tadd", "n": n, "v": v, "form": form}
    def rz(n): return {"op": "tresize", "n": n}
    def get(i): return {"op": "tget", "i": i}
    def find(n, v, form=0): return {"op": "tfind", "n": n, "v": v, "form": form}
    yield "hp", [get(i) for i in range(0, 70)]
    yield "hp", [get(i) for i in (1000, 65535, 2147483647)]
    for n, v in STATIC:
        up = [c - 32 if 97 <= c <= 122 else c for c in n]
        for form in (0, 1, 2):
            yield "hp", [find(n, v, form), find(n, B("nope"), form), find(up, v, form), find(n + [97], v, form), find(n[:-1], v, form), find(n, v + [97], form), add(n, B("nope"), form), find(n, B("nope"), form), get(62)]
            yield "hp", [find([c ^ 32 for c in n], v, form)] + [find(n[:k] + [n[k] ^ 32] + n[k + 1:], v, form) for k in range(len(n))]
    for cap in [0, 1, 31, 32, 33, 34, 35, 63, 64, 65, 66, 67, 68, 69, 96, 97, 98, 99, 100, 101, 102, 103]:
        yield "hp", [rz(cap)] + [x for k in range(5) for x in (add([97 + k], [49] * (k % 3)), get(62), get(62 + k))] + [get(60), get(61), get(62), get(63), get(64), get(65)]
        yield "hp", [add([97 + k], [49] * (k % 3)) for k in range(5)] + [rz(cap), get(62), get(63), get(64), get(65), get(66), get(67), rz(4096), add([120], []), rz(cap), get(62)]
    for _ in range(6000 if big else 1500):
        ops = []
        pool = [[pick(rng, NAMES), pick(rng, VALS)] for _ in range(5)]
        for _ in range(rng.randrange(3, 14)):
            k = rng.randrange(8)
            n, v = pick(rng, pool)
            f = rng.randrange(3)
            if k <= 2: ops.append(add(n, v, f))
            elif k == 3: ops.append(rz(pick(rng, [0, 32, 33, 34, 50, 64, 66, 68, 80, 100, 150, 200, 300, 4096])))
            elif k == 4: ops.append(get(rng.randrange(0, 75)))
            elif k == 5: ops.append(find(n, v, f))
            elif k == 6: ops.append(find([c - 32 if 97 <= c <= 122 else c for c in n], v, f))
            else: ops.append(find(n, pick(rng, VALS), f))
        yield "hp", ops

def huffman(rng, tier):
    """C15"""
    big = tier == "thorough"
    def e(b): return {"op": "henc", "b": b}
    def d(b): return {"op": "hdec", "b": b}
    for c in range(256):
        yield "hp", [e([c]), {"op": "hlow", "b": [c]}, d(huff([c]))] + [e([c] * k) for k in range(2, 9)] + [d(huff([c] * k)) for k in range(2, 9)]
        yield "hp", [e([c, pick(rng, [48, 97, 38, 255, 0])]), {"op": "hlow", "b": [65, c, 90]}]
    yield "hp", [e([]), d([]), e(list(range(256))), d(huff(list(range(256)))), e(list(range(255, -1, -1)))]
    # all one- and two-octet strings as codes
    for a in range(256):
        yield "hp", [d([a])]
        if big:
            for b in range(256): yield "hp", [d([a, b])]
        else:
            yield "hp", [d([a, b]) for b in some(rng, range(256), 40)]
            yield "hp", [d([a, 255]), d([a, 255, 255]), d([a, 0xfe]), d([255, a])]
    # every symbol followed by every padding length of ones and of one zero
    for c in range(256):
        bits = "".join(_bits(c))
        ops = []
        for k in range(0, 24):
            for pad in ("1" * k, "1" * (k - 1) + "0" if k else "", "0" * k):
                s = bits + pad
                if len(s) % 8 == 0: ops.append(d([int(s[i:i + 8], 2) for i in range(0, len(s), 8)]))
        yield "hp", ops
    eos = "1" * 30
    for pre in ([], [97], [48, 48], [0], [38, 42]):
        for post in ([], [97], [255]):
            s = "".join(_bits(c) for c in pre) + eos + "".join(_bits(c) for c in post)
            s += "1" * (-len(s) % 8)
            yield "hp", [d([int(s[i:i + 8], 2) for i in range(0, len(s), 8)])]
    for _ in range(20000 if big else 2500):
        s = rbytes(rng, rng.randrange(0, 24), pick(rng, [None, list(range(32, 127)), list(range(97, 123)), [0, 255, 48, 34, 92]]))
        h = huff(s)
        yield "hp", [e(s), d(h), d(mutate(rng, h)), {"op": "hlow", "b": s}, d(h[:-1])]
    for n in (100, 500, 2000):
        s = rbytes(rng, n)
        yield "hp", [e(s), d(huff(s))]
def _bits(c):
    huff([])
    return _CODES[c]
