from .util import *
MASKS = [[], [0, 0, 0, 0], [1, 2, 3, 4], [255, 128, 7, 0], [0x19, 0xac, 0xab, 0x8a]]
OPCS = list(range(16))

def header(b0, n, mask, form=None):
    f = form if form is not None else (0 if n <= 125 else 2 if n <= 65535 else 8)
    l = [n] if f == 0 else [126] + list(n.to_bytes(2, "big")) if f == 2 else [127] + list(n.to_bytes(8, "big"))
    if mask: l[0] |= 128
    return [b0] + l + list(mask)
def rd(b, lim=-1, mflag=0): return {"op": "rd", "b": b, "lim": lim, "mflag": mflag}
def hd(b): return {"op": "hd", "b": b}
def xor(m, d): return [c ^ m[i % 4] for i, c in enumerate(d)] if m else list(d)

def frames(rng, tier):
    """C21: every first byte, every second byte, all length forms and boundaries, all truncations"""
    big = tier == "thorough"
    # every first byte with interesting second bytes; payload and trailing bytes present
    for b0 in range(256):
        ops = []
        for b1 in (range(256) if big else [0, 1, 2, 5, 64, 124, 125, 126, 127, 128, 129, 130, 253, 254, 255, rng.randrange(256), rng.randrange(256)]):
            tail = rbytes(rng, pick(rng, [0, 3, 12, 140]))
            if b1 & 127 == 126: tail = pick(rng, [[0, 125], [0, 126], [0, 0], [1, 0], [0, 127], [0, 124]]) + rbytes(rng, pick(rng, [3, 133, 300]))
            if b1 & 127 == 127: tail = pick(rng, [be8(65535), be8(0), be8(126), be8(65536), be8(1 << 63), be8(1 << 32), be8((1 << 64) - 1), be8((1 << 31) - 1), be8(1 << 31)]) + rbytes(rng, 6)
            b = [b0, b1] + tail
            ops += [rd(b, mflag=rng.randrange(2)), hd(b)]
        for k in range(0, len(ops), 8): yield "ws", ops[k:k + 8]
    # write and read back at all length boundaries, with every mask; truncations around every field
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 124, 125, 126, 127, 128, 255, 256, 257, 65535, 65536] + ([70000, 131072] if big else [])
    for n in lens:
        for m in MASKS if n < 60000 else [[], [9, 8, 7, 254]]:
            for opc in (OPCS if n < 10 else [0, 1, 2, 5, 8, 9, 10, 15] if n < 300 else [2]):
                d = rbytes(rng, n)
                fin = 1 if n > 3 and rng.random() < .5 else rng.randrange(2)
                rsv = [rng.randrange(2) for _ in range(3)]
                yield "ws", [{"op": "wr", "fin": fin, "rsv": rsv, "opc": opc, "data": d, "mask": m}]
                h = header(fin * 128 + rsv[0] * 64 + rsv[1] * 32 + rsv[2] * 16 + opc, n, m)
                w = h + xor(m, d)
                ops = [rd(w), rd(w + [1, 2, 3]), hd(w)]
                if n < 300:
                    for lim in {n, n - 1, n + 1, 0, 125, 65536}:
                        if lim >= 0: ops.append(rd(w, lim))
                    for cut in sorted({0, 1, 2, len(h) - 1, len(h), len(w) - 1, rng.randrange(len(w) + 1)}):
                        if 0 <= cut < len(w): ops += [rd(w[:cut]), hd(w[:cut])]
                    # the same length in every other form
                    for f in (0, 2, 8):
                        if not (f == 0 and n > 125): ops.append(rd(header(h[0], n, m, f) + xor(m, d)))
                    yield "ws", ops
                else:
                    yield "ws", [rd(w, n), rd(w, n - 1), rd(w[:-1]), hd(w[:9])]
                    yield "ws", [rd(w + [7])]
    # headers alone: all 64-bit magnitudes
    ls = [0, 1, 125, 126, 127, 65535, 65536, 65537] + [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(1, 65)]
    for l in ls:
        ops = []
        for opc in pick(rng, [[0, 1, 16], [2, 8, 255], [9, 7, 17], [10, 15, 128]]):
            ops.append({"op": "wh", "fin": rng.randrange(2), "rsv": [rng.randrange(2) for _ in range(3)], "opc": opc, "mask": pick(rng, MASKS), "len": be8(l)})
        for f in (2, 8):
            if l < 65536 or f == 8: ops.append(hd(header(pick(rng, [0x81, 2, 0xC0, 0x88]), l, pick(rng, MASKS), f)))
        yield "ws", ops
    for opc in range(256):
        yield "ws", [{"op": "wh", "fin": 1, "rsv": [0, 0, 0], "opc": opc, "mask": [], "len": be8(pick(rng, [0, 5, 125, 126]))}]
    # random frames, mutated
    for _ in range(6000 if big else 900):
        n = pick(rng, [0, 1, 3, 10, 125, 126, 130])
        m = pick(rng, MASKS)
        w = header(rng.randrange(256), n, m) + rbytes(rng, n)
        w2 = mutate(rng, w[:rng.randrange(len(w) + 1)] if rng.random() < .3 else w, [0, 125, 126, 127, 128, 253, 254, 255])
        yield "ws", [rd(w2, pick(rng, [-1, -1, n, 0, 125])), hd(w2)]

def fr(fin, opc, data, rsv=(0, 0, 0)): return {"fin": fin, "rsv": list(rsv), "opc": opc, "data": data}
BADUTF = [[0x80], [0xc0, 0x80], [0xe0, 0x80, 0x80], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xff], [0xe2, 0x82], [0xc3], [0xf0, 0x9f, 0x98], [0xc1, 0xbf], [0xf0, 0x80, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80]]
def texts(rng):
    t = B("".join(pick(rng, UTF) for _ in range(rng.randrange(4))))
    if rng.random() < .35:
        p = rng.randrange(len(t) + 1); t[p:p] = pick(rng, BADUTF)
    return t
def assembly(rng, tier):
    """C22: fragment sequences"""
    big = tier == "thorough"
    for u in UTF + ["".join(UTF)]:
        t = B(u)
        for bad in [[]] + BADUTF:
            d = t + bad
            for a in range(len(d) + 1):
                yield "ws", [{"op": "asm", "frames": [fr(0, 1, d[:a]), fr(1, 0, d[a:])]}]
    for o1 in range(16):
        for o2 in range(16):
            yield "ws", [{"op": "asm", "frames": [fr(rng.randrange(2), o1, texts(rng)), fr(1, o2, rbytes(rng, 2))]},
                         {"op": "asm", "frames": [fr(1, o1, [104, 105])]},
                         {"op": "asm", "frames": [fr(1, o1, [104, 105]), fr(0, 0, []), fr(1, o2, [33])]}]
    yield "ws", [{"op": "asm", "frames": []}]
    for pos in range(3):
        for rsv in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]):
            fs = [fr(0, 2, [1]), fr(0, 0, [2]), fr(1, 0, [3])]
            fs[pos]["rsv"] = rsv
            yield "ws", [{"op": "asm", "frames": fs}]
    for c in [0, 1, 255, 256, 999, 1000, 1005, 3000, 4999, 5000, 65535]:
        for r in UTF:
            yield "ws", [{"op": "asm", "frames": [fr(1, 8, list(c.to_bytes(2, "big")) + B(r))]}]
        for r in BADUTF:
            yield "ws", [{"op": "asm", "frames": [fr(1, 8, list(c.to_bytes(2, "big")) + r)]}]
    for x in (0, 3, 255):
        yield "ws", [{"op": "asm", "frames": [fr(1, 8, [x])]}, {"op": "asm", "frames": [fr(0, 8, [x]), fr(1, 0, [x])]}]
    for _ in range(12000 if big else 2500):
        n = pick(rng, [1, 1, 2, 2, 3, 4, 6])
        o = pick(rng, [1, 1, 1, 2, 8, 9, 10, rng.randrange(16)])
        d = texts(rng) if rng.random() < .8 else rbytes(rng, rng.randrange(6))
        if o == 8 and rng.random() < .8: d = list(rng.randrange(65536).to_bytes(2, "big")) + d
        ps = sorted(rng.randrange(len(d) + 1) for _ in range(n - 1))
        parts = [d[a:b] for a, b in zip([0] + ps, ps + [len(d)])]
        fs = [fr(1 if k == n - 1 else 0, o if k == 0 else 0, p) for k, p in enumerate(parts)]
        if rng.random() < .15: fs[rng.randrange(n)]["opc"] = rng.randrange(16)
        if rng.random() < .1: fs[rng.randrange(n)]["rsv"][rng.randrange(3)] = 1
        if rng.random() < .1: fs[rng.randrange(n)]["fin"] ^= 1
        yield "ws", [{"op": "asm", "frames": fs}]

def messages(rng, tier):
    """C23: messages over a stream"""
    big = tier == "thorough"
    def msg(kind, data, hascode=0, code=0): return {"kind": kind, "data": data, "hascode": hascode, "code": code}
    lens = [0, 1, 2, 3, 4, 123, 124, 125, 126, 127, 200, 255, 256, 65533, 65534, 65535, 65536] + ([100000] if big else [])
    for n in lens:
        for kind in ["text", "binary", "ping", "pong", "close"]:
            for api in ("owned", "borrowed", "conv"):
                if n > 1000 and api == "conv": continue
                for m in (MASKS if n < 300 else [pick(rng, MASKS), []]):
                    d = rbytes(rng, n) if kind in ("binary", "ping", "pong") else rbytes(rng, n, list(range(128)))
                    if n > 2000 and kind not in ("text", "binary"): continue
                    hc = 1 if kind == "close" and (n > 0 or rng.random() < .5) else 0
                    o = dict(msg(kind, d, hc, rng.randrange(65536) if hc else 0), op="msg", api=api, mask=m)
                    yield "ws", [o]
    for kind in ["text", "binary", "ping", "pong", "close"]:
        yield "ws", [dict(msg(kind, [65]), op="kind"), dict(msg(kind, [], 1 if kind == "close" else 0, 1000 if kind == "close" else 0), op="kind")]
    for c in list(range(990, 1025)) + [0, 1, 2999, 3000, 3999, 4000, 4999, 65535] + [rng.randrange(65536) for _ in range(60)]:
        yield "ws", [{"op": "code", "code": c, "data": B(pick(rng, UTF))},
                     dict(msg("close", B(pick(rng, UTF)), 1, c), op="msg", api=pick(rng, ["owned", "borrowed", "conv"]), mask=pick(rng, MASKS))]
    # several messages in a row, arriving in pieces
    for _ in range(2500 if big else 500):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            kind = pick(rng, ["text", "binary", "ping", "pong", "close"])
            n = pick(rng, [0, 1, 5, 125, 126, 130]) if kind in ("text", "binary") else pick(rng, [0, 1, 5, 123, 125])
            d = rbytes(rng, n, None if kind in ("binary", "ping", "pong") else list(range(32, 127)))
            if kind in ("text", "close") and n == 5: d = B(pick(rng, UTF))
            hc = rng.randrange(2) if kind == "close" else 0
            if kind == "close" and not hc: d = []
            if kind == "close": d = d[:123]
            ops.append(dict(msg(kind, d, hc, rng.randrange(65536) if hc else 0), op="txm", mask=pick(rng, MASKS)))
            for _ in range(rng.randrange(4)):
                ops += [{"op": "mv", "n": pick(rng, [1, 2, 3, 4, 6, 20, 127, 500])}, {"op": "rx"}]
                if rng.random() < .4: ops += [{"op": "take"}]
        ops += [{"op": "mv", "n": 1000000}] + [{"op": "rx"}, {"op": "take"}] * 6
        yield "ws", ops
    # fragmented messages over the stream
    for _ in range(1500 if big else 300):
        d = B("".join(pick(rng, UTF) for _ in range(3)))
        o = pick(rng, [1, 2])
        ps = sorted(rng.randrange(len(d) + 1) for _ in range(rng.randrange(3)))
        parts = [d[a:b] for a, b in zip([0] + ps, ps + [len(d)])]
        ops = []
        for k, p in enumerate(parts):
            ops.append(dict(fr(1 if k == len(parts) - 1 else 0, o if k == 0 else 0, p), op="tx", mask=pick(rng, MASKS)))
        for _ in range(6):
            ops += [{"op": "mv", "n": pick(rng, [1, 2, 5, 9, 40])}, {"op": "rx"}]
        ops += [{"op": "mv", "n": 1000000}] + [{"op": "rx"}] * 4 + [{"op": "take"}]
        yield "ws", ops
