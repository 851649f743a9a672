from .util import *
ERRS = ["short", "name", "value", "line", "status", "token", "version", "method", "partial", "code", "scheme", "url", "urlcode", "eof", "int", "ext", "into", "ser", "ws", "wsnone", "h2"]
def swap(b):
    """the same letters in the other case"""
    return [c ^ 32 if 65 <= (c & 223) <= 90 else c for c in b]
def other(rng, b):
    """almost the same"""
    b = list(b)
    if b:
        k = rng.randrange(len(b)); b[k] ^= pick(rng, [1, 32, 32, 128, 64])
    return b
def hexed(rng, b):
    t = []
    for c in b:
        for d in (c >> 4, c & 15):
            if rng.random() < .2: t.append(32)
            t.append(ord(pick(rng, ["%x", "%X"]) % d))
    return t + [32] * rng.randrange(2)
def octets(rng, tier):
    """C31: classes, hexadecimal, comparison, line ends, errors"""
    n = 20 if tier == "thorough" else 1
    for c in range(0, 256, 16): yield "oct", [{"op": "class", "c": c + j} for j in range(16)]
    yield "oct", [{"op": "digit", "n": j} for j in range(16)]
    for k in ERRS: yield "oct", [{"op": "err", "k": k}, {"op": "err", "k": k}, {"op": "err", "k": pick(rng, ERRS)}]
    C = lambda a, b: {"op": "cmp", "a": a, "b": b}
    # every octet against its neighbours in case, and all pairs of letters and marks around them
    for c in range(256): yield "oct", [C([c], [x]) for x in {c, c ^ 32, c ^ 1, c ^ 128, c ^ 64, 0}] + [C([97, c, 98], [x]) for x in (97, c, 98, c ^ 32)] + [C([97, c, 98], [c, 98]), C([c, c], [c]), C([], [c]), C([c], [])] + [{"op": "unhex", "b": hexed(rng, [c])}]
    for a in list(range(60, 130, 1 if tier == "thorough" else 3)): yield "oct", [C([a], [b]) for b in range(60, 130)]
    for _ in range(250 * n):
        al = pick(rng, [[97, 98], [97, 65, 98], None])
        a, b = rbytes(rng, rng.randrange(9), al), rbytes(rng, rng.randrange(4), al)
        yield "oct", [C(a, b), C(b, a), C(a, swap(a)), C(a, other(rng, a)), C(a + b, b), C(b + a, b), C(a, a), C(a + b + a, b), {"op": "unhex", "b": hexed(rng, a + b)}]
    for _ in range(150 * n):
        ops = []
        for _ in range(rng.randrange(2, 16)): ops.append(pick(rng, [{"op": "fill", "b": rbytes(rng, rng.randrange(4), [10, 13, 13, 10, 97, 0, 32])}, {"op": "fill", "b": [13, 10]}, {"op": "line"}, {"op": "line"}, {"op": "skip", "n": rng.randrange(3)}]))
        yield "oct", ops
    for a in range(256): yield "oct", [{"op": "fill", "b": [a]}, {"op": "line"}, {"op": "skip", "n": 9}, {"op": "fill", "b": [13]}, {"op": "fill", "b": [a]}, {"op": "line"}, {"op": "skip", "n": 9}, {"op": "fill", "b": [10, a]}, {"op": "line"}, {"op": "line"}]
