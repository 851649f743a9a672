def B(x):
    return list(x.encode()) if isinstance(x, str) else list(x)
def pick(rng, xs):
    return xs[rng.randrange(len(xs))]
def some(rng, xs, n):
    """n of the elements, or all of them when there are fewer"""
    xs = list(xs)
    return rng.sample(xs, min(n, len(xs)))
def rbytes(rng, n, alpha=None):
    return [pick(rng, alpha) if alpha else rng.randrange(256) for _ in range(n)]
def be8(n):
    return list(n.to_bytes(8, "big"))
def be4(n):
    return list(n.to_bytes(4, "big"))
def mutate(rng, b, alpha=None):
    """a small random edit of a byte string"""
    b = list(b)
    for _ in range(pick(rng, [1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        p = rng.randrange(len(b) + 1)
        c = pick(rng, alpha) if alpha and rng.random() < .8 else rng.randrange(256)
        if k == 0: b.insert(p, c)
        elif k == 1 and b: del b[min(p, len(b) - 1)]
        elif k == 2 and b: b[min(p, len(b) - 1)] = c
        elif k == 3 and b:
            q = min(p, len(b) - 1); b[q] ^= 1 << rng.randrange(8)
        elif k == 4 and b:
            q = rng.randrange(len(b)); p = rng.randrange(q + 1); b[p:p] = b[p:q + 1][:8]
        elif k == 5 and len(b) > 1:
            q = min(p, len(b) - 2); b[q], b[q + 1] = b[q + 1], b[q]
    return b
def cuts(rng, n, k):
    """k cut positions of a string of n bytes, as piece lengths"""
    ps = sorted(rng.randrange(n + 1) for _ in range(k))
    out, last = [], 0
    for p in ps + [n]:
        out.append(p - last); last = p
    return [x for x in out if x]
UTF = ["", "a", "hello", "é", "€", "日本語", "\U0001F600", "\x00", "\x7f", "߿ࠀ￿\U00010000\U0010FFFF"]
