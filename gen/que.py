from .util import *
KINDS = ["data", "headers", "prio", "push", "settings", "ping", "goaway", "wu", "rst"]
FLAGS = [0, 1, 4, 5, 8, 9, 12, 13, 32, 33, 36, 37, 40, 41, 44, 45]
def sid(rng):
    return pick(rng, [1, 2, 3, 7, 9, 10, 99, 100, 101, 12345, (1 << 31) - 1]) if rng.random() < .8 else rng.randrange(1, 1 << 31)
def octets(rng, top=12):
    return pick(rng, [[], [0], [97], [255], [13, 10]]) if rng.random() < .4 else rbytes(rng, rng.randrange(top))
def visible(rng, top=12):
    return rbytes(rng, rng.randrange(top), list(range(33, 127)))
def frame(rng, k, p=None, **x):
    f = {"k": k, "sid": sid(rng), "fl": pick(rng, FLAGS), "p": [], "n": 0}
    if k == "data": f["p"] = octets(rng)
    elif k in ("headers", "push"):
        f["p"] = visible(rng)
        if k == "push": f["n"] = sid(rng)
    elif k == "prio":
        f["fl"] = 0; f["n"] = rng.randrange(256); f["p"] = be4(sid(rng))
        while f["p"] == be4(x.get("sid", f["sid"])): f["p"] = be4(sid(rng))
    elif k == "settings":
        f["fl"] = pick(rng, [0, 0, 1])
        if f["fl"] == 0 and rng.random() < .7: f["n"] = 1; f["p"] = be4(rng.randrange(1 << 31))
    elif k == "ping": f["fl"] = pick(rng, [0, 1]); f["p"] = rbytes(rng, 8)
    elif k == "goaway": f["fl"] = 0; f["n"] = sid(rng); f["p"] = rbytes(rng, 4) + octets(rng)
    elif k in ("wu", "rst"): f["fl"] = 0; f["p"] = be4(sid(rng)) if k == "wu" else pick(rng, [be4(rng.randrange(14)), rbytes(rng, 4)])
    if p is not None:
        if k in ("data", "headers", "push"): f["p"] = p
        elif k == "goaway": f["p"] = p if len(p) == 4 else f["p"][:4] + p
        elif k in ("wu", "rst", "prio"): f["p"] = p
        elif k == "settings" and f["fl"] == 0: f["p"] = p; f["n"] = 1
    f.update(x)
    return f
def push(rng, k, w=None, **x):
    return {"op": "push", "f": frame(rng, k, **x), "w": pick(rng, [0, 1, 15, 16, 127, 128, 200, 254, 255]) if w is None else w}
def edit(rng, k, **x):
    pay = octets if k == "data" else visible
    ks = ["es", "pd", "set", "flip"] + (["add"] if k != "push" else []) + (["eh"] if k != "data" else [])
    return {"op": "edit", "f": frame(rng, k, **x), "steps": [{"k": pick(rng, ks), "n": rng.randrange(2), "b": pay(rng)} for _ in range(rng.randrange(5))]}
def flag(rng):
    k = rng.randrange(4)
    if k == 0: return {"op": "flag", "n": pick(rng, FLAGS)}
    if k == 1: return {"op": "fconst", "k": pick(rng, ["zero", "ack", "es", "eh", "pd", "pr", "load"])}
    return {"op": "fset", "k": pick(rng, ["es", "eh", "pd"]), "on": rng.randrange(2)}
def step(rng):
    r = rng.random()
    if r < .4: return push(rng, pick(rng, KINDS))
    if r < .65: return {"op": "pop"}
    if r < .75: return {"op": "setw", "n": rng.randrange(256)}
    if r < .85: return flag(rng)
    if r < .9: return {"op": "next"}
    return edit(rng, pick(rng, ["data", "headers", "push"]))
def queue(rng, tier):
    """C30: flags, stream numbers, frames waiting by weight"""
    n = 20 if tier == "thorough" else 1
    for a in range(256): yield "que", [{"op": "flag", "n": a}, flag(rng), flag(rng), {"op": "flag", "n": a}]
    for a in FLAGS:
        for k in ("es", "eh", "pd"):
            for on in (0, 1): yield "que", [{"op": "flag", "n": a}, {"op": "fset", "k": k, "on": on}, {"op": "fconst", "k": "load"}, flag(rng)]
    for k in KINDS:
        for a in FLAGS:
            if k in ("data", "headers", "push"): yield "que", [push(rng, k, fl=a), edit(rng, k, fl=a), edit(rng, k, fl=a), {"op": "pop"}]
            else: yield "que", [push(rng, k), {"op": "pop"}]
    for _ in range(400 * n): yield "que", [step(rng) for _ in range(rng.randrange(3, 25))]
    for _ in range(60 * n):
        m = rng.randrange(2, 30)
        yield "que", [push(rng, pick(rng, KINDS), w=rng.randrange(256)) for _ in range(m)] + [{"op": "pop"}] * (m + 1)
    # few weights, many frames; every order of a few
    import itertools
    for ws in itertools.permutations([0, 5, 200, 255]): yield "que", [push(rng, pick(rng, KINDS), w=w) for w in ws] + [{"op": "pop"}] * 5
    for a in range(256): yield "que", [{"op": "wcmp", "a": a, "b": b} for b in {0, a, 255, (a + 1) % 256, (a + 128) % 256, rng.randrange(256), a ^ 1}]
    edge = [0, 1, 2, 3, 255, 256, 65535, 65536, (1 << 31) - 1, (1 << 30)]
    for a in edge: yield "que", [{"op": "cmp", "a": a, "b": b} for b in edge + [rng.randrange(1 << 31)]]
    for a in edge[:-2] + [(1 << 31) - 21]: yield "que", [{"op": "id", "n": a}] + [{"op": "next"}] * 9
