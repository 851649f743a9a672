from .util import *
KINDS = 12
def stores(rng, tier):
    """C25: long histories over twelve types and two stores"""
    n = 20 if tier == "thorough" else 1
    for _ in range(900 * n):
        ks = [rng.randrange(1, KINDS + 1) for _ in range(pick(rng, [1, 2, 4, 12]))]
        if rng.random() < .2: ks = list(range(1, KINDS + 1))
        ops = []
        for _ in range(pick(rng, [6, 15, 40])):
            o = {"op": pick(rng, ["ins"] * 6 + ["get", "mut", "mut", "rem", "rem", "clr", "ext", "new"]), "w": rng.randrange(2), "k": pick(rng, ks), "v": rng.randrange(4)}
            ops.append(o)
        yield "ext", ops
    # every pair of types
    for a in range(1, KINDS + 1):
        for b in range(1, KINDS + 1):
            i = lambda w, k, v: {"op": "ins", "w": w, "k": k, "v": v}
            yield "ext", [i(0, a, 1), i(0, b, 2), {"op": "rem", "w": 0, "k": a, "v": 0}, i(1, b, 3), {"op": "ext", "w": 0, "k": 1, "v": 0}, {"op": "mut", "w": 0, "k": b, "v": 1}, i(1, a, 1), {"op": "ext", "w": 1, "k": 1, "v": 0}, {"op": "clr", "w": 1, "k": 1, "v": 0}]
