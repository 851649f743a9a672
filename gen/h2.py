from .util import *
from . import hp
DATA, HEADERS, PRIORITY, RST, SETTINGS, PUSH, PING, GOAWAY, WINDOW, CONT = range(10)
HUGE = 2000000000
def be3(n): return list(n.to_bytes(3, "big"))
def fr(kind, fl, sid, p, length=None):
    return be3(len(p) if length is None else length) + [kind, fl] + be4(sid) + list(p)
SIDS = [1, 2, 3, 5, 100, 255, 256, 65535, 65536, 16777215, 16777216, (1 << 31) - 1]
METHODS = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH"]
NAMES = [B(x) for x in ["a", "accept", "x-y", "cookie", "content-type", "te", "x-1", "host", "user-agent", "zz", "etag", "age", "via", "x-long-header-name-here"]]
VALS = [B(x) for x in ["", "1", "v", "text/html", "a b", "é", "x" * 40, "gzip, deflate", "0", "a=b; c=d", "\t"]] + [[255, 254], [128]]
PATHS = ["/", "/a", "/a/b?c=d", "/%41?x", "/?", "/a%20b?q=%2F", "//x", "/a:b@c", "*"]
AUTHS = ["h", "h:8080", "h.example", "127.0.0.1:81", "[::1]:3", "[::1]", "h:80", "h:443", "h:65535"]
SCHEMES = ["http", "https", "ws", "wss", "ftp", "foo"]
def rfields(rng, n=5):
    return [[pick(rng, NAMES), pick(rng, VALS) if rng.random() < .8 else rbytes(rng, rng.randrange(1, 30), range(32, 127))] for _ in range(rng.randrange(n + 1))]
def pseudo(rng, kind=None):
    kind = kind or pick(rng, ["req", "req", "resp", "none", "part"])
    if kind == "req":
        out = [[B(":method"), B(pick(rng, METHODS))], [B(":scheme"), B(pick(rng, SCHEMES))], [B(":authority"), B(pick(rng, AUTHS))], [B(":path"), B(pick(rng, PATHS))]]
        rng.shuffle(out)
        return out
    if kind == "resp": return [[B(":status"), B(str(pick(rng, [100, 103, 199, 200, 204, 304, 404, 503, 599, 600, 999, rng.randrange(100, 1000)])))]]
    if kind == "part": return [x for x in pseudo(rng, "req") if rng.random() < .5]
    return []
def badlist(rng):
    """a list that must or may be rejected, or is nearly so"""
    hs = pseudo(rng) + rfields(rng)
    k = rng.randrange(9)
    if k == 0: hs = [[B(":method"), B(pick(rng, ["get", "GE T", "", "FOO", "GETT", "G"]))]] + rfields(rng)
    elif k == 1: hs = [[B(":status"), B(pick(rng, ["", "99", "1000", "0200", "20", "abc", "2x0", "099", " 200", "+20", "000"]))]] + rfields(rng)
    elif k == 2: hs.append([B(":path"), B("/x")])
    elif k == 3: hs.insert(0, [B(":foo"), B("x")])
    elif k == 4: hs.append([B("UPPER"), B("x")])
    elif k == 5: hs.append([B(pick(rng, ["", "a b", "a:b", "é"])), B("x")])
    elif k == 6: hs.insert(0, [B(":scheme"), B(pick(rng, ["", "1x", "HTTP", "a_b", "x" * 64, "x" * 65, "://"]))])
    elif k == 7: hs.insert(0, [B(":path"), [255]])
    elif k == 8: hs.append([B("a"), pick(rng, [[0], [13], [10], [13, 10]])])
    return hs
def block(rng, hs, live=None):
    """some HPACK coding of the list (no dynamic table references unless live is given)"""
    b = []
    for n, v in hs:
        full = [k + 1 for k, (a, c) in enumerate(hp.STATIC) if a == n and c == v]
        nm = [k + 1 for k, (a, c) in enumerate(hp.STATIC) if a == n]
        sv = hp.st(v) if rng.random() < .6 else hp.ienc(len(hp.huff(v)), 7, 128) + hp.huff(v)
        if live is not None and [n, v] in live and rng.random() < .7: b += hp.ienc(62 + live.index([n, v]), 7, 128); continue
        if full and rng.random() < .6: b += hp.ienc(full[0], 7, 128); continue
        lead, bits = pick(rng, [(64, 6), (0, 4), (16, 4)])
        if nm and rng.random() < .7: b += hp.ienc(pick(rng, nm), bits, lead) + sv
        else: b += [lead] + (hp.st(n) if rng.random() < .6 else hp.ienc(len(hp.huff(n)), 7, 128) + hp.huff(n)) + sv
        if lead == 64 and live is not None: live.insert(0, [n, v])
    return b
def pad(rng, fl, p, n=None):
    if not fl & 8: return p
    n = pick(rng, [0, 1, 2, 7, 100, 255]) if n is None else n
    return [n] + p + rbytes(rng, n, [0, 0, 1, 255])
def split(rng, p, k):
    out = []
    for l in cuts(rng, len(p), k): out.append(p[:l]); p = p[l:]
    return out or [[]]
SET = {1: [0, 1, 4096, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1], 2: [0, 1], 3: [0, 1, 100, (1 << 32) - 1], 4: [0, 1, 65535, (1 << 31) - 1], 5: [16384, 16385, 65536, (1 << 24) - 1],
       6: [0, 1, 16384, (1 << 32) - 1], 8: [0, 1]}
SETBAD = {2: [2, 256, 1 << 24, (1 << 32) - 1, 1 << 31], 4: [1 << 31, (1 << 32) - 1, (1 << 31) + 1], 5: [0, 1, 16383, 1 << 24, (1 << 24) + 16384, (1 << 32) - 1, 1 << 31], 8: [2, 1 << 31, 255, 257, 65536]}
def sett_payload(rng, bad=False):
    p = []
    for _ in range(pick(rng, [0, 1, 2, 3, 5, 9])):
        i = pick(rng, list(SET) + [0, 7, 9, 255, 256, 257, 258, 1024, 65535])
        v = pick(rng, SET[i]) if i in SET else rng.randrange(1 << 32)
        p += [i >> 8, i & 255] + be4(v)
    if bad:
        i = pick(rng, list(SETBAD)); at = 6 * rng.randrange(len(p) // 6 + 1)
        p[at:at] = [0, i] + be4(pick(rng, SETBAD[i]))
    return p
def dep(rng, sid, same=False):
    d = sid if same else pick(rng, [x for x in [0] + SIDS if x != sid])
    return be4(d | pick(rng, [0, 1 << 31])) + [pick(rng, [0, 1, 15, 16, 255])]
def good(rng, live=None, kind=None):
    """octets of a valid frame (with continuations)"""
    kind = pick(rng, [DATA, HEADERS, HEADERS, PRIORITY, RST, SETTINGS, PUSH, PING, GOAWAY, WINDOW]) if kind is None else kind
    sid = pick(rng, SIDS); r31 = pick(rng, [0, 0, 0, 1 << 31])
    junk = pick(rng, [0, 0, 0, 4, 8, 0x20, 0x2d])     # flags without a meaning for the kind
    if kind == DATA:
        fl = pick(rng, [0, 1, 8, 9]) | (junk & 0x24)
        return fr(kind, fl, sid | r31, pad(rng, fl, rbytes(rng, pick(rng, [0, 1, 2, 10, 100, 300]))))
    if kind in (HEADERS, PUSH):
        fl = pick(rng, [0, 1, 8, 9, 0x20, 0x21, 0x28, 0x29]) if kind == HEADERS else pick(rng, [0, 8])
        hs = pseudo(rng) + rfields(rng)
        b = block(rng, hs, live)
        pre = (dep(rng, sid) if fl & 0x20 else []) if kind == HEADERS else be4(pick(rng, SIDS) | r31)
        if rng.random() < .65: return fr(kind, fl | 4, sid | r31, pad(rng, fl, pre + b))
        ps = split(rng, b, pick(rng, [0, 1, 1, 2, 5]))
        out = fr(kind, fl, sid, pad(rng, fl, pre + ps[0]))
        ps = ps[1:] or [[]]
        for k, p in enumerate(ps): out += fr(CONT, (4 if k == len(ps) - 1 else 0) | pick(rng, [0, 0, 1]), sid, p)
        return out
    if kind == PRIORITY: return fr(kind, junk, sid | r31, dep(rng, sid))
    if kind == RST: return fr(kind, junk, sid | r31, be4(pick(rng, [0, 1, 8, 13, 14, 255, (1 << 31), (1 << 32) - 1])))
    if kind == SETTINGS: return fr(kind, 1, 0, []) if rng.random() < .2 else fr(kind, junk & 0x2c, r31, sett_payload(rng))
    if kind == PING: return fr(kind, pick(rng, [0, 1]) | (junk & 0x2c), r31, rbytes(rng, 8))
    if kind == GOAWAY: return fr(kind, junk, r31, be4(pick(rng, [0] + SIDS) | r31) + be4(pick(rng, [0, 1, 2, 13, 100, (1 << 32) - 1])) + rbytes(rng, pick(rng, [0, 0, 1, 5, 50])))
    return fr(kind, junk, pick(rng, [0, sid]) | r31, be4(pick(rng, [1, 2, 65535, (1 << 31) - 1]) | r31))
def bad(rng):
    """octets of one frame that is malformed or on the edge"""
    k = rng.randrange(16)
    sid = pick(rng, SIDS)
    if k == 0: return fr(pick(rng, [DATA, HEADERS, PRIORITY, RST, PUSH, CONT]), 4, pick(rng, [0, 1 << 31]), pick(rng, [[], [130], dep(rng, 1), be4(1), be4(1) + [130]]))
    if k == 1: return fr(pick(rng, [SETTINGS, PING, GOAWAY]), pick(rng, [0, 1]), sid, pick(rng, [[], [0] * 8, [0] * 6, [0] * 12]))
    if k == 2:
        kind = pick(rng, [PRIORITY, RST, PING, WINDOW])
        n = {PRIORITY: 5, RST: 4, PING: 8, WINDOW: 4}[kind]
        return fr(kind, 0, 0 if kind == PING else sid, rbytes(rng, pick(rng, [0, 1, n - 1, n + 1, n * 2, 6, 100])))
    if k == 3: return fr(GOAWAY, 0, 0, rbytes(rng, rng.randrange(8)))
    if k == 4: return fr(SETTINGS, 0, 0, sett_payload(rng) + rbytes(rng, rng.randrange(1, 6)))
    if k == 5: return fr(SETTINGS, 1, 0, pick(rng, [[0] * 6, sett_payload(rng) or [1], [1]]))
    if k == 6: return fr(SETTINGS, 0, 0, sett_payload(rng, True))
    if k == 7: return fr(WINDOW, 0, pick(rng, [0, sid]), be4(pick(rng, [0, 1 << 31])))
    if k == 8: return fr(PRIORITY, 0, sid, dep(rng, sid, True))
    if k == 9: return fr(HEADERS, 0x24, sid, dep(rng, sid, True) + [130])
    if k in (10, 11):
        # every relation between padding and payload
        kind = pick(rng, [DATA, HEADERS, PUSH]); n = pick(rng, [0, 1, 2, 5, 6, 10])
        body = {DATA: rbytes(rng, n), HEADERS: [130] * n, PUSH: be4(2) + [130] * n}[kind]
        p = [0] + body
        p[0] = pick(rng, [len(p) - 2, len(p) - 1, len(p), len(p) + 1, 255, n, n + 1]) & 255
        return fr(kind, 12, sid, p) if rng.random() < .85 else fr(kind, 12, sid, [])
    if k == 12: return fr(HEADERS, 0x24 | pick(rng, [0, 8]), sid, rbytes(rng, rng.randrange(8), [0, 1, 2]))
    if k == 13: return fr(PUSH, pick(rng, [4, 12]), sid, pick(rng, [[], [0], [0, 0, 0], be4(0), be4(1 << 31), be4(0) + [130], [0, 0, 0, 0, 2, 130], [1, 0, 0, 0, 2, 130], [4, 0, 0, 0, 2], [2, 0, 0, 0, 2, 0, 0]]))
    if k == 14: return fr(pick(rng, [10, 11, 200, 255, CONT]), pick(rng, [0, 4, 1]), sid, rbytes(rng, rng.randrange(9)))
    fl = 4 | pick(rng, [0, 1, 8])
    return fr(HEADERS, fl, sid, pad(rng, fl, block(rng, badlist(rng))))
def rd(b, mx=HUGE): return {"op": "read", "b": b, "max": mx}
def F(k, **kw):
    d = dict(k=k, sid=1, fl=0, p=[], code=[0, 0, 0, 0], id=0, sett=[[]] * 8, ack=0, m=[], sc=[], au=[], pa=[], st=[], hs=[], form=0)
    d.update(kw)
    return d
def enc(f, mfs=16384, mx=HUGE): return {"op": "enc", "f": f, "mfs": mfs, "max": mx}
def opts(rng, prob=.5):
    out = [[] for _ in range(8)]
    for i in SET:
        if rng.random() < prob: out[i - 1] = [be4(pick(rng, SET[i]))]
    return out
def parts(rng, kind=None):
    d = {}
    for n, v in pseudo(rng, kind):
        k = {":method": "m", ":scheme": "sc", ":authority": "au", ":path": "pa", ":status": "st"}[bytes(n).decode()]
        d[k] = [int(bytes(v))] if k == "st" else [v]
    return d
def rframe(rng, small=True):
    k = pick(rng, ["data", "headers", "headers", "push", "push", "reset", "settings", "ping", "goaway", "window"])
    sid = pick(rng, SIDS); form = rng.randrange(2)
    if k == "data": return F(k, sid=sid, fl=pick(rng, [0, 1, 8, 9]), p=rbytes(rng, pick(rng, [0, 1, 15, 16, 17, 31, 32, 33, 100, 300])), form=form)
    if k == "headers": return F(k, sid=sid, fl=pick(rng, [0, 1, 4, 5, 8, 9, 12, 13, 0x20, 0x25]), hs=rfields(rng, pick(rng, [0, 1, 5, 12])), form=form, **parts(rng))
    if k == "push": return F(k, sid=sid, fl=pick(rng, [0, 4, 8, 12]), id=pick(rng, SIDS), hs=rfields(rng), form=form, **parts(rng))
    if k == "reset": return F(k, sid=sid, code=be4(pick(rng, [0, 1, 8, 13, 255, (1 << 32) - 1])))
    if k == "settings": return F(k, ack=1) if rng.random() < .2 else F(k, sett=opts(rng))
    if k == "ping": return F(k, ack=rng.randrange(2), p=rbytes(rng, 8), form=form)
    if k == "goaway": return F(k, id=pick(rng, [0] + SIDS), code=be4(pick(rng, [0, 7, (1 << 32) - 1])), p=rbytes(rng, pick(rng, [0, 1, 30])), form=form)
    return F(k, sid=pick(rng, [0, sid]), id=pick(rng, [1, 65535, (1 << 31) - 1]))

def one(kind, fl, sid, p, length=None, own=0, mx=HUGE): return {"op": "one", "kind": kind, "fl": fl, "sid": sid, "len": len(p) if length is None else length, "p": list(p), "own": own, "max": mx}
OWN = (PRIORITY, RST, SETTINGS, PING, GOAWAY, WINDOW)
def taken(b, own=0):
    """the first frame of the octets handed to the parser by itself"""
    n = b[0] << 16 | b[1] << 8 | b[2]
    return one(b[3], b[4], int.from_bytes(bytes(b[5:9]), "big") & 0x7fffffff, b[9:9 + n], n, own if b[3] in OWN else 0)
def frames(rng, tier):
    """C16"""
    n = 10 if tier == "thorough" else 1
    for ln in (0, 1, 255, 256, 65535, 65536, (1 << 24) - 1):
        for sid in (0, 1, 255, 256, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
            yield "h2", [{"op": "hdr", "b": fr(kind, fl, sid, [], ln) + [7] * extra, "form": extra % 2} for kind, fl, extra in zip([0, 1, 5, 9, 10, 255], [0, 1, 4, 8, 0x20, 0x2d], [0, 1, 2, 3, 4, 5])]
    for x in range(256):
        yield "h2", [{"op": "hdr", "b": fr(x, 0, 1, []), "form": 0}, {"op": "hdr", "b": fr(1, x, 1, []), "form": 1}, {"op": "hdr", "b": [x] * 9, "form": 0}, {"op": "hdr", "b": [x] * (x % 9), "form": 1}]
    # one connection: frames of every kind in a row, arriving in pieces that end anywhere
    for _ in range(500 * n):
        live = [] if rng.random() < .5 else None
        ops = []
        for _ in range(pick(rng, [1, 2, 4])):
            b = []
            for _ in range(pick(rng, [1, 1, 2, 4])): b += good(rng, live)
            ops.append(rd(b))
        yield "h2", ops
    for kind in range(9):
        for _ in range(6 * n):
            b = good(rng, None, kind); c = good(rng)
            yield "h2", [rd((c if rng.random() < .5 else []) + b[:k]) for k in sorted({rng.randrange(len(b) + 1) for _ in range(8)} | {8, 9, 10, len(b) - 1}) if k <= len(b)]
    for _ in range(400 * n):
        yield "h2", [enc(rframe(rng), pick(rng, [16, 20, 64, 16384])) for _ in range(pick(rng, [1, 2, 4]))]
    # one frame by itself: whole, cut short of the length it declares, or with a length it does not have
    for kind in range(9):
        for _ in range(15 * n):
            o = taken(good(rng, None, kind), rng.randrange(2)); l = len(o["p"])
            yield "h2", [o] + [dict(o, p=o["p"][:k], own=0) for k in sorted({rng.randrange(l + 1) for _ in range(3)} | {0, max(l - 1, 0)})] + [dict(o, len=l + d, own=0) for d in (1, 256, 65536)]
    for f in (0, 1): yield "h2", [{"op": "ids", "first": f, "n": 20}]
    for x in range(0, 256, 8): yield "h2", [{"op": "flags", "fl": y, "calls": [rng.randrange(1, 14) for _ in range(rng.randrange(4))]} for y in range(x, x + 8)]
    for _ in range(20 * n): yield "h2", [{"op": "flags", "fl": pick(rng, [0, 1, 4, 5, 8, 0x20, 0x2d, 0x2c, 9, 0x29]), "calls": [c] + [rng.randrange(1, 14) for _ in range(pick(rng, [0, 0, 1, 2, 5]))]} for c in range(1, 14)]
def malformed(rng, tier):
    """C17"""
    n = 10 if tier == "thorough" else 1
    # exhaustive: padding length against payload length for each padded kind
    for kind, body in ((DATA, [9] * 9), (HEADERS, [130] * 9), (PUSH, be4(2) + [130] * 5)):
        for ln in range(0, 9):
            for pl in list(range(0, 11)) + [254, 255]:
                p = ([pl] + body)[:ln]
                yield "h2", [rd(fr(kind, 12, 1, p) + fr(PING, 0, 0, [1] * 8))]
                if kind != DATA and pl < 4: yield "h2", [rd(fr(kind, 8, 1, p) + fr(CONT, 4, 1, [131, 134])), rd(fr(PING, 0, 0, [1] * 8))]
    for ln in range(0, 20):
        for kind in range(0, 12):
            for sid in (0, 1):
                for fl in (0, 1, 4):
                    p = [0] * (ln - 1) + [5] if ln else []
                    yield "h2", [rd(fr(kind, fl, sid, p)), rd(fr(kind, fl, sid, [1] * ln))]
    for _ in range(900 * n):
        ops = []
        for _ in range(pick(rng, [1, 2, 3])):
            b = []
            for _ in range(rng.randrange(2)): b += good(rng)
            b += bad(rng)
            if rng.random() < .3: b += good(rng)
            ops.append(rd(b))
        yield "h2", ops
    for _ in range(400 * n):
        b = []
        for _ in range(pick(rng, [1, 2])): b += good(rng)
        yield "h2", [rd(mutate(rng, b, [0, 1, 4, 8, 9, 12, 0x20, 255, 130, 64])) for _ in range(3)]
    # the same by themselves, through the parser of the connection or of the kind
    for kind in OWN:
        for ln in range(0, 20):
            yield "h2", [one(kind, fl, sid, p, None, own) for p in ([0] * (ln - 1) + [5] if ln else [], [1] * ln) for sid in (0, 1, 3) for fl in (0, 1) for own in (0, 1)]
    for _ in range(150 * n): yield "h2", [taken(bad(rng), own) for own in (0, 1, 1)] + [taken(good(rng), own) for own in (0, 1)]
    # continuations: wrong stream, missing, interleaved, on their own
    for _ in range(60 * n):
        b = block(rng, pseudo(rng) + rfields(rng))
        k = rng.randrange(len(b) + 1)
        h = fr(pick(rng, [HEADERS]), 0, 1, b[:k])
        yield "h2", [rd(x) for x in (h, h + fr(CONT, 4, 3, b[k:]), h + fr(PING, 0, 0, [0] * 8) + fr(CONT, 4, 1, b[k:]), fr(CONT, 4, 1, b), h + fr(CONT, 0, 1, b[k:]), h + fr(CONT, 4, 1, b[k:]) + fr(CONT, 4, 1, []))]
def fragment(rng, tier):
    """C18"""
    n = 8 if tier == "thorough" else 1
    for m in (16, 17, 20, 33, 64):
        for l in sorted({0, 1, m - 2, m - 1, m, m + 1, 2 * m - 2, 2 * m - 1, 2 * m, 2 * m + 1, 3 * m, 5 * m + 3}):
            for fl in (0, 1, 8, 9):
                yield "h2", [enc(F("data", sid=pick(rng, SIDS), fl=fl, p=rbytes(rng, l), form=rng.randrange(2)), m)]
        # header blocks whose length is around multiples of the frame size
        for l in range(0, 4 * m, max(1, m // 8)):
            for fl in (0, 1, 4, 5, 8):
                yield "h2", [enc(F("headers", sid=3, fl=fl, hs=[[B("x-q"), [1] * l]] if l else []), m), enc(F("headers", sid=5, fl=1, hs=[[B("x-q"), [1] * l]] if l else []), m)]
            yield "h2", [enc(F("push", sid=3, fl=pick(rng, [0, 4, 8]), id=4, hs=[[B("x-q"), [1] * l]] if l else []), m)]
            yield "h2", [enc(F("push", sid=3, fl=pick(rng, [0, 4, 8, 1]), id=4, hs=[[B("x-q"), [1] * l]], **{"m": [B("GET")], "pa": [B("/")], "st": [200]}), m)]
    big = [(16384, x) for x in (16383, 16384, 16385, 32767, 32768, 32769, 65535, 70000)]
    for m, l in big if tier == "thorough" else big[::2]:
        for fl in (0, 9):
            yield "h2", [enc(F("data", sid=1, fl=fl, p=[7] * l), m)]
        yield "h2", [enc(F("headers", sid=1, fl=1, hs=[[B("x-q"), [33] * (l - 8)]]), m)]
    for _ in range(500 * n):
        m = pick(rng, [16, 16, 17, 24, 40, 100])
        yield "h2", [enc(rframe(rng), m) for _ in range(pick(rng, [1, 3, 5]))]
    for _ in range(150 * n):
        m = pick(rng, [16, 30, 100])
        yield "h2", [x(rng, m) for x in (xreq, xresp)]
def settings(rng, tier):
    """C19"""
    import base64
    n = 10 if tier == "thorough" else 1
    def b64(p): return base64.urlsafe_b64encode(bytes(p)).rstrip(b"=")
    def bd(t): return {"op": "b64", "b": list(t)}
    for i in SET:
        for v in SET[i]:
            s = [[] for _ in range(8)]; s[i - 1] = [be4(v)]
            yield "h2", [{"op": "sett", "sett": s}, rd(fr(SETTINGS, 0, 0, [0, i] + be4(v))), bd(b64([0, i] + be4(v))), enc(F("settings", sett=s))]
            yield "h2", [rd(fr(SETTINGS, 0, 0, [0, i] + be4(v) + [0, i] + be4(pick(rng, SET[i])))), rd(fr(SETTINGS, 0, 0, [1, i] + be4(v))), rd(fr(SETTINGS, 0, 0, [0, i ^ 128] + be4(v)))]
    for i in SETBAD:
        for v in SETBAD[i]:
            p = [0, i] + be4(v)
            yield "h2", [rd(fr(SETTINGS, 0, 0, p)), rd(fr(SETTINGS, 0, 0, p + [0, i] + be4(SET[i][0]))), rd(fr(SETTINGS, 0, 0, [0, i] + be4(SET[i][0]) + p)), bd(b64(p)), rd(fr(SETTINGS, 1, 0, p)), rd(fr(SETTINGS, 0, 1, p))]
    # the whole neighbourhood of the bounds
    for d in range(-3, 4):
        yield "h2", [rd(fr(SETTINGS, 0, 0, [0, 5] + be4(16384 + d))), rd(fr(SETTINGS, 0, 0, [0, 5] + be4((1 << 24) - 1 + d))), rd(fr(SETTINGS, 0, 0, [0, 4] + be4((1 << 31) - 1 + d))), rd(fr(SETTINGS, 0, 0, [0, 2] + be4((d + (1 << 32)) % (1 << 32)))), rd(fr(SETTINGS, 0, 0, [0, 8] + be4((d + (1 << 32)) % (1 << 32))))]
    for i in range(0, 300):
        yield "h2", [rd(fr(SETTINGS, 0, 0, [i >> 8, i & 255] + be4(1))), bd(b64([i >> 8, i & 255] + be4(0)))]
    for l in range(0, 26):
        yield "h2", [rd(fr(SETTINGS, 0, 0, [0] * l)), rd(fr(SETTINGS, 1, 0, [0] * l)), bd(b64([0] * l)), bd(b"A" * l), rd(fr(SETTINGS, 0, pick(rng, [0, 1, 1 << 31]), [0] * l))]
    for c in range(128):
        t = bytearray(b64([0, 3] + be4(c * 77777777 % (1 << 32)))); t[pick(rng, range(8))] = c
        yield "h2", [bd(t), bd(b"AAMAAABk" + bytes([c])), bd(bytes([c])), bd(bytes([c, 65])), bd(b"AAMAAAB" + bytes([c]))]
    for _ in range(500 * n):
        yield "h2", [{"op": "sett", "sett": opts(rng, rng.random())}, rd(fr(SETTINGS, pick(rng, [0, 0, 0, 4, 8]), 0, sett_payload(rng, rng.random() < .2))), bd(b64(sett_payload(rng, rng.random() < .2))),
                     bd([c & 127 for c in mutate(rng, b64(sett_payload(rng)), list(b"AQ-_+/=az09"))]), enc(F("settings", sett=opts(rng, rng.random())))]
URLS = ["http://h/", "https://h/", "http://h:8080/a?b=c", "https://h:444/x/y", "http://h.example/%41%20b?q=%2F%3F", "https://[::1]:9/", "http://h/?", "http://h", "ws://h/chat", "foo://h/z", "/rel?x", "http://h/a%3Fb?c%23", "https://h:80/", "http://h:443/", "http://h/*", "ftp://h/f"]
def xreq(rng, m=None):
    form = rng.randrange(2)
    hs = rfields(rng, pick(rng, [0, 2, 8]))
    if rng.random() < .2: hs.insert(rng.randrange(len(hs) + 1), [B("host"), B(pick(rng, AUTHS))])
    o = {"op": "xreq", "form": form, "m": B(pick(rng, [x for x in METHODS if x != "CONNECT"])), "url": B(pick(rng, URLS)), "hs": hs, "sid": pick(rng, SIDS), "body": pick(rng, [[], [], [1], rbytes(rng, pick(rng, [5, 16, 100]))]),
         "mfs": m or pick(rng, [16, 50, 16384]), "max": HUGE, "sc": [B(pick(rng, SCHEMES))] if rng.random() < .8 else [],
         "au": [B(pick(rng, AUTHS if rng.random() < .9 else ["a/b", "a?b", "u:p@h", "", "h:99999", "h:x", "/", "%zz"]))] if rng.random() < .93 else [],
         "pa": [B(pick(rng, PATHS if rng.random() < .9 else ["", "a", "h/x", "?x", "**", ":8/", "@b/", "/%", "/%zz", "/ ", "/\x7f"]))] if rng.random() < .93 else []}
    if form == 1: o["hs"] = [[B(bytes(a).decode().title()) if rng.random() < .3 else a, b] for a, b in hs]
    if rng.random() < .15: o["max"] = pick(rng, [0, 100, 150, 200, 250, 300, 400])
    return o
def xresp(rng, m=None):
    return {"op": "xresp", "form": rng.randrange(2), "st": pick(rng, [100, 199, 200, 201, 204, 206, 304, 400, 404, 500, 503, 599, 999, rng.randrange(100, 1000)]), "hs": rfields(rng, pick(rng, [0, 2, 8])),
            "sid": pick(rng, SIDS), "body": pick(rng, [[], [], [1], rbytes(rng, pick(rng, [5, 16, 100]))]), "mfs": m or pick(rng, [16, 50, 16384]), "max": HUGE if rng.random() < .85 else pick(rng, [0, 42, 43, 44, 45, 100, 150, 200, 300])}
def lsize(hs): return sum(len(n) + len(v) + 32 for n, v in hs)
def messages(rng, tier):
    """C20"""
    n = 10 if tier == "thorough" else 1
    for _ in range(700 * n):
        ops = []
        if rng.random() < .3: ops.append({"op": "resize", "n": pick(rng, [0, 64, 100, 200, 500])})
        for _ in range(pick(rng, [1, 2, 4, 8])):
            ops.append(xreq(rng) if rng.random() < .6 else xresp(rng))
            if rng.random() < .05: ops.append({"op": "resize", "n": pick(rng, [0, 64, 100, 200, 4096])})
        yield "h2", ops
    # requests a server may promise
    for m in METHODS:
        yield "h2", [{"op": "promise", "m": B(m), "hs": hs} for hs in [[]] + [[[B("content-length"), B(x)]] for x in ["0", "1", "5", "00", "x", "", "-1", "18446744073709551616", "9223372036854775807"]] + [[[B("accept"), B("5")]], [[B("Content-Length"), B("7")], [B("a"), B("0")]], [[B("transfer-encoding"), B("chunked")]]] + [rfields(rng)]]
    # every URL, every method, every status
    for u in URLS:
        yield "h2", [dict(xreq(rng), form=1, url=B(u), max=HUGE) for _ in range(4)]
    for c in range(33, 127):
        yield "h2", [dict(xreq(rng), form=1, url=B("http://h/a%%%02xb?q%%%02x" % (c, c)), max=HUGE), dict(xreq(rng), form=0, au=[B("h")], pa=[B("/a" + chr(c) + "?" + chr(c))], max=HUGE), dict(xreq(rng), form=0, au=[B("h" + chr(c) + "x")], pa=[B("/")], max=HUGE)]
    for st in range(100, 1000, 1 if n > 1 else 6):
        yield "h2", [dict(xresp(rng), st=st, max=HUGE)]
    # the announced limit, to the octet
    for _ in range(150 * n):
        hs = pseudo(rng, pick(rng, ["req", "resp"])) + rfields(rng)
        s = lsize(hs)
        b = block(rng, hs)
        yield "h2", [rd(fr(HEADERS, 4, 1, b), s + d) for d in some(rng, [-1, 0, 1, -33, 40, -2], 3) if s + d >= 0] + [rd(fr(HEADERS, 4, 3, block(rng, hs)))]
    # header lists received from a peer, through one context, with rejected ones in between
    for _ in range(300 * n):
        live, ops = [], []
        for _ in range(pick(rng, [2, 4])):
            hs = badlist(rng) if rng.random() < .25 else pseudo(rng) + rfields(rng)
            ops.append(rd(fr(HEADERS, 4 | pick(rng, [0, 1]), pick(rng, SIDS), block(rng, hs, live)), HUGE if rng.random() < .85 else max(0, lsize(hs) - 1)))
        yield "h2", ops
