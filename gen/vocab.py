"""Inputs built from the words, numbers and octets that the code under test itself mentions, and from a ladder
of all sizes: what the code treats specially it mostly names, so every such constant is tried in every place
where an input has room for one.  The constants only choose inputs; the specification alone judges the answers."""
from .util import *
import glob, re, functools, os, json, collections
from . import http1, hp, h2, ws, url, hdr, msg, out, que, octs
REPO = "/repo"
def _esc(s):
    return re.sub(r"\\(x..|u\{[0-9a-fA-F]+\}|.)", lambda m: {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}.get(m.group(1)) or
                  (chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" else chr(int(m.group(1)[2:-1], 16)) if m.group(1)[0] == "u" else ""), s)
def literals(t):
    """the words, numbers and octets of a source text, each with how often it occurs"""
    words, nums, octs = collections.Counter(), collections.Counter(), collections.Counter()
    t = t.split("#[cfg(test)]")[0]
    t = re.sub(r"^\s*//[^\n]*", "", t, flags=re.M)
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128)?(?!\w)(?:\s*<<\s*(\d+))?", t):
        x = m.group(1).replace("_", "")
        try: v = int(x, 0) if x[:2] in ("0x", "0b") else int(x)
        except ValueError: continue
        if m.group(2): v <<= min(int(m.group(2)), 70)
        if v < 1 << 66: nums[v] += 1
    for m in re.finditer(r"(?<![\w.])(\d[\d_]*)\s*\*\s*(\d[\d_]*)(?![\w.])", t):
        v = int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", ""))
        if v < 1 << 40: nums[v] += 1
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
        w = _esc(m.group(1))
        if 0 < len(w) <= 40 and "{" not in w: words[w] += 1
    for m in re.finditer(r"b?'((?:[^'\\\n]|\\.|\\x..))'", t):
        w = _esc(m.group(1))
        if len(w) == 1 and ord(w) < 256: octs[ord(w)] += 1
    names = collections.Counter()
    for m in IDENT.finditer(t):
        for w in {m.group(1), m.group(1).lower().replace("_", "-")}: names[w] += 1
    return words, nums, octs, names
IDENT = re.compile(r"(?<!\w)([A-Z][A-Z0-9]+(?:_[A-Z0-9]+)*|(?<=::)[A-Z][a-z]+)(?!\w)")
@functools.lru_cache(None)
def read():
    return {f[len(REPO) + 1:]: literals(open(f, errors="replace").read()) for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True))}
BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_vocab.json")
@functools.lru_cache(None)
def whole_source():
    words, nums, octs = set(), set(), set()
    for w, n, o, _ in read().values():
        words |= set(w); octs |= set(o)
        if len(n) < 100: nums |= set(n)
    return sorted(words), sorted(nums), sorted(octs)
@functools.lru_cache(None)
def fresh():
    """what a file says more often than it did when the vocabulary was recorded: tried more densely, and together"""
    try: base = json.load(open(BASELINE))
    except OSError: return [], [], []
    out = [set(), set(), set(), set()]
    for f, cs in read().items():
        old = base.get(f, [{}, {}, {}, {}])
        for k in range(4):
            out[k] |= {x for x, c in cs[k].items() if c > old[k].get(str(x), 0)}
    return (sorted(out[0]) + sorted(out[3]))[:80], sorted(out[1])[:60], sorted(out[2])
FOCUS = [False]
def source():
    if not FOCUS[0]: return whole_source()
    a, b = fresh(), whole_source()
    return tuple(x or y for x, y in zip(a, ([], [], b[2])))
def size(x):
    if isinstance(x, dict): return sum(map(size, x.values()))
    if isinstance(x, list): return len(x) if x and isinstance(x[0], int) else sum(map(size, x))
    return 1
def focused(g):
    """the sessions of g with the fresh vocabulary alone, several times over"""
    def run(rng, tier):
        if not any(fresh()): return
        FOCUS[0] = True
        try:
            n, most = 0, 6000 if tier == "thorough" else 1200
            room = 20000000 if tier == "thorough" else 2500000
            for _ in range(40 if tier == "thorough" else 10):
                for x in g(rng, "quick"):
                    n += 1
                    room -= size(x[1])
                    if n > most or room < 0: return
                    yield x
        finally: FOCUS[0] = False
    run.__name__ = "focused_" + g.__name__
    return run
def words(): return source()[0]
def tokens(): return [w for w in words() if re.fullmatch(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+", w)]
def numbers(top, bottom=0): return sorted({v + d for v in source()[1] for d in (-1, 0, 1) if bottom <= v + d <= top})
def ladder(rng, tier, top, dense=70, keep=90):
    """sizes: all the small ones, the neighbours of the powers of two and of the numbers in the code"""
    if FOCUS[0]:
        return sorted(x for x in {v + d for v in source()[1] for d in (-33, -32, -2, -1, 0, 1, 2, 9)} | {0, 1, 5, 40} if 0 <= x <= top)
    xs = set(range(dense)) | {(1 << k) + d for k in range(6, 40) for d in (-1, 0, 1, 2)} | set(numbers(top)) | {v + d for v in source()[1] for d in (-33, -32, 2, 9)}
    xs = sorted(x for x in xs if 0 <= x <= top)
    if tier != "thorough" and len(xs) > keep + dense:
        must = set(x for x in numbers(top) if x >= dense)
        rest = [x for x in xs[dense:] if x not in must]
        xs = sorted(xs[:dense] + some(rng, sorted(must), min(len(must), keep)) + some(rng, rest, min(len(rest), keep // 3)))
    return xs
SPECIAL = [0, 9, 10, 13, 32, 34, 37, 43, 45, 47, 48, 58, 59, 61, 64, 65, 97, 122, 126, 127, 128, 191, 192, 223, 224, 239, 240, 244, 247, 248, 255]
def data(rng, n, ascii=False):
    """n octets of one of several characters, with a special end"""
    al = pick(rng, [None, list(range(32, 127)), [pick(rng, SPECIAL)], [0, 255], [13, 10], list(range(128, 256)), SPECIAL])
    if ascii: al = pick(rng, [list(range(33, 127)), [97], list(range(48, 58)), list(b"aZ09~!")])
    b = rbytes(rng, n, al)
    if n and not ascii:
        if rng.random() < .6: b[-1] = pick(rng, SPECIAL)
        if rng.random() < .3: b[0] = pick(rng, SPECIAL)
        if n > 3 and rng.random() < .3:
            w = pick(rng, [[13, 10], [13, 10, 13, 10], B(pick(rng, words() or ["a"]))])[:n]
            b[n - len(w):] = w
    return b
def vdata(rng, n):
    """octets a field value may have"""
    return [c if c >= 32 and c != 127 or c == 9 else 33 + c % 90 for c in data(rng, n)]
def group(xs, k):
    xs = list(xs)
    for a in range(0, len(xs), k): yield xs[a:a + k]

# ---------------------------------------------------------------- HTTP/1
BASE = {"req": ["GET", "/a", "HTTP/1.1"], "resp": ["HTTP/1.1", "200", "OK"]}
def heads(rng, tier, kind, top=9000, keep=60):
    ws = words(); tk = tokens()
    for w in tk:
        yield http1.text(BASE[kind], [(w, pick(rng, http1.VALS)), (pick(rng, tk), pick(rng, tk))], rng)
        yield http1.text(BASE[kind], [("x", "y"), (w, w)], rng)
    for w in ws:
        sl = list(BASE[kind]); k = rng.randrange(3)
        if kind == "req" and k == 1: sl[1] = pick(rng, ["", "/", "/x?"]) + w
        else: sl[2 if kind == "resp" else k] = w
        yield http1.text(sl, [("Host", "h")], rng)
        yield http1.text(BASE[kind], [("Host", w), ("n", w)] if rng.random() < .5 else [("n", pick(rng, ["", "a, ", "a"]) + w)], rng)
    for l in ladder(rng, tier, top, 70, keep):
        n = "".join(map(chr, data(rng, l, True)))
        n = re.sub("[^A-Za-z0-9!~-]", "q", n)
        k = rng.randrange(3)
        if l: yield http1.text(BASE[kind], [(n, "v")], rng)
        yield http1.text(BASE[kind], [("n", n)], rng)
        if kind == "req": yield http1.text(["GET", "/" + n, "HTTP/1.1"], [("Host", n if l and l < 200 else "h")], rng)
        else: yield http1.text(["HTTP/1.1", "200", n], [], rng)
        if l <= (600 if tier == "thorough" else 200): yield http1.text(BASE[kind], [("n%d" % j if rng.random() < .9 else "d", str(j)) for j in range(l)], rng)
def v_segments(rng, tier):
    for kind in ("req", "resp"):
        for b in heads(rng, tier, kind, 2000, 15):
            b = b + pick(rng, http1.JUNK)
            ps = http1.pieces(rng, b, pick(rng, [1, 2, 3, 6]))
            if rng.random() < .3: ps = [b[:k] for k in ()] + http1.pieces(rng, b, 1)
            yield "http1", [http1.obj(kind)] + [http1.feed(p) for p in ps]
def v_whole(kind):
    def g(rng, tier):
        for bs in group(heads(rng, tier, kind), 4):
            yield "http1", [http1.obj(kind)] + [http1.parse(b) if rng.random() < .7 else {"op": "pbuf", "b": b, "form": rng.randrange(2)} for b in bs]
    g.__name__ = "v_whole_" + kind
    return g
def v_roundtrip(rng, tier):
    for kind in ("req", "resp"):
        for b in heads(rng, tier, kind, 2000, 20):
            yield "http1", [http1.obj(kind), http1.parse(b), {"op": "ser", "body": data(rng, pick(rng, [0, 0, 1, 5, 40]))}]
        for l in ladder(rng, tier, 20000, 70, 40):
            yield "http1", [http1.obj(kind), http1.parse(http1.text(BASE[kind], [("Host", "h"), ("Content-Length", str(l))])), {"op": "ser", "body": data(rng, l)}]
def v_reuse(rng, tier):
    hs = {k: list(heads(rng, "quick", k, 400, 10)) for k in ("req", "resp")}
    for kind in hs:
        for _ in range(len(hs[kind])):
            ops = [http1.obj(kind)]
            for _ in range(4):
                b = pick(rng, hs[kind])
                if rng.random() < .35: b = b[:rng.randrange(len(b))]
                ops.append(http1.parse(b))
            yield "http1", ops
def chunked(rng, body, ls):
    out = []
    for l in ls: out += B(pick(rng, ["%x", "%X"]) % l) + [13, 10] + body[:l] + [13, 10]; body = body[l:]
    return out + B("0\r\n\r\n")
def v_streams(rng, tier):
    """bodies of every size, by length or in chunks, with another message behind"""
    for kind in ("req", "resp"):
        for l in ladder(rng, tier, 9000, 40, 30):
            d = data(rng, l)
            end = http1.head(rng, kind, 0)
            a = http1.text(BASE[kind], [("Content-Length", str(l))]) + d + end
            b = http1.text(BASE[kind], [("Transfer-Encoding", "chunked")]) + chunked(rng, d, [x for x in cuts(rng, l, pick(rng, [0, 1, 2])) if x]) + end
            for m in (a, b):
                yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, m, pick(rng, [0, 1, 2, 4]))]
        for w in tokens():
            a = http1.text(BASE[kind], [(w, pick(rng, ["x", w])), ("Content-Length", "3")], rng) + B("abc") + http1.text(BASE[kind], [(pick(rng, ["n", "Transfer-Encoding", "Connection"]), w)], rng)
            yield "http1", [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, a, pick(rng, [0, 1, 4]))]
def v_chunks(rng, tier):
    for l in ladder(rng, tier, 20000, 300, 60):
        if l == 0: continue
        ops = []
        for end in some(rng, SPECIAL, 3) + [10, 13]:
            d = data(rng, l); d[-1] = end
            ops.append({"op": "cenc", "ds": [d] if rng.random() < .6 or l < 3 else [d[:l // 2], d[l // 2:]]})
            if rng.random() < .5: ops.append({"op": "cdec", "b": chunked(rng, d, [l]), "form": rng.randrange(2)})
        yield "http1", ops if l < 2000 else ops[:2]

# ---------------------------------------------------------------- fields
def v_collection(rng, tier):
    tk = [B(w) for w in words() if w.isascii()]
    for g in group(some(rng, tk, len(tk)), 3):
        ops = []
        for n in g: ops += [hdr.put(rng, "ins", n, hdr.rval(rng)), dict(hdr.lookup(rng, hdr.vary(rng, n)), op="get")]
        for n in g: ops += [hdr.put(rng, pick(rng, ["ins", "push"]), hdr.vary(rng, n), B(pick(rng, words()))), {"op": "mut", "n": hdr.vary(rng, n), "v": [120], "vform": 0, "how": rng.randrange(4)}, dict(hdr.lookup(rng, n), op="rem"), dict(hdr.lookup(rng, n), op="get")]
        yield "hdr", ops + [{"op": "show"}]
    for l in ladder(rng, tier, 3000, 60, 30):
        n = data(rng, l, True)
        yield "hdr", [hdr.put(rng, "ins", n, data(rng, l)), dict(hdr.lookup(rng, hdr.vary(rng, n)), op="get"), hdr.put(rng, "push", n, data(rng, l)), {"op": "show"}, dict(hdr.lookup(rng, n), op="rem"), {"op": "show"}]
        if l <= 150:
            ops = [hdr.put(rng, "ins", B("f%d" % k), B(str(k))) for k in range(l)]
            yield "hdr", ops[:] + [dict(hdr.lookup(rng, B("F%d" % rng.randrange(l + 1))), op=pick(rng, ["get", "rem"])) for _ in range(4)] + [{"op": "show"}]
    for w in words():
        b = B(w)
        yield "hdr", [{"op": "value", "a": b, "af": pick(rng, [0, 2]), "b": x, "bf": pick(rng, [0, 2])} for x in (b, B(w.swapcase()), B(pick(rng, words())))] + ([{"op": "name", "a": b, "af": rng.randrange(3), "b": B(w.swapcase()) if w.isascii() else b, "bf": rng.randrange(3)}])
def v_queries(rng, tier):
    q = {"op": "q"}
    nm = [n for n in hdr.QN]
    GOOD = {"content-length": ["0", "5", "42"], "connection": ["upgrade", "keep-alive, Upgrade", "keep-alive"], "transfer-encoding": ["chunked", "gzip, chunked", "identity"], "upgrade": ["h2c", "websocket"], "host": ["h", "h:1"], ":authority": ["g", "g:2"]}
    # the questions are independent of one another: many fields at once, in every order, then one taken away
    for _ in range(400 if tier == "thorough" else 120):
        some = [n for n in nm if rng.random() < .7]
        rng.shuffle(some)
        ops = [hdr.put(rng, "ins", hdr.vary(rng, B(n))[:len(n)] if False else B(n), B(pick(rng, GOOD.get(n, ["v", "a/b"])))) for n in some] + [q]
        rng.shuffle(some)
        for n in some: ops += [dict(hdr.lookup(rng, B(n)), op="rem"), q]
        yield "hdr", ops
    for a in nm:
        for b in nm:
            for _ in range(2): yield "hdr", [hdr.put(rng, "ins", B(a), B(pick(rng, GOOD.get(a, ["v"])))), hdr.put(rng, "ins", B("connection" if a != "connection" and b == a else b), B(pick(rng, GOOD.get(b, ["upgrade"])))), q, hdr.put(rng, "ins", B("Upgrade"), B("x")), q]
    for g in group(words(), 2):
        ops = []
        for w in g:
            for n in ("connection", "transfer-encoding", "upgrade", "content-length", "host"): ops.append(hdr.put(rng, "ins", B(n), B(pick(rng, ["", "a, ", "upgrade, ", "chunked,"]) + w)))
            ops += [q, hdr.put(rng, "ins", B(w) if w.isascii() else B("x"), B(pick(rng, ["upgrade", "chunked", "1"]))), q]
        yield "hdr", ops
    for v in numbers(1 << 70): yield "hdr", [hdr.put(rng, "ins", B("content-length"), B(pick(rng, ["%d", "%d", "0%d", "-%d", "%d0"]) % v)), q, {"op": "num", "v": B(str(v if v < 1 << 62 else 7))}]

# ---------------------------------------------------------------- URLs
def v_url_texts(rng, tier):
    pt = ["http://%s/", "http://u:p@h/%s", "/%s", "/a?%s", "%s://h/", "http://%s:p@h/", "http://u:%s@h/", "http://h?%s", "%s"]
    for w in words():
        for p in some(rng, pt, 4): yield B(p % w)
    for n in numbers(1 << 34): yield B("http://h:%d/x" % n)
    for l in ladder(rng, tier, 6000, 70, 40):
        x = "".join(map(chr, data(rng, l, True)))
        x = re.sub("[^A-Za-z0-9~!$]", "w", x)
        for p in some(rng, pt, 3): yield B(p % x)
        yield B("/" + "%41%e2%82%ac"[:3 * rng.randrange(1, 5)] * (l // 3))
def utf8_ladder(rng, tier):
    """characters of every length, with every leading octet and every kind of continuation"""
    xs = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000}
    xs |= {rng.randrange(k << 6, (k + 1) << 6) for k in range(2, 32)}
    xs |= {max(0x800, (k << 12) + rng.randrange(1 << 12)) for k in range(0, 16)}
    xs |= {min(0x10ffff, max(0x10000, (k << 18) + rng.randrange(1 << 18))) for k in range(0, 5) for _ in range(4)}
    xs |= {0x10000 * k + rng.randrange(0x10000) for k in range(1, 17)}
    return [chr(x) for x in sorted(xs) if not 0xd800 <= x < 0xe000]
def v_url(rng, tier):
    for g in group(v_url_texts(rng, tier), 5): yield "url", [url.P(b, rng) for b in g]
    for c in utf8_ladder(rng, tier):
        e = "".join("%%%02x" % x for x in c.encode())
        yield "url", [url.P(B(t), rng) for t in ("/" + e, "http://" + e + "/", "http://u" + e + ":" + e + "@h/?" + e.upper(), "/" + c)] + [url.P(B("/" + e[:-3]), rng), url.P(B("/" + e[3:]), rng)]
def v_formatting(rng, tier):
    for g in group(utf8_ladder(rng, tier), 2):
        ops = []
        for c in g:
            ops += [{"op": "enc", "b": B("a" + c + "b")}, {"op": "enc", "b": B(c)}, {"op": "dec", "b": B("".join("%%%02X" % x for x in c.encode()))}]
            for w in ("path", "query", "username", "password", "domain"):
                base = [] if w == "domain" else [{"c": "domain", "v": B("h")}]
                if w in ("username", "password"): base += [{"c": "username", "v": B("u")}, {"c": "password", "v": B("p")}]
                ops.append({"op": "build", "calls": [{"c": "scheme", "v": B("http")}] + [x for x in base if x["c"] != w] + [{"c": w, "v": B(("/" if w == "path" else "") + c)}]})
        yield "url", ops
    for g in group(words(), 3):
        ops = []
        for w in g:
            cs = [{"c": "scheme", "v": B(pick(rng, url.SCH))}, {"c": "domain", "v": B("h")}]
            for x in ("username", "password", "query"):
                if rng.random() < .5: cs.append({"c": x, "v": B(w)})
            cs.append({"c": "path", "v": B("/" + w)})
            ops += [{"op": "build", "calls": cs}, {"op": "enc", "b": B(w)}, {"op": "dec", "b": B(w)}]
        yield "url", ops
    for p in numbers(65535):
        yield "url", [{"op": "build", "calls": [{"c": "scheme", "v": B(s)}, {"c": "domain", "v": B("h")}, {"c": "port", "n": p}, {"c": "path", "v": B("/")}]} for s in some(rng, url.SCH, 3)]
    for l in ladder(rng, tier, 3000, 60, 30):
        yield "url", [{"op": "build", "calls": [{"c": "scheme", "v": B("http")}, {"c": "domain", "v": B("h")}, {"c": w, "v": B("/") + data(rng, l, True)}]} for w in ("path", "query")] + [{"op": "enc", "b": data(rng, l, True)}]

# ---------------------------------------------------------------- HPACK
def literal(rng, n, v, index=True):
    """a literal field, by a predefined name where there is one"""
    nm = [k + 1 for k, (a, c) in enumerate(hp.STATIC) if a == n]
    lead, bits = (64, 6) if index else pick(rng, [(0, 4), (16, 4)])
    s = lambda x: hp.st(x) if rng.random() < .5 or len(x) > 3000 else hp.ienc(len(hp.huff(x)), 7, 128) + hp.huff(x)
    return (hp.ienc(pick(rng, nm), bits, lead) if nm and rng.random() < .7 else [lead] + s(n)) + s(v)
def v_decode(rng, tier):
    wide = {"op": "resize", "who": "dec", "n": 1 << 29}
    # integers of every magnitude where the number can be seen: size updates under a wide limit
    ks = sorted({(1 << k) + d for k in range(5, 29) for d in (-1, 0, 1)} | {rng.randrange(1 << k, 2 << k) for k in range(4, 28) for _ in range(3)} | set(numbers((1 << 29) - 1, 32)) | {31 + (a << (7 * k)) for a in (1, 127) for k in range(4)} | {31 + 128 ** k + d for k in range(1, 5) for d in (-1, 0, 1)})
    for k in ks:
        if k < 1 << 29: yield "hp", [wide, hp.dec(hp.ienc(k, 5, 32) + [64] + hp.st(B("a")) + hp.st(B("b"))), hp.dec([190])]
    for l in ladder(rng, tier, 9000, 140, 60):
        n = pick(rng, hp.STATIC)[0] if rng.random() < .4 else B("x-") + data(rng, pick(rng, [1, l % 200]), True)
        v = data(rng, l)
        yield "hp", [hp.dec(literal(rng, n, v)), hp.dec([190]), hp.dec(literal(rng, B("z"), B("w")) + [191]), hp.dec([64 + 62 - 63 + 0] if False else literal(rng, n, v, False))]
        if 0 < l <= 300:
            nm = data(rng, l, True)
            yield "hp", [hp.dec(literal(rng, nm, B("v"))), hp.dec([190]), hp.dec([0x7e] + hp.st(B("other")))]
    for w in tokens():
        yield "hp", [hp.dec(literal(rng, B(w.lower()), B(w))), hp.dec([190]), hp.dec(literal(rng, B(w.lower()), B(""), False))]
    # references at every depth of a large table
    cnt = 400 if tier == "thorough" else 210
    fill = [{"op": "resize", "who": "dec", "n": 60000}] + [hp.dec(sum(([64] + hp.st(B("n%d" % i)) + hp.st(B("v%d" % (i % 7))) for i in range(a, min(a + 50, cnt))), [])) for a in range(0, cnt, 50)]
    for a in range(62, 62 + cnt + 3, 40):
        yield "hp", fill + [hp.dec(hp.ienc(k, 7, 128)) for k in range(a, a + 40, 3 if tier != "thorough" else 1) if k < 62 + cnt] + [hp.dec(hp.ienc(a, 4, 0) + hp.st(B("w")))] + [hp.dec(hp.ienc(62 + cnt, 7, 128))]
def v_sync(rng, tier):
    def ed(hs): return {"op": "encdec", "hs": hs, "form": rng.randrange(3)}
    A, Z = [B("aa"), B("1")], [B("zz"), B("2")]
    # one field of every size among others, new and again; the others are still found afterwards
    for l in ladder(rng, tier, 9000, 140, 80):
        n = list(pick(rng, hp.STATIC)[0]) if rng.random() < .5 else B("big")
        v = data(rng, l)
        yield "hp", [ed([A, Z]), ed([[n, v], A, Z, [n, v]]), ed([Z, [n, v], A]), ed([[n, B("other")], Z])]
        if l and l < 1200: yield "hp", [ed([A, [data(rng, l, True), B("v")], Z]), ed([Z, A])]
    for n, v in hp.STATIC:
        for l in some(rng, ladder(rng, "thorough", 6000, 5), 3 if tier != "thorough" else 12):
            yield "hp", [ed([A, [n, data(rng, l)], Z]), ed([A, Z, [n, B("s")]]), ed([A, Z])]
    for w in tokens():
        yield "hp", [ed([A, [B(w), B(w)], [B("n"), B(w)]]), ed([[B(w.lower()), B(w)], [B(w), B("")], A])]
    for n in numbers(6000):
        yield "hp", [{"op": "resize", "who": "both", "n": n}, ed([A, Z, [B("q"), data(rng, min(n, 300))]]), ed([A, Z]), {"op": "resize", "who": "both", "n": max(0, n - 33)}, ed([Z, A])]
    many = [[B("k%d" % i), B("v%d" % (i % 3))] for i in range(300)]
    yield "hp", [{"op": "resize", "who": "both", "n": 100000}] + [ed(many[a:a + 60]) for a in range(0, 300, 60)] + [ed([x]) for x in some(rng, many, 40)] + [ed([[n, B("nv")] for n, v in some(rng, many, 30)])] + [ed([x]) for x in some(rng, many, 30)]
    for v in numbers((1 << 31) - 1):
        yield "hp", [{"op": "int", "v": v, "n": n, "lead": 0} for n in (4, 5, 6, 7)]
def v_table(rng, tier):
    def add(n, v): return {"op": "tadd", "n": n, "v": v, "form": rng.randrange(3)}
    def find(n, v): return {"op": "tfind", "n": n, "v": v, "form": rng.randrange(3)}
    rz = lambda n: {"op": "tresize", "n": n}
    # a large table: every entry is found, by index, by name and by both
    for cnt in (40, 66, 130, 210) + ((400, 900) if tier == "thorough" else ()):
        es = [[B("n%d" % (i if i % 5 else i // 5)), B("v%d" % (i % 3))] for i in range(cnt)]
        fill = [rz(100000)] + [add(*e) for e in es]
        asks = [o for i in some(rng, range(cnt), min(cnt, 40)) for o in (find(*es[i]), find(es[i][0], B("none")), {"op": "tget", "i": 62 + i})]
        for g in group(asks, 60): yield "hp", fill + g + [{"op": "tget", "i": 61 + cnt}, {"op": "tget", "i": 62 + cnt}, {"op": "tget", "i": 63 + cnt}]
        yield "hp", fill + [rz(pick(rng, [36 * k for k in (1, 5, 30)]))] + some(rng, asks, 10) + [add(*es[0]), find(*es[0]), find(*es[-1])]
    for l in ladder(rng, tier, 6000, 70, 40):
        n = pick(rng, hp.STATIC)[0] if rng.random() < .3 else B("n")
        v = data(rng, l)
        yield "hp", [add(B("a"), B("1")), add(n, v), find(n, v), find(B("a"), B("1")), find(n, v[:-1]), {"op": "tget", "i": 62}, {"op": "tget", "i": 63}, rz(l + 33), {"op": "tget", "i": 62}, {"op": "tget", "i": 63}]
        yield "hp", [rz(l), add(B("a"), B("1")), add(B("b"), B("")), find(B("a"), B("1")), {"op": "tget", "i": 62}, {"op": "tget", "i": 63}, add(data(rng, min(l, 200), True), []), {"op": "tget", "i": 62}]
    for w in tokens(): yield "hp", [find(B(w), B("")), add(B(w), B(w)), find(B(w), B(w)), find(B(w.lower()), B(w)), find(B(w), B(w.swapcase())), {"op": "tget", "i": 62}]
def v_huffman(rng, tier):
    for w in words(): yield "hp", [{"op": "henc", "b": B(w)}, {"op": "hlow", "b": B(w)}, {"op": "hdec", "b": hp.huff(B(w))}]
    for l in ladder(rng, tier, 5000, 140, 50):
        d = data(rng, l)
        yield "hp", [{"op": "henc", "b": d}, {"op": "hlow", "b": d}, {"op": "hdec", "b": hp.huff(d)}, {"op": "hdec", "b": mutate(rng, hp.huff(d)) if l < 600 else hp.huff(d)[:-1]}]
    # every symbol next to every class of symbol
    for c in range(256):
        yield "hp", [{"op": op, "b": f([c, x, c])} for x in some(rng, range(256), 4) for op, f in (("henc", list), ("hdec", hp.huff))]

# ---------------------------------------------------------------- HTTP/2
def v_frames(rng, tier):
    for l in ladder(rng, tier, 20000, 70, 40):
        d = data(rng, l)
        p = rng.randrange(256)
        ops = [h2.rd(h2.fr(h2.DATA, 1, pick(rng, h2.SIDS), d)), h2.rd(h2.fr(h2.DATA, 8, 1, [p] + d + [0] * p))]
        if l < 3000: ops += [h2.rd(h2.fr(h2.GOAWAY, 0, 0, be4(l) + be4(0) + d)), h2.enc(h2.F("goaway", id=l, code=be4(l), p=d)), h2.rd(h2.fr(h2.HEADERS, 5, 1, literal(rng, B("x-q"), vdata(rng, l)))), h2.enc(h2.F("data", sid=1 + l, fl=pick(rng, [0, 1, 8]), p=d, form=rng.randrange(2)))]
        yield "h2", ops
    for n in sorted({x for v in numbers((1 << 31) - 1, 1) for x in (v,)}):
        yield "h2", [h2.rd(h2.fr(h2.RST, 0, n, be4(n))), h2.rd(h2.fr(h2.WINDOW, 0, n, be4(n))), h2.rd(h2.fr(h2.GOAWAY, 0, 0, be4(n) + be4(n))), h2.rd(h2.fr(h2.PUSH, 4, n, be4(n) + [130])), h2.rd(h2.fr(h2.PRIORITY, 0, n, be4(n ^ 1) + [n & 255])),
                     h2.enc(h2.F("reset", sid=n, code=be4(n))), h2.enc(h2.F("window", sid=n, id=n)), h2.enc(h2.F("push", sid=n, id=n, fl=4)), h2.enc(h2.F("goaway", id=n, code=be4(n), p=[1])), {"op": "hdr", "b": h2.fr(n & 255, n >> 3 & 255, n, [], n & 0xffffff), "form": n & 1}]
def v_malformed(rng, tier):
    for kind in range(10):
        for l in some(rng, ladder(rng, "thorough", 20000, 30), 40 if tier == "thorough" else 10):
            fl = pick(rng, [0, 1, 4, 8, 12, 0x20, 0x24, 0x2c]); d = data(rng, l)
            if d and fl & 8: d[0] = pick(rng, [0, 1, l & 255, (l - 1) & 255, (l - 2) & 255, 255])
            yield "h2", [h2.rd(h2.fr(kind, fl, pick(rng, [0, 1, 3]), d) + h2.fr(h2.PING, 0, 0, [5] * 8))]
    for n in numbers((1 << 32) - 1):
        i = pick(rng, list(h2.SET))
        yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, i] + be4(n))), h2.rd(h2.fr(h2.WINDOW, 0, 1, be4(n))), h2.rd(h2.fr(h2.PRIORITY, 0, max(1, n & 0x7fffffff), be4(n) + [1])), h2.rd(h2.fr(h2.PUSH, 4, 1, be4(n) + [130]))]
    for w in words():
        hs = pick(rng, [[[B(":method"), B(w)]], [[B(":path"), B(w)]], [[B(":authority"), B(w)]], [[B(":scheme"), B(w)]], [[B(":status"), B(w)]], [[B(w), B("x")]], [[B("x"), B(w)]], [[B(":" + w.lower()), B("GET")]]])
        yield "h2", [h2.rd(h2.fr(h2.HEADERS, 5, 1, h2.block(rng, hs + h2.rfields(rng))))]
def v_fragment(rng, tier):
    for m in numbers(1200, 16)[::1 if tier == "thorough" else 3]:
        for l in (m - 10, m - 9, m - 1, m, m + 1, 2 * m):
            if l >= 0: yield "h2", [h2.enc(h2.F("data", sid=1, fl=pick(rng, [0, 1, 8, 9]), p=data(rng, l)), m), h2.enc(h2.F("headers", sid=3, fl=pick(rng, [0, 1, 4, 8]), hs=[[B("x-q"), vdata(rng, max(0, l - 6))]]), m), h2.enc(h2.F("push", sid=3, fl=4, id=6, hs=[[B("x-q"), vdata(rng, max(0, l - 10))]]), m)]
    for l in ladder(rng, tier, 40000, 20, 30):
        m = pick(rng, [16, 100, 256, 1000, 16384]) if l < 3000 else pick(rng, [1000, 16384, 16385])
        yield "h2", [h2.enc(h2.F("data", sid=1, fl=pick(rng, [0, 1, 8, 9]), p=data(rng, l)), m), h2.enc(h2.F("headers", sid=3, fl=1, hs=[[B("n%d" % k), B("v")] for k in range(min(l, 200))]), m)]
def v_settings(rng, tier):
    import base64
    for n in numbers((1 << 32) - 1):
        i = pick(rng, list(h2.SET)); s = [[] for _ in range(8)]
        for j in h2.SET:
            if n in h2.SET[j] or (j in (1, 3, 6)) or (j == 4 and n < 1 << 31) or (j == 5 and 16384 <= n < 1 << 24): s[j - 1] = [be4(n)] if rng.random() < .7 else []
        p = sum(([0, j + 1] + x[0] for j, x in enumerate(s) if x), [])
        yield "h2", [{"op": "sett", "sett": s}, h2.enc(h2.F("settings", sett=s)), h2.rd(h2.fr(h2.SETTINGS, 0, 0, p)), {"op": "b64", "b": list(base64.urlsafe_b64encode(bytes(p)).rstrip(b"="))}, h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, i] + be4(n)))]
        if n < 65536: yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, list(n.to_bytes(2, "big")) + be4(pick(rng, [0, 1, 16384])))), {"op": "b64", "b": list(base64.urlsafe_b64encode(bytes(list(n.to_bytes(2, "big")) + be4(16384))).rstrip(b"="))}]
    # many entries, the last one counts
    for k in ladder(rng, "quick", 300, 20, 20):
        p = sum(([0, pick(rng, list(h2.SET) + [9])] + be4(16384 if rng.random() < .2 else pick(rng, [0, 1])) for _ in range(k)), [])
        yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, p)), {"op": "b64", "b": list(base64.urlsafe_b64encode(bytes(p)).rstrip(b"="))}]
def v_messages(rng, tier):
    ok = [w for w in tokens()]
    for w in ok:
        o = h2.xreq(rng); o = dict(o, hs=h2.rfields(rng, 2) + [[B(w.lower()), B(pick(rng, ["v", w]))]] + h2.rfields(rng, 2), max=h2.HUGE)
        p = h2.xresp(rng); p = dict(p, hs=h2.rfields(rng, 2) + [[B(w.lower()), B(w)]] + h2.rfields(rng, 2), max=h2.HUGE)
        yield "h2", [o, p, dict(o), dict(p)]
    for l in ladder(rng, tier, 6000, 50, 40):
        d = data(rng, l)
        o = dict(h2.xreq(rng), max=h2.HUGE); p = dict(h2.xresp(rng), max=h2.HUGE)
        if rng.random() < .5: o["body"] = p["body"] = d
        else:
            d = vdata(rng, l); o["hs"] = o["hs"] + [[B("x-v"), d]]; p["hs"] = p["hs"] + [[B("x-v"), d]]
        if o["mfs"] < 50 and l > 500: o["mfs"] = p["mfs"] = 16384
        yield "h2", [o, p]
    for n in numbers((1 << 31) - 1, 1)[::1 if tier == "thorough" else 2]: yield "h2", [dict(h2.xreq(rng), sid=n, max=h2.HUGE), dict(h2.xresp(rng), sid=n, max=h2.HUGE)]
    for n in numbers(999, 100): yield "h2", [dict(h2.xresp(rng), st=n, max=h2.HUGE)]
    # URLs: every port by the schemes that give some ports a meaning, the words in every place
    us = [B("%s://%s:%d/%s" % (s, pick(rng, ["h", "a.b", "[::1]", "u:p@h"]), n, pick(rng, ["", "x?y=z"]))) for n in numbers(65535) for s in (["http", "https"] + some(rng, ["ws", "wss", "ftp", "x"], 2 if tier == "thorough" else 1))]
    ws = [B(p % (w.lower() if p[:3] == "%s:" else w)) for w in words() for p in some(rng, ["http://%s/", "http://h/%s", "/%s", "http://h/a?%s", "%s://h/", "http://u:%s@h/", "https://h?%s", "https://h.%s:8/"], 4 if tier == "thorough" else 2)]
    for g in group(us, 6): yield "h2", [dict(h2.xreq(rng), form=1, url=u, hs=[], max=h2.HUGE) for u in g]
    for g in group(ws, 4): yield "h2", [dict(h2.xreq(rng), form=1, url=u, max=h2.HUGE) for u in g]

# ---------------------------------------------------------------- WebSocket
def v_ws(rng, tier):
    for l in ladder(rng, tier, 70000, 140, 40):
        m = pick(rng, ws.MASKS); d = data(rng, l); o = pick(rng, [0, 1, 2, 2, 9, 15] if l > 125 else ws.OPCS)
        h = ws.header(128 * rng.randrange(2) + o, l, m)
        w = h + ws.xor(m, d)
        yield "ws", [{"op": "wr", "fin": 1, "rsv": [0, 0, 0], "opc": o, "data": d, "mask": m}, ws.rd(w, pick(rng, [-1, l, max(0, l - 1)])), ws.rd(w[:-1]), ws.hd(h)]
    for n in numbers((1 << 64) - 1):
        yield "ws", [{"op": "wh", "fin": rng.randrange(2), "rsv": [0, 0, 0], "opc": n & 15, "mask": pick(rng, ws.MASKS), "len": be8(n)}, ws.hd(ws.header(0x80 | n & 15, n, pick(rng, ws.MASKS))), ws.rd(ws.header(0x82, n, []) + [1, 2, 3], pick(rng, [-1, n if n < 1 << 31 else 5, 4]))]
def be8(n): return list(n.to_bytes(8, "big"))
def v_assembly(rng, tier):
    for l in ladder(rng, tier, 20000, 70, 40):
        d = data(rng, l)
        for o in (1, 2, 9):
            e = d if o != 1 or rng.random() < .3 else [x & 127 for x in d]
            if o == 9 and l > 3000: continue
            k = rng.randrange(l + 1)
            yield "ws", [{"op": "asm", "frames": [ws.fr(1, o, e)]}, {"op": "asm", "frames": [ws.fr(0, o, e[:k]), ws.fr(1, 0, e[k:])]}]
        if 0 < l <= 300: yield "ws", [{"op": "asm", "frames": [ws.fr(1 if j == l - 1 else 0, 0 if j else 1, B(pick(rng, UTF))) for j in range(l)]}]
    for n in numbers(65535):
        yield "ws", [{"op": "asm", "frames": [ws.fr(1, 8, list(n.to_bytes(2, "big")) + B(pick(rng, UTF)))]}]
    for c in utf8_ladder(rng, tier):
        t = B("a" + c + "z")
        for a in range(len(t) + 1): yield "ws", [{"op": "asm", "frames": [ws.fr(0, 1, t[:a]), ws.fr(1, 0, t[a:])]}, {"op": "asm", "frames": [ws.fr(1, 8, [3, 232] + t[:a])]}, {"op": "asm", "frames": [ws.fr(0, 1, t[:a]), ws.fr(0, 0, []), ws.fr(1, 0, t[a + 1:])]}]
def v_wsmsg(rng, tier):
    for l in ladder(rng, tier, 70000, 140, 40):
        k = pick(rng, ["text", "binary"] if l > 120 else ["text", "binary", "ping", "pong", "close"])
        d = data(rng, l)
        if k in ("text", "close"): d = [x & 127 for x in d]
        hc = 1 if k == "close" and (l or rng.random() < .5) else 0
        o = dict(kind=k, data=d, hascode=hc, code=pick(rng, numbers(65535) or [1000, 3000]) if hc else 0)
        yield "ws", [dict(o, op="msg", api=pick(rng, ["owned", "borrowed", "conv"]), mask=pick(rng, ws.MASKS)), dict(o, op="txm", mask=pick(rng, ws.MASKS)), {"op": "mv", "n": 1 + rng.randrange(l + 9)}, {"op": "rx"}, {"op": "mv", "n": 1000000}, {"op": "rx"}, {"op": "take"}]
    for n in numbers(65535):
        yield "ws", [{"op": "code", "code": n, "data": B(pick(rng, UTF))}, dict(kind="close", data=B(pick(rng, UTF)), hascode=1, code=n, op="msg", api=pick(rng, ["owned", "borrowed", "conv"]), mask=pick(rng, ws.MASKS))]

# ---------------------------------------------------------------- writers on one buffer
def v_out(rng, tier):
    W = lambda k, **x: out.w(rng, k, **x)
    for l in ladder(rng, tier, 20000, 70, 50):
        d = data(rng, l); t = [c & 127 for c in d]; v = [c for c in vdata(rng, l)]
        ops = [W(pick(rng, out.KINDS))] + [W("chunk", b=d), W("sl", b=d), W("bin", b=d, skip=pick(rng, [0, l, l // 2])), W("str", b=t), W("mask", ps=[d, d[:l % 5], d])] + [W(pick(rng, out.KINDS))]
        yield "out", ops if l < 3000 else [dict(o, times=1) for o in ops[1:3]]
        if l < 4000: yield "out", [W("hv", b=v, form=rng.randrange(3)), W("map", hs=[[B("a"), v], [B("b"), B("c")]]), W("resp", hs=[[B("Content-Length"), B(str(l))]], b=t, times=1), W("req", b=t, times=1), W("goaway", d=d, times=1)]
        if l < 150: yield "out", [W("map", hs=[[B("f%d" % j), B(str(j))] for j in range(l)], times=1), W("req", hs=[[B("f%d" % j), B(str(j))] for j in range(l)], times=1)]
    for ws in group(words(), 3):
        ops = []
        for x in ws:
            ops += [W("lit", b=B(x)), W("hv", b=[c for c in B(x) if c >= 32 and c != 127], form=rng.randrange(3)), W("goaway", d=B(x)), W("chunk", b=B(x))]
            if re.fullmatch(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+", x): ops += [W("hn", b=B(x), form=rng.randrange(3)), W("map", hs=[[B(x), B(x)]]), W("resp", hs=[[B(x), B("1")]]), W("req", hs=[[B("n"), B(x)], [B(x + "-x"), B("2")]])]
        yield "out", ops
    for n in numbers((1 << 32) - 1):
        yield "out", [W(k, b=be4(n), times=1) for k in ("inc", "sid", "erc", "u24")] + [{"op": "rd", "k": k} for k in ("inc", "sid", "erc", "u24")] + [W("rst", b=be4(n)), W("goaway", b=be4(n)), W("fh", len=be4(n)[1:], times=1), {"op": "drop", "n": 0}]
        if 0 < n < 1 << 31: yield "out", [W("wu", sid=be4(n), b=be4(n)), W("prio", sid=be4(n), b=be4(n - 1) if n > 1 else be4(7), w=n & 255), W("fh", sid=be4(n), times=1), W("rst", sid=be4(n))]
        if 100 <= n < 1000: yield "out", [W("st", n=n), W("resp", c=n), W("resph", c=n)]
def c_out(rng, tier):
    for n in times(tier, 600):
        yield "out", [out.w(rng, pick(rng, ["lit", "st", "hv", "inc", "chunk", "ack", "sid"]), times=1) for _ in range(n)]
        yield "out", [out.w(rng, pick(rng, ["mth", "ver", "ack", "inc", "ping", "wu"]), times=n)]
        yield "out", [out.w(rng, "vec", b=[j % 256 for j in range(4 * n + 2)], times=1)] + [out.rd(pick(rng, ["sid", "inc", "u24"])) for _ in range(n)]

# ---------------------------------------------------------------- flags, stream numbers, frames by weight
def v_que(rng, tier):
    for l in ladder(rng, tier, 5000, 60, 40):
        yield "que", [que.push(rng, k, p=data(rng, l)) for k in ("data", "goaway", "headers", "push")] + [que.edit(rng, "data", p=data(rng, l)), que.edit(rng, "headers", p=vdata(rng, l))] + [{"op": "pop"}] * 4
        if l < 200: yield "que", [que.push(rng, pick(rng, que.KINDS), w=(j * 7) % 256) for j in range(l)] + [{"op": "pop"}] * (l + 1)
    for ws in group(words(), 4):
        yield "que", [que.push(rng, k, p=[c for c in B(x) if k not in ("headers", "push") or c >= 32]) for x in ws for k in ("data", "goaway", "headers", "push")] + [que.edit(rng, k, p=[c for c in B(x) if c >= 32 and c != 127]) for x in ws for k in ("data", "headers", "push")] + [{"op": "pop"}] * 3
    for n in numbers((1 << 31) - 3):
        ops = [{"op": "id", "n": n}, {"op": "next"}, {"op": "next"} if n < (1 << 31) - 5 else {"op": "pop"}] + [{"op": "cmp", "a": a, "b": b} for a, b in ((n, n), (n, n + 1), (n + 1, n), (n, 7), (7, n))]
        if n: ops += [que.push(rng, k, sid=n) for k in que.KINDS] + [que.push(rng, k, n=n) for k in ("push", "goaway")] + [que.push(rng, k, p=be4(n)) for k in ("wu", "rst", "settings", "goaway")] + [que.push(rng, "prio", p=be4(n), sid=n % 1000 + 2 if n % 1000 + 2 != n else 1)]
        if n < 256: ops += [que.push(rng, pick(rng, que.KINDS), w=n), {"op": "setw", "n": n}, {"op": "flag", "n": n}] + [{"op": "wcmp", "a": a, "b": b} for a, b in ((n, n), (n, 255 - n), (max(n - 1, 0), n), (n, 0), (0, n))]
        yield "que", ops + [{"op": "pop"}] * 6
def c_que(rng, tier):
    for n in times(tier, 600):
        yield "que", [{"op": "id", "n": pick(rng, [1, 2])}] + [{"op": "next"}] * n
        yield "que", [que.push(rng, pick(rng, ["rst", "wu"]), w=pick(rng, [0, 15, 16, 255])) for _ in range(n // 2)] + [{"op": "pop"}] * (n // 2)
        yield "que", [x for _ in range(n // 2) for x in (que.push(rng, "rst"), {"op": "pop"})]
        yield "que", [que.flag(rng) for _ in range(n)]

# ---------------------------------------------------------------- octets
def v_oct(rng, tier):
    C = lambda a, b: {"op": "cmp", "a": a, "b": b}
    for l in ladder(rng, tier, 5000, 80, 60):
        d = data(rng, l); j = rng.randrange(l) if l else 0
        if l < 1500 or tier == "thorough":
            yield "oct", [C(d, d), C(d, octs.other(rng, d)), C(d, d[:-1]), C(d, d[j:j + 20]), C(d[j:j + 20], d), C(octs.swap(d), d), C(d, d + [0])]
        yield "oct", [{"op": "unhex", "b": octs.hexed(rng, d)}, {"op": "fill", "b": d + [13, 10]}, {"op": "line"}, {"op": "skip", "n": l}, {"op": "line"}, {"op": "line"}]
    for ws in group(words(), 5):
        yield "oct", [x for w in ws for x in (C(B(w), octs.swap(B(w))), C(B(w), B(w)[1:]), C(B("x" + w + "y"), B(w)), C(B(w), octs.other(rng, B(w))), {"op": "fill", "b": B(w)}, {"op": "line"}, {"op": "skip", "n": 1})]

# ---------------------------------------------------------------- messages as values
def v_builders(rng, tier):
    tk = tokens()
    for w in tk:
        for kind in ("req", "resp"):
            ops = msg.chain(rng, kind, 2, True) + [{"op": "header", "k": B(w), "v": B(pick(rng, tk)), "as": rng.randrange(3)}] + [msg.bcall(rng, kind, True) for _ in range(2)] + [{"op": "headers", "hs": [[B(pick(rng, tk)), B(w)], [B(w.lower()), B("z")]]}, msg.body(rng), {"op": "write"}]
            yield "msg", ops
    for w in words():
        yield "msg", [msg.new(rng, "req"), {"op": pick(rng, ["url", "method"]), "v": B(w), "as": rng.randrange(2)}, msg.bcall(rng, "req", True), msg.body(rng)]
    for n in numbers(65535): yield "msg", [msg.new(rng, "resp"), {"op": "status", "v": B(str(n)), "as": rng.randrange(4)}, msg.bcall(rng, "resp", True), msg.body(rng)]
    for l in ladder(rng, tier, 3000, 30, 30):
        x = "".join(map(chr, [97 + c % 26 for c in data(rng, l)]))
        yield "msg", [msg.new(rng, "resp"), {"op": "header", "k": B("x" + x[:200]), "v": B(x), "as": rng.randrange(3)}, {"op": "body", "b": B(x), "str": rng.randrange(3)}, {"op": "write"}]
        yield "msg", [msg.new(rng, "req"), {"op": "url", "v": B("http://h/" + x), "as": rng.randrange(4)}, {"op": "header", "k": B("x"), "v": B(x), "as": 0}, {"op": "body", "b": B(x), "str": rng.randrange(3)}, {"op": "write"}]
def v_values(rng, tier):
    """a message with every registered field (and many others) through every change and copy"""
    tk = sorted({w.lower() for w in tokens()})
    rng.shuffle(tk)
    for kind in ("req", "resp"):
        for how in ("type", "into", "copy", "parts", "swap", "fillnothing"):
            for k in range(3 if kind == "req" else 4):
                for g in group(tk, 45):
                    ops = [{"op": "new", "kind": kind, "how": 0}, {"op": "headers", "hs": [[B(w), B(pick(rng, ["v", w]))] for w in g]}, {"op": "body", "b": B("bb"), "str": k % 3 if how != "type" else rng.randrange(3)}]
                    if how == "type": ops += [{"op": "type", "how": k}]
                    elif how == "into": ops += [{"op": "into", "b": B("cc"), "str": k % 3}]
                    elif how == "copy": ops += [{"op": "copy", "b": B("dd")}, {"op": "swap"}]
                    elif how == "parts" and kind == "req": ops += [{"op": "parts"}, {"op": "swap"}]
                    elif how == "swap": ops += [{"op": "copy", "b": B("e")}, {"op": "hrem", "k": B(pick(rng, g))}, {"op": "hset", "k": B(pick(rng, g)), "v": B("1"), "as": k % 2}, {"op": "swap"}]
                    else: ops += [{"op": "vset", "n": pick(rng, msg.VERS), "as": k % 2}, {"op": "eset", "k": 1, "n": k}]
                    yield "msg", ops + [{"op": "write"}]
    for l in ladder(rng, tier, 3000, 20, 20):
        x = B("".join(chr(97 + c % 26) for c in data(rng, l)))
        for kind in ("req", "resp"):
            ops = [{"op": "plain", "kind": kind, "how": rng.randrange(4), "b": x}, {"op": "hset", "k": B("k"), "v": x, "as": 0}] + [msg.mop(rng, kind) for _ in range(2)] + [{"op": "into", "b": x, "str": rng.randrange(2)}, {"op": "type", "how": rng.randrange(4)}, {"op": "copy", "b": x[:5]}, {"op": "write"}]
            yield "msg", ops
def v_hostile(rng, tier):
    """damaged inputs around the words and numbers of the code"""
    from . import robust
    for kind in ("req", "resp"):
        for b in heads(rng, "quick", kind, 500, 10):
            if rng.random() < .4: yield "http1", [http1.obj(kind), http1.parse(robust.spoil(rng, b, http1.ALPHA)), http1.parse(b[:rng.randrange(len(b) + 1)])]
    for b in v_url_texts(rng, "quick"):
        if len(b) < 600 and rng.random() < .5: yield "url", [url.P(robust.spoil(rng, b, url.ALPHA), rng), {"op": "dec", "b": B(bytes(robust.spoil(rng, b, list(b"%%4aZ"))).decode("utf8", "ignore"))}]
    for g in (v_frames, v_malformed):
        for fam, ops in g(rng, "quick"):
            if rng.random() < .5: yield fam, [dict(o, b=robust.spoil(rng, o["b"], robust.NB)) if o["op"] == "read" else o for o in ops]
    for fam, ops in v_decode(rng, "quick"):
        if rng.random() < .3: yield fam, [dict(o, b=robust.spoil(rng, o["b"], robust.NB)) if o["op"] == "dec" and len(o["b"]) < 600 else o for o in ops]
    for fam, ops in v_ws(rng, "quick"):
        if rng.random() < .5: yield fam, [dict(o, b=robust.spoil(rng, o["b"], robust.NB)) if o["op"] in ("rd", "hd") else o for o in ops]

# ---------------------------------------------------------------- fresh words in the pools of the other generators
def seasoned(g):
    """the sessions of a generator whose pools are half filled with the fresh words and numbers"""
    def run(rng, tier):
        ws, ns, _ = fresh()
        if not ws and not ns: return
        low = [n for n in ns if n < 1 << 70]
        plain = [w for w in ws if all(32 <= ord(c) and ord(c) != 127 for c in w)] + [str(n) for n in low]
        vis = [w for w in plain if all(33 <= ord(c) < 127 for c in w)]
        toks = [w for w in plain if re.fullmatch(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+", w)]
        host = [w for w in vis if re.fullmatch(r"[A-Za-z0-9._-]+", w)]
        ports = [n for n in low if n < 65536]
        up = [w.upper() for w in toks if w.upper() in http1.METHODS]
        pools = [(http1.METHODS, up), (http1.NAMES, toks), (http1.VALS, plain), (http1.TARGETS, ["/" + w for w in vis] + ["/?" + w for w in vis]), (http1.HOSTS, host + ["h:%d" % n for n in ports]), (http1.REASONS, plain),
                 (h2.METHODS, up), (h2.NAMES, [B(w.lower()) for w in toks]), (h2.VALS, [B(w) for w in plain]), (h2.PATHS, ["/" + w for w in host]), (h2.AUTHS, host + ["h:%d" % n for n in ports]), (h2.SIDS, [n for n in low if 0 < n < 1 << 31]),
                 (h2.URLS, ["http://%s/%s" % (pick(rng, host), pick(rng, host)) for w in host] + ["https://h:%d/" % n for n in ports]),
                 (hdr.NM, [w for w in ws if w.isascii()]), (hdr.VL, [B(w) for w in ws]), (hdr.TOK, plain), (hdr.NUMS, [str(n) for n in low]),
                 (hp.NAMES, [B(w) for w in ws]), (hp.VALS, [B(w) for w in ws]), (hp.WNAMES, [B(w) for w in ws]),
                 (url.COMP, host), (url.PATHP, vis), (url.QUERYP, vis), (url.HOSTS, host), (url.PORTS, [":%d" % n for n in low]),
                 (msg.METH, up), (msg.NAMES, toks), (msg.VALS, plain), (msg.TXT, plain)]
        kept = [(p, len(p)) for p, _ in pools]
        try:
            for p, xs in pools:
                if xs: p.extend(xs[k % len(xs)] for k in range(max(len(p), len(xs))))
            ss = list(g(rng, "quick"))
        finally:
            for p, n in kept: del p[n:]
        most = 4000 if tier == "thorough" else 800
        keys = [json.dumps(B(w))[1:-1] for w in ws if len(w) > 1]
        if keys:
            with_, without = [], []
            for x in ss:
                t = json.dumps(x[1])
                (with_ if any(k in t for k in keys) else without).append(x)
            ss = some(rng, with_, min(len(with_), most)) + some(rng, without, min(len(without), most // 4))
        else: ss = some(rng, ss, min(len(ss), most))
        yield from ss
    run.__name__ = "seasoned_" + g.__name__
    return run

# ---------------------------------------------------------------- how many times
def times(tier, top):
    """counts: what a counter may turn over at, and the fresh numbers"""
    xs = {2, 7, 16, 33, 65, 101, 129, 257} | {n + d for n in fresh()[1] for d in (0, 1, 2)}
    if tier == "thorough": xs |= {31, 130, 300, 513, 1025}
    return sorted(x for x in xs if 2 <= x <= top)
def c_http1(how):
    def run(rng, tier):
        for kind in ("req", "resp"):
            for n in times(tier, 1100):
                small = lambda j: http1.text(BASE[kind], [("n", str(j))])
                if how == "reuse": ops = [http1.obj(kind)] + [http1.parse(small(j)) if rng.random() < .9 else http1.parse(small(j)[:rng.randrange(20)]) for j in range(n)]
                elif how == "streams":
                    b = sum((http1.text(BASE[kind], [("Content-Length", "1")]) + [97 + j % 26] if j % 3 else http1.text(BASE[kind], [("Transfer-Encoding", "chunked")]) + chunked(rng, B("xy"), [1, 1]) for j in range(n)), [])
                    ops = [http1.obj(kind)] + [{"op": "recv", "b": p} for p in http1.pieces(rng, b, pick(rng, [1, 3, n // 2 + 1]))]
                elif how == "segments":
                    b = http1.text(BASE[kind], [("n", "v" * n)])
                    ops = [http1.obj(kind)] + [http1.feed([c]) for c in b]
                elif how == "chunks":
                    ops = [http1.obj(kind), {"op": "cenc", "ds": [[97 + j % 26] * (1 + j % 3) for j in range(n)]}, {"op": "cdec", "b": chunked(rng, data(rng, n), [1] * n), "form": n % 2}]
                    ops = ops[1:]
                else: ops = [http1.obj(kind), http1.parse(http1.text(BASE[kind], [("n%d" % j, str(j)) for j in range(n)])), {"op": "ser", "body": [1]}] if how == "roundtrip" else [http1.obj(kind)] + [http1.parse(small(j)) for j in range(n)]
                yield "http1", ops
    run.__name__ = "times_" + how
    return run
def c_hdr(rng, tier):
    for n in times(tier, 400):
        yield "hdr", [hdr.put(rng, "ins", B("a"), B(str(j))) for j in range(n)] + [dict(hdr.lookup(rng, B("A")), op="get"), {"op": "q"}, {"op": "show"}]
        yield "hdr", sum(([hdr.put(rng, "push", B("f%d" % j), B("1")), dict(hdr.lookup(rng, B("F%d" % (j // 2))), op=pick(rng, ["get", "rem"]))] for j in range(n)), []) + [{"op": "show"}]
def c_hp(rng, tier):
    for n in times(tier, 1100):
        yield "hp", [{"op": "encdec", "hs": [[B("k%d" % (j % 9)), B("v%d" % (j % 11))]], "form": j % 3} for j in range(n)]
        yield "hp", [{"op": "encdec", "hs": [[B("k%d" % j), B("v")] for j in range(n)], "form": 0}, {"op": "encdec", "hs": [[B("k%d" % (n - 1)), B("v")], [B("k0"), B("v")]], "form": 1}]
        yield "hp", [hp.dec([64] + hp.st(B("k%d" % (j % 7))) + hp.st(B("v%d" % j)) if j % 4 else [190]) for j in range(1, n + 1)]
def c_hpt(rng, tier):
    for n in times(tier, 1100):
        yield "hp", sum(([{"op": "tadd", "n": B("n%d" % j), "v": B("v"), "form": j % 3}, {"op": "tfind", "n": B("n%d" % (j // 2)), "v": B("v"), "form": j % 3}] for j in range(n)), []) + [{"op": "tget", "i": 62}, {"op": "tget", "i": 61 + n}]
def c_h2(how):
    def run(rng, tier):
        for n in times(tier, 600):
            if how == "messages":
                yield "h2", [dict(pick(rng, [h2.xreq, h2.xresp])(rng), max=h2.HUGE, hs=h2.rfields(rng, 2), mfs=16384, sid=2 * j + 1) for j in range(n)]
            elif how == "settings":
                yield "h2", [h2.rd(h2.fr(h2.SETTINGS, 0, 0, [0, pick(rng, [1, 3, 4, 6])] + be4(j))) for j in range(n)]
            elif how == "fragment":
                yield "h2", [h2.enc(h2.F("headers", sid=1, fl=1, hs=[[B("x-q"), [97] * n]]), 16), h2.enc(h2.F("data", sid=1, fl=1, p=[97] * (16 * n)), 16), h2.enc(h2.F("push", sid=1, id=4, fl=4, hs=[[B("x-%d" % j), B("v")] for j in range(n)]), 16)]
            else:
                yield "h2", [h2.rd(sum((h2.fr(*pick(rng, [(h2.PING, 0, 0, [j % 256] * 8), (h2.DATA, 0, 1, [j % 256]), (h2.WINDOW, 0, 1, be4(j + 1)), (h2.SETTINGS, 0, 0, []), (h2.HEADERS, 4, 1, [130])])) for j in range(n)), []))]
    run.__name__ = "times_" + how
    return run
def c_ws(how):
    def run(rng, tier):
        for n in times(tier, 600):
            if how == "assembly": yield "ws", [{"op": "asm", "frames": [ws.fr(1 if j == n - 1 else 0, 0 if j else 1 + n % 2, [97 + j % 26]) for j in range(n)]}]
            else:
                ops = []
                for j in range(n): ops += [dict(kind=pick(rng, ["text", "binary", "ping"]), data=[97 + j % 26], hascode=0, code=0, op="txm", mask=pick(rng, ws.MASKS)), {"op": "mv", "n": 1000}, {"op": "rx"}]
                yield "ws", ops + [{"op": "take"}]
    run.__name__ = "times_" + how
    return run
