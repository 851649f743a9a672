from .util import *
SCH = ["http", "https", "ws", "wss", "ftp", "foo", "a+b-c.d1"]
COMP = ["", "a", "b.c", "%41", "%2F", "%3A", "%40", "%3F", "%23", "%25", "%C3%A9", "%e2%82%ac", "%00", "%20", "x=y", "~", "!$", "&", ";", "1", "é", "%7f", "%5B", "%5D", "%2f%3f"]
PATHP = COMP + ["/", "//", ":", "@", "a@b:c", "[", "]", "|", "/.."]
QUERYP = PATHP + ["?", "??", "=", "&a=b"]
BAD = ["%", "%4", "%zz", "%g0", "%0g", " ", "\x00", "\x7f", "\x01", "%ff", "%c3", "%C3%", "%ed%a0%80"]
HOSTS = ["h", "h.example", "127.0.0.1", "[::1]", "[fe80::1%25x]", "%68", "H", "h_1", "a-b", "%C3%A9"]
PORTS = ["", ":80", ":443", ":0", ":1", ":65535", ":21", ":8080", ":00080"]
BADP = [":65536", ":-1", ":a", ":8a", ":+80", ":", ":99999999999", ":80:81", ": 80", ":%38"]
ALPHA = list(b":/?#@[]%&=.-+a1Z0 \x00\xff")
def some(rng, xs, m): return "".join(pick(rng, xs) for _ in range(rng.randrange(m + 1)))
def good(rng):
    if rng.random() < .25: return "/" + some(rng, PATHP, 4) + ("?" + some(rng, QUERYP, 3) if rng.random() < .5 else "")
    u = some(rng, COMP, 2) + ":" + some(rng, COMP, 2) + "@" if rng.random() < .4 else ""
    return pick(rng, SCH) + "://" + u + pick(rng, HOSTS) + pick(rng, PORTS) + ("/" + some(rng, PATHP, 3) if rng.random() < .7 else "") + ("?" + some(rng, QUERYP, 3) if rng.random() < .5 else "")
def bad(rng):
    k = rng.randrange(9)
    u, h, p = pick(rng, ["", "u:p@"]), pick(rng, HOSTS), pick(rng, PORTS)
    s = pick(rng, SCH) + "://"
    path, q = "/" + some(rng, PATHP, 2), pick(rng, ["", "?" + some(rng, QUERYP, 2)])
    if k == 0: p = pick(rng, BADP)
    elif k == 1: path += pick(rng, BAD) + some(rng, PATHP, 1)
    elif k == 2: q = "?" + pick(rng, BAD) + some(rng, QUERYP, 1)
    elif k == 3: h = pick(rng, BAD + ["", "[::1", "a b", "[", "]", "[]"])
    elif k == 4: u = pick(rng, ["u@", ":@", "u:@", ":p@", "u:p:q@", "u:p@x@", "@", "%zz:p@", "u:%@", "u:p%c3@", "[:p@"])
    elif k == 5: s = pick(rng, ["http:/", "http//", "://", "1http://", "HTTP://", "Http://", "ht tp://", "http:://", "+a://", "a_b://", "é://", "x" * 64 + "://", "x" * 65 + "://", "", "//", "http:", "%68ttp://"])
    elif k == 6: path = pick(rng, ["", "?", "?a", "#f", "/#", "@/", ":"])
    t = B(s + u + h + p + path + q)
    return mutate(rng, t, ALPHA) if k >= 7 else t
def ascii_ok(b): return True
def P(b, rng): return {"op": "parse", "b": b, "form": rng.randrange(4)}
def parsing(rng, tier):
    """C10"""
    n = 10 if tier == "thorough" else 1
    for _ in range(900 * n):
        ops = [P(B(good(rng)) if rng.random() < .45 else bad(rng), rng) for _ in range(5)]
        ops.append({"op": "auth", "b": B(good(rng))})
        yield "url", ops
    # every byte at every position of a URL with all parts
    for t in ("http://u:p@h:81/a?b", "/p?q", "ftp://[::1]/x"):
        b = B(t)
        for p in range(len(b) + 1):
            ops = []
            for c in (range(256) if n > 1 else sorted(set(ALPHA) | {rng.randrange(256) for _ in range(4)} | {33, 126, 127, 128})):
                ops.append(P(b[:p] + [c] + b[p:], rng))
                if p < len(b): ops.append(P(b[:p] + [c] + b[p + 1:], rng))
            ops += [P(b[:p], rng), P(b[:p] + b[p + 1:], rng), P(b[p:], rng)]
            for k in range(0, len(ops), 8): yield "url", ops[k:k + 8]
    for s in SCH:
        yield "url", [P(B(s + "://h" + p + t), rng) for p in PORTS + BADP for t in ("", "/", "?q", "/a?b")]
        yield "url", [{"op": "auth", "b": B(s + "://h" + p)} for p in PORTS]
    yield "url", [P(B("http://h:%d" % p), rng) for p in ([0, 1, 79, 80, 81, 443, 9, 10, 99, 100, 9999, 10000, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 131072 + 80])]
    for _ in range(300 * n):
        yield "url", [P(rbytes(rng, rng.randrange(12), ALPHA), rng) for _ in range(6)]
def formatting(rng, tier):
    """C11"""
    n = 10 if tier == "thorough" else 1
    chars = ["a", "Z", "0", "-", "~", "/", ":", "?", "#", "@", "%", "&", "=", "+", " ", "[", "]", "é", "€", "\U0001F600", "\x00", "\x7f", "%41", "\n", "\"", "<", "|", ";", ",", "!"]
    for c in range(128):
        t = chr(c)
        calls = lambda **k: [{"c": "scheme", "v": B("http")}, {"c": "domain", "v": B(k.get("d", "h"))}] + [{"c": x, "v": B(k[x])} for x in k if x != "d"]
        yield "url", [{"op": "enc", "b": B(t)}, {"op": "enc", "b": B("a" + t + "b")}, {"op": "dec", "b": B("%%%02x" % c)}, {"op": "dec", "b": B("%%%02X" % c)}, {"op": "dec", "b": B("a" + t)}]
        yield "url", [{"op": "build", "calls": calls(path="/a" + t + "b")}, {"op": "build", "calls": calls(query="a" + t + "b")}, {"op": "build", "calls": calls(username="a" + t, password="p")},
                      {"op": "build", "calls": calls(username="a", password="p" + t)}, {"op": "build", "calls": calls(d="a" + t + "b")}, {"op": "build", "calls": [{"c": "path", "v": B("/" + t)}]},
                      {"op": "build", "calls": [{"c": "path", "v": B("/")}, {"c": "query", "v": B(t)}]}]
    for c in range(128, 256):
        yield "url", [{"op": "dec", "b": B("%%%02x" % c)}, {"op": "dec", "b": B("%%C3%%%02x" % c)}, {"op": "dec", "b": B("%%E2%%%02x%%AC" % c)}]
    for _ in range(600 * n):
        ops = []
        for _ in range(3):
            calls = []
            if rng.random() < .8: calls += [{"c": "scheme", "v": B(pick(rng, SCH))}, {"c": "domain", "v": B(pick(rng, ["h", "[::1]", "h.example", "é", some(rng, chars, 4), "a:b", "[a"]))}]
            for w in ("username", "password", "query"):
                if rng.random() < .45: calls.append({"c": w, "v": B(some(rng, chars, 5))})
            if rng.random() < .5: calls.append({"c": "port", "n": pick(rng, [0, 1, 80, 443, 21, 8080, 65535])})
            if rng.random() < .8: calls.append({"c": "path", "v": B(("/" if rng.random() < .95 else "") + some(rng, chars, 6))})
            if rng.random() < .5: rng.shuffle(calls)
            ops.append({"op": "build", "calls": calls})
        ops += [P(B(good(rng)), rng), {"op": "enc", "b": B(some(rng, chars, 10))}, {"op": "dec", "b": B(some(rng, ["%41", "%c3%a9", "%e9", "a", "%", "%4", "%zz", "+", "%25", "é", "%f0%9f%98%80", "%2", "%%"], 5))},
                {"op": "merge", "a": B(good(rng)), "b": B(good(rng))}]
        yield "url", ops
