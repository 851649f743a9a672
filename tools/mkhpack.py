#!/usr/bin/env python3
"""Generates spec/HpackTables.tla from Go's copy of the RFC 7541 appendices (independent of the crate).
Run by hand; the output is committed."""
import re, subprocess, os
g = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/vendor/golang.org/x/net/http2/hpack/"
t = open(g + "tables.go").read()
codes = [int(x, 16) for x in re.findall(r"0x[0-9a-f]+", t[t.index("var huffmanCodes"):t.index("var huffmanCodeLen")])]
lens = [int(x) for x in re.findall(r"\d+", t[t.index("var huffmanCodeLen = [256]uint8{") + 31:])][:256]
assert len(codes) == 256
codes.append(0x3fffffff); lens.append(30)
s = open(g + "static_table.go").read()
ents = re.findall(r'\{Name: "([^"]*)", Value: "([^"]*)", Sensitive: false\},', s)
assert len(ents) == 61
sq = lambda xs: "<<" + ", ".join(map(str, xs)) + ">>"
bits = [[(c >> (l - 1 - k)) & 1 for k in range(l)] for c, l in zip(codes, lens)]
assert sum(2.0 ** -l for l in lens) == 1.0
# binary tree: internal nodes numbered from 1; leaf of symbol s is -(s+1)
nodes = [[None, None]]
for sym, bs in enumerate(bits):
    n = 0
    for k, b in enumerate(bs):
        if k == len(bs) - 1: nodes[n][b] = -(sym + 1)
        else:
            if nodes[n][b] is None:
                nodes.append([None, None]); nodes[n][b] = len(nodes)
            n = nodes[n][b] - 1
assert len(nodes) == 256 and all(x is not None for n in nodes for x in n)
o = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "HpackTables.tla"), "w")
o.write("---------------------------- MODULE HpackTables ----------------------------\n(* RFC 7541 Appendix A and B; generated by tools/mkhpack.py *)\nEXTENDS Integers, Sequences\n\n")
o.write("(* code of symbol c is HuffBits[c + 1]; symbol 256 is EOS *)\nHuffBits == <<\n" + ",\n".join("  " + sq(b) for b in bits) + ">>\n\n")
o.write("(* HuffTree[n][bit + 1]: next node, or -(symbol + 1) *)\nHuffTree == <<\n" + ",\n".join("  " + sq(n) for n in nodes) + ">>\n\n")
o.write("StaticTable == <<\n" + ",\n".join("  <<%s, %s>>" % (sq(n.encode()), sq(v.encode())) for n, v in ents) + ">>\n")
o.write("=============================================================================\n")
