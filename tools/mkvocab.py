#!/usr/bin/env python3
"""records the vocabulary of the present tree of /repo: gen/base_vocab.json"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from gen import vocab
json.dump({f: [{str(k): c for k, c in sorted(d.items(), key=lambda x: str(x[0]))} for d in cs] for f, cs in vocab.read().items()}, open(vocab.BASELINE, "w"), separators=(",", ":"), ensure_ascii=True)
