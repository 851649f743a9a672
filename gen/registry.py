from . import ws, hp, http1, url, h2, hdr, ext, tab, msg, robust, vocab, out, que, octs, patterns, edges
ASSUMPTIONS = ["the specification's own reading of the protocol text is right (TLC checks its internal laws on bounded models)",
               "behaviour of the `algorithm` buffer crate and the Rust toolchain is as observed through the public API"]
M_WS = dict(mod="M_ws", cfg={"quick": "M_ws.cfg", "thorough": "M_ws_big.cfg"}, fam="ws", cap={"quick": 2000, "thorough": 20000})
M_HP = dict(mod="M_hpack", cfg={"quick": "M_hpack.cfg", "thorough": "M_hpack_big.cfg"}, fam="hp", cap={"quick": 2500, "thorough": 20000})
M_H1W = dict(mod="M_http1", cfg={"quick": "M_http1_words.cfg", "thorough": "M_http1_words_big.cfg"}, fam="http1", cap={"quick": 5000, "thorough": 80000})
M_H1S = dict(mod="M_http1", cfg={"quick": "M_http1_stream.cfg", "thorough": "M_http1_stream_big.cfg"}, fam="http1", cap={"quick": 1500, "thorough": 20000})
M_URL = dict(mod="M_url", cfg={"quick": "M_url.cfg", "thorough": "M_url_big.cfg"}, fam="url", cap={"quick": 5000, "thorough": 80000})
M_H2 = dict(mod="M_h2", cfg={"quick": "M_h2.cfg", "thorough": "M_h2_big.cfg"}, fam="h2", cap={"quick": 2000, "thorough": 20000})
M_HDR = dict(mod="M_hdr", cfg={"quick": "M_hdr.cfg", "thorough": "M_hdr_big.cfg"}, fam="hdr", cap={"quick": 2500, "thorough": 40000})
M_EXT = dict(mod="M_ext", cfg={"quick": "M_ext.cfg", "thorough": "M_ext_big.cfg"}, fam="ext", cap={"quick": 3000, "thorough": 40000})
M_TAB = dict(mod="M_tab", cfg={"quick": "M_tab.cfg", "thorough": "M_tab_big.cfg"}, fam="tab", cap={"quick": 6000, "thorough": 100000})
M_MSGB = dict(mod="M_msg", cfg={"quick": "M_msg_calls.cfg", "thorough": "M_msg_calls_big.cfg"}, fam="msg", cap={"quick": 3000, "thorough": 40000})
M_MSGO = dict(mod="M_msg", cfg={"quick": "M_msg_ops.cfg", "thorough": "M_msg_ops_big.cfg"}, fam="msg", cap={"quick": 3000, "thorough": 40000})
M_OUT = dict(mod="M_out", cfg={"quick": "M_out.cfg", "thorough": "M_out_big.cfg"}, fam="out", cap={"quick": 2500, "thorough": 40000})
M_QUE = dict(mod="M_que", cfg={"quick": "M_que.cfg", "thorough": "M_que_big.cfg"}, fam="que", cap={"quick": 3000, "thorough": 40000})
M_OCT = dict(mod="M_oct", cfg={"quick": "M_oct.cfg", "thorough": "M_oct_big.cfg"}, fam="oct", cap={"quick": 2000, "thorough": 40000})
PROPS = {
    "C01": dict(models=[M_H1W], gens=[http1.segments, vocab.v_segments]),
    "C02": dict(models=[M_H1W], gens=[http1.whole("req"), robust.long("req"), vocab.v_whole("req")]),
    "C03": dict(models=[M_H1W], gens=[http1.whole("resp"), robust.long("resp"), vocab.v_whole("resp")]),
    "C04": dict(models=[M_H1S], gens=[http1.roundtrip, vocab.v_roundtrip]),
    "C05": dict(models=[M_H1W], gens=[http1.reuse, vocab.v_reuse]),
    "C06": dict(models=[M_H1S], gens=[http1.streams, vocab.v_streams]),
    "C07": dict(models=[M_H1S], gens=[http1.chunks, robust.long("chunk", "chunks"), vocab.v_chunks]),
    "C08": dict(models=[M_HDR], gens=[hdr.collection, vocab.v_collection]),
    "C09": dict(models=[M_HDR], gens=[hdr.queries, robust.long("len", "tok"), vocab.v_queries]),
    "C10": dict(models=[M_URL], gens=[url.parsing, robust.long("url"), vocab.v_url]),
    "C11": dict(models=[M_URL], gens=[url.formatting, robust.long("pct"), vocab.v_formatting]),
    "C12": dict(models=[M_HP], gens=[hp.decode, robust.long("hpack"), vocab.v_decode]),
    "C13": dict(models=[M_HP], gens=[hp.sync, vocab.v_sync]),
    "C14": dict(models=[M_HP], gens=[hp.table, vocab.v_table]),
    "C15": dict(models=[M_HP], gens=[hp.huffman, robust.long("huff"), vocab.v_huffman]),
    "C16": dict(models=[M_H2], gens=[h2.frames, vocab.v_frames]),
    "C17": dict(models=[M_H2], gens=[h2.malformed, robust.long("h2"), vocab.v_malformed]),
    "C18": dict(models=[M_H2], gens=[h2.fragment, vocab.v_fragment]),
    "C19": dict(models=[M_H2], gens=[h2.settings, robust.long("b64"), vocab.v_settings]),
    "C20": dict(models=[M_H2], gens=[h2.messages, vocab.v_messages]),
    "C21": dict(models=[M_WS], gens=[ws.frames, robust.long("ws"), vocab.v_ws]),
    "C22": dict(models=[M_WS], gens=[ws.assembly, robust.long("wsmsg"), vocab.v_assembly]),
    "C23": dict(models=[M_WS], gens=[ws.messages, vocab.v_wsmsg]),
    "C24": dict(models=[M_H1S, M_URL, M_H2, M_HP, M_WS], gens=[robust.hostile, robust.everything_long, vocab.v_hostile], spec="T_any"),
    "C25": dict(models=[M_EXT], gens=[ext.stores]),
    "C26": dict(models=[M_TAB], gens=[tab.words]),
    "C27": dict(models=[M_MSGB], gens=[msg.builders, vocab.v_builders]),
    "C28": dict(models=[M_MSGO], gens=[msg.messages, vocab.v_values]),
    "C29": dict(models=[M_OUT], gens=[out.writers, vocab.v_out]),
    "C30": dict(models=[M_QUE], gens=[que.queue, vocab.v_que]),
    "C31": dict(models=[M_OCT], gens=[octs.octets, vocab.v_oct]),
}
# how many times: long histories of small steps
COUNTS = {"C01": [vocab.c_http1("segments")], "C02": [vocab.c_http1("whole")], "C03": [vocab.c_http1("whole")], "C04": [vocab.c_http1("roundtrip")], "C05": [vocab.c_http1("reuse")], "C06": [vocab.c_http1("streams")],
          "C07": [vocab.c_http1("chunks")], "C08": [vocab.c_hdr], "C12": [vocab.c_hp], "C13": [vocab.c_hp], "C14": [vocab.c_hpt], "C16": [vocab.c_h2("frames")], "C17": [vocab.c_h2("frames")], "C18": [vocab.c_h2("fragment")],
          "C19": [vocab.c_h2("settings")], "C20": [vocab.c_h2("messages")], "C22": [vocab.c_ws("assembly")], "C23": [vocab.c_ws("messages")], "C29": [vocab.c_out], "C30": [vocab.c_que]}
LONG = {"C01": ["segments"], "C02": [], "C03": [], "C04": ["roundtrip"], "C05": ["reuse"], "C06": ["streams"], "C07": ["chunks"], "C08": ["collection"], "C09": ["queries"], "C10": ["url"], "C11": ["format"], "C12": ["decode"], "C13": ["sync"], "C14": ["table"],
        "C15": ["huffman"], "C16": ["frames"], "C18": ["fragment"], "C19": ["sizes"], "C20": ["messages"], "C21": ["ws"], "C22": ["assembly"], "C23": ["wsmsg"], "C27": ["builders"], "C28": ["values"], "C29": ["out"], "C31": ["octets"]}
for _p, _g in LONG.items(): COUNTS.setdefault(_p, []).extend([getattr(patterns, "long_" + x) for x in _g] + ([patterns.long_whole("req" if _p == "C02" else "resp")] if not _g else []))
# one part very large
EDGES = {"C01": "segments", "C04": "roundtrip", "C05": "reuse", "C06": "streams", "C07": "chunks", "C08": "collection", "C09": "queries", "C10": "url", "C11": "format", "C12": "decode", "C13": "sync", "C14": "table", "C15": "huffman",
         "C16": "frames", "C18": "fragment", "C20": "messages", "C21": "ws", "C22": "assembly", "C23": "wsmsg", "C27": "builders", "C28": "values", "C29": "out", "C31": "octets"}
for _p, _g in list(EDGES.items()) + [("C02", None), ("C03", None)]:
    _g = getattr(edges, "big_" + _g) if _g else edges.big_whole("req" if _p == "C02" else "resp")
    COUNTS.setdefault(_p, []).extend([_g] if _p in ("C02", "C03", "C09", "C16", "C20") else [_g, edges.huge(_g)])
# what the code says that it did not say when the vocabulary was recorded: tried densely and together
for _p, _c in PROPS.items():
    g = list(_c["gens"])
    _c["gens"] = g + COUNTS.get(_p, []) + [vocab.focused(x) if x.__name__.startswith("v_") else vocab.seasoned(x) for x in g if "long" not in x.__name__]
NOT_CLAIMED = {}
