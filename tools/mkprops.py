#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","HTTP/1 heads parse the same however the bytes arrive",
 "While only a proper prefix of a well-formed request or response head has arrived, parsing reports that more input is needed and never reports completion or a permanent error. Once the head is complete, the decoded message and the number of bytes consumed are the same whatever bytes follow it and however many earlier attempts were made on shorter prefixes. Input whose received part already violates the grammar is never reported as complete.",
 ["inputs","schedules"],"every request/response head and every way of cutting it into arrival segments, with and without trailing bytes",
 "Existing tests parse whole literal heads plus three hand-picked truncations; the cut position, the trailing bytes and the head are all unbounded.",
 ["src/http/request.rs","src/http/response.rs","src/helper.rs"],
 [("Request::parse / parse_buffer","src/http/request.rs"),("Response::parse / parse_buffer","src/http/response.rs"),("Helper token and header scanners","src/helper.rs")],
 [("received prefix","bytes delivered so far"),("verdict","need-more / complete(consumed, message) / malformed")],"return value, is_partial() and decoded fields after each parse call")
p("C02","Request heads are decoded faithfully; malformed ones are rejected",
 "For every well-formed HTTP/1.x request head the decoded method, target, version and header fields are exactly those on the wire: names matched without regard to case, values with surrounding blanks removed, order preserved (a repeated name keeps its first place and takes the last value), and exactly the head is consumed, with the empty lines that may stand before the request line. A head that violates the grammar (illegal byte, missing part, unregistered method, unknown version, bad line ending, no colon) is rejected with a permanent error: it is not accepted and it is not reported as merely incomplete.",
 ["inputs"],"every byte string presented to the request parser",
 "The suite checks about two dozen literal heads; a change to one byte class, one boundary or one line-ending rule passes all of them.",
 ["src/http/request.rs","src/helper.rs","src/http/method.rs","src/http/version.rs","src/http/header.rs"],
 [("request-line and header scanning, byte class tables","src/helper.rs"),("request assembly","src/http/request.rs")],
 [("scanner position","which grammar element is being read")],"fields of the parsed request")
p("C03","Response heads are decoded faithfully; malformed ones are rejected",
 "For every well-formed HTTP/1.x response head (version, three-digit status, optional reason phrase, header fields) the decoded version, status code and header fields are exactly those on the wire, in order (a repeated name keeps its first place and takes the last value), and exactly the head is consumed. A head that violates the grammar is rejected with a permanent error and is neither accepted nor reported as merely incomplete.",
 ["inputs"],"every byte string presented to the response parser",
 "Existing tests parse a few literal responses; the status, reason and header spaces are unbounded.",
 ["src/http/response.rs","src/helper.rs","src/http/status.rs"],
 [("status-line scanning","src/http/response.rs"),("status code table","src/http/status.rs")],
 None,"fields of the parsed response")
p("C04","Serialised HTTP/1 messages parse back to the same message",
 "Serialising any request or response that the library accepts (from its builders or from its own parser) and parsing the result yields the same method, target path and query, version, status, header fields in order (values up to surrounding blanks), and body bytes. What cannot be written as a message (a name or value with a line break, a path that is not absolute) is refused with an error instead of being written. In particular no field value can add, remove or split header lines or the start line of the serialised message, and serialising the parsed message again gives the same bytes.",
 ["inputs","histories"],"all messages reachable through builders, header edits or parsing, followed by serialise and parse",
 "Round trips are asserted for a handful of literals; percent-encoded targets, unusual status codes and edited header collections are not reached.",
 ["src/http/request.rs","src/http/response.rs","src/http/header.rs","src/serialize.rs","src/url/url.rs"],
 [("request head and body encoding","src/http/request.rs"),("response head and body encoding","src/http/response.rs"),("header encoding","src/http/header.rs")],
 None,"bytes produced and fields after reparsing")
p("C05","A message object can be reused for any number of parses",
 "Parsing into a request or response object that was used for earlier parses, whether those completed, failed or ran out of input, gives exactly the outcome and message that parsing the same bytes into a fresh object gives. Nothing of an earlier message (headers, target, status, incompleteness mark) remains visible.",
 ["histories","inputs"],"all sequences of parse calls with arbitrary inputs on one object",
 "No test reuses an object after an error or a partial parse; the histories are unbounded.",
 ["src/http/request.rs","src/http/response.rs"],
 [("per-parse reset","src/http/request.rs, src/http/response.rs")],
 [("object contents","message left by the previous parse")],"object fields after each parse")
p("C06","A pipelined HTTP/1 byte stream yields the messages that were sent",
 "A receiver that repeatedly parses heads and takes bodies as the message framing says (declared length or chunked coding) recovers from a concatenation of messages exactly the sequence of messages and bodies that was sent, for every segmentation of the stream. It is never early, never skips or repeats bytes, and never loses synchronisation at message boundaries.",
 ["schedules","histories","inputs"],"all message sequences and all segmentations of their concatenated serialisation",
 "Tests parse single messages in one piece; message boundaries, segmentation and the interaction between head, length and chunk decoding are never exercised together.",
 ["src/http/request.rs","src/http/response.rs","src/helper.rs","src/http/header.rs"],
 [("head parse then body length","src/http/header.rs"),("chunk decoding","src/helper.rs")],
 [("stream buffer","bytes received and not yet consumed"),("mode","head / fixed body / chunked body")],"sequence of messages delivered by the receiver")
p("C07","Chunked coding round-trips and rejects malformed or oversized chunks",
 "Encoding a body as chunks, in whatever pieces, and decoding it from any segmentation gives the body back, with the terminating empty chunk marking its end and exactly the chunk's bytes consumed by each step. A chunk is delivered only when it and its terminating line break are complete; a truncated chunk asks for more input, and a malformed or unrepresentably large size or a missing line break is a permanent error. Chunk extensions are ignored.",
 ["inputs","schedules"],"all bodies, chunk partitions, size spellings and segmentations",
 "One literal chunk stream is tested; size boundaries, hex spellings and truncation points are unbounded.",
 ["src/helper.rs"],[("chunk encode/decode","src/helper.rs: parse_chunk_data, encode_chunk_data")],
 None,"chunk length, payload and bytes consumed per call")
p("C08","Header collection behaves as an ordered case-insensitive multimap",
 "After any sequence of insert, push, removal, clearing, and mutation through handles, lookup, containment, removal, iteration order and length agree with an ordered list of fields whose names compare without regard to ASCII case and whose values compare byte for byte. Inserting replaces the existing value in place, pushing joins onto the existing value, and names that differ in any other way are always distinct, whichever textual or predefined form is used to refer to them.",
 ["histories","inputs"],"all operation sequences over all header names and values",
 "The tests perform one or two insertions; the sequences and the space of names, including names differing by one bit, are unbounded.",
 ["src/http/header.rs","src/http/name.rs","src/http/value.rs"],
 [("ordered header map","src/http/header.rs"),("name equality and hashing","src/http/name.rs")],
 [("field list","ordered (name, value) pairs")],"results of every collection call")
p("C09","Message framing and connection queries reflect the header fields",
 "Declared body length is the exact decimal number in the field for every value the machine can represent and is never a wrapped or partial number: values that are not a plain decimal number or do not fit give no length. The chunked, keep-alive, upgrade, host, cookie, referer, user-agent and similar queries answer exactly according to the current header fields (tokens compared without regard to case) and change as soon as the fields change.",
 ["inputs","histories"],"all header values, including overflowing, signed, blank and non-numeric ones",
 "Tests check one small length and one keep-alive; overflow and case variants are never sampled.",
 ["src/http/header.rs","src/http/value.rs"],
 [("numeric conversions","src/http/value.rs"),("queries","src/http/header.rs")],None,"results of the query calls")
p("C10","URL parsing splits every URL into exactly its components",
 "For every URL text the reported scheme, user, password, host, port (explicit or the scheme's default), path and query are exactly the percent-decoded components at their positions in the text, whichever delimiter characters occur in later components. Texts that violate the URL grammar (bad or truncated escape, escapes that are not UTF-8, non-numeric or out-of-range port, malformed scheme, illegal byte) are rejected with a permanent error.",
 ["inputs"],"all byte strings presented to the URL parser",
 "A few literal URLs are tested; delimiter interactions and escape positions are combinatorial.",
 ["src/url/url.rs","src/url/scheme.rs","src/url/builder.rs"],
 [("component state machine","src/url/url.rs: Url::parse"),("scheme table","src/url/scheme.rs")],
 [("component being read","scheme/userinfo/host/port/path/query")],"fields of the parsed URL")
p("C11","URL formatting and percent-coding round-trip",
 "Formatting any URL that has a text form (a scheme with a host, or neither, and an absolute path) and parsing the text again gives an equal URL, an absent port or password taking its default, and formatting is stable from then on. Percent-encoding any text yields only unreserved characters, the delimiters & : ? / = @ and escapes, and decoding it returns the original bytes; decoding rejects truncated or non-hexadecimal escapes.",
 ["inputs"],"all component values, including delimiters, percent signs, control and non-ASCII characters",
 "Only simple URLs are formatted in tests; component values containing delimiters are never sampled.",
 ["src/url/url.rs","src/url/builder.rs"],[("Display for Url and escapes","src/url/url.rs")],None,"formatted text and the URL parsed from it")
p("C12","HPACK decoding follows RFC 7541 for every header block",
 "For any sequence of header blocks on one connection, every block with text names that is valid under RFC 7541 decodes to exactly the header list it denotes: all representations, integers of any length, indices into the static table and the dynamic table, and table-size updates. Every invalid block (index zero or past the tables, integer overflow, truncation, bad string coding, size update over the limit) is a definite error.",
 ["inputs","histories"],"all block sequences on one decoding context",
 "The tests decode the RFC examples; multi-byte integers, index boundaries, size updates and context history are not sampled.",
 ["src/http/http2/hpack/decoder.rs","src/http/http2/hpack/header_index.rs"],
 [("representation dispatch and integers","src/http/http2/hpack/decoder.rs"),("index space","src/http/http2/hpack/header_index.rs")],
 [("dynamic table","ordered entries, size, capacity")],"decoded header list per block")
p("C13","HPACK encoder and decoder never lose synchronisation",
 "Over any sequence of header blocks encoded by one encoding context and decoded in order by one decoding context with the same capacity, every decoded list equals the list that was encoded (names lower-cased) and both contexts hold the same dynamic table after every block. This holds while entries are being evicted, replaced by equal ones, and for entries larger than the table.",
 ["histories","inputs"],"all sequences of header lists and table capacities",
 "Tests encode a few lists on fresh contexts; eviction histories are unbounded.",
 ["src/http/http2/hpack/encoder.rs","src/http/http2/hpack/decoder.rs","src/http/http2/hpack/header_index.rs"],
 [("encoder","src/http/http2/hpack/encoder.rs"),("decoder","src/http/http2/hpack/decoder.rs")],
 [("encoder table / decoder table","the two dynamic tables")],"decoded lists and table contents after each block")
p("C14","HPACK dynamic table accounting and eviction are exact",
 "After any history of additions and capacity changes the dynamic table's size equals the sum over its entries of name length plus value length plus 32, never exceeds its capacity, and its contents are the longest run of most recent entries that fits. Index lookup and search in both tables return exactly the entry at that position or the first matching one, and nothing for positions outside them.",
 ["histories"],"all histories of additions, capacity changes and lookups",
 "Two fixed eviction examples are tested; exact-fit boundaries and longer histories are not.",
 ["src/http/http2/hpack/header_index.rs"],[("table maintenance","src/http/http2/hpack/header_index.rs")],
 [("entries,size,capacity","dynamic table")],"contents, length, size and lookups after each step")
p("C15","Huffman coding is the RFC 7541 code, bijective and strict",
 "Encoding any byte string gives exactly its RFC 7541 Appendix B code padded with ones to a byte boundary, and decoding that returns the string. Any bit string that is not such an encoding (padding longer than seven bits, padding not all ones, an embedded end-of-string symbol) is rejected.",
 ["inputs"],"all byte strings and all bit strings",
 "Tests cover single symbols and RFC examples, not combinations, paddings or invalid inputs in general.",
 ["src/http/http2/hpack/huffman.rs"],[("encode/decode","src/http/http2/hpack/huffman.rs")],None,"encoded bytes / decoded bytes or error")
p("C16","HTTP/2 frames encode to their wire layout and decode back",
 "Every frame the library can represent encodes to a 9-byte header carrying the true payload length, type, flags and stream, followed by exactly that many payload bytes in the layout of RFC 9113, and decoding returns an equal frame. Frames are self-delimiting: a concatenation of frames decodes to the same sequence, and a truncated frame header or payload is never decoded as a frame.",
 ["inputs","histories"],"all frames of all kinds, field values, flags, stream ids and their concatenations",
 "Tests build a few frames and some only check that encoding succeeds; field/flag combinations are unbounded.",
 ["src/http/http2/frame"],[("frame header","src/http/http2/frame/mod.rs"),("frame dispatch","src/http/http2/frame/frame.rs"),("per-kind codecs","src/http/http2/frame/*.rs")],
 None,"bytes produced and frame values decoded")
p("C17","Malformed HTTP/2 frames are rejected, padding is stripped",
 "A frame whose length, stream id, padding or field values violate RFC 9113 for its kind is rejected with an error whatever its content: wrong fixed length, padding not shorter than the payload, stream zero where a stream is required or the reverse, zero window increment, self-dependency. Where padding is valid, exactly the padding and its length byte are removed from what is delivered.",
 ["inputs"],"all frame headers and payloads",
 "Hardly any malformed frame is tested; the space of lengths, flags and ids is unbounded.",
 ["src/http/http2/frame"],[("per-kind validation","src/http/http2/frame/*.rs")],None,"decode result")
p("C18","Large header blocks and bodies fragment within the frame size limit",
 "Encoding headers or body data larger than the peer's maximum frame size produces a sequence of frames none of whose payloads exceeds that maximum, whose concatenated fragments are the whole block or body, in order, on one stream. End-of-stream is marked exactly when requested, on the frame the protocol assigns it to, and end-of-headers is set on exactly the last fragment of the header block.",
 ["inputs","configurations"],"all header lists, body lengths and frame-size limits",
 "One fragmentation case is tested without checking flags or sizes.",
 ["src/http/http2/frame/headers.rs","src/http/http2/frame/data.rs"],
 [("header fragmentation","src/http/http2/frame/headers.rs"),("data fragmentation","src/http/http2/frame/data.rs")],None,"frame sequence emitted")
p("C19","SETTINGS carry every parameter exactly and enforce their ranges",
 "Any set of settings encodes to its RFC 9113 entries and decodes back to the same values, in frame form and in the base64 form used by HTTP/1 upgrade; later entries override earlier ones and unknown identifiers are ignored. Out-of-range values, payloads that are not a multiple of six bytes, acknowledgements with payload and settings on a stream are rejected.",
 ["inputs"],"all settings payloads and identifier/value combinations",
 "A few values are tested; boundary values per identifier are not.",
 ["src/http/http2/frame/settings.rs","src/http/request.rs"],[("settings codec","src/http/http2/frame/settings.rs"),("upgrade settings","src/http/request.rs: upgrade_http2; src/http/http2/frame/settings.rs: parse_http_settings")],None,"getters of decoded settings; encoded bytes")
p("C20","Requests and responses survive the HTTP/2 header mapping",
 "Turning a request or response into HTTP/2 header fields and back, through compression and frames, preserves method, scheme (http when absent), authority, path with query, status and every header field in order (Host apart, which follows from the authority), with pseudo-header fields before regular ones. A list whose authority and path do not form a URL is refused. Over any history of messages on a connection each is delivered as sent, and the sum of its field sizes over the announced limit is rejected. A request is accepted for a push promise exactly when its method is GET or HEAD and it declares no content.",
 ["inputs","histories"],"all requests/responses and their sequences on one connection",
 "Tests decode a couple of recorded frames; sequences with evolving compression state are not covered.",
 ["src/http/http2/frame/headers.rs","src/http/request.rs","src/http/response.rs"],
 [("pseudo header mapping","src/http/http2/frame/headers.rs"),("conversion to message","src/http/request.rs, src/http/response.rs")],
 [("compression contexts","one per direction")],"message rebuilt by the receiver")
p("C21","WebSocket frames encode and decode exactly as RFC 6455 lays out",
 "For every flag, opcode, mask and payload length the frame encodes with the shortest length form and the payload masked when a mask is used, and decoding returns the same frame and consumes exactly its bytes. Non-minimal lengths, over-long or fragmented control frames, and payloads over the configured limit are rejected, and a truncated frame is never delivered.",
 ["inputs"],"all frames, payload lengths across the 7/16/64-bit boundaries, all truncations",
 "Tests cover a few short frames; boundaries and malformed headers are not covered.",
 ["src/ws/frame_header.rs","src/ws/dataframe.rs","src/ws/mask.rs"],[("header codec","src/ws/frame_header.rs"),("frame codec","src/ws/dataframe.rs"),("masking","src/ws/mask.rs")],None,"frame fields and bytes consumed")
p("C22","WebSocket messages assemble from fragments only when legal",
 "A message assembled from a sequence of data frames has the kind of the first frame and the concatenation of all payloads; text must be valid UTF-8 as a whole and close reasons too. Sequences that start with a continuation, contain anything but continuations afterwards, use reserved bits or opcodes, or carry a malformed close payload are rejected.",
 ["histories","inputs"],"all frame sequences",
 "Tests assemble one or two frames; sequences and split multi-byte characters are not sampled.",
 ["src/ws/message.rs","src/ws/dataframe.rs"],[("assembly","src/ws/message.rs: OwnedMessage::from_dataframes")],
 [("fragments","frames received so far")],"assembled message or error")
p("C23","WebSocket messages of every kind and size round-trip over the wire",
 "Every text, binary, ping, pong and close message, masked or not, written to a byte stream is read back as the same message, including empty and large payloads, all close codes and reasons, and several messages in a row. The declared size of a message or frame equals the number of bytes written.",
 ["inputs","histories"],"all messages and sequences of messages",
 "Few small messages are tested; close codes and sizes are unbounded.",
 ["src/ws/message.rs","src/ws/dataframe.rs"],[("message serialisation","src/ws/message.rs"),("frame serialisation","src/ws/dataframe.rs")],None,"messages read back; bytes written vs. size")
p("C24","No input can crash, hang or exhaust the library",
 "Whatever bytes are given to any decoding entry point (HTTP/1 messages, chunks, URLs, header values, HTTP/2 frames, header blocks, settings, WebSocket frames and messages) and whatever was decoded before, the call returns a value or an error in bounded time and memory. It never panics, loops forever, overflows arithmetic or consumes more than it was given.",
 ["inputs","histories"],"all byte strings for all decoding entry points, and sequences of them",
 "Tests feed well-formed inputs; hostile inputs are unbounded.",
 ["src/helper.rs","src/http","src/url","src/ws"],[("all decoders","src/**")],None,"call returns, bytes consumed")
p("C25","Typed extensions hold at most one value per type",
 "After any sequence of insert, get, get-mut, remove, clear and extend operations the extension store answers exactly like a map from type to the last value stored for it; values of one type never affect or appear as another. Clearing empties it and merging lets the incoming values win.",
 ["histories"],"all operation sequences over several types",
 "One short sequence is tested.",
 ["src/extensions.rs"],[("type map","src/extensions.rs")],[("entries","type -> value")],"results of each call")
p("C26","Status, method, version and scheme values convert consistently",
 "Every conversion between text, number and value of a status code, method, protocol version, scheme or predefined header name is exact and mutually inverse over its whole domain: all status codes 100-999, all registered methods, versions, schemes and header names, with values outside the domain rejected (schemes outside the registry are kept as text when well formed and at most 64 bytes long). Status class predicates and canonical reason phrases agree with the registry.",
 ["inputs"],"the whole finite domains and all near-miss texts",
 "Tests check a few samples; one wrong table entry out of hundreds is invisible.",
 ["src/http/status.rs","src/http/method.rs","src/http/version.rs","src/url/scheme.rs","src/http/name.rs"],
 [("tables","src/http/status.rs, src/http/name.rs")],None,"conversion results")
p("C27","Builders produce exactly the configured message or the first error",
 "A request, response or URL built by any sequence of builder calls has exactly the configured parts, with documented defaults for parts not set; an invalid part makes the build fail whatever is set afterwards, and the error is the reported outcome. Later settings of a part replace earlier ones and never disturb other parts.",
 ["programs","histories"],"all sequences of builder calls with valid and invalid arguments",
 "Each test uses one fixed call chain.",
 ["src/http/request.rs","src/http/response.rs","src/url/builder.rs"],[("builders","src/http/request.rs, src/http/response.rs, src/url/builder.rs")],
 [("pending parts or error","builder state")],"built value or error")
p("C28","Converting or copying a message keeps all its parts",
 "Replacing, mapping or taking the body of a request or response, copying it, splitting it into parts and joining them, or making a client request from a received one keeps its method, target, version, status and header fields exactly and moves the body, no more and no less. A copy belongs to the same connection: it shares the HPACK context the message carries. Otherwise changing the copy never changes the original. Setting the URL adds a Host field only when there is none and changes no other field; setting one part (method, version, status, a field, the body) changes that part only.",
 ["histories","inputs"],"all sequences of conversions, copies and edits over all messages",
 "Tests convert one or two messages; no test compares all parts before and after, or edits a copy.",
 ["src/http/request.rs","src/http/response.rs","src/extensions.rs"],
 [("body replacement and copying","src/http/request.rs: into, into_type, map, replace_clone, new_by_parts; src/http/response.rs: into, into_type, map, replace_clone, from_parts")],
 [("message","parts and body")],"every accessor of the message and of its copy after each step")
p("C29","Writing appends exactly one encoding; reading takes it from the front",
 "Every value that can be written to a buffer (text, octets, methods, versions, schemes, status codes, field names, values and whole field sets, requests, responses, chunks, HTTP/2 frame headers, numbers and frames) is appended behind what the buffer already holds, exactly once, and the reported size is the number of octets added; writing it again appends the same again, and its displayed text is the text that is written. A value or field that has no legal encoding is refused and never damages what was there. Numbers and frame headers read from the front of a buffer are those that were written, take exactly their octets, and leave a buffer that is too short untouched.",
 ["histories","inputs"],"all interleavings of all writers and readers on one buffer, over all values, whatever was there before or was partly consumed",
 "Tests write one value into an empty buffer and compare the whole; none writes behind earlier content, writes twice, or compares the reported size.",
 ["src/serialize.rs","src/helper.rs","src/http","src/url/scheme.rs"],
 [("writers","src/serialize.rs; encode/serialize/Display of src/http/*.rs, src/url/scheme.rs, src/http/http2/frame/*.rs; Helper::encode_chunk_data in src/helper.rs"),("readers","src/http/http2/frame/mod.rs: read_u64, read_u31, read_u24, StreamIdentifier, SizeIncrement, ErrorCode; FrameHeader::parse")],
 [("buffer","octets written and not yet read")],"the buffer's content and the reported size after each call")
p("C30","HTTP/2 frames tell what they hold; the heaviest waiting frame leaves first",
 "A set of HTTP/2 flags is a set: setting or clearing one flag changes that flag alone, and the flags and the number read from it always agree. A stream number counter hands out every number of its side once and in order, and stream numbers are compared and written as numbers. A frame of any kind, however it was made or changed afterwards, reports the kind, stream, flags, end marks, name and content it holds. Frames queued with a weight (PriorityFrame in a heap) are neither lost, doubled nor altered, two of them compare exactly as their weights do, and the frame that leaves next is always one of the heaviest that waits, also after weights were changed in place.",
 ["histories","inputs"],"all histories of making, changing, queueing, re-weighting and taking frames, setting flags and drawing stream numbers",
 "Tests never queue a frame, compare two stream numbers or read a flag back after clearing another.",
 ["src/http/http2/frame"],
 [("flags and stream numbers","src/http/http2/frame/flag.rs; StreamIdentifier in src/http/http2/frame/mod.rs"),("frames","src/http/http2/frame/frame.rs: display_name, stream_id, flags, is_header, is_data, is_end_headers, is_end_stream, PriorityFrame; accessors and setters of data.rs, headers.rs, priority.rs, settings.rs, ping.rs, go_away.rs, window_update.rs, reset.rs")],
 [("endpoint","flag set, next stream number, frames waiting with their weights")],"what flags, numbers and frames report after each step")
p("C31","Octet classes, hex digits, comparison and line ends decide by definition",
 "For every octet the public classification helpers (token, status text, letter, digit, hexadecimal digit and its value, URI character) decide as the grammars define, hexadecimal digits and texts convert to exactly the octets they denote, comparison of octet strings (equal, equal ignoring ASCII case, contains) is decided by content alone for strings of any length, and a line end is taken from the front of a buffer exactly when LF or CR LF stands there, with more input asked for only when what is there could still become one. An error passed on keeps the description of its origin, and only missing input is reported as partial.",
 ["inputs"],"all 256 octets, all octet strings and pairs of them, all histories of filling a buffer and taking line ends",
 "Tests call none of these helpers directly except hex_to_vec as a tool.",
 ["src/helper.rs","src/error.rs"],
 [("helpers","src/helper.rs: is_token, is_status_token, is_alpha, is_digit, is_hex, to_hex, convert_hex, is_uri_token, hex_to_vec, eq_bytes, eq_bytes_ignore_ascii_case, contains_bytes, skip_new_line"),("errors","src/error.rs: WebError; src/http/error.rs; src/url/error.rs")],
 [("buffer","octets not yet taken")],"the helpers' answers and what is left in the buffer")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,q["id"]
        f.write(json.dumps(q)+"\n")
