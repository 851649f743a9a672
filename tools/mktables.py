#!/usr/bin/env python3
"""spec/Tables.tla: the registered vocabularies, from Python's own registry of
status codes and the words of RFC 9110, RFC 9112, RFC 9113 and the URL schemes."""
import http, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def q(s): return "<<" + ",".join(str(c) for c in s.encode()) + ">>"
# further spellings of a phrase in the registry's history
ALSO = {203: ["Non Authoritative Information"], 302: ["Found"], 413: ["Payload Too Large", "Content Too Large", "Request Entity Too Large"], 414: ["URI Too Long", "Request-URI Too Long"],
        416: ["Range Not Satisfiable", "Requested Range Not Satisfiable"], 418: ["I'm a teapot", "I'm a Teapot"], 422: ["Unprocessable Entity", "Unprocessable Content"]}
NAMES = {203: "NON_AUTHORITATIVE_INFORMATION", 413: "PAYLOAD_TOO_LARGE", 414: "URI_TOO_LONG", 416: "RANGE_NOT_SATISFIABLE", 422: "UNPROCESSABLE_ENTITY"}
SKIP = {103, 425}   # not in the library's registry
out = ["------------------------------- MODULE Tables -------------------------------", "(* Registered words.  Written by tools/mktables.py from Python's registry. *)", "EXTENDS Bytes", "",
       "(* code, name of the constant, accepted reason phrases *)", "StatusTable == <<"]
rows = []
for s in sorted(http.HTTPStatus, key=int):
    if s.value in SKIP: continue
    rows.append("  <<%d, %s, {%s}>> \\* %s" % (s.value, q(NAMES.get(s.value, s.name)), ", ".join(q(x) for x in sorted({s.phrase, *ALSO.get(s.value, [])})), s.phrase))
def seq(rows):
    # the separator goes before the comment
    return [r.replace(">> \\*", ">>, \\*", 1) if i < len(rows) - 1 else r for i, r in enumerate(rows)]
out += seq(rows) + [">>", ""]
M = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH"]
out += ["MethodWords == {" + ", ".join(q(m) for m in M) + "}",
        "(* requests with these methods carry no content; responses to these carry none *)",
        "NoContent == {" + ", ".join(q(m) for m in ("GET", "HEAD", "OPTIONS", "CONNECT")) + "}",
        "NoAnswer == {" + ", ".join(q(m) for m in ("HEAD", "OPTIONS", "CONNECT")) + "}",
        "VersionWords == <<" + ", ".join("<<%s, %s>>" % (q(k), q(w)) for k, w in (("HTTP10", "HTTP/1.0"), ("HTTP11", "HTTP/1.1"), ("HTTP2", "HTTP/2"), ("HTTP3", "HTTP/3"))) + ">>",
        "SchemeWords == <<" + ", ".join(q(w) for w in ("http", "https", "ws", "wss", "ftp")) + ">>",
        "NoneWord == " + q("None"), "NoneName == " + q("NONE"), ""]
R = [("NO_ERROR", "not a result of an error"), ("PROTOCOL_ERROR", "unspecific protocol error detected"), ("INTERNAL_ERROR", "unexpected internal error encountered"), ("FLOW_CONTROL_ERROR", "flow-control protocol violated"),
     ("SETTINGS_TIMEOUT", "settings ACK not received in timely manner"), ("STREAM_CLOSED", "received frame when stream half-closed"), ("FRAME_SIZE_ERROR", "frame with invalid size"),
     ("REFUSED_STREAM", "refused stream before processing any application logic"), ("CANCEL", "stream no longer needed"), ("COMPRESSION_ERROR", "unable to maintain the header compression context"),
     ("CONNECT_ERROR", "connection established in response to a CONNECT request was reset or abnormally closed"), ("ENHANCE_YOUR_CALM", "detected excessive load generating behavior"),
     ("INADEQUATE_SECURITY", "security properties do not meet minimum requirements"), ("HTTP_1_1_REQUIRED", "endpoint requires HTTP/1.1")]
out += ["(* HTTP/2 error codes from 0: name and description *)", "ReasonTable == <<"] + seq(["  <<%s, %s>> \\* %s" % (q(a), q(b), a) for a, b in R]) + [">>"]
H = """accept accept-charset accept-encoding accept-language accept-ranges access-control-allow-credentials access-control-allow-headers access-control-allow-methods access-control-allow-origin access-control-expose-headers access-control-max-age
access-control-request-headers access-control-request-method age allow alt-svc authorization cache-control cache-status cdn-cache-control connection content-disposition content-encoding content-language content-length content-location content-range
content-security-policy content-security-policy-report-only content-type cookie dnt date etag expect expires forwarded from host if-match if-modified-since if-none-match if-range if-unmodified-since last-modified link location max-forwards origin pragma
proxy-authenticate proxy-authorization public-key-pins public-key-pins-report-only range referer referrer-policy refresh retry-after sec-websocket-accept sec-websocket-extensions sec-websocket-key sec-websocket-protocol sec-websocket-version server
set-cookie strict-transport-security te trailer transfer-encoding user-agent upgrade upgrade-insecure-requests vary via warning www-authenticate x-content-type-options x-dns-prefetch-control x-frame-options x-xss-protection""".split()
out += ["", "FieldWords == <<"] + seq(["  %s \\* %s" % (q(h), h) for h in H]) + [">>"]
out.append("=============================================================================")
open(os.path.join(ROOT, "spec", "Tables.tla"), "w").write("\n".join(out) + "\n")
