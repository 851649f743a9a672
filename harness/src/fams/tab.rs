//! The finite vocabularies: status codes, methods, versions, schemes, field names and error codes.
use super::*;
use crate::json::{be4, txt, J};
use algorithm::buf::{BinaryMut, Bt};
use std::convert::TryFrom;
use webparse::http::http2::frame::Reason;
use webparse::{HeaderName, Method, Scheme, Serialize, StatusCode, Version, WebError};

#[derive(Default)]
pub struct S;
fn opt(x: Option<J>) -> J { J::Arr(x.into_iter().collect()) }
fn disp(x: impl std::fmt::Display) -> J { x.to_string().as_bytes().into() }
fn b01(b: bool) -> J { J::Int(b as i64) }
fn enc(f: impl FnOnce(&mut BinaryMut) -> Result<usize, WebError>) -> J {
    let mut b = sink();
    match f(&mut b.b) { Ok(n) => J::Arr(vec![n.into(), b.out().into()]), Err(_) => J::Arr(vec![]) }
}
fn status(s: StatusCode) -> J {
    let mut m = s;
    let (n, v) = s.build_header();
    J::obj().set("n", s.as_u16() as i64).set("into", u16::from(s) as i64).set("text", s.as_str().as_bytes()).set("reason", opt(s.canonical_reason().map(|x| x.as_bytes().into())))
        .set("cls", J::Arr([s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()].iter().map(|b| b01(*b)).collect()))
        .set("disp", disp(s)).set("enc", enc(|b| m.encode(b))).set("hn", n.as_bytes().to_vec()).set("hv", v.as_bytes().to_vec()).set("same", b01(StatusCode::from(&s) == s && s == s.as_u16() && s.as_u16() == s))
}
fn st(x: Result<StatusCode, WebError>) -> J { opt(x.ok().map(status)) }
fn method(m: Method) -> J {
    let mut c = m.clone();
    J::obj().set("text", m.as_str().as_bytes()).set("disp", disp(&m)).set("enc", enc(|b| c.encode(b))).set("none", b01(m == Method::None)).set("req0", b01(m.is_nobody())).set("res0", b01(m.res_nobody()))
}
fn version(v: Version) -> J {
    let mut c = v;
    J::obj().set("text", v.as_str().as_bytes()).set("disp", disp(v)).set("enc", enc(|b| c.encode(b))).set("none", b01(v == Version::None)).set("h1", b01(v.is_http1())).set("h2", b01(v.is_http2()))
}
fn scheme(s: Scheme) -> J {
    let mut c = s.clone();
    let kind = match &s { Scheme::None => 0, Scheme::Http => 1, Scheme::Https => 2, Scheme::Ws => 3, Scheme::Wss => 4, Scheme::Ftp => 5, Scheme::Extension(_) => 6 };
    J::obj().set("text", s.as_str().as_bytes()).set("disp", disp(&s)).set("enc", enc(|b| c.serialize(b))).set("kind", kind as i64)
        .set("is", J::Arr([s.is_none(), s.is_http(), s.is_https(), s.is_ws(), s.is_wss()].iter().map(|b| b01(*b)).collect()))
}
macro_rules! list { ($t:ident; $($k:ident)*) => { vec![$((stringify!($k), $t::$k)),*] }; }
fn statuses() -> Vec<(&'static str, StatusCode)> { list!(StatusCode; CONTINUE SWITCHING_PROTOCOLS PROCESSING OK CREATED ACCEPTED NON_AUTHORITATIVE_INFORMATION NO_CONTENT RESET_CONTENT PARTIAL_CONTENT MULTI_STATUS ALREADY_REPORTED IM_USED
    MULTIPLE_CHOICES MOVED_PERMANENTLY FOUND SEE_OTHER NOT_MODIFIED USE_PROXY TEMPORARY_REDIRECT PERMANENT_REDIRECT BAD_REQUEST UNAUTHORIZED PAYMENT_REQUIRED FORBIDDEN NOT_FOUND METHOD_NOT_ALLOWED NOT_ACCEPTABLE PROXY_AUTHENTICATION_REQUIRED
    REQUEST_TIMEOUT CONFLICT GONE LENGTH_REQUIRED PRECONDITION_FAILED PAYLOAD_TOO_LARGE URI_TOO_LONG UNSUPPORTED_MEDIA_TYPE RANGE_NOT_SATISFIABLE EXPECTATION_FAILED IM_A_TEAPOT MISDIRECTED_REQUEST UNPROCESSABLE_ENTITY LOCKED FAILED_DEPENDENCY
    UPGRADE_REQUIRED PRECONDITION_REQUIRED TOO_MANY_REQUESTS REQUEST_HEADER_FIELDS_TOO_LARGE UNAVAILABLE_FOR_LEGAL_REASONS INTERNAL_SERVER_ERROR NOT_IMPLEMENTED BAD_GATEWAY SERVICE_UNAVAILABLE GATEWAY_TIMEOUT HTTP_VERSION_NOT_SUPPORTED
    VARIANT_ALSO_NEGOTIATES INSUFFICIENT_STORAGE LOOP_DETECTED NOT_EXTENDED NETWORK_AUTHENTICATION_REQUIRED) }
fn names() -> Vec<(&'static str, HeaderName)> { list!(HeaderName; ACCEPT ACCEPT_CHARSET ACCEPT_ENCODING ACCEPT_LANGUAGE ACCEPT_RANGES ACCESS_CONTROL_ALLOW_CREDENTIALS ACCESS_CONTROL_ALLOW_HEADERS ACCESS_CONTROL_ALLOW_METHODS ACCESS_CONTROL_ALLOW_ORIGIN
    ACCESS_CONTROL_EXPOSE_HEADERS ACCESS_CONTROL_MAX_AGE ACCESS_CONTROL_REQUEST_HEADERS ACCESS_CONTROL_REQUEST_METHOD AGE ALLOW ALT_SVC AUTHORIZATION CACHE_CONTROL CACHE_STATUS CDN_CACHE_CONTROL CONNECTION CONTENT_DISPOSITION CONTENT_ENCODING
    CONTENT_LANGUAGE CONTENT_LENGTH CONTENT_LOCATION CONTENT_RANGE CONTENT_SECURITY_POLICY CONTENT_SECURITY_POLICY_REPORT_ONLY CONTENT_TYPE COOKIE DNT DATE ETAG EXPECT EXPIRES FORWARDED FROM HOST IF_MATCH IF_MODIFIED_SINCE IF_NONE_MATCH IF_RANGE
    IF_UNMODIFIED_SINCE LAST_MODIFIED LINK LOCATION MAX_FORWARDS ORIGIN PRAGMA PROXY_AUTHENTICATE PROXY_AUTHORIZATION PUBLIC_KEY_PINS PUBLIC_KEY_PINS_REPORT_ONLY RANGE REFERER REFERRER_POLICY REFRESH RETRY_AFTER SEC_WEBSOCKET_ACCEPT
    SEC_WEBSOCKET_EXTENSIONS SEC_WEBSOCKET_KEY SEC_WEBSOCKET_PROTOCOL SEC_WEBSOCKET_VERSION SERVER SET_COOKIE STRICT_TRANSPORT_SECURITY TE TRAILER TRANSFER_ENCODING USER_AGENT UPGRADE UPGRADE_INSECURE_REQUESTS VARY VIA WARNING WWW_AUTHENTICATE
    X_CONTENT_TYPE_OPTIONS X_DNS_PREFETCH_CONTROL X_FRAME_OPTIONS X_XSS_PROTECTION) }
fn reason(r: Reason) -> J { J::obj().set("n", be4(u32::from(r))).set("desc", r.description().as_bytes()).set("disp", disp(r)).set("dbg", format!("{:?}", r).as_bytes()) }
impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "stn" => { let n = o.i("n") as u16; ok().set("a", st(StatusCode::from_u16(n))).set("b", st(StatusCode::try_from(n))) }
            "stt" => {
                let b = o.bytes("b");
                let r = ok().set("a", st(StatusCode::from_bytes(&b))).set("b", st(StatusCode::try_from(&b[..])));
                match std::str::from_utf8(&b) { Ok(s) => r.set("c", st(StatusCode::try_from(s))).set("d", st(s.parse())), Err(_) => r.set("c", J::Arr(vec![])).set("d", J::Arr(vec![])) }
            }
            "stall" => ok().set("l", J::Arr(statuses().iter().map(|(k, s)| J::Arr(vec![txt(k), J::Int(s.as_u16() as i64)])).collect())).set("def", StatusCode::default().as_u16() as i64),
            "mtd" => { let s = o.string("b"); ok().set("a", opt(Method::try_from(s.as_str()).ok().map(method))).set("b", opt(s.parse::<Method>().ok().map(method))) }
            "mtall" => {
                let l = [("NONE", Method::NONE), ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE), ("HEAD", Method::HEAD), ("OPTIONS", Method::OPTIONS), ("CONNECT", Method::CONNECT), ("PATCH", Method::PATCH), ("TRACE", Method::TRACE)];
                let t = [Method::SGET, Method::SPOST, Method::SPUT, Method::SDELETE, Method::SHEAD, Method::SOPTIONS, Method::SCONNECT, Method::SPATCH, Method::STRACE];
                ok().set("l", J::Arr(l.iter().map(|(k, m)| J::Arr(vec![txt(k), method(m.clone())])).collect())).set("s", J::Arr(t.iter().map(|s| txt(s)).collect()))
            }
            "mtx" => ok().set("a", method(Method::Extension(o.string("b")))),
            "ver" => ok().set("a", version(Version::from(o.string("b").as_str()))),
            "verall" => {
                let l = [("HTTP10", Version::HTTP10, Version::SHTTP10), ("HTTP11", Version::HTTP11, Version::SHTTP11), ("HTTP2", Version::HTTP2, Version::SHTTP2), ("HTTP3", Version::HTTP3, Version::SHTTP3), ("NONE", Version::None, "None")];
                ok().set("l", J::Arr(l.iter().map(|(k, v, s)| J::Arr(vec![txt(k), version(*v), txt(s)])).collect()))
            }
            "sch" => { let s = o.string("b"); ok().set("a", opt(Scheme::try_from(s.as_str()).ok().map(scheme))).set("b", opt(s.parse::<Scheme>().ok().map(scheme))).set("c", {
                with_bt!(s.into_bytes(), x => { let r = Scheme::parse_scheme(&mut x); J::Arr(match r { Ok(v) => vec![scheme(v), J::Int(x.remaining() as i64)], Err(_) => vec![] }) })
            }) }
            "schall" => ok().set("l", J::Arr([Scheme::None, Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Wss, Scheme::Ftp].iter().map(|s| scheme(s.clone())).collect())),
            "hn" => {
                let b = o.bytes("b");
                let n = HeaderName::from_bytes(&b);
                ok().set("a", opt(n.as_ref().map(|n| n.as_bytes().to_vec().into()))).set("k", J::Arr(names().iter().filter(|(_, x)| n.as_ref() == Some(x)).map(|(k, _)| txt(k)).collect()))
            }
            "hnall" => ok().set("l", J::Arr(names().iter().map(|(k, n)| J::Arr(vec![txt(k), n.as_bytes().to_vec().into(), HeaderName::from_bytes(n.as_bytes()).map(|x| b01(x == *n)).unwrap_or(J::Int(-1))])).collect())),
            "rsn" => { let b = o.bytes("b"); let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]); ok().set("a", reason(Reason::from(n))) }
            "rsnall" => {
                let l = list!(Reason; NO_ERROR PROTOCOL_ERROR INTERNAL_ERROR FLOW_CONTROL_ERROR SETTINGS_TIMEOUT STREAM_CLOSED FRAME_SIZE_ERROR REFUSED_STREAM CANCEL COMPRESSION_ERROR CONNECT_ERROR ENHANCE_YOUR_CALM INADEQUATE_SECURITY HTTP_1_1_REQUIRED);
                ok().set("l", J::Arr(l.iter().map(|(k, r)| J::Arr(vec![txt(k), reason(*r)])).collect()))
            }
            x => panic!("HARNESS: unknown tab op {}", x),
        }
    }
}
