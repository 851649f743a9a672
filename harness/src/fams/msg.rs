//! Builders of messages and of URLs, and the copies and conversions of built messages.
use super::*;
use crate::json::J;
use algorithm::buf::{Binary, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::{frame::Settings, HeaderIndex};
use webparse::http::{request, response};
use webparse::{HeaderMap, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version, WebError};

#[derive(Clone, Debug, PartialEq)]
struct Tag(i64);
type Ctx = Arc<RwLock<HeaderIndex>>;
fn ctx(n: i64) -> Ctx { let mut h = HeaderIndex::new(); h.set_max_table_size(n as usize); Arc::new(RwLock::new(h)) }
enum Bld { None, Req(request::Builder), Resp(response::Builder) }
enum M { None, Qu(Request<()>), Qv(Request<Vec<u8>>), Qs(Request<String>), Pv(Response<Vec<u8>>), Ps(Response<String>), Pb(Response<Binary>) }
pub struct S { b: Bld, m: M, c: M }
impl Default for S { fn default() -> S { S { b: Bld::None, m: M::None, c: M::None } } }

fn vnum(v: i64) -> Version { match v { 10 => Version::Http10, 11 => Version::Http11, 2 => Version::Http2, 3 => Version::Http3, _ => Version::None } }
fn mtext(m: &Method) -> J { if *m == Method::None { J::Arr(vec![]) } else { J::Arr(vec![m.as_str().as_bytes().into()]) } }
fn hdrs(h: &HeaderMap) -> J { hp::pairs(h.iter().map(|x| (&x.0, &x.1))) }
fn exts(e: &webparse::Extensions) -> J {
    let size = |x: &Ctx| J::Int(x.read().unwrap().get_max_table_size() as i64);
    J::Arr(vec![J::Arr(e.get::<i32>().map(|x| J::Int(*x as i64)).into_iter().collect()), J::Arr(e.get::<Tag>().map(|x| J::Int(x.0)).into_iter().collect()), J::Arr(e.get::<Ctx>().map(size).into_iter().collect())])
}
fn qview<T: Serialize>(r: &Request<T>, body: &[u8]) -> J {
    let p = r.parts();
    let same = r.method() == &p.method && r.version() == p.version && r.path() == &p.url.path && r.scheme() == &p.url.scheme && r.headers() == &p.header && *r.url() == p.url
        && r.is_partial() != r.is_complete() && r.is_http2() == (p.version == Version::Http2) && r.get_authority() == p.url.get_authority() && r.get_scheme() == p.url.get_scheme() && r.get_connect_url() == p.url.get_connect_url()
        && p.get_host() == p.url.domain.clone().or_else(|| p.header.get_host()) && p.get_referer() == p.header.get_referer() && p.get_user_agent() == p.header.get_user_agent() && p.get_cookie() == p.header.get_cookie() && p.get_connect_url() == p.url.get_connect_url();
    J::obj().set("kind", "req").set("method", mtext(&p.method)).set("u", url::view(&p.url)).set("version", p.version.as_str().as_bytes()).set("status", 0i64).set("hs", hdrs(&p.header))
        .set("ext", exts(r.extensions())).set("partial", r.is_partial() as i64).set("body", body.to_vec()).set("same", same as i64)
}
fn pview<T: Serialize>(r: &Response<T>, body: &[u8]) -> J {
    J::obj().set("kind", "resp").set("method", J::Arr(vec![])).set("u", url::view(&Url::new())).set("version", r.version().as_str().as_bytes()).set("status", r.status().as_u16() as i64).set("hs", hdrs(r.headers()))
        .set("ext", exts(r.extensions())).set("partial", r.is_partial() as i64).set("body", body.to_vec()).set("same", 1i64)
}
fn view(m: &M) -> J {
    J::Arr(match m {
        M::None => vec![],
        M::Qu(r) => vec![qview(r, b"")],
        M::Qv(r) => vec![qview(r, r.body())],
        M::Qs(r) => vec![qview(r, r.body().as_bytes())],
        M::Pv(r) => vec![pview(r, r.body())],
        M::Ps(r) => vec![pview(r, r.body().as_bytes())],
        M::Pb(r) => vec![pview(r, r.body().chunk())],
    })
}
/// a body in the type asked for: 0 bytes, 1 text
fn text(b: Vec<u8>) -> String { String::from_utf8(b).expect("HARNESS utf8") }
/// the same call on a message of any type
macro_rules! each { ($m:expr, |$r:ident| $e:expr, $none:expr) => { match $m { M::None => $none, M::Qu($r) => $e, M::Qv($r) => $e, M::Qs($r) => $e, M::Pv($r) => $e, M::Ps($r) => $e, M::Pb($r) => $e } }; }
macro_rules! reqs { ($m:expr, |$r:ident| $e:expr, $other:expr) => { match $m { M::Qu($r) => $e, M::Qv($r) => $e, M::Qs($r) => $e, _ => $other } }; }
macro_rules! resps { ($m:expr, |$r:ident| $e:expr, $other:expr) => { match $m { M::Pv($r) => $e, M::Ps($r) => $e, M::Pb($r) => $e, _ => $other } }; }
fn settings(o: &J) -> Settings {
    let mut s = Settings::default();
    for x in o.a("ss") {
        let x = match x { J::Arr(v) => v, _ => panic!("HARNESS settings") };
        let n = match &x[1] { J::Int(i) => *i as u32, _ => panic!("HARNESS settings") };
        match &x[0] { J::Int(2) => s.set_enable_push(n != 0), J::Int(6) => s.set_max_header_list_size(Some(n)), J::Int(3) => s.set_max_concurrent_streams(Some(n)), J::Int(4) => s.set_initial_window_size(Some(n)), _ => panic!("HARNESS settings") }
    }
    s
}
impl S {
    /// what the builder shows of its parts
    fn shows(&self, r: J) -> J {
        match &self.b {
            Bld::None => r,
            Bld::Req(b) => {
                let refs = [b.method_ref().is_some(), b.url_ref().is_some(), b.version_ref().is_some(), b.headers_ref().is_some()];
                let r = r.set("refs", J::Arr(refs.iter().map(|x| J::Int(*x as i64)).collect())).set("blen", (b.get_body_len() as i64).min(2147483647));
                match (b.method_ref(), b.url_ref(), b.version_ref(), b.headers_ref()) {
                    (Some(m), Some(u), Some(v), Some(h)) => r.set("p", J::Arr(vec![J::obj().set("method", mtext(m)).set("u", url::view(u)).set("version", v.as_str().as_bytes()).set("hs", hdrs(h))])),
                    _ => r.set("p", J::Arr(vec![])),
                }
            }
            Bld::Resp(b) => {
                let refs = [b.headers_ref().is_some(), b.extensions_ref().is_some()];
                let r = r.set("refs", J::Arr(refs.iter().map(|x| J::Int(*x as i64)).collect())).set("blen", (b.get_body_len() as i64).min(2147483647));
                match (b.headers_ref(), b.extensions_ref()) { (Some(h), Some(e)) => r.set("p", J::Arr(vec![J::obj().set("hs", hdrs(h)).set("ext", exts(e))])), _ => r.set("p", J::Arr(vec![])) }
            }
        }
    }
    fn after(&self, r: J) -> J { r.set("m", view(&self.m)).set("c", view(&self.c)) }
    fn build(&mut self, o: &J) -> J {
        let b = std::mem::replace(&mut self.b, Bld::None);
        let mut extra = ok();
        let t = || text(o.bytes("v"));
        self.b = match (b, o.s("op")) {
            (Bld::Req(b), "method") => Bld::Req(match o.i("as") { 1 => match Method::try_from(t().as_str()) { Ok(m) => b.method(m), Err(_) => b.method(t().as_str()) }, 2 => b.method(Method::Extension(t())), _ => b.method(t().as_str()) }),
            (Bld::Req(b), "url") => Bld::Req(match o.i("as") { 1 => b.url(t().as_str()), 2 => b.url(&t().as_bytes()[..]), 3 => match Url::parse(t().into_bytes()) { Ok(u) => b.url(u), Err(_) => b.url(t()) }, _ => b.url(t()) }),
            (Bld::Req(b), "uval") => Bld::Req(match url::build(o) { Ok(u) => b.url(u), Err(e) => panic!("a legal url was refused: {}", e) }),
            (Bld::Req(b), "version") => Bld::Req(b.version(vnum(o.i("n")))),
            (Bld::Resp(b), "version") => Bld::Resp(b.version(vnum(o.i("n")))),
            (Bld::Req(b), "header") => Bld::Req(match o.i("as") { 1 => b.header(Box::leak(text(o.bytes("k")).into_boxed_str()) as &'static str, Box::leak(t().into_boxed_str()) as &'static str), 2 => b.header(text(o.bytes("k")), t()), _ => b.header(hp::name(&o.bytes("k"), 0), hp::value(&o.bytes("v"), 0)) }),
            (Bld::Resp(b), "header") => Bld::Resp(match o.i("as") { 1 => b.header(Box::leak(text(o.bytes("k")).into_boxed_str()) as &'static str, Box::leak(t().into_boxed_str()) as &'static str), 2 => b.header(text(o.bytes("k")), t()), _ => b.header(hp::name(&o.bytes("k"), 0), hp::value(&o.bytes("v"), 0)) }),
            (Bld::Req(b), "headers") => { let mut h = HeaderMap::new(); for (n, v) in hp::fields(o, "hs") { h.insert(n, v); } Bld::Req(b.headers(h)) }
            (Bld::Resp(b), "headers") => { let mut h = HeaderMap::new(); for (n, v) in hp::fields(o, "hs") { h.insert(n, v); } Bld::Resp(b.headers(h)) }
            (Bld::Req(mut b), "hmut") => { if let Some(h) = b.headers_mut() { h.insert(hp::name(&o.bytes("k"), 0), hp::value(&o.bytes("v"), 0)); } Bld::Req(b) }
            (Bld::Resp(mut b), "hmut") => { if let Some(h) = b.headers_mut() { h.insert(hp::name(&o.bytes("k"), 0), hp::value(&o.bytes("v"), 0)); } Bld::Resp(b) }
            (Bld::Req(b), "up2") => { let s = settings(o); extra = extra.set("b64", s.encode_http_settings().as_bytes()); Bld::Req(b.upgrade_http2(s)) }
            (Bld::Resp(b), "status") => Bld::Resp(match o.i("as") { 1 => b.status(text(o.bytes("v")).as_str()), 2 => b.status(&o.bytes("v")[..]), 3 => match StatusCode::from_bytes(&o.bytes("v")) { Ok(s) => b.status(s), Err(_) => b.status(0) }, _ => b.status(text(o.bytes("v")).parse::<u16>().expect("a legal status was refused")) }),
            (Bld::Resp(b), "rmethod") => Bld::Resp(b.method(t())),
            (Bld::Resp(b), "ext") => Bld::Resp(if o.i("k") == 1 { b.extension(o.i("n") as i32) } else if o.i("k") == 3 { b.extension(ctx(o.i("n"))) } else { b.extension(Tag(o.i("n"))) }),
            (_, x) => panic!("HARNESS: builder call {}", x),
        };
        self.shows(extra)
    }
    pub fn run(&mut self, o: &J) -> J {
        if matches!(self.m, M::None) {
            // the builder refused: there is no message to work on
            match o.s("op") { "into" | "last" | "type" | "copy" | "parts" | "write" | "fill" => return self.after(ok()), "from" => { self.b = Bld::Req(Request::builder()); return self.shows(ok()) } _ => () }
        }
        match o.s("op") {
            "new" => {
                self.b = match o.s("kind") {
                    "req" => match o.i("how") { 1 => Bld::Req(request::Builder::new()), 2 => Bld::Req(request::Builder::default()), _ => Bld::Req(Request::builder()) },
                    _ => Bld::Resp(match o.i("how") { 1 => response::Builder::new(), 2 => response::Builder::default(), 3 => Response::text(), 4 => Response::json(), 5 => Response::status404(), 6 => Response::status500(), 7 => Response::status502(), 8 => Response::status503(), _ => Response::builder() }),
                };
                self.shows(ok())
            }
            "from" => { self.b = reqs!(&self.m, |r| Bld::Req(request::Builder::from_req(r)), panic!("HARNESS: from a response")); self.shows(ok()) }
            "body" => {
                let b = o.bytes("b");
                let r: Result<M, WebError> = match (std::mem::replace(&mut self.b, Bld::None), o.i("str")) {
                    (Bld::Req(x), 0) => x.body(b).map(M::Qv),
                    (Bld::Req(x), 1) => x.body(text(b)).map(M::Qs),
                    (Bld::Req(x), _) => x.body(()).map(M::Qu),
                    (Bld::Resp(x), 0) => x.body(b).map(M::Pv),
                    (Bld::Resp(x), 1) => x.body(text(b)).map(M::Ps),
                    (Bld::Resp(x), _) => x.body(Binary::from(b)).map(M::Pb),
                    _ => panic!("HARNESS: no builder"),
                };
                match r { Ok(m) => { self.m = m; self.after(ok()) } Err(_) => self.after(err()) }
            }
            // messages not made by builders
            "plain" => {
                let b = o.bytes("b");
                self.m = match (o.s("kind"), o.i("how")) {
                    ("req", 0) => M::Qu(Request::new()),
                    ("req", 1) => M::Qu(Request::default()),
                    ("req", 2) => M::Qu(Request::new_by_parts(request::Parts::new())),
                    ("req", _) => M::Qu(Request::new_by_parts(request::Parts::default())),
                    (_, 0) => M::Pv(Response::new(b)),
                    (_, 1) => M::Ps(Response::default()),
                    (_, 2) => M::Pv(Response::from_parts(response::Parts::default(), b)),
                    _ => M::Pb(Response::new(Binary::from(b))),
                };
                self.after(ok())
            }
            // parse into the message that is there
            "fill" => { let b = o.bytes("b"); reqs!(&mut self.m, |r| { let _ = r.parse(&b); }, resps!(&mut self.m, |r| { let _ = r.parse(&b); }, ())); self.after(ok()) }
            "seturl" => { let u = url::build(o).unwrap_or_else(|e| panic!("a legal url was refused: {}", e)); reqs!(&mut self.m, |r| r.set_url(u), ()); self.after(ok()) }
            "uset" => {
                // one part of the URL through the message
                let v = o.bytes("v");
                reqs!(&mut self.m, |r| match o.s("part") {
                    "path" => if o.i("as") == 1 { r.set_path(text(v)) } else { r.url_mut().path = text(v) },
                    "scheme" => { let s = Scheme::try_from(text(v).as_str()).expect("a legal scheme was refused"); if o.i("as") == 1 { r.set_scheme(s) } else { r.url_mut().scheme = s } }
                    "query" => r.url_mut().query = Some(text(v)),
                    "port" => r.url_mut().port = Some(text(v).parse().expect("HARNESS port")),
                    x => panic!("HARNESS part {}", x),
                }, ());
                self.after(ok())
            }
            "mset" => {
                let v = text(o.bytes("v"));
                reqs!(&mut self.m, |r| { let m = Method::try_from(v.as_str()).expect("a legal method was refused"); if o.i("as") == 1 { r.set_method(m) } else { r.parts_mut().method = m } }, ());
                self.after(ok())
            }
            "vset" => {
                let v = vnum(o.i("n"));
                reqs!(&mut self.m, |r| if o.i("as") == 1 { r.set_version(v) } else { r.parts_mut().version = v }, resps!(&mut self.m, |r| *r.version_mut() = v, ()));
                self.after(ok())
            }
            "sset" => { let n = StatusCode::from_u16(o.i("n") as u16).expect("a legal status was refused"); resps!(&mut self.m, |r| *r.status_mut() = n, ()); self.after(ok()) }
            "hset" => {
                let (k, v) = (hp::name(&o.bytes("k"), 0), hp::value(&o.bytes("v"), 0));
                if o.i("as") == 1 { each!(&mut self.m, |r| { r.headers_body_mut().0.insert(k, v); }, ()) } else { each!(&mut self.m, |r| { r.headers_mut().insert(k, v); }, ()) }
                self.after(ok())
            }
            "hrem" => { let k = o.bytes("k"); each!(&mut self.m, |r| { r.headers_mut().remove(&k); }, ()); self.after(ok()) }
            "eset" => { each!(&mut self.m, |r| if o.i("k") == 1 { r.extensions_mut().insert(o.i("n") as i32); } else if o.i("k") == 3 { r.extensions_mut().insert(ctx(o.i("n"))); } else { r.extensions_mut().insert(Tag(o.i("n"))); }, ()); self.after(ok()) }
            // the HPACK context of the message takes another size
            "etouch" => { each!(&self.m, |r| if let Some(c) = r.extensions().get::<Ctx>() { c.write().unwrap().set_max_table_size(o.i("n") as usize) }, ()); self.after(ok()) }
            "bset" => {
                let b = o.bytes("b");
                match (&mut self.m, o.i("as")) {
                    (M::Qv(r), 0) => *r.body_mut() = b, (M::Qv(r), _) => *r.headers_body_mut().1 = b,
                    (M::Qs(r), 0) => *r.body_mut() = text(b), (M::Qs(r), _) => *r.headers_body_mut().1 = text(b),
                    (M::Pv(r), 0) => *r.body_mut() = b, (M::Pv(r), 1) => *r.headers_body_mut().1 = b, (M::Pv(r), _) => r.replace_body(b),
                    (M::Ps(r), 0) => *r.body_mut() = text(b), (M::Ps(r), 1) => *r.headers_body_mut().1 = text(b), (M::Ps(r), _) => r.replace_body(text(b)),
                    (M::Pb(r), 0) => *r.body_mut() = Binary::from(b), (M::Pb(r), 1) => *r.headers_body_mut().1 = Binary::from(b), (M::Pb(r), _) => r.replace_body(Binary::from(b)),
                    _ => (),
                }
                self.after(ok())
            }
            // another body for the same message; the old body is given back
            "into" => {
                let b = o.bytes("b");
                let old;
                self.m = match (std::mem::replace(&mut self.m, M::None), o.i("str")) {
                    (M::Qu(r), 0) => { let (n, ()) = r.into(b); old = vec![]; M::Qv(n) }
                    (M::Qu(r), _) => { let (n, ()) = r.into(text(b)); old = vec![]; M::Qs(n) }
                    (M::Qv(r), 0) => { let (n, x) = r.into(b); old = x; M::Qv(n) }
                    (M::Qv(r), _) => { let (n, x) = r.into(text(b)); old = x; M::Qs(n) }
                    (M::Qs(r), 0) => { let (n, x) = r.into(b); old = x.into_bytes(); M::Qv(n) }
                    (M::Qs(r), _) => { let (n, x) = r.into(text(b)); old = x.into_bytes(); M::Qs(n) }
                    (M::Pv(r), 0) => { let (n, x) = r.into(b); old = x; M::Pv(n) }
                    (M::Pv(r), 1) => { let (n, x) = r.into(text(b)); old = x; M::Ps(n) }
                    (M::Pv(r), _) => { let (n, x) = r.into(Binary::from(b)); old = x; M::Pb(n) }
                    (M::Ps(r), 0) => { let (n, x) = r.into(b); old = x.into_bytes(); M::Pv(n) }
                    (M::Ps(r), 1) => { let (n, x) = r.into(text(b)); old = x.into_bytes(); M::Ps(n) }
                    (M::Ps(r), _) => { let (n, x) = r.into(Binary::from(b)); old = x.into_bytes(); M::Pb(n) }
                    (M::Pb(r), 0) => { let (n, x) = r.into(b); old = x.chunk().to_vec(); M::Pv(n) }
                    (M::Pb(r), 1) => { let (n, x) = r.into(text(b)); old = x.chunk().to_vec(); M::Ps(n) }
                    (M::Pb(r), _) => { let (n, x) = r.into(Binary::from(b)); old = x.chunk().to_vec(); M::Pb(n) }
                    (M::None, _) => panic!("HARNESS: no message"),
                };
                self.after(ok().set("old", old))
            }
            // the same message with its body in another type
            "type" => {
                self.m = match (std::mem::replace(&mut self.m, M::None), o.i("how")) {
                    (M::Qs(r), _) => M::Qv(r.into_type::<Vec<u8>>()),
                    (M::Qv(r), _) => M::Qv(r.into_type::<Vec<u8>>()),
                    (M::Ps(r), 0) => M::Pv(r.into_type::<Vec<u8>>()),
                    (M::Ps(r), 1) => M::Pv(r.map(|s| s.into_bytes())),
                    (M::Ps(r), 2) => M::Pb(r.into_binary()),
                    (M::Ps(r), _) => { let (p, b) = r.into_parts(); M::Ps(Response::from_parts(p, b)) }
                    (M::Pv(r), 0) => M::Pb(r.into_type::<Binary>()),
                    (M::Pv(r), 1) => M::Pb(r.map(Binary::from)),
                    (M::Pv(r), 2) => M::Pb(r.into_binary()),
                    (M::Pv(r), _) => { let (p, b) = r.into_parts(); M::Pv(Response::from_parts(p, b)) }
                    (M::Pb(r), 2) => M::Pb(r.into_binary()),
                    (M::Pb(r), 3) => { let (p, b) = r.into_parts(); M::Pb(Response::from_parts(p, b)) }
                    (x, _) => x,
                };
                self.after(ok())
            }
            // a copy with the old body; this message takes the new one
            "copy" => {
                let b = o.bytes("b");
                self.c = match &mut self.m {
                    M::Qu(r) => M::Qu(r.replace_clone(())), M::Qv(r) => M::Qv(r.replace_clone(b)), M::Qs(r) => M::Qs(r.replace_clone(text(b))),
                    M::Pv(r) => M::Pv(r.replace_clone(b)), M::Ps(r) => M::Ps(r.replace_clone(text(b))), M::Pb(r) => M::Pb(r.replace_clone(Binary::from(b))), M::None => panic!("HARNESS: no message"),
                };
                self.after(ok())
            }
            // the parts alone, in a message without a body
            "parts" => { self.c = reqs!(&self.m, |r| M::Qu(Request::new_by_parts(r.parts().clone())), M::None); self.after(ok()) }
            // the body alone; the rest is given up
            "last" => {
                let (b, m) = match std::mem::replace(&mut self.m, M::None) {
                    M::Pv(r) => (r.into_body(), M::None), M::Ps(r) => (r.into_body().into_bytes(), M::None), M::Pb(r) => (r.into_body().chunk().to_vec(), M::None),
                    x => (vec![], x),
                };
                self.m = m;
                self.after(ok().set("old", b))
            }
            "swap" => { std::mem::swap(&mut self.m, &mut self.c); self.after(ok()) }
            "write" => {
                // writing must not change the message
                fn two<E>(a: Result<Vec<u8>, E>, b: Result<Vec<u8>, E>) -> (J, bool) { match (a, b) { (Ok(x), Ok(y)) => { let e = x == y; (J::Arr(vec![x.into()]), e) } (Err(_), Err(_)) => (J::Arr(vec![]), true), _ => (J::Arr(vec![]), false) } }
                let (w, same) = match &mut self.m {
                    M::None => panic!("HARNESS: no message"),
                    M::Qu(r) => { let a = r.http1_data(); let b = r.http1_data(); two(a, b) } M::Qv(r) => { let a = r.http1_data(); let b = r.http1_data(); two(a, b) } M::Qs(r) => { let a = r.http1_data(); let b = r.http1_data(); two(a, b) }
                    M::Pv(r) => { let a = r.httpdata(); let b = r.httpdata(); two(a, b) } M::Ps(r) => { let a = r.httpdata(); let b = r.httpdata(); two(a, b) } M::Pb(r) => { let a = r.httpdata(); let b = r.httpdata(); two(a, b) }
                };
                // headers and body side by side are those of the message
                let hb = match &mut self.m {
                    M::None => true, M::Qu(r) => { let h = r.headers().clone(); *r.headers_body().0 == h }
                    M::Qv(r) => { let (h, b) = (r.headers().clone(), r.body().clone()); r.headers_body() == (&h, &b) } M::Qs(r) => { let (h, b) = (r.headers().clone(), r.body().clone()); r.headers_body() == (&h, &b) }
                    M::Pv(r) => { let (h, b) = (r.headers().clone(), r.body().clone()); r.headers_body() == (&h, &b) } M::Ps(r) => { let (h, b) = (r.headers().clone(), r.body().clone()); r.headers_body() == (&h, &b) }
                    M::Pb(r) => { let (h, b) = (r.headers().clone(), r.body().chunk().to_vec()); let x = r.headers_body(); *x.0 == h && x.1.chunk() == &b[..] }
                };
                self.after(ok().set("w", w).set("twice", same as i64).set("hb", hb as i64))
            }
            "ubuild" => match url::build(o) { Ok(u) => ok().set("u", url::view(&u)), Err(_) => err() },
            _ => self.build(o),
        }
    }
}
