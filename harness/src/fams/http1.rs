use super::*;
use crate::json::J;
use algorithm::buf::{BinaryRef, Bt};
use webparse::{HeaderMap, Helper, Method, Request, Response, Serialize, Version, WebResult};

pub enum Obj { Req(Request<()>), Resp(Response<()>) }
impl Obj {
    pub fn new(kind: &str) -> Obj { if kind == "req" { Obj::Req(Request::new()) } else { Obj::Resp(Response::new(())) } }
    fn kind(&self) -> &'static str { match self { Obj::Req(_) => "req", _ => "resp" } }
    fn parse(&mut self, b: &[u8]) -> WebResult<usize> { match self { Obj::Req(r) => r.parse(b), Obj::Resp(r) => r.parse(b) } }
    fn parse_buffer<B: Bt>(&mut self, b: &mut B) -> WebResult<usize> { match self { Obj::Req(r) => r.parse_buffer(b), Obj::Resp(r) => r.parse_buffer(b) } }
    fn partial(&self) -> bool { match self { Obj::Req(r) => r.is_partial(), Obj::Resp(r) => r.is_partial() } }
    fn headers(&self) -> &HeaderMap { match self { Obj::Req(r) => r.headers(), Obj::Resp(r) => r.headers() } }
    fn body_len(&self) -> isize { match self { Obj::Req(r) => r.get_body_len(), Obj::Resp(r) => r.get_body_len() } }
    pub fn view(&self) -> J {
        match self {
            Obj::Req(r) => req_view(r),
            Obj::Resp(r) => resp_view(r),
        }
    }
    /// serialised with a body, through the typed message and through encode_header
    fn ser(&mut self, body: &[u8]) -> WebResult<Vec<u8>> {
        match self {
            Obj::Req(r) => Request::new_by_parts(r.parts().clone()).into(body.to_vec()).0.http1_data(),
            Obj::Resp(r) => r.replace_clone(()).into(body.to_vec()).0.httpdata(),
        }
    }
    fn head(&mut self) -> WebResult<(Vec<u8>, usize)> {
        let mut b = sink();
        let n = match self { Obj::Req(r) => r.encode_header(&mut b.b)?, Obj::Resp(r) => r.encode_header(&mut b.b)? };
        Ok((b.out(), n))
    }
}
pub fn req_view<T: Serialize>(r: &Request<T>) -> J {
    J::obj().set("method", if *r.method() == Method::None { b"".as_ref() } else { r.method().as_str().as_bytes() })
        .set("version", r.version().as_str().as_bytes()).set("u", url::view(r.url()))
        .set("hs", hp::pairs(r.headers().iter().map(|x| (&x.0, &x.1)))).set("partial", r.is_partial() as i64).set("chunked", r.headers().is_chunked() as i64)
        .set("path", r.path().as_bytes()).set("complete", r.is_complete() as i64)
}
pub fn resp_view<T: Serialize>(r: &Response<T>) -> J {
    J::obj().set("version", r.version().as_str().as_bytes()).set("status", r.status().as_u16() as i64)
        .set("hs", hp::pairs(r.headers().iter().map(|x| (&x.0, &x.1)))).set("partial", r.is_partial() as i64).set("chunked", r.headers().is_chunked() as i64)
}
#[derive(Clone, Copy)]
enum Mode { Head, Body(usize), Chunk, Stop }
pub struct S { obj: Obj, acc: Vec<u8>, mode: Mode, body: Vec<u8> }
impl Default for S { fn default() -> S { S { obj: Obj::new("req"), acc: vec![], mode: Mode::Head, body: vec![] } } }

fn ver(v: i64) -> Version { match v { 10 => Version::Http10, 11 => Version::Http11, 2 => Version::Http2, 3 => Version::Http3, _ => Version::None } }
fn sval(b: Vec<u8>) -> webparse::HeaderValue { hp::value(&b, 0) }
/// builder calls of a request
pub fn build_req(o: &J) -> WebResult<Request<Vec<u8>>> {
    let mut b = Request::builder();
    for c in o.a("calls") {
        b = match c.s("c") {
            "method" => b.method(url::text(c.bytes("v")).as_str()),
            "url" => b.url(url::text(c.bytes("v"))),
            "version" => b.version(ver(c.i("n"))),
            "header" => { let n = hname(c); let v = hval(c); b.header(n, v) }
            "headers" => b.headers(hmap(c)),
            x => panic!("HARNESS: builder call {}", x),
        }
    }
    b.body(o.bytes("body"))
}
fn hname(c: &J) -> webparse::HeaderName { let f = if c.has("form") { c.i("form") } else { 1 }; hp::name(&c.bytes("k"), f) }
fn hval(c: &J) -> webparse::HeaderValue { let f = if c.has("form") { c.i("form") } else { 0 }; if f == 2 { hp::value(&c.bytes("v"), 2) } else { sval(c.bytes("v")) } }
fn hmap(c: &J) -> HeaderMap { let mut m = HeaderMap::new(); for (n, v) in hp::fields(c, "hs") { m.insert(n, v); } m }
pub fn build_resp(o: &J) -> WebResult<Response<Vec<u8>>> {
    let mut b = match if o.has("preset") { o.s("preset") } else { "" } {
        "text" => Response::text(), "json" => Response::json(), "404" => Response::status404(), "500" => Response::status500(),
        "502" => Response::status502(), "503" => Response::status503(), _ => Response::builder(),
    };
    for c in o.a("calls") {
        b = match c.s("c") {
            "status" => b.status(c.i("n") as u16),
            "version" => b.version(ver(c.i("n"))),
            "header" => { let n = hname(c); let v = hval(c); b.header(n, v) }
            "headers" => b.headers(hmap(c)),
            x => panic!("HARNESS: builder call {}", x),
        }
    }
    b.body(o.bytes("body"))
}
impl S {
    fn reset(&mut self) { self.acc.clear(); self.mode = Mode::Head; self.body.clear(); }
    fn recv(&mut self, b: &[u8]) -> J {
        self.acc.extend_from_slice(b);
        let mut out = vec![];
        loop {
            match self.mode {
                Mode::Stop => break,
                Mode::Head => {
                    if self.acc.is_empty() { break; }
                    match self.obj.parse(&self.acc) {
                        Ok(n) => {
                            self.acc.drain(..n);
                            let len = self.obj.body_len();
                            if self.obj.headers().is_chunked() { self.mode = Mode::Chunk }
                            else if len > 0 { self.mode = Mode::Body(len as usize) }
                            else { out.push(J::obj().set("msg", self.obj.view()).set("body", Vec::<u8>::new())); }
                        }
                        Err(e) if e.is_partial() => break,
                        Err(_) => self.mode = Mode::Stop,
                    }
                }
                Mode::Body(n) => {
                    if self.acc.len() < n { break; }
                    let d: Vec<u8> = self.acc.drain(..n).collect();
                    out.push(J::obj().set("msg", self.obj.view()).set("body", d));
                    self.mode = Mode::Head;
                }
                Mode::Chunk => {
                    let r = { let mut bin = BinaryRef::from(&self.acc[..]); Helper::parse_chunk_data(&mut bin) };
                    match r {
                        Ok((h, n)) => {
                            self.body.extend_from_slice(&self.acc[h..h + n]);
                            self.acc.drain(..h + n + 2);
                            if n == 0 {
                                out.push(J::obj().set("msg", self.obj.view()).set("body", std::mem::take(&mut self.body)));
                                self.mode = Mode::Head;
                            }
                        }
                        Err(e) if e.is_partial() => break,
                        Err(_) => self.mode = Mode::Stop,
                    }
                }
            }
        }
        ok().set("out", J::Arr(out)).set("stop", matches!(self.mode, Mode::Stop) as i64)
    }
    fn answer(&self, r: &WebResult<usize>) -> J {
        match r { Ok(n) => ok().set("used", *n).set("msg", self.obj.view()), Err(e) => werr(e) }
    }
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "obj" => { self.obj = Obj::new(o.s("kind")); self.reset(); ok() }
            "next" => { self.reset(); ok() }
            "feed" => {
                self.acc.extend_from_slice(&o.bytes("b"));
                let acc = std::mem::take(&mut self.acc);
                let r = self.obj.parse(&acc);
                self.acc = acc;
                self.answer(&r).set("pa", self.obj.partial() as i64)
            }
            "parse" => {
                let b = o.bytes("b");
                let r = self.obj.parse(&b);
                let mut f = Obj::new(self.obj.kind());
                let fr = f.parse(&b);
                let mut a = self.answer(&r).set("view", self.obj.view()).set("fview", f.view());
                a = match fr { Ok(n) => a.set("ft", "ok").set("fused", n), Err(e) => a.set("ft", werr(&e).s("t").to_string()).set("fused", -1i64) };
                a
            }
            "pbuf" => {
                let b = o.bytes("b");
                let (r, left) = with_bt!(b.clone(), bin => { let r = self.obj.parse_buffer(&mut bin); (r, bin.remaining()) });
                let mut f = Obj::new(self.obj.kind());
                let (fr, fleft) = with_bt!(b, bin => { let r = f.parse_buffer(&mut bin); (r, bin.remaining()) });
                let a = self.answer(&r).set("left", left).set("fleft", fleft).set("view", self.obj.view()).set("fview", f.view());
                match fr { Ok(n) => a.set("ft", "ok").set("fused", n), Err(e) => a.set("ft", werr(&e).s("t").to_string()).set("fused", -1i64) }
            }
            "ser" => {
                let body = o.bytes("body");
                match (self.obj.ser(&body), self.obj.head()) {
                    (Ok(b), Ok((h, n))) => {
                        let mut f = Obj::new(self.obj.kind());
                        let a = ok().set("b", b.clone()).set("h", h).set("n", n).set("view", self.obj.view());
                        match f.parse(&b) {
                            Ok(u) => { let rest = b[u..].to_vec(); match f.ser(&rest) { Ok(b2) => a.set("b2", b2), Err(_) => a.set("b2", Vec::<u8>::new()) } }
                            Err(_) => a.set("b2", Vec::<u8>::new()),
                        }
                    }
                    (Err(_), Err(_)) => err().set("view", self.obj.view()),
                    _ => J::obj().set("t", "differ").set("view", self.obj.view()),
                }
            }
            "build" => {
                let (view, bytes) = if o.s("kind") == "req" {
                    match build_req(o) { Ok(mut r) => (req_view(&r), r.http1_data()), Err(_) => return err() }
                } else {
                    match build_resp(o) { Ok(mut r) => (resp_view(&r), r.httpdata()), Err(_) => return err() }
                };
                match bytes {
                    Ok(b) => {
                        let mut f = Obj::new(o.s("kind"));
                        let a = ok().set("view", view).set("b", b.clone());
                        match f.parse(&b) {
                            Ok(u) => { let rest = b[u..].to_vec(); match f.ser(&rest) { Ok(b2) => a.set("b2", b2), Err(_) => a.set("b2", Vec::<u8>::new()) } }
                            Err(_) => a.set("b2", Vec::<u8>::new()),
                        }
                    }
                    Err(_) => J::obj().set("t", "serr").set("view", view),
                }
            }
            "cenc" => {
                let mut b = sink();
                let mut n = 0;
                for d in o.a("ds") { n += Helper::encode_chunk_data(&mut b.b, &d.to_bytes()).expect("encode"); }
                ok().set("b", b.out()).set("n", n)
            }
            // a chunk of any size, told by its ends; the octets between are made up here
            "cbig" => {
                let d: Vec<u8> = (0..o.i("n") as usize).map(|i| (i * 31 % 251) as u8).collect();
                let mut b = sink();
                let n = Helper::encode_chunk_data(&mut b.b, &d).expect("encode");
                let w = b.out();
                let at = w.windows(2).take(64).position(|x| x == b"\r\n").unwrap_or(0);
                let same = w.len() >= at + 2 + d.len() && w[at + 2..at + 2 + d.len()] == d[..];
                let tail = w[w.len().min(at + 2 + d.len())..].iter().take(8).cloned().collect::<Vec<u8>>();
                let mut a = ok().set("n", n).set("total", w.len()).set("head", w[..at + 2].to_vec()).set("same", same as i64).set("tail", tail);
                let short = w[..w.len() - 1].to_vec();
                let r = with_bt!(w, bin => Helper::parse_chunk_data(&mut bin));
                a = match r { Ok((h, n)) => a.set("dt", "ok").set("dh", h).set("dn", n), Err(e) => a.set("dt", werr(&e).s("t").to_string()).set("dh", 0).set("dn", 0) };
                let r = with_bt!(short, bin => Helper::parse_chunk_data(&mut bin));
                match r { Ok(_) => a.set("st", "ok"), Err(e) => a.set("st", werr(&e).s("t").to_string()) }
            }
            "cdec" => {
                let b = o.bytes("b");
                let r = with_bt!(b, bin => Helper::parse_chunk_data(&mut bin));
                match r { Ok((h, n)) => ok().set("h", h).set("n", n), Err(e) => werr(&e) }
            }
            "recv" => self.recv(&o.bytes("b")),
            x => panic!("HARNESS: unknown http1 op {}", x),
        }
    }
}
