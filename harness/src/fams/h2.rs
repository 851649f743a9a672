use super::*;
use crate::json::{be4, txt, J};
use algorithm::buf::{Binary, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::frame::{Data, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Parts, Ping, Priority, PushPromise, Reason, Reset, Settings, StreamIdentifier, WindowUpdate};
use webparse::http2::{encoder::Encoder, Decoder, HeaderIndex};
use webparse::{HeaderMap, Method, Request, Response, Scheme, StatusCode, Url};

pub struct S { dec: Decoder, enc: Encoder }
fn new_enc(max: usize) -> Encoder { if max == 16384 || way(2) == 0 { let mut e = Encoder::new(); e.max_frame_size = max; return e; } Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), max) }
impl Default for S { fn default() -> S { S { dec: Decoder::new(), enc: new_enc(16384) } } }

fn opt(x: Option<J>) -> J { J::Arr(x.into_iter().collect()) }
fn opt_bytes(o: &J, k: &str) -> Option<Vec<u8>> { o.a(k).first().map(|x| x.to_bytes()) }
fn opt_str(o: &J, k: &str) -> Option<String> { opt_bytes(o, k).map(|b| String::from_utf8(b).expect("HARNESS utf8")) }
fn be(x: Option<u32>) -> J { opt(x.map(be4)) }
fn u32of(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
pub fn sett_view(s: &Settings) -> J {
    J::Arr(vec![be(s.header_table_size()), be(s.is_push_enabled().map(|x| x as u32)), be(s.max_concurrent_streams()), be(s.initial_window_size()), be(s.max_frame_size()),
        be(s.max_header_list_size()), be(None), be(s.is_extended_connect_protocol_enabled().map(|x| x as u32))])
}
fn make_sett(v: &[J]) -> Settings {
    let g = |k: usize| match &v[k] { J::Arr(a) => a.first().map(|x| u32of(&x.to_bytes())), _ => panic!("HARNESS sett") };
    // the table size has no setter: it is taken from a decoded payload
    let mut s = match g(0) {
        Some(n) => { use std::io::Write; let mut p = vec![0u8, 1]; p.write_all(&n.to_be_bytes()).unwrap(); let mut b = Binary::from(p);
            Settings::parse(FrameHeader::new(Kind::Settings, Flag::zero(), StreamIdentifier::zero()), &mut b).expect("a legal sett was refused") }
        None => Settings::default(),
    };
    if let Some(n) = g(1) { s.set_enable_push(n != 0); }
    s.set_max_concurrent_streams(g(2));
    s.set_initial_window_size(g(3));
    s.set_max_frame_size(g(4));
    s.set_max_header_list_size(g(5));
    s.set_enable_connect_protocol(g(7));
    s
}
fn view(f: &mut Frame<Binary>) -> J {
    let o = J::obj().set("sid", f.stream_id().0 as i64).set("fl", f.flags().bits()).set("es", f.is_end_stream() as i64).set("eh", f.is_end_headers() as i64)
        .set("ih", f.is_header() as i64).set("idt", f.is_data() as i64).set("name", txt(&f.display_name()));
    macro_rules! fields { ($o:expr, $h:expr, $sc:expr) => {{
        assert!(!$h.is_over_size(), "a delivered list is said to be too long");
        let sc = $sc;
        $o.set("m", opt($h.method().as_ref().map(|m| txt(m.as_str())))).set("sc", sc).set("au", opt($h.authority().as_ref().map(|s| txt(s))))
            .set("pa", opt($h.path().as_ref().map(|s| txt(s)))).set("st", opt($h.status().as_ref().map(|s| J::Int(s.as_u16() as i64))))
            .set("hs", hp::pairs($h.fields().iter().map(|x| (&x.0, &x.1))))
    }}; }
    match f {
        Frame::Data(d) => o.set("k", "data").set("p", d.payload().chunk().to_vec()).set("fid", d.stream_id().0 as i64),
        Frame::Headers(h) => { let sc = opt(h.scheme().as_ref().map(|s| txt(s.as_str()))); fields!(o.set("k", "headers").set("info", h.is_informational() as i64), h, sc) }
        Frame::PushPromise(h) => fields!(o.set("k", "push").set("id", h.promised_id().0 as i64).set("peh", h.is_end_headers() as i64), h, J::Arr(vec![])),
        Frame::Priority(p) => o.set("k", "priority").set("id", p.dependency_id().0 as i64).set("w", p.weight()),
        Frame::Reset(r) => o.set("k", "reset").set("code", be4(u32::from(r.reason()))),
        Frame::Settings(s) => o.set("k", "settings").set("ack", s.is_ack() as i64).set("sett", sett_view(s)),
        Frame::Ping(p) => o.set("k", "ping").set("ack", p.is_ack() as i64).set("p", p.payload().to_vec()),
        Frame::GoAway(g) => o.set("k", "goaway").set("id", g.last_stream_id().0 as i64).set("code", be4(u32::from(g.reason()))).set("p", g.debug_data().chunk().to_vec()),
        Frame::WindowUpdate(w) => o.set("k", "window").set("id", w.size_increment() as i64),
    }
}
/// reads frames off a connection the way its owner does: header, payload, continuations of a header block
fn read(q: &[u8], dec: &mut Decoder, max: usize) -> (Vec<Frame<Binary>>, &'static str) {
    let mut fs = vec![];
    let mut p = 0;
    let raw = |p: usize| -> Result<Option<(FrameHeader, usize)>, ()> {
        let mut b = Binary::from(q[p..].to_vec());
        if b.remaining() < 9 { return match FrameHeader::parse(&mut b) { Ok(_) => panic!("a truncated frame header was decoded"), Err(_) => Ok(None) }; }
        let h = FrameHeader::parse(&mut b).map_err(|_| ())?;
        if b.remaining() < h.length as usize { return Ok(None); }
        let n = h.length as usize;
        Ok(Some((h, n)))
    };
    while p < q.len() {
        let (h, n) = match raw(p) { Ok(Some(x)) => x, Ok(None) => return (fs, "short"), Err(_) => return (fs, "err") };
        let mut buf = q[p + 9..p + 9 + n].to_vec();
        p += 9 + n;
        if (h.kind == Kind::Headers || h.kind == Kind::PushPromise) && !h.flag.is_end_headers() {
            loop {
                let (c, n) = match raw(p) { Ok(Some(x)) => x, Ok(None) => return (fs, "short"), Err(_) => return (fs, "err") };
                if c.kind != Kind::Continuation || c.id != h.id { return (fs, "proto"); }
                buf.extend_from_slice(&q[p + 9..p + 9 + n]);
                p += 9 + n;
                if c.flag.is_end_headers() { break; }
            }
        }
        match Frame::parse(h, Binary::from(buf), dec, max) { Ok(f) => fs.push(f), Err(_) => return (fs, "err") }
    }
    (fs, "done")
}
fn views(fs: &mut Vec<Frame<Binary>>) -> J { J::Arr(fs.iter_mut().map(view).collect()) }
fn back(b: &[u8], dec: &mut Decoder, max: usize) -> (J, Vec<Frame<Binary>>) {
    let (mut fs, end) = read(b, dec, max);
    (J::obj().set("end", end).set("fs", views(&mut fs)), fs)
}
fn hmap(o: &J) -> HeaderMap { let mut m = HeaderMap::new(); for (n, v) in hp::fields(o, "hs") { m.insert(n, v); } m }
fn make(o: &J) -> Frame<Binary> {
    let sid = StreamIdentifier(o.i("sid") as u32);
    let fl = Flag::new(o.i("fl") as u8).expect("a legal flag was refused");
    let head = |k| FrameHeader::new(k, fl, sid);
    macro_rules! parts { ($h:expr) => {{
        if let Some(m) = opt_str(o, "m") { $h.set_method(Method::try_from(&*m).expect("a legal method was refused")); }
        if let Some(x) = opt_str(o, "au") { $h.set_authority(x); }
        if let Some(x) = opt_str(o, "pa") { $h.set_path(x); }
        if let Some(x) = o.a("st").first() { $h.set_status(StatusCode::from_u16(x.int() as u16).expect("a legal status was refused")); }
    }}; }
    match o.s("k") {
        "data" => {
            let payload = Binary::from(o.bytes("p"));
            if o.i("form") == 0 { Frame::Data(Data::new(head(Kind::Data), payload)) }
            else {
                let mut d = Data::new(FrameHeader::new(Kind::Data, Flag::zero(), sid), ()).map(|_| payload);
                d.set_end_stream(fl.is_end_stream());
                if fl.is_padded() { d.set_padded(); }
                Frame::Data(d)
            }
        }
        "headers" => {
            let mut h = if o.i("form") == 0 { Headers::new(head(Kind::Headers), hmap(o)) } else {
                let mut h = Headers::trailers(sid, Headers::empty().into_parts().0, hmap(o));
                *h.flags_mut() = fl;
                h
            };
            if way(3) == 0 {
                let p = h.parts_mut();
                p.method = opt_str(o, "m").map(|m| Method::try_from(&*m).expect("a legal method was refused"));
                if let Some(x) = opt_str(o, "au") { p.set_authority(x); }
                p.path = opt_str(o, "pa");
                if let Some(x) = o.a("st").first() { p.set_status(StatusCode::from_u16(x.int() as u16).expect("a legal status was refused")); }
            } else { parts!(h); }
            if let Some(x) = opt_str(o, "sc") { h.set_scheme(Scheme::try_from(&*x).expect("a legal scheme was refused")); }
            Frame::from(h)
        }
        "push" => {
            let mut fields = hmap(o);
            if let Some(x) = opt_str(o, "sc") { fields.insert(":scheme", x); }
            let mut h = PushPromise::new(head(Kind::PushPromise), StreamIdentifier(o.i("id") as u32), fields);
            parts!(h);
            Frame::from(h)
        }
        "reset" => Frame::from(Reset::new(sid, Reason::from(u32of(&o.bytes("code"))))),
        "settings" => Frame::Settings(if o.i("ack") == 1 { Settings::ack() } else { make_sett(o.a("sett")) }),
        "ping" => {
            let mut p = [0u8; 8]; p.copy_from_slice(&o.bytes("p"));
            Frame::Ping(if o.i("ack") == 0 { Ping::new(p) } else if o.i("form") == 0 { Ping::pong(p) } else { Ping::new(p).ret_pong() })
        }
        "goaway" => {
            let (l, r) = (StreamIdentifier(o.i("id") as u32), Reason::from(u32of(&o.bytes("code"))));
            let p = o.bytes("p");
            Frame::from(if p.is_empty() && o.i("form") == 1 { GoAway::new(l, r) } else { GoAway::with_debug_data(l, r, Binary::from(p)) })
        }
        "window" => Frame::from(WindowUpdate::new(sid, o.i("id") as u32)),
        k => panic!("HARNESS: frame kind {}", k),
    }
}
fn encode(f: Frame<Binary>, enc: &mut Encoder) -> J {
    let mut b = sink();
    match f.encode(&mut b.b, enc) { Ok(n) => ok().set("b", b.out()).set("n", n), Err(_) => err() }
}
/// a message over frames: header frame then data frames
fn carry(s: &mut S, o: &J, h: Headers, body: &[u8]) -> (J, Vec<Frame<Binary>>) {
    s.enc.max_frame_size = o.i("mfs") as usize;
    let sid = h.stream_id();
    let mut b = sink();
    let mut h = h;
    h.set_end_headers();
    if body.is_empty() { h.set_end_stream(); }
    let mut n = Frame::<Binary>::from(h).encode(&mut b.b, &mut s.enc).expect("encode");
    if !body.is_empty() {
        let d = Data::new(FrameHeader::new(Kind::Data, Flag::end_stream(), sid), Binary::from(body.to_vec()));
        n += Frame::Data(d).encode(&mut b.b, &mut s.enc).expect("encode");
    }
    let b = b.out();
    let (v, fs) = back(&b, &mut s.dec, o.i("max") as usize);
    (ok().set("b", b).set("n", n).set("back", v), fs)
}
impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "hdr" => {
                let b = o.bytes("b");
                let (r, left) = with_bt!(b, x => { let r = FrameHeader::parse(&mut x); (r, x.remaining()) });
                match r {
                    Ok(h) => { let mut e = sink(); let n = h.encode(&mut e.b).expect("encode");
                        ok().set("len", h.length as i64).set("kind", h.kind().encode()).set("fl", h.flag().bits()).set("sid", h.stream_id().0 as i64).set("left", left).set("b", e.out()).set("n", n) }
                    Err(_) => err(),
                }
            }
            "read" => {
                let (mut fs, end) = read(&o.bytes("b"), &mut self.dec, o.i("max") as usize);
                let v = views(&mut fs);
                let re: Vec<J> = fs.into_iter().map(|f| encode(f, &mut new_enc((1 << 24) - 1))).collect();
                ok().set("end", end).set("fs", v).set("re", re)
            }
            // one frame handed to the parser by itself, with a context of its own; own: to the kind's parser
            "one" => {
                let Ok(fl) = Flag::new(o.i("fl") as u8) else { return err() };
                let mut h = FrameHeader::new(Kind::new(o.i("kind") as u8), fl, StreamIdentifier(o.i("sid") as u32));
                h.length = o.i("len") as u32;
                let mut p = Binary::from(o.bytes("p"));
                let r = if o.i("own") == 0 { Frame::parse(h, p, &mut Decoder::new(), o.i("max") as usize) } else { match h.kind {
                    Kind::Priority => Priority::parse(h, &mut p).map(Frame::from),
                    Kind::Reset => Reset::parse(h, &mut p).map(Frame::from),
                    Kind::Settings => Settings::parse(h, &mut p).map(Frame::Settings),
                    Kind::Ping => Ping::parse(h, &mut p).map(Frame::from),
                    Kind::GoAway => GoAway::parse(&mut p).map(Frame::from),
                    Kind::WindowUpdate => WindowUpdate::parse(h, &mut p).map(Frame::from),
                    k => panic!("HARNESS: no parser for {:?}", k),
                } };
                match r { Ok(mut f) => ok().set("f", view(&mut f)), Err(_) => err() }
            }
            "enc" => {
                self.enc.max_frame_size = o.i("mfs") as usize;
                let f = make(o.get("f"));
                let r = encode(f, &mut self.enc);
                if r.s("t") != "ok" { return r; }
                let (v, _) = back(&r.bytes("b"), &mut self.dec, o.i("max") as usize);
                r.set("back", v)
            }
            "resize" => {
                let n = o.i("n") as usize;
                self.dec.index.write().unwrap().set_max_table_size(n);
                self.enc.index.write().unwrap().set_max_table_size(n);
                ok()
            }
            "sett" => {
                let s = make_sett(o.a("sett"));
                let t = s.encode_http_settings();
                let mut b = sink();
                let n = s.encode(&mut b.b).expect("encode");
                let req = Request::builder().url("http://h/").header("X-A", "1").upgrade_http2(s.clone()).body(()).expect("build");
                ok().set("view", sett_view(&s)).set("len", s.payload_len()).set("text", txt(&t)).set("b", b.out()).set("n", n)
                    .set("up", hp::pairs(req.headers().iter().map(|x| (&x.0, &x.1))))
            }
            // (whatever the settings it is asked of say)
            "b64" => match { let mut s = match way(3) { 0 => Settings::default(), 1 => Settings::ack(), _ => Settings::default() }; if way(3) == 0 { s.set_max_header_list_size(Some(77)); s.set_initial_window_size(Some(1)); } s }.parse_http_settings(&String::from_utf8(o.bytes("b")).expect("HARNESS utf8")) {
                Ok(s) => ok().set("sett", sett_view(&s)).set("text", txt(&s.encode_http_settings())).set("ack", s.is_ack() as i64),
                Err(_) => err(),
            },
            // may this request be promised?
            "promise" => {
                let mut r = Request::new();
                r.set_method(Method::try_from(&*o.string("m")).expect("a legal method was refused"));
                for (n, v) in hp::fields(o, "hs") { r.headers_mut().insert(n, v); }
                match PushPromise::validate_request(&r) { Ok(()) => ok(), Err(_) => err() }
            }
            // the flags of a frame, set and cleared one by one
            "flags" => match Flag::new(o.i("fl") as u8) {
                Err(()) => err(),
                Ok(mut f) => {
                    for c in o.a("calls") {
                        match c.int() {
                            1 => f.set_end_stream(), 2 => f.unset_end_stream(), 3 => f.set_end_headers(), 4 => f.unset_end_headers(), 5 => f.set_padded(), 6 => f.unset_padded(),
                            7 => f = Flag::load(f), 8 => f = Flag::zero(), 9 => f = Flag::ack(), 10 => f = Flag::end_stream(), 11 => f = Flag::end_headers(), 12 => f = Flag::padded(), 13 => f = Flag::priority(),
                            x => panic!("HARNESS: flag call {}", x),
                        }
                    }
                    ok().set("b", f.bits() as i64).set("is", J::Arr([f.is_ack(), f.is_end_stream(), f.is_end_headers(), f.is_padded(), f.is_priority()].iter().map(|x| J::Int(*x as i64)).collect()))
                }
            },
            "ids" => {
                let mut i = if o.i("first") == 1 { StreamIdentifier::client_first() } else { StreamIdentifier::server_first() };
                let v: Vec<J> = (0..o.i("n")).map(|_| { let x = i.next_id(); J::Arr(vec![J::Int(x.0 as i64), J::Int((x < i) as i64), J::Int(x.is_zero() as i64)]) }).collect();
                ok().set("ids", v)
            }
            "xreq" => {
                let sid = StreamIdentifier(o.i("sid") as u32);
                let body = o.bytes("body");
                let (h, sent);
                if o.i("form") == 1 {
                    let mut b = Request::builder().method(&*o.string("m")).url(o.string("url"));
                    for (n, v) in hp::fields(o, "hs") { b = b.header(n, v); }
                    let r = match b.body(()) { Ok(r) => r, Err(_) => return J::obj().set("t", "berr") };
                    sent = r.headers().clone();
                    h = Headers::trailers(sid, Parts::request(r.method().clone(), r.url().clone(), opt_str(o, "sc").map(|y| Scheme::try_from(&*y).expect("a legal scheme was refused"))), r.headers().clone());
                } else {
                    sent = hmap(o);
                    let mut x = Headers::new(FrameHeader::new(Kind::Headers, Flag::zero(), sid), sent.clone());
                    x.set_method(Method::try_from(&*o.string("m")).expect("a legal method was refused"));
                    if let Some(y) = opt_str(o, "sc") { x.set_scheme(Scheme::try_from(&*y).expect("a legal scheme was refused")); }
                    if let Some(y) = opt_str(o, "au") { x.set_authority(y); }
                    if let Some(y) = opt_str(o, "pa") { x.set_path(y); }
                    h = x;
                }
                let (r, fs) = carry(self, o, h, &body);
                let mut got = err();
                for f in fs { if let Frame::Headers(h) = f { got = match h.into_request(Request::builder()) {
                    Ok(b) => match b.url_ref() {
                        Some(u) => ok().set("m", txt(b.method_ref().expect("method").as_str())).set("u", url::view(u)).set("hs", hp::pairs(b.headers_ref().expect("headers").iter().map(|x| (&x.0, &x.1)))),
                        None => err() },
                    Err(_) => err() }; break; } }
                r.set("sent", hp::pairs(sent.iter().map(|x| (&x.0, &x.1)))).set("got", got)
            }
            "xresp" => {
                let sid = StreamIdentifier(o.i("sid") as u32);
                let body = o.bytes("body");
                let st = StatusCode::from_u16(o.i("st") as u16).expect("a legal status was refused");
                let (h, sent);
                if o.i("form") == 1 {
                    let mut b = Response::builder().status(st);
                    for (n, v) in hp::fields(o, "hs") { b = b.header(n, v); }
                    let r = match b.body(()) { Ok(r) => r, Err(_) => return J::obj().set("t", "berr") };
                    sent = r.headers().clone();
                    h = Headers::trailers(sid, Parts::response(r.status()), r.headers().clone());
                } else {
                    sent = hmap(o);
                    let mut x = Headers::new(FrameHeader::new(Kind::Headers, Flag::zero(), sid), sent.clone());
                    x.set_status(st);
                    h = x;
                }
                let (r, fs) = carry(self, o, h, &body);
                let mut got = err();
                for f in fs { if let Frame::Headers(h) = f { got = match h.into_response(Response::builder()) {
                    Ok(b) => { let hs = hp::pairs(b.headers_ref().expect("headers").iter().map(|x| (&x.0, &x.1)));
                        match b.body(()) { Ok(r) => ok().set("st", r.status().as_u16() as i64).set("hs", hs), Err(_) => err() } }
                    Err(_) => err() }; break; } }
                r.set("sent", hp::pairs(sent.iter().map(|x| (&x.0, &x.1)))).set("got", got)
            }
            x => panic!("HARNESS: unknown h2 op {}", x),
        }
    }
}
#[allow(dead_code)]
fn _unused(_: Url) {}
