//! One buffer: everything that can be written is written behind what it holds, and numbers are read from its front.
use super::*;
use crate::json::J;
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::ws::Masker;
use std::convert::TryFrom;
use webparse::http::http2::frame::*;
use webparse::{HeaderMap, Helper, Method, Request, Response, Scheme, Serialize, StatusCode, Version, WebError};

#[derive(Default)]
pub struct S { b: BinaryMut }
type R = Result<usize, WebError>;
fn u32of(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
fn leak(b: &[u8]) -> &'static str { Box::leak(String::from_utf8(b.to_vec()).expect("HARNESS utf8").into_boxed_str()) }
fn ver(n: i64) -> Version { [Version::None, Version::HTTP10, Version::HTTP11, Version::HTTP2, Version::HTTP3][n as usize] }
fn mth(b: Vec<u8>) -> Method { let s = String::from_utf8(b).expect("HARNESS utf8"); if s.is_empty() { Method::None } else { Method::try_from(&*s).unwrap_or(Method::Extension(s)) } }
fn map(o: &J) -> HeaderMap { let mut m = HeaderMap::new(); for (n, v) in hp::fields(o, "hs") { m.push(n, v); } m }
fn rest(mut b: Binary, n: i64) -> Binary { b.advance((n as usize).min(b.remaining())); b }
/// writes a value several times over; its displayed text
fn write(o: &J, b: &mut BinaryMut) -> (Vec<R>, Option<String>) {
    let n = o.i("times");
    macro_rules! go { ($e:expr) => { (0..n).map(|_| $e).collect::<Vec<R>>() }; }
    macro_rules! ser { ($v:expr) => {{ let mut v = $v; (go!(v.serialize(b)), None) }}; }
    let by = |k: &str| o.bytes(k);
    let sid = || StreamIdentifier(u32of(&o.bytes("sid")));
    match o.s("k") {
        "lit" => ser!(leak(&by("b"))),
        "str" => ser!(o.string("b")),
        "vec" => ser!(by("b")),
        "sl" => { let v = by("b"); ser!(&v[..]) }
        "bin" => ser!(rest(Binary::from(by("b")), o.i("skip"))),
        "bm" => { let mut v = BinaryMut::from(by("b")); v.advance((o.i("skip") as usize).min(v.remaining())); ser!(v) }
        "unit" => ser!(()),
        "mth" => { let mut v = mth(by("b")); let d = v.to_string(); (go!(v.encode(b)), Some(d)) }
        "ver" => { let mut v = ver(o.i("n")); let d = v.to_string(); (go!(v.encode(b)), Some(d)) }
        "sch" => { let s = o.string("b"); let mut v = if s.is_empty() { Scheme::None } else { Scheme::try_from(&*s).expect("a legal scheme was refused") }; let d = v.to_string(); (go!(v.serialize(b)), Some(d)) }
        "st" => { let mut v = StatusCode::from_u16(o.i("n") as u16).expect("a legal status was refused"); let d = v.to_string(); (go!(v.encode(b)), Some(d)) }
        "hn" => { let v = hp::name(&by("b"), o.i("form")); (go!(v.encode(b)), Some(v.to_string())) }
        "hv" => { let v = hp::value(&by("b"), o.i("form")); (go!(v.encode(b)), Some(v.to_string())) }
        "map" => { let v = map(o); (go!(v.encode(b)), Some(v.to_string())) }
        k @ ("req" | "reqh") => {
            let mut r = Request::builder().url(o.string("p")).version(ver(o.i("n"))).body(o.string("b")).expect("a legal request was refused");
            r.set_method(mth(by("m")));
            *r.headers_mut() = map(o);
            let d = r.to_string();
            if k == "reqh" { (go!(r.encode_header(b)), None) } else { (go!(match r.http1_data() { Ok(v) => Ok(b.put_slice(&v)), Err(e) => Err(e) }), Some(d)) }
        }
        k @ ("resp" | "resph") => {
            let mut r = Response::new(o.string("b"));
            *r.status_mut() = StatusCode::from_u16(o.i("c") as u16).expect("a legal status was refused");
            *r.version_mut() = ver(o.i("n"));
            *r.headers_mut() = map(o);
            let d = r.to_string();
            if k == "resph" { (go!(r.encode_header(b)), None) } else { (go!(r.serialize(b)), Some(d)) }
        }
        "chunk" => { let v = by("b"); (go!(Helper::encode_chunk_data(b, &v).map_err(WebError::from)), None) }
        "fh" => {
            let l = by("len");
            let mut h = FrameHeader::new(Kind::new(o.i("kind") as u8), Flag::new(o.i("fl") as u8).expect("a legal flag was refused"), sid());
            h.length = u32of(&[0, l[0], l[1], l[2]]);
            (go!(h.encode(b)), None)
        }
        "inc" => { let mut v = SizeIncrement(u32of(&by("b"))); (if o.i("form") == 1 { go!(Ok(v.encode(b))) } else { go!(v.serialize(b)) }, None) }
        "erc" => ser!(ErrorCode(u32of(&by("b")))),
        "sid" => { let v = StreamIdentifier::from(u32of(&by("b"))); (go!(v.encode(b)), None) }
        "u24" => { let v = u32of(&by("b")); (go!(Ok(encode_u24(b, v))), None) }
        "ping" => { let mut p = [0u8; 8]; p.copy_from_slice(&by("b")); let mut v = if o.i("ack") == 1 { Ping::pong(p) } else { Ping::new(p) }; (if o.i("form") == 1 { go!(v.encode(b)) } else { go!(v.serialize(b)) }, None) }
        "wu" => { let v = WindowUpdate::new(sid(), u32of(&by("b"))); (go!(v.encode(b)), None) }
        "rst" => { let v = Reset::new(sid(), Reason::from(u32of(&by("b")))); (go!(v.encode(b)), None) }
        "goaway" => { let v = GoAway::with_debug_data(sid(), Reason::from(u32of(&by("b"))), Binary::from(by("d"))); (go!(v.encode(b)), None) }
        "prio" => { let mut p = by("b"); if o.i("x") == 1 { p[0] |= 128; } p.push(o.i("w") as u8);
            let v = Priority::parse(FrameHeader::new(Kind::Priority, Flag::zero(), sid()), &mut Binary::from(p)).expect("a legal priority was refused"); (go!(v.encode(b)), None) }
        "ack" => { let v = Settings::ack(); (go!(v.encode(b)), None) }
        "mask" => {
            let (k, ps) = (by("b"), o.a("ps").iter().map(|x| x.to_bytes()).collect::<Vec<_>>());
            (go!(Ok({
                let mut m = Masker::new([k[0], k[1], k[2], k[3]], b);
                // whole numbers where they fit, octets otherwise
                ps.iter().map(|p| match (p.len(), way(3)) {
                    (1, 0) => m.put_u8(p[0]),
                    (2, 0) => m.put_u16(u16::from_be_bytes([p[0], p[1]])),
                    (4, 0) => m.put_u32(u32of(p)),
                    (8, 0) => m.put_u64(u64::from_be_bytes([p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]])),
                    _ => m.put_slice(p),
                }).sum::<usize>()
            })), None)
        }
        k => panic!("HARNESS: writer {}", k),
    }
}
fn four(x: u32) -> Vec<u8> { x.to_be_bytes().to_vec() }
impl S {
    pub fn run(&mut self, o: &J) -> J {
        let r = match o.s("op") {
            "w" => {
                let (ns, d) = write(o, &mut self.b);
                let d = J::Arr(d.iter().map(|x| x.as_bytes().into()).collect());
                match ns.into_iter().collect::<Result<Vec<usize>, _>>() { Ok(v) => ok().set("ns", J::Arr(v.into_iter().map(J::from).collect())).set("disp", d), Err(_) => err() }
            }
            "drop" => { let n = (o.i("n") as usize).min(self.b.remaining()); self.b.advance(n); ok() }
            "rd" => {
                let b = &mut self.b;
                match o.s("k") {
                    "sid" => ok().set("b", four(StreamIdentifier::parse(b).0)),
                    "inc" => ok().set("b", four(SizeIncrement::parse(b).0)),
                    "erc" => ok().set("b", four(ErrorCode::parse(b).0)),
                    "u31" => ok().set("b", four(read_u31(b))),
                    "u24" => ok().set("b", four(read_u24(b))[1..].to_vec()),
                    "u64" => ok().set("b", read_u64(b).to_be_bytes().to_vec()),
                    "fh" => match FrameHeader::parse(b) {
                        Ok(h) => { let mut v = four(h.length)[1..].to_vec(); v.push(h.kind().encode()); v.push(h.flag().bits()); v.extend(four(h.stream_id().0)); ok().set("b", v) }
                        Err(_) => err(),
                    },
                    k => panic!("HARNESS: reader {}", k),
                }
            }
            x => panic!("HARNESS: unknown out op {}", x),
        };
        r.set("out", self.b.chunk().to_vec())
    }
}
