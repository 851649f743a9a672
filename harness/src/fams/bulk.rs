//! Long periodic inputs: pre, n times unit, post, presented to one decoder on a thread with a small stack.
use super::*;
use crate::json::J;
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use webparse::http2::frame::{Frame, FrameHeader, Settings};
use webparse::http2::{Decoder, HuffmanDecoder};
use webparse::ws::{DataFrame, DataFrameable, OwnedMessage};
use webparse::{HeaderMap, HeaderValue, Helper, Request, Response, Url};

#[derive(Default)]
pub struct S {}
fn o2(r: Result<(usize, usize), String>) -> J { match r { Ok((u, c)) => ok().set("used", u).set("cnt", c), Err(e) => J::obj().set("t", e) } }
fn we(e: webparse::WebError) -> String { werr(&e).s("t").to_string() }
/// octets used and items delivered
fn decode(dec: &str, b: Vec<u8>) -> Result<(usize, usize), String> {
    let n = b.len();
    let err = || "err".to_string();
    match dec {
        "req" => { let mut r = Request::new(); let u = r.parse(&b).map_err(we)?; Ok((u, r.headers().len())) }
        "resp" => { let mut r = Response::new(()); let u = r.parse(&b).map_err(we)?; Ok((u, r.headers().len())) }
        "url" => { let u = Url::parse(b).map_err(we)?; Ok((n, u.path.len() + u.query.map_or(0, |q| q.len()))) }
        "pct" => { let s = Url::url_decode(&String::from_utf8(b).map_err(|_| err())?).map_err(we)?; Ok((n, s.len())) }
        "chunk" => { let mut x = BinaryRef::from(&b[..]); let (h, l) = Helper::parse_chunk_data(&mut x).map_err(we)?; Ok((h + l + 2, l)) }
        "chunks" => { // a whole chunked body
            let (mut p, mut c) = (0, 0);
            loop {
                let mut x = BinaryRef::from(&b[p..]);
                let (h, l) = Helper::parse_chunk_data(&mut x).map_err(we)?;
                p += h + l + 2;
                if l == 0 { return Ok((p, c)); }
                c += l;
            }
        }
        "hpack" => { let mut d = Decoder::new(); let mut x = BinaryMut::from(b); let hs = d.decode(&mut x).map_err(|_| err())?; Ok((n - x.remaining(), hs.len())) }
        "huff" => { let s = HuffmanDecoder::new().decode(&b).map_err(|_| err())?; Ok((n, s.len())) }
        "h2" => { // frames one after the other
            let mut d = Decoder::new();
            let (mut p, mut c) = (0, 0);
            while n - p >= 9 {
                let mut x = Binary::from(b[p..p + 9].to_vec());
                let h = FrameHeader::parse(&mut x).map_err(|_| err())?;
                let l = h.length as usize;
                if n - p - 9 < l { return Err("partial".into()); }
                Frame::parse(h, Binary::from(b[p + 9..p + 9 + l].to_vec()), &mut d, usize::MAX).map_err(|_| err())?;
                p += 9 + l;
                c += 1;
            }
            if p < n { return Err("partial".into()); }
            Ok((p, c))
        }
        "b64" => { let s = Settings::default().parse_http_settings(&String::from_utf8(b).map_err(|_| err())?).map_err(|_| err())?; Ok((n, s.payload_len() / 6)) }
        "len" => { let mut m = HeaderMap::new(); m.insert("content-length", HeaderValue::from_bytes(&b)); Ok((n, (m.get_body_len() > 0) as usize)) }
        "tok" => { let mut m = HeaderMap::new(); m.insert("transfer-encoding", HeaderValue::from_bytes(&b)); Ok((n, m.is_chunked() as usize)) }
        "ws" | "wsmsg" => {
            let mut rd = &b[..];
            let mut fs = vec![];
            while !rd.is_empty() { fs.push(DataFrame::read_dataframe(&mut rd, false).map_err(we)?); }
            let c = fs.len();
            if dec == "ws" { return Ok((n, c)); }
            let m = OwnedMessage::from_dataframes(fs).map_err(|_| err())?;
            Ok((n, m.take_payload().len()))
        }
        x => panic!("HARNESS: unknown decoder {}", x),
    }
}
impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "bulk" => {
                let (dec, pre, unit, post) = (o.s("dec").to_string(), o.bytes("pre"), o.bytes("unit"), o.bytes("post"));
                let n = o.i("n") as usize;
                let t = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                    let mut b = pre;
                    b.reserve_exact(unit.len() * n + post.len());
                    for _ in 0..n { b.extend_from_slice(&unit); }
                    b.extend_from_slice(&post);
                    decode(&dec, b)
                }).expect("HARNESS thread");
                match t.join() { Ok(r) => o2(r), Err(_) => panic!("{}", crate::last_panic()) }
            }
            x => panic!("HARNESS: unknown bulk op {}", x),
        }
    }
}
