//! Octets: classes, hexadecimal, comparison, line ends at the front of a buffer, and what errors say.
use super::*;
use crate::json::{txt, J};
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::{ws::WsError, Helper, Http2Error, HttpError, UrlError, WebError};

#[derive(Default)]
pub struct S { b: BinaryMut }
fn http(k: &str) -> Option<HttpError> {
    Some(match k {
        "short" => HttpError::BufTooShort, "name" => HttpError::HeaderName, "value" => HttpError::HeaderValue, "line" => HttpError::NewLine, "status" => HttpError::Status, "token" => HttpError::Token,
        "version" => HttpError::Version, "method" => HttpError::Method, "partial" => HttpError::Partial, "code" => HttpError::InvalidStatusCode, "scheme" => HttpError::SchemeTooLong, _ => return None,
    })
}
impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "class" => {
                let c = o.i("c") as u8;
                ok().set("token", Helper::is_token(c) as i64).set("status", Helper::is_status_token(c) as i64).set("alpha", Helper::is_alpha(c) as i64).set("digit", Helper::is_digit(c) as i64)
                    .set("hex", Helper::is_hex(c) as i64).set("val", J::Arr(Helper::convert_hex(c).into_iter().map(|x| J::Int(x as i64)).collect())).set("uri", Helper::is_uri_token(c) as i64)
            }
            "digit" => ok().set("c", Helper::to_hex(o.i("n") as u8)),
            "unhex" => ok().set("b", Helper::hex_to_vec(&o.string("b"))),
            "cmp" => { let (a, b) = (o.bytes("a"), o.bytes("b")); ok().set("eq", Helper::eq_bytes(&a, &b) as i64).set("eqi", Helper::eq_bytes_ignore_ascii_case(&a, &b) as i64).set("has", Helper::contains_bytes(&a, &b) as i64) }
            "fill" => { self.b.put_slice(&o.bytes("b")); ok() }
            "skip" => { let n = (o.i("n") as usize).min(self.b.remaining()); self.b.advance(n); ok() }
            "line" => {
                // from the buffer itself, or from another that holds the same
                let r = if way(2) == 0 { Helper::skip_new_line(&mut self.b) } else {
                    let mut x = Binary::from(self.b.chunk().to_vec());
                    let r = Helper::skip_new_line(&mut x);
                    let n = self.b.remaining() - x.remaining();
                    self.b.advance(n);
                    r
                };
                (match r { Ok(()) => ok(), Err(e) => werr(&e) }).set("left", self.b.chunk().to_vec())
            }
            "err" => {
                let k = o.s("k");
                let (e, inner): (WebError, String) = match k {
                    "url" => (WebError::from(UrlError::UrlInvalid), UrlError::UrlInvalid.to_string()),
                    "urlcode" => (WebError::from(UrlError::UrlCodeInvalid), UrlError::UrlCodeInvalid.description_str().to_string()),
                    "eof" => { let e = WebError::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "x")); let s = e.to_string(); (e, s) }
                    "int" => { let e = WebError::from("".parse::<i32>().unwrap_err()); let s = e.to_string(); (e, s) }
                    "ext" => { let e = WebError::Extension("partial"); let s = e.to_string(); (e, s) }
                    "into" => { let e = WebError::IntoError; let s = e.to_string(); (e, s) }
                    "ser" => { let e = WebError::Serialize("partial"); let s = e.to_string(); (e, s) }
                    "ws" => (if way(2) == 0 { WsError::into(WsError::DataFrameError("half a frame")) } else { WsError::DataFrameError("half a frame").into() }, "half a frame".to_string()),
                    "wsnone" => (WebError::Ws(WsError::NoDataAvailable), WsError::NoDataAvailable.description_str().to_string()),
                    "h2" => (if way(2) == 0 { Http2Error::into(Http2Error::Short) } else { Http2Error::Short.into() }, if way(2) == 0 { Http2Error::Short.to_string() } else { Http2Error::Short.description_str().to_string() }),
                    k => (WebError::from(http(k).expect("HARNESS error kind")), if way(2) == 0 { http(k).unwrap().to_string() } else { http(k).unwrap().description_str().to_string() }),
                };
                ok().set("partial", e.is_partial() as i64).set("text", txt(&e.to_string())).set("inner", txt(&inner))
            }
            x => panic!("HARNESS: unknown oct op {}", x),
        }
    }
}
