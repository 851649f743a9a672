//! Header collections, names and values, and the queries over them.
use super::*;
use crate::json::J;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use webparse::{HeaderMap, HeaderName, HeaderValue, Request, Response, WebError};

#[derive(Default)]
pub struct S { m: HM }
struct HM(HeaderMap);
impl Default for HM { fn default() -> HM { HM(HeaderMap::new()) } }
fn opt(x: Option<J>) -> J { J::Arr(x.into_iter().collect()) }
fn ostr(x: Option<String>) -> J { opt(x.map(|s| J::from(s.as_bytes()))) }
fn txt(x: impl std::fmt::Display) -> J { x.to_string().as_bytes().into() }
fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn dump(m: &HeaderMap) -> J { hp::pairs(m.iter().map(|x| (&x.0, &x.1))) }
/// the same lookup with the name in every form the API takes
macro_rules! via { ($o:expr, |$n:ident| $e:expr) => {{
    let b = $o.bytes("n");
    match $o.i("via") {
        1 => { let $n = &hp::name(&b, $o.i("form")); $e }
        2 => { let $n = &b; $e }
        3 => { let $n = &String::from_utf8(b.clone()).expect("HARNESS utf8"); $e }
        _ => { let s = String::from_utf8(b.clone()).expect("HARNESS utf8"); let $n = &s.as_str(); $e }
    }
}}; }
fn leak(b: &[u8]) -> &'static str { Box::leak(String::from_utf8(b.to_vec()).expect("HARNESS utf8").into_boxed_str()) }
/// insert or push with the conversions callers use
macro_rules! put { ($m:expr, $f:ident, $o:expr) => {{
    let (n, v) = ($o.bytes("n"), $o.bytes("v"));
    match $o.i("api") {
        1 => { $m.$f(leak(&n), leak(&v)); }
        2 => { $m.$f(String::from_utf8(n).expect("HARNESS utf8"), String::from_utf8(v).expect("HARNESS utf8")); }
        3 => { $m.$f(leak(&n), String::from_utf8(v).expect("HARNESS utf8").parse::<usize>().expect("HARNESS number")); }
        4 => { $m.$f(leak(&n), String::from_utf8(v).expect("HARNESS utf8").parse::<isize>().expect("HARNESS number")); }
        _ => { $m.$f(hp::name(&n, $o.i("form")), hp::value(&v, $o.i("vform"))); }
    }
}}; }
/// a caller's own type, which becomes a name or a value or fails to
struct Own(Vec<u8>, bool);
impl TryFrom<Own> for HeaderName { type Error = WebError; fn try_from(x: Own) -> Result<HeaderName, WebError> { if x.1 { Err(WebError::Extension("no name")) } else { Ok(hp::name(&x.0, 0)) } } }
impl TryFrom<Own> for HeaderValue { type Error = WebError; fn try_from(x: Own) -> Result<HeaderValue, WebError> { if x.1 { Err(WebError::Extension("no value")) } else { Ok(hp::value(&x.0, 0)) } } }
fn queries(m: &HeaderMap) -> J {
    J::obj().set("len", txt(m.get_body_len())).set("ka", m.is_keep_alive() as i64).set("ch", m.is_chunked() as i64).set("up", ostr(m.get_upgrade_protocol()))
        .set("host", ostr(m.get_host())).set("ref", ostr(m.get_referer())).set("ua", ostr(m.get_user_agent())).set("ck", ostr(m.get_cookie()))
}
impl S {
    fn after(&self, r: J) -> J { let m = &self.m.0; r.set("hs", dump(m)).set("len", m.len()).set("empty", m.is_empty() as i64) }
    pub fn run(&mut self, o: &J) -> J {
        let m = &mut self.m.0;
        match o.s("op") {
            "ins" => { put!(m, insert, o); self.after(ok()) }
            "push" => { put!(m, push, o); self.after(ok()) }
            // a name or a value that its owner cannot turn into one
            "bad" => {
                let (n, v) = (Own(o.bytes("n"), o.i("bad") & 1 == 1), Own(o.bytes("v"), o.i("bad") & 2 == 2));
                if o.i("how") == 0 { m.insert(n, v); } else { m.push(n, v); }
                self.after(ok())
            }
            "rem" => { let r = via!(o, |n| m.remove(n)); self.after(ok().set("old", opt(r.map(|v| v.as_bytes().into())))) }
            "clear" => { m.clear(); self.after(ok()) }
            "get" => {
                let r = via!(o, |n| ok().set("has", m.contains(n) as i64).set("opt", opt(m.get_option_value(n).map(|v| v.as_bytes().into()))).set("str", ostr(m.get_str_value(n)))
                    .set("val", if m.contains(n) { J::Arr(vec![m.get_value(n).as_bytes().into()]) } else { J::Arr(vec![]) }));
                let n = o.bytes("n");
                let r = match std::str::from_utf8(&n) { Ok(_) if m.contains(&n) => r.set("idx", J::Arr(vec![m[leak(&n)].as_bytes().into()])), _ => r.set("idx", J::Arr(vec![])) };
                self.after(r)
            }
            "cont" => { let v = o.bytes("v"); let r = via!(o, |n| ok().set("in", m.is_contains(n, &v) as i64).set("eq", m.is_equal(n, &v) as i64)); self.after(r) }
            "mut" => {
                // change a value in place through a handle
                let n = o.bytes("n"); let v = hp::value(&o.bytes("v"), o.i("vform"));
                let r = match o.i("how") {
                    0 => { if m.contains(&n) { *m.get_mut_value(&n) = v; 1 } else { 0 } }
                    1 => { m[leak(&n)] = v; 1 }
                    2 => { let mut c = 0; for x in m.iter_mut() { if x.0 == &n[..] { x.1 = v.clone(); c += 1; } } c }
                    _ => { if m.contains(&n) { m.get_mut_value(&n).push(v); 1 } else { 0 } }
                };
                self.after(ok().set("n", r))
            }
            "sysins" => { m.system_insert(o.string("k"), o.string("v")); self.after(ok()) }
            "sysget" => { let r = ostr(m.system_get(o.string("k").as_str()).cloned()); self.after(ok().set("v", r)) }
            "show" => {
                let c = m.clone();
                let mut d = c.clone();
                let same = c == *m;
                d.insert("zz-other", "1");
                let other = d == *m;
                d.remove(&"zz-other");
                let mut b = sink();
                let e = match m.encode(&mut b.b) { Ok(n) => J::Arr(vec![n.into(), b.out().into()]), Err(_) => J::Arr(vec![]) };
                let it = hp::pairs(c.into_iter().collect::<Vec<_>>().iter().map(|x| (&x.0, &x.1)));
                self.after(ok().set("same", same as i64).set("other", other as i64).set("disp", txt(&self.m.0)).set("enc", e).set("it", it).set("cl", dump(&d)))
            }
            "q" => {
                let q = queries(m);
                // the same questions to the messages that carry the fields
                let mut b = Request::builder(); *b.headers_mut().expect("builder") = m.clone();
                let bl = txt(b.get_body_len());
                let r = b.body(()).expect("build");
                let rq = J::obj().set("len", txt(r.get_body_len())).set("ka", r.is_keep_alive() as i64).set("host", ostr(r.get_host())).set("ref", ostr(r.get_referer()))
                    .set("ck", ostr(r.get_cookie())).set("ua", ostr(r.get_user_agent())).set("blen", bl);
                let mut b = Response::builder(); *b.headers_mut().expect("builder") = m.clone();
                let bl = txt(b.get_body_len());
                let r = b.body(()).expect("build");
                let rs = J::obj().set("len", txt(r.get_body_len())).set("blen", bl);
                self.after(ok().set("q", q).set("rq", rq).set("rs", rs))
            }
            "name" => {
                let (a, b) = (hp::name(&o.bytes("a"), o.i("af")), hp::name(&o.bytes("b"), o.i("bf")));
                let bb = o.bytes("b");
                let mut v = vec![(a == b) as i64, (b == a) as i64, (a == &bb[..]) as i64, (&bb[..] == a) as i64, (hash(&a) == hash(&b)) as i64];
                if let Ok(s) = std::str::from_utf8(&bb) { v.push((a == s) as i64) } else { v.push((a == b) as i64) }
                let mut e = sink(); let n = a.encode(&mut e.b).expect("encode");
                ok().set("eq", J::Arr(v.into_iter().map(J::Int).collect())).set("b", a.as_bytes().to_vec()).set("len", a.bytes_len()).set("spec", a.is_spec() as i64).set("name", a.name().as_bytes())
                    .set("disp", txt(&a)).set("ref", a.as_ref().to_vec()).set("enc", e.out()).set("n", n).set("cl", (a.clone() == a) as i64)
            }
            "value" => {
                let (a, b) = (hp::value(&o.bytes("a"), o.i("af")), hp::value(&o.bytes("b"), o.i("bf")));
                let bb = o.bytes("b");
                let mut v = vec![(a == b) as i64, (b == a) as i64, (a == bb[..]) as i64, (bb[..] == a) as i64];
                if let Ok(s) = std::str::from_utf8(&bb) { v.push((a == s) as i64); v.push((s == a) as i64); }
                let mut e = sink(); let n = a.encode(&mut e.b).expect("encode");
                let mut p = a.clone(); p.push(b.clone());
                let us: Result<usize, WebError> = (&a).try_into();
                let is: Result<isize, WebError> = (&a).try_into();
                let st: Result<String, WebError> = (&a).try_into();
                ok().set("eq", J::Arr(v.into_iter().map(J::Int).collect())).set("hash", (hash(&a) == hash(&b)) as i64).set("b", a.as_bytes().to_vec()).set("len", a.bytes_len()).set("str", ostr(a.as_string()))
                    .set("disp", txt(&a)).set("enc", e.out()).set("n", n).set("push", p.as_bytes().to_vec()).set("in", a.contains(&bb) as i64)
                    .set("us", opt(us.ok().map(txt))).set("is", opt(is.ok().map(txt))).set("ts", ostr(st.ok()))
                    .set("cow", HeaderValue::from_cow(std::borrow::Cow::Borrowed(&bb)).as_bytes().to_vec())
            }
            "num" => {
                // a value made of a number
                let t = o.string("v");
                let (a, b) = (t.parse::<usize>().ok(), t.parse::<isize>().ok());
                ok().set("u", opt(a.map(|x| HeaderValue::try_from(x).expect("value").as_bytes().into()))).set("i", opt(b.map(|x| HeaderValue::try_from(x).expect("value").as_bytes().into())))
            }
            "bits" => {
                // all names of one byte, against all others: those that are equal
                let mut v = vec![];
                for x in 0..128u8 { for y in 0..128u8 {
                    let (p, q) = (hp::name(&[x], o.i("af")), hp::name(&[y], o.i("bf")));
                    let e = p == q;
                    if (p == &[y][..]) != e || (e && hash(&p) != hash(&q)) { return J::obj().set("t", "differ").set("x", x as i64).set("y", y as i64); }
                    if e { v.push(J::Arr(vec![J::Int(x as i64), J::Int(y as i64)])); }
                } }
                ok().set("eq", v)
            }
            x => panic!("HARNESS: unknown hdr op {}", x),
        }
    }
}
#[allow(dead_code)]
fn _t(_: HeaderName) {}
