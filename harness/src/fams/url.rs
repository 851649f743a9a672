use super::*;
use crate::json::J;
use webparse::{Scheme, Url};

pub fn opt(s: &Option<String>) -> J { J::Arr(match s { Some(x) => vec![x.as_bytes().into()], None => vec![] }) }
pub fn scheme(s: &Scheme) -> J { J::Arr(if *s == Scheme::None { vec![] } else { vec![s.as_str().as_bytes().into()] }) }
/// the components of a URL; port -1 when absent
pub fn view(u: &Url) -> J {
    J::obj().set("scheme", scheme(&u.scheme)).set("user", opt(&u.username)).set("pass", opt(&u.password)).set("dom", opt(&u.domain))
        .set("port", u.port.map_or(-1, |p| p as i64)).set("path", u.path.as_bytes()).set("query", opt(&u.query))
}
#[derive(Default)]
pub struct S {}
pub fn text(b: Vec<u8>) -> String { String::from_utf8(b).expect("HARNESS utf8") }
fn fmt(r: J, u: &Url) -> J {
    let f = format!("{}", u);
    let again = Url::try_from(f.as_str());
    let x = format!("{} ", f);
    let r = r.set("u", view(u)).set("f", f.as_bytes()).set("eqs", J::Arr(vec![J::Int((*u == *f.as_str()) as i64), J::Int((*f.as_str() == *u) as i64), J::Int((*u == *x.as_str()) as i64)]));
    match again {
        Ok(v) => r.set("re", ok().set("u", view(&v)).set("f", format!("{}", v).as_bytes()).set("eq", (v == *u) as i64)),
        Err(e) => r.set("re", werr(&e)),
    }
}
pub fn build(o: &J) -> webparse::WebResult<Url> {
    let mut b = Url::builder();
    for c in o.a("calls") {
        let t = || text(c.bytes("v"));
        b = match c.s("c") {
            "scheme" => b.scheme(t().as_str()),
            "username" => b.username(t()),
            "password" => b.password(t()),
            "domain" => b.domain(t()),
            "port" => b.port(c.i("n") as u16),
            "path" => b.path(t()),
            "query" => b.query(t()),
            x => panic!("HARNESS: builder call {}", x),
        }
    }
    b.build()
}
impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "parse" => {
                let b = o.bytes("b");
                let r = match o.i("form") {
                    1 if std::str::from_utf8(&b).is_ok() => Url::try_from(text(b)),
                    2 if std::str::from_utf8(&b).is_ok() => text(b).parse::<Url>(),
                    3 => Url::try_from(&b[..]),
                    _ => Url::parse(b),
                };
                match r { Ok(u) => fmt(ok(), &u), Err(e) => werr(&e) }
            }
            "build" => match build(o) { Ok(u) => fmt(ok(), &u), Err(e) => werr(&e) },
            "merge" => match (Url::parse(o.bytes("a")), Url::parse(o.bytes("b"))) {
                (Ok(mut a), Ok(b)) => { a.merge(b); ok().set("u", view(&a)) }
                _ => err(),
            },
            "auth" => match Url::parse(o.bytes("b")) {
                Ok(u) => ok().set("a", u.get_authority().as_bytes()).set("s", u.get_scheme().as_bytes()).set("c", opt(&u.get_connect_url())),
                Err(e) => werr(&e),
            },
            "enc" => ok().set("b", Url::url_encode(&text(o.bytes("b"))).as_bytes()),
            "dec" => match Url::url_decode(&text(o.bytes("b"))) { Ok(s) => ok().set("b", s.as_bytes()), Err(e) => werr(&e) },
            x => panic!("HARNESS: unknown url op {}", x),
        }
    }
}
