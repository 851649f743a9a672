use super::*;
use crate::json::J;
use std::sync::{Arc, RwLock};
use webparse::http2::{encoder::Encoder, Decoder, HeaderIndex, HuffmanDecoder, HuffmanEncoder};
use webparse::{HeaderName, HeaderValue};
use algorithm::buf::Bt;

pub struct S { dec: Decoder, enc: Encoder, tab: HeaderIndex, k: i64 }
impl Default for S {
    fn default() -> S { S { dec: Decoder::new(), enc: Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), 16384), tab: HeaderIndex::new(), k: 0 } }
}
fn pair(n: &HeaderName, v: &HeaderValue) -> J { J::Arr(vec![n.as_bytes().into(), v.as_bytes().into()]) }
pub fn pairs<'a, I: Iterator<Item = (&'a HeaderName, &'a HeaderValue)>>(it: I) -> J { J::Arr(it.map(|(n, v)| pair(n, v)).collect()) }
pub fn tab(h: &HeaderIndex) -> J {
    let v = h.to_vec();
    J::obj().set("size", h.get_size()).set("max", h.get_max_table_size()).set("len", h.len()).set("ents", pairs(v.iter().map(|x| (&x.0, &x.1))))
}
fn leak(b: &[u8]) -> &'static str { Box::leak(String::from_utf8(b.to_vec()).expect("HARNESS utf8").into_boxed_str()) }
/// a name in one of the forms the API offers
pub fn name(b: &[u8], form: i64) -> HeaderName {
    match form {
        1 => HeaderName::try_from(String::from_utf8(b.to_vec()).expect("HARNESS utf8")).expect("a legal name was refused"),
        2 => HeaderName::from_static(leak(b)),
        _ => HeaderName::from_bytes(b).expect("a legal name was refused"),
    }
}
pub fn value(b: &[u8], form: i64) -> HeaderValue {
    match form { 2 if std::str::from_utf8(b).is_ok() => HeaderValue::from_static(leak(b)), _ => HeaderValue::from_bytes(b) }
}
/// [[name, value], ...] from op field k, forms cycling over `form` field if present
pub fn fields(o: &J, k: &str) -> Vec<(HeaderName, HeaderValue)> {
    let f = if o.has("form") { o.i("form") } else { 0 };
    o.a(k).iter().map(|x| match x { J::Arr(p) => (name(&p[0].to_bytes(), f), value(&p[1].to_bytes(), f)), _ => panic!("HARNESS field") }).collect()
}
/// decodes through one of the ways the API offers
fn dec(d: &mut Decoder, b: Vec<u8>, api: i64) -> J {
    let (r, left) = match api {
        1 => with_bt!(b, x => { let r = d.decode(&mut x); (r, x.remaining()) }),
        2 => with_bt!(b, x => { let mut l = vec![]; let r = d.decode_with_cb(&mut x, |n, v| l.push((n.into_owned(), v.into_owned()))); (r.map(|_| l), x.remaining()) }),
        3 => with_bt!(b, x => { let mut other = Decoder::new_index(d.index.clone()); let r = other.decode(&mut x); (r, x.remaining()) }),
        _ => { let mut x = BinaryMut::from(b); (d.decode(&mut x), x.remaining()) }
    };
    match r {
        Ok(hs) => ok().set("hs", pairs(hs.iter().map(|x| (&x.0, &x.1)))).set("left", left).set("tab", tab(&d.index.read().unwrap())),
        Err(_) => err(),
    }
}
fn enc(e: &mut Encoder, hs: &[(HeaderName, HeaderValue)], api: i64) -> Vec<u8> {
    let it = hs.iter().map(|x| (&x.0, &x.1));
    match api {
        1 => { let mut b = sink(); e.encode_into(it, &mut b.b).expect("encode"); b.out() }
        2 => { let mut b = sink(); for h in it { e.encode_header_into(h, &mut b.b).expect("encode"); } b.out() }
        _ => e.encode(it).chunk().to_vec(),
    }
}
impl S {
    pub fn run(&mut self, o: &J) -> J {
        // the ways in, in turn
        self.k += 1;
        let api = if o.has("api") { o.i("api") } else { self.k };
        match o.s("op") {
            "dec" => dec(&mut self.dec, o.bytes("b"), api % 4),
            "resize" => {
                let n = o.i("n") as usize;
                if o.s("who") != "enc" { self.dec.index.write().unwrap().set_max_table_size(n); }
                if o.s("who") != "dec" { self.enc.index.write().unwrap().set_max_table_size(n); }
                ok()
            }
            "enc" => {
                let hs = fields(o, "hs");
                let b = enc(&mut self.enc, &hs, api % 3);
                ok().set("b", b).set("tab", tab(&self.enc.index.read().unwrap()))
            }
            "encdec" => {
                let hs = fields(o, "hs");
                let b = enc(&mut self.enc, &hs, api % 3);
                let r = dec(&mut self.dec, b.clone(), api % 4);
                ok().set("b", b).set("etab", tab(&self.enc.index.read().unwrap())).set("d", r)
            }
            "tadd" => { let f = if o.has("form") { o.i("form") } else { 0 }; self.tab.add_header(name(&o.bytes("n"), f), value(&o.bytes("v"), f)); ok().set("tab", tab(&self.tab)) }
            "tresize" => { self.tab.set_max_table_size(o.i("n") as usize); ok().set("tab", tab(&self.tab)) }
            "tget" => match self.tab.get_from_index(o.i("i") as usize) { Some((n, v)) => ok().set("e", pair(n, v)), None => ok().set("e", J::Arr(vec![])) },
            "tfind" => { let f = if o.has("form") { o.i("form") } else { 0 };
                match self.tab.find_header((&name(&o.bytes("n"), f), &value(&o.bytes("v"), f))) { Some((i, full)) => ok().set("a", J::Arr(vec![i.into(), J::Int(full as i64)])), None => ok().set("a", J::Arr(vec![])) } }
            "henc" => ok().set("b", HuffmanEncoder::encode(&o.bytes("b"))),
            "hlow" => ok().set("b", HuffmanEncoder::encode_lower(&o.bytes("b"))),
            "hdec" => match HuffmanDecoder::new().decode(&o.bytes("b")) { Ok(b) => ok().set("b", b), Err(_) => err() },
            "int" => {
                let mut b = sink();
                match Encoder::encode_integer_into(o.i("v") as usize, o.i("n") as u8, o.i("lead") as u8, &mut b.b) { Ok(_) => ok().set("b", b.out()), Err(_) => err() }
            }
            x => panic!("HARNESS: unknown hp op {}", x),
        }
    }
}
