//! What an endpoint keeps besides octets: a set of flags, a counter of stream numbers, frames waiting by weight.
use super::*;
use crate::json::{txt, J};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::collections::BinaryHeap;
use webparse::http::http2::frame::*;
use webparse::http2::Decoder;
use webparse::HeaderMap;

type F = Frame<Binary>;
pub struct S { fl: Flag, id: StreamIdentifier, q: BinaryHeap<PriorityFrame<Binary>> }
impl Default for S { fn default() -> S { S { fl: Flag::zero(), id: StreamIdentifier::client_first(), q: BinaryHeap::new() } } }
fn u32of(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
fn four(x: u32) -> Vec<u8> { x.to_be_bytes().to_vec() }
fn map(p: &[u8]) -> HeaderMap { let mut m = HeaderMap::new(); m.push("a", hp::value(p, 0)); m }
fn held(m: &HeaderMap) -> Vec<u8> { m.get_option_value(&"a").map(|v| v.as_bytes().to_vec()).unwrap_or_default() }
fn sett(n: Option<u32>, ack: bool) -> Settings { if ack { Settings::ack() } else { let mut s = Settings::default(); s.set_initial_window_size(n); s } }
/// a frame made from its parts
fn make(f: &J) -> F {
    let (sid, fl, p, n) = (StreamIdentifier(f.i("sid") as u32), Flag::new(f.i("fl") as u8).expect("a legal flag was refused"), f.bytes("p"), f.i("n") as u32);
    let head = |k: Kind| { let mut h = FrameHeader::new(k, fl, sid); h.length = p.len() as u32; h };
    match f.s("k") {
        "data" => Frame::Data(match way(3) {
            0 => Data::new(head(Kind::Data), Binary::from(p)),
            1 => Data::new(head(Kind::Data), p).map(Binary::from),
            _ => { let mut h = head(Kind::Data); *h.flags_mut() = Flag::zero(); *h.flags_mut() = fl; Data::new(h, BinaryMut::from(p)).map(|b| b.freeze()) }
        }),
        "headers" => Frame::Headers(Headers::new(head(Kind::Headers), map(&p))),
        "push" => Frame::PushPromise(PushPromise::new(head(Kind::PushPromise), StreamIdentifier(n), map(&p))),
        "prio" => {
            let mut b = p.clone();
            b.push(n as u8);
            let mut h = FrameHeader::new(Kind::Priority, Flag::zero(), sid);
            h.length = 5;
            if way(2) == 0 { Frame::from(Priority::parse(h, &mut Binary::from(b)).expect("a legal priority was refused")) } else { Frame::parse(h, Binary::from(b), &mut Decoder::new(), 100).expect("a legal priority was refused") }
        }
        "settings" => Frame::Settings(sett(if n == 1 { Some(u32of(&p)) } else { None }, fl.is_ack())),
        "ping" => { let mut b = [0u8; 8]; b.copy_from_slice(&p); Frame::from(if fl.is_ack() { Ping::pong(b) } else { Ping::new(b) }) }
        "goaway" => { let g = GoAway::with_debug_data(StreamIdentifier(n), Reason::from(u32of(&p)), Binary::from(p[4..].to_vec())); if way(2) == 0 { Frame::GoAway(g) } else { Frame::from(g) } }
        "wu" => Frame::WindowUpdate(WindowUpdate::new(sid, u32of(&p))),
        "rst" => Frame::from(Reset::new(sid, Reason::from(u32of(&p)))),
        k => panic!("HARNESS: frame {}", k),
    }
}
/// everything a frame tells
fn tell(f: &F) -> J {
    let (p, n) = match f {
        Frame::Data(d) => (d.payload().chunk().to_vec(), 0),
        Frame::Headers(h) => (held(h.fields()), 0),
        Frame::PushPromise(h) => (held(h.fields()), h.promised_id().0),
        Frame::Priority(p) => if way(2) == 0 { (four(p.dependency_id().0), p.weight() as u32) } else { let (s, d, w) = p.clone().into(); assert!(s == p.stream_id()); (four(d.0), w as u32) },
        Frame::Settings(s) => (s.initial_window_size().map(four).unwrap_or_default(), s.initial_window_size().is_some() as u32),
        Frame::Ping(p) => (if way(2) == 0 { p.payload().to_vec() } else { p.clone().into_payload().to_vec() }, 0),
        Frame::GoAway(g) => { let mut v = four(u32::from(g.reason())); v.extend_from_slice(g.debug_data().chunk()); (v, g.last_stream_id().0) }
        Frame::WindowUpdate(w) => (four(w.size_increment()), 0),
        Frame::Reset(r) => (four(u32::from(r.reason())), 0),
    };
    J::obj().set("name", txt(&f.display_name())).set("sid", f.stream_id().0 as i64).set("fl", f.flags().bits()).set("isd", f.is_data() as i64).set("ish", f.is_header() as i64)
        .set("es", f.is_end_stream() as i64).set("eh", f.is_end_headers() as i64).set("p", p).set("n", n as i64)
}
/// changes a frame in place; whether it says it is padded
fn change(f: F, steps: &[J]) -> (F, bool) {
    let mut f = f;
    for x in steps {
        f = match f {
            Frame::Data(mut d) => {
                match x.s("k") {
                    "es" => d.set_end_stream(x.i("n") == 1),
                    "pd" => d.set_padded(),
                    "add" => { let mut v = d.payload().chunk().to_vec(); v.extend(x.bytes("b")); *d.payload_mut() = Binary::from(v) }
                    "set" => if way(2) == 0 { *d.payload_mut() = Binary::from(x.bytes("b")) } else { let b = x.bytes("b"); d = d.map(|_| Binary::from(b)) },
                    "flip" => if way(2) == 0 { d = d.map(|b| b.chunk().iter().rev().copied().collect::<Vec<u8>>()).map(Binary::from) } else {
                        let (h, mut v) = (FrameHeader::new(Kind::Data, d.flags(), d.stream_id()), Vec::new());
                        v.extend(d.into_payload().chunk().iter().rev());
                        d = Data::new(h, Binary::from(v)) },
                    k => panic!("HARNESS: data change {}", k),
                }
                Frame::Data(d)
            }
            Frame::Headers(mut h) => {
                match x.s("k") {
                    "es" => if x.i("n") == 1 { h.set_end_stream() } else { h.flags_mut().unset_end_stream() },
                    "eh" => h.set_end_headers(),
                    "pd" => h.flags_mut().set_padded(),
                    "add" => { let mut v = held(h.fields()); v.extend(x.bytes("b")); h.fields_mut().insert("a", hp::value(&v, 0)); }
                    "set" => { *h.fields_mut() = map(&x.bytes("b")); }
                    "flip" => { let mut v = held(h.fields()); v.reverse();
                        let mut g = Headers::new(FrameHeader::new(Kind::Headers, h.flags(), h.stream_id()), h.into_fields()); g.fields_mut().insert("a", hp::value(&v, 0)); h = g }
                    k => panic!("HARNESS: headers change {}", k),
                }
                Frame::Headers(h)
            }
            Frame::PushPromise(mut h) => {
                match x.s("k") {
                    "es" => if x.i("n") == 1 { h.set_end_stream() } else { h.flags_mut().unset_end_stream() },
                    "eh" => h.set_end_headers(),
                    "pd" => h.flags_mut().set_padded(),
                    "set" => { h = PushPromise::new(FrameHeader::new(Kind::PushPromise, h.flags(), h.stream_id()), h.promised_id(), map(&x.bytes("b"))) }
                    "flip" => { let (fl, s, p) = (h.flags(), h.stream_id(), h.promised_id()); let mut m = if way(2) == 0 { h.into_fields() } else { h.into_parts().1 }; let mut v = held(&m); v.reverse(); m.insert("a", hp::value(&v, 0)); h = PushPromise::new(FrameHeader::new(Kind::PushPromise, fl, s), p, m) }
                    k => panic!("HARNESS: push change {}", k),
                }
                Frame::PushPromise(h)
            }
            f => f,
        };
    }
    let pd = match &f { Frame::Data(d) => d.is_padded(), f => f.flags().is_padded() };
    (f, pd)
}
impl S {
    fn flags(&self) -> J {
        let f = &self.fl;
        ok().set("bits", f.bits()).set("ask", J::obj().set("es", f.is_end_stream() as i64).set("ack", f.is_ack() as i64).set("eh", f.is_end_headers() as i64).set("pd", f.is_padded() as i64).set("pr", f.is_priority() as i64))
    }
    pub fn run(&mut self, o: &J) -> J {
        let ordering = |c: std::cmp::Ordering| c as i64;
        match o.s("op") {
            "flag" => match Flag::new(o.i("n") as u8) { Ok(f) => { self.fl = f; self.flags() } Err(_) => err() },
            "fset" => {
                let on = o.i("on") == 1;
                let f = &mut self.fl;
                match (o.s("k"), on) {
                    ("es", true) => f.set_end_stream(), ("es", false) => f.unset_end_stream(),
                    ("eh", true) => f.set_end_headers(), ("eh", false) => f.unset_end_headers(),
                    ("pd", true) => f.set_padded(), ("pd", false) => f.unset_padded(),
                    (k, _) => panic!("HARNESS: flag {}", k),
                }
                self.flags()
            }
            "fconst" => {
                self.fl = match o.s("k") { "zero" => Flag::zero(), "ack" => Flag::ack(), "es" => Flag::end_stream(), "eh" => Flag::end_headers(), "pd" => Flag::padded(), "pr" => Flag::priority(), "load" => Flag::load(self.fl), k => panic!("HARNESS: flag {}", k) };
                self.flags()
            }
            "id" => {
                let n = o.i("n") as u32;
                self.id = match (n, way(2)) { (0, 1) => StreamIdentifier::zero(), (1, 1) => StreamIdentifier::client_first(), (2, 1) => StreamIdentifier::server_first(), _ => StreamIdentifier::from(n) };
                ok().set("n", self.id.0 as i64).set("zero", self.id.is_zero() as i64).set("text", txt(&self.id.to_string()))
            }
            "next" => { let x = self.id.next_id(); ok().set("n", x.0 as i64).set("after", self.id.0 as i64) }
            "cmp" => {
                let (a, b) = (StreamIdentifier(o.i("a") as u32), StreamIdentifier(o.i("b") as u32));
                let p = if a < b { -1 } else if a > b { 1 } else { 0 };
                let p = if a.partial_cmp(&b).map(ordering) == Some(p) && (a <= b) == (p <= 0) && (a >= b) == (p >= 0) { p } else { 2 };
                ok().set("cmp", ordering(a.cmp(&b))).set("part", p).set("eq", (a == b) as i64)
            }
            "wcmp" => {
                let mk = |s: u32, w: i64| PriorityFrame::<Binary>::new(Frame::from(Reset::new(StreamIdentifier(s), Reason::from(w as u32))), w as u8);
                let (a, b) = (mk(1 + way(5) as u32, o.i("a")), mk(1 + way(5) as u32, o.i("b")));
                let p = if a < b { -1 } else if a > b { 1 } else { 0 };
                let p = if a.partial_cmp(&b).map(ordering) == Some(p) { p } else { 2 };
                ok().set("cmp", ordering(a.cmp(&b))).set("part", p).set("eq", (a == b) as i64)
            }
            "edit" => { let (f, pd) = change(make(o.get("f")), o.a("steps")); ok().set("d", tell(&f)).set("pd", pd as i64) }
            "push" => {
                let w = o.i("w") as u8;
                let mut p = PriorityFrame::new(make(o.get("f")), if way(2) == 0 { w } else { !w });
                p.set_weight(w);
                let r = ok().set("d", tell(&p.frame)).set("w", p.weight());
                self.q.push(p);
                r.set("len", self.q.len())
            }
            "pop" => ok().set("v", J::Arr(self.q.pop().into_iter().map(|p| J::obj().set("d", tell(&p.frame)).set("w", p.weight())).collect())),
            "setw" => {
                let mut v = vec![];
                if let Some(mut p) = self.q.peek_mut() { v.push(J::obj().set("d", tell(&p.frame)).set("w", p.weight())); p.set_weight(o.i("n") as u8); }
                ok().set("v", J::Arr(v))
            }
            x => panic!("HARNESS: unknown que op {}", x),
        }
    }
}
