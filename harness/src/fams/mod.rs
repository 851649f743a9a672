//! One module per family of operations; `Ctx` holds the live objects of one session.
use crate::json::J;
use algorithm::buf::{BinaryMut, Bt};
pub use crate::with_bt;
pub mod bulk;
pub mod ext;
pub mod h2;
pub mod hdr;
pub mod hp;
pub mod http1;
pub mod msg;
pub mod oct;
pub mod out;
pub mod que;
pub mod tab;
pub mod url;
pub mod ws;

pub struct Ctx { fam: String, bulk: bulk::S, ws: ws::S, ext: ext::S, msg: msg::S, oct: oct::S, out: out::S, que: que::S, tab: tab::S, hp: hp::S, hdr: hdr::S, h2: h2::S, http1: http1::S, url: url::S }

impl Ctx {
    pub fn new(fam: &str, _sess: &J) -> Ctx { Ctx { fam: fam.to_string(), bulk: Default::default(), ws: Default::default(), ext: Default::default(), msg: Default::default(), oct: Default::default(), out: Default::default(), que: Default::default(), tab: Default::default(), hp: Default::default(), hdr: Default::default(), h2: Default::default(), http1: Default::default(), url: Default::default() } }
    pub fn run(&mut self, op: &J) -> J {
        let mut t = String::new();
        op.write(&mut t);
        WAY.with(|w| w.set(t.bytes().fold(0xcbf29ce484222325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3))));
        match self.fam.as_str() {
            "msg" => self.msg.run(op),
            "out" => self.out.run(op),
            "oct" => self.oct.run(op),
            "que" => self.que.run(op),
            "bulk" => self.bulk.run(op),
            "ext" => self.ext.run(op),
            "tab" => self.tab.run(op),
            "h2" => self.h2.run(op),
            "hp" => self.hp.run(op),
            "hdr" => self.hdr.run(op),
            "ws" => self.ws.run(op),
            "http1" => self.http1.run(op),
            "url" => self.url.run(op),
            f => panic!("HARNESS: unknown family {}", f),
        }
    }
}
pub fn ok() -> J { J::obj().set("t", "ok") }
pub fn err() -> J { J::obj().set("t", "err") }
/// error result, telling only whether the library asks for more input
pub fn werr(e: &webparse::WebError) -> J {
    match e {
        e if e.is_partial() => J::obj().set("t", "partial"),
        webparse::WebError::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => J::obj().set("t", "eof"),
        _ => err(),
    }
}

thread_local! { static WAY: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// a choice below n, settled by the operation's own content
pub fn way(n: u64) -> u64 { WAY.with(|w| { let x = w.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); w.set(x); (x >> 33) % n }) }
/// a buffer to write to: a new one, one that holds something, or one that was read from
pub struct Sink { pub b: BinaryMut, pre: Vec<u8> }
pub fn sink() -> Sink {
    let junk = [0u8, 255, 13, 10, 71, 48, 37];
    let mut b = match way(4) { 0 => BinaryMut::new(), 1 => BinaryMut::with_capacity(1), _ => { let mut b = BinaryMut::with_capacity(way(64) as usize); b.put_slice(&junk); b } };
    if b.remaining() > 0 && way(2) == 1 { b.advance(1 + way(6) as usize); }
    let pre = b.chunk().to_vec();
    Sink { b, pre }
}
impl Sink {
    /// what was written to it; what it held before must still be there
    pub fn out(&self) -> Vec<u8> { let c = self.b.chunk(); if c.starts_with(&self.pre) { c[self.pre.len()..].to_vec() } else { b"what the buffer held was lost".to_vec() } }
}
/// evaluates an expression with the octets held in one of the ways a reader can hold them
#[macro_export]
macro_rules! with_bt {
    ($b:expr, $x:ident => $e:expr) => {{
        let octets: Vec<u8> = $b;
        let junk = $crate::fams::way(2) as usize * (1 + $crate::fams::way(9) as usize);
        let mut all = vec![64u8; junk];
        all.extend_from_slice(&octets);
        match $crate::fams::way(6) {
            0 => { let mut $x = algorithm::buf::Binary::from(all); $x.advance(junk); $e }
            1 => { let mut $x = algorithm::buf::BinaryRef::from(&all[..]); $x.advance(junk); $e }
            2 => { let mut $x = &all[junk..]; $e }
            3 => { let mut $x = std::io::Cursor::new(all); $x.set_position(junk as u64); $e }
            4 => { let mut $x = algorithm::buf::BinaryMut::with_capacity(1); algorithm::buf::BtMut::put_slice(&mut $x, &all); $x.advance(junk); $e }
            _ => { let mut $x = algorithm::buf::BinaryMut::from(all); $x.advance(junk); $e }
        }
    }};
}
