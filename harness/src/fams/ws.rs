use super::*;
use crate::json::{be8, J};
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::*;

#[derive(Default)]
pub struct S { wire: Vec<u8>, rx: Vec<u8>, frames: Vec<DataFrame> }

fn mask(o: &J) -> Option<[u8; 4]> { let m = o.bytes("mask"); if m.is_empty() { None } else { Some([m[0], m[1], m[2], m[3]]) } }
fn frame(o: &J) -> DataFrame {
    let mut f = DataFrame::new(o.b("fin"), Opcode::new(o.i("opc") as u8).expect("a legal opcode was refused"), o.bytes("data"));
    let r = o.a("rsv");
    f.reserved = [r[0].int() != 0, r[1].int() != 0, r[2].int() != 0];
    f
}
fn rsv(r: [bool; 3]) -> J { J::Arr(r.iter().map(|b| J::Int(*b as i64)).collect()) }
fn fr(f: &DataFrame, r: J) -> J { r.set("fin", f.finished as i64).set("rsv", rsv(f.reserved)).set("opc", f.opcode as u8).set("data", f.data.clone()) }
fn owned(m: &OwnedMessage, r: J) -> J {
    let (k, d, c, has) = match m {
        OwnedMessage::Text(s) => ("text", s.as_bytes().to_vec(), 0, false),
        OwnedMessage::Binary(b) => ("binary", b.clone(), 0, false),
        OwnedMessage::Ping(b) => ("ping", b.clone(), 0, false),
        OwnedMessage::Pong(b) => ("pong", b.clone(), 0, false),
        OwnedMessage::Close(None) => ("close", vec![], 0, false),
        OwnedMessage::Close(Some(c)) => ("close", c.reason.as_bytes().to_vec(), c.status_code, true),
    };
    r.set("kind", k).set("data", d).set("code", c).set("hascode", has as i64)
}
fn mk_owned(o: &J) -> OwnedMessage {
    let d = o.bytes("data");
    let st = |d: Vec<u8>| String::from_utf8(d).expect("HARNESS utf8");
    match o.s("kind") {
        "text" => if way(2) == 0 { OwnedMessage::Text(st(d)) } else { OwnedMessage::from(st(d)) },
        "binary" => if way(2) == 0 { OwnedMessage::Binary(d) } else { OwnedMessage::from(d) },
        "ping" => OwnedMessage::Ping(d),
        "pong" => OwnedMessage::Pong(d),
        _ => OwnedMessage::Close(if o.i("hascode") != 0 { Some(CloseData::new(o.i("code") as u16, st(d))) } else { None }),
    }
}
fn lent(d: Vec<u8>) -> &'static [u8] { Box::leak(d.into_boxed_slice()) }
fn said(d: Vec<u8>) -> std::borrow::Cow<'static, str> {
    let s = String::from_utf8(d).expect("HARNESS utf8");
    if way(2) == 0 { s.into() } else { (&*Box::leak(s.into_boxed_str())).into() }
}
fn mk_msg(o: &J) -> Message<'static> {
    let d = o.bytes("data");
    match o.s("kind") {
        "text" => Message::text(said(d)),
        "binary" => if way(2) == 0 { Message::binary(d) } else { Message::binary(lent(d)) },
        "ping" => if way(2) == 0 { Message::ping(d) } else { Message::ping(lent(d)) },
        "pong" => if way(2) == 0 { Message::pong(d) } else { Message::pong(lent(d)) },
        _ => if o.i("hascode") != 0 { Message::close_because(o.i("code") as u16, said(d)) } else { Message::close() },
    }
}

impl S {
    pub fn run(&mut self, o: &J) -> J {
        match o.s("op") {
            "rd" => {
                let b = o.bytes("b");
                let mut rd = &b[..];
                let lim = o.i("lim");
                let r = if lim < 0 { DataFrame::read_dataframe(&mut rd, o.b("mflag")) } else { DataFrame::read_dataframe_with_limit(&mut rd, o.b("mflag"), lim as usize) };
                let used = b.len() - rd.len();
                match r {
                    Ok(f) => {
                        // the same frame from its header and its body
                        let mut x = &b[..used];
                        let alt = match read_header(&mut x) { Ok(h) => { let body = x.to_vec(); DataFrame::read_dataframe_body(h, body, o.b("mflag")).map(|g| (g == f) as i64).unwrap_or(2) } Err(_) => 3 };
                        fr(&f, ok()).set("used", used).set("alt", alt)
                    }
                    Err(e) => werr(&e),
                }
            }
            "hd" => {
                let b = o.bytes("b");
                let mut rd = &b[..];
                match read_header(&mut rd) {
                    Ok(h) => ok().set("fin", h.flags.contains(WsFrameFlags::FIN) as i64)
                        .set("rsv", rsv([h.flags.contains(WsFrameFlags::RSV1), h.flags.contains(WsFrameFlags::RSV2), h.flags.contains(WsFrameFlags::RSV3)]))
                        .set("opc", h.opcode).set("mask", h.mask.map(|m| m.to_vec()).unwrap_or_default()).set("len", be8(h.len)).set("used", b.len() - rd.len()),
                    Err(e) => werr(&e),
                }
            }
            "wh" => {
                let mut out: Vec<u8> = vec![];
                let mut flags = WsFrameFlags::empty();
                if o.b("fin") { flags.insert(WsFrameFlags::FIN); }
                let r = o.a("rsv");
                if r[0].int() != 0 { flags.insert(WsFrameFlags::RSV1); }
                if r[1].int() != 0 { flags.insert(WsFrameFlags::RSV2); }
                if r[2].int() != 0 { flags.insert(WsFrameFlags::RSV3); }
                let l = o.bytes("len");
                let mut lb = [0u8; 8]; lb.copy_from_slice(&l);
                match write_header(&mut out, WsFrameHeader { flags, opcode: o.i("opc") as u8, mask: mask(o), len: u64::from_be_bytes(lb) }) {
                    Ok(_) => ok().set("b", out), Err(e) => werr(&e) }
            }
            "wr" => {
                let f = frame(o);
                let mut out: Vec<u8> = vec![];
                let size = f.frame_size(mask(o).is_some());
                match f.write_to(&mut out, mask(o)) { Ok(_) => ok().set("b", out).set("size", size), Err(e) => werr(&e) }
            }
            "asm" => {
                let fs: Vec<DataFrame> = o.a("frames").iter().map(frame).collect();
                match OwnedMessage::from_dataframes(fs) { Ok(m) => owned(&m, ok()), Err(e) => werr(&e) }
            }
            // write a message (owned or borrowed form) and report bytes and declared sizes
            "msg" => {
                let mut out: Vec<u8> = vec![];
                let (sz, msz, pay, opc, r);
                if o.s("api") == "owned" {
                    let m = mk_owned(o);
                    sz = m.frame_size(mask(o).is_some()); msz = m.message_size(mask(o).is_some()); opc = m.opcode();
                    r = m.write_to(&mut out, mask(o)); pay = m.take_payload();
                } else if o.s("api") == "conv" {
                    let m: OwnedMessage = mk_msg(o).into();
                    let m: Message = m.into();
                    let m: OwnedMessage = m.into();
                    sz = m.frame_size(mask(o).is_some()); msz = m.message_size(mask(o).is_some()); opc = m.opcode();
                    r = m.write_to(&mut out, mask(o)); pay = m.take_payload();
                } else {
                    let m = mk_msg(o);
                    sz = m.frame_size(mask(o).is_some()); msz = sz; opc = m.opcode();
                    r = m.write_to(&mut out, mask(o)); pay = m.take_payload();
                }
                match r { Ok(_) => ok().set("b", out).set("size", sz).set("msize", msz).set("pay", pay).set("opc", opc), Err(e) => werr(&e) }
            }
            "kind" => {
                let m = mk_owned(o);
                let mut bm = mk_msg(o);
                let pong = bm.into_pong().is_ok();
                ok().set("close", m.is_close() as i64).set("control", m.is_control() as i64).set("data", m.is_data() as i64).set("ping", m.is_ping() as i64).set("pong", m.is_pong() as i64)
                    .set("into_pong", pong as i64).set("opc_after", bm.opcode())
            }
            "code" => {
                let c: CloseCode = CloseCode::from(o.i("code") as u16);
                let back: u16 = c.into();
                let name = format!("{:?}", c);
                let name = name.split('(').next().unwrap_or("").to_string();
                let cd = CloseData::new(c, o.string("data"));
                let same = cd.status_code == back;
                let normal = CloseData::normal().status_code;
                match cd.into_bytes() { Ok(b) => ok().set("back", back).set("name", name).set("b", b).set("same", same as i64).set("normal", normal), Err(_) => err() }
            }
            // ---- the connection machine: frames written to a wire, moved in pieces, read and assembled
            "tx" => {
                let mut out: Vec<u8> = vec![];
                match frame(o).write_to(&mut out, mask(o)) { Ok(_) => { self.wire.extend_from_slice(&out); ok().set("n", out.len()) } Err(e) => werr(&e) }
            }
            "txm" => {
                let mut out: Vec<u8> = vec![];
                match mk_owned(o).write_to(&mut out, mask(o)) { Ok(_) => { self.wire.extend_from_slice(&out); ok().set("n", out.len()) } Err(e) => werr(&e) }
            }
            "raw" => { let b = o.bytes("b"); self.wire.extend_from_slice(&b); ok() }
            "mv" => { let n = (o.i("n") as usize).min(self.wire.len()); let t: Vec<u8> = self.wire.drain(..n).collect(); self.rx.extend_from_slice(&t); ok() }
            "rx" => {
                let mut rd = &self.rx[..];
                match DataFrame::read_dataframe(&mut rd, false) {
                    Ok(f) => { let used = self.rx.len() - rd.len(); self.rx.drain(..used); let r = fr(&f, ok()).set("used", used); self.frames.push(f); r }
                    Err(e) => werr(&e),
                }
            }
            "take" => {
                let fs = std::mem::take(&mut self.frames);
                match OwnedMessage::from_dataframes(fs) { Ok(m) => owned(&m, ok()), Err(e) => werr(&e) }
            }
            x => panic!("HARNESS: unknown ws op {}", x),
        }
    }
}
