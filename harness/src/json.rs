//! Minimal JSON value, reader and writer (ints, bools, strings, arrays, objects).
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn obj() -> J { J::Obj(vec![]) }
    pub fn set<V: Into<J>>(mut self, k: &str, v: V) -> J {
        if let J::Obj(ref mut o) = self { o.push((k.to_string(), v.into())); }
        self
    }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        if let J::Obj(o) = self { for (a, b) in o { if a == k { return b; } } }
        &N
    }
    pub fn has(&self, k: &str) -> bool { !matches!(self.get(k), J::Null) }
    pub fn s(&self, k: &str) -> &str { match self.get(k) { J::Str(s) => s, o => panic!("HARNESS: no string field {} in {:?} ({:?})", k, self, o) } }
    pub fn i(&self, k: &str) -> i64 { match self.get(k) { J::Int(i) => *i, J::Bool(b) => *b as i64, o => panic!("HARNESS: no int field {} in {:?} ({:?})", k, self, o) } }
    pub fn b(&self, k: &str) -> bool { match self.get(k) { J::Bool(b) => *b, J::Int(i) => *i != 0, o => panic!("HARNESS: no bool field {} in {:?} ({:?})", k, self, o) } }
    pub fn a(&self, k: &str) -> &[J] { match self.get(k) { J::Arr(a) => a, o => panic!("HARNESS: no array field {} in {:?} ({:?})", k, self, o) } }
    pub fn bytes(&self, k: &str) -> Vec<u8> { self.get(k).to_bytes() }
    pub fn to_bytes(&self) -> Vec<u8> {
        match self { J::Arr(a) => a.iter().map(|x| x.int() as u8).collect(), J::Str(s) => s.as_bytes().to_vec(), o => panic!("HARNESS: not bytes {:?}", o) }
    }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, o => panic!("HARNESS: not int {:?}", o) } }
    pub fn string(&self, k: &str) -> String { String::from_utf8(self.bytes(k)).expect("HARNESS: not utf8") }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Str(s) => wstr(s, o),
            J::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::Obj(a) => { o.push('{'); for (i, (k, x)) in a.iter().enumerate() { if i > 0 { o.push(','); } wstr(k, o); o.push(':'); x.write(o); } o.push('}'); }
        }
    }
    pub fn parse(s: &str) -> J { let b = s.as_bytes(); let mut p = 0; let v = val(b, &mut p); v }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') { *p += 1; } }
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => { *p += 1; let mut o = vec![]; loop { ws(b, p); if b[*p] == b'}' { *p += 1; break; } if b[*p] == b',' { *p += 1; continue; } let k = match val(b, p) { J::Str(s) => s, _ => panic!("HARNESS json key") }; ws(b, p); assert!(b[*p] == b':', "HARNESS json"); *p += 1; let v = val(b, p); o.push((k, v)); } J::Obj(o) }
        b'[' => { *p += 1; let mut a = vec![]; loop { ws(b, p); if b[*p] == b']' { *p += 1; break; } if b[*p] == b',' { *p += 1; continue; } a.push(val(b, p)); } J::Arr(a) }
        b'"' => {
            *p += 1; let mut s: Vec<u8> = vec![];
            loop {
                match b[*p] {
                    b'"' => { *p += 1; break; }
                    b'\\' => { *p += 1; match b[*p] { b'n' => s.push(10), b't' => s.push(9), b'r' => s.push(13), b'b' => s.push(8), b'f' => s.push(12),
                        b'u' => { let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap(); let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?'); let mut t = [0; 4]; s.extend_from_slice(c.encode_utf8(&mut t).as_bytes()); *p += 4; }
                        c => s.push(c) } *p += 1; }
                    c => { s.push(c); *p += 1; }
                }
            }
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => { *p += 4; J::Bool(true) }
        b'f' => { *p += 5; J::Bool(false) }
        b'n' => { *p += 4; J::Null }
        _ => { let st = *p; while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; } J::Int(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("HARNESS: json int")) }
    }
}
impl From<bool> for J { fn from(x: bool) -> J { J::Bool(x) } }
impl From<i64> for J { fn from(x: i64) -> J { J::Int(x) } }
impl From<i32> for J { fn from(x: i32) -> J { J::Int(x as i64) } }
impl From<u8> for J { fn from(x: u8) -> J { J::Int(x as i64) } }
impl From<u16> for J { fn from(x: u16) -> J { J::Int(x as i64) } }
impl From<usize> for J { fn from(x: usize) -> J { J::Int(x as i64) } }
impl From<&str> for J { fn from(x: &str) -> J { J::Str(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::Str(x) } }
impl From<Vec<J>> for J { fn from(x: Vec<J>) -> J { J::Arr(x) } }
impl From<&[u8]> for J { fn from(x: &[u8]) -> J { J::Arr(x.iter().map(|b| J::Int(*b as i64)).collect()) } }
impl From<Vec<u8>> for J { fn from(x: Vec<u8>) -> J { (&x[..]).into() } }
/// a text as its bytes
pub fn txt(s: &str) -> J { s.as_bytes().into() }
/// u32 as big-endian bytes (TLC integers are 32 bit signed)
pub fn be4(x: u32) -> J { (&x.to_be_bytes()[..]).into() }
pub fn be8(x: u64) -> J { (&x.to_be_bytes()[..]).into() }
