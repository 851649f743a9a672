//! Two typed extension stores.
use super::*;
use crate::json::J;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use webparse::Extensions;

#[derive(Debug, Clone, PartialEq)]
struct My(i64);
#[derive(Debug, Clone, PartialEq)]
struct Your(i64);
#[derive(Debug, Clone, Copy, PartialEq)]
struct Unit;
/// a value that counts how many of its kind are alive
struct Alive(i64, Arc<AtomicI64>);
impl Alive { fn new(v: i64, c: &Arc<AtomicI64>) -> Alive { c.fetch_add(1, Ordering::SeqCst); Alive(v, c.clone()) } }
impl Drop for Alive { fn drop(&mut self) { self.1.fetch_sub(1, Ordering::SeqCst); } }

#[derive(Default)]
pub struct S { w: [Extensions; 2], c: Arc<AtomicI64> }
fn opt(x: Option<i64>) -> J { J::Arr(x.map(J::Int).into_iter().collect()) }
/// the number kept in a value of each type: number -> value and value -> number
macro_rules! kinds { ($k:expr, $c:expr, |$T:ident, $mk:ident, $un:ident| $e:expr) => {{
    let c = $c;
    match $k {
        1 => { type $T = i32; let $mk = |v: i64| v as i32; let $un = |x: &i32| *x as i64; $e }
        2 => { type $T = u32; let $mk = |v: i64| v as u32; let $un = |x: &u32| *x as i64; $e }
        3 => { type $T = String; let $mk = |v: i64| v.to_string(); let $un = |x: &String| x.parse::<i64>().unwrap_or(-1); $e }
        4 => { type $T = &'static str; let $mk = |v: i64| -> &'static str { Box::leak(v.to_string().into_boxed_str()) }; let $un = |x: &&'static str| x.parse::<i64>().unwrap_or(-1); $e }
        5 => { type $T = My; let $mk = My; let $un = |x: &My| x.0; $e }
        6 => { type $T = Your; let $mk = Your; let $un = |x: &Your| x.0; $e }
        7 => { type $T = Unit; let $mk = |_: i64| Unit; let $un = |_: &Unit| 0; $e }
        8 => { type $T = Box<My>; let $mk = |v: i64| Box::new(My(v)); let $un = |x: &Box<My>| x.0; $e }
        9 => { type $T = Vec<u8>; let $mk = |v: i64| v.to_string().into_bytes(); let $un = |x: &Vec<u8>| String::from_utf8(x.clone()).ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(-1); $e }
        10 => { type $T = Option<i64>; let $mk = |v: i64| Some(v); let $un = |x: &Option<i64>| x.unwrap_or(-1); $e }
        11 => { type $T = Alive; let $mk = |v: i64| Alive::new(v, &c); let $un = |x: &Alive| x.0; $e }
        12 => { type $T = Arc<Extensions>; let $mk = |v: i64| { let mut e = Extensions::new(); e.insert(v); Arc::new(e) }; let $un = |x: &Arc<Extensions>| *x.get::<i64>().unwrap_or(&-1); $e }
        x => panic!("HARNESS: kind {}", x),
    }
}}; }
pub const KINDS: i64 = 12;
impl S {
    pub fn run(&mut self, o: &J) -> J {
        let c = self.c.clone();
        let w = o.i("w") as usize;
        let x = &mut self.w[w];
        let v = if o.has("v") { o.i("v") } else { 0 };
        let r = match o.s("op") {
            "ins" => kinds!(o.i("k"), &c, |T, mk, un| { let old: Option<T> = x.insert::<T>(mk(v)); opt(old.as_ref().map(un)) }),
            "get" => kinds!(o.i("k"), &c, |T, mk, un| { let _ = mk; opt(x.get::<T>().map(un)) }),
            "mut" => kinds!(o.i("k"), &c, |T, mk, un| { opt(x.get_mut::<T>().map(|p| { let old = un(p); *p = mk(v); old })) }),
            "rem" => kinds!(o.i("k"), &c, |T, mk, un| { let _ = mk; let old: Option<T> = x.remove::<T>(); opt(old.as_ref().map(un)) }),
            "clr" => { x.clear(); opt(None) }
            "new" => { *x = if v == 0 { Extensions::new() } else { Extensions::default() }; opt(None) }
            // merge the other store into this one
            "ext" => { let other = std::mem::take(&mut self.w[1 - w]); self.w[w].extend(other); opt(None) }
            y => panic!("HARNESS: unknown ext op {}", y),
        };
        let all = |x: &Extensions| J::Arr((1..=KINDS).map(|k| kinds!(k, &c, |T, mk, un| { let _ = mk; opt(x.get::<T>().map(un)) })).collect());
        ok().set("v", r).set("all", J::Arr(self.w.iter().map(all).collect())).set("len", J::Arr(self.w.iter().map(|x| x.len().into()).collect()))
            .set("empty", J::Arr(self.w.iter().map(|x| J::Int(x.is_empty() as i64)).collect())).set("alive", self.c.load(Ordering::SeqCst))
    }
}
