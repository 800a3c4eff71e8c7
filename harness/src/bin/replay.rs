//! Runs one harness natively on concrete inputs: `replay ENTRY FILE [name=val...]`.
//! FILE holds the model of a path as written by the engine. Exit 0: ran to the end; 10: an assertion failed;
//! 11: panicked; 12: an assumption failed; 13: the input file does not match the harness' requests.
use std::sync::Mutex;
extern crate harness;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
enum In { I(u64, u64), B(Vec<u8>) }
struct R { ins: Vec<In>, pos: usize, outs: Vec<(String, Option<Vec<u8>>)>, opos: usize, params: Vec<(String, u64)>, allow: bool }
static R_: Mutex<R> = Mutex::new(R { ins: vec![], pos: 0, outs: vec![], opos: 0, params: vec![], allow: false });
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
unsafe fn st(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
fn done(c: i32, m: &str) -> ! { println!("{}", m); std::process::exit(c) }
#[no_mangle] unsafe extern "C" fn __sym_int(bits: u64, n: *const u8, l: usize) -> u64 {
    let mut r = R_.lock().unwrap(); let p = r.pos; r.pos += 1;
    match r.ins.get(p) { Some(In::I(w, v)) if *w == bits => *v, None => if st(n, l).starts_with("keep") && std::env::var("KEEP").is_ok() { 1 } else { 0 }, _ => done(13, &format!("MISMATCH at input {} {}", p, st(n, l))) }
}
#[no_mangle] unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize, nm: *const u8, l: usize) {
    let mut r = R_.lock().unwrap(); let k = r.pos; r.pos += 1;
    match r.ins.get(k) { Some(In::B(v)) if v.len() == n => std::ptr::copy_nonoverlapping(v.as_ptr(), p, n), None => {} , _ => done(13, &format!("MISMATCH at input {} {}", k, st(nm, l))) }
}
#[no_mangle] unsafe extern "C" fn __sym_assume(b: bool) { if !b { done(12, "ASSUME-FAILED") } }
#[no_mangle] unsafe extern "C" fn __sym_assert(b: bool, m: *const u8, l: usize) { if !b { done(10, &format!("ASSERTION-FAILED {}", st(m, l))) } }
#[no_mangle] unsafe extern "C" fn __sym_fail(m: *const u8, l: usize) -> ! { done(10, &format!("ASSERTION-FAILED {}", st(m, l))) }
#[no_mangle] extern "C" fn __sym_reach(_: *const u8, _: usize) {}
#[no_mangle] extern "C" fn __sym_concretize(v: u64) -> u64 { v }
#[no_mangle] unsafe extern "C" fn __sym_out(p: *const u8, n: usize, nm: *const u8, l: usize) {
    let b = std::slice::from_raw_parts(p, n).to_vec(); let name = st(nm, l);
    let mut r = R_.lock().unwrap(); let k = r.opos; r.opos += 1;
    println!("out {} {}", name, String::from_utf8_lossy(&b).escape_debug());
    if let Some((en, ev)) = r.outs.get(k) { if *en != name || ev.as_ref().is_some_and(|e| *e != b) { done(14, &format!("OUTPUT-DIFFERS {}: engine {:?} native {:?}", name, ev.as_ref().map(|e| String::from_utf8_lossy(e).to_string()), String::from_utf8_lossy(&b))) } }
}
#[no_mangle] unsafe extern "C" fn __sym_param(n: *const u8, l: usize, d: u64) -> u64 { let n = st(n, l); R_.lock().unwrap().params.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(d) }
#[no_mangle] extern "C" fn __sym_allow_panic(b: bool) { R_.lock().unwrap().allow = b }
#[no_mangle] extern "C" fn __sym_clock(_: u64) {}
#[no_mangle] extern "C" fn __sym_is_engine() -> bool { false }
#[no_mangle] extern "C" fn __sym_is_sym(_: u64) -> bool { false }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for (n, _) in HARNESSES { println!("{}", n); } return; }
    {
        let mut r = R_.lock().unwrap();
        for l in std::fs::read_to_string(&a[2]).expect("input file").lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "i" => r.ins.push(In::I(f[1].parse().unwrap(), f[2].parse().unwrap())),
                "b" => r.ins.push(In::B(unhex(f[1]))),
                "o" => { let n = l[2..].rsplit_once(' ').unwrap(); r.outs.push((n.0.to_string(), if n.1 == "?" { None } else { Some(unhex(n.1)) })) }
                _ => {}
            }
        }
        for p in &a[3..] { let (k, v) = p.split_once('=').unwrap(); r.params.push((k.into(), v.parse().unwrap())); }
    }
    std::panic::set_hook(Box::new(|i| { let al = R_.lock().map(|r| r.allow).unwrap_or(false); println!("PANIC {}", i); std::process::exit(if al { 15 } else { 11 }) }));
    let f = HARNESSES.iter().find(|h| h.0 == a[1]).expect("unknown harness").1;
    unsafe { f() };
    let r = R_.lock().unwrap();
    if r.pos != r.ins.len() { done(13, &format!("MISMATCH: {} of {} inputs used", r.pos, r.ins.len())) }
    println!("OK");
}
