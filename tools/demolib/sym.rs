// scripted choices: SCRIPT names the choices that differ from the default ("null#2=1": the third choice called null is 1)
use std::collections::BTreeMap;
use std::sync::Mutex;
static SCRIPT: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static COUNT: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
pub fn script(s: &str) { let mut m = SCRIPT.lock().unwrap(); m.clear(); COUNT.lock().unwrap().clear(); for x in s.split_whitespace() { let (k, v) = x.split_once('=').unwrap(); m.insert(k.into(), v.parse().unwrap()); } }
pub fn param(name: &str, default: u64) -> u64 { if name == "k" { return default } let m = SCRIPT.lock().unwrap(); if let Some(v) = m.get(name) { return *v } 0 }
pub fn choice(name: &str, n: u64) -> u64 {
    let i = { let mut c = COUNT.lock().unwrap(); let e = c.entry(name.to_string()).or_insert(0); *e += 1; *e - 1 };
    let m = SCRIPT.lock().unwrap();
    let d = match name { "len" => 2, _ => 0 };
    m.get(&format!("{name}#{i}")).copied().unwrap_or(d).min(n - 1)
}
pub fn bytes(_: &str, n: usize) -> Vec<u8> { vec![b'x'; n] }
pub fn assume(_: bool) {}
pub fn reach(_: &str) {}
pub fn fail(m: &str) -> ! { FAILED.lock().unwrap().push(m.to_string()); panic!("{m}") }
pub static FAILED: Mutex<Vec<String>> = Mutex::new(vec![]);
