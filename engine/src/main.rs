mod builtins; mod exec; mod expr; mod func; mod ll; mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::AtomicI64;
use std::time::{Duration, Instant};

extern "C" { pub fn fork() -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn getpid() -> i32; }

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '\n' => o.push_str("\\n"), '\\' => o.push_str("\\\\"), c => o.push(c) } } o }
fn unesc(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some(c) => o.push(c), None => {} } } else { o.push(c) } } o }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

fn write_part(ex: &Exec, res: &Result<(), String>) {
    let mut o = String::new();
    let s = &ex.st;
    let nums: [(&str, u64); 20] = [("paths", s.paths), ("ok", s.ok), ("assume", s.assume), ("panics", s.panics), ("exits", s.exits), ("insts", s.insts), ("forks", s.forks), ("z3q", s.z3q), ("z3sat", s.z3sat), ("z3unsat", s.z3unsat), ("z3ns", s.z3ns), ("cacheq", s.cacheq), ("ttq", s.ttq), ("asserts", s.asserts), ("asserts_sym", s.asserts_sym), ("MAXinsts", s.maxinsts), ("symreads", s.symreads), ("overreads", s.overreads), ("MAXpc", s.maxpc), ("fallbacks", ex.z.fallbacks)];
    for (k, v) in nums { let _ = writeln!(o, "N {} {}", k, v); }
    for (k, v) in ex.fseen.iter().enumerate() { if *v != 0 { let _ = writeln!(o, "F {} {}", v, ex.m.funcs[k].name); } }
    for (k, v) in &ex.reach { let _ = writeln!(o, "R {} {}", v, esc(k)); }
    for v in &ex.viol { let _ = writeln!(o, "V {}\t{}\t{}\t{}", v.kind, esc(&v.msg), esc(&v.inputs), esc(&v.trace)); }
    for v in &ex.samples { let _ = writeln!(o, "S {}", esc(v)); }
    if let Err(e) = res { let _ = writeln!(o, "E {}", esc(e)); }
    o.push_str("END\n");
    let pid = unsafe { getpid() };
    std::fs::write(format!("{}/part.{}", ex.outdir, pid), o).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut entry = String::new(); let mut file = String::new(); let mut out = String::new(); let mut params = vec![];
    let mut jobs = 8i64; let mut max_paths = 1_000_000u64; let mut max_insts = 2_000_000_000u64; let mut timeout = 600u64; let mut rlimit = 400_000_000u32; let mut verbose = false; let mut trace = false; let mut samples = 6usize; let mut keep = false;
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "-e" => { entry = nx(); i += 1; } "-o" => { out = nx(); i += 1; } "-j" => { jobs = nx().parse().unwrap(); i += 1; }
            "-p" => { let a = nx(); let (k, v) = a.split_once('=').unwrap(); params.push((k.to_string(), v.parse().unwrap())); i += 1; }
            "--max-paths" => { max_paths = nx().parse().unwrap(); i += 1; } "--max-insts" => { max_insts = nx().parse().unwrap(); i += 1; } "--timeout" => { timeout = nx().parse().unwrap(); i += 1; }
            "--rlimit" => { rlimit = nx().parse().unwrap(); i += 1; } "--samples" => { samples = nx().parse().unwrap(); i += 1; } "-v" => verbose = true, "--trace" => trace = true, "--keep-going" => keep = true,
            a => file = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let src: &'static [u8] = Box::leak(match std::fs::read(&file) { Ok(x) => x, Err(e) => { eprintln!("llsym: {}: {}", file, e); std::process::exit(2) } }.into_boxed_slice());
    let m = match ll::Module::load(src) { Ok(m) => m, Err(e) => { eprintln!("llsym: {}", e); std::process::exit(2); } };
    let m: &'static mut ll::Module = Box::leak(Box::new(m));
    if verbose { eprintln!("loaded {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64()); }
    let outdir = format!("{}.parts", out);
    let _ = std::fs::remove_dir_all(&outdir);
    std::fs::create_dir_all(&outdir).unwrap();
    let sh = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicI64; Shared { slots: p, stop: p.add(8), paths: p.add(16) } };
    unsafe { (*sh.slots).store(jobs - 1, std::sync::atomic::Ordering::SeqCst); }
    let slots = sh.slots;
    let cfg = Cfg { max_paths, max_insts, deadline: t0 + Duration::from_secs(timeout), rlimit, params: params.clone(), samples, verbose, max_depth: 20000, trace, stop_first: !keep };
    let mut ex = Exec::new(m, cfg, sh, outdir.clone());
    let st = match ex.initial(&entry) { Ok(s) => s, Err(Stop::Err(e)) => { eprintln!("llsym: {}", e); std::process::exit(2); } Err(_) => unreachable!() };
    ex.pending.push(st);
    let res = ex.explore();
    if res.is_err() { unsafe { (*ex.sh.stop).store(1, std::sync::atomic::Ordering::SeqCst); } }
    write_part(&ex, &res);
    unsafe { (*slots).fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
    let mut bad = 0;
    for &c in &ex.children { let mut s = 0; unsafe { waitpid(c, &mut s, 0); } if s != 0 { bad += 1; } }
    if ex.is_child { unsafe { _exit(if bad > 0 { 3 } else { 0 }) } }
    // ---- merge
    let mut nums: BTreeMap<String, u64> = BTreeMap::new(); let mut funcs: BTreeMap<String, u8> = BTreeMap::new(); let mut reach: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Vec<[String; 4]> = vec![]; let mut samp: Vec<String> = vec![]; let mut errs: BTreeSet<String> = BTreeSet::new(); let mut procs = 0;
    for f in std::fs::read_dir(&outdir).unwrap() {
        let t = std::fs::read_to_string(f.unwrap().path()).unwrap();
        procs += 1;
        if !t.ends_with("END\n") { errs.insert("truncated worker result".into()); }
        for l in t.lines() {
            if l.len() < 2 { continue; }
            let b = &l[2..];
            match &l[..2] {
                "N " => { let (k, v) = b.split_once(' ').unwrap(); let v: u64 = v.parse().unwrap(); let e = nums.entry(k.into()).or_insert(0); if k.starts_with("MAX") { *e = (*e).max(v) } else { *e += v } }
                "F " => { let (k, v) = b.split_once(' ').unwrap(); *funcs.entry(v.into()).or_insert(0) |= k.parse::<u8>().unwrap(); }
                "R " => { let (k, v) = b.split_once(' ').unwrap(); *reach.entry(unesc(v)).or_insert(0) += k.parse::<u64>().unwrap(); }
                "V " => { let p: Vec<String> = b.split('\t').map(unesc).collect(); viol.push([p[0].clone(), p[1].clone(), p[2].clone(), p[3].clone()]); }
                "S " => samp.push(unesc(b)),
                "E " => { errs.insert(unesc(b)); }
                _ => {}
            }
        }
    }
    if bad > 0 { errs.insert("a worker process died".into()); }
    let _ = std::fs::remove_dir_all(&outdir);
    viol.sort(); viol.dedup_by(|a, b| a[1] == b[1]);
    samp.sort();
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"entry\": {}, \"wall_s\": {:.3}, \"processes\": {}, \"solver\": {},", js(&entry), t0.elapsed().as_secs_f64(), procs, js(&z3::version()));
    o.push_str("\"params\": {"); o.push_str(&params.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")); o.push_str("},\n");
    o.push_str("\"counters\": {"); o.push_str(&nums.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")); o.push_str("},\n");
    o.push_str("\"reach\": {"); o.push_str(&reach.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")); o.push_str("},\n");
    o.push_str("\"functions\": {"); o.push_str(&funcs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(",\n")); o.push_str("},\n");
    o.push_str("\"violations\": ["); o.push_str(&viol.iter().map(|v| format!("{{\"kind\": {}, \"msg\": {}, \"inputs\": {}, \"trace\": {}}}", js(&v[0]), js(&v[1]), js(&v[2]), js(&v[3]))).collect::<Vec<_>>().join(",\n")); o.push_str("],\n");
    o.push_str("\"samples\": ["); o.push_str(&samp.iter().map(|v| js(v)).collect::<Vec<_>>().join(",\n")); o.push_str("],\n");
    o.push_str("\"errors\": ["); o.push_str(&errs.iter().map(|v| js(v)).collect::<Vec<_>>().join(",\n")); o.push_str("]\n}\n");
    if !out.is_empty() { std::fs::write(&out, o).unwrap(); }
    let g = |k: &str| nums.get(k).copied().unwrap_or(0);
    eprintln!("{}: {} paths ({} ok, {} assume-cut, {} panics), {} insts, {} forks, z3 {} queries {:.1}s, tt {}, cache {}, asserts {} ({} symbolic), {} procs, wall {:.1}s, violations {}, errors {}", entry, g("paths"), g("ok"), g("assume"), g("panics"), g("insts"), g("forks"), g("z3q"), g("z3ns") as f64 / 1e9, g("ttq"), g("cacheq"), g("asserts"), g("asserts_sym"), procs, t0.elapsed().as_secs_f64(), viol.len(), errs.len());
    for e in &errs { eprintln!("ERROR {}", e); }
    for v in &viol { eprintln!("VIOL {} {}\n{}{}", v[0], v[1], v[2], v[3]); }
    std::process::exit(if !errs.is_empty() && viol.is_empty() { 2 } else if !viol.is_empty() { 1 } else { 0 });
}
