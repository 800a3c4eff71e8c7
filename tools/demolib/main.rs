// A router (the real one, over HTTP) in front of subgraphs that answer from one data graph; the client's answer must equal
// the direct evaluation of its operation on that data, and no request may ask a subgraph for what it cannot answer.
#![recursion_limit = "256"]
#![allow(dead_code)]
mod sym; mod gql; mod world;
use e2e::testkit::*;
use gql::*; use world::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
static LOG: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
/// (graph, text of the query, n): answers to such requests lose their n-th entity (n < 99) or carry an error without a path
static FAULT: Mutex<Option<(&'static str, &'static str, usize)>> = Mutex::new(None);
struct Shared { s: Schema, w: Mutex<World> }
fn answer(sh: &Shared, graph: &str, body: &[u8]) -> J {
    let req = JP::parse(body).expect("request json");
    let query = req.get("query").and_then(|q| q.str()).expect("query");
    let vars: BTreeMap<String, J> = match req.get("variables") { Some(J::Obj(v)) => v.iter().cloned().collect(), _ => BTreeMap::new() };
    let mut w = sh.w.lock().unwrap();
    eprintln!("-> {graph}: {query} {:?}", vars.iter().map(|(k, v)| format!("{k}={}", v.text())).collect::<Vec<_>>());
    w.calls.push((graph.to_string(), query.clone()));
    let doc = P::doc(&query).unwrap_or_else(|| sym::fail("subgraph operation"));
    let op = &doc.ops[0];
    let mut all = vars.clone();
    for (n, t, d) in &op.vars { if !all.contains_key(n) { if let Some(d) = d { let j = Eval { s: &sh.s, graph: None, vars: &vars, frags: &doc.frags, rep: None }.val(d); all.insert(n.clone(), j); } else if !t.nullable() { sym::fail(&format!("no value for ${n}")) } } }
    let e = Eval { s: &sh.s, graph: Some(graph), vars: &all, frags: &doc.frags, rep: None };
    let root = if op.kind == "mutation" { sh.s.mutation.clone() } else { sh.s.query.clone() };
    let mut data = vec![]; let mut rest = vec![]; let mut errors = vec![];
    for s in &op.sel { match s { Sel::Field(f) if f.name == "_entities" => { let mut v = e.entities(&mut w, f); if let Some((g, t, n)) = *FAULT.lock().unwrap() { if g == graph && query.contains(t) { if n < v.len() { v[n].0 = J::Null; errors.push(J::Obj(vec![("message".into(), J::Str(b"boom".to_vec())), ("path".into(), J::List(vec![J::Str(f.key().as_bytes().to_vec()), J::Num(n.to_string().into_bytes())]))])) } } } data.push((f.key().to_string(), J::List(v.into_iter().map(|x| x.0).collect()))) } x => rest.push(x.clone()) } }
    if !rest.is_empty() { if let Ok(J::Obj(v)) = e.set(&mut w, &(root, 0), &rest, &[]) { data.extend(v) } }
    if let Some((g, t, 99)) = *FAULT.lock().unwrap() { if g == graph && query.contains(t) { errors.push(J::Obj(vec![("message".into(), J::Str(b"boom".to_vec()))])) } }
    *LOG.lock().unwrap() = w.rootlog.clone();
    let mut o = vec![("data".to_string(), J::Obj(data))];
    if !errors.is_empty() { o.push(("errors".into(), J::List(errors))) }
    J::Obj(o)
}
/// fail: "graph#n=mode" the n-th request to a subgraph fails
async fn run(sdl: &'static str, query: &str, vars: &str, script: &str, config: &str) -> (J, J) {
    sym::script(script);
    let sh = Arc::new(Shared { s: Schema::new(sdl), w: Mutex::new(World::new()) });
    let srv = Arc::new(tiny_http::Server::http("127.0.0.1:0").unwrap());
    let port = srv.server_addr().to_ip().unwrap().port();
    for _ in 0..4 {
        let (srv, sh) = (srv.clone(), sh.clone());
        std::thread::spawn(move || loop {
            let mut r = match srv.recv() { Ok(r) => r, Err(_) => break };
            let mut b = vec![]; let _ = r.as_reader().read_to_end(&mut b);
            let g = r.url().trim_start_matches('/').to_string();
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(&sh, &g, &b).text())).unwrap_or("{\"data\":null,\"errors\":[{\"message\":\"subgraph cannot answer\"}]}".into());
            let _ = r.respond(tiny_http::Response::from_string(out).with_header("content-type: application/json".parse::<tiny_http::Header>().unwrap()));
        });
    }
    // every graph gets its own path
    let mut text = String::new();
    let mut sdl = sdl.to_string(); while let Some(i) = sdl.find("@join__graph(\n") { let e = sdl[i..].find(')').unwrap() + i; let t = sdl[i..e].replace('\n', " "); sdl.replace_range(i..e, &t); let k = sdl[..i].trim_end().len(); sdl.replace_range(k..i, " "); }
    for l in sdl.lines() { if let Some(i) = l.find("@join__graph(") { if !l.contains("directive") { let g = l.trim().split_whitespace().next().unwrap().split('@').next().unwrap(); let j = l.find("url:").unwrap(); let k = l[j..].find('"').unwrap() + j; let e = l[k + 1..].find('"').unwrap() + k + 1; text.push_str(&format!("{}http://127.0.0.1:{port}/{g}{}\n", &l[..k + 1], &l[e..])); let _ = i; continue } } text.push_str(l); text.push('\n'); }
    let f = std::env::temp_dir().join(format!("vp-demo-{}-{port}.graphql", std::process::id()));
    std::fs::write(&f, text).unwrap();
    let router = TestRouter::builder().inline_config(format!("supergraph:\n  source: file\n  path: {}\n{config}", f.display())).build().start().await;
    let res = router.send_graphql_request(query, Some(sonic_rs::from_str(vars).unwrap()), None).await;
    let body = res.string_body().await;
    let _ = std::fs::remove_file(&f);
    eprintln!("{body}");
    let got = JP::parse(body.as_bytes()).expect("response json");
    let doc = P::doc(query).unwrap(); let op = &doc.ops[0];
    let vars: BTreeMap<String, J> = match JP::parse(vars.as_bytes()) { Some(J::Obj(v)) => v.into_iter().collect(), _ => BTreeMap::new() };
    let e = Eval { s: &sh.s, graph: None, vars: &vars, frags: &doc.frags, rep: None };
    let root = if op.kind == "mutation" { sh.s.mutation.clone() } else { sh.s.query.clone() };
    let want = e.set(&mut sh.w.lock().unwrap(), &(root, 0), &op.sel, &[]).unwrap_or(J::Null);
    (got, want)
}
async fn equal(sdl: &'static str, query: &str, vars: &str, script: &str, config: &str) {
    let (got, want) = run(sdl, query, vars, script, config).await;
    let failed = sym::FAILED.lock().unwrap().clone();
    assert!(failed.is_empty(), "bad subgraph request: {failed:?}");
    assert!(got.get("errors").is_none(), "errors: {}", got.text());
    let mut ok = true;
    let data = got.get("data").cloned().unwrap_or(J::Null);
    let r = same(&data, &want, &mut ok);
    assert!(r.is_ok() && ok, "{r:?}\n got {}\nwant {}", data.text(), want.text());
}
include!("demo.rs");
