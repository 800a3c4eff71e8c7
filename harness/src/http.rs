//! HTTP-level policies: CORS, CSRF prevention, header rules, cache-control merging.
use crate::sym;
use hive_router::config::{cors::{CORSConfig, CORSPolicyConfig}, csrf::CSRFPreventionConfig, headers as hc};
use hive_router::executor::{execution::client_request_details::{ClientRequestDetails, JwtRequestDetails, OperationDetails}, headers::{cache_control, compile::compile_headers_plan, plan::HeaderAggregationStrategy, request::modify_subgraph_request_headers, response::{apply_subgraph_response_headers, ResponseHeaderAggregator}}};
use hive_router::ntex::{self, http::HeaderMap as NMap, web::{test::TestRequest, HttpRequest}};
use hive_router::pipeline::{cors::Cors, csrf_prevention::perform_csrf_prevention};
use std::{collections::{BTreeMap, HashMap}, sync::Arc};

type Out = BTreeMap<String, Vec<Vec<u8>>>;
fn nmap(h: &NMap) -> Out { let mut o = Out::new(); for (k, v) in h.iter() { o.entry(k.as_str().to_string()).or_default().push(v.as_bytes().to_vec()) } o }
fn hmap(h: &http::HeaderMap) -> Out { let mut o = Out::new(); for (k, v) in h { o.entry(k.as_str().to_string()).or_default().push(v.as_bytes().to_vec()) } o }
fn show(o: &Out) -> String { o.iter().map(|(k, v)| v.iter().map(|v| format!("{k}: {}", String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n")).collect::<Vec<_>>().join("\n") }
fn same(got: &Out, want: &Out, what: &str) {
    let ok = got.len() == want.len() && got.iter().zip(want).all(|((a, x), (b, y))| a == b && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)));
    if !ok { sym::fail(&format!("{what}\n--- got\n{}\n--- expected\n{}", show(got), show(want))) }
}
fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i] } d == 0 } }
fn request(method: &str, uri: &str, hs: &[(&str, Vec<u8>)]) -> HttpRequest {
    let mut r = TestRequest::with_uri(uri).method(ntex::http::Method::from_bytes(method.as_bytes()).unwrap());
    for (k, v) in hs { r = r.header(*k, ntex::http::header::HeaderValue::from_bytes(v).unwrap()) }
    r.to_http_request()
}
fn strs(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
/// a list setting: not set, empty, or one of two values
fn list(name: &str, a: &[&str], b: &[&str]) -> Option<Vec<String>> { match sym::choice(name, 4) { 0 => None, 1 => Some(vec![]), 2 => Some(strs(a)), _ => Some(strs(b)) } }
fn age(name: &str) -> Option<u64> { match sym::choice(name, 3) { 0 => None, 1 => Some(0), _ => Some(600) } }

fn pre(name: &str) -> http::HeaderMap {
    let mut h = http::HeaderMap::new();
    match sym::choice(name, 4) { 1 => { h.insert("x-pre", "1".parse().unwrap()); } 2 => { h.insert("x-pre", "2".parse().unwrap()); h.insert("cache-control", "no-store".parse().unwrap()); } 3 => { h.insert("access-control-max-age", "7".parse().unwrap()); h.insert("vary", "X".parse().unwrap()); } _ => {} }
    h
}

#[no_mangle]
pub extern "C" fn h_cors() {
    let mut c = CORSConfig { enabled: true, ..Default::default() };
    let mut pol = CORSPolicyConfig::default();
    let mut second = CORSPolicyConfig { max_age: Some(22), ..Default::default() };
    let any = sym::choice("any", 2) == 1; c.allow_any_origin = any;
    let n = sym::param("n", 2) as usize;
    // which settings vary in this run (all others are left out of the configuration)
    let mut hs: Vec<(&str, Vec<u8>)> = vec![];
    let (mut req_method, mut req_headers, mut vary) = (None, None, None);
    for f in 0..2 {
        match sym::choice(&format!("setting{f}"), 6) {
            0 => { c.allow_credentials = sym::choice("creds", 2) == 1; pol.allow_credentials = match sym::choice("pcreds", 3) { 0 => None, 1 => Some(false), _ => Some(true) }; }
            1 => { c.methods = list("methods", &["GET"], &["GET", "POST"]); pol.methods = list("pmethods", &["PUT"], &["POST", "OPTIONS"]); if sym::choice("asks method", 2) == 1 { req_method = Some(b"PATCH".to_vec()) } }
            2 => { c.allow_headers = list("allow", &["x-g"], &["x-g", "x-h"]); pol.allow_headers = list("pallow", &["x-p"], &["x-p", "x-q"]); if sym::choice("asks headers", 2) == 1 { let mut v = b"x-".to_vec(); v.extend(sym::ascii("asked", 1).bytes()); req_headers = Some(v) } }
            3 => { c.expose_headers = list("expose", &["x-g"], &["x-g", "x-h"]); pol.expose_headers = list("pexpose", &["x-p"], &["x-p", "x-q"]); c.max_age = age("age"); pol.max_age = age("page"); }
            4 => { c.preflight_response_headers = pre("pre"); pol.preflight_response_headers = pre("ppre"); }
            _ => { vary = match sym::choice("vary", 3) { 0 => None, 1 => Some("Accept"), _ => Some("accept, origin") }; }
        }
        if sym::param("settings", 2) < 2 { break }
    }
    match sym::choice("rule", 4) {
        0 => pol.origins = Some(strs(&["https://ab", "https://c"])),
        1 => pol.match_origin = Some(strs(&["^https://[a-c].$"])),
        2 => { pol.origins = Some(strs(&["https://zz"])); pol.match_origin = Some(strs(&["^x$", "a$"])) }
        _ => {}
    }
    second.origins = Some(strs(&["https://ab", "https://xy"]));
    let prule = (pol.origins.clone(), pol.match_origin.clone());
    c.policies = vec![pol.clone(), second.clone()];
    let method = if sym::choice("preflight", 2) == 1 { "OPTIONS" } else { "POST" };
    let origin = match sym::choice("origin", 3) { 0 => None, 1 => { let mut o = b"https://".to_vec(); o.extend(sym::ascii("host", n).bytes()); Some(o) } _ => { let mut o = sym::ascii("scheme", 1).into_bytes(); o.extend(b"ttps://ab"); Some(o) } };
    if let Some(o) = &origin { hs.push(("origin", o.clone())) }
    if let Some(o) = &req_method { hs.push(("access-control-request-method", o.clone())) }
    if let Some(o) = &req_headers { hs.push(("access-control-request-headers", o.clone())) }
    let req = request(method, "/graphql", &hs);
    let mut out = NMap::new();
    if let Some(v) = vary { out.insert(ntex::http::header::VARY, ntex::http::header::HeaderValue::from_static(v)) }
    let cors = match Cors::from_config(&c) { Ok(Some(x)) => x, _ => sym::fail("a valid configuration was not accepted") };
    sym::check(cors.get_early_response(&req).is_some() == (method == "OPTIONS"), "exactly preflight requests are answered early");
    cors.set_headers(&req, &mut out);
    // what the documentation says
    let mut want = Out::new();
    let put = |w: &mut Out, k: &str, v: &[u8]| { w.insert(k.to_string(), vec![v.to_vec()]); };
    let mut varies: Vec<&str> = vec![];
    if let Some(o) = &origin {
        let is = |s: &str| eq(o, s.as_bytes());
        let m = |r: &str| match r { "^https://[a-c].$" => o.len() == 10 && eq(&o[..8], b"https://") && o[8] >= b'a' && o[8] <= b'c', "^x$" => is("x"), _ => !o.is_empty() && o[o.len() - 1] == b'a' };
        let hit = |(a, b): &(Option<Vec<String>>, Option<Vec<String>>)| a.iter().flatten().any(|x| is(x)) || b.iter().flatten().any(|x| m(x));
        let none = CORSPolicyConfig::default();
        let p = if any { Some(&none) } else if hit(&prule) { Some(&pol) } else if is("https://ab") || is("https://xy") { Some(&second) } else { None };
        match p {
            None => { put(&mut want, "access-control-allow-origin", b"null"); if let Some(v) = vary { put(&mut want, "vary", v.as_bytes()) } sym::reach("refused"); }
            Some(p) => {
                sym::reach("allowed");
                put(&mut want, "access-control-allow-origin", o);
                varies.push("Origin");
                let l = |p: &Option<Vec<String>>, g: &Option<Vec<String>>| p.clone().filter(|v| !v.is_empty()).or(g.clone().filter(|v| !v.is_empty())).map(|v| v.join(", "));
                if let Some(v) = l(&p.methods, &c.methods) { put(&mut want, "access-control-allow-methods", v.as_bytes()) } else if let Some(v) = &req_method { put(&mut want, "access-control-allow-methods", v) }
                if let Some(v) = l(&p.allow_headers, &c.allow_headers) { put(&mut want, "access-control-allow-headers", v.as_bytes()) } else if let Some(v) = &req_headers { put(&mut want, "access-control-allow-headers", v); varies.push("Access-Control-Request-Headers"); }
                if let Some(v) = l(&p.expose_headers, &c.expose_headers) { put(&mut want, "access-control-expose-headers", v.as_bytes()) }
                if p.allow_credentials.unwrap_or(c.allow_credentials) { put(&mut want, "access-control-allow-credentials", b"true") }
                if let Some(v) = p.max_age.or(c.max_age) { put(&mut want, "access-control-max-age", v.to_string().as_bytes()) }
                if method == "OPTIONS" { for h in [&c.preflight_response_headers, &p.preflight_response_headers] { for (k, v) in h { if k == "vary" { varies = vec!["!"] } put(&mut want, k.as_str(), v.as_bytes()) } } }
            }
        }
    } else if let Some(v) = vary { put(&mut want, "vary", v.as_bytes()); }
    let mut got = nmap(&out);
    if !varies.is_empty() && varies != ["!"] {
        // Vary keeps what was there and names everything the answer depends on; spelling and order are free
        let v = got.remove("vary").unwrap_or_default();
        let toks: Vec<String> = v.iter().flat_map(|v| String::from_utf8_lossy(v).split(',').map(|s| s.trim().to_ascii_lowercase()).collect::<Vec<_>>()).collect();
        for t in varies.iter().map(|s| s.to_ascii_lowercase()).chain(vary.iter().flat_map(|v| v.split(", ").map(|s| s.to_ascii_lowercase()))) { sym::check(toks.contains(&t), "Vary names what the answer depends on") }
    }
    same(&got, &want, "CORS response headers differ from the configured policy");
}

const SIMPLE: [&str; 3] = ["text/plain", "multipart/form-data", "application/x-www-form-urlencoded"];
#[no_mangle]
pub extern "C" fn h_csrf() {
    let enabled = sym::choice("enabled", 2) == 1;
    let req_names: &[&str] = match sym::choice("required", 4) { 0 => &[], 1 => &["x-csrf-token"], 2 => &["X-Req", "x-csrf-token"], _ => &["content-language"] };
    let cfg = CSRFPreventionConfig { enabled, required_headers: req_names.iter().map(|s| (*s).into()).collect() };
    let w = sym::param("window", 3) as usize;
    let mut ct: Option<Vec<u8>> = None;
    if sym::choice("content-type", 2) == 1 {
        let base = match sym::choice("base", 5) { 0 => SIMPLE[0], 1 => SIMPLE[1], 2 => SIMPLE[2], 3 => "application/json", _ => "" };
        let mut v = base.as_bytes().to_vec();
        // any bytes of a header value in one window of the text, and after it
        let at = if v.len() > w { sym::choice("at", ((v.len() - w) / w + 1) as u64) as usize * w } else { 0 };
        let win = sym::bytes("window", w.min(v.len()));
        for (i, b) in win.iter().enumerate() { sym::assume((*b >= 0x20 && *b != 0x7f) || *b == 9); v[at + i] = *b }
        let tail = sym::choice("tail length", 3) as usize;
        let t = sym::bytes("tail", tail); for b in t { sym::assume((b >= 0x20 && b != 0x7f) || b == 9); v.push(b) }
        ct = Some(v);
    }
    let mut hs: Vec<(&str, Vec<u8>)> = vec![("accept", b"*/*".to_vec())];
    if let Some(c) = &ct { hs.push(("content-type", c.clone())) }
    let mut has = false;
    for (i, n) in ["x-csrf-token", "x-req", "content-language", "x-other"].iter().enumerate() { if sym::choice(&format!("has{i}"), 2) == 1 { hs.push((n, sym::ascii("v", (i % 2) as usize).into_bytes())); has |= req_names.iter().any(|r| r.eq_ignore_ascii_case(n)); } }
    let req = request(if sym::choice("get", 2) == 1 { "GET" } else { "POST" }, "/graphql", &hs);
    let ok = perform_csrf_prevention(&req, &cfg).is_ok();
    if !enabled || req_names.is_empty() || has { sym::reach("passed"); return sym::check(ok, "a request that needs no proof, or has it, is refused") }
    match ct {
        None => { sym::reach("refused"); sym::check(!ok, "a request without content type and required header passes") }
        Some(c) => {
            // a browser sends it without preflight exactly if its essence is one of the three types
            let lower = |b: u8| if b >= b'A' && b <= b'Z' { b + 32 } else { b };
            let pre = |s: &str| c.len() >= s.len() && { let mut d = 0u8; for (i, x) in s.bytes().enumerate() { d |= lower(c[i]) ^ x } d == 0 };
            let (mut simple, mut prefix) = (false, false);
            for s in SIMPLE { if pre(s) { prefix = true; if c.len() == s.len() || matches!(c[s.len()], b';' | b' ' | b'\t' | b',') { simple = true } } }
            let text = c.iter().all(|b| *b < 0x7f && (*b >= 0x20 || *b == 9));
            // (a value that only starts like one of them, or is not text, may go either way)
            if simple { sym::reach("refused"); sym::check(!ok, "a request that needs no preflight passes without a required header") }
            else if !prefix && text && !matches!(c.first(), None | Some(b' ' | b'\t')) { sym::reach("passed"); sym::check(ok, "a request whose content type forces a preflight is refused") }
        }
    }
}

/// one header rule, as the documentation describes it
#[derive(Clone, Copy)]
enum R { Prop { named: &'static [&'static str], matching: &'static [&'static str], exclude: &'static [&'static str], rename: Option<&'static str>, default: Option<&'static str> }, Ins { name: &'static str, value: &'static str }, Rem { named: &'static [&'static str], matching: &'static [&'static str], exclude: &'static [&'static str] } }
const fn pn(named: &'static [&'static str]) -> R { R::Prop { named, matching: &[], exclude: &[], rename: None, default: None } }
const fn pm(matching: &'static [&'static str], exclude: &'static [&'static str]) -> R { R::Prop { named: &[], matching, exclude, rename: None, default: None } }
const fn pr(named: &'static [&'static str], rename: Option<&'static str>, default: Option<&'static str>) -> R { R::Prop { named, matching: &[], exclude: &[], rename, default } }
const RULES: [R; 20] = [
    pn(&["X-A"]), pn(&["x-a", "x-b"]), pr(&["x-a"], Some("x-b"), None), pr(&["x-a"], None, Some("d")), pr(&["x-a"], Some("X-C"), Some("d")),
    pm(&["^x-"], &["^x-b$"]), pm(&[".*"], &[]), pn(&["connection", "x-b"]), pr(&["x-a"], Some("connection"), None), pr(&["te"], Some("x-c"), Some("d")),
    R::Ins { name: "X-A", value: "i" }, R::Ins { name: "set-cookie", value: "i" }, R::Ins { name: "Host", value: "i" }, R::Ins { name: "x-c", value: "" },
    R::Rem { named: &["X-A"], matching: &[], exclude: &[] }, R::Rem { named: &["x-a", "x-c"], matching: &["^x-b$"], exclude: &[] }, R::Rem { named: &[], matching: &["^x-"], exclude: &["^x-b$"] },
    pn(&["set-cookie"]), R::Rem { named: &["set-cookie", "connection"], matching: &[], exclude: &[] }, R::Ins { name: "content-type", value: "i" },
];
fn re(p: &str, n: &str) -> bool { match p { "^x-" => n.starts_with("x-"), "^x-b$" => n == "x-b", ".*" => true, _ => unreachable!() } }
fn hit(named: &[&str], matching: &[&str], exclude: &[&str], n: &str) -> bool { (named.iter().any(|x| x.eq_ignore_ascii_case(n)) || matching.iter().any(|p| re(p, n))) && !exclude.iter().any(|p| re(p, n)) }
fn spec(named: &[&str], matching: &[&str], exclude: &[&str]) -> hc::MatchSpec {
    let om = |v: &[&str]| match v { [] => None, [x] => Some(hc::OneOrMany::One(x.to_string())), v => Some(hc::OneOrMany::Many(strs(v))) };
    hc::MatchSpec { named: om(named), matching: om(matching), exclude: if exclude.is_empty() { None } else { Some(strs(exclude)) } }
}
const HOP: [&str; 11] = ["connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailer", "transfer-encoding", "upgrade", "proxy-connection", "host", "content-length"];
const SC: [[u64; 2]; 4] = [[0, 0], [0, 1], [1, 0], [2, 1]];
fn never_join(n: &str) -> bool { n == "set-cookie" || n == "www-authenticate" }
fn creq(r: &R) -> hc::RequestHeaderRule {
    match *r {
        R::Prop { named, matching, exclude, rename, default } => hc::RequestHeaderRule::Propagate(hc::RequestPropagateRule { spec: spec(named, matching, exclude), rename: rename.map(Into::into), default: default.map(Into::into) }),
        R::Ins { name, value } => hc::RequestHeaderRule::Insert(hc::RequestInsertRule { name: name.into(), source: hc::InsertSource::Value { value: value.into() } }),
        R::Rem { named, matching, exclude } => hc::RequestHeaderRule::Remove(hc::RemoveRule { spec: spec(named, matching, exclude) }),
    }
}
fn algo(a: u64) -> hc::AggregationAlgo { match a { 0 => hc::AggregationAlgo::First, 1 => hc::AggregationAlgo::Last, _ => hc::AggregationAlgo::Append } }
fn cres(r: &R, a: Option<u64>) -> hc::ResponseHeaderRule {
    match *r {
        R::Prop { named, matching, exclude, rename, default } => hc::ResponseHeaderRule::Propagate(hc::ResponsePropagateRule { spec: spec(named, matching, exclude), rename: rename.map(Into::into), default: default.map(Into::into), algorithm: algo(a.unwrap_or(1)) }),
        R::Ins { name, value } => hc::ResponseHeaderRule::Insert(hc::ResponseInsertRule { name: name.into(), source: hc::InsertSource::Value { value: value.into() }, algorithm: a.map(algo) }),
        R::Rem { named, matching, exclude } => hc::ResponseHeaderRule::Remove(hc::RemoveRule { spec: spec(named, matching, exclude) }),
    }
}
fn details<'a>(method: &'a http::Method, url: &'a http::Uri, h: NMap) -> ClientRequestDetails<'a> { ClientRequestDetails { method, url, headers: Arc::new(h), operation: OperationDetails { name: None, query: "{a}", kind: "query" }, jwt: Arc::new(JwtRequestDetails::Unauthenticated), path_params: Default::default() } }
/// which scope a rule is written in: for all subgraphs, for the one asked, or for another one
fn scoped<T>(rules: Vec<(u64, T)>) -> (Vec<T>, Vec<T>, Vec<T>) { let (mut a, mut b, mut c) = (vec![], vec![], vec![]); for (s, r) in rules { match s { 0 => a.push(r), 1 => b.push(r), _ => c.push(r) } } (a, b, c) }
fn interesting(rules: &[(u64, usize)], n: &str) -> bool { rules.iter().any(|(_, r)| match RULES[*r] { R::Prop { named, matching, exclude, .. } => hit(named, matching, exclude, n), _ => false }) }

#[no_mangle]
pub extern "C" fn h_req_headers() {
    let k = sym::param("rules", 2);
    let mut rules: Vec<(u64, usize)> = vec![];
    let mut sc = 0;
    for i in 0..k { let s = if k == 2 && sym::param("scopes", 0) == 0 { if i == 0 { sc = sym::choice("scopes", 4) } SC[sc as usize][i as usize] } else { sym::choice(&format!("scope{i}"), 3) }; rules.push((s, sym::choice(&format!("rule{i}"), RULES.len() as u64) as usize)); }
    let (a, b, c) = scoped(rules.iter().map(|(s, r)| (*s, RULES[*r])).collect());
    let hr = |v: &[R]| hc::HeaderRules { request: Some(v.iter().map(creq).collect()), response: None };
    let cfg = hc::HeadersConfig { all: if a.is_empty() { None } else { Some(hr(&a)) }, subgraphs: Some(HashMap::from([("s".to_string(), hr(&b)), ("t".to_string(), hr(&c))])) };
    let plan = match compile_headers_plan(&cfg) { Ok(p) => p, Err(e) => sym::fail(&format!("a valid configuration was not accepted: {e}")) };
    let mut client: Vec<(&str, Vec<u8>)> = vec![];
    for n in ["x-a", "x-b", "connection", "te", "set-cookie", "accept"] {
        if !interesting(&rules, n) { continue }
        let times = sym::choice(&format!("has {n}"), if n == "x-b" && !rules.iter().any(|(_, r)| matches!(RULES[*r], R::Prop { named, .. } if !named.is_empty())) { 3 } else { 2 });
        for _ in 0..times { client.push((n, sym::ascii(n, 1).into_bytes())) }
    }
    let mut ch = NMap::new();
    for (n, v) in &client { ch.append(ntex::http::header::HeaderName::from_bytes(n.as_bytes()).unwrap(), ntex::http::header::HeaderValue::from_bytes(v).unwrap()) }
    let (m, u) = (http::Method::POST, http::Uri::from_static("/graphql"));
    let d = details(&m, &u, ch);
    let mut out = http::HeaderMap::new();
    if let Err(e) = modify_subgraph_request_headers(&plan, "s", &d, &mut out) { sym::fail(&format!("header rules failed: {e}")) }
    let mut want = Out::new();
    let hop = |n: &str| HOP.contains(&n.to_ascii_lowercase().as_str());
    for r in a.iter().chain(&b) {
        match *r {
            R::Prop { named, matching, exclude, rename, default } => {
                let mut any = false;
                // named headers go in the order they are named, matched ones in the order they arrived
                let mut hits: Vec<&(&str, Vec<u8>)> = vec![];
                for n in named { hits.extend(client.iter().filter(|(c, _)| n.eq_ignore_ascii_case(c))) }
                hits.extend(client.iter().filter(|(c, _)| hit(&[], matching, exclude, c)));
                for (n, v) in hits { if !hop(n) { any = true; let dst = rename.unwrap_or(n); if !hop(dst) { want.entry(dst.to_ascii_lowercase()).or_default().push(v.clone()) } } }
                if let (false, Some(dv)) = (any, default) { let dst = rename.unwrap_or(named[0]); if !hop(dst) { want.entry(dst.to_ascii_lowercase()).or_default().push(dv.as_bytes().to_vec()) } }
            }
            R::Ins { name, value } => if !hop(name) { let e = want.entry(name.to_ascii_lowercase()).or_default(); if !never_join(name) { e.clear() } e.push(value.as_bytes().to_vec()) },
            R::Rem { named, matching, exclude } => want.retain(|n, _| !hit(named, matching, exclude, n)),
        }
    }
    let got = hmap(&out);
    for n in HOP { sym::check(!got.contains_key(n), "a hop-by-hop header is sent to a subgraph") }
    if !want.is_empty() { sym::reach("headers") }
    same(&got, &want, "request headers differ from what the rules say");
}

#[no_mangle]
pub extern "C" fn h_res_headers() {
    let k = sym::param("rules", 2);
    let mut rules: Vec<(u64, usize, Option<u64>)> = vec![];
    let mut sc = 0;
    for i in 0..k {
        let s = if k == 2 && sym::param("scopes", 0) == 0 { if i == 0 { sc = sym::choice("scopes", 4) } SC[sc as usize][i as usize] } else { sym::choice(&format!("scope{i}"), 3) }; let r = sym::choice(&format!("rule{i}"), RULES.len() as u64) as usize;
        let al = match RULES[r] { R::Prop { .. } => Some(sym::choice(&format!("algo{i}"), 3)), R::Ins { .. } => [None, Some(0), Some(2)][sym::choice(&format!("algo{i}"), 3) as usize], _ => None };
        rules.push((s, r, al));
    }
    let plain: Vec<(u64, usize)> = rules.iter().map(|(s, r, _)| (*s, *r)).collect();
    let (a, b, c) = scoped(rules.iter().map(|(s, r, al)| (*s, (RULES[*r], *al))).collect());
    let hr = |v: &[(R, Option<u64>)]| hc::HeaderRules { request: None, response: Some(v.iter().map(|(r, a)| cres(r, *a)).collect()) };
    let cfg = hc::HeadersConfig { all: if a.is_empty() { None } else { Some(hr(&a)) }, subgraphs: Some(HashMap::from([("s".to_string(), hr(&b)), ("t".to_string(), hr(&c))])) };
    let plan = match compile_headers_plan(&cfg) { Ok(p) => p, Err(e) => { let any = rules.iter().any(|(_, r, al)| matches!(RULES[*r], R::Prop { matching: [".*"], .. }) && al != &Some(2)); sym::check(any, "a valid configuration was not accepted"); let _ = e; return } };
    sym::check(!rules.iter().any(|(_, r, al)| matches!(RULES[*r], R::Prop { matching: [".*"], .. }) && al != &Some(2)), "cache-control is propagated without append");
    let (m, u) = (http::Method::POST, http::Uri::from_static("/graphql"));
    let d = details(&m, &u, NMap::new());
    let mut agg = ResponseHeaderAggregator::default();
    let deny = |n: &str| { let n = n.to_ascii_lowercase(); HOP.contains(&n.as_str()) || n == "content-type" };
    // values with the sequence that is expected; the flag tells a default that yields to any real value
    let mut want: BTreeMap<String, (Vec<Vec<u8>>, bool)> = BTreeMap::new();
    fn put(w: &mut BTreeMap<String, (Vec<Vec<u8>>, bool)>, n: &str, v: &[u8], al: u64) {
        let n = n.to_ascii_lowercase(); let nj = never_join(&n); let e = w.entry(n).or_default();
        if e.1 { e.0.clear(); e.1 = false }
        match if nj { 2 } else { al } { 0 => if e.0.is_empty() { e.0.push(v.to_vec()) }, 1 => { e.0.clear(); e.0.push(v.to_vec()) } _ => e.0.push(v.to_vec()) }
    }
    let responses: &[&str] = match sym::choice("responses", 3) { 0 => &["s", "t"], 1 => &["t", "s"], _ => &["s"] };
    for (ri, sub) in responses.iter().enumerate() {
        let mut hs: Vec<(&str, Vec<u8>)> = vec![];
        for n in ["x-a", "x-b", "connection", "te", "set-cookie"] {
            if !interesting(&plain, n) { continue }
            let times = if HOP.contains(&n) { ri as u64 } else { sym::choice(&format!("{ri} has {n}"), 2) * if never_join(n) { 2 } else { 1 } };
            for _ in 0..times { hs.push((n, sym::ascii(n, 1).into_bytes())) }
        }
        hs.push(("content-type", b"text/x".to_vec()));
        let mut sh = http::HeaderMap::new();
        for (n, v) in &hs { sh.append(http::HeaderName::from_bytes(n.as_bytes()).unwrap(), http::HeaderValue::from_bytes(v).unwrap()); }
        if let Err(e) = apply_subgraph_response_headers(&plan, sub, &sh, &d, &mut agg) { sym::fail(&format!("header rules failed: {e}")) }
        for (r, al) in a.iter().chain(if *sub == "s" { &b } else { &c }) {
            let al = al.unwrap_or(1);
            match *r {
                R::Prop { named, matching, exclude, rename, default } => {
                    let mut any = false;
                    let mut hits: Vec<&(&str, Vec<u8>)> = vec![];
                    for n in named { hits.extend(hs.iter().filter(|(c, _)| n.eq_ignore_ascii_case(c))) }
                    hits.extend(hs.iter().filter(|(c, _)| hit(&[], matching, exclude, c)));
                    for (n, v) in hits { if !deny(n) { any = true; let dst = rename.unwrap_or(n); if !deny(dst) { put(&mut want, dst, v, al) } } }
                    if let (false, Some(dv)) = (any, default) { let dst = rename.unwrap_or(named[0]); if !deny(dst) { let e = want.entry(dst.to_ascii_lowercase()).or_default(); if e.0.is_empty() { *e = (vec![dv.as_bytes().to_vec()], true) } } }
                }
                R::Ins { name, value } => if !deny(name) { put(&mut want, name, value.as_bytes(), al) },
                R::Rem { named, matching, exclude } => want.retain(|n, _| !hit(named, matching, exclude, n)),
            }
        }
    }
    let mut out = NMap::new();
    out.insert(ntex::http::header::CONTENT_TYPE, ntex::http::header::HeaderValue::from_static("application/json"));
    if let Err(e) = agg.modify_client_response_headers(&mut out) { sym::fail(&format!("header rules failed: {e}")) }
    let got = nmap(&out);
    for n in HOP { sym::check(!got.contains_key(n), "a hop-by-hop header is sent to the client") }
    let mut w = Out::new();
    w.insert("content-type".into(), vec![b"application/json".to_vec()]);
    for (n, (v, _)) in want { if v.is_empty() { continue } if never_join(&n) { w.insert(n, v); } else { let j = v.join(&b", "[..]); w.insert(n, vec![j]); } }
    if w.len() > 1 { sym::reach("headers") }
    same(&got, &w, "client response headers differ from what the rules say");
}

#[no_mangle]
pub extern "C" fn h_cache_control() {
    let n = sym::param("values", 2) as usize; let parts = sym::param("parts", 2) as usize;
    let count = sym::choice("count", n as u64 + 1) as usize;
    let total = count + sym::choice("silent", 2) as usize;
    let force = sym::choice("force", 2) == 1;
    let mut vals: Vec<http::HeaderValue> = vec![];
    #[derive(Default, Debug)] struct M { poison: bool, public: bool, age: Option<u64>, reval: bool, odd: bool, empty: bool }
    let mut ms: Vec<M> = vec![];
    for i in 0..count {
        let mut m = M { empty: true, ..Default::default() }; let mut s = String::new();
        for p in 0..if i == 0 { parts } else { sym::param("parts2", 1) as usize } {
            let t = match sym::choice(&format!("part{i}.{p}"), 11) {
                0 => continue, 1 => { m.poison = true; "no-store".to_string() } 2 => { m.poison = true; "No-Cache".to_string() } 3 => { m.poison = true; "private".to_string() } 4 => { m.public = true; "public".to_string() } 5 => { m.reval = true; "must-revalidate".to_string() }
                6 => { let d = sym::bytes("age", 2); sym::assume(d.iter().all(|d| (*d >= b'0') & (*d <= b'9'))); m.age = Some((d[0] - b'0') as u64 * 10 + (d[1] - b'0') as u64); format!("max-age={}", unsafe { std::str::from_utf8_unchecked(&d) }) }
                7 => { m.odd = true; "s-maxage=10".to_string() } 8 => { m.odd = true; if p == 0 { "max-age=x" } else { "max-age" }.to_string() } 9 => { m.age = Some(0); "MAX-AGE = 0".to_string() } _ => { m.odd = true; "private-ish".to_string() }
            };
            m.empty = false;
            if !s.is_empty() { s.push_str(if i == 0 { ", " } else { "," }) }
            s.push_str(&t);
        }
        vals.push(s.parse().unwrap()); ms.push(m);
    }
    let mut agg = ResponseHeaderAggregator::default();
    for v in &vals { agg.write(&http::header::CACHE_CONTROL, v, HeaderAggregationStrategy::Append) }
    cache_control::finalize(&mut agg, force, total);
    let mut out = NMap::new();
    if agg.modify_client_response_headers(&mut out).is_err() { sym::fail("finalized header cannot be written") }
    let got: Option<String> = out.get("cache-control").map(|v| v.to_str().unwrap_or("?").to_string());
    let toks: Vec<String> = got.iter().flat_map(|g| g.split(',').map(|s| s.trim().to_string())).filter(|s| !s.is_empty()).collect();
    let has = |t: &str| toks.iter().any(|x| x == t);
    let age = toks.iter().find_map(|t| t.strip_prefix("max-age=").map(|v| v.parse::<u64>().unwrap_or(u64::MAX)));
    let all = format!("{vals:?} of {total} -> {got:?}");
    if count == 0 { return sym::check(got.is_none(), "a header appears although no subgraph sent one") }
    if force { sym::reach("forced"); if !(has("no-store") && has("no-cache") && has("must-revalidate") && toks.len() == 3) { sym::fail(&format!("an operation that must not be cached is: {all}")) } return }
    if ms.iter().any(|m| m.poison) { sym::reach("poisoned"); if !(has("no-store") && has("no-cache")) || has("public") || age.is_some() { sym::fail(&format!("no-store, no-cache or private of one subgraph is lost: {all}")) } return }
    // values that are malformed or have unknown directives may be disregarded, but never make the answer more cacheable
    let good: Vec<&M> = ms.iter().filter(|m| !m.odd && !m.empty).collect();
    sym::check(!has("no-store") && !has("no-cache"), "an answer that may be cached must not be");
    if has("public") && (!ms.iter().all(|m| m.public) || total > count) { sym::fail(&format!("public although not every subgraph said so: {all}")) }
    let min = ms.iter().filter(|m| !m.odd).filter_map(|m| m.age).min();
    if !ms.iter().any(|m| m.odd) { if age != min { sym::fail(&format!("max-age is not the minimum: {all}")) } if has("must-revalidate") != ms.iter().any(|m| m.reval) { sym::fail(&format!("must-revalidate: {all}")) } if has("public") != (ms.iter().all(|m| m.public) && total <= count) { sym::fail(&format!("public: {all}")) } sym::reach("merged"); }
    else if !good.is_empty() { if let Some(w) = min { if !age.is_some_and(|a| a <= w) { sym::fail(&format!("max-age is longer than a subgraph allows: {all}")) } } if good.iter().any(|m| m.reval) && !has("must-revalidate") { sym::fail(&format!("must-revalidate of one subgraph is lost: {all}")) } }
}
