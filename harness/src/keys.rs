//! What is cached or shared under a key: plans, in-flight requests, entity representations.
use crate::{fed::telemetry, gql::*, sym};
use hive_router::config::traffic_shaping::{TrafficShapingRouterDedupeHeadersConfig as Cfg, TrafficShapingRouterDedupeHeadersKeyword as Kw};
use hive_router::executor::executors::{http::{HttpClient, SendRequestOpts}, inflight::{InFlightMap, InFlightRole}};
use hive_router::executor::introspection::{partition::partition_operation, schema::PossibleTypes};
use hive_router::executor::response::value::Value;
use hive_router::pipeline::{connection_fingerprint, hash_graphql_extensions, hash_graphql_variables, inbound_request_fingerprint, normalize::hash_normalized_operation};
use hive_router::query_planner::ast::{normalization::normalize_operation, operation::OperationDefinition, selection_item::SelectionItem, selection_set::{FieldSelection, InlineFragmentSelection, SelectionSet}};
use hive_router::query_planner::state::supergraph_state::SupergraphState;
use hive_router::query_planner::utils::parsing::{parse_operation, parse_schema};
use std::{cell::RefCell, collections::HashMap, future::Future, pin::Pin, rc::Rc, sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc}, task::{Context, Poll, Wake, Waker}};

fn opt(name: &str, alts: &[&str]) -> String { alts[sym::choice(name, alts.len() as u64) as usize].to_string() }

// ---------------------------------------------------------------- operations
fn cv(v: &V, o: &mut String) { match v {
    V::Var(n) => { o.push('$'); o.push_str(n) } V::Num(n) => o.push_str(n), V::Str(s) => *o += &format!("{:?}", s), V::Bool(b) => o.push_str(if *b { "true" } else { "false" }), V::Null => o.push_str("null"), V::Enum(e) => o.push_str(e),
    V::List(l) => { o.push('['); for x in l { cv(x, o); o.push(',') } o.push(']') }
    V::Obj(l) => { let mut l: Vec<_> = l.iter().collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); o.push('{'); for (k, x) in l { o.push_str(k); o.push(':'); cv(x, o); o.push(',') } o.push('}') }
} }
fn cdirs(d: &[Dir], o: &mut String) { let mut v: Vec<String> = d.iter().map(|d| { let mut s = format!("@{}(", d.name); for (k, x) in &d.args { s.push_str(k); s.push(':'); cv(x, &mut s); } s.push(')'); s }).collect(); v.sort(); for x in v { o.push_str(&x) } }
fn csel(s: &[Sel], o: &mut String) { o.push('{'); for x in s { match x {
    Sel::Field(f) => { if let Some(a) = &f.alias { if *a != f.name { o.push_str(a); o.push(':') } } o.push_str(&f.name); let mut a: Vec<_> = f.args.iter().collect(); a.sort_by(|a, b| a.0.cmp(&b.0)); o.push('('); for (k, v) in a { o.push_str(k); o.push(':'); cv(v, o); o.push(',') } o.push(')'); cdirs(&f.dirs, o); csel(&f.sel, o) }
    Sel::Inline(t, d, s) => { o.push_str("..."); if let Some(t) = t { o.push_str(t) } cdirs(d, o); csel(s, o) }
    Sel::Spread(n, _) => { o.push_str("..."); o.push_str(n) }
} o.push(' ') } o.push('}') }
/// an operation up to its name and the order of arguments, variables and object fields
fn canon(op: &OperationDefinition) -> String {
    let d = match P::doc(&op.to_string()) { Some(d) => d, None => sym::fail(&format!("not printed as a document: {op}")) };
    let x = &d.ops[0]; let mut o = x.kind.clone();
    let mut v: Vec<String> = x.vars.iter().map(|(n, t, d)| { let mut s = format!("{n}:{t:?}="); if let Some(d) = d { cv(d, &mut s) } s }).collect(); v.sort(); for x in v { o.push_str(&x); o.push(',') }
    csel(&x.sel, &mut o); o
}
fn operation(family: u64, w: &str) -> String {
    let c = |n: &str, a: &[&str]| opt(&format!("{n} {w}"), a);
    match family {
        0 => { let p = ["id", "p", "... on X { p }", "... on X { p q }", "... on X { x n { id } }", "... on X { x n { id p } }", "... on Y { y }", "n { id }", "n { id p }", "... on X { p q x }", "... on X { p x }"];
            let e = ["", "q", "... on X { q }", "... on Y { y q }", "x: q", "p", "... on X { ... on X { q } }"];
            format!("{{ n {{ {} {} {} }} }}", c("first", &p), c("second", &e), c("third", &["", "q"])) }
        1 => { let v = ["1", "1.0", "true", "\"A\"", "A", "$v", "\"v\"", "v", "null", "\"null\"", "[1, 2]", "[[1], 2]", "[[1, 2]]", "[[1], [2]]", "[]", "[[]]", "{}", "{a: 1, b: 2}", "{a: {}, b: 2}", "{a: {b: 2}}", "{a: [1], b: 2}", "[{a: 1}, {b: 2}]", "[{a: 1, b: 2}]", "-1", "{a: \"b\"}", "[\"a\", \"b\"]"];
            match sym::choice(&format!("argument {w}"), 3) { 0 => format!("query($v: Any) {{ any(a: {}, b: $v) }}", c("value", &v)), 1 => format!("query($v: Any) {{ any(a: $v, b: {}) }}", c("value", &v)), _ => format!("query($v: Any) {{ any(b: {}) x: any(a: $v) }}", c("value", &v)) } }
        2 => { let cond = ["", "@skip(if: $a)", "@include(if: $a)", "@skip(if: $b)", "@skip(if: $a) @include(if: $b)", "@skip(if: $b) @include(if: $a)", "@include(if: $b)", "@skip(if: $a) @include(if: $a)"]; let cond = if sym::param("full", 0) == 1 { &cond[..] } else { &cond[..6] };
            format!("query($a: Boolean!, $b: Boolean!) {{ n {{ p {} ... on X {} {{ q {} }} }} }}", c("condition", cond), c("fragment condition", cond), c("inner condition", &["", "@skip(if: $a)", "@include(if: $b)"])) }
        3 => { let t = ["", "$v: String", "$v: String!", "$v: String = \"x\"", "$v: String = null", "$v: String = \"null\"", "$w: String", "$v: String, $w: String", "$v: String, $w: String!", "$v: String!, $w: String"];
            let (v, s) = (c("variables", &t), c("field", &["s", "s(a: $v)", "s(b: $v)", "s(a: $v, b: $v)", "s(a: $v, b: \"v\")", "a: s", "b: s(a: $v)", "s(a: $w)", "s(a: $v, b: $w)"]));
            format!("{} {} {{ {s} }}", c("kind", if sym::param("full", 0) == 1 { &["query", "mutation", "subscription"] } else { &["query", "mutation"] }), if v.is_empty() { v } else { format!("({v})") }) }
        _ => { let p = ["", "__typename", "__schema { queryType { name } }", "__schema { types { name } }", "__type(name: \"X\") { name }", "__type(name: \"Y\") { name }", "t: __type(name: \"X\") { name }", "n { __typename }", "n { id }", "n { __typename id }", "n { id __typename }", "n { t: __typename }"];
            format!("{{ {} {} n {{ id }} }}", c("first", &p), c("second", &p)) }
    }
}
fn state() -> SupergraphState { SupergraphState::new(&parse_schema(crate::fixture!("keys"))) }
/// operations with the same hash (the key of the plan cache and of shared requests) are the same operation
#[no_mangle]
pub extern "C" fn h_key_operation() {
    let s = state();
    let family = sym::param("family", 0);
    let get = |t: String| -> Option<(u64, u64, String, String, String)> {
        let n = normalize_operation(&s, &parse_operation(&t), None).ok()?;
        let p = partition_operation(n.operation);
        let h = hash_normalized_operation(&p.downstream_operation, p.introspection_operation.as_ref());
        Some((h.operation_for_plan_hash, h.combined_operation_hash, canon(&p.downstream_operation), p.introspection_operation.as_ref().map(canon).unwrap_or_default(), t))
    };
    let t = operation(family, "1");
    let a = match get(t.clone()) { Some(a) => a, None => return };
    let u = operation(family, "2");
    // the pair in one order is enough
    sym::assume(t <= u);
    let b = match get(u) { Some(b) => b, None => return };
    if a.0 == b.0 && a.2 != b.2 { sym::fail(&format!("two operations share a plan\n{}\n{}", a.4, b.4)) }
    if a.1 == b.1 && (a.2 != b.2 || a.3 != b.3) { sym::fail(&format!("two operations share a response\n{}\n{}", a.4, b.4)) }
    if a.4 == b.4 { sym::check(a.0 == b.0 && a.1 == b.1, "the same operation has the same key"); }
    sym::reach(if a.1 == b.1 { "same" } else { "different" });
}

// ---------------------------------------------------------------- requests of clients
fn j(t: &str) -> HashMap<String, sonic_rs::Value> { sonic_rs::from_str(t).unwrap() }
type Hs = Vec<(&'static str, Vec<u8>)>;
/// up to two fields; the bytes are those of valid field values
fn headers(w: &str) -> Hs {
    let n = ["authorization", "cookie", "x-tenant"];
    let v: [&[u8]; 6] = [b"a", b"b", b"", b"a\xe9", b"a\xe8", b"a, b"];
    let mut o = vec![];
    for i in 0..sym::choice(&format!("fields {w}"), 3) { o.push((n[sym::choice(&format!("name {i} {w}"), 2 + (i == 0) as u64) as usize], v[sym::choice(&format!("value {i} {w}"), v.len() as u64) as usize].to_vec())) }
    o
}
/// per name the values in order
fn grouped(h: &Hs, keep: impl Fn(&str) -> bool) -> Vec<(&'static str, Vec<u8>)> { let mut v: Vec<_> = h.iter().filter(|x| keep(x.0)).cloned().collect(); v.sort_by(|a, b| a.0.cmp(b.0)); v }
#[no_mangle]
pub extern "C" fn h_key_request() {
    let what = sym::choice("varied", 4);
    let include = Cfg::Include { include: vec!["x-tenant".into(), "authorization".into()] };
    let cfg = match sym::choice("policy", 3) { 0 => Cfg::Keyword(Kw::All), 1 => Cfg::Keyword(Kw::None), _ => include };
    let keep = |n: &str| match &cfg { Cfg::Keyword(Kw::All) => true, Cfg::Keyword(Kw::None) => false, _ => n == "x-tenant" || n == "authorization" };
    let vals = ["{}", "{\"a\":null}", "{\"a\":true}", "{\"a\":false}", "{\"a\":1}", "{\"a\":0}", "{\"a\":-1}", "{\"a\":1.5}", "{\"a\":\"1\"}", "{\"a\":\"\"}", "{\"a\":[]}", "{\"a\":[1]}", "{\"a\":[[1]]}", "{\"a\":[[],[]]}", "{\"a\":[[[]]]}", "{\"a\":{}}", "{\"a\":{\"b\":1}}", "{\"a\":{},\"b\":1}", "{\"b\":1,\"a\":{}}", "{\"b\":1}", "{\"a\":{\"b\":{}},\"c\":2}", "{\"a\":{\"b\":{\"c\":2}}}", "{\"a\":\"b\",\"c\":\"d\"}", "{\"a\":\"d\",\"c\":\"b\"}", "{\"a\":[\"x\",\"y\"]}", "{\"a\":[\"xy\"]}", "{\"a\":18446744073709551615}", "{\"a\":{\"x\":1,\"y\":[2]}}", "{\"a\":{\"x\":1,\"y\":2}}", "{\"a\":[1,2]}", "{\"a\":[{\"x\":1},{\"y\":2}]}", "{\"a\":[{\"x\":1,\"y\":2}]}"];
    let one = |w: &str| {
        let hs: Hs = if what == 0 { headers(w) } else { vec![("cookie", b"a".to_vec())] };
        let (m, path, schema, op) = if what == 1 { (opt(&format!("method {w}"), &["GET", "POST"]), opt(&format!("path {w}"), &["/graphql", "/", "/graphql/"]), sym::choice(&format!("schema {w}"), 2), sym::choice(&format!("operation {w}"), 2)) } else { ("POST".into(), "/graphql".into(), 0, 0) };
        let vars = if what == 2 { opt(&format!("variables {w}"), &vals) } else { "{\"a\":1}".into() };
        let ext = if what == 3 { opt(&format!("extensions {w}"), &vals) } else { "{\"b\":1}".into() };
        let mut map = hive_router::ntex::http::HeaderMap::new();
        for (n, v) in &hs { map.append(hive_router::ntex::http::header::HeaderName::from_static(n), hive_router::ntex::http::header::HeaderValue::from_bytes(v).unwrap()); }
        let c = connection_fingerprint(&m.parse().unwrap(), &path, &map, &(&cfg).into(), schema);
        let f = inbound_request_fingerprint(c, op, hash_graphql_variables(&j(&vars)), hash_graphql_extensions(&j(&ext)));
        (c, f, (m, path, schema, grouped(&hs, keep)), (op, JP::parse(vars.as_bytes()).map(csort), JP::parse(ext.as_bytes()).map(csort)))
    };
    let (a, b) = (one("1"), one("2"));
    sym::check(a.0 != b.0 || a.2 == b.2, "two clients share a connection");
    sym::check(a.1 != b.1 || (a.2 == b.2 && a.3 == b.3), "two requests share a response");
    sym::check(a.2 != b.2 || a.0 == b.0, "the same connection data have the same key");
    sym::reach(if a.1 == b.1 { "same" } else { "different" });
}
fn csort(x: J) -> J { match x { J::List(l) => J::List(l.into_iter().map(csort).collect()), J::Obj(mut o) => { o.sort_by(|a, b| a.0.cmp(&b.0)); J::Obj(o.into_iter().map(|(k, v)| (k, csort(v))).collect()) } x => x } }

// ---------------------------------------------------------------- requests to subgraphs
#[no_mangle]
pub extern "C" fn h_key_subgraph() {
    // never looked at by the fingerprint
    let client: &HttpClient = unsafe { &*std::ptr::NonNull::<HttpClient>::dangling().as_ptr() };
    let tel = telemetry();
    let what = sym::choice("varied", 3);
    let x = sym::u8("byte"); 
    let one = |w: &str| {
        let hs: Hs = if what == 0 { headers(w) } else { vec![("cookie", b"a".to_vec()), ("x-tenant", b"t".to_vec())] };
        let (m, uri) = if what == 1 { (opt(&format!("method {w}"), &["GET", "POST"]), opt(&format!("endpoint {w}"), &["http://a/graphql", "http://b/graphql", "http://a/", "http://a/graphql?x", "https://a/graphql", "http://a:81/graphql"])) } else { ("POST".into(), "http://a/graphql".into()) };
        let mut body = if what == 2 { opt(&format!("body {w}"), &["", "{}", "{\"query\":\"{a}\"}", "{\"query\":\"{a}\",\"variables\":{\"v\":1}}", "{\"query\":\"{b}\"}"]).into_bytes() } else { b"{\"query\":\"{a}\"}".to_vec() };
        if what == 2 && w == "1" && !body.is_empty() { let i = body.len() / 2; body[i] = x }
        let mut map = http::HeaderMap::new();
        for (n, v) in &hs { map.append(http::HeaderName::from_static(n), http::HeaderValue::from_bytes(v).unwrap()); }
        let u: http::Uri = uri.parse().unwrap();
        let o = SendRequestOpts { http_client: client, endpoint: &u, subgraph_name: "a", method: m.parse().unwrap(), body: body.clone(), headers: map, timeout: None, telemetry_context: &tel };
        (o.fingerprint(), m, uri, grouped(&hs, |_| true), body)
    };
    let (a, b) = (one("1"), one("2"));
    let same = a.0 == b.0;
    let equal = a.1 == b.1 && a.2 == b.2 && a.3 == b.3 && a.4.len() == b.4.len() && { let mut d = 0; for i in 0..a.4.len() { d |= a.4[i] ^ b.4[i] } d == 0 };
    sym::check(!same || equal, "two different requests to a subgraph share an answer");
    sym::check(!equal || same, "the same request has the same key");
    sym::reach(if same { "same" } else { "different" });
}

// ---------------------------------------------------------------- entity representations
fn items(s: &[Sel]) -> SelectionSet {
    SelectionSet { items: s.iter().filter_map(|x| match x {
        Sel::Field(f) => Some(SelectionItem::Field(FieldSelection { name: f.name.clone(), selections: items(&f.sel), alias: None, arguments: None, skip_if: None, include_if: None, omit_from_response: false })),
        Sel::Inline(t, _, s) => Some(SelectionItem::InlineFragment(InlineFragmentSelection { type_condition: t.clone().unwrap(), selections: items(s), skip_if: None, include_if: None })),
        _ => None,
    }).collect() }
}
/// the part of the entity that the selection asks for
fn part(x: &J, s: &[Sel]) -> J {
    if s.is_empty() { return csort(x.clone()) }
    match x {
        J::List(l) => J::List(l.iter().map(|x| part(x, s)).collect()),
        J::Obj(o) => { let t = x.get("__typename").and_then(|t| t.str()); let mut r: Vec<(String, J)> = vec![];
            for i in s { match i { Sel::Field(f) => if let Some(v) = o.iter().find(|(k, _)| *k == f.name) { r.push((f.name.clone(), part(&v.1, &f.sel))) }, Sel::Inline(c, _, s) => if t.is_none() || t == *c { if let J::Obj(p) = part(x, s) { r.extend(p) } }, _ => {} } }
            r.sort_by(|a, b| a.0.cmp(&b.0)); J::Obj(r) }
        x => x.clone(),
    }
}
/// entities that are sent once are the same as far as the fetch needs them
#[no_mangle]
pub extern "C" fn h_key_entity() {
    let req = opt("requires", &["... on X { __typename id }", "... on X { __typename id p }", "... on X { __typename n { a b } }", "... on X { __typename m { a } id }", "... on X { __typename id } ... on Y { __typename y }"]);
    let d = P::doc(&format!("{{ {req} }}")).unwrap(); let sels = &d.ops[0].sel;
    let set = items(sels);
    let scalar = ["1", "\"1\"", "null", "true", "false", "0", "1.0", "-1", "\"\"", "\"true\"", "[1]", "[[1]]", "[]", "{}", "{\"a\":1}", "[1,2]", "[[1],[2]]", "[[1,2]]", "4607182418800017408", "18446744073709551615", "[[1],2]", "{\"b\":1,\"a\":2}", "{\"a\":2,\"b\":1}", "\"é\""];
    let object = ["null", "{\"a\":1,\"b\":2}", "{\"a\":2,\"b\":1}", "{\"a\":1,\"b\":null}", "[{\"a\":1,\"b\":2}]", "[{\"a\":1,\"b\":2},{\"a\":2,\"b\":1}]", "[[{\"a\":1,\"b\":2}],[{\"a\":2,\"b\":1}]]", "[[{\"a\":1,\"b\":2},{\"a\":2,\"b\":1}]]", "[]", "[[]]", "[null]", "[null,{\"a\":1,\"b\":2}]", "[{\"a\":1,\"b\":2},null]"];
    let one = |w: &str| {
        let t = if req.contains("n {") || req.contains("m {") { format!("{{\"__typename\":\"X\",\"id\":{},\"{}\":{}}}", opt(&format!("id {w}"), &["1", "\"a\""]), if req.contains("n {") { "n" } else { "m" }, opt(&format!("object {w}"), &object)) }
            else if req.contains(" p ") { format!("{{\"__typename\":\"X\",\"id\":{},\"p\":{}}}", opt(&format!("id {w}"), &scalar[..9]), opt(&format!("p {w}"), &scalar[..9])) }
            else if req.contains(" Y ") { opt(&format!("entity {w}"), &["{\"__typename\":\"X\",\"id\":1,\"y\":2}", "{\"__typename\":\"X\",\"id\":1,\"y\":3}", "{\"__typename\":\"Y\",\"id\":1,\"y\":2}", "{\"__typename\":\"Y\",\"id\":2,\"y\":1}", "{\"__typename\":\"Y\",\"id\":1,\"y\":1}"]) }
            else { format!("{{\"__typename\":\"X\",\"x\":{},\"id\":{}}}", opt(&format!("other {w}"), &["1", "2"]), opt(&format!("id {w}"), &scalar)) };
        let v: sonic_rs::Value = sonic_rs::from_str(&t).unwrap();
        let h = { use sonic_rs::JsonValueTrait; Value::from(v.as_ref()).to_hash(&set.items, &PossibleTypes::default()) };
        (h, part(&JP::parse(t.as_bytes()).unwrap(), sels), t)
    };
    let (a, b) = (one("1"), one("2"));
    if a.0 == b.0 && a.1 != b.1 { sym::fail(&format!("two entities are fetched as one\n{}\n{}\n{req}", a.2, b.2)) }
    sym::check(a.1 != b.1 || a.0 == b.0, "the same representation has the same key");
    sym::reach(if a.0 == b.0 { "same" } else { "different" });
}

// ---------------------------------------------------------------- executions in flight
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) } fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, SeqCst) } }
/// Pending n times, waking itself
struct Later(u64);
impl Future for Later { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { return Poll::Ready(()) } self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } }
#[derive(Default)]
struct Log { clock: usize, started: Vec<(usize, u64)>, ended: Vec<(usize, usize)> }
/// in any order of steps, failures and cancellations: a request gets the result of an execution with its key that ended after the request began
#[no_mangle]
pub extern "C" fn h_inflight() {
    let (n, steps) = (sym::param("tasks", 3) as usize, sym::param("steps", 5));
    let map: InFlightMap<u64, (u64, usize)> = InFlightMap::default();
    let log = Rc::new(RefCell::new(Log::default()));
    let stream = sym::choice("stream", 2) == 1;
    type Out = Result<((u64, usize), InFlightRole, usize), usize>;
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = Out>>>>> = vec![]; let mut flags = vec![]; let mut keys = vec![];
    let guards = Rc::new(RefCell::new(vec![]));
    for i in 0..n {
        let key = if i == 0 { 0 } else { sym::choice(&format!("key {i}"), 2) };
        let fails = sym::choice(&format!("fails {i}"), 2) == 1; let delay = sym::choice(&format!("delay {i}"), 2);
        let (map, log, guards) = (map.clone(), log.clone(), guards.clone());
        keys.push(key); flags.push(Arc::new(Flag(AtomicBool::new(true))));
        tasks.push(Some(Box::pin(async move {
            let born = { let mut l = log.borrow_mut(); l.clock += 1; l.clock };
            let l2 = log.clone();
            let work = || async move {
                { let mut l = l2.borrow_mut(); l.clock += 1; l.started.push((i, key)); }
                Later(delay).await;
                let mut l = l2.borrow_mut(); l.clock += 1; let t = l.clock; l.ended.push((i, t));
                if fails { Err(i) } else { Ok((key, i)) }
            };
            let r = if stream { map.claim(key).get_or_try_init_with_guard(|g| { let f = work(); async move { let r = f.await; if r.is_ok() { guards.borrow_mut().push((key, i, g)) } r } }).await } else { map.claim(key).get_or_try_init(work).await };
            r.map(|(v, role)| (*v, role, born))
        })));
    }
    let mut results: Vec<Option<Out>> = (0..n).map(|_| None).collect();
    let mut closed: Vec<(usize, usize)> = vec![];
    let step = |i: usize, tasks: &mut Vec<Option<Pin<Box<dyn Future<Output = Out>>>>>, results: &mut Vec<Option<Out>>| {
        if let Some(t) = &mut tasks[i] {
            flags[i].0.store(false, SeqCst);
            let w = Waker::from(flags[i].clone());
            if let Poll::Ready(r) = t.as_mut().poll(&mut Context::from_waker(&w)) { results[i] = Some(r); tasks[i] = None }
        }
    };
    let mut cancelled = vec![false; n];
    for k in 0..steps {
        // poll a task that was woken, cancel one, or end a stream
        let mut acts: Vec<(u8, usize)> = (0..n).filter(|i| tasks[*i].is_some() && flags[*i].0.load(SeqCst)).map(|i| (0, i)).collect();
        if sym::param("cancel", 1) == 1 && cancelled.iter().all(|x| !x) { acts.extend((0..n).filter(|i| tasks[*i].is_some()).map(|i| (1, i))) }
        if !guards.borrow().is_empty() { acts.push((2, 0)) }
        if acts.is_empty() { break }
        let (what, i) = acts[sym::choice(&format!("step {k}"), acts.len() as u64) as usize];
        match what { 0 => step(i, &mut tasks, &mut results), 1 => { tasks[i] = None; cancelled[i] = true } _ => { let g = guards.borrow_mut().remove(0); let mut l = log.borrow_mut(); l.clock += 1; closed.push((g.1, l.clock)); drop(l); drop(g.2) } }
    }
    // run to the end
    for _ in 0..40 { for i in 0..n { if tasks[i].is_some() && flags[i].0.load(SeqCst) { step(i, &mut tasks, &mut results) } } }
    let l = log.borrow();
    for i in 0..n {
        if cancelled[i] { continue }
        match &results[i] {
            None => sym::fail("a request waits forever"),
            Some(Err(e)) => sym::check(*e == i, "only an own execution's failure is reported"),
            Some(Ok(((key, by), role, born))) => {
                sym::check(*key == keys[i], "the result belongs to another key");
                sym::check((*role == InFlightRole::Leader) == (*by == i), "who executed");
                if *by != i {
                    sym::reach("shared");
                    let end = if stream { closed.iter().find(|x| x.0 == *by).map(|x| x.1) } else { l.ended.iter().find(|x| x.0 == *by).map(|x| x.1) };
                    sym::check(end.map_or(stream, |t| t > *born), "a result from before the request began");
                } else { sym::reach("own"); }
            }
        }
        sym::check(l.started.iter().filter(|x| x.0 == i).count() <= 1, "a request executes at most once");
    }
    // without failures and cancellations, requests with one key that begin before the first execution ends share it
    if !stream && cancelled.iter().all(|x| !x) && results.iter().all(|r| matches!(r, Some(Ok(_)))) {
        for i in 0..n { for k in 0..n { if let (Some(Ok((a, _, ba))), Some(Ok((b, _, bb)))) = (&results[i], &results[k]) { if keys[i] == keys[k] {
            let e = |x: usize| l.ended.iter().find(|y| y.0 == x).unwrap().1;
            if *bb < e(a.1) && *ba < e(b.1) { sym::check(a.1 == b.1, "requests in flight at the same time share an execution"); }
        } } } }
    }
}
