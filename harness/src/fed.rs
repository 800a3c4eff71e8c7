//! The whole pipeline from operation text to response bytes (parse, normalise, project, plan, execute, merge, project)
//! against subgraphs that answer from a symbolic data graph; oracle: direct evaluation on the same graph.
use crate::gql::*;
use crate::sym;
use crate::world::*;
use hive_router::async_trait;
use hive_router::config::traffic_shaping::{ClientTLSConfig, SupergraphTrafficShapingConfig, TrafficShapingConfig};
use hive_router::config::subscriptions::SupergraphSubscriptionsConfig;
use hive_router::executor::execution::client_request_details::{ClientRequestDetails, JwtRequestDetails, OperationDetails};
use hive_router::executor::execution::plan::{execute_query_plan, CoerceVariablesPayload, QueryPlanExecutionOpts, QueryPlanExecutionResult};
use hive_router::executor::executors::common::{SubgraphExecutionRequest, SubgraphExecutor};
use hive_router::executor::executors::error::SubgraphExecutorError;
use hive_router::executor::introspection::{partition::partition_operation, resolve::IntrospectionContext, schema::SchemaWithMetadata};
use hive_router::executor::plugin_context::PluginRequestState;
use hive_router::executor::projection::plan::FieldProjectionPlan;
use hive_router::executor::response::subgraph_response::SubgraphResponse;
use hive_router::executor::variables::collect_variables;
use hive_router::executor::SubgraphExecutorMap;
use hive_router::http::{Method, StatusCode, Uri};
use hive_router::executor::response::graphql_error::GraphQLError;
use hive_router::pipeline::normalize::{hash_normalized_operation, GraphQLNormalizationPayload, OperationIdentity};
use hive_router::query_planner::ast::normalization::normalize_operation;
use hive_router::query_planner::graph::PlannerOverrideContext;
use hive_router::query_planner::planner::Planner;
use hive_router::query_planner::state::supergraph_state::OperationKind;
use hive_router::query_planner::utils::{cancellation::CancellationToken, parsing::{parse_operation, parse_schema}};
use hive_router::telemetry::{traces::spans::graphql::GraphQLOperationSpan, TelemetryContext};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..200 { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
    sym::fail("the future never completes")
}
/// Pending n times
struct Delay(u64);
impl Future for Delay { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } } }

pub struct Shared { pub s: Schema, pub w: Mutex<World> }
struct Fake { graph: String, uri: Uri, sh: Arc<Shared> }
#[async_trait]
impl SubgraphExecutor for Fake {
    fn executor_name(&self) -> &str { "fake" }
    fn endpoint(&self) -> &Uri { &self.uri }
    async fn execute<'a>(&self, r: SubgraphExecutionRequest<'a>, _t: Option<Duration>, _p: Option<&'a PluginRequestState<'a>>) -> Result<SubgraphResponse<'static>, SubgraphExecutorError> {
        let delay = { let mut w = self.sh.w.lock().unwrap(); if w.take("delays") { sym::choice("delay", 2) } else { 0 } };
        Delay(delay).await;
        let paths = r.custom_scalar_paths;
        let vars = request_vars(&r);
        let (status, body) = answer(&self.sh, &self.graph, r.query, vars)?;
        let mut o = vec![]; body.write(&mut o);
        let mut res = SubgraphResponse::deserialize_from_bytes(bytes::Bytes::from(o), paths)?;
        res.status = status;
        Ok(res)
    }
    async fn subscribe<'a>(&self, _r: SubgraphExecutionRequest<'a>, _t: Option<Duration>) -> Result<futures::stream::BoxStream<'static, Result<SubgraphResponse<'static>, SubgraphExecutorError>>, SubgraphExecutorError> { Err(SubgraphExecutorError::StaticEndpointNotFound) }
}
pub fn request_vars(r: &SubgraphExecutionRequest<'_>) -> BTreeMap<String, J> {
    let mut vars = BTreeMap::new();
    if let Some(v) = &r.variables { for (k, v) in v { vars.insert(k.to_string(), JP::parse(hive_router::sonic_rs::to_string(v).unwrap().as_bytes()).expect("variable json")); } }
    if let Some(v) = &r.raw_variable_values { for (k, v) in v { match JP::parse(v) { Some(j) => { vars.insert(k.to_string(), j); } None => sym::fail(&format!("variable {k} sent to the subgraph is not valid JSON: {}", String::from_utf8_lossy(v))) } } }
    vars
}
/// the subgraph's answer: HTTP status and response object
fn answer(sh: &Shared, graph: &str, query: &str, vars: BTreeMap<String, J>) -> Result<(Option<StatusCode>, J), SubgraphExecutorError> {
    let mut w = sh.w.lock().unwrap();
    w.calls.push((graph.to_string(), query.to_string()));
    if !sym::is_engine() && std::env::var("SHOW").is_ok() { eprintln!("call {graph} {query} {:?}", vars.iter().map(|(k, v)| (k.clone(), v.text())).collect::<Vec<_>>()) }
    let doc = match P::doc(query) { Some(d) => d, None => sym::fail(&format!("the subgraph operation is not valid GraphQL: {query}")) };
    if doc.ops.len() != 1 { sym::fail("one operation expected") }
    let op = &doc.ops[0];
    let mut all = vars.clone();
    for (n, t, d) in &op.vars { if !all.contains_key(n) { if let Some(d) = d { let j = Eval { s: &sh.s, graph: None, vars: &vars, frags: &doc.frags, rep: None }.val(d); all.insert(n.clone(), j); } else if !t.nullable() { sym::fail(&format!("variable ${n} of the subgraph operation has no value: {query}")) } } }
    for n in vars.keys() { if !op.vars.iter().any(|v| v.0 == *n) { sym::fail(&format!("variable ${n} is sent but not declared: {query}")) } }
    check_vars(&op.sel, &doc, op, query);
    let e = Eval { s: &sh.s, graph: Some(graph), vars: &all, frags: &doc.frags, rep: None };
    // 0: no fault, 1: no response, 2: errors and no data, 3: the last entity or field is null, with an error that has a path, 4: errors without a path beside full data
    let fault = if w.budget["faults"] > 0 { let c = sym::choice("fault", 5); if c > 0 { w.take("faults"); } c } else { 0 };
    let msg = format!("fault{}", w.faults.len());
    let mut fl = Fault { msg: msg.clone(), graph: sh.s.graphs[graph].clone(), obj: None, key: None, kind: fault, leaves: vec![] };
    leaves(&op.sel, &mut fl.leaves);
    let root = if op.kind == "mutation" { sh.s.mutation.clone() } else { sh.s.query.clone() };
    let mut ents = vec![]; let mut rest = vec![];
    for s in &op.sel { match s { Sel::Field(f) if f.name == "_entities" => ents.push(f.clone()), x => rest.push(x.clone()) } }
    let mut data = vec![]; let mut errors = vec![];
    let err = |path: Option<Vec<J>>| { let mut e = vec![("message".to_string(), J::Str(msg.clone().into_bytes()))]; if let Some(p) = path { e.push(("path".into(), J::List(p))) } J::Obj(e) };
    let before = w.reps;
    w.touch.clear();
    let mut lost: Vec<(Obj, String)> = vec![]; let mut good: Vec<(Obj, String)> = vec![];
    let included: Vec<&Field> = ents.iter().filter(|f| f.dirs.iter().all(|d| match d.name.as_str() { "skip" => e.val(d.arg("if").unwrap()) != J::Bool(true), "include" => e.val(d.arg("if").unwrap()) == J::Bool(true), _ => true })).collect();
    let mut faulted = false;
    for f in &included {
        let mut v = e.entities(&mut w, f);
        if fault == 3 && !faulted { let i = v.len(); if let Some(l) = v.last_mut() { faulted = true; l.0 = J::Null; lost.append(&mut l.2); fl.obj = Some(l.1.clone()); errors.push(err(Some(vec![J::Str(f.key().as_bytes().to_vec()), J::Num((i - 1).to_string().into_bytes())]))) } }
        for x in &mut v { good.append(&mut x.2) }
        data.push((f.key().to_string(), J::List(v.into_iter().map(|x| x.0).collect())));
    }
    if !ents.is_empty() && w.reps == before { sym::fail(&format!("an entity call without representations: {query}")) }
    w.touch.clear();
    if !rest.is_empty() { if let Ok(J::Obj(v)) = e.set(&mut w, &(root.clone(), 0), &rest, &[]) { data.extend(v) } good.append(&mut w.touch); }
    if fault == 3 && !faulted { if let Some((k, v)) = data.last_mut() { if k != "__typename" {
        *v = J::Null; fl.key = Some(k.clone());
        let f = rest.iter().filter_map(|s| match s { Sel::Field(f) if f.key() == k => Some(f.clone()), _ => None }).next();
        // everything below the field is lost
        if let Some(f) = f { w.touch.clear(); let _ = e.set(&mut w, &(root.clone(), 0), &[Sel::Field(f)], &[]); lost.append(&mut w.touch); good.retain(|x| !lost.contains(x)); }
        errors.push(err(Some(vec![J::Str(k.as_bytes().to_vec())]))) } else { fl.kind = 0 } } }
    if fault == 1 || fault == 2 { lost.append(&mut good) }
    if fault == 4 { errors.push(err(None)) }
    w.failed.extend(lost); w.served.extend(good);
    if fl.kind != 0 { w.faults.push(fl) }
    if fault == 1 { return Err(SubgraphExecutorError::EndpointExpressionResolutionFailure(msg)) }
    if fault == 2 { return Ok((Some(StatusCode::INTERNAL_SERVER_ERROR), J::Obj(vec![("data".into(), J::Null), ("errors".into(), J::List(vec![err(None)]))]))) }
    let mut o = vec![("data".to_string(), J::Obj(data))];
    if !errors.is_empty() { o.push(("errors".into(), J::List(errors))) }
    Ok((None, J::Obj(o)))
}
fn check_vars(sels: &[Sel], doc: &Doc, op: &Op, q: &str) {
    fn v(x: &V, op: &Op, q: &str) { match x { V::Var(n) => if !op.vars.iter().any(|y| y.0 == *n) { sym::fail(&format!("undeclared variable ${n}: {q}")) }, V::List(l) => for x in l { v(x, op, q) }, V::Obj(l) => for (_, x) in l { v(x, op, q) }, _ => {} } }
    let dirs = |d: &[Dir]| for d in d { for (_, x) in &d.args { v(x, op, q) } };
    for s in sels { match s { Sel::Field(f) => { dirs(&f.dirs); for (_, x) in &f.args { v(x, op, q) } check_vars(&f.sel, doc, op, q) } Sel::Inline(_, d, s) => { dirs(d); check_vars(s, doc, op, q) } Sel::Spread(n, d) => { dirs(d); match doc.frags.get(n) { Some((_, s)) => check_vars(s, doc, op, q), None => sym::fail(&format!("unknown fragment: {q}")) } } } }
}

pub struct Fed { pub sdl: &'static str, pub planner: Planner, pub sh: Arc<Shared>, pub map: Arc<SubgraphExecutorMap>, pub metadata: Arc<hive_router::executor::introspection::schema::SchemaMetadata>, pub filter: Mutex<Option<Filter>> }
/// a pipeline step between normalisation and planning: the operation to run, or the errors of a rejected request
pub type Filter = Box<dyn Fn(&Arc<GraphQLNormalizationPayload>, &CoerceVariablesPayload) -> Result<(Arc<GraphQLNormalizationPayload>, Vec<GraphQLError>), String>>;
pub fn telemetry() -> Arc<TelemetryContext> { Arc::new(TelemetryContext::from_propagation_config(&Default::default(), &Default::default())) }
pub fn executor_map() -> SubgraphExecutorMap {
    let ts = TrafficShapingConfig::default();
    let mut all = ts.all.clone();
    all.tls = Some(ClientTLSConfig { cert_file: None, client_auth: None, insecure_skip_ca_verification: true });
    SubgraphExecutorMap::from_http_endpoint_map(&HashMap::new(), SupergraphTrafficShapingConfig { all, subgraphs: Default::default(), max_connections_per_host: 8 }, Default::default(), SupergraphSubscriptionsConfig { callback_subgraphs: Default::default(), websocket: None, subgraph_buffer_capacity: 8 }, None, telemetry(), Default::default()).expect("executor map")
}
impl Fed {
    pub fn new(sdl: &'static str) -> &'static Fed {
        let s = Schema::new(sdl);
        let planner = Planner::new_from_supergraph(&parse_schema(sdl), Default::default()).expect("planner");
        let metadata = Arc::new(planner.consumer_schema.schema_metadata());
        let map = executor_map();
        let sh = Arc::new(Shared { s, w: Mutex::new(World::new()) });
        for (g, name) in &sh.s.graphs { map.verif_set_executor(name, Fake { graph: g.clone(), uri: Uri::from_static("http://subgraph/graphql"), sh: sh.clone() }.to_boxed_arc()); }
        Box::leak(Box::new(Fed { sdl, planner, sh, map: Arc::new(map), metadata, filter: Mutex::new(None) }))
    }
    /// runs one operation through the router code; the response body and the number of errors
    pub fn run(&self, text: &str, vars: &[(&str, J)], flags: HashSet<String>, percentage: u64) -> Result<(J, usize), String> {
        let doc = parse_operation(text);
        let n = normalize_operation(&self.planner.supergraph, &doc, None).map_err(|e| e.to_string())?;
        let operation = n.operation;
        let kind = operation.operation_kind.clone().unwrap_or(OperationKind::Query);
        let mut m: HashMap<String, hive_router::sonic_rs::Value> = vars.iter().map(|(k, v)| (k.to_string(), hive_router::sonic_rs::from_str(&v.text()).unwrap())).collect();
        let variables = Arc::new(CoerceVariablesPayload { variables_map: collect_variables(&operation, &mut m, &self.metadata).map_err(|e| format!("variables: {e}"))? });
        let (root, proj) = FieldProjectionPlan::from_operation(&operation, &self.metadata);
        let root = root.to_string();
        let mut part = partition_operation(operation);
        let mut proj = Arc::new(proj); let mut initial_errors = vec![];
        if let Some(filter) = &*self.filter.lock().unwrap() {
            let op = Arc::new(part.downstream_operation);
            let h = hash_normalized_operation(&op, part.introspection_operation.as_ref());
            let p = Arc::new(GraphQLNormalizationPayload { operation_for_plan: op, operation_for_plan_hash: h.operation_for_plan_hash, operation_for_introspection: part.introspection_operation.take().map(Arc::new), operation_for_introspection_hash: h.operation_for_introspection_hash, normalized_operation_hash: h.combined_operation_hash,
                root_type_name: root.clone(), operation_kind: kind.clone(), projection_plan: proj.clone(), operation_identity: OperationIdentity { name: None, operation_type: kind.clone(), client_document_hash: String::new() } });
            let (p, e) = filter(&p, &variables)?;
            initial_errors = e; proj = p.projection_plan.clone();
            part.downstream_operation = (*p.operation_for_plan).clone(); part.introspection_operation = p.operation_for_introspection.as_ref().map(|x| (**x).clone());
        }
        let plan = if part.downstream_operation.selection_set.is_empty() { hive_router::query_planner::planner::plan_nodes::QueryPlan { kind: hive_router::query_planner::planner::query_plan::QUERY_PLAN_KIND, node: None } }
            else { self.planner.plan_from_normalized_operation(&part.downstream_operation, PlannerOverrideContext::new(flags, percentage), &CancellationToken::new()).map_err(|e| format!("planner: {e}"))? };
        if !sym::is_engine() && std::env::var("SHOW").is_ok() { eprintln!("{text}\n{}", plan); }
        let url = Uri::from_static("/graphql"); let method = Method::POST;
        let opts = QueryPlanExecutionOpts {
            query_plan: &plan, operation_for_plan: Arc::new(part.downstream_operation), projection_plan: proj, headers_plan: Default::default(), extensions_plan: Default::default(), variable_values: variables.clone(), extensions: Default::default(),
            client_request: Arc::new(ClientRequestDetails { method: &method, url: &url, headers: Arc::new(hive_router::ntex::http::HeaderMap::new()), operation: OperationDetails { name: None, query: text, kind: "query" }, jwt: Arc::new(JwtRequestDetails::Unauthenticated), path_params: Default::default() }),
            introspection_context: Arc::new(IntrospectionContext { query: part.introspection_operation.map(Arc::new), schema: self.planner.consumer_schema.document.clone(), metadata: self.metadata.clone(), variables }),
            operation_type_name: root, operation_kind: kind, executors: self.map.clone(), jwt_auth_forwarding: None, graphql_error_recorder: None, demand_control_context: None, initial_errors, span: GraphQLOperationSpan::new(), plugin_req_state: None, operation_name_factory: Default::default(), response_header_sink: Default::default(), error_masking_runtime: Arc::new(None), connection_fingerprint: None,
        };
        match block_on(execute_query_plan(opts)).map_err(|e| format!("execution: {e}"))? {
            QueryPlanExecutionResult::Single(o) => match JP::parse(&o.body) { Some(j) => Ok((j, o.error_count)), None => sym::fail(&format!("the response is not valid JSON: {}", String::from_utf8_lossy(&o.body))) },
            _ => Err("stream".into()),
        }
    }
    pub fn reference(&self, text: &str, vars: &[(&str, J)]) -> J {
        let doc = P::doc(text).expect("client operation");
        let op = &doc.ops[0];
        let mut m: BTreeMap<String, J> = vars.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        for (n, _, d) in &op.vars { if !m.contains_key(n) { if let Some(d) = d { let j = Eval { s: &self.sh.s, graph: None, vars: &m, frags: &doc.frags, rep: None }.val(d); m.insert(n.clone(), j); } } }
        let e = Eval { s: &self.sh.s, graph: None, vars: &m, frags: &doc.frags, rep: None };
        let root = if op.kind == "mutation" { self.sh.s.mutation.clone() } else { self.sh.s.query.clone() };
        let mut w = self.sh.w.lock().unwrap();
        w.vars = m.clone();
        w.path.clear(); w.pos.clear();
        e.set(&mut w, &(root, 0), &op.sel, &[]).unwrap_or(J::Null)
    }
    /// the response equals the direct evaluation
    pub fn check_equal(&self, text: &str, vars: &[(&str, J)], flags: HashSet<String>, percentage: u64) {
        let (body, n) = match self.run(text, vars, flags, percentage) { Ok(x) => x, Err(e) => sym::fail(&format!("{e}: {text}")) };
        let want = self.reference(text, vars);
        sym::out("response", body.text().as_bytes());
        if n != 0 || body.get("errors").is_some() { sym::fail(&format!("errors in the response although no subgraph failed: {} for {text}", body.text())) }
        let data = body.get("data").cloned().unwrap_or(J::Null);
        let mut ok = true;
        if let Err(e) = same(&data, &want, &mut ok) { sym::fail(&format!("response differs from the direct evaluation: {e}\n got {}\nwant {}\n for {text}", data.text(), want.text())) }
        if !sym::is_engine() && !ok { eprintln!("want {}\ncalls {:#?}", want.text(), self.sh.w.lock().unwrap().calls) }
        sym::check(ok, "response text differs from the direct evaluation");
        if !text.contains("...") && !text.contains('@') && !same_order(&data, &want) { sym::fail(&format!("member order: got {} want {} for {text}", data.text(), want.text())) }
        sym::reach("equal");
    }
}
impl Fed {
    /// subgraphs may fail: what was served is returned, the rest is null, each failure is reported where it belongs
    pub fn check_faults(&self, text: &str, vars: &[(&str, J)]) {
        let (body, n) = match self.run(text, vars, Default::default(), 0) { Ok(x) => x, Err(e) => sym::fail(&format!("{e}: {text}")) };
        sym::out("response", body.text().as_bytes());
        let full = self.reference(text, vars);
        let pos = self.sh.w.lock().unwrap().pos.clone();
        self.sh.w.lock().unwrap().lossy = true;
        let want = self.reference(text, vars);
        let w = self.sh.w.lock().unwrap();
        let data = body.get("data").cloned().unwrap_or(J::Null);
        let mut ok = true;
        let shared = pos.iter().enumerate().any(|(i, (p, o))| pos[..i].iter().any(|(q, r)| o == r && p != q)) || w.served.iter().any(|x| w.failed.contains(x));
        let bad = |e: String| -> ! { sym::fail(&format!("{e}\n got {}\nwant {}\nfull {}\nfaults {:?}\n for {text}", body.text(), want.text(), full.text(), w.faults)) };
        if let Err(e) = same(&data, &want, &mut ok) { if !shared { bad(format!("data differs from what was served: {e}")) } ok = true; if let Err(e) = weaker(&data, &full, &mut ok) { bad(format!("data that no subgraph holds: {e}")) } }
        sym::check(ok, "text differs from the direct evaluation");
        let errs: Vec<J> = match body.get("errors") { Some(J::List(l)) => l.clone(), None => vec![], _ => bad("errors is not a list".into()) };
        if errs.len() != n { bad("error count".into()) }
        if w.faults.is_empty() && !errs.is_empty() { bad("errors although nothing failed".into()) }
        let mut seen = 0;
        for f in &w.faults {
            let mine: Vec<&J> = errs.iter().filter(|e| e.get("message").and_then(|m| m.str()).map_or(false, |m| m.contains(&f.msg))).collect();
            if f.kind == 2 {
                let h = errs.iter().filter(|e| e.get("extensions").map_or(false, |x| x.get("service").and_then(|s| s.str()) == Some(f.graph.clone()) && x.get("code").and_then(|s| s.str()).as_deref() == Some("SUBREQUEST_HTTP_ERROR") && x.get("http").and_then(|h| h.get("status")) == Some(&J::Num(b"500".to_vec())))).count();
                if h != w.faults.iter().filter(|g| g.kind == 2 && g.graph == f.graph).count() { bad("the HTTP status of a failed request is not reported once".into()) }
                seen += 1;
            }
            if mine.is_empty() { bad(format!("failure {f:?} is not reported")) }
            seen += mine.len();
            for e in &mine {
                if e.get("extensions").and_then(|x| x.get("serviceName").or_else(|| x.get("service"))).and_then(|x| x.str()) != Some(f.graph.clone()) { bad(format!("error of {f:?} does not name its subgraph: {}", e.text())) }
                match (&f.obj, &f.key, e.get("path")) {
                    (Some(o), _, Some(J::List(p))) => { // a place that only the router asked for is not in the client's operation
                        let internal = p.iter().any(|x| matches!(x, J::Str(s) if !text.contains(std::str::from_utf8(s).unwrap()))) || (!stands(&full, p) && (mine.iter().any(|e| matches!(e.get("path"), Some(J::List(q)) if stands(&full, q))) || !f.leaves.iter().any(|l| l != "__typename" && l != "id" && text.contains(l.as_str()))));
                        if !internal && !pos.iter().any(|(q, r)| q == p && r == o) { bad(format!("error path {} is not where {o:?} stands", e.text())) } }
                    (Some(_), _, _) => bad(format!("entity error without a path: {}", e.text())),
                    (_, Some(k), Some(J::List(p))) => { if !p.iter().any(|x| matches!(x, J::Str(s) if s == k.as_bytes())) { bad(format!("error path of {f:?}: {}", e.text())) } }
                    (_, Some(_), None) => bad(format!("error without a path: {}", e.text())),
                    _ => {}
                }
            }
            if mine.iter().enumerate().any(|(i, e)| mine[..i].contains(e)) { bad(format!("failure {f:?} is reported twice in the same place")) }
        }
        if seen != errs.len() { bad("errors that no subgraph reported".into()) }
        if !w.faults.is_empty() { sym::reach("failed") }
        sym::reach("equal");
    }
}
fn leaves(sels: &[Sel], out: &mut Vec<String>) { for s in sels { match s { Sel::Field(f) => if f.sel.is_empty() { out.push(f.name.clone()) } else { leaves(&f.sel, out) }, Sel::Inline(_, _, ss) => leaves(ss, out), _ => {} } } }
/// there is a place with this path
fn stands(v: &J, p: &[J]) -> bool { match (p.first(), v) { (None, _) => true, (Some(J::Str(k)), J::Obj(_)) => v.get(std::str::from_utf8(k).unwrap()).map_or(false, |x| stands(x, &p[1..])), (Some(J::Num(n)), J::List(l)) => l.get(std::str::from_utf8(n).unwrap().parse::<usize>().unwrap()).map_or(false, |x| stands(x, &p[1..])), _ => false } }
/// a equals b, except that parts may be null
fn weaker(a: &J, b: &J, ok: &mut bool) -> Result<(), String> {
    match (a, b) {
        (J::Null, _) => Ok(()),
        (J::List(x), J::List(y)) if x.len() == y.len() => { for (p, q) in x.iter().zip(y) { weaker(p, q, ok)? } Ok(()) }
        (J::Obj(x), J::Obj(y)) if x.len() == y.len() => { for (k, p) in x { match b.get(k) { Some(q) => weaker(p, q, ok)?, None => return Err(format!("{} / {}", a.text(), b.text())) } } Ok(()) }
        _ => same(a, b, ok),
    }
}
/// `?` in front of a selection or directive makes it optional: a symbolic choice keeps or drops it (up to the matching brace)
pub fn template(t: &str) -> String {
    let b = t.as_bytes(); let mut o = String::new(); let mut i = 0; let mut n = 0;
    while i < b.len() {
        if b[i] == b'?' {
            i += 1;
            let keep = sym::choice(&format!("keep{n}"), 2) == 1; n += 1;
            if !keep {
                // skip one selection: name, arguments, directives, selection set
                let mut depth = 0;
                while i < b.len() {
                    match b[i] { b'{' | b'(' => depth += 1, b'}' | b')' => { if depth == 0 { break } depth -= 1; if depth == 0 && b[i] == b'}' { i += 1; break } } b';' if depth == 0 => { i += 1; break } _ => {} }
                    i += 1;
                }
                continue;
            }
        } else if b[i] == b'}' && o.trim_end().ends_with('{') { o.push_str("__typename }"); i += 1 }
        else if b[i] == b';' { o.push(' '); i += 1 } else { o.push(b[i] as char); i += 1 }
    }
    o
}

#[macro_export] macro_rules! fixture { ($n:literal) => { include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/fixtures/", $n, ".supergraph.graphql")) } }

/// supergraph and operation template; `$x` variables are Boolean! unless declared otherwise
pub const CASES: &[(&str, &str)] = &[
    // 0..14: keys and requirements
    (fixture!("simple-requires"), "{ products { ?name; ?shippingEstimate; ?inStock; ?price; ?shippingEstimateTag; upc } }"),
    (fixture!("simple_requires_with_child"), "{ products { ?name; ?shippingEstimate { price } ?inStock; ?weight; upc } }"),
    (fixture!("requires_requires"), "{ product { ?isExpensive; ?hasDiscount; ?canAffordWithDiscount; ?canAfford2; ?isExpensiveWithDiscount; ?fieldInD; id } }"),
    (fixture!("requires-circular"), "{ feed { ?byNovice; ?byExpert; ?author { ?name; ?yearsOfExperience; id } id } }"),
    (fixture!("arguments-requires"), "{ feed { ?author { id name } a: comments(limit: 3) { ?body; ?somethingElse; id } ?b: comments(limit: 1) { date } id } }"),
    (fixture!("audit-requires-arguments"), "{ ?products { ?price(currency: \"EUR\"); ?shippingEstimate; ?name; upc } ?feed { ?author { name } ?comments(limit: 2) { body } id } __typename }"),
    (fixture!("deep-requires"), "{ feed { ?author { id name } ?comments(limit: 2) { body date } id } }"),
    (fixture!("requires-with-argument-conflict"), "{ products { ?shippingEstimate; ?shippingEstimateEUR; ?isExpensiveCategory; ?price(currency: \"PLN\"); ?category { averagePrice(currency: \"X\") } upc } }"),
    (fixture!("requires-with-fragments"), "{ ?userFromA { ?permissions; ?basicPermissions; ?profile { displayName ... on Account { accountType } } id } ?userFromB { permissions profile { __typename ... on GuestAccount { guestToken } } } __typename }"),
    (fixture!("simple-requires-args"), "{ test { ?fieldWithRequiresAndArgs; ?anotherWithRequiresAndArgs; ?fieldWithSameRequiresAndArgs; ?otherField(arg: 7); ?name; id } }"),
    (fixture!("requires-local-sibling"), "{ products { ?price; ?isExpensive; ?isAvailable; upc } }"),
    (fixture!("requires-provides"), "{ ?me { ?reviews { body product { name shippingEstimate } } username } ?products { inStock shippingEstimate ?reviews { author { username name } } upc } __typename }"),
    (fixture!("override_requires"), "{ ?userInA { ?name; ?aName; ?cName; id } ?userInB { aName cName id } ?userInC { cName aName name id } __typename }"),
    (fixture!("two-same-service-calls"), "{ products { ?isExpensive; ?reducedPrice; ?price(withDiscount: true); upc } }"),
    (fixture!("two_fields_same_subgraph_same_requirement"), "{ products { ?shippingEstimate; ?shippingEstimate2; ?inStock; ?name; upc } }"),
    // 15..27: entity calls, shared roots, nested lists
    (fixture!("complex-entity-call"), "{ topProducts { ?products { id ?price { price } ?category { id tag mainProduct { id } } } ?first { id price { price } } ?selected { id category { tag } } __typename } }"),
    (fixture!("parent-entity-call"), "{ products { ?category { ?details { products } ?name; id } id } }"),
    (fixture!("parent-entity-call-complex"), "{ productFromD(id: \"Product0.id\") { ?category { ?details; ?name; id } ?name; id } }"),
    (fixture!("keys-mashup"), "{ b { id a { ?name; ?nameInB; id ?pId; ?compositeId { one two three } } } }"),
    (fixture!("nested-provides"), "{ products { id categories { ?name; ?subCategories { id name } id } } }"),
    (fixture!("simple-provides"), "{ ?products { upc ?name; ?reviews { id body author { ?username; ?name; id } } } ?me { id username name } __typename }"),
    (fixture!("shared-root"), "{ ?product { ?id; ?category { id name } ?name { id brand model } ?price { id amount currency } __typename } ?products { id name { model } price { amount } } __typename }"),
    (fixture!("testing"), "{ products { ?id; ?uuid; ?name; ?isAvailable; ?price { amount currency } __typename } }"),
    (fixture!("root-reentry"), "{ ?system { ?user(id: \"1\") { id name } ?healthCheck; __typename } ?inner { toQuery { ?healthCheck; ?user(id: \"2\") { name } __typename } } __typename }"),
    (fixture!("simplest-requires"), "query($a: Boolean!, $b: Boolean!) { products { upc ?price @include(if: $a); ?isExpensive @skip(if: $b); } }"),
    (fixture!("nested-key-requires-reentry"), "{ productSearchResult(partialCriteria: \"x\") { bestOffer { price } __typename } }"),
    (fixture!("renamed-root-types"), "{ ?product(id: \"a\") { id name isExpensive } products { id ?price; ?isAvailable; ?isExpensive; } }"),
    (fixture!("mutations"), "{ ?product(id: \"a\") { id name isExpensive } products { id ?price; ?isAvailable; ?isExpensive; } }"),
    // 28..41: interfaces and unions
    (fixture!("abstract-types"), "{ products { id ?sku; ?dimensions { size weight } ?createdBy { email name totalProductsCreated } ... on Book { ?title; ?publisherType { __typename ... on Agency { id companyName } ... on Self { email } } } ... on Magazine { ?t: title; } } }"),
    (fixture!("abstract-types"), "{ ?similar(id: \"p\") { id sku reviewsCount } ?magazines { reviewsScore delivery(zip: \"z\") { estimatedDelivery fastestDelivery } } ?books { reviewsOfSimilar { body } similar { id title } } __typename }"),
    (fixture!("abstract-types"), "{ review(id: 3) { id ?body; ?product { __typename id ?sku; ?reviews { id product { id } } ... on Book { title } } } }"),
    (fixture!("child-type-mismatch"), "{ ?users { id ?name; ?similarAccounts { __typename ... on User { id name } ... on Admin { aid: id aname: name } } } ?accounts { ... on User { id ?name; } ... on Admin { adminId: id ?n: name; ?similarAccounts { ... on User { name } } } __typename } __typename }"),
    (fixture!("circular-reference-interface"), "{ product { ?samePriceProduct { ... on Book { id ?price; ?samePriceProduct { id } } __typename } ... on Book { ?price; id } __typename } }"),
    (fixture!("interface-object-with-requires"), "{ ?users { id ?name; ?username; __typename } ?anotherUsers { id ?username; ?name; ... on User { age } __typename } __typename }"),
    (fixture!("simple-interface-object"), "{ ?users { id ?name; ?username; __typename } ?anotherUsers { id ?username; ... on User { age name } } ?accounts { id ?name; ?isActive; ... on Admin { isMain isActive name } } __typename }"),
    (fixture!("mismatch-mix-enum-scalar"), "{ getTypes { id ?identifier; ... on TypeA { ?f1: field; ?s1: isScalar; } ... on TypeB { ?f2: field; s2: isScalar } ... on TypeC { f3: field } ?metadata { value unit } __typename } }"),
    (fixture!("mismatch-mix"), "{ i { id ... on TypeA { ?a: strField; ?strField2; } ... on TypeB { ?b: strField; c: strField2 } } }"),
    (fixture!("nested-fragments"), "{ results { id ... on Tshirt { ?name; ... on SingleColor { ?colorOption { id color price } } ... on MultipleColor { ?colorOptions { color id } } } ?__typename } }"),
    (fixture!("partial-union"), "{ getResponse { ?message; actions { __typename ... on Alpha { id ?value; } ... on Beta { ?id; name ?details; } ... on Gamma { label } } } }"),
    (fixture!("partial-union-complex"), "{ ?rootA { id wrapper { actions { ... on Common { label } ... on OnlyA { a } __typename } } } ?rootB { id ?bWrapper { actions { ... on OnlyB { b } ... on Common { label } __typename } } ?wrapper { actions { __typename } } } ?shared { id } __typename }"),
    (fixture!("provides-on-interface"), "{ ?media { id animals { id ?name; ... on Cat { ?age; } __typename } } ?book { animals { name ... on Dog { age } } } __typename }"),
    (fixture!("provides-on-union"), "{ media { ... on Book { id ?title; } ... on Movie { ?id; ?t: title; } __typename } }"),
    (fixture!("union-intersection"), "{ ?media { __typename ... on Book { title } } ?aMedia { ... on Book { title aTitle } ... on Song { aTitle } __typename } ?viewer { ?media { ... on Book { bTitle } __typename } ?song { ... on Song { title } } __typename } ?bMedia { ... on Movie { id bTitle } } __typename }"),
    (fixture!("union-list"), "{ orders { ... on OrdersPageConnections { ?pageInfo { page } items { id items { ... on DigitalBook { product { id ?name; ?slug; } } ... on PaperBook { product { id ?slug; } } __typename } } } ... on Error { message } __typename } }"),
    (fixture!("union-overfetching"), "{ review { ... on AnonymousReview { product { ?b; ?c; } } ... on UserReview { product { ?c; ?d; } } __typename } }"),
    (fixture!("corrupted-supergraph-node-id"), "{ ?chat(id: \"a\") { id account { username id } text } ?account(id: \"q\") { chats { id text } } __typename }"),
    (fixture!("override-type-interface"), "{ ?feed { id createdAt ... on TextPost { body } ... on ImagePost { c: createdAt } } ?anotherFeed { id createdAt } __typename }"),
    // 47..59: conditions
    (fixture!("simple-include-skip"), "query($a: Boolean!, $b: Boolean! = true) { product { id ?include @include(if: $a); ?skip @skip(if: $a); ?neverCalledInclude @include(if: $b); ?neverCalledSkip @skip(if: $b) @include(if: $a); } }"),
    (fixture!("simple-include-skip"), "query($a: Boolean!, $b: Boolean!) { product { ?... @include(if: $a) { price ?isExpensive; } ?...F @skip(if: $b); __typename } } fragment F on Product { name isCheap @include(if: $a) include }"),
    (fixture!("simple-include-skip"), "query($a: Boolean!, $b: Boolean! = false) { product { price @include(if: $a) ?price @skip(if: $a); ?n: name @include(if: $b); ?... on Product @skip(if: $b) { isExpensive } ?isExpensive @include(if: $a); ?include @include(if: $b) @skip(if: $a); } }"),
    (fixture!("requires-provides"), "query($a: Boolean!, $b: Boolean!) { ?products @include(if: $a) { upc ?shippingEstimate @skip(if: $b); ?weight @include(if: $b); ?reviews @include(if: $b) { body author { username ?name @skip(if: $a); } } } ?me @skip(if: $a) { username reviews @include(if: $b) { body product { name } } } __typename }"),
    (fixture!("requires-provides"), "query($a: Boolean!, $b: Boolean!) { products { upc ?... @skip(if: $a) { inStock name } ?... @include(if: $b) { shippingEstimate ?reviews { id product @skip(if: $a) { inStock } } } ?... @include(if: true) { weight } ?price @skip(if: true); } }"),
    (fixture!("nested-fragments"), "query($a: Boolean!, $b: Boolean! = true) { results { id ?... on Tshirt @include(if: $a) { name ... on SingleColor @skip(if: $b) { colorOption { id } } } ?... on SingleColor @skip(if: $b) { colorOption { id color @include(if: $a) } } ?... on MultipleColor { colorOptions @include(if: $b) { price @skip(if: $a) color } } __typename @skip(if: $a) } }"),
    (fixture!("abstract-types"), "query($a: Boolean!, $b: Boolean!) { products { id ?dimensions @include(if: $a) { size weight @skip(if: $b) } ?... on Book @skip(if: $a) { title ?reviewsCount @include(if: $b); } ?... on Magazine @include(if: $b) { t: title reviewsScore @skip(if: $a) } ?createdBy @skip(if: $b) { email ?name @include(if: $a); } } }"),
    (fixture!("union-intersection"), "query($a: Boolean!, $b: Boolean!) { ?media @include(if: $a) { __typename ... on Book { title @skip(if: $b) } } ?aMedia { ... on Book @include(if: $b) { title aTitle } ... on Song { aTitle @skip(if: $a) } __typename } ?viewer @skip(if: $a) { media @include(if: $b) { ... on Book { bTitle } __typename } ?song { ... on Song { title } } } __typename }"),
    (fixture!("shared-root"), "query($a: Boolean!, $b: Boolean!) { ?product @include(if: $a) { id category @skip(if: $b) { id name } ?name { id brand @include(if: $b) } } ?product @skip(if: $a) { price { id amount @include(if: $b) } id } __typename }"),
    (fixture!("testing"), "query($a: Boolean!, $b: Boolean!) { products { ?id @include(if: $a); ?uuid @skip(if: $a); ?name @include(if: $b); ?isAvailable @skip(if: $b); ?price @include(if: $a) { amount currency @skip(if: $b) } __typename } }"),
    (fixture!("complex-entity-call"), "query($a: Boolean!, $b: Boolean!) { topProducts { ?products @include(if: $a) { id price @skip(if: $b) { price } category { id tag @include(if: $b) } } ?first @skip(if: $a) { id ?price @include(if: $b) { price } } ?selected { id category @include(if: $a) { tag ?mainProduct @skip(if: $b) { id } } } __typename } }"),
    (fixture!("requires_requires"), "query($a: Boolean!, $b: Boolean!) { product { ?isExpensive @include(if: $a); ?canAfford2 @skip(if: $a); ?isExpensiveWithDiscount @include(if: $b); ?fieldInD @skip(if: $b); id } }"),
    (fixture!("nested-provides"), "query($a: Boolean!, $b: Boolean! = true) { products { id ?categories @include(if: $a) { name @skip(if: $b) id } ?... @skip(if: $a) { categories { subCategories @include(if: $b) { id name } id } } } }"),
    // 60..62: mutations
    (fixture!("mutations"), "mutation { ?a: multiply(by: 2); ?b: delete; ?c: multiply(by: 3); ?d: add(num: 1); ?e: delete; ?f: multiply(by: 2); __typename }"),
    (fixture!("mutations"), "mutation { ?d: add(num: 1); ?f: addProduct(input: { name: \"n\", price: 1.5 }) { id ?isExpensive; ?isAvailable; ?name; } ?b: delete; ?g: addProduct(input: { name: \"m\", price: 2.5 }) { price isAvailable } ?c: add(num: 2); }"),
    (fixture!("renamed-root-types"), "mutation($a: Boolean!, $b: Boolean! = false) { ?f: addProduct(input: { name: \"n\", price: 1.5 }) @include(if: $a) { id ?isExpensive @skip(if: $b); } ?b: delete @skip(if: $b); ?g: addProduct(input: { name: \"m\", price: 2.5 }) { isAvailable @include(if: $a) id } ?h: delete @include(if: $a); }"),
    // 63..67: overrides
    (fixture!("overrides"), "{ feed { id ?createdAt; ?title; ?body; ?score; author { id ?name; ?age; } } __typename }"),
    (fixture!("overrides"), "{ ?post(id: \"p\") { ?body; ?score; ?words; ?author { name age } } ?bFeed { id ?createdAt; author { name } } __typename }"),
    (fixture!("simple-progressive-overrides"), "{ ?feed { id ?createdAt; } ?aFeed { createdAt } ?bFeed { ?createdAt; id } __typename }"),
    (fixture!("simple_overrides"), "{ ?feed { id ?createdAt; } ?aFeed { createdAt } ?bFeed { ?createdAt; id } __typename }"),
    (fixture!("override_requires"), "{ ?userInA { ?name; ?aName; ?cName; id } ?userInB { aName cName id } ?userInC { cName aName name id } __typename }"),
];
const PERCENTS: &[(&str, u64)] = &[("percent(75)", 7_500_000_000), ("percent(33.33333333)", 3_333_333_333), ("percent(5)", 500_000_000)];
const FLAGS: &[&str] = &["flag_t", "flag_n", "feed_in_b"];
/// Boolean variables: given, or (with a default) left out
pub fn vars_of(q: &str) -> Vec<(&'static str, J)> {
    let mut v = vec![];
    for (n, k) in [("$a: ", "a"), ("$b: ", "b")] { if let Some(i) = q.find(n) { let d = q[i + n.len()..].starts_with("Boolean! ="); let c = sym::choice(k, if d { 3 } else { 2 }); if c < 2 { v.push((k, J::Bool(c == 1))) } } }
    v
}
/// one of the cases lo..=hi
#[no_mangle]
pub extern "C" fn h_fed() {
    let (lo, hi) = (sym::param("lo", 0), sym::param("hi", 0));
    let (sdl, q) = CASES[(lo + if hi > lo { sym::choice("case", hi - lo + 1) } else { 0 }) as usize];
    let f = Fed::new(sdl);
    let mut q = template(q);
    if !sym::is_engine() { if let Ok(x) = std::env::var("FEDQ") { q = x } }
    if sdl == CASES[7].0 && q.contains("isExpensiveCategory") && q.contains("averagePrice(currency: \"X\")") { f.sh.w.lock().unwrap().known = Some(("nested-requires-args", "requirement: representation has")) }
    let (mut flags, mut p) = (HashSet::new(), 0);
    if sdl.contains("overrideLabel: \"") {
        p = sym::u64("percentage"); sym::assume(p < 10_000_000_000);
        for (l, t) in PERCENTS { if sdl.contains(l) { f.sh.w.lock().unwrap().labels.insert(l.to_string(), sym::choice("in range", 2) == 1); let on = f.sh.w.lock().unwrap().labels[*l]; sym::assume((p < *t) == on); } }
        for l in FLAGS { if sdl.contains(l) { let on = sym::choice("flag", 2) == 1; f.sh.w.lock().unwrap().labels.insert(l.to_string(), on); if on { flags.insert(l.to_string()); } } }
        if sym::choice("other flag", 2) == 1 { flags.insert("percent(75)".into()); flags.insert("none".into()); }
    }
    let vars = vars_of(&q);
    if sdl == CASES[57].0 && q.contains("products @include(if: $a)") && vars == vec![("a", J::Bool(false)), ("b", J::Bool(false))] { f.sh.w.lock().unwrap().known = Some(("outer-condition-dropped", "representation matches no entity by a resolvable key")) }
    if sdl == CASES[48].0 && q.contains("...F @skip(if: $b)") && vars == vec![("a", J::Bool(true)), ("b", J::Bool(true))] { f.sh.w.lock().unwrap().known = Some(("key-under-other-condition", "representation matches no entity by a resolvable key")) }
    f.check_equal(&q, &vars, flags, p);
    if q.starts_with("mutation") {
        let order: Vec<String> = f.sh.w.lock().unwrap().rootlog.iter().map(|x| x.1.clone()).collect();
        let doc = P::doc(&q).unwrap();
        let vars: BTreeMap<String, J> = f.sh.w.lock().unwrap().vars.clone();
        let e = Eval { s: &f.sh.s, graph: None, vars: &vars, frags: &doc.frags, rep: None };
        let want = e.root_order(&doc.ops[0].sel);
        if order != want { sym::fail(&format!("mutation fields ran as {order:?} instead of {want:?}: {q}")) }
        sym::reach("mutation");
    }
}

/// the same cases with failing subgraphs
#[no_mangle]
pub extern "C" fn h_fed_faults() {
    let (lo, hi) = (sym::param("lo", 0), sym::param("hi", 0));
    let (sdl, q) = CASES[(lo + if hi > lo { sym::choice("case", hi - lo + 1) } else { 0 }) as usize];
    let f = Fed::new(sdl);
    let mut q = template(q);
    if !sym::is_engine() { if let Ok(x) = std::env::var("FEDQ") { q = x } }
    if q.contains("isExpensiveCategory") { sym::assume(false) }
    f.check_faults(&q, &vars_of(&q));
}
