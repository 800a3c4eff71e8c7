//! @authenticated and @requiresScopes: the pipeline step that enforces them, followed by planning and execution.
use crate::fed::*;
use crate::gql::*;
use crate::sym;
use crate::world::*;
use hive_router::config::authorization::UnauthorizedMode;
use hive_router::config::HiveRouterConfig;
use hive_router::executor::execution::client_request_details::JwtRequestDetails;
use hive_router::pipeline::authorization::{enforce_operation_authorization, metadata::AuthorizationMetadata};
use std::collections::BTreeMap;

const SDL: &str = crate::fixture!("auth");
const CASES: &[&str] = &[
    "{ ?me { id name } users { id ?name; nick ?level; ?note; ?email; city } version }",
    "{ ?first { id ?friends { id ?email; ?city; ?boss { id } } ?account { plain } ?boss { nick } nick } version }",
    "{ nodes { id ?label; ?... on User { ?name; label nick ?email; } ?... on Account { ?id; ?plain; ?balance; } __typename } }",
    "{ strict { __typename ?... on User { a: name ?b: email; ?c: city } ?... on Account { a: plain ?o: owner { nick ?e: email } } } version }",
    "{ search { ?... on Box { ?sku; ?size; weight ?owner { nick ?name; } } ?... on User { ?account { id balance } nick } ?... on Account { id ?label; } } }",
    "{ ?closed { __typename ... on User { nick } } ?account { ?id; ?balance; ?owner { nick account { plain } } } v: version }",
    "query($a: Boolean!, $b: Boolean!) { users { id @skip(if: $a) name @include(if: $b) ?... @include(if: $a) { email city } ?account @skip(if: $b) { plain } } ?me @include(if: $a) { nick } version }",
    "{ search { ?... on Node { ?label; id } ?... on User { ?friends { nick email } } ?... on Box { size sku } __typename } ?n: nodes { ... on Node { id } ?... on User { level } } }",
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Value, Null, Either }

struct Rules<'a> { s: &'a Schema, user: Option<Vec<String>>, frags: &'a BTreeMap<String, (String, Vec<Sel>)>, e: Eval<'a> }
impl<'a> Rules<'a> {
    fn dirs(&self, d: &[Dir]) -> bool {
        if let Some(x) = d.iter().find(|x| x.name == "requiresScopes") {
            let u = match &self.user { Some(u) => u, None => return false };
            return match x.arg("scopes") { Some(V::List(l)) => l.iter().any(|g| match g { V::List(g) => g.iter().all(|s| matches!(s, V::Str(s) if u.contains(s))), _ => false }), _ => false };
        }
        if d.iter().any(|x| x.name == "authenticated") { return self.user.is_some() }
        true
    }
    fn type_ok(&self, t: &str) -> bool { self.s.types.get(t).map_or(true, |t| self.dirs(&t.dirs)) }
    fn field_ok(&self, t: &str, f: &str) -> bool { match self.s.field(t, f) { None => true, Some(fd) => self.type_ok(t) && self.dirs(&fd.dirs) && self.type_ok(fd.ty.name()) } }
    /// fields selected for an object of type t: response key, nodes with the type they are written on, and whether every fragment around may be used
    fn collect<'b>(&self, t: &str, parent: &str, sels: &'b [Sel], ok: bool, out: &mut Vec<(String, Vec<(&'b Field, String, bool)>)>) where 'a: 'b {
        for s in sels { match s {
            Sel::Field(f) => if self.e.included(&f.dirs) { let k = f.key().to_string(); let x = (f, parent.to_string(), ok); match out.iter_mut().find(|y| y.0 == k) { Some(y) => y.1.push(x), None => out.push((k, vec![x])) } },
            Sel::Inline(c, d, ss) => if self.e.included(d) { let c = c.clone().unwrap_or(parent.to_string()); if self.e.matches(t, &c) { let y = ok && self.type_ok(&c); self.collect(t, &c, ss, y, out) } },
            Sel::Spread(..) => sym::fail("spread"),
        } }
    }
    /// every included selection, whatever the runtime type: is anything denied, and does a denied selection reach up through non-null fields only
    fn denied(&self, parent: &str, sels: &[Sel], any: &mut bool, maybe: &mut bool) -> bool {
        let mut up = false;
        for s in sels { match s {
            Sel::Field(f) => if self.e.included(&f.dirs) && f.name != "__typename" {
                let fd = self.s.field(parent, &f.name).unwrap();
                let mut bad = if self.field_ok(parent, &f.name) { self.denied(fd.ty.name(), &f.sel, any, maybe) } else { *any = true; true };
                // the router may check the member types instead of the abstract one
                if self.s.possible(parent).iter().any(|m| !self.field_ok(m, &f.name)) { *maybe = true; bad = true }
                if bad && !fd.ty.nullable() { up = true }
            },
            Sel::Inline(c, d, ss) => if self.e.included(d) { let c = c.clone().unwrap_or(parent.to_string());
                if c != parent && self.s.possible(&c).iter().any(|m| !self.type_ok(m) && self.s.possible(parent).contains(m)) { *maybe = true; up = true }
                if self.type_ok(&c) { up |= self.denied(&c, ss, any, maybe) } else { *any = true; up = true } },
            _ => {}
        } }
        up
    }
    fn object(&self, w: &mut World, o: &Obj, parent: &str, sels: &[(&[Sel], String, bool)], got: &J, path: &str) -> Result<(), String> {
        let mut fs = vec![]; for (ss, p, ok) in sels { self.collect(&o.0, p, ss, *ok, &mut fs) }
        let _ = parent;
        match got { J::Obj(g) => for (k, _) in g { if !fs.iter().any(|f| f.0 == *k) { return Err(format!("{path}.{k} was not asked for")) } }, _ => return Err(format!("{path}: {} is not an object", got.text())) }
        for (key, nodes) in &fs {
            let f = nodes[0].0; let p = format!("{path}.{key}");
            let g = match got.get(key) { Some(g) => g, None => { // a selection dropped as a whole because its fragment's type is denied
                if nodes.iter().any(|n| !n.2 || !self.field_ok(&n.1, &f.name) || !self.field_ok(&o.0, &f.name)) { continue } return Err(format!("{p} is missing")) } };
            if f.name == "__typename" { if *g != J::Str(o.0.clone().into_bytes()) { return Err(format!("{p}: {}", g.text())) } continue }
            let can = |n: &(&Field, String, bool)| n.2 && self.field_ok(&n.1, &f.name);
            let stat = (nodes.iter().any(|n| can(n)), nodes.iter().all(|n| can(n)));
            let run = self.field_ok(&o.0, &f.name);
            let (mut any, mut maybe) = (false, false); let fd = self.s.field(&o.0, &f.name).unwrap().ty.clone();
            let below = nodes.iter().any(|n| self.denied(fd.name(), &n.0.sel, &mut any, &mut maybe));
            let want = match (stat, run) { ((true, true), true) if !below => Want::Value, ((false, _), false) => Want::Null, ((false, _), true) if nodes.iter().all(|n| !n.2 || n.1 == o.0) => Want::Null, _ => Want::Either };
            if *g == J::Null { if want == Want::Value { let v = w.value(self.s, o, &f.name, ""); if !self.nullable_value(w, &v, &fd) { return Err(format!("{p} is null although it may be seen")) } } continue }
            if want == Want::Null { return Err(format!("{p} is {} although it may not be seen", g.text())) }
            let v = w.value(self.s, o, &f.name, "");
            let subs: Vec<(&[Sel], String, bool)> = nodes.iter().filter(|n| can(n) || want == Want::Either).map(|n| (&n.0.sel[..], fd.name().to_string(), n.2)).collect();
            self.val(w, &v, &subs, g, &p)?;
        }
        Ok(())
    }
    fn nullable_value(&self, _w: &World, v: &Val, _t: &Ty) -> bool { matches!(v, Val::Null) }
    fn val(&self, w: &mut World, v: &Val, subs: &[(&[Sel], String, bool)], g: &J, p: &str) -> Result<(), String> {
        match (v, g) {
            (Val::Null, J::Null) => Ok(()),
            (Val::Leaf(a), b) => { let mut ok = true; same(b, a, &mut ok)?; sym::check(ok, "leaf text differs"); Ok(()) }
            (Val::List(a), J::List(b)) if a.len() == b.len() => { for (x, y) in a.iter().zip(b) { if *y == J::Null { if matches!(x, Val::Null) { continue } let (mut any, mut maybe) = (false, false); if !subs.iter().any(|s| self.denied(&s.1, s.0, &mut any, &mut maybe)) { return Err(format!("{p}: item is null")) } continue } self.val(w, x, subs, y, p)? } Ok(()) }
            (Val::Obj(o), J::Obj(_)) => { let t = o.0.clone(); self.object(w, o, &t, subs, g, p) }
            (v, g) => Err(format!("{p}: {} where the data is {v:?}", g.text())),
        }
    }
}

#[no_mangle]
pub extern "C" fn h_auth() {
    let (lo, hi) = (sym::param("lo", 0), sym::param("hi", CASES.len() as u64 - 1));
    let f = Fed::new(SDL);
    let mut q = template(CASES[(lo + if hi > lo { sym::choice("case", hi - lo + 1) } else { 0 }) as usize]);
    if !sym::is_engine() { if let Ok(x) = std::env::var("FEDQ") { q = x } }
    let vars = vars_of(&q);
    let user = if sym::choice("authenticated", 2) == 1 { let m = sym::choice("scopes", 8); let mut v: Vec<String> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| format!("s{}", i + 1)).collect(); if sym::choice("other scope", 2) == 1 { v.insert(0, "s12".into()) } Some(v) } else { None };
    let reject = sym::choice("reject", 2) == 1;
    let auth = AuthorizationMetadata::build(&f.planner.supergraph, &f.metadata).ok().expect("authorization metadata");
    let jwt = match &user { None => JwtRequestDetails::Unauthenticated, Some(s) => JwtRequestDetails::Authenticated { token: "t".into(), prefix: None, claims: Default::default(), scopes: if s.is_empty() && sym::choice("no scope claim", 2) == 1 { None } else { Some(s.clone()) } } };
    let mut config = HiveRouterConfig::default();
    config.jwt.enabled = true;
    config.authorization.directives.enabled = true;
    config.authorization.directives.unauthorized.mode = if reject { UnauthorizedMode::Reject } else { UnauthorizedMode::Filter };
    let metadata = f.metadata.clone();
    *f.filter.lock().unwrap() = Some(Box::new(move |p, v| match enforce_operation_authorization(&config, p, &auth, &metadata, v, &jwt) {
        Ok((p, e)) => Ok((p, e.iter().map(|e| e.into()).collect())), Err(e) => Err(format!("rejected {}", e.graphql_error_code())) }));
    let doc = P::doc(&q).unwrap();
    let all: BTreeMap<String, J> = vars.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let e = Eval { s: &f.sh.s, graph: None, vars: &all, frags: &doc.frags, rep: None };
    let r = Rules { s: &f.sh.s, user: user.clone(), frags: &doc.frags, e };
    let _ = r.frags;
    let (mut any, mut maybe) = (false, false); r.denied(&f.sh.s.query, &doc.ops[0].sel, &mut any, &mut maybe);
    let res = f.run(&q, &vars, Default::default(), 0);
    let (body, n) = match res {
        Err(e) => { if !reject || !(any || maybe) || e != "rejected UNAUTHORIZED_OPERATION" { sym::fail(&format!("{e} for {user:?}: {q}")) } if !f.sh.w.lock().unwrap().calls.is_empty() { sym::fail("a rejected request reached a subgraph") } sym::reach("rejected"); return }
        Ok(x) => x };
    let bad = |e: String| -> ! { sym::fail(&format!("{e}\n for {user:?} {vars:?} {q}\n got {}", body.text())) };
    if reject && any { bad("not rejected".into()) }
    sym::out("response", body.text().as_bytes());
    let errs: Vec<J> = match body.get("errors") { Some(J::List(l)) => l.clone(), _ => vec![] };
    if errs.len() != n { bad("error count".into()) }
    if any && errs.is_empty() || !any && !maybe && !errs.is_empty() { bad(format!("denied {any}, but {} errors", errs.len())) }
    for e in &errs { if e.get("extensions").and_then(|x| x.get("code")).and_then(|c| c.str()).as_deref() != Some("UNAUTHORIZED_FIELD_OR_TYPE") { bad("unexpected error".into()) } }
    let mut unused = vec![]; off(&r.e, &doc.ops[0].sel, true, &mut unused);
    let calls = f.sh.w.lock().unwrap().calls.clone();
    for (_, c) in &calls { let d = P::doc(c).unwrap(); asks(&r, &f.sh.s, &d.ops[0].sel, None, &all, &mut |t, n| if !unused.contains(&n.to_string()) { bad(format!("a subgraph is asked for {t}.{n}: {c}")) }); }
    let data = body.get("data").cloned().unwrap_or(J::Null);
    let root = f.sh.s.query.clone();
    let mut w = f.sh.w.lock().unwrap();
    if data == J::Null { let (mut x, mut y) = (false, false); if !r.denied(&root, &doc.ops[0].sel, &mut x, &mut y) { drop(w); bad("no data".into()) } }
    else if let Err(e) = r.object(&mut w, &(root.clone(), 0), &root, &[(&doc.ops[0].sel[..], root.clone(), true)], &data, "") { drop(w); bad(e) }
    if any { sym::reach("filtered") } else { sym::reach("allowed") }
}
/// fields (other than keys) that a subgraph request selects although the user may not see them on any route
fn asks(r: &Rules, s: &Schema, sels: &[Sel], parent: Option<&str>, vars: &BTreeMap<String, J>, f: &mut dyn FnMut(&str, &str)) {
    for x in sels { match x {
        Sel::Field(y) => {
            if y.name == "__typename" { continue }
            if y.name == "_entities" { asks(r, s, &y.sel, None, vars, f); continue }
            let p = parent.unwrap_or(&s.query);
            if y.name != "id" && y.name != "sku" && !r.field_ok(p, &y.name) && r.e.included(&y.dirs) { f(p, &y.name) }
            if let Some(fd) = s.field(p, &y.name) { let t = fd.ty.name().to_string(); asks(r, s, &y.sel, Some(&t), vars, f) }
        }
        Sel::Inline(c, d, ss) => if r.e.included(d) { let c = c.clone().or(parent.map(|p| p.to_string())); asks(r, s, ss, c.as_deref(), vars, f) },
        _ => {}
    } }
}
/// names of fields that are not included where they stand (they may be fetched, nobody sees them)
fn off(e: &Eval, sels: &[Sel], on: bool, out: &mut Vec<String>) { for s in sels { match s { Sel::Field(f) => { let on = on && e.included(&f.dirs); if !on { out.push(f.name.clone()) } off(e, &f.sel, on, out) } Sel::Inline(_, d, ss) => { let on = on && e.included(d); off(e, ss, on, out) } _ => {} } } }
