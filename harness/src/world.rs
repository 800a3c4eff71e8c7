//! Oracle for federated execution: a symbolic data graph shared by all subgraphs, subgraphs that answer from it,
//! and a direct (monolithic) evaluation of the client's operation against it.
use crate::gql::*;
use crate::sym;
use std::collections::{BTreeMap, BTreeSet};

pub struct Schema { pub types: BTreeMap<String, TDef>, pub graphs: BTreeMap<String, String>, pub query: String, pub mutation: String, pub pinned: BTreeSet<(String, String)> }
pub type Obj = (String, usize);
#[derive(Clone, Debug)]
pub enum Val { Null, Leaf(J), Obj(Obj), List(Vec<Val>) }

impl Schema {
    pub fn new(sdl: &str) -> Schema {
        let mut s = Schema { types: BTreeMap::new(), graphs: BTreeMap::new(), query: "Query".into(), mutation: "Mutation".into(), pinned: BTreeSet::new() };
        for t in P::sdl(sdl).expect("sdl") {
            if t.name == "schema" { for f in &t.fields { if f.name == "query" { s.query = f.ty.name().into() } if f.name == "mutation" { s.mutation = f.ty.name().into() } } continue }
            if t.name == "join__Graph" { for (v, d) in &t.values { s.graphs.insert(v.clone(), d.iter().find(|d| d.name == "join__graph").and_then(|d| d.sarg("name")).unwrap()); } }
            s.types.insert(t.name.clone(), t);
        }
        // everything that appears in a key or a requirement is concrete (it is hashed by the router)
        let mut sets = vec![];
        for t in s.types.values() {
            for d in &t.dirs { if d.name == "join__type" { if let Some(k) = d.sarg("key") { sets.push((t.name.clone(), k)) } } }
            for f in &t.fields { for d in &f.dirs { if d.name == "join__field" { if let Some(k) = d.sarg("requires") { sets.push((t.name.clone(), k)) } } } }
        }
        for (t, k) in sets { let sels = P::field_set(&k).expect("field set"); s.pin(&t, &sels); }
        s
    }
    fn pin(&mut self, t: &str, sels: &[Sel]) {
        for x in sels { match x {
            Sel::Field(f) => { let mut names = self.possible(t); names.push(t.to_string()); let mut sub = None;
                for n in names { if let Some(fd) = self.types.get(&n).and_then(|td| td.fields.iter().find(|x| x.name == f.name)) { sub = Some(fd.ty.name().to_string()); self.pinned.insert((n, f.name.clone())); } }
                if let Some(st) = sub { self.pin(&st, &f.sel) } }
            Sel::Inline(c, _, ss) => { let c = c.clone().unwrap_or(t.to_string()); self.pin(&c, ss) }
            _ => {}
        } }
    }
    /// concrete types of a composite type
    pub fn possible(&self, t: &str) -> Vec<String> {
        match self.types.get(t).map(|x| x.kind) {
            Some(Kind::Object) => vec![t.to_string()],
            Some(Kind::Union) => self.types[t].members.clone(),
            Some(Kind::Interface) => self.types.values().filter(|x| x.kind == Kind::Object && x.members.iter().any(|m| m == t)).map(|x| x.name.clone()).collect(),
            _ => vec![],
        }
    }
    pub fn is_composite(&self, t: &str) -> bool { matches!(self.types.get(t).map(|x| x.kind), Some(Kind::Object | Kind::Union | Kind::Interface)) }
    pub fn field(&self, t: &str, f: &str) -> Option<&FDef> { self.types.get(t)?.fields.iter().find(|x| x.name == f) }
    pub fn in_graph(&self, t: &str, g: &str) -> bool { self.types.get(t).map_or(false, |t| t.dirs.iter().any(|d| d.name == "join__type" && d.sarg("graph").as_deref() == Some(g))) }
    pub fn interface_object(&self, t: &str, g: &str) -> bool { self.types.get(t).map_or(false, |t| t.dirs.iter().any(|d| d.name == "join__type" && d.sarg("graph").as_deref() == Some(g) && d.barg("isInterfaceObject") == Some(true))) }
    pub fn keys(&self, t: &str, g: &str) -> Vec<(String, bool)> { self.types.get(t).map_or(vec![], |t| t.dirs.iter().filter(|d| d.name == "join__type" && d.sarg("graph").as_deref() == Some(g)).filter_map(|d| d.sarg("key").map(|k| (k, d.barg("resolvable") != Some(false)))).collect()) }
    /// the type under which graph g knows objects of concrete type t (itself, or an interface object)
    pub fn view(&self, t: &str, g: &str) -> Option<String> {
        if self.in_graph(t, g) { return Some(t.to_string()) }
        self.types.get(t)?.members.iter().find(|i| self.interface_object(i, g)).cloned()
    }
    fn joins<'a>(&'a self, t: &str, f: &str) -> Vec<&'a Dir> { self.field(t, f).map_or(vec![], |f| f.dirs.iter().filter(|d| d.name == "join__field").collect()) }
    /// may graph g be asked for t.f, given what it provides at this place
    pub fn resolvable(&self, t: &str, f: &str, g: &str, provided: &[Sel], active: &dyn Fn(&str) -> bool) -> Result<(), &'static str> {
        if !self.in_graph(t, g) { return Err("type is not part of this subgraph") }
        if self.field(t, f).is_none() { return Err("unknown field") }
        if has_field(provided, f) { return Ok(()) }
        let js = self.joins(t, f);
        if js.is_empty() { return Ok(()) }
        let in_key = self.keys(t, g).iter().any(|(k, _)| has_field(&P::field_set(k).unwrap(), f));
        let mine = match js.iter().find(|d| d.sarg("graph").as_deref() == Some(g)) { Some(d) => d, None => return Err("field is not part of this subgraph") };
        if mine.barg("external") == Some(true) { return if in_key { Ok(()) } else { Err("field is external here") } }
        if let Some(_) = mine.sarg("override") { if let Some(l) = mine.sarg("overrideLabel") { if !active(&l) { return Err("override label is not active") } } }
        for d in &js { if d.sarg("override").as_deref() == Some(&self.graphs[g]) { match d.sarg("overrideLabel") { None => if !in_key { return Err("field is overridden by another subgraph") }, Some(l) => if active(&l) && !in_key { return Err("field is overridden by another subgraph (label active)") } } } }
        Ok(())
    }
    pub fn requires(&self, t: &str, f: &str, g: &str) -> Option<Vec<Sel>> { self.joins(t, f).into_iter().find(|d| d.sarg("graph").as_deref() == Some(g)).and_then(|d| d.sarg("requires")).map(|r| P::field_set(&r).unwrap()) }
    pub fn provides(&self, t: &str, f: &str, g: &str) -> Vec<Sel> { self.joins(t, f).into_iter().find(|d| d.sarg("graph").as_deref() == Some(g)).and_then(|d| d.sarg("provides")).map_or(vec![], |r| P::field_set(&r).unwrap()) }
}
fn has_field(s: &[Sel], f: &str) -> bool { s.iter().any(|x| match x { Sel::Field(x) => x.name == f, Sel::Inline(_, _, v) => has_field(v, f), _ => false }) }
fn sub_sets(s: &[Sel], f: &str) -> Vec<Sel> { let mut o = vec![]; for x in s { match x { Sel::Field(x) if x.name == f => o.extend(x.sel.iter().cloned()), Sel::Inline(_, _, v) => o.extend(sub_sets(v, f)), _ => {} } } o }

pub struct World { pub k: usize, pub memo: BTreeMap<(Obj, String), Val>, pub budget: BTreeMap<&'static str, u64>, pub n: u64, pub rot: usize, pub rootlog: Vec<(String, String)>, pub calls: Vec<(String, String)>, pub labels: BTreeMap<String, bool>, pub reps: u64, pub known: Option<(&'static str, &'static str)>,
    /// fields evaluated for a subgraph's answer; those that reached the router; those of failed answers
    pub touch: Vec<(Obj, String)>, pub served: BTreeSet<(Obj, String)>, pub failed: BTreeSet<(Obj, String)>,
    /// direct evaluation: fields that were never served are null; where objects stand in the response
    pub lossy: bool, pub path: Vec<J>, pub pos: Vec<(Vec<J>, Obj)>, pub faults: Vec<Fault>, pub vars: BTreeMap<String, J> }
/// a failed answer: message, subgraph, the objects it concerns (entity errors), response key (root errors), kind
#[derive(Clone, Debug)]
pub struct Fault { pub msg: String, pub graph: String, pub obj: Option<Obj>, pub key: Option<String>, pub kind: u64, pub leaves: Vec<String> }
impl World {
    pub fn new() -> World {
        let mut budget = BTreeMap::new();
        for (k, d) in [("nulls", 2), ("lens", 1), ("members", 2), ("refs", 1), ("nullreq", 1), ("syms", 6), ("faults", 0), ("delays", 2)] { budget.insert(k, sym::param(k, d)); }
        World { k: sym::param("k", 2) as usize, memo: BTreeMap::new(), budget, n: 0, rot: 0, rootlog: vec![], calls: vec![], labels: BTreeMap::new(), reps: 0, known: None, touch: vec![], served: BTreeSet::new(), failed: BTreeSet::new(), lossy: false, path: vec![], pos: vec![], faults: vec![], vars: BTreeMap::new() }
    }
    pub fn take(&mut self, kind: &'static str) -> bool { let b = self.budget.get_mut(kind).unwrap(); if *b > 0 { *b -= 1; true } else { false } }
    fn leaf(&mut self, s: &Schema, o: &Obj, f: &str, t: &str, args: &str) -> J {
        self.n += 1;
        let pinned = s.pinned.contains(&(o.0.clone(), f.to_string())) || t == "ID";
        match t {
            "Int" => J::Num(format!("{}", 1000 + self.n).into_bytes()),
            "Float" => J::Num(format!("{}.5", 2000 + self.n).into_bytes()),
            "Boolean" => J::Bool(if self.take("members") { sym::choice("bool", 2) == 1 } else { self.n % 2 == 0 }),
            _ if s.types.get(t).map(|t| t.kind) == Some(Kind::Enum) => J::Str({ let v: Vec<String> = s.types[t].values.iter().filter(|(_, d)| !d.iter().any(|d| d.name == "inaccessible")).map(|v| v.0.clone()).collect(); let i = if self.take("members") { sym::choice("enum", v.len() as u64) as usize } else { self.n as usize % v.len() }; v[i].clone().into_bytes() }),
            _ if t != "String" && t != "ID" => J::Obj(vec![("raw".into(), J::Num(format!("{}", self.n).into_bytes())), ("a".into(), J::List(vec![J::Null, J::Bool(true)]))]),
            _ if pinned => J::Str(format!("{}{}.{}{}", o.0, o.1, f, args.bytes().filter(|c| c.is_ascii_alphanumeric()).map(|c| c as char).collect::<String>()).into_bytes()),
            _ => { let mut v = format!("{}_", self.n).into_bytes(); if self.take("syms") { let b = sym::bytes("text", 1)[0]; sym::assume(b >= 0x20 && b < 0x7f && b != b'"' && b != b'\\'); v.push(b) } J::Str(v) }
        }
    }
    fn make(&mut self, s: &Schema, o: &Obj, f: &str, ty: &Ty, args: &str, nonnull: bool) -> Val {
        if let Ty::NonNull(t) = ty { return self.make(s, o, f, t, args, true) }
        let pinned = s.pinned.contains(&(o.0.clone(), f.to_string()));
        let in_key = pinned && s.types[&o.0].dirs.iter().any(|d| d.name == "join__type" && d.sarg("key").map_or(false, |k| has_field(&P::field_set(&k).unwrap(), f)));
        if !nonnull && !in_key && self.take(if pinned { "nullreq" } else { "nulls" }) && sym::choice("null", 2) == 1 { return Val::Null }
        match ty {
            Ty::List(t) => {
                if in_key { return Val::List((0..2).map(|i| match self.make(s, o, f, t, args, true) { Val::Obj((t, _)) => Val::Obj((t, (i + o.1) % self.k)), v => v }).collect()) }
                let n = if self.take("lens") { sym::choice("len", 3) } else { 2 };
                Val::List((0..n).map(|i| { let v = self.make(s, o, f, t, args, false); match (v, i) { (Val::Obj((t, _)), i) if !self.budget_ref() => Val::Obj((t, i as usize % self.k)), (v, _) => v } }).collect())
            }
            _ => {
                let t = ty.name();
                if !s.is_composite(t) { return Val::Leaf(self.leaf(s, o, f, t, args)) }
                let mut p = s.possible(t);
                // members that every subgraph resolving the field knows
                for d in s.joins(&o.0, f) { if d.barg("external") != Some(true) { if let Some(g) = d.sarg("graph") {
                    p.retain(|m| s.in_graph(m, &g) || s.view(m, &g).is_some());
                    if s.types[t].kind == Kind::Union { p.retain(|m| s.types[t].dirs.iter().any(|d| d.name == "join__unionMember" && d.sarg("graph").as_deref() == Some(&g) && d.sarg("member").as_deref() == Some(m))); }
                    if s.types[t].kind == Kind::Interface && !s.interface_object(t, &g) { p.retain(|m| s.types[m].dirs.iter().any(|d| d.name == "join__implements" && d.sarg("graph").as_deref() == Some(&g) && d.sarg("interface").as_deref() == Some(t))); }
                } } }
                if s.joins(&o.0, f).is_empty() { for g in s.graphs.keys() { if s.in_graph(&o.0, g) { p.retain(|m| s.view(m, g).is_some()); if s.types[t].kind == Kind::Union { p.retain(|m| s.types[t].dirs.iter().any(|d| d.name == "join__unionMember" && d.sarg("graph").as_deref() == Some(g) && d.sarg("member").as_deref() == Some(m))); } } } }
                if p.is_empty() { return Val::Null }
                let m = if p.len() > 1 { if self.take("members") { sym::choice("member", p.len() as u64) as usize } else { self.rot += 1; self.rot % p.len() } } else { 0 };
                let i = if in_key { o.1 } else if self.take("refs") { sym::choice("ref", self.k as u64) as usize } else { (o.1 + f.len()) % self.k };
                Val::Obj((p[m].clone(), i))
            }
        }
    }
    fn budget_ref(&self) -> bool { self.budget["refs"] > 0 }
    pub fn value(&mut self, s: &Schema, o: &Obj, f: &str, args: &str) -> Val {
        let key = (o.clone(), format!("{f}({args})"));
        if let Some(v) = self.memo.get(&key) { return v.clone() }
        let ty = s.field(&o.0, f).unwrap().ty.clone();
        let v = self.make(s, o, f, &ty, args, false);
        self.memo.insert(key, v.clone());
        v
    }
}

pub struct Eval<'a> { pub s: &'a Schema, pub graph: Option<&'a str>, pub vars: &'a BTreeMap<String, J>, pub frags: &'a BTreeMap<String, (String, Vec<Sel>)>, pub rep: Option<&'a J> }
impl<'a> Eval<'a> {
    fn fail(&self, w: &World, what: &str) -> ! {
        // a listed finding: this operation, this kind of failure
        if let Some((id, text)) = w.known { if what.contains(text) { sym::reach(&format!("KNOWN {id}")); sym::assume(false); } }
        sym::fail(&format!("{what}; graph {:?}; calls {:?}", self.graph, w.calls))
    }
    pub fn val(&self, v: &V) -> J {
        match v { V::Var(n) => self.vars.get(n).cloned().unwrap_or(J::Null), V::Num(n) => J::Num(n.clone().into_bytes()), V::Str(s) | V::Enum(s) => J::Str(s.clone().into_bytes()), V::Bool(b) => J::Bool(*b), V::Null => J::Null,
            V::List(l) => J::List(l.iter().map(|x| self.val(x)).collect()), V::Obj(o) => J::Obj(o.iter().map(|(k, x)| (k.clone(), self.val(x))).collect()) }
    }
    pub fn included(&self, d: &[Dir]) -> bool { d.iter().all(|d| match d.name.as_str() { "skip" => self.val(d.arg("if").unwrap()) != J::Bool(true), "include" => self.val(d.arg("if").unwrap()) == J::Bool(true), _ => true }) }
    fn collect(&self, t: &str, sels: &[Sel], out: &mut Vec<(String, Vec<Field>)>) {
        for x in sels { match x {
            Sel::Field(f) => if self.included(&f.dirs) { match out.iter_mut().find(|(k, _)| k == f.key()) { Some((_, v)) => v.push(f.clone()), None => out.push((f.key().to_string(), vec![f.clone()])) } },
            Sel::Inline(c, d, ss) => if self.included(d) && c.as_deref().map_or(true, |c| self.matches(t, c)) { self.collect(t, ss, out) },
            Sel::Spread(n, d) => if self.included(d) { match self.frags.get(n) { Some((c, ss)) => if self.matches(t, c) { self.collect(t, ss, out) }, None => sym::fail("unknown fragment") } },
        } }
    }
    pub fn matches(&self, t: &str, c: &str) -> bool { t == c || self.s.possible(c).iter().any(|x| x == t) || self.graph.map_or(false, |g| self.s.view(t, g).as_deref() == Some(c)) }
    fn args(&self, t: &str, f: &Field) -> String {
        let mut v: Vec<(String, J)> = f.args.iter().filter(|(_, v)| !matches!(v, V::Var(n) if !self.vars.contains_key(n))).map(|(k, v)| (k.clone(), self.val(v))).collect();
        for (n, _, d) in self.s.field(t, &f.name).map_or(&vec![], |f| &f.args) { if let Some(d) = d { if !v.iter().any(|(k, _)| k == n) { v.push((n.clone(), self.val(d))) } } }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v.into_iter().map(|(k, v)| format!("{k}:{}", v.text())).collect::<Vec<_>>().join(",")
    }
    /// the root mutation fields in the order in which they must run
    pub fn root_order(&self, sels: &[Sel]) -> Vec<String> { let mut o = vec![]; self.collect(&self.s.mutation, sels, &mut o); o.into_iter().filter(|(_, f)| f[0].name != "__typename").map(|(_, f)| format!("{}({})", f[0].name, self.args(&self.s.mutation, &f[0]))).collect() }
    /// Err: null in a non-null place (direct evaluation only)
    pub fn set(&self, w: &mut World, o: &Obj, sels: &[Sel], provided: &[Sel]) -> Result<J, ()> {
        let mut fs = vec![]; self.collect(&o.0, sels, &mut fs);
        let view = match self.graph { Some(g) if o.0 != self.s.query && o.0 != self.s.mutation => match self.s.view(&o.0, g) { Some(v) => v, None => self.fail(w, &format!("type {} is asked of a subgraph that does not know it", o.0)) }, _ => o.0.clone() };
        let mut out = vec![];
        for (key, nodes) in fs {
            let f = &nodes[0];
            for n in &nodes[1..] { if n.name != f.name || self.args(&o.0, n) != self.args(&o.0, f) { self.fail(w, &format!("conflicting selections for response key {key}")) } }
            if f.name == "__typename" { out.push((key, J::Str(view.clone().into_bytes()))); continue }
            if self.s.field(&o.0, &f.name).is_none() { self.fail(w, &format!("unknown field {}.{}", o.0, f.name)) }
            let mut prov = vec![];
            if let Some(g) = self.graph {
                if view == o.0 {
                    let labels = w.labels.clone();
                    if let Err(e) = self.s.resolvable(&o.0, &f.name, g, provided, &|l| labels.get(l).copied().unwrap_or(false)) { self.fail(w, &format!("subgraph {g} is asked for {}.{}: {e}", o.0, f.name)) }
                }
                if let Some(req) = self.s.requires(&view, &f.name, g) {
                    match self.rep { None => if !has_all(provided, &req) { self.fail(w, &format!("{}.{} needs {:?} but is fetched without a representation", o.0, f.name, req)) }, Some(r) => self.check_rep(w, o, &req, r, "requirement") }
                }
                prov = self.s.provides(&view, &f.name, g);
            }
            prov.extend(sub_sets(provided, &f.name));
            if o.0 == self.s.mutation { if let Some(g) = self.graph { w.rootlog.push((g.to_string(), format!("{}({})", f.name, self.args(&o.0, f)))) } }
            let args = self.args(&o.0, f);
            let mut v = w.value(self.s, o, &f.name, &args);
            let id = (o.clone(), format!("{}({args})", f.name));
            if self.graph.is_some() { w.touch.push(id) } else if w.lossy && !w.served.contains(&id) { v = Val::Null }
            let sub: Vec<Sel> = nodes.iter().flat_map(|n| n.sel.iter().cloned()).collect();
            let sub_eval = Eval { rep: None, ..*self };
            let ty = self.s.field(&o.0, &f.name).unwrap().ty.clone();
            w.path.push(J::Str(key.as_bytes().to_vec()));
            let r = sub_eval.complete(w, &v, &ty, &sub, &prov);
            w.path.pop();
            out.push((key, r?));
        }
        Ok(J::Obj(out))
    }
    fn complete(&self, w: &mut World, v: &Val, ty: &Ty, sub: &[Sel], prov: &[Sel]) -> Result<J, ()> {
        if let Ty::NonNull(t) = ty { let j = self.complete(w, v, t, sub, prov)?; return if j == J::Null && self.graph.is_none() { Err(()) } else { Ok(j) } }
        Ok(match v {
            Val::Null => J::Null,
            Val::Leaf(j) => { if !sub.is_empty() { self.fail(w, "leaf with a selection") } j.clone() }
            Val::List(l) => { let it = match ty { Ty::List(t) => t, _ => self.fail(w, "list") }; let mut o = vec![]; for (i, x) in l.iter().enumerate() { w.path.push(J::Num(i.to_string().into_bytes())); let r = self.complete(w, x, it, sub, prov); w.path.pop(); match r { Ok(j) => o.push(j), Err(()) => return Ok(J::Null) } } J::List(o) }
            Val::Obj(o) => {
                if sub.is_empty() { self.fail(w, "object without a selection") }
                if self.graph.is_none() { if self.s.types[&o.0].dirs.iter().any(|d| d.name == "inaccessible") { return Ok(J::Null) } let p = w.path.clone(); w.pos.push((p, o.clone())); }
                match self.set(w, o, sub, prov) { Ok(j) => j, Err(()) => J::Null }
            }
        })
    }
    /// the representation carries these fields of the object, with the object's values
    fn check_rep(&self, w: &mut World, o: &Obj, sels: &[Sel], rep: &J, what: &str) {
        for x in sels { match x {
            Sel::Field(f) => {
                if f.name == "__typename" { continue }
                let v = w.value(self.s, o, &f.name, &self.args(&o.0, f));
                let got = match rep.get(f.key()).or_else(|| rep.get(&f.name)) { Some(g) => g.clone(), None if !w.faults.is_empty() => continue, None => self.fail(w, &format!("{what}: representation of {}{} lacks {}: {}", o.0, o.1, f.name, rep.text())) };
                self.check_val(w, &v, &f.sel, &got, what);
            }
            Sel::Inline(c, _, ss) => if c.as_deref().map_or(true, |c| self.matches(&o.0, c)) { self.check_rep(w, o, ss, rep, what) },
            _ => {}
        } }
    }
    fn check_val(&self, w: &mut World, v: &Val, sub: &[Sel], got: &J, what: &str) {
        match (v, got) {
            (Val::Null, J::Null) => {}
            (Val::Leaf(a), b) => if a != b { self.fail(w, &format!("{what}: representation has {} where the data is {}", b.text(), a.text())) },
            (Val::List(a), J::List(b)) if a.len() == b.len() => for (x, y) in a.iter().zip(b) { self.check_val(w, x, sub, y, what) },
            (Val::Obj(o), r @ J::Obj(_)) => self.check_rep(w, o, sub, r, what),
            (v, r) => self.fail(w, &format!("{what}: representation has {} where the data is {:?}", r.text(), v)),
        }
    }
    fn rep_matches(&self, w: &mut World, o: &Obj, sels: &[Sel], rep: &J) -> bool {
        sels.iter().all(|x| match x {
            Sel::Field(f) => { if f.name == "__typename" { return true } let v = w.value(self.s, o, &f.name, ""); match rep.get(&f.name) { None => false, Some(g) => self.val_matches(w, &v, &f.sel, g) } }
            Sel::Inline(_, _, ss) => self.rep_matches(w, o, ss, rep), _ => true,
        })
    }
    fn val_matches(&self, w: &mut World, v: &Val, sub: &[Sel], got: &J) -> bool {
        match (v, got) { (Val::Null, J::Null) => true, (Val::Leaf(a), b) => a == b, (Val::List(a), J::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.val_matches(w, x, sub, y)), (Val::Obj(o), r @ J::Obj(_)) => self.rep_matches(w, o, sub, r), _ => false }
    }
    /// answers an `_entities` field
    pub fn entities(&self, w: &mut World, f: &Field) -> Vec<(J, Obj, Vec<(Obj, String)>)> {
        let g = self.graph.unwrap();
        let reps = match self.val(f.args.iter().find(|a| a.0 == "representations").map(|a| &a.1).unwrap_or(&V::Null)) { J::List(l) => l, x => self.fail(w, &format!("representations is not a list: {}", x.text())) };
        for (i, r) in reps.iter().enumerate() { if reps[..i].contains(r) { self.fail(w, &format!("duplicate representation {}", r.text())) } }
        let mut out = vec![];
        for r in &reps {
            w.reps += 1;
            let tn = match r.get("__typename").and_then(|t| t.str()) { Some(t) => t, None => self.fail(w, &format!("representation without __typename: {}", r.text())) };
            if !self.s.in_graph(&tn, g) { self.fail(w, &format!("representation of {tn} sent to {g}")) }
            let keys: Vec<Vec<Sel>> = self.s.keys(&tn, g).into_iter().filter(|k| k.1).map(|k| P::field_set(&k.0).unwrap()).collect();
            let mut found = None;
            for t in self.s.possible(&tn) { for i in 0..w.k { for k in &keys { if found.is_none() && self.rep_matches(w, &(t.clone(), i), k, r) { found = Some((t.clone(), i)) } } } }
            let o = match found { Some(o) => o, None if !w.faults.is_empty() => { out.push((J::Null, (tn, 99), vec![])); continue } None => self.fail(w, &format!("representation matches no entity by a resolvable key of {g}: {}", r.text())) };
            let t0 = w.touch.len();
            let j = Eval { rep: Some(r), ..*self }.set(w, &o, &f.sel, &[]).unwrap();
            let t = w.touch.split_off(t0);
            out.push((j, o, t));
        }
        out
    }
}
fn has_all(provided: &[Sel], req: &[Sel]) -> bool { req.iter().all(|x| match x { Sel::Field(f) => has_field(provided, &f.name), _ => true }) }

/// equality of two JSON trees; object members by name. Symbolic text is compared without branching.
pub fn same(a: &J, b: &J, ok: &mut bool) -> Result<(), String> {
    match (a, b) {
        (J::Null, J::Null) => Ok(()), (J::Bool(x), J::Bool(y)) if x == y => Ok(()), (J::Num(x), J::Num(y)) if x == y => Ok(()),
        (J::Str(x), J::Str(y)) if x.len() == y.len() => { for (p, q) in x.iter().zip(y) { *ok &= p == q } Ok(()) }
        (J::List(x), J::List(y)) if x.len() == y.len() => { for (p, q) in x.iter().zip(y) { same(p, q, ok)? } Ok(()) }
        (J::Obj(x), J::Obj(y)) => { if x.len() != y.len() { return Err(format!("members differ: {} / {}", a.text(), b.text())) } for (k, p) in x { match b.get(k) { Some(q) => same(p, q, ok)?, None => return Err(format!("member {k} missing: {} / {}", a.text(), b.text())) } } Ok(()) }
        _ => Err(format!("{} / {}", a.text(), b.text())),
    }
}
/// same member order everywhere
pub fn same_order(a: &J, b: &J) -> bool { match (a, b) { (J::List(x), J::List(y)) => x.iter().zip(y).all(|(p, q)| same_order(p, q)), (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same_order(&p.1, &q.1)), _ => true } }
