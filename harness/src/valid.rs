//! Validation of operations against an independent validator written from section 5 of the GraphQL specification; limits; variables.
use crate::{gql::{Dir, Doc, Field, J, Kind, Sel, TDef, Ty, P, V}, sym};
use hive_router::graphql_tools::{parser::{parse_query, parse_schema}, validation::{rules::default_rules_validation_plan, validate::{validate, ValidationPlan}}};
use std::collections::{BTreeMap, BTreeSet};

const SDL: &str = r#"
directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @op(x: Int) on QUERY | MUTATION
directive @many(n: Int!, e: E = A) repeatable on FIELD | FRAGMENT_DEFINITION
schema { query: Query mutation: Mutation subscription: Subscription }
type Query { pet: Pet named: Named animal: Animal dog(name: String!, n: Int! = 3): Dog dogs(x: [Int!], in: In): [Dog!]! num(i: Int, f: Float, s: String, b: Boolean, id: ID, e: E, in: In, l: [Int!], ll: [[Int]], d: Int! = 1, c: Custom): Int req(l: [Int!]!, o: [In!]): Int }
type Mutation { set(v: Int!): Int }
type Subscription { a: Int b: Int person: Person }
interface Named { name: String }
interface Pet implements Named { name: String nick: String! }
type Dog implements Pet & Named { name: String nick: String! barks: Boolean! owner: Person tags: [String!] level: Int size(unit: E = A): Int }
type Cat implements Pet & Named { name: String nick: String! barks: Boolean owner: Dog tags: [String] level: Float size(unit: E = A): Int }
type Person implements Named { name: String pets: [Pet] }
union Animal = Dog | Person
enum E { A B }
input In { a: Int! b: String = "x" c: [In!] d: Int! = 4 }
scalar Custom
scalar Int scalar Float scalar String scalar Boolean scalar ID
"#;

struct DirDef { name: &'static str, args: Vec<(String, Ty, Option<V>)>, locs: &'static [&'static str], repeatable: bool }
pub struct Sch { t: BTreeMap<String, TDef>, d: Vec<DirDef> }
impl Sch {
    fn new() -> Sch {
        let mut t = BTreeMap::new();
        for d in P::sdl(SDL).unwrap() { if d.name != "schema" { t.insert(d.name.clone(), d); } }
        let i = |n: &str| Ty::Named(n.into()); let nn = |t: Ty| Ty::NonNull(Box::new(t));
        let f: &[&str] = &["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"];
        let d = vec![
            DirDef { name: "skip", args: vec![("if".into(), nn(i("Boolean")), None)], locs: f, repeatable: false },
            DirDef { name: "include", args: vec![("if".into(), nn(i("Boolean")), None)], locs: f, repeatable: false },
            DirDef { name: "op", args: vec![("x".into(), i("Int"), None)], locs: &["QUERY", "MUTATION"], repeatable: false },
            DirDef { name: "many", args: vec![("n".into(), nn(i("Int")), None), ("e".into(), i("E"), Some(V::Enum("A".into())))], locs: &["FIELD", "FRAGMENT_DEFINITION"], repeatable: true },
        ];
        Sch { t, d }
    }
    fn kind(&self, n: &str) -> Option<Kind> { self.t.get(n).map(|t| t.kind) }
    fn composite(&self, n: &str) -> bool { matches!(self.kind(n), Some(Kind::Object | Kind::Interface | Kind::Union)) }
    fn field(&self, ty: &str, f: &str) -> Option<(Ty, Vec<(String, Ty, Option<V>)>)> {
        if f == "__typename" && self.composite(ty) { return Some((Ty::NonNull(Box::new(Ty::Named("String".into()))), vec![])) }
        let t = self.t.get(ty)?; if t.kind == Kind::Union || t.kind == Kind::Input { return None }
        t.fields.iter().find(|x| x.name == f).map(|x| (x.ty.clone(), x.args.clone()))
    }
    fn possible(&self, n: &str) -> BTreeSet<String> {
        match self.kind(n) {
            Some(Kind::Object) => [n.to_string()].into(),
            Some(Kind::Union) => self.t[n].members.iter().cloned().collect(),
            Some(Kind::Interface) => self.t.values().filter(|t| t.kind == Kind::Object && t.members.iter().any(|m| m == n)).map(|t| t.name.clone()).collect(),
            _ => BTreeSet::new(),
        }
    }
    fn in_field(&self, t: &str, f: &str) -> Option<(Ty, bool)> { match (t, f) { ("In", "b") => Some((Ty::Named("String".into()), true)), ("In", "d") => Some((Ty::NonNull(Box::new(Ty::Named("Int".into()))), true)), _ => self.t[t].fields.iter().find(|x| x.name == f).map(|x| (x.ty.clone(), false)) } }
}

type Vars = Vec<(String, Ty, Option<V>)>;
struct Ctx<'a> { s: &'a Sch, d: &'a Doc, e: Vec<String>, /** variables used: name, location type, location has a default */ uses: Vec<(String, Option<Ty>, bool)>, spreads: Vec<String> }
impl<'a> Ctx<'a> {
    fn err(&mut self, m: &str) { self.e.push(m.to_string()) }
    fn object(&mut self, o: &[(String, V)], konst: bool) { for (i, (k, x)) in o.iter().enumerate() { if o[..i].iter().any(|y| &y.0 == k) { self.err("input field twice") } self.value(x, None, false, konst) } }
    fn value(&mut self, v: &V, t: Option<&Ty>, def: bool, konst: bool) {
        if let V::Var(n) = v { if konst { self.err("a variable in a constant") } else { self.uses.push((n.clone(), t.cloned(), def)) } return }
        let t = match t { Some(t) => t, None => { match v { V::List(l) => for x in l { self.value(x, None, false, konst) }, V::Obj(o) => self.object(o, konst), _ => {} } return } };
        if let V::Null = v { if !t.nullable() { self.err("null for a non-null type") } return }
        match t.inner() {
            Ty::List(it) => match v { V::List(l) => for x in l { self.value(x, Some(it), false, konst) }, v => self.value(v, Some(it), false, konst) },
            Ty::Named(n) => match self.s.kind(n) {
                Some(Kind::Enum) => { let ok = matches!(v, V::Enum(x) if self.s.t[n].values.iter().any(|y| &y.0 == x)); if !ok { self.err("not a value of the enum") } }
                Some(Kind::Input) => match v {
                    V::Obj(o) => {
                        for (i, (k, x)) in o.iter().enumerate() {
                            if o[..i].iter().any(|y| &y.0 == k) { self.err("input field twice") }
                            match self.s.in_field(n, k) { Some((ft, d)) => self.value(x, Some(&ft), d, konst), None => { self.err("unknown input field"); self.value(x, None, false, konst) } }
                        }
                        let req: Vec<String> = self.s.t[n].fields.iter().filter(|f| !f.ty.nullable()).map(|f| f.name.clone()).collect();
                        for f in req { if !self.s.in_field(n, &f).unwrap().1 && !o.iter().any(|y| y.0 == f) { self.err("required input field missing") } }
                    }
                    _ => self.err("not an input object"),
                },
                Some(Kind::Scalar) => {
                    let int = |x: &str| !x.contains(['.', 'e', 'E']);
                    let ok = match (n.as_str(), v) {
                        ("Int", V::Num(x)) => int(x) && x.parse::<i64>().is_ok_and(|v| v >= -2147483648 && v <= 2147483647),
                        ("Float", V::Num(_)) => true, ("String", V::Str(_)) => true, ("Boolean", V::Bool(_)) => true, ("ID", V::Str(_)) => true, ("ID", V::Num(x)) => int(x),
                        ("Int" | "Float" | "String" | "Boolean" | "ID", _) => false,
                        _ => { match v { V::List(l) => for x in l { self.value(x, None, false, konst) }, V::Obj(o) => self.object(o, konst), _ => {} } true }
                    };
                    if !ok { self.err("not a value of the scalar") }
                }
                _ => {}
            },
            _ => {}
        }
    }
    fn args(&mut self, given: &[(String, V)], defs: Option<&[(String, Ty, Option<V>)]>) {
        for (i, (k, v)) in given.iter().enumerate() {
            if given[..i].iter().any(|x| &x.0 == k) { self.err("argument twice") }
            match defs.and_then(|d| d.iter().find(|x| &x.0 == k)) { Some((_, t, d)) => self.value(v, Some(t), d.is_some(), false), None => { if defs.is_some() { self.err("unknown argument") } self.value(v, None, false, false) } }
        }
        for (n, t, d) in defs.unwrap_or(&[]) { if !t.nullable() && d.is_none() && !given.iter().any(|x| &x.0 == n) { self.err("required argument missing") } }
    }
    fn dirs(&mut self, ds: &[Dir], loc: &str) {
        for (i, d) in ds.iter().enumerate() {
            match self.s.d.iter().position(|x| x.name == d.name) {
                None => { self.err("unknown directive"); self.args(&d.args, None) }
                Some(k) => {
                    let s = self.s;
                    if !s.d[k].locs.contains(&loc) { self.err("directive at the wrong place") }
                    if !s.d[k].repeatable && ds[..i].iter().any(|x| x.name == d.name) { self.err("directive twice") }
                    self.args(&d.args, Some(&s.d[k].args));
                }
            }
        }
    }
    fn sels(&mut self, sels: &[Sel], parent: Option<&str>) {
        for x in sels { match x {
            Sel::Field(f) => {
                self.dirs(&f.dirs, "FIELD");
                let fd = parent.map(|p| self.s.field(p, &f.name));
                match fd {
                    Some(None) => { self.err("unknown field"); self.args(&f.args, None); self.sels(&f.sel, None) }
                    None => { self.args(&f.args, None); self.sels(&f.sel, None) }
                    Some(Some((t, a))) => {
                        self.args(&f.args, Some(&a));
                        let c = self.s.composite(t.name());
                        if c && f.sel.is_empty() { self.err("a selection set is missing") }
                        if !c && !f.sel.is_empty() { self.err("a selection set on a leaf") }
                        self.sels(&f.sel, if c { Some(t.name()) } else { None });
                    }
                }
            }
            Sel::Inline(tc, ds, s) => {
                self.dirs(ds, "INLINE_FRAGMENT");
                let ty = match tc { Some(t) => { self.cond(t); self.spreadable(parent, t); if self.s.composite(t) { Some(t.as_str()) } else { None } } None => parent };
                self.sels(s, ty);
            }
            Sel::Spread(n, ds) => {
                self.dirs(ds, "FRAGMENT_SPREAD"); self.spreads.push(n.clone());
                match self.d.fdefs.iter().find(|f| &f.0 == n) { None => self.err("unknown fragment"), Some(f) => { let t = f.1.clone(); self.spreadable(parent, &t) } }
            }
        } }
    }
    fn cond(&mut self, t: &str) { match self.s.kind(t) { None => self.err("unknown type"), Some(_) => if !self.s.composite(t) { self.err("a fragment on a type without fields") } } }
    fn spreadable(&mut self, parent: Option<&str>, t: &str) { if let Some(p) = parent { if self.s.composite(t) && self.s.possible(p).is_disjoint(&self.s.possible(t)) { self.err("a fragment that never applies") } } }
}
fn collect<'d>(s: &Sch, d: &'d Doc, sels: &'d [Sel], parent: Option<&str>, seen: &mut Vec<&'d str>, out: &mut Vec<(Option<String>, &'d Field, Option<Ty>)>) {
    for x in sels { match x {
        Sel::Field(f) => { let t = parent.and_then(|p| s.field(p, &f.name)).map(|x| x.0); out.push((parent.map(|x| x.to_string()), f, t)) }
        Sel::Inline(tc, _, r) => collect(s, d, r, tc.as_deref().or(parent), seen, out),
        Sel::Spread(n, _) => if !seen.contains(&n.as_str()) { seen.push(n); if let Some(f) = d.fdefs.iter().find(|f| &f.0 == n) { collect(s, d, &f.3, Some(&f.1), seen, out) } },
    } }
}
fn args_same(a: &[(String, V)], b: &[(String, V)]) -> bool { a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && val_same(v, w))) }
fn val_same(a: &V, b: &V) -> bool { match (a, b) { (V::Obj(x), V::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && val_same(v, w))), (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| val_same(v, w)), _ => a == b } }
fn shape(s: &Sch, a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::NonNull(x), Ty::NonNull(y)) => shape(s, x, y), (Ty::NonNull(_), _) | (_, Ty::NonNull(_)) => false,
        (Ty::List(x), Ty::List(y)) => shape(s, x, y), (Ty::List(_), _) | (_, Ty::List(_)) => false,
        (Ty::Named(x), Ty::Named(y)) => if s.composite(x) && s.composite(y) { true } else { x == y },
    }
}
/// FieldsInSetCanMerge and SameResponseShape; `may_differ`: the pair's parents are different object types
fn merge(s: &Sch, d: &Doc, set: &[(Option<String>, &Field, Option<Ty>)], depth: usize, only_shape: bool) -> bool {
    if depth > 6 { return true }
    for i in 0..set.len() { for j in i + 1..set.len() {
        let ((pa, a, ta), (pb, b, tb)) = (&set[i], &set[j]);
        if a.key() != b.key() { continue }
        let obj = |p: &Option<String>| p.as_ref().is_some_and(|p| s.kind(p) == Some(Kind::Object));
        let excl = only_shape || (pa != pb && obj(pa) && obj(pb));
        if !excl && (a.name != b.name || !args_same(&a.args, &b.args)) { return false }
        if let (Some(x), Some(y)) = (ta, tb) { if !shape(s, x, y) { return false } }
        let mut sub = vec![];
        let n = |t: &Option<Ty>| t.as_ref().map(|t| t.name().to_string());
        let (na, nb) = (n(ta), n(tb));
        let mut seen = vec![];
        collect(s, d, &a.sel, na.as_deref(), &mut seen, &mut sub);
        seen.clear();
        collect(s, d, &b.sel, nb.as_deref(), &mut seen, &mut sub);
        if !merge(s, d, &sub, depth + 1, excl) { return false }
    } }
    true
}
fn merge_all(s: &Sch, d: &Doc, sels: &[Sel], parent: Option<&str>, out: &mut bool) {
    let mut set = vec![]; let mut seen = vec![];
    collect(s, d, sels, parent, &mut seen, &mut set);
    if !merge(s, d, &set, 0, false) { *out = false }
    for x in sels { match x {
        Sel::Field(f) => { let t = parent.and_then(|p| s.field(p, &f.name)).map(|x| x.0.name().to_string()); merge_all(s, d, &f.sel, t.as_deref(), out) }
        Sel::Inline(tc, _, r) => merge_all(s, d, r, tc.as_deref().or(parent), out),
        _ => {}
    } }
}
fn compatible(var: &Ty, loc: &Ty) -> bool {
    match (var, loc) {
        (Ty::NonNull(a), Ty::NonNull(b)) => compatible(a, b), (_, Ty::NonNull(_)) => false, (Ty::NonNull(a), b) => compatible(a, b),
        (Ty::List(a), Ty::List(b)) => compatible(a, b), (Ty::List(_), _) | (_, Ty::List(_)) => false,
        (Ty::Named(a), Ty::Named(b)) => a == b,
    }
}
/// the violations of the specification's validation rules; empty: valid
fn errors(s: &Sch, d: &Doc) -> Vec<String> {
    let mut c = Ctx { s, d, e: vec![], uses: vec![], spreads: vec![] };
    let mut frag_uses: BTreeMap<String, (Vec<(String, Option<Ty>, bool)>, Vec<String>)> = BTreeMap::new();
    for (i, (n, t, ds, sel)) in d.fdefs.iter().enumerate() {
        if d.fdefs[..i].iter().any(|f| &f.0 == n) { c.err("fragment name twice") }
        c.cond(t); c.dirs(ds, "FRAGMENT_DEFINITION");
        c.sels(sel, if s.composite(t) { Some(t) } else { None });
        let u = (std::mem::take(&mut c.uses), std::mem::take(&mut c.spreads));
        frag_uses.entry(n.clone()).or_insert(u);
        let mut ok = true; merge_all(s, d, sel, Some(t), &mut ok); if !ok { c.err("fields cannot be merged") }
    }
    let mut reached: BTreeSet<String> = BTreeSet::new();
    for (i, o) in d.ops.iter().enumerate() {
        if o.name.is_none() && d.ops.len() > 1 { c.err("an anonymous operation among others") }
        if o.name.is_some() && d.ops[..i].iter().any(|p| p.name == o.name) { c.err("operation name twice") }
        let (root, loc) = match o.kind.as_str() { "query" => ("Query", "QUERY"), "mutation" => ("Mutation", "MUTATION"), _ => ("Subscription", "SUBSCRIPTION") };
        c.dirs(&o.dirs, loc); c.sels(&o.sel, Some(root));
        let mut ok = true; merge_all(s, d, &o.sel, Some(root), &mut ok); if !ok { c.err("fields cannot be merged") }
        if root == "Subscription" { let mut set = vec![]; collect(s, d, &o.sel, Some(root), &mut vec![], &mut set); if set.iter().any(|f| f.1.key() != set[0].1.key()) { c.err("more than one root field") } if set.iter().any(|f| f.1.name.starts_with("__")) { c.err("an introspection root field") } }
        let mut uses = std::mem::take(&mut c.uses); let mut todo = std::mem::take(&mut c.spreads); let mut seen = BTreeSet::new();
        while let Some(f) = todo.pop() { if seen.insert(f.clone()) { if let Some((u, sp)) = frag_uses.get(&f) { uses.extend(u.iter().cloned()); todo.extend(sp.iter().cloned()) } } }
        reached.extend(seen);
        for (k, (n, t, df)) in o.vars.iter().enumerate() {
            if o.vars[..k].iter().any(|x| &x.0 == n) { c.err("variable twice") }
            match s.kind(t.name()) { Some(Kind::Scalar | Kind::Enum | Kind::Input) => {} _ => c.err("not an input type") }
            if let Some(df) = df { if matches!(s.kind(t.name()), Some(Kind::Scalar | Kind::Enum | Kind::Input)) { c.value(df, Some(t), false, true) } }
            if !uses.iter().any(|u| &u.0 == n) { c.err("unused variable") }
        }
        for (n, lt, ldef) in &uses {
            match o.vars.iter().find(|v| &v.0 == n) {
                None => c.err("undefined variable"),
                Some((_, vt, vd)) => if let Some(lt) = lt { if s.kind(vt.name()).is_some() {
                    let ok = match (lt, vt) { (Ty::NonNull(inner), v) if v.nullable() => (vd.as_ref().is_some_and(|d| *d != V::Null) || *ldef) && compatible(vt, inner), _ => compatible(vt, lt) };
                    if !ok { c.err("a variable at a place of another type") }
                } },
            }
        }
    }
    for f in &d.fdefs { if !reached.contains(&f.0) { c.err("unused fragment") } }
    for f in &d.fdefs { // cycles
        let mut todo = frag_uses[&f.0].1.clone(); let mut seen = BTreeSet::new();
        while let Some(g) = todo.pop() { if g == f.0 { c.err("fragment cycle"); break } if seen.insert(g.clone()) { if let Some(x) = frag_uses.get(&g) { todo.extend(x.1.iter().cloned()) } } }
    }
    c.e
}
fn opt(name: &str, alts: &[&str]) -> String { alts[sym::choice(name, alts.len() as u64) as usize].to_string() }

fn operation(family: u64) -> String {
    let vals: &[&str] = &["1", "-2147483649", "2147483647", "1.5", "\"s\"", "true", "null", "A", "C", "[]", "[1]", "[null]", "[1, \"x\"]", "[[1]]", "{a: 1}", "{a: 1, x: 2}", "{b: \"y\"}", "{a: 1, c: [{a: null}], d: 2}", "{a: 1, a: 2}", "{a: 1, c: {a: 3, b: null}}", "{a: 1, d: null}"];
    match family {
        0 => { let (f, a) = opt("argument", &["num i", "num f", "num s", "num b", "num id", "num e", "num in", "num l", "num ll", "num d", "num c", "num zz", "req l", "req l: [1], o"]).split_once(' ').map(|(f, a)| (f.to_string(), a.to_string())).unwrap(); format!("{{ {f}({a}: {}) }}", opt("value", vals)) }
        1 => { // variables
            let ty = opt("type", &["Int", "Int!", "[Int]", "[Int!]", "[Int!]!", "[[Int]]", "Float", "String", "E", "In", "In!", "Custom", "Dog", "Nope"]);
            let df = opt("default", &["", " = 1", " = null", " = [1]", " = \"s\"", " = A", " = {a: 1}"]);
            let us = opt("usage", &["num(i: $v)", "num(f: $v)", "num(d: $v)", "num(l: $v)", "num(l: [$v])", "num(ll: [$v])", "num(in: $v)", "num(in: {a: $v})", "num(in: {a: 1, d: $v})", "num(in: {a: 1, c: [$v]})", "num(c: {k: [$v]})", "num(e: $v)", "dog(name: $v) { name }", "dog(name: \"x\", n: $v) { name }", "num @many(n: $v)", "num @many(n: 1, e: $v)", "num"]);
            format!("query Q($v: {ty}{df}) {{ {us} }}")
        }
        2 => { // fields, leaves, arguments, directives
            let f = opt("field", &["num", "pet", "animal", "dog", "dog(name: \"x\")", "dog(name: null)", "dog(name: \"x\", name: \"y\")", "dogs", "__typename", "nope", "num(i: 1, i: 1)", "num(nope: 1)", "a: pet", "dogs(x: [1])", "dog(name: \"x\", n: null)"]);
            let s = opt("selection", &["", " { name }", " { nope }", " { __typename }", " { barks }", " { owner { name } }", " { owner }", " { name { x } }", " { ... { name } }", " { ... on Dog { barks } }", " { ... on Nope { x } }", " { ... on E { A } }"]);
            let d = opt("directive", &["", " @skip(if: true)", " @skip", " @skip(if: 1)", " @op", " @many(n: 1) @many(n: 2)", " @skip(if: true) @skip(if: false)", " @nope", " @skip(if: true, x: 1)", " @many(n: null)", " @many(n: 1, e: C)"]);
            format!("{{ {f}{d}{s} }}")
        }
        3 => { // fragments and where they can be spread
            let root = opt("root", &["pet", "animal", "named", "dogs"]);
            let t1 = opt("type 1", &["Dog", "Cat", "Pet", "Animal", "Person", "Named", "Query", "In", "Nope"]);
            let t2 = opt("type 2", &["Dog", "Cat", "Pet", "Animal", "Person", "Named"]);
            let b = opt("body", &["__typename", "name", "nick", "barks", "pets { name }"]);
            let how = sym::choice("form", 3);
            match how { 0 => format!("{{ {root} {{ ... on {t1} {{ ... on {t2} {{ {b} }} }} }} }}"), 1 => format!("{{ {root} {{ ...F }} }} fragment F on {t1} {{ ... on {t2} {{ {b} }} }}"), _ => format!("{{ {root} {{ ...F }} }} fragment F on {t1} {{ ...G }} fragment G on {t2} {{ {b} }}") }
        }
        4 => { // overlapping fields
            let sel = |n: &str| opt(n, &["name", "name: nick", "nick", "name: __typename", "barks", "tags", "level", "name: barks", "size", "size(unit: A)", "size(unit: B)", "size(unit: A) @skip(if: true)", "size: level", "owner { name }", "owner { name: __typename }", "owner { x: name }", "owner { x: __typename }"]);
            let (a, b) = (sel("first"), sel("second"));
            let wrap = |n: &str, s: &str| match sym::choice(n, 5) { 0 => s.to_string(), 1 => format!("... on Dog {{ {s} }}"), 2 => format!("... on Cat {{ {s} }}"), 3 => format!("...{n}"), _ => format!("...{n}C") };
            let (w1, w2) = (wrap("F", &a), wrap("G", &b));
            let mut t = format!("{{ pet {{ {w1} {w2} }} }}");
            for (w, n, s) in [(&w1, "F", &a), (&w2, "G", &b)] { if **w == format!("...{n}") { t += &format!(" fragment {n} on Dog {{ {s} }}") } if **w == format!("...{n}C") { t += &format!(" fragment {n}C on Cat {{ {s} }}") } }
            t
        }
        5 => { // several operations and fragments, variables through fragments
            let o1 = opt("operation 1", &["{ num }", "query A { num }", "query A($v: Int) { ...F }", "query A($v: Int!, $w: Int) { num(i: $w) ...F }", "query A { ...F ...G }", "mutation A($v: Int!) { set(v: $v) }", "query A($v: Int, $v: Int) { num(i: $v) }", "query A($v: Int) @op(x: $v) { num }"]);
            let o2 = opt("operation 2", &["", "{ num }", "query A { num }", "query B { num }", "query B($v: Int) { num(i: $v) }", "query B { ...F }", "subscription B { a }", "mutation A { set(v: 1) }", "query B @op { num }", "query B @op @op { num }"]);
            let f = opt("fragment F", &["", "fragment F on Query { num }", "fragment F on Query { num(i: $v) }", "fragment F on Query { num(d: $v) }", "fragment F on Query { ...G }", "fragment F on Query { dogs { owner { ...F } } }", "fragment F on Query { ...F }", "fragment F on Query @many(n: 1) { num }"]);
            let g = opt("fragment G", &["", "fragment G on Query { num(i: $v) }", "fragment G on Query { ...F }", "fragment F on Query { num }", "fragment G on Query { num(i: $w) ...H } fragment H on Query { num(i: $w) }"]);
            format!("{o1} {o2} {f} {g}")
        }
        6 => { // subscriptions
            let a = opt("first", &["a", "b: a", "__typename", "...F", "... { a }", "person { name }", "... on Subscription { a }", "a @skip(if: true)"]);
            let b = opt("second", &["", "a", "b", "a: b", "...F", "... @include(if: true) { b }", "person { pets { name } }", "__typename"]);
            let f = opt("fragment", &["", "fragment F on Subscription { a }", "fragment F on Subscription { a b }", "fragment F on Subscription { ... { b } }"]);
            format!("subscription S {{ {a} {b} }} {f}")
        }
        8 => { // the range of Int
            let mut t = if sym::choice("sign", 2) == 1 { "-214748364".to_string() } else { "214748364".to_string() };
            for i in 0..1 { let d = sym::u8(&format!("digit{i}")); sym::assume(d <= 9); t.push((b'0' + d) as char) }
            opt("place", &["{ num(i: #) }", "{ num(id: #) }", "{ num(f: #) }", "{ num(l: [1, #]) }", "{ num(in: {a: #}) }", "query($v: Int = #) { num(i: $v) }"]).replace('#', &t)
        }
        _ => { // deeper merging: the same response name at two levels, through fragments
            let x = opt("outer 1", &["dog(name: \"x\")", "d: dog(name: \"x\")", "d: dogs", "d: dog(name: \"y\")", "d: pet", "d: animal"]);
            let y = opt("outer 2", &["dog(name: \"x\")", "d: dog(name: \"x\")", "d: dogs", "d: dog(n: 3, name: \"x\")", "d: pet"]);
            let a = opt("inner 1", &["__typename", "x: __typename", "... on Dog { x: nick }", "... on Dog { owner { name } }", "... on Dog { x: level }", "...F"]);
            let b = opt("inner 2", &["__typename", "... on Dog { x: nick }", "... on Dog { x: name }", "... on Dog { owner { name: __typename } }", "... on Cat { x: level }", "... on Cat { x: barks }", "...F", "... on Dog { x: owner { y: name } }"]);
            let f = if a == "...F" || b == "...F" { opt("fragment", &["fragment F on Dog { x: name }", "fragment F on Dog { owner { y: name } }", "fragment F on Cat { x: owner { y: nick } }"]) } else { String::new() };
            format!("{{ {x} {{ {a} }} {y} {{ {b} }} }} {f}")
        }
    }
}

#[no_mangle]
pub extern "C" fn h_validate() {
    let t = operation(sym::param("family", 0));
    let doc = match P::doc(&t) { Some(d) => d, None => sym::fail(&format!("harness: not a document {t}")) };
    let schema = parse_schema::<String>(SDL).unwrap().into_static();
    let query = match parse_query::<String>(&t) { Ok(d) => d.into_static(), Err(_) => sym::fail(&format!("not parsed: {t}")) };
    let plan = default_rules_validation_plan();
    let got = validate(&schema, &query, &plan);
    let want = errors(&Sch::new(), &doc);
    if got.is_empty() != want.is_empty() && sym::param("list", 0) == 1 { sym::reach(&format!("LIST {} {} :: {t}", got.first().map_or("accepted", |e| e.error_code), want.join(", "))) } else if got.is_empty() != want.is_empty() { sym::fail(&format!("{} although the specification says {}\n{t}\n", match got.first() { None => "accepted".into(), Some(e) => format!("refused ({}: {})", e.error_code, e.message) }, if want.is_empty() { "valid".into() } else { want.join(", ") })) }
    sym::reach(if want.is_empty() { "valid" } else { "invalid" });
}

// ---------------------------------------------------------------- limits
use hive_router::{config::limits::{MaxAliasesRuleConfig, MaxDepthRuleConfig, MaxDirectivesRuleConfig}, pipeline::validation::{max_aliases_rule::MaxAliasesRule, max_depth_rule::MaxDepthRule, max_directives_rule::MaxDirectivesRule}};
/// smallest and largest depth a reader could mean: a fragment (not flattened) counts one level, a spread one or two
fn depth(d: &Doc, sels: &[Sel], at: (usize, usize), flat: bool, intro: bool) -> (usize, usize) {
    let mut m = at;
    for x in sels {
        let r = match x {
            Sel::Field(f) => if intro && (f.name == "__schema" || f.name == "__type") { at } else { depth(d, &f.sel, (at.0 + 1, at.1 + 1), flat, intro) },
            Sel::Inline(_, _, s) => { let k = if flat { 0 } else { 1 }; depth(d, s, (at.0 + k, at.1 + k), flat, intro) }
            Sel::Spread(n, _) => { let (k, l) = if flat { (0, 0) } else { (1, 2) }; match d.frags.get(n) { Some((_, s)) => depth(d, s, (at.0 + k, at.1 + l), flat, intro), None => at } }
        };
        m = (m.0.max(r.0), m.1.max(r.1));
    }
    m
}
fn aliases(d: &Doc, sels: &[Sel]) -> usize { sels.iter().map(|x| match x { Sel::Field(f) => f.alias.is_some() as usize + aliases(d, &f.sel), Sel::Inline(_, _, s) => aliases(d, s), Sel::Spread(n, _) => d.frags.get(n).map_or(0, |f| aliases(d, &f.1)) }).sum() }
fn directives(d: &Doc, sels: &[Sel], defs: bool) -> usize {
    sels.iter().map(|x| match x { Sel::Field(f) => f.dirs.len() + directives(d, &f.sel, defs), Sel::Inline(_, ds, s) => ds.len() + directives(d, s, defs), Sel::Spread(n, ds) => ds.len() + d.fdefs.iter().find(|f| &f.0 == n).map_or(0, |f| directives(d, &f.3, defs) + if defs { f.2.len() } else { 0 }) }).sum()
}
/// an operation is refused exactly if what a limit counts, with every fragment counted at each place it is used, exceeds the limit
#[no_mangle]
pub extern "C" fn h_limits() {
    let piece = |n: &str| opt(n, &["a", "x: a", "a @d", "a { b { c } }", "... { a }", "... on T @d @e { x: a { b } }", "...F", "...F @d", "...G", "a { ...F ...F }", "a { x: b { ...G } }", "__schema { a { b { c { d } } } }", "a { y: __type { ...G } }"]);
    let full = sym::param("full", 0) == 1;
    let (p, q) = (piece("first"), if full { piece("second") } else { opt("second", &["a", "x: a @d { ...F }", "...G @d", "... { a { y: __type { ...F } } }"]) });
    let f = opt("F", &["a", "x: a { y: b @d }", "a { ...G }", "...G x: a @d @e", "... on T { b { c } }"]);
    let g = opt("G", &["c", "a { b: c { d @e } }", "x: a y: b"]);
    let t = format!("{} {{ {p} {q} }} fragment F on T {} {{ {f} }} fragment G on T {{ {g} }}{}", opt("operation", &["query", "query Q @d", "mutation"]), if full { opt("definition", &["", "@d"]) } else { String::new() }, opt("other", &["", " query Z { z }"]));
    let d = P::doc(&t).unwrap();
    let limit = sym::below("limit", 16) as usize;
    let query = parse_query::<String>(&t).unwrap().into_static();
    let schema = parse_schema::<String>("type Query { a: Int }").unwrap().into_static();
    let (rule, lo, hi): (Box<dyn hive_router::graphql_tools::validation::rules::ValidationRule>, usize, usize) = match sym::choice("rule", 3) {
        0 => { let flat = sym::choice("flatten", 2) == 1; let intro = sym::choice("ignore introspection", 2) == 1; let v: Vec<_> = d.ops.iter().map(|o| depth(&d, &o.sel, (0, 0), flat, intro)).collect(); (Box::new(MaxDepthRule { config: MaxDepthRuleConfig { n: limit, ignore_introspection: intro, flatten_fragments: flat } }), v.iter().map(|x| x.0).max().unwrap(), v.iter().map(|x| x.1).max().unwrap()) }
        1 => { let n = d.ops.iter().map(|o| aliases(&d, &o.sel)).max().unwrap(); (Box::new(MaxAliasesRule { config: MaxAliasesRuleConfig { n: limit } }), n, n) }
        _ => { let c = |defs| d.ops.iter().map(|o| o.dirs.len() + directives(&d, &o.sel, defs)).max().unwrap(); (Box::new(MaxDirectivesRule { config: MaxDirectivesRuleConfig { n: limit } }), c(false), c(true)) }
    };
    let plan = ValidationPlan::from(vec![rule]);
    let refused = !validate(&schema, &query, &plan).is_empty();
    if refused { sym::check(hi > limit, "an operation within the limit is accepted"); sym::reach("refused"); } else { sym::check(lo <= limit, "an operation beyond the limit is refused"); sym::reach("accepted"); }
}

// ---------------------------------------------------------------- variables
use hive_router::{executor::{introspection::schema::SchemaMetadata, variables::collect_variables}, query_planner::ast::operation::OperationDefinition as QOp};
#[derive(PartialEq, Clone, Copy)]
enum Is { Yes, No, Either }
fn json_is(v: &crate::gql::J, t: &Ty) -> Is {
    use crate::gql::J;
    if v.is_null() { return if t.nullable() { Is::Yes } else { Is::No } }
    match t.inner() {
        Ty::List(i) => match v { J::List(l) => { let mut r = Is::Yes; for x in l { match json_is(x, i) { Is::No => return Is::No, Is::Either => r = Is::Either, _ => {} } } r } v => json_is(v, i) },
        Ty::Named(n) => {
            let b = |x| if x { Is::Yes } else { Is::No };
            match (n.as_str(), v) {
                ("Int", J::Num(x)) => { if x.contains(&b'.') || x.contains(&b'e') { return match x.as_slice() { b"1.5" => Is::No, _ => Is::Either } }
                    let neg = x[0] == b'-'; let mut k: i128 = 0; for c in &x[neg as usize..] { k = k * 10 + (*c - b'0') as i128 } if neg { k = -k } b(k >= -2147483648 && k <= 2147483647) }
                ("Float", J::Num(_)) => Is::Yes, ("String", J::Str(_)) => Is::Yes, ("ID", J::Str(_)) => Is::Yes, ("Boolean", J::Bool(_)) => Is::Yes,
                ("ID", J::Num(x)) => if x.as_slice() == b"1.5" { Is::No } else if x.contains(&b'.') || x.contains(&b'e') { Is::Either } else { Is::Yes },
                ("E", J::Str(x)) => b(x.as_slice() == b"A" || x.as_slice() == b"B"),
                ("Int" | "Float" | "String" | "ID" | "Boolean" | "E", _) => Is::No,
                ("In", _) => Is::Either, _ => Is::Yes,
            }
        }
        _ => Is::Either,
    }
}
/// exactly the declared variables reach execution, with the value given or the default, and values of another type are refused
#[no_mangle]
pub extern "C" fn h_variables() {
    let ty = opt("type", &["Int", "Int!", "[Int]", "[Int!]!", "[[Int!]]", "Float!", "String", "ID", "ID!", "Boolean", "E", "[E!]", "In", "Custom"]);
    let df = opt("default", &["", " = null", " = 7", " = [8, null]", " = A", " = \"A\"", " = 1.5"]);
    let digits = || { let mut s = String::new(); for i in 0..1 { let d = sym::u8(&format!("digit{i}")); sym::assume(d <= 9); s.push((b'0' + d) as char) } s };
    let raw = opt("value", &["", "null", "1", "1.5", "1e3", "18446744073709551615", "\"A\"", "\"s\"", "true", "[]", "[1]", "[null]", "[[1]]", "[\"A\"]", "[[1, null]]", "{\"a\": 1}", "+", "-", "[+]", "-9007199254740993"]);
    let raw = match raw.as_str() { "+" => format!("214748364{}", digits()), "-" => format!("-214748364{}", digits()), "[+]" => format!("[1, 214748364{}]", digits()), _ => raw };
    let text = format!("query($v: {ty}{df}, $w: Int) {{ f }}");
    let doc = P::doc(&text).unwrap(); let (_, vty, vdef) = doc.ops[0].vars[0].clone();
    let parsed = parse_query::<String>(&text).unwrap().into_static();
    let op: QOp = match parsed.definitions.into_iter().next().unwrap() { hive_router::graphql_tools::parser::query::Definition::Operation(o) => o.into(), _ => return };
    let mut meta = SchemaMetadata::default();
    meta.enum_values.insert("E".into(), ["A".to_string(), "B".to_string()].into_iter().collect());
    let mut given = std::collections::HashMap::new();
    if !raw.is_empty() { given.insert("v".to_string(), sonic_rs::from_str::<sonic_rs::Value>(&raw).unwrap()); }
    if sym::choice("others", 2) == 1 { given.insert("w".to_string(), sonic_rs::from_str::<sonic_rs::Value>("5").unwrap()); given.insert("zz".to_string(), sonic_rs::from_str::<sonic_rs::Value>("6").unwrap()); }
    let others = given.contains_key("w");
    fn lit(v: &V) -> crate::gql::J { use crate::gql::J; match v { V::Num(x) => J::Num(x.clone().into_bytes()), V::Str(s) | V::Enum(s) => J::Str(s.clone().into_bytes()), V::Bool(b) => J::Bool(*b), V::Null => J::Null, V::List(l) => J::List(l.iter().map(lit).collect()), V::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), lit(v))).collect()), V::Var(_) => J::Null } }
    let value = if !raw.is_empty() { crate::gql::JP::parse(raw.as_bytes()) } else { vdef.as_ref().map(lit) };
    // a default that is a string for an enum or an enum value for a string is refused by validation before
    if raw.is_empty() && matches!((&vdef, vty.name()), (Some(V::Str(_)), "E") | (Some(V::Enum(_)), "String" | "ID")) { sym::assume(false) }
    let ok = match &value { Some(v) => json_is(v, &vty), None => if vty.nullable() { Is::Yes } else { Is::No } };
    match collect_variables(&op, &mut given, &meta) {
        Err(_) => { sym::check(ok != Is::Yes, "a value of the variable's type is accepted"); sym::reach("refused"); }
        Ok(m) => {
            sym::check(ok != Is::No, "a value of another type is refused"); sym::reach("accepted");
            let m = m.unwrap_or_default();
            sym::check(m.len() == value.is_some() as usize + others as usize, "exactly the declared variables that have a value");
            sym::check(!others || m.get("w").is_some_and(|x| x.to_string() == "5"), "the other variable's value");
            if let Some(v) = &value {
                use sonic_rs::{JsonContainerTrait, JsonValueTrait};
                // numbers written with a point or an exponent are compared as doubles when small
                fn same(a: &crate::gql::J, b: &sonic_rs::Value) -> bool { use crate::gql::J; match a {
                    J::Null => b.is_null(), J::Bool(x) => b.as_bool() == Some(*x), J::Str(x) => b.as_str().is_some_and(|y| y.as_bytes() == &x[..]),
                    J::Num(x) if x.contains(&b'e') || x.contains(&b'.') => b.is_f64() && b.as_f64() == std::str::from_utf8(x).unwrap().parse::<f64>().ok(),
                    J::Num(x) => { let neg = x[0] == b'-'; let mut n = 0u64; for &c in &x[neg as usize..] { n = n * 10 + (c - b'0') as u64 } if neg { b.as_i64() == Some((n as i64).wrapping_neg()) } else { b.as_u64() == Some(n) } }
                    J::List(x) => b.as_array().is_some_and(|y| x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
                    J::Obj(x) => b.as_object().is_some_and(|y| x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same(p, q)))) } }
                sym::check(m.get("v").is_some_and(|x| same(v, x)), "the value given, or the default");
            }
        }
    }
}
