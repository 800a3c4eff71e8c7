//! A small GraphQL reader of our own (operations and SDL) and a JSON reader, used as oracle-side parsers.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(Vec<u8>), Str(Vec<u8>), List(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v), _ => None } }
    pub fn str(&self) -> Option<String> { match self { J::Str(v) => Some(String::from_utf8_lossy(v).into_owned()), _ => None } }
    pub fn is_null(&self) -> bool { matches!(self, J::Null) }
    pub fn write(&self, o: &mut Vec<u8>) {
        match self {
            J::Null => o.extend_from_slice(b"null"), J::Bool(b) => o.extend_from_slice(if *b { b"true" } else { b"false" }),
            J::Num(n) => o.extend_from_slice(n),
            J::Str(s) => { o.push(b'"'); for &c in s { if c == b'"' || c == b'\\' { o.push(b'\\'); } o.push(c); } o.push(b'"') }
            J::List(v) => { o.push(b'['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(b','); } x.write(o) } o.push(b']') }
            J::Obj(v) => { o.push(b'{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(b','); } o.push(b'"'); o.extend_from_slice(k.as_bytes()); o.extend_from_slice(b"\":"); x.write(o) } o.push(b'}') }
        }
    }
    pub fn text(&self) -> String { let mut o = vec![]; self.write(&mut o); unsafe { String::from_utf8_unchecked(o) } }
}
pub struct JP<'a> { b: &'a [u8], i: usize }
impl<'a> JP<'a> {
    pub fn parse(b: &'a [u8]) -> Option<J> { let mut p = JP { b, i: 0 }; let v = p.value()?; p.ws(); if p.i == b.len() { Some(v) } else { None } }
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') { self.i += 1 } }
    fn lit(&mut self, s: &[u8]) -> Option<()> { if self.b[self.i..].starts_with(s) { self.i += s.len(); Some(()) } else { None } }
    fn string(&mut self) -> Option<Vec<u8>> {
        self.lit(b"\"")?;
        let mut o = vec![];
        loop {
            let c = *self.b.get(self.i)?; self.i += 1;
            if c == b'"' { return Some(o) }
            if c < 0x20 { return None }
            if c == b'\\' {
                let e = *self.b.get(self.i)?; self.i += 1;
                match e {
                    b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'b' => o.push(8), b'f' => o.push(12), b'"' | b'\\' | b'/' => o.push(e),
                    b'u' => { let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?; let v = u32::from_str_radix(h, 16).ok()?; self.i += 4; let ch = char::from_u32(v)?; let mut t = [0; 4]; o.extend_from_slice(ch.encode_utf8(&mut t).as_bytes()) }
                    _ => return None,
                }
            } else { o.push(c) }
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'n' => { self.lit(b"null")?; Some(J::Null) }
            b't' => { self.lit(b"true")?; Some(J::Bool(true)) }
            b'f' => { self.lit(b"false")?; Some(J::Bool(false)) }
            b'"' => Some(J::Str(self.string()?)),
            b'[' => { self.i += 1; let mut v = vec![]; self.ws(); if self.b.get(self.i) == Some(&b']') { self.i += 1; return Some(J::List(v)) }
                loop { v.push(self.value()?); self.ws(); match *self.b.get(self.i)? { b',' => self.i += 1, b']' => { self.i += 1; return Some(J::List(v)) } _ => return None } } }
            b'{' => { self.i += 1; let mut v: Vec<(String, J)> = vec![]; self.ws(); if self.b.get(self.i) == Some(&b'}') { self.i += 1; return Some(J::Obj(v)) }
                loop { self.ws(); let k = String::from_utf8(self.string()?).ok()?; self.ws(); self.lit(b":")?; let x = self.value()?; if v.iter().any(|(n, _)| *n == k) { return None } v.push((k, x)); self.ws(); match *self.b.get(self.i)? { b',' => self.i += 1, b'}' => { self.i += 1; return Some(J::Obj(v)) } _ => return None } } }
            b'-' | b'0'..=b'9' => { let s = self.i; while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { self.i += 1 } Some(J::Num(self.b[s..self.i].to_vec())) }
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V { Var(String), Num(String), Str(String), Bool(bool), Null, Enum(String), List(Vec<V>), Obj(Vec<(String, V)>) }
#[derive(Clone, Debug)]
pub struct Dir { pub name: String, pub args: Vec<(String, V)> }
impl Dir { pub fn arg(&self, n: &str) -> Option<&V> { self.args.iter().find(|(k, _)| k == n).map(|(_, v)| v) } pub fn sarg(&self, n: &str) -> Option<String> { match self.arg(n) { Some(V::Str(s)) | Some(V::Enum(s)) => Some(s.clone()), _ => None } } pub fn barg(&self, n: &str) -> Option<bool> { match self.arg(n) { Some(V::Bool(b)) => Some(*b), _ => None } } }
#[derive(Clone, Debug)]
pub struct Field { pub alias: Option<String>, pub name: String, pub args: Vec<(String, V)>, pub dirs: Vec<Dir>, pub sel: Vec<Sel> }
impl Field { pub fn key(&self) -> &str { self.alias.as_deref().unwrap_or(&self.name) } }
#[derive(Clone, Debug)]
pub enum Sel { Field(Field), Spread(String, Vec<Dir>), Inline(Option<String>, Vec<Dir>, Vec<Sel>) }
#[derive(Clone, Debug)]
pub struct Op { pub kind: String, pub name: Option<String>, pub vars: Vec<(String, Ty, Option<V>)>, pub dirs: Vec<Dir>, pub sel: Vec<Sel> }
#[derive(Clone, Debug, Default)]
pub struct Doc { pub ops: Vec<Op>, pub frags: BTreeMap<String, (String, Vec<Sel>)>, /** all definitions in order */ pub fdefs: Vec<(String, String, Vec<Dir>, Vec<Sel>)> }
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Named(String), List(Box<Ty>), NonNull(Box<Ty>) }
impl Ty { pub fn name(&self) -> &str { match self { Ty::Named(n) => n, Ty::List(t) | Ty::NonNull(t) => t.name() } } pub fn nullable(&self) -> bool { !matches!(self, Ty::NonNull(_)) } pub fn inner(&self) -> &Ty { match self { Ty::NonNull(t) => t, t => t } } }
#[derive(Clone, Debug)]
pub struct FDef { pub name: String, pub ty: Ty, pub args: Vec<(String, Ty, Option<V>)>, pub dirs: Vec<Dir> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Scalar, Object, Interface, Union, Enum, Input }
#[derive(Clone, Debug)]
pub struct TDef { pub kind: Kind, pub name: String, pub fields: Vec<FDef>, pub members: Vec<String>, pub dirs: Vec<Dir>, pub values: Vec<(String, Vec<Dir>)> }

#[derive(Clone, Debug, PartialEq)]
enum T { Name(String), Num(String), Str(String), P(char), Spread }
pub struct P { t: Vec<T>, i: usize }
impl P {
    fn lex(s: &str) -> Option<Vec<T>> {
        let b = s.as_bytes(); let mut i = 0; let mut o = vec![];
        while i < b.len() {
            let c = b[i];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' | b',' => i += 1,
                b'#' => while i < b.len() && b[i] != b'\n' { i += 1 },
                b'_' | b'a'..=b'z' | b'A'..=b'Z' => { let st = i; while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) { i += 1 } o.push(T::Name(s[st..i].to_string())) }
                b'-' | b'0'..=b'9' => { let st = i; i += 1; while i < b.len() && (matches!(b[i], b'.' | b'-' | b'+' | b'e' | b'E') || b[i].is_ascii_digit()) { i += 1 } o.push(T::Num(s[st..i].to_string())) }
                b'"' => if b[i..].starts_with(b"\"\"\"") { i += 3; let st = i; while !b[i..].starts_with(b"\"\"\"") { i += 1; if i >= b.len() { return None } } o.push(T::Str(s[st..i].to_string())); i += 3 }
                    else { i += 1; let mut v = vec![]; loop { let c = *b.get(i)?; i += 1; if c == b'"' { break } if c == b'\\' { let e = *b.get(i)?; i += 1; let x = match e { b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'b' => 8, b'f' => 12, b'"' | b'\\' | b'/' => e, b'u' => { let h = u32::from_str_radix(s.get(i..i + 4)?, 16).ok()?; i += 4; let mut t = [0; 4]; let c = char::from_u32(h)?; let e = c.encode_utf8(&mut t).as_bytes(); v.extend_from_slice(&e[..e.len() - 1]); e[e.len() - 1] } _ => return None }; v.push(x) } else if c < 0x20 { return None } else { v.push(c) } } o.push(T::Str(String::from_utf8(v).ok()?)) },
                b'.' => { if b[i..].starts_with(b"...") { o.push(T::Spread); i += 3 } else { return None } }
                b'{' | b'}' | b'(' | b')' | b'[' | b']' | b':' | b'!' | b'$' | b'@' | b'=' | b'|' | b'&' => { o.push(T::P(c as char)); i += 1 }
                _ => return None,
            }
        }
        Some(o)
    }
    fn peek(&self, c: char) -> bool { self.t.get(self.i) == Some(&T::P(c)) }
    fn eat(&mut self, c: char) -> bool { if self.peek(c) { self.i += 1; true } else { false } }
    fn need(&mut self, c: char) -> Option<()> { if self.eat(c) { Some(()) } else { None } }
    fn name(&mut self) -> Option<String> { match self.t.get(self.i)? { T::Name(n) => { let n = n.clone(); self.i += 1; Some(n) } _ => None } }
    fn kw(&mut self, k: &str) -> bool { if matches!(self.t.get(self.i), Some(T::Name(n)) if n == k) { self.i += 1; true } else { false } }
    fn value(&mut self) -> Option<V> {
        let t = self.t.get(self.i)?.clone(); self.i += 1;
        Some(match t {
            T::P('$') => V::Var(self.name()?), T::Num(n) => V::Num(n), T::Str(s) => V::Str(s),
            T::Name(n) => match n.as_str() { "true" => V::Bool(true), "false" => V::Bool(false), "null" => V::Null, _ => V::Enum(n) },
            T::P('[') => { let mut v = vec![]; while !self.eat(']') { v.push(self.value()?) } V::List(v) }
            T::P('{') => { let mut v = vec![]; while !self.eat('}') { let k = self.name()?; self.need(':')?; v.push((k, self.value()?)) } V::Obj(v) }
            _ => return None,
        })
    }
    fn args(&mut self) -> Option<Vec<(String, V)>> { let mut v = vec![]; if self.eat('(') { while !self.eat(')') { let k = self.name()?; self.need(':')?; v.push((k, self.value()?)) } if v.is_empty() { return None } } Some(v) }
    fn dirs(&mut self) -> Option<Vec<Dir>> { let mut v = vec![]; while self.eat('@') { let name = self.name()?; v.push(Dir { name, args: self.args()? }) } Some(v) }
    fn ty(&mut self) -> Option<Ty> { let t = if self.eat('[') { let t = self.ty()?; self.need(']')?; Ty::List(Box::new(t)) } else { Ty::Named(self.name()?) }; Some(if self.eat('!') { Ty::NonNull(Box::new(t)) } else { t }) }
    fn sels(&mut self) -> Option<Vec<Sel>> {
        self.need('{')?;
        let mut v = vec![];
        while !self.eat('}') {
            if self.t.get(self.i)? == &T::Spread {
                self.i += 1;
                if self.kw("on") { let n = self.name()?; let d = self.dirs()?; v.push(Sel::Inline(Some(n), d, self.sels()?)) }
                else if self.peek('@') || self.peek('{') { let d = self.dirs()?; v.push(Sel::Inline(None, d, self.sels()?)) }
                else { let n = self.name()?; v.push(Sel::Spread(n, self.dirs()?)) }
            } else {
                let a = self.name()?;
                let (alias, name) = if self.eat(':') { (Some(a), self.name()?) } else { (None, a) };
                let args = self.args()?; let dirs = self.dirs()?;
                let sel = if self.peek('{') { self.sels()? } else { vec![] };
                v.push(Sel::Field(Field { alias, name, args, dirs, sel }))
            }
        }
        if v.is_empty() { return None }
        Some(v)
    }
    pub fn doc(s: &str) -> Option<Doc> {
        let mut p = P { t: Self::lex(s)?, i: 0 }; let mut d = Doc::default();
        while p.i < p.t.len() {
            if p.kw("fragment") { let n = p.name()?; if !p.kw("on") { return None } let t = p.name()?; let dirs = p.dirs()?; let s = p.sels()?; d.fdefs.push((n.clone(), t.clone(), dirs, s.clone())); d.frags.insert(n, (t, s)); }
            else if p.peek('{') { let sel = p.sels()?; d.ops.push(Op { kind: "query".into(), name: None, vars: vec![], dirs: vec![], sel }) }
            else {
                let kind = p.name()?; if !matches!(kind.as_str(), "query" | "mutation" | "subscription") { return None }
                let name = if matches!(p.t.get(p.i), Some(T::Name(_))) { p.name() } else { None };
                let mut vars = vec![];
                if p.eat('(') { while !p.eat(')') { p.need('$')?; let n = p.name()?; p.need(':')?; let t = p.ty()?; let df = if p.eat('=') { Some(p.value()?) } else { None }; p.dirs()?; vars.push((n, t, df)) } }
                let dirs = p.dirs()?;
                let sel = p.sels()?;
                d.ops.push(Op { kind, name, vars, dirs, sel })
            }
        }
        Some(d)
    }
    /// field set such as `id organization { id }`
    pub fn field_set(s: &str) -> Option<Vec<Sel>> { let mut p = P { t: Self::lex(&format!("{{{s}}}"))?, i: 0 }; p.sels() }
    fn argdefs(&mut self, end: char) -> Option<Vec<(String, Ty, Option<V>)>> { let mut v = vec![]; while !self.eat(end) { self.desc(); let n = self.name()?; self.need(':')?; let t = self.ty()?; let d = if self.eat('=') { Some(self.value()?) } else { None }; self.dirs()?; v.push((n, t, d)) } Some(v) }
    fn desc(&mut self) { if matches!(self.t.get(self.i), Some(T::Str(_))) { self.i += 1 } }
    pub fn sdl(s: &str) -> Option<Vec<TDef>> {
        let mut p = P { t: Self::lex(s)?, i: 0 }; let mut o = vec![];
        while p.i < p.t.len() {
            p.desc();
            let k = p.name()?;
            match k.as_str() {
                "schema" => { p.dirs()?; p.need('{')?; let mut fields = vec![]; while !p.eat('}') { let n = p.name()?; p.need(':')?; fields.push(FDef { name: n, ty: p.ty()?, args: vec![], dirs: vec![] }) } o.push(TDef { kind: Kind::Scalar, name: "schema".into(), fields, members: vec![], dirs: vec![], values: vec![] }) }
                "directive" => { p.need('@')?; p.name()?; if p.eat('(') { p.argdefs(')')?; } p.kw("repeatable"); if !p.kw("on") { return None } p.eat('|'); p.name()?; while p.eat('|') { p.name()?; } }
                "scalar" => { let name = p.name()?; let dirs = p.dirs()?; o.push(TDef { kind: Kind::Scalar, name, fields: vec![], members: vec![], dirs, values: vec![] }) }
                "union" => { let name = p.name()?; let dirs = p.dirs()?; p.need('=')?; p.eat('|'); let mut m = vec![p.name()?]; while p.eat('|') { m.push(p.name()?) } o.push(TDef { kind: Kind::Union, name, fields: vec![], members: m, dirs, values: vec![] }) }
                "enum" => { let name = p.name()?; let dirs = p.dirs()?; p.need('{')?; let mut values = vec![]; while !p.eat('}') { p.desc(); let n = p.name()?; values.push((n, p.dirs()?)) } o.push(TDef { kind: Kind::Enum, name, fields: vec![], members: vec![], dirs, values }) }
                "type" | "interface" | "input" => {
                    let name = p.name()?; let mut members = vec![];
                    if p.kw("implements") { p.eat('&'); members.push(p.name()?); while p.eat('&') { members.push(p.name()?) } }
                    let dirs = p.dirs()?; let mut fields = vec![];
                    if p.eat('{') { while !p.eat('}') { p.desc(); let n = p.name()?; let args = if p.eat('(') { p.argdefs(')')? } else { vec![] }; p.need(':')?; let ty = p.ty()?; if p.eat('=') { p.value()?; } let dirs = p.dirs()?; fields.push(FDef { name: n, ty, args, dirs }) } }
                    o.push(TDef { kind: match k.as_str() { "type" => Kind::Object, "interface" => Kind::Interface, _ => Kind::Input }, name, fields, members, dirs, values: vec![] })
                }
                _ => return None,
            }
        }
        Some(o)
    }
}
