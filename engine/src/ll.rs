//! Textual LLVM IR: types, globals, and lazily decoded function bodies.
use crate::expr::FxMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, FOther(u32), Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Named(Rc<str>), Meta, Label }

#[derive(Clone, Debug)]
pub enum Cv { Int(u128), Fp(u64), Null, Undef, Zero, Str(Rc<Vec<u8>>), Agg(Rc<Vec<(Ty, Cv)>>), Splat(Rc<(Ty, Cv)>), Global(Rc<str>), Expr(Rc<CExpr>), Asm(Rc<str>, Rc<str>), Meta }
#[derive(Clone, Debug)]
pub enum CExpr { Gep(Ty, Vec<(Ty, Cv)>), Cast(String, Ty, Cv, Ty), Bin(String, Ty, Cv, Cv) }

#[derive(Clone, Debug)]
pub enum Val { Local(Rc<str>), C(Cv) }

pub struct P<'a> { pub s: &'a [u8], pub i: usize }

pub type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> { P { s, i: 0 } }
    pub fn ctx(&self) -> String { let a = self.i.min(self.s.len()); let b = (a + 80).min(self.s.len()); let c = a.saturating_sub(60); format!("...{} <HERE> {}", String::from_utf8_lossy(&self.s[c..a]), String::from_utf8_lossy(&self.s[a..b])) }
    pub fn err<T>(&self, m: &str) -> R<T> { Err(format!("parse error: {} at {}", m, self.ctx())) }
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] { b' ' | b'\t' | b'\n' | b'\r' => self.i += 1, b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } } _ => break }
        }
    }
    pub fn sp(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { self.err(&format!("expected '{}'", c as char)) } }
    pub fn word_peek(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.' || self.s[j] == b'-') { j += 1; }
        &self.s[self.i..j]
    }
    pub fn word(&mut self) -> &'a [u8] { let w = self.word_peek(); self.i += w.len(); w }
    pub fn eatw(&mut self, w: &str) -> bool { if self.word_peek() == w.as_bytes() { self.i += w.len(); true } else { false } }
    pub fn number(&mut self) -> R<u64> { let w = self.word(); std::str::from_utf8(w).unwrap().parse().or_else(|_| self.err("number")) }
    /// identifier after @ or % (already consumed)
    pub fn ident(&mut self) -> R<Rc<str>> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1; let mut j = st;
            while j < self.s.len() && self.s[j] != b'"' { j += 1; }
            let raw = &self.s[st..j]; self.i = j + 1;
            return Ok(unesc_str(raw));
        }
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; }
        if st == self.i { return self.err("identifier"); }
        Ok(Rc::from(std::str::from_utf8(&self.s[st..self.i]).unwrap()))
    }
    pub fn skip_parens(&mut self) -> R<()> {
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() { return self.err("unbalanced"); }
            match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
        Ok(())
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'[' => { self.i += 1; let n = self.number()?; if !self.eatw("x") { return self.err("x"); } let t = self.ty()?; self.expect(b']')?; Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.structty(true)?; self.expect(b'>')?; t }
                else { let n = self.number()?; if !self.eatw("x") { return self.err("x"); } let t = self.ty()?; self.expect(b'>')?; Ty::Vec(n, Rc::new(t)) }
            }
            b'{' => self.structty(false)?,
            b'%' => { self.i += 1; Ty::Named(self.ident()?) }
            _ => {
                let w = self.word();
                match w {
                    b"void" => Ty::Void, b"ptr" => { if self.eatw("addrspace") { self.skip_parens()?; } Ty::Ptr }
                    b"float" => Ty::F32, b"double" => Ty::F64, b"half" => Ty::FOther(16), b"bfloat" => Ty::FOther(16), b"fp128" => Ty::FOther(128), b"x86_fp80" => Ty::FOther(80),
                    b"metadata" => Ty::Meta, b"label" => Ty::Label, b"token" => Ty::Meta, b"opaque" => Ty::Void,
                    _ if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) => Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()),
                    _ => { self.i -= w.len(); return self.err("type"); }
                }
            }
        };
        Ok(t)
    }
    fn structty(&mut self, packed: bool) -> R<Ty> {
        self.expect(b'{')?;
        let mut v = vec![];
        if self.eat(b'}') { return Ok(Ty::Struct(Rc::new(v), packed)); }
        loop { v.push(self.ty()?); if self.eat(b',') { continue; } self.expect(b'}')?; break; }
        Ok(Ty::Struct(Rc::new(v), packed))
    }
    pub fn skip_attrs(&mut self) -> R<()> {
        // parameter / return attributes
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.i < self.s.len() && self.s[self.i] == b'=' { self.i += 1; if self.s[self.i] == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } } continue; }
            let w = self.word_peek();
            match w {
                b"zeroext" | b"signext" | b"noext" | b"inreg" | b"noalias" | b"nocapture" | b"nofree" | b"nest" | b"returned" | b"nonnull" | b"swiftself" | b"swifterror" | b"swiftasync" | b"immarg" | b"noundef" | b"readnone" | b"readonly" | b"writeonly" | b"allocptr" | b"allocalign" | b"writable" | b"dead_on_unwind" | b"dead_on_return" => {
                    self.i += w.len();
                    if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens()?; }
                }
                b"align" => { self.i += 5; self.sp(); if self.s[self.i] == b'(' { self.skip_parens()?; } else { self.number()?; } }
                b"alignstack" | b"dereferenceable" | b"dereferenceable_or_null" | b"range" | b"captures" | b"initializes" | b"nofpclass" | b"sret" | b"byval" | b"byref" | b"preallocated" | b"inalloca" | b"elementtype" => { self.i += w.len(); self.skip_parens()?; }
                _ => break,
            }
        }
        Ok(())
    }
    pub fn cstring(&mut self) -> R<Vec<u8>> {
        // at opening quote
        self.expect(b'"')?;
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.i] == b'\\' { out.push(b'\\'); self.i += 1; }
                    else { let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap(); out.push(u8::from_str_radix(h, 16).unwrap()); self.i += 2; }
                }
                _ => out.push(c),
            }
        }
        Ok(out)
    }
    pub fn val(&mut self, t: &Ty) -> R<Val> {
        let c = self.peek();
        if c == b'%' { self.i += 1; return Ok(Val::Local(self.ident()?)); }
        Ok(Val::C(self.cval(t)?))
    }
    pub fn cval(&mut self, t: &Ty) -> R<Cv> {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; Ok(Cv::Global(self.ident()?)) }
            b'!' => { // metadata operand
                self.i += 1;
                if self.peek() == b'{' { let mut d = 0; loop { match self.s[self.i] { b'{' => d += 1, b'}' => d -= 1, _ => {} } self.i += 1; if d == 0 { break; } } }
                else if self.peek() == b'"' { self.cstring()?; } else { let _ = self.word(); if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens()?; } }
                Ok(Cv::Meta)
            }
            b'[' => { self.i += 1; self.agg(b']') }
            b'{' => { self.i += 1; self.agg(b'}') }
            b'<' => { self.i += 1; if self.peek() == b'{' { self.i += 1; let v = self.agg(b'}')?; self.expect(b'>')?; Ok(v) } else { self.agg(b'>') } }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|_| format!("fp hex {}", w))? } else { (match w { "+qnan" => "nan", "-qnan" => "-nan", x => x }).parse::<f64>().map_err(|_| format!("fp {}", w))?.to_bits() };
                        if *t == Ty::F32 { Ok(Cv::Fp((f64::from_bits(bits) as f32).to_bits() as u64)) } else { Ok(Cv::Fp(bits)) }
                    }
                    Ty::FOther(_) => Ok(Cv::Undef),
                    _ => if let Some(n) = w.strip_prefix('-') { let v: u128 = n.parse().map_err(|_| format!("int {}", w))?; Ok(Cv::Int(v.wrapping_neg())) } else { match w.parse() { Ok(v) => Ok(Cv::Int(v)), Err(_) => Ok(Cv::Undef) } },
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"null" => Ok(Cv::Null), b"none" => Ok(Cv::Null),
                    b"true" => Ok(Cv::Int(1)), b"false" => Ok(Cv::Int(0)),
                    b"undef" | b"poison" => Ok(Cv::Undef), b"zeroinitializer" => Ok(Cv::Zero),
                    b"c" => Ok(Cv::Str(Rc::new(self.cstring()?))),
                    b"splat" => { self.expect(b'(')?; let t = self.ty()?; let v = self.cval(&t)?; self.expect(b')')?; Ok(Cv::Splat(Rc::new((t, v)))) }
                    b"getelementptr" => {
                        while !(self.peek() == b'(') { let w = self.word(); if w.is_empty() { return self.err("gep"); } if w == b"inrange" { self.skip_parens()?; } }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let mut ops = vec![];
                        while self.eat(b',') { self.eatw("inrange"); let tt = self.ty()?; let v = self.cval(&tt)?; ops.push((tt, v)); }
                        self.expect(b')')?;
                        Ok(Cv::Expr(Rc::new(CExpr::Gep(t, ops))))
                    }
                    b"ptrtoint" | b"ptrtoaddr" | b"inttoptr" | b"trunc" | b"bitcast" | b"zext" | b"sext" | b"addrspacecast" => {
                        self.expect(b'(')?; let t1 = self.ty()?; let v = self.cval(&t1)?; if !self.eatw("to") { return self.err("to"); } let t2 = self.ty()?; self.expect(b')')?;
                        Ok(Cv::Expr(Rc::new(CExpr::Cast(String::from_utf8_lossy(w).into_owned(), t1, v, t2))))
                    }
                    b"add" | b"sub" | b"mul" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect(b'(')?; let t1 = self.ty()?; let a = self.cval(&t1)?; self.expect(b',')?; let t2 = self.ty()?; let b = self.cval(&t2)?; self.expect(b')')?;
                        Ok(Cv::Expr(Rc::new(CExpr::Bin(String::from_utf8_lossy(w).into_owned(), t1, a, b))))
                    }
                    b"asm" => {
                        while self.peek() != b'"' { self.word(); }
                        let a = self.cstring()?; self.expect(b',')?; let b = { self.ws(); self.cstring()? };
                        Ok(Cv::Asm(Rc::from(String::from_utf8_lossy(&a).as_ref()), Rc::from(String::from_utf8_lossy(&b).as_ref())))
                    }
                    b"dso_local_equivalent" | b"no_cfi" => { self.expect(b'@')?; Ok(Cv::Global(self.ident()?)) }
                    b"blockaddress" => { self.skip_parens()?; Ok(Cv::Undef) }
                    _ => {
                        if w.starts_with(b"f0x") {
                            let h = std::str::from_utf8(&w[3..]).unwrap();
                            return match t { Ty::F64 | Ty::F32 => Ok(Cv::Fp(u64::from_str_radix(h, 16).map_err(|_| format!("fp hex {}", h))?)), _ => Ok(Cv::Undef) };
                        }
                        if matches!(t, Ty::F64 | Ty::F32) { if w == b"inf" { return Ok(Cv::Fp(if *t == Ty::F64 { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 })); } if w == b"nan" { return Ok(Cv::Fp(if *t == Ty::F64 { f64::NAN.to_bits() } else { f32::NAN.to_bits() as u64 })); } }
                        self.i -= w.len(); self.err("constant")
                    }
                }
            }
        }
    }
    fn agg(&mut self, close: u8) -> R<Cv> {
        let mut v = vec![];
        if self.eat(close) { return Ok(Cv::Agg(Rc::new(v))); }
        loop { let t = self.ty()?; let c = self.cval(&t)?; v.push((t, c)); if self.eat(b',') { continue; } self.expect(close)?; break; }
        Ok(Cv::Agg(Rc::new(v)))
    }
}

fn unesc_str(raw: &[u8]) -> Rc<str> {
    let mut out = vec![]; let mut i = 0;
    while i < raw.len() {
        if raw[i] == b'\\' && i + 2 < raw.len() + 0 && raw[i + 1].is_ascii_hexdigit() { out.push(u8::from_str_radix(std::str::from_utf8(&raw[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3; }
        else { out.push(raw[i]); i += 1; }
    }
    Rc::from(String::from_utf8_lossy(&out).as_ref())
}

pub struct Global { pub name: Rc<str>, pub text: (usize, usize), pub constant: bool, pub external: bool, pub addr: u64, pub size: u64, pub ty: Ty }
pub struct FuncDecl { pub name: Rc<str>, pub text: (usize, usize), pub defined: bool }

pub struct Module {
    pub src: &'static [u8],
    pub named: FxMap<Rc<str>, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    pub syms: FxMap<Rc<str>, Sym>,
    pub aliases: Vec<(Rc<str>, Cv)>,
}
#[derive(Clone, Copy, Debug)]
pub enum Sym { G(u32), F(u32), Alias(u32) }

impl Module {
    pub fn load(src: &'static [u8]) -> R<Module> {
        let mut m = Module { src, named: Default::default(), globals: vec![], funcs: vec![], syms: Default::default(), aliases: vec![] };
        let mut i = 0;
        let n = src.len();
        let mut pending_globals: Vec<(Rc<str>, usize, usize)> = vec![];
        while i < n {
            // at line start
            let eol = memchr(src, b'\n', i);
            let line = &src[i..eol];
            match line.first() {
                Some(b'%') => {
                    let mut p = P::new(line); p.i = 1; let name = p.ident()?; p.expect(b'=')?; if !p.eatw("type") { return p.err("type"); }
                    let t = p.ty()?; m.named.insert(name, t);
                }
                Some(b'@') => {
                    let mut p = P::new(line); p.i = 1; let name = p.ident()?; p.expect(b'=')?; p.ws();
                    pending_globals.push((name, i + p.i, eol));
                }
                Some(b'd') if line.starts_with(b"define") => {
                    let name = func_name(line)?;
                    // find end: "\n}"
                    let mut j = eol;
                    loop { let k = memchr(src, b'\n', j); if k >= n { return Err("unterminated function".into()); } if src.get(k + 1) == Some(&b'}') { j = k + 1; break; } j = k + 1; }
                    let id = m.funcs.len() as u32;
                    m.funcs.push(FuncDecl { name: name.clone(), text: (i, j), defined: true });
                    m.syms.insert(name, Sym::F(id));
                    i = memchr(src, b'\n', j) + 1;
                    continue;
                }
                Some(b'd') if line.starts_with(b"declare") => {
                    let name = func_name(line)?;
                    let id = m.funcs.len() as u32;
                    m.funcs.push(FuncDecl { name: name.clone(), text: (i, eol), defined: false });
                    m.syms.insert(name, Sym::F(id));
                }
                _ => {}
            }
            i = eol + 1;
        }
        for (name, a, b) in pending_globals {
            let mut p = P::new(&src[..b]); p.i = a;
            let mut external = false; let mut constant = false; let mut alias = false;
            loop {
                let w = p.word();
                match w {
                    b"external" | b"extern_weak" => external = true,
                    b"global" => break, b"constant" => { constant = true; break }
                    b"alias" | b"ifunc" => { alias = true; break }
                    b"addrspace" | b"thread_local" => { if p.peek() == b'(' { p.skip_parens()?; } }
                    b"" => return p.err("global header"),
                    _ => {}
                }
            }
            if alias {
                let _t = p.ty()?; p.expect(b',')?; let t2 = p.ty()?; let c = p.cval(&t2)?;
                let id = m.aliases.len() as u32; m.aliases.push((name.clone(), c)); m.syms.insert(name, Sym::Alias(id));
                continue;
            }
            let ty = p.ty()?;
            p.ws();
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: name.clone(), text: (p.i, b), constant, external, addr: 0, size: 0, ty });
            m.syms.insert(name, Sym::G(id));
        }
        for k in 0..m.globals.len() { let s = m.size(&m.globals[k].ty.clone()); m.globals[k].size = s; }
        Ok(m)
    }
    pub fn resolve(&self, t: &Ty) -> Ty { match t { Ty::Named(n) => self.named.get(n).cloned().unwrap_or(Ty::Struct(Rc::new(vec![]), false)), t => t.clone() } }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::FOther(16) => 2, Ty::FOther(_) => 16,
            Ty::Arr(_, e) => self.align(e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| self.align(f)).max().unwrap_or(1) },
            Ty::Named(_) => { let r = self.resolve(t); self.align(&r) }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::FOther(16) => 2, Ty::FOther(_) => 16,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Vec(n, e) => { let bits = n * self.bits(e); (bits + 7) / 8 }
            Ty::Struct(fs, packed) => {
                let mut o = 0; for f in fs.iter() { if !packed { let a = self.align(f); o = (o + a - 1) / a * a; } o += self.size(f); }
                if !packed { let a = self.align(t); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Named(_) => { let r = self.resolve(t); self.size(&r) }
            _ => 0,
        }
    }
    pub fn bits(&self, t: &Ty) -> u64 { match t { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::FOther(n) => *n as u64, Ty::Vec(n, e) => n * self.bits(e), _ => self.size(t) * 8 } }
    pub fn field_off(&self, fs: &[Ty], packed: bool, idx: usize) -> u64 {
        let mut o = 0;
        for (k, f) in fs.iter().enumerate() { if !packed { let a = self.align(f); o = (o + a - 1) / a * a; } if k == idx { return o; } o += self.size(f); }
        o
    }
    /// number of register slots
    pub fn slots(&self, t: &Ty) -> u32 {
        match t {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(w) => (w + 63) / 64, Ty::Ptr | Ty::F32 | Ty::F64 => 1, Ty::FOther(n) => if *n <= 64 { 1 } else { 2 },
            Ty::Arr(n, e) | Ty::Vec(n, e) => *n as u32 * self.slots(e),
            Ty::Struct(fs, _) => fs.iter().map(|f| self.slots(f)).sum(),
            Ty::Named(_) => { let r = self.resolve(t); self.slots(&r) }
        }
    }
    /// flatten into scalar leaves (byte offset, leaf type)
    pub fn leaves(&self, t: &Ty, off: u64, out: &mut Vec<(u64, Ty)>) {
        match t {
            Ty::Void | Ty::Meta | Ty::Label => {}
            Ty::Arr(n, e) => { let s = self.size(e); for k in 0..*n { self.leaves(e, off + k * s, out); } }
            Ty::Struct(fs, p) => { for k in 0..fs.len() { let o = self.field_off(fs, *p, k); self.leaves(&fs[k], off + o, out); } }
            Ty::Named(_) => { let r = self.resolve(t); self.leaves(&r, off, out) }
            _ => out.push((off, t.clone())),
        }
    }
}

pub fn memchr(s: &[u8], c: u8, from: usize) -> usize { match s[from.min(s.len())..].iter().position(|&x| x == c) { Some(k) => from + k, None => s.len() } }

fn func_name(line: &[u8]) -> R<Rc<str>> {
    // the function name is the first '@' outside quotes that is followed by ident and '('
    let mut i = 0; let mut depth = 0;
    while i < line.len() {
        match line[i] {
            b'"' => { i += 1; while i < line.len() && line[i] != b'"' { i += 1; } }
            b'(' => depth += 1, b')' => depth -= 1,
            b'@' if depth == 0 => { let mut p = P::new(line); p.i = i + 1; return p.ident(); }
            _ => {}
        }
        i += 1;
    }
    Err(format!("no function name: {}", String::from_utf8_lossy(&line[..line.len().min(200)])))
}
