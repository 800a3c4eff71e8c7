//! Hash-consed bit-vector expression DAG with simplification and evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Extract, Concat, ZExt, SExt,
    // floating point over bit patterns; width of operands 32 or 64
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FUno,
    SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc,
}
use Op::*;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct VarInfo { pub name: String, pub w: u8 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub vars: Vec<VarInfo>,
    varsets: Vec<Option<Rc<[u32]>>>,
    tts: FxMap<E, [u64; 4]>,
}

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u8) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold_bin(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y),
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        And => x & y, Or => x | y, Xor => x ^ y,
        Shl => if y >= w as u128 { 0 } else { x << y },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => { let s = sx(x, w); if y >= w as u128 { if s < 0 { m } else { 0 } } else { (s >> y) as u128 } }
        Eq => (x == y) as u128, Ult => (x < y) as u128,
        _ => unreachable!(),
    };
    r & m
}

fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }
pub fn fold_f(op: Op, w: u8, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64b(x), f64b(y));
        match op { FAdd => (a + b).to_bits() as u128, FSub => (a - b).to_bits() as u128, FMul => (a * b).to_bits() as u128, FDiv => (a / b).to_bits() as u128,
            FLt => (a < b) as u128, FLe => (a <= b) as u128, FEq => (a == b) as u128, FUno => (a.is_nan() || b.is_nan()) as u128, _ => unreachable!() }
    } else {
        let (a, b) = (f32b(x), f32b(y));
        match op { FAdd => (a + b).to_bits() as u128, FSub => (a - b).to_bits() as u128, FMul => (a * b).to_bits() as u128, FDiv => (a / b).to_bits() as u128,
            FLt => (a < b) as u128, FLe => (a <= b) as u128, FEq => (a == b) as u128, FUno => (a.is_nan() || b.is_nan()) as u128, _ => unreachable!() }
    }
}
/// float conversions: op, result width w, source width sw
pub fn fold_fc(op: Op, w: u8, sw: u8, x: u128) -> u128 {
    match op {
        SiToFp => { let v = sx(x, sw); if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
        UiToFp => { if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        FpToSi => { let v = if sw == 64 { f64b(x) as i128 } else { f32b(x) as i128 };
            let (lo, hi) = (-(1i128 << (w - 1).min(126)), (1i128 << (w - 1).min(126)) - 1); (v.clamp(lo, hi) as u128) & mask(w) }
        FpToUi => { let v = if sw == 64 { f64b(x) as u128 } else { f32b(x) as u128 }; v.min(mask(w)) }
        FpExt => (f32b(x) as f64).to_bits() as u128,
        FpTrunc => (f64b(x) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

pub struct Model { pub vals: Vec<u64>, pub memo: std::cell::RefCell<FxMap<E, u128>> }
impl Model { pub fn new(vals: Vec<u64>) -> Rc<Model> { Rc::new(Model { vals, memo: Default::default() }) } }

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], map: Default::default(), vars: vec![], varsets: vec![], tts: Default::default() };
        c.nodes.push(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX }); // id 0 reserved
        c.varsets.push(Some(Rc::from(vec![])));
        c
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.varsets.push(None);
        self.map.insert(n, id);
        id
    }
    pub fn dump(&self, e: E, d: usize) -> String {
        let n = self.n(e);
        match n.op { Const => format!("{:#x}", n.k), Var => format!("v{}", n.a), _ if d == 0 => "..".into(),
            Extract => format!("ext{}({},{})", n.w, self.dump(n.a, d - 1), n.k), ZExt | SExt => format!("{:?}{}({})", n.op, n.w, self.dump(n.a, d - 1)),
            Ite => format!("ite({},{},{})", self.dump(n.a, d - 1), self.dump(n.b, d - 1), self.dump(n.c, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.dump(n.a, d - 1), self.dump(n.b, d - 1)) }
    }
    #[inline] pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn cst(&mut self, k: u128, w: u8) -> E { let k = k & mask(w); self.mk(Node { op: Const, w, a: 0, b: 0, c: 0, k }) }
    pub fn var(&mut self, name: &str, w: u8) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w });
        let e = self.mk(Node { op: Var, w, a: id, b: 0, c: 0, k: 0 });
        self.varsets[e as usize] = Some(Rc::from(vec![id]));
        e
    }
    #[inline] pub fn isc(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Const { Some(n.k) } else { None } }
    pub fn varset(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.varsets[e as usize] { return v.clone(); }
        // iterative post-order
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.varsets[x as usize].is_some() { st.pop(); continue; }
            let n = self.nodes[x as usize];
            let mut ready = true;
            for k in self.kids(&n) { if k != 0 && self.varsets[k as usize].is_none() { st.push(k); ready = false; } }
            if !ready { continue; }
            let mut out: Option<Rc<[u32]>> = None;
            for k in self.kids(&n) {
                if k == 0 { continue; }
                let s = self.varsets[k as usize].clone().unwrap();
                if s.is_empty() { continue; }
                out = Some(match out {
                    None => s,
                    Some(o) => if Rc::ptr_eq(&o, &s) || *o == *s { o } else {
                        let mut v: Vec<u32> = o.iter().chain(s.iter()).copied().collect(); v.sort_unstable(); v.dedup();
                        if v.len() == o.len() { o } else if v.len() == s.len() { s } else { Rc::from(v) }
                    }
                });
            }
            self.varsets[x as usize] = Some(out.unwrap_or_else(|| Rc::from(vec![])));
            st.pop();
        }
        self.varsets[e as usize].clone().unwrap()
    }
    pub fn kids(&self, n: &Node) -> [E; 3] {
        match n.op { Const | Var => [0, 0, 0], _ => [n.a, n.b, n.c] }
    }

    // ---------- builders ----------
    pub fn not(&mut self, a: E) -> E { let o = self.cst(1, 1); debug_assert!(self.w(a) == 1); self.bin(Xor, a, o) }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (mut a, mut b) = (a, b);
        let (ca, cb) = (self.isc(a), self.isc(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(fold_bin(op, w, x, y), w); }
        let comm = matches!(op, Add | Mul | And | Or | Xor);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
                And if y == m => return a,
                And | Mul if y == 0 => return self.cst(0, w),
                Or if y == m => return self.cst(m, w),
                Mul | UDiv | SDiv if y == 1 => return a,
                URem if y == 1 => return self.cst(0, w),
                _ => {}
            }
            if op == Sub { let k = self.cst(y.wrapping_neg(), w); return self.bin(Add, a, k); }
            if matches!(op, Shl | LShr) && y >= w as u128 { return self.cst(0, w); }
            if op == Shl { let s = y as u8; let hi = self.extract(a, 0, w - s); let z = self.cst(0, s); return self.concat(hi, z); }
            if op == LShr { let s = y as u8; let hi = self.extract(a, s, w - s); return self.zext(hi, w); }
            if op == Mul && y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.bin(Shl, a, k); }
            if op == UDiv && y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.bin(LShr, a, k); }
            if op == URem && y.is_power_of_two() { let k = self.cst(y - 1, w); return self.bin(And, a, k); }
            let na = *self.n(a);
            if matches!(op, Add | And | Or | Xor | Mul) && na.op == op {
                if let Some(z) = self.isc(na.b) { let k = self.cst(fold_bin(op, w, y, z), w); return self.bin(op, na.a, k); }
            }
            if na.op == Ite && w <= 64 {
                if self.isc(na.b).is_some() && self.isc(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let z = self.bin(op, na.c, b); return self.ite(na.a, x, z);
                }
            }
            if op == And {
                if na.op == ZExt {
                    let sw = self.w(na.a);
                    if y & mask(sw) == mask(sw) { return a; }
                    let k = self.cst(y, sw); let x = self.bin(And, na.a, k); return self.zext(x, w);
                }
                // low mask -> zext(extract)
                if (y + 1).is_power_of_two() && w < 128 {
                    let n = y.count_ones() as u8; let x = self.extract(a, 0, n); return self.zext(x, w);
                }
                if na.op == Concat {
                    let lw = self.w(na.b);
                    let kl = self.cst(y, lw); let kh = self.cst(y >> lw, w - lw);
                    let l = self.bin(And, na.b, kl); let h = self.bin(And, na.a, kh);
                    return self.concat(h, l);
                }
            }
            if matches!(op, Or | Xor) && na.op == Concat {
                let lw = self.w(na.b);
                let kl = self.cst(y, lw); let kh = self.cst(y >> lw, w - lw);
                let l = self.bin(op, na.b, kl); let h = self.bin(op, na.a, kh);
                return self.concat(h, l);
            }
            if matches!(op, Or | Xor) && na.op == ZExt {
                let sw = self.w(na.a);
                let kl = self.cst(y, sw); let kh = self.cst(y >> sw, w - sw);
                let l = self.bin(op, na.a, kl);
                return self.concat(kh, l);
            }
        } else {
            if a == b {
                match op { Sub | Xor => return self.cst(0, w), And | Or => return a, _ => {} }
            }
            let (na, nb) = (*self.n(a), *self.n(b));
            if w == 1 && matches!(op, And | Or) {
                // x & !x, x | !x
                let neg = |n: &Node| n.op == Xor && n.w == 1;
                if (neg(&na) && na.a == b && self.isc(na.b) == Some(1)) || (neg(&nb) && nb.a == a && self.isc(nb.b) == Some(1)) {
                    return self.cst(if op == And { 0 } else { 1 }, 1);
                }
            }
            if matches!(op, And | Or | Xor) && na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                let x = self.bin(op, na.a, nb.a); return self.zext(x, w);
            }
            if matches!(op, Or | Add | Xor) {
                // concat(h, 0) | zext(l)
                for (p, q) in [(na, nb), (nb, na)] {
                    if p.op == Concat && self.isc(p.b) == Some(0) {
                        let lw = self.w(p.b);
                        if q.op == ZExt && self.w(q.a) <= lw { let l = self.zext(q.a, lw); return self.concat(p.a, l); }
                    }
                }
                if na.op == Concat && nb.op == Concat && op != Add {
                    let lw = self.w(na.b);
                    if self.w(nb.b) == lw {
                        let h = self.bin(op, na.a, nb.a); let l = self.bin(op, na.b, nb.b); return self.concat(h, l);
                    }
                    // split when one low part is zero
                    for (p, q, qe) in [(na, nb, b), (nb, na, a)] {
                        let plw = self.w(p.b);
                        if self.isc(p.b) == Some(0) && plw > self.w(q.b) {
                            let ql = self.extract(qe, 0, plw); let qh = self.extract(qe, plw, w - plw);
                            let h = self.bin(op, p.a, qh);
                            return self.concat(h, ql);
                        }
                    }
                }
            }
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(1, 1); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        if self.isc(a).is_some() || (self.isc(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        let na = *self.n(a);
        if let Some(y) = self.isc(b) {
            if let Some(x) = self.isc(a) { return self.cst((x == y) as u128, 1); }
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            match na.op {
                ZExt => { let sw = self.w(na.a); if y >> sw != 0 { return self.cst(0, 1); } let k = self.cst(y, sw); return self.eq(na.a, k); }
                SExt => { let sw = self.w(na.a); let t = y & mask(sw); if (sx(t, sw) as u128) & mask(w) != y { return self.cst(0, 1); } let k = self.cst(t, sw); return self.eq(na.a, k); }
                Concat => { let lw = self.w(na.b); let kl = self.cst(y, lw); let kh = self.cst(y >> lw, w - lw); let h = self.eq(na.a, kh); let l = self.eq(na.b, kl); return self.bin(And, h, l); }
                Add => if let Some(z) = self.isc(na.b) { let k = self.cst(y.wrapping_sub(z), w); return self.eq(na.a, k); },
                Xor => if let Some(z) = self.isc(na.b) { let k = self.cst(y ^ z, w); return self.eq(na.a, k); },
                Ite => {
                    let (cb, cc) = (self.isc(na.b), self.isc(na.c));
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(na.b, b); let z = self.eq(na.c, b);
                        if self.isc(x).is_some() || self.isc(z).is_some() { return self.ite(na.a, x, z); }
                    }
                }
                And => if let Some(z) = self.isc(na.b) { if y & !z != 0 { return self.cst(0, 1); } },
                Or => if let Some(z) = self.isc(na.b) { if z & !y != 0 { return self.cst(0, 1); } },
                _ => {}
            }
        } else {
            let nb = *self.n(b);
            if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a); let l = self.eq(na.b, nb.b); return self.bin(And, h, l);
            }
        }
        self.mk(Node { op: Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(0, 1); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.isc(a), self.isc(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst((x < y) as u128, 1); }
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(y) = cb {
            if y == 0 { return self.cst(0, 1); }
            if y == 1 { let z = self.cst(0, w); return self.eq(a, z); }
            if y == mask(w) { let e = self.eq(a, b); return self.not(e); }
            if na.op == ZExt { let sw = self.w(na.a); if y > mask(sw) { return self.cst(1, 1); } let k = self.cst(y, sw); return self.ult(na.a, k); }
            if na.op == Ite && self.isc(na.b).is_some() && self.isc(na.c).is_some() { let x = self.ult(na.b, b); let z = self.ult(na.c, b); return self.ite(na.a, x, z); }
        }
        if let Some(x) = ca {
            if x == mask(w) { return self.cst(0, 1); }
            if x == 0 { let e = self.eq(b, a); return self.not(e); }
            if nb.op == ZExt { let sw = self.w(nb.a); if x >= mask(sw) { return self.cst(0, 1); } let k = self.cst(x, sw); return self.ult(k, nb.a); }
            if nb.op == Ite && self.isc(nb.b).is_some() && self.isc(nb.c).is_some() { let p = self.ult(a, nb.b); let q = self.ult(a, nb.c); return self.ite(nb.a, p, q); }
        }
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.ult(na.a, nb.a); }
        self.mk(Node { op: Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    fn nonneg(&self, e: E) -> bool { let n = self.n(e); match n.op { ZExt => self.w(n.a) < n.w, Const => (n.k >> (n.w - 1)) & 1 == 0, _ => false } }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(0, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.isc(a), self.isc(b)) { return self.cst((sx(x, w) < sx(y, w)) as u128, 1); }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        if self.isc(b) == Some(0) && w > 1 { // sign bit
            if self.nonneg(a) { return self.cst(0, 1); }
            return self.extract(a, w - 1, 1);
        }
        if self.isc(a) == Some(mask(w)) && w > 1 { // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1); return self.not(s);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if na.op == SExt {
            if let Some(y) = self.isc(b) { let sw = self.w(na.a); let yv = sx(y, w);
                if yv > sx(mask(sw) >> 1, w) { return self.cst(1, 1); }
                if yv <= -(1i128 << (sw - 1)) { return self.cst(0, 1); }
                let k = self.cst(y, sw); return self.slt(na.a, k); }
        }
        if nb.op == SExt {
            if let Some(y) = self.isc(a) { let sw = self.w(nb.a); let yv = sx(y, w);
                if yv >= sx(mask(sw) >> 1, w) { return self.cst(0, 1); }
                if yv < -(1i128 << (sw - 1)) { return self.cst(1, 1); }
                let k = self.cst(y, sw); return self.slt(k, nb.a); }
        }
        self.mk(Node { op: Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.isc(c) { return if k & 1 == 1 { a } else { b }; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = *self.n(c);
        if nc.op == Xor && nc.w == 1 && self.isc(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.isc(a), self.isc(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(And, n, b); }
                (None, Some(0)) => return self.bin(And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Or, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { let x = self.ite(c, na.a, nb.a); return self.zext(x, w); }
        self.mk(Node { op: Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32 && w > 0, "extract lo={} w={} of {}", lo, w, aw);
        if lo == 0 && w == aw { return a; }
        let n = *self.n(a);
        match n.op {
            Const => return self.cst(n.k >> lo, w),
            Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            ZExt => {
                let sw = self.w(n.a);
                if lo >= sw { return self.cst(0, w); }
                if lo + w <= sw { return self.extract(n.a, lo, w); }
                let l = self.extract(n.a, lo, sw - lo); return self.zext(l, w);
            }
            SExt => {
                let sw = self.w(n.a);
                if lo + w <= sw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo >= sw { let s = self.extract(n.a, sw - 1, 1); return self.sext(s, w); }
            }
            And | Or | Xor => {
                if self.isc(n.b).is_some() { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            }
            Add | Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Ite => {
                if self.isc(n.b).is_some() || self.isc(n.c).is_some() {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w as u32 == hw as u32 + lw as u32 && w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.isc(h), self.isc(l)) { return self.cst((x << lw) | y, w); }
        if self.isc(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (*self.n(h), *self.n(l));
        if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 { return self.extract(nh.a, nl.k as u8, w); }
        // extract + whole low value: concat(extract(x, lw, ..), extract(x,0,lw)) where low simplified to x itself is handled above
        if nh.op == Extract && nh.a == l && nh.k == lw as u128 && self.w(l) == lw { /* impossible: extract beyond width */ }
        // right-assoc merging: concat(a, concat(b, c)) with a,b adjacent extracts
        if nl.op == Concat {
            let nlh = *self.n(nl.a);
            if nh.op == Extract && nlh.op == Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u128 {
                let m = self.extract(nh.a, nlh.k as u8, hw + nlh.w);
                return self.concat(m, nl.b);
            }
            if let (Some(_), Some(_)) = (self.isc(h), self.isc(nl.a)) { let m = self.concat(h, nl.a); return self.concat(m, nl.b); }
        }
        if nh.op == Concat {
            if let (Some(_), Some(_)) = (self.isc(nh.b), self.isc(l)) { let m = self.concat(nh.b, l); return self.concat(nh.a, m); }
        }
        if nh.op == ZExt { // concat(zext a, l) -> zext(concat(a,l))
            let x = self.concat(nh.a, l); return self.zext(x, w);
        }
        self.mk(Node { op: Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(aw < w);
        let n = *self.n(a);
        match n.op { Const => return self.cst(n.k, w), ZExt => return self.zext(n.a, w), _ => {} }
        self.mk(Node { op: ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let n = *self.n(a);
        match n.op { Const => return self.cst(sx(n.k, aw) as u128, w), SExt => return self.sext(n.a, w), ZExt if self.w(n.a) < aw => return self.zext(n.a, w), _ => {} }
        self.mk(Node { op: SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.isc(a), self.isc(b)) {
            let r = fold_f(op, w, x, y);
            return self.cst(r, if matches!(op, FLt | FLe | FEq | FUno) { 1 } else { w });
        }
        let rw = if matches!(op, FLt | FLe | FEq | FUno) { 1 } else { w };
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    pub fn fconv(&mut self, op: Op, a: E, w: u8) -> E {
        let sw = self.w(a);
        if let Some(x) = self.isc(a) { let r = fold_fc(op, w, sw, x); return self.cst(r, w); }
        self.mk(Node { op, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn substitute_shift(&mut self, op: Op, a: E, b: E) -> E { self.bin(op, a, b) }

    // ---------- evaluation ----------
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let n = self.n(e);
        match n.op { Const => return n.k, Var => return (m.vals.get(n.a as usize).copied().unwrap_or(0) as u128) & mask(n.w), _ => {} }
        let mut memo = m.memo.borrow_mut();
        self.eval_with(e, &|v| m.vals.get(v as usize).copied().unwrap_or(0), &mut memo)
    }
    pub fn eval_with(&self, e: E, env: &dyn Fn(u32) -> u64, memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) { return v; }
        let mut st: Vec<E> = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) { st.pop(); continue; }
            let n = self.nodes[x as usize];
            let get = |k: E, memo: &FxMap<E, u128>| -> Option<u128> {
                let kn = &self.nodes[k as usize];
                match kn.op { Const => Some(kn.k), Var => Some(env(kn.a) as u128 & mask(kn.w)), _ => memo.get(&k).copied() }
            };
            let r = match n.op {
                Const => n.k,
                Var => env(n.a) as u128 & mask(n.w),
                Ite => {
                    match get(n.a, memo) {
                        None => { st.push(n.a); continue; }
                        Some(c) => { let k = if c & 1 == 1 { n.b } else { n.c }; match get(k, memo) { None => { st.push(k); continue; } Some(v) => v } }
                    }
                }
                Extract | ZExt | SExt | SiToFp | UiToFp | FpToSi | FpToUi | FpExt | FpTrunc => {
                    match get(n.a, memo) { None => { st.push(n.a); continue; } Some(v) => {
                        let sw = self.w(n.a);
                        match n.op { Extract => (v >> n.k as u32) & mask(n.w), ZExt => v, SExt => sx(v, sw) as u128 & mask(n.w), _ => fold_fc(n.op, n.w, sw, v) } } }
                }
                _ => {
                    let (x1, y1) = (get(n.a, memo), get(n.b, memo));
                    if x1.is_none() { st.push(n.a); }
                    if y1.is_none() { st.push(n.b); }
                    match (x1, y1) {
                        (Some(p), Some(q)) => {
                            let kw = self.w(n.a);
                            match n.op {
                                Eq => (p == q) as u128, Ult => (p < q) as u128, Slt => (sx(p, kw) < sx(q, kw)) as u128,
                                Concat => (p << self.w(n.b)) | q,
                                FAdd | FSub | FMul | FDiv | FLt | FLe | FEq | FUno => fold_f(n.op, kw, p, q),
                                _ => fold_bin(n.op, n.w, p, q),
                            }
                        }
                        _ => continue,
                    }
                }
            };
            memo.insert(x, r);
            st.pop();
        }
        memo[&e]
    }
    /// truth table of a 1-bit expression over its only variable (<= 8 bits wide)
    pub fn tt(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tts.get(&e) { return *t; }
        let vs = self.varset(e);
        assert!(vs.len() == 1);
        let w = self.vars[vs[0] as usize].w;
        let mut t = [0u64; 4];
        for v in 0..(1u64 << w) {
            let mut memo = Default::default();
            if self.eval_with(e, &|_| v, &mut memo) & 1 == 1 { t[(v / 64) as usize] |= 1 << (v % 64); }
        }
        self.tts.insert(e, t);
        t
    }
}
