//! Decoding of function bodies into a flat register machine.
use crate::expr::{FxMap, Op};
use crate::ll::*;
use crate::builtins::{self, B};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct S { pub e: u32, pub v: u64 }
pub const Z: S = S { e: 0, v: 0 };
#[inline(always)] pub fn cs(v: u64) -> S { S { e: 0, v } }

pub type Reg = u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToSi, FpToUi, SiToFp, UiToFp, Bits }

#[derive(Debug)]
pub struct Leaf { pub off: u32, pub w: u8, pub limbs: u8 } // w: bits in this 64-bit limb

#[derive(Debug)]
pub enum Callee { Direct(u32), Built(B), Indirect(Reg), Asm(Rc<str>) }
#[derive(Debug)]
pub struct CallI { pub d: Reg, pub dn: u32, pub dw: Vec<u8>, pub callee: Callee, pub args: Vec<(Reg, u32)>, pub argw: Vec<u16>, pub lanes: u32, pub name: Rc<str> }

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: Reg, a: Reg, b: Reg },
    BinV { op: Op, w: u8, lanes: u32, d: Reg, a: Reg, b: Reg },
    BinW { op: Op, w: u16, d: Reg, a: Reg, b: Reg },
    ICmp { p: Pred, w: u8, d: Reg, a: Reg, b: Reg },
    ICmpV { p: Pred, w: u8, lanes: u32, d: Reg, a: Reg, b: Reg },
    ICmpW { p: Pred, w: u16, d: Reg, a: Reg, b: Reg },
    FBin { op: Op, w: u8, lanes: u32, d: Reg, a: Reg, b: Reg },
    FRem { w: u8, d: Reg, a: Reg, b: Reg },
    FNeg { w: u8, lanes: u32, d: Reg, a: Reg },
    FCmp { p: u8, w: u8, lanes: u32, d: Reg, a: Reg, b: Reg },
    Cast { k: Cast, sw: u8, dw: u8, lanes: u32, d: Reg, a: Reg },
    CastW { k: Cast, sw: u16, dw: u16, d: Reg, a: Reg },
    /// bit-level reinterpretation between leaf lists
    Bitcast { d: Reg, a: Reg, sw: Box<[u8]>, dw: Box<[u8]> },
    Sel { d: Reg, c: Reg, a: Reg, b: Reg, ws: Box<[u8]> },
    SelV { d: Reg, c: Reg, a: Reg, b: Reg, lanes: u32, w: u8 },
    Load1 { d: Reg, p: Reg, bytes: u8, w: u8 },
    Load { d: Reg, p: Reg, leaves: Box<[Leaf]>, size: u32 },
    Store1 { p: Reg, a: Reg, bytes: u8, w: u8 },
    Store { p: Reg, a: Reg, leaves: Box<[Leaf]>, size: u32 },
    /// vector of sub-byte lanes (e.g. <16 x i1>) loads/stores
    LoadBits { d: Reg, p: Reg, lanes: u32, w: u8 },
    StoreBits { p: Reg, a: Reg, lanes: u32, w: u8 },
    Gep { d: Reg, base: Reg, k: u64, terms: Box<[(Reg, u64, u8)]> },
    Gep0 { d: Reg, base: Reg, k: u64 },
    Jmp(u32),
    Br { c: Reg, t: u32, f: u32 },
    Switch { a: Reg, w: u8, cases: Box<[(u64, u32)]>, def: u32 },
    Call(Box<CallI>),
    Ret { a: Reg, n: u32 },
    Copy { d: Reg, a: Reg, n: u32 },
    Alloca { d: Reg, n: Reg, size: u64 },
    FrameAddr { d: Reg, off: u32 },
    ExtE { d: Reg, a: Reg, i: Reg, n: u32, lanes: u32, iw: u8 },
    InsE { d: Reg, a: Reg, v: Reg, i: Reg, n: u32, lanes: u32, iw: u8 },
    Shuf { d: Reg, a: Reg, b: Reg, n: u32, lanes: u32, mask: Box<[i64]> },
    CmpXchg { d: Reg, p: Reg, c: Reg, n: Reg, bytes: u8 },
    Rmw { op: u8, d: Reg, p: Reg, v: Reg, bytes: u8, w: u8 },
    Nop,
    Unreachable,
    Unsup(Box<str>),
}

pub struct Edge { pub to: u32, pub copies: Box<[(Reg, Reg, u32)]> }
pub struct Func {
    pub id: u32, pub name: Rc<str>,
    pub nregs: u32, pub template: Vec<S>, pub params: Vec<(Reg, u32)>,
    pub code: Vec<Inst>, pub edges: Vec<Edge>, pub frame: u32,
    pub noreturn_panics: bool,
}

struct Env<'m> {
    m: &'m Module,
    consts: FxMap<u64, Reg>,
    template: Vec<S>,
    regs: FxMap<Rc<str>, (Reg, Ty)>,
}

/// Convert a constant to slots.
pub fn const_slots(m: &Module, t: &Ty, c: &Cv, out: &mut Vec<S>) -> R<()> {
    let n = m.slots(t);
    match c {
        Cv::Undef | Cv::Zero | Cv::Null | Cv::Meta => { for _ in 0..n { out.push(Z); } Ok(()) }
        Cv::Int(v) => { let w = m.bits(t).min(128) as u8; let v = v & crate::expr::mask(w); out.push(cs(v as u64)); if n >= 2 { out.push(cs((v >> 64) as u64)); for _ in 2..n { out.push(Z); } } Ok(()) }
        Cv::Fp(b) => { out.push(cs(*b)); Ok(()) }
        Cv::Global(_) | Cv::Expr(_) => { out.push(cs(const_int(m, t, c)?)); Ok(()) }
        Cv::Str(s) => { for b in s.iter() { out.push(cs(*b as u64)); } Ok(()) }
        Cv::Agg(v) => { for (t, c) in v.iter() { const_slots(m, t, c, out)?; } Ok(()) }
        Cv::Splat(tc) => { let k = match m.resolve(t) { Ty::Vec(n, _) => n, _ => return Err("splat".into()) }; for _ in 0..k { const_slots(m, &tc.0, &tc.1, out)?; } Ok(()) }
        Cv::Asm(..) => Err("asm constant".into()),
    }
}
pub fn sym_addr(m: &Module, name: &str) -> R<u64> {
    match m.syms.get(name) {
        Some(Sym::G(g)) => Ok(m.globals[*g as usize].addr),
        Some(Sym::F(f)) => { if !m.funcs[*f as usize].defined && builtins::weak_null(name) { Ok(0) } else { Ok(crate::exec::FUNC_BASE + (*f as u64) * 16) } }
        Some(Sym::Alias(a)) => { let c = m.aliases[*a as usize].1.clone(); const_int(m, &Ty::Ptr, &c) }
        None => Err(format!("unknown symbol {}", name)),
    }
}
pub fn const_int(m: &Module, t: &Ty, c: &Cv) -> R<u64> {
    Ok(match c {
        Cv::Undef | Cv::Zero | Cv::Null => 0,
        Cv::Int(v) => { let w = m.bits(t).min(64) as u8; (*v & crate::expr::mask(w)) as u64 }
        Cv::Fp(b) => *b,
        Cv::Global(g) => sym_addr(m, g)?,
        Cv::Expr(e) => match &**e {
            CExpr::Gep(ty, ops) => {
                let base = const_int(m, &ops[0].0, &ops[0].1)?;
                let mut off = 0u64; let mut cur = ty.clone();
                for (k, (it, iv)) in ops[1..].iter().enumerate() {
                    let idx = const_int(m, it, iv)?;
                    let idx = crate::expr::sx(idx as u128, m.bits(it) as u8) as i64 as u64;
                    if k == 0 { off = off.wrapping_add(idx.wrapping_mul(m.size(&cur))); continue; }
                    match m.resolve(&cur) {
                        Ty::Struct(fs, p) => { off = off.wrapping_add(m.field_off(&fs, p, idx as usize)); cur = fs[idx as usize].clone(); }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { off = off.wrapping_add(idx.wrapping_mul(m.size(&e))); cur = (*e).clone(); }
                        _ => return Err("gep const".into()),
                    }
                }
                base.wrapping_add(off)
            }
            CExpr::Cast(op, t1, v, t2) => { let x = const_int(m, t1, v)?; let w = m.bits(t2) as u8; let sw = m.bits(t1) as u8; (match op.as_str() { "sext" => crate::expr::sx(x as u128, sw) as u128, _ => x as u128 } & crate::expr::mask(w)) as u64 }
            CExpr::Bin(op, t1, a, b) => {
                let (x, y) = (const_int(m, t1, a)? as u128, const_int(m, t1, b)? as u128);
                let o = binop(op).ok_or("const bin")?; crate::expr::fold_bin(o, m.bits(t1) as u8, x, y) as u64
            }
        },
        _ => return Err(format!("const_int {:?}", c)),
    })
}
fn binop(s: &str) -> Option<Op> {
    Some(match s { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, _ => return None })
}

/// write a constant's bytes into memory image
pub fn const_bytes(m: &Module, t: &Ty, c: &Cv, buf: &mut [u8]) -> R<()> {
    match c {
        Cv::Undef | Cv::Zero | Cv::Null | Cv::Meta => Ok(()),
        Cv::Str(s) => { buf[..s.len()].copy_from_slice(s); Ok(()) }
        Cv::Agg(v) => {
            match m.resolve(t) {
                Ty::Struct(fs, p) => { for (k, (ft, fc)) in v.iter().enumerate() { let o = m.field_off(&fs, p, k) as usize; const_bytes(m, ft, fc, &mut buf[o..])?; } Ok(()) }
                Ty::Arr(_, e) | Ty::Vec(_, e) => { let s = m.size(&e) as usize; for (k, (ft, fc)) in v.iter().enumerate() { const_bytes(m, ft, fc, &mut buf[k * s..])?; } Ok(()) }
                _ => Err("agg const".into()),
            }
        }
        Cv::Splat(tc) => { let (n, e) = match m.resolve(t) { Ty::Vec(n, e) => (n, e), _ => return Err("splat".into()) }; let s = m.size(&e) as usize; for k in 0..n as usize { const_bytes(m, &tc.0, &tc.1, &mut buf[k * s..])?; } Ok(()) }
        Cv::Int(v) => { let n = m.size(t) as usize; let w = m.bits(t).min(128) as u8; let v = v & crate::expr::mask(w); let b = v.to_le_bytes(); for k in 0..n.min(16) { buf[k] = b[k]; } Ok(()) }
        _ => { let n = m.size(t) as usize; let v = const_int(m, t, c)?; let b = v.to_le_bytes(); for k in 0..n.min(8) { buf[k] = b[k]; } Ok(()) }
    }
}

enum Ast {
    Inst(AstK),
}
#[allow(clippy::large_enum_variant)]
enum AstK {
    Bin(Op, Ty, Val, Val), FBin(Op, Ty, Val, Val), FRem(Ty, Val, Val), FNeg(Ty, Val),
    ICmp(Pred, Ty, Val, Val), FCmp(u8, Ty, Val, Val),
    Cast(String, Ty, Val, Ty), Freeze(Ty, Val),
    Sel(Ty, Val, Ty, Val, Val),
    Load(Ty, Val), Store(Ty, Val, Val),
    Gep(Ty, Val, Vec<(Ty, Val)>, Ty),
    Alloca(Ty, Option<(Ty, Val)>),
    Br(Rc<str>), CondBr(Val, Rc<str>, Rc<str>), Switch(Ty, Val, Rc<str>, Vec<(u64, Rc<str>)>),
    Ret(Option<(Ty, Val)>), Unreachable,
    Call(Ty, Val, Vec<(Ty, Val)>, Option<Rc<str>>),
    ExtV(Ty, Val, Vec<u64>), InsV(Ty, Val, Ty, Val, Vec<u64>),
    ExtE(Ty, Val, Ty, Val), InsE(Ty, Val, Val, Ty, Val), Shuf(Ty, Val, Val, Ty, Cv),
    Phi(Ty, Vec<(Val, Rc<str>)>),
    CmpXchg(Ty, Val, Val, Val), Rmw(u8, Ty, Val, Val),
    Nop, Unsup(String, Ty),
}

fn skip_flags(p: &mut P) {
    loop {
        match p.word_peek() { b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" => { p.word(); } b"inrange" => { p.word(); let _ = p.skip_parens(); } _ => break }
    }
}

fn label(p: &mut P) -> R<Rc<str>> { if !p.eatw("label") { return p.err("label"); } p.expect(b'%')?; p.ident() }

fn parse_call(p: &mut P, invoke: bool) -> R<(AstK, Ty)> {
    skip_flags(p);
    // calling convention
    loop {
        match p.word_peek() {
            b"fastcc" | b"ccc" | b"coldcc" | b"preserve_mostcc" | b"preserve_allcc" | b"preserve_nonecc" | b"tailcc" | b"swiftcc" | b"win64cc" | b"x86_64_sysvcc" | b"x86_stdcallcc" => { p.word(); }
            b"cc" => { p.word(); p.number()?; }
            b"addrspace" => { p.word(); p.skip_parens()?; }
            _ => break,
        }
    }
    p.skip_attrs()?;
    let rt = p.ty()?;
    if p.peek() == b'(' { p.skip_parens()?; } // function type
    let callee = if p.word_peek() == b"asm" {
        p.word();
        while p.peek() != b'"' { p.word(); }
        let a = p.cstring()?; p.expect(b',')?; p.ws(); let b = p.cstring()?;
        Val::C(Cv::Asm(Rc::from(String::from_utf8_lossy(&a).as_ref()), Rc::from(String::from_utf8_lossy(&b).as_ref())))
    } else { p.val(&Ty::Ptr)? };
    p.expect(b'(')?;
    let mut args = vec![];
    if !p.eat(b')') {
        loop {
            let t = p.ty()?; p.skip_attrs()?;
            if t == Ty::Meta { 
                // skip metadata operand
                if p.peek() == b'!' { p.cval(&t)?; } else { let tt = p.ty()?; let _ = p.val(&tt)?; }
            } else { let v = p.val(&t)?; args.push((t, v)); }
            if p.eat(b',') { continue; }
            p.expect(b')')?; break;
        }
    }
    let mut normal = None;
    if invoke {
        // attributes, bundles, then "to label"
        loop {
            if p.eatw("to") { break; }
            let c = p.peek();
            if c == b'#' { p.i += 1; p.word(); } else if c == b'[' { while p.s[p.i] != b']' { p.i += 1; } p.i += 1; }
            else if c == b'"' { p.skip_attrs()?; }
            else if c == 0 { return p.err("invoke"); } else { p.i += 1; }
        }
        normal = Some(label(p)?);
        if !p.eatw("unwind") { return p.err("unwind"); }
        label(p)?;
    }
    Ok((AstK::Call(rt.clone(), callee, args, normal), rt))
}

fn result_gep(base: &Ty, idx: &[(Ty, Val)]) -> Ty {
    if let Ty::Vec(n, _) = base { return Ty::Vec(*n, Rc::new(Ty::Ptr)); }
    for (t, _) in idx { if let Ty::Vec(n, _) = t { return Ty::Vec(*n, Rc::new(Ty::Ptr)); } }
    Ty::Ptr
}

fn parse_inst(p: &mut P) -> R<(AstK, Ty)> {
    let w = p.word();
    let ws = std::str::from_utf8(w).unwrap();
    if let Some(op) = binop(ws) {
        skip_flags(p);
        let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let b = p.val(&t)?;
        return Ok((AstK::Bin(op, t.clone(), a, b), t));
    }
    Ok(match ws {
        "fadd" | "fsub" | "fmul" | "fdiv" => { skip_flags(p); let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let b = p.val(&t)?; let op = match ws { "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, _ => Op::FDiv }; (AstK::FBin(op, t.clone(), a, b), t) }
        "frem" => { skip_flags(p); let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let b = p.val(&t)?; (AstK::FRem(t.clone(), a, b), t) }
        "fneg" => { skip_flags(p); let t = p.ty()?; let a = p.val(&t)?; (AstK::FNeg(t.clone(), a), t) }
        "icmp" => {
            skip_flags(p);
            let pr = match p.word() { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => return p.err("pred") };
            let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let b = p.val(&t)?;
            let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
            (AstK::ICmp(pr, t, a, b), rt)
        }
        "fcmp" => {
            skip_flags(p);
            // encode: bit0 = lt, bit1 = eq, bit2 = gt, bit3 = uno
            let pr = match p.word() { b"false" => 0, b"oeq" => 2, b"ogt" => 4, b"oge" => 6, b"olt" => 1, b"ole" => 3, b"one" => 5, b"ord" => 7, b"uno" => 8, b"ueq" => 10, b"ugt" => 12, b"uge" => 14, b"ult" => 9, b"ule" => 11, b"une" => 13, b"true" => 15, _ => return p.err("fpred") };
            let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let b = p.val(&t)?;
            let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
            (AstK::FCmp(pr, t, a, b), rt)
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
            skip_flags(p);
            let t = p.ty()?; let a = p.val(&t)?; if !p.eatw("to") { return p.err("to"); } let t2 = p.ty()?;
            (AstK::Cast(ws.to_string(), t, a, t2.clone()), t2)
        }
        "freeze" => { let t = p.ty()?; let a = p.val(&t)?; (AstK::Freeze(t.clone(), a), t) }
        "select" => {
            skip_flags(p);
            let ct = p.ty()?; let c = p.val(&ct)?; p.expect(b',')?; let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let t2 = p.ty()?; let b = p.val(&t2)?;
            (AstK::Sel(ct, c, t.clone(), a, b), t)
        }
        "load" => {
            p.eatw("atomic"); p.eatw("volatile");
            let t = p.ty()?; p.expect(b',')?; let _pt = p.ty()?; let a = p.val(&Ty::Ptr)?;
            (AstK::Load(t.clone(), a), t)
        }
        "store" => {
            p.eatw("atomic"); p.eatw("volatile");
            let t = p.ty()?; let v = p.val(&t)?; p.expect(b',')?; let _pt = p.ty()?; let a = p.val(&Ty::Ptr)?;
            (AstK::Store(t, v, a), Ty::Void)
        }
        "getelementptr" => {
            skip_flags(p);
            let t = p.ty()?; p.expect(b',')?; let bt = p.ty()?; let b = p.val(&bt)?;
            let mut idx = vec![];
            while p.peek() == b',' {
                let save = p.i; p.i += 1;
                if p.peek() == b'!' { p.i = save; break; }
                let it = p.ty()?; let iv = p.val(&it)?; idx.push((it, iv));
            }
            let rt = result_gep(&bt, &idx);
            (AstK::Gep(t, b, idx, bt), rt)
        }
        "alloca" => {
            p.eatw("inalloca");
            let t = p.ty()?; let mut n = None;
            if p.peek() == b',' { let save = p.i; p.i += 1; if p.word_peek() == b"align" || p.peek() == b'!' || p.word_peek() == b"addrspace" { p.i = save; } else { let nt = p.ty()?; let nv = p.val(&nt)?; n = Some((nt, nv)); } }
            (AstK::Alloca(t, n), Ty::Ptr)
        }
        "br" => {
            if p.word_peek() == b"label" { let l = label(p)?; (AstK::Br(l), Ty::Void) }
            else { let t = p.ty()?; let c = p.val(&t)?; p.expect(b',')?; let a = label(p)?; p.expect(b',')?; let b = label(p)?; (AstK::CondBr(c, a, b), Ty::Void) }
        }
        "switch" => {
            let t = p.ty()?; let v = p.val(&t)?; p.expect(b',')?; let d = label(p)?; p.expect(b'[')?;
            let mut cases = vec![];
            while !p.eat(b']') { let ct = p.ty()?; let c = p.cval(&ct)?; p.expect(b',')?; let l = label(p)?; let k = match c { Cv::Int(k) => k, _ => 0 }; let w = if let Ty::Int(w) = ct { w.min(128) as u8 } else { 64 }; let k = k & crate::expr::mask(w); if k > u64::MAX as u128 { return p.err("wide switch"); } cases.push((k as u64, l)); }
            (AstK::Switch(t, v, d, cases), Ty::Void)
        }
        "ret" => { let t = p.ty()?; if t == Ty::Void { (AstK::Ret(None), Ty::Void) } else { let v = p.val(&t)?; (AstK::Ret(Some((t, v))), Ty::Void) } }
        "unreachable" => (AstK::Unreachable, Ty::Void),
        "tail" | "musttail" | "notail" => { p.word(); parse_call(p, false)? }
        "call" => parse_call(p, false)?,
        "invoke" => parse_call(p, true)?,
        "landingpad" => { let t = p.ty()?; loop { if p.eatw("cleanup") { continue; } if p.eatw("catch") || p.eatw("filter") { let tt = p.ty()?; p.cval(&tt)?; continue; } break; } (AstK::Unsup("landingpad".into(), t.clone()), t) }
        "resume" => { let t = p.ty()?; let _ = p.val(&t)?; (AstK::Unsup("resume".into(), Ty::Void), Ty::Void) }
        "extractvalue" => { let t = p.ty()?; let a = p.val(&t)?; let mut ix = vec![]; while p.peek() == b',' { let s = p.i; p.i += 1; if p.peek() == b'!' { p.i = s; break; } ix.push(p.number()?); } (AstK::ExtV(t, a, ix), Ty::Void) }
        "insertvalue" => { let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let t2 = p.ty()?; let v = p.val(&t2)?; let mut ix = vec![]; while p.peek() == b',' { let s = p.i; p.i += 1; if p.peek() == b'!' { p.i = s; break; } ix.push(p.number()?); } (AstK::InsV(t.clone(), a, t2, v, ix), t) }
        "extractelement" => { let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let it = p.ty()?; let i = p.val(&it)?; let rt = if let Ty::Vec(_, e) = &t { (**e).clone() } else { return p.err("vec") }; (AstK::ExtE(t, a, it, i), rt) }
        "insertelement" => { let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let et = p.ty()?; let v = p.val(&et)?; p.expect(b',')?; let it = p.ty()?; let i = p.val(&it)?; (AstK::InsE(t.clone(), a, v, it, i), t) }
        "shufflevector" => { let t = p.ty()?; let a = p.val(&t)?; p.expect(b',')?; let t2 = p.ty()?; let b = p.val(&t2)?; p.expect(b',')?; let mt = p.ty()?; let mk = p.cval(&mt)?; let n = if let Ty::Vec(n, _) = &mt { *n } else { 0 }; let e = if let Ty::Vec(_, e) = &t { e.clone() } else { return p.err("vec") }; (AstK::Shuf(t, a, b, mt, mk), Ty::Vec(n, e)) }
        "phi" => {
            skip_flags(p);
            let t = p.ty()?; let mut v = vec![];
            loop { p.expect(b'[')?; let x = p.val(&t)?; p.expect(b',')?; p.expect(b'%')?; let l = p.ident()?; p.expect(b']')?; v.push((x, l)); let s = p.i; if p.eat(b',') { if p.peek() == b'[' { continue; } p.i = s; } break; }
            (AstK::Phi(t.clone(), v), t)
        }
        "cmpxchg" => {
            p.eatw("weak"); p.eatw("volatile");
            let _ = p.ty()?; let a = p.val(&Ty::Ptr)?; p.expect(b',')?; let t = p.ty()?; let c = p.val(&t)?; p.expect(b',')?; let t2 = p.ty()?; let n = p.val(&t2)?;
            (AstK::CmpXchg(t.clone(), a, c, n), Ty::Struct(Rc::new(vec![t, Ty::Int(1)]), false))
        }
        "atomicrmw" => {
            p.eatw("volatile");
            let op = match p.word() { b"xchg" => 0, b"add" => 1, b"sub" => 2, b"and" => 3, b"nand" => 4, b"or" => 5, b"xor" => 6, b"max" => 7, b"min" => 8, b"umax" => 9, b"umin" => 10, _ => return p.err("rmw op") };
            let _ = p.ty()?; let a = p.val(&Ty::Ptr)?; p.expect(b',')?; let t = p.ty()?; let v = p.val(&t)?;
            (AstK::Rmw(op, t.clone(), a, v), t)
        }
        "fence" => (AstK::Nop, Ty::Void),
        "va_arg" | "indirectbr" | "callbr" | "cleanupret" | "catchret" | "catchswitch" | "catchpad" | "cleanuppad" => (AstK::Unsup(ws.to_string(), Ty::Void), Ty::Void),
        _ => { p.i -= w.len(); return p.err("instruction"); }
    })
}

impl<'m> Env<'m> {
    fn creg(&mut self, v: u64) -> Reg { if let Some(&r) = self.consts.get(&v) { return r; } let r = self.template.len() as Reg; self.template.push(cs(v)); self.consts.insert(v, r); r }
    fn op(&mut self, t: &Ty, v: &Val) -> R<Reg> {
        match v {
            Val::Local(n) => match self.regs.get(n) { Some((r, _)) => Ok(*r), None => Err(format!("undefined local %{}", n)) },
            Val::C(c) => {
                let mut out = vec![];
                const_slots(self.m, t, c, &mut out)?;
                if out.len() == 1 { return Ok(self.creg(out[0].v)); }
                let r = self.template.len() as Reg; self.template.extend(out); Ok(r)
            }
        }
    }
    fn new(&mut self, n: u32) -> Reg { let r = self.template.len() as Reg; for _ in 0..n { self.template.push(Z); } r }
}

fn vec_of(m: &Module, t: &Ty) -> (u32, Ty) { match m.resolve(t) { Ty::Vec(n, e) => (n as u32, (*e).clone()), t => (1, t) } }

/// widths of each slot of a type
pub fn slot_widths(m: &Module, t: &Ty) -> Vec<u8> {
    let mut lv = vec![]; m.leaves(t, 0, &mut lv);
    let mut out = vec![];
    for (_, t) in lv {
        let (n, e) = vec_of(m, &t);
        for _ in 0..n { let mut b = m.bits(&e) as i64; loop { out.push(b.min(64) as u8); b -= 64; if b <= 0 { break; } } }
    }
    out
}
fn mem_leaves(m: &Module, t: &Ty) -> Vec<Leaf> {
    let mut lv = vec![]; m.leaves(t, 0, &mut lv);
    let mut out = vec![];
    for (o, t) in lv {
        let (n, e) = vec_of(m, &t);
        let bits = m.bits(&e);
        for k in 0..n as u64 {
            let bo = o + k * (bits + 7) / 8 * 1;
            let base = if n > 1 { o + k * ((bits + 7) / 8) } else { bo };
            let mut b = bits as i64; let mut l = 0;
            loop { out.push(Leaf { off: (base + l * 8) as u32, w: b.min(64) as u8, limbs: 0 }); b -= 64; l += 1; if b <= 0 { break; } }
        }
    }
    out
}

pub fn decode(m: &Module, id: u32) -> R<Func> {
    let fd = &m.funcs[id as usize];
    let text = &m.src[fd.text.0..fd.text.1];
    decode_text(m, id, fd.name.clone(), text).map_err(|e| format!("in function {}: {}", fd.name, e))
}

fn decode_text(m: &Module, id: u32, name: Rc<str>, text: &[u8]) -> R<Func> {
    let eol = memchr(text, b'\n', 0);
    // ---- header: find '@' at depth 0
    let header = &text[..eol];
    let mut i = 0; let mut depth = 0;
    while i < header.len() { match header[i] { b'"' => { i += 1; while header[i] != b'"' { i += 1; } } b'(' => depth += 1, b')' => depth -= 1, b'@' if depth == 0 => break, _ => {} } i += 1; }
    let mut p = P::new(text);
    p.i = i + 1; p.ident()?;
    p.expect(b'(')?;
    let mut env = Env { m, consts: Default::default(), template: vec![], regs: Default::default() };
    let mut params = vec![];
    let mut pn = 0;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' { p.i += 3; p.expect(b')')?; break; }
            let t = p.ty()?; p.skip_attrs()?;
            let nm: Rc<str> = if p.peek() == b'%' { p.i += 1; p.ident()? } else { let s = format!("{}", pn); Rc::from(s.as_str()) };
            pn += 1;
            let n = m.slots(&t); let r = env.new(n);
            params.push((r, n));
            env.regs.insert(nm, (r, t));
            if p.eat(b',') { continue; }
            p.expect(b')')?; break;
        }
    }
    // ---- body: parse into blocks
    struct Blk { name: Rc<str>, insts: Vec<(Option<Rc<str>>, AstK, Ty)> }
    let mut blocks: Vec<Blk> = vec![];
    p.i = eol + 1;
    let mut first = true;
    while p.i < text.len() {
        let e = memchr(text, b'\n', p.i);
        let line = &text[p.i..e];
        if line.is_empty() || line.iter().all(|c| *c == b' ') { p.i = e + 1; continue; }
        if line[0] == b'}' { break; }
        if line[0] != b' ' && line[0] != b'\t' {
            // label
            let mut q = P::new(line);
            if line[0] == b';' { p.i = e + 1; continue; }
            let nm = q.ident()?;
            blocks.push(Blk { name: nm, insts: vec![] });
            first = false;
            p.i = e + 1;
            continue;
        }
        if first { blocks.push(Blk { name: Rc::from(format!("{}", pn).as_str()), insts: vec![] }); first = false; }
        p.ws();
        if text[p.i] == b'#' { p.i = e + 1; continue; } // debug record
        let mut dest = None;
        if text[p.i] == b'%' { p.i += 1; dest = Some(p.ident()?); p.expect(b'=')?; }
        let (k, t) = match parse_inst(&mut p) { Ok(x) => x, Err(er) => return Err(er) };
        // ExtV result type
        let t = if let AstK::ExtV(at, _, ix) = &k { let mut c = at.clone(); for i in ix { c = match m.resolve(&c) { Ty::Struct(fs, _) => fs[*i as usize].clone(), Ty::Arr(_, e) => (*e).clone(), _ => return Err("extractvalue".into()) }; } c } else { t };
        blocks.last_mut().unwrap().insts.push((dest, k, t));
        // skip rest of the line (metadata, align, attributes)
        p.i = p.i.min(text.len());
        while p.i > 0 && text[p.i - 1].is_ascii_whitespace() { p.i -= 1; }
        p.i = memchr(text, b'\n', p.i) + 1;
    }
    // unnamed entry label: if function had explicit entry label it was handled by the label branch
    // ---- assign registers
    let mut frame: u32 = 0;
    for (bi, b) in blocks.iter().enumerate() {
        for (d, k, t) in &b.insts {
            if let Some(d) = d { let n = m.slots(t); let r = env.new(n); env.regs.insert(d.clone(), (r, t.clone())); }
            if let AstK::Alloca(..) = k { let _ = bi; }
        }
    }
    let bidx: FxMap<Rc<str>, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
    let mut code: Vec<Inst> = vec![];
    let mut starts = vec![0u32; blocks.len()];
    let mut edges: Vec<(usize, usize)> = vec![]; // from block, to block
    let mut eid = |from: usize, to: usize, edges: &mut Vec<(usize, usize)>| -> u32 { edges.push((from, to)); (edges.len() - 1) as u32 };
    for (bi, b) in blocks.iter().enumerate() {
        starts[bi] = code.len() as u32;
        for (d, k, t) in &b.insts {
            let dr = d.as_ref().map(|d| env.regs[d].0).unwrap_or(0);
            let tgt = |l: &Rc<str>| -> R<usize> { bidx.get(l).copied().ok_or_else(|| format!("label {}", l)) };
            match k {
                AstK::Phi(..) => {}
                AstK::Nop => {}
                AstK::Bin(op, ty, a, bb) => {
                    let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?);
                    let (n, e) = vec_of(m, ty); let w = m.bits(&e);
                    if w > 64 { if n > 1 { code.push(Inst::Unsup("wide vector bin".into())); } else { code.push(Inst::BinW { op: *op, w: w as u16, d: dr, a, b: bb }); } }
                    else if n == 1 && !matches!(m.resolve(ty), Ty::Vec(..)) { code.push(Inst::Bin { op: *op, w: w as u8, d: dr, a, b: bb }); }
                    else { code.push(Inst::BinV { op: *op, w: w as u8, lanes: n, d: dr, a, b: bb }); }
                }
                AstK::FBin(op, ty, a, bb) => { let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?); let (n, e) = vec_of(m, ty); let w = m.bits(&e); if w != 32 && w != 64 { code.push(Inst::Unsup("fp width".into())); } else { code.push(Inst::FBin { op: *op, w: w as u8, lanes: n, d: dr, a, b: bb }); } }
                AstK::FRem(ty, a, bb) => { let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?); code.push(Inst::FRem { w: m.bits(ty) as u8, d: dr, a, b: bb }); }
                AstK::FNeg(ty, a) => { let a = env.op(ty, a)?; let (n, e) = vec_of(m, ty); code.push(Inst::FNeg { w: m.bits(&e) as u8, lanes: n, d: dr, a }); }
                AstK::ICmp(pr, ty, a, bb) => {
                    let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?);
                    let (n, e) = vec_of(m, ty); let w = m.bits(&e);
                    if w > 64 { if n > 1 { code.push(Inst::Unsup("wide vector icmp".into())); } else { code.push(Inst::ICmpW { p: *pr, w: w as u16, d: dr, a, b: bb }); } }
                    else if !matches!(m.resolve(ty), Ty::Vec(..)) { code.push(Inst::ICmp { p: *pr, w: w as u8, d: dr, a, b: bb }); }
                    else { code.push(Inst::ICmpV { p: *pr, w: w as u8, lanes: n, d: dr, a, b: bb }); }
                }
                AstK::FCmp(pr, ty, a, bb) => { let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?); let (n, e) = vec_of(m, ty); let w = m.bits(&e); if w != 32 && w != 64 { code.push(Inst::Unsup("fp width".into())); } else { code.push(Inst::FCmp { p: *pr, w: w as u8, lanes: n, d: dr, a, b: bb }); } }
                AstK::Freeze(ty, a) => { let a = env.op(ty, a)?; code.push(Inst::Copy { d: dr, a, n: m.slots(ty) }); }
                AstK::Cast(op, ty, a, t2) => {
                    let a = env.op(ty, a)?;
                    let (n, e) = vec_of(m, ty); let (n2, e2) = vec_of(m, t2);
                    let (sw, dw) = (m.bits(&e), m.bits(&e2));
                    if op == "bitcast" {
                        code.push(Inst::Bitcast { d: dr, a, sw: slot_widths(m, ty).into(), dw: slot_widths(m, t2).into() });
                    } else {
                        let k = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptosi" => Cast::FpToSi, "fptoui" => Cast::FpToUi, "sitofp" => Cast::SiToFp, "uitofp" => Cast::UiToFp, _ => if dw < sw { Cast::Trunc } else { Cast::ZExt } };
                        if n != n2 { return Err("cast lanes".into()); }
                        if sw <= 64 && dw <= 64 { code.push(Inst::Cast { k, sw: sw as u8, dw: dw as u8, lanes: n, d: dr, a }); }
                        else if n == 1 { code.push(Inst::CastW { k, sw: sw as u16, dw: dw as u16, d: dr, a }); }
                        else { code.push(Inst::Unsup("wide vector cast".into())); }
                    }
                }
                AstK::Sel(ct, c, ty, a, bb) => {
                    let c = env.op(ct, c)?; let (a, bb) = (env.op(ty, a)?, env.op(ty, bb)?);
                    if let Ty::Vec(n, _) = ct { let (_, e) = vec_of(m, ty); let w = m.bits(&e); if w > 64 { code.push(Inst::Unsup("wide vec select".into())); } else { code.push(Inst::SelV { d: dr, c, a, b: bb, lanes: *n as u32, w: w as u8 }); } }
                    else { code.push(Inst::Sel { d: dr, c, a, b: bb, ws: slot_widths(m, ty).into() }); }
                }
                AstK::Load(ty, a) => {
                    let a = env.op(&Ty::Ptr, a)?;
                    let sl = m.slots(ty);
                    let (n, e) = vec_of(m, ty);
                    if matches!(m.resolve(ty), Ty::Vec(..)) && m.bits(&e) % 8 != 0 { code.push(Inst::LoadBits { d: dr, p: a, lanes: n, w: m.bits(&e) as u8 }); }
                    else if sl == 1 && !matches!(m.resolve(ty), Ty::Struct(..) | Ty::Arr(..)) { let w = m.bits(ty) as u8; code.push(Inst::Load1 { d: dr, p: a, bytes: (w + 7) / 8, w }); }
                    else if sl > 0 { code.push(Inst::Load { d: dr, p: a, leaves: mem_leaves(m, ty).into(), size: m.size(ty) as u32 }); }
                }
                AstK::Store(ty, v, a) => {
                    let a = env.op(&Ty::Ptr, a)?; let v = env.op(ty, v)?;
                    let sl = m.slots(ty);
                    let (n, e) = vec_of(m, ty);
                    if matches!(m.resolve(ty), Ty::Vec(..)) && m.bits(&e) % 8 != 0 { code.push(Inst::StoreBits { p: a, a: v, lanes: n, w: m.bits(&e) as u8 }); }
                    else if sl == 1 && !matches!(m.resolve(ty), Ty::Struct(..) | Ty::Arr(..)) { let w = m.bits(ty) as u8; code.push(Inst::Store1 { p: a, a: v, bytes: (w + 7) / 8, w }); }
                    else if sl > 0 { code.push(Inst::Store { p: a, a: v, leaves: mem_leaves(m, ty).into(), size: m.size(ty) as u32 }); }
                }
                AstK::Gep(ty, base, idx, bt) => {
                    if matches!(t, Ty::Vec(..)) { code.push(Inst::Unsup("vector gep".into())); continue; }
                    let b = env.op(bt, base)?;
                    let mut off = 0u64; let mut terms = vec![]; let mut cur = ty.clone();
                    for (k, (it, iv)) in idx.iter().enumerate() {
                        let scale;
                        if k == 0 { scale = m.size(&cur); }
                        else {
                            match m.resolve(&cur) {
                                Ty::Struct(fs, pk) => { let ix = match iv { Val::C(c) => const_int(m, it, c)?, _ => return Err("struct gep".into()) }; off = off.wrapping_add(m.field_off(&fs, pk, ix as usize)); cur = fs[ix as usize].clone(); continue; }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = m.size(&e); cur = (*e).clone(); }
                                _ => return Err("gep type".into()),
                            }
                        }
                        let w = m.bits(it) as u8;
                        match iv {
                            Val::C(c) => { let ix = crate::expr::sx(const_int(m, it, c)? as u128, w) as i64 as u64; off = off.wrapping_add(ix.wrapping_mul(scale)); }
                            _ => { let r = env.op(it, iv)?; terms.push((r, scale, w)); }
                        }
                    }
                    if terms.is_empty() { code.push(Inst::Gep0 { d: dr, base: b, k: off }); } else { code.push(Inst::Gep { d: dr, base: b, k: off, terms: terms.into() }); }
                }
                AstK::Alloca(ty, n) => {
                    let sz = m.size(ty);
                    match n {
                        None if bi == 0 => { let al = 16u32; frame = (frame + al - 1) / al * al; code.push(Inst::FrameAddr { d: dr, off: frame }); frame += sz as u32; }
                        None => { let one = env.creg(1); code.push(Inst::Alloca { d: dr, n: one, size: sz }); }
                        Some((nt, nv)) => { let r = env.op(nt, nv)?; code.push(Inst::Alloca { d: dr, n: r, size: sz }); }
                    }
                }
                AstK::Br(l) => { let e = eid(bi, tgt(l)?, &mut edges); code.push(Inst::Jmp(e)); }
                AstK::CondBr(c, a, b2) => { let c = env.op(&Ty::Int(1), c)?; let e1 = eid(bi, tgt(a)?, &mut edges); let e2 = eid(bi, tgt(b2)?, &mut edges); code.push(Inst::Br { c, t: e1, f: e2 }); }
                AstK::Switch(ty, v, dl, cases) => {
                    let w = m.bits(ty); let a = env.op(ty, v)?;
                    let mut cs = vec![]; for (k, l) in cases { cs.push((*k, eid(bi, tgt(l)?, &mut edges))); }
                    let de = eid(bi, tgt(dl)?, &mut edges);
                    if w > 64 { code.push(Inst::Unsup("wide switch".into())); } else { code.push(Inst::Switch { a, w: w as u8, cases: cs.into(), def: de }); }
                }
                AstK::Ret(None) => code.push(Inst::Ret { a: 0, n: 0 }),
                AstK::Ret(Some((ty, v))) => { let a = env.op(ty, v)?; code.push(Inst::Ret { a, n: m.slots(ty) }); }
                AstK::Unreachable => code.push(Inst::Unreachable),
                AstK::Unsup(s, _) => code.push(Inst::Unsup(s.as_str().into())),
                AstK::ExtV(ty, a, ix) => {
                    let a = env.op(ty, a)?; let mut off = 0; let mut c = ty.clone();
                    for i in ix { match m.resolve(&c) { Ty::Struct(fs, _) => { for f in &fs[..*i as usize] { off += m.slots(f); } c = fs[*i as usize].clone(); } Ty::Arr(_, e) => { off += *i as u32 * m.slots(&e); c = (*e).clone(); } _ => return Err("extv".into()) } }
                    code.push(Inst::Copy { d: dr, a: a + off, n: m.slots(&c) });
                }
                AstK::InsV(ty, a, t2, v, ix) => {
                    let a = env.op(ty, a)?; let v = env.op(t2, v)?; let mut off = 0; let mut c = ty.clone();
                    for i in ix { match m.resolve(&c) { Ty::Struct(fs, _) => { for f in &fs[..*i as usize] { off += m.slots(f); } c = fs[*i as usize].clone(); } Ty::Arr(_, e) => { off += *i as u32 * m.slots(&e); c = (*e).clone(); } _ => return Err("insv".into()) } }
                    code.push(Inst::Copy { d: dr, a, n: m.slots(ty) });
                    code.push(Inst::Copy { d: dr + off, a: v, n: m.slots(&c) });
                }
                AstK::ExtE(ty, a, it, i) => { let a = env.op(ty, a)?; let i = env.op(it, i)?; let (n, e) = vec_of(m, ty); code.push(Inst::ExtE { d: dr, a, i, n: m.slots(&e), lanes: n, iw: m.bits(it) as u8 }); }
                AstK::InsE(ty, a, v, it, i) => { let (n, e) = vec_of(m, ty); let a = env.op(ty, a)?; let v = env.op(&e, v)?; let i = env.op(it, i)?; code.push(Inst::InsE { d: dr, a, v, i, n: m.slots(&e), lanes: n, iw: m.bits(it) as u8 }); }
                AstK::Shuf(ty, a, b2, mt, mk) => {
                    let (n, e) = vec_of(m, ty); let a = env.op(ty, a)?; let b2 = env.op(ty, b2)?;
                    let cnt = vec_of(m, mt).0;
                    let mask: Vec<i64> = match mk { Cv::Undef => vec![-1; cnt as usize], Cv::Zero => vec![0; cnt as usize], Cv::Splat(tc) => vec![if let Cv::Int(k) = tc.1 { k as i64 } else { -1 }; cnt as usize], Cv::Agg(v) => v.iter().map(|(_, c)| if let Cv::Int(k) = c { *k as i64 } else { -1 }).collect(), _ => return Err("shuffle mask".into()) };
                    code.push(Inst::Shuf { d: dr, a, b: b2, n: m.slots(&e), lanes: n, mask: mask.into() });
                }
                AstK::CmpXchg(ty, a, c, n) => { let p = env.op(&Ty::Ptr, a)?; let c = env.op(ty, c)?; let n = env.op(ty, n)?; let w = m.bits(ty); if w > 64 { code.push(Inst::Unsup("wide cmpxchg".into())); } else { code.push(Inst::CmpXchg { d: dr, p, c, n, bytes: (w / 8) as u8 }); } }
                AstK::Rmw(op, ty, a, v) => { let p = env.op(&Ty::Ptr, a)?; let v = env.op(ty, v)?; let w = m.bits(ty); code.push(Inst::Rmw { op: *op, d: dr, p, v, bytes: ((w + 7) / 8) as u8, w: w as u8 }); }
                AstK::Call(rt, callee, args, normal) => {
                    let mut ar = vec![]; let mut aw = vec![]; let mut lanes = 1;
                    for (at, av) in args { let r = env.op(at, av)?; ar.push((r, m.slots(at))); let (n, e) = vec_of(m, at); lanes = lanes.max(n); aw.push(m.bits(&e) as u16); }
                    let (cal, nm): (Callee, Rc<str>) = match callee {
                        Val::C(Cv::Global(g)) => {
                            let mut g = g.clone();
                            while let Some(Sym::Alias(a)) = m.syms.get(&g) { if let Cv::Global(x) = &m.aliases[*a as usize].1 { g = x.clone(); } else { break; } }
                            let f = match m.syms.get(&g) { Some(Sym::F(f)) => Some(*f), _ => None };
                            if let Some(b) = builtins::lookup(&g) { (Callee::Built(b), g.clone()) }
                            else if let Some(f) = f { (Callee::Direct(f), g.clone()) }
                            else { return Err(format!("callee {}", g)) }
                        }
                        Val::C(Cv::Asm(a, _)) => (Callee::Asm(a.clone()), a.clone()),
                        Val::Local(_) => { let r = env.op(&Ty::Ptr, callee)?; (Callee::Indirect(r), Rc::from("<indirect>")) }
                        Val::C(c) => { let v = const_int(m, &Ty::Ptr, c)?; let r = env.creg(v); (Callee::Indirect(r), Rc::from("<const>")) }
                    };
                    let skip = matches!(cal, Callee::Built(B::Nop));
                    if !skip { code.push(Inst::Call(Box::new(CallI { d: dr, dn: m.slots(rt), dw: slot_widths(m, rt), callee: cal, args: ar, argw: aw, lanes, name: nm }))); }
                    if let Some(l) = normal { let e = eid(bi, tgt(l)?, &mut edges); code.push(Inst::Jmp(e)); }
                }
            }
        }
    }
    // ---- edges
    let mut out_edges = vec![];
    for (from, to) in &edges {
        let mut copies = vec![];
        for (d, k, t) in &blocks[*to].insts {
            if let AstK::Phi(ty, inc) = k {
                let fname = &blocks[*from].name;
                let v = inc.iter().find(|(_, l)| l == fname).ok_or_else(|| format!("phi without pred {} in {}", fname, blocks[*to].name))?;
                let src = env.op(ty, &v.0)?;
                let dst = env.regs[d.as_ref().unwrap()].0;
                let n = m.slots(t);
                if src != dst && n > 0 { copies.push((src, dst, n)); }
            } else { break; }
        }
        out_edges.push(Edge { to: starts[*to], copies: copies.into() });
    }
    Ok(Func { id, name, nregs: env.template.len() as u32, template: env.template, params, code, edges: out_edges, frame, noreturn_panics: false })
}
#[allow(dead_code)] fn _unused(a: Ast) { match a { Ast::Inst(_) => {} } }
