//! Names of functions the engine gives meaning to itself: LLVM intrinsics, allocator, libc, harness primitives.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    UMax, UMin, SMax, SMin, Abs, CtPop, CtLz, CtTz, BSwap, BitRev, FShl, FShr,
    UAddSat, USubSat, SAddSat, SSubSat, UShlSat, UCmp, SCmp,
    FAbs, CopySign, Floor, Ceil, FTrunc, Round, RoundEven, Rint, Sqrt, Fma, FMinNum, FMaxNum, FMinimum, FMaximum, Pow, Powi, Exp, Exp2, Log, Log2, Log10, Sin, Cos,
    FpToSiSat, FpToUiSat, FClass,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ovf { UAdd, USub, UMul, SAdd, SSub, SMul }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Red { Or, And, Xor, Add, Mul, UMax, UMin, SMax, SMin }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Nop, Intr(Intr), WithOvf(Ovf), Reduce(Red), Expect, ThreadLocalAddr, Memcpy, Memset, MemcpyLibc, MemsetLibc, Memcmp, Strlen, MemchrC, IsConst, ObjectSize, LoadRel, Trap, PsadBw, Pmovmskb, PshufB, PackUs,
    RetZeros, Ret0, Ret1, RetNeg1, RetArg0, Errno, MaskedLoad,
    RustAlloc, RustAllocZeroed, RustDealloc, RustRealloc, Malloc, Calloc, Realloc, Free, PosixMemalign,
    Panic, AllocFail, Abort, Exit, Backtrace,
    ClockGettime, KeyCreate, Getrandom, GetrandomFill, Dlsym, Syscall, Getenv, Write, Writev, Sysconf, Xgetbv,
    SymBytes, SymInt, SymAssume, SymAssert, SymReach, SymConcretize, SymOut, SymParam, SymAllowPanic, SymClock, SymIsEngine, SymFail, SymIsSym,
    Libm1(u8), Libm2(u8),
}

pub fn strip(name: &str) -> &str {
    if let Some(k) = name.rfind(".llvm.") { if name[k + 6..].bytes().all(|c| c.is_ascii_digit()) { return &name[..k]; } }
    name
}

/// weak symbols std probes at run time: absent
pub fn weak_null(name: &str) -> bool { !matches!(name, "__cxa_thread_atexit_impl") && matches!(name, "statx" | "gettid" | "getrandom" | "copy_file_range" | "posix_spawn_file_actions_addchdir_np" | "__pthread_get_minstack" | "pidfd_getpid" | "pidfd_spawnp" | "preadv2" | "pwritev2" | "preadv" | "pwritev" | "splice" | "_dl_find_object" | "__gnu_get_libc_version" | "gnu_get_libc_version" | "memfd_create" | "close_range" | "accept4" | "lutimes" | "futimens" | "fdatasync" | "__dso_handle" | "_DYNAMIC") || name.starts_with("_ITM_") || name.starts_with("__gmon") }

pub fn lookup(name: &str) -> Option<B> {
    use Intr::*;
    if let Some(n) = name.strip_prefix("llvm.") {
        let is = |p: &str| n.starts_with(p);
        return Some(
            if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("prefetch") || is("donothing") || is("invariant.") || is("x86.sse2.pause") || is("x86.sse2.lfence") || is("x86.sse2.mfence") || is("x86.sse.sfence") || is("var.annotation") || is("sideeffect") || is("pseudoprobe") || is("stackrestore") || is("assume") { B::Nop }
            else if is("stacksave") { B::Ret0 }
            else if is("umax.") { B::Intr(UMax) } else if is("umin.") { B::Intr(UMin) } else if is("smax.") { B::Intr(SMax) } else if is("smin.") { B::Intr(SMin) }
            else if is("abs.") { B::Intr(Abs) } else if is("ctpop.") { B::Intr(CtPop) } else if is("ctlz.") { B::Intr(CtLz) } else if is("cttz.") { B::Intr(CtTz) }
            else if is("bswap.") { B::Intr(BSwap) } else if is("bitreverse.") { B::Intr(BitRev) } else if is("fshl.") { B::Intr(FShl) } else if is("fshr.") { B::Intr(FShr) }
            else if is("uadd.sat") { B::Intr(UAddSat) } else if is("usub.sat") { B::Intr(USubSat) } else if is("sadd.sat") { B::Intr(SAddSat) } else if is("ssub.sat") { B::Intr(SSubSat) } else if is("ushl.sat") { B::Intr(UShlSat) }
            else if is("ucmp.") { B::Intr(UCmp) } else if is("scmp.") { B::Intr(SCmp) }
            else if is("uadd.with.overflow") { B::WithOvf(Ovf::UAdd) } else if is("usub.with.overflow") { B::WithOvf(Ovf::USub) } else if is("umul.with.overflow") { B::WithOvf(Ovf::UMul) }
            else if is("sadd.with.overflow") { B::WithOvf(Ovf::SAdd) } else if is("ssub.with.overflow") { B::WithOvf(Ovf::SSub) } else if is("smul.with.overflow") { B::WithOvf(Ovf::SMul) }
            else if is("vector.reduce.or") { B::Reduce(Red::Or) } else if is("vector.reduce.and") { B::Reduce(Red::And) } else if is("vector.reduce.xor") { B::Reduce(Red::Xor) } else if is("vector.reduce.add") { B::Reduce(Red::Add) } else if is("vector.reduce.mul") { B::Reduce(Red::Mul) }
            else if is("vector.reduce.umax") { B::Reduce(Red::UMax) } else if is("vector.reduce.umin") { B::Reduce(Red::UMin) } else if is("vector.reduce.smax") { B::Reduce(Red::SMax) } else if is("vector.reduce.smin") { B::Reduce(Red::SMin) }
            else if is("expect.") || is("expect.with") || is("ssa.copy") || is("launder.") || is("strip.") || is("ptr.annotation") || is("arithmetic.fence") { B::Expect }
            else if is("threadlocal.address") { B::ThreadLocalAddr }
            else if is("memcpy.") || is("memmove.") { B::Memcpy } else if is("memset.") { B::Memset }
            else if is("is.constant") { B::IsConst } else if is("objectsize") { B::ObjectSize } else if is("load.relative") { B::LoadRel }
            else if is("trap") || is("debugtrap") || is("ubsantrap") { B::Trap }
            else if is("fabs.") { B::Intr(FAbs) } else if is("copysign.") { B::Intr(CopySign) } else if is("floor.") { B::Intr(Floor) } else if is("ceil.") { B::Intr(Ceil) } else if is("trunc.") { B::Intr(FTrunc) } else if is("round.") { B::Intr(Round) } else if is("roundeven.") { B::Intr(RoundEven) } else if is("rint.") || is("nearbyint.") { B::Intr(Rint) }
            else if is("sqrt.") { B::Intr(Sqrt) } else if is("fma.") || is("fmuladd.") { B::Intr(Fma) } else if is("minnum.") || is("minimumnum.") { B::Intr(FMinNum) } else if is("maxnum.") || is("maximumnum.") { B::Intr(FMaxNum) } else if is("minimum.") { B::Intr(FMinimum) } else if is("maximum.") { B::Intr(FMaximum) }
            else if is("pow.") { B::Intr(Pow) } else if is("powi.") { B::Intr(Powi) } else if is("exp.") { B::Intr(Exp) } else if is("exp2.") { B::Intr(Exp2) } else if is("log.") { B::Intr(Log) } else if is("log2.") { B::Intr(Log2) } else if is("log10.") { B::Intr(Log10) } else if is("sin.") { B::Intr(Sin) } else if is("cos.") { B::Intr(Cos) }
            else if is("fptosi.sat") { B::Intr(FpToSiSat) } else if is("fptoui.sat") { B::Intr(FpToUiSat) } else if is("is.fpclass") { B::Intr(FClass) }
            else if is("x86.xgetbv") { B::Xgetbv }
            else if is("x86.sse2.psad.bw") { B::PsadBw } else if is("x86.sse2.pmovmskb.128") { B::Pmovmskb } else if is("x86.ssse3.pshuf.b.128") { B::PshufB }
            else { return None }
        );
    }
    let name = strip(name);
    if let Some(n) = name.strip_prefix("__sym_") {
        return Some(match n { "bytes" => B::SymBytes, "int" => B::SymInt, "assume" => B::SymAssume, "assert" => B::SymAssert, "reach" => B::SymReach, "concretize" => B::SymConcretize, "out" => B::SymOut, "param" => B::SymParam, "allow_panic" => B::SymAllowPanic, "clock" => B::SymClock, "is_engine" => B::SymIsEngine, "fail" => B::SymFail, "is_sym" => B::SymIsSym, _ => return None });
    }
    if name.starts_with("_R") {
        let e = |s: &str| name.ends_with(s);
        if e("4core9panicking9panic_fmt") || e("4core9panicking18panic_nounwind_fmt") || e("7___rustc17rust_begin_unwind") || e("4core9panicking14panic_nounwind") || e("4core9panicking19panic_cannot_unwind") || e("4core9panicking32panic_nounwind_nobacktrace") { return Some(B::Panic); }
        // keep before allocations of the message happen
        if name.contains("4core9panicking") && (e("18panic_bounds_check") || e("5panic") || e("21panic_const_add_overflow") || e("19assert_failed_inner") || e("13panic_display") || e("16panic_explicit") || e("20panic_misaligned_pointer_dereference")) { return Some(B::Panic); }
        if e("5alloc5alloc18handle_alloc_error") || e("___rust_alloc_error_handler") || e("7raw_vec12handle_error") { return Some(B::AllocFail); }
        if name.contains("7___rustc") {
            if e("12___rust_alloc") { return Some(B::RustAlloc); }
            if e("19___rust_alloc_zeroed") { return Some(B::RustAllocZeroed); }
            if e("14___rust_dealloc") { return Some(B::RustDealloc); }
            if e("14___rust_realloc") { return Some(B::RustRealloc); }
            if e("35___rust_no_alloc_shim_is_unstable_v2") { return Some(B::Nop); }
        }
        if e("10std_detect6detect5cache21detect_and_initialize") { return Some(B::RetZeros); } // no optional CPU features
        if name.starts_with("_RNvNtNtCs") && name.contains("_9getrandom8backends27linux_android_with_fallback10fill_innerC") { return Some(B::GetrandomFill); }
        if e("3std9backtraceNtB2_9Backtrace7capture") { return None; }
        return None;
    }
    Some(match name {
        "memcpy" | "memmove" => B::MemcpyLibc, "memset" => B::MemsetLibc, "memcmp" | "bcmp" => B::Memcmp, "strlen" => B::Strlen, "memchr" => B::MemchrC,
        "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free, "posix_memalign" => B::PosixMemalign,
        "__errno_location" => B::Errno,
        "abort" => B::Abort, "exit" | "_exit" => B::Exit,
        "clock_gettime" => B::ClockGettime, "getrandom" => B::Getrandom, "dlsym" => B::Dlsym, "syscall" => B::Syscall, "getenv" => B::Getenv, "write" => B::Write, "writev" => B::Writev, "sysconf" => B::Sysconf,
        "pthread_key_create" => B::KeyCreate,
        "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "close" | "pthread_attr_init" | "pthread_attr_destroy" | "sigaction" | "sigaltstack" | "pthread_mutex_init" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy" | "pthread_mutex_destroy" | "sched_yield" | "atexit" | "__cxa_atexit" | "munmap" | "madvise" => B::Ret0,
        "pthread_self" | "gettid" | "getpid" => B::Ret1,
        "open64" | "open" | "read" | "fstat64" | "stat64" | "lseek64" | "readlink" | "mmap" | "mmap64" | "sched_getaffinity" | "statx" | "pthread_getattr_np" | "access" => B::RetNeg1,
        "getcwd" | "realpath" | "opendir" => B::Ret0,
        "_Unwind_Backtrace" => B::Backtrace,
        "floor" => B::Libm1(0), "ceil" => B::Libm1(1), "trunc" => B::Libm1(2), "round" => B::Libm1(3), "exp" => B::Libm1(4), "log" => B::Libm1(5), "log2" => B::Libm1(6), "log10" => B::Libm1(7), "sin" => B::Libm1(8), "cos" => B::Libm1(9), "sqrt" => B::Libm1(10), "rint" => B::Libm1(11), "exp2" => B::Libm1(12), "tan" => B::Libm1(13), "cbrt" => B::Libm1(14),
        "pow" => B::Libm2(0), "fmod" => B::Libm2(1), "atan2" => B::Libm2(2), "fmax" => B::Libm2(3), "fmin" => B::Libm2(4), "hypot" => B::Libm2(5),
        _ => return None,
    })
}
