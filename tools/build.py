"""Builds everything the checks need, from /repo's current working tree.

engine()  : the symbolic executor (no dependency on /repo)
ir(feats) : LLVM IR of the harnesses together with all repository and std code they reach
native(feats): the same code compiled to machine code (replay binary)
Results are cached in /verif/build under a hash of the sources, so that a changed
tree is always rebuilt and an unchanged one is not."""
import os, sys, subprocess, hashlib, glob, shutil, re, time, fcntl, contextlib, concurrent.futures

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.environ.get('VERIF_BUILD', V + '/build')
HARN = V + '/harness'
TC = '1.97.1'
TRIPLE = 'x86_64-unknown-linux-gnu'
RU = '/root/.rustup/toolchains'
LL = f'{RU}/nightly-{TRIPLE}/lib/rustlib/{TRIPLE}/bin'
SYSROOT = f'{RU}/{TC}-{TRIPLE}'
STD = 'core alloc std proc_macro compiler_builtins hashbrown memchr libc unwind panic_abort cfg_if std_detect rustc_demangle addr2line gimli object miniz_oxide adler2'.split()
JOBS = str(os.cpu_count() or 4)

def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=TC, RUSTUP_AUTO_INSTALL='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e.update(kw)
    return e

class BuildError(Exception): pass

def run(cmd, cwd=None, e=None, log=None, quiet=True):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)[:400]} failed ({r.returncode}):\n" + '\n'.join(r.stdout.splitlines()[-60:]))
    return r.stdout

def hfiles(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
        except OSError: h.update(b'?')
    return h.hexdigest()[:20]

CRATES = {'hive-router': REPO + '/bin/router', 'graphql-tools': REPO + '/lib/graphql-tools', 'hive-console-sdk': REPO + '/lib/hive-console-sdk', 'harness': HARN}

def walk(d):
    out = []
    for p, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', 'node_modules', '.git')]
        out += [os.path.join(p, f) for f in fs]
    return out

def hashes():
    h = {c: hfiles(walk(d)) for c, d in CRATES.items()}
    h['top'] = hfiles([REPO + '/Cargo.toml', REPO + '/Cargo.lock', os.path.abspath(__file__), V + '/tools/rustc-wrap.sh'])
    return h

def key(h, feats):
    return hashlib.sha256(repr((sorted(h.items()), sorted(feats or []))).encode()).hexdigest()[:20]

@contextlib.contextmanager
def lock(name):
    os.makedirs(B, exist_ok=True)
    with open(f'{B}/{name}.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def engine():
    with lock('engine'):
        k = hfiles(walk(V + '/engine/src') + [V + '/engine/Cargo.toml'])
        exe, st = f'{B}/engine/release/llsym', f'{B}/engine.key'
        if os.path.exists(exe) and os.path.exists(st) and open(st).read() == k: return exe
        run(['cargo', 'build', '--release', '--offline', '--target-dir', f'{B}/engine'], cwd=V + '/engine')
        open(st, 'w').write(k)
        return exe

def stdbc():
    out = f'{B}/libstdbc.a'
    if os.path.exists(out): return out
    d = f'{B}/stdbc'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    lib = f'{SYSROOT}/lib/rustlib/{TRIPLE}/lib'
    bcs = []
    for c in STD:
        for rl in glob.glob(f'{lib}/lib{c}-*.rlib'):
            x = f'{d}/{c}'; os.makedirs(x, exist_ok=True)
            run([f'{LL}/llvm-ar', 'x', rl], cwd=x)
            for o in sorted(glob.glob(x + '/*.o')):
                bc = o[:-2] + '.bc'
                subprocess.run([f'{LL}/llvm-objcopy', f'--dump-section=.llvmbc={bc}', o, '/dev/null'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(bc) and os.path.getsize(bc) > 0: bcs.append(bc)
    rsp = d + '/rsp'; open(rsp, 'w').write('\n'.join('"%s"' % b for b in bcs))
    run([f'{LL}/llvm-ar', 'rcs', out + '.tmp', '@' + rsp]); os.rename(out + '.tmp', out)
    shutil.rmtree(d)
    return out

WRAP = V + '/tools/rustc-wrap.sh'
RUSTFLAGS = '-C linker-plugin-lto --cfg hive_verif'
TGT = f'{B}/target'
DBG = f'{TGT}/{TRIPLE}/debug'

def cargo(h, feats, bins):
    """builds the harness crate; crates whose content changed since the last build are always rebuilt, whatever their mtimes say"""
    st = f'{B}/target.crates'
    old = {}
    if os.path.exists(st): old = dict(l.split() for l in open(st).read().splitlines())
    for c in CRATES:
        if old.get(c) != h[c]:
            for f in glob.glob(f'{DBG}/.fingerprint/{c}-*'): shutil.rmtree(f)
    if os.path.exists(st): os.remove(st)
    shutil.copy(REPO + '/Cargo.lock', f'{B}/repo.lock')
    cmd = ['cargo', 'build', '--offline', '--target', TRIPLE, '--target-dir', TGT, '-j', JOBS, '--no-default-features', '--features', ','.join(feats)]
    cmd += ['--bin', 'replay'] if bins else ['--lib']
    e = env(RUSTFLAGS=RUSTFLAGS, RUSTC_WRAPPER=WRAP)
    # only the final link of the replay binary uses this; RUSTFLAGS (and so the fingerprints) stay the same
    run(cmd, cwd=HARN, e=e)
    open(st, 'w').write('\n'.join(f'{c} {h[c]}' for c in CRATES))

def features():
    t = open(HARN + '/Cargo.toml').read()
    m = re.search(r'^default = \[(.*?)\]', t, re.M | re.S)
    return re.findall(r'"(\w+)"', m.group(1))

def entries(feats):
    out = []
    for f in feats:
        s = open(f'{HARN}/src/{f}.rs').read()
        out += re.findall(r'extern "C" fn (h_\w+)', s)
    return out

# rlibs left out of the link: no harness reaches them on the inputs explored. A call into one of them
# is an unresolved symbol, which the engine reports as an error (never as a pass).
LEAVE_OUT = set("""vrl chrono_tz object_store protobuf domain ntex_h2 typify_impl typify jiff psl tonic prost_reflect prost_types prost prost_derive
object syn jsonschema h2 regress clap_builder clap pest pest_meta combine nix insta axum axum_core brotli brotli_decompressor gimli ring ntex_server ntex_net reqwest aws_lc_sys aws_lc_rs
nom opentelemetry_proto opentelemetry_otlp iri_string quick_xml der crypto_bigint typenum num_bigint num_bigint_dig rustyline zstd_sys zstd zstd_safe
winnow ntex_io_uring tower referencing encoding_rs curve25519_dalek toml aes libm tonic_types p384 p256 zlib_rs vsimd webpki onig onig_sys fancy_regex notify similar json5
fluent_uri influxdb_line_protocol roxmltree syslog_loose term rsa csv grok lalrpop_util regex_filtered ua_parser woothee const_str
rust_decimal ofb cfb_mode chacha20poly1305 xsalsa20poly1305 ed25519_dalek sha1 sha2 sha3 md5 hmac aes_siv crypto_secretbox
snap lz4_flex flate2 miniz_oxide charset data_encoding dns_lookup hickory_resolver domain_macros prettytable cidr peeking_take_while snafu
ron yaml_rust2 rust_ini backtrace rustls rustls_webpki rustls_native_certs rustls_platform_verifier tokio_rustls hyper_rustls linux_raw_sys rustix prometheus opentelemetry_prometheus tracing_opentelemetry""".split())

def shared_generics(left):
    """#[inline(never)] generics are instantiated once, in the first crate that uses them. From the left-out crates, keep
    just those (and what they need inside that crate), so that the other crates find them."""
    rls = sorted(f for fs in left.values() for f in fs)
    out = f'{B}/generics-' + hashlib.sha256('\n'.join(rls).encode()).hexdigest()[:16] + '.a'
    if os.path.exists(out): return out
    D = f'{B}/generics'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    def one(rl):
        n = os.path.basename(rl)[3:-5]; crate = n.rsplit('-', 1)[0]; d = f'{D}/{n}'; os.makedirs(d)
        run([f'{LL}/llvm-ar', 'x', rl], cwd=d)
        objs = [os.path.basename(o) for o in sorted(glob.glob(d + '/*.o')) if open(o, 'rb').read(2) == b'BC']
        if not objs: return None
        run([f'{LL}/llvm-link', *objs, '-o', 'all.bc'], cwd=d)
        run([f'{LL}/llvm-dis', 'all.bc', '-o', 'all.ll'], cwd=d)
        attrs, keep = set(), []
        suffix = re.compile(r'Cs[A-Za-z0-9]*_%d_?%s$' % (len(crate), crate))
        with open(d + '/all.ll', errors='replace') as f:
            cand = []
            for l in f:
                if l.startswith('define '):
                    m = re.search(r' @"?(_R[A-Za-z0-9_.$]+)"?\(.*?\)[^#]* #(\d+)', l)
                    if m and ' internal ' not in l and ' private ' not in l and suffix.search(m.group(1)): cand.append((m.group(1), m.group(2)))
                elif l.startswith('attributes #') and ' noinline ' in l: attrs.add(l.split()[1][1:])
        keep = [n for n, a in cand if a in attrs]
        if not keep: shutil.rmtree(d); return None
        open(d + '/keep', 'w').write('\n'.join(keep))
        x = f'{D}/{n}.bc'
        run([f'{LL}/opt', '-passes=internalize,globaldce', '-module-summary', '-internalize-public-api-file=' + d + '/keep', 'all.bc', '-o', x], cwd=d)
        shutil.rmtree(d)
        return x
    with concurrent.futures.ThreadPoolExecutor(8) as ex: xs = [x for x in ex.map(one, rls) if x]
    run([f'{LL}/llvm-ar', 'rcs', out + '.tmp', *xs]); os.rename(out + '.tmp', out)
    shutil.rmtree(D)
    return out

def lto(feats, out):
    W = f'{B}/lto'
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sb = stdbc()
    os.symlink(sb, W + '/libstdbc.a')
    libs = last_artifacts(feats)
    h = [f for f in libs if os.path.basename(f) == 'libharness.rlib']
    if not h: raise BuildError('no harness rlib')
    hr = h[0]
    os.makedirs(W + '/h')
    run([f'{LL}/llvm-ar', 'x', hr], cwd=W + '/h')
    hobjs = sorted(glob.glob(W + '/h/*.o'))
    ls, left = [], {}
    for f in libs:
        if f in h: continue
        n = os.path.basename(f)[3:].rsplit('-', 1)[0]
        if n in LEAVE_OUT: left.setdefault(n, []).append(f); continue
        os.symlink(f, f'{W}/{os.path.basename(f)}'); ls.append(os.path.basename(f))
    if left: os.symlink(shared_generics(left), W + '/libgenerics.a'); ls.append('libgenerics.a')
    ver = W + '/ver.txt'; open(ver, 'w').write('{ global: h_*; local: *; };\n')
    ents = entries(feats)
    us = [x for n in ents for x in ('-u', n)]
    args = ['-flavor', 'gnu', '-shared', '--version-script=ver.txt', '--lto-O1', '--save-temps=opt', '--lto-emit-llvm', '--threads=' + JOBS, *us, '--gc-sections', '--unresolved-symbols=ignore-all', '-o', 'out.bc', *['h/' + os.path.basename(o) for o in hobjs], '--start-group', *sorted(ls), 'libstdbc.a', '--end-group']
    open(W + '/lld.rsp', 'w').write('\n'.join('"%s"' % a for a in args[2:]))
    t0 = time.time(); run([f'{LL}/rust-lld', '-flavor', 'gnu', '@lld.rsp'], cwd=W); t1 = time.time()
    bcs = [os.path.join(p, f) for p, _, fs in os.walk(W) for f in fs if f.endswith('.4.opt.bc')]
    if len(bcs) < 10: raise BuildError('LTO produced no bitcode')
    # biggest first, dealt to groups; the groups are linked in parallel, then together
    bcs.sort(key=lambda f: (-os.path.getsize(f), f))
    G = 8
    def part(k):
        open(f'{W}/link{k}.rsp', 'w').write('\n'.join('"%s"' % b for b in bcs[k::G]))
        run([f'{LL}/llvm-link', f'@link{k}.rsp', '-o', f'part{k}.bc'], cwd=W)
        return f'part{k}.bc'
    with concurrent.futures.ThreadPoolExecutor(G) as ex: parts = list(ex.map(part, range(G)))
    run([f'{LL}/llvm-link', *parts, '-o', 'all.bc'], cwd=W); t2 = time.time()
    run([f'{LL}/llvm-dis', 'all.bc', '-o', 'all.ll'], cwd=W)
    if os.environ.get('VERIF_TIMES'): print(f'lld {t1-t0:.0f} link {t2-t1:.0f} dis {time.time()-t2:.0f}')
    os.rename(W + '/all.ll', out)
    shutil.rmtree(W)

def last_artifacts(feats):
    """the rlibs of the last build (a no-op build that only lists them)"""
    o = run(['cargo', 'build', '--offline', '--target', TRIPLE, '--target-dir', TGT, '--no-default-features', '--features', ','.join(feats), '--lib', '--message-format=json', '-q'], cwd=HARN, e=env(RUSTFLAGS=RUSTFLAGS, RUSTC_WRAPPER=WRAP))
    return sorted(set(x for x in re.findall(r'"([^"]+\.rlib)"', o) if x.startswith(DBG)))

def ir(feats=None, verbose=False):
    feats = feats or features()
    with lock('build'):
        h = hashes(); k = key(h, feats); out = f'{B}/ir-{k}.ll'
        if os.path.exists(out): return out
        t = time.time()
        cargo(h, feats, False)
        t1 = time.time()
        lto(feats, out)
        if verbose: print(f'[build] cargo {t1-t:.0f}s, LTO link {time.time()-t1:.0f}s -> {out} ({os.path.getsize(out)>>20} MB)', flush=True)
        keep = sorted(glob.glob(f'{B}/ir-*.ll'), key=os.path.getmtime)[:-4]
        for f in keep: os.remove(f)
        return out

def native(feats=None, verbose=False):
    feats = feats or features()
    with lock('build'):
        h = hashes(); k = key(h, feats); out = f'{B}/replay-{k}'
        if os.path.exists(out): return out
        t = time.time()
        cargo(h, feats, True)
        shutil.copy(f'{DBG}/replay', out + '.tmp'); os.rename(out + '.tmp', out)
        if verbose: print(f'[build] native replay {time.time()-t:.0f}s ({os.path.getsize(out)>>20} MB)', flush=True)
        for f in sorted(glob.glob(f'{B}/replay-*'), key=os.path.getmtime)[:-4]: os.remove(f)
        return out

def ir_for(feats, verbose=False):
    """the IR with every module when it is already built for this tree (or when a full build is asked for), else only the modules needed"""
    h = hashes()
    full = f'{B}/ir-{key(h, features())}.ll'
    if os.path.exists(full): return full
    return ir(feats, verbose)

def native_cached():
    p = f'{B}/replay-{key(hashes(), features())}'
    return p if os.path.exists(p) else None

if __name__ == '__main__':
    a = sys.argv[1:]
    f = a[1].split(',') if len(a) > 1 else None
    if 'engine' in a[0]: print(engine())
    if 'ir' in a[0]: print(ir(f, True))
    if 'native' in a[0]: print(native(f, True))
