"""Builds the symbolic engine, the LLVM IR of the harnesses linked with /repo's crates, and the native replay binaries."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(V, '.build')
H = os.path.join(V, 'harness')
IRT, NATT, WORK, STD = (os.path.join(BUILD, x) for x in ('ir', 'nat', 'work', 'std'))
SYMX = os.path.join(V, 'symx/target/release/symx')


class BuildError(Exception):
    pass


def sysroot():
    if not hasattr(sysroot, 'v'):
        sysroot.v = subprocess.run(['rustc', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    return sysroot.v


def B(tool):
    return sysroot() + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/' + tool


def env(**kw):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS'):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError('%s failed (%d):\n%s' % (' '.join(map(str, cmd))[:300], r.returncode, r.stderr.decode(errors='replace')[-4000:]))
    return r.stdout


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', 'tests', 'benches'))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode() + b'\0')
            try:
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b'?')
    return h.hexdigest()


def crate_dirs():
    m = {}
    for c in glob.glob(REPO + '/libs/*/Cargo.toml') + glob.glob(REPO + '/arma/Cargo.toml'):
        n = re.search(r'^name\s*=\s*"([^"]+)"', open(c).read(), re.M)
        m[n.group(1)] = os.path.dirname(c)
    for c in glob.glob(H + '/*/Cargo.toml'):
        m[os.path.basename(os.path.dirname(c))] = os.path.dirname(c)
    m['symrt'] = V + '/symrt'
    m['arma3-wiki'] = V + '/stubs/arma3-wiki'
    return m


def freshen(target, prof):
    """cargo compares modification times; a changed file must be rebuilt whatever its time is.
    The fingerprints of crates whose content differs from the one last built are removed."""
    stamp = os.path.join(target, 'content.json')
    old = json.load(open(stamp)) if os.path.exists(stamp) else {}
    ws = hashlib.sha256()
    for f in (REPO + '/Cargo.toml', REPO + '/Cargo.lock', H + '/Cargo.toml', V + '/pipeline/rustc-wrapper.sh'):
        ws.update(open(f, 'rb').read())
    new = {n: tree_hash(d) + ws.hexdigest()[:8] for n, d in crate_dirs().items()}
    for n, h in new.items():
        if old.get(n) != h:
            for fp in glob.glob('%s/%s/.fingerprint/%s-*' % (target, prof, n)):
                if re.fullmatch(re.escape(n) + r'-[0-9a-f]{16}', os.path.basename(fp)):
                    shutil.rmtree(fp, ignore_errors=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    return stamp, new


def save_stamp(stamp, new):
    with open(stamp, 'w') as f:
        json.dump(new, f)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lockfile():
    src = open(REPO + '/Cargo.lock').read()
    p = H + '/Cargo.lock'
    # cargo extends the repository's lock file by the harness crates
    key = os.path.join(BUILD, 'lock.sha')
    h = hashlib.sha256(src.encode()).hexdigest()
    if not os.path.exists(p) or not os.path.exists(key) or open(key).read() != h:
        open(p, 'w').write(src)
        os.makedirs(BUILD, exist_ok=True)
        open(key, 'w').write(h)


def build_engine():
    with Lock('engine'):
        run(['cargo', 'build', '--release', '--offline'], cwd=V + '/symx', env=env())


def std_modules():
    """bitcode of the standard library, embedded in its rlibs"""
    order = ('std', 'std_detect', 'hashbrown', 'rustc_demangle', 'miniz_oxide', 'adler2', 'object', 'gimli', 'addr2line', 'panic_abort', 'unwind', 'memchr', 'cfg_if', 'libc', 'alloc', 'core')
    lib = sysroot() + '/lib/rustlib/x86_64-unknown-linux-gnu/lib/'
    out = []
    with Lock('std'):
        os.makedirs(STD, exist_ok=True)
        done = os.path.join(STD, 'done')
        if not os.path.exists(done) or open(done).read() != sysroot():
            for c in order:
                for r in sorted(glob.glob(lib + 'lib%s-*.rlib' % c)):
                    for m in run([B('llvm-ar'), 't', r]).decode().split():
                        if not m.endswith('.rcgu.o'):
                            continue
                        o = os.path.join(STD, '%s.%s' % (c, m))
                        with open(o, 'wb') as f:
                            subprocess.run([B('llvm-ar'), 'p', r, m], stdout=f, check=True)
                        subprocess.run([B('llvm-objcopy'), '-O', 'binary', '--only-section=.llvmbc', '--set-section-flags', '.llvmbc=alloc', o, o + '.bc'], stderr=subprocess.DEVNULL)
                        os.remove(o)
                        if os.path.exists(o + '.bc') and os.path.getsize(o + '.bc') == 0:
                            os.remove(o + '.bc')
            open(done, 'w').write(sysroot())
    for c in order:
        out += sorted(glob.glob(os.path.join(STD, c + '.*.bc')))
    return out


NOINLINE = re.compile(r'panicking|unwrap_failed|expect_failed|slice_error_fail|handle_error|handle_alloc_error|slice_index_fail|panic_already|memchr_aligned|format_inner|DefaultHasher|3sip')


def ir(group, entry, log=None):
    """-> path of the .ll module holding `entry` and everything it needs"""
    t0 = time.time()
    times = {}
    with Lock('ir'):
        lockfile()
        stamp, new = freshen(IRT, 'sym')
        e = env(SYM_CRATE=group, RUSTC_WRAPPER=V + '/pipeline/rustc-wrapper.sh', RUSTC_BOOTSTRAP='1', RUSTFLAGS='-C no-prepopulate-passes -Zinline-mir=no')
        # the bitcode file is not known to cargo: build the harness crate itself every time
        for fp in glob.glob('%s/sym/.fingerprint/%s-*' % (IRT, group)):
            shutil.rmtree(fp, ignore_errors=True)
        for f in glob.glob('%s/sym/deps/%s*.bc' % (IRT, group)):
            os.remove(f)
        out = run(['cargo', 'rustc', '--profile', 'sym', '--offline', '-p', group, '--lib', '--crate-type', 'cdylib', '--message-format=json', '--target-dir', IRT], cwd=H, env=e)
        save_stamp(stamp, new)
        rlibs = []
        for l in out.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('reason') == 'compiler-artifact':
                rlibs += [f for f in d['filenames'] if f.endswith('.rlib')]
        times['cargo'] = time.time() - t0
        main = glob.glob('%s/sym/deps/%s*.bc' % (IRT, group))
        if len(main) != 1:
            raise BuildError('bitcode of %s not found: %s' % (group, main))
        w = os.path.join(WORK, entry)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copy(main[0], w + '/main.bc')
        mods = []
        for r in reversed(rlibs):
            st = os.stat(r)
            # members are extracted once per rlib content
            x = os.path.join(BUILD, 'x', os.path.basename(r) + '.%d.%d' % (st.st_mtime_ns, st.st_size))
            if not os.path.exists(x + '/done'):
                for old in glob.glob(os.path.join(BUILD, 'x', os.path.basename(r) + '.*')):
                    shutil.rmtree(old, ignore_errors=True)
                os.makedirs(x)
                for m in run([B('llvm-ar'), 't', r]).decode().split():
                    if not m.endswith('.rcgu.o'):
                        continue
                    b = run([B('llvm-ar'), 'p', r, m])
                    f = os.path.join(x, m)
                    if b[:2] == b'BC':
                        open(f + '.bc', 'wb').write(b)
                    elif b[:4] == b'\x7fELF':
                        # crates that are also built as cdylib carry the bitcode in a section
                        open(f, 'wb').write(b)
                        subprocess.run([B('llvm-objcopy'), '--dump-section=.llvmbc=%s.bc' % f, f, '/dev/null'], stderr=subprocess.DEVNULL)
                        os.remove(f)
                        if os.path.exists(f + '.bc') and os.path.getsize(f + '.bc') == 0:
                            os.remove(f + '.bc')
                open(x + '/done', 'w').close()
            mods += sorted(glob.glob(x + '/*.bc'))
    t = time.time()
    run([B('llvm-link'), '--only-needed', w + '/main.bc', *mods, *std_modules(), '-o', w + '/l.bc'])
    times['link'] = time.time() - t
    t = time.time()
    run([B('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=' + entry, w + '/l.bc', '-S', '-o', w + '/d.ll'])
    os.remove(w + '/l.bc')
    # functions the engine models by name stay calls
    s = open(w + '/d.ll').read()
    o, last = [], 0
    for m in re.finditer(r'^define .*$', s, re.M):
        l = m.group(0)
        if NOINLINE.search(l) and l.endswith('{'):
            k = l.rfind(' personality ')
            body = l[:-1].rstrip()
            a = re.search(r'( (?:section "[^"]*"|align \d+|personality .*|prologue .*|prefix .*|gc .*|!\w+ .*))*$', body)
            body = body[:a.start()] + ' noinline' + body[a.start():]
            o.append(s[last:m.start()])
            o.append(body + ' {')
            last = m.end()
    o.append(s[last:])
    s = ''.join(o)
    # alwaysinline contradicts noinline
    s = re.sub(r'^(attributes #\d+ = \{[^\n]*?)\balwaysinline\b', r'\1', s, flags=re.M)
    open(w + '/d.ll', 'w').write(s)
    times['dce'] = time.time() - t
    t = time.time()
    run([B('opt'), '-passes=cgscc(inline,function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce', '-inline-threshold=100', w + '/d.ll', '-S', '-o', w + '/o.ll'])
    os.remove(w + '/d.ll')
    os.remove(w + '/main.bc')
    times['opt'] = time.time() - t
    times['total'] = time.time() - t0
    if log is not None:
        log.update({k: round(v, 1) for k, v in times.items()})
    return w + '/o.ll'


def native(group, asan=False):
    """-> the replay binary: the same harness compiled normally against the same sources"""
    tgt = NATT + ('-asan' if asan else '')
    with Lock('nat' + ('-asan' if asan else '')):
        lockfile()
        stamp, new = freshen(tgt, 'release')
        e = env(RUSTC_BOOTSTRAP='1', RUSTFLAGS='-Zsanitizer=address') if asan else env()
        run(['cargo', 'build', '--release', '--offline', '-p', group, '--bin', 'replay_' + group, '--features', 'native', '--target-dir', tgt] + (['--target', 'x86_64-unknown-linux-gnu'] if asan else []), cwd=H, env=e)
        save_stamp(stamp, new)
        os.makedirs(WORK, exist_ok=True)
        p = os.path.join(WORK, 'replay_%s%s' % (group, '_asan' if asan else ''))
        shutil.copy(os.path.join(tgt, ('x86_64-unknown-linux-gnu/' if asan else '') + 'release/replay_' + group), p + '.new')
        os.replace(p + '.new', p)
        return p


if __name__ == '__main__':
    build_engine()
    for g, en in [a.split(':') for a in sys.argv[1:]]:
        lg = {}
        print(ir(g, en, lg), lg)
        t = time.time()
        print(native(g), round(time.time() - t, 1))
