"""Builds the harness crates from /repo's current working tree: LLVM IR for the
symbolic executor, shared libraries for native replays."""
import glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
IRFLAGS = '--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=n'


class BuildError(Exception):
    pass


def _env(target, flags=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0',
             CARGO_TERM_COLOR='never')
    if flags:
        e.update(RUSTFLAGS=flags, RUSTC_BOOTSTRAP='1')
    return e


def source_hash(crate):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'examples'),
             os.path.join(VERIF, crate), os.path.join(VERIF, "harness"), os.path.join(VERIF, "hapi")]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs if '/target' not in d and f.endswith(('.rs', '.toml', '.lock')))
        for f in files:
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


class Builder:
    """A fresh build directory per run (or, with ZV_CACHE set, one reused as
    long as every source file is unchanged)."""

    def __init__(self):
        self.procs = {}
        base = os.path.join(VERIF, 'build')
        cache = os.environ.get('ZV_CACHE')
        self.cached = bool(cache)
        self.dir = cache if cache else os.path.join(base, 'run-%d' % os.getpid())
        os.makedirs(self.dir, exist_ok=True)

    def cleanup(self):
        if not self.cached and self.dir.startswith(os.path.join(VERIF, 'build', 'run-')):
            shutil.rmtree(self.dir, ignore_errors=True)

    def _target(self, crate, kind):
        return os.path.join(self.dir, crate + '-' + kind)

    def start(self, crate, kind):
        """kind: ir | dev | rel"""
        t = self._target(crate, kind)
        if (crate, kind) in self.procs:
            return
        hsh = source_hash(crate)
        stamp = os.path.join(t, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == hsh:
            self.procs[crate, kind] = None
            return
        if os.path.isdir(t):
            shutil.rmtree(t)
        os.makedirs(t)
        cmd = ['cargo', 'build', '--offline', '--locked'] if kind == 'ir' else \
            ['cargo', 'rustc', '--offline', '--locked', '--lib', '--crate-type', 'cdylib', '--features', 'native']
        if kind == 'rel':
            cmd.append('--release')
        log = open(os.path.join(t, 'log'), 'w')
        p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, crate), env=_env(t, IRFLAGS if kind == 'ir' else None),
                             stdout=log, stderr=subprocess.STDOUT)
        self.procs[crate, kind] = (p, hsh, time.time())

    def start_core(self):
        """the standard library's core, as IR, from the toolchain's own sources"""
        t = os.path.join(self.dir, 'core-ir')
        out = os.path.join(t, 'core.ll')
        if os.path.exists(os.path.join(t, 'stamp')):
            self.procs['core', 'ir'] = None
            return
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        e = _env(t)
        e['RUSTC_BOOTSTRAP'] = '1'
        root = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True, check=True).stdout.strip()
        cmd = ['rustc', '--crate-name', 'core', '--edition', '2024', '--crate-type', 'rlib', root + '/lib/rustlib/src/rust/library/core/src/lib.rs',
               '--emit=llvm-ir=' + out, '-C', 'opt-level=1', '-C', 'debuginfo=0', '-C', 'panic=abort', '-C', 'codegen-units=1', '-C', 'no-vectorize-loops',
               '-C', 'no-vectorize-slp', '-Zforce-unstable-if-unmarked', '--cap-lints', 'allow']
        log = open(os.path.join(t, 'log'), 'w')
        self.procs['core', 'ir'] = subprocess.Popen(cmd, cwd=t, env=e, stdout=log, stderr=subprocess.STDOUT)

    def wait_core(self):
        p = self.procs['core', 'ir']
        t = os.path.join(self.dir, 'core-ir')
        if p is not None:
            if p.wait():
                raise BuildError('building core failed:\n' + open(os.path.join(t, 'log')).read()[-3000:])
            open(os.path.join(t, 'stamp'), 'w').write('ok')
            self.procs['core', 'ir'] = None
        return os.path.join(t, 'core.ll')

    def wait(self, crate, kind):
        self.start(crate, kind)
        x = self.procs[crate, kind]
        t = self._target(crate, kind)
        if x is not None:
            p, hsh, t0 = x
            rc = p.wait()
            if rc:
                raise BuildError('building %s (%s) failed:\n%s' % (crate, kind, open(os.path.join(t, 'log')).read()[-3000:]))
            open(os.path.join(t, 'stamp'), 'w').write(hsh)
            self.procs[crate, kind] = None
        if kind == 'ir':
            return sorted(glob.glob(os.path.join(t, 'debug/deps/*.ll')))
        lib = 'lib' + {'harness': 'zh'}.get(crate, crate.replace('-', '_')) + '.so'
        return os.path.join(t, 'debug' if kind == 'dev' else 'release', lib)
