"""Planted bugs: make and verify them (development only; no check uses this).

  seed.py mk ID PROP FILE          < python dict file on stdin (see tools/README in DESIGN.md)
  seed.py verify ID...             build, stable tests and demo, with and without the patch
  seed.py catch ID...              runs the property's quick check on /repo with the patch applied
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = r'''#!/bin/bash
# cwd: the repository, built.  Exit 0 when the behaviour is right.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/z80demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
z80emu = { path = "$R"@FEAT@ }
@DEPS@
[workspace]
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run -q --offline
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def mk(sid, spec):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (REPO, w, w))
        for f, old, new in spec['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=w).stdout
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'main.rs'), 'w').write(spec['main'])
    demo = DEMO.replace('@FEAT@', spec.get('feat', ', default-features = false')).replace('@DEPS@', spec.get('deps', ''))
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def verify(sid):
    d = os.path.join(V, 'seeded', sid)
    w = '/tmp/seedrepo'
    if not os.path.isdir(w):
        sh(['cp', '-a', REPO, w])
    sh('git -C %s fetch -q %s HEAD; git -C %s checkout -q -f %s; git -C %s clean -fdq' % (w, REPO, w, sh('git -C %s rev-parse HEAD' % REPO).stdout.strip(), w))
    r0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=w)
    a = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=w)
    if a.returncode:
        return '%s: patch does not apply: %s' % (sid, a.stderr)
    r1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=w)
    t = sh('cargo test --workspace --exclude z80emu-embedded-example --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|^error|test result: F|could not compile"; '
           'cargo build -p z80emu --no-default-features --offline 2>&1 | grep -E "^error"; cargo build -p ral1243 --no-default-features --offline 2>&1 | grep -E "^error"', cwd=w)
    sh('git checkout -q -f', cwd=w)
    ok = r0.returncode == 0 and r1.returncode != 0 and not t.stdout.strip()
    return '%s: %s demo %d/%d %s%s' % (sid, 'OK' if ok else 'BAD', r0.returncode, r1.returncode, t.stdout[:300], (r0.stderr[-400:] if r0.returncode else '') +
                                      (r1.stderr[-600:] if 'error' in r1.stderr[:300] else ''))


def catch(sid):
    d = os.path.join(V, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    assert not sh('git -C %s status --porcelain -uno' % REPO).stdout.strip()
    try:
        a = sh(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
        assert not a.returncode, a.stderr
        r = sh([os.path.join(V, 'check'), prop, 'quick'])
    finally:
        sh('git -C %s checkout -- .' % REPO)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    return '%s: %s rc=%d %d violations; %s' % (sid, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, len(v), r.stdout.strip().splitlines()[-1:])


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        print({'verify': verify, 'catch': catch}[sys.argv[1]](i), flush=True)
