"""Builds what a check needs from /repo's current working tree, in scratch directories:
the MIR dumper, the MIR of the crate, and the replay harness."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MIRV_REPO', '/repo')
CACHE = os.environ.get('MIRV_CACHE', os.path.join(VERIF, '.build'))
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
STABLE = 'stable-x86_64-unknown-linux-gnu'
STOP = 'std::fmt|core::fmt|log::|hashbrown::|<std::fmt|std::rt|core::panicking|std::alloc|alloc::alloc'
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Zub-checks=no'


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout.decode(errors='replace')


def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'fuzz'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock') or os.path.getsize(p) < 1 << 20:
                out.append(p)
    return out


def repo_digest():
    h = hashlib.sha256()
    for p in tree_files(REPO):
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def file_digest(*ps):
    h = hashlib.sha256()
    for p in ps:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, what):
        self.what = what

    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock-' + self.what), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def dumper():
    src = os.path.join(HERE, 'dumper', 'main.rs')
    out = os.path.join(CACHE, 'dumper-' + file_digest(src))
    if not os.path.exists(out):
        run(['rustc', '--edition', '2024', '-O', src, '-o', out + '.tmp'], {'RUSTUP_TOOLCHAIN': NIGHTLY}, cwd=CACHE)
        os.rename(out + '.tmp', out)
    return out


def copy_repo(dst):
    for p in tree_files(REPO):
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)


def keep(pattern, n):
    """Keep the newest n cache entries of a kind."""
    es = [os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith(pattern)]
    es.sort(key=os.path.getmtime)
    for p in es[:-n]:
        os.remove(p)


def dump(digest):
    """The MIR of everything load_obj and load_mtl can reach, as JSON."""
    with Lock('dump'):
        d = dumper()
        out = os.path.join(CACHE, 'mir-%s-%s.json' % (digest, os.path.basename(d)[7:]))
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(prefix='mirv-src-')
        try:
            copy_repo(tmp)
            sysroot = run(['rustc', '--print', 'sysroot'], {'RUSTUP_TOOLCHAIN': NIGHTLY}).strip()
            run(['cargo', 'check', '--offline', '--lib'], {
                'RUSTUP_TOOLCHAIN': NIGHTLY, 'CARGO_NET_OFFLINE': 'true', 'LD_LIBRARY_PATH': sysroot + '/lib',
                'RUSTFLAGS': FLAGS, 'RUSTC_WORKSPACE_WRAPPER': d, 'MIRV_CRATE': 'nobject_rs',
                'MIRV_ROOTS': 'nobject_rs::load_obj|nobject_rs::load_mtl', 'MIRV_OUT': out + '.tmp', 'MIRV_STOP': STOP,
                'CARGO_TARGET_DIR': os.path.join(tmp, 'target')}, cwd=tmp)
            if not os.path.exists(out + '.tmp'):
                raise BuildError('the compiler produced no MIR for load_obj and load_mtl')
            os.rename(out + '.tmp', out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        keep('mir-', 3)
        return out


def harness(digest):
    """The program that runs the real load_obj / load_mtl on given inputs."""
    with Lock('harness'):
        hs = os.path.join(VERIF, 'harness')
        out = os.path.join(CACHE, 'harness-%s-%s' % (digest, file_digest(os.path.join(hs, 'src', 'main.rs'), os.path.join(hs, 'Cargo.toml'))))
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(prefix='mirv-har-')
        try:
            copy_repo(os.path.join(tmp, 'repo'))
            os.makedirs(os.path.join(tmp, 'h', 'src'))
            shutil.copyfile(os.path.join(hs, 'src', 'main.rs'), os.path.join(tmp, 'h', 'src', 'main.rs'))
            t = open(os.path.join(hs, 'Cargo.toml')).read().replace('"/repo"', '"%s"' % os.path.join(tmp, 'repo'))
            open(os.path.join(tmp, 'h', 'Cargo.toml'), 'w').write(t)
            lock = os.path.join(REPO, 'Cargo.lock')
            if os.path.exists(lock):
                shutil.copyfile(lock, os.path.join(tmp, 'h', 'Cargo.lock'))
            run(['cargo', 'build', '--offline'], {'RUSTUP_TOOLCHAIN': STABLE, 'CARGO_NET_OFFLINE': 'true',
                                                 'CARGO_TARGET_DIR': os.path.join(tmp, 'target')}, cwd=os.path.join(tmp, 'h'))
            shutil.copyfile(os.path.join(tmp, 'target', 'debug', 'nobject-harness'), out + '.tmp')
            os.chmod(out + '.tmp', 0o755)
            os.rename(out + '.tmp', out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        keep('harness-', 3)
        return out


if __name__ == '__main__':
    d = repo_digest()
    for what in sys.argv[1:] or ['dump', 'harness']:
        print({'dump': dump, 'harness': harness}[what](d))
