"""Builds what a check needs from /repo's current working tree: the MIR extractor, the MIR of the
contracts (with everything they reach), and the concrete executor."""
import os, subprocess, hashlib, shutil, fcntl, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e


def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-3000:]))
    return p.stdout


def locked():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, 'mirdump', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirdump-' + h)
    if not os.path.exists(out):
        run(['rustc', '-O', '--edition', '2021', src, '-o', out + '.tmp'], BUILD, env(RUSTUP_TOOLCHAIN='nightly'), 'building the MIR extractor')
        os.rename(out + '.tmp', out)
    return out


def repo_manifest(path, text):
    """the probe and executor crates name /repo; honour VERIF_REPO by rewriting a copy"""
    return text.replace('"/repo/', '"%s/' % REPO)


def crate(name):
    """the crate directory, copied to the build directory when another tree than /repo is checked"""
    d = os.path.join(ROOT, name)
    if REPO == '/repo':
        return d
    d2 = os.path.join(BUILD, name)
    shutil.rmtree(d2, ignore_errors=True)
    shutil.copytree(d, d2, ignore=shutil.ignore_patterns('target'))
    p = os.path.join(d2, 'Cargo.toml')
    s = repo_manifest(p, open(p).read())
    open(p, 'w').write(s)
    return d2


def follow_list():
    """what is extracted beside /repo's own functions: mirdump/follow.txt, but nothing that has a model"""
    from . import vm, models, coll
    f = os.path.join(BUILD, 'follow.txt')
    with open(f, 'w') as o:
        o.write(open(os.path.join(ROOT, 'mirdump', 'follow.txt')).read())
        o.writelines('=%s\n' % n for n in sorted(models.MODELS))
    return f


def mir():
    """MIR of the current tree; path of the JSON file"""
    lk = locked()
    ex = extractor()
    d = crate('probe')
    e = env(RUSTUP_TOOLCHAIN='nightly')
    sysroot = run(['rustc', '--print', 'sysroot'], d, e, 'rustc').strip()
    out = os.path.join(BUILD, 'mir.json')
    if os.path.exists(out):
        os.unlink(out)
    e = env(RUSTUP_TOOLCHAIN='nightly', LD_LIBRARY_PATH=sysroot + '/lib', CARGO_TARGET_DIR=os.path.join(BUILD, 'mir-target'),
            RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off',
            RUSTC_WORKSPACE_WRAPPER=ex, MIRDUMP_OUT=out, MIRDUMP_FOLLOW=follow_list())
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    run(['cargo', 'check', '--offline', '--quiet'], d, e, 'compiling /repo to MIR')
    if not os.path.exists(out):
        raise BuildError('no MIR was written')
    lk.close()
    return out
