"""Builds the THIR driver and dumps /repo's current working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


def files(tops, base):
    out = []
    for t in tops:
        p = os.path.join(base, t)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(tops, base, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files(tops, base):
        h.update(os.path.relpath(f, base).encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    return e


def driver():
    d = os.path.join(BUILD, 'driver')
    key = digest(['src', 'Cargo.toml', 'Cargo.lock', 'rust-toolchain.toml'], os.path.join(VERIF, 'driver'))
    exe, mark = os.path.join(d, 'release', 'thirdump'), os.path.join(d, 'key')
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == key:
        return exe, key
    os.makedirs(d, exist_ok=True)
    e = env()
    e['CARGO_TARGET_DIR'] = d
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--release'], cwd=os.path.join(VERIF, 'driver'), env=e)
    if rc or not os.path.exists(exe):
        raise BuildError('driver: ' + out[-3000:])
    with open(mark, 'w') as f:
        f.write(key)
    return exe, key


def dump(python=False):
    """paths of the dumps of the library and tool, or of the Python bindings"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock.%d' % python), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    exe, dk = driver_locked()
    tops = ['src', 'Cargo.toml', 'Cargo.lock', 'bindings/python/src', 'bindings/python/Cargo.toml', 'bindings/python/Cargo.lock', 'data'] if python else ['src', 'Cargo.toml', 'Cargo.lock', 'data']
    key = digest(tops, REPO, dk + str(python))
    out = os.path.join(BUILD, 'dumps', ('py-' if python else 'rs-') + key)
    if not os.path.isdir(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='w', dir=BUILD)
        try:
            e = env()
            sr = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
            e.update(LD_LIBRARY_PATH=sr + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, THIRDUMP_OUT=tmp + '/o', CARGO_TARGET_DIR=tmp + '/t')
            os.makedirs(tmp + '/o')
            if python:
                e['PYO3_PYTHON'] = '/usr/bin/python3'
                rc, log = run(['cargo', '+nightly', 'check', '--offline', '--features', 'pyo3/extension-module'], cwd=REPO + '/bindings/python', env=e)
            else:
                rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins'], cwd=REPO, env=e)
            if rc or not glob.glob(tmp + '/o/*.json'):
                raise BuildError(log[-4000:])
            old = sorted(glob.glob(os.path.join(BUILD, 'dumps', '*')), key=os.path.getmtime)
            for o in old[:-30]:
                shutil.rmtree(o, ignore_errors=True)
            os.rename(tmp + '/o', out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return sorted(glob.glob(out + '/*.json'), key=lambda f: ('Rlib' not in f, f))


def driver_locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.d'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return driver()


if __name__ == '__main__':
    try:
        print(driver_locked()[0])
    except BuildError as ex:
        print(ex)
        sys.exit(1)
