"""Build the MIR driver and dump the type-checked, borrow-checked program of /repo's working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORK = os.path.join(VERIF, '.work')
REPO = '/repo'
DRIVER = os.path.join(WORK, 'driver', 'release', 'sorock-sa-driver')
T = os.path.join(WORK, 'target')


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def files():
    out = []
    for base in ('sorock/src', 'sorock/proto'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs]
    for f in ('sorock/Cargo.toml', 'Cargo.toml', 'Cargo.lock', '.cargo/config.toml', 'sorock/build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for d, _, fs in os.walk(os.path.join(VERIF, 'driver', 'src')):
        for f in sorted(fs):
            with open(os.path.join(d, f), 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(VERIF, 'driver'))
                 for f in fs if f.endswith(('.rs', '.toml')))
    stamp = DRIVER + '.src'
    cur = subprocess.run('cat src/*.rs Cargo.toml | sha256sum', shell=True, cwd=os.path.join(VERIF, 'driver'),
                         stdout=subprocess.PIPE).stdout.decode().split()[0]
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == cur:
        return
    rc, out = sh(['cargo', 'build', '--release', '--offline'], os.path.join(VERIF, 'driver'),
                 {'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_TARGET_DIR': os.path.join(WORK, 'driver')})
    if rc != 0:
        raise BuildError('driver build failed\n' + out[-3000:])
    with open(stamp, 'w') as f:
        f.write(cur)


def dump(fresh=False):
    """path of the dump of the current working tree; made if it is not there, or again if `fresh`"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        out = os.path.join(WORK, 'dump', h + '.json')
        if os.path.exists(out) and not fresh:
            return out, h
        build_driver()
        os.makedirs(os.path.dirname(out), exist_ok=True)
        rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], VERIF)
        # cargo would skip the wrapper on a fresh target: forget what it knows of this crate
        for sub in ('.fingerprint', 'build', 'incremental'):
            fp = os.path.join(T, 'debug', sub)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n == 'sorock' or n.startswith('sorock-'):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        tmp = out + '.tmp%d' % os.getpid()
        lib = sysroot.strip() + '/lib'
        old = os.environ.get('LD_LIBRARY_PATH')
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '-p', 'sorock', '--lib'], REPO, {
            'LD_LIBRARY_PATH': lib + (':' + old if old else ''), 'CARGO_INCREMENTAL': '0',
            'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'SA_CRATE': 'sorock', 'SA_OUT': tmp, 'CARGO_TARGET_DIR': T})
        if rc != 0 or not os.path.exists(tmp):
            raise BuildError('cargo check of /repo with the driver failed\n' + log[-3000:])
        # keep the disk small: the newest few dumps
        ds = sorted((os.path.join(WORK, 'dump', f) for f in os.listdir(os.path.join(WORK, 'dump')) if f.endswith('.json')),
                    key=os.path.getmtime)
        for p in ds[:-6]:
            os.unlink(p)
        os.replace(tmp, out)
        return out, h


if __name__ == '__main__':
    t = time.time()
    print(dump(), '%.1fs' % (time.time() - t))
