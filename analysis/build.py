"""Build the MIR extraction driver (if needed), run it on /repo's working tree, load the extracted program."""
import os, sys, json, hashlib, subprocess, tempfile, shutil, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RASP_REPO', '/repo')
CACHE = os.environ.get('RASP_CACHE') or os.path.join(VERIF, '.cache')
DRV = os.path.join(VERIF, 'driver')

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO_PROFILE', 'RUSTFLAGS', 'RUSTC_', 'CARGO_ENCODED', 'CARGO_BUILD')) or k in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR'): e.pop(k)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'
    return e

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def filehash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def srcfiles(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        out += [os.path.join(d, f) for f in fs]
    return out

class lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def driver():
    """path of the driver binary, built from driver/src when the sources changed"""
    tag = filehash(srcfiles(os.path.join(DRV, 'src')) + [os.path.join(DRV, 'Cargo.toml')])
    exe = os.path.join(DRV, 'target', 'debug', 'raspmir')
    stamp = os.path.join(DRV, 'target', 'stamp')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == tag: return exe, tag
    e = env(); e['CARGO_TARGET_DIR'] = os.path.join(DRV, 'target')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline'], cwd=DRV, env=e)
    if rc != 0 or not os.path.exists(exe): raise RuntimeError('driver build failed:\n' + out[-4000:])
    with open(stamp, 'w') as f: f.write(tag)
    return exe, tag

def extract(release=False, opt=None, fresh=False):
    """path of the JSON extracted from REPO's current working tree (opt: MIR optimisation level instead of the profile's own)"""
    kind = ('rel' if release else 'mir') + ('' if opt is None else 'o%d' % opt)
    with lock():
        exe, tag = driver()
        key = filehash(srcfiles(REPO), tag + REPO)
        out = os.path.join(CACHE, '%s-%s.json' % (kind, key))
        if os.path.exists(out) and not fresh: return out, key
        e = env()
        rc, sr = sh(['rustc', '+nightly', '--print', 'sysroot'], env=e)
        tmp = tempfile.mkdtemp(prefix='raspmir-')
        try:
            e.update(RUSTFLAGS='-Zalways-encode-mir' + ('' if opt is None else ' -Zmir-opt-level=%d' % opt), LD_LIBRARY_PATH=sr.strip() + '/lib', RASPMIR_OUT=os.path.join(tmp, 'mir.json'), RASPMIR_CRATE='rasp',
                     RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
            rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--lib'] + (['--release'] if release else []), cwd=REPO, env=e)
            if rc != 0 or not os.path.exists(os.path.join(tmp, 'mir.json')): raise RuntimeError('extraction failed:\n' + log[-4000:])
            for f in os.listdir(CACHE):
                if f.startswith(kind + '-'): os.unlink(os.path.join(CACHE, f))
            shutil.copy(os.path.join(tmp, 'mir.json'), out + '.tmp'); os.rename(out + '.tmp', out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return out, key

if __name__ == '__main__':
    print(extract()[0]); print(extract(True)[0])
