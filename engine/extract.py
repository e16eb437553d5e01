"""Type-check a tree of the crate with the mirfacts driver and return its facts (JSON text).

Works on a scratch copy of the tree's tracked-looking inputs (src/, Cargo.toml), so the analysed
tree itself is never written to.  Nothing of the crate is executed.
"""
import os, shutil, subprocess, tempfile, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def driver():
    src = os.path.join(VERIF, 'driver')
    tgt = os.path.join(BUILD, 'driver')
    exe = os.path.join(tgt, 'debug', 'mirfacts')
    newest = max(os.path.getmtime(os.path.join(src, p)) for p in ('src/main.rs', 'src/json.rs', 'Cargo.toml'))
    if os.path.exists(exe) and os.path.getmtime(exe) >= newest:
        return exe
    e = _env()
    e['CARGO_TARGET_DIR'] = tgt
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise ExtractError('the fact extractor does not build:\n' + r.stdout[-3000:])
    return exe


def extract(repo='/repo', target=None):
    """-> JSON text of the crate's facts"""
    exe = driver()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='scratch-', dir=BUILD)
    try:
        tree = os.path.join(work, 'tree')
        out = os.path.join(work, 'out')
        os.makedirs(tree)
        os.makedirs(out)
        shutil.copytree(os.path.join(repo, 'src'), os.path.join(tree, 'src'))
        shutil.copy(os.path.join(repo, 'Cargo.toml'), tree)
        lock = os.path.join(repo, 'Cargo.lock')
        if not os.path.exists(lock):
            lock = os.path.join(VERIF, 'spec', 'Cargo.lock')
        shutil.copy(lock, os.path.join(tree, 'Cargo.lock'))
        e = _env()
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        e['MIRFACTS_OUT'] = out
        e['RUSTC_WORKSPACE_WRAPPER'] = exe
        e['CARGO_TARGET_DIR'] = target or os.path.join(work, 'target')
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=tree, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = os.path.join(out, 'antlr_rust.json')
        if r.returncode or not os.path.exists(p):
            raise ExtractError('the crate does not type-check:\n' + r.stdout[-4000:])
        return open(p).read()
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.stdout.write(extract(*sys.argv[1:]))
