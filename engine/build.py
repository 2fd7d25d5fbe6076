"""Builds the code under check: LLVM IR for the executor, native replay binaries."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUST_'))}
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e.update(kw)
    return e


def sh(cmd, cwd=None, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def source_hash():
    h = hashlib.sha256()
    files = []
    for base, pats in ((REPO, ('src/**/*.rs', 'Cargo.toml', 'Cargo.lock', 'build.rs')),
                       (os.path.join(ROOT, 'harness'), ('src/**/*.rs', 'Cargo.toml')),
                       (os.path.join(ROOT, 'engine'), ('build.py',))):
        for p in pats:
            files += sorted(glob.glob(os.path.join(base, p), recursive=True))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read() + b'\0')
    return h.hexdigest()[:20]


COMMON = '-C codegen-units=1 -C no-prepopulate-passes -C debuginfo=0 -C embed-bitcode=no -C panic=abort ' \
         '-Z share-generics=no -Z mir-opt-level=2 -Z ub-checks=no -C symbol-mangling-version=v0 --emit=llvm-ir,link'
CONFIGS = {
    'checked': COMMON + ' -C overflow-checks=on -C debug-assertions=on',
    'wrapping': COMMON + ' -C overflow-checks=off -C debug-assertions=off',
}


def emit_ir(d, cfg):
    sysroot = sh(['rustc', '--print', 'sysroot']).strip()
    tools = os.path.join(sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    tgt = os.path.join(d, 'ir-' + cfg)
    sh(['cargo', 'build', '--offline', '--lib'], cwd=os.path.join(d, 'harness'), CARGO_TARGET_DIR=tgt,
       RUSTFLAGS=CONFIGS[cfg], RUSTC_BOOTSTRAP='1')
    lls = []
    for crate in ('clarith', 'vharness'):
        c = [p for p in glob.glob(tgt + '/debug/**/%s*.ll' % crate, recursive=True)]
        if len(c) != 1:
            raise BuildError('expected one IR file for %s, found %r' % (crate, c))
        lls += c
    linked = os.path.join(d, cfg + '.linked.ll')
    sh([os.path.join(tools, 'llvm-link'), '-S', '-o', linked] + lls)
    out = os.path.join(d, cfg + '.ll')
    sh([os.path.join(tools, 'opt'), '-S', '-passes=mem2reg', '-o', out + '.tmp', linked])
    os.rename(out + '.tmp', out)
    shutil.rmtree(tgt, ignore_errors=True)
    os.unlink(linked)


def library(d):
    """IR of the standard library (embedded in its binaries), for functions that the code calls but rustc does not
    instantiate with it; only made when the executor meets such a function"""
    out = [os.path.join(d, 'lib-%s.ll' % c) for c in ('core', 'alloc', 'std')]
    with open(os.path.join(d, 'lib.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(p) for p in out):
            return out
        sysroot = sh(['rustc', '--print', 'sysroot']).strip()
        base = os.path.join(sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu')
        tmp = os.path.join(d, 'lib-tmp')
        os.makedirs(tmp, exist_ok=True)
        for c, p in zip(('core', 'alloc', 'std'), out):
            rlib, = glob.glob(os.path.join(base, 'lib', 'lib%s-*.rlib' % c))
            sh([os.path.join(base, 'bin/llvm-ar'), 'x', rlib], cwd=tmp)
            o, = glob.glob(os.path.join(tmp, c + '-*.o'))
            sh([os.path.join(base, 'bin/llvm-objcopy'), '--dump-section', '.llvmbc=' + os.path.join(tmp, c + '.bc'), o, '/dev/null'])
            sh([os.path.join(base, 'bin/llvm-dis'), os.path.join(tmp, c + '.bc'), '-o', p + '.tmp'])
            os.rename(p + '.tmp', p)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def native(d, profile):
    tgt = os.path.join(d, 'native-' + profile)
    cmd = ['cargo', 'build', '--offline', '--bin', 'replay'] + (['--release'] if profile == 'release' else [])
    sh(cmd, cwd=os.path.join(d, 'harness'), CARGO_TARGET_DIR=tgt)
    sub = 'release' if profile == 'release' else 'debug'
    shutil.copy(os.path.join(tgt, sub, 'replay'), os.path.join(d, 'replay-%s.tmp' % profile))
    os.rename(os.path.join(d, 'replay-%s.tmp' % profile), os.path.join(d, 'replay-' + profile))
    shutil.rmtree(tgt, ignore_errors=True)


def prepare(cfgs=('checked', 'wrapping'), profiles=('dev', 'release')):
    """build everything from the current sources into a new directory; returns it.
    VP_CACHE=1 keeps builds of unchanged sources, for development only."""
    cache = os.environ.get('VP_CACHE') == '1'
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, source_hash() if cache else 'run-%d' % os.getpid())
        if not cache:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        hd = os.path.join(d, 'harness')
        if not os.path.isdir(hd):
            shutil.copytree(os.path.join(ROOT, 'harness'), hd + '.tmp', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            if REPO != '/repo':
                p = os.path.join(hd + '.tmp', 'Cargo.toml')
                with open(p) as fh:
                    t = fh.read()
                with open(p, 'w') as fh:
                    fh.write(t.replace('"/repo"', '"%s"' % REPO))
            os.rename(hd + '.tmp', hd)
        todo = [(emit_ir, c) for c in cfgs if not os.path.exists(os.path.join(d, c + '.ll'))]
        todo += [(native, p) for p in profiles if not os.path.exists(os.path.join(d, 'replay-' + p))]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(fn, d, x) for fn, x in todo]:
                f.result()
    return d


def discard(d):
    if os.environ.get('VP_CACHE') != '1':
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    d = prepare()
    print('built %s' % ' '.join(sorted(os.listdir(d))))
    discard(d)
