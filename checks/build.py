"""Builds the driver and witness crates and dumps their type-checked MIR (nothing is ever run)."""
import os, re, subprocess, sys, shutil, json, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
STD = ['core::option::Option', 'core::result::Result', '<core::result::Result', '<core::option::Option']


class BuildError(Exception):
    pass


class WitnessError(BuildError):
    """the library and the derive build, but a documented use of them does not"""


def sysroot():
    global _sr
    try:
        return _sr
    except NameError:
        _sr = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
        return _sr


def env_base():
    e = dict(os.environ)
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    return e


def lockfile():
    src = os.path.join(REPO, 'Cargo.lock')
    mine = os.path.join(ROOT, 'checks', 'witness.lock')
    return mine if os.path.exists(mine) else src


def build_driver():
    e = env_base()
    tgt = os.path.join(BUILD, 'driver')
    e['CARGO_TARGET_DIR'] = tgt
    e.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'driver'), env=e, capture_output=True, text=True)
    if p.returncode != 0: raise BuildError('driver: ' + p.stderr[-3000:])
    return os.path.join(tgt, 'debug', 'mirdump')


def features(fs):
    return '[' + ', '.join('"%s"' % f for f in fs) + ']'


def make_crate(name, source, feats, deps='', default_features=False):
    d = os.path.join(BUILD, 'w_' + name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    toml = '''[package]
name = "witness"
version = "0.0.0"
edition = "2024"
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
validators = { path = "%s/validators", default-features = %s, features = %s }
%s
''' % (REPO, 'true' if default_features else 'false', features(feats), deps)
    w(os.path.join(d, 'Cargo.toml'), toml)
    w(os.path.join(d, 'src', 'lib.rs'), source)
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock): shutil.copy(lockfile(), lock)
    return d


def w(path, text):
    with open(path, 'w') as f: f.write(text)


def dump(name, source, feats, deps='', std=(), default_features=False):
    """type-check the witness with the driver and return the path of the dumped program"""
    drv = build_driver()
    d = make_crate(name, source, feats, deps, default_features)
    out = os.path.join(d, 'mir.json')
    if os.path.exists(out): os.remove(out)
    e = env_base()
    e.update(RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings',
             MIRDUMP_CRATE='witness', MIRDUMP_OUT=out, MIRDUMP_INLINE='witness,validators',
             MIRDUMP_STD=','.join(list(STD) + list(std)), CARGO_TARGET_DIR=os.path.join(BUILD, 'target'),
             CARGO_INCREMENTAL='0')
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        bad = re.search(r'could not compile `witness`', p.stderr) and not re.search(r'could not compile `(?!witness)', p.stderr)
        raise (WitnessError if bad else BuildError)('witness %s does not build: %s' % (name, p.stderr[-6000:]))
    return out
