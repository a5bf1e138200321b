"""Type-checks the pallets of a copy of the repository against the stand-ins of tools/mini."""
import fcntl, os, shutil, subprocess, time
here = os.path.dirname(os.path.abspath(__file__))
BASE = '/tmp/battery-build'
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')


def work():
    """(lock, directory) of a build directory nobody else is using"""
    os.makedirs(BASE, exist_ok=True)
    while True:
        for n in range(8, 32):
            f = open(os.path.join(BASE, 'mini%d.lock' % n), 'w')
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                f.close()
                continue
            w = os.path.join(BASE, 'mini%d' % n)
            os.makedirs(w, exist_ok=True)
            return f, w
        time.sleep(1)


def check(repo, run=None):
    """None when everything compiles (and, given drivers {name: source}, each of them succeeds); else what went wrong."""
    n, w = work()
    try:
        for d in ('mini', 'macros'):
            subprocess.check_call(['rsync', '-a', os.path.join(here, 'mini', d), w]) if shutil.which('rsync') else shutil.copytree(os.path.join(here, 'mini', d), os.path.join(w, d), dirs_exist_ok=True)
        link = os.path.join(w, 'repo')
        if os.path.islink(link):
            os.remove(link)
        os.symlink(repo, link)
        subprocess.check_call(['bash', os.path.join(here, 'mini', 'facades.sh'), w, link])
        d = os.path.join(w, 'driver')
        os.makedirs(d + '/src', exist_ok=True)
        for c in ('payments', 'communities', 'manager'):
            shutil.copy(os.path.join(here, 'mini', 'drivers', c + '.rs'), d + '/src/' + c + '_chain.rs')
        os.makedirs(d + '/src/bin', exist_ok=True)
        open(d + '/src/lib.rs', 'w').write('')
        for f in os.listdir(d + '/src/bin'):
            os.remove(os.path.join(d, 'src/bin', f))
        for k, s in (run or {'all': '#[path = "../payments_chain.rs"] mod a;\n#[path = "../manager_chain.rs"] mod b;\nfn main() {}\n'}).items():
            open(d + '/src/bin/%s.rs' % k, 'w').write(s)
        open(d + '/Cargo.toml', 'w').write('''[package]
name = "driver"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mini = { path = "../mini" }
pallet-payments = { path = "../pallet-payments" }
pallet-communities = { path = "../pallet-communities" }
pallet-communities-manager = { path = "../pallet-communities-manager" }
xcm = { path = "../xcm" }
parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.10.0", features = ["derive"] }
''')
        env = dict(ENV, CARGO_TARGET_DIR=w + '/target')
        # the link's target changes, the path does not
        for p in ('payments', 'communities', 'communities-manager'):
            os.utime(os.path.join(repo, 'pallets', p, 'src', 'lib.rs'))
        r = subprocess.run(['cargo', 'build' if run else 'check', '--offline', '-q', '--manifest-path', d + '/Cargo.toml'], capture_output=True, text=True, env=env)
        if r.returncode:
            return 'compile: ' + r.stderr[:900]
        for k in run or {}:
            r = subprocess.run([w + '/target/debug/' + k], capture_output=True, text=True, timeout=60)
            if r.returncode:
                return 'run %s: %s' % (k, (r.stderr + r.stdout)[:300])
        return None
    finally:
        n.close()
