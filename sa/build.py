"""Builds the MIR dumper and dumps the MIR of /repo and of the reference crate."""
import os, sys, subprocess, json, hashlib, shutil, fcntl, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
REPO = os.environ.get("FEM_SA_REPO", "/repo")
DRIVER = os.path.join(B, "fem_sa_driver")

class BuildError(Exception): pass

def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=cwd)
    return r.returncode, r.stdout

@contextlib.contextmanager
def lock():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def digest(*paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def driver():
    src = os.path.join(V, "driver", "main.rs"); stamp = DRIVER + ".stamp"
    rc, ver = sh(["rustc", "+nightly", "-vV"])
    d = digest(src) + ver
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == d: return
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
    rc, out = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", DRIVER, "-C", "link-args=-Wl,-rpath,%s/lib" % sysroot.strip()], cwd=B)
    if rc: raise BuildError("driver: " + out[-2000:])
    open(stamp, "w").write(d)

def env(out=None, wrapper=True):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "target"), CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"): e.pop(k, None)
    if wrapper: e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    if out: e["FEM_SA_OUT"] = out
    return e

def lockfile(crate_dir, tag):
    """cargo may rewrite a lock file: give it a copy"""
    d = os.path.join(B, "lock_" + tag); os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "Cargo.lock"); src = os.path.join(crate_dir, "Cargo.lock")
    if not os.path.exists(src): src = os.path.join(V, "driver", "Cargo.lock.ref")
    if os.path.exists(src): shutil.copy(src, dst)
    return dst

def forget(crate):
    t = os.path.join(B, "target", "debug")
    for base, pre in ((os.path.join(t, ".fingerprint"), crate + "-"), (os.path.join(t, "build"), crate)):
        if os.path.isdir(base):
            for n in os.listdir(base):
                if n == crate or n.startswith(crate + "-"): shutil.rmtree(os.path.join(base, n), ignore_errors=True)

def cargo_check(crate_dir, tag, e, extra=()):
    lf = lockfile(crate_dir, tag)
    return sh(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(crate_dir, "Cargo.toml"),
               "--config", 'resolver.lockfile-path="%s"' % lf] + list(extra), env=e, cwd=B)

def dump(crate_dir, crate, out, tag, extra=()):
    if os.path.exists(out): os.remove(out)
    forget(crate)
    rc, txt = cargo_check(crate_dir, tag, env(out), extra)
    if rc or not os.path.exists(out):
        raise BuildError("%s does not build:\n%s" % (crate_dir, "\n".join(l for l in txt.splitlines() if l.startswith("error"))[:1500] or txt[-1500:]))
    return out

def spec():
    out = os.path.join(B, "spec.json"); stamp = out + ".stamp"
    sd = os.path.join(V, "spec")
    fs = [os.path.join(sd, "Cargo.toml")] + [os.path.join(sd, "src", f) for f in sorted(os.listdir(os.path.join(sd, "src")))] + [os.path.join(V, "driver", "main.rs")]
    d = digest(*fs)
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == d: return out
    if os.path.exists(stamp): os.remove(stamp)
    dump(sd, "fem_spec", out, "spec", ["--features", "max_ortho_basis"])
    open(stamp, "w").write(d)
    return out

def repo():
    """MIR of the current working tree, with every optional feature on; the default features if that does not build"""
    out = os.path.join(B, "repo.json")
    try: return dump(REPO, "fem_2d", out, "repo", ["--all-features"]), True
    except BuildError: return dump(REPO, "fem_2d", out, "repo"), False

def all():
    with lock():
        driver(); s = spec(); r, full = repo()
        # private copies: another check may rewrite the files
        return json.load(open(s)), json.load(open(r)), full
