"""Front end: runs the MIR dumper over /repo's current sources (and over the
witness crate, which expands /repo's derive macros) and loads the result.

The dump is keyed by a hash of every source file involved, so an unchanged
tree is dumped once and a changed tree is always dumped again."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("XSA_REPO", "/repo")
DRIVER = os.path.join(BUILD, "driver", "release", "mirdump")


class FrontendError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env_for(extra=None):
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Zalways-encode-mir"
    if extra:
        e.update(extra)
    return e


def build_driver():
    e = env_for({"CARGO_TARGET_DIR": os.path.join(BUILD, "driver"), "RUSTFLAGS": ""})
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--release", "-q"],
                       cwd=os.path.join(VERIF, "driver"), env=e, text=True, capture_output=True)
    if r.returncode != 0:
        raise FrontendError("driver build failed:\n" + r.stderr[-4000:])


def _files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "node_modules"))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    files = _files(REPO, (".rs", ".toml", ".lock"))
    files += _files(os.path.join(VERIF, "witness"), (".rs", ".toml", ".lock"))
    files += _files(os.path.join(VERIF, "witness_derive"), (".rs", ".toml", ".lock"))
    files += _files(os.path.join(VERIF, "driver"), (".rs", ".toml"))
    files.append(os.path.join(HERE, "deny.txt"))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _clean_fingerprints(target, prefixes):
    for sub in (".fingerprint", "build"):
        fp = os.path.join(target, "debug", sub)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n in prefixes or any(n.startswith(p + "-") for p in prefixes):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)


def _cargo(cwd, env, args):
    r = subprocess.run(["cargo", "+nightly"] + args, cwd=cwd, env=env, text=True, capture_output=True)
    if r.returncode != 0:
        raise FrontendError("cargo %s in %s failed:\n%s" % (" ".join(args), cwd, r.stderr[-6000:]))
    return r


def need_driver():
    """build the driver unless the one present was built from these sources"""
    h = hashlib.sha256()
    for f in _files(os.path.join(VERIF, "driver"), (".rs", ".toml")):
        h.update(open(f, "rb").read())
    h = h.hexdigest()
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    build_driver()
    open(stamp, "w").write(h)


def dump():
    """Return the directory with the JSON dumps of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        need_driver()
        h = tree_hash()
        out = os.path.join(BUILD, "dump", h)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(BUILD, "target")
        base = {
            "CARGO_TARGET_DIR": target,
            "MIRDUMP_OUT": tmp,
            "MIRDUMP_DENY": os.path.join(HERE, "deny.txt"),
            "CARGO_INCREMENTAL": "0",
        }
        had_lock = os.path.exists(os.path.join(REPO, "Cargo.lock"))
        _clean_fingerprints(target, ("serde_xdr", "serde_xdr_derive", "serde_xdr_test", "rpcgen", "xwitness", "xwderive"))
        e = env_for(dict(base, RUSTC_WORKSPACE_WRAPPER=DRIVER,
                         MIRDUMP_CRATES="serde_xdr,serde_xdr_derive,rpcgen"))
        r = _cargo(REPO, e, ["check", "--offline", "-p", "serde_xdr", "-p", "serde_xdr_derive", "-p", "rpcgen"])
        open(os.path.join(tmp, "diag.txt"), "w").write(r.stderr)
        if not had_lock and os.path.exists(os.path.join(REPO, "Cargo.lock")):
            pass
        for name, crate in (("witness", "xwitness"), ("witness_derive", "xwderive")):
            e = env_for(dict(base, RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRDUMP_CRATES=crate))
            wdir = os.path.join(VERIF, name)
            if REPO != "/repo":
                # same witness sources, pointed at another checkout (used only by self-tests)
                wdir = os.path.join(tmp, name)
                shutil.copytree(os.path.join(VERIF, name), wdir)
                p = os.path.join(wdir, "Cargo.toml")
                s = open(p).read().replace("/repo/", REPO.rstrip("/") + "/")
                open(p, "w").write(s)
            try:
                _cargo(wdir, e, ["check", "--offline"])
            except FrontendError as ex:
                # the derive expansion does not type-check: recorded, judged by the derive rules
                open(os.path.join(tmp, name + ".err"), "w").write(str(ex))
        open(os.path.join(tmp, "ok"), "w").write(time.strftime("%FT%TZ", time.gmtime()))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune(os.path.dirname(out), os.path.basename(out))
        return out


def prune(d, keep):
    """old dumps go"""
    old = sorted((x for x in os.listdir(d) if x != keep), key=lambda x: os.path.getmtime(os.path.join(d, x)))
    for x in old[:-6]:
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)


_cache = {}


def load(name):
    """name: 'serde_xdr.lib', 'serde_xdr_derive.lib', 'rpcgen.lib', 'rpcgen.bin', 'xwitness.lib'"""
    d = dump()
    key = (d, name)
    if key not in _cache:
        p = os.path.join(d, name + ".json")
        if not os.path.exists(p):
            raise FrontendError("no dump for " + name)
        with open(p) as f:
            _cache[key] = json.load(f)
    return _cache[key]


if __name__ == "__main__":
    t = time.time()
    d = dump()
    print(d, "%.1fs" % (time.time() - t))
    for f in sorted(os.listdir(d)):
        print(f, os.path.getsize(os.path.join(d, f)))
