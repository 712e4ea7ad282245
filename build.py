#!/usr/bin/env python3
"""Builds what the checks run: the engine, and per variant the LLVM IR of /repo's current code with the property
harnesses linked in, and the native replayer for the same harnesses. Everything goes to /verif/.build."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OUT = os.path.join(VERIF, ".build")
SX = os.path.join(VERIF, "symex")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
IRFLAGS = ("-C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static -C link-arg=-no-pie "
           "-C link-arg=-Wl,--unresolved-symbols=ignore-all")
PROFILE = {"rel": "release", "dbg": "dbg", "cli": "release"}
FEATURES = {"cli": ["--features", "cli"]}


class BuildError(Exception):
    pass


def _files(root, skip=()):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__") and x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def key(roots):
    h = hashlib.sha256()
    for r in roots:
        for f in ([r] if os.path.isfile(r) else _files(r)):
            try:
                with open(f, "rb") as fh:
                    c = fh.read()
            except OSError:
                continue
            h.update(f.encode() + b"\0" + hashlib.sha256(c).digest())
    return h.hexdigest()[:20]


def repo_key():
    return key([os.path.join(REPO, "crates"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode != 0:
        raise BuildError("%s (in %s) failed:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def _stamped(name, k, product, build):
    st = os.path.join(OUT, name + ".stamp")
    if os.path.exists(product) and os.path.exists(st) and open(st).read() == k:
        return product
    if os.path.exists(st):
        os.remove(st)
    build()
    with open(st, "w") as f:
        f.write(k)
    return product


REPO_CRATES = ["math-core", "math-core-renderer-internal"]


def _clean(cwd, td, profile, extra=()):
    """Cargo compares times, we compare contents: forget what was built from other sources."""
    if not os.path.isdir(td):
        return
    for d in glob.glob(td + "/**/.fingerprint", recursive=True):
        for c in os.listdir(d):
            if c.startswith(("math", "vprops", "vnat", "vsym", "vcli")):
                shutil.rmtree(os.path.join(d, c), ignore_errors=True)


def engine():
    td = os.path.join(OUT, "engine")
    prod = os.path.join(td, "release", "symex")

    def b():
        run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(SX, "engine"), {"CARGO_TARGET_DIR": td})

    return _stamped("engine", key([os.path.join(SX, "engine")]), prod, b)


def harness_key(variant):
    dirs = ("props", "sym", "nat", "shims") + (("cli",) if variant == "cli" else ())
    return repo_key() + key([os.path.join(SX, x) for x in dirs] + [os.path.abspath(__file__)])


def ir(variant):
    td = os.path.join(OUT, "sym-" + variant)
    prod = os.path.join(OUT, variant + ".ll")

    def b():
        _clean(os.path.join(SX, "sym"), td, variant)
        for f in glob.glob(td + "/*/%s/deps/vsym-*.ll" % PROFILE[variant]):
            os.remove(f)
        run(["cargo", "rustc", "--profile", PROFILE[variant], "--offline", "--locked", "--target", "x86_64-unknown-linux-gnu",
             "--bin", "vsym", *FEATURES.get(variant, []), "--", "--emit=llvm-ir"], os.path.join(SX, "sym"), {"CARGO_TARGET_DIR": td, "RUSTFLAGS": IRFLAGS})
        c = glob.glob(td + "/*/%s/deps/vsym-*.ll" % PROFILE[variant])
        if len(c) != 1:
            raise BuildError("expected one IR file, got %r" % c)
        shutil.copyfile(c[0], prod + ".tmp")
        os.rename(prod + ".tmp", prod)

    return _stamped("sym-" + variant, harness_key(variant), prod, b)


def nat(variant):
    td = os.path.join(OUT, "nat-" + variant)
    prod = os.path.join(td, PROFILE[variant], "vnat")

    def b():
        _clean(os.path.join(SX, "nat"), td, variant)
        run(["cargo", "build", "--profile", PROFILE[variant], "--offline", "--locked", *FEATURES.get(variant, [])], os.path.join(SX, "nat"), {"CARGO_TARGET_DIR": td})

    return _stamped("nat-" + variant, harness_key(variant), prod, b)


def build(variants):
    """Returns (engine, {variant: (ir, vnat)})."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            e = ex.submit(engine)
            i = {v: ex.submit(ir, v) for v in variants}
            n = {v: ex.submit(nat, v) for v in variants}
            return e.result(), {v: (i[v].result(), n[v].result()) for v in variants}


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1:] or ["rel", "dbg"]), "%.1fs" % (time.time() - t))
