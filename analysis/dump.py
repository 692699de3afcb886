"""Produces a fresh MIR dump of /repo's current tree (library target, typed and resolved by rustc)."""
import fcntl, glob, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(VERIF, "driver", "target", "release", "mirdump")


class DumpError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise DumpError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_driver():
    d = os.path.join(VERIF, "driver")
    if os.path.exists(DRIVER):
        m = os.path.getmtime(DRIVER)
        src = glob.glob(d + "/src/*.rs") + [d + "/Cargo.toml"]
        if all(os.path.getmtime(s) <= m for s in src):
            return
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    _run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=d, env=env)
    os.utime(DRIVER)


def debug_dependent(repo=None):
    """does the source behave differently in builds with and without debug assertions?"""
    for d, _, fs in os.walk(os.path.join(repo or REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as fh:
                    if "debug_assert" in fh.read():
                        return True
    return False


def dump(repo=None, build=None, release=False):
    repo = repo or REPO
    build = build or BUILD
    os.makedirs(build, exist_ok=True)
    with open(os.path.join(build, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        out = os.path.join(build, "mir.json")
        if os.path.exists(out):
            os.remove(out)
        # forget only this crate's own build state, so that cargo runs the exporter again
        for pat in (".fingerprint/rusty_genes-*", "build/rusty_genes", "build/rusty_genes-*"):
            for p in glob.glob(os.path.join(build, "target", "debug", pat)):
                shutil.rmtree(p)
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env = dict(os.environ)
        env.update(MIRDUMP_CRATE="rusty_genes", MIRDUMP_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
                   RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_TARGET_DIR=os.path.join(build, "target"),
                   CARGO_INCREMENTAL="0")
        env.pop("RUSTFLAGS", None)
        env.pop("MIRDUMP_RELEASE", None)
        if release:
            env["MIRDUMP_RELEASE"] = "1"
        _run(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(repo, "Cargo.toml")], cwd=repo, env=env)
        if not os.path.exists(out):
            raise DumpError("the MIR dump was not written")
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    d = dump()
    print(len(d["fns"]), "functions dumped")
