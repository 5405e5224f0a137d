"""Builds the MIR dump of /repo's current working tree with the rustc driver in ../driver."""
import fcntl, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEIREN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly"


class BuildError(Exception):
    pass


def _run(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("RUST") or k.startswith("CARGO_") or k in ("LD_LIBRARY_PATH",):
            del env[k]
    env.setdefault("HOME", "/root")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def sysroot():
    return _run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], _env(), "/").strip()


def driver(root):
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read() + root.encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        _run(["rustc", "+" + TOOLCHAIN, "--edition", "2021", "-O", src, "-o", tmp], _env(), BUILD)
        os.rename(tmp, exe)
    return exe


def tree_hash():
    h = hashlib.sha256()
    names = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock")) or os.path.basename(base) == ".cargo":
                names.append(p)
    for p in names:
        if os.path.islink(p) and not os.path.exists(p):
            continue
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16], len(names)


def dump():
    """-> (directory of the dumps, info)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        root = sysroot()
        exe = driver(root)
        th, n = tree_hash()
        out = os.path.join(BUILD, "dump-" + th + "-" + hashlib.sha256(open(__file__, "rb").read() + exe.encode()).hexdigest()[:12])
        if not (os.path.exists(os.path.join(out, "done"))):
            for d in os.listdir(BUILD):
                # Dumps of other trees are not kept.
                if d.startswith("dump-"):
                    for f in os.listdir(os.path.join(BUILD, d)):
                        os.unlink(os.path.join(BUILD, d, f))
                    os.rmdir(os.path.join(BUILD, d))
            os.makedirs(out)
            env = _env()
            env.update(
                LD_LIBRARY_PATH=os.path.join(root, "lib"),
                SEIREN_MIR_OUT=out,
                RUSTC_WORKSPACE_WRAPPER=exe,
                CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
                CARGO_INCREMENTAL="0",
                RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings",
            )
            cargo = ["cargo", "+" + TOOLCHAIN]
            # Cargo must not take the crate for fresh and skip the driver.
            subprocess.run(cargo + ["clean", "-p", "seiren", "--offline"], env=env, cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            before = _lockfile()
            _run(cargo + ["check", "--offline", "--lib", "--bins"], env, REPO)
            if _lockfile() != before:
                raise BuildError("the build changed Cargo.lock")
            for f in ("seiren-lib.json", "seiren-bin.json"):
                if not os.path.exists(os.path.join(out, f)):
                    raise BuildError("the driver left no %s" % f)
            open(os.path.join(out, "done"), "w").close()
        res = {}
        for k in ("lib", "bin"):
            with open(os.path.join(out, "seiren-%s.json" % k)) as f:
                res[k] = json.load(f)
        return res, {"tree": th, "files": n}


def _lockfile():
    p = os.path.join(REPO, "Cargo.lock")
    return open(p, "rb").read() if os.path.exists(p) else None


if __name__ == "__main__":
    r, info = dump()
    for k in r:
        print(k, info, len(r[k]["bodies"]), "bodies", len(r[k]["types"]), "types")
