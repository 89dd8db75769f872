"""Builds the rustc driver if needed, runs it over /repo's current working tree and loads the facts.

Nothing is executed from /repo: the crate is only type-checked (cargo check) by the driver, which
writes the monomorphised MIR of the library as JSON.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DIS_REPO", "/repo")
BUILD = os.environ.get("DIS_BUILD", os.path.join(VERIF, ".build"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class ToolError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e.setdefault("RUSTUP_HOME", "/root/.rustup")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR",
              "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def _run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError(f"{what} failed ({' '.join(cmd)}):\n{p.stdout[-6000:]}")
    return p.stdout


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    _run(["cargo", "build", "--offline", "--quiet"], env, os.path.join(VERIF, "driver"), "building the rustc driver")
    return os.path.join(BUILD, "driver", "debug", "disfacts")


def _sysroot(env):
    return subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def extract(repo=None):
    """Returns (facts dict, info). Serialised by a lock: several checks may run at once."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        env = _env()
        lib = os.path.join(_sysroot(env), "lib")
        env["LD_LIBRARY_PATH"] = lib + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
        tgt = os.path.join(BUILD, "target")
        out = os.path.join(BUILD, "facts.json")
        if not os.path.exists(os.path.join(repo, "Cargo.lock")):
            # Cargo.lock is git-ignored in the repository; keep to the versions that are cached
            for src in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "lib", "Cargo.lock")):
                if os.path.exists(src):
                    shutil.copy(src, os.path.join(repo, "Cargo.lock"))
                    break
        # never let cargo's freshness cache skip the driver
        for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "open-dis-rust-*")) + glob.glob(os.path.join(tgt, "debug", "build", "open-dis-rust*")):
            shutil.rmtree(d)
        if os.path.exists(out):
            os.remove(out)
        env.update(RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0", RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                   DISFACTS_OUT=out, DISFACTS_CRATE="open_dis_rust", CARGO_INCREMENTAL="0")
        _run(["cargo", "check", "--lib", "--offline", "--manifest-path", os.path.join(repo, "Cargo.toml")], env, repo, "analysing the crate")
        if not os.path.exists(out):
            raise ToolError("the driver wrote no facts")
        with open(out) as f:
            raw = f.read()
    facts = json.loads(raw)
    info = dict(sha256=hashlib.sha256(raw.encode()).hexdigest(), extract_s=round(time.time() - t0, 2), repo=repo)
    return facts, info
