"""Builds the extension from /repo's working tree and lays it out as an importable package
in a scratch directory, so that a check never reads a stale library and never writes to /repo's
tracked files.  Compiled objects go to /repo/target (git-ignored), where the dependencies are."""
import fcntl, glob, os, shutil, subprocess, sys, tempfile, time

REPO = "/repo"
VENV_PY = "/opt/vp/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def _base_env():
    env = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "RUSTFLAGS", "PYTHONPATH", "VIRTUAL_ENV", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="nightly-2025-01-05", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
        CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR="/repo/target",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
        PYO3_PYTHON=VENV_PY, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return env


# kind -> (extra rustc arguments for the extension crate, extra environment)
KINDS = {
    # byte-for-byte the flags of the project's own build: everything below it is reused
    "plain": ([], {}),
    # runtime UB checks of the standard library (get_unchecked, unwrap_unchecked, slice
    # construction, ...) and debug assertions, in this crate and the generics it instantiates
    "ubchecks": (["--cfg", "pds_verif", "-Zub-checks=yes", "-C", "debug-assertions=yes",
                  "-C", "overflow-checks=no", "-C", "incremental=/repo/target/pdsmon-inc-ub"], {}),
    # AddressSanitizer on the extension crate and the generics it instantiates
    "asan": (["--cfg", "pds_verif", "-Zsanitizer=address", "-Zub-checks=yes", "-C", "debug-assertions=no",
              "-C", "overflow-checks=no", "-C", "incremental=/repo/target/pdsmon-inc-asan"], {}),
}


def build(kind="plain", log=None):
    """Returns a scratch directory to put on PYTHONPATH."""
    extra, xenv = KINDS[kind]
    env = _base_env()
    env.update(xenv)
    os.makedirs("/repo/target", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="pdsmon-")
    t0 = time.time()
    with open("/repo/target/.pdsmon.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cargo", "rustc", "--locked", "--offline", "--lib"] if extra else \
              ["cargo", "build", "--locked", "--offline", "--lib"]
        if extra:
            cmd += ["--"] + extra
        run = lambda: subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True, timeout=420)
        p = run()
        if p.returncode != 0 and ("linking with" in p.stdout or "incremental" in p.stdout):
            # a damaged incremental state (an interrupted or copied build): start the crate afresh
            for old in glob.glob("/repo/target/debug/incremental/polars_ds-*") + glob.glob("/repo/target/pdsmon-inc-*"):
                shutil.rmtree(old, ignore_errors=True)
            for old in glob.glob("/repo/target/debug/deps/*polars_ds*") + glob.glob("/repo/target/debug/*polars_ds*"):
                if os.path.isfile(old):
                    os.remove(old)
            p = run()
        if p.returncode != 0:
            shutil.rmtree(scratch, ignore_errors=True)
            raise BuildError(p.stdout[-4000:])
        pkg = os.path.join(scratch, "polars_ds")
        shutil.copytree(os.path.join(REPO, "python", "polars_ds"), pkg,
                        ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc"))
        so = "/repo/target/debug/lib_polars_ds.so"
        shutil.copyfile(so, os.path.join(pkg, "_polars_ds.abi3.so"))
    meta = os.path.join(scratch, "polars_ds-0.8.3.dist-info")
    os.makedirs(meta)
    with open(os.path.join(meta, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: polars_ds\nVersion: 0.8.3\n")
    if log:
        log(f"built {kind} from /repo in {time.time()-t0:.1f}s")
    return scratch
