"""Builds the driver's view of /repo: the monomorphic MIR of everything the probe's roots reach."""
import glob, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, "build")


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    env.pop("RUSTFLAGS", None)
    subprocess.check_call(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(V, "driver"), env=env)


def extract(out, leafs, roots=None, features=None):
    """type-check /repo + probe and write the MIR dump to `out`"""
    drv = os.path.join(BUILD, "driver", "debug", "mirdump")
    if not os.path.exists(drv):
        build_driver()
    tgt = os.path.join(BUILD, "probe")
    # cargo's freshness test is by mtime: always re-check the code under test and the probe
    for n in ("goggles", "probe"):
        shutil.rmtree(os.path.join(tgt, "debug", "build", n), ignore_errors=True)
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", n + "-*")):
            shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out, MIRDUMP_LEAFS=leafs,
               CARGO_INCREMENTAL="0",
               RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
               LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
    if roots:
        env["MIRDUMP_ROOTS"] = ",".join(roots)
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet"]
    if features:
        cmd += ["--no-default-features", "--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=os.path.join(V, "probe"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("extraction failed\n" + r.stdout[-6000:])
    return r.stdout


if __name__ == "__main__":
    print(extract(sys.argv[1], sys.argv[2], sys.argv[3:]))
