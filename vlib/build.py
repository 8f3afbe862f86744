"""Builds the executor, the intermediate representation of the code under test, and the native replay binary."""
import glob, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
TRIPLE = "x86_64-unknown-linux-gnu"


def env(target, flags=""):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(WORK, target), CARGO_NET_OFFLINE="true", RUSTFLAGS=flags, RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write("\n".join(p.stdout.splitlines()[-60:]) + "\n")
        raise RuntimeError("build failed: " + " ".join(cmd))


def engine():
    run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(VERIF, "engine"), env("engine"))


HOOKS = False


def feats():
    return ["--features", "hooks"] if HOOKS else []


def flags():
    return (" --cfg dbml_verif" if HOOKS else "") + " -A warnings"


def ir():
    pat = os.path.join(WORK, "ll", TRIPLE, "release", "deps", "harness_ll*.ll")
    for f in glob.glob(pat):
        os.unlink(f)
    run(["cargo", "rustc", "--release", "--offline", "--locked", *feats(), "--target", TRIPLE, "--", "--emit=llvm-ir"],
        os.path.join(VERIF, "harness", "ll"), env("ll", "-C no-vectorize-loops -C no-vectorize-slp" + flags()))
    fs = glob.glob(pat)
    if not fs:
        # cargo considered the crate fresh: nothing changed but the listing is gone, so ask again
        os.utime(os.path.join(VERIF, "harness", "ll", "src", "lib.rs"))
        run(["cargo", "rustc", "--release", "--offline", "--locked", *feats(), "--target", TRIPLE, "--", "--emit=llvm-ir"],
            os.path.join(VERIF, "harness", "ll"), env("ll", "-C no-vectorize-loops -C no-vectorize-slp" + flags()))
        fs = glob.glob(pat)
    if len(fs) != 1:
        raise RuntimeError("no IR listing")


def native():
    run(["cargo", "build", "--release", "--offline", "--locked", *feats()], os.path.join(VERIF, "harness", "native"), env("native", flags().strip()))


ENGINE = os.path.join(WORK, "engine", "release", "symll")
NATIVE = os.path.join(WORK, "native", "release", "replay")


def ir_path():
    return glob.glob(os.path.join(WORK, "ll", TRIPLE, "release", "deps", "harness_ll*.ll"))[0]


def build(hooks=False):
    """`hooks`: with the relation query and the analyzer's index exported (C29 only)"""
    global HOOKS
    HOOKS = hooks
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    errs, times = [], {}

    def go(f):
        try:
            f()
        except Exception as x:
            errs.append(x)
        times[f.__name__] = round(time.time() - t0, 1)

    ts = [threading.Thread(target=go, args=(f,)) for f in (engine, ir, native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return times


if __name__ == "__main__":
    print(build())
