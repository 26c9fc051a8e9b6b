#!/usr/bin/env python3
"""Build what a check needs from /repo's working tree and run it.

usage: run.py PROPERTY [quick|thorough]

Exit 0: the property held on everything explored.  Exit 1 after a line
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else: the check itself failed.
"""
import os, subprocess, sys, time, signal, glob, shutil, json

VERIF = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import prep_tokio, m01
BROKER = ["S%02d" % i for i in range(1, 19)] + ["R01", "R02"]
# Checks that are run once more, shorter, with the library as it is built by default (without the
# encrypted listener), and how many episodes of them
PLAIN = {"S01": 60, "S02": 40, "S03": 40, "S04": 400, "S05": 400, "S06": 15, "S07": 40, "S08": 12, "S09": 40, "S11": 200, "S12": 150, "S14": 60, "S16": 60, "S17": 20, "S18": 8, "R01": 16, "R02": 12}
CODEC = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["VERIF_ROOT"] = VERIF
    return e


def build(crate, target="target", toolchain=None, flags=None, args=(), cmd="build", ok=(0,)):
    e = env()
    if flags:
        e["RUSTFLAGS"] = flags
    c = ["cargo"] + (["+" + toolchain] if toolchain else []) + cmd.split() + ["--offline", "--target-dir", f"{VERIF}/{target}"] + list(args)
    p = subprocess.run(c, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode not in ok:
        print(p.stdout[-6000:])
        print(f"{crate}: build failed")
        raise SystemExit(3)


def run(cmd, timeout, extra=None, cwd=VERIF, err=None):
    """exit code, or None on timeout; the whole process group is ended afterwards"""
    e = env()
    e.update(extra or {})
    sys.stdout.flush()
    p = subprocess.Popen(cmd, env=e, cwd=cwd, start_new_session=True, stderr=err)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def violation(prop, text):
    d = f"{VERIF}/replays"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{prop}-{os.getpid()}.txt"
    open(path, "w").write(text)
    print(text)
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)


def codec(prop, tier):
    limit = 850 if tier == "quick" else 3600
    build("codec")
    exe = f"{VERIF}/target/debug/codec"
    rc = run([exe, prop], limit)
    if rc in (0, 1):
        return rc
    if prop != "C01" or rc is None or rc > 0:
        print(f"{prop}: harness ended with {rc}")
        return 3
    # The process died on a signal (stack overflow, abort on a huge allocation, ...).  Run again with
    # every thread noting the input it is about to decode, then confirm the candidates one by one.
    print(f"{prop}: process died with signal {-rc}; looking for the input")
    d = f"{VERIF}/build/c01-trace-{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    try:
        run([exe, prop], limit, {"VERIF_TRACE_DIR": d})
        for f in sorted(glob.glob(d + "/*")):
            r = run([exe, "decode", f], 60)
            if r is None or r < 0:
                text = open(f).read()
                violation(prop, f"decoding this input kills the process ({'hang' if r is None else 'signal %d' % -r})\nkind hex: {text[:4000]}\n(replay: codec decode FILE)")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(f"{prop}: could not reproduce the crash")
    return 3


def build_any(args=(), **kw):
    """The broker harness; without the look into the subscription table if that is no longer possible."""
    try:
        build("broker", args=list(args), **kw)
    except SystemExit:
        print("broker: trying again, watching the subscription table from the outside only")
        build("broker", args=["--features", "outside"] + list(args), **kw)


def build_broker(table=False):
    """Only the check of the subscription table needs the hook in the code under test."""
    prep_tokio.main()
    if table:
        try:
            build("broker", target="target-table", flags="--cfg verif_hooks", args=["--features", "table"])
            return f"{VERIF}/target-table/debug/broker"
        except SystemExit:
            print("S15: the table's interface has changed; watching it from the outside")
    build_any()
    return f"{VERIF}/target/debug/broker"


def build_plain():
    """The broker harness with the library as it is built by default, or None."""
    prep_tokio.main()
    try:
        build_any(["--no-default-features", "--features", "counting"])
    except SystemExit:
        print("the library without its encrypted listener does not build; it is not watched")
        return None
    exe = f"{VERIF}/build/broker-plain"
    shutil.copy2(f"{VERIF}/target/debug/broker", exe + ".new")
    os.replace(exe + ".new", exe)
    return exe


def broker(prop, tier):
    plain = build_plain() if prop in PLAIN else None
    exe = build_broker(prop == "S15")
    rc = drive(exe, prop, tier)
    if rc != 0 or plain is None:
        return rc
    root = f"{VERIF}/build/plain"
    os.makedirs(root, exist_ok=True)
    shutil.copy2(f"{VERIF}/known-findings.txt", f"{root}/known-findings.txt")
    n = PLAIN[prop] * (1 if tier == "quick" else 20)
    n = int(os.environ.get("VERIF_EPISODES", n))
    print(f"{prop}: once more without the encrypted listener")
    rc = drive(plain, prop, tier, {"VERIF_ROOT": root, "VERIF_EPISODES": str(n)})
    if rc == 0:
        path = f"{VERIF}/evidence/{prop}.json"
        e = json.load(open(path))
        p = json.load(open(f"{root}/evidence/{prop}.json"))["coverage"]
        e["coverage"]["without_encrypted_listener"] = {k: v for k, v in p.items() if k not in ("rule", "samples")}
        json.dump(e, open(path, "w"))
    return rc


def drive(exe, prop, tier, extra=None):
    limit = 850 if tier == "quick" else 3600
    d = f"{VERIF}/build"
    os.makedirs(d, exist_ok=True)
    errf = f"{d}/stderr-{prop}-{os.getpid()}"
    with open(errf, "w+") as f:
        rc = run([exe, prop], limit, extra, err=f)
        f.seek(0)
        text = f.read()
    os.remove(errf)
    print(text[-4000:], end="")
    if rc in (0, 1):
        return rc
    if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        # the whole process is gone: a stack overflow, an abort on a huge allocation, ...
        # Threads of the broker are called srv-*, those of the harness drv-*, main, canary.
        mine = any(f"thread '{n}" in text and "overflowed its stack" in text for n in ("drv-", "main", "canary"))
        if not mine:
            if prop == "S04":
                violation(prop, f"a client's input ends the whole broker process (signal {-rc}), workload seed {os.environ.get('VERIF_SEED', '1')}\n{text[-3000:]}\n(replay: run.py {prop} with the same VERIF_SEED)")
            print(f"{prop}: the broker process died with signal {-rc}; that is for S04 to report")
    print(f"{prop}: harness ended with {rc}")
    return 3


def warp():
    """a library that makes the clock of the program it is loaded into run fast"""
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    shim = f"{VERIF}/build/warp-{os.getpid()}.so"
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools", "warp.c")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, src, "-ldl"], check=True)
    return shim


def bm(prop, tier):
    """the benchmark tool itself, run as a process against a broker stand-in"""
    limit = 850 if tier == "quick" else 3600
    build("bmcheck")
    build("/repo/bm", target="target-bm")
    shim = warp()
    try:
        rc = run([f"{VERIF}/target/debug/bmcheck", prop, f"{VERIF}/target-bm/debug/apiformes-bm"], limit, {"VERIF_SHIM": shim})
    finally:
        os.remove(shim)
    if rc in (0, 1):
        return rc
    print(f"{prop}: harness ended with {rc}")
    return 3


def program(prop, tier):
    """the server program itself, run as a process"""
    limit = 850 if tier == "quick" else 3600
    exe = build_broker()
    build("/repo/server", target="target-bm")
    build("/repo/bm", target="target-bm")
    shim = warp()
    try:
        rc = run([exe, prop, f"{VERIF}/target-bm/debug/apiformes-server", f"{VERIF}/target-bm/debug/apiformes-bm", shim], limit)
    finally:
        os.remove(shim)
    if rc in (0, 1):
        return rc
    print(f"{prop}: harness ended with {rc}")
    return 3


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    if prop == "setup":
        build("codec")
        build_plain()
        build_broker()
        build("bmcheck")
        build("/repo/bm", target="target-bm")
        build("/repo/server", target="target-bm")
        return 0
    if prop == "M01":
        return m01.m01(sys.modules[__name__], tier)
    if prop in CODEC:
        return codec(prop, tier)
    if prop in ("B01", "B02"):
        return bm(prop, tier)
    if prop == "D01":
        return program(prop, tier)
    if prop in BROKER:
        return broker(prop, tier)
    print("unknown property", prop)
    return 2


if __name__ == "__main__":
    sys.exit(main())
