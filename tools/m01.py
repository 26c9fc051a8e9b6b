"""M01: the code under test never makes an invalid memory access, reads uninitialised or freed memory, races, or
breaks another rule of the language.  Three monitors watch the real code: the interpreter (Miri) on the codec and the
subscription table, AddressSanitizer on the codec and the broker, ThreadSanitizer on the broker.  Only their reports
decide, and only those whose access is made by code under /repo (standard library and hash map frames are skipped):
what the checks that serve as workload think of the behaviour is theirs to say.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, time

TRIPLE = "x86_64-unknown-linux-gnu"
# libraries whose frames stand for their caller: std, the hash map behind std's
PASS = re.compile(r"/rustlib/src/|/library/(std|core|alloc)/|hashbrown|<null>|compiler-rt|/rustc/|std\.[0-9a-f]{16}-cgu|core\.[0-9a-f]{16}-cgu|alloc\.[0-9a-f]{16}-cgu")
FRAME = re.compile(r"^\s+#\d+ ")


def stacks(text):
    """the stacks of a sanitizer report"""
    cur = []
    for l in text.splitlines():
        if FRAME.match(l):
            if re.match(r"^\s+#0 ", l) and cur:
                yield cur
                cur = []
            cur.append(l)
        elif cur:
            yield cur
            cur = []
    if cur:
        yield cur


def ours(stack):
    for l in stack:
        if PASS.search(l) and "/repo/" not in l:
            continue
        return "/repo/" in l
    return False


def reports(kind, text):
    """(violations, others) among the reports in the output of a sanitized run"""
    out, other = [], 0
    if kind == "tsan":
        for r in re.findall(r"WARNING: ThreadSanitizer:.*?(?=\n={10,}|\Z)", text, re.S):
            # the two accesses come first
            if any(ours(s) for s in list(stacks(r))[:2]):
                out.append(r)
            else:
                other += 1
    elif kind == "asan":
        for r in re.findall(r"ERROR: AddressSanitizer:.*?(?=\n={10,}|\Z)", text, re.S):
            if "stack-overflow" in r.splitlines()[0]:
                other += 1  # reported by C01 and S04
            elif any("/repo/" in l for s in list(stacks(r))[:3] for l in s):
                out.append(r)
            else:
                other += 1
    else:
        m = re.search(r"error: Undefined Behavior.*", text, re.S)
        if m:
            r = m.group(0)
            at = [x for x in re.findall(r"(?:-->|at) (/?[\w./+-]+\.rs):\d+", r) if "/rustlib/" not in x and "hashbrown" not in x]
            if at and (at[0].startswith("/repo/") or kind == "miri-codec" and any(x.startswith("/repo/") for x in at)):
                out.append(r)
            else:
                other += 1
    # the language's own run-time check of unsafe calls; the harness has none
    for m in re.finditer(r"[^\n]*(unsafe precondition\(s\) violated|invalid UTF-8 handed out)[^\n]*", text):
        out.append(text[max(0, m.start() - 300): m.end() + 3000])
    return out, other


def m01(R, tier):
    V, seed = R.VERIF, os.environ.get("VERIF_SEED", "1")
    t0, thorough = time.time(), tier == "thorough"
    work = f"{V}/build/m01-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    counts, found, others, ran, ev = {}, [], {}, {}, []

    def one(kind, name, cmd, extra, limit, cwd=None):
        e = R.env()
        e.update(extra)
        if kind != "miri":
            # the verdict and evidence of the check that is the workload go aside
            e["VERIF_ROOT"] = f"{work}/root-{name}"
            os.makedirs(e["VERIF_ROOT"])
            shutil.copy(f"{V}/known-findings.txt", e["VERIF_ROOT"])
        f = f"{work}/{name}"
        with open(f, "w+b") as h:
            p = subprocess.Popen(cmd, env=e, cwd=cwd or V, stdout=h, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            h.seek(0)
            text = h.read().decode("utf-8", "replace")
        bad, other = reports("miri-codec" if name.startswith("miri-codec") else kind, text)
        return kind, name, rc, text, bad, other

    def take(res):
        kind, name, rc, text, bad, other = res
        found.extend((kind, name, b) for b in bad)
        others[kind] = others.get(kind, 0) + other
        ran[name] = rc
        f = f"{work}/root-{name}/evidence/{name.split('-')[1]}.json"
        if os.path.exists(f):
            ev.append((name, json.load(open(f))))
        for l in re.findall(r"^COUNT (\w+) (.*)$", text, re.M):
            for k, v in re.findall(r"(\w+)=(\d+)", l[1]):
                counts[f"{kind}_{l[0]}_{k}"] = counts.get(f"{kind}_{l[0]}_{k}", 0) + int(v)

    try:
        # builds, the slow ones side by side
        R.prep_tokio.main()
        R.prep_tokio.main("tokio-miri", False)
        tgt = ["--target", TRIPLE]
        hooks = "--cfg verif_hooks"
        try:
            R.build("mirick", target="target-asan-m", toolchain="nightly", flags=f"-Zsanitizer=address {hooks}", args=tgt)
        except SystemExit:
            print("M01: the table's interface has changed; going on without its own workload")
            hooks = ""
            counts["table_interface_changed"] = 1
        jobs = [
            lambda: R.build("mirick", target="target-asan-m", toolchain="nightly", flags=f"-Zsanitizer=address {hooks}", args=tgt),
            lambda: R.build("mirick", target="target-miri", toolchain="nightly", flags=hooks, cmd="miri run", args=["--", "none"], ok=(2,)),
            lambda: R.build("codec", target="target-asan", toolchain="nightly", flags="-Zsanitizer=address", args=tgt),
            lambda: R.build_any(target="target-asan-b", toolchain="nightly", flags="-Zsanitizer=address", args=["--no-default-features", "--features", "noise"] + tgt),
            lambda: R.build_any(target="target-tsan", toolchain="nightly", flags="-Zsanitizer=thread", args=["-Zbuild-std", "--no-default-features", "--features", "noise"] + tgt),
        ]
        with cf.ThreadPoolExecutor(5) as ex:
            for x in [ex.submit(j) for j in jobs]:
                x.result()
        counts["build_seconds"] = int(time.time() - t0)
        parts, secs = (6, 900) if thorough else (6, 60)
        native = f"{V}/target-asan-m/{TRIPLE}/debug/mirick"
        for n, k, f in ((600000 if thorough else 60000, parts, "corpus"), (6000000 if thorough else 600000, 8, "many")):
            subprocess.run([native, "corpus", str(int(seed) + k), str(n), str(k), f"{work}/{f}"], check=True, env={**R.env(), "ASAN_OPTIONS": "detect_leaks=0"})
        miri = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", f"{V}/target-miri", "--"]
        flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance "
        jobs = []
        for i in range(parts):
            jobs.append(("miri", f"miri-codec-{i}", miri + ["codec", f"{work}/corpus.{i}", str(secs)], {"MIRIFLAGS": flags + "-Zmiri-tree-borrows", "RUSTFLAGS": hooks}, secs + 120, f"{V}/mirick"))
        for i in range(2 if hooks else 0):
            # the runtime itself does not keep to the aliasing model under trial, so it is not watched here
            jobs.append(("miri", f"miri-table-{i}", miri + ["table", str(int(seed) * 16 + i), str(secs)], {"MIRIFLAGS": flags + f"-Zmiri-disable-stacked-borrows -Zmiri-seed={int(seed) * 16 + i}", "RUSTFLAGS": hooks}, secs + 120, f"{V}/mirick"))
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda j: one(*j), jobs):
                take(r)
        # sanitizers: the other checks are the workload; their own verdicts and evidence go to a scratch directory
        supp = f"{work}/supp"
        # a fence in the reference counting of bytes is not understood by the race detector
        open(supp, "w").write("race:bytes::bytes::release_shared\nrace:bytes::bytes_mut::release_shared\n")
        k = 6 if thorough else 1
        asan = {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1", "VERIF_TIER": "quick"}
        tsan = {"TSAN_OPTIONS": f"suppressions={supp}:halt_on_error=0:exitcode=0:history_size=4", "VERIF_TIER": "quick"}
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda i: one("asan", f"asan-codec-{i}", [native, "codec", f"{work}/many.{i}", str(secs)], asan, secs + 60), range(8)):
                take(r)
        for p in ["C01", "C02", "C03", "C08"]:
            take(one("asan", f"asan-{p}", [f"{V}/target-asan/{TRIPLE}/debug/codec", p], {**asan, "VERIF_BUDGET_S": str(6 * k)}, 60 + 30 * k))
        broker = ["S01", "S02", "S03", "S04", "S05", "S08", "S09", "S10", "S11", "S12", "S13", "S16", "S17"]
        with cf.ThreadPoolExecutor(2) as ex:
            js = []
            for p in broker:
                js.append(("tsan", f"tsan-{p}", [f"{V}/target-tsan/{TRIPLE}/debug/broker", p], {**tsan, "VERIF_EPISODES": str(10 * k)}, 60 * k))
                js.append(("asan", f"asan-{p}", [f"{V}/target-asan-b/{TRIPLE}/debug/broker", p], {**asan, "VERIF_EPISODES": str(10 * k)}, 60 * k))
            for r in ex.map(lambda j: one(*j), js):
                take(r)
        n = sum(counts.get(c, 0) for c in ("miri_codec_inputs", "miri_table_operations"))
        dead = [k for k, v in ran.items() if v not in (0, 1)]
        return finish(R, tier, t0, counts, found, others, ran, ev, n, dead)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def finish(R, tier, t0, counts, found, others, ran, ev, n, dead):
    V = R.VERIF
    events = {}
    for (p, e) in ev:
        for k, v in e["coverage"].items():
            if k in ("evaluations", "episodes", "deliveries_checked", "forced_yields"):
                events[k] = events.get(k, 0) + v
    cov = {
        "evaluations": counts.get("miri_codec_inputs", 0) + counts.get("miri_table_runs", 0) + len(ran),
        "distinct_nontrivial": counts.get("miri_codec_nontrivial", 0),
        "rule": "inputs of the codec executed by the interpreter are all different; one is non-trivial when it has more than 4 bytes. Besides: executions of the subscription table by three threads, and runs of the other checks' workloads under the sanitizers",
        "samples": [f"{k}: exit {v}" for k, v in sorted(ran.items())][:40],
        "runs": len(ran), "runs_not_completed": len(dead),
        **counts, **{"sanitized_" + k: v for k, v in events.items()},
        **{f"reports_in_other_code_{k}": v for k, v in others.items()},
    }
    j = {"property": "M01", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration", "coverage": cov,
         "assumptions": ["a report counts when the access was made by code under /repo, directly or through the standard library",
                         "aliasing in tokio's own code is not watched"],
         "wall_s": round(time.time() - t0, 1), "violations": len(found)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(j, open(f"{V}/evidence/M01.json", "w"))
    print("M01:", json.dumps(cov)[:1500], f"incomplete={dead}")
    if found:
        os.makedirs(f"{V}/replays", exist_ok=True)
        path = f"{V}/replays/M01-{os.getpid()}.txt"
        with open(path, "w") as f:
            for kind, name, b in found[:20]:
                f.write(f"== {kind} {name}\n{b[:8000]}\n")
        print(found[0][0], found[0][1], found[0][2][:3000])
        print(f"{len(found)} report(s)")
        print(f"VIOLATION property=M01 replay={path}")
        return 1
    if len(dead) * 2 > len(ran) or n < 500:
        print("M01: too little of the workload ran")
        return 3
    return 0
