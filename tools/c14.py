#!/usr/bin/env python3
"""C14: runs the workloads of the other checks under ThreadSanitizer and AddressSanitizer, and small
ones under Miri. The workloads' own verdicts are ignored here; the sanitizers' reports decide.

c14.py build   builds (and, if missing, prepares) everything
c14.py         builds and decides
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, time

V = "/verif"
T = f"{V}/target"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
WORK = f"{V}/work/c14"
SEED = os.environ.get("VERIF_SEED", "1")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
START = time.time()

def env(extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("KV_", "CARGO_", "RUSTFLAGS", "MIRI"))}
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
              "RUSTUP_TOOLCHAIN": NIGHTLY, "VERIF_SEED": SEED})
    e.update(extra)
    return e

MIRI = {"CARGO_TARGET_DIR": f"{T}/miri", "MIRI_SYSROOT": f"{T}/miri-sysroot"}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
BUILDS = {
    "tsan": (f"{T}/tsan", {"RUSTFLAGS": "-Zsanitizer=thread --cfg kompact_verif"},
             ["cargo", "build", "--offline", "--quiet", "-Zbuild-std", "--target", TRIPLE, "--bin", "kv"]),
    "asan": (f"{T}/asan", {"RUSTFLAGS": "-Zsanitizer=address --cfg kompact_verif"},
             ["cargo", "build", "--offline", "--quiet", "--target", TRIPLE, "--bin", "kv"]),
    "miri": (f"{T}/miri", {"MIRIFLAGS": MIRIFLAGS, **MIRI},
             ["cargo", "miri", "run", "--offline", "--quiet", "--no-default-features", "--features", "interp",
              "--bin", "kvm", "--", "none"]),
}

def source_hash():
    return subprocess.run(["bash", "-c", ". /verif/tools/env.sh; source_hash"], capture_output=True, text=True).stdout.strip()

def build(kind):
    dir, extra, cmd = BUILDS[kind]
    h = source_hash()
    mark = f"{dir}/.kv-sources"
    e = env({"CARGO_TARGET_DIR": dir, **extra})
    if os.path.isdir(dir) and (not os.path.exists(mark) or open(mark).read().strip() != h):
        # cargo goes by modification times; make sure that changed contents are noticed
        for p in ["kompact", "kompact-actor-derive", "kompact-component-derive", "kompact-net", "kv"]:
            for prof in glob.glob(f"{dir}/**/.fingerprint/{p}-*", recursive=True):
                shutil.rmtree(prof, ignore_errors=True)
    if kind == "miri" and not os.path.isdir(f"{T}/miri-sysroot/lib"):
        r = subprocess.run(["cargo", "miri", "setup"], cwd=f"{V}/harness", env=e, capture_output=True, text=True)
        if r.returncode != 0:
            return kind, False, r.stderr[-3000:]
    r = subprocess.run(cmd, cwd=f"{V}/harness", env=e, capture_output=True, text=True)
    ok = r.returncode == (2 if kind == "miri" else 0)
    if ok:
        open(mark, "w").write(h)
    return kind, ok, r.stderr[-3000:]

def build_all():
    os.makedirs(T, exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(build, ["tsan", "asan", "miri"]))
    ok = True
    for k, good, err in res:
        if not good:
            print(f"C14: the {k} build failed\n{err}", file=sys.stderr)
            ok = False
    return ok

# workload, seconds (quick, thorough), environment
TSAN = [("C12", 14, 150, {}), ("C09", 12, 100, {}), ("S04", 10, 100, {}), ("C10", 14, 120, {}),
        ("C08", 12, 100, {"KV_STRESS": "1"}), ("C03", 12, 100, {"KV_STRESS": "1"}), ("C01", 12, 100, {"KV_STRESS": "1"}),
        ("C06", 8, 60, {}), ("D02", 10, 100, {}), ("N04", 12, 100, {}), ("N01", 14, 120, {}), ("D04", 12, 100, {}), ("N05", 10, 80, {}), ("N03", 10, 100, {})]
ASAN = [("S01", 8, 60, {}), ("S02", 8, 60, {}), ("S03", 8, 60, {}), ("S04", 10, 100, {}), ("D03", 8, 60, {}),
        ("N03", 12, 120, {}), ("N02", 12, 120, {}), ("N04", 8, 60, {}), ("D01", 8, 60, {}), ("G01", 5, 30, {}), ("C02", 10, 100, {}), ("C11", 8, 60, {})]
MIRI_RUNS = [("pool", 3, 24), ("engine", 1, 8), ("bufs", 1, 4), ("ser", 1, 4), ("ser2", 1, 3), ("frames", 1, 4)]
MIRI_S = (60, 900)

def run(cmd, e, log, limit):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=f"{V}/harness", env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return None

def frames_of(text):
    """functions of the code under test mentioned in a report"""
    out = []
    for l in text.splitlines():
        if "/repo/core/src" in l or "/repo/network/src" in l or re.search(r"\bkompact(_net)?::", l) or re.search(r" src/(net|transport|component|runtime|utils|dispatch|messaging|serialisation|timer|actors)[/.\w]*\.rs", l):
            m = re.search(r"(?:in|\d+:|#\d+)\s+(?:0x[0-9a-f]+ in )?(\S.*?)(?: /|\s+src/|$|\()", l)
            out.append((m.group(1) if m else l.strip())[:120])
    return out

def job(kind, n, w, secs, extra, seed):
    name = f"{kind}-{w}-{n}"
    sub, log = f"{WORK}/{name}.json", f"{WORK}/{name}.log"
    e = env({"KV_SUB": sub, "KV_BUDGET": str(secs), "VERIF_SEED": str(seed), **extra})
    binary = f"{BUILDS[kind][0]}/{TRIPLE}/debug/kv"
    reports, note = [], None
    if kind == "tsan":
        e["TSAN_OPTIONS"] = f"halt_on_error=0 report_thread_leaks=0 report_signal_unsafe=0 exitcode=0 history_size=4 suppressions={V}/tools/tsan.supp log_path={WORK}/{name}.tsan"
        cmd = [binary, w]
    elif kind == "asan":
        e["ASAN_OPTIONS"] = f"detect_leaks=0 halt_on_error=1 exitcode=99 log_path={WORK}/{name}.asan"
        cmd = [binary, w]
    else:
        e.update({"MIRIFLAGS": f"{MIRIFLAGS} -Zmiri-seed={seed}", "KV_THREADS": "1", **MIRI})
        cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--no-default-features", "--features", "interp", "--bin", "kvm", "--", w]
    # a workload that gets nowhere because of the slowdown says nothing
    rc = run(cmd, e, log, secs + (400 if THOROUGH else 100))
    out = open(log, errors="replace").read()
    if kind == "miri":
        m = re.search(r"^error: (.*?)\n(.*)", out, re.S | re.M)
        if m:
            head = m.group(1)
            if "Undefined Behavior" in head or "ata race" in head:
                reports.append((head, m.group(0)))
            else:
                note = f"{name}: {head[:200]}"
    else:
        for f in glob.glob(f"{WORK}/{name}.{kind}.*"):
            t = open(f, errors="replace").read()
            for r in re.split(r"^={10,}$", t, flags=re.M):
                m = re.search(r"(?:WARNING|ERROR): \w+Sanitizer: ([^\n(]*)", r)
                if m:
                    reports.append((m.group(1).strip(), r))
        if rc is not None and rc < 0 and rc not in (-9, -15) and not reports:
            reports.append((f"process-crash (signal {-rc})", out[-6000:]))
    if rc is None:
        note = f"{name}: ended after its time limit"
    elif rc in (-9, -15):
        note = f"{name}: killed"
    res = None
    if os.path.exists(sub):
        res = json.load(open(sub))
    elif note is None and not reports:
        note = f"{name}: ended without a result (rc {rc}): {out[-300:]}"
    return name, kind, w, res, reports, note

def main():
    if not build_all():
        return 2
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        return 0
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(f"{V}/work/replays", exist_ok=True)
    i = 1 if THOROUGH else 0
    s = int(SEED)
    jobs = []
    for w, k_q, k_t in MIRI_RUNS:
        for n in range(k_t if THOROUGH else k_q):
            jobs.append(("miri", n, w, MIRI_S[i], {}, s * 1000 + n))
    native = [("tsan", 0, w, t[i], x, s) for w, *t, x in TSAN] + [("asan", 0, w, t[i], x, s) for w, *t, x in ASAN]
    only = os.environ.get("C14_ONLY")
    if only:
        jobs = [j for j in jobs if f"{j[0]}-{j[2]}" == only]
        native = [j for j in native if f"{j[0]}-{j[2]}" == only]
    with cf.ThreadPoolExecutor(5) as miri, cf.ThreadPoolExecutor(3) as nat:
        fs = [miri.submit(job, *j) for j in jobs] + [nat.submit(job, *j) for j in native]
        results = [f.result() for f in fs]
    known = {}
    for l in open(f"{V}/known_findings.txt"):
        m = re.match(r"known: property=C14 sig=(.*?) :: (.*)", l)
        if m:
            known[m.group(1).strip()] = m.group(2).strip()
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "observed": {}, "samples": [], "inconclusive": 0, "inconclusive_notes": []}
    violations, hits = {}, {}
    for name, kind, w, res, reports, note in results:
        if res:
            c = res["coverage"]
            ev["evaluations"] += c["evaluations"]
            ev["distinct_nontrivial"] += c["distinct_nontrivial"]
            ev["observed"][f"{kind} {w}: cases"] = ev["observed"].get(f"{kind} {w}: cases", 0) + c["evaluations"]
            tot = sum(v for v in c["observed"].values() if isinstance(v, int))
            ev["observed"][f"{kind} {w}: events"] = ev["observed"].get(f"{kind} {w}: events", 0) + tot
            if len(ev["samples"]) < 6 and c["samples"]:
                ev["samples"].append({"run": name, "counted": dict(list(c["observed"].items())[:12]), "sample": json.dumps(c["samples"][0])[:600]})
        if note:
            ev["inconclusive"] += 1
            ev["inconclusive_notes"].append(note[:400])
        for head, text in reports:
            fr = frames_of(text)
            if not fr and "crash" not in head:
                ev["inconclusive"] += 1
                ev["inconclusive_notes"].append(f"{name}: a report without frames of the code under test: {head[:200]}")
                continue
            sig = f"{kind} {re.sub('0x[0-9a-f]+|<[0-9]+>|alloc[0-9]+', '_', head)[:80]}"
            if sig in known:
                hits[sig] = hits.get(sig, 0) + 1
                continue
            violations.setdefault(sig, (name, w, head, fr, text))
    for k, t in known.items():
        print(f"KNOWN-FINDING: property=C14 sig={k} {t} (hits this run: {hits.get(k, 0)})")
    for n, (sig, (name, w, head, fr, text)) in enumerate(violations.items()):
        path = f"{V}/work/replays/C14-{SEED}-{n}.json"
        json.dump({"property": "C14", "sig": sig, "run": name, "report": text[:20000],
                   "replay": f"VERIF_SEED={SEED} C14_ONLY={name.rsplit('-', 1)[0]} bash /verif/check.sh C14"}, open(path, "w"), indent=1)
        print(f"VIOLATION property=C14 replay={path}")
        print(f"  {sig}: {name}: {head} in {fr[:3]}")
    doc = {"property": "C14", "tier": "thorough" if THOROUGH else "quick", "seed": int(SEED), "level": "exploration",
           "coverage": {"rule": "workload cases executed with a sanitizer or interpreter attached; non-trivial as defined by the workload's own check",
                        **ev, "known_finding_hits": hits},
           "assumptions": [
               "what Miri's tree borrows, ThreadSanitizer and AddressSanitizer do not report is not undefined behaviour",
               "reports within crossbeam-deque's deliberately racy slot reads are suppressed",
               "network code runs under the sanitizers only, as Miri has no sockets"],
           "wall_s": time.time() - START, "violations": len(violations)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(doc, open(f"{V}/evidence/C14.json", "w"), indent=1)
    print(f"C14: {ev['evaluations']} evaluations, {ev['distinct_nontrivial']} distinct non-trivial, {len(violations)} violations, {ev['inconclusive']} inconclusive, {time.time()-START:.1f}s")
    for n in ev["inconclusive_notes"][:8]:
        print("  note:", n[:200])
    return 1 if violations else 0

sys.exit(main())
