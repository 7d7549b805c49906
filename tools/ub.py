#!/usr/bin/env python3
"""C15: runs the cache under Miri (undefined behaviour, data races) and under
AddressSanitizer (invalid accesses, double frees, at volume).

  ub.py [quick|thorough]           the check (VERIF_SEED, VERIF_UB_MIRI, VERIF_UB_ASAN: seconds)
  ub.py --replay SEED SCALE FLAGS  one Miri run again
"""
import json, os, re, subprocess, sys, threading, time

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
TARGET = os.path.join(HERE, "target")
ASAN_BIN = os.path.join(TARGET, "asan/x86_64-unknown-linux-gnu/release/mokacheck")
# Trees are what the repository's own Miri runs prefer; crossbeam-epoch turns integers into
# pointers, and leaves garbage to the process's end.
BASE = "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
# The aliasing and validity checks cost more than half the time, and do not matter to races
# and to accesses of freed memory: most runs go without.
LIGHT = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
VARIANTS = [
    (BASE, 1),
    (BASE + " " + LIGHT + " -Zmiri-preemption-rate=0.03", 2),
    (BASE + " " + LIGHT + " -Zmiri-preemption-rate=0.1", 1),
    (BASE + " -Zmiri-preemption-rate=0.05", 1),
    (BASE + " " + LIGHT, 2),
    (BASE + " " + LIGHT + " -Zmiri-preemption-rate=0.003", 3),
]


def env(**k):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", VERIF_DIR=HERE, **k)
    return e


def miri_cmd(*args):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path",
            HERE + "/ub/Cargo.toml", "--target-dir", TARGET + "/miri", "--", *map(str, args)]


def miri_env(flags):
    return env(RUSTFLAGS="--cfg moka_verif", MIRIFLAGS=flags)


def build():
    """Both builds at once. Returns what failed."""
    out = {}

    def asan():
        out["asan"] = subprocess.run(
            ["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
             HERE + "/harness/Cargo.toml", "--target", "x86_64-unknown-linux-gnu",
             "--target-dir", TARGET + "/asan"],
            env=env(RUSTFLAGS="-Zsanitizer=address --cfg moka_verif"),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def miri():
        # A run that stops at once.
        out["miri"] = subprocess.run(miri_cmd("0"), env=miri_env(BASE),
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    ts = [threading.Thread(target=f) for f in (asan, miri)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [(k, r.stdout[-3000:]) for k, r in out.items() if r.returncode]


UB = re.compile(r"^error: Undefined Behavior: (.*)$|unsafe precondition\(s\) violated: (.*)$", re.M)


class Miri:
    def __init__(self, seed, until, cap):
        self.next, self.seed, self.until, self.cap = 0, seed, until, cap
        self.lock = threading.Lock()
        self.runs, self.found, self.other = [], [], {}
        self.cut = 0

    def worker(self):
        while True:
            with self.lock:
                if self.found or self.next >= self.cap or time.time() >= self.until:
                    return
                n = self.next
                self.next += 1
            flags, scale = VARIANTS[n % len(VARIANTS)]
            s = (self.seed * 1_000_003 + n) % 2**31
            t = time.time()
            p = subprocess.Popen(miri_cmd(scale), env=miri_env(flags + f" -Zmiri-seed={s}"),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                 start_new_session=True)
            try:
                # A run under way at the end gets a little longer; one that takes far longer
                # than the others (user code that panicked may have it stuck) is given up.
                o, _ = p.communicate(timeout=min(max(self.until - t, 0) + 20, 90))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                with self.lock:
                    self.cut += 1
                continue
            m = UB.search(o)
            with self.lock:
                if m:
                    self.found.append((s, scale, flags, m.group(1) or m.group(2), o))
                elif p.returncode == 0 and "RUN " in o:
                    self.runs.append(o[o.index("RUN "):].splitlines()[0])
                else:
                    # A panic, a deadlock, an unsupported call: not for this property.
                    k = next((l for l in o.splitlines() if l.startswith("error") or "panicked" in l), "?")
                    self.other.setdefault(k[:200], []).append((s, scale, flags))
                    if os.environ.get("VERIF_VERBOSE"):
                        print(s, scale, flags, o, flush=True)


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    if tier == "--replay":
        s, scale, *flags = sys.argv[2:]
        return subprocess.run(miri_cmd(scale), env=miri_env(" ".join(flags) + f" -Zmiri-seed={s}")).returncode
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    miri_s = float(os.environ.get("VERIF_UB_MIRI", 1500 if tier == "thorough" else 150))
    asan_s = float(os.environ.get("VERIF_UB_ASAN", 600 if tier == "thorough" else 45))
    for d in ("evidence", "replays", "target"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    bad = build()
    if bad:
        for k, o in bad:
            print(o, f"\nub.py: the {k} build does not work", file=sys.stderr)
        return 2
    viol = []

    # AddressSanitizer first: it is fast at what it finds.
    log = os.path.join(TARGET, "asan-run.log")
    ev_path = os.path.join(HERE, "evidence/C15.json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    asan_rc = None
    if asan_s > 0:
        with open(log, "w") as f:
            asan_rc = subprocess.run(
                [ASAN_BIN, "C15"], stdout=f, stderr=subprocess.STDOUT,
                env=env(VERIF_SECS=str(asan_s), VERIF_TIER=tier, ASAN_OPTIONS=
                        "detect_leaks=0:exitcode=77:halt_on_error=1:detect_stack_use_after_return=0")).returncode
        o = open(log, errors="replace").read()
        m = re.search(r"ERROR: AddressSanitizer:? (.*)", o)
        pre = re.search(r"unsafe precondition\(s\) violated: (.*)", o)
        if m or pre or asan_rc in (-4, -6, -7, -8, -11):
            msg = "AddressSanitizer: " + m.group(1) if m else pre.group(1) if pre else f"died of signal {-asan_rc}"
            i = o.index("ERROR: AddressSanitizer") if m else max(len(o) - 6000, 0)
            path = os.path.join(HERE, f"replays/C15-asan-{seed}.json")
            json.dump({"property": "C15", "seed": seed, "violation": msg,
                       "replay_cmd": f"cd /verif && VERIF_SEED={seed} ./check.sh C15 {tier}",
                       "log": o[i:i + 12000].splitlines()}, open(path, "w"), indent=1)
            viol.append((msg, path))
        elif asan_rc == 1:
            for l in o.splitlines():
                m = re.match(r"VIOLATION property=C15 replay=(.*)", l)
                if m:
                    viol.append((o.splitlines()[max(o.splitlines().index(l) - 1, 0)], m.group(1)))
        print(o.strip()[-1500:] if asan_rc else "asan: " + o.strip().splitlines()[-1])

    m = Miri(seed, time.time() + miri_s, 10**9)
    if not viol and miri_s > 0:
        ts = [threading.Thread(target=m.worker) for _ in range(os.cpu_count() or 8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for s, scale, flags, msg, o in m.found[:2]:
        path = os.path.join(HERE, f"replays/C15-miri-{s}.json")
        json.dump({"property": "C15", "seed": s, "flags": flags, "violation": msg,
                   "replay_cmd": f"cd /verif && python3 tools/ub.py --replay {s} {scale} {flags}",
                   "log": o[-12000:].splitlines()}, open(path, "w"), indent=1)
        viol.append(("Miri: " + msg, path))

    # Evidence: what the harness wrote under AddressSanitizer, and the Miri runs.
    try:
        ev = json.load(open(ev_path))
    except (OSError, ValueError):
        ev = {"property": "C15", "tier": tier, "seed": seed, "level": "exploration", "assumptions": [],
              "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}}
    c = ev["coverage"]
    tot = {}
    for r in m.runs:
        for k, v in re.findall(r" (\w+)=(\d+)(?= )", r.split("::")[0]):
            if k not in ("kind",):
                tot[k] = tot.get(k, 0) + int(v)
    fps = {re.search(r"fp=(\w+)", r).group(1) for r in m.runs}
    c["asan_cases"] = c["evaluations"]
    c["miri_runs"] = len(m.runs)
    c["miri_distinct_interleavings"] = len(fps)
    c["miri_observed"] = tot
    c["miri_cut_short"] = m.cut
    c["miri_not_judged"] = {k: len(v) for k, v in m.other.items()}
    c["evaluations"] += len(m.runs)
    c["distinct_nontrivial"] += len(fps)
    c["rule"] = ("cases of the harness under AddressSanitizer: " + c["rule"] + " || Miri runs: 2 or 3 threads on one "
                 "cache of any kind, everything drawn from Miri's seed; distinct by the order of the operations")
    c["samples"] += m.runs[:3]
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"C15 {tier} seed {seed}: asan {c['asan_cases']} cases, miri {len(m.runs)} runs, {len(fps)} distinct, "
          f"{tot.get('ops', 0)} operations, {m.cut} cut short, {len(viol)} violations, {ev['wall_s']} s")
    for k, v in m.other.items():
        print(f"note: not judged by C15: {len(v)}x {k} e.g. {v[0]}")
    for msg, path in viol:
        print(msg)
        print(f"VIOLATION property=C15 replay={path}")
    if viol:
        return 1
    if asan_rc not in (0, 1, None) or (miri_s > 0 and not m.runs):
        print("inconclusive: the runs did not end as they should")
        return 3
    return 0


sys.exit(main())
