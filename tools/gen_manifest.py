"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("runtime monitor: online linearizability checking (per-key register histories, all placements searched) of multi-threaded stress with injected delays at marked points", "Every per-key history is checked for a legal linearization; interleavings come from random delays at marked points, so only executed schedules are covered."),
 "C02": ("runtime monitor: reference-map oracle judging every call of long random single-caller histories on the real caches (sync, segmented, async)", "Every call of every generated history is compared with a reference model of map, lifetimes and outcomes; trusts the model, the mock clock hook and the generator's coverage."),
 "C03": ("runtime monitor: exact-deadline oracle on a mock clock over random histories", "Visibility is judged to the nanosecond at and around each deadline; maintenance removal is judged within the documented slack. Trusts the mock clock hook."),
 "C04": ("runtime monitor: expiry-hook call log and timer oracle on a mock clock", "Each hook call and its arguments, and each expiration are judged against the model; timers are judged within the wheel's resolution."),
 "C05": ("runtime monitor: bulk-invalidation oracle over random histories incl. multi-batch scans", "Single-caller histories are judged exactly; concurrent ones for values completed before the invalidation."),
 "C06": ("runtime monitor: capacity and no-needless-eviction oracle at every settled state", "Judged after every settling of maintenance, from iteration, counts and listener."),
 "C07": ("runtime monitor: exact recency-list and request-count oracle judging every eviction of random scripts, newcomers made about as popular as their victims, and sketch ageing runs", "Maintenance runs after each write or read burst; LRU victims are judged exactly, TinyLFU ones up to sketch collisions (a mismatch must repeat under four hashers). Reads and writes queued together, and concurrent ones, are not judged."),
 "C08": ("runtime monitor: exactly-once and cause oracle over the recorded listener log", "Each departed value is matched with exactly one notification with a permitted cause."),
 "C09": ("runtime monitor: conservation of entry_count and weighted_size against contents at rest", "Counts are compared with iteration at every settled state, and with zero after emptying."),
 "C10": ("runtime monitor: initialiser enter/exit log and result oracle over stress with injected delays", "Overlap, count and provenance of every initialiser run and result are judged; covers executed schedules."),
 "C11": ("runtime monitor: fault injection (errors, none, panics) into initialisers and computes with linearizability and completion oracles", "Faults in all call kinds with waiters; completion is judged by thread state, never by wall clock alone."),
 "C12": ("runtime monitor: linearizability and mutual-exclusion oracle over concurrent compute histories", "Each compute outcome is judged as an atomic read-modify-write; closures are checked for overlap."),
 "C13": ("runtime monitor: iteration oracle with interleaved mutations", "Each iterator item is judged against the recorded history of its key."),
 "C14": ("runtime monitor: cooperative executor that suspends, orders and drops futures at random at every suspension point, judged by linearizability, exactly-once, mutual-exclusion, leak and completion oracles", "Every poll order and drop point comes from a seeded single-threaded executor (about 10^5 schedules a run), so stalls are decided exactly; only suspensions the crate can really make are used."),
 "C15": ("runtime monitor: Miri (undefined behaviour, data races with weak memory, Tree Borrows) and AddressSanitizer over random small and large workloads with seeded preemption, plus canaried keys and values", "Each Miri run is one seeded interleaving of a small workload, judged by the interpreter; AddressSanitizer judges thousands of large cases. Only executed code and schedules are covered."),
 "C16": ("runtime monitor: instance-tracking keys and values (live counts, canaries, weak probes)", "Counts every construction and drop; departed values must be released once reclamation demonstrably passed them."),
 "C17": ("runtime monitor: completion oracle (threads asleep without CPU, or spinning) over stress with full queues, and backlog bounds", "Each call must return under stress; backlog bounds checked where only ordinary operations run."),
 "C18": ("runtime monitor: listener enter/exit event log judged against departure order per key", "Overlap and order of listener calls per key are judged; listener panics injected."),
 "C20": ("runtime monitor: report/refusal/zero-capacity oracles over random builder settings, and the reference-map oracle over histories under extreme settings (weights to u32::MAX, capacities to u64::MAX, lifetimes from 0 to 1000 years, centuries of clock)", "Every builder path is compared with what the cache reports; zero-capacity calls are judged one by one. Initial capacities up to 300,000 only."),
 "C21": ("runtime monitor: one caller is held inside each kind of closure (fault injection) while another makes random calls that must not wait; completion judged by thread state and, for async tasks, by an executor that knows when no task can go on; results by a reference map", "Every held place of the API is combined with random scripts of calls (hundreds of calls each, filling the queue of reads); waits are judged by threads asleep without CPU time, never by wall clock alone."),
 "C19": ("runtime monitor: the single-cache reference oracle applied to segmented caches", "As C02..C09 with segment counts 1..64 and skewed hashers."),
}
NA = {}
PROPS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
HOOKS = ["81e7e3e", "1a37cc4", "aeb9c41"]
import subprocess
full = []
for h in HOOKS:
    r = subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True)
    full.append(r.stdout.strip() or h)
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(moka_verif)", "enable": "RUSTFLAGS=\"--cfg moka_verif\"", "source_commits": full},
 "checks": [],
 "not_applicable": [],
 "notes": "See DESIGN.md. Violations already repaired are listed in KNOWN_FINDINGS.md.",
}
for p in PROPS:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "the check is not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
